"""Common machinery: groups of proof obligations, running, evidence, verdicts."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("HV_REPO", "/repo")
EVID = os.environ.get("HV_EVID", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

class Obligation:
    def __init__(self, name, status, detail="", backend="", secs=0.0, kind="proof"):
        self.name, self.status, self.detail = name, status, detail
        self.backend, self.secs, self.kind = backend, secs, kind

class Outcome:
    """Result of one group."""
    def __init__(self, group):
        self.group = group
        self.obligations = []      # list of Obligation
        self.violation = None      # dict(obligation, replay_inputs, confirmed, text)
        self.notes = []
        self.functions = []
        self.kind = "proof"
        self.secs = 0.0
        self.error = None          # extraction/tool error text
        self.undecided = False

def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    t0 = time.time()
    pre = None
    if mem_gb:
        import resource
        def pre():
            b = int(mem_gb * (1 << 30)); resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre,
                         start_new_session=True, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, e = p.communicate()
        return -999, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t0

def run_property(pid, groups, assumptions, level="proof", trusted=None, explanation=None, checker_cmd=None):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="hv_%s_" % pid)
    outs = []
    deadline = t0 + float(os.environ.get("HV_BUDGET", "700"))
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("HV_JOBS", "8"))) as ex:
            futs = {ex.submit(_guard, g, work, deadline): g for g in groups}
            for f in cf.as_completed(futs):
                outs.append(f.result())
        order = {id(g): i for i, g in enumerate(groups)}
        outs.sort(key=lambda o: order[id(o.group)])
        _battery(pid, outs, work, deadline)
        return _finish(pid, outs, assumptions, level, trusted, explanation, checker_cmd, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _battery(pid, outs, work, deadline):
    """an obligation failed without a failing input, or the verifier gave no answer: look for an input on the real program"""
    from . import battery
    if not battery.has(pid): return
    viol = [o for o in outs if o.violation or (o.undecided and not o.error)]; err = [o for o in outs if o.error]
    if any(o.violation and o.violation.get("confirmed") for o in viol): return
    if not viol and not err and TIER != "thorough": return
    secs = max(5, min(120 if TIER == "thorough" and not viol and not err else 45, deadline - time.time() - 15)); st = {}
    o = (viol or err or outs)[0]
    try: r = battery.run(pid, os.path.join(work, "battery"), secs, SEED, st)
    except Exception as x:
        o.notes.append("failing-input search on the program unavailable: " + str(x)[-300:]); return
    o.notes.append("failing-input search on the program (bounded, %s): %s" % (st, "found" if r else "none found"))
    if r:
        old = o.violation or {}
        bad = [b for b in o.obligations if b.status != "ok"]
        o.violation = dict(obligation=old.get("obligation") or (bad[0].name if bad else "bounded search on the program"), inputs=r[0], confirmed=True,
                           how="the input (SCAD text and options, or arguments of the program built from c/bat.c) run on /repo's program; tools/hv/battery.py", text=r[1] + "\n" + old.get("text", ""))

def _guard(g, work, deadline):
    """every group runs in its own process"""
    import multiprocessing as mp
    ctx = mp.get_context("fork"); a, b = ctx.Pipe(False)
    t0 = time.time()
    def child():
        a.close()
        o = _guard1(g, work, deadline); o.group = None
        b.send(o); b.close()
    p = ctx.Process(target=child); p.start(); b.close()
    o = None
    try:
        if a.poll(max(1, deadline + 90 - time.time())): o = a.recv()
    except EOFError: pass
    if o is None:
        o = Outcome(None); o.undecided = True
        o.error = "group process error: ended without a result"
        o.obligations.append(Obligation("all", "undecided: process ended without a result", kind=getattr(g, "kind", "proof")))
        try: p.kill()
        except Exception: pass
    p.join(); o.group = g; o.secs = time.time() - t0
    return o

def _guard1(g, work, deadline):
    t0 = time.time()
    try:
        d = os.path.join(work, g.name.replace("/", "_")); os.makedirs(d, exist_ok=True)
        o = g.run(d, deadline)
    except Exception:
        o = Outcome(g); o.error = traceback.format_exc()
    o.secs = time.time() - t0
    return o

def _known(pid):
    f = os.path.join(VERIF, "known-findings.txt"); r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=P00 key=<group>/<obligation> <text>
                body = l[len("finding: property=%s " % pid):]
                k, _, text = body.partition(" ")
                r.append((k[len("key="):], text))
    return r

def _finish(pid, outs, assumptions, level, trusted, explanation, checker_cmd, t0):
    viol, obl, dis = [], 0, 0
    per, bounded, bdis, undecided, errors, backends, ssecs, funcs = [], 0, 0, [], [], {}, 0.0, set()
    known = _known(pid); known_hit = []
    samples = []
    for o in outs:
        g = o.group
        if o.error:
            errors.append(dict(group=g.name, error=o.error[-2000:]))
        funcs.update(getattr(g, "functions", []) or [])
        ok = 0
        for b in o.obligations:
            if b.kind == "bounded":
                bounded += 1; bdis += b.status == "ok"
            else:
                obl += 1; dis += b.status == "ok"
            if b.status != "ok": undecided.append("%s/%s: %s" % (g.name, b.name, b.status))
            ok += b.status == "ok"
            d = backends.setdefault(b.backend, dict(obligations=0, discharged=0))
            d["obligations"] += 1; d["discharged"] += b.status == "ok"
        ssecs += getattr(o, "solver_s", 0.0)
        per.append(dict(group=g.name, kind=o.kind, functions=getattr(g, "functions", []), obligations=len(o.obligations),
                        discharged=ok, wall_s=round(o.secs, 2), notes=o.notes))
        if len(samples) < 12 and o.obligations: samples.append("%s/%s" % (g.name, o.obligations[0].name))
        if o.undecided and not o.violation and not o.error:
            bad = [b for b in o.obligations if b.status != "ok"]
            if bad: o.violation = dict(obligation=bad[0].name, inputs=[], confirmed=False, how="", text="obligation not discharged: %s\n%s" % (bad[0].status, "\n".join(o.notes)))
        if o.violation:
            key = "%s/%s" % (g.name, o.violation["obligation"])
            hit = [k for k in known if k[0] == key]
            if hit: known_hit.append((key, hit[0][1]))
            else: viol.append((o, key))
    rc = 0
    for key, text in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    conf = any(o.violation.get("confirmed") for o, key in viol)
    for o, key in viol:
        v = o.violation
        if conf and not v.get("confirmed"):      # one failing input stands for all obligations that failed with it
            print("obligation failed: %s" % key); rc = 1; continue
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        json.dump(dict(property=pid, group=o.group.name, obligation=v["obligation"], inputs=v.get("inputs"),
                       confirmed_on_real_code=bool(v.get("confirmed")), how_to_replay=v.get("how"),
                       verifier_output=v.get("text", "")[-8000:]), open(path, "w"), indent=1)
        print("obligation failed: %s" % key)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v.get("confirmed") else " no-failing-input-found"))
        rc = 1
    allbounded = obl == 0
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
        coverage=dict(obligations=obl, discharged=dis, checker_cmd=checker_cmd or ("python3 /verif/tools/check.py %s" % pid),
            trusted_base=trusted or [], bounded_obligations=bounded, bounded_discharged=bdis,
            backends=backends, solver_s=round(ssecs, 2), functions_under_contract=sorted(funcs), groups=per,
            undischarged=undecided[:50], tool_errors=errors, samples=samples,
            known_findings=[k for k, _ in known_hit], explanation=explanation or ""),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged (+%d/%d bounded), %d violations, %.1fs" % (pid, dis, obl, bdis, bounded, len(viol), time.time() - t0))
    for e in errors: print("TOOL-ERROR %s: %s" % (e["group"], " | ".join([l for l in e["error"].strip().splitlines() if "error" in l.lower()][:4] or e["error"].strip().splitlines()[-1:])))
    for u in undecided[:20]: print("not discharged: " + u)
    return rc
