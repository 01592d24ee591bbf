"""CBMC back end: contracts on the real code (goto-cc / goto-instrument --dfcc / cbmc),
with replay of counterexamples on the natively compiled real code and a native
search that evaluates the same contract text."""
import os, json, re, time
from .core import *

CFLAGS = ["-I" + REPO + "/include", "-I" + REPO + "/src/hob3lop", "-I" + REPO + "/src/hob3l", "-I" + REPO + "/src/hob3lbase", "-I" + REPO + "/src/hob3lmat", "-I" + VERIF + "/lib",
          "-DHV_REPO=" + REPO, "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE"]
CHECKS = ["--no-signed-overflow-check"]   # product is built with -fwrapv; overflow is stated in contracts instead

NATFLAGS = ["-g", "-O1", "-w", "-fwrapv", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,nonnull-attribute", "-fno-sanitize-recover=undefined", "-D_GNU_SOURCE"]
def native_lib(d):
    """the real library sources as an archive: supplies callees a harness does not include as text"""
    import fcntl, glob
    from concurrent.futures import ThreadPoolExecutor
    lib = os.path.join(d, "libhv.a")
    with open(os.path.join(d, "libhv.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib): return lib
        src = [f for k in ("hob3lbase", "hob3lmat", "hob3lop", "hob3l") for f in glob.glob(os.path.join(REPO, "src", k, "*.c")) if "test" not in os.path.basename(f) and os.path.basename(f) != "main.c"]
        objs = [os.path.join(d, "libhv-%d.o" % i) for i in range(len(src))]
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda a: sh(["gcc"] + NATFLAGS + CFLAGS + ["-c", a[0], "-o", a[1]], timeout=120), zip(src, objs)))
        sh(["ar", "rcs", lib] + [o for o in objs if os.path.exists(o)])
        return lib

class Cbmc:
    def __init__(self, name, file, harness, src=(), enforce=(), replace=(), unwind=None, unwindset=None, kind="proof",
                 functions=None, defines=(), opts=(), native=True, native_src=None, loop_contracts=False, timeout=600,
                 solver=None, native_secs=None, remove_bodies=(), mem_gb=14, ignore=(), bound_note=None, native_defines=(),
                 cbmc_src=(), post_link=()):
        self.name, self.file, self.harness = name, file, harness
        self.src, self.enforce, self.replace = list(src), list(enforce), list(replace)
        self.unwind, self.unwindset, self.kind = unwind, unwindset, kind
        self.functions = functions if functions is not None else list(enforce)
        self.defines, self.opts, self.native = list(defines), list(opts), native
        self.native_src = list(native_src) if native_src is not None else list(src)
        self.loop_contracts, self.timeout, self.solver = loop_contracts, timeout, solver
        self.native_secs = native_secs
        self.remove_bodies = list(remove_bodies); self.mem_gb = mem_gb; self.ignore = list(ignore); self.bound_note = bound_note
        self.native_defines = list(native_defines); self.cbmc_src = list(cbmc_src)

    # ---- build
    def _cbmc_build(self, d):
        a = os.path.join(d, "a.gb"); b = os.path.join(d, "b.gb")
        cmd = ["goto-cc", "-DHV_CBMC=1", "--function", self.harness] + CFLAGS + ["-D" + x for x in self.defines] + \
              [os.path.join(VERIF, "c", self.file), os.path.join(VERIF, "lib", "hv_cbmc.c")] + \
              [os.path.join(VERIF, "c", s) for s in self.cbmc_src] + \
              [os.path.join(REPO, s) for s in self.src] + ["-o", a]
        rc, o, e, _ = sh(cmd, timeout=120)
        if rc != 0: raise RuntimeError("extraction (goto-cc) failed: " + (o + e)[-1500:])
        cur = a
        if self.remove_bodies:
            n = os.path.join(d, "a1.gb")
            rc, o, e, _ = sh(["goto-instrument"] + sum([["--remove-function-body", f] for f in self.remove_bodies], []) + [cur, n], timeout=120)
            if rc != 0: raise RuntimeError("goto-instrument failed: " + (o + e)[-1500:])
            cur = n
        if self.enforce or self.replace or self.loop_contracts:
            cmd = ["goto-instrument", "--dfcc", self.harness]
            for f in self.enforce: cmd += ["--enforce-contract", f]
            for f in self.replace: cmd += ["--replace-call-with-contract", f]
            if self.loop_contracts: cmd += ["--apply-loop-contracts"]
            cmd += [cur, b]
            rc, o, e, _ = sh(cmd, timeout=200)
            if rc != 0: raise RuntimeError("contract instrumentation failed: " + (o + e)[-1500:])
            cur = b
        elif not getattr(self, 'nodrop', False):
            rc, o, e, _ = sh(["goto-instrument", "--drop-unused-functions", cur, b], timeout=100)
            if rc == 0: cur = b
        return cur

    def _cbmc_run(self, gb, deadline, extra=(), solver=None):
        cmd = ["cbmc", gb, "--json-ui", "--trace", "--object-bits", "10"] + CHECKS
        if self.unwind is not None: cmd += ["--unwind", str(self.unwind)]
        if self.unwindset: cmd += ["--unwindset", self.unwindset]
        if solver: cmd += ["--" + solver]
        cmd += self.opts + list(extra)
        to = max(5, min(self.timeout, deadline - time.time()))
        rc, o, e, s = sh(cmd, timeout=to, mem_gb=self.mem_gb)
        if rc == -999: return None, "timeout after %.0fs" % s, s
        try: j = json.loads(o)
        except Exception: return None, "cbmc output unreadable: " + (o[-500:] + e[-500:]), s
        res = None; msgs = []
        for m in j:
            if "result" in m: res = m["result"]
            if m.get("messageType") in ("ERROR",): msgs.append(m.get("messageText", ""))
        if res is None: return None, "cbmc: " + " ".join(msgs)[-600:], s
        return res, "", s

    def run(self, d, deadline):
        out = Outcome(self); out.kind = self.kind; out.solver_s = 0.0
        if self.bound_note: out.notes.append("bound: " + self.bound_note)
        fails, reach = [], 0
        try: gb = self._cbmc_build(d)
        except RuntimeError as x:
            out.error = str(x); out.undecided = True
            self._search(d, out, "no goto program", deadline, secs=self.native_secs or 20, report_plain=False)
            return out
        res, err, s = self._cbmc_run(gb, deadline, solver=self.solver); out.solver_s += s
        be = "cbmc-" + (self.solver or "sat")
        if res is None:
            out.obligations.append(Obligation("all", "undecided: " + err, backend=be, kind=self.kind)); out.undecided = True
            self._search(d, out, "undecided (%s)" % err, deadline, secs=self.native_secs or 20, report_plain=False)
            return out
        for r in res:
            desc, st = r.get("description", ""), r["status"]
            if desc.startswith("hv_reach:"):
                if st == "FAILURE": reach += 1
                else: out.obligations.append(Obligation(desc, "vacuous", backend=be, kind=self.kind))
                continue
            if desc.startswith("recursion unwinding") or ".unwind." in r["property"] or desc.startswith("unwinding assertion"):
                if st != "SUCCESS":
                    out.undecided = True
                    out.obligations.append(Obligation(r["property"], "unwinding bound exceeded", backend=be, kind=self.kind))
                    continue
            if any(re.search(p, desc) or re.search(p, r["property"]) for p in self.ignore): continue
            name = desc[3:] if desc.startswith("hv:") else "%s (%s)" % (r["property"], desc)
            if st == "SUCCESS": out.obligations.append(Obligation(name, "ok", backend=be, kind=self.kind))
            elif st == "FAILURE":
                out.obligations.append(Obligation(name, "failed", backend=be, kind=self.kind)); fails.append((name, r))
            else: out.obligations.append(Obligation(name, st.lower(), backend=be, kind=self.kind)); out.undecided = True
        if reach == 0 and not fails:
            out.obligations.append(Obligation("reachability", "vacuous: harness end never reached", backend=be, kind=self.kind)); out.undecided = True
        if fails:
            fails.sort(key=lambda f: 0 if f[1].get("description", "").startswith("hv:") else 1)
            for name, r in fails:
                inputs = self._trace_inputs(r.get("trace", []))
                conf, txt = self._replay(d, inputs)
                if conf:
                    out.violation = dict(obligation=name, inputs=inputs, confirmed=True, how=self._how(), text=txt + "\n" + json.dumps(self._where(r)))
                    break
            else:
                name, r = fails[0]
                if not self._search(d, out, name, deadline, secs=self.native_secs or 30, report_plain=False):
                    out.violation = dict(obligation=name, inputs=self._trace_inputs(r.get("trace", [])), confirmed=False, how=self._how(), text=json.dumps(self._where(r)))
        elif out.undecided:
            self._search(d, out, "undecided", deadline, secs=self.native_secs or 20, report_plain=False)
        elif TIER == "thorough" and self.native:
            self._search(d, out, "cross-check", deadline, secs=10, report_plain=False)
        return out

    def _where(self, r):
        return dict(property=r.get("property"), description=r.get("description"), location=r.get("sourceLocation"))

    def _how(self):
        return "cc -DHV_MAIN=%s %s %s lib/hv_native.c ...; ./a.out replay INPUTS LOG  (inputs: one decimal 64-bit value per line, in order)" % (
            self.harness, self.file, " ".join(self.native_src))

    def _trace_inputs(self, trace):
        v = []
        for st in trace:
            if st.get("stepType") == "assignment" and st.get("lhs") == "hv_in_log" and st.get("sourceLocation", {}).get("function") == "hv_in":
                b = st["value"].get("binary")
                v.append(int(b, 2) if b is not None else int(re.sub(r"[^0-9-]", "", st["value"].get("data", "0"))) & (2**64 - 1))
        return v

    # ---- native
    def _native_build(self, d):
        exe = os.path.join(d, "nat")
        if os.path.exists(exe): return exe
        cmd = ["gcc"] + NATFLAGS + ["-DHV_MAIN=" + self.harness] + CFLAGS + ["-D" + x for x in self.defines + self.native_defines] + \
              [os.path.join(VERIF, "c", self.file), os.path.join(VERIF, "lib", "hv_native.c")] + \
              [os.path.join(REPO, s) for s in self.native_src] + ["-o", exe, "-lm"]
        rc, o, e, _ = sh(cmd, timeout=120)
        if rc != 0 and "undefined reference" in o + e:
            lib = native_lib(os.path.dirname(d))
            rc, o, e, _ = sh(cmd[:-1] + ["-Wl,--allow-multiple-definition", lib, "-lm"], timeout=120)
        if rc != 0: raise RuntimeError("native build failed: " + (o + e)[-1500:])
        return exe

    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=9", UBSAN_OPTIONS="print_stacktrace=0:exitcode=9")

    def _replay(self, d, inputs):
        if not self.native: return False, ""
        try: exe = self._native_build(d)
        except Exception as x: return False, str(x)
        f = os.path.join(d, "in.txt"); open(f, "w").write("\n".join(map(str, inputs)) + "\n")
        rc, o, e, _ = sh([exe, "replay", f, os.path.join(d, "log.bin")], timeout=60, env=self.ENV)
        return rc == 9 or rc < -1 and rc != -999, (o + e)[-3000:]

    def _search(self, d, out, name, deadline, secs, report_plain):
        if not self.native: return False
        try: exe = self._native_build(d)
        except Exception as x:
            out.notes.append("native search unavailable: " + str(x)[-300:]); return False
        secs = min(secs, max(2, deadline - time.time() - 5))
        log = os.path.join(d, "log.bin")
        rc, o, e, _ = sh([exe, "random", str(secs), str(SEED), log], timeout=secs + 60, env=self.ENV)
        if rc == 9 or (rc < -1 and rc != -999):
            import struct
            raw = open(log, "rb").read(); n = struct.unpack("<Q", raw[:8])[0]
            inputs = list(struct.unpack("<%dQ" % n, raw[8:8 + 8 * n]))
            conf, txt = self._replay(d, inputs)
            m = re.search(r"HV_FAIL (.*)", o)
            out.violation = dict(obligation=(m.group(1).split(" (")[0] if m else name), inputs=inputs, confirmed=conf, how=self._how(), text=(o + e)[-3000:] + txt)
            return True
        out.notes.append("native contract search (%s): %s" % (name, o.strip()[-200:]))
        return False
