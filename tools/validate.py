import json,jsonschema,sys,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); bad=0
for l in open('/verif/properties.jsonl'):
    o=json.loads(l)
    try: jsonschema.validate(o,s)
    except Exception as e: print(o['id'],e.message[:150]); bad=1
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('/verif/evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),e)
print("bad" if bad else "ok")
