import json,jsonschema,sys,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); n=0
for l in open('/verif/properties.jsonl'):
    x=json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(x): print(x['id'], list(e.path), e.message[:150]); n+=1
m=json.load(open('/root/.vp/MANIFEST.schema.json')); M=json.load(open('/verif/MANIFEST.json'))
for e in jsonschema.Draft202012Validator(m).iter_errors(M): print('MANIFEST', list(e.path), e.message[:150]); n+=1
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')) if os.path.isdir('/verif/evidence') else []:
    for er in jsonschema.Draft202012Validator(e).iter_errors(json.load(open('/verif/evidence/'+f))): print(f, list(er.path), er.message[:150]); n+=1
sys.exit(1 if n else 0)
