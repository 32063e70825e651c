import json,jsonschema,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,sc); ids.append(d['id'])
m=json.load(open(R+'/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
have=[c['property'] for c in m['checks']]+[n['property'] for n in m.get('not_applicable',[])]
assert sorted(have)==sorted(ids),(set(ids)^set(have))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(R+'/evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open(R+'/evidence/'+f)),e)
print('ok')
