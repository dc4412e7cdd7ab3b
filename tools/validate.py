import json, jsonschema, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); m=json.load(open('/root/.vp/MANIFEST.schema.json'))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open(V+'/MANIFEST.json')), m)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir(V+'/evidence'):
    jsonschema.validate(json.load(open(V+'/evidence/'+f)), e)
print('valid')
