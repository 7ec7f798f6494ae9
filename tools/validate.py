import json,jsonschema,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    try: jsonschema.validate(json.loads(l),s)
    except Exception as e: print(json.loads(l)['id'], str(e)[:300])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
