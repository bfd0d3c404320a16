#!/usr/bin/env python3
# prop.py ID old new: edits a property statement
import json,sys
ls=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
for p in ls:
    if p['id']==sys.argv[1]:
        assert sys.argv[2] in p['statement']
        p['statement']=p['statement'].replace(sys.argv[2],sys.argv[3])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in ls))
