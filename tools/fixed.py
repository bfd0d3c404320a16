#!/usr/bin/env python3
# fixed.py PROP COMMIT WHAT
import json,sys
k=json.load(open('/verif/known_findings.json'))
k['fixed'].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4]))
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
