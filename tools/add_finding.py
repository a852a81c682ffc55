# add_finding.py ID PROP HASH TEXT: record a repaired defect
import json, sys
p = '/verif/KNOWN_FINDINGS.json'
d = json.load(open(p))
i, prop, h, t = sys.argv[1:5]
d.append(dict(id=i, property=prop, fixed=h, what='fixed: property=%s %s %s' % (prop, h, t)))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
