import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for e in sorted(d['entries'],key=lambda e:-e['wall_s'])[:int(sys.argv[2]) if len(sys.argv)>2 else 8]: print(e['wall_s'],e['paths'],e['z3_queries'],e['solver_s'],e['entry'],e.get('bound'))
