import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for c in e['coverage']['cases']: print({k:c[k] for k in ('case','paths','truncated','wall_s','queries','solver_s','reached')})
