import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for s in d['coverage']['scenarios']: print({k:s[k] for k in ('name','wall_s','paths','proved','queries','solver_s','witnesses','replayed','truncated')}, [i['msg'][:80] for i in s['inconclusive']], s['limits'])
