"""regenerates baseline/GROUP.json: the obligations discharged on the reference tree"""
import sys, os, json
import vc, specs
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'baseline')
os.makedirs(out, exist_ok=True)
for g in sys.argv[1:] or specs.GROUPS:
    res, missing, notes = vc.run([g])
    json.dump(vc.summarize(res), open(os.path.join(out, g + '.json'), 'w'), indent=1, sort_keys=True)
    print(g, len(res), 'functions', missing, notes, [r['key'] + ' ' + r['why'] for r in res if r['state'] != 'ok'])
