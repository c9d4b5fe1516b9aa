"""obligations discharged at the time of the baseline that are not discharged now"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tsymvc'))
import vc, specs
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'baseline')
for g in sys.argv[1:] or [x[:-5] for x in sorted(os.listdir(d))]:
    res, missing, notes = vc.run([g])
    now = vc.summarize(res)
    base = json.load(open(os.path.join(d, g + '.json')))
    bad = []
    for k, b in base.items():
        n = now.get(k)
        if n is None:
            bad.append(k + ' missing')
        elif b['state'] == 'ok' and n['state'] != 'ok':
            bad.append(k + ' ' + n['state'])
        else:
            bad += ['%s %s %s' % (k, c, n['clauses'].get(c)) for c, s in b['clauses'].items() if s == 'proved' and n['clauses'].get(c) != 'proved']
    print(g, len(res), 'functions', sum(len(r['obls']) for r in res), 'obligations', round(sum(r['solver_s'] for r in res)), 's solver;', 'lost:', bad, flush=True)
