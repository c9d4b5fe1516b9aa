import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)) + '/..'
sys.path.insert(0, H + '/tsymvc')
import config
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    if p not in config.PROPS:
        continue
    c = config.PROPS[p]
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
                       technique=c.get('technique', config.TECH), level=c['level'], level_note=c.get('note', config.NOTE)))
na = [dict(property=p, reason=config.NA.get(p, 'no contract within reach yet, see DESIGN.md')) for p in props if p not in config.PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt -m py_compile check.py tsymvc/*.py', checks=checks, not_applicable=na,
               hooks=dict(guard='none: no hooks in /repo', enable='not needed: the checks read and compile the unmodified sources', source_commits=[])),
          open(H + '/MANIFEST.json', 'w'), indent=1)
