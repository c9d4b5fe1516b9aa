"""measures how many cases of the bounded part a worker gets through, writes harness/caps.json (cases per worker of a quick run)"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check, config
f = os.path.join(check.HERE, 'harness', 'caps.json')
caps = json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:] or sorted(config.PROPS):
    d = tempfile.mkdtemp()
    h = check.Harness(p, config.PROPS[p], d, 1)
    h.build()
    r = h.run(30)
    caps[p] = int(h.cases / check.JOBS)
    print(p, caps[p], r[:1], h.hung[:5], flush=True)
    json.dump(caps, open(f, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(d)
