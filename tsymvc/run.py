"""developer driver: python3-vt run.py SPEC qual-substring..."""
import sys, time, importlib
sys.setrecursionlimit(20000)
sys.path.insert(0, '/verif/tsymvc')
from frontend import Program
from engine import *
import specs

def main():
    group = sys.argv[1]
    pats = sys.argv[2:]
    g = specs.GROUPS[group]
    prog = Program(g['files'])
    spec = g['spec']()
    for t in g['targets']:
        qual, sig = t[0], (t[1] if len(t) > 1 else None)
        opts = t[2] if len(t) > 2 else None
        if pats and not any(p in qual for p in pats):
            continue
        fs = specs.find_targets(prog, qual, sig)
        if not fs:
            print('MISSING', qual, sig)
        for f in fs:
            c = spec.find(f.qual, f.sig, len(f.params)) or specs.base_contract(spec, f)
            t0 = time.time()
            try:
                ex = Exec(prog, spec, f, c, opts=opts)
                ex.verify()
                st = {}
                for o in ex.obls.values():
                    st.setdefault(o.status, []).append((o.name, o.line))
                print('%-60s %5.1fs paths=%d q=%d %s' % (f.qual + ' ' + f.sig[:40], time.time() - t0, ex.stats['paths'], ex.stats['queries'], {k: len(v) for k, v in st.items()}))
                for k in st:
                    if k != 'proved':
                        for x in st[k]:
                            print('      ', k, x)
                for li in ex.loopinfo.values():
                    if '-v' in sys.argv: print('   loop W', li['W'], 'dead', li['dead'])
            except (Unsupported, Budget) as u:
                print('%-60s %5.1fs %s: %s (line %s)' % (f.qual + ' ' + f.sig[:40], time.time() - t0, type(u).__name__, u, ex.curline))
                if '-t' in sys.argv:
                    import traceback; traceback.print_exc()

main()
