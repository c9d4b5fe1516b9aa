"""Runs the verifier on groups of functions in parallel, returns plain data."""
import sys, os, time, multiprocessing as mp, re
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from frontend import Program, ExtractError
import engine
from engine import Exec, Unsupported, Budget
import specs

PROG = None
SPECS = {}


def fkey(f):
    return '%s/%d' % (f.qual, len(f.params))


def tasks_of(group, prog):
    g = specs.GROUPS[group]
    out, missing = [], []
    for t in g['targets']:
        qual, sig = t[0], (t[1] if len(t) > 1 else None)
        opts = t[2] if len(t) > 2 else None
        fs = specs.find_targets(prog, qual, sig)
        if not fs:
            missing.append(qual)
        for f in fs:
            out.append((group, f, opts))
    if out:
        for nm, lem in SPECS[group].foldlemmas:
            out.append((group, out[0][1], dict(lemma=nm)))
    return out, missing


def run_task(i):
    group, f, opts = TASKS[i]
    spec = SPECS[group]
    c = spec.find(f.qual, f.sig, len(f.params), True) or specs.base_contract(spec, f)
    r = dict(group=group, fn=f.qual, key=fkey(f), sig=f.sig, file=os.path.basename(f.file or f.tu.name), line=f.line, state='ok', obls=[],
             why='', paths=0, queries=0, solver_s=0.0, covers=0, inlined=[], called=[])
    t0 = time.time()
    if c is None:
        r['state'] = 'no-contract'
        return r
    o = dict(opts or {})
    o.setdefault('max_time', TMAX)
    ex = Exec(PROG, spec, f, c, opts=o)
    try:
        if opts and 'lemma' in opts:
            r['fn'] = r['key'] = 'lemma ' + opts['lemma']
            ex.prove_lemma(opts['lemma'], dict(spec.foldlemmas)[opts['lemma']])
        else:
            ex.verify()
        if not (opts and 'lemma' in opts) and any(x.status == 'unknown' for x in ex.obls.values()) and time.time() - t0 < TMAX:
            o2 = dict(o)
            o2['prove_ms'] = 4 * o.get('prove_ms', engine.OPTS['prove_ms'])
            ex2 = Exec(PROG, spec, f, c, opts=o2)
            try:
                ex2.verify()
                ex = ex2
            except (Unsupported, Budget):
                pass
    except Unsupported as u:
        r['state'], r['why'] = 'unsupported', '%s (line %s)' % (u, ex.curline)
    except Budget as u:
        r['state'], r['why'] = 'budget', str(u)
    except RecursionError:
        r['state'], r['why'] = 'unsupported', 'recursion limit'
    except Exception as e:
        r['state'], r['why'] = 'unsupported', 'internal: %s: %s (line %s)' % (type(e).__name__, e, getattr(ex, 'curline', None))
    for x in ex.obls.values():
        r['obls'].append(dict(name=x.name, cls=x.cls, status=x.status, line=x.line, info=x.info if x.status != 'proved' else '', backend=x.backend))
    r.update(paths=ex.stats['paths'], queries=ex.stats['queries'], solver_s=round(ex.stats['solver_s'], 3), covers=ex.covers,
             inlined=sorted(map(str, ex.inlined)), called=sorted(map(str, ex.called)), wall=round(time.time() - t0, 2))
    return r


def run(groups, jobs=8, tmax=150, only=None):
    """returns (results, missing, notes)"""
    global PROG, TASKS, TMAX
    TMAX = tmax
    files = []
    notes = []
    for g in groups:
        for f in specs.GROUPS[g]['files']:
            if f not in files:
                files.append(f)
    try:
        PROG = Program(files)
    except ExtractError as e:
        return [], [], ['extraction failed: %s' % e]
    TASKS = []
    missing = []
    for g in groups:
        SPECS[g] = specs.GROUPS[g]['spec']()
        t, m = tasks_of(g, PROG)
        TASKS += t
        missing += m
    if only:
        TASKS = [t for t in TASKS if any(o in t[1].qual for o in only)]
    res = []
    # longest first according to the baseline is not needed: dynamic scheduling with chunk size one
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_task, range(len(TASKS)), 1):
            res.append(r)
    res.sort(key=lambda r: (r['group'], r['fn'], r['sig']))
    return res, missing, notes


def summarize(res):
    """clause statuses at (function, clause) level"""
    out = {}
    for r in res:
        if r['state'] != 'ok':
            out[r['key']] = dict(state=r['state'], why=r['why'], clauses={})
            continue
        cl = {}
        for o in r['obls']:
            s = cl.get(o['name'], 'proved')
            if o['status'] != 'proved':
                s = o['status'] if s == 'proved' else s
            cl[o['name']] = s
        d = out.setdefault(r['key'], dict(state='ok', why='', clauses={}))
        for n, s in cl.items():
            d['clauses'][n] = s if d['clauses'].get(n, 'proved') == 'proved' else d['clauses'][n]
    return out


def again(sel, drop=(), factor=4, jobs=8, tmax=150):
    """verifies the functions whose result satisfies sel once more, with more time and without the contracts of drop"""
    global TASKS, TMAX
    TMAX = tmax
    old = TASKS
    for g in SPECS:
        SPECS[g] = specs.GROUPS[g]['spec']()
        for q in drop:
            SPECS[g].c.pop(q, None)
    res = []
    try:
        TASKS = []
        for g, f, o in old:
            if sel(('lemma ' + o['lemma']) if o and 'lemma' in o else fkey(f), f.qual) and f.qual not in drop:
                TASKS.append((g, f, dict(o or {}, prove_ms=factor * (o or {}).get('prove_ms', engine.OPTS['prove_ms']))))
        with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(run_task, range(len(TASKS)), 1):
                res.append(r)
    finally:
        TASKS = old
    return res


def retract(res, failed, base, tmax=150):
    """A failed contract of an internal helper (anonymous namespace, private to its translation unit) is withdrawn and its callers
    are verified again with the helper's body inlined: what the property needs are the contracts of the functions that can be
    called from elsewhere.  Returns (what still fails, notes)."""
    notes = []
    internal = {k for k, _, _, _ in failed if '@' in k}
    hard = [f for f in failed if f[0] not in internal]
    drop = {k.rsplit('/', 1)[0] for k in internal}
    cls = {}
    for r in res:
        cls.setdefault(r['key'], set()).update(r['called'])
    if not drop:
        return failed, notes
    callers = {k for k, c in cls.items() if c & drop and k.rsplit('/', 1)[0] not in drop}
    if not callers:
        return failed, notes
    now = summarize(again(lambda k, q: k in callers, drop, tmax=tmax))
    for k in sorted(callers):
        b, n = base.get(k), now.get(k)
        if not b or b['state'] != 'ok':
            return failed, notes
        if n is None or n['state'] != 'ok' or any(st == 'proved' and n['clauses'].get(c, 'proved') != 'proved' for c, st in b['clauses'].items()):
            return failed, notes
    notes.append('contracts of %s do not hold for this source; withdrawn, %s hold with the bodies inlined' % (', '.join(sorted(internal)), ', '.join(sorted(callers))))
    return hard, notes


if __name__ == '__main__':
    import json
    t0 = time.time()
    gs = [a for a in sys.argv[1].split(',')]
    res, missing, notes = run(gs, only=[a for a in sys.argv[2:] if a[0] != '-'])
    for m in missing:
        print('MISSING', m)
    for n in notes:
        print(n)
    for r in res:
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        print('%-8s %-62s %6.1fs paths=%d q=%d obl=%d %s' % (r['state'], r['key'], r.get('wall', 0), r['paths'], r['queries'], len(r['obls']), r['why']))
        for o in bad:
            print('       ', o['status'], o['name'], o['line'])
            if '-v' in sys.argv:
                print(o['info'])
    print('total %.1fs, %d obligations, %d proved' % (time.time() - t0, sum(len(r['obls']) for r in res), sum(o['status'] == 'proved' for r in res for o in r['obls'])))
