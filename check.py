#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]

1. extracts the functions the property depends on from /repo's working tree (clang AST) and has every obligation of their
   contracts discharged by the verifier tsymvc (z3, cvc5 as second back end),
2. runs the bounded stand-in (real code, generated inputs, independent evaluator) for what is outside the verifier's reach; the
   same generator is the search for a concrete failing input when an obligation fails,
3. writes evidence/PROPERTY.json.
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, threading, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TSYM_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tsymvc'))
import config

JOBS = os.cpu_count() or 8


def known(prop):
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        m = re.match(r'finding: property=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


class Harness:
    def __init__(self, prop, cfg, scratch, seed):
        self.prop, self.cfg, self.dir, self.seed = prop, cfg, scratch, seed
        self.cases, self.counters, self.samples, self.fail, self.crash = 0, {}, [], None, None
        self.available = False
        self.note = ''
        self.next = {}
        self.hung = []

    def build(self):
        t = time.time()
        out = os.path.join(self.dir, 'h')
        r = subprocess.run(['bash', os.path.join(HERE, 'harness', 'build.sh'), out, self.cfg['harness'] + '.cpp'],
                           env=dict(os.environ, TSYM_REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.bin = os.path.join(out, 'h_' + self.cfg['harness'])
        self.available = os.path.exists(self.bin) and r.returncode == 0
        if not self.available:
            self.note = 'the harness does not build on this tree: ' + r.stdout.decode('utf-8', 'replace')[-1500:]
        self.build_s = time.time() - t

    def worker(self, w, secs, offset, res, cap=10**8):
        cur = os.path.join(self.dir, 'cur_%d' % w)
        first = w * 10**9 + offset
        stop = first + cap
        end = time.time() + secs
        while True:
            left = end - time.time()
            if left <= 0.2 or first >= stop:
                return
            p = subprocess.Popen([self.bin, self.prop, str(self.seed), str(first), str(stop - first), '%.1f' % left],
                                 env=dict(os.environ, HARNESS_CUR=cur), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir)
            outb = b''
            hung = False
            last, stamp = None, time.time()
            while p.poll() is None:
                time.sleep(0.05)
                try:
                    c = open(cur, 'rb').read(300).split(b'\0')[0]
                except OSError:
                    c = None
                if c != last:
                    last, stamp = c, time.time()
                if time.time() - stamp > 12 or time.time() > end + 3:
                    hung = True
                    p.kill()
                    break
            outb = p.communicate()[0].decode('utf-8', 'replace')
            try:
                case = int((last or b'0').split()[0])
            except (ValueError, IndexError):
                case = first
            if hung:
                # no verdict on this case (termination is outside the properties): skip it
                if time.time() - stamp > 5:
                    self.hung.append(case)
                with self.lock:
                    self.cases += max(0, case - first)
                first = case + 1
                continue
            m = re.search(r'^DONE cases=(\d+) next=(\d+)(.*)$', outb, re.M)
            if p.returncode == 0 and m:
                with self.lock:
                    self.cases += int(m.group(1))
                    for kv in m.group(3).split(';'):
                        if '=' in kv:
                            k, v = kv.rsplit('=', 1)
                            self.counters[k] = self.counters.get(k, 0) + int(v)
                    for l in re.findall(r'^SAMPLE (.*)$', outb, re.M):
                        if len(self.samples) < 6:
                            self.samples.append(l[:400])
                return
            if p.returncode == -9:
                # ended from outside (memory): no verdict
                self.hung.append(case)
                first = case + 1
                continue
            f = re.search(r'^FAIL case=(\d+) (.*)$', outb, re.M | re.S)
            if f:
                res.append(('fail', int(f.group(1)), f.group(2).strip()))
            else:
                res.append(('crash', case, 'terminated with code %s: %s' % (p.returncode, outb[-300:])))
            return

    def run(self, secs, offset=0, cap=10**8):
        self.lock = threading.Lock()
        res = []
        ts = [threading.Thread(target=self.worker, args=(w, secs, offset, res, cap)) for w in range(JOBS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def confirm(self, case):
        """the single case in a fresh process"""
        try:
            r = subprocess.run([self.bin, self.prop, str(self.seed), str(case), '1', '60'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=70, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return False, 'timeout'
        o = r.stdout.decode('utf-8', 'replace')
        return r.returncode != 0, o


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = config.PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='tsymcheck_')
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    try:
        rc = check(prop, tier, seed, cfg, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, cfg, t0, scratch):
    import vc
    h = Harness(prop, cfg, scratch, seed) if cfg.get('harness') else None
    bt = None
    if h:
        bt = threading.Thread(target=h.build)
        bt.start()
        bt.join()
    # ---------------------------------------------------------------- deductive part
    res, missing, notes = vc.run(cfg['groups'], jobs=JOBS, tmax=cfg.get('tmax', 120) * (3 if tier == 'thorough' else 1)) if cfg['groups'] else ([], [], [])
    now = vc.summarize(res)
    base = {}
    for g in cfg['groups']:
        b = os.path.join(HERE, 'baseline', g + '.json')
        if os.path.exists(b):
            base.update(json.load(open(b)))
    # an obligation that was not decided in time is not a verdict: once more, with more time
    slow = {k for k, b in base.items() if b['state'] == 'ok' and (now.get(k, b)['state'] == 'budget' or
            any(st == 'proved' and now.get(k, b)['clauses'].get(c) == 'unknown' for c, st in b['clauses'].items()))}
    if slow and time.time() - t0 < 330:
        r2 = vc.again(lambda k, q: k in slow, jobs=JOBS, tmax=150)
        keep = {r['key'] for r in r2 if r['state'] == 'ok'}
        if keep:
            res = [r for r in res if r['key'] not in keep] + [r for r in r2 if r['key'] in keep]
            now = vc.summarize(res)
    failed, undecided = [], []
    for m in missing:
        undecided.append('%s: not found in the source (renamed or inlined); its callers are verified with its body inlined or rest on the bounded stand-in' % m)
    for key, b in sorted(base.items()):
        n = now.get(key)
        if n is None or b['state'] != 'ok':
            continue
        if n['state'] != 'ok':
            undecided.append('%s: %s %s' % (key, n['state'], n['why']))
            continue
        for cl, st in sorted(b['clauses'].items()):
            if st != 'proved':
                continue
            s = n['clauses'].get(cl)
            if s in ('refuted', 'unknown'):
                o = next((o for r in res if r['key'] == key for o in r['obls'] if o['name'] == cl and o['status'] != 'proved'), {})
                failed.append((key, cl, s, o))
        for cl, s in n['clauses'].items():
            if cl not in b['clauses'] and s != 'proved':
                undecided.append('%s: new obligation %s is %s' % (key, cl, s))
    retracted = []
    if failed:
        if time.time() - t0 < 400:
            failed, retracted = vc.retract(res, failed, base, tmax=120)
        undecided += retracted
    # ---------------------------------------------------------------- bounded part
    hres = []
    secs = cfg.get('secs', 40) if tier == 'quick' else cfg.get('thorough_secs', 420)
    if h and h.available:
        # quick: a fixed set of cases, so that the outcome does not depend on the speed of the machine
        cap = json.load(open(os.path.join(HERE, 'harness', 'caps.json'))).get(prop, 10**8) if tier == 'quick' else 10**8
        hres = h.run(2 * secs if tier == 'quick' else secs, cap=cap)
        if failed and not hres:
            hres = h.run(min(cfg.get('search_secs', 150), max(20, 800 - (time.time() - t0))), offset=5 * 10**8)
    viol = None
    for kind, case, what in sorted(hres, key=lambda r: r[1] % 10**9):
        bad, out = h.confirm(case)
        if bad:
            viol = (kind, case, what, out)
            break
    if hres and not viol:
        # depends on what ran before in the same process: replay the worker from its start
        kind, case, what = sorted(hres, key=lambda r: r[1] % 10**9)[0]
        viol = (kind + ' (needs the preceding cases of the same process)', case, what, '')
    # ---------------------------------------------------------------- report
    nobl = sum(len(r['obls']) for r in res)
    nproved = sum(o['status'] == 'proved' for r in res for o in r['obls'])
    unproved = ['%s: %s (line %s) %s' % (r['key'], o['name'], o['line'], o['status']) for r in res for o in r['obls'] if o['status'] != 'proved']
    notok = ['%s: %s %s' % (r['key'], r['state'], r['why']) for r in res if r['state'] != 'ok']
    vac = [r['key'] for r in res if r['state'] == 'ok' and (r['covers'] == 0 or not r['obls'])]
    okf = sorted({r['key'] for r in res if r['state'] == 'ok'})
    cov = dict(obligations=nobl, discharged=nproved, checker_cmd='python3-vt tsymvc/vc.py ' + ','.join(cfg['groups']),
               trusted_base=config.TRUSTED + cfg.get('trusted', []),
               backend='z3 %s' % config.z3version(),
               functions_under_contract=okf, solver_s=round(sum(r['solver_s'] for r in res), 1), paths=sum(r['paths'] for r in res),
               undischarged=unproved, outside_reach=notok + undecided, vacuous=vac, notes=notes)
    if h:
        cov['bounded'] = dict(label='bounded, never counted as proved', available=h.available, note=h.note, seconds=secs, workers=JOBS,
                              cases=h.cases, counters=h.counters, hung_cases=h.hung[:10])
        cov['evaluations'] = h.cases
        cov['distinct_nontrivial'] = h.counters.get('compared', h.counters.get('nontrivial', h.cases))
        cov['rule'] = cfg.get('rule', 'expressions are generated from the grammar of the library (numbers, symbols, constants, sums, products, powers, functions), seeded; non-trivial: both sides are defined at the assignment and were compared by an evaluator independent of the library')
        cov['samples'] = h.samples or ['seed %d, cases 0.. of each of %d workers (%s)' % (seed, JOBS, ', '.join(k for k in h.counters if k.startswith('case ')))]
    assumptions = config.ASSUMPTIONS + cfg.get('assumptions', [])
    nviol = 0
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    lines = []
    if viol:
        nviol += 1
        path = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\n%s, case %d, seed %d\n%s\n\nreplay: bash harness/build.sh OUT %s.cpp && OUT/h_%s %s %d %d 1 60\n\n%s\n' % (
                prop, viol[0], viol[1], seed, viol[2], cfg['harness'], cfg['harness'], prop, seed, viol[1], viol[3]))
            for key, cl, s, o in failed:
                f.write('failed obligation: %s %s (%s, line %s)\n%s\n' % (key, cl, s, o.get('line'), o.get('info', '')))
        print(viol[2][:600])
        for key, cl, s, o in failed[:5]:
            print('failed obligation: %s %s' % (key, cl))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif failed:
        nviol += len(failed)
        path = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s: obligations that hold on the reference tree are not discharged for this source\n' % prop)
            for key, cl, s, o in failed:
                f.write('failed obligation: %s %s (%s, line %s)\nverifier output: %s\n\n' % (key, cl, s, o.get('line'), o.get('info', '')))
            f.write('the search for a failing input over %d cases found none\n' % (h.cases if h else 0))
        for key, cl, s, o in failed[:8]:
            print('failed obligation: %s %s (%s, line %s)' % (key, cl, s, o.get('line')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=cfg['level'], coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d functions under contract; bounded: %d cases; %.0f s' % (
        prop, tier, nobl, nproved, len(okf), h.cases if h else 0, time.time() - t0))
    for u in undecided:
        print('  undecided: ' + u[:200])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if lines else 0


if __name__ == '__main__':
    main()
