"""Mechanical extraction of function bodies from /repo's current sources.

Every run asks clang for the fully resolved AST (JSON) of each translation unit and hands the nodes, unchanged, to
the symbolic executor.  Nothing is rewritten by hand; what the executor ignores is listed in DESIGN.md.
"""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('TSYM_REPO', '/repo')
WRAP = {'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr'}


class ExtractError(Exception):
    pass


def dump_tu(path):
    cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-Wno-everything', '-I%s/include/tsym' % REPO, '-I%s/src' % REPO,
           '-I%s/include' % REPO, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=tsym', path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, r.stderr.decode()[:2000]))
    return r.stdout.decode('utf-8', 'replace')


def parse_multi(s):
    dec = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return out
        if s[i] != '{':
            i = s.find('\n', i) + 1
            if i == 0:
                return out
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)


class Func:
    __slots__ = ('qual', 'sig', 'node', 'tu', 'params', 'body', 'cls', 'static', 'virtual', 'line', 'file', 'const',
                 'targs', 'inits', 'kind')

    def __repr__(self):
        return '%s %s' % (self.qual, self.sig)


class TU:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        self.byid = {}
        self.prev = {}
        self.qual = {}
        self.parent = {}
        self.funcs = []
        self.defs = {}      # canonical id -> Func
        self.enums = {}
        tops = parse_multi(dump_tu(path))
        self.line = 0
        self.file = None
        for t in tops:
            self.line = 0
            self.file = None
            self.index(t, None)
        for t in tops:
            self.collect(t, None, None)

    # -- pass 1: ids, parents, source positions
    def index(self, n, parent):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        loc = n.get('loc') or {}
        if 'spellingLoc' in loc or 'expansionLoc' in loc:
            for key in ('spellingLoc', 'expansionLoc'):
                l = loc.get(key) or {}
                if 'file' in l:
                    self.file = l['file']
                if 'line' in l:
                    self.line = l['line']
        else:
            if 'file' in loc:
                self.file = loc['file']
            if 'line' in loc:
                self.line = loc['line']
        if k and k.endswith('Decl'):
            n['_line'] = self.line
            n['_file'] = self.file
        rng = n.get('range') or {}
        for key in ('begin', 'end'):
            l = rng.get(key) or {}
            l = l.get('expansionLoc', l)
            if 'file' in l:
                self.file = l['file']
            if 'line' in l:
                self.line = l['line']
            if key == 'begin':
                n['_bline'] = self.line
        if 'id' in n and k:
            old = self.byid.get(n['id'])
            if old is None or len(old.get('inner', ())) <= len(n.get('inner', ())):
                self.byid[n['id']] = n
            if parent is not None and n['id'] not in self.parent:
                self.parent[n['id']] = parent
            if 'previousDecl' in n:
                self.prev[n['id']] = n['previousDecl']
        pid = n.get('id') if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                                   'ClassTemplateDecl', 'FunctionTemplateDecl', 'EnumDecl',
                                   'ClassTemplatePartialSpecializationDecl') else parent
        for c in n.get('inner', ()):
            self.index(c, pid)

    def canon(self, i):
        seen = set()
        while i in self.prev and i not in seen:
            seen.add(i)
            i = self.prev[i]
        return i

    def scope_of(self, i):
        """qualified name of the enclosing scope of decl id i"""
        n = self.byid.get(i)
        p = None
        if n is not None:
            p = n.get('parentDeclContextId') or self.parent.get(i)
        if p is None:
            p = self.parent.get(i)
        parts = []
        while p is not None:
            pn = self.byid.get(p)
            if pn is None:
                break
            if pn['kind'] in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'EnumDecl'):
                nm = pn.get('name')
                if nm:
                    parts.append(nm)
                elif pn['kind'] == 'NamespaceDecl':
                    parts.append('@' + self.name.split('.')[0])
            p = pn.get('parentDeclContextId') or self.parent.get(p)
        return '::'.join(reversed(parts))

    def qualname(self, i):
        n = self.byid.get(i)
        if n is None:
            return None
        c = self.canon(i)
        s = self.scope_of(c) if c in self.byid else self.scope_of(i)
        if not s and n.get('parentDeclContextId'):
            s = self.scope_of(i)
        nm = n.get('name', '')
        return (s + '::' if s else '') + nm

    # -- pass 2: function definitions
    def collect(self, n, cls, targs):
        k = n.get('kind')
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            body = None
            params = []
            inits = []
            ta = []
            for c in n.get('inner', ()):
                if c.get('kind') == 'ParmVarDecl':
                    params.append(c)
                elif c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                    body = c
                elif c.get('kind') == 'CXXCtorInitializer':
                    inits.append(c)
                elif c.get('kind') == 'TemplateArgument':
                    ta.append(c)
            if body is not None and not n.get('isImplicit'):
                f = Func()
                f.qual = self.qualname(n['id'])
                f.sig = n['type']['qualType']
                f.node = n
                f.tu = self
                f.params = params
                f.body = body
                f.inits = inits
                f.kind = k
                f.static = n.get('storageClass') == 'static' or (
                    self.byid.get(self.canon(n['id']), {}).get('storageClass') == 'static')
                f.cls = f.qual.rsplit('::', 1)[0] if k != 'FunctionDecl' else None
                f.line = n.get('_line')
                f.file = n.get('_file')
                f.targs = ta
                self.funcs.append(f)
                self.defs[self.canon(n['id'])] = f
                self.defs[n['id']] = f
            return
        for c in n.get('inner', ()):
            if c.get('kind') in ('NamespaceDecl', 'CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl',
                                 'CXXConstructorDecl', 'FunctionTemplateDecl', 'ClassTemplateDecl',
                                 'ClassTemplateSpecializationDecl', 'LinkageSpecDecl', 'CXXConversionDecl'):
                self.collect(c, cls, targs)


def load_tu(path):
    return TU(path)


class Program:
    """All translation units needed by one check."""

    def __init__(self, files):
        self.tus = {}
        paths = [f if os.path.isabs(f) else os.path.join(REPO, 'src', f) for f in files]
        sys.setrecursionlimit(20000)
        with ProcessPoolExecutor(8) as ex:
            for p, raw in zip(paths, ex.map(dump_tu, paths)):
                pass
                self.tus[os.path.basename(p)] = raw
        built = {}
        for p in paths:
            b = os.path.basename(p)
            raw = self.tus[b]
            t = TU.__new__(TU)
            _init_from_raw(t, p, raw)
            built[b] = t
        self.tus = built
        self.ext = {}      # (qual, sig) -> Func
        self.byqual = {}
        for t in built.values():
            for f in t.funcs:
                self.ext.setdefault((f.qual, f.sig), f)
                l = self.byqual.setdefault(f.qual, [])
                if not any(g.sig == f.sig and g.line == f.line and g.file == f.file for g in l):
                    l.append(f)


def _init_from_raw(self, path, raw):
    self.path = path
    self.name = os.path.basename(path)
    self.byid = {}
    self.prev = {}
    self.qual = {}
    self.parent = {}
    self.funcs = []
    self.defs = {}
    self.enums = {}
    tops = parse_multi(raw)
    self.tops = tops
    for t in tops:
        self.line = 0
        self.file = None
        self.index(t, None)
    for t in tops:
        self.collect(t, None, None)


def strip(n):
    while n.get('kind') in WRAP:
        n = n['inner'][-1 if n['kind'] == 'SubstNonTypeTemplateParmExpr' else 0]
    return n


if __name__ == '__main__':
    p = Program(sys.argv[1:])
    for t in p.tus.values():
        for f in t.funcs:
            print(f.qual, '|', f.sig, '|', f.line, f.kind, f.static, len(f.targs))
