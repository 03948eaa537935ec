"""Loads the real code of /repo: runs clang on a small translation unit that instantiates the functions under
contract and reads the fully typed and instantiated AST back.  Nothing of the code is written down here."""
import json, os, subprocess, tempfile, re

REPO = os.environ.get('FV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang++-18'


class ExtractionError(Exception):
    pass


class Node:
    __slots__ = ('j', 'kind', 'inner', 'file', 'line', 'b', 'e', 'parent')

    def __init__(self, j):
        self.j = j
        self.kind = j.get('kind')
        self.inner = []
        self.file = None
        self.line = None
        self.b = self.e = None
        self.parent = None

    @property
    def name(self):
        return self.j.get('name', '')

    @property
    def id(self):
        return self.j.get('id')

    @property
    def type(self):
        t = self.j.get('type') or {}
        return t.get('desugaredQualType') or t.get('qualType') or ''

    @property
    def qtype(self):
        return (self.j.get('type') or {}).get('qualType') or ''

    @property
    def op(self):
        return self.j.get('opcode')

    def ref(self):
        r = self.j.get('referencedDecl') or self.j.get('foundReferencedDecl')
        return r or {}

    def walk(self):
        yield self
        for c in self.inner:
            yield from c.walk()

    def __repr__(self):
        return f'<{self.kind} {self.name} @{os.path.basename(self.file or "?")}:{self.line}>'


def _build(obj):
    """JSON object -> Node tree, resolving clang's delta-encoded locations in print order."""
    cur = {'file': None, 'line': None}

    def bare(l):
        if 'file' in l:
            cur['file'] = l['file']
        if 'line' in l:
            cur['line'] = l['line']
        return (cur['file'], cur['line'], l.get('offset'), l.get('tokLen', 0))

    def loc(l):
        if not l:
            return None
        if 'spellingLoc' in l or 'expansionLoc' in l:
            s = bare(l['spellingLoc']) if 'spellingLoc' in l else None
            e = bare(l['expansionLoc']) if 'expansionLoc' in l else None
            return e or s
        return bare(l)

    def rec(j, parent):
        n = Node(j)
        n.parent = parent
        if 'loc' in j:
            L = loc(j['loc'])
            if L:
                n.file, n.line = L[0], L[1]
        r = j.get('range')
        if r:
            b = loc(r.get('begin'))
            if b and b[2] is not None:
                n.file, n.line, n.b = b[0], b[1], b[2]
            e = loc(r.get('end'))
            if e and e[2] is not None:
                n.e = e[2] + e[3]
        for c in j.get('inner', ()):
            if isinstance(c, dict) and c.get('kind'):
                n.inner.append(rec(c, n))
            elif isinstance(c, dict):
                d = Node({'kind': 'Null'})
                d.parent = n
                n.inner.append(d)
        if 'inner' in j:
            del j['inner']
        return n

    return rec(obj, None)


class Unit:
    def __init__(self, roots, tu):
        self.roots = roots
        self.byid = {}
        self.src = {}
        self.tu = tu
        for r in roots:
            for n in r.walk():
                if n.id:
                    # definitions win over references/redeclarations
                    old = self.byid.get(n.id)
                    if old is None or (not old.inner and n.inner):
                        self.byid[n.id] = n

    def text(self, n):
        if n.file is None or n.b is None or n.e is None:
            return ''
        if n.file not in self.src:
            try:
                self.src[n.file] = open(n.file, 'rb').read()
            except OSError:
                self.src[n.file] = b''
        return self.src[n.file][n.b:n.e].decode('utf8', 'replace')

    def where(self, n):
        while n is not None and (n.file is None or n.line is None):
            n = n.parent
        if n is None:
            return '?'
        f = n.file
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return f'{f}:{n.line}'

    def has_body(self, n):
        return n is not None and any(c.kind == 'CompoundStmt' for c in n.inner)

    def functions(self, name):
        """All instantiated (non-pattern) function definitions with this name."""
        out = []
        for r in self.roots:
            self._fn(r, name, False, out)
        return out

    def _fn(self, n, name, dead, out):
        k = n.kind
        if k == 'FunctionTemplateDecl':
            fs = [c for c in n.inner if c.kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl')]
            for f in fs[1:]:
                self._fn(f, name, dead, out)
            return
        if k == 'ClassTemplateDecl':
            for c in n.inner:
                if c.kind == 'ClassTemplateSpecializationDecl':
                    self._fn(c, name, dead, out)
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and n.name == name and self.has_body(n):
            out.append(n)
        if k in ('NamespaceDecl', 'ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            for c in n.inner:
                self._fn(c, name, dead, out)

    def classes(self, name):
        out = []

        def rec(n):
            if n.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.name == name and n.j.get('completeDefinition'):
                out.append(n)
            if n.kind == 'ClassTemplateDecl':
                for c in n.inner:
                    if c.kind == 'ClassTemplateSpecializationDecl':
                        rec(c)
                return
            if n.kind in ('NamespaceDecl', 'ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'TranslationUnitDecl'):
                for c in n.inner:
                    rec(c)
        for r in self.roots:
            rec(r)
        return out


def load(tu_text, incs=(), defs=(), flt='smooth::feedback'):
    d = tempfile.mkdtemp(prefix='fvtu')
    try:
        src = os.path.join(d, 'tu.cpp')
        with open(src, 'w') as f:
            f.write(tu_text)
        cmd = [CLANG, '-std=c++20', '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3'] + list(incs) + list(defs) + \
              ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, src]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise ExtractionError('clang cannot compile the current tree: ' + p.stderr[-2000:])
        s = p.stdout
        dec = json.JSONDecoder()
        i = 0
        roots = []
        N = len(s)
        while True:
            m = s.find('{', i)
            if m < 0:
                break
            o, i = dec.raw_decode(s, m)
            roots.append(_build(o))
        return Unit(roots, tu_text)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


if __name__ == '__main__':
    import sys, time
    t = time.time()
    u = load('#include "smooth/feedback/qp_solver.hpp"\nnamespace smooth::feedback {template class QPSolver<QuadraticProgram<-1,-1,double>>;template class QPSolver<QuadraticProgramSparse<double>>;}\n')
    print(time.time() - t, len(u.byid))
    for f in ('solve', 'polish_qp', 'scale', 'block_add', 'check_stopping', 'solve_qp', 'QPSolver', 'objective'):
        for n in u.functions(f):
            print(f, n, n.type[:150])
