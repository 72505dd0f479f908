"""Front end: runs clang on the real sources in /repo on every run and indexes
the typed JSON AST (functions, records, type aliases, enum constants)."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
CC = '/usr/bin/clang-18'

SOURCES = {
    'tarjan': 'opm/utility/graph/tarjan.c',
    'ac': 'opm/utility/graph/AssembledConnections.cpp',
    'solver': 'opm/flowdiagnostics/TracerTofSolver.cpp',
    'toolbox': 'opm/flowdiagnostics/Toolbox.cpp',
    'derived': 'opm/flowdiagnostics/DerivedQuantities.cpp',
    'cgraph': 'opm/flowdiagnostics/ConnectivityGraph.cpp',
    'cvalues': 'opm/flowdiagnostics/ConnectionValues.cpp',
    'cellset': 'opm/flowdiagnostics/CellSet.cpp',
    'solution': 'opm/flowdiagnostics/Solution.cpp',
}


class FrontendError(Exception):
    pass


class Unsupported(Exception):
    """A construct outside the verified subset of the language."""


def clang_cmd(path):
    if path.endswith('.c'):
        return [CC, '-std=c99', '-I' + REPO, '-fsyntax-only', '-Xclang',
                '-ast-dump=json', os.path.join(REPO, path)]
    return [CXX, '-std=c++17', '-I' + REPO, '-fsyntax-only', '-Xclang',
            '-ast-dump=json', '-Xclang', '-ast-dump-filter=Opm',
            os.path.join(REPO, path)]


def load_docs(path):
    p = subprocess.run(clang_cmd(path), capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontendError('clang failed on %s:\n%s' % (path, p.stderr[:4000]))
    s, d, i, out = p.stdout, json.JSONDecoder(), 0, []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


FUNC_KINDS = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
              'CXXDestructorDecl', 'CXXConversionDecl'}
REC_KINDS = {'CXXRecordDecl', 'RecordDecl', 'ClassTemplateSpecializationDecl'}


def inner(n):
    return [c for c in n.get('inner', []) if c]


class Func:
    def __init__(self, tu, node, qual, rec):
        self.tu, self.node, self.qual, self.rec = tu, node, qual, rec
        self.params = [c for c in inner(node) if c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in inner(node)
                          if c['kind'] in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in inner(node) if c['kind'] == 'CXXCtorInitializer']
        self.key = node.get('mangledName') or qual
        self.is_ctor = node['kind'] == 'CXXConstructorDecl'
        self.is_static = node.get('storageClass') == 'static'
        self.line = node.get('_line', 0)

    def __repr__(self):
        return '<Func %s/%d>' % (self.qual, len(self.params))


class Record:
    def __init__(self, tu, node, qual):
        self.tu, self.node, self.qual = tu, node, qual
        self.fields = []            # (name, type string, node)
        self.methods = []


class TU:
    def __init__(self, name):
        self.name, self.path = name, SOURCES[name]
        self.docs = load_docs(self.path)
        self.by_id = {}
        self.funcs = {}             # id -> Func (any decl, with or without body)
        self.records = {}           # id -> Record
        self.rec_by_qual = {}
        self.typedefs = {}          # qualified -> type node
        self.enums = {}             # constant name -> int
        self.enum_types = set()
        self.ns = {}
        self._line = 0
        self._file = None
        for d in self.docs:
            self._walk(d, [], None)
        self._link()

    # clang prints line/file numbers only when they change
    def _loc(self, n):
        for key in ('loc',):
            l = n.get(key) or {}
            self._upd(l)
        r = n.get('range') or {}
        self._upd(r.get('begin') or {})
        n['_line'] = self._line
        self._upd(r.get('end') or {})

    def _upd(self, l):
        for sub in ('spellingLoc', 'expansionLoc'):
            if sub in l:
                self._upd(l[sub])
        if 'line' in l:
            self._line = l['line']

    def _walk(self, n, ctx, rec):
        if not n or 'kind' not in n:
            return
        self._loc(n)
        k = n['kind']
        if 'id' in n:
            self.by_id[n['id']] = n
        n['_rec'] = rec
        if k in ('NamespaceDecl',):
            nm = n.get('name')
            c2 = ctx + [nm] if nm else ctx
            self.ns[n['id']] = c2
            for c in inner(n):
                self._walk(c, c2, None)
            return
        if k in REC_KINDS:
            nm = n.get('name') or ''
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in inner(n):
                    if c['kind'] == 'TemplateArgument':
                        t = c.get('type', {}).get('qualType')
                        args.append(t or '?')
                nm = nm + '<' + ', '.join(args) + '>'
            if n.get('parentDeclContextId'):
                pr = self.records.get(n['parentDeclContextId'])
                base = pr.qual.split('::') if pr else ctx
            else:
                base = ctx
            if not nm:
                nm = '(anon %s)' % n['id']
            q = '::'.join(base + [nm])
            r = Record(self, n, q)
            self.records[n['id']] = r
            for c in inner(n):
                self._walk(c, base + [nm], r)
                if c['kind'] == 'FieldDecl':
                    r.fields.append((c.get('name', ''), c.get('type', {}), c))
            if n.get('completeDefinition') or r.fields:
                self.rec_by_qual[q] = r
            return
        if k in FUNC_KINDS:
            q, r = self._fqual(n, ctx, rec)
            n['_qual'] = q
            for c in inner(n):
                self._walk(c, ctx + [n.get('name', '')], None)
            self.funcs[n['id']] = (n, q, r)
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs['::'.join(ctx + [n.get('name', '')])] = n.get('type', {})
        if k == 'EnumDecl':
            self.enum_types.add('::'.join(ctx + [n.get('name', '')]))
            val = -1
            for c in inner(n):
                if c['kind'] == 'EnumConstantDecl':
                    v = self._const(c)
                    val = v if v is not None else val + 1
                    self.enums[c['id']] = val
        for c in inner(n):
            self._walk(c, ctx, rec)

    def _const(self, c):
        if 'value' in c and c['kind'] in ('ConstantExpr', 'IntegerLiteral'):
            return int(c['value'])
        if c['kind'] == 'UnaryOperator' and c.get('opcode') == '-':
            v = self._const(inner(c)[0])
            return None if v is None else -v
        for x in inner(c):
            v = self._const(x)
            if v is not None:
                return v
        return None

    def _fqual(self, n, ctx, rec):
        if n.get('parentDeclContextId') and n['parentDeclContextId'] in self.records:
            r = self.records[n['parentDeclContextId']]
            return r.qual + '::' + n.get('name', ''), r
        if n.get('parentDeclContextId') in self.ns:
            return '::'.join(self.ns[n['parentDeclContextId']] + [n.get('name', '')]), None
        if rec is not None:
            return rec.qual + '::' + n.get('name', ''), rec
        return '::'.join(ctx + [n.get('name', '')]), None

    def _link(self):
        fs = {}
        for i, (n, q, r) in self.funcs.items():
            fs[i] = Func(self, n, q, r)
        self.funcs = fs
        # definition lookup
        self.defs = {}
        for f in fs.values():
            if f.body is not None:
                p = f.node
                while p is not None:
                    self.defs[p['id']] = f
                    pid = p.get('previousDecl')
                    p = self.by_id.get(pid) if pid else None
                if f.rec is not None:
                    # method defined out of class: make it findable
                    pass

    def all_defs(self):
        seen, out = set(), []
        for f in self.funcs.values():
            if f.body is not None and f.node['id'] not in seen:
                seen.add(f.node['id'])
                out.append(f)
        return out


class Program:
    """All translation units needed, loaded on demand."""

    def __init__(self, names=None):
        self.tus = {}
        self._by_key = {}
        self._names = list(names or SOURCES)
        for n in self._names:
            self.tus[n] = TU(n)
        for tu in self.tus.values():
            for f in tu.all_defs():
                self._by_key.setdefault(f.key, f)
        self._patterns = None

    def func_def(self, tu, decl_id, key=None):
        """Definition for a referenced declaration, across TUs."""
        f = tu.defs.get(decl_id)
        if f:
            return f
        d = tu.funcs.get(decl_id)
        k = key or (d.key if d else None)
        if k and k in self._by_key:
            return self._by_key[k]
        return None

    def by_key(self, k):
        return self._by_key.get(k)

    def find(self, qual, nparams=None, sig=None):
        """Function definitions with a given qualified name (anonymous
        namespaces elided)."""
        out = []
        seen = set()
        for tu in self.tus.values():
            for f in tu.all_defs():
                if f.qual != qual:
                    continue
                if 'mangledName' not in f.node and tu.name != 'tarjan':
                    continue
                if f.key in seen:
                    continue
                if nparams is not None and len(f.params) != nparams:
                    continue
                if sig is not None and sig not in f.node.get('type', {}).get('qualType', ''):
                    continue
                if f.node.get('isImplicit'):
                    continue
                seen.add(f.key)
                out.append(f)
        return out

    def source_hash(self):
        h = hashlib.sha256()
        for p in sorted(SOURCES.values()):
            with open(os.path.join(REPO, p), 'rb') as fh:
                h.update(fh.read())
        return h.hexdigest()[:16]
