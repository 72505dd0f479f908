"""C++ type strings -> small structural types."""
import re
from .frontend import Unsupported

INT = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'size_t': (64, False),
    'std::size_t': (64, False), 'size_type': (64, False), 'difference_type': (64, True),
    'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True),
    'std::streamsize': (64, True), 'streamsize': (64, True),
    'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True),
    'uint64_t': (64, False), 'std::int64_t': (64, True), 'std::uint64_t': (64, False),
    'std::int32_t': (32, True), 'std::uint32_t': (32, False),
    'long int': (64, True), 'unsigned long int': (64, False), 'long unsigned int': (64, False),
}


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for q in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename '):
            if s.startswith(q):
                s = s[len(q):].strip()
                ch = True
        for q in (' const', ' volatile', '&&', '&', ' __restrict', '__restrict'):
            if s.endswith(q):
                s = s[:-len(q)].strip()
                ch = True
        if s.endswith('*const'):
            s = s[:-5].strip()
            ch = True
    return s


class TypeParser:
    def __init__(self, program, tu):
        self.prog, self.tu = program, tu
        self.cache = {}
        self.rec_names = {}
        self.alias = {}
        for t in program.tus.values():
            for q in t.rec_by_qual:
                self.rec_names.setdefault(q, t.rec_by_qual[q])
            for q, ty in t.typedefs.items():
                self.alias.setdefault(q, ty)
        for q in tu.rec_by_qual:
            self.rec_names[q] = tu.rec_by_qual[q]

    def node(self, tynode):
        """Type of an AST node's 'type' entry."""
        s = tynode.get('desugaredQualType') or tynode.get('qualType', '')
        t = self.parse(s)
        if t[0] == 'opaque' and 'qualType' in tynode and tynode['qualType'] != s:
            t2 = self.parse(tynode['qualType'])
            if t2[0] != 'opaque':
                return t2
        return t

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _suffix(self, table, s):
        if s in table:
            return s
        c = [q for q in table if q.endswith('::' + s)]
        if len(c) >= 1:
            c.sort(key=len)
            return c[0]
        return None

    def _parse(self, s0):
        s = strip_cv(s0)
        if s.endswith('*'):
            return ('ptr', self.parse(s[:-1]))
        if s in ('void',):
            return ('void',)
        if s in ('bool', '_Bool'):
            return ('bool',)
        if s in ('double', 'long double'):
            return ('real',)
        if s == 'float':
            return ('float',)
        if s in INT:
            return ('int',) + INT[s]
        m = re.match(r'^(?:std::)?(?:__cxx11::)?(string|basic_string<char.*>)$', s)
        if m:
            return ('str',)
        m = re.match(r'^(.*?)<(.*)>$', s)
        if m and not s.endswith('>::type'):
            base, args = m.group(1), split_targs(m.group(2))
            b = base.split('::')[-1]
            if b == 'vector':
                return ('vec', self.parse(args[0]))
            if b == 'map':
                return ('map', self.parse(args[0]), self.parse(args[1]))
            if b in ('unordered_set', 'set'):
                return ('set', self.parse(args[0]), b == 'set')
            if b == 'pair':
                return ('pair', self.parse(args[0]), self.parse(args[1]))
            if b == 'unique_ptr':
                return ('uptr', self.parse(args[0]), args[1] if len(args) > 1 else None)
            if b == '__normal_iterator':
                return ('iter', self.parse(args[0]))
            if b in ('initializer_list',):
                return ('ilist', self.parse(args[0]))
        q = self._suffix(self.rec_names, s)
        if q:
            return ('rec', q)
        q = self._suffix(self.alias, s)
        if q:
            ty = self.alias[q]
            d = ty.get('desugaredQualType') or ty.get('qualType', '')
            if strip_cv(d) != s:
                return self.parse(d)
        m = re.match(r'^(.*)::(size_type|difference_type|value_type)$', s)
        if m:
            if m.group(2) == 'size_type':
                return ('int', 64, False)
            if m.group(2) == 'difference_type':
                return ('int', 64, True)
            t = self.parse(m.group(1))
            if t[0] == 'vec':
                return t[1]
        if any(s == e or s == e.split('::')[-1] for e in self.tu.enum_types):
            return ('int', 32, True)
        if s.endswith('ostream') or 'basic_ostream' in s:
            return ('ostream',)
        if 'fmtflags' in s or '_Ios_Fmtflags' in s:
            return ('int', 32, True)
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return ('arr', self.parse(m.group(1)), int(m.group(2)))
        if '(lambda at' in s:
            return ('lambda', s)
        return ('opaque', s)
