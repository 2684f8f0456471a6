"""Reader for textual LLVM IR (the subset produced by build.py's pipeline)."""
import re
from .nf import Unsupported

QN = re.compile(r'([%@$])"((?:[^"\\]|\\.)*)"')


class Type:
    pass


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.names = {}
        self._parse(text)

    def short(self, m):
        k = m.group(1) + m.group(2)
        if m.group(1) == '@':
            return '@' + re.sub(r'[^A-Za-z0-9_.$]', '_', m.group(2))
        if k not in self.names:
            self.names[k] = '%sq%d' % (m.group(1), len(self.names))
        return self.names[k]

    def _parse(self, text):
        text = QN.sub(self.short, text)
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'(%[-\w.$]+) = type (.*)$', l)
            if m:
                self.types[m.group(1)] = m.group(2).strip()
            elif l.startswith('define '):
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                self._func(l, body)
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@([-\w.$]+)\(', l)
                if m:
                    self.decls[m.group(1)] = l
            i += 1

    def _func(self, head, body):
        m = re.search(r'@([-\w.$]+)\((.*)$', head)
        if not m:
            return
        name = m.group(1)
        rest = m.group(2)
        depth = 1
        for k, ch in enumerate(rest):
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0:
                    break
        params = []
        for p in split_top(rest[:k]):
            p = p.strip()
            if not p or p == '...':
                continue
            toks = p.split()
            ty = take_type(p)[0]
            nm = toks[-1] if toks[-1].startswith('%') else '%' + str(len(params))
            params.append((nm, ty))
        f = Func(name, params, head)
        cur = None
        # label of entry block: the number of params when unnamed, else explicit
        first = True
        q = re.compile(r'^"((?:[^"\\]|\\.)*)":')
        for l in body:
            if not l.strip():
                continue
            if not l.startswith(' '):
                mm = q.match(l)
                if mm:
                    k = '%' + mm.group(1)
                    if k not in self.names:
                        self.names[k] = '%%q%d' % len(self.names)
                    lab = self.names[k]
                else:
                    lab = '%' + l.split(':')[0]
                cur = []
                f.blocks[lab] = cur
                if first:
                    f.entry = lab
                    first = False
                continue
            if cur is None:
                cur = []
                lab = '%' + str(len(params))
                f.blocks[lab] = cur
                f.entry = lab
                first = False
            s = l.strip()
            if s.startswith('#dbg'):
                continue
            # multi-line instructions: switch [ ... ] and invoke ... to label
            if cur and (cur[-1].count('[') > cur[-1].count(']') or s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter')):
                cur[-1] += ' ' + s
            else:
                cur.append(s)
        f.module = self
        self.funcs[name] = f


class Func:
    def __init__(self, name, params, head):
        self.name = name
        self.params = params
        self.blocks = {}
        self.entry = None
        self.head = head


def split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            depth += 1
        elif ch in ')]}>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def take_type(s):
    """Split a leading type off s -> (type string, rest)."""
    s = s.strip()
    if s[0] in '[{<':
        depth = 0
        for i, ch in enumerate(s):
            if ch in '[{<(':
                depth += 1
            elif ch in ']}>)':
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'(%[-\w.$]+|[a-z]\w*)', s)
    return m.group(1), s[m.end():].strip()


ATTR = re.compile(r'^(?:noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|readnone|writeonly|returned|inreg|immarg|'
                  r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^)]*\)|sret\([^)]*\)|captures\([^)]*\)|nest|swiftself|allocalign|allocptr|range\([^)]*\))\s*')


def strip_attrs(s):
    s = s.strip()
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


def width(ty):
    m = re.match(r'i(\d+)$', ty)
    if m:
        return int(m.group(1))
    if ty == 'ptr':
        return 64
    if ty == 'float':
        return 32
    if ty == 'double':
        return 64
    return None


def sizeof(mod, ty):
    """(size, align) of a first-class type under the x86-64 data layout."""
    ty = ty.strip()
    m = re.match(r'i(\d+)$', ty)
    if m:
        b = max(1, (int(m.group(1)) + 7) // 8)
        a = 1
        while a < b:
            a *= 2
        return a, a
    if ty == 'ptr' or ty == 'double':
        return 8, 8
    if ty == 'float':
        return 4, 4
    m = re.match(r'\[(\d+) x (.*)\]$', ty)
    if m:
        s, a = sizeof(mod, m.group(2))
        return s * int(m.group(1)), a
    if ty.startswith('%'):
        return sizeof(mod, mod.types[ty])
    packed = ty.startswith('<{')
    if ty.startswith('{') or packed:
        off, al = 0, 1
        for t in split_top(ty.strip('<>')[1:-1]):
            s, a = sizeof(mod, t)
            if packed:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise Unsupported('sizeof ' + ty)


def field(mod, ty, idx):
    """(offset, type) of struct field idx"""
    if ty.startswith('%'):
        ty = mod.types[ty]
    packed = ty.startswith('<{')
    off = 0
    for i, t in enumerate(split_top(ty.strip('<>')[1:-1])):
        s, a = sizeof(mod, t)
        if packed:
            a = 1
        off = (off + a - 1) // a * a
        if i == idx:
            return off, t.strip()
        off += s
    raise Unsupported('field')
