"""Reference model of structures: what offset, size and length have to be, as plain arithmetic.

Written from the documentation, independent of the headers.  A model structure carries the C++
expression that builds the real one and answers off/size/length with C++ arithmetic expressions
(strings) over the probe parameters.  idx / lens: dict dim -> expression (what the state provides).
"""


class Num:
    """A number given to the library: dynamic (a probe parameter) or static (lit<N>)."""

    LITS = {}   # names that are to be passed as lit<N> instead of a run-time value

    def __init__(self, name=None, lit=None):
        self.name, self.lit = name, lit if lit is not None else Num.LITS.get(name)

    @property
    def cpp(self):
        return self.name if self.lit is None else 'noarr::lit<%d>' % self.lit

    @property
    def spec(self):
        return self.name if self.lit is None else 'u64(%d)' % self.lit

    @property
    def py(self):
        return self.name if self.lit is None else '%d' % self.lit


def py(e):
    """spec expression -> python expression for the preconditions"""
    return e.replace('u64(', '(')


def mul(a, b):
    return '(%s*%s)' % (a, b)


def add(a, b):
    if a == 'u64(0)':
        return b
    if b == 'u64(0)':
        return a
    return '(%s+%s)' % (a, b)


def sub(a, b):
    return '(%s-%s)' % (a, b)


class S:
    """base: params, pre (python constraints on the parameters), dims outermost first"""
    scalar_t = None

    def common(self, sub, nums=(), pre=()):
        self.sub = sub
        self.params = list(sub.params) if sub is not None else []
        self.pre = list(sub.pre) if sub is not None else []
        self.names = (list(sub.names) if sub is not None else []) + [n.name for n in nums if n.name]
        for n in nums:
            if n.lit is None and n.name not in self.params:
                self.params.append(n.name)
        self.pre += list(pre)

    def st(self, idx, lens):
        return dict(idx), dict(lens)

    def off(self, idx, lens=None):
        i, l = self.st(idx, lens or {})
        return self.sub.off(i, l)

    def size(self, idx=None, lens=None):
        i, l = self.st(idx or {}, lens or {})
        return self.sub.size(i, l)

    def length(self, d, idx=None, lens=None):
        """expression or None when the length is not available"""
        if d in (idx or {}):
            return None
        return self._length(d, dict(idx or {}), dict(lens or {}))

    def _length(self, d, idx, lens):
        i, l = self.st(idx, lens)
        return self.sub.length(d, i, l)

    # dims: list of (name, None | number of static alternatives)
    def dims(self):
        return self.sub.dims()

    def dimnames(self):
        return [d for d, _ in self.dims()]

    def scalar(self):
        return self.sub.scalar()


def seq(k):
    return k


def q(d):
    return "'%s'" % d


class Scalar(S):
    SZ = {'char': 1, 'short': 2, 'int': 4, 'float': 4, 'double': 8, 'std::uint8_t': 1, 'std::uint64_t': 8, 'long double': 16, 'bool': 1, 'void *': 8,
          'nvn_s12': 12, 'nvn_s3': 3, 'nvn_a32': 64, 'nvn_e2': 2, 'const int': 4}

    def __init__(self, t='int'):
        self.common(None)
        self.t = t
        self.cpp = 'noarr::scalar<%s>()' % t
        self.n = self.SZ[t]

    def off(self, idx, lens=None):
        return 'u64(0)'

    def size(self, idx=None, lens=None):
        return 'u64(%d)' % self.n

    def _length(self, d, idx, lens):
        return None

    def dims(self):
        return []

    def scalar(self):
        return self.t


class Vector(S):
    """vector<d>() without a length"""

    def __init__(self, sub, d):
        self.common(sub)
        self.d = d
        self.cpp = '%s ^ noarr::vector<%s>()' % (sub.cpp, q(d))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        idx.pop(self.d, None)
        lens.pop(self.d, None)
        return idx, lens

    def off(self, idx, lens=None):
        i, l = self.st(idx, lens or {})
        return add(mul(idx[self.d], self.sub.size(i, l)), self.sub.off(i, l))

    def size(self, idx=None, lens=None):
        i, l = self.st(idx or {}, lens or {})
        return mul(lens[self.d], self.sub.size(i, l))

    def _length(self, d, idx, lens):
        if d == self.d:
            return lens.get(d)
        return super()._length(d, idx, lens)

    def dims(self):
        return [(self.d, None)] + self.sub.dims()


class SetLength(S):
    def __init__(self, sub, d, n, cpp=None):
        self.common(sub, [n])
        self.d, self.n = d, n
        self.cpp = cpp or '%s ^ noarr::set_length<%s>(%s)' % (sub.cpp, q(d), n.cpp)

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        lens[self.d] = self.n.spec
        return idx, lens


def SizedVector(sub, d, n, form=0):
    v = Vector(sub, d)
    if form == 1:
        return SetLength(v, d, n, '%s ^ noarr::sized_vector<%s>(%s)' % (sub.cpp, q(d), n.cpp))
    if form == 2:
        return SetLength(v, d, n, '%s ^ noarr::vector<%s>(%s)' % (sub.cpp, q(d), n.cpp))
    if form == 3 and n.lit is not None:
        return SetLength(v, d, n, '%s ^ noarr::array<%s, %d>()' % (sub.cpp, q(d), n.lit))
    return SetLength(v, d, n)


class Bcast(S):
    def __init__(self, sub, d, n=None):
        self.common(sub, [n] if n else [])
        self.d, self.n = d, n
        self.cpp = '%s ^ noarr::bcast<%s>(%s)' % (sub.cpp, q(d), n.cpp if n else '')

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        idx.pop(self.d, None)
        lens.pop(self.d, None)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            return self.n.spec if self.n else lens.get(d)
        return super()._length(d, idx, lens)

    def dims(self):
        return [(self.d, None)] + self.sub.dims()


class Fix(S):
    def __init__(self, sub, d, n):
        self.common(sub, [n])
        self.d, self.n = d, n
        self.cpp = '%s ^ noarr::fix<%s>(%s)' % (sub.cpp, q(d), n.cpp)
        L = sub.length(d)
        if L is not None:
            self.pre.append('%s < %s' % (n.py, py(L)))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        idx[self.d] = self.n.spec
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            return None
        return super()._length(d, idx, lens)

    def dims(self):
        out = []
        for d, k in self.sub.dims():
            if d != self.d:
                out.append((d, k))
            elif isinstance(k, tuple):
                out += k[self.n.lit].dims()
        return out


class Shift(S):
    def __init__(self, sub, d, n):
        self.common(sub, [n])
        self.d, self.n = d, n
        self.cpp = '%s ^ noarr::shift<%s>(%s)' % (sub.cpp, q(d), n.cpp)
        L = sub.length(d)
        if L is not None:
            self.pre.append('%s <= %s' % (n.py, py(L)))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            idx[self.d] = add(idx[self.d], self.n.spec)
        if self.d in lens:
            lens[self.d] = add(lens[self.d], self.n.spec)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            if d in lens:
                return lens[d]
            L = self.sub.length(d, idx, lens)
            return None if L is None else sub(L, self.n.spec)
        return super()._length(d, idx, lens)

    def dims(self):
        return [(d, (seq(k)[self.n.lit:]) if d == self.d and k is not None else k) for d, k in self.sub.dims()]



class Slice(S):
    def __init__(self, sub, d, start, n):
        self.common(sub, [start, n])
        self.d, self.start, self.n = d, start, n
        self.cpp = '%s ^ noarr::slice<%s>(%s, %s)' % (sub.cpp, q(d), start.cpp, n.cpp)
        L = sub.length(d)
        if L is not None:
            self.pre.append('%s + %s <= %s' % (start.py, n.py, py(L)))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            idx[self.d] = add(idx[self.d], self.start.spec)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            return self.n.spec
        return super()._length(d, idx, lens)

    def dims(self):
        return [(d, (seq(k)[self.start.lit:self.start.lit + self.n.lit]) if d == self.d and k is not None else k) for d, k in self.sub.dims()]



class Span(S):
    def __init__(self, sub, d, start, end):
        self.common(sub, [start, end])
        self.d, self.start, self.end = d, start, end
        self.cpp = '%s ^ noarr::span<%s>(%s, %s)' % (sub.cpp, q(d), start.cpp, end.cpp)
        L = sub.length(d)
        if L is not None:
            self.pre.append('%s <= %s' % (end.py, py(L)))
        self.pre.append('%s <= %s' % (start.py, end.py))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            idx[self.d] = add(idx[self.d], self.start.spec)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            return sub(self.end.spec, self.start.spec)
        return super()._length(d, idx, lens)

    def dims(self):
        return [(d, (seq(k)[self.start.lit:self.end.lit]) if d == self.d and k is not None else k) for d, k in self.sub.dims()]



class Step(S):
    def __init__(self, sub, d, start, step):
        self.common(sub, [start, step])
        self.d, self.start, self.step = d, start, step
        self.cpp = '%s ^ noarr::step<%s>(%s, %s)' % (sub.cpp, q(d), start.cpp, step.cpp)
        self.pre.append('%s < %s' % (start.py, step.py))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            idx[self.d] = add(mul(idx[self.d], self.step.spec), self.start.spec)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            L = self.sub.length(d, idx, lens)
            # the number of k with start + k*step < L
            return None if L is None else '((%s+%s-%s-1)/%s)' % (L, self.step.spec, self.start.spec, self.step.spec)
        return super()._length(d, idx, lens)

    def dims(self):
        return [(d, (seq(k)[self.start.lit::self.step.lit]) if d == self.d and k is not None else k) for d, k in self.sub.dims()]



class Reverse(S):
    def __init__(self, sub, d):
        self.common(sub)
        self.d = d
        self.cpp = '%s ^ noarr::reverse<%s>()' % (sub.cpp, q(d))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            i2 = dict(idx)
            v = i2.pop(self.d)
            L = self.sub.length(self.d, i2, lens)
            idx[self.d] = '(%s-1-%s)' % (L, v)
        return idx, lens

    def dims(self):
        return [(d, (seq(k)[::-1]) if d == self.d and k is not None else k) for d, k in self.sub.dims()]



class SymSpan(S):
    """symmetric_span(structure, w): drops w elements at both ends"""

    def __init__(self, sub, d, n):
        self.common(sub, [n])
        self.d, self.n = d, n
        self.cpp = '%s ^ noarr::symmetric_span<%s>(%s, %s)' % (sub.cpp, q(d), sub.cpp, n.cpp)
        L = sub.length(d)
        self.pre.append('2*%s <= %s' % (n.py, py(L)))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        if self.d in idx:
            idx[self.d] = add(idx[self.d], self.n.spec)
        return idx, lens

    def _length(self, d, idx, lens):
        if d == self.d:
            L = self.sub.length(d, idx, lens)
            return '(%s-%s-%s)' % (L, self.n.spec, self.n.spec)
        return super()._length(d, idx, lens)


class Rename(S):
    def __init__(self, sub, *pairs):
        self.common(sub)
        self.pairs = pairs
        self.map = {pairs[i + 1]: pairs[i] for i in range(0, len(pairs), 2)}  # new -> old
        self.cpp = '%s ^ noarr::rename<%s>()' % (sub.cpp, ', '.join(q(p) for p in pairs))

    def st(self, idx, lens):
        return ({self.map.get(d, d): v for d, v in idx.items()}, {self.map.get(d, d): v for d, v in lens.items()})

    def _length(self, d, idx, lens):
        i, l = self.st(idx, lens)
        if d not in self.map and d in self.map.values():
            return None
        return self.sub.length(self.map.get(d, d), i, l)

    def dims(self):
        inv = {v: k for k, v in self.map.items()}
        return [(inv.get(d, d), k if k is None or isinstance(k, int) else tuple(Rename(e, *self.pairs) for e in k)) for d, k in self.sub.dims()]


class Hoist(S):
    def __init__(self, sub, d):
        self.common(sub)
        self.d = d
        self.cpp = '%s ^ noarr::hoist<%s>()' % (sub.cpp, q(d))

    def dims(self):
        ds = self.sub.dims()
        return [x for x in ds if x[0] == self.d] + [x for x in ds if x[0] != self.d]


class Reorder(S):
    def __init__(self, sub, *ds):
        self.common(sub)
        self.ds = ds
        self.cpp = '%s ^ noarr::reorder<%s>()' % (sub.cpp, ', '.join(map(q, ds)))

    def dims(self):
        k = dict(self.sub.dims())
        return [(d, k[d]) for d in self.ds]


class Join(S):
    """join<a, b, c>: one index used for both dimensions"""

    def __init__(self, sub, a, b, c):
        self.common(sub)
        self.a, self.b, self.c = a, b, c
        self.cpp = '%s ^ noarr::join<%s, %s, %s>()' % (sub.cpp, q(a), q(b), q(c))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        for m in (idx, lens):
            if self.c in m:
                v = m.pop(self.c)
                m[self.a] = v
                m[self.b] = v
        return idx, lens

    def _length(self, d, idx, lens):
        i, l = self.st(idx, lens)
        if d == self.c:
            return self.sub.length(self.a, i, l)
        if d in (self.a, self.b):
            return None
        return self.sub.length(d, i, l)

    def dims(self):
        return [(self.c, None)] + [x for x in self.sub.dims() if x[0] not in (self.a, self.b)]


class IntoBlocks(S):
    """into_blocks<d, M, m>: index = M*len(m)+m.  how: which lengths are given and where
    'minor': length of m given (set_length or the two-argument shortcut), M = L/m
    'major': number of blocks given, m = L/M"""

    def __init__(self, sub, d, M, m, n=None, how='minor', short=False):
        self.common(sub, [n] if n else [])
        self.d, self.M, self.m, self.n, self.how = d, M, m, n, how
        if n is None:
            self.cpp = '%s ^ noarr::into_blocks<%s, %s, %s>()' % (sub.cpp, q(d), q(M), q(m))
        elif short:
            self.cpp = '%s ^ noarr::into_blocks<%s, %s, %s>(%s)' % (sub.cpp, q(d), q(M), q(m), n.cpp)
        else:
            self.cpp = '%s ^ noarr::into_blocks<%s, %s, %s>() ^ noarr::set_length<%s>(%s)' % (
                sub.cpp, q(d), q(M), q(m), q(m if how == 'minor' else M), n.cpp)
        if n is not None:
            self.pre.append('%s >= 1' % n.py)
            L = sub.length(d)
            if L is not None:
                self.pre.append('%s %% %s == 0' % (py(L), n.py))

    def given(self, lens):
        M, m = lens.get(self.M), lens.get(self.m)
        if self.n is not None:
            if self.how == 'minor':
                m = self.n.spec
            else:
                M = self.n.spec
        return M, m

    def clean(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        for x in (self.d, self.M, self.m):
            idx.pop(x, None)
            lens.pop(x, None)
        return idx, lens

    def full(self, idx, lens):
        M, m = self.given(lens)
        if M is not None and m is not None:
            return mul(M, m)
        i, l = self.clean(idx, lens)
        return self.sub.length(self.d, i, l)

    def minor(self, idx, lens):
        M, m = self.given(lens)
        if m is not None:
            return m
        F = self.full(idx, lens)
        return None if F is None or M is None else '(%s/%s)' % (F, M)

    def major(self, idx, lens):
        M, m = self.given(lens)
        if M is not None:
            return M
        F = self.full(idx, lens)
        return None if F is None or m is None else '(%s/%s)' % (F, m)

    def st(self, idx, lens):
        i, l = self.clean(idx, lens)
        M, m = self.given(lens)
        if M is not None and m is not None:
            l[self.d] = mul(M, m)
        if self.M in idx and self.m in idx:
            i[self.d] = add(mul(idx[self.M], self.minor(idx, lens)), idx[self.m])
        return i, l

    def _length(self, d, idx, lens):
        if d == self.M:
            return self.major(idx, lens)
        if d == self.m:
            return self.minor(idx, lens)
        if d == self.d:
            return None
        return super()._length(d, idx, lens)

    def newdims(self):
        return [(self.M, None), (self.m, None)]

    def dims(self):
        out = []
        for d, k in self.sub.dims():
            out += self.newdims() if d == self.d else [(d, k)]
        return out


class IntoBlocksDyn(IntoBlocks):
    def __init__(self, sub, d, M, m, p, n=None, how='minor', short=False):
        super().__init__(sub, d, M, m, n, how)
        self.p = p
        self.pre = [x for x in self.pre if '%' not in x]
        base = '%s ^ noarr::into_blocks_dynamic<%s, %s, %s, %s>' % (sub.cpp, q(d), q(M), q(m), q(p))
        if n is None:
            self.cpp = base + '()'
        elif short:
            self.cpp = base + '(%s)' % n.cpp
        else:
            self.cpp = base + '() ^ noarr::set_length<%s>(%s)' % (q(m if how == 'minor' else M), n.cpp)

    def clean(self, idx, lens):
        idx, lens = super().clean(idx, lens)
        idx.pop(self.p, None)
        return idx, lens

    def minor(self, idx, lens):
        M, m = self.given(lens)
        if m is not None:
            return m
        F = self.full(idx, lens)
        return None if F is None or M is None else '((%s+%s-1)/%s)' % (F, M, M)

    def major(self, idx, lens):
        M, m = self.given(lens)
        if M is not None:
            return M
        F = self.full(idx, lens)
        return None if F is None or m is None else '((%s+%s-1)/%s)' % (F, m, m)

    def _length(self, d, idx, lens):
        if d == self.p:
            if self.M not in idx or self.m not in idx:
                return None
            F = self.full(idx, lens)
            mi = self.minor(idx, lens)
            if F is None or mi is None:
                return None
            return 'u64((%s*%s+%s) < %s)' % (idx[self.M], mi, idx[self.m], F)
        return super()._length(d, idx, lens)

    def newdims(self):
        return [(self.M, None), (self.m, None), (self.p, None)]


class IntoBlocksStatic(S):
    """into_blocks_static<d, B, M, m>(n): B=0 body of L/n whole blocks, B=1 the rest (L%n elements)"""

    def __init__(self, sub, d, B, M, m, n):
        self.common(sub, [n])
        self.d, self.B, self.M, self.m, self.n = d, B, M, m, n
        self.cpp = '%s ^ noarr::into_blocks_static<%s, %s, %s, %s>(%s)' % (sub.cpp, q(d), q(B), q(M), q(m), n.cpp)
        self.pre.append('%s >= 1' % n.py)

    def st(self, idx, lens):
        i, l = dict(idx), dict(lens)
        for x in (self.d, self.B, self.M, self.m):
            i.pop(x, None)
            l.pop(x, None)
        L = self.sub.length(self.d, i, l)
        if all(x in idx for x in (self.B, self.M, self.m)):
            if idx[self.B] == 'u64(0)':
                i[self.d] = add(mul(idx[self.M], self.n.spec), idx[self.m])
            else:
                i[self.d] = add('(%s/%s*%s)' % (L, self.n.spec, self.n.spec), idx[self.m])
        return i, l

    def _length(self, d, idx, lens):
        i = {k: v for k, v in idx.items() if k not in (self.B, self.M, self.m)}
        if d == self.B:
            return 'u64(2)'
        if d in (self.M, self.m):
            if self.B not in idx:
                return None
            L = self.sub.length(self.d, i, lens)
            body = idx[self.B] == 'u64(0)'
            if d == self.M:
                return '(%s/%s)' % (L, self.n.spec) if body else 'u64(1)'
            return self.n.spec if body else '(%s%%%s)' % (L, self.n.spec)
        if d == self.d:
            return None
        return super()._length(d, idx, lens)

    def dims(self):
        out = []
        for d, k in self.sub.dims():
            out += [(self.B, 2), (self.M, None), (self.m, None)] if d == self.d else [(d, k)]
        return out


class MergeBlocks(S):
    """merge_blocks<M, m, d>: M = i / len(m), m = i % len(m)"""

    def __init__(self, sub, M, m, d, outer_first=True):
        self.common(sub)
        self.M, self.m, self.d = M, m, d
        self.cpp = '%s ^ noarr::merge_blocks<%s, %s, %s>()' % (sub.cpp, q(M), q(m), q(d))

    def clean(self, idx, lens):
        return ({k: v for k, v in idx.items() if k not in (self.d, self.M, self.m)},
                {k: v for k, v in lens.items() if k not in (self.d,)})

    def st(self, idx, lens):
        i, l = self.clean(idx, lens)
        a, ml = self.sub.length(self.M, i, l), self.sub.length(self.m, i, l)
        if self.d in lens:
            if ml is not None and a is None:
                l[self.M] = '(%s/%s)' % (lens[self.d], ml)
            elif a is not None and ml is None:
                ml = '(%s/%s)' % (lens[self.d], a)
                l[self.m] = ml
        if self.d in idx:
            i[self.M] = '(%s/%s)' % (idx[self.d], ml)
            i[self.m] = '(%s%%%s)' % (idx[self.d], ml)
        return i, l

    def _length(self, d, idx, lens):
        i, l = self.clean(idx, lens)
        if d == self.d:
            if d in lens:
                return lens[d]
            a, b = self.sub.length(self.M, i, l), self.sub.length(self.m, i, l)
            return None if a is None or b is None else mul(a, b)
        if d in (self.M, self.m):
            return None
        return super()._length(d, idx, lens)

    def dims(self):
        # the merged dimension takes the position of the inner one of the two
        names = [d for d, _ in self.sub.dims()]
        inner = max(names.index(self.M), names.index(self.m))
        out = []
        for k, (d, kind) in enumerate(self.sub.dims()):
            if k == inner:
                out.append((self.d, None))
            elif d not in (self.M, self.m):
                out.append((d, kind))
        return out


class Tuple(S):
    """tuple<d>(a, b, ...): elements one after another"""

    def __init__(self, d, *subs):
        self.common(None)
        self.d, self.subs = d, subs
        for s in subs:
            self.params += [p for p in s.params if p not in self.params]
            self.names += s.names
            self.pre += [p for p in s.pre if p not in self.pre]
        self.cpp = 'noarr::pack(%s) ^ noarr::tuple<%s>()' % (', '.join(s.cpp for s in subs), q(d))

    def st(self, idx, lens):
        idx, lens = dict(idx), dict(lens)
        idx.pop(self.d, None)
        return idx, lens

    def which(self, idx):
        return eval(py(idx[self.d]).replace('/', '//'))

    def off(self, idx, lens=None):
        i, l = self.st(idx, lens or {})
        k = self.which(idx)
        r = 'u64(0)'
        for s in self.subs[:k]:
            r = add(r, s.size(i, l))
        return add(r, self.subs[k].off(i, l))

    def size(self, idx=None, lens=None):
        i, l = self.st(idx or {}, lens or {})
        r = 'u64(0)'
        for s in self.subs:
            r = add(r, s.size(i, l))
        return r

    def _length(self, d, idx, lens):
        if d == self.d:
            return 'u64(%d)' % len(self.subs)
        if self.d not in idx:
            return None
        i, l = self.st(idx, lens)
        return self.subs[self.which(idx)].length(d, i, l)

    def dims(self):
        return [(self.d, self.subs)]


def walk_dims(s, idx=None):
    """All complete index assignments, as lists of (dim, Num); static dimensions are enumerated."""

    def go(ds):
        if not ds:
            yield []
            return
        d, k = ds[0]
        if k is None:
            for r in go(ds[1:]):
                yield [(d, None)] + r
        elif isinstance(k, int):
            for j in range(k):
                for r in go(ds[1:]):
                    yield [(d, j)] + r
        else:
            for j, sub in enumerate(k):
                for r in go(sub.dims() + ds[1:]):
                    yield [(d, j)] + r
    yield from go(s.dims())
