"""Guarded polynomial normal form.

Abstract domain of the value-numbering analysis.  A value of width w is a decision
diagram (Shannon-ordered over hash-consed comparison atoms) whose leaves are
polynomials over Z/2^w in hash-consed atoms.  Two program values with the same normal
form are equal for every valuation of the variables; equality is pointer equality.

Atoms (never contain decisions):  ('var',name)  ('udiv',w,p,q)  ('op',name,w,args...)
Decisions (booleans):             ('ult',w,p,q) ('slt',w,p,q) ('eq',w,p,q) ('b',...)
"""
import sys
sys.setrecursionlimit(100000)


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# A polynomial is a tuple of (monomial, coeff) sorted; monomial = sorted tuple of atom ids.

_atoms = {}
_atom_list = []


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
    return i


def atom_key(i):
    return _atom_list[i]


def poly(d, w):
    m = (1 << w) - 1
    r = tuple(sorted((k, v & m) for k, v in d.items() if v & m))
    for mono, c in r:
        if not c & 1:
            for a in mono:
                x = _p2div.get(a)
                if x is not None and c % x[0] == 0 and x[1] == w:
                    return _p2rewrite(r, mono, c, a, w)
    return r


# atoms udiv(p, 2^k) whose dividend has coefficients outside [0, 2^k): atom -> (2^k, w, p - p', udiv(p', 2^k)).
# 2^k * udiv(p, 2^k) = p - p' + 2^k * udiv(p', 2^k) in Z/2^w, where p' = p with coefficients reduced mod 2^k
_p2div = {}


def _p2rewrite(r, mono, c, a, w):
    k, _, diff, ud = _p2div[a]
    rest = list(mono)
    rest.remove(a)
    d = {x: y for x, y in r if x != mono}
    base = ((tuple(rest), c // k),)
    e = pmul(base, padd(diff, pmul(pconst(k, w), ud, w), w), w)
    for x, y in e:
        d[x] = d.get(x, 0) + y
    return poly(d, w)


def _p2register(a, p, k, w):
    red = poly({m: c % k for m, c in p}, w)
    if red == p:
        return
    _p2div[a] = (k, w, padd(p, red, w, -1), pudiv(red, pconst(k, w), w))


def pconst(c, w):
    c &= (1 << w) - 1
    return (((), c),) if c else ()


def pisconst(p):
    return len(p) == 0 or (len(p) == 1 and p[0][0] == ())


def pval(p):
    return p[0][1] if p else 0


def patom(a):
    return (((a,), 1),)


def padd(p, q, w, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return poly(d, w)


def pmul(p, q, w):
    if len(p) * len(q) > 20000:
        raise TooBig("polynomial")
    d = {}
    for m1, c1 in p:
        for m2, c2 in q:
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d, w)


def pneg(p, w):
    return padd((), p, w, -1)


def log2(c):
    return c.bit_length() - 1 if c and c & (c - 1) == 0 else None


def upper_bound(p, w):
    """A cheap sound upper bound of an unsigned polynomial value, or None."""
    tot = 0
    for m, c in p:
        prod = c
        for a in m:
            b = atom_bound(a)
            if b is None:
                return None
            prod *= b
        tot += prod
    return tot if tot < (1 << w) else None


_bounds = {}


def atom_bound(a):
    if a in _bounds:
        return _bounds[a]
    _bounds[a] = None
    k = _atom_list[a]
    r = None
    if k[0] == 'zext':
        r = (1 << k[1]) - 1
    elif k[0] == 'udiv':
        w, p, q = k[1:]
        ub = upper_bound(p, w)
        if ub is None:
            ub = (1 << w) - 1
        if pisconst(q) and pval(q):
            r = ub // pval(q)
    elif k[0] == 'bits':
        # ('bits', w, p, lo, n): bits lo..lo+n-1 of p
        r = (1 << k[4]) - 1
    _bounds[a] = r
    return r


def pudiv(p, q, w):
    if pisconst(q):
        c = pval(q)
        if c == 1:
            return p
        if c == 0:
            return patom(atom(('udiv', w, p, q)))
        if pisconst(p):
            return pconst(pval(p) // c, w)
        ub = upper_bound(p, w)
        if ub is not None:
            if ub < c:
                return ()
            # exact split: p = c*a + r with 0 <= r < c
            a, r = {}, {}
            for m, k in p:
                if k % c == 0:
                    a[m] = k // c
                else:
                    r[m] = k
            r = poly(r, w)
            rub = upper_bound(r, w)
            if a and rub is not None and rub < c:
                return poly(a, w)
        # (x / c1) / c
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            k = _atom_list[p[0][0][0]]
            if k[0] == 'udiv' and pisconst(k[3]) and pval(k[3]) * c < (1 << w):
                return pudiv(k[2], pconst(pval(k[3]) * c, w), w)
    elif p == q:
        pass
    if not p:
        return ()
    if pisconst(q) and log2(pval(q)) and len(p) > 1:
        k = log2(pval(q))
        v = bitview(p, w)
        if v is not None:
            return from_bits({i - k: b for i, b in v.items() if i >= k}, w)
    if pisconst(q) and log2(pval(q)) and _or_parts(p):
        x, y = (pudiv(o, q, w) for o in _or_parts(p))
        r = por(x, y, w)
        return r if r is not None else patom(atom(('op', 'or', w) + tuple(sorted((x, y)))))
    a = atom(('udiv', w, p, q))
    if a not in _p2div and pisconst(q) and log2(pval(q)):
        _p2register(a, p, pval(q), w)
    return patom(a)


# ------------------------------------------------------------------ bit provenance
# A polynomial that is a rearrangement of single bits of its atoms has a canonical reading: position -> bit.
# floor(z/2^k) = sum_{j>=k} 2^(j-k) bit_j(z), so a linear combination of floor(z/2^k) is one of the bits of z.
def _term_base(a):
    """atom -> (base polynomial, shift)"""
    k = _atom_list[a]
    if k[0] == 'udiv' and pisconst(k[3]) and log2(pval(k[3])):
        return k[2], log2(pval(k[3]))
    return patom(a), 0


_views = {}


def bitview(p, w, top=None):
    """dict position -> 1 | (base, j), or None when p (mod 2^top) is not a rearrangement of bits"""
    key = (p, w, top)
    if key in _views:
        return _views[key]
    _views[key] = None
    bases, view = {}, {}
    for m, c in p:
        if m == ():
            for i in range(top or w):
                if c >> i & 1:
                    view[i] = 1
            continue
        if len(m) != 1:
            return None
        b, k = _term_base(m[0])
        if len(b) > 1 and k == 0:
            return None
        bases.setdefault(b, {})
        bases[b][k] = bases[b].get(k, 0) + c
    if len(bases) > 8:
        return None
    mask = (1 << (top or w)) - 1
    for b, cs in bases.items():
        ub = upper_bound(b, w)
        nb = w if ub is None else ub.bit_length()
        acc = 0
        for j in range(nb):
            acc = (acc * 2 + cs.get(j, 0)) & mask
            if acc == 0:
                continue
            rest = acc
            while rest:
                pos = rest.bit_length() - 1
                rest ^= 1 << pos
                if pos in view:
                    return None
                view[pos] = (b, j)
    _views[key] = view
    return view


def from_bits(view, w):
    d = {}
    r = ()
    runs = []
    for pos in sorted(view):
        v = view[pos]
        if v == 1:
            r = padd(r, pconst(1 << pos, w), w)
            continue
        b, j = v
        if runs and runs[-1][0] == b and runs[-1][2] + 1 == pos and runs[-1][3] + 1 == j:
            runs[-1][2], runs[-1][3] = pos, j
        else:
            runs.append([b, pos, pos, j, j])
    for b, lo, hi, jhi, jlo in runs:
        t = _floor2(b, jlo, w)
        ub = upper_bound(b, w)
        top = w if ub is None else ub.bit_length()
        if jhi + 1 < top:
            t = padd(t, pmul(pconst(1 << (jhi + 1 - jlo), w), _floor2(b, jhi + 1, w), w), w, -1)
        r = padd(r, pmul(pconst(1 << lo, w), t, w), w)
    return r


def _floor2(b, k, w):
    return b if k == 0 else patom(atom(('udiv', w, b, pconst(1 << k, w))))


def _or_parts(p):
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        k = _atom_list[p[0][0][0]]
        if k[0] == 'op' and k[1] == 'or' and len(k) == 5:
            return k[3], k[4]
    return None


def por(p, q, w):
    """polynomial p|q, or None"""
    if not p or p == q:
        return q
    if not q:
        return p
    a, b = bitview(p, w), bitview(q, w)
    if a is None or b is None:
        return None
    r = dict(a)
    for i, v in b.items():
        if i in r and r[i] != v:
            if r[i] == 1 or v == 1:
                r[i] = 1
                continue
            return None
        r[i] = v
    return from_bits(r, w)



def purem(p, q, w):
    if pisconst(q) and log2(pval(q)):
        return _pand_const(p, pval(q) - 1, w)
    return padd(p, pmul(q, pudiv(p, q, w), w), w, -1)


# ------------------------------------------------------------------ decisions
_dec = {}
_dec_list = []


def decision(key):
    i = _dec.get(key)
    if i is None:
        i = len(_dec_list)
        _dec[key] = i
        _dec_list.append(key)
    return i


# Decision diagram nodes: ('L', leaf) or ('N', dec, hi, lo); hash-consed through a table.
class DD:
    __slots__ = ('dec', 'hi', 'lo', 'leaf', 'id')


_nodes = {}
MAXNODES = [4000000]


def leaf(x):
    k = ('L', x)
    n = _nodes.get(k)
    if n is None:
        n = DD()
        n.dec = None
        n.hi = n.lo = None
        n.leaf = x
        n.id = len(_nodes)
        _nodes[k] = n
    return n


def node(d, hi, lo):
    if hi is lo:
        return hi
    k = (d, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        if len(_nodes) > MAXNODES[0]:
            raise TooBig("decision diagram")
        n = DD()
        n.dec = d
        n.hi = hi
        n.lo = lo
        n.leaf = None
        n.id = len(_nodes)
        _nodes[k] = n
    return n


TRUE = leaf(True)
FALSE = leaf(False)
_BIG = 1 << 60


def _top(*xs):
    return min((x.dec if x.dec is not None else _BIG) for x in xs)


def _cof(x, d, hi):
    if x.dec == d:
        return x.hi if hi else x.lo
    return x


def apply(f, *xs, memo=None):
    """Lift a leaf function over decision diagrams; f returns a DD."""
    if memo is None:
        memo = {}
    key = tuple(x.id for x in xs)
    r = memo.get(key)
    if r is not None:
        return r
    d = _top(*xs)
    if d == _BIG:
        r = f(*[x.leaf for x in xs])
    else:
        hi = apply(f, *[_cof(x, d, True) for x in xs], memo=memo)
        lo = apply(f, *[_cof(x, d, False) for x in xs], memo=memo)
        r = ite_dec(d, hi, lo)
    memo[key] = r
    return r


_ite_memo = {}


def ite_dec(d, hi, lo):
    """ite over decision d where hi/lo may contain decisions ordered before d (introduced by f)."""
    if hi is lo:
        return hi
    if _top(hi, lo) > d:
        return node(d, hi, lo)
    return ite(node(d, TRUE, FALSE), hi, lo)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    d = _top(c, a, b)
    r = node(d, ite(_cof(c, d, True), _cof(a, d, True), _cof(b, d, True)),
             ite(_cof(c, d, False), _cof(a, d, False), _cof(b, d, False)))
    _ite_memo[k] = r
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def restrict(x, g, memo=None):
    """Simplify x under the assumption that guard g holds (Coudert-Madre restrict)."""
    if memo is None:
        memo = {}
    if g is TRUE or g is FALSE or x.dec is None:
        return x
    k = (x.id, g.id)
    r = memo.get(k)
    if r is not None:
        return r
    if g.dec < x.dec:
        r = restrict(x, OR(g.hi, g.lo), memo)
    elif g.dec == x.dec:
        if g.hi is FALSE:
            r = restrict(x.lo, g.lo, memo)
        elif g.lo is FALSE:
            r = restrict(x.hi, g.hi, memo)
        else:
            r = node(x.dec, restrict(x.hi, g.hi, memo), restrict(x.lo, g.lo, memo))
    else:
        r = node(x.dec, restrict(x.hi, g, memo), restrict(x.lo, g, memo))
    memo[k] = r
    return r


# ------------------------------------------------------------------ lifted operations
def const(c, w):
    return leaf(pconst(c, w))


def var(name, w=64):
    return leaf(patom(atom(('var', name, w))))


def _sign_of(p, w):
    """canonical representative of {p, -p}"""
    n = pneg(p, w)
    return p if p <= n else n


def dec_eq(p, q, w):
    d = padd(p, q, w, -1)
    if not d:
        return TRUE
    if pisconst(d):
        return FALSE
    ub = None
    # c*x == 0 with bound: x == 0
    d = _sign_of(d, w)
    if len(d) == 1 and len(d[0][0]) >= 1 and d[0][1] & 1:
        d = ((d[0][0], 1),)
    # a single boolean-like atom compare handled by bounds
    ub = upper_bound(p, w), upper_bound(q, w)
    if pisconst(q) and ub[0] is not None and ub[0] < pval(q):
        return FALSE
    if pisconst(p) and ub[1] is not None and ub[1] < pval(p):
        return FALSE
    # udiv(a,c)==0  <=>  a < c
    if len(d) == 1 and len(d[0][0]) == 1 and d[0][1] == 1:
        k = _atom_list[d[0][0][0]]
        if k[0] == 'udiv':
            return dec_ult(k[2], k[3], w)
    # x == x/c with c >= 2  <=>  x == 0 (written with x < 2 in front, which it implies)
    for (m, c) in d:
        if len(m) == 1 and c in (1, (1 << w) - 1):
            k = _atom_list[m[0]]
            if k[0] == 'udiv' and pisconst(k[3]) and pval(k[3]) >= 2 and padd(padd(d, patom(m[0]), w, -c), k[2], w, c) == ():
                return AND(dec_ult(k[2], pconst(2, w), w), dec_eq(k[2], (), w))
    return node(decision(('eq', w, d)), TRUE, FALSE)


def dec_ult(p, q, w):
    if p == q:
        return FALSE
    if pisconst(p) and pisconst(q):
        return TRUE if pval(p) < pval(q) else FALSE
    if not q:
        return FALSE
    if not p:
        return NOT(dec_eq(q, (), w))
    if pisconst(q):
        if pval(q) == 1:
            return dec_eq(p, (), w)
        if pval(q) == 2 and not any(_atom_list[a][0] == 'sym' for m, _ in p for a in m):
            # (except for loop variables: the trip count is read from the comparison)
            return OR(dec_eq(p, (), w), dec_eq(p, pconst(1, w), w))
        ub = upper_bound(p, w)
        if ub is not None and ub < pval(q):
            return TRUE
        if pval(q) == (1 << w) - 1:
            return NOT(dec_eq(p, q, w))
    if pisconst(p):
        ub = upper_bound(q, w)
        if ub is not None and ub <= pval(p):
            return FALSE
        if pval(p) == (1 << w) - 1:
            return FALSE
        # c < q  ==  !(q < c+1)
        return NOT(dec_ult(q, pconst(pval(p) + 1, w), w))
    # x < udiv(a, b)  ... keep ; a < b  with a = c*udiv
    return node(decision(('ult', w, p, q)), TRUE, FALSE)


def dec_slt(p, q, w):
    if p == q:
        return FALSE
    if pisconst(p) and pisconst(q):
        s = lambda v: v - (1 << w) if v >> (w - 1) else v
        return TRUE if s(pval(p)) < s(pval(q)) else FALSE
    return node(decision(('slt', w, p, q)), TRUE, FALSE)


def icmp(pred, a, b, w):
    if w == 1:
        # booleans are stored as TRUE/FALSE diagrams
        x = {'eq': lambda: NOT(XOR(a, b)), 'ne': lambda: XOR(a, b),
             'ult': lambda: AND(NOT(a), b), 'ugt': lambda: AND(a, NOT(b)),
             'ule': lambda: OR(NOT(a), b), 'uge': lambda: OR(a, NOT(b)),
             'slt': lambda: AND(a, NOT(b)), 'sgt': lambda: AND(NOT(a), b),
             'sle': lambda: OR(a, NOT(b)), 'sge': lambda: OR(NOT(a), b)}[pred]
        return x()
    if pred == 'eq':
        return apply(lambda p, q: dec_eq(p, q, w), a, b)
    if pred == 'ne':
        return NOT(apply(lambda p, q: dec_eq(p, q, w), a, b))
    if pred in ('ult', 'ugt', 'ule', 'uge'):
        if pred == 'ult':
            return apply(lambda p, q: dec_ult(p, q, w), a, b)
        if pred == 'ugt':
            return apply(lambda p, q: dec_ult(q, p, w), a, b)
        if pred == 'ule':
            return NOT(apply(lambda p, q: dec_ult(q, p, w), a, b))
        return NOT(apply(lambda p, q: dec_ult(p, q, w), a, b))
    if pred == 'slt':
        return apply(lambda p, q: dec_slt(p, q, w), a, b)
    if pred == 'sgt':
        return apply(lambda p, q: dec_slt(q, p, w), a, b)
    if pred == 'sle':
        return NOT(apply(lambda p, q: dec_slt(q, p, w), a, b))
    if pred == 'sge':
        return NOT(apply(lambda p, q: dec_slt(p, q, w), a, b))
    raise Unsupported(pred)


def XOR(a, b):
    return ite(a, NOT(b), b)


def add(a, b, w):
    return apply(lambda p, q: leaf(padd(p, q, w)), a, b)


def sub(a, b, w):
    return apply(lambda p, q: leaf(padd(p, q, w, -1)), a, b)


def mul(a, b, w):
    return apply(lambda p, q: leaf(pmul(p, q, w)), a, b)


def udiv(a, b, w):
    return apply(lambda p, q: leaf(pudiv(p, q, w)), a, b)


def urem(a, b, w):
    return apply(lambda p, q: leaf(purem(p, q, w)), a, b)


def _uop(name, w, comm=False):
    def f(*ps):
        if comm:
            ps = tuple(sorted(ps))
        return leaf(patom(atom(('op', name, w) + tuple(ps))))
    return f


def _ppow2(q, w):
    if pisconst(q):
        return pconst(1 << pval(q), w) if pval(q) < w else ()
    return patom(atom(('op', 'pow2', w, q)))


def shl(a, b, w):
    return apply(lambda p, q: leaf(pmul(p, _ppow2(q, w), w)), a, b)


def lshr(a, b, w):
    def f(p, q):
        if pisconst(q):
            return leaf(pudiv(p, pconst(1 << pval(q), w), w))
        return leaf(patom(atom(('op', 'lshr', w, p, q))))
    return apply(f, a, b)


def _runs(c, w):
    """maximal runs of ones of constant c: list of (lo, n)"""
    out = []
    i = 0
    while i < w:
        if c >> i & 1:
            j = i
            while j < w and c >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def _pand_const(p, c, w):
    if c == 0:
        return ()
    if c == (1 << w) - 1:
        return p
    o = _or_parts(p)
    if o:
        x, y = _pand_const(o[0], c, w), _pand_const(o[1], c, w)
        r = por(x, y, w)
        if r is not None:
            return r
    v = bitview(p, w, c.bit_length())
    if v is not None:
        return from_bits({i: b for i, b in v.items() if c >> i & 1}, w)
    runs = _runs(c, w)
    if len(runs) > 4:
        return patom(atom(('op', 'and', w) + tuple(sorted((p, pconst(c, w))))))
    r = ()
    for lo, n in runs:
        # bits lo..lo+n-1 of p in place:  2^lo * ((p / 2^lo) mod 2^n)
        t = pudiv(p, pconst(1 << lo, w), w)
        if lo + n < w:
            t = padd(t, pmul(pconst(1 << n, w), pudiv(p, pconst(1 << (lo + n), w), w), w), w, -1)
        r = padd(r, pmul(pconst(1 << lo, w), t, w), w)
    return r


def band(a, b, w):
    if w == 1:
        return AND(a, b)

    def f(p, q):
        if pisconst(p) and pisconst(q):
            return leaf(pconst(pval(p) & pval(q), w))
        if pisconst(p):
            p, q = q, p
        if pisconst(q):
            return leaf(_pand_const(p, pval(q), w))
        if p == q:
            return leaf(p)
        return _uop('and', w, True)(p, q)
    return apply(f, a, b)


def bor(a, b, w, disjoint=False):
    if w == 1:
        return OR(a, b)
    if disjoint:
        return add(a, b, w)

    def f(p, q):
        if pisconst(p) and pisconst(q):
            return leaf(pconst(pval(p) | pval(q), w))
        if not p:
            return leaf(q)
        if not q or p == q:
            return leaf(p)
        if pisconst(p):
            p, q = q, p
        if pisconst(q):
            # p | c = (p & ~c) + c
            return leaf(padd(_pand_const(p, ~pval(q) & ((1 << w) - 1), w), q, w))
        r = por(p, q, w)
        if r is not None:
            return leaf(r)
        return _uop('or', w, True)(p, q)
    return apply(f, a, b)


def bxor(a, b, w):
    if w == 1:
        return XOR(a, b)

    def f(p, q):
        if pisconst(p) and pisconst(q):
            return leaf(pconst(pval(p) ^ pval(q), w))
        if pisconst(p):
            p, q = q, p
        if pisconst(q) and pval(q) == (1 << w) - 1:
            return leaf(padd(q, p, w, -1))
        if not q:
            return leaf(p)
        if p == q:
            return leaf(())
        return _uop('xor', w, True)(p, q)
    return apply(f, a, b)


def uninterp(name, w, *args):
    return apply(_uop(name, w), *args)


def zext(a, w0, w1):
    if w0 == 1:
        return apply(lambda b: leaf(pconst(1 if b else 0, w1)), a)

    def f(p):
        if pisconst(p):
            return leaf(pconst(pval(p), w1))
        ub = upper_bound(p, w0)
        return leaf(patom(atom(('zext', w0, w1, p))))
    return apply(f, a)


def sext(a, w0, w1):
    if w0 == 1:
        return apply(lambda b: leaf(pconst(-1 if b else 0, w1)), a)

    def f(p):
        if pisconst(p):
            v = pval(p)
            if v >> (w0 - 1):
                v -= 1 << w0
            return leaf(pconst(v, w1))
        return leaf(patom(atom(('op', 'sext%d' % w0, w1, p))))
    return apply(f, a)


def trunc(a, w0, w1):
    if w1 == 1:
        return apply(lambda p: dec_eq(_pand_const(p, 1, w0), pconst(1, w0), w0), a)

    def f(p):
        d = {}
        for m, c in p:
            ms = []
            for x in m:
                k = _atom_list[x]
                if k[0] == 'zext' and k[1] == w1 and len(k[3]) == 1 and k[3][0][1] == 1:
                    ms.extend(k[3][0][0])
                else:
                    ms.append(atom(('op', 'trunc%d' % w0, w1, patom(x))))
            m2 = tuple(sorted(ms))
            d[m2] = d.get(m2, 0) + c
        return leaf(poly(d, w1))
    return apply(f, a)


def select(c, a, b):
    return ite(c, a, b)


def umin(a, b, w):
    return ite(icmp('ult', a, b, w), a, b)


def umax(a, b, w):
    return ite(icmp('ult', a, b, w), b, a)


# ------------------------------------------------------------------ substitution
def subst_poly(p, w, env, memo):
    """env: atom id -> DD of the atom's width. returns DD."""
    key = (p, w)
    r = memo.get(key)
    if r is not None:
        return r
    r = const(0, w)
    for m, c in p:
        t = const(c, w)
        for a in m:
            t = mul(t, subst_atom(a, env, memo), w)
        r = add(r, t, w)
    memo[key] = r
    return r


def subst_atom(a, env, memo):
    if a in env:
        return env[a]
    key = ('a', a)
    r = memo.get(key)
    if r is not None:
        return r
    k = _atom_list[a]
    if k[0] in ('var', 'sym'):
        r = leaf(patom(a))
    elif k[0] == 'udiv':
        r = udiv(subst_poly(k[2], k[1], env, memo), subst_poly(k[3], k[1], env, memo), k[1])
    elif k[0] == 'zext':
        r = zext(subst_poly(k[3], k[1], env, memo), k[1], k[2])
    elif k[0] == 'op':
        name, w = k[1], k[2]
        if name.startswith('trunc'):
            r = trunc(subst_poly(k[3], int(name[5:]), env, memo), int(name[5:]), w)
        elif name.startswith('sext'):
            r = sext(subst_poly(k[3], int(name[4:]), env, memo), int(name[4:]), w)
        else:
            args = []
            for p in k[3:]:
                args.append(subst_poly(p, w, env, memo) if isinstance(p, tuple) else leaf(p))
            f = {'and': band, 'or': bor, 'xor': bxor, 'lshr': lshr}.get(name)
            if f:
                r = f(args[0], args[1], w)
            elif name == 'pow2':
                r = apply(lambda q: leaf(_ppow2(q, w)), args[0])
            else:
                r = apply(_uop(name, w), *args)
    else:
        # opaque atoms (load/call results) may mention polys; rebuild conservatively
        r = leaf(patom(a))
    memo[key] = r
    return r


def subst(x, w, env, memo=None):
    """Substitute atoms in a DD of width w (w==1: boolean)."""
    if not env:
        return x
    if memo is None:
        memo = {}
    key = ('dd', x.id, w)
    r = memo.get(key)
    if r is not None:
        return r
    if x.dec is None:
        r = x if w == 1 else subst_poly(x.leaf, w, env, memo)
    else:
        c = subst_dec(x.dec, env, memo)
        r = ite(c, subst(x.hi, w, env, memo), subst(x.lo, w, env, memo))
    memo[key] = r
    return r


def subst_dec(d, env, memo):
    k = _dec_list[d]
    key = ('d', d)
    r = memo.get(key)
    if r is not None:
        return r
    if k[0] == 'eq':
        r = icmp('eq', subst_poly(k[2], k[1], env, memo), const(0, k[1]), k[1])
    elif k[0] == 'ult':
        r = icmp('ult', subst_poly(k[2], k[1], env, memo), subst_poly(k[3], k[1], env, memo), k[1])
    elif k[0] == 'slt':
        r = icmp('slt', subst_poly(k[2], k[1], env, memo), subst_poly(k[3], k[1], env, memo), k[1])
    elif k[0] == 'bool':
        r = env.get(('bool', k[1]))
        if r is None:
            r = node(d, TRUE, FALSE)
    else:
        r = node(d, TRUE, FALSE)
    memo[key] = r
    return r


def boolsym(name):
    return node(decision(('bool', name)), TRUE, FALSE)


# ------------------------------------------------------------------ atoms used
def atoms_of(x, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if x.id in seen:
        return acc
    seen.add(x.id)
    if x.dec is None:
        if isinstance(x.leaf, tuple):
            _patoms(x.leaf, acc)
    else:
        for p in _dec_list[x.dec][2:]:
            if isinstance(p, tuple):
                _patoms(p, acc)
        if _dec_list[x.dec][0] == 'bool':
            acc.add(('bool', _dec_list[x.dec][1]))
        atoms_of(x.hi, acc, seen)
        atoms_of(x.lo, acc, seen)
    return acc


def _ispoly(q):
    return isinstance(q, tuple) and all(
        isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], int) and isinstance(t[0], tuple)
        and all(isinstance(a, int) for a in t[0]) for t in q)


def _patoms(p, acc):
    for m, c in p:
        for a in m:
            if a not in acc:
                acc.add(a)
                k = _atom_list[a]
                if k[0] in ('sym', 'var', 'loopval'):
                    continue
                for q in k[1:]:
                    if _ispoly(q):
                        _patoms(q, acc)
                    elif isinstance(q, tuple):
                        for r in q:
                            if _ispoly(r):
                                _patoms(r, acc)


# ------------------------------------------------------------------ printing
def show_poly(p, depth=0):
    if not p:
        return '0'
    out = []
    for m, c in p:
        f = [show_atom(a, depth) for a in m]
        neg = c >> 63
        if neg:
            c = (1 << 64) - c
        s = '*'.join(([str(c)] if c != 1 or not f else []) + f)
        out.append(('-' if neg else '+') + s)
    r = ' '.join(out)
    return r[1:] if r[0] == '+' else r


def show_atom(a, depth=0):
    if depth > 12:
        return '..'
    k = _atom_list[a]
    if k[0] == 'loopval':
        import zlib
        return 'after-loop#%08x' % zlib.crc32(repr(k).encode())
    if k[0] in ('var', 'sym'):
        return str(k[1])
    if k[0] == 'udiv':
        return '(%s)/(%s)' % (show_poly(k[2], depth + 1), show_poly(k[3], depth + 1))
    return '%s(%s)' % (k[1] if k[0] == 'op' else k[0],
                       ', '.join(show_poly(q, depth + 1) if isinstance(q, tuple) else str(q) for q in k[2:]))


def show_dec(d):
    k = _dec_list[d]
    if k[0] == 'eq':
        return '%s == 0' % show_poly(k[2])
    if k[0] in ('ult', 'slt'):
        return '%s <%s %s' % (show_poly(k[2]), k[0][0], show_poly(k[3]))
    return str(k)


def show(x, depth=0):
    if x.dec is None:
        return show_poly(x.leaf) if isinstance(x.leaf, tuple) else str(x.leaf)
    if depth > 4:
        return '...'
    if x.hi is TRUE and x.lo is FALSE:
        return '[%s]' % show_dec(x.dec)
    if x.hi is FALSE and x.lo is TRUE:
        return '[not %s]' % show_dec(x.dec)
    return '(if %s then %s else %s)' % (show_dec(x.dec), show(x.hi, depth + 1), show(x.lo, depth + 1))


# ------------------------------------------------------------------ constant folding under a binding
class NoValue(Exception):
    pass


def fold_poly(p, w, env):
    r = 0
    for m, c in p:
        t = c
        for a in m:
            t *= fold_atom(a, env)
        r += t
    return r & ((1 << w) - 1)


def fold_atom(a, env):
    if a in env:
        return env[a]
    k = _atom_list[a]
    if k[0] == 'udiv':
        q = fold_poly(k[3], k[1], env)
        if q == 0:
            raise NoValue()
        return fold_poly(k[2], k[1], env) // q
    if k[0] == 'zext':
        return fold_poly(k[3], k[1], env)
    if k[0] == 'op':
        name, w = k[1], k[2]
        if name.startswith('trunc'):
            return fold_poly(k[3], int(name[5:]), env) & ((1 << w) - 1)
        if name.startswith('sext'):
            w0 = int(name[4:])
            v = fold_poly(k[3], w0, env)
            if v >> (w0 - 1):
                v -= 1 << w0
            return v & ((1 << w) - 1)
        if name in ('and', 'or', 'xor', 'lshr'):
            x = fold_poly(k[3], w, env)
            y = fold_poly(k[4], w, env)
            if name == 'lshr':
                if y >= w:
                    raise NoValue()
                return x >> y
            return x & y if name == 'and' else x | y if name == 'or' else x ^ y
        if name == 'pow2':
            x = fold_poly(k[3], w, env)
            if x >= w:
                raise NoValue()
            return 1 << x
        if name in ('ashr', 'sdiv', 'srem', 'ctpop', 'cttz', 'ctlz', 'fshl', 'fshr'):
            xs = [fold_poly(p, w, env) if isinstance(p, tuple) else p for p in k[3:]]
            s = lambda v: v - (1 << w) if v >> (w - 1) else v
            M = (1 << w) - 1
            if name == 'ashr':
                return (s(xs[0]) >> xs[1]) & M
            if name == 'ctpop':
                return bin(xs[0]).count('1')
            if name == 'cttz':
                return w if xs[0] == 0 else (xs[0] & -xs[0]).bit_length() - 1
            if name == 'ctlz':
                return w - xs[0].bit_length()
            if name in ('fshl', 'fshr'):
                sh = xs[2] % w
                v = (xs[0] << w) | xs[1]
                return ((v << sh) >> w) & M if name == 'fshl' else (v >> sh) & M
            if xs[1] == 0:
                raise NoValue()
            q = abs(s(xs[0])) // abs(s(xs[1]))
            if (s(xs[0]) < 0) != (s(xs[1]) < 0):
                q = -q
            return (q if name == 'sdiv' else s(xs[0]) - q * s(xs[1])) & M
        # fully uninterpreted: a deterministic hash of the folded arguments
        xs = tuple(fold_poly(p, 64, env) if isinstance(p, tuple) else p for p in k[3:])
        return _mix((name,) + xs) & ((1 << w) - 1)
    h = env.get(('opaque',))
    if h is not None:
        return h(a, k, env)
    raise NoValue()


def _mix(t):
    import zlib
    return zlib.crc32(repr(t).encode()) * 2654435761 & ((1 << 64) - 1)


def fold_dec(d, env):
    k = _dec_list[d]
    if k[0] == 'eq':
        return fold_poly(k[2], k[1], env) == 0
    if k[0] == 'ult':
        return fold_poly(k[2], k[1], env) < fold_poly(k[3], k[1], env)
    if k[0] == 'slt':
        w = k[1]
        s = lambda v: v - (1 << w) if v >> (w - 1) else v
        return s(fold_poly(k[2], w, env)) < s(fold_poly(k[3], w, env))
    if k[0] == 'bool':
        return env[('bool', k[1])]
    raise NoValue()


def fold(x, w, env):
    while x.dec is not None:
        x = x.hi if fold_dec(x.dec, env) else x.lo
    if w == 1 or not isinstance(x.leaf, tuple):
        return x.leaf
    return fold_poly(x.leaf, w, env)
