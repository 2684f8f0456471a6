"""Mangling (C23): the mangled text, read as C++, denotes the very type (and value) that was mangled.

Stage 1 folds mangle_to_str / mangle_expr at compile time into constants of the IR and reads the text from there;
stage 2 is one witness per structure that compiles that text back.  No spelling is prescribed.
"""
import itertools
import random
import re
from concurrent.futures import ThreadPoolExecutor
from .. import build
from ..core import Wit, Group, PROLOGUE, bindings
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, tuple_views

MPRE = PRE + r'''#include <cstdint>
#include <type_traits>
#include <noarr/structures/extra/mangle.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <noarr/structures/structs/bcast.hpp>
namespace mg {
struct Str {
	char b[3000]{};
	std::size_t n = 0;
	constexpr Str() = default;
	constexpr void push_back(char c) { b[n++] = c; }
	constexpr void append(const char *p, std::size_t k) { for(std::size_t i = 0; i < k; i++) b[n++] = p[i]; }
};
template<class T> constexpr Str type_text() { Str s; s.append(noarr::mangle_to_str<T>::c_str, noarr::mangle_to_str<T>::length); return s; }
template<class S> struct seq_text;
template<char... C> struct seq_text<std::integer_sequence<char, C...>> { static constexpr bool is(const char *p, std::size_t n) { const char q[] = {C..., 0}; if(n != sizeof...(C)) return false; for(std::size_t i = 0; i <= n; i++) if(p[i] != q[i]) return false; return true; } };
template<class T> constexpr bool one_text = seq_text<noarr::mangle<T>>::is(noarr::mangle_to_str<T>::c_str, noarr::mangle_to_str<T>::length);
}
'''
A = H + 'extra/mangle.hpp: '
DOM = [12, 345, 70, 9, 1000, 6789, 100, 31, 3, 5, 2, 4, 40]


class Case:
    """a structure expression with constants for its parameters, and queries that tell its numbers"""

    def __init__(self, id, decl, cpp, queries):
        self.id, self.decl, self.cpp, self.queries = id, decl, cpp, queries

    def probe(self):
        return '''namespace p_%s { %s constexpr auto S_ = %s; using T_ = std::remove_const_t<decltype(S_)>; }
extern "C" { extern const mg::Str type_%s, expr_%s; constinit const mg::Str type_%s = mg::type_text<p_%s::T_>(); constinit const mg::Str expr_%s = noarr::mangle_expr<mg::Str>(p_%s::S_); }
''' % ((self.id, self.decl, self.cpp) + (self.id,) * 6)


def texts(ir):
    out = {}
    for m in re.finditer(r'^@((?:type|expr)_\w+) = (.*)$', ir, re.M):
        c = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', m.group(2))
        n = re.search(r'i64 (\d+) \}>?(?:, align \d+)?\s*$', m.group(2))
        raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), c.group(1)) if c else ''
        out[m.group(1)] = raw.rstrip('\0') if n is None else raw[:int(n.group(1))]
    return out


def fold_texts(cases):
    """id -> (type text, expression text); cases that do not compile are absent"""
    res = {}
    with build.Scratch() as sc:
        pch, err = build.make_pch(sc.dir, PROLOGUE + MPRE)
        if pch is None:
            return None

        def work(cs, k):
            t, err = build.to_ir(sc.dir, pch, ''.join(c.probe() for c in cs), 'm%s' % k, ['-fconstexpr-steps=50000000'])
            if t is None:
                if len(cs) == 1:
                    return {}
                h = len(cs) // 2
                d = work(cs[:h], k + 'a')
                d.update(work(cs[h:], k + 'b'))
                return d
            return texts(t)
        b = max(1, min(24, (len(cases) + 7) // 8))
        parts = [cases[i:i + b] for i in range(0, len(cases), b)]
        with ThreadPoolExecutor(8) as ex:
            for d in ex.map(work, parts, map(str, range(len(parts)))):
                res.update(d)
    return res


SCOPE = 'using namespace noarr; using std::int8_t; using std::int16_t; using std::int32_t; using std::int64_t; using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t; '


def model_case(id, s, seed):
    env = next(iter(bindings(s.params, s.pre + ['%s > 0' % p for p in s.params], {p: DOM[i:] + DOM[:i] for i, p in enumerate(s.params)}, seed, 1)), None)
    if env is None:
        return None
    decl = ''.join('constexpr u64 %s = %d; ' % kv for kv in env.items())
    assign = next(iter(walk_dims(s)))
    q = []
    ds = [d for d, _ in assign]
    for pos in (0, 1):
        st = 'noarr::idx<%s>(%s)' % (dimlist(ds), ', '.join('noarr::lit<%d>' % k if k is not None else 'u64(%d)' % pos for _, k in assign)) if ds else 'noarr::empty_state'
        q.append('(X | noarr::offset(%s))' % st)
    ix = {}
    for i, (d, k) in enumerate(assign):
        if k is None and s.length(d, {x: 'u64(0)' for x, _ in assign[:i]}) is not None:
            st = 'noarr::idx<%s>(%s)' % (dimlist(ds[:i]), ', '.join('noarr::lit<%d>' % k if k is not None else 'u64(0)' for _, k in assign[:i])) if i else 'noarr::empty_state'
            q.append("(X | noarr::get_length<'%s'>(%s))" % (d, st))
    return Case(id, decl, s.cpp, q)


def cases(th):
    out = []
    V = SLICES + BLOCKS + OTHER
    bs = bases()
    sets = [(n, s) for n, s in bs]
    for n, b in bs[:4]:
        sets += [(m, s) for m, s, vs in stacks(V, 1, [(n, b)])]
    deep = [(m, s) for n, b in bs[:3] for m, s, vs in stacks(V, 2, [(n, b)])]
    random.Random(23).shuffle(deep)
    sets += deep[:500 if th else 40]
    Num.LITS = dict(n=16, l=5, m=123, b0=10, k0=3, e0=14, t0=12, m0=12, g0=10, w0=1)
    sets += [('lit_' + m, s) for m, s, vs in stacks(V, 1, [bs[0], bs[1]])]
    Num.LITS = {}
    sets += list(tuple_views())
    b2 = dict(bs)['v2']
    sets += [('join_' + n, s) for n, s in [('xy', Join(b2, 'x', 'y', 'z')), ('xyx', Join(b2, 'x', 'y', 'x'))]]
    for k, (id, s) in enumerate(sets):
        try:
            c = model_case(id, s, k)
        except KeyError:
            c = None
        if c:
            out.append(c)
    for t in ('int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t'):
        out.append(Case('sc_' + t, '', 'noarr::scalar<std::%s>()' % t, []))
    for t in ('float', 'double', 'long double'):
        out.append(Case('sc_' + t.replace(' ', ''), '', 'noarr::scalar<%s>()' % t, []))
    G = "(X | noarr::get_length<'x'>())"
    for v in (0, 1, 9, 10, 11, 19, 99, 100, 101, 999, 1000, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 10, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        out.append(Case('num_%d' % v, '', "noarr::scalar<std::int8_t>() ^ noarr::vector<'x'>() ^ noarr::set_length<'x'>(u64(%dULL))" % v, [G]))
        out.append(Case('lit_%d' % v, '', "noarr::scalar<std::int8_t>() ^ noarr::vector<'x'>() ^ noarr::set_length<'x'>(noarr::lit<%dULL>)" % v, [G]))
        out.append(Case('arr_%d' % v, '', "noarr::scalar<std::int8_t>() ^ noarr::array<'x', %dULL>()" % v, [G]))
    for d in ("a", "Z", "0", "_", "-", " ", ","):
        out.append(Case('dim_%d' % ord(d), '', "noarr::scalar<float>() ^ noarr::vector<'%s'>()" % d, []))
    for lo, hi in ((0, 0), (3, 2), (12, 4)):
        out.append(Case('z_%d_%d' % (lo, hi), '', "noarr::scalar<float>() ^ noarr::array<'x', 16>() ^ noarr::array<'y', 16>() ^ noarr::merge_zcurve<'x', 'y', 'z'>::maxlen_alignment<%d, %d>()" % (2 ** max(4, lo), 2 ** hi),
                        ["(X | noarr::get_length<'z'>())"]))
    return out


def numbers():
    """integers of every type and sign, as mangle_expr writes them"""
    out = []
    for bits in (8, 16, 32, 64):
        for v in (0, 1, -1, 9, -9, 10, -10, -12, 100, -100, 127, -127, 2 ** (bits - 1) - 1, -2 ** (bits - 1) + 1, -2 ** (bits - 1)):
            if v == -2 ** 63:
                continue   # C++ has no literal for it
            lo = '(%d - 1)' % (v + 1) if v == -2 ** (bits - 1) else '%d' % v
            out.append(Case('i%d_%s' % (bits, str(v).replace('-', 'm')), '', 'std::int%d_t(%sLL)' % (bits, lo) if '(' not in lo else 'std::int%d_t(%dLL - 1)' % (bits, v + 1), ['X']))
        for v in (0, 9, 10, 255, 2 ** bits - 1):
            out.append(Case('u%d_%d' % (bits, v), '', 'std::uint%d_t(%dULL)' % (bits, v), ['X']))
    seen = {}
    for c in out:
        seen[c.id] = c
    return list(seen.values())


def mk(tier):
    th = tier == 'thorough'
    obs = []
    nums = numbers()
    for c in nums:
        c.probe = lambda c=c: 'namespace p_%s { constexpr auto S_ = %s; }\nextern "C" { extern const mg::Str expr_%s; constinit const mg::Str expr_%s = noarr::mangle_expr<mg::Str>(p_%s::S_); }\n' % (c.id, c.cpp, c.id, c.id, c.id)
    cs = cases(th) + nums
    txt = fold_texts(cs)
    if txt is None:
        txt = {}
    for c in cs:
        what = '%s %s' % (c.decl, c.cpp)
        e = txt.get('expr_' + c.id)
        t = txt.get('type_' + c.id)
        if e is None:
            obs.append(Wit('me_' + c.id, c.probe(), 'mangling of ' + what, A + 'mangle_expr'))
            continue
        decl = '%s constexpr auto S_ = %s; using T_ = std::remove_const_t<decltype(S_)>; ' % (c.decl, c.cpp)
        if t is not None:
            obs.append(Wit('mt_' + c.id, decl + SCOPE + 'static_assert(mg::one_text<T_>, "mangle and mangle_to_str differ"); using U_ = %s; static_assert(std::is_same_v<U_, T_>, "the mangled type is another type");' % t,
                           'the text %s names the type of %s' % (t[:300], what), A + 'mangle'))
        obs.append(Wit('me_' + c.id, decl + 'namespace t_ { ' + SCOPE + 'constexpr auto P_ = %s; } using t_::P_; static_assert(std::is_same_v<decltype(P_), decltype(S_)>, "the mangled expression has another type"); ' % e +
                       ''.join('static_assert(%s == %s, "the mangled expression has other numbers"); ' % (re.sub(r'\bX\b', 'P_', q), re.sub(r'\bX\b', 'S_', q)) for q in c.queries),
                       'the text %s denotes %s' % (e[:300], what), A + 'mangle_expr'))
    return [Group(MPRE, obs)]
