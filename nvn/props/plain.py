"""Plain values (C25): structures, proto-structures, states, traversers and containers hold their run-time numbers and nothing else."""
import itertools
import re
import random
from ..core import Eq, Wit, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, OTHER, stacks, tuple_views
from .bag import proto_of, states

PPRE = PRE + '''#include <type_traits>
#include <utility>
#include <noarr/traversers.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/bag.hpp>
template<class T> constexpr bool plain =
	std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T> && std::is_trivially_copy_constructible_v<T> && std::is_trivially_move_constructible_v<T> && std::is_trivially_destructible_v<T>
	&& (!std::is_copy_assignable_v<T> || std::is_trivially_copy_assignable_v<T>) && (!std::is_move_assignable_v<T> || std::is_trivially_move_assignable_v<T>);
template<class T, u64 K> constexpr bool holds = K == 0 ? std::is_empty_v<T> : !std::is_empty_v<T> && sizeof(T) == K * sizeof(u64);
template<class T> constexpr bool defaults = std::is_empty_v<T> ? std::is_trivially_default_constructible_v<T> : !std::is_default_constructible_v<T>;
'''
A = 'docs/dev/Conventions.md, ' + H + 'base/contain.hpp: strict_contain'


def wit(id, params, expr, k, what, dflt=True):
    fn = 'constexpr auto f(%s) { return %s; } ' % (', '.join('u64 ' + p for p in params), expr)
    t = 'using T = decltype(f(%s)); ' % ', '.join('1' for _ in params)
    return Wit(id, fn + t + 'static_assert(plain<T>, "a plain value"); static_assert(holds<T, %d>, "holds its %d run-time numbers and nothing else"); ' % (k, k) +
               ('static_assert(defaults<T>, "default constructor");' if dflt else ''), what + ' ' + expr, A)


def structures(th):
    obs = []
    V = SLICES + BLOCKS + OTHER
    bs = bases()
    sets = list(bs)
    for n, b in bs:
        sets += [(m, s) for m, s, vs in stacks(V, 1, [(n, b)])]
    deep = [(m, s) for n, b in bs[:3] for m, s, vs in stacks(V, 2, [(n, b)])]
    random.Random(25).shuffle(deep)
    sets += deep[:3000 if th else 200]
    sets += list(tuple_views())
    for lits in ({}, dict(n=16, b0=4), dict(n=16, m=12, l=5, b0=4, k0=3, e0=9, t0=8, m0=6, g0=5, w0=1)):
        Num.LITS = lits
        if lits:
            bs = bases()
            sets2 = list(bs)
            for n, b in bs:
                sets2 += [(m, s) for m, s, vs in stacks(V, 1, [(n, b)])]
        else:
            sets2 = sets
        for n, s in sets2:
            if 'symspan' in n:
                continue    # computes its two numbers from the length of the structure
            key = '%d_%s' % (len(lits), n)
            k = len(re.findall(r'\b(?:%s)\b' % '|'.join(s.params or ['-']), s.cpp))   # a number used twice is held twice
            obs.append(wit('s%s' % key, s.params, s.cpp, k, 'structure'))
            if hasattr(s, 'sub') and s.cpp.startswith(s.sub.cpp) and s.sub.cpp:
                ps = [p for p in s.params if p not in s.sub.params]
                v = s.cpp[len(s.sub.cpp) + 3:]
                obs.append(wit('p%s' % key, ps, v, len(ps), 'proto-structure'))
                obs.append(wit('t%s' % key, s.params, 'noarr::traverser(%s).order(%s)' % (s.sub.cpp, v), k, 'traverser', False))
        Num.LITS = {}
    return obs


def others(th):
    obs = []
    ds = 'xyzwvu'
    for n in range(0, 7):
        for mask in itertools.product('ds', repeat=n):
            if n > 3 and mask.count('d') not in (1, n - 1):
                continue
            ps = [ds[i] for i in range(n) if mask[i] == 'd']
            vals = [ds[i] if mask[i] == 'd' else 'noarr::lit<%d>' % (i + 2) for i in range(n)]
            key = '%d_%s' % (n, ''.join(mask))
            st = 'noarr::idx<%s>(%s)' % (dimlist(ds[:n]), ', '.join(vals)) if n else 'noarr::empty_state'
            obs.append(wit('st' + key, ps, st, len(ps), 'state'))
            if n:
                obs.append(wit('ch' + key, ps, ' ^ '.join("noarr::set_length<'%s'>(%s)" % (d, v) for d, v in zip(ds, vals)), len(ps), 'proto-structure', False))
            # the container itself: get<I> is the I-th value, cat joins, two equal values stay two values
            c = 'noarr::helpers::contain(%s)' % ', '.join(vals) if n else 'noarr::helpers::contain<>()'
            obs.append(wit('co' + key, ps, c, len(ps), 'container'))
            if n and n <= 6:
                spec = [ds[i] if mask[i] == 'd' else 'u64(%d)' % (i + 2) for i in range(n)]
                sk = 'sink(' if n == 1 else 'sink%d(' % n
                obs.append(Eq('cg' + key, ps, 'auto c = %s; %s%s);' % (c, sk, ', '.join('u64(c.template get<%d>())' % i for i in range(n))), '%s%s);' % (sk, ', '.join(spec)), ret='void',
                              what='values of ' + c, anchor=H + 'base/contain.hpp: contain::get'))
                nm = ', '.join('v%d' % i for i in range(n))
                obs.append(Eq('cb' + key, ps, 'auto c = %s; auto [%s] = c; %s%s);' % (c, nm, sk, ', '.join('u64(v%d)' % i for i in range(n))), '%s%s);' % (sk, ', '.join(spec)), ret='void',
                              what='structured binding of ' + c, anchor=H + 'base/contain.hpp: tuple_element'))
                for cut in range(0, n + 1):
                    for cut2 in ([n] if n > 3 else range(cut, n + 1)):
                        part = lambda a, b: 'noarr::helpers::contain(%s)' % ', '.join(vals[a:b]) if b > a else 'noarr::helpers::contain<>()'
                        e = 'noarr::contain_cat(%s, %s, %s)' % (part(0, cut), part(cut, cut2), part(cut2, n))
                        obs.append(Eq('cc%s_%d%d' % (key, cut, cut2), ps, 'auto c = %s; static_assert(std::is_same_v<decltype(c), decltype(%s)>); %s%s);' % (e, c, sk, ', '.join('u64(c.template get<%d>())' % i for i in range(n))),
                                      '%s%s);' % (sk, ', '.join(spec)), ret='void', what=e, anchor=H + 'base/contain.hpp: contain_cat'))
    return obs


def mk(tier):
    th = tier == 'thorough'
    return [Group(PPRE, structures(th) + others(th))]
