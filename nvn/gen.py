"""Enumerates structures (bases and stacks of views) and turns them into obligations."""
import itertools
from .core import Eq
from .model import *

FREE = 'ABCDEFGHJKMNPQRSTUVW'


class Fresh:
    def __init__(self, s=None):
        self.n = {}

    def num(self, s, stem, lit=None):
        if lit is not None:
            return Num(lit=lit)
        k = 0
        while '%s%d' % (stem, k) in s.params:
            k += 1
        return Num('%s%d' % (stem, k))


def fresh_dims(s, k):
    used = set()

    def go(t):
        if t is None:
            return
        for d, sub in t.dims():
            used.add(d)
            if isinstance(sub, tuple):
                for x in sub:
                    go(x)
        go(getattr(t, 'sub', None))
    go(s)
    out = [c for c in FREE if c not in used][:k]
    return out


def P(s, stem, taken=()):
    k = 0
    while '%s%d' % (stem, k) in s.names or '%s%d' % (stem, k) in taken:
        k += 1
    return Num('%s%d' % (stem, k))


def two(s, a, b):
    x = P(s, a)
    y = P(s, b, (x.name,))
    return x, y


# view name -> function(structure, dim) -> structure (or None when not applicable)
def v_shift(s, d):
    return Shift(s, d, P(s, 'h'))


def v_slice(s, d):
    a, b = two(s, 'b', 'k')
    return Slice(s, d, a, b)


def v_span(s, d):
    a, b = two(s, 'b', 'e')
    return Span(s, d, a, b)


def v_step(s, d):
    a, b = two(s, 'b', 't')
    return Step(s, d, a, b)


def v_reverse(s, d):
    return Reverse(s, d)


def v_symspan(s, d):
    return SymSpan(s, d, P(s, 'w'))


def v_fix(s, d):
    return Fix(s, d, P(s, 'f'))


def v_rename(s, d):
    return Rename(s, d, fresh_dims(s, 1)[0])


def v_hoist(s, d):
    return Hoist(s, d)


def v_blocks(s, d):
    M, m = fresh_dims(s, 2)
    return IntoBlocks(s, d, M, m, P(s, 'm'))


def v_blocks_same(s, d):
    M, = fresh_dims(s, 1)
    return IntoBlocks(s, d, M, d, P(s, 'm'))


def v_blocks_short(s, d):
    M, m = fresh_dims(s, 2)
    return IntoBlocks(s, d, M, m, P(s, 'm'), short=True)


def v_blocks_major(s, d):
    M, m = fresh_dims(s, 2)
    return IntoBlocks(s, d, M, m, P(s, 'g'), how='major')


def v_dyn(s, d):
    M, m, p = fresh_dims(s, 3)
    return IntoBlocksDyn(s, d, M, m, p, P(s, 'm'))


def v_dyn_major(s, d):
    M, m, p = fresh_dims(s, 3)
    return IntoBlocksDyn(s, d, M, m, p, P(s, 'g'), how='major')


def v_static(s, d):
    B, M, m = fresh_dims(s, 3)
    return IntoBlocksStatic(s, d, B, M, m, P(s, 'm'))


def v_vector(s, d):
    n, = fresh_dims(s, 1)
    return SizedVector(s, n, P(s, 'l'))


def v_bcast(s, d):
    n, = fresh_dims(s, 1)
    return Bcast(s, n, P(s, 'l'))


def v_merge(s, d):
    """merge d (as minor) with another known-length dimension (as major)"""
    for e, k in s.dims():
        if e != d and k is None and s.length(e) is not None and s.length(d) is not None:
            n, = fresh_dims(s, 1)
            return MergeBlocks(s, e, d, n)
    return None


VIEWS = dict(shift=v_shift, slice=v_slice, span=v_span, step=v_step, reverse=v_reverse, symspan=v_symspan, fix=v_fix,
             rename=v_rename, hoist=v_hoist, blocks=v_blocks, blocks_same=v_blocks_same, blocks_short=v_blocks_short, blocks_major=v_blocks_major,
             dyn=v_dyn, dyn_major=v_dyn_major, static=v_static, vector=v_vector, bcast=v_bcast, merge=v_merge)
# views that never need a length of the dimension
NEED_LEN = {'step', 'reverse', 'symspan', 'blocks', 'blocks_same', 'blocks_short', 'blocks_major', 'dyn', 'dyn_major', 'static', 'merge'}


def apply_view(name, s, d):
    """The view applied to dimension d; None when it is not applicable there."""
    if name not in ('vector', 'bcast'):
        k = dict(s.dims()).get(d, 'x')
        if k is not None:
            return None
        if s.length(d) is None and name != 'fix' and name != 'rename' and name != 'hoist':
            return None
    if name in ('dyn', 'dyn_major', 'static', 'merge', 'reverse', 'symspan', 'step') and s.length(d) is None:
        return None
    if name == 'hoist' and any(k is not None for _, k in s.dims()):
        return None
    return VIEWS[name](s, d)


def idx_exprs(assign):
    """[(dim, None|k)] -> (idx dict for the model, C++ index arguments, parameters)"""
    idx, cpp, params = {}, [], []
    for d, k in assign:
        if k is None:
            p = 'i' + d
            idx[d] = p
            cpp.append(p)
            params.append(p)
        else:
            idx[d] = 'u64(%d)' % k
            cpp.append('noarr::lit<%d>' % k)
    return idx, cpp, params


def range_pre(s, assign):
    pre, idx = [], {}
    for d, k in assign:
        L = s.length(d, idx)
        if k is None:
            if L is not None:
                pre.append('i%s < %s' % (d, py(L)))
            idx[d] = 'i' + d
        else:
            idx[d] = 'u64(%d)' % k
    return pre


def dimlist(ds):
    return ', '.join("'%s'" % d for d in ds)


OFFSET_FORMS = {
    'offset': lambda s, ds, cs, T: 'auto S_ = %s; return S_ | noarr::offset<%s>(%s);' % (s, dimlist(ds), ', '.join(cs)),
    'state': lambda s, ds, cs, T: 'auto S_ = %s; return S_ | noarr::offset(%s);' % (
        s, ' & '.join("noarr::idx<'%s'>(%s)" % (d, c) for d, c in zip(ds, cs)) or 'noarr::empty_state'),
    'rev': lambda s, ds, cs, T: 'auto S_ = %s; return S_ | noarr::offset(%s);' % (
        s, ' & '.join("noarr::idx<'%s'>(%s)" % (d, c) for d, c in reversed(list(zip(ds, cs)))) or 'noarr::empty_state'),
    'with': lambda s, ds, cs, T: 'auto S_ = %s; return S_ | noarr::offset(noarr::empty_state.with<%s>(%s));' % (
        s, ', '.join("noarr::index_in<'%s'>" % d for d in ds), ', '.join('noarr::good_index_t<std::remove_cvref_t<decltype(%s)>>(%s)' % (c, c) for c in cs)),
    'ptr': lambda s, ds, cs, T: 'auto S_ = %s; char *p_ = (char *)u64(4096); return u64((char *)&(S_ | noarr::get_at<%s>((void *)p_, %s)) - p_);' % (
        s, dimlist(ds), ', '.join(cs)) if ds else 'auto S_ = %s; char *p_ = (char *)u64(4096); return u64((char *)&(S_ | noarr::get_at((void *)p_, noarr::empty_state)) - p_);' % s,
    'fixall': lambda s, ds, cs, T: 'auto S_ = %s; return (S_ ^ noarr::fix<%s>(%s)) | noarr::offset();' % (s, dimlist(ds), ', '.join(cs)) if ds else
    'auto S_ = %s; return S_ | noarr::offset();' % s,
    'bag': lambda s, ds, cs, T: 'auto S_ = %s; char *p_ = (char *)u64(4096); auto b_ = noarr::make_bag(S_, p_); return u64((char *)&b_%s - p_);' % (
        s, ('.at<%s>(%s)' % (dimlist(ds), ', '.join(cs))) if ds else '[noarr::empty_state]'),
}


def offset_obs(pid, s, what, anchor, form='offset', maxassign=6):
    out = []
    for j, assign in enumerate(itertools.islice(walk_dims(s), maxassign)):
        idx, cpp, ip = idx_exprs(assign)
        ds = [d for d, _ in assign]
        impl = OFFSET_FORMS[form](s.cpp, ds, cpp, None)
        spec = 'return %s;' % s.off(idx)
        out.append(Eq('%s_off%s' % (pid, j or ''), s.params + ip, impl, spec, s.pre + range_pre(s, assign),
                      what='offset of %s' % what, anchor=anchor))
    return out


def size_obs(pid, s, what, anchor):
    return [Eq(pid + '_size', s.params, 'return u64((%s) | noarr::get_size());' % s.cpp, 'return %s;' % s.size(), s.pre,
               what='size of ' + what, anchor=anchor)]


def length_obs(pid, s, what, anchor, maxassign=4):
    """length of every dimension, given the indices of the dimensions outside it"""
    out = []
    seen = set()
    for j, assign in enumerate(itertools.islice(walk_dims(s), maxassign)):
        for k in range(len(assign)):
            outer = assign[:k]
            d = assign[k][0]
            key = (tuple(outer), d)
            if key in seen:
                continue
            seen.add(key)
            idx, cpp, ip = idx_exprs(outer)
            L = s.length(d, idx)
            if L is None:
                continue
            st = ' & '.join("noarr::idx<'%s'>(%s)" % (x, c) for (x, _), c in zip(outer, cpp)) or 'noarr::empty_state'
            out.append(Eq('%s_len%d%s' % (pid, j, d), s.params + ip,
                          "auto S_ = %s; return u64(S_ | noarr::get_length<'%s'>(%s));" % (s.cpp, d, st),
                          'return %s;' % L, s.pre + range_pre(s, outer), what='length of %s in %s' % (d, what), anchor=anchor))
    return out


def all_obs(pid, s, what, anchor, form='offset'):
    return offset_obs(pid, s, what, anchor, form) + size_obs(pid, s, what, anchor) + length_obs(pid, s, what, anchor)


N = lambda name: Num(name)
LIT = lambda v: Num(lit=v)


def bases():
    """base layouts: (name, structure)"""
    out = []
    out.append(('v1', SizedVector(Scalar('int'), 'x', N('n'))))
    out.append(('v2', SizedVector(SizedVector(Scalar('int'), 'x', N('n')), 'y', N('m'))))
    out.append(('v2d', SizedVector(SizedVector(Scalar('double'), 'y', N('m'), 1), 'x', N('n'), 2)))
    out.append(('v3', SizedVector(SizedVector(SizedVector(Scalar('float'), 'x', N('n')), 'y', N('m')), 'z', N('l'))))
    return out
