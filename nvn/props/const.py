"""C27: what can be computed at compile time is a constant expression, also for const objects."""
import hashlib
import re

from ..core import Group, PROLOGUE, Wit, bindings

SOURCES = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13', 'C15', 'C16', 'C17', 'C18', 'C21', 'C22', 'C26']
SINKS = ' '.join('constexpr void %s(%s) noexcept {}' % (n, ', '.join(['u64'] * k)) for n, k in
                 [('sink', 1), ('mark', 1)] + [('sink%d' % k, k) for k in range(2, 7)])
# memory is accessed through a reinterpret_cast
PROHIBITED = re.compile(r'get_at|\bbag|sub_ptr|reinterpret_cast|\bmake_bag|void \*|extern |asm')


def witness(o, src):
    if o.kind != 'equality' or PROHIBITED.search(o.impl) or PROHIBITED.search(o.decls or ''):
        return None
    try:
        envs = list(bindings(o.params, o.pre, o.dom, int(hashlib.sha1(o.id.encode()).hexdigest()[:8], 16), 12))
        envs.sort(key=lambda e: (sum(e.values()) + 30 * list(e.values()).count(0), sorted(e.items())))   # few iterations, but some
        envs = envs[:2] + ([max(envs, key=lambda e: (list(e.values()).count(0), sorted(e.items())))] if envs else [])
    except (NameError, SyntaxError, TypeError):
        return None   # a precondition that is only C++
    if not envs:
        return None
    def const(m):
        v = m[1]
        changed = re.search(r'(\+\+|--)%s\b|\b%s *(\+\+|--|[-+]=)|(?<!auto )\b%s = |sub_range\(%s\b|split' % (v, v, v, v), o.impl)
        return m[0] if changed else 'const ' + m[0]   # ranges and iterators may be modified
    impl = re.sub(r'(?<!const )\bauto (\w+) = ', const, o.impl)
    runs = sorted({', '.join('%dU' % e[p] for p in o.params) for e in envs})
    return Wit('%s_%s' % (src.lower(), o.id), '%s\n%s\nconstexpr %s probe(%s) { %s }\n%s' % (
        o.decls or '', SINKS, o.ret, ', '.join('u64 ' + p for p in o.params), impl, '\n'.join('static_assert(((void)probe(%s), true));' % r for r in runs)),
        what='a constant expression: ' + (o.what or o.impl), anchor=o.anchor)


def mk(tier):
    from ..registry import PROPS
    out = []
    for s in SOURCES:
        groups = PROPS[s].make('quick')
        n = sum(len(g.obs) for g in groups)
        every = max(1, n // (300 if tier == 'quick' else 1500))
        for g in groups:
            obs = [w for o in g.obs if int(hashlib.md5(('ce' + o.id).encode()).hexdigest(), 16) % every == 0 for w in [witness(o, s)] if w]
            if obs:
                assert g.preamble.startswith(PROLOGUE)
                out.append(Group(g.preamble[len(PROLOGUE):], obs, flags=tuple(g.flags) + ('-fconstexpr-steps=50000000',), batch=g.batch))
    return out
