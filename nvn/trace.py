"""Constant-folds a summary (terms and effect list) under a binding of its variables.

Used only to triage two summaries whose normal forms differ: a binding under which the two
normal forms fold to different values / effect sequences is a witness that the two really
disagree; no witness means 'not decided' and never raises an alarm.
"""
import zlib
from . import nf


PREFIX = 'cut off'


class Limit(Exception):
    pass


def _h(t):
    return zlib.crc32(repr(t).encode())


class Folder:
    def __init__(self, binding, limit=20000):
        self.env = {}
        for k, (v, w) in binding.items():
            if w == 1:
                self.env[('bool', k)] = bool(v)
            else:
                self.env[nf.atom(('var', k, w))] = v
        self.trace = []
        self.mem = {}
        self.limit = limit
        self.env[('opaque',)] = self.opaque

    def opaque(self, a, k, env):
        if k[0] == 'var' and isinstance(k[1], str) and (k[1].startswith('@') or k[1].startswith('fp:')):
            return (0x100000 + _h(k[1]) % 0x10000 * 64) & ((1 << k[2]) - 1)
        raise nf.NoValue()

    def events(self, evs):
        for e in evs:
            if not nf.fold(e.guard, 1, self.env):
                continue
            if e.kind == 'loop':
                self.loop(e.loop)
                continue
            args = tuple(nf.fold(a, w, self.env) for a, w in e.args)
            self.limit -= 1
            if self.limit < 0:
                raise Limit()
            r = None
            if e.kind == 'store':
                self.mem[(args[0], e.name)] = args[1]
                self.trace.append(('store', e.name) + args)
            elif e.kind == 'load':
                r = self.mem.get((args[0], e.name))
                if r is None:
                    r = _h((args[0], e.name))
            else:
                self.trace.append((e.kind, e.name) + args)
                r = _h((e.name, args, len(self.trace)))
            if e.res:
                s, w = e.res
                self.bind(s, w, r)

    def bind(self, s, w, v):
        if w == 1:
            self.env[('bool', s[1] if s[0] == 'sym' else s)] = bool(v & 1)
        else:
            self.env[nf.atom(s)] = v & ((1 << w) - 1)

    def loop(self, l):
        n = nf.fold(l.count, 64, self.env) if l.count is not None else None
        vals = [(s, nf.fold(i, w, self.env), w) for s, i, _, w in l.tphis]
        k = 0
        while True:
            self.limit -= 1
            if self.limit < 0:
                raise Limit()
            self.bind(l.ivsym, 64, k)
            for s, v, w in vals:
                self.bind(s, w, int(v))
            if n is not None and k >= n:
                break
            self.events(l.events)
            self.bind(l.ivsym, 64, k)
            if n is None and not nf.fold(l.cont, 1, self.env):
                break
            vals = [(s, nf.fold(nx, w, self.env), w) for s, _, nx, w in l.tphis]
            k += 1
        for a, v, w in l.outs:
            x = nf.fold(v, w, self.env)
            if w == 1:
                self.env[('bool', a)] = bool(x)
            else:
                self.env[nf.atom(a)] = x


def observe(summary, binding, limit=20000):
    """(value, effects), or (PREFIX, effects) if the effects were cut off after `limit` steps."""
    f = Folder(binding, limit)
    try:
        f.events(summary.events)
    except Limit:
        return (PREFIX, tuple(f.trace))
    r = None
    if summary.ret is not None:
        r = nf.fold(summary.ret, summary.w, f.env)
    return (r, tuple(f.trace))


def differ(x, y):
    """Whether two observations disagree; what lies beyond a cut is not known."""
    if x[0] != PREFIX and y[0] != PREFIX:
        return x != y
    n = min(len(x[1]), len(y[1]))
    if x[1][:n] != y[1][:n]:
        return True
    # the complete one of the two has fewer effects than the other begins with
    return len(x[1]) < len(y[1]) and x[0] != PREFIX or len(y[1]) < len(x[1]) and y[0] != PREFIX
