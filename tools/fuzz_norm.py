"""Development aid (no check uses it): is the normaliser faithful to the language?

Random small programs with loops of many shapes are summarised by nvn.summ; the summary, folded at small arguments, must
give the effects and the value that the compiled program gives.   python3 tools/fuzz_norm.py SEED ROUNDS
"""
import ctypes
import os
import random
import subprocess
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from nvn import build, ir, summ, nf, trace

PRE = 'using u64 = unsigned long; using u32 = unsigned; extern "C" void sink1(u64); extern "C" void sink2(u64, u64);\n'
PARAMS = ['n', 'm', 'k']


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.c = 0

    def name(self, p='v'):
        self.c += 1
        return '%s%d' % (p, self.c)

    def expr(self, vs, d=2):
        r = self.r
        if d == 0 or r.random() < .35:
            return r.choice(vs) if r.random() < .75 else '%dul' % r.choice([0, 1, 2, 3, 4, 8])
        a, b = self.expr(vs, d - 1), self.expr(vs, d - 1)
        op = r.choice(['+', '+', '-', '*', '/', '%', '&', '>>', '?', 'min', '<<', '|'])
        if op in '/%':
            return '(%s %s (%s %s 1))' % (a, op, b, '|' if r.random() < .5 else '&1 ? 2 : 2*') if r.random() < .6 else '(%s %s %s)' % (a, op, r.choice(['2', '3', '4', '(%s + 1)' % r.choice(PARAMS)]))
        if op in ('>>', '<<'):
            return '(%s %s %d)' % (a, op, r.choice([1, 2, 3]))
        if op == '&':
            return '(%s & %d)' % (a, r.choice([1, 3, 7, 4]))
        if op == '|':
            return '(%s | %d)' % (a, r.choice([1, 2, 4]))
        if op == '?':
            return '(%s ? %s : %s)' % (self.cond(vs, d - 1), a, b)
        if op == 'min':
            return '(%s < %s ? %s : %s)' % (a, b, a, b)
        return '(%s %s %s)' % (a, op, b)

    def cond(self, vs, d=1):
        r = self.r
        a, b = self.expr(vs, d), self.expr(vs, d)
        c = '(%s %s %s)' % (a, r.choice(['<', '<=', '==', '!=', '>', '>=']), b)
        if r.random() < .2:
            c = '(%s %s %s)' % (c, r.choice(['&&', '||']), self.cond(vs, 0))
        return c

    def bound(self, vs):
        r = self.r
        return r.choice(vs[:3]) if r.random() < .6 else '(%s & 7)' % self.expr(vs, 1)

    def block(self, vs, mut, depth, inloop, fn):
        r = self.r
        vs, mut = list(vs), list(mut)
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .25 or depth == 0:
                out.append(r.choice(['sink1(%s);' % self.expr(vs), 'sink2(%s, %s);' % (self.expr(vs), self.expr(vs))]))
            elif k < .35:
                v = self.name()
                out.append('%s %s = %s;' % (r.choice(['u64', 'u64', 'u64', 'u32', 'int']), v, self.expr(vs)))
                vs.append('u64(%s)' % v if False else v)
                if out[-1].startswith('u64'):
                    mut.append(v)
            elif k < .42 and mut:
                v = r.choice(mut)
                out.append('%s %s %s;' % (v, r.choice(['=', '+=', '+=', '-=', '*=']), self.expr(vs, 1)))
            elif k < .52:
                out.append('if %s { %s }' % (self.cond(vs), self.block(vs, mut, depth - 1, inloop, fn)) + (' else { %s }' % self.block(vs, mut, depth - 1, inloop, fn) if r.random() < .4 else ''))
            elif k < .57 and fn:
                out.append('if %s return %s;' % (self.cond(vs), self.expr(vs)))
            elif k < .62 and inloop:
                out.append('if %s %s;' % (self.cond(vs), r.choice(inloop)))
            else:
                out.append(self.loop(vs, mut, depth - 1, fn))
        return ' '.join(out)

    def loop(self, vs, mut, depth, fn):
        r = self.r
        i, b, a = self.name('i'), self.name('b'), self.name('a')
        head = 'const u64 %s = %s, %s = %s;' % (b, self.bound(vs), a, r.choice(['0', '0', '1', '%s & 3' % self.expr(vs, 1)]))
        kind = r.choice(['for', 'for', 'forne', 'step', 'while', 'whilecond', 'do', 'doguard', 'down', 'down2', 'rev', 'two', 'forle'])
        body = lambda jumps: self.block(vs + [i], mut, depth, jumps, fn)
        both, brk = ['break', 'break', 'continue'], ['break']
        if kind == 'for':
            return '{ %s for (u64 %s = %s; %s < %s; ++%s) { %s } }' % (head, i, a, i, b, i, body(both))
        if kind == 'forle':
            return '{ %s for (u64 %s = %s; %s <= %s; ++%s) { %s } }' % (head, i, a, i, b, i, body(both))
        if kind == 'forne':
            return '{ %s if (%s <= %s) for (u64 %s = %s; %s != %s; ++%s) { %s } }' % (head, a, b, i, a, i, b, i, body(both))
        if kind == 'step':
            return '{ %s for (u64 %s = %s; %s < %s; %s += %s) { %s } }' % (head, i, a, i, b, i, r.choice(['2', '3', '(k + 1)']), body(both))
        if kind == 'while':
            return '{ %s u64 %s = %s; while (%s < %s) { %s ++%s; } %s }' % (head, i, a, i, b, body(brk), i, 'sink1(%s);' % i if r.random() < .5 else '')
        if kind == 'whilecond':
            return '{ %s u64 %s = %s; while (true) { if (%s >= %s) break; %s ++%s; } sink1(%s); }' % (head, i, a, i, b, body(brk), i, i)
        if kind == 'do':
            return '{ %s u64 %s = %s; do { %s ++%s; } while (%s < %s); sink1(%s); }' % (head, i, a, body(brk), i, i, b, i)
        if kind == 'doguard':
            return '{ %s u64 %s = %s; if (%s < %s) do { %s ++%s; } while (%s); }' % (head, i, a, i, b, body(brk), i, r.choice(['%s < %s', '%s != %s']) % (i, b))
        if kind == 'down':
            return '{ %s for (u64 %s = %s; %s-- > 0; ) { %s } }' % (head, i, b, i, body(both))
        if kind == 'down2':
            return '{ %s for (u64 %s = %s; %s != 0; --%s) { %s } }' % (head, i, b, i, i, body(both))
        if kind == 'rev':
            return '{ %s for (u64 j%s = 0; j%s < %s; ++j%s) { const u64 %s = %s - 1 - j%s; %s } }' % (head, i, i, b, i, i, b, i, body(both))
        return '{ %s u64 z%s = %s; for (u64 %s = 0; %s < %s; ++%s, z%s += %s) { sink1(z%s); %s } }' % (
            head, i, a, i, i, b, i, i, r.choice(['2', 'n', '3 * m']), i, body(both))

    def func(self, name):
        return 'extern "C" u64 %s(u64 n, u64 m, u64 k) { u64 acc = 0; %s return acc + %s; }' % (name, self.block(PARAMS + ['acc'], ['acc'], 3, [], True), self.r.choice(['0', 'n', 'acc * m']))


def round_(seed):
    rng = random.Random(seed)
    fs = {'f%d' % i: Gen(random.Random(rng.random())).func('f%d' % i) for i in range(40)}
    st = dict(ok=0, unsupported=0, novalue=0, limit=0, bad=[])
    with build.Scratch() as sc:
        pch, err = build.make_pch(sc.dir, PRE)
        text, err = build.to_ir(sc.dir, pch, '\n'.join(fs.values()), 'x')
        if text is None:
            return dict(st, bad=[('compile', err[:500])])
        cpp, so = os.path.join(sc.dir, 'y.cpp'), os.path.join(sc.dir, 'y.so')
        pre = 'using u64 = unsigned long; using u32 = unsigned; static u64 buf[1 << 16]; static u64 len; static u64 fuel;' \
              'extern "C" u64 *getbuf() { return buf; } extern "C" u64 getlen() { return len; } extern "C" void reset() { len = 0; }' \
              'static void sink1(u64 a) { if (len + 3 < (1 << 16)) { buf[len++] = 1; buf[len++] = a; } } static void sink2(u64 a, u64 b) { if (len + 3 < (1 << 16)) { buf[len++] = 2; buf[len++] = a; buf[len++] = b; } }\n'
        open(cpp, 'w').write(pre + '\n'.join(fs.values()))
        subprocess.run([build.CLANG, '-O1', '-w', '-shared', '-fPIC', cpp, '-o', so], check=True)
        lib = ctypes.CDLL(so)
        lib.getbuf.restype = ctypes.POINTER(ctypes.c_uint64)
        lib.getlen.restype = ctypes.c_uint64
        buf = lib.getbuf()
        mod = ir.Module(text)
        for nm, src in fs.items():
            try:
                s = summ.Summarizer(mod.funcs[nm], PARAMS).run()
            except (nf.Unsupported, nf.TooBig, RecursionError) as e:
                st['unsupported'] += 1
                continue
            except Exception as e:
                st['bad'].append(('internal', repr(e), src))
                continue
            fn = getattr(lib, nm)
            fn.restype = ctypes.c_uint64
            for _ in range(25):
                a = [rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7]) for _ in PARAMS]
                try:
                    o = trace.observe(s, {p: (v, 64) for p, v in zip(PARAMS, a)}, 3000)
                except nf.NoValue:
                    st['novalue'] += 1
                    continue
                except Exception as e:
                    st['bad'].append(('fold', repr(e), src, a))
                    break
                if o[0] == trace.PREFIX:
                    st['limit'] += 1
                    continue
                lib.reset()
                r = fn(*[ctypes.c_uint64(x) for x in a])
                t, j = [], 0
                while j < lib.getlen():
                    t.append(('call', 'sink%d' % buf[j]) + tuple(buf[j + 1:j + 1 + buf[j]]))
                    j += 1 + buf[j]
                if (r, tuple(t)) != o:
                    st['bad'].append((a, 'run', r, t[:8], len(t), 'folded', o[0], o[1][:8], len(o[1]), src))
                    break
                st['ok'] += 1
    return st


if __name__ == '__main__':
    seed, rounds = int(sys.argv[1]), int(sys.argv[2])
    tot = dict(ok=0, unsupported=0, novalue=0, limit=0)
    nbad = 0
    with ProcessPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 4) as ex:
        for st in ex.map(round_, range(seed, seed + rounds)):
            for k in tot:
                tot[k] += st[k]
            for b in st['bad']:
                nbad += 1
                if nbad <= 12:
                    print('BAD', b)
    print(tot, 'bad', nbad)
