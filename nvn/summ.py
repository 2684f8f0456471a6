"""Effect/value summaries of IR functions: if-converted DAG regions, loops summarised by
their recurrences (counted loops in closed form), values in the normal form of nf.py."""
import re
from . import nf
from .nf import (TRUE, FALSE, AND, OR, NOT, ite, restrict, subst, leaf, const, Unsupported)
from .ir import split_top, take_type, strip_attrs, width, sizeof, field


class Loop:
    """count: DD or None; phis: [(sym, init, next, w)] (non counters); cont: DD (if no count); events"""

    def __init__(self, count, phis, cont, events, ivsym, height, outs=()):
        self.count, self.phis, self.cont, self.events = count, phis, cont, events
        self.ivsym, self.height = ivsym, height
        # values defined by the loop and used after it: (atom key, value in the last iteration, width)
        self.outs = list(outs)
        self.tphis = phis
        self.valonly = False

    def key(self):
        return ('loop', self.height, self.count.id if self.count is not None else None,
                tuple((s, i.id, n.id) for s, i, n, w in self.phis),
                self.cont.id if self.cont is not None else None,
                tuple(e.key() for e in self.events if not e.silent()))


class Ev:
    def __init__(self, guard, kind, name, args, loop=None, res=None):
        self.guard, self.kind, self.name, self.args, self.loop, self.res = guard, kind, name, args, loop, res

    def key(self):
        return (self.guard.id, self.kind, self.name, tuple((a.id, w) for a, w in self.args),
                self.loop.key() if self.loop else None)

    def silent(self):
        return self.loop is not None and self.loop.valonly

    def ekey(self):
        return self.key()[1:]


_fresh = [0]


def fresh(tag):
    _fresh[0] += 1
    return ('sym', (tag, _fresh[0]))


BINOPS = {'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast'}
IGNORED_CALLS = re.compile(r'llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|var\.annotation|annotation)')


class Summarizer:
    def __init__(self, func, varnames=None):
        self.f = func
        self.mod = func.module
        self.succ, self.term = {}, {}
        self._cfg()
        self.rets = []
        self.env = {}
        self.calls = []
        for i, (nm, ty) in enumerate(func.params):
            w = width(ty)
            if w is None:
                raise Unsupported('param type ' + ty)
            v = varnames[i] if varnames else 'a%d' % i
            self.env[nm] = nf.boolsym(v) if w == 1 else nf.var(v, w)

    # ---------------------------------------------------------------- CFG
    def _cfg(self):
        f = self.f
        dead = set()
        for b, ins in f.blocks.items():
            t = ins[-1]
            self.term[b] = t
            if t.startswith('unreachable') or t.startswith('resume'):
                dead.add(b)
        for b, t in self.term.items():
            s = []
            if t.startswith('br label'):
                s = [re.match(r'br label (%[-\w.$]+)', t).group(1)]
            elif t.startswith('br i1'):
                m = re.match(r'br i1 (.*), label (%[-\w.$]+), label (%[-\w.$]+)', t)
                s = [m.group(2), m.group(3)]
            elif t.startswith('switch'):
                s = re.findall(r'label (%[-\w.$]+)', t)
            elif ' invoke ' in ' ' + t:
                m = re.search(r'to label (%[-\w.$]+)', t)
                s = [m.group(1)]
            elif t.startswith('ret') or b in dead:
                s = []
            else:
                raise Unsupported('terminator ' + t[:60])
            self.succ[b] = s
        # blocks that can only reach dead ends (UB / abort) are assumed not taken
        changed = True
        while changed:
            changed = False
            for b in f.blocks:
                if b not in dead and self.succ[b] and all(x in dead for x in self.succ[b]):
                    dead.add(b)
                    changed = True
        self.dead = dead
        for b in f.blocks:
            self.succ[b] = [x for x in self.succ[b] if x not in dead]
        reach = [f.entry]
        seen = {f.entry}
        while reach:
            for s in self.succ[reach.pop()]:
                if s not in seen:
                    seen.add(s)
                    reach.append(s)
        self.blocks = [b for b in f.blocks if b in seen]
        self.pred = {b: [] for b in self.blocks}
        for b in self.blocks:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        # dominators
        dom = {b: set(self.blocks) for b in self.blocks}
        dom[f.entry] = {f.entry}
        ch = True
        order = self._rpo(f.entry, set(self.blocks), None)
        while ch:
            ch = False
            for b in order:
                if b == f.entry:
                    continue
                ps = [dom[p] for p in self.pred[b]]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in self.blocks:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def _rpo(self, entry, region, header):
        seen, out = set(), []
        st = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s in region and s not in seen and s != header:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    # ---------------------------------------------------------------- operands
    def val(self, s, ty):
        s = s.strip()
        w = width(ty)
        if s.startswith('%'):
            v = self.env.get(s)
            if v is None:
                raise Unsupported('undefined ' + s)
            return v
        if re.match(r'-?\d+$', s):
            return const(int(s), w)
        if s in ('true', 'false'):
            return TRUE if s == 'true' else FALSE
        if s == 'null' or s == 'zeroinitializer':
            return const(0, w or 64)
        if s in ('undef', 'poison'):
            if w == 1:
                return FALSE
            return const(0, w or 64)
        if s.startswith('@'):
            return nf.var(s, 64)
        m = re.match(r'(inttoptr|ptrtoint) \((\S+) (.*) to (\S+)\)$', s)
        if m and width(m.group(2)) == width(m.group(4)) == 64:
            return self.val(m.group(3), m.group(2))
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
        if m:
            return self.gep(split_top(m.group(1)))
        if w is not None and re.match(r'[-0-9.e+x]+[0-9A-FK]*', s):
            return nf.var('fp:' + s, w)
        raise Unsupported('operand ' + s)

    def gep(self, parts):
        ty = parts[0].strip()
        pt, p = take_type(parts[1])
        base = self.val(strip_attrs(p), 'ptr')
        cur = ty
        for k, ix in enumerate(parts[2:]):
            it, iv = take_type(ix)
            iw = width(it)
            if k == 0:
                s, _ = sizeof(self.mod, cur)
                v = self.val(iv, it)
                if iw < 64:
                    v = nf.sext(v, iw, 64)
                base = nf.add(base, nf.mul(v, const(s, 64), 64), 64)
                continue
            t = cur
            if t.startswith('%'):
                t = self.mod.types[t]
            m = re.match(r'\[(\d+) x (.*)\]$', t)
            if m:
                cur = m.group(2)
                s, _ = sizeof(self.mod, cur)
                v = self.val(iv, it)
                if iw < 64:
                    v = nf.sext(v, iw, 64)
                base = nf.add(base, nf.mul(v, const(s, 64), 64), 64)
            else:
                off, cur = field(self.mod, t, int(iv))
                base = nf.add(base, const(off, 64), 64)
        return base

    # ---------------------------------------------------------------- regions
    def region(self, entry, blocks, header, entry_guard, events):
        """Execute the DAG region; returns list of edges leaving it: (src, dst, guard) and back edges."""
        order = self._rpo(entry, blocks, header)
        bguard = {entry: entry_guard}
        eguard = {}
        leaving, back = [], []
        # map blocks of inner loops to their outermost inner header
        inner = {}
        heads = [h for h in self.loops if h in blocks and h != header]
        outer = [h for h in heads if not any(h in self.loops[g] and g != h for g in heads)]
        for h in outer:
            for b in self.loops[h]:
                if b in inner:
                    raise Unsupported('irreducible')
                inner[b] = h
        pending = {}

        def arrive(src, dst, g):
            if g is FALSE:
                return
            if dst == header:
                back.append((src, g))
            elif dst not in blocks:
                leaving.append((src, dst, g))
            else:
                eguard[(src, dst)] = OR(eguard.get((src, dst), FALSE), g)
                bguard[dst] = OR(bguard.get(dst, FALSE), g)

        done = set()
        for b in order:
            if b in done:
                continue
            g = bguard.get(b)
            if g is None or g is FALSE:
                continue
            if b in inner:
                h = inner[b]
                if b != h:
                    continue
                done |= self.loops[h]
                for (src, dst, gg) in self.loop(h, g, eguard, events):
                    arrive(src, dst, gg)
                continue
            if b != header:
                self.phis(b, g, eguard)
            self.block(b, g, events, arrive)
        return leaving, back

    def phis(self, b, g, eguard):
        new = {}
        for ins in self.f.blocks[b]:
            m = re.match(r'(%[-\w.$]+) = phi (.*)$', ins)
            if not m:
                break
            ty, rest = take_type(m.group(2))
            rest = rest.split(', !')[0]
            v = None
            for inc in split_top(rest):
                mm = re.match(r'\[ (.*), (%[-\w.$]+) \]', inc.strip())
                eg = eguard.get((mm.group(2), b))
                if eg is None or eg is FALSE:
                    continue
                x = self.val(mm.group(1), ty)
                v = x if v is None else ite(eg, x, v)
            if v is None:
                raise Unsupported('phi')
            new[m.group(1)] = restrict(v, g)
        self.env.update(new)

    def loop(self, h, g, eguard, events):
        body = self.loops[h]
        # header phis
        plist = []
        for ins in self.f.blocks[h]:
            m = re.match(r'(%[-\w.$]+) = phi (.*)$', ins)
            if not m:
                break
            ty, rest = take_type(m.group(2))
            rest = rest.split(', !')[0]
            w = width(ty)
            if w is None:
                raise Unsupported('phi type')
            init, incs = None, []
            for inc in split_top(rest):
                mm = re.match(r'\[ (.*), (%[-\w.$]+) \]', inc.strip())
                src = mm.group(2)
                if src in body:
                    incs.append((mm.group(1), src))
                    continue
                eg = eguard.get((src, h))
                if eg is None or eg is FALSE:
                    continue
                x = self.val(mm.group(1), ty)
                init = x if init is None else ite(eg, x, init)
            s = fresh('phi')
            plist.append([m.group(1), w, s, restrict(init, g), incs])
        for nm, w, s, init, incs in plist:
            self.env[nm] = nf.boolsym(s[1]) if w == 1 else leaf(nf.patom(nf.atom(s)))
        evs = []
        leaving, back = self.region(h, body, h, TRUE, evs)
        if not back:
            raise Unsupported('loop without back edge')
        cont = FALSE
        for src, gg in back:
            cont = OR(cont, gg)
        nexts = []
        for nm, w, s, init, incs in plist:
            v = None
            for src, gg in back:
                e = [x for x, sb in incs if sb == src]
                if not e:
                    raise Unsupported('back edge value')
                x = self.val(e[0], 'i%d' % w)
                v = x if v is None else ite(gg, x, v)
            nexts.append(restrict(v, cont))

        def skey(s, w):
            return ('bool', s[1]) if w == 1 else nf.atom(s)

        inits = {skey(p[2], p[1]): p[3] for p in plist}
        # values of the body visible after the loop
        live = {}

        def substev(e, env, memo):
            l = e.loop
            if l is not None:
                l = copyloop(l, lambda x, w: subst(x, w, env, memo), lambda x: substev(x, env, memo))
            return Ev(subst(e.guard, 1, env, memo), e.kind, e.name, [(subst(a, w, env, memo), w) for a, w in e.args], l, e.res)

        exits = sorted({d for _, d, _ in leaving})
        header_exit = all(src == h for src, _, _ in leaving)

        # -- at most one iteration?
        second = {k: subst(n, p[1], inits) for (k, n, p) in zip(inits, nexts, plist)}
        c0 = subst(cont, 1, inits)
        c1 = subst(cont, 1, second)
        # (an event that may also happen on the leaving iteration sits above the exit)
        out_g = leaving_guard(leaving)
        tail = any(AND(e.guard, out_g) is not FALSE for e in evs)
        if AND(c0, c1) is FALSE and not any(e.res for e in evs) and (c0 is FALSE or header_exit and not tail):
            # body values with phis := init; header values after one iteration := second
            for e in evs:
                x = substev(e, inits, {})
                x.guard = AND(g, x.guard)
                if x.guard is not FALSE:
                    events.append(x)
            out = []
            if header_exit:
                x0 = subst(leaving_guard(leaving), 1, inits)
                fin = {k: ite(c0, second[k], inits[k]) for k in inits}
                self._resolve_after(body, h, fin)
                for src, dst, gg in leaving:
                    out.append((src, dst, AND(g, TRUE if len(exits) == 1 else subst(gg, 1, fin))))
                return _merge(out)
            # bottom exit: exactly once
            if c0 is FALSE:
                self._resolve_after(body, h, inits)
                for src, dst, gg in leaving:
                    out.append((src, dst, AND(g, subst(gg, 1, inits))))
                return _merge(out)
            raise Unsupported('single-iteration loop with mixed exits')

        # -- counters
        height = 1 + max([hgt(e) for e in evs] + [0])
        ivs = ('sym', ('iv', height))
        iv = leaf(nf.patom(nf.atom(ivs)))
        env = {}
        rest = []
        for p, n in zip(plist, nexts):
            nm, w, s, init, incs = p
            if w != 1:
                d = nf.sub(n, leaf(nf.patom(nf.atom(s))), w)
                if d.dec is None and _invariant(d, plist, skey):
                    j = iv if w == 64 else nf.trunc(iv, 64, w)
                    env[nf.atom(s)] = nf.add(init, nf.mul(d, j, w), w)
                    continue
            rest.append((p, n))
        # unused phis disappear; remaining get canonical names
        memo = {}
        renamed = []
        rest.sort(key=lambda pn: (pn[0][1], nf.show(pn[0][3])))
        for k, (p, n) in enumerate(rest):
            cs = ('sym', ('phi', height, k))
            if p[1] == 1:
                env[('bool', p[2][1])] = nf.boolsym(cs[1])
            else:
                env[nf.atom(p[2])] = leaf(nf.patom(nf.atom(cs)))
            renamed.append((cs, p, n))
        evs2 = [substev(e, env, memo) for e in evs]
        cont2 = subst(cont, 1, env, memo)
        ivatom = nf.atom(ivs)
        count = _count(cont2, ivatom) if len(rest) < len(plist) else None
        phis2 = [(cs, p[3], subst(n, p[1], env, memo), p[1]) for cs, p, n in renamed]
        if count is not None and len(exits) == 1 or count is not None and header_exit:
            trips = count
            if not tail:
                # events happen only while the loop continues: drop the loop condition from their guards
                for e in evs2:
                    e.guard = restrict(e.guard, cont2)
                    e.args = [(restrict(a, cont2), w) for a, w in e.args]
            else:
                # events above the exit: one more round than the condition holds; where the condition
                # one round earlier is implied on entry this is the rotated form of a loop tested first
                back1 = {ivatom: nf.sub(iv, const(1, 64), 64)}
                pc = _count(subst(cont2, 1, back1), ivatom)
                trips = nf.add(count, const(1, 64), 64)
                if pc is not None:
                    trips = ite(subst(cont2, 1, {ivatom: const(-1, 64)}), pc, trips)
                trips = restrict(trips, g)
            phis2 = [(s, i, restrict(n, cont2), w) for s, i, n, w in phis2]
            cont2 = None
            evs2 = normalize(evs2)
            cc = count.leaf if count.dec is None else None
            used = set()
            for e in evs2:
                _used(e, used)
            for s, i, n, w in phis2:
                pass
            fin = {}
            for p, n in zip(plist, nexts):
                k = skey(p[2], p[1])
                if k in env and not any(cs_p[1] is p for cs_p in renamed):
                    fin[k] = subst(env[k], p[1], {ivatom: count})
                else:
                    r = fresh('loopres')
                    fin[k] = nf.boolsym(r[1]) if p[1] == 1 else leaf(nf.patom(nf.atom(r)))
            allphis = phis2
            phis2 = _live_phis(phis2, evs2)
            if trips is not const(0, 64):
                lp = Loop(trips, phis2, None, evs2, ivs, height)
                lp.tphis = allphis
                lpv = None
                if evs2:
                    events.append(Ev(g, 'loop', '', [], lp))
                    if tail and renamed:
                        lpv = Loop(count, phis2, None, [], ivs, height)
                        lpv.tphis = allphis
                        lpv.valonly = True
                        events.append(Ev(g, 'loop', '', [], lpv))
                elif renamed:
                    lp.valonly = True
                    events.append(Ev(g, 'loop', '', [], lp))
                if phis2 or any(cs for cs, p, n in renamed):
                    # results of non-counter recurrences are values of this loop
                    lp2 = Loop(count, [(cs, p[3], subst(n, p[1], env, memo), p[1]) for cs, p, n in renamed], None, [], ivs, height)
                    for (cs, p, n) in renamed:
                        k = skey(p[2], p[1])
                        a = ('loopval', cs, lp2.key())
                        fin[k] = nf.boolsym(a) if p[1] == 1 else leaf(nf.patom(nf.atom(a)))
                        (lpv or lp).outs.append((a, env[k], p[1]))
            self._resolve_after(body, h, fin)
            return self._exits(leaving, g, fin)
        # -- generic loop: keep raw condition
        if len(exits) > 1:
            raise Unsupported('loop with several exits')
        evs2 = normalize(evs2)
        if len(rest) < len(plist):
            pass
        lp = Loop(None, phis2, cont2, evs2, ivs, height)
        events.append(Ev(g, 'loop', '', [], lp))
        fin = {}
        for p, n in zip(plist, nexts):
            k = skey(p[2], p[1])
            a = ('loopval', (p[3].id, n.id), lp.key())
            fin[k] = nf.boolsym(a) if p[1] == 1 else leaf(nf.patom(nf.atom(a)))
            lp.outs.append((a, env[k], p[1]))
        self._resolve_after(body, h, fin)
        return self._exits(leaving, g, fin)

    def _exits(self, leaving, g, fin):
        """exactly one leaving edge is taken: the last one is what the others leave over"""
        out, left = [], g
        for i, (src, dst, gg) in enumerate(leaving):
            x = left if i == len(leaving) - 1 else AND(g, subst(gg, 1, fin))
            left = AND(left, NOT(x))
            out.append((src, dst, x))
        return out

    def _resolve_after(self, body, h, fin):
        memo = {}
        for b in body:
            for ins in self.f.blocks[b]:
                m = re.match(r'(%[-\w.$]+) = ', ins)
                if m and m.group(1) in self.env:
                    v = self.env[m.group(1)]
                    self.env[m.group(1)] = _subst_any(v, fin, memo, self.widths.get(m.group(1), 64))

    widths = {}

    # ---------------------------------------------------------------- instructions
    def block(self, b, g, events, arrive):
        for ins in self.f.blocks[b]:
            t = ins.split(', !')[0]
            t = re.sub(r' #\d+\b', '', t)
            if t.startswith('br ') or t.startswith('switch') or t.startswith('ret'):
                break
            m = re.match(r'(%[-\w.$]+) = (.*)$', t)
            if m:
                dst, rhs = m.groups()
            else:
                dst, rhs = None, t
            op = rhs.split()[0]
            if op == 'phi':
                w = width(take_type(rhs[4:])[0])
                self.widths[dst] = w
                continue
            self.instr(b, g, events, dst, op, rhs)
        t = self.term[b]
        t0 = t.split(', !')[0]
        if t0.startswith('ret'):
            if t0.startswith('ret void'):
                self.rets.append((g, None, 0))
            else:
                ty, v = take_type(t0[4:])
                self.rets.append((g, self.val(v, ty), width(ty)))
        elif t0.startswith('br label'):
            arrive(b, self.succ[b][0], g) if self.succ[b] else None
        elif t0.startswith('br i1'):
            m = re.match(r'br i1 (.*), label (%[-\w.$]+), label (%[-\w.$]+)', t0)
            c = self.val(m.group(1), 'i1')
            a, z = m.group(2), m.group(3)
            if a in self.dead and z in self.dead:
                return
            if a in self.dead:
                arrive(b, z, g)
            elif z in self.dead:
                arrive(b, a, g)
            else:
                arrive(b, a, AND(g, c))
                arrive(b, z, AND(g, NOT(c)))
        elif t0.startswith('switch'):
            m = re.match(r'switch (\w+) (\S+), label (%[-\w.$]+) \[(.*)\]', t0)
            w = width(m.group(1))
            v = self.val(m.group(2), m.group(1))
            rem = g
            for cv, lab in re.findall(r'\w+ (-?\d+), label (%[-\w.$]+)', m.group(4)):
                c = nf.icmp('eq', v, const(int(cv), w), w)
                if lab not in self.dead:
                    arrive(b, lab, AND(rem, c))
                rem = AND(rem, NOT(c))
            if m.group(3) not in self.dead:
                arrive(b, m.group(3), rem)
        elif ' invoke ' in ' ' + t0:
            if self.succ[b]:
                arrive(b, self.succ[b][0], g)

    def instr(self, b, g, events, dst, op, rhs):
        E = self.env
        if op in BINOPS:
            r = rhs[len(op):].strip()
            disj = False
            while True:
                mm = re.match(r'(nuw|nsw|exact|disjoint)\s+', r)
                if not mm:
                    break
                disj = disj or mm.group(1) == 'disjoint'
                r = r[mm.end():]
            ty, r = take_type(r)
            w = width(ty)
            if w is None:
                raise Unsupported('type ' + ty)
            x, y = split_top(r)
            a, c = self.val(x, ty), self.val(y, ty)
            self.widths[dst] = w
            if op == 'add' and w == 1 or op == 'sub' and w == 1:
                E[dst] = nf.XOR(a, c)
            elif op == 'mul' and w == 1:
                E[dst] = AND(a, c)
            elif op == 'or':
                E[dst] = nf.bor(a, c, w, disj)
            elif op in ('sdiv', 'srem', 'ashr'):
                def f(p, q, op=op, w=w):
                    if nf.pisconst(p) and nf.pisconst(q):
                        return leaf(nf.pconst(nf.fold_atom(nf.atom(('op', op, w, p, q)), {}), w))
                    return leaf(nf.patom(nf.atom(('op', op, w, p, q))))
                E[dst] = nf.apply(f, a, c)
            else:
                E[dst] = {'add': nf.add, 'sub': nf.sub, 'mul': nf.mul, 'udiv': nf.udiv, 'urem': nf.urem,
                          'shl': nf.shl, 'lshr': nf.lshr, 'and': nf.band, 'xor': nf.bxor}[op](a, c, w)
            return
        if op == 'icmp':
            _, pred, r = rhs.split(None, 2)
            ty, r = take_type(r)
            x, y = split_top(r)
            self.widths[dst] = 1
            E[dst] = nf.icmp(pred, self.val(x, ty), self.val(y, ty), width(ty))
            return
        if op == 'select':
            parts = split_top(rhs[7:])
            c = self.val(take_type(parts[0])[1], 'i1')
            ty, x = take_type(parts[1])
            _, y = take_type(parts[2])
            self.widths[dst] = width(ty)
            E[dst] = ite(c, self.val(x, ty), self.val(y, ty))
            return
        if op == 'freeze':
            ty, x = take_type(rhs[7:])
            self.widths[dst] = width(ty)
            E[dst] = self.val(x, ty)
            return
        if op in CASTS:
            r = re.sub(r'^(nneg|nuw|nsw)\s+', '', rhs[len(op):].strip())
            ty, r = take_type(r)
            x, ty2 = r.rsplit(' to ', 1)
            w0, w1 = width(ty), width(ty2.strip())
            v = self.val(x, ty)
            self.widths[dst] = w1
            if op == 'zext':
                E[dst] = nf.zext(v, w0, w1)
            elif op == 'sext':
                E[dst] = nf.sext(v, w0, w1)
            elif op == 'trunc':
                E[dst] = nf.trunc(v, w0, w1)
            elif op in ('ptrtoint', 'inttoptr', 'bitcast') and w0 == w1:
                E[dst] = v
            else:
                if w0 == 1:
                    v = nf.zext(v, 1, 64)
                E[dst] = nf.apply(lambda p: leaf(nf.patom(nf.atom(('op', op + ty, w1, p)))), v)
            return
        if op == 'getelementptr':
            r = re.sub(r'^getelementptr\s+((inbounds|nuw|nusw)\s+)*', '', rhs)
            self.widths[dst] = 64
            E[dst] = self.gep(split_top(r))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp'):
            toks = rhs.split()
            self.widths[dst] = 1 if op == 'fcmp' else None
            r = rhs[len(op):].strip()
            r = re.sub(r'^((nnan|ninf|nsz|arcp|contract|afn|reassoc|fast)\s+)*', '', r)
            nm = op
            if op == 'fcmp':
                p, r = r.split(None, 1)
                nm += p
            ty, r = take_type(r)
            args = [self.val(x, ty) for x in split_top(r)]
            w = width(ty)
            self.widths[dst] = w
            if op == 'fcmp':
                self.widths[dst] = 1
                E[dst] = nf.apply(lambda *ps: nf.node(nf.decision(('b', nm) + ps), TRUE, FALSE), *args)
            else:
                E[dst] = nf.apply(lambda *ps: leaf(nf.patom(nf.atom(('op', nm, w) + ps))), *args)
            return
        if op == 'load':
            r = re.sub(r'^load (volatile |atomic )*', '', rhs)
            parts = split_top(r)
            ty = parts[0].strip()
            p = self.val(take_type(parts[1])[1], 'ptr')
            w = width(ty)
            if w is None:
                raise Unsupported('load ' + ty)
            s = fresh('load')
            self.widths[dst] = w
            E[dst] = nf.boolsym(s[1]) if w == 1 else leaf(nf.patom(nf.atom(s)))
            events.append(Ev(g, 'load', ty, [(restrict(p, g), 64)], None, (s, w)))
            return
        if op == 'store':
            r = re.sub(r'^store (volatile |atomic )*', '', rhs)
            parts = split_top(r)
            ty, v = take_type(parts[0])
            p = self.val(take_type(parts[1])[1], 'ptr')
            w = width(ty)
            if w is None:
                raise Unsupported('store ' + ty)
            events.append(Ev(g, 'store', ty, [(restrict(p, g), 64), (restrict(self.val(v, ty), g), w)]))
            return
        if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
            self.call(g, events, dst, rhs)
            return
        if op == 'fence':
            events.append(Ev(g, 'fence', '', []))
            return
        raise Unsupported('instruction ' + rhs[:80])

    def call(self, g, events, dst, rhs):
        m = re.search(r'(@[-\w.$]+|%[-\w.$]+)\(', rhs)
        if not m:
            raise Unsupported('call ' + rhs[:80])
        name = m.group(1)
        i = m.end()
        depth = 1
        j = i
        while depth:
            if rhs[j] in '(':
                depth += 1
            elif rhs[j] == ')':
                depth -= 1
            j += 1
        argtext = rhs[i:j - 1]
        pre = rhs[:m.start()]
        pre = re.sub(r'^((tail|musttail|notail) )?(call|invoke)\s+', '', pre)
        pre = re.sub(r'^((fast|nnan|fastcc|ccc|noalias|noundef|zeroext|signext|nonnull|align \d+|dereferenceable\(\d+\)|range\([^)]*\))\s+)*', '', pre)
        rty = take_type(pre)[0]
        nm = name[1:]
        if IGNORED_CALLS.match(nm):
            return
        args = []
        for a in split_top(argtext):
            ty, x = take_type(a)
            if ty == 'metadata':
                continue
            x = strip_attrs(x)
            w = width(ty)
            if w is None:
                raise Unsupported('call arg ' + ty)
            args.append((self.val(x, ty), w))
        w = width(rty)
        if dst:
            self.widths[dst] = w
        mm = re.match(r'llvm\.(umin|umax|smin|smax|ctpop|cttz|ctlz|fshl|fshr|abs|usub\.sat|uadd\.sat|fabs|sqrt|fmuladd|bswap|bitreverse)\.', nm)
        if mm:
            k = mm.group(1)
            A = [a for a, _ in args]
            if k == 'umin':
                r = nf.umin(A[0], A[1], w)
            elif k == 'umax':
                r = nf.umax(A[0], A[1], w)
            elif k == 'smin':
                r = ite(nf.icmp('slt', A[0], A[1], w), A[0], A[1])
            elif k == 'smax':
                r = ite(nf.icmp('slt', A[0], A[1], w), A[1], A[0])
            elif k == 'usub.sat':
                r = ite(nf.icmp('ult', A[0], A[1], w), const(0, w), nf.sub(A[0], A[1], w))
            elif k == 'fshl' and A[0] is A[1] is None:
                r = None
            else:
                A = [a for a, ww in args if ww != 1]
                r = nf.apply(lambda *ps: leaf(nf.patom(nf.atom(('op', k, w) + ps))), *A)
            self.env[dst] = r
            return
        if nm.startswith('llvm.umul.with.overflow') or nm.startswith('llvm.uadd.with.overflow'):
            k = 'umulo' if 'umul' in nm else 'uaddo'
            raise Unsupported(k)
        if name.startswith('%'):
            fn = self.val(name, 'ptr')
            nm = 'indirect'
            args = [(fn, 64)] + args
        res = None
        if dst:
            if w is None:
                raise Unsupported('call result ' + rty)
            s = fresh('call')
            res = (s, w)
            self.env[dst] = nf.boolsym(s[1]) if w == 1 else leaf(nf.patom(nf.atom(s)))
        self.calls.append(nm)
        events.append(Ev(g, 'call', nm, [(restrict(a, g), ww) for a, ww in args], None, res))

    # ---------------------------------------------------------------- entry
    def run(self):
        self.widths = {}
        events = []
        leaving, back = self.region(self.f.entry, set(self.blocks), None, TRUE, events)
        ret, w = None, 0
        for g, v, ww in self.rets:
            w = ww
            if v is not None:
                ret = v if ret is None else ite(g, v, ret)
        canon_guards(events, TRUE)
        events = normalize(events)
        events, ret = rename_results(events, ret, w)
        return Summary(self.f.name, ret, w, events, self.calls)


class Summary:
    def __init__(self, name, ret, w, events, calls):
        self.name, self.ret, self.w, self.events, self.calls = name, ret, w, events, calls

    def key(self):
        return (self.ret.id if self.ret is not None else None, tuple(e.key() for e in self.events if not e.silent()))


def leaving_guard(leaving):
    g = FALSE
    for _, _, x in leaving:
        g = OR(g, x)
    return g


def copyloop(l, f, sub_ev):
    """l with every term mapped by f(term, width)"""
    n = Loop(f(l.count, 64) if l.count is not None else None,
             [(s, f(i, w), f(n, w), w) for s, i, n, w in l.phis],
             f(l.cont, 1) if l.cont is not None else None,
             [sub_ev(x) for x in l.events], l.ivsym, l.height, [(a, f(v, w), w) for a, v, w in l.outs])
    n.tphis = [(s, f(i, w), f(n_, w), w) for s, i, n_, w in l.tphis]
    n.valonly = l.valonly
    return n


def _merge(edges):
    return edges


def hgt(e):
    return e.loop.height if e.loop is not None else 0


def _subst_any(v, env, memo, w):
    # booleans have True/False leaves
    x = v
    while x.dec is not None:
        x = x.hi
    if isinstance(x.leaf, bool):
        return subst(v, 1, env, memo)
    return subst(v, w or 64, env, memo)


def _invariant(d, plist, skey):
    at = nf.atoms_of(d)
    return not any(skey(p[2], p[1]) in at for p in plist)


def _count(c, iv):
    """closed-form trip count of 'continue while c(iv)', iv = 0,1,2,..."""
    if c is FALSE:
        return const(0, 64)
    if c.dec is None:
        return None
    k = nf._dec_list[c.dec]
    at = nf.atoms_of(nf.node(c.dec, TRUE, FALSE))
    if iv not in at:
        a, b = _count(c.hi, iv), _count(c.lo, iv)
        if a is None or b is None:
            return None
        return ite(nf.node(c.dec, TRUE, FALSE), a, b)
    # below the iv decision nothing else may depend on it, and one branch must be FALSE
    if k[0] == 'ult' and c.lo is FALSE and c.hi is TRUE:
        w, p, q = k[1:]
        d = dict(p)
        if w == 64 and d.get((iv,)) == 1 and iv not in _rest_atoms(p, iv) and iv not in _pat(q):
            d.pop((iv,))
            c0 = leaf(nf.poly(d, w))
            N = leaf(q)
            if not d:
                return N
            return ite(nf.icmp('ult', c0, N, w), nf.sub(N, c0, w), const(0, w))
        return None
    if k[0] == 'eq' and c.hi is FALSE and c.lo is TRUE:
        w, p = k[1:]
        if w != 64:
            return None
        d = dict(p)
        cf = d.get((iv,))
        if cf is None or iv in _rest_atoms(p, iv):
            return None
        d.pop((iv,))
        r = leaf(nf.poly(d, w))
        if cf == 1:
            return nf.sub(const(0, w), r, w)
        if cf == (1 << w) - 1:
            return r
    return None


def _pat(p):
    s = set()
    nf._patoms(p, s)
    return s


def _rest_atoms(p, iv):
    return _pat(tuple((m, c) for m, c in p if m != (iv,)))


def _used(e, acc):
    nf.atoms_of(e.guard, acc, set())
    for a, w in e.args:
        nf.atoms_of(a, acc, set())
    if e.loop:
        if e.loop.count is not None:
            nf.atoms_of(e.loop.count, acc, set())
        if e.loop.cont is not None:
            nf.atoms_of(e.loop.cont, acc, set())
        for s, i, n, w in e.loop.phis:
            nf.atoms_of(i, acc, set())
            nf.atoms_of(n, acc, set())
        for x in e.loop.events:
            _used(x, acc)


def _live_phis(phis, evs):
    used = set()
    for e in evs:
        _used(e, used)
    live = set()
    ch = True
    while ch:
        ch = False
        for s, i, n, w in phis:
            k = ('bool', s[1]) if w == 1 else nf.atom(s)
            if k in used and s not in live:
                live.add(s)
                nf.atoms_of(n, used, set())
                ch = True
    return [p for p in phis if p[0] in live]


def normalize(evs):
    """Drop impossible events, merge equal adjacent events under exclusive guards, order
    neighbouring events with mutually exclusive guards canonically."""
    evs = [e for e in evs if e.guard is not FALSE and not (e.kind == 'loop' and not e.loop.events and not e.loop.outs)]
    changed = True
    while changed:
        changed = False
        for i in range(len(evs) - 1):
            a, b = evs[i], evs[i + 1]
            if a.guard is TRUE or b.guard is TRUE:
                continue
            if AND(a.guard, b.guard) is FALSE:
                if a.ekey() == b.ekey() and not a.res and not b.res:
                    a.guard = OR(a.guard, b.guard)
                    del evs[i + 1]
                    changed = True
                    break
                if a.key() > b.key() if _cmpable(a, b) else False:
                    evs[i], evs[i + 1] = b, a
                    changed = True
                    break
    return evs


def canon_guards(evs, given):
    """A counted loop is guarded by exactly 'something in it can happen': its trip count is not
    zero and, where that does not vary with the loop, one of its events has its guard.  Whatever
    the guard already says is dropped from the inside."""
    for e in evs:
        l = e.loop
        if l is None or l.count is None or l.outs or l.valonly:
            continue
        e.guard = AND(e.guard, _care(l))
        e.guard = restrict(e.guard, given)
        here = AND(given, e.guard)
        if here is FALSE:
            continue
        l.count = restrict(l.count, here)
        canon_guards(l.events, here)
        for x in l.events:
            x.guard = restrict(x.guard, here)


def _care(l):
    """necessary condition, free of what varies with the loop, for an event of the loop"""
    c = NOT(nf.icmp('eq', l.count, const(0, 64), 64))
    for a in nf.atoms_of(l.count):
        k = nf._atom_list[a] if isinstance(a, int) else ('bool',)
        if k[0] == 'udiv':                      # a quotient that was computed has a divisor
            c = AND(c, NOT(nf.dec_eq(k[3], (), k[1])))
    some = FALSE
    for e in l.events:
        g = e.guard
        if e.loop is not None:
            if e.loop.count is None or e.loop.outs or e.loop.valonly:
                return c
            g = AND(g, _care(e.loop))
        if _varies(g, l.height):
            return c
        some = OR(some, g)
        if some is TRUE:
            return c
    return AND(c, some)


def _varies(x, height):
    for a in nf.atoms_of(x):
        if isinstance(a, tuple):
            return True
        k = nf._atom_list[a]
        if k[0] == 'loopval':
            return True
        if k[0] == 'sym':
            if k[1][0] == 'iv' and k[1][1] > height:
                continue
            return True
    return False


def _cmpable(a, b):
    try:
        a.key() > b.key()
        return True
    except TypeError:
        return False


def rename_results(evs, ret, w):
    """Name call/load results by their position so that both sides agree."""
    env = {}
    names = {}

    def walk(es, path):
        i = -1
        for e in es:
            if not e.silent():
                i += 1
            if e.res:
                s, ww = e.res
                cs = ('sym', ('res', path + (i,)))
                names[id(e)] = (cs, ww)
                if ww == 1:
                    env[('bool', s[1])] = nf.boolsym(cs[1])
                else:
                    env[nf.atom(s)] = leaf(nf.patom(nf.atom(cs)))
            if e.loop:
                walk(e.loop.events, path + (i,))
    walk(evs, ())
    if not env:
        return evs, ret
    memo = {}

    def sub_ev(e):
        l = e.loop
        if l is not None:
            l = copyloop(l, lambda x, w: subst(x, w, env, memo), sub_ev)
        return Ev(subst(e.guard, 1, env, memo), e.kind, e.name, [(subst(a, ww, env, memo), ww) for a, ww in e.args], l, names.get(id(e)))
    evs = [sub_ev(e) for e in evs]
    if ret is not None:
        ret = _subst_any(ret, env, memo, w)
    return evs, ret


# ------------------------------------------------------------------ printing
def show_events(evs, ind=0):
    out = []
    for e in evs:
        g = '' if e.guard is TRUE else 'when %s: ' % nf.show(e.guard)
        if e.kind == 'loop':
            l = e.loop
            out.append('  ' * ind + g + ('for iv%d in 0..%s' % (l.height, nf.show(l.count)) if l.count is not None
                                         else 'while %s' % nf.show(l.cont)) +
                       (' with %s' % [(s[1], nf.show(i), nf.show(n)) for s, i, n, w in l.phis] if l.phis else ''))
            out += show_events(l.events, ind + 1)
        else:
            out.append('  ' * ind + g + '%s %s(%s)' % (e.kind, e.name, ', '.join(nf.show(a) for a, w in e.args)))
    return out


def show_summary(s):
    out = show_events(s.events)
    if s.ret is not None:
        out.append('return ' + nf.show(s.ret))
    return '\n'.join(out)
