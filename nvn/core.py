"""Obligations, the batch runner, verdicts, evidence and reporting."""
import hashlib
import itertools
import json
import os
import random
import re
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

from . import build, ir, nf, summ, trace

HERE = build.HERE
PROLOGUE = '''
#include <cstddef>
#include <cstdint>
#include <type_traits>
using u64 = std::size_t;
#ifndef NVN_ELEMS
#define NVN_ELEMS
struct nvn_s12 { int a; short b; char c[6]; };
struct nvn_s3 { char v[3]; };
struct alignas(32) nvn_a32 { char v[40]; };
enum class nvn_e2 : unsigned short { a };
#endif
extern "C" {
void sink(u64) noexcept; void sink2(u64,u64) noexcept; void sink3(u64,u64,u64) noexcept; void sink4(u64,u64,u64,u64) noexcept;
void sink5(u64,u64,u64,u64,u64) noexcept; void sink6(u64,u64,u64,u64,u64,u64) noexcept;
void mark(u64) noexcept;
}
'''


class Eq:
    """impl(params) and spec(params) must have equal summaries (return value and effects)."""
    kind = 'equality'

    def __init__(self, id, params, impl, spec, pre=(), dom=None, ret='u64', decls='', what='', anchor='', asis=None):
        # asis: the wrong behaviour recorded as a known finding; recognising it exactly keeps every other deviation a violation
        self.id, self.params, self.impl, self.spec, self.asis = id, list(params), impl, spec, asis
        self.pre, self.dom, self.ret, self.decls, self.what, self.anchor = list(pre), dom or {}, ret, decls, what, anchor

    def code(self):
        ps = ', '.join('u64 ' + p for p in self.params)
        return '%s\nextern "C" %s impl_%s(%s) { %s }\nextern "C" %s spec_%s(%s) { %s }\n' % (
            self.decls, self.ret, self.id, ps, self.impl, self.ret, self.id, ps, self.spec) + (
            'extern "C" %s asis_%s(%s) { %s }\n' % (self.ret, self.id, ps, self.asis) if self.asis else '')


class Wit:
    """a translation unit that must be accepted (its static_asserts are the obligation)"""
    kind = 'type-witness'

    def __init__(self, id, body, what='', anchor=''):
        self.id, self.body, self.what, self.anchor = id, body, what, anchor

    def code(self):
        return 'namespace w_%s { %s }\n' % (self.id, self.body)


class Neg:
    """'good' must be accepted, 'bad' must be rejected by the compiler"""
    kind = 'compile-fail'

    def __init__(self, id, good, bad, what='', anchor='', common=''):
        self.id, self.good, self.bad, self.what, self.anchor, self.common = id, good, bad, what, anchor, common

    def code(self, which=None):
        return 'namespace n_%s { %s\n %s }\n' % (self.id, self.common, self.good if which is None else which)


class Fn:
    """A whole-summary predicate: check(summary) -> None or a message describing the violation."""
    kind = 'effect'

    def __init__(self, id, params, impl, check, ret='void', decls='', what='', anchor=''):
        self.id, self.params, self.impl, self.check, self.ret, self.decls, self.what, self.anchor = (
            id, list(params), impl, check, ret, decls, what, anchor)

    def code(self):
        ps = ', '.join((p if ' ' in p else 'u64 ' + p) for p in self.params)
        return '%s\nextern "C" %s impl_%s(%s) { %s }\n' % (self.decls, self.ret, self.id, ps, self.impl)


class Result:
    def __init__(self, ob, status, detail='', extra=None):
        self.id, self.kind, self.what, self.anchor = ob.id, ob.kind, ob.what, ob.anchor
        self.status, self.detail = status, detail
        self.extra = extra or {}


# ------------------------------------------------------------------ triage
SMALL = [1, 2, 3, 0, 4, 5, 7, 6]


def bindings(params, pre, dom, seed, maxn):
    """Deterministic stream of bindings satisfying the preconditions (backtracking over the domains)."""
    rng = random.Random(seed)
    cons = []
    for c in pre:
        vs = set(re.findall(r'[A-Za-z_]\w*', c)) & set(params)
        pos = max([params.index(v) for v in vs] + [0])
        cons.append((pos, compile(c.replace('/', '//').replace('////', '//'), '<pre>', 'eval')))
    bypos = {}
    for pos, c in cons:
        bypos.setdefault(pos, []).append(c)
    doms = []
    for p in params:
        d = dom.get(p) or SMALL
        doms.append(list(d) if not callable(d) else d)
    n = len(params)
    if n == 0:
        yield {}
        return
    produced = 0
    tries = 0
    while produced < maxn and tries < maxn * 40:
        tries += 1
        env = {}
        ok = True
        budget = 60
        i = 0
        stack = []
        while i < n:
            d = doms[i](env) if callable(doms[i]) else doms[i]
            ch = list(d)
            rng.shuffle(ch)
            good = False
            for v in ch:
                env[params[i]] = v
                try:
                    if all(eval(c, {}, env) for c in bypos.get(i, ())):
                        good = True
                        break
                except ZeroDivisionError:
                    continue
            if not good:
                ok = False
                break
            i += 1
        if ok:
            produced += 1
            yield dict(env)


WIDE = [1 << 32, (1 << 32) + 1, (1 << 31) + 1, (1 << 16) + 1, 257, (1 << 32) + 3]


def wide_bindings(ob, seed):
    """One number that does not fit into a narrower type, the others small; the effects are followed only some way."""
    for p in ob.params:
        if not ob.dom.get(p):
            for v in WIDE:
                for e in bindings(ob.params, ob.pre, dict(ob.dom, **{p: [v]}), seed + v, 2):
                    yield e, 300


def find_witness(a, b, ob, maxn):
    """A binding folding the two summaries to different observations, or None; also says how many were folded."""
    seed = int(hashlib.sha1(ob.id.encode()).hexdigest()[:8], 16)
    folded = 0
    for env, limit in itertools.chain(((e, 20000) for e in bindings(ob.params, ob.pre, ob.dom, seed, maxn)), wide_bindings(ob, seed)):
        bind = {k: (v, 64) for k, v in env.items()}
        try:
            x = trace.observe(a, bind, limit)
            y = trace.observe(b, bind, limit)
        except (nf.NoValue, KeyError):
            continue
        folded += 1
        if trace.differ(x, y):
            return env, x, y, folded
    return None, None, None, folded


def show_obs(o, limit=6):
    r, t = o
    s = []
    if r is not None:
        s.append('value %d' % r)
    if t:
        s.append('%d effects: ' % len(t) + '; '.join('%s(%s)' % (e[1] if e[0] == 'call' else e[0], ','.join(str(v) for v in e[2:])) for e in t[:limit]) + ('; ...' if len(t) > limit else ''))
    elif r is None:
        s.append('no effects')
    return ', '.join(s)


def first_diff(x, y):
    if x[0] != y[0] and trace.PREFIX not in (x[0], y[0]):
        return 'code yields %s, required %s' % (x[0], y[0])
    for i, (p, q) in enumerate(zip(x[1], y[1])):
        if p != q:
            return 'effect #%d is %s(%s), required %s(%s)' % (i, p[1], ','.join(map(str, p[2:])), q[1], ','.join(map(str, q[2:])))
    return 'code has %d effects%s, required %d%s' % (len(x[1]), ' or more' * (x[0] == trace.PREFIX), len(y[1]), ' or more' * (y[0] == trace.PREFIX))


def names(ob):
    return [p.split()[-1] for p in ob.params]


def decide_eq(mod, ob, maxn):
    fi, fs = mod.funcs.get('impl_' + ob.id), mod.funcs.get('spec_' + ob.id)
    if fi is None or fs is None:
        return Result(ob, 'undetermined', 'probe not found in IR')
    try:
        a = summ.Summarizer(fi, ob.params).run()
        b = summ.Summarizer(fs, ob.params).run()
    except (nf.Unsupported, nf.TooBig, RecursionError) as e:
        return Result(ob, 'undetermined', 'unsupported: %s' % e)
    if a.key() == b.key():
        return Result(ob, 'holds', '', {'nf': summ.show_summary(a)[:400]})
    if getattr(ob, 'judge', None):
        # the layout is not prescribed: only the documented guarantees are
        msg = ob.judge(a)
        ex = {'code_nf': summ.show_summary(a)[:3000]}
        if msg:
            return Result(ob, 'violated', msg, ex)
        return Result(ob, 'undetermined', 'another layout, no guarantee found broken', ex)
    # identical IR text after alpha-renaming would have been equal; look for a witness
    env, x, y, folded = find_witness(a, b, ob, maxn)
    ex = {'code_nf': summ.show_summary(a)[:3000], 'required_nf': summ.show_summary(b)[:3000]}
    rec = ''
    if ob.asis:
        try:
            if summ.Summarizer(mod.funcs['asis_' + ob.id], ob.params).run().key() == a.key():
                rec = 'recorded behaviour; '
        except (KeyError, nf.Unsupported, nf.TooBig, RecursionError):
            pass
    if env is not None:
        ex['witness'] = env
        return Result(ob, 'violated', rec + 'normal forms differ; witness %s: %s' % (
            ', '.join('%s=%s' % kv for kv in env.items()) or '(no parameters)', first_diff(x, y)), ex)
    return Result(ob, 'undetermined', 'normal forms differ, no distinguishing binding among %d' % folded, ex)


def decide_fn(mod, ob):
    f = mod.funcs.get('impl_' + ob.id)
    if f is None:
        return Result(ob, 'undetermined', 'probe not found in IR')
    try:
        a = summ.Summarizer(f, names(ob)).run()
        msg = ob.check(a)
    except (nf.Unsupported, nf.TooBig, RecursionError) as e:
        return Result(ob, 'undetermined', 'unsupported: %s' % e)
    if msg:
        return Result(ob, 'violated', msg, {'code_nf': summ.show_summary(a)[:3000]})
    return Result(ob, 'holds', '', {'nf': summ.show_summary(a)[:400]})


# ------------------------------------------------------------------ batches
_GROUPS = {}


def _work(job):
    gid, kind, idxs, scratch, pch, maxn = job
    g = _GROUPS[gid]
    obs = [g.obs[i] for i in idxs]
    try:
        return _do(g, kind, obs, scratch, pch, maxn, '%s_%d' % (gid, idxs[0]))
    except build.ToolError as e:
        return [Result(o, 'undetermined', 'tool: %s' % e) for o in obs]
    except Exception:
        t = traceback.format_exc(limit=3)
        return [Result(o, 'undetermined', 'internal: ' + t[-300:]) for o in obs]


def _do(g, kind, obs, scratch, pch, maxn, name):
    out = []
    if kind == 'unit':
        return [o.decide(scratch, '%s_%d' % (name, k)) for k, o in enumerate(obs)]
    if kind == 'neg':
        for k, o in enumerate(obs):
            ok, err = build.syntax(scratch, pch, o.code(), '%s_%d_g' % (name, k), g.flags)
            if not ok:
                out.append(Result(o, 'violated', 'the accepted twin of this rejection witness no longer compiles: ' + build.first_error(err), {'code': o.good}))
                continue
            ok, err = build.syntax(scratch, pch, o.code(o.bad), '%s_%d_b' % (name, k), g.flags)
            if ok:
                out.append(Result(o, 'violated', 'ill-formed program is accepted: ' + o.what, {'code': o.bad}))
            else:
                out.append(Result(o, 'holds', '', {'nf': 'rejected: ' + build.first_error(err, 160)}))
        return out
    if kind == 'wit':
        ok, err = build.syntax(scratch, pch, ''.join(o.code() for o in obs), name, g.flags)
        if ok:
            return [Result(o, 'holds') for o in obs]
        if len(obs) == 1:
            return [Result(obs[0], 'violated', build.first_error(err), {'code': obs[0].body})]
        for k, o in enumerate(obs):
            out += _do(g, kind, [o], scratch, pch, maxn, '%s_%d' % (name, k))
        return out
    text, err = build.to_ir(scratch, pch, ''.join(o.code() for o in obs), name, g.flags)
    if text is None:
        if len(obs) == 1:
            return [Result(obs[0], 'violated', 'a documented use no longer compiles: ' + build.first_error(err), {'code': obs[0].code()})]
        h = len(obs) // 2
        return _do(g, kind, obs[:h], scratch, pch, maxn, name + 'a') + _do(g, kind, obs[h:], scratch, pch, maxn, name + 'b')
    mod = ir.Module(text)
    for o in obs:
        try:
            out.append(decide_eq(mod, o, maxn) if o.kind == 'equality' else decide_fn(mod, o))
        except Exception:
            out.append(Result(o, 'undetermined', 'internal: ' + traceback.format_exc()[-300:]))
    return out


class Group:
    def __init__(self, preamble, obs, flags=(), batch=24):
        self.preamble, self.obs, self.flags, self.batch = PROLOGUE + preamble, list(obs), list(flags), batch
        ids = [o.id for o in self.obs]
        assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1][:3]


def run_groups(groups, maxn=400, only=None, workers=8):
    results, errors = [], []
    with build.Scratch() as sc:
        jobs = []
        _GROUPS.clear()
        pchs = {}
        todo = []
        for gid, g in enumerate(groups):
            _GROUPS[gid] = g
            todo.append((sc.dir, g.preamble, tuple(g.flags)))
        uniq = sorted(set(todo))
        with ProcessPoolExecutor(workers) as ex:
            for k, r in zip(uniq, ex.map(_pch, uniq)):
                pchs[k] = r
        for gid, g in enumerate(groups):
            pch, err = pchs[todo[gid]]
            if pch is None:
                errors.append((g, build.first_error(err)))
                continue
            kinds = {'eq': [], 'wit': [], 'neg': [], 'unit': []}
            for i, o in enumerate(g.obs):
                if only and not re.search(only, o.id):
                    continue
                kinds['unit' if hasattr(o, 'decide') else 'wit' if o.kind == 'type-witness' else 'neg' if o.kind == 'compile-fail' else 'eq'].append(i)
            for k, idx in kinds.items():
                b = {'eq': g.batch, 'wit': g.batch, 'neg': 3, 'unit': 1}[k]
                # keep all workers busy
                b = max(1, min(b, (len(idx) + workers - 1) // workers))
                for j in range(0, len(idx), b):
                    jobs.append((gid, k, idx[j:j + b], sc.dir, pch, maxn))
        with ProcessPoolExecutor(workers) as ex:
            for rs in ex.map(_work, jobs):
                results += rs
    return results, errors


def _pch(k):
    return build.make_pch(*k)


# ------------------------------------------------------------------ known findings, evidence
def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if x.get('status') == 'known']


class Prop:
    """A property: how its obligations are produced and how the verdict is described."""

    def __init__(self, id, rule, make, level='translation_validation', trusted='', minimum=1, named=True, elements=True):
        self.named, self.elements = named, elements  # whether dimensions may be named by objects, elements be of class type
        self.id, self.rule, self.make, self.level, self.trusted, self.minimum = id, rule, make, level, trusted, minimum


def check(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    groups = prop.make(tier)
    known = [k for k in known_findings() if k['property'] == prop.id]
    if prop.named:
        from .named import named, typed
        skip = {i for k in known for i in (k['obligation'] if isinstance(k['obligation'], list) else [k['obligation']])}
        more = typed(groups, 10 if tier == 'quick' else 3, skip)[len(groups):] if prop.elements else []
        groups = named(groups, 8 if tier == 'quick' else 2, skip) + more
    maxn = 400 if tier == 'quick' else 3000
    results, errors = run_groups(groups, maxn, only)
    viol, kn, und, held = [], [], [], []
    for r in results:
        if r.status == 'violated':
            k = [x for x in known if r.id in (x['obligation'] if isinstance(x['obligation'], list) else [x['obligation']]) and re.search(x.get('match', ''), r.detail)]
            (kn if k else viol).append(r)
            r.known = k[0] if k else None
        elif r.status == 'undetermined':
            und.append(r)
        else:
            held.append(r)
    wall = time.time() - t0
    bykind = {}
    for r in results:
        d = bykind.setdefault(r.kind, {'analysed': 0, 'hold': 0, 'undetermined': 0, 'violated': 0, 'known': 0})
        d['analysed'] += 1
        d['hold' if r.status == 'holds' else 'known' if r in kn else r.status] += 1
    rng = random.Random(seed)
    samp = [r for r in held if r.extra.get('nf')]
    samp = rng.sample(samp, min(5, len(samp)))
    n_un = len(und)
    cov = {
        'rule': prop.rule,
        'obligations': len(results),
        'discharged': len(held),
        'programs': len(results),
        'disagreements_checked': len(viol) + len(kn) + n_un,
        'samples': [{'obligation': r.id, 'what': r.what, 'normal_form': r.extra['nf']} for r in samp] or [{'obligation': r.id, 'what': r.what} for r in held[:5]],
        'checker_cmd': 'python3 /verif/check.py %s --%s' % (prop.id, tier),
        'trusted_base': ['clang 18 front end and opt canonicalisation passes', 'nvn (nf.py, summ.py, trace.py) normaliser', 'the plain-arithmetic specifications in /verif/nvn/props'],
        'by_kind': bykind,
        'undetermined': [{'obligation': r.id, 'why': r.detail[:200]} for r in und[:20]],
        'explanation': 'static: each obligation compares the normal form of IR compiled from /repo/include with the normal form of its specification (or asks the compiler to accept/reject a witness); nothing from /repo is executed',
        'headers_analysed': headers_digest(),
    }
    if viol:
        cov['violations'] = [{'obligation': r.id, 'what': r.what, 'where': r.anchor, 'detail': r.detail} for r in viol[:50]]
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov, 'wall_s': round(wall, 2)}
    if kn:
        cov['known_findings'] = [r.known['id'] for r in kn]
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s [%s]: %d obligations, %d hold, %d undetermined, %d known, %d violated, %.1fs' % (
        prop.id, tier, len(results), len(held), n_un, len(kn), len(viol), wall))
    if verbose:
        for r in und:
            print('  undetermined %s: %s' % (r.id, r.detail[:300]))
    for kf in {r.known['id']: r.known for r in kn}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop.id, kf['what']))
    if errors:
        for g, e in errors:
            print('error: a header set no longer compiles: ' + e)
    if viol:
        path = os.path.join(HERE, 'evidence', 'violation_%s.txt' % prop.id)
        with open(path, 'w') as f:
            for r in viol:
                f.write('obligation %s (%s)\nwhat: %s\nwhere: %s\n%s\n' % (r.id, r.kind, r.what, r.anchor, r.detail))
                for k, v in r.extra.items():
                    f.write('--- %s\n%s\n' % (k, v))
                f.write('rerun: python3 /verif/check.py %s --only "^%s$"\n\n' % (prop.id, r.id))
        for r in viol[:10]:
            print('  %s at %s: %s: %s' % (r.id, r.anchor, r.what, r.detail[:600]))
        if len(viol) > 10:
            print('  ... and %d more' % (len(viol) - 10))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if errors:
        return 2
    if not only and len(held) < prop.minimum:
        print('error: only %d obligations decided, expected at least %d' % (len(held), prop.minimum))
        return 2
    return 0


def headers_digest():
    h = hashlib.sha1()
    n = 0
    base = os.path.join(build.REPO, 'include')
    for d, _, fs in sorted(os.walk(base)):
        for x in sorted(fs):
            with open(os.path.join(d, x), 'rb') as f:
                h.update(f.read())
            n += 1
    return {'root': base, 'files': n, 'sha1': h.hexdigest()}
