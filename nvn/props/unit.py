"""C28: headers stand alone and define nothing twice; the same programs are accepted and rejected with C++20 and C++23, by both compilers."""
import hashlib
import os
import re
import subprocess

from .. import build
from ..core import Group, PROLOGUE, Result
from . import const

INC = 'include/noarr/'
HEADERS = ['introspection', 'structures', 'structures_extended', 'traversers'] + ['structures/' + x for x in (
    'base/contain base/signature base/state base/structs_common base/utility extra/funcs extra/mangle extra/planner extra/shortcuts extra/sig_utils extra/struct_concepts extra/struct_traits extra/to_struct '
    'extra/traverser interop/bag interop/omp interop/planner_iter interop/serialize_data interop/std_para interop/tbb interop/traverser_iter introspection/contiguous introspection/lower_bound_along '
    'introspection/offset_along introspection/stride_along introspection/uniform_along structs/bcast structs/blocks structs/layouts structs/scalar structs/setters structs/slice structs/views structs/zcurve').split()]
PUBLIC = {'structures', 'structures_extended', 'traversers', 'structures/interop/serialize_data', 'structures/interop/traverser_iter', 'structures/structs/zcurve', 'structures/extra/mangle',
          'structures/interop/bag', 'structures/interop/tbb', 'structures/base/structs_common', 'structures/extra/struct_traits', 'structures/extra/planner'}
SAMPLED = const.SOURCES + ['C10', 'C11', 'C14', 'C19', 'C20', 'C25']
VARIANTS = [('g++', '20', ()), ('g++', '23', ()), ('clang++-18', '23', ()), ('g++', '20', ('-fno-exceptions', '-fno-rtti')), ('clang++-18', '20', ('-fno-exceptions', '-fno-rtti')), ('clang++-18', '20', ())]


class Unit:
    """a whole translation unit, accepted by a compiler (reject: refused)"""
    def __init__(self, id, text, variant, what, anchor='', flags=(), reject=False, symbols=False):
        self.id, self.text, self.variant, self.what, self.anchor, self.flags, self.reject, self.symbols = id, text, variant, what, anchor, list(flags), reject, symbols
        self.kind = 'compile-fail' if reject else 'symbol-table' if symbols else 'accepted-unit'

    def decide(self, scratch, name):
        cc, std, opt = self.variant
        p = os.path.join(scratch, name + '.cpp')
        with open(p, 'w') as f:
            f.write(self.text)
        base = [cc, '-std=c++' + std, '-I' + os.path.join(build.REPO, 'include'), '-I' + os.path.join(build.HERE, 'stubs'), '-w'] + list(opt) + self.flags
        rc, out, err = build.run(base + (['-O0', '-S', '-emit-llvm', '-o', '-', p] if self.symbols else ['-fsyntax-only', p]), timeout=600)
        os.unlink(p)
        if self.reject:
            return Result(self, 'violated', 'ill-formed program is accepted by %s -std=c++%s' % (cc, std), {'code': self.text[-2000:]}) if rc == 0 else Result(self, 'holds', '', {'nf': 'rejected: ' + build.first_error(err, 160)})
        if rc:
            return Result(self, 'violated', '%s -std=c++%s %s: %s' % (cc, std, ' '.join(opt), build.first_error(err)), {'code': self.text[-3000:], 'messages': err[:3000]})
        if self.symbols:
            strong = re.findall(r'^(define (?:dso_local )?(?!.*?\b(?:linkonce_odr|weak_odr|internal|private|available_externally)\b)[^@]*@\S+)', out, re.M)
            strong += re.findall(r'^(@(?!llvm\.)\S+ = (?:dso_local )?(?:thread_local )?(?:unnamed_addr )?(?:global|constant) .*)', out, re.M)
            if strong:
                return Result(self, 'violated', 'defined again by every translation unit: ' + '; '.join(x[:160] for x in strong[:3]))
            return Result(self, 'holds', '', {'nf': '%d definitions, all mergeable or internal' % len(re.findall(r'^define ', out, re.M))})
        return Result(self, 'holds')


def mk(tier):
    from ..registry import PROPS
    th = tier == 'thorough'
    obs = []
    for h in HEADERS:
        f = 'noarr/%s.hpp' % h
        if not os.path.exists(os.path.join(build.REPO, 'include', f)) and h not in PUBLIC:
            continue   # an internal file that was moved
        omp = ['-fopenmp'] if h.endswith('/omp') else []
        n = h.replace('/', '_')
        for v in VARIANTS:
            if th or v[:2] in (('g++', '20'), ('clang++-18', '23')) or h in PUBLIC:
                obs.append(Unit('alone_%s_%s%s%s' % (n, v[0][:3].replace('+', 'x'), v[1], 'n' if v[2] else ''), '#include <%s>\n#include <%s>\nint main() {}\n' % (f, f), v, 'the header %s alone' % f, f, omp))
        obs.append(Unit('sym_' + n, '#include <%s>\n' % f, ('clang++-18', '20', ()), 'definitions in ' + f, f, omp, symbols=True))
    for s in SAMPLED:
        groups = PROPS[s].make('quick')
        total = sum(len(g.obs) for g in groups)
        want = 160 if th else 48
        every = max(1, total // want)
        for gi, g in enumerate(groups):
            pick = [o for o in g.obs if int(hashlib.md5(('u' + o.id).encode()).hexdigest(), 16) % every == 0]
            if any(f.startswith('-D') for f in g.flags):
                continue   # models for the IR only
            codes = []
            for o in pick:
                v = VARIANTS[int(hashlib.md5(('v' + o.id).encode()).hexdigest(), 16) % 3]
                if o.kind == 'compile-fail':
                    obs.append(Unit('neg_%s_%s' % (s, o.id), g.preamble + o.code(o.bad), v, o.what, o.anchor, g.flags, reject=True))
                    codes.append((o, o.code()))
                elif o.kind == 'type-witness':
                    codes.append((o, o.code()))
                else:
                    w = const.witness(o, s) if s in const.SOURCES else None
                    codes.append((o, w.code() if w else o.code()))
            for k in range(0, len(codes), 8):
                part = codes[k:k + 8]
                for v in (VARIANTS[:3] if th else [VARIANTS[(gi + k // 8 + int(s[1:])) % 3]]):
                    obs.append(Unit('use_%s_%d_%d_%s%s' % (s, gi, k, v[0][:3].replace('+', 'x'), v[1]), g.preamble + '\n'.join(c for _, c in part), v,
                                    'programs of %s: %s' % (s, ', '.join(o.id for o, _ in part)), part[0][0].anchor, g.flags))
    return [Group('', obs, batch=1)]
