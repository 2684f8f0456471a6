"""Turns probe translation units into (unoptimised, inlined, mem2reg'ed) LLVM IR.

The IR is produced from /repo/include of the current working tree on every run.  Only
canonicalising passes run (inlining, SROA, CSE, CFG simplification, instcombine<no-verify-fixpoint>, GVN);
loops are not rotated, unrolled or vectorised, so that loop headers keep their source shape.
"""
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get('NOARR_REPO', '/repo')
CLANG = 'clang++-18'
OPT = 'opt-18'
LONG = '-non-global-value-max-name-size=1000000'
STD = '-std=c++20'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASEFLAGS = [STD, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'stubs'), '-w', '-ferror-limit=0',
             '-fno-color-diagnostics', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', '-pthread']
CODEGEN = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti']
PASSES = ('cgscc(inline),function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,gvn<no-pre;no-load-pre>,simplifycfg,instcombine<no-verify-fixpoint>,sroa,early-cse,gvn<no-pre;no-load-pre>,simplifycfg,instcombine<no-verify-fixpoint>,'
          'adce,loop-simplify),globaldce')


class ToolError(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='nvn.')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout, p.stderr


def flags(extra):
    return BASEFLAGS + list(extra)


def make_pch(scratch, preamble, extra=(), codegen=True):
    """Precompile the preamble; returns (pch path or None, diagnostics)."""
    h = hashlib.sha1((preamble + repr(extra) + str(codegen)).encode()).hexdigest()[:12]
    hp = os.path.join(scratch, 'pre_%s.hpp' % h)
    pch = hp + '.pch'
    with open(hp, 'w') as f:
        f.write(preamble)
    rc, out, err = run([CLANG] + flags(extra) + (CODEGEN if codegen else ['-fno-exceptions', '-fno-rtti', '-O1', '-Xclang', '-disable-llvm-passes']) + ['-x', 'c++-header', hp, '-o', pch])
    if rc:
        return None, err
    return pch, ''


def syntax(scratch, pch, code, name, extra=()):
    """-fsyntax-only; returns (ok, stderr)"""
    p = os.path.join(scratch, name + '.cpp')
    with open(p, 'w') as f:
        f.write(code)
    rc, out, err = run([CLANG] + flags(extra) + CODEGEN + ['-include-pch', pch, '-fsyntax-only', p])
    os.unlink(p)
    return rc == 0, err


def to_ir(scratch, pch, code, name, extra=()):
    """returns (ir text or None, stderr)"""
    p = os.path.join(scratch, name + '.cpp')
    bc = os.path.join(scratch, name + '.bc')
    ll = os.path.join(scratch, name + '.ll')
    with open(p, 'w') as f:
        f.write(code)
    rc, out, err = run([CLANG] + flags(extra) + CODEGEN + ['-include-pch', pch, '-c', '-emit-llvm', p, '-o', bc])
    if rc:
        return None, err
    rc, out, err = run([OPT, '-inline-threshold=100000', LONG, '-passes=' + PASSES, bc, '-S', '-o', ll])
    if rc:
        raise ToolError('opt failed: ' + err[:400])
    with open(ll) as f:
        text = f.read()
    if COORDS in extra:
        with open(ll, 'w') as f:
            f.write(forward_coords(text))
        rc, out, err = run([OPT, LONG, '-passes=' + PASSES, ll, '-S', '-o', bc])
        if rc:
            raise ToolError('opt failed: ' + err[:400])
        with open(bc) as f:
            text = f.read()
    for x in (p, bc, ll):
        os.unlink(x)
    return text, ''


COORDS = '-DNVN_COORDS'


def forward_coords(text):
    """The coordinates of a thread (internal globals of the probe) are set once, at its start, and nobody else knows them:
    each load yields what was stored."""
    out = []
    for f in re.split(r'(?m)(?=^define )', text):
        entry = f.split('\n\n', 1)[0]
        st = {}
        for m in re.finditer(r'(?m)^  store i32 (\S+), (ptr (?:getelementptr inbounds \([^@\n]*)?@_ZL\d+(?:threadIdx|blockIdx|blockDim|gridDim)\b[^\n]*?), align', f):
            st.setdefault(m.group(2), []).append(m)
        for a, ms in st.items():
            if len(ms) == 1 and ms[0].group(0) in entry:
                f = re.sub(r'(?m)^(  %\S+ = )load i32, ' + re.escape(a) + r', align.*$', lambda x: x.group(1) + 'add i32 %s, 0' % ms[0].group(1), f)
        out.append(f)
    return ''.join(out)


DIAG = re.compile(r'^(.*?):(\d+)(?::\d+)?: (fatal error|error|note): (.*)$')


def first_error(err, limit=300):
    """A short, human readable rendering of the first diagnostic: 'file:line: message'"""
    for l in err.split('\n'):
        m = DIAG.match(l)
        if m and 'error' in m.group(3):
            f = m.group(1)
            f = f.replace(REPO + '/', '')
            return '%s:%s: %s' % (f, m.group(2), m.group(4)[:limit])
    return err.strip()[:limit]
