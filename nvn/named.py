"""The same obligations with dimensions named by objects (noarr::dim<TAG>) instead of characters."""
import copy
import hashlib
import re

from .core import Group

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
LIT = re.compile(r"(?<![\w'])'(\w)'")
TYPES = ['int', 'unsigned', 'long', 'char', 'short', 'unsigned char', 'std::size_t']


def decls(mode):
    """I: distinct numbers, L: distinct empty types, C: the character of the neighbour, T: equal numbers of different types"""
    out = ['#include <cstddef>\n#include <noarr/structures_extended.hpp>\nnamespace nvn_dims {']
    for k, c in enumerate(LETTERS):
        tag = {'I': '%d' % k, 'L': 'tag_%s{}' % c, 'C': '(char)%d' % (ord(c) - 1), 'T': '(%s)%d' % (TYPES[k % len(TYPES)], k // len(TYPES))}[mode]
        out.append('%sconstexpr noarr::dim<%s> %s_%s;' % ('struct tag_%s {}; ' % c if mode == 'L' else '', tag, mode, c))
    return '\n'.join(out) + '\n}\n'


def rewrite(text, mode):
    def sub(m):
        c = m.group(1)
        if mode == 'C' and ord(c) % 2 == 0:
            return m.group(0)
        return 'nvn_dims::%s_%s' % (mode, c)
    return LIT.sub(sub, text) if isinstance(text, str) else text


FIELDS = ('impl', 'spec', 'asis', 'decls', 'body', 'good', 'bad', 'common')


def named(groups, every, skip=()):
    """groups plus a named copy of every n-th obligation"""
    out = list(groups)
    for g in groups:
        bymode = {}
        for o in g.obs:
            h = int(hashlib.md5(o.id.encode()).hexdigest(), 16)
            if h % every or o.id in skip or not any(LIT.search(getattr(o, f, None) or '') for f in FIELDS):
                continue
            mode = 'ILCT'[(h // every) % 4]
            c = copy.copy(o)
            c.id = o.id + '_nd' + mode
            c.what = (o.what or '') + ' [dimensions named by noarr::dim objects]'
            for f in FIELDS:
                if getattr(o, f, None):
                    setattr(c, f, rewrite(getattr(o, f), mode))
            bymode.setdefault(mode, []).append(c)
        for mode, obs in sorted(bymode.items()):
            out.append(Group(decls(mode) + rewrite(g.preamble, mode), obs, flags=g.flags, batch=g.batch))
    return out


ELEMENTS = {'int': 'nvn_elems::i4', 'float': 'nvn_elems::f4', 'double': 'nvn_elems::d8', 'short': 'nvn_elems::s2'}
EDECL = '''namespace nvn_elems {
struct i4 { short v[2]; };
struct f4 { short a, b; };
struct d8 { short v[4]; };
struct s2 { short v; };
}
'''
SCALAR = re.compile(r'\bscalar<(int|float|double|short)>')
WORD = re.compile(r'\b(int|float|double|short|char)\b')


def typed(groups, every, skip=()):
    """groups plus a copy of every n-th obligation whose elements are objects of classes: as large as before, but less aligned"""
    out = list(groups)
    for g in groups:
        obs = []
        for o in g.obs:
            h = int(hashlib.md5(('el' + o.id).encode()).hexdigest(), 16)
            texts = [getattr(o, f, None) or '' for f in FIELDS]
            texts = [t for t in texts if isinstance(t, str)]
            if h % every or o.id in skip or o.kind == 'compile-fail' or not any(SCALAR.search(t) for t in texts) or any(WORD.search(SCALAR.sub('', t)) for t in texts):
                continue
            c = copy.copy(o)
            c.id = o.id + '_el'
            c.what = (o.what or '') + ' [elements of class type]'
            for f in FIELDS:
                t = getattr(o, f, None)
                if t and isinstance(t, str):
                    setattr(c, f, SCALAR.sub(lambda m: 'scalar<%s>' % ELEMENTS[m.group(1)], t))
            obs.append(c)
        if obs:
            out.append(Group(EDECL + g.preamble, obs, flags=g.flags, batch=g.batch))
    return out
