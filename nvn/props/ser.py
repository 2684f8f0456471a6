"""Serialization: every element, once, in traversal order, one per line; reading stores to the same elements in the same order."""
import random
from ..core import Eq, Neg, Group
from ..model import *
from ..gen import *
from .layout import PRE, H, SLICES, BLOCKS, stacks, tuple_views, wide_orders, wide_tuples, vec5
from .trav import loops, natural
from .bag import proto_of

A = H + 'interop/serialize_data.hpp'
# streams that record what is written as (kind, bits) and take what is read from an external source
SP = PRE + '''#include <noarr/traversers.hpp>
#include <cstring>
#include <utility>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>
#include <noarr/structures/structs/zcurve.hpp>
extern "C" u64 source(u64) noexcept;
template<int N> struct bits_of; template<> struct bits_of<1> { using t = unsigned char; }; template<> struct bits_of<2> { using t = unsigned short; };
template<> struct bits_of<4> { using t = unsigned int; }; template<> struct bits_of<8> { using t = u64; };
inline void put_char(char c) { sink2(1, u64((unsigned char)c)); }
template<class T> inline void put_value(const T &v) { typename bits_of<sizeof(T)>::t b; std::memcpy(&b, &v, sizeof(T)); sink3(2, sizeof(T), u64(b)); }
template<class T> inline void get_value(T &v) { typename bits_of<sizeof(T)>::t b = (typename bits_of<sizeof(T)>::t)source(sizeof(T)); std::memcpy(&v, &b, sizeof(T)); }
struct OS {
  template<class T> OS &operator<<(const T &v) { static_assert(std::is_arithmetic_v<T>); if constexpr (std::is_same_v<T, char>) put_char(v); else put_value(v); return *this; }
  OS &operator<<(const char *s) { for (; *s; ++s) put_char(*s); return *this; }
  OS &put(char c) { put_char(c); return *this; }
  OS() = default; OS(const OS &) = delete;
};
struct IS {
  template<class T> IS &operator>>(T &v) { static_assert(std::is_arithmetic_v<T> && !std::is_const_v<T>); get_value(v); return *this; }
  IS() = default; IS(const IS &) = delete;
};
'''



def write(s, base):
    def body(idx):
        t = s.scalar()
        p = '(%s*)(%s + (%s))' % (t, base, s.off(idx))
        return ('put_char(*%s); put_char(10);' if t == 'char' else 'put_value(*%s); put_char(10);') % p
    return loops(s, s, body)


def read(s, base):
    def body(idx):
        return 'get_value(*(%s*)(%s + (%s)));' % (s.scalar(), base, s.off(idx))
    return loops(s, s, body)


def mk(tier):
    th = tier == 'thorough'
    obs = []
    cs = [('%s' % n, s, None) for n, s in bases()]
    I = Scalar('int')
    for t in ['char', 'float', 'double', 'short', 'std::uint64_t', 'std::uint8_t']:
        cs.append(('el_' + t.replace('::', '_'), SizedVector(Scalar(t), 'x', N('n')), None))
    cs.append(('el0', I, None))
    V = SLICES + BLOCKS + ['rename', 'hoist', 'bcast']
    cs += [(n, s, vs) for n, s, vs in stacks(V, 1, bases())]
    deep = [(n, s, vs) for n, s, vs in stacks(V, 2, bases()[:2]) if vs != ('static', 'static')]
    random.Random(8).shuffle(deep)
    cs += deep[:300 if th else 30]
    cs += [('w5', vec5(), None)] + [(n, s, None) for n, s, b in wide_orders(1 if not th else 6)]
    bs = dict(bases())
    for name, s, vs in cs:
        if not natural(s):
            continue
        P = s.params + ['p']
        obs.append(Eq('w_' + name, P, 'OS os_; decltype(auto) r_ = noarr::serialize_data(os_, %s, (const void *)p); static_assert(std::is_same_v<decltype(r_), OS &>); sink(u64(&r_ == &os_));' % s.cpp,
                      write(s, 'p') + ' sink(1);', s.pre, ret='void', what='serialize_data of ' + s.cpp, anchor=A + ': serialize_data(stream, structure, data)'))
        obs.append(Eq('r_' + name, P, 'IS is_; decltype(auto) r_ = noarr::deserialize_data(is_, %s, (void *)p); static_assert(std::is_same_v<decltype(r_), IS &>); sink(u64(&r_ == &is_));' % s.cpp,
                      read(s, 'p') + ' sink(1);', s.pre, ret='void', what='deserialize_data of ' + s.cpp, anchor=A + ': deserialize_data(stream, structure, data)'))
        obs.append(Eq('wb_' + name, P, 'OS os_; auto b_ = noarr::make_bag(%s, (void *)p); decltype(auto) r_ = noarr::serialize_data(os_, b_); static_assert(std::is_same_v<decltype(r_), OS &>); sink(u64(&r_ == &os_)); '
                      'auto c_ = noarr::make_bag(%s, (const void *)p); noarr::serialize_data(os_, c_); noarr::serialize_data(os_, std::as_const(b_)); noarr::serialize_data(os_, b_.get_ref());' % (s.cpp, s.cpp),
                      write(s, 'p') + ' sink(1);' + write(s, 'p') * 3, s.pre, ret='void', what='serialize_data of bags of ' + s.cpp, anchor=A + ': serialize_data(stream, bag)'))
        obs.append(Eq('rb_' + name, P, 'IS is_; auto b_ = noarr::make_bag(%s, (void *)p); decltype(auto) r_ = noarr::deserialize_data(is_, b_); static_assert(std::is_same_v<decltype(r_), IS &>); sink(u64(&r_ == &is_));' % s.cpp,
                      read(s, 'p') + ' sink(1);', s.pre, ret='void', what='deserialize_data of a bag of ' + s.cpp, anchor=A + ': deserialize_data(stream, bag)'))
        obs.append(Eq('tmp_' + name, P, 'noarr::serialize_data(OS(), %s, (const void *)p); noarr::deserialize_data(IS(), %s, (void *)p);' % (s.cpp, s.cpp),
                      write(s, 'p') + read(s, 'p'), s.pre, ret='void', what='(de)serialize_data of %s with a temporary stream' % s.cpp, anchor=A))
    f = 'inline void f(void *p, const void *c) { auto S_ = noarr::scalar<int>() ^ noarr::sized_vector<\'x\'>(u64(3)); %s }'
    for nm, good, bad in [
            ('ds_bag', 'IS is_; auto b_ = noarr::make_bag(S_, p); noarr::deserialize_data(is_, b_);', 'IS is_; auto b_ = noarr::make_bag(S_, c); noarr::deserialize_data(is_, b_);'),
            ('ds_mem', 'IS is_; noarr::deserialize_data(is_, S_, p);', 'IS is_; noarr::deserialize_data(is_, S_, c);'),
            ('len', 'OS os_; noarr::serialize_data(os_, S_, c);', 'OS os_; noarr::serialize_data(os_, noarr::scalar<int>() ^ noarr::vector<\'x\'>(), c);')]:
        obs.append(Neg(nm, f % good, f % bad, 'reading into read-only data' if nm != 'len' else 'serializing a structure of unknown length', A))
    return [Group(SP, obs)]
