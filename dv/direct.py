"""Helpers for contracts of single calls: every path of a function from a class of states, the
external functions recorded as events, each with all its outcomes."""
from . import terms as tm
from . import model
from .terms import const
from .exec import Ptr, NULL, T, Undecided


def note(s, *t):
    s.data['ev'] = s.data.get('ev', ()) + (t,)


def events(s):
    return s.data.get('ev', ())


def clear(s):
    s.data.pop('ev', None)
    return s


def cstr(ex, s, p, line=0):
    r = b''
    while True:
        b = ex.read_bytes(s, p.add(len(r)), 1, line)[0]
        if b.op != 'c':
            raise Undecided('symbolic text')
        if not b.a:
            return r.decode('latin1')
        r += bytes([b.a])


def outcome(ex, s, good, bad, on_good=None):
    """fork into success (after on_good) and failure"""
    f = s.fork()
    if on_good:
        on_good(s)
    return [(s, good), (f, bad)]


ONE, ZERO = const(1, 32), const(0, 32)


def isnull(p):
    return not isinstance(p, Ptr)


def zeroed(st, obj):
    for i in range(st.mem[obj].size):
        st.wb(Ptr(obj, i), [const(0, 8)])
    return st


def cells(s, obj):
    return [s.rb(obj, i) for i in range(s.mem[obj].size)]


def ptr_at(s, p):
    """pointer stored at p, or None for a null pointer"""
    b = s.rb(p.obj, p.off.a)
    if isinstance(b, T):
        return None
    return b.p


def opaque(s, name):
    k = s.data.get('nobj', 0)
    s.data['nobj'] = k + 1
    p = s.new('%s%d' % (name, k), 8, kind='opaque')
    return p
