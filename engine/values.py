"""Values of the symbolic interpreter.  All immutable by convention."""
import itertools
from fractions import Fraction
import z3


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __add__(self, step):
        return Loc(self.root, self.path + (step,))

    def key(self):
        return (self.root, self.path)

    def same(self, o):
        return self.root == o.root and len(self.path) == len(o.path) and all(
            stepeq(a, b) for a, b in zip(self.path, o.path))

    def __repr__(self):
        return f'Loc({self.root}{"".join("." + str(p) for p in self.path)})'


def stepeq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if a[0] != b[0] or len(a) != len(b):
            return False
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
                if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)):
                    return False
            elif x != y:
                return False
        return True
    return a == b


class Struct:
    """record value: fields by name, base subobjects by ('b', record id)"""
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f):
        self.rec = rec
        self.f = f

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Struct(self.rec, f)

    def __repr__(self):
        return f'Struct#{self.rec}{self.f}'


class Vec:
    """sequence of known length: vector, list, deque, array, C array, initializer_list, set"""
    __slots__ = ('items', 'ety')

    def __init__(self, items, ety=None):
        self.items = tuple(items)
        self.ety = ety

    def __repr__(self):
        return f'Vec{list(self.items)}'


class SVec:
    """sequence of symbolic length: n, z3 array Int -> sort(ety)"""
    __slots__ = ('n', 'arr', 'ety')

    def __init__(self, n, arr, ety):
        self.n = n
        self.arr = arr
        self.ety = ety

    def __repr__(self):
        return f'SVec(n={self.n})'


class MapV:
    """associative container with a known number of entries; entries = ((key, value), ...)"""
    __slots__ = ('entries', 'kty', 'vty', 'ordered', 'ids')
    counter = itertools.count(1)

    def __init__(self, entries, kty, vty, ordered=True, ids=None):
        self.entries = tuple(entries)
        self.kty = kty
        self.vty = vty
        self.ordered = ordered
        # nodes keep their identity when others come and go
        self.ids = tuple(ids) if ids is not None else tuple(next(MapV.counter) for _ in self.entries)

    def find(self, i):
        try:
            return self.ids.index(i)
        except ValueError:
            return None

    def put(self, i, entry):
        es = list(self.entries)
        es[i] = entry
        return MapV(es, self.kty, self.vty, self.ordered, self.ids)

    def without(self, i):
        return MapV(self.entries[:i] + self.entries[i + 1:], self.kty, self.vty, self.ordered, self.ids[:i] + self.ids[i + 1:])


class Opt:
    __slots__ = ('has', 'val')

    def __init__(self, has, val=None):
        self.has = has
        self.val = val

    def __repr__(self):
        return f'Opt({self.has},{self.val})'


class Variant:
    __slots__ = ('idx', 'val')

    def __init__(self, idx, val):
        self.idx = idx
        self.val = val


class Ptr:
    """raw / shared / unique / weak pointer; loc None is null"""
    __slots__ = ('loc', 'kind')

    def __init__(self, loc, kind='raw'):
        self.loc = loc
        self.kind = kind

    def __repr__(self):
        return f'Ptr({self.loc})'


class FnPtr:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class MemPtr:
    __slots__ = ('field', 'f', 'rec')

    def __init__(self, field=None, f=None, rec=None):
        self.field, self.f, self.rec = field, f, rec


class Fun:
    """std::function; val None is empty"""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class Iter:
    """iterator: container location and position; in node-based containers the position is ('n', node or None)"""
    __slots__ = ('loc', 'i', 'rev')

    def __init__(self, loc, i, rev=False):
        self.loc, self.i, self.rev = loc, i, rev

    def __repr__(self):
        return f'Iter({self.loc},{self.i})'


class CStr:
    """character array of a literal (without the terminator)"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Stream:
    """string stream: out = text written, inp = text still to read"""
    __slots__ = ('out', 'inp', 'fail', 'eof', 'bad', 'flags')

    def __init__(self, out='', inp='', fail=False, eof=False, bad=False, flags=()):
        self.out, self.inp, self.fail, self.eof, self.bad, self.flags = out, inp, fail, eof, bad, flags

    def upd(self, **k):
        s = Stream(self.out, self.inp, self.fail, self.eof, self.bad, self.flags)
        for a, b in k.items():
            setattr(s, a, b)
        return s


class TypeInfo:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class SysObj:
    """object of a library class known by name only"""
    __slots__ = ('name', 'f', 'rec')

    def __init__(self, name, f=None, rec=None):
        self.name, self.f, self.rec = name, f or {}, rec

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return SysObj(self.name, f, self.rec)

    def __repr__(self):
        return f'{self.name}{self.f}'


class Uninit:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Uninit'


class CppThrow(Exception):
    def __init__(self, value, where=''):
        self.value = value
        self.where = where


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class GotoX(Exception):
    def __init__(self, n):
        self.n = n


class Infeasible(Exception):
    """this path ends here (assumption contradicts, or covered by an induction step)"""


class SpecAbort(Exception):
    """speculative evaluation is not possible"""


class Unsupported(Exception):
    pass


class Restart(Exception):
    """run the whole harness again (a loop changed mode)"""


def isz(v):
    return isinstance(v, z3.ExprRef)
