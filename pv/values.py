"""Value domain of the symbolic executor for the Python 2 subset."""
import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's reach."""


class PathEnd(Exception):
    """This path is finished (infeasible or cut at a loop head)."""


class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, args=(), value=None):
        Exception.__init__(self)
        self.cls, self.args_, self.value = cls, tuple(args), value
        self.where = None

    def __str__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else getattr(self.cls, 'name', self.cls)
        return "%s%r at %s" % (n, self.args_, self.where)


class Sym(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)

    def __eq__(self, o):
        raise TypeError('symbolic == used natively')

    __hash__ = object.__hash__


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SFloat(object):
    """Extended real: kind 0 finite, 1 +inf, 2 -inf, 3 nan."""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return 'SFloat(%s,%s)' % (self.k, self.v)

    def __eq__(self, o):
        raise TypeError('symbolic == used natively')

    __hash__ = object.__hash__


class Opaque(object):
    """A value about which nothing is known (havocked or external)."""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Lazy(object):
    """Placeholder forced on first read."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


_sn = [0]


class Heap(object):
    """Heap cell: serial number (creation order) and owning symbolic container."""
    sn = 0
    owner = None

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        _sn[0] += 1
        o.sn = _sn[0]
        return o


class Func(object):
    def __init__(self, node, module, closure, name, cls=None):
        self.node, self.module, self.closure, self.name = node, module, closure, name
        self.cls = cls
        self.defaults = []
        self.kind = 'func'
        self.attrs = {}

    def qual(self):
        if self.cls is not None:
            return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
        return '%s.%s' % (self.module.name, self.name)

    def __repr__(self):
        return '<Func %s>' % self.qual()


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return '<Bound %r>' % (self.func,)


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<Builtin %s>' % self.name


class ClassV(object):
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def __repr__(self):
        return '<Class %s>' % self.name


class Obj(Heap):
    """Instance. Missing attributes: `ext` (callable E,obj,name) or error."""
    def __init__(self, cls, attrs=None, ext=None, tag=None):
        self.cls, self.attrs, self.ext, self.tag = cls, dict(attrs or {}), ext, tag

    def __repr__(self):
        return '<Obj %s%s>' % (getattr(self.cls, 'name', self.cls), ' ' + self.tag if self.tag else '')


class ModV(object):
    def __init__(self, name):
        self.name, self.attrs, self.ready = name, {}, False

    def __repr__(self):
        return '<Mod %s>' % self.name


class ExtV(object):
    """Something imported from outside privcount, not modelled."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<Ext %s>' % self.name


class Rest(object):
    """Symbolic remainder of a collection."""
    def __init__(self, name, factory, mkkey=None, shape=None, implied=None):
        self.name, self.factory, self.mkkey, self.shape = name, factory, mkkey, shape
        self.loop_src = None     # snapshot of the dict whose keys were written in a loop
        self.base = None         # the dict before that loop
        self.pure = False        # every key was written by that loop
        self.implied = implied   # implied(E, key) -> True: certainly present, False: certainly absent, None: either
        self.oracle = []         # membership decided so far, shared by copies of the collection


class Entries(list):
    """The entries of a large dict, with an index while all keys are concrete strings."""
    ix = None

    def index_of_strings(self):
        if self.ix is None:
            self.ix = dict((e[0], e) for e in self) if all(type(e[0]) is str for e in self) else False
        return self.ix or None

    def _changed(name):
        f = getattr(list, name)

        def g(self, *a, **k):
            self.ix = None
            return f(self, *a, **k)
        return g

    for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__'):
        locals()[_n] = _changed(_n)
    del _n, _changed


class PDict(Heap):
    def __init__(self, entries=None, rest=None, name=None, kind='dict'):
        self.entries = [list(e) for e in (entries or [])]
        self.rest = rest
        self.absent = []
        self.name = name
        self.default = None      # defaultdict factory
        self.kind = kind
        self.facts = []          # facts about every remaining key, from completed loops
        self.rest_len = None     # SInt: how many entries beyond the known ones (when fixed)
        self.within = []         # collections whose remainder includes the remainder of this one
        self.over = []           # collections whose remainder is included in the remainder of this one

    def __repr__(self):
        return 'PDict(%s%s)' % (', '.join('%r: %r' % (k, v) for k, v in self.entries[:6]),
                                ', **%s' % self.rest.name if self.rest else '')


class PSet(Heap):
    def __init__(self, d=None, frozen=False):
        self.d = d if d is not None else PDict(kind='set')
        self.frozen = frozen

    def __repr__(self):
        return 'PSet(%r)' % (self.d,)


class PList(Heap):
    """Concrete list (`items`) or symbolic-length list (`length`, `known`, `factory`)."""
    def __init__(self, items=None, length=None, factory=None, name=None, known=None):
        self.items = list(items) if items is not None else ([] if length is None else None)
        self.length = length
        self.factory = factory
        self.known = [list(k) for k in (known or [])]
        self.name = name
        self.shape = None
        self.facts = []

    @property
    def sym(self):
        return self.items is None

    def __repr__(self):
        if self.sym:
            return 'PList<%s len=%s known=%r>' % (self.name, self.length, self.known)
        return 'PList(%r)' % (self.items,)


class SRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SymIter(object):
    """known: list of elements iterated exactly once; other(): a fresh arbitrary element."""
    def __init__(self, known, other, name='it', facts=None):
        self.known, self.other, self.name, self.facts = known, other, name, facts
        self.src = None          # the dict whose keys are iterated
        self.over = None         # the container or range whose elements (keys, indices) are iterated
        self.notother = []       # keys that are certainly not among the other elements


class ExcInst(object):
    """An exception instance bound by 'except E as e'."""
    def __init__(self, cls, args):
        self.cls, self.args = cls, args
