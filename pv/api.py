"""The contract language, verifier side.  harness/concrete.py has the runtime side."""
import z3
from values import *
from engine import Engine, MISSING
from interp import Interp
from values import Rest
import builtins_model as bm


class Out(object):
    """Result of running the real code: ok/value or exception class name."""
    def __init__(self, ok, value=None, exc=None, where=None, args=()):
        self.ok, self.value, self.exc, self.where, self.args = ok, value, exc, where, args


class Keys(object):
    """Keys of a symbolic collection materialised so far (for replay)."""
    def __init__(self):
        self.keys = []
        self.length = None


class Api(Interp):
    concrete = False

    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.gobj = Obj(ClassV('ghost', [], {}, ModV('ghost')))

    # ---- inputs
    def int(self, name, lo=None, hi=None, gen=None, inp=True):
        return Engine.int(self, name, lo, hi, inp)

    def str(self, name, gen=None, maxlen=None, inp=True):
        v = Engine.str(self, name, inp)
        if maxlen is not None:
            self.assume(self.S.len(v.t) <= maxlen)
        return v

    def bytes(self, name, n, inp=True):
        v = Engine.str(self, name, inp)
        self.assume(self.S.len(v.t) == n)
        return v

    def b64(self, s):
        return bm.b64encode(self, [s], {})

    def hex(self, s):
        return bm.hexlify(self, [s], {})

    def float(self, name, lo=None, hi=None, finite=False, gen=None, inp=True):
        v = Engine.float(self, name, inp, finite)
        if lo is not None:
            self.assume(self.boolt(self.lt(lo, v, False)))
        if hi is not None:
            self.assume(self.boolt(self.lt(v, hi, False)))
        return v

    def uname(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s!%d' % (name, k)

    def pick(self, name, vals):
        n = self.uname(name)
        # repeated values only weigh the random inputs
        ix = [i for i, v in enumerate(vals) if not any(v is w or type(v) is type(w) and isinstance(v, (int, str)) and v == w
                                                       for w in vals[:i])]
        i = ix[self.choose(len(ix))] if len(ix) > 1 else ix[0]
        self.inputs[n] = i
        return vals[i]

    def opaque(self, name):
        return Opaque(name)

    def list(self, name, elem, lo=0, hi=None, n=None, shape=None, generic=True):
        """List of symbolic length; elem(E, index) builds an arbitrary element."""
        if n is not None:
            return PList([elem(self, i) for i in range(n)])
        ln = Engine.int(self, name + '#len', lo, hi)
        ks = Keys()
        ks.length = ln
        self.inputs['#' + self.uname('#' + name)[1:]] = ks

        def fac(E, j):
            ks.keys.append(j)
            E.journal.append(lambda: ks.keys.pop())
            return elem(E, j)
        l = PList(length=ln, factory=fac, name=name)
        l.shape = shape
        l.nogen = not generic
        return l

    def dict(self, name, key, val, generic=(), shape=None, has=(), hasnot=(), like=None):
        """Dictionary with unknown keys (those of like, if given); val(E, key) builds an arbitrary value."""
        ks = Keys()
        self.inputs['#' + self.uname('#' + name)[1:]] = ks

        def fac(E, k):
            ks.keys.append(k)
            E.journal.append(lambda: ks.keys.pop())
            return val(E, k)
        d = PDict([], Rest(name, fac, key, shape), name)
        if like is not None:
            like = self.dict_copy(like)
            d.rest.implied = lambda E, k: E.dict_find(like, k) is not None
            d.within = [like]
        for g in has:            # the keys in has and hasnot are different
            d.entries.append([g, fac(self, g)])
        d.absent.extend(hasnot)
        for g in generic:
            self.dict_find(d, g)
        return d

    def symset(self, name, key, generic=(), has=(), hasnot=()):
        """Set with unknown elements."""
        d = self.dict(name, key, lambda E, k: None, generic, None, has, hasnot)
        d.kind = 'set'
        return PSet(d, False)

    def mkdict(self, pairs):
        d = PDict()
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    def mklist(self, items):
        return PList(list(items))

    def mkset(self, items):
        return bm.make_set(self, PList(list(items)), False)

    def keys(self, d):
        """The list of the keys of a dictionary that does not change."""
        return bm.d_keys(self, d)

    def generic(self, name):
        """An arbitrary but fixed index, tracked by every loop."""
        g = Engine.int(self, name, 0)
        self.generic_idx.append(g.t)
        return g

    def havoc_rest(self, c, keep, shape):
        """Contract of a callee: every element of c except c[keep] may have changed, and has the shape."""
        mk = self.shapes[shape][1]
        slot = ('others',)
        if isinstance(c, PList):
            for e in list(c.known):
                if self.eq(e[0], keep) is not True and self.truth(self.ne(e[0], keep)):
                    self.list_set(c, e[0], mk(self, e[0]))
            self.wrote(c, slot, self.list_snapshot(c), ('all', shape))
            c.factory = mk
            c.shape = shape
        else:
            for e in list(c.entries):
                if self.eq(e[0], keep) is not True and self.truth(self.ne(e[0], keep)):
                    self.dict_set(c, e[0], mk(self, e[0]))
            self._dict_write_undo(c, slot, ('all', shape))
            r = c.rest
            if r is not None:
                c.rest = Rest(r.name, mk, r.mkkey, shape, r.implied)
                c.rest.oracle = r.oracle

    # ---- objects
    def fn(self, dotted):
        if dotted.startswith('builtin.'):
            return bm.BUILTINS[dotted[8:]]
        return self.get(dotted)

    def new(self, dotted, *args, **kw):
        return self.call(self.get(dotted), list(args), kw)

    def raw(self, dotted, **attrs):
        return Obj(self.get(dotted), attrs)

    def stub(self, tag, **members):
        o = Obj(ClassV('stub_' + tag, [], {}, ModV('stub')), tag=tag)
        for k, v in members.items():
            if callable(v) and not isinstance(v, (Func, Bound, Builtin)):
                o.attrs[k] = Builtin('%s.%s' % (tag, k), v)
            else:
                o.attrs[k] = v
        return o

    def permissive(self, tag):
        """An object whose every method does nothing observable and returns an unknown."""
        def ext(E, o, name):
            b = Builtin('%s.%s' % (tag, name), lambda E, a, k: None)
            o.attrs[name] = b
            return b
        return Obj(ClassV('stub_' + tag, [], {}, ModV('stub')), ext=ext, tag=tag)

    def override(self, obj, name, handler):
        obj.attrs[name] = Builtin('override.' + name, handler)

    def callback(self, name, handler):
        return Builtin(name, handler)

    def attr(self, obj, name):
        return self.getattr(obj, name)

    def hasattr(self, obj, name):
        try:
            self.getattr(obj, name)
            return True
        except PyExc:
            return False

    def set(self, obj, name, v):
        self.setattr(obj, name, v)

    def item(self, o, k):
        return self.getitem(o, k)

    def get_or(self, d, k, default=None):
        return bm.d_get(self, d, k, default)

    def put(self, o, k, v):
        self.setitem(o, k, v)

    def len(self, v):
        return bm.b_len(self, [v], {})

    def has(self, c, x):
        return self.contains(c, x)

    def iter(self, v):
        """Concrete iteration only."""
        it = self.iterate(v)
        if isinstance(it, SymIter):
            raise Unsupported('contract iterates over a symbolic collection')
        return it

    def copy(self, v):
        return bm.deepcopy(self, v)

    def is_none(self, v):
        return self.force(v) is None

    def same(self, a, b):
        return self.force(a) is self.force(b)

    def run(self, f, *args, **kw):
        depth = len(self.frames)
        d = self.depth
        try:
            return Out(True, self.call(f, list(args), kw))
        except PyExc as e:
            del self.frames[depth:]
            self.depth = d
            n = e.cls.__name__ if isinstance(e.cls, type) else getattr(e.cls, 'name', str(e.cls)).split('.')[-1]
            return Out(False, None, n, e.where, e.args_)

    def m(self, obj, name, *args, **kw):
        """Run method `name` of obj."""
        d = self.depth
        try:
            f = self.getattr(obj, name)
        except PyExc as e:
            self.depth = d
            return Out(False, None, 'AttributeError', e.where)
        return self.run(f, *args, **kw)

    def file(self, content, tag='file'):
        """An open file: reading gives the content, writes are logged."""
        def read(E, a, k):
            if not a or E.truth(E.le(E.len_(content), a[0])):
                return content
            return SStr(E.S.sub(E.term(content), E.it(0), E.it(a[0])))

        o = self.stub(tag, read=read, close=lambda E, a, k: None,
                      write=lambda E, a, k: E.log('write', tag, a[0]), flush=lambda E, a, k: None)
        o.attrs['enter'] = Builtin('enter', lambda E, a, k: o)
        return o

    def raise_exc(self, name, msg=''):
        if '.' in name:
            self.raise_(ExtV(name), msg)
        self.raise_(getattr(__import__('builtins'), name), msg)

    # ---- formulas
    def And(self, *vs):
        return self.and_(*vs)

    def Or(self, *vs):
        return self.seq_or(vs)

    def Not(self, v):
        return self.not_(v)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return SBool(self.boolt(a) == self.boolt(b))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        c = self.boolt(c)
        if self.is_float(a) or self.is_float(b):
            x, y = self.fl(a), self.fl(b)
            return SFloat(z3.If(c, x.k, y.k), z3.If(c, x.v, y.v))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return SBool(z3.If(c, self.boolt(a), self.boolt(b)))
        if isinstance(a, (str, SStr)):
            return SStr(z3.If(c, self.term(a), self.term(b)))
        return SInt(z3.If(c, self.it(a), self.it(b)))

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def le(self, a, b):
        return self.lt(a, b, False)

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.lt(b, a, False)

    def add(self, a, b):
        return self.arith('Add', a, b)

    def sub(self, a, b):
        return self.arith('Sub', a, b)

    def mul(self, a, b):
        return self.arith('Mult', a, b)

    def div(self, a, b):
        return self.arith('FloorDiv' if self.is_int(a) and self.is_int(b) else 'Div', a, b)

    def mod(self, a, b):
        return self.arith('Mod', a, b)

    def cat(self, *vs):
        r = ''
        for v in vs:
            r = self.arith('Add', r, v)
        return r

    def startswith(self, s, p):
        return bm.str_method(self, s, 'startswith').fn(self, [p], {})

    def endswith(self, s, p):
        return bm.str_method(self, s, 'endswith').fn(self, [p], {})

    def contains_str(self, s, p):
        return self.contains(s, p)

    def typename(self, v):
        return bm.type_name(self, v)

    def func(self, name, kind, *args):
        """Uninterpreted (mathematical) function."""
        if kind == 'int':
            return SInt(self.uf(name, z3.IntSort(), *args))
        if kind == 'bool':
            return SBool(self.uf(name, z3.BoolSort(), *args))
        if kind == 'str':
            return SStr(self.uf(name, self.S.sort, *args))
        if kind == 'bytes32':
            t = self.uf(name, self.S.sort, *args)
            self.assume(self.S.len(t) == 32)
            return SStr(t)
        return SFloat(z3.IntVal(0), self.uf(name, z3.RealSort(), *args))

    def round(self, x):
        """Nearest integer, halves away from zero (Python 2), as an integer."""
        return self.call(bm.builtin(self, 'long'), [self.call(bm.builtin(self, 'round'), [x])])

    # ---- ghost state and events
    def gset(self, name, v):
        self.set_attr_raw(self.gobj, name, v)

    def gget(self, name, default=None):
        return self.gobj.attrs.get(name, default)

    def log(self, tag, *vals):
        if self.probe is not None:
            self.probe['tags'].add(tag)
        self.events.append((tag, vals))

    def logged(self, tag):
        if ('?', tag) in self.events:
            raise Unsupported('number of %s events in an unbounded loop' % tag)
        return [e[1] for e in self.events if e[0] == tag]

    def logged_known(self, tag):
        return [e[1] for e in self.events if e[0] == tag]

    def trace_tags(self):
        return [e[0] for e in self.events]

    def clear_log(self):
        self.events[:] = []

    def clock(self):
        return bm.ext_time(self, [], {})
