"""Statement and expression semantics (Python 2) over the symbolic domain."""
import z3
from values import *
from values import _sn
from engine import (Engine, Frame, BreakX, ContinueX, ReturnX, Stale, MISSING, const, node_locals, Budget)
import builtins_model as bm

MAX_DEPTH = 60
PY_EXC = {n: getattr(__import__('builtins'), n) for n in (
    'Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError', 'AssertionError',
    'ZeroDivisionError', 'OverflowError', 'NameError', 'UnboundLocalError', 'RuntimeError', 'IOError', 'OSError',
    'ImportError', 'NotImplementedError', 'ArithmeticError', 'LookupError', 'BaseException', 'SystemExit',
    'KeyboardInterrupt', 'StopIteration', 'EnvironmentError', 'UnicodeDecodeError', 'UnicodeEncodeError',
    'UnicodeError', 'GeneratorExit')}
PY_EXC['StandardError'] = Exception


PY2_NAMES = frozenset('''abs all any apply basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce
compile complex copyright credits delattr dict dir divmod enumerate eval execfile exit file filter float format frozenset getattr
globals hasattr hash help hex id input int intern isinstance issubclass iter len license list locals long map max memoryview min
next object oct open ord pow print property quit range raw_input reduce reload repr reversed round set setattr slice sorted
staticmethod str sum super tuple type unichr unicode vars xrange zip __import__ __name__ __file__ __doc__ __debug__ Ellipsis
NotImplemented Exception BaseException ArithmeticError LookupError EnvironmentError StandardError Warning UserWarning
DeprecationWarning ImportError IndexError KeyError MemoryError AttributeError AssertionError EOFError FloatingPointError
KeyboardInterrupt ReferenceError StopIteration SyntaxError SystemError SystemExit TypeError UnicodeError UnicodeDecodeError
UnicodeEncodeError ValueError GeneratorExit IndentationError NotImplementedError BufferError'''.split())


class Interp(Engine):

    # ------------------------------------------------------------ modules
    def module(self, name):
        """privcount.<name> as ModV, executing its top level once per path."""
        m = self.modules.get(name)
        if m is not None:
            return m
        tree = self.p.asts.get(name)
        if tree is None:
            raise Unsupported('module privcount.%s not extracted' % name)
        if tree['_'] == 'SyntaxError':
            raise Unsupported('syntax error in %s: %s' % (name, tree['msg']))
        m = ModV(name)
        self.modules[name] = m
        m.attrs['__name__'] = 'privcount.' + name
        m.attrs['__file__'] = '/repo/privcount/%s.py' % name
        fr = Frame(None, m)
        fr.vars = m.attrs
        fr.locals = None
        saved = self.logging_writes
        self.logging_writes = None
        jr, self.jr = self.jr, False
        sj = self.where, self.line
        try:
            self.block(tree['body'], fr)
        finally:
            self.logging_writes = saved
            self.jr = jr
            self.where, self.line = sj
        m.ready = True
        return m

    def get(self, dotted):
        """'counter.SecureCounters.increment' -> value"""
        parts = dotted.split('.')
        v = self.module(parts[0])
        for p in parts[1:]:
            v = self.getattr_raw(v, p)
        return v

    def getattr_raw(self, v, name):
        if isinstance(v, ModV):
            if name not in v.attrs:
                raise Unsupported('no %s in module %s' % (name, v.name))
            return v.attrs[name]
        if isinstance(v, ClassV):
            c, a = v.lookup(name)
            if c is None:
                raise Unsupported('no %s in class %s' % (name, v.name))
            return a
        return self.getattr(v, name)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        k = st['_']
        self.line = st.get('line', self.line)
        self.steps += 1
        if self.steps > self.opts.get('max_steps', 400000):
            raise Unsupported('step budget')
        if k == 'Expr':
            if st['value']['_'] != 'Str':
                self.ev(st['value'], fr)
        elif k == 'Assign':
            v = self.ev(st['value'], fr)
            for t in st['targets']:
                self.assign(t, v, fr)
        elif k == 'AugAssign':
            self.augassign(st, fr)
        elif k == 'If':
            if self.truth(self.ev_cond(st['test'], fr)):
                self.block(st['body'], fr)
            else:
                self.block(st['orelse'], fr)
        elif k == 'Return':
            raise ReturnX(self.ev(st['value'], fr) if st['value'] else None)
        elif k == 'For':
            self.for_(st, fr)
        elif k == 'While':
            self.while_(st, fr)
        elif k == 'Pass':
            pass
        elif k == 'Break':
            raise BreakX()
        elif k == 'Continue':
            raise ContinueX()
        elif k == 'Assert':
            if not self.truth(self.ev_cond(st['test'], fr)):
                self.raise_(AssertionError, 'assert')
        elif k == 'Raise':
            self.raise_stmt(st, fr)
        elif k == 'TryExcept':
            self.try_(st, fr)
        elif k == 'TryFinally':
            try:
                self.block(st['body'], fr)
            except (PathEnd, Unsupported, Budget):
                raise
            except BaseException:
                self.block(st['finalbody'], fr)
                raise
            self.block(st['finalbody'], fr)
        elif k == 'FunctionDef':
            f = self.mkfunc(st, fr)
            for d in reversed(st['decorator_list']):
                dv = self.ev(d, fr)
                f = self.call(dv, [f])
            self.store_name(const(st['name']), f, fr)
        elif k == 'ClassDef':
            self.classdef(st, fr)
        elif k in ('Import', 'ImportFrom'):
            self.import_(st, fr)
        elif k == 'Global':
            pass
        elif k == 'Delete':
            for t in st['targets']:
                self.delete(t, fr)
        elif k == 'Print':
            for v in st['values']:
                self.ev(v, fr)
        elif k == 'With':
            ctx = self.ev(st['context_expr'], fr)
            v = self.with_enter(ctx)
            if st['optional_vars']:
                self.assign(st['optional_vars'], v, fr)
            self.block(st['body'], fr)
        else:
            raise Unsupported('statement ' + k)

    def with_enter(self, ctx):
        if isinstance(ctx, Obj) and 'enter' in (ctx.attrs or {}):
            return self.call(ctx.attrs['enter'], [])
        if isinstance(ctx, Opaque):
            return Opaque('with')
        raise Unsupported('with %r' % (ctx,))

    def raise_stmt(self, st, fr):
        if st['type'] is None:
            if not self.exc_stack:
                self.raise_(TypeError, 'no active exception')
            raise self.exc_stack[-1]
        t = self.ev(st['type'], fr)
        inst = self.ev(st['inst'], fr) if st['inst'] else None
        if isinstance(t, type) and issubclass(t, BaseException):
            e = PyExc(t, (inst,) if inst is not None else ())
        elif isinstance(t, ExcInst):
            e = PyExc(t.cls, t.args)
        elif isinstance(t, ClassV):
            e = PyExc(t, (inst,))
        elif isinstance(t, Obj):
            e = PyExc(t.cls, (), t)
        else:
            raise Unsupported('raise %r' % (t,))
        e.where = (self.where, self.line)
        raise e

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, type) and isinstance(e.cls, ExtV):
            return t in (Exception, BaseException)
        if isinstance(t, type):
            return isinstance(e.cls, type) and issubclass(e.cls, t) or \
                (isinstance(e.cls, ClassV) and any(isinstance(b, type) and issubclass(b, t)
                                                   for c in e.cls.mro() for b in c.bases))
        if isinstance(t, ClassV):
            return isinstance(e.cls, ClassV) and t in e.cls.mro()
        if isinstance(t, ExtV):
            return isinstance(e.cls, ExtV) and e.cls.name == t.name
        raise Unsupported('except %r' % (t,))

    def try_(self, st, fr):
        depth, where = len(self.frames), self.where
        try:
            self.block(st['body'], fr)
        except PyExc as e:
            del self.frames[depth:]
            self.where = where
            for h in st['handlers']:
                if h['type'] is None or self.exc_matches(e, self.ev(h['type'], fr)):
                    if h['name']:
                        self.assign(h['name'], ExcInst(e.cls, e.args_), fr)
                    self.exc_stack.append(e)
                    try:
                        self.block(h['body'], fr)
                    finally:
                        self.exc_stack.pop()
                    return
            raise
        self.block(st['orelse'] or [], fr)

    def mkfunc(self, node, fr, name=None):
        f = Func(node, fr.module, fr if not (fr.func is None and not fr.is_class) else None,
                 name or const(node['name']))
        if fr.is_class:
            f.closure = fr.closure
        f.defaults = [self.ev(d, fr) for d in node['args']['defaults']]
        return f

    def classdef(self, st, fr):
        bases = [self.ev(b, fr) for b in st['bases']]
        cf = Frame(fr.func, fr.module, fr if fr.func is not None else None)
        cf.is_class = True
        c = ClassV(const(st['name']), bases, cf.vars, fr.module)
        self.block(st['body'], cf)
        for v in cf.vars.values():
            f = v
            if isinstance(v, Builtin):
                continue
            if isinstance(f, Func):
                f.cls = c
        for d in st['decorator_list']:
            raise Unsupported('class decorator')
        self.store_name(c.name, c, fr)

    def import_(self, st, fr):
        if st['_'] == 'Import':
            for a in st['names']:
                n = const(a['name'])
                asn = const(a['asname'])
                v = self.import_module(n)
                if asn:
                    self.store_name(asn, v, fr)
                else:
                    top = n.split('.')[0]
                    self.store_name(top, self.import_module(top) if top != n else v, fr)
            return
        mod = const(st['module'])
        for a in st['names']:
            n = const(a['name'])
            asn = const(a['asname']) or n
            if mod and mod.startswith('privcount.'):
                m = self.module(mod.split('.')[1])
                if n == '*':
                    raise Unsupported('import *')
                if n not in m.attrs:
                    if not m.ready:
                        raise Unsupported('circular import of %s' % n)
                    self.raise_(ImportError, n)
                self.store_name(asn, m.attrs[n], fr)
            elif mod == 'privcount':
                self.store_name(asn, self.module(n), fr)
            else:
                self.store_name(asn, bm.external(self, '%s.%s' % (mod, n)), fr)

    def import_module(self, n):
        if n.startswith('privcount.'):
            return self.module(n.split('.')[1])
        return bm.external(self, n)

    # ------------------------------------------------------------ names
    def store_name(self, name, v, fr):
        if fr.func is not None and not fr.is_class and isinstance(fr.func, Func) and \
                name in fr.func.node.get('$globals', ()):
            old = fr.module.attrs.get(name, MISSING)

            def undo():
                if old is MISSING:
                    fr.module.attrs.pop(name, None)
                else:
                    fr.module.attrs[name] = old
            self.wrote(fr.module, ('attr', name), undo, v)
            fr.module.attrs[name] = v
            return
        self.set_local(fr, name, v)

    def load_name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.vars and not (f.is_class and not first):
                v = f.vars[name]
                if isinstance(v, Lazy):
                    v = self.force(v)
                    f.vars[name] = v
                return v
            if first and f.func is not None and isinstance(f.func, Func) and not f.is_class:
                loc = node_locals(f.func.node)
                if name in loc and name not in f.func.node.get('$globals', ()):
                    self.raise_(UnboundLocalError, name)
            first = False
            f = f.closure
        if name in fr.module.attrs:
            v = fr.module.attrs[name]
            if isinstance(v, Lazy):
                v = fr.module.attrs[name] = self.force(v)
            return v
        if name in PY_EXC:
            return PY_EXC[name]
        b = bm.builtin(self, name)
        if b is not None:
            return b
        if name in PY2_NAMES:
            raise Unsupported('builtin %s' % name)
        self.raise_(NameError, name)

    def assign(self, t, v, fr):
        k = t['_']
        if k == 'Name':
            self.store_name(const(t['id']), v, fr)
        elif k == 'Attribute':
            o = self.ev(t['value'], fr)
            self.setattr(o, const(t['attr']), v)
        elif k == 'Subscript':
            o = self.ev(t['value'], fr)
            if t['slice']['_'] != 'Index':
                raise Unsupported('slice assignment')
            i = self.ev(t['slice']['value'], fr)
            self.setitem(o, i, v)
        elif k in ('Tuple', 'List'):
            vals = self.unpack(v, len(t['elts']))
            for tt, vv in zip(t['elts'], vals):
                self.assign(tt, vv, fr)
        else:
            raise Unsupported('assign ' + k)

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, tuple):
            xs = list(v)
        elif isinstance(v, PList) and not v.sym:
            xs = list(v.items)
        elif isinstance(v, PList):
            if self.truth(self.compare('NotEq', v.length, n)):
                self.raise_(ValueError, 'unpack')
            return [self.list_get(v, i) for i in range(n)]
        elif isinstance(v, Opaque):
            return [Opaque('%s[%d]' % (v.tag, i)) for i in range(n)]
        elif isinstance(v, str):
            xs = list(v)
        elif v is None or isinstance(v, (int, SInt, float, SFloat, SBool, Obj)):
            self.raise_(TypeError, 'object is not iterable')
        else:
            raise Unsupported('unpack %r' % (v,))
        if len(xs) != n:
            self.raise_(ValueError, 'unpack')
        return xs

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassV):
                _, f = o.cls.lookup('__setattr__')
                if f is not None:
                    raise Unsupported('__setattr__')
            self.set_attr_raw(o, name, v)
        elif isinstance(o, (ClassV, ModV, Func)):
            self.set_attr_raw(o, name, v)
        elif o is None or isinstance(o, (int, str, float, SInt, SStr, PDict, PList, tuple)):
            self.raise_(AttributeError, name)
        elif isinstance(o, (Opaque, ExtV)):
            self.taint_note('attribute set on %r' % (o,))
        else:
            raise Unsupported('setattr %r.%s' % (o, name))

    def setitem(self, o, i, v):
        o, i = self.force(o), self.force(i)
        if isinstance(o, PDict):
            self.dict_set(o, i, v)
        elif isinstance(o, PList):
            self.list_set(o, i, v)
        elif isinstance(o, Opaque):
            self.taint_note('item set on opaque')
        elif isinstance(o, Obj) and isinstance(o.cls, ClassV) and o.cls.lookup('__setitem__')[1]:
            self.call(Bound(o.cls.lookup('__setitem__')[1], o), [i, v])
        else:
            self.raise_(TypeError, 'object does not support item assignment')

    def getitem(self, o, i):
        o, i = self.force(o), self.force(i)
        if isinstance(o, PDict):
            return self.dict_get(o, i)
        if isinstance(o, PList):
            return self.list_get(o, i)
        if isinstance(o, tuple):
            j = self.norm_index(i, len(o))
            if isinstance(j, int):
                return self.force(o[j])
            for x in range(len(o)):
                if x == len(o) - 1 or self.decide(j.t == x):
                    return self.force(o[x])
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                self.raise_(IndexError, 'string index out of range')
        if isinstance(o, (str, SStr)):
            j = self.norm_index(i, self.len_(o))
            return SStr(self.S.sub(self.term(o), self.it(j), z3.IntVal(1)))
        if isinstance(o, Opaque):
            return Opaque('%s[]' % o.tag)
        if isinstance(o, Obj) and isinstance(o.cls, ClassV) and o.cls.lookup('__getitem__')[1]:
            return self.call(Bound(o.cls.lookup('__getitem__')[1], o), [i])
        if isinstance(o, ExtV):
            raise Unsupported('getitem %r' % (o,))
        self.raise_(TypeError, 'object is not subscriptable')

    def delete(self, t, fr):
        k = t['_']
        if k == 'Name':
            n = const(t['id'])
            if n not in fr.vars:
                self.raise_(NameError, n)
            old = fr.vars[n]

            def undo():
                fr.vars[n] = old
            self.wrote(fr, ('local', n), undo)
            del fr.vars[n]
        elif k == 'Subscript':
            o = self.ev(t['value'], fr)
            if t['slice']['_'] == 'Slice':
                lo = self.ev(t['slice']['lower'], fr) if t['slice']['lower'] else 0
                if isinstance(o, PList) and not o.sym and isinstance(lo, int) and t['slice']['upper'] is None:
                    self.wrote(o, ('items',), self.list_snapshot(o))
                    del o.items[lo:]
                    return
                raise Unsupported('del slice')
            i = self.ev(t['slice']['value'], fr)
            if isinstance(o, PDict):
                if self.dict_del(o, i) is None:
                    self.raise_(KeyError, i)
            elif isinstance(o, PList) and not o.sym and isinstance(i, int):
                self.norm_index(i, len(o.items))
                self.wrote(o, ('items',), self.list_snapshot(o))
                del o.items[i]
            else:
                raise Unsupported('del item')
        elif k == 'Attribute':
            o = self.ev(t['value'], fr)
            n = const(t['attr'])
            if isinstance(o, Obj) and n in o.attrs:
                old = o.attrs[n]

                def undo2():
                    o.attrs[n] = old
                self.wrote(o, ('attr', n), undo2)
                del o.attrs[n]
            else:
                self.raise_(AttributeError, n)
        elif k in ('Tuple', 'List'):
            for e in t['elts']:
                self.delete(e, fr)
        else:
            raise Unsupported('del ' + k)

    def augassign(self, st, fr):
        t = st['target']
        op = st['op']['_']
        if t['_'] == 'Name':
            cur = self.load_name(const(t['id']), fr)
            setter = lambda v: self.store_name(const(t['id']), v, fr)
        elif t['_'] == 'Attribute':
            o = self.ev(t['value'], fr)
            cur = self.getattr(o, const(t['attr']))
            setter = lambda v: self.setattr(o, const(t['attr']), v)
        elif t['_'] == 'Subscript' and t['slice']['_'] == 'Index':
            o = self.ev(t['value'], fr)
            i = self.ev(t['slice']['value'], fr)
            cur = self.getitem(o, i)
            setter = lambda v: self.setitem(o, i, v)
        else:
            raise Unsupported('augassign')
        rhs = self.ev(st['value'], fr)
        if op == 'Add' and isinstance(cur, PList):
            bm.list_extend(self, cur, rhs)
            setter(cur)
            return
        setter(self.arith(op, cur, rhs))

    # ------------------------------------------------------------ expressions
    def ev_cond(self, n, fr):
        """Boolean context: pure comparisons combine without forking."""
        k = n['_']
        if k == 'UnaryOp' and n['op']['_'] == 'Not':
            v = self.ev_cond(n['operand'], fr)
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        return self.ev(n, fr)

    def ev(self, n, fr):
        k = n['_']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        if 'line' in n:
            self.line = n['line']
        return m(n, fr)

    def x_Num(self, n, fr):
        v = const(n['n'])
        if isinstance(v, dict):
            raise Unsupported('number literal')
        return v

    def x_Str(self, n, fr):
        return const(n['s'])

    def x_Name(self, n, fr):
        s = const(n['id'])
        if s == 'None':
            return None
        if s == 'True':
            return True
        if s == 'False':
            return False
        return self.load_name(s, fr)

    def x_Tuple(self, n, fr):
        return tuple([self.ev(e, fr) for e in n['elts']])

    def x_List(self, n, fr):
        return PList([self.ev(e, fr) for e in n['elts']])

    def x_Set(self, n, fr):
        s = PSet()
        for e in n['elts']:
            v = self.ev(e, fr)
            if self.dict_find(s.d, v) is None:
                s.d.entries.append([v, None])
        return s

    def x_Dict(self, n, fr):
        d = PDict()
        seen = {}
        for kk, vv in zip(n['keys'], n['values']):
            k = self.ev(kk, fr)
            v = self.ev(vv, fr)
            if isinstance(k, str):
                if k in seen:
                    d.entries[seen[k]][1] = v
                else:
                    seen[k] = len(d.entries)
                    d.entries.append([k, v])
            else:
                self.dict_set(d, k, v)
        return d

    def x_Attribute(self, n, fr):
        return self.getattr(self.ev(n['value'], fr), const(n['attr']))

    def x_Subscript(self, n, fr):
        o = self.ev(n['value'], fr)
        s = n['slice']
        if s['_'] == 'Index':
            return self.getitem(o, self.ev(s['value'], fr))
        if s['_'] == 'Slice':
            lo = self.ev(s['lower'], fr) if s['lower'] else None
            hi = self.ev(s['upper'], fr) if s['upper'] else None
            if s['step'] is not None and not (s['step']['_'] == 'Name' and const(s['step']['id']) == 'None'):
                raise Unsupported('slice step')
            return self.slice_(o, lo, hi)
        raise Unsupported('subscript')

    def slice_(self, o, lo, hi):
        o = self.force(o)
        if isinstance(o, Opaque):
            return Opaque('%s[:]' % o.tag)
        if isinstance(o, (str, tuple)) or (isinstance(o, PList) and not o.sym):
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                if isinstance(o, PList):
                    return PList(o.items[lo:hi])
                return o[lo:hi]
        n = self.it(self.len_(o))

        def clamp(v, dflt):
            if v is None:
                return dflt
            t = self.it(v)
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
            return z3.simplify(t)
        a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
        ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        if isinstance(o, (str, SStr)):
            return SStr(self.S.sub(self.term(o), a, ln))
        if isinstance(o, PList):
            src = self.list_copy(o) if o.sym else PList(o.items)
            return PList(length=SInt(ln), factory=lambda E, j: E.list_get(src, SInt(z3.simplify(E.it(j) + a))),
                         name='slice')
        raise Unsupported('slice of %r' % (o,))

    def x_BinOp(self, n, fr):
        return self.arith(n['op']['_'], self.ev(n['left'], fr), self.ev(n['right'], fr))

    def x_UnaryOp(self, n, fr):
        op = n['op']['_']
        v = self.ev(n['operand'], fr)
        if op == 'Not':
            v = self.force(v)
            return self.not_(v)
        if op == 'USub':
            return self.neg(v)
        if op == 'UAdd':
            return v
        raise Unsupported('unary ' + op)

    def x_BoolOp(self, n, fr):
        isand = n['op']['_'] == 'And'
        v = None
        for i, e in enumerate(n['values']):
            v = self.force(self.ev(e, fr))
            if i == len(n['values']) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                # short circuit: the value is decided on this path
                if isinstance(v, SBool):
                    return t
                return v
        return v

    def x_Compare(self, n, fr):
        left = self.ev(n['left'], fr)
        acc = True
        last = len(n['ops']) - 1
        for i, (op, r) in enumerate(zip(n['ops'], n['comparators'])):
            right = self.ev(r, fr)
            c = self.compare(op['_'], left, right)
            if i == last and acc is True:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def x_IfExp(self, n, fr):
        if self.truth(self.ev_cond(n['test'], fr)):
            return self.ev(n['body'], fr)
        return self.ev(n['orelse'], fr)

    def x_Lambda(self, n, fr):
        return self.mkfunc(n, fr, '<lambda>')

    def x_Repr(self, n, fr):
        return Opaque('repr')

    def x_ListComp(self, n, fr):
        return self.comp(n, fr, fr)

    def x_GeneratorExp(self, n, fr):
        return self.comp(n, fr, self.sub_frame(fr))

    def x_SetComp(self, n, fr):
        l = self.comp(n, fr, self.sub_frame(fr))
        return bm.make_set(self, l, False)

    def sub_frame(self, fr):
        f = Frame(None, fr.module, fr)
        return f

    def x_DictComp(self, n, fr):
        f = self.sub_frame(fr)
        n2 = dict(n)
        pairs = self.comp_gen(n['generators'],
                              lambda ff: (self.ev(n['key'], ff), self.ev(n['value'], ff)), f)
        d = PDict()
        if pairs.sym:
            raise Unsupported('symbolic dict comprehension')
        for k, v in pairs.items:
            self.dict_set(d, k, v)
        return d

    def comp(self, n, fr, f):
        return self.comp_gen(n['generators'], lambda ff: self.ev(n['elt'], ff), f)

    def comp_gen(self, gens, elt, f):
        g = gens[0]
        src = self.force(self.ev(g['iter'], f))
        if isinstance(src, PList) and src.sym and len(gens) == 1 and not g['ifs']:
            return bm.sym_map(self, g, src, elt, f)
        it = self.iterate(src)
        if not isinstance(it, SymIter):
            out = []
            for x in it:
                self.assign(g['target'], x, f)
                ok = True
                for c in g['ifs']:
                    if not self.truth(self.ev_cond(c, f)):
                        ok = False
                        break
                if ok:
                    if len(gens) > 1:
                        sub = self.comp_gen(gens[1:], elt, f)
                        if sub.sym:
                            raise Unsupported('nested symbolic comprehension')
                        out.extend(sub.items)
                    else:
                        out.append(elt(f))
            return PList(out)
        if len(gens) > 1:
            raise Unsupported('nested symbolic comprehension')
        return bm.sym_comp(self, g, it, elt, f)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """Concrete python list of elements, or SymIter."""
        v = self.force(v)
        if isinstance(v, SymIter):
            return v
        if isinstance(v, tuple):
            return [self.force(x) for x in v]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PList):
            if not v.sym:
                return [self.force(x) for x in v.items]
            return bm.iter_symlist(self, v)
        if isinstance(v, PSet):
            v = v.d
        if isinstance(v, PDict):
            if v.rest is None:
                return [e[0] for e in v.entries]
            it = SymIter([e[0] for e in v.entries], lambda: self.other_key(v), v.name, v.facts)
            it.notother = it.known + list(v.absent)
            it.src = it.over = v
            return it
        if isinstance(v, SRange):
            if isinstance(v.lo, int) and isinstance(v.hi, int):
                return list(range(v.lo, v.hi, v.step))
            it = bm.iter_symrange(self, v)
            it.over = v
            return it
        if isinstance(v, Opaque):
            self.taint_note('iteration over opaque')
            return SymIter([], lambda: Opaque('elem of ' + v.tag), v.tag)
        if isinstance(v, SStr):
            raise Unsupported('iteration over symbolic string')
        if isinstance(v, ExtV):
            raise Unsupported('iteration over %r' % v)
        self.raise_(TypeError, 'object is not iterable')

    def made(self, factory, k):
        """A new element of a container; writes that only build it are not effects."""
        n = _sn[0]
        v = self.force(factory(self, k))
        if self.logging_writes:
            for key, ent in list(self.logging_writes.items()):
                if isinstance(ent[0], Heap) and ent[0].sn > n:
                    del self.logging_writes[key]
        return v

    def other_key(self, d):
        k = self.fresh_other_key(d)
        self.loop_var = k
        e = [k, None]
        e[1] = self.own(self.made(d.rest.factory, k), d)
        d.entries.append(e)
        if self.jr:
            def undo():
                for i, x in enumerate(d.entries):
                    if x is e:
                        del d.entries[i]
                        break
            self.journal.append(undo)
        self.run_facts(d.facts, k)
        # this element is one of the remainder
        if d.rest_len is not None:
            self.assume(d.rest_len.t >= 1)
            old = d.rest_len
            d.rest_len = SInt(d.rest_len.t - 1)
            if self.jr:
                self.journal.append(lambda: setattr(d, 'rest_len', old))
        return k

    def for_(self, st, fr):
        self.for_over(st, fr, self.force(self.ev(st['iter'], fr)))

    def for_over(self, st, fr, val):
        parts = getattr(val, 'parts', None)
        if parts is not None and not st['orelse'] and not has_break(st['body']):
            for p in parts:
                self.for_over(st, fr, p)
            return
        it = self.iterate(val)
        if not isinstance(it, SymIter):
            for x in it:
                self.assign(st['target'], x, fr)
                try:
                    self.block(st['body'], fr)
                except BreakX:
                    return
                except ContinueX:
                    pass
            self.block(st['orelse'] or [], fr)
            return

        def body(elem, f=fr):
            self.assign(st['target'], elem, f)
            try:
                self.block(st['body'], f)
            except ContinueX:
                pass
            return 'normal'
        try:
            self.sym_loop(st, fr, it, body)
        except BreakX:
            return
        self.block(st['orelse'] or [], fr)

    def add_fact(self, it, fr, W, body):
        """The loop completed and has no effect outside its own variables: its
        body completes normally on every element."""
        if it.facts is None or any(slot[0] != 'local' or obj is not fr for obj, slot, _ in W.values()):
            return
        snap = dict(fr.vars)
        for obj, slot, _ in W.values():
            snap.pop(slot[1], None)
        clock = self.wclock

        def fact(elem):
            f = Frame(fr.func, fr.module, fr.closure)
            f.is_class = fr.is_class
            f.vars = dict(snap)
            try:
                body(elem, f)
            except PyExc as e:
                if e.cls in (UnboundLocalError, NameError):
                    raise Stale()
                raise
        ent = (clock, fact)
        it.facts.append(ent)
        self.journal.append(lambda: self._rm_is(it.facts, ent))

    def sym_loop(self, st, fr, it, body):
        """Cut rule for a loop over a collection of unknown size."""
        self.loop_counter += 1
        outer_var, outer_known, outer_src = self.loop_var, self.loop_known, self.loop_src
        outer_over, self.loop_over = self.loop_over, it.over
        self.loop_known = list(it.notother)
        self.loop_src = self.dict_copy(it.src) if it.src is not None and it.src.rest is not None else None
        try:
            self.sym_loop2(st, fr, it, body)
        finally:
            self.loop_var, self.loop_known, self.loop_src, self.loop_over = outer_var, outer_known, outer_src, outer_over

    def sym_loop2(self, st, fr, it, body):

        def once():
            try:
                body(it.other())
                return 'normal'
            except BreakX:
                return 'break'
            except ReturnX:
                return 'return'
            except PyExc:
                return 'raise'
        probe, self.probe = self.probe, {'proofs': 0, 'tags': set()}
        W, kinds = self.discover(fr, once)
        pr, self.probe = self.probe, probe
        if probe is not None:
            probe['proofs'] += pr['proofs']
            probe['tags'] |= pr['tags']
        visit = [k for k in kinds if k != 'normal'] or pr['proofs'] or pr['tags']
        good = self.houdini(fr, W, [lambda: body(it.other())] +
                            [(lambda x=x: body(x)) for x in it.known])
        for j in range(len(it.known) + 1):
            # other elements, in unknown number, before/between/after the known ones
            self.havoc(fr, W)
            for h in good:
                self.assume(self.boolt(h(self, fr)))
            for t in sorted(pr['tags']):
                self.events.append(('?', t))
            if visit and self.choose(2) == 1:
                body(it.other())        # leaves the loop abruptly (or only its proofs count)
                raise PathEnd()
            if j < len(it.known):
                body(it.known[j])
        self.finish_others(W)
        if [k for k in kinds if k != 'normal']:
            self.add_fact(it, fr, W, body)

    def hint(self, h, fr):
        try:
            f = h(self, fr)
        except (KeyError, Unsupported, AttributeError, PyExc, IndexError, TypeError):
            return None
        return f

    def houdini(self, fr, W, steps):
        """Largest subset of the candidate invariants that holds on entry and is preserved."""
        q = fr.func.qual() if fr.func is not None and isinstance(fr.func, Func) else fr.module.name
        hints = self.loop_hints.get(q, []) + self.loop_hints.get('*', [])
        cands = [h for h in hints if self.hint(h, fr) is not None]
        good = [h for h in cands if self._entails(self.hint(h, fr))]
        while good:
            bad = set()

            def step(run):
                self.havoc(fr, W)
                for h in good:
                    f = self.hint(h, fr)
                    if f is None:
                        raise Unsupported('invariant not evaluable after havoc')
                    self.assume(self.boolt(f))
                try:
                    run()
                except (BreakX, ReturnX, PyExc):
                    return 'exit'
                except ContinueX:
                    pass
                for i, h in enumerate(good):
                    if i in bad:
                        continue
                    f = self.hint(h, fr)
                    if f is None or not self._entails(f):
                        bad.add(i)
                return 'ok'
            for r in steps:
                self.explore_inner(lambda: step(r))
            if not bad:
                break
            good = [h for i, h in enumerate(good) if i not in bad]
        if len(good) < len(hints):
            self.taint_note('loop invariant candidate dropped in %s' % q)
        st_inv = self.stats.setdefault('invariants', {})
        st_inv[q] = max(st_inv.get(q, 0), len(good))
        return good

    def discover(self, fr, once):
        """Locations written by one arbitrary iteration, to a fixpoint."""
        W = {}
        for rnd in range(8):
            def run():
                self.havoc(fr, W)
                self.logging_writes = {}
                base = _sn[0]
                out = once()
                ws = self.logging_writes
                self.logging_writes = None
                kept = {}
                lk = self.keyid(self.loop_var) if isinstance(self.loop_var, Sym) else None
                for key, ent in ws.items():
                    obj = ent[0]
                    if lk is not None and ent[1] == ('key', lk) and obj.sn <= base and isinstance(obj, PDict):
                        key = (key[0], ('loopkey',))
                        ent = [obj, ('loopkey',), [self.shape_of(v) for v in ent[2]]]
                    if obj.sn <= base if isinstance(obj, Heap) else True:
                        kept[key] = ent
                    elif obj.owner is not None and out == 'normal':
                        self.owner_write(obj, base, kept)
                self.logging_writes = kept
                return out
            res = self.explore_inner(run)
            kinds = set(o for o, _ in res)
            new = {}
            for o, ws in res:
                if o in ('return', 'raise', 'break'):
                    continue        # the loop is left: nothing iterates after it
                for key, (obj, slot, vals) in ws.items():
                    ent = new.setdefault(key, [obj, slot, []])
                    ent[2].extend(vals)
            normal = [ws for o, ws in res if o == 'normal']
            for key, (obj, slot, vals) in new.items():
                # elements that an iteration leaves alone, or that are not iterated, keep their shape
                if slot == ('others',) and (any(key not in ws for ws in normal) or not self.covers(obj) or
                                            any(isinstance(v, tuple) for v in vals)):
                    vals.append(self.shape_now(obj))
            merged = dict(W)
            changed = False
            for key, (obj, slot, vals) in new.items():
                summ = self.summarise(vals, slot)
                if key not in merged:
                    merged[key] = [obj, slot, summ]
                    changed = True
                else:
                    s2 = self.join(merged[key][2], summ)
                    if s2 != merged[key][2]:
                        merged[key] = [obj, slot, s2]
                        changed = True
            W = merged
            if not changed:
                return W, kinds
        raise Unsupported('loop effects do not stabilise')

    def pred(self, name, elem):
        """Does elem provably have the declared shape?"""
        try:
            f = self.shapes[name][0](self, elem)
            return self._entails(f)
        except (PyExc, Unsupported, AttributeError, TypeError, KeyError, IndexError):
            return False

    def all_shaped(self, c, name):
        """Every element of the symbolic list / dict values has the shape."""
        if isinstance(c, PDict):
            if c.rest is not None and name not in self.implied(c.rest.shape):
                return False
            return all(self.pred(name, self.force(e[1])) for e in c.entries)
        if isinstance(c, PList):
            if not c.sym:
                return all(self.pred(name, self.force(x)) for x in c.items)
            return name in self.implied(c.shape) and all(self.pred(name, self.force(e[1])) for e in c.known)
        return False

    def owner_write(self, obj, base, kept):
        """A materialised 'other' element was modified in an iteration: its
        container's other elements change shape, or become unknown."""
        while obj.owner is not None:
            c = obj.owner
            if c.sn <= base:
                ents = c.known if isinstance(c, PList) else c.entries
                mine = [e for e in ents if e[1] is obj]
                if not mine:
                    return
                k = mine[0][0]
                own = isinstance(k, Sym) and isinstance(self.loop_var, Sym) and k.t.eq(self.loop_var.t)
                shape = frozenset(n for n in self.shapes if self.pred(n, obj))
                if not own:          # any other element may be changed by any iteration
                    shape = ('all', shape)
                key = (id(c), ('others',))
                if key in kept:
                    kept[key][2].append(shape)
                else:
                    kept[key] = [c, ('others',), [shape]]
                return
            obj = c

    def shape_now(self, c):
        cur = c.shape if isinstance(c, PList) else (c.rest.shape if c.rest is not None else None)
        return self.implied(cur)

    def implied(self, name):
        """The declared shapes that everything of shape `name` has."""
        if name not in self.shapes:
            return frozenset()
        if name not in self.implied_shapes:
            self.implied_shapes[name] = frozenset([name])

            def run():
                x = self.force(self.shapes[name][1](self, None))
                return frozenset(n for n in self.shapes if self.pred(n, x))
            try:
                sets = [o for o, _ in self.explore_inner(run)]
            except (Unsupported, PyExc):
                sets = []
            self.implied_shapes[name] = frozenset([name]) | (frozenset.intersection(*sets) if sets else frozenset())
        return self.implied_shapes[name]

    def covers(self, c):
        """Does the current loop iterate over every element of c?"""
        o = self.loop_over
        if isinstance(o, SRange):
            return isinstance(c, PList) and o.step == 1 and \
                self._entails(self.and_(self.lt(o.lo, 0, False), self.lt(self.len_(c), o.hi, False)))
        return o is c

    def names_of(self, summ):
        """The first declared shape that all other elements have; MISSING if none."""
        for n in self.shapes:
            if summ[0] and all(n in x for x in summ[0]):
                return n
        return MISSING

    def shape_of(self, v):
        """Name of a declared shape that the value has; MISSING if none."""
        if v is MISSING:
            return '!deleted'
        for n in self.shapes:
            if self.pred(n, v):
                return n
        return MISSING

    def summarise(self, vals, slot=None):
        """('const', frozenset) or ('kind', k)."""
        if slot == ('others',):
            sets, flags = set(), set()
            for v in vals:
                if isinstance(v, tuple):
                    flags.add('all')
                    v = v[1]
                sets.add(v if isinstance(v, frozenset) else self.implied(v))
            return (frozenset(sets), frozenset(flags))
        if slot == ('loopkey',):
            return (frozenset(vals), frozenset())
        consts = set()
        kinds = set()
        for v in vals:
            if v is MISSING:
                kinds.add('any')
            elif v is None or isinstance(v, (bool, str)):
                consts.add((type(v).__name__, v))
            elif isinstance(v, int) or isinstance(v, (SInt,)):
                kinds.add('int')
            elif isinstance(v, SBool):
                kinds.add('bool')
            elif isinstance(v, SStr):
                kinds.add('str')
            elif isinstance(v, (float, SFloat)):
                kinds.add('float')
            else:
                kinds.add('any')
        return (frozenset(consts), frozenset(kinds))

    def join(self, a, b):
        return (a[0] | b[0], a[1] | b[1])

    def havoc_value(self, old, summ, tag):
        consts, kinds = summ
        if 'any' in kinds:
            return Opaque('havoc ' + tag)
        opts = []
        cv = [c[1] for c in sorted(consts, key=repr)]
        for c in cv:
            opts.append(('c', c))
        for k in sorted(kinds):
            opts.append(('k', k))
        # the old value survives when no iteration wrote
        if old is not MISSING:
            if isinstance(old, (int, SInt)) and not isinstance(old, bool) and 'int' in kinds:
                pass
            elif isinstance(old, (bool, SBool)) and 'bool' in kinds:
                pass
            elif isinstance(old, (float, SFloat)) and 'float' in kinds:
                pass
            elif isinstance(old, (str, SStr)) and 'str' in kinds:
                pass
            elif any(type(old) is type(c) and isinstance(old, (bool, str, type(None))) and old == c for c in cv):
                pass
            else:
                opts.insert(0, ('old', old))
        else:
            opts.insert(0, ('old', MISSING))
        if 'bool' in kinds:
            opts = [o for o in opts if not (o[0] == 'c' and isinstance(o[1], bool))]
        if 'str' in kinds:
            opts = [o for o in opts if not (o[0] == 'c' and isinstance(o[1], str))]
        i = self.choose(len(opts)) if len(opts) > 1 else 0
        k, v = opts[i]
        if k in ('c', 'old'):
            return v
        if v == 'int':
            return SInt(self.fresh('havoc_' + tag, z3.IntSort()))
        if v == 'bool':
            return SBool(self.fresh('havoc_' + tag, z3.BoolSort()))
        if v == 'str':
            return SStr(self.fresh('havoc_' + tag, self.S.sort))
        f = self.float('havoc_' + tag, inp=False)
        return f

    def havoc(self, fr, W):
        for key, (obj, slot, summ) in W.items():
            tag = str(slot[-1])[:20]
            if slot[0] == 'local':
                old = obj.vars.get(slot[1], MISSING)
                v = self.havoc_value(old, summ, tag)
                if v is MISSING:
                    continue
                self.set_local(obj, slot[1], v)
            elif slot[0] == 'attr':
                old = obj.attrs.get(slot[1], MISSING)
                v = self.havoc_value(old, summ, tag)
                if v is MISSING:
                    continue
                self.set_attr_raw(obj, slot[1], v)
            elif slot[0] == 'idx':
                if not isinstance(obj, PList):
                    raise Unsupported('havoc idx')
                if obj.sym:
                    # an entry created during discovery belongs to an arbitrary other element
                    kn = [e for e in obj.known if self.keyid(e[0]) == slot[1]]
                    if kn:
                        v = self.havoc_value(kn[0][1], summ, tag)
                        e = kn[0]
                        old = e[1]
                        self.wrote(obj, slot, lambda e=e, old=old: e.__setitem__(1, old), v)
                        e[1] = v
                    else:
                        self.havoc_others(obj, summ)
                elif isinstance(slot[1], int) and slot[1] < len(obj.items):
                    v = self.havoc_value(obj.items[slot[1]], summ, tag)
                    i, old = slot[1], obj.items[slot[1]]
                    self.wrote(obj, slot, lambda obj=obj, i=i, old=old: obj.items.__setitem__(i, old), v)
                    obj.items[i] = v
            elif slot[0] == 'items':
                undo = self.list_snapshot(obj)
                self.wrote(obj, slot, undo)
                n = SInt(self.fresh('havoc_len', z3.IntSort()))
                self.assume(n.t >= 0)
                obj.items, obj.length, obj.known = None, n, []
                obj.factory = lambda E, j: Opaque('element of a list built in a loop')
            elif slot[0] == 'others':
                self.mid_others(obj, slot, summ)
            elif slot[0] == 'key':
                self.havoc_dict(obj, slot, summ, tag)
            elif slot[0] == 'loopkey':
                self.havoc_loopkey(obj, slot, summ)
            else:
                raise Unsupported('havoc %r' % (slot,))

    def mid_others(self, obj, slot, summ):
        """At the loop head: the element of the current iteration is unprocessed, others are unknown."""
        if 'all' in summ[1]:
            # a callee may have changed any of them
            name = self.names_of(summ)
            self.set_others(obj, slot, name)
            return
        if isinstance(obj, PList):
            self.wrote(obj, slot, self.list_snapshot(obj), *self.cur_shape(slot))
            pre = obj.factory
            if getattr(pre, 'mid', False):
                return

            def fac(E, j):
                if isinstance(j, Sym) and isinstance(E.loop_var, Sym) and j.t.eq(E.loop_var.t):
                    return pre(E, j)
                return Opaque('other element written in a loop')
            fac.mid = True
            obj.factory = fac
            obj.shape = None
        else:
            self._dict_write_undo(obj, slot, *self.cur_shape(slot))
            r = obj.rest
            if getattr(r.factory, 'mid', False):
                return
            pre = r.factory

            def fac2(E, k):
                if isinstance(k, Sym) and isinstance(E.loop_var, Sym) and k.t.eq(E.loop_var.t):
                    return pre(E, k)
                return Opaque('other element written in a loop')
            fac2.mid = True
            obj.rest = Rest(r.name, fac2, r.mkkey, None, r.implied)
            obj.rest.oracle = r.oracle

    def cur_shape(self, slot):
        return ()

    def finish_others(self, W):
        """After the loop every other element has been processed."""
        for key, (obj, slot, summ) in W.items():
            if slot[0] != 'others':
                continue
            name = self.names_of(summ)
            if obj.facts:
                old = obj.facts
                obj.facts = []
                self.journal.append(lambda obj=obj, old=old: setattr(obj, 'facts', old))
            self.set_others(obj, slot, name)

    def set_others(self, obj, slot, name):
        ok = name is not MISSING
        if isinstance(obj, PList):
            self.wrote(obj, slot, self.list_snapshot(obj), ('all', name))
            obj.factory = self.shapes[name][1] if ok else (lambda E, j: Opaque('other element written in a loop'))
            obj.shape = name if ok else None
        else:
            self._dict_write_undo(obj, slot, ('all', name))
            r = obj.rest
            obj.rest = Rest(r.name, self.shapes[name][1] if ok else
                            (lambda E, k: Opaque('other element written in a loop')), r.mkkey,
                            name if ok else None, r.implied)
            obj.rest.oracle = r.oracle

    def havoc_others(self, lst, summ):
        undo = self.list_snapshot(lst)
        self.wrote(lst, ('others',), undo)
        lst.factory = lambda E, j: Opaque('other element written in a loop')
        lst.shape = None

    def havoc_loopkey(self, d, slot, summ):
        """Iterations wrote d[k] for their own element k: none of the elements that are iterated individually."""
        names = summ[0]
        self._dict_write_undo(d, slot, *(names if len(names) == 1 else ()))
        name = list(names)[0] if len(names) == 1 and list(names)[0] is not MISSING else MISSING
        old = d.rest
        known = list(self.loop_known)
        again = old is not None and self.loop_src is not None and old.loop_src is self.loop_src
        src = self.loop_src if old is None or again and old.pure else None
        written, base = self.loop_src, old.base if again else self.dict_copy(d)

        def implied(E, k):
            if written is not None and E.dict_find(written, k) is None:
                return E.dict_find(base, k) is not None
            for x in known:
                c = E.eq(x, k)
                if c is True or (c is not False and E.decide(c.t)):
                    return E.dict_find(base, k) is not None
            return None
        if name is not MISSING and name in self.shapes and (old is None or old.shape == name):
            fac = self.shapes[name][1]
        else:
            name, fac = None, lambda E, k: Opaque('value stored in a loop')
        d.rest = Rest((d.name or 'd') + '+loop', fac, old.mkkey if old is not None else self.loop_mkkey(), name, implied)
        d.rest.loop_src, d.rest.base, d.rest.pure = written, base, src is not None
        d.rest_len = None
        d.within = [src] if src is not None else []
        d.absent[:] = []

    def loop_mkkey(self):
        v = self.loop_var
        if isinstance(v, SStr):
            return lambda E: SStr(E.fresh('loopkey', E.S.sort))
        if isinstance(v, SInt):
            return lambda E: SInt(E.fresh('loopkey', z3.IntSort()))
        return lambda E: Opaque('key stored in a loop')

    def havoc_dict(self, d, slot, summ, tag):
        for e in d.entries:
            if self.keyid(e[0]) == slot[1]:
                v = self.havoc_value(e[1], summ, tag)
                self._dict_write_undo(d, slot, v)
                if v is MISSING:
                    continue
                e[1] = v
                # the key may also have been removed
                if 'any' in summ[1]:
                    pass
                return
        self._dict_write_undo(d, slot)
        if isinstance(slot[1], (int, str, float, bool, type(None))) and \
                not (isinstance(slot[1], str) and (slot[1].startswith('t:') or slot[1].startswith('id:'))):
            # a concrete key possibly added
            if self.choose(2) == 1:
                v = self.havoc_value(MISSING, summ, tag)
                d.entries.append([slot[1], None if v is MISSING else v])
            return
        old = d.rest
        d.rest = Rest((d.name or 'd') + '+loop', lambda E, k: Opaque('value stored in a loop'),
                      old.mkkey if old else (lambda E: Opaque('key stored in a loop')))
        d.rest_len = None
        d.absent[:] = []

    def while_(self, st, fr):
        # concrete unrolling while the condition is decided without symbols
        n = 0
        while True:
            mark = self.pos
            t = self.ev_cond(st['test'], fr)
            if isinstance(t, (SBool, SInt, SStr, Opaque, SFloat)) or self.pos != mark or \
                    (n == 0 and self.needs_cut(st, fr)):
                break
            if not self.truth(t):
                self.block(st['orelse'] or [], fr)
                return
            n += 1
            if n > 4096:
                raise Unsupported('long concrete loop')
            try:
                self.block(st['body'], fr)
            except BreakX:
                return
            except ContinueX:
                pass
        self.cut_while(st, fr)

    def needs_cut(self, st, fr):
        """'while True' style loops are cut unless the unit asks for unrolling."""
        return st['test']['_'] in ('Name', 'Num') and not self.opts.get('unroll_while')

    def cut_while(self, st, fr):
        self.loop_counter += 1

        def body():
            if not self.truth(self.ev_cond(st['test'], fr)):
                raise PathEnd()
            try:
                self.block(st['body'], fr)
            except ContinueX:
                pass

        def once():
            try:
                body()
                return 'normal'
            except BreakX:
                return 'break'
            except ReturnX:
                return 'return'
            except PyExc:
                return 'raise'
        probe, self.probe = self.probe, {'proofs': 0, 'tags': set()}
        W, kinds = self.discover(fr, once)
        pr, self.probe = self.probe, probe
        if probe is not None:
            probe['proofs'] += pr['proofs']
            probe['tags'] |= pr['tags']
        good = self.houdini(fr, W, [body])
        self.havoc(fr, W)
        for h in good:
            self.assume(self.boolt(h(self, fr)))
        for t in sorted(pr['tags']):
            self.events.append(('?', t))
        if not self.truth(self.ev_cond(st['test'], fr)):
            self.block(st['orelse'] or [], fr)
            return
        try:
            self.block(st['body'], fr)
        except BreakX:
            return
        except ContinueX:
            pass
        raise PathEnd()

    def _entails(self, f):
        if f is True:
            return True
        if f is False:
            return False
        f = self.boolt(f)
        cs = self.slice([f])
        if cs is not None:
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(*(cs + [z3.Not(f)]))
            return s.check() == z3.unsat
        self.solver.push()
        self.solver.set('timeout', 10000)
        self.solver.add(z3.Not(f))
        r = self.solver.check()
        self.solver.pop()
        self.solver.set('timeout', 4000)
        return r == z3.unsat

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Obj):
            if name in o.attrs:
                if self.fact_clock is not None:
                    self.stale(o, name)
                v = o.attrs[name]
                if isinstance(v, Lazy):
                    v = o.attrs[name] = self.force(v)
                return v
            if isinstance(o.cls, ClassV):
                c, a = o.cls.lookup(name)
                if c is not None:
                    return self.bind(a, o)
                if name == '__class__':
                    return o.cls
            if o.ext is not None:
                v = o.ext(self, o, name)
                if v is not MISSING:
                    return v
            if isinstance(o.cls, ClassV) and any(isinstance(b, ExtV) for c in o.cls.mro() for b in c.bases):
                raise Unsupported('attribute %s of external base of %r' % (name, o))
            self.raise_(AttributeError, name)
        if isinstance(o, ModV):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Lazy):
                    v = o.attrs[name] = self.force(v)
                return v
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, ClassV):
            c, a = o.lookup(name)
            if c is None:
                if name == '__name__':
                    return o.name
                for b in o.mro():
                    for x in b.bases:
                        if isinstance(x, ExtV):
                            return bm.external(self, x.name + '.' + name)
                self.raise_(AttributeError, name)
            if isinstance(a, Func) and a.kind == 'class':
                return Bound(a, o)
            if isinstance(a, Lazy):
                a = c.attrs[name] = self.force(a)
            return a
        if isinstance(o, ExtV):
            return bm.external(self, o.name + '.' + name)
        if isinstance(o, Opaque):
            return Opaque('%s.%s' % (o.tag, name))
        if isinstance(o, (str, SStr, PList, PDict, PSet, tuple)) or self.is_num(o):
            m = bm.method(self, o, name)
            if m is None:
                self.raise_(AttributeError, name)
            return m
        if isinstance(o, ExcInst):
            if name == 'message':
                return o.args[0] if o.args else ''
            if name == 'args':
                return tuple(o.args)
            return Opaque('exc.' + name)
        if isinstance(o, Func):
            if name in ('__name__', 'func_name'):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, (type,)):
            if name == '__name__':
                return o.__name__
            b = bm.method_of_type(self, o, name)
            if b is not None:
                return b
        if isinstance(o, Builtin):
            b = bm.builtin_attr(self, o, name)
            if b is not None:
                return b
        if isinstance(o, bm.Super):
            return o.get(self, name)
        if o is None:
            self.raise_(AttributeError, "'NoneType' object has no attribute '%s'" % name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def bind(self, a, o):
        if isinstance(a, Func):
            if a.kind == 'static':
                return a
            if a.kind == 'class':
                return Bound(a, o.cls)
            if a.kind == 'property':
                return self.call(Bound(a, o), [])
            return Bound(a, o)
        return a

    # ------------------------------------------------------------ calls
    def x_Call(self, n, fr):
        f = self.ev(n['func'], fr)
        args = [self.ev(a, fr) for a in n['args']]
        if n['starargs']:
            sv = self.ev(n['starargs'], fr)
            it = self.iterate(sv)
            if isinstance(it, SymIter):
                if isinstance(f, Builtin):
                    args.append(StarArg(sv))
                else:
                    raise Unsupported('symbolic *args')
            else:
                args.extend(it)
        kwargs = {}
        for k in n['keywords']:
            kwargs[const(k['arg'])] = self.ev(k['value'], fr)
        if n['kwargs']:
            d = self.ev(n['kwargs'], fr)
            if isinstance(d, PDict) and d.rest is None and all(isinstance(e[0], str) for e in d.entries):
                for e in d.entries:
                    kwargs[e[0]] = e[1]
            else:
                raise Unsupported('symbolic **kwargs')
        self.line = n.get('line', self.line)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcInst(f, tuple(args))
        if isinstance(f, ExtV):
            c = self.contracts.get(f.name)
            if c is not None:
                self.p.externals.add(f.name)
                return c(self, list(args), kwargs)
            c = self.summaries.get(f.name)
            if c is not None:
                self.p.externals.add(f.name)
                return c(self, list(args))
            raise Unsupported('call of external %s' % f.name)
        if isinstance(f, Opaque):
            self.taint_note('call of opaque %s' % f.tag)
            return Opaque('%s()' % f.tag)
        if isinstance(f, Obj) and isinstance(f.cls, ClassV) and f.cls.lookup('__call__')[1]:
            return self.call(Bound(f.cls.lookup('__call__')[1], f), args, kwargs)
        if f is None or isinstance(f, (int, str, float, tuple, PList, PDict)):
            self.raise_(TypeError, 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kwargs):
        k = self.contracts.get('%s.%s' % (c.module.name, c.name))
        if k is not None:
            return k(self, list(args), kwargs)
        o = Obj(c)
        _, init = c.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        elif args or kwargs:
            for b in c.mro():
                if any(isinstance(x, ExtV) for x in b.bases):
                    return o
            self.raise_(TypeError, 'constructor takes no arguments')
        return o

    def call_func(self, f, args, kwargs):
        q = f.qual()
        c = self.contracts.get(q)
        if c is not None:
            return c(self, args, kwargs)
        c = self.summaries.get(q)
        if c is not None:
            # verified callee: use its contract, not its body
            return c(self, self.bind_args(f, args, kwargs))
        return self.run_body(f, args, kwargs)

    def bind_args(self, f, args, kwargs):
        a = f.node['args']
        kwargs = dict(kwargs)
        out = list(args)
        nd, n = len(f.defaults), len(a['args'])
        for i in range(len(out), n):
            pn = const(a['args'][i]['id'])
            if pn in kwargs:
                out.append(kwargs.pop(pn))
            elif i >= n - nd:
                out.append(f.defaults[i - (n - nd)])
            else:
                raise Unsupported('missing argument %s of %s' % (pn, f.name))
        if kwargs or len(out) > n:
            raise Unsupported('arguments of %s' % f.name)
        return out

    def run_body(self, f, args, kwargs=None):
        kwargs = dict(kwargs or {})
        if self.depth > MAX_DEPTH:
            raise Unsupported('recursion depth')
        if not self.inner:
            self.p.called.add(f.qual())
        node = f.node
        a = node['args']
        names = []
        fr = Frame(f, f.module, f.closure)
        node_locals(node)
        params = a['args']
        n = len(params)
        if len(args) > n and not a['vararg']:
            self.raise_(TypeError, '%s() takes %d arguments (%d given)' % (f.name, n, len(args)))
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p['_'] != 'Name':
                raise Unsupported('tuple parameter')
            pn = const(p['id'])
            if i < len(args):
                if pn in kwargs:
                    self.raise_(TypeError, 'multiple values for argument')
                fr.vars[pn] = args[i]
            elif pn in kwargs:
                fr.vars[pn] = kwargs.pop(pn)
            elif i >= n - nd:
                fr.vars[pn] = f.defaults[i - (n - nd)]
            else:
                self.raise_(TypeError, '%s() missing argument %s' % (f.name, pn))
        if a['vararg']:
            fr.vars[const(a['vararg'])] = tuple(args[n:])
        if a['kwarg']:
            fr.vars[const(a['kwarg'])] = PDict([[k, v] for k, v in kwargs.items()])
        elif kwargs:
            self.raise_(TypeError, 'unexpected keyword argument %s' % list(kwargs)[0])
        ow, ol = self.where, self.line
        self.where = f.qual()
        self.depth += 1
        self.frames.append(fr)
        try:
            if isinstance(node['body'], dict):
                return self.ev(node['body'], fr)
            try:
                self.block(node['body'], fr)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            self.where, self.line = ow, ol


def has_break(body):
    for st in body:
        if st['_'] == 'Break':
            return True
        for k in ('body', 'orelse', 'finalbody', 'handlers'):
            if st['_'] not in ('For', 'While', 'FunctionDef', 'ClassDef') and isinstance(st.get(k), list) and has_break(st[k]):
                return True
        if st['_'] in ('For', 'While') and isinstance(st.get('orelse'), list) and has_break(st['orelse']):
            return True
    return False


class StarArg(object):
    def __init__(self, v):
        self.v = v
