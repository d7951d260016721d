# Runs under Jython 2.7 (the interpreter that runs privcount).
# Executes contract units on the real code with concrete inputs: the runtime
# side of the contract language of pv/api.py.
import sys, os, json, random, time as _time, traceback, copy as _copy, math

_clock = _time.time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness', 'stubs'))
sys.path.insert(0, os.path.join(ROOT, 'contracts'))

import stubs_install
stubs_install.install()
import logging
logging.disable(logging.CRITICAL)
import registry


RAISED = []      # the code under test may swallow these: remembered here


class Skip(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        RAISED.append(self)


class Refuted(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail
        RAISED.append(self)


class NoTarget(Exception):
    pass


class Out(object):
    def __init__(self, ok, value=None, exc=None, where=None, args=()):
        self.ok, self.value, self.exc, self.where, self.args = ok, value, exc, where, args


class Stub(object):
    pass


class Permissive(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        def f(*a, **k):
            return None
        self.__dict__[name] = f
        return f


STRS = ['', 'a', 'b', 'ab', '0', '1', '-1', 'A', ' ', '  ', 'a b', 'None', 'inf', 'nan', '1.5', 'True', 'x' * 40,
        '0' * 40, 'f' * 64, '\\', '"', '\n', '{}', '[]', ':', ',', '127.0.0.1', 'example.com']
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 1e-9, 1e9, 1e300, float('inf'), float('-inf'), float('nan'), 0.1, 3.25, 100.0]


class C(object):
    concrete = True

    def __init__(self, rng, given=None):
        self.rng, self.given = rng, given or {}
        self.ci, self.cf, self.cs = CONSTS
        self.names = {}
        self.record = {}
        self.ghost = {}
        self.g = {}
        self.events = []
        self.now = None
        self.covered = {}
        self.funcs = {}

    # ---- inputs
    def uname(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s!%d' % (name, k)

    def draw(self, name, mk, conv=None, ok=None):
        n = self.uname(name)
        v = None
        if n in self.given:
            v = self.given[n]
            if conv:
                v = conv(v)
            if ok is not None and not ok(v):
                raise Skip('replayed value of %s out of range' % n)
        else:
            v = mk()
        self.record[n] = enc(v)
        return v

    def int(self, name, lo=None, hi=None, gen=None, inp=True):
        r = self.rng

        def mk():
            c = r.random()
            if self.ci and r.random() < 0.1:
                v = r.choice(self.ci) + r.choice([0, 0, 1, -1])
            elif gen and c < 0.4:
                v = r.choice(gen)
            elif c < 0.7:
                v = r.choice([0, 1, -1, 2, 3, 5, 10] + ([lo, lo + 1] if lo is not None else []) +
                             ([hi, hi - 1] if hi is not None else []))
            else:
                a = lo if lo is not None else -(2 ** r.choice([3, 8, 31, 64, 80]))
                b = hi if hi is not None else max(a, 0) + 2 ** r.choice([3, 8, 31, 64, 80])
                v = r.randint(a, b)
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v
        return self.draw(name, mk, lambda v: int(v), lambda v: (lo is None or v >= lo) and (hi is None or v <= hi))

    def bool(self, name, inp=True):
        return self.draw(name, lambda: self.rng.random() < 0.5, bool)

    def str(self, name, gen=None, maxlen=None, inp=True):
        r = self.rng

        def mk():
            c = r.random()
            if self.cs and r.random() < 0.06:
                s = r.choice(self.cs)
                if r.random() < 0.3:
                    s = r.choice([s + 'a', 'a' + s, s[1:], s[:-1], s + s, s.upper(), s.lower()])
            elif gen and c < 0.7:
                s = r.choice(gen)
            elif c < 0.85:
                s = r.choice(STRS)
            else:
                s = ''.join(r.choice('ab01AZ ._-:/\\"{}\n,') for _ in range(r.choice([0, 1, 2, 3, 8, 20])))
            return s if maxlen is None else s[:maxlen]
        return self.draw(name, mk, lambda v: native_str(v))

    def bytes(self, name, n, inp=True):
        r = self.rng
        return self.draw(name, lambda: ''.join(chr(r.randint(0, 255)) for _ in range(n)), native_str, lambda v: len(v) == n)

    def b64(self, s):
        import base64
        return base64.b64encode(s)

    def hex(self, s):
        import binascii
        return binascii.hexlify(s)

    def float(self, name, lo=None, hi=None, finite=False, gen=None, inp=True):
        r = self.rng

        def mk():
            for _ in range(50):
                c = r.random()
                if self.cf and r.random() < 0.08:
                    v = float(r.choice(self.cf)) + r.choice([0, 0, 0.5, -0.5])
                elif gen and c < 0.5:
                    v = float(r.choice(gen))
                elif c < 0.7:
                    v = r.choice(FLOATS + ([float(lo)] if lo is not None else []) + ([float(hi)] if hi is not None else []))
                else:
                    a = lo if lo is not None else -100.0
                    b = hi if hi is not None else 1000.0
                    v = r.uniform(a, b)
                if finite and (v != v or v in (float('inf'), float('-inf'))):
                    continue
                if (lo is not None and not v >= lo) or (hi is not None and not v <= hi):
                    continue
                return v
            return float(lo if lo is not None else 0.0)
        return self.draw(name, mk, dec)

    def pick(self, name, vals):
        i = self.draw(name, lambda: self.rng.randrange(len(vals)), int)
        return vals[i]

    def choose(self, n):
        return self.rng.randrange(n)

    def opaque(self, name):
        return Stub()

    def list(self, name, elem, lo=0, hi=None, n=None, shape=None, generic=True):
        if n is not None:
            return [elem(self, i) for i in range(n)]
        ln = self.uname(name + '#len')
        if ln in self.given and self.given[ln] <= 12:
            k = self.given[ln]
        else:
            k = max(lo, self.size([0, 1, 1, 2, 2, 3, 4]))
            if hi is not None:
                k = min(k, hi)
        self.record[ln] = k
        return [elem(self, i) for i in range(k)]

    def size(self, usual):
        r = self.rng
        if r.random() < 0.9:
            return r.choice(usual)
        few = [c for c in self.ci if 0 <= c <= 40]
        if few and r.random() < 0.6:
            return r.choice(few) + r.choice([0, 1])
        return r.choice([5, 6, 8, 13, 20])

    def dict(self, name, key, val, generic=(), shape=None, has=(), hasnot=(), like=None):
        if like is not None:
            return dict((k, val(self, k)) for k in like)
        n = '#' + self.uname('#' + name)[1:]
        d = {}
        if n in self.given:
            ks = [dec(k) for k in self.given[n]['keys']]
            for k in ks:
                if k not in d:
                    d[k] = val(self, k)
            for g in generic:
                pass
        else:
            for g in generic:
                if self.rng.random() < 0.8:
                    d[g] = val(self, g)
            for g in has:
                if g not in d:
                    d[g] = val(self, g)
            for _ in range(self.size([0, 0, 1, 1, 2, 3])):
                k = key(self)
                if k not in d and k not in hasnot:
                    d[k] = val(self, k)
        self.record[n] = {'keys': [enc(k) for k in d], 'len': None}
        return d

    def symset(self, name, key, generic=(), has=(), hasnot=()):
        return set(self.dict(name, key, lambda E, k: None, generic, None, has, hasnot))

    def mkdict(self, pairs):
        return dict(pairs)

    def mklist(self, items):
        return list(items)

    def mkset(self, items):
        return set(items)

    def keys(self, d):
        return list(d.keys())

    def generic(self, name):
        return self.int(name, 0, 5)

    # ---- objects
    def fn(self, dotted):
        return resolve(dotted)

    def new(self, dotted, *args, **kw):
        return resolve(dotted)(*args, **kw)

    def raw(self, dotted, **attrs):
        c = resolve(dotted)
        o = c.__new__(c) if isinstance(c, type) else _old(c)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def stub(self, tag, **members):
        o = Stub()
        for k, v in members.items():
            if callable(v) and getattr(v, '__name__', '') and not isinstance(v, type):
                setattr(o, k, self.callback(k, v))
            else:
                setattr(o, k, v)
        return o

    def permissive(self, tag):
        return Permissive()

    def override(self, obj, name, handler):
        obj.__dict__[name] = self.callback(name, handler)

    def callback(self, name, handler):
        def f(*a, **k):
            return handler(self, list(a), k)
        return f

    def attr(self, obj, name):
        return getattr(obj, name)

    def hasattr(self, obj, name):
        return hasattr(obj, name)

    def set(self, obj, name, v):
        setattr(obj, name, v)

    def item(self, o, k):
        return o[k]

    def get_or(self, d, k, default=None):
        return d.get(k, default)

    def put(self, o, k, v):
        o[k] = v

    def len(self, v):
        return len(v)

    def has(self, c, x):
        return x in c

    contains = has
    contains_str = has

    def iter(self, v):
        return list(v)

    def copy(self, v):
        return _copy.deepcopy(v)

    def is_none(self, v):
        return v is None

    def same(self, a, b):
        return a is b

    def force(self, v):
        return v

    def call(self, f, args, kw=None):
        return f(*args, **(kw or {}))

    def run_body(self, f, args, kw=None):
        return f(*args, **(kw or {}))

    def run(self, f, *args, **kw):
        try:
            return Out(True, f(*args, **kw))
        except (Skip, Refuted, NoTarget):
            raise
        except Exception:
            t, v, tb = sys.exc_info()
            where = traceback.extract_tb(tb)[-1]
            return Out(False, None, t.__name__, '%s:%s %s' % (where[0], where[1], v), getattr(v, 'args', ()))
        except SystemExit:
            return Out(False, None, 'SystemExit')

    def m(self, obj, name, *args, **kw):
        return self.run(lambda: getattr(obj, name)(*args, **kw))

    def raise_exc(self, name, msg=''):
        if '.' in name:
            m, n = name.rsplit('.', 1)
            __import__(m)
            raise getattr(sys.modules[m], n)(msg)
        raise getattr(__import__('exceptions'), name)(msg)

    def file(self, content, tag='file'):
        return File(self, content, tag)

    # ---- formulas
    def truth(self, v):
        return bool(v)

    def decide(self, v):
        return bool(v)

    def And(self, *vs):
        return all(vs)

    def Or(self, *vs):
        return any(vs)

    def Not(self, v):
        return not v

    not_ = Not

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def ne(self, a, b):
        return a != b

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def gt(self, a, b):
        return a > b

    def ge(self, a, b):
        return a >= b

    def add(self, a, b):
        return a + b

    def sub(self, a, b):
        return a - b

    def mul(self, a, b):
        return a * b

    def div(self, a, b):
        return a // b if isinstance(a, (int, long)) and isinstance(b, (int, long)) else a / b

    def mod(self, a, b):
        return a % b

    def cat(self, *vs):
        return ''.join(vs)

    def startswith(self, s, p):
        return s.startswith(p)

    def endswith(self, s, p):
        return s.endswith(p)

    def typename(self, v):
        if v is None:
            return 'NoneType'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, (int, long)):
            return 'int'
        if isinstance(v, basestring):
            return 'str'
        n = type(v).__name__
        return n if n in ('float', 'list', 'dict', 'set', 'frozenset', 'tuple') else None

    def func(self, name, kind, *args):
        """A fixed but arbitrary function, drawn from a hash."""
        key = (name,) + tuple(repr(a) for a in args)
        if kind == 'bytes32':
            import hashlib
            return hashlib.sha256(repr(key)).digest()
        if key not in self.funcs:
            n = self.uname('fn_' + name)
            r = self.rng
            v = {'int': lambda: r.randint(0, 1000), 'bool': lambda: r.random() < 0.5,
                 'str': lambda: '%s%d' % (name, r.randint(0, 3)), 'float': lambda: r.uniform(-10, 10)}[kind]()
            self.funcs[key] = v
        return self.funcs[key]

    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def prove(self, name, c, detail=None):
        if not c:
            raise Refuted(name, detail)
        self.covered[name] = self.covered.get(name, 0) + 1
        return True

    def fail(self, name, detail=None):
        raise Refuted(name, detail)

    def taint_note(self, s):
        pass

    def round(self, x):
        return int(round(x))

    # ---- ghost
    def gset(self, name, v):
        self.g[name] = v

    def gget(self, name, default=None):
        return self.g.get(name, default)

    def log(self, tag, *vals):
        self.events.append((tag, vals))

    def logged(self, tag):
        return [e[1] for e in self.events if e[0] == tag]

    logged_known = logged

    def trace_tags(self):
        return [e[0] for e in self.events]

    def clear_log(self):
        del self.events[:]

    def clock(self):
        def mk():
            r = self.rng
            d = r.choice([0.0, 0.0, 0.001, 1.0, 10.0, 119.0, 120.0, 121.0, 3600.0, 86400.0, r.uniform(0, 1e6)])
            return (self.now if self.now is not None else r.choice([0.0, 1.0, 1500000000.0])) + d
        v = self.draw('now', mk, dec)
        if self.now is not None and v < self.now:
            raise Skip('clock')
        self.now = v
        return v


class File(object):
    def __init__(self, e, content, tag):
        self.e, self.content, self.tag = e, content, tag

    def read(self, n=-1):
        return self.content if n < 0 else self.content[:n]

    def write(self, x):
        self.e.log('write', self.tag, x)

    def close(self):
        pass

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _old(c):
    import types
    return types.InstanceType(c)


def enc(v):
    if isinstance(v, float):
        return {'float': repr(v)}
    if isinstance(v, (int, long)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, str):
        return v.decode('latin-1')
    return v


def dec(v):
    if isinstance(v, dict) and 'float' in v:
        return float(v['float'])
    if isinstance(v, unicode):
        return native_str(v)
    return v


def native_str(v):
    if isinstance(v, unicode):
        return v.encode('latin-1', 'replace')
    if not isinstance(v, str):
        raise Skip('not a string')
    return v


def resolve(dotted):
    parts = dotted.split('.')
    if parts[0] == 'builtin':
        return getattr(__import__('__builtin__'), parts[1])
    try:
        __import__('privcount.' + parts[0])
        o = sys.modules['privcount.' + parts[0]]
        for p in parts[1:]:
            o = getattr(o, p)
        return o
    except AttributeError:
        raise NoTarget(dotted)


def privmods():
    return [m for n, m in list(sys.modules.items()) if n.startswith('privcount.') and m is not None]


class Patches(object):
    def __init__(self, holder):
        self.holder, self.undo = holder, []

    def set(self, obj, name, val):
        if isinstance(obj, type) or isinstance(obj, _classtype):
            had = name in obj.__dict__
            old = obj.__dict__.get(name)
        else:
            had, old = True, getattr(obj, name)
        self.undo.append((obj, name, had, old))
        setattr(obj, name, val)

    def install(self, contracts, mods):
        for m in mods:
            __import__('privcount.' + m)
        made = {}
        for q, h in sorted(contracts.items()):
            if q.rpartition('.')[0] in made:
                # a static method of a class with a contract
                setattr(made[q.rpartition('.')[0]], q.rpartition('.')[2], self.func(h))
                continue
            if q.startswith('builtin.'):
                n = q[8:]

                def bf(*a, **k):
                    h2 = bf.h
                    return h2(self.holder[0], list(a), k)
                bf.h = h
                for m in privmods():
                    self.undo.append((m, n, n in m.__dict__, m.__dict__.get(n)))
                    setattr(m, n, bf)
                continue
            parts = q.split('.')
            mod = sys.modules.get('privcount.' + parts[0])
            if mod is not None and parts[0] in mods:
                o = mod
                for p in parts[1:-1]:
                    if not hasattr(o, p):
                        raise NoTarget(q)
                    o = getattr(o, p)
                if not hasattr(o, parts[-1]):
                    raise NoTarget(q)
                if isinstance(o, type) or isinstance(o, _classtype):
                    raw = o.__dict__.get(parts[-1])
                    self.set(o, parts[-1], self.meth(h, raw))
                else:
                    self.everywhere(getattr(o, parts[-1]), self.func(h))
            else:
                base = '.'.join(parts[:-1])
                try:
                    __import__(base)
                    bm = sys.modules[base]
                    orig = getattr(bm, parts[-1])
                except (ImportError, AttributeError):
                    continue
                w = made[q] = self.func(h)
                self.everywhere(orig, w)
                if base.split('.')[0] not in ('time', 'logging', 'sys'):
                    self.set(bm, parts[-1], w)
                else:
                    # modules that did 'import time': give them a proxy
                    for m in privmods():
                        for n, v in list(m.__dict__.items()):
                            if v is bm or isinstance(v, Proxy) and v.__dict__['_m'] is bm:
                                if not isinstance(v, Proxy):
                                    p = Proxy(bm)
                                    self.undo.append((m, n, True, v))
                                    setattr(m, n, p)
                                else:
                                    p = v
                                p.__dict__[parts[-1]] = w

    def everywhere(self, orig, w):
        for m in privmods():
            for n, v in list(m.__dict__.items()):
                if v is orig:
                    self.undo.append((m, n, True, v))
                    setattr(m, n, w)

    def func(self, h):
        def f(*a, **k):
            return h(self.holder[0], list(a), k)
        return f

    def meth(self, h, raw):
        def f(*a, **k):
            return h(self.holder[0], list(a), k)
        if isinstance(raw, staticmethod):
            return staticmethod(f)
        if isinstance(raw, classmethod):
            return classmethod(f)
        return f

    def restore(self):
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass


class Proxy(object):
    def __init__(self, m):
        self.__dict__['_m'] = m

    def __getattr__(self, n):
        return getattr(self.__dict__['_m'], n)


class _Old:
    pass


_classtype = type(_Old)


CONSTS = [[], [], []]


def source_consts(u):
    """Literals of the functions under contract (and of the functions they name): likely boundary values."""
    import re, os
    ints, floats, strs = set(), set(), set()
    byfile = {}
    for t in u.targets:
        parts = t.split('.')
        byfile.setdefault(parts[0], set()).add(parts[-1])
    root = os.environ.get('PRIVCOUNT_DIRECTORY', '/repo')
    for f, names in byfile.items():
        p = os.path.join(root, 'privcount', f + '.py')
        if not os.path.exists(p):
            continue
        lines = open(p).read().split('\n')
        blocks = {}
        stack = None
        for i, l in enumerate(lines):
            m = re.match(r'( *)def (\w+)\(', l)
            if m:
                stack = m.group(2)
                blocks.setdefault(stack, [])
            elif stack and l and not l.startswith(' ') and not l.startswith(')'):
                stack = None
            if stack:
                blocks[stack].append(l)
        todo, done = list(names), set()
        while todo:
            n = todo.pop()
            if n in done or n not in blocks or len(done) > 40:
                continue
            done.add(n)
            body = '\n'.join(l for l in blocks[n] if not l.strip().startswith('#'))
            body = re.sub(r"'''.*?'''|\"\"\".*?\"\"\"", '', body, flags=re.S)
            for w in set(re.findall(r'(\w+)\(', body)):
                todo.append(w)
            for q in re.findall(r"'((?:[^'\\\n]|\\.)*)'|\"((?:[^\"\\\n]|\\.)*)\"", body):
                x = q[0] or q[1]
                if 0 < len(x) <= 24 and ' ' not in x and '{' not in x:
                    strs.add(x.replace('\\r', '\r').replace('\\n', '\n').replace('\\t', '\t'))
            for x in re.findall(r'(?<![\w.])(\d+(?:\.\d+)?(?:[eE]-?\d+)?)(?=[lL]?\b)', body):
                try:
                    if '.' in x or 'e' in x.lower():
                        floats.add(float(x))
                    else:
                        ints.add(int(x))
                except ValueError:
                    pass
            for a, b in re.findall(r'(\d+)[lL]? ?\*\* ?(\d+)', body):
                if int(b) < 200:
                    ints.add(int(a) ** int(b))
    floats |= set(float(x) for x in ints if x < 2 ** 53)
    return [sorted(ints), sorted(floats), sorted(strs)]


def run_case(u, rng, given, holder):
    e = C(rng, given)
    holder[0] = e
    del RAISED[:]
    try:
        u.fn(e)
        if RAISED:
            raise RAISED[0]
        return e, None
    except Skip:
        return e, 'skip'
    except Refuted as r:
        return e, {'obligation': r.name, 'detail': str(r.detail)[:400], 'case': e.record}


def run_unit(u, seed, ncases, limit, replays):
    res = {'unit': u.name, 'cases': 0, 'skipped': 0, 'failures': [], 'covered': {}, 'error': None, 'replayed': []}
    holder = [None]
    mods = u.opts.get('mods') or sorted(set(t.split('.')[0] for t in u.targets))
    p = Patches(holder)
    t0 = _clock()
    CONSTS[:] = source_consts(u)
    try:
        try:
            p.install(u.contracts, mods)
            for r in replays:
                e, out = run_case(u, random.Random(seed), r, holder)
                if isinstance(out, dict):
                    res['replayed'].append(out)
                    res['failures'].append(out)
            rng = random.Random('%s/%s' % (seed, u.name))
            n = 0
            while n < ncases and _clock() - t0 < limit:
                n += 1
                s = rng.getrandbits(60)
                e, out = run_case(u, random.Random(s), None, holder)
                if out == 'skip':
                    res['skipped'] += 1
                    continue
                res['cases'] += 1
                for k, v in e.covered.items():
                    res['covered'][k] = res['covered'].get(k, 0) + v
                if out is not None:
                    res['failures'].append(out)
                    if len(res['failures']) >= 3:
                        break
        except NoTarget as x:
            res['error'] = 'missing: %s' % x
        except Exception:
            res['error'] = traceback.format_exc()[-3000:]
            e = holder[0]
            if e is not None:
                res['error_case'] = e.record
    finally:
        p.restore()
    res['time'] = _clock() - t0
    return res


def main():
    job = json.loads(open(sys.argv[1]).read())
    out = []
    for f in job['files']:
        __import__(f)
    for u in registry.UNITS:
        key = '%s.%s' % (u.prop, u.name)
        if key not in job['units']:
            continue
        spec = job['units'][key]
        if not u.opts['dynamic']:
            continue
        r = run_unit(u, job['seed'], spec.get('cases', u.cases), spec.get('limit', 20), spec.get('replays', []))
        r['key'] = key
        out.append(r)
    f = open(sys.argv[2], 'w')
    f.write(json.dumps(out))
    f.close()


if __name__ == '__main__':
    main()
