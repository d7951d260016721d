"""Python 2 built-ins and the (trusted) models of library functions."""
import math, string
import z3
from values import *

MISSING = object()


class Super(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def get(self, E, name):
        o = self.self_
        mro = o.cls.mro() if isinstance(o, Obj) else o.mro()
        i = mro.index(self.cls) + 1 if self.cls in mro else 0
        for c in mro[i:]:
            if name in c.attrs:
                return E.bind(c.attrs[name], o)
        if name == '__init__':
            return Builtin('object.__init__', lambda E, a, k: None)
        raise Unsupported('super().%s' % name)


def B(name):
    def deco(fn):
        BUILTINS[name] = Builtin(name, fn)
        return fn
    return deco


BUILTINS = {}


def builtin(E, name):
    c = E.contracts.get('builtin.' + name)
    if c is not None:
        return Builtin(name, c)
    c = E.summaries.get('builtin.' + name)
    if c is not None:
        return Builtin(name, lambda E2, a, k: c(E2, a))
    return BUILTINS.get(name)


def native(v):
    return v is None or isinstance(v, (bool, int, float, str))


def deep_native(v):
    return native(v) or (isinstance(v, tuple) and all(deep_native(x) for x in v))


# ------------------------------------------------------------------ strings
def py_str(E, v):
    v = E.force(v)
    if isinstance(v, (str, SStr)):
        return v
    if v is None or isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if v in (float('inf'), float('-inf')):
            return 'inf' if v > 0 else '-inf'
        s = '%.12g' % v
        if '.' not in s and 'e' not in s and 'n' not in s:
            s += '.0'
        return s
    if isinstance(v, SInt):
        return SStr(E.S.of_int(v.t))
    if isinstance(v, SBool):
        return 'True' if E.decide(v.t) else 'False'
    if isinstance(v, Opaque):
        return Opaque('str(%s)' % v.tag)
    return Opaque('str')


def str_format(E, s, args, kwargs):
    if isinstance(s, SStr):
        return Opaque('format')
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError as e:
        E.raise_(ValueError, str(e))
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if name == '':
            i = auto
            auto += 1
            if i >= len(args):
                E.raise_(IndexError, 'tuple index out of range')
            v = args[i]
        elif name.isdigit():
            if int(name) >= len(args):
                E.raise_(IndexError, 'tuple index out of range')
            v = args[int(name)]
        elif name in kwargs:
            v = kwargs[name]
        else:
            return Opaque('format')
        v = E.force(v)
        if spec:
            if isinstance(v, (int, float, str)) and not isinstance(v, bool):
                try:
                    parts.append(format(v, spec))
                except ValueError as e:
                    E.raise_(ValueError, str(e))
                continue
            if v is None or isinstance(v, (SStr, str, PList, PDict)):
                if any(c in spec for c in 'dfgeEG%'):
                    E.raise_(ValueError, 'unknown format code')
            parts.append(Opaque('fmt'))
            continue
        parts.append(py_str(E, v))
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if all(isinstance(p, (str, SStr)) for p in parts):
        ts = [E.term(p) for p in parts if not (isinstance(p, str) and p == '')]
        return SStr(E.S.cat(ts))
    return Opaque('format')


def ascii_lower(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def ascii_upper(s):
    return ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s)


WS = ' \t\n\r\x0b\x0c'


def str_method(E, s, name):
    def M(fn):
        return Builtin('str.' + name, fn)
    con = isinstance(s, str)
    if name == 'format':
        return M(lambda E, a, k: str_format(E, s, a, k))
    if name in ('lower', 'upper'):
        f = ascii_lower if name == 'lower' else ascii_upper
        if con:
            return M(lambda E, a, k: f(s))

        def low(E, a, k):
            r = E.uf('str_' + name, E.S.sort, s)
            E.assume(E.uf('str_' + name, E.S.sort, SStr(r)) == r)
            E.assume(E.S.len(r) == E.S.len(s.t))
            return SStr(r)
        return M(low)
    if name in ('strip', 'lstrip', 'rstrip'):
        def strip(E, a, k):
            chars = a[0] if a else None
            if con and (chars is None or isinstance(chars, str)):
                return getattr(s, name)(WS if chars is None else chars)
            if chars is not None and not isinstance(chars, str):
                return Opaque('strip')
            if chars is None:
                ls = [E.S.text(x) if E.S.is_val(x) else x for x in E.S.leaves(E.term(s))]
                if name != 'rstrip':
                    while ls and isinstance(ls[0], str):
                        ls[0] = ls[0].lstrip(WS)
                        if ls[0]:
                            break
                        ls = ls[1:]
                if name != 'lstrip':
                    while ls and isinstance(ls[-1], str):
                        ls[-1] = ls[-1].rstrip(WS)
                        if ls[-1]:
                            break
                        ls = ls[:-1]
                edge = ([ls[0]] if name != 'rstrip' else []) + ([ls[-1]] if name != 'lstrip' else []) if ls else []
                if all(isinstance(x, str) or x.get_id() in E.words for x in edge):
                    return mkstr(E, ls)
            r = E.uf('str_%s_%s' % (name, '' if chars is None else ''.join('%02x' % ord(c) for c in chars)),
                     E.S.sort, s)
            if E.strfacts:
                E.assume(E.S.contains(E.term(s), r))
                E.assume(E.S.len(r) <= E.S.len(E.term(s)))
            if chars is None:
                E.strips[r.get_id()] = s
                E.keep_terms.append(r)
                if E.term(s).get_id() in E.words:
                    E.assume(E.S.eq(r, s.t))
                    mark_word(E, r)
            return SStr(r)
        return M(strip)
    if name in ('startswith', 'endswith'):
        def sw(E, a, k):
            p = E.force(a[0])
            if isinstance(p, tuple):
                return E.seq_or([str_method(E, s, name).fn(E, [x], {}) for x in p])
            if con and isinstance(p, str):
                return getattr(s, name)(p)
            if isinstance(p, Opaque):
                return E.opq_bool((name, E.keyid(s), id(p)), s, p)
            if not isinstance(p, (str, SStr)):
                E.raise_(TypeError, 'expected a string')
            f = E.S.prefix if name == 'startswith' else E.S.suffix
            return SBool(f(E.term(p), E.term(s)))
        return M(sw)
    if name == 'split':
        def split(E, a, k):
            sep = E.force(a[0]) if a else None
            if con and (sep is None or isinstance(sep, str)) and all(isinstance(x, int) for x in a[1:]):
                if sep == '':
                    E.raise_(ValueError, 'empty separator')
                if sep is None:
                    out, cur = [], ''
                    if len(a) > 1:
                        return PList(s.split(None, a[1]))
                    for c in s:
                        if c in WS:
                            if cur:
                                out.append(cur)
                            cur = ''
                        else:
                            cur += c
                    if cur:
                        out.append(cur)
                    return PList(out)
                return PList(s.split(sep, *a[1:]))
            return sym_split(E, s, sep, a)
        return M(split)
    if name == 'partition':
        def part(E, a, k):
            sep = E.force(a[0])
            if con and isinstance(sep, str):
                return s.partition(sep)
            t, st = E.term(s), E.term(sep)
            if isinstance(sep, str) and len(sep) == 1 and hasattr(E.S, 'pieces'):
                ps = E.S.pieces(t)
                def mk(ps):
                    r = E.S.build([p for p in ps if not (isinstance(p, str) and not p)])
                    return E.S.text(r) if E.S.is_val(r) else SStr(r)
                for i, p in enumerate(ps):
                    if isinstance(p, str):
                        h, m, l = p.partition(sep)
                        if not m:
                            continue
                        return (mk(ps[:i] + [h]), sep, mk([l] + ps[i + 1:]))
                    if E.decide(E.S.contains(p, st)):
                        h, l = E.S.split(p, sep)
                        return (mk(ps[:i] + [h]), sep, mk([l] + ps[i + 1:]))
                return (s, '', '')
            if E.decide(E.S.contains(t, st)):
                if isinstance(sep, str) and len(sep) == 1:
                    h, l = E.fresh('head', E.S.sort), E.fresh('tail', E.S.sort)
                    E.assume(E.S.eq(t, E.S.cat([h, st, l])))
                    E.assume(z3.Not(E.S.contains(h, st)))
                    return (SStr(h), sep, SStr(l))
                i = E.S.index(t, st)
                n = E.S.len(st)
                return (SStr(E.S.sub(t, z3.IntVal(0), i)), sep if isinstance(sep, str) else sep,
                        SStr(E.S.sub(t, i + n, E.S.len(t) - i - n)))
            return (s, '', '')
        return M(part)
    if name == 'join':
        def join(E, a, k):
            it = E.iterate(a[0])
            if isinstance(it, SymIter):
                return Opaque('join')
            parts = []
            for x in it:
                if not isinstance(x, (str, SStr)):
                    if isinstance(x, Opaque):
                        return Opaque('join')
                    E.raise_(TypeError, 'sequence item: expected string')
                parts.append(x)
            if con and all(isinstance(x, str) for x in parts):
                return s.join(parts)
            ts = []
            for i, x in enumerate(parts):
                if i and not (con and s == ''):
                    ts.append(E.term(s))
                ts.append(E.term(x))
            if not ts:
                return ''
            return SStr(E.S.cat(ts))
        return M(join)
    if name == 'replace':
        def rep(E, a, k):
            if con and deep_native(tuple(a)):
                return s.replace(*a)
            r = E.uf('str_replace_all', E.S.sort, s, a[0], a[1])
            return SStr(r)
        return M(rep)
    if name in ('count', 'find', 'index', 'rfind', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'title',
                'capitalize', 'splitlines', 'rsplit', 'rpartition', 'zfill', 'ljust', 'rjust', 'islower',
                'isupper', 'center', 'swapcase'):
        def gen(E, a, k):
            if con and deep_native(tuple(a)):
                try:
                    r = getattr(s, name)(*a)
                except (TypeError, ValueError) as e:
                    E.raise_(type(e), str(e))
                return PList(r) if isinstance(r, list) else r
            if name == 'count' and isinstance(a[0], str) and len(a[0]) == 1 and len(a) == 1 and hasattr(E.S, 'pieces'):
                n, known = None, 0
                for p in E.S.pieces(E.term(s)):
                    if isinstance(p, str):
                        known += p.count(a[0])
                        continue
                    r = E.uf('str_count', z3.IntSort(), SStr(p), a[0])
                    E.assume(z3.And(r >= 0, (r == 0) == z3.Not(E.S.contains(p, E.S.val(a[0])))))
                    n = r if n is None else n + r
                return known if n is None else SInt(n + known)
            if name == 'count':
                r = E.uf('str_count', z3.IntSort(), s, a[0])
                E.assume(r >= 0)
                E.assume((r == 0) == z3.Not(E.S.contains(E.term(s), E.term(a[0]))))
                return SInt(r)
            if name == 'find':
                return SInt(E.S.index(E.term(s), E.term(a[0])))
            if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'islower', 'isupper'):
                return SBool(E.uf('str_' + name, z3.BoolSort(), s))
            return Opaque('str.' + name)
        return M(gen)
    if name in ('decode', 'encode'):
        def dec(E, a, k):
            codec = a[0] if a else 'ascii'
            if codec == 'hex' and con:
                try:
                    return (bytes.fromhex(s).decode('latin-1') if name == 'decode'
                            else s.encode('latin-1').hex())
                except ValueError:
                    E.raise_(TypeError, 'non-hexadecimal')
            if codec == 'hex':
                r = E.uf('hex_' + name, E.S.sort, s)
                if name == 'encode':
                    E.assume(E.uf('hex_decode', E.S.sort, SStr(r)) == E.term(s))
                    E.assume(E.S.len(r) == 2 * E.S.len(E.term(s)))
                else:
                    ok = E.uf('hex_ok', z3.BoolSort(), s)
                    if not E.decide(ok):
                        E.raise_(TypeError, 'non-hexadecimal')
                    E.assume(2 * E.S.len(r) == E.S.len(E.term(s)))
                return SStr(r)
            return s
        return M(dec)
    return None


def mark_word(E, t):
    """t is not empty and contains no white space."""
    E.words[t.get_id()] = t


def sym_split(E, s, sep, a):
    """str.split: the structure of concatenations is followed, the rest is an uninterpreted function of the string."""
    most = a[1] if len(a) > 1 else -1
    if not isinstance(most, int) or not (sep is None or isinstance(sep, str) and len(sep) == 1):
        return split_uf(E, s, sep, a)
    if sep is None and isinstance(s, SStr):
        while s.t.get_id() in E.strips:
            o = E.strips[s.t.get_id()]
            s = SStr(o) if not isinstance(o, SStr) else o
    ls = E.S.leaves(E.term(s))
    parts, cur, i, stop = [], [], 0, False
    for n, x in enumerate(ls):
        if E.S.is_val(x):
            text = E.S.text(x)
            for m, c in enumerate(text):
                if c == sep or (sep is None and c in WS):
                    if cur or sep is not None:
                        parts.append(cur)
                        cur = []
                    if most >= 0 and len(parts) >= most:
                        rest = text[m + 1:]
                        if sep is None:
                            rest = rest.lstrip(WS)
                            if not rest and n + 1 < len(ls) and ls[n + 1].get_id() not in E.words:
                                return split_uf(E, s, sep, a)
                            if not rest and n + 1 >= len(ls):
                                return PList([mkstr(E, p) for p in parts])
                        return PList([mkstr(E, p) for p in parts] + [mkstr(E, [rest] + ls[n + 1:])])
                else:
                    cur.append(c)
        elif x.get_id() in E.words and (sep is None or sep in WS):
            cur.append(x)
        elif sep is not None and hasattr(E.S, 'pieces') and E._entails(z3.Not(E.S.contains(x, E.S.val(sep)))):
            cur.append(x)
        else:
            if not parts:
                if n == 0 and len(ls) == 1:
                    return split_uf(E, s, sep, a)
            tail = split_uf(E, mkstr(E, cur + ls[n:]), sep, [a[0] if a else None] + ([most - len(parts)] if most >= 0 else []))
            if not parts:
                return tail
            k = len(parts)
            f = tail.factory
            return PList(length=SInt(E.it(tail.length) + k), factory=lambda E, j: f(E, E.arith('Sub', j, k)), name='split',
                         known=[[j, mkstr(E, p)] for j, p in enumerate(parts)])
    if cur or sep is not None:
        parts.append(cur)
    return PList([mkstr(E, p) for p in parts])


def mkstr(E, pieces):
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '' if isinstance(p, str) else True:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else SStr(out[0])
    return SStr(E.S.cat([E.S.val(p) if isinstance(p, str) else p for p in out]))


def split_uf(E, s, sep, a):
    key = ('split', E.keyid(s), E.keyid(sep), tuple(map(repr, a[1:])))
    hit = E.ghost.get(key)
    if hit is None:
        t = E.term(s)
        kind = ('ws' if sep is None else 'sep') + ('%d' % a[1] if len(a) > 1 else '')
        n = E.uf('split_len_' + kind, z3.IntSort(), *([s] + ([sep] if sep is not None else [])))
        E.assume(n >= (0 if sep is None else 1))
        if len(a) > 1 and isinstance(a[1], int) and a[1] >= 0:
            E.assume(n <= a[1] + 1)
        if sep is not None and E.strfacts:
            E.assume((n == 1) == z3.Not(E.S.contains(t, E.term(sep))))

        def fac(E, j):
            r = E.uf('split_part_' + kind, E.S.sort,
                     *([s] + ([sep] if sep is not None else []) + [j]))
            if not E.strfacts:
                if sep is None and not (len(a) > 1 and a[1] >= 0):
                    mark_word(E, r)
                return SStr(r)
            E.assume(E.S.contains(t, r))
            last = len(a) > 1 and a[1] >= 0
            if sep is None:
                E.assume(E.S.len(r) >= 1)
                if not last:
                    mark_word(E, r)
            elif not last:
                E.assume(z3.Not(E.S.contains(r, E.term(sep))))
            else:
                E.assume(z3.Implies(E.it(j) < a[1], z3.Not(E.S.contains(r, E.term(sep)))))
                if a[1] == 1:
                    E.assume(z3.Implies(E.it(j) == 0, E.S.prefix(r, t)))
                    E.assume(z3.Implies(E.it(j) == n - 1, E.S.suffix(r, t)))
            return SStr(r)
        hit = (n, fac, s)
        E.ghost[key] = hit
    return PList(length=SInt(hit[0]), factory=hit[1], name='split')


def b64encode(E, a, k):
    import base64
    s = E.force(a[0])
    if isinstance(s, str):
        return base64.b64encode(s.encode('latin-1')).decode('latin-1')
    if not isinstance(s, SStr):
        E.raise_(TypeError, 'must be string')
    r = E.uf('b64encode', E.S.sort, s)
    E.assume(E.S.len(r) == 4 * ((E.S.len(s.t) + 2) / 3))
    E.assume(E.uf('b64decode', E.S.sort, SStr(r)) == s.t)
    E.assume(E.uf('b64ok', z3.BoolSort(), SStr(r)))
    if E.truth(E.gt(E.len_(s), 0)):
        mark_word(E, r)
    return SStr(r)


def b64decode(E, a, k):
    import base64, binascii
    s = E.force(a[0])
    if isinstance(s, str):
        try:
            return base64.b64decode(s.encode('latin-1')).decode('latin-1')
        except binascii.Error:
            E.raise_(TypeError, 'Incorrect padding')
    if not isinstance(s, SStr):
        E.raise_(TypeError, 'must be string')
    if not E.decide(E.uf('b64ok', z3.BoolSort(), s)):
        E.raise_(TypeError, 'Incorrect padding')
    r = E.uf('b64decode', E.S.sort, s)
    E.assume(4 * E.S.len(r) <= 3 * E.S.len(s.t))
    return SStr(r)


def hexlify(E, a, k):
    import binascii
    s = E.force(a[0])
    if isinstance(s, str):
        return binascii.hexlify(s.encode('latin-1')).decode('latin-1')
    if not isinstance(s, SStr):
        E.raise_(TypeError, 'must be string')
    r = E.uf('hexlify', E.S.sort, s)
    E.assume(E.S.len(r) == 2 * E.S.len(s.t))
    E.assume(E.uf('unhexlify', E.S.sort, SStr(r)) == s.t)
    E.assume(E.uf('hexok', z3.BoolSort(), SStr(r)))
    E.assume(z3.Not(E.S.prefix(E.term('"'), r)))
    if E.truth(E.gt(E.len_(s), 0)):
        mark_word(E, r)
    return SStr(r)


def unhexlify(E, a, k):
    import binascii
    s = E.force(a[0])
    if isinstance(s, str):
        try:
            return binascii.unhexlify(s.encode('latin-1')).decode('latin-1')
        except binascii.Error:
            E.raise_(TypeError, 'Non-hexadecimal digit found')
    if not isinstance(s, SStr):
        E.raise_(TypeError, 'must be string')
    if not E.decide(E.uf('hexok', z3.BoolSort(), s)):
        E.raise_(TypeError, 'Non-hexadecimal digit found')
    r = E.uf('unhexlify', E.S.sort, s)
    E.assume(2 * E.S.len(r) == E.S.len(s.t))
    return SStr(r)


# ------------------------------------------------------------------ methods
def method(E, o, name):
    if isinstance(o, (str, SStr)):
        return str_method(E, o, name)
    if isinstance(o, PList):
        f = LIST_METHODS.get(name)
        return Builtin('list.' + name, lambda E, a, k: f(E, o, *a, **k)) if f else None
    if isinstance(o, PDict):
        f = DICT_METHODS.get(name)
        return Builtin('dict.' + name, lambda E, a, k: f(E, o, *a, **k)) if f else None
    if isinstance(o, PSet):
        f = SET_METHODS.get(name)
        return Builtin('set.' + name, lambda E, a, k: f(E, o, *a, **k)) if f else None
    if isinstance(o, tuple):
        if name == 'index':
            return Builtin('tuple.index', lambda E, a, k: [i for i, x in enumerate(o) if E.truth(E.eq(x, a[0]))][0])
        if name == 'count':
            return Builtin('tuple.count', lambda E, a, k: len([1 for x in o if E.truth(E.eq(x, a[0]))]))
        return None
    if E.is_num(o):
        if name == 'bit_length':
            def bl(E, a, k):
                if isinstance(o, int):
                    return o.bit_length()
                r = E.uf('bit_length', z3.IntSort(), o)
                E.assume(r >= 0)
                # 2**(n-1) <= |x| < 2**n
                p, p1 = E.uf('pow2', z3.IntSort(), SInt(r)), E.uf('pow2', z3.IntSort(), SInt(r - 1))
                x = E.it(o)
                ax = z3.If(x < 0, -x, x)
                E.assume(z3.And(ax < p, z3.Implies(ax > 0, z3.And(p1 <= ax, p == 2 * p1, r >= 1)),
                                z3.Implies(ax == 0, r == 0)))
                return SInt(r)
            return Builtin('int.bit_length', bl)
        if name == 'is_integer' and isinstance(o, float):
            return Builtin('float.is_integer', lambda E, a, k: o.is_integer())
        if name in ('numerator', 'real'):
            return o
        return None
    return None


def method_of_type(E, t, name):
    return None


def builtin_attr(E, b, name):
    if b.name == 'dict' and name == 'fromkeys':
        def fk(E, a, k):
            d = PDict()
            for x in E.iterate(a[0]):
                E.dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        return Builtin('dict.fromkeys', fk)
    if name == '__name__':
        return b.name
    if b.name in ('str', 'list', 'dict', 'int', 'set'):
        def unb(E, a, k):
            m = method(E, E.force(a[0]), name)
            if m is None:
                E.raise_(AttributeError, name)
            return m.fn(E, a[1:], k)
        return Builtin('%s.%s' % (b.name, name), unb)
    return None


def list_extend(E, l, v):
    it = E.iterate(v)
    if isinstance(it, SymIter):
        E.wrote(l, ('items',), E.list_snapshot(l))
        vv = E.force(v)
        if isinstance(vv, PList):
            c = E.list_concat(PList(l.items) if not l.sym else E.list_copy(l), vv)
            l.items, l.length, l.factory, l.known = None, c.length, c.factory, []
            return None
        raise Unsupported('extend by symbolic iterable')
    for x in it:
        E.list_append(l, x)


def list_pop(E, l, i=-1):
    if l.sym:
        raise Unsupported('pop on symbolic list')
    j = E.norm_index(i, len(l.items))
    if not isinstance(j, int):
        raise Unsupported('symbolic pop')
    E.wrote(l, ('items',), E.list_snapshot(l))
    return E.force(l.items.pop(j))


def list_insert(E, l, i, v):
    if l.sym or not isinstance(i, int):
        raise Unsupported('insert')
    E.wrote(l, ('items',), E.list_snapshot(l))
    l.items.insert(i, v)


def list_remove(E, l, v):
    if l.sym:
        raise Unsupported('remove on symbolic list')
    for i, x in enumerate(l.items):
        if E.truth(E.eq(x, v)):
            E.wrote(l, ('items',), E.list_snapshot(l))
            del l.items[i]
            return None
    E.raise_(ValueError, 'list.remove(x): x not in list')


def list_index(E, l, v):
    if l.sym:
        raise Unsupported('index on symbolic list')
    for i, x in enumerate(l.items):
        if E.truth(E.eq(x, v)):
            return i
    E.raise_(ValueError, 'not in list')


def list_count(E, l, v):
    if l.sym:
        n = SInt(E.fresh('count', z3.IntSort()))
        E.assume(n.t >= 0)
        return n
    return len([1 for x in l.items if E.truth(E.eq(x, v))])


def sort_values(E, items, key=None, reverse=False):
    """Insertion sort with symbolic comparisons (forks)."""
    keys = [E.call(key, [x]) for x in items] if key is not None else list(items)
    out = []
    for x, kx in zip(items, keys):
        i = len(out)
        while i > 0:
            ky = out[i - 1][1]
            c = E.lt(ky, kx) if reverse else E.lt(kx, ky)
            if not E.truth(c):
                break
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def reorder_base(E, l):
    """The elements of l before they are put in another order."""
    old = PList(length=l.length, factory=l.factory, name=l.name, known=l.known)
    old.shape, old.nogen = l.shape, True
    return old


def list_sort(E, l, cmp=None, key=None, reverse=False):
    if cmp is not None or l.sym and getattr(l, 'view', None) is not None:
        raise Unsupported('sort on symbolic list')
    E.wrote(l, ('items',), E.list_snapshot(l))
    if l.sym:
        # some permutation of the elements (that it is in order is not modelled)
        old = reorder_base(E, l)
        used = []

        def fac(E, j):
            p = E.fresh('perm', z3.IntSort())
            E.assume(z3.And(p >= 0, p < E.it(old.length)))
            for q in used:
                E.assume(p != q)
            used.append(p)
            if E.jr:
                E.journal.append(lambda: used.pop())
            return E.list_entry(old, SInt(p))[1]
        l.known, l.factory = [], fac
        return
    l.items[:] = sort_values(E, l.items, key, E.truth(reverse))


def list_reverse(E, l):
    E.wrote(l, ('items',), E.list_snapshot(l))
    if l.sym:
        old = reorder_base(E, l)
        l.known = []
        l.factory = lambda E, j: E.list_entry(old, SInt(E.it(old.length) - 1 - E.it(j)))[1]
        return
    l.items.reverse()


LIST_METHODS = {
    'append': lambda E, l, v: E.list_append(l, v), 'extend': list_extend, 'pop': list_pop,
    'insert': list_insert, 'remove': list_remove, 'index': list_index, 'count': list_count,
    'sort': list_sort, 'reverse': list_reverse,
}


def d_get(E, d, k, default=None):
    e = E.dict_find(d, k)
    if e is None:
        return default
    e[1] = E.force(e[1])
    return e[1]


def d_setdefault(E, d, k, default=None):
    e = E.dict_find(d, k)
    if e is None:
        E.dict_set(d, k, default)
        return default
    e[1] = E.force(e[1])
    return e[1]


def d_pop(E, d, k, *default):
    e = E.dict_del(d, k)
    if e is None:
        if default:
            return default[0]
        E.raise_(KeyError, k)
    return E.force(e[1])


def d_keys(E, d):
    if d.rest is None:
        return PList([e[0] for e in d.entries])
    return KeyView(d, 'keys')


def d_values(E, d):
    if d.rest is None:
        return PList([E.force(e[1]) for e in d.entries])
    return KeyView(d, 'values')


def d_items(E, d):
    if d.rest is None:
        return PList([(e[0], E.force(e[1])) for e in d.entries])
    return KeyView(d, 'items')


def KeyView(d, what):
    """A snapshot list of the keys/values/items of a symbolic dict."""
    l = PList(length=None, items=[])
    l.items = None
    ents = [(e[0], e[1]) for e in d.entries]
    l.view = (d, what, ents)
    l.name = '%s.%s()' % (d.name, what)
    l.length = LazyLen(d)
    return l


class LazyLen(object):
    def __init__(self, d):
        self.d = d


def view_iter(E, l):
    d, what, ents = l.view

    def conv(k, v):
        v = E.force(v)
        return k if what == 'keys' else v if what == 'values' else (k, v)

    def other():
        k = E.other_key(d)
        return conv(k, d.entries[-1][1])
    # entries materialised since the snapshot are still among "the rest", which is
    # over-approximated by arbitrary elements; iterate the ones known now
    it = SymIter([conv(e[0], e[1]) for e in d.entries], other, l.name)
    it.notother = [e[0] for e in d.entries] + list(d.absent)
    it.over = d
    if what != 'values':
        it.src = d
    return it


def d_update(E, d, *a, **k):
    if a:
        o = E.force(a[0])
        if isinstance(o, PDict):
            if o.rest is not None:
                raise Unsupported('update from symbolic dict')
            for e in list(o.entries):
                E.dict_set(d, e[0], E.force(e[1]))
        else:
            for x in E.iterate(o):
                kk, vv = E.unpack(x, 2)
                E.dict_set(d, kk, vv)
    for kk, vv in k.items():
        E.dict_set(d, kk, vv)


def d_clear(E, d):
    E._dict_write_undo(d, ('clear',))
    d.entries[:] = []
    d.absent[:] = []
    d.rest = None
    d.rest_len = None


def d_popitem(E, d):
    raise Unsupported('popitem')


DICT_METHODS = {
    'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'keys': d_keys, 'values': d_values, 'items': d_items,
    'iterkeys': d_keys, 'itervalues': d_values, 'iteritems': d_items, 'update': d_update, 'clear': d_clear,
    'has_key': lambda E, d, k: E.dict_find(d, k) is not None, 'copy': lambda E, d: E.dict_copy(d),
    'popitem': d_popitem, 'viewkeys': lambda E, d: PSet(PDict([[e[0], None] for e in d.entries], d.rest, d.name, 'set')),
}


def s_add(E, s, v):
    if E.dict_find(s.d, v) is None:
        E.dict_set(s.d, v, None)


def s_remove(E, s, v):
    if E.dict_del(s.d, v) is None:
        E.raise_(KeyError, v)


def s_discard(E, s, v):
    E.dict_del(s.d, v)


def as_set(E, v):
    v = E.force(v)
    if isinstance(v, PSet):
        return v
    return make_set(E, v, False)


def s_multi(op):
    def f(E, s, *others):
        r = s
        for o in others:
            o = E.force(o)
            if isinstance(o, StarList):
                raise Unsupported('star set op')
            r = E.set_op(op, r, as_set(E, o))
        if r is s:
            r = PSet(E.dict_copy(s.d), s.frozen)
        return r
    return f


def s_issubset(E, s, o):
    o = as_set(E, o)
    it = E.iterate(s)
    if isinstance(it, SymIter):
        for x in it.known:
            if not E.truth(E.contains(o, x)):
                return False
        if E.choose(2) == 0:
            x = it.other()
            if E.truth(E.contains(o, x)):
                raise PathEnd()
            return False
        return True
    for x in it:
        if not E.truth(E.contains(o, x)):
            return False
    return True


class StarList(object):
    pass


SET_METHODS = {
    'clear': lambda E, s: d_clear(E, s.d), 'add': s_add, 'remove': s_remove, 'discard': s_discard, 'difference': s_multi('difference'),
    'union': s_multi('union'), 'symmetric_difference': s_multi('symmetric_difference'), 'intersection': s_multi('intersection'), 'issubset': s_issubset,
    'issuperset': lambda E, s, o: s_issubset(E, as_set(E, o), s),
    'copy': lambda E, s: PSet(E.dict_copy(s.d), s.frozen),
    'update': lambda E, s, *o: [s_add(E, s, x) for y in o for x in E.iterate(y)] and None,
    'isdisjoint': lambda E, s, o: not any(E.truth(E.contains(s, x)) for x in E.iterate(o)),
}


# ------------------------------------------------------------------ symbolic iteration
def iter_symlist(E, l):
    if getattr(l, 'view', None) is not None:
        return view_iter(E, l)
    if getattr(l, 'sorted_of', None) is not None and l.known == l.sorted_known:
        return E.iterate(l.sorted_of)
    n = l.length
    # make the registered generic indices known when they are in range
    for g in ([] if getattr(l, 'nogen', False) else E.generic_idx):
        if E.decide(z3.And(g >= 0, g < E.it(n))):
            E.list_entry(l, SInt(g))

    def other():
        j = E.fresh('j_' + (l.name or 'l'), z3.IntSort())
        E.assume(z3.And(j >= 0, j < E.it(n)))
        for e in l.known:
            E.assume(j != E.it(e[0]))
        E.loop_var = SInt(j)
        return E.list_entry(l, E.loop_var)[1]
    known = []
    for e in l.known:
        if E.decide(z3.And(E.it(e[0]) >= 0, E.it(e[0]) < E.it(n))):
            known.append(e[1])
    it = SymIter(known, other, l.name, l.facts)
    it.over = l
    return it


def iter_symlist_idx(E, l):
    """Like iter_symlist, elements are (index, value)."""
    base = iter_symlist(E, l)
    if getattr(l, 'view', None) is not None:
        raise Unsupported('enumerate over dict view')
    n = l.length
    known = [(e[0], e[1]) for e in l.known if E.decide(z3.And(E.it(e[0]) >= 0, E.it(e[0]) < E.it(n)))]

    def other():
        base.other()
        e = l.known[-1]
        return (e[0], e[1])
    it = SymIter(known, other, l.name)
    it.over = l
    return it


def iter_symrange(E, r):
    if r.step != 1:
        raise Unsupported('symbolic range with step')
    lo, hi = E.it(r.lo), E.it(r.hi)
    known = []
    for g in E.generic_idx:
        if E.decide(z3.And(g >= lo, g < hi)):
            known.append(SInt(g))

    def other():
        j = E.fresh('j_range', z3.IntSort())
        E.assume(z3.And(j >= lo, j < hi))
        for g in known:
            E.assume(j != g.t)
        E.loop_var = SInt(j)
        for flo, fhi, facts in list(E.range_facts):
            if facts and E.decide(z3.And(j >= flo, j < fhi)):
                E.run_facts(facts, SInt(j))
        return E.loop_var
    facts = []
    ent = (lo, hi, facts)
    E.range_facts.append(ent)
    E.journal.append(lambda: E._rm_is(E.range_facts, ent))
    return SymIter(known, other, 'range', facts)


def sym_map(E, g, src, elt, f):
    """[elt for target in list], elementwise."""
    src = E.list_copy(src)

    def frame():
        n = E.sub_frame(f)
        n.locals = f.locals
        n.func = f.func
        n.vars = dict(f.vars)
        n.closure = f.closure
        return n

    def once():
        if not E.truth(E.gt(src.length, 0)):
            raise PathEnd()
        n = frame()
        j = SInt(E.fresh('mapidx', z3.IntSort()))
        E.assume(z3.And(j.t >= 0, j.t < E.it(src.length)))
        try:
            E.assign(g['target'], E.list_get(src, j), n)
            elt(n)
            return 'ok'
        except PyExc:
            return 'raise'
    kinds = set(o for o, _ in E.explore_inner(once))
    if 'raise' in kinds and E.choose(2) == 1:
        j = SInt(E.fresh('mapidx', z3.IntSort()))
        E.assume(z3.And(j.t >= 0, j.t < E.it(src.length)))
        E.assign(g['target'], E.list_get(src, j), f)
        elt(f)
        raise PathEnd()
    snap = frame()

    def fac(E, j):
        n = E.sub_frame(f)
        n.locals, n.func, n.closure, n.vars = snap.locals, snap.func, snap.closure, dict(snap.vars)
        E.assign(g['target'], E.list_get(src, j), n)
        try:
            return elt(n)
        except PyExc:
            raise PathEnd()
    return PList(length=src.length, factory=fac, name='map', known=[])


def sym_comp(E, g, it, elt, f):
    def keep():
        for c in g['ifs']:
            if not E.truth(E.ev_cond(c, f)):
                return False
        return True

    vals = []
    for x in it.known:
        E.assign(g['target'], x, f)
        if keep():
            vals.append(elt(f))

    def once():
        try:
            E.assign(g['target'], it.other(), f)
            if not keep():
                return 'skip'
            elt(f)
            return 'ok'
        except PyExc:
            return 'raise'
    kinds = set(o for o, _ in E.explore_inner(once))
    if 'raise' in kinds and E.choose(2) == 1:
        E.assign(g['target'], it.other(), f)
        if keep():
            elt(f)
        raise PathEnd()
    n = E.fresh('complen', z3.IntSort())
    E.assume(n >= len(vals))
    known = []
    for v in vals:
        p = E.fresh('pos', z3.IntSort())
        E.assume(z3.And(p >= 0, p < n))
        for q, _ in known:
            E.assume(q.t != p)
        known.append([SInt(p), v])
    if 'ok' not in kinds:
        return PList(vals)

    def fac(E, j):
        E.assign(g['target'], it.other(), f)
        if not keep():
            raise PathEnd()
        return elt(f)
    l = PList(length=SInt(n), factory=fac, name='comp', known=known)
    return l


def make_set(E, v, frozen):
    if v is None:
        return PSet(None, frozen)
    v = E.force(v)
    if isinstance(v, PSet):
        return PSet(E.dict_copy(v.d), frozen)
    if isinstance(v, PDict) and v.rest is not None:
        d = E.dict_copy(v)
        d.kind = 'set'
        return PSet(d, frozen)
    if isinstance(v, PList) and getattr(v, 'view', None) is not None and v.view[1] == 'keys':
        d = E.dict_copy(v.view[0])
        d.kind = 'set'
        return PSet(d, frozen)
    it = E.iterate(v)
    out = PDict(kind='set')
    if isinstance(it, SymIter):
        for x in it.known:
            if E.dict_find(out, x) is None:
                out.entries.append([x, None])
        out.rest = Rest(it.name or 'set', lambda E, k: None, lambda E: it.other())
        return PSet(out, frozen)
    if isinstance(it, list) and len(it) > 64 and all(type(x) is str for x in it):
        out.entries = Entries([x, None] for x in dict.fromkeys(it))
        out.entries.ix = dict((e[0], e) for e in out.entries)
        return PSet(out, frozen)
    for x in it:
        if E.dict_find(out, x) is None:
            out.entries.append([x, None])
    return PSet(out, frozen)


# ------------------------------------------------------------------ builtins
@B('len')
def b_len(E, a, k):
    v = E.force(a[0])
    n = E.len_(v)
    if isinstance(n, LazyLen):
        return E.len_(n.d)
    return n


def b_range(E, a, k):
    a = [E.force(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (lo, hi, st):
        if not isinstance(x, (int, SInt, SBool)):
            if isinstance(x, Opaque):
                raise Unsupported('range of opaque')
            E.raise_(TypeError, 'range() integer argument expected')
    return SRange(lo, hi, st)


BUILTINS['xrange'] = Builtin('xrange', b_range)


@B('range')
def b_range_l(E, a, k):
    r = b_range(E, a, k)
    it = E.iterate(r)
    if isinstance(it, SymIter):
        return r
    return PList(it)


def str_to_int(E, s):
    ok = E.uf('is_int_str', z3.BoolSort(), s)
    if not E.decide(ok):
        E.raise_(ValueError, 'invalid literal for int()')
    return SInt(E.uf('int_of_str', z3.IntSort(), s))


def b_int(E, a, k):
    if not a:
        return 0
    v = E.force(a[0])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            E.raise_(type(e), str(e))
    if isinstance(v, str):
        try:
            if len(a) > 1:
                return int(v, a[1])
            if '_' in v:
                raise ValueError('invalid literal')
            return int(v[:-1] if False else v)
        except ValueError as e:
            E.raise_(ValueError, str(e))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(E.it(v))
    if isinstance(v, SFloat):
        if E.decide(v.k == 3):
            E.raise_(ValueError, 'cannot convert float NaN to integer')
        if E.decide(v.k != 0):
            E.raise_(OverflowError, 'cannot convert float infinity to integer')
        if E.decide(v.v >= 0):
            return SInt(z3.ToInt(v.v))
        return SInt(-z3.ToInt(-v.v))
    if isinstance(v, SStr):
        return str_to_int(E, v)
    if isinstance(v, Opaque):
        return Opaque('int')
    E.raise_(TypeError, 'int() argument must be a string or a number')


BUILTINS['int'] = Builtin('int', b_int)
BUILTINS['long'] = Builtin('long', b_int)


@B('float')
def b_float(E, a, k):
    if not a:
        return 0.0
    v = E.force(a[0])
    if isinstance(v, (int, float)):
        try:
            return float(v)
        except OverflowError as e:
            E.raise_(OverflowError, str(e))
    if isinstance(v, SFloat):
        return v
    if isinstance(v, (SInt, SBool)):
        return E.fl(v)
    if isinstance(v, str):
        try:
            if '_' in v:
                raise ValueError('invalid literal')
            return float(v)
        except ValueError as e:
            E.raise_(ValueError, str(e))
    if isinstance(v, SStr):
        if not E.decide(E.uf('is_float_str', z3.BoolSort(), v)):
            E.raise_(ValueError, 'could not convert string to float')
        kk = E.uf('float_kind_of_str', z3.IntSort(), v)
        E.assume(z3.And(kk >= 0, kk <= 3))
        return SFloat(kk, E.uf('float_of_str', z3.RealSort(), v))
    if isinstance(v, Opaque):
        return Opaque('float')
    E.raise_(TypeError, 'float() argument must be a string or a number')


@B('str')
def b_str(E, a, k):
    return py_str(E, a[0]) if a else ''


BUILTINS['unicode'] = Builtin('unicode', b_str)
BUILTINS['bytes'] = BUILTINS['str']
BUILTINS['basestring'] = Builtin('basestring', None)
BUILTINS['object'] = Builtin('object', lambda E, a, k: Obj(ClassV('object', [], {}, ModV('builtin'))))
BUILTINS['repr'] = Builtin('repr', lambda E, a, k: Opaque('repr'))


@B('bool')
def b_bool(E, a, k):
    v = E.force(a[0]) if a else False
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return SBool(v.t != 0)
    return E.truth(v)


@B('list')
def b_list(E, a, k):
    if not a:
        return PList([])
    v = E.force(a[0])
    if isinstance(v, PList):
        if getattr(v, 'view', None) is not None:
            return v
        return E.list_copy(v)
    it = E.iterate(v)
    if isinstance(it, SymIter):
        if isinstance(v, (PDict, PSet)):
            d = v.d if isinstance(v, PSet) else v
            return KeyView(d, 'keys')
        raise Unsupported('list() of symbolic iterable')
    return PList(it)


@B('tuple')
def b_tuple(E, a, k):
    if not a:
        return ()
    it = E.iterate(a[0])
    if isinstance(it, SymIter):
        raise Unsupported('tuple() of symbolic iterable')
    return tuple(it)


@B('dict')
def b_dict(E, a, k):
    d = PDict()
    if a:
        v = E.force(a[0])
        if isinstance(v, PDict):
            d = E.dict_copy(v)
        else:
            d_update(E, d, v)
    for kk, vv in k.items():
        E.dict_set(d, kk, vv)
    return d


@B('set')
def b_set(E, a, k):
    return make_set(E, a[0] if a else None, False)


@B('frozenset')
def b_frozenset(E, a, k):
    return make_set(E, a[0] if a else None, True)


def type_name(E, v):
    v = E.force(v)
    if v is None:
        return 'NoneType'
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (float, SFloat)):
        return 'float'
    if isinstance(v, (str, SStr)):
        return 'str'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, PDict):
        return 'dict'
    if isinstance(v, PSet):
        return 'frozenset' if v.frozen else 'set'
    if isinstance(v, tuple):
        return 'tuple'
    return None


@B('type')
def b_type(E, a, k):
    v = E.force(a[0])
    n = type_name(E, v)
    if n == 'NoneType':
        return Builtin('NoneType', None)
    if n:
        return BUILTINS[n]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, ExcInst):
        return v.cls
    if isinstance(v, Opaque):
        return Opaque('type')
    raise Unsupported('type(%r)' % (v,))


@B('isinstance')
def b_isinstance(E, a, k):
    v, t = E.force(a[0]), E.force(a[1])
    ts = list(t) if isinstance(t, tuple) else [t]
    n = type_name(E, v)
    for x in ts:
        if isinstance(x, Builtin):
            if n is None:
                if isinstance(v, Opaque):
                    return E.opq_bool(('isinstance', id(v), x.name), v)
                continue
            if x.name == n or x.name == 'object':
                return True
            if x.name in ('long', 'int') and n in ('int', 'bool'):
                # int and long are one mathematical type here
                return True
            if x.name in ('basestring', 'unicode') and n == 'str':
                if x.name == 'basestring':
                    return True
        elif isinstance(x, ClassV):
            if isinstance(v, Obj) and isinstance(v.cls, ClassV) and x in v.cls.mro():
                return True
        elif isinstance(x, type):
            if isinstance(v, ExcInst) and isinstance(v.cls, type) and issubclass(v.cls, x):
                return True
        elif isinstance(x, ExtV):
            if isinstance(v, Obj) and isinstance(v.cls, ExtV) and v.cls.name == x.name:
                return True
            if isinstance(v, Opaque):
                return E.opq_bool(('isinstance', id(v), x.name), v)
        else:
            raise Unsupported('isinstance %r' % (x,))
    return False


def minmax(name):
    def f(E, a, k):
        key = k.get('key')
        if len(a) == 1:
            it = E.iterate(a[0])
            if isinstance(it, SymIter):
                r = None
                kn = it.known
                x = it.other() if not kn else kn[0]
                if isinstance(x, (SFloat, float)):
                    r = E.float('mm', inp=False)
                elif E.is_int(x):
                    r = SInt(E.fresh('mm', z3.IntSort()))
                else:
                    return Opaque(name)
                for y in kn:
                    E.assume(E.boolt(E.lt(r, y, False) if name == 'min' else E.lt(y, r, False)))
                return r
            xs = it
        else:
            xs = a
        if not xs:
            E.raise_(ValueError, '%s() arg is an empty sequence' % name)
        best = E.force(xs[0])
        bk = E.call(key, [best]) if key else best
        for x in xs[1:]:
            x = E.force(x)
            kx = E.call(key, [x]) if key else x
            if E.is_int(bk) and E.is_int(kx) and key is None and not (isinstance(bk, int) and isinstance(kx, int)):
                p, q = E.it(bk), E.it(kx)
                best = bk = SInt(z3.If(q < p, q, p) if name == 'min' else z3.If(q > p, q, p))
                continue
            c = E.lt(kx, bk) if name == 'min' else E.lt(bk, kx)
            if E.truth(c):
                best, bk = x, kx
        return best
    return f


BUILTINS['min'] = Builtin('min', minmax('min'))
BUILTINS['max'] = Builtin('max', minmax('max'))


@B('sum')
def b_sum(E, a, k):
    it = E.iterate(a[0])
    acc = a[1] if len(a) > 1 else 0
    if isinstance(it, SymIter):
        x = it.known[0] if it.known else it.other()
        if E.is_int(x):
            return SInt(E.fresh('sum', z3.IntSort()))
        return E.float('sum', inp=False)
    for x in it:
        acc = E.arith('Add', acc, x)
    return acc


@B('abs')
def b_abs(E, a, k):
    v = E.force(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if E.is_int(v):
        t = E.it(v)
        return SInt(z3.If(t < 0, -t, t))
    if isinstance(v, SFloat):
        return SFloat(z3.simplify(z3.If(v.k == 2, z3.IntVal(1), v.k)), z3.If(v.v < 0, -v.v, v.v))
    if isinstance(v, Opaque):
        return Opaque('abs')
    E.raise_(TypeError, 'bad operand type for abs()')


@B('any')
def b_any(E, a, k):
    it = E.iterate(a[0])
    if isinstance(it, SymIter):
        for x in it.known:
            if E.truth(x):
                return True
        if E.choose(2) == 0:
            if not E.truth(it.other()):
                raise PathEnd()
            return True
        return False
    for x in it:
        if E.truth(x):
            return True
    return False


@B('all')
def b_all(E, a, k):
    it = E.iterate(a[0])
    if isinstance(it, SymIter):
        for x in it.known:
            if not E.truth(x):
                return False
        if E.choose(2) == 0:
            if E.truth(it.other()):
                raise PathEnd()
            return False
        return True
    for x in it:
        if not E.truth(x):
            return False
    return True


@B('sorted')
def b_sorted(E, a, k):
    it = E.iterate(a[0])
    key, rev = k.get('key'), k.get('reverse', False)
    if isinstance(it, SymIter):
        l = PList(length=SInt(E.fresh('sortedlen', z3.IntSort())), name='sorted')
        known = []
        E.assume(l.length.t >= len(it.known))
        for x in it.known:
            p = E.fresh('pos', z3.IntSort())
            E.assume(z3.And(p >= 0, p < l.length.t))
            for q, _ in known:
                E.assume(q.t != p)
            known.append([SInt(p), x])
        l.known = known
        l.factory = lambda E, j: it.other()
        src = E.force(a[0])
        if isinstance(src, (PDict, PSet)) or getattr(src, 'view', None) is not None:
            # the order of distinct keys is not modelled
            l.sorted_of, l.sorted_known = src, list(known)
        return l
    return PList(sort_values(E, it, key, E.truth(rev)))


@B('reversed')
def b_reversed(E, a, k):
    v = E.force(a[0])
    it = E.iterate(v)
    if isinstance(it, SymIter):
        return it
    return PList(list(reversed(it)))


@B('enumerate')
def b_enumerate(E, a, k):
    v = E.force(a[0])
    if isinstance(v, PList) and v.sym:
        return iter_symlist_idx(E, v)
    it = E.iterate(v)
    if isinstance(it, SymIter):
        raise Unsupported('enumerate')
    st = a[1] if len(a) > 1 else 0
    return PList([(i + st, x) for i, x in enumerate(it)])


@B('zip')
def b_zip(E, a, k):
    its = [E.force(x) for x in a]
    if any(isinstance(x, PList) and x.sym for x in its):
        if not all(isinstance(x, PList) for x in its):
            raise Unsupported('zip')
        lens = [E.it(E.len_(x)) for x in its]
        n = lens[0]
        for m in lens[1:]:
            n = z3.If(m < n, m, n)
        n = z3.simplify(n)
        srcs = [E.list_copy(x) for x in its]
        return PList(length=SInt(n), factory=lambda E, j: tuple(E.list_get(s, j) for s in srcs), name='zip')
    its = [E.iterate(x) for x in its]
    if any(isinstance(x, SymIter) for x in its):
        raise Unsupported('zip')
    return PList(list(zip(*its)))


@B('map')
def b_map(E, a, k):
    it = E.iterate(a[1])
    if isinstance(it, SymIter) or len(a) > 2:
        raise Unsupported('map over symbolic')
    return PList([E.call(a[0], [x]) for x in it])


@B('filter')
def b_filter(E, a, k):
    it = E.iterate(a[1])
    if isinstance(it, SymIter):
        raise Unsupported('filter over symbolic')
    return PList([x for x in it if E.truth(E.call(a[0], [x]) if a[0] is not None else x)])


@B('reduce')
def b_reduce(E, a, k):
    it = E.iterate(a[1])
    if isinstance(it, SymIter):
        raise Unsupported('reduce over symbolic')
    xs = list(it)
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = E.call(a[0], [acc, x])
    return acc


@B('next')
def b_next(E, a, k):
    it = E.iterate(a[0])
    if isinstance(it, SymIter):
        raise Unsupported('next')
    if not it:
        if len(a) > 1:
            return a[1]
        E.raise_(StopIteration, '')
    return it[0]


@B('iter')
def b_iter(E, a, k):
    return a[0]


@B('hasattr')
def b_hasattr(E, a, k):
    v = E.force(a[0])
    if isinstance(v, Opaque):
        return E.opq_bool(('hasattr', id(v), a[1]), v)
    try:
        E.getattr(v, a[1])
        return True
    except PyExc as e:
        if isinstance(e.cls, type) and issubclass(e.cls, AttributeError):
            return False
        raise


@B('getattr')
def b_getattr(E, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    try:
        return E.getattr(a[0], a[1])
    except PyExc as e:
        if len(a) > 2 and isinstance(e.cls, type) and issubclass(e.cls, AttributeError):
            return a[2]
        raise


@B('setattr')
def b_setattr(E, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with symbolic name')
    E.setattr(a[0], a[1], a[2])


@B('super')
def b_super(E, a, k):
    return Super(a[0], a[1])


@B('staticmethod')
def b_staticmethod(E, a, k):
    a[0].kind = 'static'
    return a[0]


@B('classmethod')
def b_classmethod(E, a, k):
    a[0].kind = 'class'
    return a[0]


@B('property')
def b_property(E, a, k):
    a[0].kind = 'property'
    return a[0]


@B('divmod')
def b_divmod(E, a, k):
    return (E.arith('FloorDiv', a[0], a[1]), E.arith('Mod', a[0], a[1]))


@B('round')
def b_round(E, a, k):
    v = E.force(a[0])
    if isinstance(v, (int, float)) and len(a) == 1:
        # Python 2 rounds halves away from zero and returns a float
        return math.floor(abs(v) + 0.5) * (1.0 if v >= 0 else -1.0) if v == v and abs(v) != float('inf') else v
    if isinstance(v, (SInt, SFloat)) and len(a) == 1:
        f = E.fl(v)
        if not E.decide(f.k == 0):
            return f
        if E.decide(f.v >= 0):
            return SFloat(z3.IntVal(0), z3.ToReal(z3.ToInt(f.v + z3.Q(1, 2))))
        return SFloat(z3.IntVal(0), -z3.ToReal(z3.ToInt(-f.v + z3.Q(1, 2))))
    return Opaque('round')


@B('ord')
def b_ord(E, a, k):
    v = E.force(a[0])
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    raise Unsupported('ord')


@B('chr')
def b_chr(E, a, k):
    v = E.force(a[0])
    if isinstance(v, int):
        return chr(v)
    raise Unsupported('chr')


@B('pow')
def b_pow(E, a, k):
    if len(a) == 2:
        return E.arith('Pow', a[0], a[1])
    raise Unsupported('pow')


@B('id')
def b_id(E, a, k):
    return id(a[0])


@B('callable')
def b_callable(E, a, k):
    return isinstance(E.force(a[0]), (Func, Bound, Builtin, ClassV))


@B('locals')
def b_locals(E, a, k):
    raise Unsupported('locals()')


# ------------------------------------------------------------------ deepcopy
def deepcopy(E, v, memo=None):
    memo = {} if memo is None else memo
    v = E.force(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PList):
        if not v.sym:
            n = PList([])
            memo[id(v)] = n
            n.items = [deepcopy(E, x, memo) for x in v.items]
            return n
        # freeze the source's contents: both sides read the same frozen factory
        src = PList(length=v.length, factory=v.factory, name=v.name,
                    known=[[i, deepcopy(E, x, {})] for i, x in v.known])
        # elements not materialised yet are created once and copied for each side
        frozen = PList(length=v.length, factory=v.factory, name=v.name, known=[])
        vk = [i for i, _ in v.known]
        n = PList(length=v.length, name=v.name, known=[[i, deepcopy(E, x, memo)] for i, x in v.known])
        base_fac = v.factory

        def fac(E, j):
            return deepcopy(E, E.list_entry(frozen, j)[1])
        v.factory = fac
        n.factory = fac
        n.shape = v.shape
        memo[id(v)] = n
        return n
    if isinstance(v, PDict):
        n = PDict([], None, v.name, v.kind)
        memo[id(v)] = n
        n.entries = [[deepcopy(E, a, memo), deepcopy(E, b, memo)] for a, b in v.entries]
        n.absent = list(v.absent)
        n.default = v.default
        if v.rest is not None:
            r = v.rest
            store = PDict([], None)

            def fac2(E, k):
                for e in store.entries:
                    if E.truth(E.eq(e[0], k)):
                        return deepcopy(E, e[1])
                x = E.force(r.factory(E, k))
                store.entries.append([k, x])
                if E.jr:
                    E.journal.append(lambda: store.entries.pop())
                return deepcopy(E, x)
            E.len_(v)
            nr = Rest(r.name, fac2, r.mkkey, r.shape, r.implied)
            nr.oracle = r.oracle
            v.rest = nr
            n.rest = nr
            n.rest_len = v.rest_len
        return n
    if isinstance(v, PSet):
        n = PSet(deepcopy(E, v.d, memo), v.frozen)
        return n
    if isinstance(v, tuple):
        return tuple(deepcopy(E, x, memo) for x in v)
    if isinstance(v, Obj):
        n = Obj(v.cls, {}, v.ext, v.tag)
        memo[id(v)] = n
        n.attrs = dict((k, deepcopy(E, x, memo)) for k, x in v.attrs.items())
        return n
    return v


# ------------------------------------------------------------------ externals
def noop(E, a, k):
    return None


def math1(name, fn, real=True):
    def f(E, a, k):
        v = E.force(a[0])
        if isinstance(v, (int, float)):
            try:
                return fn(*[float(x) if isinstance(x, (int, float)) else x for x in a])
            except (ValueError, OverflowError) as e:
                E.raise_(type(e), str(e))
            except TypeError:
                pass
        if isinstance(v, Opaque):
            return Opaque(name)
        if v is None or isinstance(v, (str, SStr, PList, PDict)):
            E.raise_(TypeError, 'a float is required')
        return E_math(E, name, a)
    return f


def E_math(E, name, a):
    x = E.fl(a[0])
    if name == 'isnan':
        return SBool(z3.simplify(x.k == 3))
    if name == 'isinf':
        return SBool(z3.simplify(z3.Or(x.k == 1, x.k == 2)))
    zero = z3.IntVal(0)
    if not E.decide(x.k == 0):
        return Opaque('math.' + name)
    if name == 'sqrt':
        if E.decide(x.v < 0):
            E.raise_(ValueError, 'math domain error')
        r = E.uf('sqrt', z3.RealSort(), x)
        E.assume(z3.And(r >= 0, r * r == x.v))
        return SFloat(zero, r)
    if name == 'floor':
        return SFloat(zero, z3.ToReal(z3.ToInt(x.v)))
    if name == 'ceil':
        return SFloat(zero, -z3.ToReal(z3.ToInt(-x.v)))
    if name == 'log':
        if E.decide(x.v <= 0):
            E.raise_(ValueError, 'math domain error')
        b = E.fl(a[1]) if len(a) > 1 else None
        r = E.uf('log' if b is None else 'logb', z3.RealSort(), *([x] if b is None else [x, b]))
        E.assume(z3.And((r > 0) == (x.v > 1), (r == 0) == (x.v == 1)))
        return SFloat(zero, r)
    if name == 'erf':
        r = E.uf('erf', z3.RealSort(), x)
        E.assume(z3.And(r >= -1, r <= 1))
        return SFloat(zero, r)
    r = E.uf('math_' + name, z3.RealSort(), x)
    return SFloat(zero, r)


def ext_time(E, a, k):
    last = E.ghost.get('clock')
    t = E.fresh('now', z3.RealSort())
    E.assume(t >= (last if last is not None else 0))
    E.ghost['clock'] = t
    v = SFloat(z3.IntVal(0), t)
    E.inputs[str(t)] = v
    return v


def twisted_send(E, a, k):
    E.call(E.getattr(E.getattr(a[0], 'transport'), 'writeSequence'), [(a[1], '\r\n')])


def twisted_exceeded(E, a, k):
    E.call(E.getattr(E.getattr(a[0], 'transport'), 'loseConnection'), [])


EXT = {
    'base64.b64encode': b64encode,
    'base64.b64decode': b64decode,
    'binascii.hexlify': hexlify,
    'binascii.unhexlify': unhexlify,
    'twisted.protocols.basic.LineOnlyReceiver.sendLine': twisted_send,
    'twisted.protocols.basic.LineOnlyReceiver.lineLengthExceeded': twisted_exceeded,
    'copy.deepcopy': lambda E, a, k: deepcopy(E, a[0]),
    'copy.copy': lambda E, a, k: E.list_copy(a[0]) if isinstance(a[0], PList) else E.dict_copy(a[0]),
    'time.time': ext_time,
    'time.strftime': lambda E, a, k: Opaque('strftime'),
    'time.gmtime': lambda E, a, k: Opaque('gmtime'),
    'sys.exc_info': lambda E, a, k: (Opaque('et'), Opaque('ev'), Opaque('tb')),
    'traceback.format_exc': lambda E, a, k: Opaque('tb'),
    'collections.OrderedDict': lambda E, a, k: b_dict(E, a, k),
    'yaml.dump': lambda E, a, k: Opaque('yaml'),
}
for _n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig'):
    EXT['logging.' + _n] = noop
for _n, _f in (('isnan', math.isnan), ('isinf', math.isinf), ('sqrt', math.sqrt), ('floor', lambda x: float(math.floor(x))),
               ('ceil', lambda x: float(math.ceil(x))), ('log', math.log), ('exp', math.exp), ('erf', math.erf)):
    EXT['math.' + _n] = math1(_n, _f)

EXT_CONST = {
    'cryptography.hazmat.primitives.hashes.SHA256.digest_size': 32,
    'sys.float_info.max_exp': 1024, 'sys.float_info.min_exp': -1021, 'sys.maxint': 2 ** 31 - 1,
    'math.pi': math.pi, 'sys.float_info.epsilon': 2.220446049250313e-16, 'string.digits': '0123456789',
    'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'string.hexdigits': '0123456789abcdefABCDEF',
    'string.printable': string.printable,
}


def external(E, name):
    if name in EXT_CONST:
        return EXT_CONST[name]
    f = EXT.get(name)

    def wrap(E, a, k):
        c = E.contracts.get(name)
        if c is not None:
            E.p.externals.add(name)
            return c(E, a, k)
        if f is None:
            raise Unsupported('call of external %s' % name)
        E.p.externals.add(name)
        return f(E, a, k)
    if f is not None:
        return Builtin(name, wrap)
    return ExtV(name)
