"""Two theories of strings.  `Seq` uses z3's sequences; `Abs` treats strings as
uninterpreted values with a length, a structural concatenation and
uninterpreted predicates: fewer facts, so whatever is proved holds for real
strings as well, and much faster."""
import z3


class Seq(object):
    def __init__(self, E):
        self.E = E
        self.sort = z3.StringSort()

    def val(self, s):
        return z3.StringVal(s)

    def len(self, t):
        return z3.Length(t)

    def cat(self, ts):
        return z3.Concat(*ts) if len(ts) > 1 else ts[0]

    def eq(self, a, b):
        return a == b

    def contains(self, t, x):
        return z3.Contains(t, x)

    def prefix(self, p, t):
        return z3.PrefixOf(p, t)

    def suffix(self, p, t):
        return z3.SuffixOf(p, t)

    def sub(self, t, a, n):
        return z3.SubString(t, a, n)

    def index(self, t, x):
        return z3.IndexOf(t, x, z3.IntVal(0))

    def lt(self, a, b, strict):
        return a < b if strict else a <= b

    def of_int(self, i):
        return z3.If(i >= 0, z3.IntToStr(i), z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)))

    def is_val(self, t):
        return z3.is_string_value(t)

    def text(self, t):
        return zstr(t)

    def leaves(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for c in t.children():
                out.extend(self.leaves(c))
            return out
        return [t]

    def model_text(self, m, t):
        return zstr(m.eval(t, model_completion=True))


STR = z3.DeclareSort('Str')
SLEN = z3.Function('slen', STR, z3.IntSort())
SID = z3.Function('sid', STR, z3.IntSort())
CAT = z3.Function('cat', STR, STR, STR)
INT = z3.Function('int_to_str', z3.IntSort(), STR)
INTV = z3.Function('str_to_int', STR, z3.IntSort())


class Abs(object):
    ids = {}

    def __init__(self, E):
        self.E = E
        self.sort = STR
        self.texts = {}
        self.facts = {}

    def fact(self, key, f):
        """Assume f unless it is already part of the path condition."""
        i = self.facts.get(key)
        pc = self.E.pc
        if i is not None and i[0] < len(pc) and pc[i[0]] is i[1]:
            return
        n = len(pc)
        self.E.assume(f)
        if len(pc) > n:
            self.facts[key] = (n, pc[n])

    def val(self, s):
        c = z3.Const('"%s"' % s, STR)
        self.texts[c.get_id()] = (s, c)
        k = Abs.ids.setdefault(s, len(Abs.ids) + 1)
        self.fact(s, z3.And(SID(c) == k, SLEN(c) == len(s)))
        return c

    def is_val(self, t):
        return t.get_id() in self.texts

    def text(self, t):
        return self.texts[t.get_id()][0]

    def len(self, t):
        ls = self.leaves(t)
        n = sum(len(self.text(x)) for x in ls if self.is_val(x))
        sym = [x for x in ls if not self.is_val(x)]
        for x in sym:
            self.fact(('len', x.get_id()), SLEN(x) >= 0)
        if not sym:
            return z3.IntVal(n)
        r = SLEN(sym[0])
        for x in sym[1:]:
            r = r + SLEN(x)
        r = r + n if n else r
        if len(ls) > 1:
            self.fact(('len', t.get_id()), SLEN(t) == r)
        return r

    def leaves(self, t):
        out = []
        while z3.is_app(t) and t.decl().eq(CAT):
            out.append(t.arg(0))
            t = t.arg(1)
        return out + [t]

    def pieces(self, t):
        return [self.text(x) if self.is_val(x) else x for x in self.leaves(t)]

    def build(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return self.val('')
        ts = [self.val(p) if isinstance(p, str) else p for p in out]
        r = ts[-1]
        for x in reversed(ts[:-1]):
            r = CAT(x, r)
        return r

    def cat(self, ts):
        ps = []
        for t in ts:
            ps.extend(self.pieces(t))
        r = self.build(ps)
        self.len(r)
        return r

    def strip_common(self, a, b):
        """Remove the common beginning; None when they certainly differ there."""
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return None
                a = ([x[n:]] if x[n:] else []) + a[1:]
                b = ([y[n:]] if y[n:] else []) + b[1:]
            elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
                a, b = a[1:], b[1:]
            else:
                break
        return a, b

    def strip_end(self, a, b):
        while a and b:
            x, y = a[-1], b[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[len(x) - n:] != y[len(y) - n:]:
                    return None
                a = a[:-1] + ([x[:len(x) - n]] if len(x) > n else [])
                b = b[:-1] + ([y[:len(y) - n]] if len(y) > n else [])
            elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y):
                a, b = a[:-1], b[:-1]
            else:
                break
        return a, b

    def eq(self, s, t):
        if s.eq(t):
            return z3.BoolVal(True)
        r = self.strip_common(self.pieces(s), self.pieces(t))
        r = r and self.strip_end(*r)
        if r is None:
            return z3.BoolVal(False)
        a, b = r
        if not a and not b:
            return z3.BoolVal(True)
        if not a or not b:
            rest = a or b
            if any(isinstance(x, str) and x for x in rest):
                return z3.BoolVal(False)
            e = self.val('')
            return z3.And(*[x == e for x in rest])
        x, y = self.build(a), self.build(b)
        lx, ly = self.len(x), self.len(y)
        if self.E.nolen(lx, ly):
            return z3.BoolVal(False)
        self.fact(('nil', x.get_id()), z3.Implies(self.slen(x) == 0, x == self.val('')))
        self.fact(('nil', y.get_id()), z3.Implies(self.slen(y) == 0, y == self.val('')))
        return x == y

    def slen(self, t):
        return SLEN(t)

    def contains(self, t, x):
        if self.is_val(x):
            s = self.text(x)
            if any(s in p for p in self.pieces(t) if isinstance(p, str)) or s == '':
                return z3.BoolVal(True)
            if self.is_val(t):
                return z3.BoolVal(False)
            ps = self.pieces(t)
            if len(s) == 1 and len(ps) > 1:
                return z3.Or(*[self.E.ufraw('contains', z3.BoolSort(), p, x) for p in ps if not isinstance(p, str)])
        if any(p.eq(x) for p in self.pieces(t) if not isinstance(p, str)):
            return z3.BoolVal(True)
        return self.E.ufraw('contains', z3.BoolSort(), t, x)

    def split(self, p, sep):
        """The parts of p, which contains sep, before and after the first sep."""
        x = self.val(sep)
        h, l = self.E.ufraw('before', STR, p, x), self.E.ufraw('after', STR, p, x)
        self.fact(('split', h.get_id()), z3.And(p == CAT(h, CAT(x, l)), SLEN(h) >= 0, SLEN(l) >= 0, SLEN(p) == SLEN(h) + len(sep) + SLEN(l),
                                                z3.Not(self.E.ufraw('contains', z3.BoolSort(), h, x))))
        return h, l

    def prefix(self, p, t):
        r = self.strip_common(self.pieces(p), self.pieces(t))
        if r is None:
            return z3.BoolVal(False)
        a, b = r
        if not a:
            return z3.BoolVal(True)
        if not b and any(isinstance(x, str) and x for x in a):
            return z3.BoolVal(False)
        x, y = self.build(a), self.build(b)
        f = self.E.ufraw('prefixof', z3.BoolSort(), x, y)
        self.fact(('pre', x.get_id(), y.get_id()), z3.And(z3.Implies(x == y, f),
                                                          z3.Implies(f, self.len(x) <= self.len(y))))
        return f

    def suffix(self, p, t):
        r = self.strip_end(self.pieces(p), self.pieces(t))
        if r is None:
            return z3.BoolVal(False)
        a, b = r
        if not a:
            return z3.BoolVal(True)
        if not b and any(isinstance(x, str) and x for x in a):
            return z3.BoolVal(False)
        x, y = self.build(a), self.build(b)
        f = self.E.ufraw('suffixof', z3.BoolSort(), x, y)
        self.fact(('suf', x.get_id(), y.get_id()), z3.And(z3.Implies(x == y, f),
                                                          z3.Implies(f, self.len(x) <= self.len(y))))
        return f

    def sub(self, t, a, n):
        a, n = z3.simplify(a), z3.simplify(n)
        if z3.is_int_value(a) and a.as_long() == 0 and (n.eq(z3.simplify(self.len(t)))):
            return t
        r = self.E.ufraw('substr', STR, t, a, n)
        self.fact(('sub', r.get_id()), z3.And(SLEN(r) >= 0, z3.Implies(n >= 0, SLEN(r) <= n),
                                              z3.Implies(z3.And(a >= 0, n >= 0, a + n <= self.len(t)), SLEN(r) == n)))
        return r

    def index(self, t, x):
        i = self.E.ufraw('indexof', z3.IntSort(), t, x)
        self.fact(('idx', i.get_id()), z3.And(i >= -1, i <= self.len(t), (i >= 0) == self.contains(t, x)))
        return i

    def lt(self, a, b, strict):
        f = self.E.ufraw('str_le', z3.BoolSort(), a, b)
        return z3.And(f, a != b) if strict else f

    def of_int(self, i):
        r = INT(i)
        self.fact(('int', r.get_id()), z3.And(INTV(r) == i, SLEN(r) >= 1))
        return r

    def model_text(self, m, t):
        v = m.eval(t, model_completion=True)
        for s, c in self.texts.values():
            if m.eval(c, model_completion=True).eq(v):
                return s
        n = m.eval(SLEN(t), model_completion=True).as_long()
        s = str(v)
        s = ''.join(c for c in s if c.isalnum())
        return (s * (max(n, 0) // max(len(s), 1) + 1))[:max(0, min(n, 100000))]


def zstr(s):
    """z3 string value -> Python str (latin-1 range)."""
    x = s.as_string()
    out = []
    i = 0
    while i < len(x):
        if x.startswith('\\u{', i):
            j = x.index('}', i)
            out.append(chr(int(x[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(x[i])
            i += 1
    return ''.join(out)
