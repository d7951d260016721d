"""Path-based symbolic executor / VC generator for the Python 2 subset used by
privcount.  It interprets the AST that the program's own parser (Jython)
produced from /repo's current source.  Verification conditions go to z3, and
to cvc5 when z3 does not answer.

Exploration is by re-execution: a unit (one contract) is run from scratch for
every path, with a list of branch decisions.  Heap objects are therefore plain
mutable Python objects.  Loops over collections of symbolic size are cut: the
locations the body writes are found by executing the body on an arbitrary
element (to a fixpoint), havocked (keeping what provably survives), and the
body is executed once for each distinguished ("generic") element.
"""
import subprocess, tempfile, os, time, hashlib
import z3
import strings
from values import *
from values import _sn

SYMS = {}
SLOW = float(os.environ.get('PV_SLOW', '0'))
FEAS_TIMEOUT = int(os.environ.get('PV_FEAS_MS', '4000'))
PROVE_TIMEOUT = int(os.environ.get('PV_PROVE_MS', '20000'))

MISSING = object()


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        Exception.__init__(self)
        self.v = v


class Budget(Exception):
    pass


class TimeUp(BaseException):
    pass


class Stale(Exception):
    """A loop fact depends on state that has changed since."""


def bm():
    import builtins_model
    return builtins_model


def keyview(l):
    return getattr(l, 'parts', None) is not None or getattr(l, 'view', None) is not None and l.view[1] == 'keys'


class Frame(Heap):
    def __init__(self, func, module, closure=None):
        self.func, self.module, self.closure = func, module, closure
        self.vars = {}
        self.locals = None
        self.globals_decl = set()
        self.is_class = False


def node_locals(fn):
    c = fn.get('$locals')
    if c is None:
        c, g = set(), set()
        for a in fn['args']['args']:
            collect_target(a, c)
        for x in (fn['args']['vararg'], fn['args']['kwarg']):
            if x:
                c.add(const(x))
        if isinstance(fn['body'], list):
            for st in fn['body']:
                collect_stmt(st, c, g)
        c = c - g
        fn['$locals'] = c
        fn['$globals'] = g
    return c


def const(x):
    if isinstance(x, dict):
        if '$s' in x:
            return x['$s']
        if '$long' in x:
            return int(x['$long'])
        if '$float' in x:
            return float(x['$float'])
        if '$uni' in x:
            return ''.join(chr(c) for c in x['$uni'])
        if x.get('_') == 'Name':
            return const(x['id'])
        if x.get('_') == 'Num':
            return const(x['n'])
    return x


def collect_target(t, c):
    k = t['_']
    if k == 'Name':
        c.add(const(t['id']))
    elif k in ('Tuple', 'List'):
        for e in t['elts']:
            collect_target(e, c)


def collect_stmt(st, c, g):
    k = st['_']
    if k in ('FunctionDef', 'ClassDef'):
        c.add(const(st['name']))
        return
    if k == 'Global':
        for n in st['names']:
            g.add(const(n))
        return
    if k == 'Assign':
        for t in st['targets']:
            collect_target(t, c)
    elif k == 'AugAssign':
        collect_target(st['target'], c)
    elif k == 'For':
        collect_target(st['target'], c)
    elif k in ('Import', 'ImportFrom'):
        for a in st['names']:
            n = const(a['asname']) or const(a['name'])
            c.add(n.split('.')[0])
    elif k == 'With':
        if st['optional_vars']:
            collect_target(st['optional_vars'], c)
    for f in ('body', 'orelse', 'finalbody', 'handlers'):
        v = st.get(f)
        if isinstance(v, list):
            for s in v:
                if isinstance(s, dict):
                    if s['_'] == 'ExceptHandler':
                        if s['name']:
                            collect_target(s['name'], c)
                        for q in s['body']:
                            collect_stmt(q, c, g)
                    else:
                        collect_stmt(s, c, g)
    # list comprehension targets leak into the enclosing scope in Python 2
    for lc in find_listcomps(st):
        for gen in lc['generators']:
            collect_target(gen['target'], c)


def find_listcomps(n, out=None):
    if out is None:
        out = []
    if isinstance(n, dict):
        if n.get('_') in ('FunctionDef', 'ClassDef', 'Lambda') and out is not None and n.get('$top') is None:
            if n.get('_') != 'Lambda':
                return out
        if n.get('_') == 'ListComp':
            out.append(n)
        for kk, v in n.items():
            if kk in ('body', 'orelse', 'finalbody', 'handlers') and isinstance(v, list):
                continue
            if isinstance(v, (dict, list)):
                find_listcomps(v, out)
    elif isinstance(n, list):
        for v in n:
            find_listcomps(v, out)
    return out


class Program(object):
    """The extracted AST of the modules, shared by all paths."""
    def __init__(self, asts):
        self.asts = asts
        self.modules = {}
        self.called = set()     # qualified names of functions whose body was executed
        self.externals = set()  # external functions that were modelled


def is_z3_true(c):
    return z3.is_true(c)


class Engine(object):
    """State of one path; `explore` in runner creates one per path."""

    def __init__(self, program, unit, prefix, stats, opts):
        self.p = program
        self.unit = unit
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # decisions taken
        self.alternatives = []   # prefixes still to explore
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_TIMEOUT)
        self.pc = []
        self.lits = {}
        self.keep = []
        self.names = {}
        self.inputs = {}
        self.journal = []
        self.logging_writes = None
        self.inner = 0
        self.jr = True
        self.probe = None
        self.shapes = dict((getattr(unit, 'opts', None) or {}).get('shapes') or {})
        self.loop_var = None
        self.loop_known = ()
        self.loop_src = None
        self.loop_over = None
        self.implied_shapes = {}
        self.S = {'seq': strings.Seq, 'abs': strings.Abs}[(getattr(unit, 'opts', None) or {}).get('strings', 'seq')](self)
        self.strfacts = (getattr(unit, 'opts', None) or {}).get('strfacts', True)
        self.words, self.strips, self.keep_terms = {}, {}, []
        self.main_slow = 0
        self.wclock = 0
        self.range_facts = []
        self.stamps = {}
        self.fact_clock = None
        self.fact_var = None
        self.fact_sn = 0
        self.fact_depth = 0
        self.depth = 0
        self.modules = program.modules
        self.taint = []
        self.forker = None
        self.deadline = opts.get('deadline') or 1e18
        self.contracts = dict(unit.contracts) if unit is not None else {}
        self.summaries = dict(unit.opts.get('summaries') or {}) if unit is not None else {}
        self.loop_hints = dict(getattr(unit, 'loop_hints', {}) or {})
        self.events = []         # ghost trace, for contracts on externals
        self.generic_idx = []
        self.ufs = {}
        self.opq = {}
        self.line = None
        self.where = None
        self.steps = 0
        self.ghost = {}
        self.loop_counter = 0
        self.exc_stack = []
        self.frames = []

    # ---------------------------------------------------------------- solver
    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self._assert(c)

    def _assert(self, c):
        self.solver.add(c)
        self.pc.append(c)
        self.keep.append(c)
        if z3.is_not(c):
            self.lits[c.arg(0).get_id()] = False
        self.lits[c.get_id()] = True

    def check(self, *extra):
        self.stats['feas'] += 1
        t = time.time()
        if t > self.deadline:
            raise TimeUp()
        if extra and self.pc and any(self.syms(c)[1] for c in self.pc):
            r = z3.unknown
            if self.main_slow < 3:
                self.solver.set('timeout', 60)
                r = self.solver.check(*extra)
                self.solver.set('timeout', FEAS_TIMEOUT)
            if r == z3.unknown:
                self.main_slow += 1
                cs = self.slice(extra)
                if cs is None:
                    r = self.solver.check(*extra)
                else:
                    s = z3.Solver()
                    s.set('timeout', FEAS_TIMEOUT)
                    s.add(*(cs + list(extra)))
                    r = s.check()
        else:
            r = self.solver.check(*extra)
        self.stats['feas_s'] += time.time() - t
        if SLOW and time.time() - t > SLOW:
            open('/tmp/slow.%d' % os.getpid(), 'w').write('%s %.1f\n%s\n%s' % (r, time.time() - t, extra, self.solver.sexpr()))
        return r

    def syms(self, t):
        """Uninterpreted symbols of a term, and whether strings occur in it."""
        got = SYMS.get(t.get_id())
        if got is not None and got[0].eq(t):
            return got[1], got[2]
        out, strs, seen, todo = set(), False, set(), [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            if x.sort_kind() == z3.Z3_SEQ_SORT:
                strs = True
            todo.extend(x.children())
        SYMS[t.get_id()] = (t, out, strs)
        return out, strs

    def slice(self, extra):
        """The part of the path condition that shares symbols with the query; None if slicing does not help."""
        if not any(self.syms(c)[1] for c in self.pc):
            return None
        want = set()
        for c in extra:
            want |= self.syms(c)[0]
        rest, take, grew = list(self.pc), [], True
        while grew and rest:
            grew = False
            keep = []
            for c in rest:
                sy = self.syms(c)[0]
                if not sy or want & sy:
                    take.append(c)
                    if not sy <= want:
                        want |= sy
                        grew = True
                else:
                    keep.append(c)
            rest = keep
        return take if rest else None

    def feasible(self):
        return self.check() != z3.unsat

    def _take(self, options):
        """options: list of z3 conds or None (unconstrained). Returns index."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(i)
            if options[i] is not None:
                self._assert(options[i])
            return i
        ok = []
        for i, c in enumerate(options):
            if c is None:
                ok.append(i)
            else:
                if self.check(c) != z3.unsat:
                    ok.append(i)
        if not ok:
            raise PathEnd()
        if len(ok) > 1 and not self.inner and self.forker is not None:
            for i in ok[1:]:
                if self.forker.spawn(self):
                    ok = [i]
                    break
        else:
            for i in ok[1:]:
                self.alternatives.append(self.trace + [i])
        self.pos += 1
        self.prefix = self.trace + [ok[0]]
        self.trace.append(ok[0])
        if options[ok[0]] is not None:
            self._assert(options[ok[0]])
        return ok[0]

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        base = c.arg(0) if neg else c
        v = self.lits.get(base.get_id())
        if v is not None:
            return v != neg
        i = self._take([c, z3.simplify(z3.Not(c))])
        return i == 0

    def choose(self, n, label=None):
        return self._take([None] * n)

    def choose_val(self, vals, name=None):
        v = vals[self.choose(len(vals))]
        if name:
            self.inputs[name] = v
        return v

    def fresh(self, name, sort):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        c = z3.Const(name if k == 0 else '%s!%d' % (name, k), sort)
        self.keep.append(c)
        return c

    def int(self, name, lo=None, hi=None, inp=True):
        t = self.fresh(name, z3.IntSort())
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        v = SInt(t)
        if inp:
            self.inputs[str(t)] = v
        return v

    def bool(self, name, inp=True):
        v = SBool(self.fresh(name, z3.BoolSort()))
        if inp:
            self.inputs[str(v.t)] = v
        return v

    def str(self, name, inp=True):
        v = SStr(self.fresh(name, self.S.sort))
        if inp:
            self.inputs[str(v.t)] = v
        return v

    def float(self, name, inp=True, finite=False):
        val = self.fresh(name, z3.RealSort())
        if finite:
            v = SFloat(z3.IntVal(0), val)
        else:
            k = self.fresh(name + '.kind', z3.IntSort())
            self.assume(z3.And(k >= 0, k <= 3))
            v = SFloat(k, val)
        if inp:
            self.inputs[str(val)] = v
        return v

    def uf(self, name, sort, *args):
        terms = [self.term(a) for a in args]
        key = (name, tuple(str(t.sort()) for t in terms), str(sort))
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function(name, *([t.sort() for t in terms] + [sort])) if terms else z3.Const(name, sort)
            self.ufs[key] = f
        return f(*terms) if terms else f

    def ufraw(self, name, sort, *terms):
        key = (name, tuple(str(t.sort()) for t in terms), str(sort))
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function(name, *([t.sort() for t in terms] + [sort]))
        return f(*terms)

    def nolen(self, x, y):
        """The two lengths certainly differ."""
        d = z3.simplify(x - y)
        return z3.is_int_value(d) and d.as_long() != 0

    def term(self, v):
        if isinstance(v, (SInt, SBool, SStr)):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str):
            return self.S.val(v)
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, (float, SFloat)):
            return self.fl(v).v
        raise Unsupported('no term for %r' % (v,))

    # ------------------------------------------------------------ obligations
    def prove(self, name, c, detail=None):
        """One verification condition: path condition implies c."""
        if self.inner:
            if self.probe is not None:
                self.probe['proofs'] += 1
            return
        if isinstance(c, SBool):
            c = c.t
        st = self.stats['obl'].setdefault(name, {'vcs': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0,
                                                 'failed': [], 'unknown': [], 'time': 0.0})
        st['vcs'] += 1
        t0 = time.time()
        if c is True or (not isinstance(c, bool) and z3.is_true(z3.simplify(c))):
            st['trivial'] += 1
            # path condition must be satisfiable somewhere: see cover below
            self._cover(st)
            return True
        if c is False:
            c = z3.BoolVal(False)
        self.solver.push()
        self.solver.set('timeout', PROVE_TIMEOUT)
        self.solver.add(z3.Not(c))
        r = None
        cs = self.slice([c])
        if cs is not None:
            s = z3.Solver()
            s.set('timeout', PROVE_TIMEOUT)
            s.add(*(cs + [z3.Not(c)]))
            if s.check() == z3.unsat:
                r = z3.unsat
        if r is None:
            r = self.solver.check()
        res = None
        if r == z3.unsat:
            st['z3'] += 1
            res = True
            if self.opts.get('second') and not self._cvc5_agrees(st):
                pass
        elif r == z3.sat:
            m = self.solver.model()
            st['failed'].append({'inputs': self.concretise(m), 'detail': detail, 'path': list(self.trace),
                                 'taint': list(self.taint), 'condition': str(c)[:600], 'line': self.line})
            res = False
            if os.environ.get('PV_PC'):
                st['failed'][-1]['pc'] = [str(x)[:160] for x in self.pc]
        else:
            r2 = self._cvc5(self.solver.sexpr())
            if r2 == 'unsat':
                st['cvc5'] += 1
                res = True
            else:
                st['unknown'].append({'reason': 'z3: %s, cvc5: %s' % (self.solver.reason_unknown(), r2),
                                      'path': list(self.trace), 'detail': detail,
                                      'condition': str(c)[:600]})
        self.solver.pop()
        self.solver.set('timeout', FEAS_TIMEOUT)
        st['time'] += time.time() - t0
        if res:
            self._cover(st)
        return res

    def _cover(self, st):
        if not st.get('covered'):
            if self.check() == z3.sat:
                st['covered'] = True

    def _cvc5(self, sexpr):
        src = '(set-logic ALL)\n' + sexpr + '\n(check-sat)\n'
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        try:
            os.write(fd, src.encode('utf-8'))
            os.close(fd)
            try:
                out = subprocess.run(['cvc5', '--tlimit=%d' % PROVE_TIMEOUT, '--strings-exp', fn],
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     timeout=PROVE_TIMEOUT / 1000.0 + 5)
                o = out.stdout.decode('utf-8', 'replace').strip().splitlines()
                return o[0] if o else 'none'
            except subprocess.TimeoutExpired:
                return 'timeout'
        finally:
            os.unlink(fn)

    def _cvc5_agrees(self, st):
        r = self._cvc5(self.solver.sexpr())
        st['second'] = st.get('second', 0) + (1 if r == 'unsat' else 0)
        if r == 'sat':
            st['failed'].append({'inputs': {}, 'detail': 'z3 says unsat, cvc5 says sat', 'path': list(self.trace),
                                 'taint': ['solver disagreement'], 'condition': '', 'line': self.line})
            return False
        st['second_unknown'] = st.get('second_unknown', 0) + (0 if r == 'unsat' else 1)
        return True

    def fail(self, name, detail=None):
        return self.prove(name, False, detail)

    def concretise(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = self._conc(m, v)
            except Exception as e:    # noqa
                out[k] = {'unrepresentable': str(e)}
        return out

    def _conc(self, m, v):
        if isinstance(v, SInt):
            return m.eval(v.t, model_completion=True).as_long()
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SStr):
            return self.S.model_text(m, v.t)
        if isinstance(v, SFloat):
            k = m.eval(v.k, model_completion=True).as_long()
            if k == 1:
                return {'float': 'inf'}
            if k == 2:
                return {'float': '-inf'}
            if k == 3:
                return {'float': 'nan'}
            x = m.eval(v.v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            return {'float': repr(float(x.numerator_as_long()) / float(x.denominator_as_long()))}
        if isinstance(v, float):
            return {'float': repr(v)}
        if isinstance(v, (list, tuple)):
            return [self._conc(m, x) for x in v]
        if type(v).__name__ == 'Keys':
            return {'keys': [self._conc(m, x) for x in v.keys],
                    'len': None if v.length is None else self._conc(m, v.length)}
        if isinstance(v, PList) and not v.sym:
            return [self._conc(m, x) for x in v.items]
        if isinstance(v, PDict) and v.rest is None:
            return {'dict': [[self._conc(m, a), self._conc(m, b)] for a, b in v.entries]}
        if v is None or isinstance(v, (int, str, bool)):
            return v
        return {'opaque': repr(v)}

    # ------------------------------------------------------------ write log
    def stale(self, obj, slot=None):
        """Inside the replay of a loop fact: was this location written since?"""
        if self.fact_clock is not None and self.stamps.get((id(obj), slot), 0) > self.fact_clock and \
                not (isinstance(obj, Heap) and obj.sn > self.fact_sn):
            raise Stale()

    def stale_at(self, c, k, factory):
        """Container c read at key/index k inside the replay of a loop fact."""
        self.stale(c)
        if self.stamps.get((id(c), 'others'), 0) > self.fact_clock:
            if not (getattr(factory, 'mid', False) and isinstance(k, Sym) and isinstance(self.fact_var, Sym) and
                    k.t.eq(self.fact_var.t)):
                raise Stale()

    def run_facts(self, facts, elem):
        """Instantiate universally quantified facts left by completed loops."""
        if not facts or self.fact_depth >= 3:
            return
        for f in list(facts):
            saved = (self.fact_clock, self.loop_var, self.depth, list(self.frames), self.where, self.line,
                     self.logging_writes)
            self.fact_depth += 1
            if self.fact_clock is None:
                self.fact_var = self.loop_var
                self.fact_sn = _sn[0]       # younger objects are materialised by the replay itself
            self.fact_clock = f[0] if self.fact_clock is None else min(f[0], self.fact_clock)
            self.logging_writes = None
            try:
                f[1](elem)
            except Stale:
                pass
            except (BreakX, ReturnX, PyExc):
                raise PathEnd()          # the completed loop did not leave through this element
            finally:
                self.fact_depth -= 1
                (self.fact_clock, self.loop_var, self.depth, self.frames, self.where, self.line,
                 self.logging_writes) = saved

    def wrote(self, obj, slot, undo, val=MISSING):
        self.wclock += 1
        k = (id(obj), slot[1] if slot[0] in ('attr', 'local') else 'others' if slot == ('others',) else None)
        self.stamps[k] = self.wclock
        self.keep.append(obj)
        if self.logging_writes is not None:
            key = (id(obj), slot)
            ent = self.logging_writes.get(key)
            if ent is None:
                ent = self.logging_writes[key] = [obj, slot, []]
            ent[2].append(val)
        if self.jr:
            self.journal.append(undo)

    def set_attr_raw(self, obj, name, val):
        old = obj.attrs.get(name, MISSING)

        def undo():
            if old is MISSING:
                obj.attrs.pop(name, None)
            else:
                obj.attrs[name] = old
        self.wrote(obj, ('attr', name), undo, val)
        obj.attrs[name] = val

    def set_local(self, frame, name, val):
        old = frame.vars.get(name, MISSING)

        def undo():
            if old is MISSING:
                frame.vars.pop(name, None)
            else:
                frame.vars[name] = old
        self.wrote(frame, ('local', name), undo, val)
        frame.vars[name] = val

    # ------------------------------------------------------------ inner exploration
    def explore_inner(self, fn, max_paths=3000):
        """Run fn on every path from the current state, undoing its effects.
        Returns a list of (outcome, writes)."""
        saved = (self.prefix, self.pos, self.trace, self.alternatives, dict(self.lits), dict(self.names),
                 dict(self.inputs), self.logging_writes, list(self.taint), list(self.pc), list(self.events),
                 dict(self.ghost), self.depth, list(self.frames), self.loop_counter)
        outer_writes = self.logging_writes
        work = [[]]
        results = []
        self.inner += 1
        try:
            while work:
                if len(results) > max_paths:
                    raise Unsupported('too many paths in a loop body')
                pref = work.pop()
                self.solver.push()
                jm = len(self.journal)
                self.prefix, self.pos, self.trace, self.alternatives = list(pref), 0, [], []
                self.lits, self.names = dict(saved[4]), dict(saved[5])
                self.inputs, self.taint = dict(saved[6]), list(saved[8])
                self.pc, self.events, self.ghost = list(saved[9]), list(saved[10]), dict(saved[11])
                self.logging_writes = {}
                self.depth = saved[12]
                self.frames = list(saved[13])
                self.loop_counter = saved[14]
                try:
                    try:
                        out = fn()
                    except PathEnd:
                        out = None
                    if out is not None:
                        results.append((out, self.logging_writes))
                finally:
                    work.extend(self.alternatives)
                    for u in reversed(self.journal[jm:]):
                        u()
                    del self.journal[jm:]
                    self.solver.pop()
        finally:
            self.inner -= 1
            (self.prefix, self.pos, self.trace, self.alternatives, self.lits, self.names,
             self.inputs, self.logging_writes, self.taint, self.pc, self.events, self.ghost, self.depth,
             self.frames, self.loop_counter) = saved
            self.logging_writes = outer_writes
        return results

    # ------------------------------------------------------------ numbers
    def is_int(self, v):
        return isinstance(v, (int, SInt, SBool)) and not isinstance(v, float)

    def is_float(self, v):
        return isinstance(v, (float, SFloat))

    def is_num(self, v):
        return isinstance(v, (int, SInt, SBool, float, SFloat))

    def it(self, v):
        """Int term."""
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        raise Unsupported('int expected, got %r' % (v,))

    def fl(self, v):
        """SFloat of any number."""
        if isinstance(v, SFloat):
            return v
        if isinstance(v, float):
            if v != v:
                return SFloat(z3.IntVal(3), z3.RealVal(0))
            if v == float('inf'):
                return SFloat(z3.IntVal(1), z3.RealVal(0))
            if v == float('-inf'):
                return SFloat(z3.IntVal(2), z3.RealVal(0))
            n, d = v.as_integer_ratio()
            return SFloat(z3.IntVal(0), z3.Q(n, d))
        return SFloat(z3.IntVal(0), z3.ToReal(self.it(v)))

    def finite(self, f):
        return z3.simplify(f.k == 0)

    def arith(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('arith')
        na = isinstance(a, (int, float))
        nb = isinstance(b, (int, float))
        if na and nb:
            return self.native_arith(op, a, b)
        if self.is_num(a) and self.is_num(b):
            if self.is_float(a) or self.is_float(b):
                return self.float_arith(op, a, b)
            return self.int_arith(op, a, b)
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return SStr(self.S.cat([self.term(a), self.term(b)]))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                return self.list_concat(a, b)
        if op == 'Mult':
            if isinstance(b, (PList, str)) and isinstance(a, int):
                a, b = b, a
            if isinstance(a, PList) and not a.sym and isinstance(b, int):
                return PList(a.items * b)
            if isinstance(a, str) and isinstance(b, int):
                return a * b
        if op == 'Mod' and isinstance(a, str):
            return self.percent_format(a, b)
        if op == 'Sub' and isinstance(a, PSet) and isinstance(b, PSet):
            return self.set_op('difference', a, b)
        if op in ('BitOr', 'BitAnd') and isinstance(a, PSet) and isinstance(b, PSet):
            return self.set_op('union' if op == 'BitOr' else 'intersection', a, b)
        bad = (type(None), str, SStr, PList, PDict, tuple, Obj)
        if isinstance(a, bad) or isinstance(b, bad):
            self.raise_(TypeError, 'unsupported operand type(s) for %s' % op)
        raise Unsupported('arith %s %r %r' % (op, a, b))

    def percent_format(self, a, b):
        if isinstance(b, (str, int, float)):
            try:
                return a % b
            except (TypeError, ValueError) as e:
                self.raise_(type(e), str(e))
        if isinstance(b, tuple) and all(isinstance(x, (str, int, float)) for x in b):
            try:
                return a % b
            except (TypeError, ValueError) as e:
                self.raise_(type(e), str(e))
        return Opaque('%-format')

    def native_arith(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                if isinstance(a, int) and isinstance(b, int):
                    return a // b
                return a / b
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
            if op == 'BitOr':
                return a | b
            if op == 'BitAnd':
                return a & b
            if op == 'BitXor':
                return a ^ b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
        except ZeroDivisionError:
            self.raise_(ZeroDivisionError, 'division by zero')
        except OverflowError as e:
            self.raise_(OverflowError, str(e))
        raise Unsupported('native %s' % op)

    def int_arith(self, op, a, b):
        x, y = self.it(a), self.it(b)
        if op == 'Add':
            return SInt(x + y)
        if op == 'Sub':
            return SInt(x - y)
        if op == 'Mult':
            return SInt(x * y)
        if op in ('Div', 'FloorDiv', 'Mod'):
            if self.decide(y == 0):
                self.raise_(ZeroDivisionError, 'integer division or modulo by zero')
            if self.decide(y > 0):
                return SInt(x % y) if op == 'Mod' else SInt(x / y)
            q = (-x) / (-y)
            return SInt(x - y * q) if op == 'Mod' else SInt(q)
        if op == 'Pow':
            if isinstance(b, int) and 0 <= b <= 8:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return SInt(r)
            if isinstance(a, int) and a == 2:
                # powers of two as an uninterpreted function with its defining facts
                f = self.uf('pow2', z3.IntSort(), SInt(y))
                self.assume(z3.Implies(y >= 0, f >= 1))
                return SInt(f)
        if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
            if isinstance(b, int) and op == 'LShift' and 0 <= b < 4096:
                return SInt(x * z3.IntVal(2 ** b))
            if isinstance(b, int) and op == 'RShift' and 0 <= b < 4096:
                return SInt(x / z3.IntVal(2 ** b))
            if isinstance(b, int) and op == 'BitAnd' and b >= 0 and (b & (b + 1)) == 0:
                return SInt(x % z3.IntVal(b + 1))
        raise Unsupported('int %s' % op)

    def float_arith(self, op, a, b):
        x, y = self.fl(a), self.fl(b)
        if self.decide(z3.And(x.k == 0, y.k == 0)):
            zero = z3.IntVal(0)
            if op == 'Add':
                return SFloat(zero, x.v + y.v)
            if op == 'Sub':
                return SFloat(zero, x.v - y.v)
            if op == 'Mult':
                return SFloat(zero, x.v * y.v)
            if op == 'Div':
                if self.decide(y.v == 0):
                    self.raise_(ZeroDivisionError, 'float division by zero')
                return SFloat(zero, x.v / y.v)
            if op == 'FloorDiv':
                if self.decide(y.v == 0):
                    self.raise_(ZeroDivisionError, 'float division by zero')
                return SFloat(zero, z3.ToReal(z3.ToInt(x.v / y.v)))
            if op == 'Pow':
                if isinstance(b, (int, float)) and float(b) == 2.0:
                    return SFloat(zero, x.v * x.v)
                if isinstance(b, (int, float)) and float(b) == 0.5:
                    r = self.uf('sqrt', z3.RealSort(), x)
                    self.assume(z3.Implies(x.v >= 0, z3.And(r >= 0, r * r == x.v)))
                    return SFloat(zero, r)
                r = self.uf('pow', z3.RealSort(), x, y)
                return SFloat(zero, r)
            if op == 'Mod':
                if self.decide(y.v == 0):
                    self.raise_(ZeroDivisionError, 'float modulo')
                return SFloat(zero, x.v - y.v * z3.ToReal(z3.ToInt(x.v / y.v)))
            raise Unsupported('float %s' % op)
        # some operand is not finite
        if op in ('Add', 'Sub'):
            yk = y.k
            if op == 'Sub':
                yk = z3.If(yk == 1, z3.IntVal(2), z3.If(yk == 2, z3.IntVal(1), yk))
            k = z3.If(z3.Or(x.k == 3, yk == 3), z3.IntVal(3),
                      z3.If(x.k == 0, yk, z3.If(yk == 0, x.k, z3.If(x.k == yk, x.k, z3.IntVal(3)))))
            return SFloat(k, z3.RealVal(0))
        if op == 'Mult':
            sx = z3.If(x.k == 1, 1, z3.If(x.k == 2, -1, z3.If(x.v > 0, 1, z3.If(x.v < 0, -1, 0))))
            sy = z3.If(y.k == 1, 1, z3.If(y.k == 2, -1, z3.If(y.v > 0, 1, z3.If(y.v < 0, -1, 0))))
            s = sx * sy
            k = z3.If(z3.Or(x.k == 3, y.k == 3, s == 0), z3.IntVal(3), z3.If(s > 0, z3.IntVal(1), z3.IntVal(2)))
            return SFloat(k, z3.RealVal(0))
        if op == 'Div':
            if self.decide(z3.Or(x.k == 3, y.k == 3, z3.And(x.k != 0, y.k != 0))):
                return float('nan')
            if self.decide(y.k != 0):
                return 0.0
            if self.decide(y.v == 0):
                self.raise_(ZeroDivisionError, 'float division by zero')
            pos = z3.If(y.v > 0, x.k, z3.If(x.k == 1, z3.IntVal(2), z3.IntVal(1)))
            return SFloat(pos, z3.RealVal(0))
        raise Unsupported('non-finite float %s' % op)

    def neg(self, a):
        a = self.force(a)
        if isinstance(a, (int, float)):
            return -a
        if isinstance(a, (SInt, SBool)):
            return SInt(-self.it(a))
        if isinstance(a, SFloat):
            k = z3.If(a.k == 1, z3.IntVal(2), z3.If(a.k == 2, z3.IntVal(1), a.k))
            return SFloat(z3.simplify(k), -a.v)
        if isinstance(a, Opaque):
            return Opaque('neg')
        self.raise_(TypeError, 'bad operand type for unary -')

    # ------------------------------------------------------------ comparison
    def eq(self, a, b):
        """Python ==; returns bool or SBool."""
        a, b = self.force(a), self.force(b)
        if a is b and not self.is_float(a):
            return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.opq_bool(('eq', id(a), id(b)), a, b)
        if self.is_num(a) and self.is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return SBool(self.term(a) == self.term(b))
            if self.is_float(a) or self.is_float(b):
                x, y = self.fl(a), self.fl(b)
                return SBool(z3.simplify(z3.And(x.k == y.k, x.k != 3, z3.Implies(x.k == 0, x.v == y.v))))
            return SBool(self.it(a) == self.it(b))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return SBool(self.S.eq(self.term(a), self.term(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_eq(list(zip(a, b)))
        if isinstance(a, PList) and isinstance(b, PList):
            if not a.sym and not b.sym:
                if len(a.items) != len(b.items):
                    return False
                return self.all_eq(list(zip(a.items, b.items)))
            return self.list_eq_sym(a, b)
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.rest is None and b.rest is None:
                if len(a.entries) != len(b.entries):
                    return False
                pairs = []
                for k, v in a.entries:
                    e = self.dict_find(b, k)
                    if e is None:
                        return False
                    pairs.append((v, e[1]))
                return self.all_eq(pairs)
            return self.opq_bool(('eq', id(a), id(b)), a, b)
        if isinstance(a, PSet) and isinstance(b, PSet):
            if a.d.rest is None and b.d.rest is None:
                if len(a.d.entries) != len(b.d.entries):
                    return False
                return all(self.dict_find(b.d, k) is not None for k, _ in a.d.entries)
            return self.opq_bool(('eq', id(a), id(b)), a, b)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        return False

    def list_eq_sym(self, a, b):
        la, lb = self.len_(a), self.len_(b)
        if not self.decide(self.boolt(self.eq(la, lb))):
            return False
        if isinstance(la, int):
            return self.all_eq([(self.list_get(a, i), self.list_get(b, i)) for i in range(la)])
        return self.opq_bool(('eq', id(a), id(b)), a, b)

    def all_eq(self, pairs):
        acc = []
        for x, y in pairs:
            r = self.eq(x, y)
            if r is False:
                return False
            if r is True:
                continue
            acc.append(r.t)
        if not acc:
            return True
        return SBool(z3.And(*acc) if len(acc) > 1 else acc[0])

    def opq_bool(self, key, *keep):
        e = self.opq.get(key)
        if e is None:
            e = (SBool(self.fresh('opq', z3.BoolSort())), keep)
            self.opq[key] = e
            self.taint_note('opaque comparison')
        return e[0]

    def taint_note(self, what):
        if what not in self.taint:
            self.taint.append(what)

    def lt(self, a, b, strict=True):
        """a < b (or <=)."""
        a, b = self.force(a), self.force(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.opq_bool(('lt', strict, id(a), id(b)), a, b)
        if self.is_num(a) and self.is_num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a < b if strict else a <= b
            if self.is_float(a) or self.is_float(b):
                x, y = self.fl(a), self.fl(b)
                fin = (x.v < y.v) if strict else (x.v <= y.v)
                inf = z3.Or(z3.And(x.k == 2, y.k != 2), z3.And(y.k == 1, x.k != 1))
                if not strict:
                    inf = z3.Or(inf, z3.And(x.k == y.k, x.k != 0))
                return SBool(z3.simplify(z3.And(x.k != 3, y.k != 3,
                                                z3.If(z3.And(x.k == 0, y.k == 0), fin, inf))))
            return SBool(self.it(a) < self.it(b) if strict else self.it(a) <= self.it(b))
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SBool(self.S.lt(self.term(a), self.term(b), strict))
        # Python 2: None sorts before everything, numbers before other types
        if a is None and b is None:
            return not strict
        if a is None:
            return True
        if b is None:
            return False
        if self.is_num(a) and isinstance(b, (str, SStr, PList, tuple, PDict)):
            return True
        if self.is_num(b) and isinstance(a, (str, SStr, PList, tuple, PDict)):
            return False
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)) and type(a) is type(b):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if xs is not None and ys is not None:
                for x, y in zip(xs, ys):
                    if not self.truth(self.eq(x, y)):
                        return self.lt(x, y, strict)
                return len(xs) < len(ys) if strict else len(xs) <= len(ys)
        if isinstance(a, (PDict, PList)) and isinstance(b, (str, SStr)):
            return True                     # 'dict' < 'list' < 'str' by type name
        if isinstance(b, (PDict, PList)) and isinstance(a, (str, SStr)):
            return False
        raise Unsupported('ordering %r %r' % (a, b))

    def boolt(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, z3.ExprRef):
            return v
        raise Unsupported('bool term of %r' % (v,))

    def truth(self, v):
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return self.decide(v.t)
        if isinstance(v, SInt):
            return self.decide(v.t != 0)
        if isinstance(v, SStr):
            return self.decide(z3.Not(self.S.eq(v.t, self.S.val(''))))
        if isinstance(v, SFloat):
            return self.decide(z3.Not(z3.And(v.k == 0, v.v == 0)))
        if isinstance(v, (PList, PDict, PSet)):
            return self.truth(self.len_(v))
        if isinstance(v, Opaque):
            return self.decide(self.opq_bool(('truth', id(v)), v).t)
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            c, f = v.cls.lookup('__nonzero__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            c, f = v.cls.lookup('__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
        return True

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.not_(self.eq(a, b))
        if op == 'Lt':
            return self.lt(a, b)
        if op == 'LtE':
            return self.lt(a, b, False)
        if op == 'Gt':
            return self.lt(b, a)
        if op == 'GtE':
            return self.lt(b, a, False)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else self.not_(r)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return self.not_(self.contains(b, a))
        raise Unsupported('compare ' + op)

    def is_(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            return self.opq_bool(('is', id(a), id(b)), a, b)
        for x, y in ((a, b), (b, a)):
            if x is None:
                return y is None
            if isinstance(x, bool):
                if isinstance(y, bool):
                    return x is y
                if isinstance(y, SBool):
                    return SBool(y.t if x else z3.Not(y.t))
                return False
        if isinstance(a, SBool) and isinstance(b, SBool):
            return SBool(a.t == b.t)
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        return a is b

    def not_(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.t))
        return not self.truth(v)

    def and_(self, *vs):
        ts = []
        for v in vs:
            if v is False:
                return False
            if v is not True:
                ts.append(self.boolt(v))
        return SBool(z3.And(*ts)) if ts else True

    # ------------------------------------------------------------ laziness
    def force(self, v):
        while isinstance(v, Lazy):
            v = v.fn(self)
        return v

    # ------------------------------------------------------------ exceptions
    def raise_(self, cls, msg=''):
        e = PyExc(cls, (msg,))
        e.where = (self.where, self.line)
        raise e

    # ------------------------------------------------------------ containers
    def len_(self, v):
        v = self.force(v)
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, PList):
            if self.fact_clock is not None:
                self.stale(v)
            return v.length if v.sym else len(v.items)
        if isinstance(v, SStr):
            return SInt(self.S.len(v.t))
        if isinstance(v, PSet):
            return self.len_(v.d)
        if isinstance(v, PDict):
            if v.rest is None:
                return len(v.entries)
            if v.rest_len is None:
                t = self.fresh('restlen_' + (v.name or 'd'), z3.IntSort())
                self.assume(t >= 0)
                old = v.rest_len
                v.rest_len = SInt(t)
                if self.jr:
                    self.journal.append(lambda: setattr(v, 'rest_len', old))
                # entries discovered later reduce the remainder; see dict_find
                self.sync_len(v)
            return SInt(z3.simplify(v.rest_len.t + len(v.entries)))
        if isinstance(v, Opaque):
            t = self.fresh('opqlen', z3.IntSort())
            self.assume(t >= 0)
            return SInt(t)
        if isinstance(v, SRange):
            lo, hi = self.it(v.lo), self.it(v.hi)
            return SInt(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            c, f = v.cls.lookup('__len__')
            if f is not None:
                return self.call(Bound(f, v), [])
        self.raise_(TypeError, 'object has no len()')

    def key_hashable(self, k):
        if isinstance(k, (PList, PDict)) or (isinstance(k, PSet) and not k.frozen):
            self.raise_(TypeError, 'unhashable type')

    def dict_find(self, d, k, create=True):
        """Entry list [key, value] or None; may fork."""
        k = self.force(k)
        if self.fact_clock is not None:
            self.stale_at(d, k, d.rest.factory if d.rest is not None else None)
        self.key_hashable(k)
        if d.rest is None and isinstance(k, (str, int, float, bool, tuple, type(None))):
            # fast path on concrete keys
            if type(k) is str and len(d.entries) > 64:
                if not isinstance(d.entries, Entries):
                    d.entries = Entries(d.entries)
                ix = d.entries.index_of_strings()
                if ix is not None:
                    return ix.get(k)
            sym = False
            for e in d.entries:
                ek = e[0]
                if isinstance(ek, (str, int, float, bool, type(None))) and not isinstance(k, tuple):
                    if type(ek) is type(k) or (isinstance(ek, (int, float)) and isinstance(k, (int, float))):
                        if ek == k:
                            return e
                else:
                    sym = True
            if not sym:
                return None
        for e in d.entries:
            c = self.eq(e[0], k)
            if c is True:
                return e
            if c is False:
                continue
            if self.decide(c.t):
                return e
        for a in d.absent:
            c = self.eq(a, k)
            if c is True or (c is not False and self.decide(c.t)):
                return None
        if d.rest is None:
            return None
        if isinstance(k, Opaque):
            self.taint_note('opaque key')
        present = self.rest_has(d.rest, k)
        if present and d.rest_len is not None:
            self.assume(d.rest_len.t >= 1)
            old = d.rest_len
            d.rest_len = SInt(d.rest_len.t - 1)
            if self.jr:
                self.journal.append(lambda: setattr(d, 'rest_len', old))
        if present:
            e = [k, self.own(self.made(d.rest.factory, k), d)]
            d.entries.append(e)
            if self.jr:
                self.journal.append(lambda: self._rm_is(d.entries, e))
            self.run_facts(d.facts, k)
            self.sync_len(d)
            return e
        d.absent.append(k)
        if self.jr:
            self.journal.append(lambda: self._rm_is(d.absent, k))
        self.sync_len(d)
        return None

    def rest_has(self, r, k):
        """Is the key k, which is none of the known ones, in the collection?  Decided once for all copies."""
        if r.implied is not None:
            p = r.implied(self, k)
            if p is not None:
                return p
        for k2, p in r.oracle:
            c = self.eq(k2, k)
            if c is True or (c is not False and self.decide(c.t)):
                return p
        p = self.choose(2) == 0
        self.oracle_note(r, k, p)
        return p

    def note_present(self, r, k):
        if r.implied is not None and r.implied(self, k) is False:
            raise PathEnd()
        self.oracle_note(r, k, True)

    def oracle_note(self, r, k, p):
        r.oracle.append((k, p))
        if self.jr:
            o = r.oracle
            n = o[-1]
            self.journal.append(lambda: self._rm_is(o, n))

    def sync_len(self, d):
        """Sizes of related collections (set operations): the remainder of one is within that of the other."""
        if d.rest_len is None or not (d.within or d.over):
            return
        for o in d.within:
            if o.rest is not None and o.rest_len is not None:
                for e in list(o.entries):
                    self.dict_find(d, e[0])
                self.assume(d.rest_len.t <= o.rest_len.t)
            elif o.rest is None:
                for e in list(o.entries):
                    self.dict_find(d, e[0])
                self.assume(d.rest_len.t == 0)
        for o in d.over:
            if o.rest is not None and o.rest_len is not None:
                for e in list(d.entries):
                    self.dict_find(o, e[0])
                self.assume(d.rest_len.t >= o.rest_len.t)

    @staticmethod
    def _rm_is(lst, x):
        for i in range(len(lst)):
            if lst[i] is x:
                del lst[i]
                return

    def dict_get(self, d, k):
        e = self.dict_find(d, k)
        if e is None:
            if d.default is not None:
                v = d.default(self)
                self.dict_set(d, k, v)
                return v
            self.raise_(KeyError, k)
        if isinstance(e[1], Lazy):
            e[1] = self.force(e[1])
        return e[1]

    def _dict_write_undo(self, d, slot, val=MISSING):
        snap = [(e, e[1]) for e in d.entries]
        ab = list(d.absent)
        rest, rl = d.rest, d.rest_len

        def undo():
            d.entries[:] = [e for e, _ in snap]
            for e, v in snap:
                e[1] = v
            d.absent[:] = ab
            d.rest, d.rest_len = rest, rl
        self.wrote(d, slot, undo, val)

    def dict_set(self, d, k, v):
        k = self.force(k)
        e = self.dict_find(d, k)
        self._dict_write_undo(d, ('key', self.keyid(k if e is None else e[0])), v)
        if e is not None:
            # replace the value (keep the key object)
            e[1] = v
        else:
            d.entries.append([k, v])
            for i in range(len(d.absent) - 1, -1, -1):
                c = self.eq(d.absent[i], k)
                if c is True or (c is not False and self.decide(c.t)):
                    del d.absent[i]
                    break

    def keyid(self, k):
        if isinstance(k, (str, int, float, bool, type(None))):
            return k
        if isinstance(k, Sym):
            return 't:' + k.t.sexpr()
        return 'id:%d' % id(k)

    def dict_del(self, d, k):
        e = self.dict_find(d, k)
        if e is None:
            return None
        self._dict_write_undo(d, ('key', self.keyid(e[0])))
        for i, x in enumerate(d.entries):
            if x is e:
                del d.entries[i]
                break
        if d.rest is not None:
            d.absent.append(e[0])
        return e

    def contains(self, c, x):
        c = self.force(c)
        x = self.force(x)
        if isinstance(c, PDict):
            return self.dict_find(c, x) is not None
        if isinstance(c, PSet):
            if c.d.rest is None and isinstance(x, SInt) and len(c.d.entries) > 4:
                # which of them does not matter
                return self.seq_contains([e[0] for e in c.d.entries], x)
            return self.dict_find(c.d, x) is not None
        if isinstance(c, tuple):
            return self.seq_contains(list(c), x)
        if isinstance(c, PList):
            if not c.sym:
                return self.seq_contains(c.items, x)
            if getattr(c, 'parts', None) is not None:
                return any(self.truth(self.contains(p, x)) for p in c.parts)
            if keyview(c):
                return self.dict_find(c.view[0], x) is not None
            for i, v in c.known:
                r = self.eq(v, x)
                if r is True or (r is not False and self.decide(self.boolt(r))):
                    return True
            self.taint_note('membership in symbolic list')
            return self.choose(2) == 0
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, (str, SStr)):
                return SBool(self.S.contains(self.term(c), self.term(x)))
            self.raise_(TypeError, "'in <string>' requires string as left operand")
        if isinstance(c, Opaque):
            return self.opq_bool(('in', id(c), self.keyid(x)), c, x)
        if isinstance(c, Obj) and isinstance(c.cls, ClassV):
            _, f = c.cls.lookup('__contains__')
            if f is not None:
                return self.truth(self.call(Bound(f, c), [x]))
        self.raise_(TypeError, 'argument is not iterable')

    def seq_or(self, vs):
        ts = []
        for v in vs:
            if v is True:
                return True
            if v is not False:
                ts.append(self.boolt(v))
        return SBool(z3.Or(*ts)) if ts else False

    def seq_contains(self, items, x):
        acc = []
        for v in items:
            r = self.eq(v, x)
            if r is True:
                return True
            if r is not False:
                acc.append(self.boolt(r))
        if not acc:
            return False
        return SBool(z3.Or(*acc) if len(acc) > 1 else acc[0])

    def own(self, v, container):
        if isinstance(v, Heap) and v.owner is None:
            v.owner = container
            if isinstance(v, PList) and v.items is not None:
                for x in v.items:
                    self.own(x, v)
            if isinstance(v, PDict):
                for e in v.entries:
                    self.own(e[1], v)
        return v

    # lists
    def norm_index(self, idx, length):
        """Index value to int term/native in range or IndexError."""
        if isinstance(idx, bool):
            idx = int(idx)
        if isinstance(idx, SBool):
            idx = SInt(self.it(idx))
        if isinstance(idx, int) and isinstance(length, int):
            j = idx + length if idx < 0 else idx
            if j < 0 or j >= length:
                self.raise_(IndexError, 'list index out of range')
            return j
        if not isinstance(idx, (int, SInt)):
            if isinstance(idx, Opaque):
                raise Unsupported('opaque index')
            self.raise_(TypeError, 'list indices must be integers')
        t, n = self.it(idx), self.it(length)
        if isinstance(idx, int):
            t = z3.IntVal(idx) if idx >= 0 else n + idx
        elif self.decide(t < 0):
            t = t + n
        if not self.decide(z3.And(t >= 0, t < n)):
            self.raise_(IndexError, 'list index out of range')
        return SInt(z3.simplify(t))

    def list_get(self, l, idx):
        idx = self.force(idx)
        if self.fact_clock is not None:
            self.stale_at(l, idx, l.factory)
        if not l.sym:
            j = self.norm_index(idx, len(l.items))
            if isinstance(j, int):
                if isinstance(l.items[j], Lazy):
                    l.items[j] = self.force(l.items[j])
                return l.items[j]
            for i in range(len(l.items)):
                if i == len(l.items) - 1 or self.decide(j.t == i):
                    return self.force(l.items[i])
        j = self.norm_index(idx, l.length)
        return self.list_entry(l, j)[1]

    def list_entry(self, l, j):
        for e in l.known:
            c = self.eq(e[0], j)
            if c is True or (c is not False and self.decide(c.t)):
                return e
        v = self.own(self.made(l.factory, j), l) if l.factory else Opaque('elem of %s' % l.name)
        e = [j, v]
        l.known.append(e)
        if self.jr:
            self.journal.append(lambda: self._rm_is(l.known, e))
        self.run_facts(l.facts, v)
        return e

    def list_set(self, l, idx, v):
        idx = self.force(idx)
        if not l.sym:
            j = self.norm_index(idx, len(l.items))
            if not isinstance(j, int):
                for i in range(len(l.items)):
                    if i == len(l.items) - 1 or self.decide(j.t == i):
                        j = i
                        break
            old = l.items[j]

            def undo():
                l.items[j] = old
            self.wrote(l, ('idx', j), undo, v)
            l.items[j] = v
            return
        j = self.norm_index(idx, l.length)
        e = self.list_entry(l, j)
        old = e[1]

        def undo2():
            e[1] = old
        self.wrote(l, ('idx', self.keyid(j)), undo2, v)
        e[1] = v

    def list_snapshot(self, l):
        items = list(l.items) if l.items is not None else None
        known = [(e, e[1]) for e in l.known]
        length, factory, shape = l.length, l.factory, l.shape

        def undo():
            l.items = list(items) if items is not None else None
            l.known = [e for e, _ in known]
            for e, v in known:
                e[1] = v
            l.length, l.factory, l.shape = length, factory, shape
        return undo

    def list_append(self, l, v):
        self.wrote(l, ('items',), self.list_snapshot(l))
        if l.sym:
            l.known.append([l.length, v])
            l.length = SInt(z3.simplify(self.it(l.length) + 1))
        else:
            l.items.append(v)

    def list_concat(self, a, b):
        if not a.sym and not b.sym:
            return PList(a.items + b.items)
        if keyview(a) or keyview(b):
            parts = sum([getattr(x, 'parts', None) or [x] for x in (a, b)], [])
            l = PList(length=SInt(self.it(bm().b_len(self, [a], {})) + self.it(bm().b_len(self, [b], {}))), name='concat')
            l.parts = parts
            return l
        la, lb = self.len_(a), self.len_(b)
        tot = SInt(self.it(la) + self.it(lb))
        a2, b2 = self.list_copy(a), self.list_copy(b)

        def fac(E, j):
            if E.decide(E.it(j) < E.it(la)):
                return E.list_get(a2, j)
            return E.list_get(b2, SInt(E.it(j) - E.it(la)))
        return PList(length=tot, factory=fac, name='concat')

    def list_copy(self, l):
        if not l.sym:
            return PList(l.items)
        n = PList(length=l.length, factory=None, name=l.name, known=[])
        src = PList(length=l.length, factory=l.factory, name=l.name, known=l.known)
        l.factory = lambda E, j: E.list_entry(src, j)[1]
        n.factory = l.factory
        n.shape = l.shape
        return n

    def dict_copy(self, d):
        n = PDict(d.entries, None, d.name, d.kind)
        n.absent = list(d.absent)
        n.default = d.default
        n.within, n.over = d.within, d.over
        if d.rest is not None:
            self.len_(d)
            base = PDict(d.entries, d.rest, d.name)
            memo = PDict([], d.rest, d.name)
            r = d.rest

            def fac(E, k):
                for e in memo.entries:
                    if E.truth(E.eq(e[0], k)):
                        return e[1]
                v = r.factory(E, k)
                memo.entries.append([k, v])
                if E.jr:
                    E.journal.append(lambda: memo.entries.pop())
                return v
            nr = Rest(r.name, fac, r.mkkey, r.shape, r.implied)
            nr.oracle = r.oracle
            nr.loop_src, nr.base, nr.pure = r.loop_src, r.base, r.pure
            d.rest = nr
            n.rest = nr
            n.rest_len = d.rest_len
        return n

    def set_op(self, op, a, b):
        if a.d.rest is None and b.d.rest is None:
            out = PDict(kind='set')
            if op == 'union':
                for k, _ in a.d.entries + b.d.entries:
                    if self.dict_find(out, k) is None:
                        out.entries.append([k, None])
            else:
                for k, _ in a.d.entries:
                    inb = self.dict_find(b.d, k) is not None
                    if inb == (op == 'intersection'):
                        out.entries.append([k, None])
            return PSet(out, a.frozen)
        if a.d.rest is None and op in ('difference', 'intersection'):
            out = PDict(kind='set')
            for k, _ in a.d.entries:
                inb = self.dict_find(b.d, k) is not None
                if inb == (op == 'intersection'):
                    out.entries.append([k, None])
            return PSet(out, a.frozen)
        # symbolic remainder: membership follows that of (snapshots of) the operands
        da, db = self.dict_copy(a.d), self.dict_copy(b.d)
        inter, diff = op == 'intersection', op == 'difference'
        sym_diff = op == 'symmetric_difference'

        def member(E, k):
            x = E.dict_find(da, k) is not None
            if x and op == 'union':
                return True
            if not x and (inter or diff):
                return False
            y = E.dict_find(db, k) is not None
            return y if inter or op == 'union' else (x and not y) if diff else x != y
        out = PDict(kind='set', name='%s(%s,%s)' % (op, a.d.name, b.d.name))
        for k, _ in list(da.entries) + list(db.entries):
            if self.dict_find(out, k) is None and not any(self.eq(k, z) is True for z in out.absent):
                if member(self, k):
                    out.entries.append([k, None])
                else:
                    out.absent.append(k)

        def mkkey(E):
            first = da
            if da.rest is None or (db.rest is not None and not (inter or diff) and E.choose(2)):
                first = db
            if first.rest is None or first.rest.mkkey is None:
                raise Unsupported('iteration over unconstrained keys of %s' % out.name)
            k = first.rest.mkkey(E)
            E.assume_new(da, k)
            E.assume_new(db, k)
            if inter and db.rest is None:
                raise PathEnd()
            E.note_present(first.rest, k)
            second = db if first is da else da
            if second.rest is not None:
                if inter:
                    E.note_present(second.rest, k)
                elif diff or sym_diff:
                    E.oracle_note(second.rest, k, False)
            return k
        out.rest = Rest(out.name, lambda E, k: None, mkkey, None, member)
        if inter:
            out.within = [da, db]
        elif diff:
            out.within = [da]
        elif op == 'union':
            out.over = [da, db]
        return PSet(out, a.frozen)

    def assume_new(self, d, k):
        """k is none of the known (present or absent) keys of d."""
        for x in [e[0] for e in d.entries] + list(d.absent) + \
                ([o[0] for o in d.rest.oracle] if d.rest is not None else []):
            c = self.eq(x, k)
            if c is True:
                raise PathEnd()
            if c is not False:
                self.assume(z3.Not(c.t))

    def fresh_other_key(self, d):
        if d.rest.mkkey is None:
            raise Unsupported('iteration over unconstrained keys of %s' % d.name)
        k = d.rest.mkkey(self)
        for e in d.entries:
            c = self.eq(e[0], k)
            if c is True:
                raise PathEnd()
            if c is not False:
                self.assume(z3.Not(c.t))
        for a in list(d.absent) + [o[0] for o in d.rest.oracle if not o[1]]:
            c = self.eq(a, k)
            if c is True:
                raise PathEnd()
            if c is not False:
                self.assume(z3.Not(c.t))
        self.note_present(d.rest, k)
        return k
