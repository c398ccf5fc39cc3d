"""Path exploration by re-execution.

One *task* runs a scenario along every path below a given decision prefix.  A
branch on a symbolic condition (or the concretisation of a symbolic integer) is
a decision; both outcomes are explored when z3 says both are feasible under the
path condition.  Decisions of a path are recorded so a pending path can be
replayed from scratch, in this or another process.
"""
import time
import z3
from . import terms as T

class Control(BaseException):
    """Engine-internal control flow; must never be caught by code under test."""

class PathDone(Control):
    """The rest of this path is outside the claim (assumption failed)."""

class Inconclusive(Control):
    pass

class Violation(Control):
    def __init__(self, what):
        self.what = what

class Diverged(Control):
    pass

CUR = [None]

def cur():
    e = CUR[0]
    if e is None:
        raise RuntimeError('symbolic value used outside an exploration')
    return e

class Stats(object):
    FIELDS = ('paths', 'decisions', 'queries', 'unsat', 'sat', 'checks', 'checks_z3', 'checks_norm',
              'assumed_away', 'reach')
    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))
        self.solver_s += o['solver_s'] if isinstance(o, dict) else o.solver_s
    def dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        return d

class Engine(object):
    def __init__(self, seed=0, query_ms=20000):
        self.seed = seed
        self.query_ms = query_ms
        self.stats = Stats()
        self.log = None

    # ------------------------------------------------------------------ solver
    def _new_solver(self):
        s = z3.Solver()
        s.set('timeout', self.query_ms // 2)
        s.set('random_seed', self.seed & 0xffff)
        return s

    def _query(self, cond):
        """sat? of path condition and cond.  Returns Model or None."""
        st = self.stats
        st.queries += 1
        t0 = time.time()
        s = self.solver
        zc = T.to_z3(cond)
        m = None
        r = None
        if T.COUNT['mul']:
            r = self._congruent(cond, zc)
        if r != z3.unsat:
            r = s.check(zc)
        if r == z3.unknown:
            r, m = self._hard(cond)
        elif r == z3.sat:
            m = s.model()
        st.solver_s += time.time() - t0
        if r == z3.unsat:
            st.unsat += 1
            return None
        if r == z3.sat:
            st.sat += 1
            return self._model(m)
        raise Inconclusive('solver gave no answer for a query')

    def _congruent(self, cond, zc):
        """Products as unknowns, equal (up to order) for equal factors: unsat if
        this alone refutes cond, anything else settles nothing."""
        muls = T.products(cond)
        if not muls:
            return None
        sub, ax = [], []
        for i, t in enumerate(muls):
            x, y = [z3.substitute(T.to_z3(a), *sub) if sub else T.to_z3(a) for a in t.a]
            v = z3.BitVec('product!%d' % i, t.w)
            sub.append((T.to_z3(t), v))
            ax.append((v, x, y, t.w))
        cs = [z3.substitute(zc, *sub)]
        for i, (v, x, y, w) in enumerate(ax):
            for v2, x2, y2, w2 in ax[:i]:
                if w == w2:
                    cs.append(z3.Implies(z3.Or(z3.And(x == x2, y == y2), z3.And(x == y2, y == x2)), v == v2))
        s = self.solver
        s.set('timeout', min(3000, self.query_ms))
        try:
            return s.check(*cs)
        finally:
            s.set('timeout', self.query_ms // 2)

    def _hard(self, cond):
        """Fallbacks for a query the incremental solver gave up on."""
        conds = [c for c in self.pc] + [cond]
        # substitute known constants for atoms, then try a fresh one-shot solver
        zs = [T.to_z3(c) for c in conds]
        tacs = ('default', 'qfaufbv', 'sat')
        if not any(isinstance(t.w, tuple) for t in self.decls.values()): tacs = ('bv',) + tacs
        for tac in tacs:
            try:
                if tac == 'bv':
                    s = z3.SolverFor('QF_BV')
                elif tac == 'default':
                    s = z3.SolverFor('QF_ABV')
                elif tac == 'qfaufbv':
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfaufbv').solver()
                else:
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bvarray2uf', 'bit-blast', 'smt').solver()
                s.set('timeout', self.query_ms * 2)
                s.add(*zs)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def _model(self, zm):
        """Values of the declared variables."""
        vs, arrs = {}, {}
        for name, t in self.decls.items():
            z = T.to_z3(t)
            if isinstance(t.w, tuple):
                v = zm.eval(z, model_completion=True)
                arrs[name] = _array_value(v, zm)
            elif t.w == 0:
                vs[name] = z3.is_true(zm.eval(z, model_completion=True))
            else:
                vs[name] = zm.eval(z, model_completion=True).as_long()
        return T.Model(vs, arrs)

    # --------------------------------------------------------------- exploring
    def explore(self, fn, stack, deadline, after=None):
        """Runs fn() along all paths below the stacked prefixes until done or
        past the deadline.  Returns the pending (prefix, model) left.  A
        Violation or Inconclusive ends the run; self.left then holds the rest."""
        stack = self.left = [(tuple(p), m) for p, m in stack]
        self.solver = self._new_solver()
        self.pushed = []           # terms asserted, one push each
        first = True
        while stack:
            if not first and time.time() > deadline:
                break
            first = False
            pre, model = stack.pop()
            self._run(fn, pre, model, stack)
            if after is not None:
                after()
        return stack

    def _run(self, fn, pre, model, stack):
        self.prefix = pre
        self.pos = 0
        self.trail = []           # recorded decisions of this path
        self.pc = []              # asserted terms
        self.facts = {}
        self.stack = stack
        self.model = model if model is not None else T.Model()
        self.decls = {}
        self.n = 0                # number of asserted constraints on this path
        self.checked = 0
        self.complete = False
        CUR[0] = self
        try:
            fn()
            self.complete = True
            self.stats.paths += 1
        except PathDone:
            self.stats.assumed_away += 1
        finally:
            CUR[0] = None
            if self.checked: self.stats.reach += 1

    def declare(self, name, w):
        if name in self.decls:
            raise RuntimeError('duplicate symbolic name ' + name)
        t = T.avar(name, *w) if isinstance(w, tuple) else T.var(name, w)
        self.decls[name] = t
        return t

    def _assert(self, t):
        """Assert t on this path, reusing the solver stack when it agrees."""
        n = self.n
        self.n += 1
        self.pc.append(t)
        if n < len(self.pushed):
            if self.pushed[n] is t:
                return
            while len(self.pushed) > n:
                self.solver.pop()
                self.pushed.pop()
        self.solver.push()
        self.solver.add(T.to_z3(t))
        self.pushed.append(t)

    def _learn(self, t):
        self.facts[t] = True
        if t.op == 'not':
            e = t.a[0]
            self.facts[e] = False
            if e.op == 'eq' and e.a[0].w == 1:
                for x, y in (e.a, e.a[::-1]):
                    if y.op == 'c': self.facts[('=', x)] = 1 - y.a[0]
        else:
            self.facts[T.bnot_(t)] = False
        if t.op == 'band':
            for x in t.a:
                self._learn(x)
        elif t.op == 'not' and t.a[0].op == 'bor':
            for x in t.a[0].a:
                self._learn(T.bnot_(x))
        elif t.op == 'eq' and t.a[1].op == 'c':
            self.facts[('=', t.a[0])] = t.a[1].a[0]
        elif t.op == 'eq' and t.a[0].op == 'c':
            self.facts[('=', t.a[1])] = t.a[0].a[0]

    def known(self, t):
        """Truth value of t if syntactically implied by the path, else None."""
        if t is T.TRUE: return True
        if t is T.FALSE: return False
        f = self.facts.get(t)
        if f is not None:
            return f
        if t.op == 'eq':
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == 'c':
                    v = self.facts.get(('=', x))
                    if v is not None:
                        return v == y.a[0]
        elif t.op == 'not':
            k = self.known(t.a[0])
            return None if k is None else not k
        elif t.op == 'band':
            ks = [self.known(x) for x in t.a]
            if any(k is False for k in ks): return False
            if all(k is True for k in ks): return True
        elif t.op == 'bor':
            ks = [self.known(x) for x in t.a]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        return None

    def decide(self, t):
        """Branch on Boolean term t."""
        k = self.known(t)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            e = self.prefix[self.pos]
            self.pos += 1
            if e[0] != 'b' or e[1] != t.h:
                raise Diverged('branch %d differs from the recorded run' % self.pos)
            d = e[2]
            self.trail.append(e)
            c = t if d else T.bnot_(t)
            if len(e) == 3:
                self._assert(c)
            self._learn(c)
            return d
        self.stats.decisions += 1
        d = bool(T.ev(t, self.model))
        mine = t if d else T.bnot_(t)
        other = T.bnot_(mine)
        m = self._query(other)
        if m is not None:
            self.stack.append((tuple(self.trail) + (('b', t.h, not d),), m))
            self.trail.append(('b', t.h, d))
            self._assert(mine)
        else:
            # implied by the path condition: no need to assert it
            self.trail.append(('b', t.h, d, 1))
        self._learn(mine)
        return d

    def value(self, t, depth=14):
        """Value of t if syntactically implied by the path, else None."""
        op = t.op
        if op == 'c':
            return t.a[0]
        v = self.facts.get(('=', t))
        if v is not None or depth == 0:
            return v
        if op == 'ext':
            v = self.value(t.a[0], depth - 1)
            return None if v is None else (v >> t.a[2]) & ((1 << t.w) - 1)
        if op == 'cat':
            r = 0
            for x in t.a:
                v = self.value(x, depth - 1)
                if v is None: return None
                r = r << x.w | v
            return r
        if op == 'lin':
            r = t.a[0]
            for k, x in zip(t.a[1::2], t.a[2::2]):
                v = self.value(x, depth - 1)
                if v is None: return None
                r += k * v
            return r & ((1 << t.w) - 1)
        return None

    def settle(self, t, depth=14):
        """t with the parts whose values this path implies filled in."""
        if t.op == 'c' or depth == 0:
            return t
        v = self.value(t)
        if v is not None:
            return T.const(v, t.w)
        op = t.op
        if op == 'ext':
            return T.ext(self.settle(t.a[0], depth - 1), t.a[1], t.a[2])
        if op == 'cat':
            return T.cat(*[self.settle(x, depth - 1) for x in t.a])
        if op == 'lin':
            return T.lin(t.w, t.a[0], [(k, self.settle(x, depth - 1)) for k, x in zip(t.a[1::2], t.a[2::2])])
        if op == 'ite':
            k = self.known(t.a[0])
            if k is not None:
                return self.settle(t.a[1] if k else t.a[2], depth - 1)
        return t

    def concretize(self, t):
        """Pick a value for bit-vector term t (all values are explored)."""
        v = self.value(t)
        if v is not None:
            return v
        while True:
            if self.pos < len(self.prefix):
                e = self.prefix[self.pos]
                self.pos += 1
                if e[0] != 'v' or e[1] != t.h:
                    raise Diverged('value choice %d differs from the recorded run' % self.pos)
                self.trail.append(e)
                v = e[2]
                c = T.eq(t, T.const(v, t.w))
                if not e[3]:
                    c = T.bnot_(c)
                if len(e) == 4:
                    self._assert(c)
                self._learn(c)
                if e[3]:
                    return v
                continue
            self.stats.decisions += 1
            v = T.ev(t, self.model)
            c = T.eq(t, T.const(v, t.w))
            k = self.known(c)
            m = None if k is True else self._query(T.bnot_(c))
            if m is not None:
                self.stack.append((tuple(self.trail) + (('v', t.h, v, False),), m))
                self.trail.append(('v', t.h, v, True))
                self._assert(c)
            else:
                self.trail.append(('v', t.h, v, True, 1))
            self._learn(c)
            return v

    def assume(self, t):
        k = self.known(t)
        if k is True:
            return
        if k is False:
            raise PathDone()
        if T.ev(t, self.model):
            self._assert(t)
            self._learn(t)
            return
        m = self._query(t)
        if m is None:
            raise PathDone()
        self.model = m
        self._assert(t)
        self._learn(t)

    def check(self, t):
        """None if t holds on this whole path, else a Model violating it."""
        self.stats.checks += 1
        self.checked += 1
        k = self.known(t)
        if k is True:
            self.stats.checks_norm += 1
            return None
        self.stats.checks_z3 += 1
        if k is None and T.ev(t, self.model):
            return self._query(T.bnot_(t))
        return self.model

def _array_value(v, zm):
    """(default, {index: value}) of a z3 array value."""
    tab = {}
    chain = []
    while True:
        k = v.decl().kind()
        if k == z3.Z3_OP_STORE:
            chain.append((v.arg(1).as_long(), v.arg(2).as_long()))
            v = v.arg(0)
        elif k == z3.Z3_OP_CONST_ARRAY:
            d = v.arg(0).as_long()
            break
        elif z3.is_as_array(v):
            f = zm[z3.get_as_array_func(v)]
            d = f.else_value().as_long()
            for i in range(f.num_entries()):
                e = f.entry(i)
                tab[e.arg_value(0).as_long()] = e.value().as_long()
            break
        else:
            raise Inconclusive('array value not understood: %s' % v)
    for i, x in reversed(chain):
        tab[i] = x
    return (d, tab)
