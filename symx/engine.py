"""Path exploration: a depth-first dynamic symbolic executor on top of z3.

One *path* is one execution of a harness over the rewritten source.  Every
branch whose condition is symbolic becomes a decision; the solver tells which
outcomes are feasible, the infeasible ones are pruned, and each remaining
alternative is explored by re-executing the harness with that decision prefix.
"""
import time
import z3
from . import intblast


class EngineControl(BaseException):
    """Raised to leave a path; never to be caught by the code under test."""


class PathEnd(EngineControl):
    pass


class Unsupported(EngineControl):
    pass


class Inconclusive(EngineControl):
    pass


class BudgetExceeded(EngineControl):
    pass


class StepLimit(EngineControl):
    """The path ran for more loop iterations than the harness allows."""


CTX = None  # the active path context


def ctx():
    return CTX


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'decisions', 'queries', 'unknown',
              'solver_s', 'pins', 'checks', 'assert_queries', 'cut', 'lia')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


def model_int(model, expr):
    v = model.eval(expr, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    if z3.is_int_value(v):
        return v.as_long()
    v = z3.simplify(v)
    return v.as_long()


FP_OPS = (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV,
          z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS, z3.Z3_OP_FPA_TO_FP,
          z3.Z3_OP_FPA_ROUND_TO_INTEGRAL)


def fp_congruence(a, b):
    """A condition on bit-vector leaves that implies a == b, or None."""
    if a.eq(b):
        return z3.BoolVal(True)
    ka, kb = a.decl().kind(), b.decl().kind()
    if ka != kb or ka not in FP_OPS or a.num_args() != b.num_args():
        return None
    conds = []
    for x, y in zip(a.children(), b.children()):
        if x.eq(y):
            continue
        if z3.is_fp(x) and z3.is_fp(y):
            c = fp_congruence(x, y)
            if c is None:
                return None
            conds.append(c)
        elif z3.is_bv(x) and z3.is_bv(y):
            # integer operands are signed
            w = max(x.size(), y.size())
            if x.size() != y.size() and a.num_args() == 1:
                return None
            conds.append(z3.SignExt(w - x.size(), x) == z3.SignExt(w - y.size(), y))
        else:
            return None
    return z3.And(conds) if conds else z3.BoolVal(True)


def stronger(c):
    """A condition implying c in which float equalities between like operations
    are replaced by equality of their operands; None if nothing changed."""
    if z3.is_and(c) or z3.is_or(c):
        ch = c.children()
        new = [stronger(x) for x in ch]
        if all(n is None for n in new):
            return None
        parts = [n if n is not None else x for n, x in zip(new, ch)]
        return z3.And(parts) if z3.is_and(c) else z3.Or(parts)
    if z3.is_eq(c) and z3.is_fp(c.arg(0)):
        return fp_congruence(c.arg(0), c.arg(1))
    return None


TAKEN = {True: ('b', True), False: ('b', False)}


class Path(object):
    """The state of one path."""

    def __init__(self, prefix, explorer, model=None):
        # prefix: (trace of another path, number of its entries, last entry)
        self.prefix = prefix[0][:prefix[1]] + [prefix[2]] if prefix else []
        self.pos = 0
        self.trace = []          # decisions taken
        self.ex = explorer
        self.stats = explorer.stats
        self.solver = explorer.new_solver()
        self.constraints = []
        self.model = model       # a model of the constraints, when known
        self.inputs = {}         # name -> (kind, z3 var, ...)
        self.order = []
        self.dead = False
        self.pinned = False
        self.pins = []
        self.reached = set()
        self.observed = []
        self.pending = []        # (label, BoolRef that must hold)
        self.fresh_n = 0
        self.nbranch = 0
        self.notes = []
        self.deadline = explorer.deadline
        self.fresh_inputs = {}
        self.memo = {}
        self.steps = 0
        self.max_steps = explorer.max_steps

    # -- inputs --------------------------------------------------------
    def bv_input(self, name, width):
        if name in self.inputs:
            raise ValueError('duplicate input ' + name)
        v = z3.BitVec(name, width)
        self.inputs[name] = ('bv', v, width)
        return v

    def fresh_bv(self, width, hint='t'):
        self.fresh_n += 1
        return z3.BitVec('%%%s%d' % (hint, self.fresh_n), width)

    # -- solver --------------------------------------------------------
    def add(self, c):
        self.constraints.append(c)
        self.solver.add(c)

    def _check(self, extra):
        """Check the current solver state (constraints + extra, already
        asserted); returns (result, model)."""
        st = self.stats
        if time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.time()
        r = self.solver.check()
        st.solver_s += time.time() - t
        st.queries += 1
        if r == z3.sat:
            return r, self.solver.model()
        if r == z3.unknown and self.ex.lia:
            r2, m = self._lia(extra)
            if r2 is not None:
                return r2, m
        if r == z3.unknown:
            # second opinion from a fresh, non-incremental solver
            t = time.time()
            s = z3.Solver()
            s.set('timeout', self.ex.query_timeout_ms)
            s.add(*self.constraints)
            s.add(*extra)
            if self.ex.lia:
                s.set('timeout', 120000)
            r = s.check()
            st.solver_s += time.time() - t
            st.queries += 1
            if r == z3.unknown:
                st.unknown += 1
                raise Inconclusive('solver returned unknown (%s)' % s.reason_unknown())
            return r, (s.model() if r == z3.sat else None)
        return r, None

    def _lia(self, extra):
        """Retry with linear integer arithmetic (cvc5)."""
        st = self.stats
        t = time.time()
        rng = {}
        for name, spec in self.inputs.items():
            if spec[0] == 'bv' and len(spec) > 4:
                rng[spec[1].decl().name()] = spec[4]
        r, vals = intblast.solve(self.constraints + list(extra), rng,
                                 min(self.ex.lia, max(1, self.deadline - time.time())))
        st.queries += 1
        st.lia += 1
        st.solver_s += time.time() - t
        if r == 'unsat':
            return z3.unsat, None
        if r == 'sat':
            s = z3.Solver()
            s.set('timeout', self.ex.query_timeout_ms)
            s.add(*self.constraints)
            s.add(*extra)
            s.add(*[v == x for v, x in vals])
            if s.check() == z3.sat:
                return z3.sat, s.model()
        return None, None

    def check(self):
        return self._check([])

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r != z3.sat:
                self.dead = True
                self.stats.infeasible += 1
                raise PathEnd()
            self.model = m
        return self.model

    # -- decisions -----------------------------------------------------
    def branch(self, cond):
        """Decide a z3 Bool; returns a Python bool."""
        if self.dead:
            raise PathEnd()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        hit = self.memo.get(key)
        # Every call is recorded, repeated conditions too: whether z3 gives an
        # equal condition the same identity depends on the garbage collector.
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'b' or (hit is not None and hit[0] is not val):
                raise Inconclusive('non-deterministic replay of decisions (%r)' % (kind,))
            self.pos += 1
            self.trace.append(TAKEN[val])
            if hit is None:
                self.add(cond if val else z3.Not(cond))
                self.memo[key] = (val, cond)
            return val
        if hit is not None:
            self.trace.append(TAKEN[hit[0]])
            self.pos += 1
            return hit[0]
        m = self.get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        self.solver.push()
        self.solver.add(other)
        try:
            r, m2 = self._check([other])
        finally:
            self.solver.pop()
        if r == z3.sat:
            self.ex.push(((self.trace, len(self.trace), TAKEN[not v]), m2))
            self.stats.decisions += 1
            self.nbranch += 1
            if self.nbranch > self.ex.max_branches:
                raise BudgetExceeded()
        self.trace.append(TAKEN[v])
        self.pos += 1
        self.add(cond if v else z3.Not(cond))
        self.memo[key] = (v, cond)
        return v

    def choose_value(self, expr, cap=None, why=''):
        """Fork over every feasible value of a bit-vector term."""
        if self.dead:
            raise PathEnd()
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        key = ('v', expr.get_id())
        hit = self.memo.get(key)
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind not in ('v', 'p') or (hit is not None and hit[0] != val):
                raise Inconclusive('non-deterministic replay of decisions (%r)' % (kind,))
            self.pos += 1
            self.trace.append((kind, val))
            if hit is None:
                self.add(expr == val)
                if kind == 'p':
                    self.note_pin(why)
                self.memo[key] = (val, expr)
            return val
        if hit is not None:
            self.trace.append(('v', hit[0]))
            self.pos += 1
            return hit[0]
        cap = cap or self.ex.fanout
        m = self.get_model()
        vals = [(model_int(m, expr), m)]
        self.solver.push()
        try:
            while True:
                self.solver.add(expr != vals[-1][0])
                r, m2 = self._check([expr != x for x, _ in vals])
                if r != z3.sat:
                    break
                vals.append((model_int(m2, expr), m2))
                if len(vals) > cap:
                    break
        finally:
            self.solver.pop()
        if len(vals) > cap:
            kind = 'p'
            self.note_pin(why or str(expr)[:60])
        else:
            kind = 'v'
            for x, mx in vals[1:]:
                self.ex.push(((self.trace, len(self.trace), ('v', x)), mx))
            self.stats.decisions += len(vals) - 1
        val = vals[0][0]
        self.trace.append((kind, val))
        self.pos += 1
        self.add(expr == val)
        self.memo[key] = (val, expr)
        return val

    def note_pin(self, why):
        if not self.pinned:
            self.pinned = True
        self.pins.append(why)
        self.stats.pins += 1

    def assume(self, cond):
        if self.dead:
            raise PathEnd()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.dead = True
            self.stats.infeasible += 1
            raise PathEnd()
        self.add(cond)
        if self.model is not None:
            if self.pos >= len(self.prefix) and not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def entails(self, cond):
        """Does the path condition imply cond?  Never forks; unknown counts as no."""
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            return z3.is_true(cond)
        key = ('ent', cond.get_id())
        hit = self.memo.get(key)
        if hit is None:
            self.solver.push()
            self.solver.add(z3.Not(cond))
            try:
                r = self.solver.check()
                self.stats.queries += 1
                if r == z3.unknown and self.ex.lia:
                    r = self._lia([z3.Not(cond)])[0]
            finally:
                self.solver.pop()
            hit = self.memo[key] = (r == z3.unsat, cond)
        return hit[0]

    def feasible(self):
        self.get_model()
        return True

    # -- assertions ----------------------------------------------------
    def flush(self):
        """Discharge pending assertions; returns list of (label, inputs)."""
        out = []
        if not self.pending:
            return out
        pend, self.pending = self.pending, []
        m = self.get_model()
        neg = []
        for label, c in pend:
            st = stronger(c)
            if st is not None:
                self.solver.push()
                self.solver.add(z3.Not(st))
                try:
                    r, _ = self._check([z3.Not(st)])
                finally:
                    self.solver.pop()
                if r != z3.sat:
                    continue
            c = z3.simplify(c)
            if z3.is_true(c):
                continue
            neg.append((label, c))
        while neg:
            self.stats.assert_queries += 1
            disj = z3.Or([z3.Not(c) for _, c in (neg[:1] if self.ex.lia else neg)])
            bad = None
            for label, c in neg:          # cheap: the path model may refute
                if z3.is_false(m.eval(c, model_completion=True)):
                    bad = m
                    break
            if bad is None:
                self.solver.push()
                self.solver.add(disj)
                try:
                    r, m2 = self._check([disj])
                finally:
                    self.solver.pop()
                if r != z3.sat:
                    if self.ex.lia and len(neg) > 1:
                        neg = neg[1:]
                        continue
                    break
                bad = m2
            rest = []
            for label, c in neg:
                if z3.is_false(bad.eval(c, model_completion=True)):
                    out.append((label, self.input_values(bad)))
                else:
                    rest.append((label, c))
            if len(rest) == len(neg):
                raise Inconclusive('model does not refute any assertion')
            neg = rest
            if len(out) >= 6:
                break
        return out

    def input_values(self, model):
        vals = {}
        for name, spec in self.inputs.items():
            vals[name] = model_int(model, spec[1])
        return vals


class Explorer(object):
    def __init__(self, query_timeout_ms=60000, max_branches=4000, fanout=300,
                 deadline=None, max_paths=10 ** 9,
                 max_steps=100000, lia=0):
        self.lia = lia           # seconds for the integer-arithmetic solver, 0: not used
        self.stack = []
        self.stats = Stats()
        self.query_timeout_ms = query_timeout_ms
        self.max_branches = max_branches
        self.fanout = fanout
        self.deadline = deadline or (time.time() + 10 ** 7)
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.stop = False

    def new_solver(self):
        s = z3.SolverFor('QF_BV') if False else z3.SimpleSolver()
        s.set('timeout', self.query_timeout_ms)
        return s

    def push(self, prefix):
        self.stack.append(prefix)

    def explore(self, run_path):
        """run_path(path) executes the harness once."""
        global CTX
        self.stack.append(([], None))
        complete = True
        why = None
        while self.stack and not self.stop:
            prefix, hint = self.stack.pop()
            p = Path(prefix, self, hint)
            CTX = p
            try:
                run_path(p)
                self.stats.paths += 1
            except PathEnd:
                pass
            except BudgetExceeded:
                complete = False
                why = 'budget'
                if time.time() > self.deadline:
                    CTX = None
                    break
            finally:
                CTX = None
            if self.stats.paths >= self.max_paths and self.stack:
                complete = False
                why = 'max_paths'
                break
        return complete, why
