"""Depth-first path exploration by re-execution; z3 decides every branch.

A path is a list of decisions (the trail).  Decision prefixes are kept asserted
in one incremental solver; a path is re-executed from the start with the
recorded prefix and then extended.  Every feasible side of every branch is
visited, so when the trail empties, all inputs within the harness's bounds
have been covered.
"""
import time
import os
import shutil
import z3
from . import terms as T
from .terms import (SymInt, SymBool, EngineSignal, PathAbort, StepLimit, Unsupported, StopExploration)

z3.set_param('memory_max_size', 6000)
FIRST_TIMEOUT_MS = 500


class Node(object):
    __slots__ = ('cond', 'taken', 'flipped', 'value', 'model', 'forced')

    def __init__(self, cond, taken, value=None, forced=False):
        self.cond = cond
        self.taken = taken
        self.flipped = forced
        self.value = value
        self.forced = forced


class Violation(Exception):
    pass


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'queries', 'sat', 'unsat', 'unknown', 'hard', 'assertions', 'assert_queries',
              'forks', 'validated', 'concretized', 'incomplete', 'steplimit', 'unsupported')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.functions = set()
        self.reach = {}
        self.notes = {}
        self.samples = []
        self.known = {}
        self.outcomes = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.wall_s += o.wall_s
        self.functions |= o.functions
        for k, v in o.reach.items():
            self.reach[k] = self.reach.get(k, 0) + v
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.known.items():
            self.known.setdefault(k, v)
        if len(self.samples) < 12:
            self.samples.extend(o.samples[:2])


class Solver(object):
    """
    An incremental solver that can be started afresh: after a check that ran
    out of time, z3's incremental solver has been seen to return models that
    do not satisfy its own assertions, so it is not used again after one.
    """

    def __init__(self):
        self.levels = [[]]
        self.renew()

    def renew(self):
        self.z = z3.SolverFor('QF_BV')
        for i, level in enumerate(self.levels):
            if i:
                self.z.push()
            if level:
                self.z.add(*level)

    def push(self):
        self.levels.append([])
        self.z.push()

    def pop(self):
        self.levels.pop()
        self.z.pop()

    def add(self, cond):
        self.levels[-1].append(cond)
        self.z.add(cond)

    def assertions(self):
        return [c for level in self.levels for c in level]

    def check(self, timeout_ms):
        self.z.set('timeout', timeout_ms)
        r = self.z.check()
        if r == z3.unknown:
            self.renew()
        return r

    def model(self):
        return self.z.model()


class Engine(object):
    def __init__(self, max_steps=400000, conc_limit=600, query_timeout_ms=20000):
        self.solver = Solver()
        self.query_timeout_ms = query_timeout_ms
        self.found = None
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_steps = max_steps
        self.conc_limit = conc_limit
        self.stats = Stats()
        self.inputs = {}
        self.forced_prefix = None
        self.memo = {}
        self.overlay = {}
        self.nfresh = 0
        self.steps = 0
        self.path_incomplete = False

    # -- solver --------------------------------------------------------------
    def _check(self):
        t = time.time()
        r = self._decide()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _decide(self):
        """incremental solver first; queries it is slow on go to one-shot solvers"""
        self.found = None
        t = time.time()
        r = self.solver.check(FIRST_TIMEOUT_MS)
        # A check that ends just as its time runs out can come with a model that is cut short
        if r == z3.sat and time.time() - t > FIRST_TIMEOUT_MS / 4000 and not self._satisfies(self.solver.model()):
            self.note('discarded a model that was cut short')
            r = z3.unknown
            self.solver.renew()
        if os.environ.get('PYSYM_CHECKMODELS') and r == z3.sat and not self._satisfies(self.solver.model()):
            self.note('WRONG MODEL %.3f' % (time.time() - t))
        if r != z3.unknown:
            return r
        self.stats.hard += 1
        fresh = z3.Tactic('qfbv').solver()
        fresh.add(*self.solver.assertions())
        for ms in (1000, None, 4000):
            if ms is None:
                r = self._arith(fresh)
            else:
                fresh.set('timeout', ms)
                r = fresh.check()
                if r == z3.sat:
                    self.found = fresh.model()
                    if not self._satisfies(self.found):
                        # seen under time pressure: a model that is not one
                        self.note('discarded a wrong model of a one-shot solver')
                        self.found, r = None, z3.unknown
            if r != z3.unknown:
                return r
        r = self.solver.check(self.query_timeout_ms)
        if r == z3.sat and not self._satisfies(self.solver.model()):
            self.note('discarded a wrong model of the incremental solver')
            return z3.unknown
        return r

    def _satisfies(self, model):
        return all(z3.is_true(model.eval(a, model_completion=True)) for a in self.solver.assertions())

    def _arith(self, fresh):
        """cvc5, translating bit-vectors to integers: good at sums of products with constants"""
        import subprocess
        import tempfile
        exe = shutil.which('cvc5')
        if exe is None:
            return z3.unknown
        text = '(set-logic QF_BV)\n' + fresh.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write(text)
            f.flush()
            try:
                out = subprocess.run([exe, '--solve-bv-as-int=sum', '--tlimit=8000', f.name], capture_output=True, text=True, timeout=20).stdout
            except (subprocess.TimeoutExpired, OSError):
                return z3.unknown
        # only a refutation is used: a model has to come from z3
        return z3.unsat if out.split('\n')[0].strip() == 'unsat' else z3.unknown

    def _model(self):
        return self.found if self.found is not None else self.solver.model()

    def note(self, msg):
        self.stats.notes[msg] = self.stats.notes.get(msg, 0) + 1

    def incomplete(self, why):
        self.stats.incomplete += 1
        self.path_incomplete = True
        self.note('incomplete: ' + why)

    # -- run control -----------------------------------------------------------
    def begin(self):
        """start (re-)executing a path"""
        self.pos = 0
        self.memo = {}
        self.overlay = {}
        self.nfresh = 0
        self.steps = 0
        self.path_incomplete = False
        from . import instrument
        instrument.restore_globals()
        T.set_engine(self)

    def load_prefix(self, prefix):
        """prefix: list of (kind, taken, value); conditions are rebuilt on re-execution"""
        self.forced_prefix = list(prefix)

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._model()
            elif r == z3.unsat:
                raise PathAbort('infeasible prefix')
            else:
                self.incomplete('solver unknown on path condition')
                raise PathAbort('unknown')
        return self.model

    def _push(self, cond, taken, value=None, forced=False):
        c = cond if taken else z3.Not(cond)
        self.solver.push()
        self.solver.add(c)
        n = Node(cond, taken, value, forced)
        self.trail.append(n)
        self.pos += 1
        return n

    def branch(self, cond):
        """Decide a z3 Bool on this path; returns a Python bool."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        m = self.memo.get(key)
        if m is not None and m[0].eq(cond):
            return m[1]
        r = self._branch(cond)
        self.memo[key] = (cond, r)
        return r

    def _branch(self, cond):
        self.steps += 20
        if self.steps > self.max_steps:
            self._steplimit()
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            self.pos += 1
            return n.taken
        if self.forced_prefix:
            kind, taken, value = self.forced_prefix.pop(0)
            self._push(cond, taken, value, forced=True)
            self.model = None
            return taken
        s = z3.simplify(cond)
        if z3.is_true(s) or z3.is_false(s):
            self._push(cond, z3.is_true(s), forced=True)
            return z3.is_true(s)
        model = self.ensure_model()
        v = model.eval(cond, model_completion=True)
        taken = z3.is_true(v)
        if not taken and not z3.is_false(v):
            # should not happen with completion
            taken = True
            self.solver.push()
            self.solver.add(cond)
            ok = self._check() == z3.sat
            self.solver.pop()
            taken = ok
        self.stats.forks += 1
        self._push(cond, taken)
        return taken

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self._steplimit()

    def _steplimit(self):
        raise StepLimit('step bound %d exceeded' % self.max_steps)

    def assume(self, cond):
        """constrain the path; aborts it when infeasible"""
        if type(cond) is SymBool:
            c = cond.c
            if self.pos < len(self.trail):
                n = self.trail[self.pos]
                self.pos += 1
                return
            if self.forced_prefix:
                self.forced_prefix.pop(0)
                self._push(c, True, 'assume', forced=True)
                self.model = None
                return
            keep = False
            if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
                keep = True
            self._push(c, True, 'assume', forced=True)
            if not keep:
                self.model = None
                self.ensure_model()
        elif not cond:
            raise PathAbort('assumption false')

    def fresh(self, name, lo, hi):
        """an auxiliary unknown, to be pinned down by an assumption"""
        self.nfresh += 1
        w = T.need(lo, hi)
        x = SymInt(z3.BitVec('aux!%s!%d' % (name, self.nfresh), w), lo, hi)
        full = SymInt(x.t, 0, (1 << w) - 1)
        if lo > 0:
            self.assume(full >= lo)
        if hi < (1 << w) - 1:
            self.assume(full <= hi)
        return x

    def concretize(self, x):
        """fork over every feasible value of a SymInt"""
        if type(x) is int:
            return x
        v0 = getattr(x, '_v', None)
        if v0 is not None:
            return v0
        k = 0
        while True:
            # candidate value: recorded on the trail or taken from the current model
            if self.pos < len(self.trail):
                v = self.trail[self.pos].value
                if not (type(v) is tuple and v[0] == 'v'):
                    # condition was simplified away when first executed
                    v = None
            elif self.forced_prefix:
                v = self.forced_prefix[0][2]
                if not (type(v) is tuple and v[0] == 'v'):
                    v = None
            else:
                v = None
            if v is None:
                if self.pos < len(self.trail) or self.forced_prefix:
                    raise AssertionError('nondeterministic re-execution at concretize')
                model = self.ensure_model()
                val = model.eval(x.t, model_completion=True).as_long()
                if x.lo < 0 and val >= (1 << (x.t.size() - 1)):
                    val -= 1 << x.t.size()
                v = ('v', val)
            val = v[1]
            cond = x.t == T.bv(val & ((1 << x.t.size()) - 1), x.t.size())
            if self._branch_value(cond, v):
                x._v = val
                self.stats.concretized += 1
                return val
            k += 1
            if k > self.conc_limit:
                self.incomplete('more than %d values for one concretised integer' % self.conc_limit)
                raise PathAbort('conc limit')

    def _branch_value(self, cond, v):
        self.steps += 20
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            self.pos += 1
            return n.taken
        if self.forced_prefix:
            kind, taken, value = self.forced_prefix.pop(0)
            self._push(cond, taken, value, forced=True)
            self.model = None
            return taken
        self.stats.forks += 1
        self._push(cond, True, v)
        return True

    def concretize_seq(self, s):
        from .strs import SymStr
        if os.environ.get('PYSYM_DEBUG'):
            import traceback
            self.note('concretised a whole string: ' + ' < '.join(
                '%s:%d' % (os.path.basename(x.filename), x.lineno) for x in traceback.extract_stack()[-7:-1][::-1]))
        else:
            self.note('concretised a whole string (no model for the operation)')
        vals = [x if type(x) is int else self.concretize(x) for x in s._items()]
        if type(s) is SymStr:
            return ''.join(map(chr, vals))
        return bytes(vals)

    def backtrack(self):
        """move to the next unexplored path; False when exhausted"""
        while self.trail:
            n = self.trail[-1]
            self.trail.pop()
            self.solver.pop()
            if n.flipped:
                continue
            cond = n.cond if not n.taken else z3.Not(n.cond)
            self.solver.push()
            self.solver.add(cond)
            r = self._check()
            if r == z3.sat:
                self.model = self._model()
                n.taken = not n.taken
                n.flipped = True
                self.trail.append(n)
                return True
            if r != z3.unsat:
                self.incomplete('solver unknown on a branch')
            self.solver.pop()
        return False

    def donate(self):
        """give away the shallowest unexplored alternative as a decision prefix (or None)"""
        for i, n in enumerate(self.trail):
            if not n.flipped:
                prefix = [('b', m.taken, m.value) for m in self.trail[:i]]
                # the alternative side, keeping the recorded value for concretisations
                prefix.append(('b', not n.taken, n.value))
                n.flipped = True
                return prefix
        return None

    def reset(self):
        while self.trail:
            self.trail.pop()
            self.solver.pop()
        self.model = None
        self.forced_prefix = None

    # -- assertion queries ------------------------------------------------------
    def query(self, cond):
        """sat check of path condition /\\ cond (a z3 Bool); returns (result, model)"""
        self.solver.push()
        self.solver.add(cond)
        self.stats.assert_queries += 1
        r = self._check()
        m = self._model() if r == z3.sat else None
        self.solver.pop()
        return r, m
