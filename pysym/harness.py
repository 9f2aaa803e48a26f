"""Harness contexts (symbolic and concrete) and the parallel runner."""
import ctypes
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback

import z3
from . import terms as T
from . import strs as S
from . import models as M
from . import instrument as I
from .engine import Engine, Stats
from .terms import SymInt, SymBool, PathAbort, StepLimit, Unsupported, StopExploration, EngineSignal, sand, sor, snot
from .strs import SymBytes, SymStr, SymByteArray

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


# --------------------------------------------------------------- evaluation

def ev_int(model, x):
    if type(x) is not SymInt:
        return x
    v = model.eval(x.t, model_completion=True).as_long()
    if x.lo < 0 and v >= (1 << (x.t.size() - 1)):
        v -= 1 << x.t.size()
    return v


def evalv(model, v, depth=0):
    """concrete value of v under a model"""
    tv = type(v)
    if tv is SymInt:
        return ev_int(model, v)
    if tv is SymBool:
        return z3.is_true(model.eval(v.c, model_completion=True))
    if tv is SymBytes or tv is SymByteArray:
        return bytes(ev_int(model, x) for x in v.b)
    if tv is SymStr:
        out = []
        for x in v.p:
            if type(x) is S.Dec:
                out.append(str(ev_int(model, x.x)))
            else:
                out.append(chr(ev_int(model, x)))
        return ''.join(out)
    if tv is M.SymSet:
        return set(evalv(model, x) for x in v.xs)
    if isinstance(v, dict):
        return dict((evalv(model, a), evalv(model, b)) for a, b in v.items())
    if tv is tuple:
        return tuple(evalv(model, x) for x in v)
    if tv is list:
        return [evalv(model, x) for x in v]
    if tv in (set, frozenset):
        return set(evalv(model, x) for x in v)
    if tv.__module__.startswith('symstd__pydatetime') or tv.__module__ in ('datetime', '_pydatetime', '_datetime'):
        return norm_dt(model, v)
    return v


def norm_dt(model, v):
    n = type(v).__name__
    if n == 'datetime':
        off = v.utcoffset()
        return ('datetime',) + tuple(evalv(model, x) for x in (v.year, v.month, v.day, v.hour, v.minute, v.second,
                                                               v.microsecond)) + (None if off is None else norm_dt(model, off),)
    if n == 'date':
        return ('date',) + tuple(evalv(model, x) for x in (v.year, v.month, v.day))
    if n == 'timedelta':
        return ('timedelta',) + tuple(evalv(model, x) for x in (v.days, v.seconds, v.microseconds))
    return n


def plain(v):
    """normalise an observed concrete value for comparison"""
    if isinstance(v, dict):
        return dict((plain(a), plain(b)) for a, b in v.items())
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, bytearray):
        return bytes(v)
    if type(v).__module__ in ('datetime', '_pydatetime', '_datetime'):
        return norm_dt(None, v)
    return v


class Failure(Exception):
    pass


class BaseCtx(object):
    def __init__(self, lib):
        self.lib = lib
        self.obs = []
        self.reached = []

    def observe(self, label, v):
        self.obs.append((label, v))

    def reach(self, label):
        self.reached.append(label)

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('err', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except Exception as e:
            self.obs.append(('exc', exc_kind(e)))
            return 'err', e

    def rejects(self, fn, *a, **k):
        st, v = self.attempt(fn, *a, **k)
        return st == 'err'


def internal_error(e):
    """raised by the executor itself, not by the code it executes or on that code's behalf"""
    if not isinstance(e, (z3.Z3Exception, ctypes.ArgumentError, ImportError, AttributeError, NameError, AssertionError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return '/pysym/' in f or '/z3/' in f or 'ctypes' in f or 'importlib' in f


def exc_kind(e):
    if isinstance(e, ValueError):
        return 'ValueError'
    return type(e).__name__


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, lib, eng):
        BaseCtx.__init__(self, lib)
        self.eng = eng
        self.inputs = {}
        self.pending = []      # (cond, msg, known)

    def attempt(self, fn, *a, **k):
        try:
            return 'ok', fn(*a, **k)
        except Exception as e:
            if internal_error(e):
                raise Unsupported('executor error: %s' % traceback.format_exc(limit=-14))
            self.obs.append(('exc', exc_kind(e)))
            return 'err', e

    # inputs
    def bytes(self, name, n):
        items = [SymInt(z3.BitVec('%s_%d' % (name, i), 8), 0, 255) for i in range(n)]
        self.inputs[name] = SymBytes(items)
        return SymBytes.make(items) if n else b''

    def byte(self, name, lo=0, hi=255):
        return self.int(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            self.inputs[name] = lo
            return lo
        w = T.need(lo, hi)
        x = SymInt(z3.BitVec(name, w), lo, hi)
        full_lo, full_hi = (0, (1 << w) - 1) if lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        wide = SymInt(x.t, full_lo, full_hi)
        self.inputs[name] = wide
        if lo > full_lo:
            self.eng.assume(wide >= lo)
        if hi < full_hi:
            self.eng.assume(wide <= hi)
        return x

    def bool(self, name):
        x = SymBool(z3.Bool(name))
        self.inputs[name] = x
        return x

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        if type(i) is not int:
            i = self.eng.concretize(i)
        return options[i]

    def text(self, name, n, ranges=((0, 127),)):
        """n symbolic characters, each within one of the code point ranges"""
        lo = min(a for a, _ in ranges)
        hi = max(b for _, b in ranges)
        items = []
        w = T.need(0, hi)
        for i in range(n):
            x = SymInt(z3.BitVec('%s_%d' % (name, i), w), 0, (1 << w) - 1)
            items.append(x)
        self.inputs[name] = SymStr(items)
        out = []
        for x in items:
            if not (len(ranges) == 1 and lo == 0 and hi == (1 << w) - 1):
                self.eng.assume(S.in_ranges(x, ranges))
            out.append(SymInt(x.t, lo, hi) if lo != hi else lo)
        return SymStr.make(out) if n else ''

    def bytes_in(self, name, n, ranges):
        b = self.bytes(name, n)
        if n:
            for x in b.b:
                self.eng.assume(S.in_ranges(x, ranges))
        return b

    def assume(self, c):
        if type(c) is SymBool:
            self.eng.assume(c)
        elif not c:
            raise PathAbort('assumed false')

    def check(self, cond, msg, known=None):
        """known: list of (finding id, predicate): listed findings"""
        self.eng.stats.assertions += 1
        if type(cond) is not SymBool:
            cond = bool(cond)
        if cond is True:
            return
        self.pending.append((cond, msg, known))

    def eq(self, a, b):
        return M.sym_eq(a, b)

    def all(self, *cs):
        return sand(*cs)

    def any(self, *cs):
        return sor(*cs)

    def not_(self, c):
        return snot(c)

    def implies(self, a, b):
        return sor(snot(a), b)

    def is_datetime(self, v):
        return isinstance(v, self.lib.datetime.datetime)

    # builtins that must go through the models when given symbolic values
    def itob(self, x, n, signed=False):
        return x.to_bytes(n, 'big', signed=signed)

    def btoi(self, b, signed=False):
        return M.int_from_bytes(b, 'big', signed=signed)

    def join(self, sep, parts):
        return M.callm(sep, 'join', parts)

    def str(self, x):
        return M.m_str(x)

    def byte_str(self, items):
        return M.bytes_from_iter(items)

    def call(self, f, *a, **k):
        return M.call(f, *a, **k)

    def method(self, o, name, *a, **k):
        return M.callm(o, name, *a, **k)

    def ite(self, c, a, b):
        return T.site(c, a, b)

    def get(self, o, i):
        return M.getitem(o, i)

    def contains(self, x, c):
        return I.s_in(x, c)


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, lib, inputs):
        BaseCtx.__init__(self, lib)
        self.vals = inputs
        self.failures = []

    def bytes(self, name, n):
        v = self.vals.get(name)
        return bytes(n) if v is None else v

    def byte(self, name, lo=0, hi=255):
        return self.int(name, lo, hi)

    def int(self, name, lo, hi):
        v = self.vals.get(name)
        if v is not None and not lo <= v <= hi:
            raise PathAbort('assumed false')
        return lo if v is None else v

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def text(self, name, n, ranges=((0, 127),)):
        v = self.vals.get(name)
        return chr(ranges[0][0]) * n if v is None else v

    def bytes_in(self, name, n, ranges):
        v = self.vals.get(name)
        return bytes([ranges[0][0]]) * n if v is None else v

    def assume(self, c):
        if not c:
            raise PathAbort('assumed false')

    def check(self, cond, msg, known=None):
        if not cond:
            for kid, pred in (known or ()):
                if pred:
                    self.reached.append('known:' + kid)
                    return
            self.failures.append(msg)

    def eq(self, a, b):
        return conc_eq(a, b)

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def is_datetime(self, v):
        return isinstance(v, self.lib.datetime.datetime)

    def itob(self, x, n, signed=False):
        return x.to_bytes(n, 'big', signed=signed)

    def btoi(self, b, signed=False):
        return int.from_bytes(b, 'big', signed=signed)

    def join(self, sep, parts):
        return sep.join(parts)

    def str(self, x):
        return str(x)

    def byte_str(self, items):
        return bytes(items)

    def call(self, f, *a, **k):
        return f(*a, **k)

    def method(self, o, name, *a, **k):
        return getattr(o, name)(*a, **k)

    def ite(self, c, a, b):
        return a if c else b

    def get(self, o, i):
        return o[i]

    def contains(self, x, c):
        return x in c


def conc_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(conc_eq(a[k], b[k]) for k in a)
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(conc_eq(x, y) for x, y in zip(a, b))
    return bool(a == b)


class Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise Alarm()


def run_concrete(fn, params, inputs, timeout=20):
    """run a harness on the real package; returns (status, failures, obs, reached)"""
    lib = I.real_lib(REPO)
    ctx = ConcreteCtx(lib, inputs)
    # processor time, so that a busy machine makes no difference
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, timeout)
    digits = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(4300)
    try:
        fn(ctx, **params)
        status = 'end'
    except PathAbort:
        status = 'abort'
    except Alarm:
        status = 'timeout'
        ctx.failures.append('did not terminate within %d s' % timeout)
    except RecursionError:
        status = 'exc'
        ctx.failures.append('unexpected exception RecursionError')
    except Exception as e:
        status = 'exc'
        ctx.failures.append('unexpected exception %s: %s' % (type(e).__name__, str(e)[:300]))
        ctx.tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        sys.set_int_max_str_digits(digits)
    return status, ctx.failures, [(l, plain(v)) for l, v in ctx.obs], ctx.reached


class Harness(object):
    def __init__(self, name, fn, cases, reach=(), doc='', bounds='', validate=True, max_steps=400000, conc_limit=600):
        self.name = name
        self.fn = fn
        self._cases = cases
        self.reach = list(reach)
        self.doc = doc or (fn.__doc__ or '').strip()
        self.bounds = bounds
        self.validate = validate
        self.max_steps = max_steps
        self.conc_limit = conc_limit

    def cases(self, tier):
        c = self._cases
        if callable(c):
            c = c(tier)
        elif isinstance(c, dict):
            c = c[tier]
        return list(c)


def parts_of(t, limit=24, size=8):
    """a conjunction with many members is decided a few members at a time"""
    flat = []
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_and(x):
            todo.extend(x.children()[::-1])
        else:
            flat.append(x)
    if len(flat) <= limit:
        return [t]
    return [z3.And(*flat[i:i + size]) for i in range(0, len(flat), size)]


class Explorer(object):
    """explores one (harness, case[, prefix]) in this process"""
    def __init__(self, harness, params, shared=None, deadline=None):
        self.h = harness
        self.params = params
        self.shared = shared
        self.deadline = deadline
        self.eng = Engine(max_steps=harness.max_steps, conc_limit=harness.conc_limit)
        self.violations = []
        self.timed_out = False

    def explore(self, prefix=None, max_paths=None):
        eng = self.eng
        t0 = time.time()
        if prefix:
            eng.load_prefix(prefix)
        lib = I.sym_lib(REPO)
        n = 0
        while True:
            self._one_path(lib)
            n += 1
            if self.violations:
                break
            if self.shared is not None:
                if self.shared.stop.value:
                    break
                if self.shared.idle.value > 0:
                    p = eng.donate()
                    if p is not None:
                        self.shared.put((self.h.name, self.shared.case_id, p))
            if not eng.backtrack():
                break
            if self.deadline is not None and time.time() > self.deadline:
                self.timed_out = True
                break
            if max_paths and n >= max_paths:
                self.timed_out = True
                break
        eng.stats.wall_s += time.time() - t0
        eng.stats.functions |= I.FUNCS
        eng.reset()
        T.set_engine(T._NullEngine())
        return eng.stats

    def _one_path(self, lib):
        eng = self.eng
        eng.begin()
        ctx = SymCtx(lib, eng)
        outcome = 'end'
        exc = None
        try:
            self.h.sym_fn(ctx, **self.params)
        except PathAbort:
            eng.stats.infeasible += 1
            eng.forced_prefix = None
            return
        except StepLimit:
            outcome = 'steplimit'
            eng.stats.steplimit += 1
        except Unsupported as e:
            outcome = 'unsupported'
            eng.stats.unsupported += 1
            eng.incomplete('unsupported: %s' % e)
        except RecursionError:
            outcome = 'exc'
            exc = 'RecursionError'
        except Exception as e:
            outcome = 'exc'
            exc = e
        eng.stats.paths += 1
        try:
            model = eng.ensure_model()
        except PathAbort:
            eng.stats.infeasible += 1
            return
        for r in ctx.reached:
            eng.stats.reach[r] = eng.stats.reach.get(r, 0) + 1
        # assertions of this path
        for cond, msg, known in ctx.pending:
            preds = [p for _, p in (known or ())]
            goal = sor(cond, *preds) if preds else cond
            for kid, p in (known or ()):
                if kid not in eng.stats.known:
                    f = sand(p, snot(cond))
                    if f is not False:
                        r, m = eng.query(T.bterm(f))
                        if r == z3.sat:
                            eng.stats.known[kid] = jsonable(self.inputs(ctx, m))
            if goal is True:
                continue
            if goal is False:
                self._candidate(ctx, model, msg)
                if self.violations:
                    return
                continue
            for part in parts_of(T.bterm(goal)):
                r, m = eng.query(z3.Not(part))
                if r == z3.sat:
                    self._candidate(ctx, m, msg)
                    if self.violations:
                        return
                    break
                elif r != z3.unsat:
                    eng.incomplete('solver unknown on an assertion')
        key = outcome if exc is None else 'exc:' + (exc if isinstance(exc, str) else type(exc).__name__)
        eng.stats.outcomes[key] = eng.stats.outcomes.get(key, 0) + 1
        # translation validation: the same path on the real code
        if self.h.validate or outcome != 'end' or eng.path_incomplete:
            inputs = self.inputs(ctx, model)
            status, failures, obs, reached = run_concrete(self.h.fn, self.params, inputs)
            eng.stats.validated += 1
            if outcome != 'end':
                for r in reached:
                    eng.stats.reach[r] = eng.stats.reach.get(r, 0) + 1
            if len(eng.stats.samples) < 3:
                eng.stats.samples.append({'harness': self.h.name, 'params': jsonable(self.params),
                                          'inputs': jsonable(inputs), 'outcome': outcome})
            if failures:
                self._record(inputs, failures[0])
                return
            if outcome == 'unsupported' and eng.stats.unsupported <= 200:
                # not decided symbolically: at least try other inputs that follow this prefix
                for m2 in self._more_models(ctx, 6):
                    inputs = self.inputs(ctx, m2)
                    _, failures, _, _ = run_concrete(self.h.fn, self.params, inputs)
                    if failures:
                        self._record(inputs, failures[0])
                        return
            if outcome == 'exc':
                eng.incomplete('symbolic run raised %s where the real code does not' % (
                    exc if isinstance(exc, str) else '%s: %s @ %s' % (type(exc).__name__, safe_str(exc), where(exc))))
            elif outcome == 'steplimit':
                eng.incomplete('step bound reached on a path that terminates')
            elif outcome == 'end':
                want = [(l, plain(evalv(model, v))) for l, v in ctx.obs]
                if want != obs or [r for r in ctx.reached] != [r for r in reached if not r.startswith('known:')]:
                    eng.incomplete('model/real mismatch: %r: %r vs %r on %r' % (self.params,
                        (want, ctx.reached), (obs, reached), inputs) if os.environ.get('PYSYM_DEBUG') else
                        'model/real mismatch in %s' % self.h.name)
        elif outcome == 'end':
            pass

    def _more_models(self, ctx, n):
        rnd = random.Random(eng_seed())
        items = []
        for v in ctx.inputs.values():
            if type(v) is SymInt:
                items.append(v.t)
            elif type(v) is SymBytes or type(v) is SymStr:
                items.extend(x.t for x in (v.b if type(v) is SymBytes else v.p) if type(x) is SymInt)
            elif type(v) is SymBool:
                items.append(v.c)
        for _ in range(n):
            cs = []
            for t in items:
                if z3.is_bool(t):
                    c = t if rnd.random() < .5 else z3.Not(t)
                else:
                    c = t == z3.BitVecVal(rnd.getrandbits(t.size()), t.size())
                if rnd.random() < .6:
                    cs.append(c)
            while True:
                r, m = self.eng.query(z3.And(*cs) if cs else z3.BoolVal(True))
                if r == z3.sat:
                    yield m
                    break
                if not cs:
                    break
                cs = cs[:len(cs) // 2]

    def inputs(self, ctx, model):
        return dict((k, evalv(model, v)) for k, v in ctx.inputs.items())

    def _candidate(self, ctx, model, msg):
        inputs = self.inputs(ctx, model)
        status, failures, obs, reached = run_concrete(self.h.fn, self.params, inputs)
        if failures:
            self._record(inputs, failures[0])
        else:
            self.eng.incomplete('counterexample does not reproduce (%s)%s' % (
                msg, ' %r' % (inputs,) if os.environ.get('PYSYM_DEBUG') else ''))

    def _record(self, inputs, msg):
        self.violations.append({'harness': self.h.name, 'params': jsonable(self.params),
                                'inputs': jsonable(inputs), 'message': msg})


def eng_seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def where(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    fs = traceback.extract_tb(e.__traceback__)
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fs[-4:][::-1])


def safe_str(e):
    try:
        return ' '.join(a if type(a) is str else '?' for a in e.args)[:200]
    except Exception:
        return '?'


def jsonable(v):
    if isinstance(v, bytes):
        return {'$b': v.hex()}
    if isinstance(v, dict):
        return {'$d': [[jsonable(a), jsonable(b)] for a, b in v.items()]}
    if isinstance(v, tuple):
        return {'$t': [jsonable(x) for x in v]}
    if isinstance(v, (list, set, frozenset)):
        return [jsonable(x) for x in v]
    if isinstance(v, str):
        return {'$s': v.encode('utf-8', 'surrogatepass').hex()} if any(0xd800 <= ord(c) < 0xe000 for c in v) else v
    if v is None or isinstance(v, (int, float, bool)):
        return v
    return {'$r': repr(v)}


def unjson(v):
    if isinstance(v, dict):
        if '$b' in v:
            return bytes.fromhex(v['$b'])
        if '$d' in v:
            return dict((unjson(a), unjson(b)) for a, b in v['$d'])
        if '$t' in v:
            return tuple(unjson(x) for x in v['$t'])
        if '$s' in v:
            return bytes.fromhex(v['$s']).decode('utf-8', 'surrogatepass')
        return v.get('$r')
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


# ------------------------------------------------------------------ runner

class Shared(object):
    def __init__(self, n):
        self.q = mp.Queue()
        self.out = mp.Queue()
        self.idle = mp.Value('i', 0)
        self.outstanding = mp.Value('i', 0)
        # tasks nobody takes any more must not keep a process from ending
        self.q.cancel_join_thread()
        self.stop = mp.Value('i', 0)
        self.current = mp.Array('i', [-1] * n)
        self.case_id = None

    def put(self, task):
        with self.outstanding.get_lock():
            self.outstanding.value += 1
        self.q.put(task)


def load_check(pid):
    p = os.path.join(VERIF, 'checks', pid + '.py')
    for d in (VERIF, os.path.join(VERIF, 'checks')):
        if d not in sys.path:
            sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location('check_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def sym_functions(pid):
    """the harness functions of a check, instrumented like the code under test"""
    import types
    p = os.path.join(VERIF, 'checks', pid + '.py')
    m = types.ModuleType('symcheck_' + pid)
    m.__file__ = p
    I.prepare(m)
    with open(p, encoding='utf-8') as f:
        src = f.read()
    exec(I.transform(src, p, 'check'), m.__dict__)
    return dict((h.name, h.fn) for h in m.HARNESSES)


def _worker(wid, mod, shared, tier, deadline, cases):
    sys.setrecursionlimit(20000)
    if os.environ.get('PYSYM_DUMP'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['PYSYM_DUMP']), exit=True)
    hs = dict((h.name, h) for h in mod.HARNESSES)
    total = {}
    violations = []
    timed = []
    idle = False
    flushed = time.time()
    try:
        while True:
            if shared.stop.value:
                break
            if total and time.time() > flushed + 5:
                # what was found so far outlives this process
                flushed = time.time()
                shared.out.put(('part', total, [], timed))
                total, timed = {}, []
            try:
                task = shared.q.get(timeout=0.02)
            except queue.Empty:
                if not idle:
                    idle = True
                    with shared.idle.get_lock():
                        shared.idle.value += 1
                if shared.outstanding.value <= 0 or time.time() > deadline + 20:
                    break
                continue
            if idle:
                idle = False
                with shared.idle.get_lock():
                    shared.idle.value -= 1
            hname, cid, prefix = task
            h = hs[hname]
            shared.case_id = cid
            shared.current[wid] = cid
            ex = Explorer(h, cases[cid][1], shared, deadline)
            try:
                if time.time() > deadline:
                    timed.append((hname, cid))
                else:
                    st = ex.explore(prefix)
                    if os.environ.get('PYSYM_CASELOG'):
                        with open(os.environ['PYSYM_CASELOG'], 'a') as f:
                            f.write('%s %s %d %.2f %r\n' % (hname, cid, st.paths, st.wall_s, cases[cid][1]))
                    total.setdefault(hname, Stats()).merge(st)
                    if ex.timed_out:
                        timed.append((hname, cid))
                shared.current[wid] = -1
            finally:
                with shared.outstanding.get_lock():
                    shared.outstanding.value -= 1
            if ex.violations:
                violations.extend(ex.violations)
                if not os.environ.get('PYSYM_KEEPGOING'):
                    shared.stop.value = 1
                    break
        shared.out.put(('ok', total, violations, timed))
    except BaseException as e:
        shared.stop.value = 1
        shared.out.put(('crash', total, violations, timed, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())))


def _run_workers(mod, tier, jobs, deadline, cases):
    shared = Shared(jobs)
    for i, (hn, c) in enumerate(cases):
        shared.put((hn, i, None))
    ctxm = mp.get_context('fork')
    ps = [ctxm.Process(target=_worker, args=(w, mod, shared, tier, deadline, cases)) for w in range(jobs)]
    for p in ps:
        p.start()
    stats = {}
    violations = []
    timed = []
    crashed = []
    died = []
    got = 0
    hard = deadline + 45
    while got < len(ps):
        try:
            r = shared.out.get(timeout=1)
        except queue.Empty:
            died = ['exit code %s' % p.exitcode for p in ps if p.exitcode not in (None, 0)]
            if died and not shared.stop.value:
                shared.stop.value = 1
                hard = min(hard, time.time() + 30)
            if not any(p.is_alive() for p in ps) and shared.out.empty():
                if not died:
                    crashed.append('a worker ended without a report')
                break
            if time.time() > hard:
                if not died:
                    # the solver does not return; its cases are undecided
                    stuck = [(cases[c][0], c) for c in shared.current if c >= 0]
                    timed.extend(stuck)
                    print('note: given up on %d case(s) the solver does not return from' % len(stuck))
                    if not stats:
                        crashed.append('hard timeout')
                break
            continue
        if r[0] != 'part':
            got += 1
        for k, v in r[1].items():
            stats.setdefault(k, Stats()).merge(v)
        violations.extend(r[2])
        timed.extend(r[3])
        if r[0] == 'crash':
            crashed.append(r[4])
    died = ['exit code %s' % p.exitcode for p in ps if p.exitcode not in (None, 0)]
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join(5)
    return stats, violations, timed, crashed, died


def run_check(pid, tier='quick', only=None, jobs=None, budget=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_check(pid)
    jobs = jobs or int(os.environ.get('PYSYM_JOBS', '0')) or min(8, os.cpu_count() or 1)
    if budget is None:
        budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 2400)
    budget = int(os.environ.get('PYSYM_BUDGET', budget))
    deadline = t0 + budget
    harnesses = [h for h in mod.HARNESSES if not only or h.name in only]
    load_error = None
    try:
        I.real_lib(REPO)
        lib = I.sym_lib(REPO)
        for m in getattr(mod, 'MODULES', ('core', 'parser', 'util')):
            getattr(lib, m)
            getattr(I.real_lib(REPO), m)
    except Exception as e:
        print('ERROR: cannot load the package: %s' % e)
        traceback.print_exc()
        return 2
    sf = sym_functions(pid)
    cases = []
    for h in harnesses:
        h.sym_fn = sf[h.name]
        for ci, c in enumerate(h.cases(tier)):
            if os.environ.get('PYSYM_CASE') and str(ci) not in os.environ['PYSYM_CASE'].split(','):
                continue
            cases.append((h.name, c))
    for attempt in range(3):
        stats, violations, timed, crashed, died = _run_workers(mod, tier, jobs, deadline, cases)
        if not died:
            break
        # a native crash of a worker (the solver library): nothing of that run is used
        if not violations:
            print('note: a worker process died (%s); starting over' % ', '.join(died))
        else:
            break
        deadline = time.time() + budget
    else:
        crashed.append('worker processes keep dying: ' + ', '.join(died))
    return report(pid, mod, tier, seed, harnesses, cases, stats, violations, timed, crashed, time.time() - t0, verbose)


def report(pid, mod, tier, seed, harnesses, cases, stats, violations, timed, crashed, wall, verbose):
    tot = Stats()
    for s in stats.values():
        tot.merge(s)
    # vacuity guard: every declared witness must have been reached
    unreached = []
    for h in harnesses:
        s = stats.get(h.name)
        for r in h.reach:
            if s is None or not s.reach.get(r):
                unreached.append('%s/%s' % (h.name, r))
    confirmed = []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    if os.environ.get('PYSYM_KEEPGOING'):
        for v in violations:
            print('  all: %s %s %s: %s' % (v['harness'], json.dumps(v['params'])[:300], json.dumps(v['inputs'])[:300], v['message']))
    for i, v in enumerate(violations[:3]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (pid, i))
        v = dict(v, property=pid)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        # replay in a fresh process against the real code
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True, timeout=120)
        if r.returncode == 1:
            confirmed.append((path, v))
        else:
            crashed.append('counterexample did not reproduce in a fresh process: %s\n%s' % (json.dumps(v), r.stdout + r.stderr))
    inconclusive = bool(timed) or tot.incomplete or tot.unknown
    known_seen = sorted(tot.known)
    kf = known_findings(pid)
    per = {}
    for h in harnesses:
        s = stats.get(h.name) or Stats()
        per[h.name] = {
            'what': ' '.join(h.doc.split()), 'bounds': h.bounds, 'cases': len([1 for n, _ in cases if n == h.name]),
            'paths': s.paths, 'infeasible': s.infeasible, 'branch_forks': s.forks, 'queries': s.queries, 'sat': s.sat, 'unsat': s.unsat,
            'assertions_on_paths': s.assertions, 'assertion_queries': s.assert_queries, 'solver_s': round(s.solver_s, 2),
            'cpu_s': round(s.wall_s, 2),
            'reach': s.reach, 'outcomes': s.outcomes, 'incomplete_paths': s.incomplete,
            'timed_out_cases': len([1 for n, _ in timed if n == h.name])}
    complete = not (timed or tot.incomplete or tot.unknown or crashed or violations)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.paths, 'transitions': tot.forks, 'traces_validated_against_impl': tot.validated,
            'samples': tot.samples[:6] or [{'note': 'none'}],
            'exhaustive': bool(complete),
            'explanation': 'states = feasible paths of the real functions explored symbolically (each stands for all inputs '
                           'that follow it); transitions = branch decisions put to the solver; every path is re-run on the '
                           'uninstrumented code with a model of its path condition',
            'queries_discharged': tot.queries, 'queries_sat': tot.sat, 'queries_unsat': tot.unsat, 'queries_unknown': tot.unknown,
            'solver_s': round(tot.solver_s, 2), 'harnesses': per,
            'functions_encoded': sorted(f for f in tot.functions if not f.startswith(('_pydatetime', 'urllib', 'stringprep', 'encodings', 'check'))),
            'stdlib_functions_encoded': sorted(f for f in tot.functions if f.startswith(('_pydatetime', 'urllib', 'stringprep', 'encodings'))),
            'notes': tot.notes, 'known_findings_seen': known_seen, 'unreached': unreached,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=repr)
    print('%s %s: paths=%d forks=%d queries=%d solver=%.1fs validated=%d incomplete=%d timed=%d wall=%.1fs' % (
        pid, tier, tot.paths, tot.forks, tot.queries, tot.solver_s, tot.validated, tot.incomplete, len(timed), wall))
    if verbose:
        for k, v in per.items():
            print('   ', k, json.dumps({a: b for a, b in v.items() if a not in ('what', 'bounds')}))
    for n, c in sorted(tot.notes.items()):
        print('  note x%d: %s' % (c, n[:2000]))
    for k in kf:
        if k in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
        elif not only_partial(harnesses, mod):
            print('  note: listed finding %s was not reached' % k)
    for k in known_seen:
        if k not in kf:
            crashed.append('harness names a finding that is not in the known-findings file: ' + k)
    if confirmed:
        for path, v in confirmed:
            print('  %s %s: %s' % (v['harness'], json.dumps(v['inputs'])[:600], v['message']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if crashed:
        for c in crashed:
            print('ERROR: ' + c)
        return 2
    if timed:
        print('INCONCLUSIVE: %d case(s) hit the time budget: %s' % (len(timed), sorted(set(timed))[:10]))
    if tot.incomplete:
        print('INCOMPLETE: %d path(s) were only sampled' % tot.incomplete)
    if unreached and (timed or tot.incomplete):
        print('  note: not reached: %s' % ', '.join(unreached))
    elif unreached:
        print('ERROR: vacuity guard: never reached: %s' % ', '.join(unreached))
        return 2
    return 0


def only_partial(harnesses, mod):
    return len(harnesses) != len(mod.HARNESSES)


COMMON_ASSUMPTIONS = [
    'symbolic execution models CPython 3.12 semantics of the builtins and C library functions used (pysym/models.py, strs.py, regex.py); every explored path is additionally run on the real code',
    'exception message texts are not modelled',
    'strings have the concrete lengths enumerated by the harness cases; longer inputs are outside the claim',
]


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=C01 id=KF1 text
                parts = line[len('finding: '):].split(' ', 2)
                prop = parts[0].split('=')[1]
                kid = parts[1].split('=')[1]
                if prop == pid:
                    out[kid] = '%s %s' % (kid, parts[2])
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    return run_check(a.pid, a.tier, a.only, a.jobs, verbose=a.v)
