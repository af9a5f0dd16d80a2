"""Path-exploring symbolic executor core: decisions, solver, symbolic ints and bools.

The code under analysis is the real source of /repo, re-read and rewritten on every run (see loader.py);
the values it computes on are the proxies defined here.  A branch on a symbolic condition asks z3 which
outcomes are feasible under the path condition and the run is re-executed for each of them (depth first).
"""
import os
import subprocess
import threading
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class SymAbort(BaseException):
    """Base of the exceptions that end a path (BaseException: the code under test cannot swallow them)."""


class PathTime(BaseException):
    pass


class Infeasible(SymAbort):
    pass


class Truncated(SymAbort):
    pass


class Unsupported(SymAbort):
    pass


class StopExploration(SymAbort):
    pass


class Entry:
    __slots__ = ('value', 'alt', 'alt_c', 'alt_model', 'pushed', 'flipped')

    def __init__(self, value, alt, alt_c, alt_model, pushed):
        self.value = value
        self.alt = alt
        self.alt_c = alt_c
        self.alt_model = alt_model
        self.pushed = pushed
        self.flipped = False


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.fresh = 0
        self.cvc5 = 0
        self.unknown = 0
        self.paths = 0
        self.truncated = 0
        self.unsupported = 0
        self.unsupported_reasons = {}
        self.decisions = 0
        self.checks = 0
        self.checks_trivial = 0
        self.checks_solver = 0
        self.checks_inconclusive = 0
        self.reached = 0
        self.outcomes = {}
        self.validated = 0
        self.validation_mismatch = []
        self.timeout = False


def _external(cmd, text, seconds):
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=seconds + 3)
    except (OSError, subprocess.TimeoutExpired):
        return False
    return p.stdout.strip() == 'unsat'


def cvc5_unsat(text, seconds, *options):
    return _external(['cvc5', '--lang=smt2', '--tlimit=%d' % (seconds * 1000), '-q', *options], '(set-logic ALL)\n' + text, seconds)


def z3_int_unsat(text, seconds):
    """z3 with bit-vectors translated to integers: decides the linear-arithmetic queries bit-blasting cannot."""
    return _external(['z3-new', '-in', '-T:%d' % seconds, 'tactic.default_tactic=smt', 'sat.euf=true', 'smt.bv.solver=2'], text, seconds)


class Engine:
    cur = None

    def __init__(self, query_timeout_ms=15000, max_paths=20000, max_decisions=4000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', 150)
        self.query_ms = query_timeout_ms
        self.last = self.solver
        self.div_cache = {}
        self.merge = False  # set by a harness: assignments under a condition are merged instead of forking
        self.text = False  # set by a harness: printed numbers and times are kept as terms
        self.pin = False  # set by a harness: positions and printed numbers with one possible value become concrete
        self.facts = {}  # conditions decided by the entries of the stack
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.stack = []
        self.pos = 0
        self.model = None
        self.inputs = {}
        self.counters = {}
        self.stats = Stats()
        self.on_cex = None
        self.labels = []
        self.path_events = 0

    # -- solver ---------------------------------------------------------------------------------
    def _check(self, *assumptions):
        """Incremental solver first (cheap queries), then a fresh z3 solver, then cvc5 for queries z3 gives up on."""
        t = time.time()
        self.last = self.solver
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.add(self.solver.assertions())
            s2.add(*assumptions)
            self.stats.fresh += 1
            self.last = s2
            s2.set('timeout', min(self.query_ms, 1500))
            r = s2.check()
            if r == z3.unknown:
                text = s2.to_smt2()
                if os.environ.get('SYMEX_DUMP'):
                    open('%s/q%d_%d.smt2' % (os.environ['SYMEX_DUMP'], os.getpid(), self.stats.queries), 'w').write(text)
                self.stats.cvc5 += 1
                r = self._race(s2, text)
                if r == z3.unknown and self.query_ms > 8000 and self._last_try(text):
                    r = z3.unsat
        dt = time.time() - t
        self.stats.solver_time += dt
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _last_try(self, text):
        """The whole query time once more, for three solvers side by side (the earlier tries are short, and shorter on a busy machine)."""
        seconds = int(self.query_ms / 1000)
        found = []
        over = threading.Semaphore(0)

        def one(f):
            if f():
                found.append(1)
            over.release()

        tries = (lambda: cvc5_unsat(text, seconds), lambda: z3_int_unsat(text, seconds), lambda: _external(['z3-new', '-in', '-T:%d' % seconds], text, seconds))
        for f in tries:
            threading.Thread(target=one, args=(f,), daemon=True).start()
        for f in tries:
            over.acquire()
            if found:
                return True
        return False

    def _race(self, s2, text):
        """The bit-vector solver in this process against two integer translations in others; the first answer counts."""
        found = []
        done = threading.Event()
        over = threading.Event()

        def side():
            if z3_int_unsat(text, 8) or cvc5_unsat(text, 2, '--solve-bv-as-int=sum'):
                found.append(1)
                over.set()
                while not done.wait(0.02):
                    s2.interrupt()
            over.set()

        if os.environ.get('SYMEX_NORACE'):  # one after the other (the second try after the solver crashed when interrupted)
            if z3_int_unsat(text, 8) or cvc5_unsat(text, 2, '--solve-bv-as-int=sum'):
                return z3.unsat
            s2.set('timeout', min(self.query_ms, 8000))
            return s2.check()
        th = threading.Thread(target=side, daemon=True)
        th.start()
        s2.set('timeout', min(self.query_ms, 8000))
        try:
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unknown:
            over.wait(15)
            if found:
                r = z3.unsat
        done.set()
        return r

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last.model()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                raise Truncated('solver unknown')
        return self.model

    def _ev(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- decisions ------------------------------------------------------------------------------
    def in_prefix(self):
        return self.pos < len(self.stack)

    def _tick(self):
        self.path_events += 1
        if self.path_events > self.max_decisions:
            raise Truncated('decision bound')
        if self.deadline is not None and time.time() > self.deadline:
            self.stats.timeout = True
            raise StopExploration()

    def branch(self, cond):
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            self.pos += 1
            return e.value
        cond = z3.simplify(cond)
        # Constant conditions are not recorded: simplification is deterministic, so a re-execution skips them too.
        if z3.is_true(cond):
            # recorded, to keep positions aligned with non-simplified replays of the same prefix
            self.stack.append(Entry(True, False, None, None, False))
            self.pos += 1
            return True
        if z3.is_false(cond):
            self.stack.append(Entry(False, False, None, None, False))
            self.pos += 1
            return False
        known = self._known(cond)
        if known is not None:
            self.stack.append(Entry(known, False, None, None, False))
            self.pos += 1
            return known
        self._tick()
        self.ensure_model()
        v = self._ev(cond)
        if v is None:
            v = True
            r = self._check(cond)
            if r == z3.unsat:
                v = False
            elif r == z3.sat:
                self.model = self.last.model()
        this_c, other_c = (cond, z3.Not(cond)) if v else (z3.Not(cond), cond)
        r = self._check(other_c)
        self.stats.decisions += 1
        if r == z3.unsat:
            e = Entry(v, False, None, None, False)
            self.facts[cond.get_id()] = (cond, len(self.stack), e)
            self.stack.append(e)
            self.pos += 1
            return v
        alt_model = self.last.model() if r == z3.sat else None
        self.solver.push()
        self.solver.add(this_c)
        e = Entry(v, True, other_c, alt_model, True)
        self.facts[cond.get_id()] = (cond, len(self.stack), e)
        self.stack.append(e)
        self.pos += 1
        return v

    def implied(self, cond):
        """Whether the path condition implies cond (recorded, so that re-executions agree; not a fork)."""
        if self.pos < len(self.stack):
            self.pos += 1
            return self.stack[self.pos - 1].value
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            v = z3.is_true(cond)
        else:
            v = self._known(cond)
            if v is None:
                self._tick()
                self.ensure_model()
                v = self._ev(cond) is True and self._check(z3.Not(cond)) == z3.unsat
        self.stack.append(Entry(v, False, None, None, False))
        self.pos += 1
        return v

    def _known(self, cond):
        """The value of a condition the current path has decided already (syntactically the same one, or its negation)."""
        neg = z3.is_not(cond)
        f = self.facts.get(cond.get_id())
        if f is not None and f[1] < len(self.stack) and self.stack[f[1]] is f[2]:
            return f[2].value
        if neg:
            f = self.facts.get(cond.arg(0).get_id())
            if f is not None and f[1] < len(self.stack) and self.stack[f[1]] is f[2]:
                return not f[2].value
        return None

    def assume(self, cond):
        if self.pos < len(self.stack):
            self.pos += 1
            return
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            raise Infeasible()
        e = Entry(True, False, None, None, True)
        self.solver.push()
        self.solver.add(cond)
        self.stack.append(e)
        self.pos += 1
        if z3.is_true(cond):
            return
        if self._ev(cond) is not True:
            self.model = None
            self.ensure_model()

    def check(self, cond, msg):
        """Assert that cond holds for every value on the current path."""
        self.stats.reached += 1
        if self.pos < len(self.stack):
            return
        self.stats.checks += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.checks_trivial += 1
            return
        self._tick()
        neg = z3.Not(cond)
        self.ensure_model()
        m = None
        if self._ev(cond) is False:
            m = self.model
            self.stats.checks_solver += 1
        else:
            r = self._check(neg)
            if r == z3.unsat:
                self.stats.checks_solver += 1
                return
            if r == z3.unknown:
                self.stats.checks_inconclusive += 1
                return
            self.stats.checks_solver += 1
            m = self.last.model()
        self.report(msg, m, neg)
        # not confirmed: carry on under the assumption that it holds
        self.assume(cond)

    def report(self, msg, model, neg=None):
        if self.on_cex is not None:
            self.on_cex(self, msg, model, neg)

    def run(self, fn, on_path=None):
        prev = Engine.cur
        Engine.cur = self
        try:
            while True:
                self.pos = 0
                self.counters = {}
                self.div_cache = {}
                self.inputs = {}
                self.labels = []
                self.path_events = 0
                status = 'ok'
                exc = None
                try:
                    fn()
                except Infeasible:
                    status = 'infeasible'
                except Truncated as t:
                    status = 'truncated'
                    exc = t
                except Unsupported as t:
                    status = 'unsupported'
                    exc = t
                except PathTime:
                    # the time of the case is over in the middle of a path: perhaps the code does not terminate
                    self.stats.timeout = True
                    if on_path is not None and self.model is not None:
                        try:
                            on_path(self, 'stuck', None)
                        except StopExploration:
                            pass
                    return
                except StopExploration:
                    return
                except RecursionError as t:
                    status = 'unsupported'
                    exc = t
                except Exception as t:
                    status = 'exception'
                    exc = t
                if status != 'infeasible':
                    self.stats.paths += 1
                if status == 'truncated':
                    self.stats.truncated += 1
                    k = 'truncated: %s' % (exc,)
                    self.stats.unsupported_reasons[k] = self.stats.unsupported_reasons.get(k, 0) + 1
                if status == 'unsupported':
                    self.stats.unsupported += 1
                    k = str(exc)[:200]
                    self.stats.unsupported_reasons[k] = self.stats.unsupported_reasons.get(k, 0) + 1
                try:
                    if on_path is not None and status != 'infeasible':
                        on_path(self, status, exc)
                except StopExploration:
                    return
                if self.stats.paths >= self.max_paths:
                    self.stats.timeout = True
                    return
                # backtrack
                while self.stack and not self.stack[-1].alt:
                    e = self.stack.pop()
                    if e.pushed:
                        self.solver.pop()
                if not self.stack:
                    return
                e = self.stack[-1]
                self.solver.pop()
                self.solver.push()
                self.solver.add(e.alt_c)
                e.value = not e.value
                e.alt = False
                self.model = e.alt_model
                e.alt_c = None
                e.alt_model = None
        finally:
            Engine.cur = prev

    def fresh_name(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)


def eng():
    e = Engine.cur
    if e is None:
        raise RuntimeError('no engine')
    return e


# ------------------------------------------------------------------------------------------------
# booleans

class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return eng().branch(self.c)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.c, bexpr(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.c, bexpr(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.c, bexpr(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def _i(self):
        return SymInt(z3.If(self.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.c == bexpr(o))
        if isinstance(o, (int, SymInt)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __lshift__(self, o):
        return self._i() << o

    def __repr__(self):
        return '<symbool>'

    def __format__(self, spec):
        return '<symbool>'


def bexpr(b):
    if isinstance(b, SymBool):
        return b.c
    return z3.BoolVal(bool(b))


def mkbool(c):
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def snot(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.c))
    return not b


def sand(*bs):
    cs = []
    for b in bs:
        if isinstance(b, SymBool):
            cs.append(b.c)
        elif not b:
            return False
    if not cs:
        return True
    return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])


def sor(*bs):
    cs = []
    for b in bs:
        if isinstance(b, SymBool):
            cs.append(b.c)
        elif b:
            return True
    if not cs:
        return False
    return mkbool(z3.Or(*cs) if len(cs) > 1 else cs[0])


def simplies(a, b):
    return sor(snot(a), b)


def sif(c, a, b):
    """Merge of two ints (or bools) under a condition, without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.c, bexpr(a), bexpr(b)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        alo, ahi = rng(a)
        blo, bhi = rng(b)
        lo, hi = min(alo, blo), max(ahi, bhi)
        w = width_for(lo, hi)
        return mkint(z3.If(c.c, ext(a, w), ext(b, w)), lo, hi)
    return a if bool(c) else b


# ------------------------------------------------------------------------------------------------
# integers: signed bit-vectors just wide enough for the tracked interval, so no operation wraps

MAXW = 640


def width_for(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


def rng(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    x = int(x)
    return x, x


def ext(x, w):
    """x as a signed bit-vector of width w (w must be wide enough)."""
    if isinstance(x, SymInt):
        s = x.e.size()
        if s == w:
            return x.e
        if s < w:
            if x.lo >= 0:
                return z3.ZeroExt(w - s, x.e)
            return z3.SignExt(w - s, x.e)
        return z3.Extract(w - 1, 0, x.e)
    return z3.BitVecVal(int(x), w)


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    if w > MAXW:
        raise Unsupported('integer too wide')
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def fold(x):
    """Constant-fold a value taken out of a composed one (a field of a packed reference, for example)."""
    if isinstance(x, SymInt):
        e = z3.simplify(x.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return SymInt(e, x.lo, x.hi)
    return x


def mkunsigned(e):
    """An unsigned bit-vector term as an int."""
    if z3.is_bv_value(e):
        return e.as_long()
    n = e.size()
    return SymInt(z3.ZeroExt(1, e), 0, (1 << n) - 1)


def is_num(x):
    return isinstance(x, (int, SymInt, SymBool))


def norm(x):
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, bool):
        return int(x)
    return x


class SymInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # arithmetic
    def __add__(self, o):
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        if isinstance(o, int) and o == 0:
            return self
        olo, ohi = rng(o)
        lo, hi = self.lo + olo, self.hi + ohi
        w = width_for(lo, hi)
        w = max(w, width_for(self.lo, self.hi), width_for(olo, ohi))
        return mkint(ext(self, w) + ext(o, w), lo, hi)

    __radd__ = __add__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        if isinstance(o, int) and o == 0:
            return self
        if isinstance(o, SymInt) and self.e.eq(o.e):
            return 0
        olo, ohi = rng(o)
        lo, hi = self.lo - ohi, self.hi - olo
        w = max(width_for(lo, hi), width_for(self.lo, self.hi), width_for(olo, ohi))
        return mkint(ext(self, w) - ext(o, w), lo, hi)

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        olo, ohi = rng(o)
        lo, hi = olo - self.hi, ohi - self.lo
        w = max(width_for(lo, hi), width_for(self.lo, self.hi), width_for(olo, ohi))
        return mkint(ext(o, w) - ext(self, w), lo, hi)

    def __mul__(self, o):
        if not is_num(o):
            if isinstance(o, (bytes, bytearray)):
                from . import values
                return values.SymBytes(*values.rep(o, self))
            return NotImplemented
        o = norm(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
        olo, ohi = rng(o)
        c = [self.lo * olo, self.lo * ohi, self.hi * olo, self.hi * ohi]
        lo, hi = min(c), max(c)
        w = max(width_for(lo, hi), width_for(self.lo, self.hi), width_for(olo, ohi))
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            return mkint(ext(self, w) << k, lo, hi)
        return mkint(ext(self, w) * ext(o, w), lo, hi)

    __rmul__ = __mul__

    def _divmod(self, o):
        a = self
        o = norm(o)
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                if o & (o - 1) == 0:
                    k = o.bit_length() - 1
                    return a >> k, a & (o - 1)
        else:
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        return floordivmod(a, o)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._divmod(o)[0]

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._divmod(o)[1]

    def __divmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._divmod(o)

    def __rfloordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return floordivmod(o, self)[0]

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return floordivmod(o, self)[1]

    def __rdivmod__(self, o):
        if self == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return floordivmod(o, self)

    def __truediv__(self, o):
        from . import values
        return values.truediv(self, o)

    def __rtruediv__(self, o):
        from . import values
        return values.truediv(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise Unsupported('negative power')
        r = 1
        for _ in range(o):
            r = r * self
        return r if m is None else r % m

    def __rpow__(self, o, m=None):
        if o == 2:
            return 1 << self
        return o ** self.__index__()

    def __abs__(self):
        if self.lo >= 0:
            return self
        return sif(self < 0, -self, self)

    def __invert__(self):
        return -1 - self

    # bit operations
    def _bit(self, o, op):
        if not is_num(o):
            return NotImplemented
        o = norm(o)
        olo, ohi = rng(o)
        if op == 'and':
            if self.lo >= 0 and olo >= 0:
                lo, hi = 0, min(self.hi, ohi)
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            elif olo >= 0:
                lo, hi = 0, ohi
            else:
                w = max(width_for(self.lo, self.hi), width_for(olo, ohi))
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            w = max(width_for(self.lo, self.hi), width_for(olo, ohi))
            if self.lo >= 0 and olo >= 0:
                lo, hi = 0, (1 << (w - 1)) - 1
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(o, int) and op == 'and' and o >= 0:
            if o == 0:
                return 0
            # only the low bits matter
            n = o.bit_length()
            w = max(n + 1, 2)
            if w < self.e.size():
                low = z3.Extract(n - 1, 0, self.e)
                if o == (1 << n) - 1:
                    return SymInt(z3.ZeroExt(1, low), 0, min(hi, o))
                return SymInt(z3.ZeroExt(1, low & z3.BitVecVal(o, n)), 0, hi)
        w = max(width_for(self.lo, self.hi), width_for(olo, ohi))
        a, b = ext(self, w), ext(o, w)
        e = a & b if op == 'and' else (a | b if op == 'or' else a ^ b)
        return mkint(e, lo, hi)

    def __and__(self, o):
        r = self._bit(o, 'and')
        return fold(r) if isinstance(o, int) else r

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._bit(o, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, 'xor')

    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            return symshift(self, o, True)
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << int(o))

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            return symshift(self, o, False)
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        s = self.e.size()
        if o >= s:
            return sif(self < 0, -1, 0)
        return fold(mkint(z3.Extract(s - 1, o, self.e), lo, hi))

    def __rlshift__(self, o):
        return symshift(o, self, True)

    def __rrshift__(self, o):
        return symshift(o, self, False)

    # comparison
    def _cmp(self, o, op):
        o = norm(o)
        olo, ohi = rng(o)
        if op == 'lt':
            if self.hi < olo:
                return True
            if self.lo >= ohi:
                return False
        elif op == 'le':
            if self.hi <= olo:
                return True
            if self.lo > ohi:
                return False
        elif op == 'eq':
            if self.hi < olo or self.lo > ohi:
                return False
            if isinstance(o, SymInt) and self.e.eq(o.e):
                return True
        w = max(width_for(self.lo, self.hi), width_for(olo, ohi))
        a, b = ext(self, w), ext(o, w)
        if op == 'eq':
            return mkbool(a == b)
        if self.lo >= 0 and olo >= 0:
            return mkbool(z3.ULT(a, b) if op == 'lt' else z3.ULE(a, b))
        return mkbool(a < b if op == 'lt' else a <= b)

    def __lt__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._cmp(o, 'lt')

    def __le__(self, o):
        if not is_num(o):
            return NotImplemented
        return self._cmp(o, 'le')

    def __gt__(self, o):
        if not is_num(o):
            return NotImplemented
        return snot(self._cmp(o, 'le'))

    def __ge__(self, o):
        if not is_num(o):
            return NotImplemented
        return snot(self._cmp(o, 'lt'))

    def __eq__(self, o):
        if not is_num(o):
            if isinstance(o, float) and o == int(o):
                return self._cmp(int(o), 'eq')
            return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(self.__index__())

    # boundaries
    def __index__(self):
        return concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        raise Unsupported('float(symbolic int)')

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        if eng().pin:
            v = pin(self)
            if isinstance(v, int):
                return format(v, spec)
        return '<sym>'

    def __str__(self):
        return format(self, '')

    __repr__ = __str__

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import values
        return values.int_to_bytes(self, length, byteorder, signed)

    def bit_length(self):
        a = abs(self)
        r = 0
        hi = rng(a)[1]
        for k in range(hi.bit_length()):
            r = sif(a >= (1 << k), k + 1, r)
        return r

    def bit_count(self):
        a = abs(self)
        r = 0
        for k in range(rng(a)[1].bit_length()):
            r = r + ((a >> k) & 1)
        return r

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


def floordivmod(a, b):
    """Python floor division; b is known to be non-zero on this path."""
    a, b = norm(a), norm(b)
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    alo, ahi = rng(a)
    blo, bhi = rng(b)
    if isinstance(b, int) and b == 1:
        return a, 0
    if isinstance(b, int) and b > 0 and ahi - alo > (1 << 24):
        # definitional: a = b * q + r with a fresh quotient (cheaper for the solver than a divider circuit)
        e = Engine.cur
        key = (a.e.get_id(), b)
        if key in e.div_cache:
            return e.div_cache[key][:2]
        qlo, qhi = alo // b, ahi // b
        q = mkint(z3.BitVec(e.fresh_name('quot'), width_for(qlo, qhi)), qlo, qhi)
        r = a - q * b
        if isinstance(q, SymInt):  # raw bounds: comparisons on SymInt are folded with its interval
            e.assume(z3.And(q.e >= qlo, q.e <= qhi))
        e.assume(bexpr(sand(r >= 0, r < b)))
        w = width_for(-b, b)
        r = SymInt(ext(r, w) if r.e.size() <= w else z3.Extract(w - 1, 0, r.e), 0, b - 1)
        e.div_cache[key] = (q, r, a)
        return q, r
    if alo >= 0 and blo >= 0:
        w = max(width_for(alo, ahi), width_for(blo, bhi))
        ea, eb = ext(a, w), ext(b, w)
        bl = max(blo, 1)
        q = mkint(z3.UDiv(ea, eb), alo // max(bhi, 1), ahi // bl)
        r = mkint(z3.URem(ea, eb), 0, min(ahi, max(bhi - 1, 0)))
        return q, r
    w = max(width_for(alo, ahi), width_for(blo, bhi)) + 1
    ea, eb = ext(a, w), ext(b, w)
    q = ea / eb  # signed, truncated
    r = z3.SRem(ea, eb)
    adj = z3.And(r != 0, (r < 0) != (eb < 0))
    q2 = z3.If(adj, q - 1, q)
    r2 = z3.If(adj, r + eb, r)
    m = max(abs(alo), abs(ahi))
    mb = max(abs(blo), abs(bhi))
    if blo >= 0:
        return mkint(q2, -m - 1 if alo < 0 else 0, m), mkint(r2, 0, max(bhi - 1, 0))
    return mkint(q2, -m - 1, m + 1), mkint(r2, -mb, mb)


def symshift(a, n, left):
    """Shift by a symbolic amount."""
    a, n = norm(a), norm(n)
    nlo, nhi = rng(n)
    if nlo < 0:
        if n < 0:
            raise ValueError('negative shift count')
        nlo = 0
    alo, ahi = rng(a)
    if nhi - nlo <= 16:
        r = None
        for k in range(nlo, nhi + 1):
            v = (a << k) if left else (a >> k)
            r = v if r is None else sif(n == k, v, r)
        return r
    if not left:
        w = max(width_for(alo, ahi), width_for(nlo, nhi))
        return mkint(ext(a, w) >> ext(n, w), min(alo, 0), max(ahi, 0))
    if max(abs(alo), abs(ahi)).bit_length() + nhi > 320:
        return a << concretize(n)
    lo = min(alo << nlo, alo << nhi)
    hi = max(ahi << nlo, ahi << nhi)
    w = max(width_for(lo, hi), width_for(nlo, nhi))
    return mkint(ext(a, w) << ext(n, w), lo, hi)


CONCRETIZE_CAP = 300


def concretize(x, cap=None):
    """Fork over the feasible values of x."""
    if isinstance(x, (int,)):
        return int(x)
    if isinstance(x, SymBool):
        return 1 if bool(x) else 0
    e = eng()
    n = 0
    if x.hi - x.lo <= 40:
        for v in range(x.lo, x.hi):
            if e.branch(bexpr(x == v)):
                return v
        return x.hi
    cap = cap or CONCRETIZE_CAP
    while True:
        v = _conc_value(e, x)
        if e.branch(bexpr(x == v)):
            return v
        n += 1
        if n > cap:
            if os.environ.get('SYMEX_TRACE'):
                import traceback
                traceback.print_stack(limit=9)
            raise Truncated('concretisation cap')


def pin(x):
    """The value of x when the path condition leaves only one; x itself otherwise (no fork)."""
    if not isinstance(x, SymInt):
        return x
    e = eng()
    v = _conc_value(e, x)
    return v if e.implied(bexpr(x == v)) else x


def _conc_value(e, x):
    # deterministic across re-executions: remember values by decision position
    memo = e.__dict__.setdefault('_conc', {})
    pos = e.pos
    if pos < len(e.stack) and pos in memo:
        return memo[pos]
    m = e.ensure_model()
    v = m.eval(x.e, model_completion=True).as_signed_long()
    memo[pos] = v
    return v
