"""Path-exploring symbolic execution engine (z3 back end).

The code under test runs natively on proxy values (symx.proxies).  Whenever a
proxy is asked for a concrete truth value the engine decides, with the solver,
which outcomes are feasible under the current path condition and explores each
of them by re-executing the harness (depth-first).  Obligations recorded by the
harness are discharged by one solver query at the end of each path:
  sat(path condition AND NOT obligation)  -> counterexample
  unsat                                   -> holds for every value on the path
"""
import time
import z3


class Control(BaseException):
    """Base of all engine control-flow exceptions (never caught by user code)."""


class PathEnd(Control):
    """The path cannot continue (assumption false, or abandoned)."""


class Unsupported(Control):
    """An operation on a symbolic value that the engine cannot represent."""


class Budget(Control):
    """Exploration budget exhausted."""


class NonDeterminism(Exception):
    pass


CUR = None      # the engine of this process


def cur():
    return CUR


class Entry(object):
    __slots__ = ("value", "flip", "cond", "alt_model", "level", "data")

    def __init__(self, value, flip, cond, alt_model, level, data=None):
        self.data = data
        self.value = value
        self.flip = flip
        self.cond = cond
        self.alt_model = alt_model
        self.level = level


class Counterexample(object):
    def __init__(self, msg, inputs, kind, obs=None):
        self.msg = msg
        self.inputs = inputs
        self.kind = kind        # 'obligation' | 'exception'
        self.obs = obs


class Engine(object):

    def __init__(self, timeout_ms=20000, max_paths=200000, max_seconds=600,
                 second_solver=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", 1)
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.trail = []
        self.pos = 0
        self.model = None
        self.paths = 0
        self.paths_ok = 0
        self.paths_pruned = 0
        self.queries = 0
        self.obl_total = 0
        self.obl_trivial = 0
        self.obl_unknown = 0
        self.branch_unknown = 0
        self.solver_time = 0.0
        self.concretised = {}
        self.unsupported = {}
        self.exhaustive = True
        self.t0 = time.time()
        self.inputs = {}
        self.ivars = []             # integer input terms of this path
        self.cvars = []             # characters of input names of this path
        self.on_pin = None
        self.on_near = None
        self.observed = []
        self.obligs = []
        self.aborting = False
        self.decided = {}
        self.reach = 0
        self.qlog = None            # optional list of SMT-LIB texts
        self.qlog_max = 0
        self.decision_points = 0

    # ------------------------------------------------------------ solver
    def _check(self, *extra):
        self.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def _log_query(self, extra, result):
        if self.qlog is not None and len(self.qlog) < self.qlog_max:
            s = z3.Solver()
            for a in self.solver.assertions():
                s.add(a)
            s.add(extra)
            self.qlog.append((s.to_smt2(), str(result)))

    def in_replay(self):
        return self.pos < len(self.trail)

    def add(self, cond):
        """Add an assumption to the path condition."""
        if z3.is_true(cond):
            return
        if self.in_replay():
            return
        self.solver.add(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathEnd("infeasible")
            else:
                self.branch_unknown += 1
        return self.model

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd("assumption false")
        if self.in_replay():
            return
        self.add(cond)
        self._ensure_model()

    def branch(self, cond, data=None):
        """Decide a symbolic condition on this path."""
        if data is None:
            hit = self.decided.get(cond.get_id())
            if hit is not None:
                return hit[0]
            v = self._branch(z3.simplify(cond))
            self.decided[cond.get_id()] = (v, cond)
            return v
        return self._branch(z3.simplify(cond), data)

    def _branch(self, cond, data=None):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond) and data is None:
            return not self.branch(cond.arg(0))
        if self.aborting:
            raise PathEnd("aborting")
        if self.in_replay():
            e = self.trail[self.pos]
            if not e.cond.eq(cond):
                raise NonDeterminism("replayed branch differs:\n%s\n%s" % (e.cond, cond))
            self.pos += 1
            if self.pos == len(self.trail):
                self.model = e.alt_model if e.level == "flipped" else self.model
            return e.value
        if time.time() - self.t0 > self.max_seconds:
            self.exhaustive = False
            raise Budget("time")
        m = self._ensure_model()
        first = None
        if m is not None:
            v = m.eval(cond, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            self.solver.push()
            self.solver.add(cond)
            r = self._check()
            mm = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            if r == z3.unsat:
                first = False
                self.trail.append(Entry(False, False, cond, None, None, data))
                self.pos += 1
                return False
            first = True
            m = mm
        other = z3.Not(cond) if first else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        alt = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            self.trail.append(Entry(first, False, cond, None, None, data))
            self.pos += 1
            self.model = m
            return first
        if r == z3.unknown:
            self.branch_unknown += 1
        self.decision_points += 1
        self.solver.push()
        self.solver.add(cond if first else z3.Not(cond))
        self.trail.append(Entry(first, True, cond, alt, None, data))
        self.pos += 1
        self.model = m
        return first

    def backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e.flip:
                self.solver.pop()
                e.flip = False
                e.value = not e.value
                e.level = "flipped"
                self.solver.push()
                self.solver.add(e.cond if e.value else z3.Not(e.cond))
                return True
            if e.level == "flipped":
                self.solver.pop()
            self.trail.pop()
        return False

    # ------------------------------------------------------------ values
    def value_of(self, expr):
        m = self._ensure_model()
        if m is None:
            raise Unsupported("no model")
        return m.eval(expr, model_completion=True)

    def enumerate_int(self, expr, limit=64):
        """Fork over the feasible values of an integer term (complete up to limit)."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        n = 0
        while True:
            if self.in_replay():
                v = self.trail[self.pos].data
                if v is None:
                    raise NonDeterminism("enumerate_int")
            else:
                v = self.value_of(expr).as_long()
            if self.branch(expr == v, v):
                return v
            n += 1
            if n >= limit:
                self.exhaustive = False
                self.note_concretised("enumeration-limit")
                raise PathEnd("enumeration limit")

    def pin(self, expr, why):
        """Fallback: fix a term to one feasible value (loses completeness; recorded).
        Returns the z3 value."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr) or z3.is_rational_value(expr):
            return expr
        self.note_concretised(why)
        self.exhaustive = False
        if self.in_replay():
            e = self.trail[self.pos]
            if e.data is None:
                raise NonDeterminism("pin")
            self.pos += 1
            return e.data
        if self.on_pin is not None:
            self.on_pin(self)
        v = self.value_of(expr)
        cond = expr == v
        self.solver.add(cond)
        self.trail.append(Entry(True, False, cond, None, None, v))
        self.pos += 1
        return v

    def note_concretised(self, why):
        self.concretised[why] = self.concretised.get(why, 0) + 1

    # ------------------------------------------------------------ obligations
    def oblige(self, cond, msg):
        self.obligs.append((cond, msg))

    def discharge(self, trivial_ok=True):
        """Decide all obligations of this path. Returns a Counterexample or None."""
        todo = []
        self.obl_total += len(self.obligs)
        for cond, msg in self.obligs:
            c = z3.simplify(cond)
            if z3.is_true(c):
                self.obl_trivial += 1
            else:
                todo.append((c, msg))
        if not todo:
            return None
        neg = z3.Not(z3.And([c for c, _ in todo])) if len(todo) > 1 else z3.Not(todo[0][0])
        self.solver.push()
        self.solver.add(neg)
        r = self._check()
        cex = None
        if r == z3.sat:
            m = self.solver.model()
            failed = [msg for c, msg in todo
                      if z3.is_false(m.eval(c, model_completion=True))]
            cex = Counterexample("; ".join(_plain(f) for f in failed[:4]) or _plain(todo[0][1]),
                                 self.model_inputs(m), "obligation")
        self.solver.pop()
        self._log_query(neg, r)
        if r == z3.unknown:
            # try one by one
            for c, msg in todo:
                self.solver.push()
                self.solver.add(z3.Not(c))
                r1 = self._check()
                if r1 == z3.sat:
                    cex = Counterexample(_plain(msg), self.model_inputs(self.solver.model()), "obligation")
                elif r1 == z3.unknown:
                    self.obl_unknown += 1
                self.solver.pop()
                if cex:
                    break
        return cex

    def register_input(self, tag, decode):
        self.inputs[tag] = decode

    def model_inputs(self, model):
        return {tag: dec(model) for tag, dec in self.inputs.items()}

    def current_inputs(self):
        m = self._ensure_model()
        if m is None:
            return None
        return self.model_inputs(m)

    def near(self, a, b):
        """A quotient of integers is modelled exactly: operands whose quotient is rounded to one are tried on the
        real code."""
        if self.on_near is None or self.in_replay():
            return
        for c in ([b == 10 ** 17 + 3, a == b - 1], [b == 10 ** 17 + 3, a == b + 1]):
            self.solver.push()
            self.solver.add(*c)
            inp = self.model_inputs(self.solver.model()) if self._check() == z3.sat else None
            self.solver.pop()
            if inp is not None:
                self.on_near(inp)

    def diverse_inputs(self, n=3):
        """Solver models of the current path condition that are far apart: used where a path
        leaves the encodable fragment, to have its prefix tried on the real code."""
        out = []
        m = self._ensure_model()
        if m is None:
            return out
        out.append(self.model_inputs(m))
        styles = [([10 ** 9 + 7, 12345671, 1000003, 4099, 101, 11, 3], False),
                  ([101, 4099, 11, 3], True),
                  ([2 ** 40 + 1, 1000003, 257, 13, 2], False)]
        # characters that text functions treat in special ways
        special = [[0x212a], [0x301], [0x130, 0xdf], [0xfb01, 0x661], [0xa0], [0x2028, 0x85], [0x20], [0x5b, 0x2a]]
        if not self.cvars:
            special = []
        for sp in special:
            self.solver.push()
            m = None
            for i, v in enumerate(self.cvars):
                for x in [sp[i % len(sp)]] + sp:
                    self.solver.push()
                    self.solver.add(v == x)
                    r = self._check()
                    if r == z3.sat:
                        m = self.solver.model()
                    self.solver.pop()
                    if r == z3.sat:
                        self.solver.add(v == x)
                        break
            if m is not None:
                out.append(self.model_inputs(m))
            self.solver.pop()
        for vals, distinct in styles[:n]:
            self.solver.push()
            m = None
            for i, v in enumerate(self.ivars):
                for b in vals:
                    c = v == b + i if distinct else v >= b + 3 * i
                    self.solver.push()
                    self.solver.add(c)
                    r = self._check()
                    if r == z3.sat:
                        m = self.solver.model()
                        self.solver.pop()
                        self.solver.add(c)
                        break
                    self.solver.pop()
            for i, v in enumerate(self.cvars):
                # names in decreasing order of creation
                c = v == 122 - (i * 7) % 57
                self.solver.push()
                self.solver.add(c)
                if self._check() == z3.sat:
                    m = self.solver.model()
                    self.solver.pop()
                    self.solver.add(c)
                else:
                    self.solver.pop()
            if m is not None:
                out.append(self.model_inputs(m))
            self.solver.pop()
        return out

    # ------------------------------------------------------------ main loop
    def explore(self, fn, on_path=None, want_cex=1, on_unsupported=None):
        """Run fn() on every feasible path. Returns list of Counterexamples."""
        global CUR
        CUR = self
        cexs = []
        self.t0 = time.time()
        self.solver.push()
        while True:
            self.pos = 0
            self.decided = {}
            self.inputs = {}
            self.ivars = []
            self.cvars = []
            self.obligs = []
            self.observed = []
            self.aborting = False
            self.paths += 1
            if self.paths == 1:
                self.model = None
            cex = None
            stop = False
            try:
                fn()
                if self.in_replay():
                    raise NonDeterminism("path ended inside replayed prefix")
                self.paths_ok += 1
                if self.obligs:
                    self.reach += 1
                cex = self.discharge()
                if on_path is not None and cex is None:
                    on_path(self)
            except PathEnd:
                self.paths_pruned += 1
            except Unsupported as e:
                k = str(e)[:120]
                self.unsupported[k] = self.unsupported.get(k, 0) + 1
                self.exhaustive = False
                if on_unsupported is not None and on_unsupported(self) == "stop":
                    stop = True
            except Budget:
                stop = True
            except NonDeterminism:
                raise
            except Exception as e:
                import traceback
                self.aborting = False
                try:
                    inp = self.current_inputs()
                except PathEnd:
                    inp = None
                if inp is not None:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ""
                    for f in reversed(tb):
                        if "/ucis/" in f.filename:
                            where = " at %s:%d" % (f.filename, f.lineno)
                            break
                    cex = Counterexample("exception %s: %s%s" % (
                        type(e).__name__, _safe_str(e), where), inp, "exception")
                    cex.trace = traceback.format_exc()
            if cex is not None:
                r = "keep"
                if callable(want_cex):
                    r = want_cex(cex)
                if r == "stop":
                    cexs.append(cex)
                    break
                elif r == "keep":
                    cexs.append(cex)
                    if not callable(want_cex) and len(cexs) >= want_cex:
                        break
                elif r == "artifact":
                    self.unsupported["artifact: " + cex.msg[:100]] = \
                        self.unsupported.get("artifact: " + cex.msg[:100], 0) + 1
                    self.exhaustive = False
                    # the real code does not fail here: the path is not encodable
                    if cex.kind == "exception" and on_unsupported is not None and on_unsupported(self) == "stop":
                        stop = True
            if stop:
                break
            if self.paths >= self.max_paths:
                if self.trail and any(e.flip for e in self.trail):
                    self.exhaustive = False
                break
            if not self.backtrack():
                break
            self.model = None
        self.elapsed = time.time() - self.t0
        return cexs


def _plain(msg):
    """Text of a message that may contain symbolic pieces (shown as ?)."""
    if type(msg) is str:
        return msg
    segs = getattr(msg, "segs", None)
    if segs is None:
        return "<message>"
    return "".join(s if type(s) is str else "?" for s in segs)


def _safe_str(e):
    try:
        return _plain(str(e))[:200]
    except BaseException:
        return "<unprintable>"
