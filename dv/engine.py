"""Obligation generation and discharge.

A *unit* is one contract: a body that creates its inputs (the quantified variables of
the contract), assumes the precondition, calls the real functions of /repo, and checks
the postcondition.  The same body is run

  symbolically  on the instrumented code: every feasible path through the real code gives
                obligations  path condition => postcondition, discharged by z3 (then a
                fresh z3, then cvc5);
  concretely    on the untouched code: to replay a counter-model, to search near it, and
                (bounded, labelled so) to sample the contract.
"""
import builtins
import importlib
import itertools
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from collections import deque
from fractions import Fraction
from weakref import WeakValueDictionary

import z3

from . import sym, rt, instrument
from .sym import (_divide, SymInt, SymBool, SymFloat, SymStr, Unsupported, PathEnd, Refuted, is_sym, zint, zbool, wrap_int,
                  wrap_bool)

REPO = os.environ.get("DV_REPO", "/repo")
TIMEOUT_MS = int(os.environ.get("DV_TIMEOUT_MS", "8000"))


class Skip(BaseException):
    """concrete run: the input does not satisfy the precondition"""


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "Raised(%s: %s)" % (type(self.exc).__name__, self.exc)


class Unit:
    def __init__(self, name, body, funcs=(), stubs=(), loops=None, max_paths=20000, max_seconds=600, kind="proof",
                 statement="", sampler=None, samples=0, exact=True, prove=True, slices=None, now=False, search=None,
                 neighbours=True, weight=1, opaque=False, heavy=False,
                 sweep=None, over=""):
        self.sweep = sweep          # tier -> list of input dicts, all of which are evaluated on the untouched code
        self.over = over            # what the sweep covers
        self.heavy = heavy          # costly: not re-proved where it is only a callee contract
        self.dep = False            # a callee contract of another property
        self.home = ""
        self.opaque = opaque
        self.name = name
        self.body = body
        self.funcs = list(funcs)
        self.stubs = list(stubs)
        self.loops = loops
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.kind = kind
        self.statement = statement
        self.samples = samples
        self.exact = exact          # no abstraction: a counter-model must replay
        self.prove = prove          # False: bounded only
        self.now = now
        self.search = search        # generator of concrete input dicts for the directed search
        self.weight = weight


class LoopSpec:
    """Invariant candidates for the loops met by a unit.

    candidates(env) -> list of (name, fn(env) -> cond); env maps local names to values at
    loop entry; fn is evaluated on later environments.  variants(env) likewise gives
    integer terms that must decrease and stay non-negative; one of them has to.

    lists: lists from before the loop that it adds to hold, at an arbitrary iteration, what earlier ones added
    (GhostList, whose own elements are those added by this iteration); on_iter(path, key, before, after, lists) is the
    contract of one iteration."""

    def __init__(self, candidates, variants=None, havoc_obj=None, keep=None, lists=False, on_iter=None):
        self.lists = lists
        self.on_iter = on_iter
        self.keep = keep            # which objects the candidates may speak of
        self.candidates = candidates
        self.variants = variants
        self.havoc_obj = havoc_obj


class GhostList(list):
    """a list with an unknown beginning"""


class Obligation:
    __slots__ = ("label", "status", "seconds", "backend", "model", "trivial", "detail")

    def __init__(self, label, status, seconds=0.0, backend="", model=None, trivial=False, detail=""):
        self.label, self.status, self.seconds, self.backend = label, status, seconds, backend
        self.model, self.trivial, self.detail = model, trivial, detail


# --------------------------------------------------------------------------
# interval bounds of terms

def _iv(e, env, memo):
    """(lo, hi) rational bounds of an arithmetic term; None = unbounded"""
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    r = _iv0(e, env, memo)
    memo[k] = (r, e)                # the term is kept alive: its id stays its own
    return r


def _add(a, b):
    return None if a is None or b is None else a + b


def _mulc(iv, c):
    lo, hi = iv
    if c == 0:
        return Fraction(0), Fraction(0)
    if c < 0:
        lo, hi = hi, lo
    return (None if lo is None else lo * c), (None if hi is None else hi * c)


def _iv0(e, env, memo):
    if z3.is_int_value(e):
        v = Fraction(e.as_long())
        return v, v
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return v, v
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_UNINTERPRETED and not ch:
        return env.get(e.decl().name(), (None, None))
    if d == z3.Z3_OP_ADD:
        lo = hi = Fraction(0)
        for c in ch:
            a, b = _iv(c, env, memo)
            lo, hi = _add(lo, a), _add(hi, b)
        return lo, hi
    if d == z3.Z3_OP_SUB:
        lo, hi = _iv(ch[0], env, memo)
        for c in ch[1:]:
            a, b = _iv(c, env, memo)
            lo, hi = (None if lo is None or b is None else lo - b), (None if hi is None or a is None else hi - a)
        return lo, hi
    if d == z3.Z3_OP_UMINUS:
        return _mulc(_iv(ch[0], env, memo), Fraction(-1))
    if d == z3.Z3_OP_MUL:
        r = (Fraction(1), Fraction(1))
        for c in ch:
            a = _iv(c, env, memo)
            if None in a or None in r:
                if r[0] is not None and r[0] == r[1]:
                    r = _mulc(a, r[0])
                    continue
                if a[0] is not None and a[0] == a[1]:
                    r = _mulc(r, a[0])
                    continue
                return None, None
            ps = [x * y for x in a for y in r]
            r = (builtins.min(ps), builtins.max(ps))
        return r
    if d in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV):
        a, b = _iv(ch[0], env, memo), _iv(ch[1], env, memo)
        if b[0] is not None and b[0] == b[1] and b[0] > 0:
            if d == z3.Z3_OP_DIV:
                return _mulc(a, 1 / b[0])
            return (None if a[0] is None else Fraction(a[0] // b[0])), (None if a[1] is None else Fraction(a[1] // b[0]))
        return None, None
    if d in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
        b = _iv(ch[1], env, memo)
        if b[0] is not None and b[0] == b[1] and b[0] > 0:
            return Fraction(0), b[0] - 1
        return None, None
    if d == z3.Z3_OP_ITE:
        a, b = _iv(ch[1], env, memo), _iv(ch[2], env, memo)
        return (None if a[0] is None or b[0] is None else builtins.min(a[0], b[0])), \
               (None if a[1] is None or b[1] is None else builtins.max(a[1], b[1]))
    if d == z3.Z3_OP_TO_REAL:
        return _iv(ch[0], env, memo)
    if d == z3.Z3_OP_TO_INT:
        a, b = _iv(ch[0], env, memo)
        return (None if a is None else Fraction(a.__floor__())), (None if b is None else Fraction(b.__floor__()))
    return None, None


# --------------------------------------------------------------------------

_CACHE = {}
_VARS = {}
_CTX = z3.main_ctx().ref()


def vars_of(e):
    """names of the variables and uninterpreted functions of a term"""
    a = e.as_ast()
    k = z3.Z3_get_ast_id(_CTX, a)
    r = _VARS.get(k)
    if r is None:
        if len(_VARS) > 400000:
            _VARS.clear()
        r = (_vars(a), e)
        _VARS[k] = r
    return r[0]


_EMPTY = frozenset()


def _vars(a):
    # subterms stay alive as long as the term does
    if z3.Z3_get_ast_kind(_CTX, a) != z3.Z3_APP_AST:
        return _EMPTY
    acc = None
    d = z3.Z3_get_app_decl(_CTX, a)
    if z3.Z3_get_decl_kind(_CTX, d) == z3.Z3_OP_UNINTERPRETED:
        sy = z3.Z3_get_decl_name(_CTX, d)
        acc = frozenset((z3.Z3_get_symbol_string(_CTX, sy),))
    for i in builtins.range(z3.Z3_get_app_num_args(_CTX, a)):
        c = z3.Z3_get_app_arg(_CTX, a, i)
        k = z3.Z3_get_ast_id(_CTX, c)
        r = _VARS.get(k)
        if r is None:
            v = _vars(c)
            if z3.Z3_get_app_num_args(_CTX, c) > 0 or v:
                _VARS[k] = (v, z3.ExprRef(c, z3.main_ctx()))
        else:
            v = r[0]
        if v:
            acc = v if acc is None or acc <= v else acc if v <= acc else acc | v
    return acc or _EMPTY


def multi_eval(ms, e):
    for m in ms[:-1]:
        e = m.eval(e)
    if ms:
        return ms[-1].eval(e, model_completion=True)
    return z3.simplify(e)


class Multi:
    """models of components without common variables, read as one model"""

    def __init__(self, ms):
        self.ms = ms

    def eval(self, e, model_completion=True):
        if not self.ms:
            s = z3.Solver()
            s.check()
            return s.model().eval(e, model_completion=True)
        return multi_eval(self.ms, e)


class Comp:
    def __init__(self):
        self.es = []
        self.ids = []
        self.vars = set()
        self.models = []
        self._s = None
        self._n = 0

    def merge(self, o):
        self.es.extend(o.es)
        self.ids.extend(o.ids)
        self.vars |= o.vars
        if self.models is not None and o.models is not None:
            self.models = self.models + o.models
        else:
            self.models = None

    def solver(self):
        if self._s is None:
            self._s = z3.Solver()
        if self._n < len(self.es):
            self._s.add(*self.es[self._n:])
            self._n = len(self.es)
        return self._s


class Path:
    def __init__(self, unit, prefix, state):
        self.unit = unit
        self.prefix = list(prefix)
        self.state = state            # shared per-unit state (Houdini)
        self.trace = []               # decisions taken
        self.forks = []               # prefixes still to explore
        self.comps = []
        self.comp_of = {}
        self.pc = []
        self.nfresh = 0
        self.rests = {}
        self.round_memo = {}
        self.keep = []
        self.float_roundings = 0
        self.havocs = 0
        self.abstract = 0
        self.ranges = {}
        self.ivmemo = {}
        self.obligations = []
        self.solver_s = 0.0
        self.queries = 0
        self.loops = unit.loops
        self.opaque = unit.opaque
        self.frames = {}
        self.ticks = {}
        self.now = None
        self.inputs = []              # (name, z3 term)
        self.extra = {}               # per-path ghost data for stubs
        self.observed = []

    # solver ---------------------------------------------------------------
    # The path condition is kept as independent components (sets of conjuncts which share no
    # variable or uninterpreted function): a query is decided in the components it touches.
    # unsat there is unsat; sat there is sat once the other components are satisfiable, which
    # a refutation checks.
    def vars_of(self, e):
        return vars_of(e)

    def comps_for(self, *es):
        out = []
        for e in es:
            for v in self.vars_of(e):
                c = self.comp_of.get(v)
                if c is not None and c not in out:
                    out.append(c)
        return out

    def _check(self, *extra, timeout=None):
        t = time.time()
        cs = self.comps_for(*extra) if extra else self.comps
        cs = sorted(cs, key=lambda c: -len(c.es))
        self.last_comps = cs
        key = (frozenset(i for c in cs for i in c.ids), tuple(e.get_id() for e in extra))
        hit = _CACHE.get(key)
        if hit is not None:
            self.last = hit[1]
            self.backend = "z3 (cached)"
            return hit[0]
        ms = timeout or TIMEOUT_MS
        if cs:
            s = cs[0].solver()
        else:
            s = z3.Solver()
        s.set("timeout", ms)
        if len(cs) > 1:
            s.push()
            for c in cs[1:]:
                s.add(*c.es)
        s.set("timeout", builtins.min(ms, 400))
        r = s.check(*extra)
        self.backend = "z3"
        self.last = s.model() if r == z3.sat else None
        if len(cs) > 1:
            s.pop()
        if r == z3.unknown and ms > 400:
            r = self._portfolio([e for c in cs for e in c.es] + list(extra), ms)
        if r != z3.unknown:
            if len(_CACHE) > 5000:
                _CACHE.clear()
            # the terms are kept, so that their ids stay theirs
            _CACHE[key] = (r, self.last, [e for c in cs for e in c.es], extra)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        vs = self.vars_of(e)
        if not vs:
            e2 = z3.simplify(e)
            if z3.is_true(e2):
                return
            raise PathEnd("infeasible")
        cs = self.comps_for(e)
        if not cs:
            c = Comp()
            self.comps.append(c)
        else:
            cs.sort(key=lambda c: -len(c.es))
            c = cs[0]
            for o in cs[1:]:
                c.merge(o)
                self.comps.remove(o)
                for v in o.vars:
                    self.comp_of[v] = c
        c.es.append(e)
        c.ids.append(e.get_id())
        for v in vs:
            if v not in c.vars:
                c.vars.add(v)
                self.comp_of[v] = c
        if c.models is not None and not z3.is_true(multi_eval(c.models, e)):
            c.models = None

    def _portfolio(self, es, ms):
        """fresh solvers: cvc5, then z3 with two arithmetic engines; sets self.last"""
        s = z3.Solver()
        s.add(*es)
        r = cvc5_check(s.to_smt2(), builtins.min(ms, 6000))
        if r == "unsat":
            self.backend = "cvc5"
            return z3.unsat
        for mode, lim in ((2, 2500), (6, ms)):
            s = z3.Solver()
            s.set("smt.arith.solver", mode)
            s.set("timeout", builtins.min(ms, lim))
            s.add(*es)
            r = s.check()
            self.backend = "z3/arith%d" % mode
            if r == z3.sat:
                self.last = s.model()
            if r != z3.unknown:
                return r
        return z3.unknown

    def _solve(self, c):
        if c.models is not None:
            return
        r = self._check_comp(c)
        if r == z3.sat:
            c.models = [self.last]
            return
        if r == z3.unsat:
            raise PathEnd("infeasible")
        r = self._fresh(None, comps=[c])
        if r[0] == z3.unsat:
            raise PathEnd("infeasible")
        if r[0] == z3.sat and r[1] is not None:
            c.models = [r[1]]

    def _check_comp(self, c):
        t = time.time()
        key = (frozenset(c.ids), ())
        hit = _CACHE.get(key)
        if hit is not None:
            self.last = hit[1]
            return hit[0]
        s = c.solver()
        s.set("timeout", 400)
        r = s.check()
        self.last = s.model() if r == z3.sat else None
        if r == z3.unknown:
            r = self._portfolio(c.es, TIMEOUT_MS)
        if r != z3.unknown:
            _CACHE[key] = (r, self.last, list(c.es), ())
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def ensure_model(self, e=None):
        for c in (list(self.comps) if e is None else self.comps_for(e)):
            self._solve(c)

    @property
    def model(self):
        """a model of the whole path condition, or None"""
        ms = []
        for c in self.comps:
            if c.models is None:
                return None
            ms.extend(c.models)
        return Multi(ms)

    def full_model(self, first, comps):
        """the model `first` of some components, completed by models of the others"""
        ms = [first]
        for c in list(self.comps):
            if c not in comps:
                self._solve(c)
                if c.models is None:
                    return None
                ms.extend(c.models)
        return Multi(ms)

    def ev(self, e):
        """truth value of e in the current model, or None"""
        ms = []
        for c in self.comps_for(e):
            if c.models is None:
                return None
            ms.extend(c.models)
        v = multi_eval(ms, e)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def feasible(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.ev(e):
            return True
        return self._check(e) != z3.unsat

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.trace.append(b)
            self.add(e if b else z3.Not(e))
            return bool(b)
        self.ensure_model(e)
        v = self.ev(e)
        if v is None:
            rt_ = self._check(e)
            rf = self._check(z3.Not(e))
            if rt_ == z3.unsat and rf == z3.unsat:
                raise PathEnd("infeasible")
            if rt_ == z3.unsat:
                v = False
            else:
                v = True
                if rf != z3.unsat:
                    self.forks.append(self.trace + [0])
            self.trace.append(1 if v else 0)
            self.add(e if v else z3.Not(e))
            return v
        other = z3.Not(e) if v else e
        r = self._check(other)
        if r != z3.unsat:
            self.forks.append(self.trace + [0 if v else 1])
        self.trace.append(1 if v else 0)
        if r != z3.unsat:
            self.add(e if v else z3.Not(e))     # the model still satisfies it
        return v

    def concretize(self, e, limit=2000):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add(e == v)
            return v
        self.ensure_model(e)
        vals = []
        lo, hi = _iv(e, self.ranges, self.ivmemo)
        if lo is not None and hi is not None and hi - lo <= 70:
            for v in builtins.range(int(lo), int(hi) + 1):
                if self._check(e == v) != z3.unsat:
                    vals.append(v)
        else:
            ex = z3.BoolVal(True)
            while True:
                r = self._check(z3.And(ex, e == e))
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported("case split on an integer term: solver gave up")
                v = self.last.eval(e, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise Unsupported("case split on an integer term with more than %d values" % limit)
                ex = z3.And(ex, e != v)
        if not vals:
            raise PathEnd("infeasible")
        vals.sort()
        for v in vals[1:]:
            self.forks.append(self.trace + [v])
        v = vals[0]
        self.trace.append(v)
        self.add(e == v)
        return v

    def assume(self, c):
        if isinstance(c, (SymBool, SymInt)):
            c = zbool(c)
        elif not isinstance(c, z3.BoolRef):
            if not c:
                raise PathEnd("assumption false")
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.add(c)

    def assume_raw(self, e):
        self.add(e)

    def fresh_int(self, hint, lo=None, hi=None):
        self.nfresh += 1
        v = z3.Int("%s!%d" % (hint, self.nfresh))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        self.ranges[v.decl().name()] = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        return v

    def fresh_real(self, hint):
        self.nfresh += 1
        return z3.Real("%s!%d" % (hint, self.nfresh))

    def fresh_bool(self, hint):
        self.nfresh += 1
        return z3.Bool("%s!%d" % (hint, self.nfresh))

    def interval(self, x):
        if not is_sym(x):
            return x, x
        return _iv(x.e, self.ranges, self.ivmemo)

    def interval_z(self, e):
        return _iv(e, self.ranges, self.ivmemo)

    def name_int(self, e, hint):
        """a variable equal to the term (keeps later terms small)"""
        if z3.is_int_value(e) or e.num_args() == 0:
            return e
        lo, hi = _iv(e, self.ranges, self.ivmemo)
        self.nfresh += 1
        v = z3.Int("%s!%d" % (hint, self.nfresh))
        self.ranges[v.decl().name()] = (lo, hi)
        self.add(v == e)
        return v

    def register_rest(self, k, den, n, top, val=None):
        """k - den*n, the numerator of the fraction left by floor, is in [0, top]"""
        t, d = SymFloat(k - den * n, den, Fraction(0), z3.BoolVal(True), Fraction(0))._norm().parts()
        if z3.is_int_value(t) or t.num_args() == 0:
            return
        if val is not None:
            self.rests[t.get_id()] = (t, z3.simplify(_divide(val, den // d)), True)
            return
        self.nfresh += 1
        v = z3.Int("rest!%d" % self.nfresh)
        self.ranges[v.decl().name()] = (Fraction(0), Fraction(top * d // den))
        self.rests[t.get_id()] = (t, v)

    def rest(self, t):
        f = self.rests.get(t.get_id())
        if f is None:
            return t
        v = f[1]
        if len(f) == 2:
            self.rests[t.get_id()] = f + (True,)
            self.add(v == t)
        return v

    def bound(self, e):
        lo, hi = _iv(e, self.ranges, self.ivmemo)
        if lo is not None and hi is not None:
            return builtins.max(abs(lo), abs(hi))
        e = z3.simplify(e)
        lo, hi = _iv(e, self.ranges, self.ivmemo)
        if lo is not None and hi is not None:
            return builtins.max(abs(lo), abs(hi))
        for k in (10, 16, 24, 32, 40, 52):
            b = 2 ** k
            if self._check(z3.Or(e > b, e < -b)) == z3.unsat:
                return Fraction(b)
        return None

    def tick(self, key):
        n = self.ticks.get(key, 0) + 1
        self.ticks[key] = n
        if n > 5000:
            raise Unsupported("loop %s: no invariant, too many iterations" % key)

    # obligations ------------------------------------------------------------
    def _fresh(self, extra, ms=None, comps=None):
        """decide pc /\\ extra with other back ends: (result, model, backend)"""
        if comps is None:
            comps = self.comps_for(extra) if extra is not None else self.comps
        es = [e for c in comps for e in c.es] + ([extra] if extra is not None else [])
        for tac in ("smt", "qflia"):
            try:
                if tac == "smt":
                    s = z3.SolverFor("ALL") if False else z3.Solver()
                    s.set("smt.arith.solver", 2)
                else:
                    s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver()
                s.set("timeout", ms or TIMEOUT_MS)
                s.add(*es)
                t = time.time()
                r = s.check()
                self.solver_s += time.time() - t
                self.queries += 1
                if r == z3.sat:
                    return r, s.model(), "z3/" + tac
                if r == z3.unsat:
                    return r, None, "z3/" + tac
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.add(*es)
        r = cvc5_check(s.to_smt2(), (ms or TIMEOUT_MS) * 2)
        if r == "unsat":
            return z3.unsat, None, "cvc5"
        if r == "sat":
            return z3.sat, None, "cvc5"
        return z3.unknown, None, ""

    def prove(self, c, timeout=None):
        """(status, model, backend, seconds) for pc => c"""
        t0 = time.time()
        if isinstance(c, (SymBool, SymInt)):
            c = zbool(c)
        elif not isinstance(c, z3.BoolRef):
            c = z3.BoolVal(bool(c))
        c = z3.simplify(c)
        if z3.is_true(c):
            return "proved", None, "evaluation", 0.0
        n = z3.Not(c)
        if z3.is_false(c):
            try:
                self.ensure_model()
            except PathEnd:
                return "proved", None, "infeasible", 0.0
            if self.model is not None:
                return "refuted", self.model, "z3", time.time() - t0
            return "unknown", None, "", time.time() - t0
        try:
            if self.ev(n):
                self.ensure_model()
                if self.model is not None:
                    return "refuted", self.model, "z3", time.time() - t0
            r = self._check(n, timeout=timeout)
            if r == z3.unsat:
                return "proved", None, self.backend, time.time() - t0
            if r == z3.sat:
                m = self.full_model(self.last, self.last_comps)
                return "refuted" if m is not None else "unknown", m, "z3", time.time() - t0
            if timeout:
                return "unknown", None, "", time.time() - t0
            cs = self.comps_for(n)
            r, m, be = self._fresh(n)
            if r == z3.sat:
                m = self.full_model(m, cs) if m is not None else None
        except PathEnd:
            return "proved", None, "infeasible", 0.0
        st = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
        return st, m, be, time.time() - t0

    def check(self, label, c):
        if len(self.trace) < len(self.prefix):
            # the same check was made by the path this one was forked from
            return
        st, m, be, s = self.prove(c)
        ob = Obligation(label, st, s, be, trivial=(be == "evaluation"))
        if st == "refuted":
            ob.model = self.inputs_of(m)
        self.obligations.append(ob)

    def inputs_of(self, m):
        if m is None:
            return None
        out = {}
        vals = {}
        for mm in (m.ms if isinstance(m, Multi) else [m]):
            for d in mm.decls():
                if d.arity() == 0:
                    vals.setdefault(d.name(), mm[d])
        for n, t in self.inputs:
            v = vals.get(t.decl().name())
            if v is None:
                v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_true(v):
                out[n] = True
            elif z3.is_false(v):
                out[n] = False
            else:
                out[n] = str(v)
        return out

    # loops --------------------------------------------------------------------
    def _env(self, loc):
        keep = self.loops.keep
        return {k: v for k, v in loc.items() if isinstance(v, (int, SymInt, SymBool)) or k in ("self",)
                or keep is not None and keep(v)}

    def loop_havoc(self, key, stored, loc):
        st = self.state
        env = self._env(loc)
        spec = self.loops
        cands = list(spec.candidates(env))
        dropped = st["dropped"].setdefault(key, set())
        live = []
        for n, f in cands:
            if n in dropped:
                continue
            if len(self.trace) >= len(self.prefix):
                try:
                    s, _, be, sec = self.prove(f(env), timeout=2000)
                except (KeyError, TypeError):
                    s = "n/a"
                if s != "proved":
                    if os.environ.get("DV_DEBUG") and os.environ["DV_DEBUG"] in n:
                        print("drop-entry", key, n, s, file=sys.stderr)
                    dropped.add(n)
                    st["changed"] = True
                    continue
                self.obligations.append(Obligation("inv-entry %s %s" % (key, n), "proved", sec, be))
            live.append((n, f))
        new = {}
        for s in stored:
            if s not in loc:
                continue
            v = loc[s]
            if isinstance(v, (bool, SymBool)):
                new[s] = SymBool(self.fresh_bool(s))
            elif isinstance(v, (int, SymInt)):
                new[s] = SymInt(self.fresh_int(s))
            elif spec.lists and type(v) is list:
                new[s] = GhostList()
            elif spec.havoc_obj is not None:
                new[s] = spec.havoc_obj(self, s, v)
            else:
                raise Unsupported("loop %s changes %s, which is not an integer" % (key, s))
        env2 = dict(loc)
        env2.update(new)
        env2 = self._env(env2)
        self.havocs += 1
        for n, f in live:
            self.assume(f(env2))
        fr = {"cands": live, "first": True, "entry": env, "before": env2, "key": key}
        fr["variants"] = []
        fr["isfor"] = any(s.startswith("dv_i") for s in stored)
        if spec.variants:
            for n, f in spec.variants(env):
                if ("v:" + n) not in dropped:
                    try:
                        fr["variants"].append((n, f, f(env2)))
                    except (KeyError, TypeError):
                        pass
        self.frames[key] = fr
        self.ensure_model()
        return new

    def loop_head(self, key, loc):
        fr = self.frames[key]
        if fr["first"]:
            fr["first"] = False
            return True
        env = self._env(loc)
        dropped = self.state["dropped"][key]
        for n, f in fr["cands"]:
            if n in dropped:
                continue
            s, mm, be, sec = self.prove(f(env), timeout=4000)
            if s != "proved":
                if os.environ.get("DV_DEBUG") and os.environ["DV_DEBUG"] in n:
                    print("drop", key, n, s, sec, mm, {k: v for k, v in env.items()}, file=sys.stderr)
                dropped.add(n)
                self.state["changed"] = True
            else:
                self.obligations.append(Obligation("inv-preserved %s %s" % (key, n), "proved", sec, be))
        if self.loops.variants and not fr["isfor"]:
            ok = False
            for n, f, old in fr["variants"]:
                if ("v:" + n) in dropped:
                    continue
                s, _, be, sec = self.prove(sym.and_(old >= 0, f(env) < old), timeout=4000)
                if s != "proved":
                    dropped.add("v:" + n)
                    self.state["changed"] = True
                else:
                    ok = True
                    self.obligations.append(Obligation("decreases %s %s" % (key, n), "proved", sec, be))
            if not ok:
                self.obligations.append(Obligation("decreases %s" % key, "unknown", 0, ""))
        if self.loops.on_iter is not None:
            self.loops.on_iter(self, fr, env, {k: v for k, v in loc.items() if isinstance(v, GhostList)})
        raise PathEnd("loop cut")


def cvc5_check(smt2, ms):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
        out = subprocess.run(["cvc5", "--tlimit=%d" % ms, f.name], capture_output=True, text=True,
                             timeout=ms / 1000 + 5).stdout
        return out.strip().splitlines()[0] if out.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass


# --------------------------------------------------------------------------
# contexts

class SymCtx:
    symbolic = True

    def __init__(self, path, lib):
        self.p = path
        self.lib = lib

    @staticmethod
    def raised(r):
        return isinstance(r, Raised)

    @staticmethod
    def num(s):
        """the number a string of digits denotes"""
        if isinstance(s, str):
            return int(s) if s.isdigit() else -1
        n = 0
        for p in s.parts:
            n = n * 10 ** (len(p) if isinstance(p, str) else p.w) + (int(p) if isinstance(p, str) else SymInt(p.e))
        return n

    def int(self, name, lo, hi, sampler=None):
        v = z3.Int(name)
        p = self.p
        p.add(v >= lo)
        p.add(v <= hi)
        p.ranges[name] = (Fraction(lo), Fraction(hi))
        p.inputs.append((name, v))
        return SymInt(v) if lo != hi else lo

    def double(self, k, grid):
        """the double k * 2^-grid"""
        if not is_sym(k):
            return k / 2 ** grid
        b = self.p.bound(k.e)
        assert b <= 2 ** 53
        return SymFloat(k.e, 2 ** grid, Fraction(0), z3.BoolVal(True), Fraction(b) / 2 ** grid)

    def float(self, name, lo, hi, grid):
        """every double in [lo, hi] that is a multiple of 2^-grid"""
        k = self.int(name, int(lo * 2 ** grid), int(hi * 2 ** grid))
        return SymFloat(k.e, 2 ** grid, Fraction(0), z3.BoolVal(True), Fraction(builtins.max(abs(lo), abs(hi))))

    def bool(self, name):
        v = z3.Bool(name)
        self.p.inputs.append((name, v))
        return SymBool(v)

    def choice(self, name, options, sampler=None):
        """one path per option"""
        i = self.int(name, 0, len(options) - 1)
        return options[i if isinstance(i, int) else i.__index__()]

    def assume(self, c):
        self.p.assume(c)

    def check(self, label, c):
        self.p.check(label, c)

    def lemma(self, label, c):
        """an intermediate obligation, usable once proved"""
        n = len(self.p.obligations)
        self.p.check(label, c)
        if all(o.status == "proved" for o in self.p.obligations[n:]):
            self.p.assume(c)

    def guess(self, c):
        """does c hold in some state of this path?  (only steers which lemma is tried)"""
        e = z3.simplify(zbool(c))
        self.p.ensure_model(e)
        return self.p.ev(e) is True

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError)) and "Sym" in str(e):
                raise Unsupported("engine: %s: %s" % (type(e).__name__, e))
            return Raised(e)

    def observe(self, label, value):
        self.p.observed.append((label, value))

    def fork(self, c):
        return bool(c)


class ConcCtx:
    symbolic = False

    def __init__(self, lib, values=None, rng=None):
        self.lib = lib
        self.values = values
        self.rng = rng
        self.used = {}
        self.failed = []
        self.checks = 0
        self.observed = []

    @staticmethod
    def raised(r):
        return isinstance(r, Raised)

    @staticmethod
    def num(s):
        """the number a string of digits denotes"""
        if isinstance(s, str):
            return int(s) if s.isdigit() else -1
        n = 0
        for p in s.parts:
            n = n * 10 ** (len(p) if isinstance(p, str) else p.w) + (int(p) if isinstance(p, str) else SymInt(p.e))
        return n

    def int(self, name, lo, hi, sampler=None):
        if self.values is not None and name in self.values:
            v = self.values[name]
            if not lo <= v <= hi:
                raise Skip()
        elif self.rng is None:
            v = lo
        elif sampler is not None:
            v = sampler(self.rng)
            if not lo <= v <= hi:
                raise Skip()
        else:
            r = self.rng.random()
            if r < 0.1:
                v = self.rng.choice((lo, hi, min(lo + 1, hi), max(hi - 1, lo)))
            elif r < 0.35 and hi - lo > 200:
                v = self.rng.randint(max(lo, -70), min(hi, 70)) if lo <= 70 and hi >= -70 else self.rng.randint(lo, hi)
            else:
                v = self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def double(self, k, grid):
        assert abs(k) <= 2 ** 53
        return k / 2 ** grid

    def float(self, name, lo, hi, grid):
        k = self.int(name, int(lo * 2 ** grid), int(hi * 2 ** grid))
        x = k / 2 ** grid
        if Fraction(x) != Fraction(k, 2 ** grid):
            if self.values is not None and name in self.values:
                raise Skip()
        return x

    def bool(self, name):
        if self.values is not None and name in self.values:
            v = bool(self.values[name])
        else:
            v = bool(self.rng.getrandbits(1)) if self.rng else False
        self.used[name] = v
        return v

    def choice(self, name, options, sampler=None):
        return options[self.int(name, 0, len(options) - 1, sampler)]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c):
        self.checks += 1
        if not c:
            self.failed.append(label)

    def lemma(self, label, c):
        self.check(label, c)

    def guess(self, c):
        return bool(c)

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            return Raised(e)

    def observe(self, label, value):
        self.observed.append((label, value))

    def fork(self, c):
        return bool(c)


# --------------------------------------------------------------------------
# running

_lib_sym = None
_lib_real = None


def lib_sym():
    global _lib_sym
    if _lib_sym is None:
        _lib_sym = instrument.load_instrumented(REPO, rt)
        for m in ("EightChar", "Foto", "Tao", "eightchar", "util"):
            pass
    return _lib_sym


def lib_real():
    global _lib_real
    if _lib_real is None:
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        _lib_real = importlib.import_module("lunar_python")
        reset_ghost(_lib_real)
    return _lib_real


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.ended = 0
        self.witnesses = 0
        self.obligations = []     # (label, status, seconds, backend, model, trivial)
        self.undecided = []
        self.exceptions = []      # (text, model)
        self.solver_s = 0.0
        self.queries = 0
        self.roundings = 0
        self.havocs = 0
        self.witness_models = []
        self.wall = 0.0
        self.rounds = 1
        self.entered = set()

    def merge(self, o):
        self.paths += o.paths
        self.ended += o.ended
        self.witnesses += o.witnesses
        self.obligations += o.obligations
        self.undecided += o.undecided
        self.exceptions += o.exceptions
        self.solver_s += o.solver_s
        self.queries += o.queries
        self.roundings += o.roundings
        self.havocs += o.havocs
        self.wall += o.wall
        self.entered |= o.entered
        self.rounds = max(self.rounds, o.rounds)
        if len(self.witness_models) < 12:
            self.witness_models += o.witness_models[:12 - len(self.witness_models)]


class Patches:
    def __init__(self):
        self.undo = []

    def set(self, obj, name, value):
        old = obj.__dict__[name]
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def restore(self):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)
        self.undo = []


def same_items(b, c):
    if isinstance(b, dict):
        return all(k in b and b[k] is v for k, v in c.items())
    if isinstance(b, (list, deque)):
        return all(x is y for x, y in zip(b, c))
    return b == c


def reset_ghost(lib):
    """global state of the library as it was when first called: freshly imported"""
    from importlib import import_module
    snap = _snap.get(id(lib))
    if snap is None:
        snap = []
        for name, mod in list(sys.modules.items()):
            if name == lib.__name__ or name.startswith(lib.__name__ + "."):
                for k, v in list(vars(mod).items()):
                    if isinstance(v, type) and v.__module__ == name:
                        for a, b in list(vars(v).items()):
                            if b is None or isinstance(b, (int, str)) and not a.startswith("__"):
                                snap.append((v, a, b))
                            if isinstance(b, rt.GhostLock):
                                snap.append((b, None, None))
        boxes, names, caches = [], [], []
        for name, mod in list(sys.modules.items()):
            if name == lib.__name__ or name.startswith(lib.__name__ + "."):
                for o in [mod] + [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name]:
                    if o is not mod:
                        names.append((o, set(vars(o))))
                    caches += [getattr(b, "__func__", b) for b in vars(o).values() if hasattr(getattr(b, "__func__", b), "cache_clear")]
                    boxes += [(b, b.copy()) for a, b in vars(o).items() if not a.startswith("__") and isinstance(b, (dict, list, set, deque, WeakValueDictionary))]
        _snap[id(lib)] = snap, boxes, names, caches
        snap = _snap[id(lib)]
    snap, boxes, names, caches = snap
    for b, c in boxes:
        # a table kept: only additions and removals are looked for in large ones
        if len(b) != len(c) or len(c) < 40 and not same_items(b, c):
            b.clear()
            (b.extend if isinstance(b, (list, deque)) else b.update)(c)
    for o, n in names:
        for a in [a for a in vars(o) if a not in n]:
            delattr(o, a)
    for c in rt.Cached.all + rt.GhostDict.all:
        c.rows = []
    for c in caches:
        c.cache_clear()
    for v, a, b in snap:
        if a is None:
            v.held = False
            v.acquisitions = v.releases = 0
        elif v.__dict__.get(a) is not b:
            setattr(v, a, b)


_snap = {}


def run_path(unit, prefix, state):
    """explore one path; returns (Result, forks)"""
    lib = lib_sym()
    reset_ghost(lib)
    r = Result(unit.name)
    p = Path(unit, prefix, state)
    sym.set_path(p)
    pat = Patches()
    forks = []
    try:
        ctx = SymCtx(p, lib)
        ctx.pat = pat
        for s in unit.stubs:
            s(ctx, pat)
        try:
            unit.body(ctx)
            p.ensure_model()
            r.paths += 1
            if p.model is not None:
                r.witnesses += 1
                m = p.inputs_of(p.model)
                obs = []
                for lab, v in p.observed:
                    obs.append((lab, evaluate(v, p.model)))
                r.witness_models.append((m, obs))
        except PathEnd:
            r.ended += 1
        except Unsupported as e:
            r.undecided.append("unsupported: %s" % e)
        except Refuted:
            pass
        except RecursionError as e:
            r.undecided.append("recursion: %s" % e)
        except z3.Z3Exception as e:
            r.undecided.append("z3: %s" % e)
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            try:
                p.ensure_model()
                m = p.inputs_of(p.model)
                r.exceptions.append(("%s: %s" % (type(e).__name__, e), m, tb))
            except PathEnd:
                r.ended += 1
    except PathEnd:
        r.ended += 1
    except Unsupported as e:
        r.undecided.append("unsupported: %s" % e)
    except Exception as e:
        r.undecided.append("set-up: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-3)))
    finally:
        sym.set_path(None)
        pat.restore()
    forks = p.forks
    for o in p.obligations:
        r.obligations.append((o.label, o.status, o.seconds, o.backend, o.model, o.trivial))
        if o.status == "unknown":
            r.undecided.append("solver gave up on %s" % o.label)
    r.solver_s = p.solver_s
    r.queries = p.queries
    r.roundings = p.float_roundings
    r.havocs = p.havocs
    return r, forks


def evaluate(v, model):
    if isinstance(v, (SymInt, SymBool)):
        e = model.eval(v.e, model_completion=True)
        if z3.is_int_value(e):
            return e.as_long()
        return z3.is_true(e)
    if isinstance(v, SymStr):
        out = []
        for p in v.parts:
            out.append(p if isinstance(p, str) else str(model.eval(p.e, model_completion=True).as_long()).zfill(p.w))
        return "".join(out)
    if isinstance(v, (list, tuple)):
        return [evaluate(x, model) for x in v]
    if isinstance(v, (int, str, float, bool)) or v is None:
        return v
    return "?"


def run_slice(unit, prefixes, seconds, state=None):
    """depth-first from the given prefixes for about `seconds`; returns (Result, remaining)"""
    t0 = time.time()
    total = Result(unit.name)
    stack = list(prefixes)
    state = state if state is not None else {"dropped": {}, "changed": False}
    rt.ENTERED.clear()
    while stack and time.time() - t0 < seconds:
        r, forks = run_path(unit, stack.pop(), state)
        total.merge(r)
        stack.extend(forks)
        if len(total.undecided) > 50:
            break
    total.wall = time.time() - t0
    total.entered = set(rt.ENTERED)
    return total, stack


def run_loop_unit(unit):
    """Houdini: repeat the whole exploration until no candidate is dropped"""
    state = {"dropped": {}, "changed": False}
    t0 = time.time()
    rounds = 0
    while True:
        rounds += 1
        state["changed"] = False
        r, rest = run_slice(unit, [[]], unit.max_seconds, state)
        if rest:
            r.undecided.append("path budget exhausted")
        if not state["changed"] or rest:
            break
        if time.time() - t0 > unit.max_seconds:
            r.undecided.append("invariant inference: time budget exhausted")
            break
    r.rounds = rounds
    r.wall = time.time() - t0
    return r, []


# concrete -----------------------------------------------------------------

def run_concrete(unit, values=None, rng=None, lib=None):
    """returns ctx, or None when the precondition does not hold; ctx.failed lists labels"""
    ctx = ConcCtx(lib or lib_real(), values, rng)
    try:
        unit.body(ctx)
    except Skip:
        return None
    except Exception as e:
        ctx.failed.append("exception %s: %s" % (type(e).__name__, e))
        ctx.tb = traceback.format_exc(limit=-3)
    return ctx
