"""Symbolic values for the deductive verifier.

The code under verification is the code of /repo itself, mechanically instrumented
(see instrument.py) and executed by CPython on the values defined here:

  SymInt    a mathematical integer term (Python ints are mathematical: nothing is lost)
  SymBool   a truth value; using it as a condition forks the path (Path.branch)
  SymFloat  an IEEE double, as a real term plus what is known of its rounding
  SymStr    a string made of literals and fixed-width decimal fields

Every operation on concrete operands is left to CPython.
"""
from fractions import Fraction
import z3

U53 = Fraction(1, 2 ** 53)


class Unsupported(BaseException):
    """The construct is outside the verifier's subset: the unit is undecided."""


class PathEnd(BaseException):
    """Control signal: this path is finished (loop cut, or infeasible)."""


class Refuted(BaseException):
    """Control signal: an obligation of this path is refuted; the path stops."""


_path = None


def cur():
    if _path is None:
        raise Unsupported("symbolic value used outside a path")
    return _path


def set_path(p):
    global _path
    _path = p


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymFloat, SymStr))


def zint(x):
    """z3 integer term of an int-like value."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    raise TypeError("not an integer term: %r" % (type(x),))


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymInt):
        return x.e != 0
    raise TypeError("not a truth value: %r" % (type(x),))


def wrap_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def wrap_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _num(x):
    return isinstance(x, (int, SymInt, SymBool))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def _i(self):
        return SymInt(zint(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_bool(z3.simplify(self.e == zbool(o)))
        if _num(o):
            return self._i() == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __and__(self, o): return wrap_bool(z3.And(self.e, zbool(o)))
    __rand__ = __and__
    def __or__(self, o): return wrap_bool(z3.Or(self.e, zbool(o)))
    __ror__ = __or__
    def __xor__(self, o): return wrap_bool(z3.Xor(self.e, zbool(o)))
    __rxor__ = __xor__
    def __invert__(self): raise Unsupported("~ on a truth value")
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __repr__(self):
        return "SymBool(%s)" % self.e


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f, rev=False):
        if isinstance(o, (SymFloat, float)):
            return NotImplemented
        if not _num(o):
            return NotImplemented
        a, b = self.e, zint(o)
        if rev:
            a, b = b, a
        return wrap_int(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) + o
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(o) - self
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.of(self) * o
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    @staticmethod
    def _divisor(b):
        """A concrete non-zero divisor (a symbolic one is case-split)."""
        if isinstance(b, (SymInt, SymBool)):
            b = b.__index__()
        b = int(b)
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return b

    @staticmethod
    def _floordiv(a, b):
        b = SymInt._divisor(b)
        if not is_sym(a):
            return a // b
        if b < 0:
            return wrap_int(z3.simplify((-a.e) / z3.IntVal(-b)))
        return wrap_int(z3.simplify(a.e / z3.IntVal(b)))

    @staticmethod
    def _mod(a, b):
        b = SymInt._divisor(b)
        if not is_sym(a):
            return a % b
        if b < 0:
            return wrap_int(z3.simplify(-((-a.e) % z3.IntVal(-b))))
        return wrap_int(z3.simplify(a.e % z3.IntVal(b)))

    def __floordiv__(self, o):
        if isinstance(o, (SymFloat, float)):
            raise Unsupported("float floor division")
        if not _num(o):
            return NotImplemented
        return SymInt._floordiv(self, o)

    def __rfloordiv__(self, o):
        return SymInt._floordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, (SymFloat, float)):
            raise Unsupported("float modulo")
        if not _num(o):
            return NotImplemented
        return SymInt._mod(self, o)

    def __rmod__(self, o):
        return SymInt._mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return SymFloat.div(self, o)

    def __rtruediv__(self, o):
        return SymFloat.div(o, self)

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power")

    def __neg__(self): return wrap_int(z3.simplify(-self.e))
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return -self - 1

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("bitwise and")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("shift")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("shift")

    # comparison -----------------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, (SymFloat, float)):
            return NotImplemented
        if not _num(o):
            return NotImplemented
        return wrap_bool(z3.simplify(f(self.e, zint(o))))

    def __lt__(self, o):
        if isinstance(o, (SymFloat, float)): return SymFloat.of(self) < o
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if isinstance(o, (SymFloat, float)): return SymFloat.of(self) <= o
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if isinstance(o, (SymFloat, float)): return SymFloat.of(self) > o
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if isinstance(o, (SymFloat, float)): return SymFloat.of(self) >= o
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SymFloat, float)): return SymFloat.of(self) == o
        if not _num(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretize(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        raise Unsupported("str() of a symbolic integer outside the instrumented code")

    def __repr__(self):
        return "SymInt(%s)" % self.e

    # int API used by real code
    def bit_length(self):
        raise Unsupported("bit_length")


def _frac(x):
    return Fraction(x)


def zreal(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def _grid(fr):
    """q such that fr is a multiple of 2^-q, or None."""
    d = fr.denominator
    if d & (d - 1):
        return None
    return d.bit_length() - 1


class SymFloat:
    """A double v, known to lie within `err` of the rational k/den.

    k: integer term, den: positive int, err: Fraction, ex: z3 condition under which
    v == k/den exactly, bound: |k/den| <= bound.  Each operation of the code is followed
    by round-to-nearest, |rounding| <= bound * 2^-53, and a result that is a multiple of
    2^-t with magnitude below 2^(53-t) is exact."""
    __slots__ = ("k", "den", "err", "ex", "bound", "_v")

    def __init__(self, k, den, err, ex, bound):
        self.k, self.den, self.err, self.ex, self.bound = k, den, err, ex, bound
        self._v = None

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, float):
            fr = Fraction(x)
            near = fr.limit_denominator(100000)
            err = abs(near - fr)
            if err > abs(fr) * U53 * 2:
                near, err = fr, Fraction(0)
            return SymFloat(z3.IntVal(near.numerator), near.denominator, err, z3.BoolVal(err == 0), abs(fr) + err)
        if isinstance(x, (bool, int)):
            if abs(int(x)) > 2 ** 53:
                raise Unsupported("large int to float")
            return SymFloat(z3.IntVal(int(x)), 1, Fraction(0), z3.BoolVal(True), Fraction(abs(int(x))))
        if isinstance(x, (SymInt, SymBool)):
            e = zint(x)
            b = cur().bound(e)
            if b is None or b > 2 ** 53:
                raise Unsupported("int to float conversion may round")
            return SymFloat(e, 1, Fraction(0), z3.BoolVal(True), b)
        raise Unsupported("float of %r" % type(x))

    def _round(self):
        """self is the exact result of an operation on doubles (err: error of the operands)"""
        self.k = cur().rest(z3.simplify(self.k))
        iv = cur().interval_z(self.k)
        if iv[0] is not None and iv[1] is not None:
            self.bound = min(self.bound, max(abs(Fraction(iv[0])), abs(Fraction(iv[1]))) / self.den)
        b = self.bound + self.err
        t = 0
        while b * 2 ** (t + 1) < 2 ** 53 and t < 60:
            t += 1
        if b >= 2 ** 53:
            raise Unsupported("float too large")
        if (2 ** t) % self.den == 0:
            fits = z3.BoolVal(True)
        else:
            # k/den is a multiple of 2^-t'
            fits = (self.k * (2 ** min(t, 12))) % self.den == 0
        if z3.is_true(fits) and z3.is_true(self.ex) and self.err == 0:
            return self
        r = b * U53 + Fraction(1, 2 ** 1070)
        self.ex = z3.simplify(z3.And(self.ex, fits))
        self.err = self.err + r
        cur().float_roundings += 1
        return self

    # arithmetic
    @staticmethod
    def div(a, b):
        if not is_sym(a) and not is_sym(b):
            return a / b
        if isinstance(b, (SymInt, SymBool)):
            b = b.__index__()
        if isinstance(b, SymFloat):
            raise Unsupported("division by a symbolic float")
        if b == 0:
            raise ZeroDivisionError("division by zero")
        fa = SymFloat.of(a)
        fb = SymFloat.of(float(b) if abs(b) <= 2 ** 53 else b)
        kb = Fraction(fb.k.as_long(), fb.den)
        # 1/b differs from 1/(kb) by err_b/(b*kb)
        inv = 1 / kb
        eb = fb.err / (abs(kb) * (abs(kb) - fb.err))
        return SymFloat._scale(fa, inv, eb, z3.is_true(fb.ex))

    @staticmethod
    def _scale(fa, c, ec, exact):
        n, d = c.numerator, c.denominator
        err = fa.err * (abs(c) + ec) + fa.bound * ec
        return SymFloat(fa.k * n, fa.den * d, err, fa.ex if exact else z3.BoolVal(False), fa.bound * abs(c))._norm()._round()

    def _norm(self):
        k = z3.simplify(self.k)
        if z3.is_int_value(k):
            f = Fraction(k.as_long(), self.den)
            self.k, self.den = z3.IntVal(f.numerator), f.denominator
        else:
            g = _content(k)
            from math import gcd
            g = gcd(g, self.den)
            if g > 1:
                k = z3.simplify(_divide(k, g))
                self.den //= g
            self.k = k
        return self

    def parts(self):
        return z3.simplify(self.k), self.den

    def _addsub(self, o, sgn):
        from math import gcd
        o = SymFloat.of(o)
        l = self.den * o.den // gcd(self.den, o.den)
        k = self.k * (l // self.den) + sgn * (o.k * (l // o.den))
        return SymFloat(k, l, self.err + o.err, z3.simplify(z3.And(self.ex, o.ex)), self.bound + o.bound)._norm()._round()

    def __add__(self, o): return self._addsub(o, 1)
    def __radd__(self, o): return SymFloat.of(o)._addsub(self, 1)
    def __sub__(self, o): return self._addsub(o, -1)
    def __rsub__(self, o): return SymFloat.of(o)._addsub(self, -1)

    def __mul__(self, o):
        o = SymFloat.of(o)
        a, b = (self, o) if z3.is_int_value(o.k) else (o, self)
        if not z3.is_int_value(b.k):
            raise Unsupported("product of symbolic floats")
        return SymFloat._scale(a, Fraction(b.k.as_long(), b.den), b.err, z3.is_true(b.ex))

    __rmul__ = __mul__

    def __truediv__(self, o): return SymFloat.div(self, o)
    def __rtruediv__(self, o): raise Unsupported("division by a symbolic float")
    def __floordiv__(self, o): raise Unsupported("float floor division")
    def __mod__(self, o): raise Unsupported("float modulo")
    def __neg__(self): return SymFloat(z3.simplify(-self.k), self.den, self.err, self.ex, self.bound)
    def __pos__(self): return self
    def __abs__(self): return SymFloat(z3.If(self.k >= 0, self.k, -self.k), self.den, self.err, self.ex, self.bound)

    @property
    def v(self):
        """a real term equal to the double"""
        if self._v is None:
            q = z3.ToReal(self.k) * zreal(Fraction(1, self.den))
            if self.err == 0:
                self._v = q
            else:
                p = cur()
                r = p.fresh_real("fl")
                e = zreal(self.err)
                p.assume_raw(z3.And(r - q <= e, q - r <= e, z3.Implies(self.ex, r == q)))
                self._v = r
        return self._v

    def _cmp(self, o, op):
        if not isinstance(o, (int, float, SymInt, SymBool, SymFloat)):
            return NotImplemented
        o = SymFloat.of(o)
        a, b = self.k * o.den, o.k * self.den          # compare a/(den*o.den) with b/(...)
        e = (self.err + o.err) * self.den * o.den
        f = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]
        if e == 0:
            return wrap_bool(z3.simplify(f))
        far = z3.Or(a - b > z3.IntVal(e.__floor__()), b - a > z3.IntVal(e.__floor__()), z3.And(self.ex, o.ex))
        x, y = self.v, o.v
        g = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op]
        return wrap_bool(z3.simplify(z3.If(far, f, g)))

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    # rounding to integers
    def _split(self):
        """(n, rest) with k = den*n + rest and 0 < rest < den (0 <= rest when exact), found
        syntactically, or None"""
        k, den = z3.simplify(self.k), self.den
        if den == 1 or not z3.is_add(k):
            return None
        whole, rest, c0 = [], [], 0
        for t in k.children():
            if z3.is_int_value(t):
                c0 += t.as_long()
                continue
            g = _content(t)
            if g and g % den == 0:
                whole.append(_divide(t, den))
            else:
                rest.append(t)
        if not whole:
            return None
        exact = self.err == 0 and z3.is_true(self.ex)
        for c in (c0 % den, c0 % den - den):
            r = z3.simplify(z3.Sum(rest + [z3.IntVal(c)]))
            lo, hi = cur().interval_z(r)
            if lo is not None and hi is not None and hi < den and (lo >= 0 if exact else lo > 0):
                return z3.simplify(z3.Sum(whole + [z3.IntVal((c0 - c) // den)])), r
        return None

    def floor(self):
        sp = self._split()
        if sp is not None and self.err * self.den < 1:
            n, r = sp
            n = cur().name_int(n, "floor")
            cur().register_rest(self.k, self.den, n, self.den - 1, r)
            return wrap_int(n)
        q = z3.simplify(self.k / z3.IntVal(self.den)) if self.den != 1 else self.k
        if self.err == 0 and z3.is_true(self.ex):
            n = cur().name_int(q, "floor")
            cur().register_rest(self.k, self.den, n, self.den - 1)
            return wrap_int(n)
        # k/den is a multiple of 1/den: with err < 1/den only integers are ambiguous
        if self.err * self.den >= 1:
            raise Unsupported("floor of a float known only to %s" % float(self.err))
        p = cur()
        amb = z3.simplify(z3.And(self.k % z3.IntVal(self.den) == 0, z3.Not(self.ex))) if self.den != 1 else z3.Not(self.ex)
        if p.feasible(amb):
            b = p.fresh_int("fl", 0, 1)
            p.assume_raw(z3.Implies(z3.Not(amb), b == 0))
            n = z3.simplify(q - b)
        else:
            n = q
        n = p.name_int(n, "floor")
        p.register_rest(self.k, self.den, n, self.den)
        return wrap_int(n)

    def trunc(self):
        lo, hi = cur().interval_z(self.k)
        if lo is not None and lo >= 0:
            return self.floor_nonneg()
        if self.err == 0 and z3.is_true(self.ex):
            d = z3.IntVal(self.den)
            return wrap_int(z3.simplify(z3.If(self.k >= 0, self.k / d, -((-self.k) / d))))
        if cur().branch(self.k >= 0):
            return self.floor_nonneg()
        return -((-self).floor_nonneg())

    def floor_nonneg(self):
        """trunc, knowing k/den >= 0; a value just below 0 truncates to 0"""
        f = self.floor()
        if is_sym(f):
            lo, _ = cur().interval_z(f.e)
            if lo is not None and lo >= 0:
                return f
            return wrap_int(z3.simplify(z3.If(zint(f) < 0, z3.IntVal(0), zint(f))))
        return max(f, 0)

    def ceil(self):
        f = (-self).floor()
        return -f

    def round_int(self):
        """round half to even"""
        p = cur()
        if self.err == 0 and z3.is_true(self.ex) or self.err * 2 * self.den < 1:
            d = self.den
            two = 2 * self.k + d
            q = z3.simplify(two / z3.IntVal(2 * d))
            tie = z3.simplify(two % z3.IntVal(2 * d) == 0)
            if z3.is_false(tie) or d % 2 == 1:
                return wrap_int(p.name_int(q, "round"))
            b = p.fresh_int("rd", 0, 1)
            p.assume_raw(z3.Implies(z3.Not(tie), b == 0))
            p.assume_raw(z3.Implies(z3.And(tie, self.ex), (q - b) % 2 == 0))
            return wrap_int(p.name_int(z3.simplify(q - b), "round"))
        # n is the nearest integer up to err
        n = p.fresh_int("round")
        e = self.err * 2 * self.den
        c = z3.IntVal(-((-e).__floor__()))
        d = 2 * self.k - 2 * self.den * n
        p.assume_raw(z3.And(d <= self.den + c, -d <= self.den + c))
        return SymInt(n)

    def __int__(self):
        raise Unsupported("int() of a symbolic float outside the instrumented code")

    __float__ = __int__
    __trunc__ = trunc
    __floor__ = floor
    __ceil__ = ceil

    def __repr__(self):
        return "SymFloat(%s/%d +- %s)" % (self.k, self.den, float(self.err))


def _content(k):
    """a common integer factor of all coefficients of a linear term (1 if unknown)"""
    from math import gcd
    if z3.is_int_value(k):
        return abs(k.as_long())
    if z3.is_add(k):
        g = 0
        for c in k.children():
            g = gcd(g, _content(c))
        return g
    if z3.is_mul(k):
        g = 1
        for c in k.children():
            if z3.is_int_value(c):
                g *= abs(c.as_long())
        return g
    return 1


def _divide(k, g):
    if z3.is_int_value(k):
        return z3.IntVal(k.as_long() // g)
    if z3.is_add(k):
        r = _divide(k.children()[0], g)
        for c in k.children()[1:]:
            r = r + _divide(c, g)
        return r
    if z3.is_mul(k):
        out, done = None, False
        for c in k.children():
            if z3.is_int_value(c) and not done:
                c, done = z3.IntVal(c.as_long() // g), True
            out = c if out is None else out * c
        return out
    assert g == 1
    return k


# --------------------------------------------------------------------------
# boolean helpers usable in specifications, for symbolic and concrete values

def not_(x):
    if isinstance(x, SymBool):
        return wrap_bool(z3.simplify(z3.Not(x.e)))
    return not x


def and_(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return wrap_bool(z3.And(*es) if len(es) > 1 else es[0])


def or_(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return wrap_bool(z3.Or(*es) if len(es) > 1 else es[0])


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return wrap_bool(z3.simplify(zbool(a) == zbool(b)))


def ite(c, a, b):
    if isinstance(c, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return wrap_bool(z3.If(c.e, zbool(a), zbool(b)))
        if isinstance(a, (SymFloat, float)) or isinstance(b, (SymFloat, float)):
            raise Unsupported("ite on floats")
        return SymInt(z3.If(c.e, zint(a), zint(b)))
    return a if c else b


def bsum(conds):
    """number of true conditions"""
    n = 0
    for c in conds:
        n = n + (ite(c, 1, 0))
    return n


# --------------------------------------------------------------------------
# strings

class Dig:
    """`width` decimal digits of the integer term e, where 0 <= e < 10^width."""
    __slots__ = ("e", "w")

    def __init__(self, e, w):
        self.e = e
        self.w = w

    def char(self, i):
        """integer term: the digit at position i from the left"""
        k = self.w - 1 - i
        x = self.e
        if k:
            x = x / z3.IntVal(10 ** k)
        if i:
            x = x % 10
        return x


class TabStr:
    """the entry of a table of texts at a symbolic place (all of one length)"""
    __hash__ = None

    def __init__(self, table, idx):
        table = tuple(table)
        for k in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30):
            if len(table) % k == 0 and k < len(table) and table == table[:k] * (len(table) // k):
                table, idx = table[:k], idx % k
                break
        self.table, self.idx = table, idx

    def map(self, f):
        """the number f gives for the text"""
        out = None
        groups = {}
        for i, x in enumerate(self.table):
            groups.setdefault(f(x), []).append(i)
        c = f(self.table[0])
        if isinstance(c, int) and all(groups.get(i + c) == [i] for i in range(len(self.table))):
            return self.idx + c
        for v, places in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            out = v if out is None else ite(or_(*[self.idx == i for i in places]), v, out)
        return out

    def __eq__(self, o):
        if isinstance(o, str):
            return or_(False, *[self.idx == i for i, x in enumerate(self.table) if x == o])
        if isinstance(o, TabStr):
            if o.table == self.table and len(set(self.table)) == len(self.table):
                return self.idx == o.idx
            names = sorted(set(self.table) | set(o.table))
            return self.map(names.index) == o.map(names.index)
        return NotImplemented

    def __ne__(self, o):
        return not_(self == o)

    def __getitem__(self, i):
        return TabStr([x[i] for x in self.table], self.idx)

    def __len__(self):
        return len(self.table[0])

    def _no(self, *a, **k):
        raise Unsupported("an operation on a pillar's text")
    __add__ = __radd__ = __str__ = __format__ = __iter__ = __contains__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = _no


class SymStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            else:
                s = z3.simplify(p.e)
                if z3.is_int_value(s):
                    t = str(s.as_long()).zfill(p.w)
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + t
                    else:
                        out.append(t)
                    continue
            out.append(p)
        self.parts = out

    @staticmethod
    def make(parts):
        s = SymStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def __len__(self):
        return sum(len(p) if isinstance(p, str) else p.w for p in self.parts)

    def chars(self):
        """list of str chars or z3 digit terms (ints 0..9)"""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(p)
            else:
                out.extend(p.char(i) for i in range(p.w))
        return out

    def _split(self, pos):
        """cut self.parts at character position pos"""
        left, right = [], []
        n = 0
        for p in self.parts:
            w = len(p) if isinstance(p, str) else p.w
            if n + w <= pos:
                left.append(p)
            elif n >= pos:
                right.append(p)
            else:
                k = pos - n
                if isinstance(p, str):
                    left.append(p[:k])
                    right.append(p[k:])
                else:
                    r = p.w - k
                    left.append(Dig(p.e / z3.IntVal(10 ** r), k))
                    right.append(Dig(p.e % z3.IntVal(10 ** r), r))
            n += w
        return left, right

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            a, b, st = i.indices(n)
            if st != 1:
                raise Unsupported("string slice step")
            if b <= a:
                return ""
            _, right = self._split(a)
            left, _ = SymStr(right)._split(b - a)
            return SymStr.make(left)
        i = i.__index__()
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return self[i:i + 1]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        if isinstance(o, str):
            return SymStr.make(self.parts + [o])
        if isinstance(o, SymStr):
            return SymStr.make(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr.make([o] + self.parts)
        return NotImplemented

    @staticmethod
    def _align(a, b):
        """common segmentation of two equally long strings into pairs of parts, or None"""
        pa, pb = list(a.parts), list(b.parts)
        out = []
        while pa and pb:
            x, y = pa[0], pb[0]
            wx = len(x) if isinstance(x, str) else x.w
            wy = len(y) if isinstance(y, str) else y.w
            if wx == wy:
                pa.pop(0)
                pb.pop(0)
                out.append((x, y))
                continue
            if wx > wy:
                l, r = SymStr([x])._split(wy)
                pa[0:1] = l + r
            else:
                l, r = SymStr([y])._split(wx)
                pb[0:1] = l + r
            if len(pa) > 200 or len(pb) > 200:
                return None
        if pa or pb:
            return None
        return out

    @staticmethod
    def _pair(x, y):
        """comparison terms (lt, eq) for one aligned pair"""
        if isinstance(x, str) and isinstance(y, str):
            return z3.BoolVal(x < y), z3.BoolVal(x == y)
        if isinstance(x, Dig) and isinstance(y, Dig):
            return x.e < y.e, x.e == y.e
        if isinstance(x, Dig):
            if y.isdigit() and y.isascii():
                v = int(y)
                return x.e < v, x.e == v
        else:
            if x.isdigit() and x.isascii():
                v = int(x)
                return v < y.e, v == y.e
        # character by character
        cx = SymStr([x]).chars()
        cy = SymStr([y]).chars()
        lt, eq = z3.BoolVal(False), z3.BoolVal(True)
        for p, q in reversed(list(zip(cx, cy))):
            p = z3.IntVal(ord(p)) if isinstance(p, str) else p + 48
            q = z3.IntVal(ord(q)) if isinstance(q, str) else q + 48
            lt = z3.Or(p < q, z3.And(p == q, lt))
            eq = z3.And(p == q, eq)
        return lt, eq

    @staticmethod
    def lexcmp(a, b):
        """(a < b, a == b) as z3 terms"""
        if isinstance(a, str):
            a = SymStr([a])
        if isinstance(b, str):
            b = SymStr([b])
        la, lb = len(a), len(b)
        n = min(la, lb)
        a1 = SymStr(a._split(n)[0])
        b1 = SymStr(b._split(n)[0])
        al = SymStr._align(a1, b1)
        if al is None:
            raise Unsupported("string comparison")
        lt, eq = z3.BoolVal(la < lb), z3.BoolVal(la == lb)
        for x, y in reversed(al):
            l, e = SymStr._pair(x, y)
            lt = z3.Or(l, z3.And(e, lt))
            eq = z3.And(e, eq)
        return z3.simplify(lt), z3.simplify(eq)

    def _c(self, o, f):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        lt, eq = SymStr.lexcmp(self, o)
        return wrap_bool(z3.simplify(f(lt, eq)))

    def __lt__(self, o): return self._c(o, lambda l, e: l)
    def __le__(self, o): return self._c(o, lambda l, e: z3.Or(l, e))
    def __gt__(self, o): return self._c(o, lambda l, e: z3.Not(z3.Or(l, e)))
    def __ge__(self, o): return self._c(o, lambda l, e: z3.Not(l))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        if len(self) != len(o):
            return False
        return self._c(o, lambda l, e: e)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def concrete(self):
        return "".join(p if isinstance(p, str) else str(cur().concretize(p.e)).zfill(p.w) for p in self.parts)

    def __hash__(self):
        return hash(self.concrete())

    def __contains__(self, o):
        if isinstance(o, str) and not any(c.isdigit() for c in o):
            # a digit field cannot match, so o must lie inside one literal
            return any(isinstance(p, str) and o in p for p in self.parts)
        return (o.concrete() if isinstance(o, SymStr) else o) in self.concrete()

    def __bool__(self):
        return len(self) > 0

    def __mul__(self, n):
        return SymStr.make(self.parts * n)

    __rmul__ = __mul__

    def replace(self, a, b, count=-1):
        if isinstance(a, str) and isinstance(b, str) and count == -1 and a and not any(c.isdigit() for c in a):
            return SymStr.make([p.replace(a, b) if isinstance(p, str) else p for p in self.parts])
        return self.concrete().replace(a, b, count)

    def split(self, sep=None, maxsplit=-1):
        if isinstance(sep, str) and sep and maxsplit == -1 and not any(c.isdigit() for c in sep):
            out = [[]]
            for p in self.parts:
                if isinstance(p, str):
                    bits = p.split(sep)
                    out[-1].append(bits[0])
                    for t in bits[1:]:
                        out.append([t])
                else:
                    out[-1].append(p)
            return [SymStr.make(o) for o in out]
        return self.concrete().split(sep, maxsplit)

    def startswith(self, o):
        if isinstance(o, (str, SymStr)):
            if len(o) > len(self):
                return False
            return self[:len(o)] == o
        raise Unsupported("startswith")

    def endswith(self, o):
        if isinstance(o, (str, SymStr)):
            if len(o) > len(self):
                return False
            return self[len(self) - len(o):] == o
        raise Unsupported("endswith")

    def zfill(self, n):
        k = n - len(self)
        return self if k <= 0 else SymStr.make(["0" * k] + self.parts)

    def rjust(self, n, c=" "):
        k = n - len(self)
        return self if k <= 0 else SymStr.make([c * k] + self.parts)

    def isdigit(self):
        return all(isinstance(p, Dig) or p.isdigit() for p in self.parts)

    def to_int(self):
        v = None
        for p in self.parts:
            if isinstance(p, str):
                if not (p.isdigit() and p.isascii()):
                    return int(self.concrete())
                t, w = z3.IntVal(int(p)), len(p)
            else:
                t, w = p.e, p.w
            v = t if v is None else v * (10 ** w) + t
        return wrap_int(z3.simplify(v))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            return getattr(self.concrete(), name)
        raise AttributeError(name)

    def __str__(self):
        raise Unsupported("str() of a symbolic string outside the instrumented code")

    def __repr__(self):
        return "SymStr(%s)" % "|".join(p if isinstance(p, str) else "%s:%d" % (p.e, p.w) for p in self.parts)


def digits_of(x, pad=0):
    """decimal rendering of an int-like symbolic value, zero padded to `pad`."""
    p = cur()
    e = zint(x)
    if p.branch(e < 0):
        inner = digits_of(SymInt(-e), max(pad - 1, 0))
        return "-" + inner
    w = max(pad, 1)
    while True:
        if p.branch(e < 10 ** w):
            if w == 1 and pad <= 1:
                pass
            return SymStr.make([Dig(e, w)])
        w += 1
        if w > 18:
            raise Unsupported("rendering of an unbounded integer")
