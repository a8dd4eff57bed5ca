"""Runtime called by the instrumented code."""
import builtins
import re
import datetime as _datetime
import threading as _threading
import functools as _functools
import z3
from . import sym
from .sym import (SymInt, SymBool, SymFloat, SymStr, Unsupported, PathEnd, is_sym, cur, wrap_int, wrap_bool, zint,
                  digits_of, ite, or_, and_)


ENTERED = set()   # functions whose text ran on a proof path


def entered(q):
    if sym._path is not None and ENTERED is not None:
        ENTERED.add(q)


def unseen(f):
    """run f, a matter of setting up, without taking note of what it enters"""
    global ENTERED
    keep, ENTERED = ENTERED, None
    try:
        return f()
    finally:
        ENTERED = keep


def symbolic():
    return sym._path is not None


# ---- strings -------------------------------------------------------------
def to_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (SymInt,)):
        return digits_of(x)
    if isinstance(x, SymBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SymFloat):
        raise Unsupported("rendering of a symbolic float")
    m = getattr(type(x), "__str__", None)
    if symbolic() and m is not None and getattr(type(x), "__module__", "").startswith("lunar_dv"):
        return m(x)
    return builtins.str(x)


_spec = re.compile(r"%(?:%|(0?)(\d*)([sdfiroxX]|\.\d+f))")


def fmt_int(x, zero, width):
    w = int(width) if width else 0
    if not is_sym(x):
        return ("%" + zero + width + "d") % x
    if w and not zero:
        s = digits_of(x)
        return s.rjust(w) if isinstance(s, SymStr) else s.rjust(w)
    return digits_of(x, w)


def mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if not any(is_sym(x) or getattr(type(x), "__module__", "").startswith("lunar_dv") for x in args):
            return a % b
        out, pos, k = [], 0, 0
        for m in _spec.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(0) == "%%":
                out.append("%")
                continue
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            x = args[k]
            k += 1
            zero, width, conv = m.groups()
            if conv in ("d", "i"):
                if isinstance(x, SymFloat):
                    x = x.trunc()
                if isinstance(x, SymBool):
                    x = ite(x, 1, 0)
                if isinstance(x, (str, SymStr)):
                    raise TypeError("%d format: a number is required, not str")
                out.append(fmt_int(x, zero or "", width or ""))
            elif conv == "s" and not width:
                out.append(to_str(x))
            else:
                raise Unsupported("format %s" % m.group(0))
        rest = a[pos:]
        if "%" in rest:
            raise Unsupported("format string %r" % a)
        if k != len(args):
            raise TypeError("not all arguments converted during string formatting")
        out.append(rest)
        return concat(out)
    return a % b


def concat(parts):
    flat = []
    for p in parts:
        if isinstance(p, SymStr):
            flat.extend(p.parts)
        else:
            flat.append(p)
    return SymStr.make(flat)


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if not is_sym(v):
            if conv == 114:
                v = builtins.repr(v)
            elif conv == 115:
                v = to_str(v)
            out.append(format(v, spec) if isinstance(spec, str) and not is_sym(v) else to_str(v))
            continue
        out.append(fmt_spec(v, spec))
    return concat(out)


def fmt_spec(v, spec):
    if not spec:
        return to_str(v)
    m = re.fullmatch(r"(0?)(\d+)d?", spec)
    if m and isinstance(v, SymInt):
        if m.group(1):
            return fmt_int(v, "0", m.group(2))
        return fmt_int(v, "", m.group(2))
    if spec == "d" and isinstance(v, SymInt):
        return digits_of(v)
    raise Unsupported("format spec %r" % (spec,))


def method(o, name, *args, **kw):
    if isinstance(o, str) and symbolic():
        if name == "join":
            items = list(args[0])
            if any(isinstance(i, SymStr) for i in items):
                out = []
                for k, i in enumerate(items):
                    if k:
                        out.append(o)
                    out.append(i)
                return concat(out)
            return o.join(items)
        if name == "format" and (any(is_sym(a) for a in args) or any(is_sym(a) for a in kw.values())):
            return str_format(o, args, kw)
        if any(isinstance(a, SymStr) for a in args):
            if name == "find" and len(args) == 1:
                return find(o, args[0])
            if name in ("startswith",):
                return SymStr([o]).startswith(args[0])
            if name in ("endswith",):
                return SymStr([o]).endswith(args[0])
            args = tuple(a.concrete() if isinstance(a, SymStr) else a for a in args)
        return getattr(o, name)(*args, **kw)
    return getattr(o, name)(*args, **kw)


def find(o, s):
    """position of the symbolic string s in the literal o: one path per position"""
    n = len(s)
    for i in builtins.range(0, len(o) - n + 1):
        if s == o[i:i + n]:
            return i
    return -1


def str_format(o, args, kw):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported("format field %r" % field)
        out.append(fmt_spec(v, spec) if is_sym(v) else format(v, spec or ""))
    return concat(out)


# ---- containers ----------------------------------------------------------
def contains(x, c):
    if not symbolic():
        return x in c
    if isinstance(c, str) and isinstance(x, SymStr):
        return or_([x == c[i:i + len(x)] for i in builtins.range(0, len(c) - len(x) + 1)])
    if isinstance(c, SymStr):
        return c.__contains__(x)
    if isinstance(c, GhostDict):
        return c.__contains__(x)
    if isinstance(c, dict):
        if is_sym(x):
            return or_([x == k for k in c if comparable(x, k)])
        return x in c
    if isinstance(c, (list, tuple, set, frozenset)):
        if is_sym(x) or any(is_sym(k) for k in c):
            return or_([x == k for k in c if comparable(x, k)])
        return x in c
    return x in c


def comparable(x, k):
    if isinstance(x, SymStr) or isinstance(k, SymStr):
        return isinstance(k, (str, SymStr)) and isinstance(x, (str, SymStr)) and len(k) == len(x)
    return True


def getitem(o, i):
    if is_sym(i) and not isinstance(o, GhostDict):
        if isinstance(o, dict):
            for k in o:
                if comparable(i, k) and (i == k):
                    return o[k]
            raise KeyError(i)
        if isinstance(o, (list, tuple)):
            if isinstance(i, SymBool):
                i = ite(i, 1, 0)
            if not isinstance(i, SymInt):
                raise TypeError("list indices must be integers")
            n = len(o)
            if n and all(isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SymInt) for v in o):
                if not and_(i >= -n, i < n):
                    raise IndexError("list index out of range")
                neg = False
                if cur().feasible(i.e < 0):
                    i = ite(i < 0, i + n, i)
                    if not is_sym(i):
                        return o[i]
                e = zint(o[n - 1])
                for k in builtins.range(n - 2, -1, -1):
                    e = z3.If(i.e == k, zint(o[k]), e)
                return wrap_int(z3.simplify(e))
            return o[i.__index__()]
        if isinstance(o, str):
            return o[i.__index__()]
    return o[i]


# ---- builtins ------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SymInt, SymBool))


class b_int(metaclass=_IntMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return ite(x, 1, 0)
            if isinstance(x, SymFloat):
                return x.trunc()
            if isinstance(x, SymStr):
                return x.to_int()
        elif a and isinstance(a[0], SymStr):
            return builtins.int(a[0].concrete(), *a[1:], **k)
        return builtins.int(*a, **k)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.str, SymStr))

    def __getattr__(cls, n):
        return getattr(builtins.str, n)


class b_str(metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            return to_str(a[0])
        return builtins.str(*a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SymFloat))


class b_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            if isinstance(x, SymStr):
                return builtins.float(x.concrete())
            return SymFloat.of(x)
        return builtins.float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SymBool))


class b_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return builtins.bool(x)


_UNSHADOW = {}


def b_isinstance(o, t):
    if isinstance(t, tuple):
        return any(b_isinstance(o, x) for x in t)
    return builtins.isinstance(o, t)


def b_len(x):
    return builtins.len(x)


def b_abs(x):
    if isinstance(x, SymBool):
        return ite(x, 1, 0)
    return builtins.abs(x)


def b_range(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        a = [x.__index__() if is_sym(x) else x for x in a]
    return builtins.range(*a)


def range3(*a):
    if len(a) == 1:
        return (0, a[0], 1)
    if len(a) == 2:
        return (a[0], a[1], 1)
    return tuple(a)


def _minmax(f, less, a, k):
    if k:
        return f(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs or not any(is_sym(x) for x in xs) or any(isinstance(x, (SymStr, SymFloat, float)) for x in xs):
        return f(xs) if len(a) == 1 else f(*a)
    r = xs[0]
    for x in xs[1:]:
        r = ite(less(x, r), x, r)
    return r


def b_min(*a, **k):
    return _minmax(builtins.min, lambda x, y: x < y, a, k)


def b_max(*a, **k):
    return _minmax(builtins.max, lambda x, y: x > y, a, k)


def b_round(x, n=None):
    if isinstance(x, SymFloat):
        if n is not None:
            raise Unsupported("round to digits")
        return x.round_int()
    if isinstance(x, (SymInt, SymBool)):
        return x
    return builtins.round(x) if n is None else builtins.round(x, n)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def b_sorted(xs, **k):
    return builtins.sorted(xs, **k)


def b_divmod(a, b):
    return a // b, mod(a, b)


def b_print(*a, **k):
    return None


def b_repr(x):
    return builtins.repr(x)


def b_hash(x):
    return builtins.hash(x)


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True


# ---- loops ---------------------------------------------------------------
def tick(key):
    if symbolic():
        cur().tick(key)


def _uncut(p, adds, loc):
    """the loop adds to lists from before it, which the unit's loop contract does not speak of"""
    return not p.loops.lists and any(n in loc for n in adds)


def is_cut(key, names, adds, loc):
    if not symbolic():
        return False
    p = cur()
    if p.loops is None or _uncut(p, adds, loc):
        return False
    return any(is_sym(loc.get(n)) for n in names)


def is_cut_range(key, r, adds, loc):
    if not symbolic():
        return False
    p = cur()
    if p.loops is None or _uncut(p, adds, loc):
        return False
    if not (is_sym(r[0]) or is_sym(r[1])) or is_sym(r[2]) or r[2] < 1:
        return False
    # a range that is short whatever its bounds is unrolled completely
    lo, hi = p.interval(r[1] - r[0])
    return hi is None or hi > 40


def havoc(key, stored, loc):
    return cur().loop_havoc(key, stored, loc)


def head(key, loc):
    return cur().loop_head(key, loc)


# ---- shims ---------------------------------------------------------------
class GhostLock:
    """threading.Lock with its state as a ghost variable of the path"""

    def __init__(self):
        self.held = False
        self.acquisitions = 0
        self.releases = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            raise DeadLock("acquire of a lock that is already held")
        self.held = True
        self.acquisitions += 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.releases += 1

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class DeadLock(Exception):
    pass


class GhostRLock(GhostLock):
    """threading.RLock: the same thread may take it again"""

    def __init__(self):
        GhostLock.__init__(self)
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        self.depth = self.depth + 1 if self.held else 1
        self.held = True
        self.acquisitions += 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        self.held = self.depth > 0
        self.releases += 1

    __enter__ = acquire


class _Threading:
    Lock = GhostLock
    RLock = GhostRLock

    def __getattr__(self, n):
        return getattr(_threading, n)


class _Now:
    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        return getattr(self._r, n)


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _datetime.datetime)

    def __getattr__(cls, n):
        return getattr(_datetime.datetime, n)


class DT(metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return _datetime.datetime(*a, **k)

    @staticmethod
    def now(tz=None):
        if symbolic() and cur().now is not None:
            return cur().now
        return _datetime.datetime.now(tz)


_threading_shim = _Threading()


def shim(mod_, name):
    if mod_ == "threading":
        return _threading_shim if name is None else getattr(_threading_shim, name)
    if mod_ == "datetime":
        if name is None:
            class M:
                datetime = DT

                def __getattr__(self, n):
                    return getattr(_datetime, n)
            return M()
        return DT if name == "datetime" else getattr(_datetime, name)
    if mod_ == "functools":
        if name is None:
            class F:
                lru_cache = staticmethod(lru_cache)
                cache = staticmethod(cache)

                def __getattr__(self, n):
                    return getattr(_functools, n)
            return F()
        return {"lru_cache": lru_cache, "cache": cache}.get(name) or getattr(_functools, name)
    raise ImportError(mod_)


# ---- caches --------------------------------------------------------------
class Cached:
    """functools.lru_cache: one result for each arguments, found by equality; emptied at the start of every path
    (what does not fit is not thrown out: a result is asked for once)"""
    all = []

    def __init__(self, f):
        _functools.update_wrapper(self, f)
        self.f = f
        self.rows = []
        Cached.all.append(self)

    def __call__(self, *a, **k):
        if not symbolic():
            return self.f(*a, **k)
        for b, l, r in self.rows:
            if len(a) == len(b) and set(k) == set(l) and builtins.all(x is y or x == y for x, y in zip(a, b)) and \
                    builtins.all(k[n] is l[n] or k[n] == l[n] for n in k):
                return r
        r = self.f(*a, **k)
        self.rows.append((a, k, r))
        return r

    def __get__(self, o, t=None):
        return self if o is None else _functools.partial(self, o)

    def cache_clear(self):
        self.rows = []

    def cache_info(self):
        raise sym.Unsupported("cache_info")


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Cached(maxsize)
    return Cached


def cache(f):
    return Cached(f)


class GhostDict(dict):
    """a dictionary that is empty when the library is imported (a cache, say): keys may be terms, found by equality;
    emptied at the start of every path"""
    all = []

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.rows = []
        if len(GhostDict.all) < 1000:
            GhostDict.all.append(self)
        self.update(*a, **k)

    def _at(self, k):
        for i, (x, _) in enumerate(self.rows):
            if x is k or type(x) is type(k) and isinstance(x, tuple) and len(x) == len(k) and builtins.all(
                    u is v or comparable(u, v) and bool(u == v) for u, v in zip(x, k)):
                return i
            if not isinstance(x, tuple) and not isinstance(k, tuple) and comparable(k, x) and bool(x == k):
                return i
        return -1

    def __getitem__(self, k):
        i = self._at(k)
        if i < 0:
            raise KeyError(k)
        return self.rows[i][1]

    def get(self, k, default=None):
        i = self._at(k)
        return default if i < 0 else self.rows[i][1]

    def __contains__(self, k):
        return self._at(k) >= 0

    def __setitem__(self, k, v):
        i = self._at(k)
        if i < 0:
            self.rows.append((k, v))
        else:
            self.rows[i] = (self.rows[i][0], v)

    def __delitem__(self, k):
        i = self._at(k)
        if i < 0:
            raise KeyError(k)
        del self.rows[i]

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def pop(self, k, *d):
        i = self._at(k)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(k)
        return self.rows.pop(i)[1]

    def popitem(self):
        if not self.rows:
            raise KeyError("popitem(): dictionary is empty")
        return self.rows.pop()

    def clear(self):
        self.rows = []

    def keys(self):
        return [k for k, _ in self.rows]

    def values(self):
        return [v for _, v in self.rows]

    def items(self):
        return list(self.rows)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.rows)

    def __bool__(self):
        return bool(self.rows)

    def update(self, *a, **k):
        for x, v in list(dict(*a, **k).items()) if not (a and isinstance(a[0], GhostDict)) else a[0].items():
            self[x] = v

    def copy(self):
        d = GhostDict()
        d.rows = list(self.rows)
        return d

    def __eq__(self, o):
        return isinstance(o, GhostDict) and self.rows == o.rows
    __hash__ = None
