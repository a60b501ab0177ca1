"""Symbolic real / boolean terms the real code is executed on.

R  -- real-valued term (hash-consed DAG).  Overloads Python arithmetic and the
      methods numpy's object loops call (sqrt, sin, arctan2, ...).
B  -- boolean term; truth-testing one asks the running path explorer.
"""
from fractions import Fraction
import math
import numpy as np
import numbers

_ids = [0]
_table = {}


class Unsupported(Exception):
    """The executed code did something the executor has no semantics for."""


class _Node(object):
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __hash__(self):
        return self.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(cls, op, args):
    key = (cls, op, args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(cls)
        n.op, n.args = op, args
        _ids[0] += 1
        n.id = _ids[0]
        _table[key] = n
    return n


def reset_table():
    _table.clear()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite float in symbolic arithmetic: %r' % x)
        return Fraction(x)
    raise TypeError(type(x))


def _each(a, f):
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = a[ix]
        out[ix] = f(v if isinstance(v, (_Node, np.ndarray)) else lift(v))
    return out if a.ndim else out.item()


class R(_Node):
    __slots__ = ()
    __array_priority__ = 1000.

    # ---- constructors
    @staticmethod
    def const(x):
        return _mk(R, 'c', (frac(x),))

    @staticmethod
    def var(name):
        return _mk(R, 'v', (name,))

    @property
    def isconst(self):
        return self.op == 'c'

    @property
    def value(self):
        return self.args[0]

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, list):
            return _each(np.array(o, dtype=object), lambda x: self + x)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return add(self, o)

    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x + self)
        return self.__add__(o)

    def __neg__(self):
        return mul(R.const(-1), self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, list):
            return _each(np.array(o, dtype=object), lambda x: self - x)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return add(self, mul(R.const(-1), o))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x - self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return add(o, mul(R.const(-1), self))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mul(self, o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x * self)
        return self.__mul__(o)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, (list, tuple)):    # numpy scalars make an array of it
            o = np.array(o, dtype=object)
        if isinstance(o, np.ndarray):
            return _each(o, lambda x: x / self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return div(o, self)
    __div__, __rdiv__ = __truediv__, __rtruediv__

    def __pow__(self, p):
        if isinstance(p, R):
            if not p.isconst:
                raise Unsupported('symbolic exponent')
            p = p.value
        if isinstance(p, np.ndarray):
            return NotImplemented
        p = frac(p)
        if p.denominator == 2:
            r = sqrt(self)
            return r ** (p * 2) if p != Fraction(1, 2) else r
        if p.denominator != 1:
            raise Unsupported('fractional exponent')
        p = int(p)
        if p < 0:
            return div(R.const(1), self ** (-p))
        if p == 0:
            return R.const(1)
        if p == 1:
            return self
        if self.isconst:
            return R.const(self.value ** p)
        return mul(*([self] * p))

    def __abs__(self):
        if self.isconst:
            return R.const(abs(self.value))
        return ite(ge(self, R.const(0)), self, -self)

    # ---- comparison
    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else lt(self, o)

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else le(self, o)

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else lt(o, self)

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else le(o, self)

    def __eq__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else eq(self, o)

    def __ne__(self, o):
        o = lift(o)
        return NotImplemented if o is NotImplemented else bnot(eq(self, o))

    __hash__ = _Node.__hash__

    def __bool__(self):
        if self.isconst:
            return self.value != 0
        return bool(bnot(eq(self, R.const(0))))
    __nonzero__ = __bool__

    # ---- conversions
    def __float__(self):
        if self.isconst:
            return float(self.value)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return ctx().concrete_int(self, 'trunc')

    def __index__(self):
        return ctx().concrete_int(self, 'exact')

    def __floor__(self):
        return ctx().concrete_int(self, 'floor')

    def __ceil__(self):
        return -ctx().concrete_int(-self, 'floor')

    def __trunc__(self):
        return ctx().concrete_int(self, 'trunc')

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.isconst:
            q = ctx().concrete_int(self / o, 'floor')
            return self - q * o
        q = ctx().concrete_int(self / o, 'floor')
        return self - q * o

    def __rmod__(self, o):
        return lift(o) % self

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return R.const(ctx().concrete_int(self / o, 'floor'))

    def __round__(self, n=None):
        if self.isconst:
            return R.const(round(self.value, n)) if n is not None else round(self.value)
        if n is None:
            return ctx().concrete_int(self, 'round')
        return rounded(self, n)

    def round(self, decimals=0, out=None):
        if self.isconst:
            return R.const(round(self.value, decimals))
        if decimals == 0:
            return R.const(ctx().concrete_int(self, 'round'))
        return rounded(self, decimals)

    def rint(self):
        return R.const(ctx().concrete_int(self, 'round'))

    def floor(self):
        return R.const(ctx().concrete_int(self, 'floor'))

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R.const(0)

    @property
    def T(self):
        return self

    # ---- functions numpy's object loops look up
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return fun('sin', self)

    def cos(self):
        return fun('cos', self)

    def tan(self):
        e = None if self.isconst else angle(self)
        return div(e[1], e[0]) if e is not None else div(fun('sin', self), fun('cos', self))

    def arctan2(self, o):
        o = lift(o)
        return fun('atan2', self, o)

    def arctan(self):
        return fun('atan', self)

    def arccos(self):
        return fun('acos', self)

    def arcsin(self):
        return fun('asin', self)

    def exp(self):
        return fun('exp', self)

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def ceil(self):
        return R.const(self.__ceil__())

    def trunc(self):
        return R.const(self.__trunc__())

    def hypot(self, o):
        return sqrt(self * self + lift(o) * lift(o))

    def deg2rad(self):
        return self * R.const(math.pi / 180.)
    radians = deg2rad

    def rad2deg(self):
        return self * R.const(180. / math.pi)
    degrees = rad2deg

    def __repr__(self):
        return show(self)


class B(_Node):
    __slots__ = ()
    __array_priority__ = 1000.

    def __bool__(self):
        if self.op == 'true':
            return True
        if self.op == 'false':
            return False
        return ctx().branch(self)
    __nonzero__ = __bool__

    def _num(self):
        return ite(self, R.const(1), R.const(0))

    def __and__(self, o):
        return band(self, liftb(o))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, liftb(o))
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def logical_and(self, o):
        return band(self, liftb(o))

    def logical_or(self, o):
        return bor(self, liftb(o))

    def __mul__(self, o):
        if isinstance(o, (B, bool, np.bool_)):
            return band(self, liftb(o))
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._num() * o
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, B):
            o = o._num()
        return self._num() + o
    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return int(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, B) and o is not self:
            return bor(band(self, o), band(bnot(self), bnot(o)))
        return self is o

    def __ne__(self, o):
        return bnot(liftb(self.__eq__(o)))
    __hash__ = _Node.__hash__

    def __repr__(self):
        return show(self)


TRUE = _mk(B, 'true', ())
FALSE = _mk(B, 'false', ())

_ctx = [None]


def ctx():
    if _ctx[0] is None:
        raise Unsupported('branch on a symbolic value outside an exploration')
    return _ctx[0]


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        return x._num()
    if isinstance(x, numbers.Number) or isinstance(x, (np.number, np.bool_)):
        if isinstance(x, complex):
            raise Unsupported('complex')
        f = x
        if isinstance(f, (float, np.floating)) and math.isinf(f):
            return INF if f > 0 else NINF
        return R.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def liftb(x):
    if isinstance(x, B):
        return x
    if isinstance(x, R):
        return bnot(eq(x, R.const(0)))
    return TRUE if x else FALSE


INF = _mk(R, 'inf', ())
NINF = _mk(R, 'ninf', ())


def _chkinf(*args):
    for a in args:
        if a is INF or a is NINF:
            raise Unsupported('infinite value in symbolic arithmetic')


def add(*args):
    _chkinf(*args)
    cst = Fraction(0)
    rest = []
    for a in args:
        if a.op == 'c':
            cst += a.args[0]
        elif a.op == '+':
            for b in a.args:
                if b.op == 'c':
                    cst += b.args[0]
                else:
                    rest.append(b)
        else:
            rest.append(a)
    if not rest:
        return R.const(cst)
    if cst != 0:
        rest.append(R.const(cst))
    if len(rest) == 1:
        return rest[0]
    if len(rest) == 2:
        # x + (-1*x) -> 0
        a, b = rest
        if b.op == '*' and len(b.args) == 2 and b.args[0].op == 'c' and b.args[0].args[0] == -1 and b.args[1] is a:
            return R.const(0)
        if a.op == '*' and len(a.args) == 2 and a.args[0].op == 'c' and a.args[0].args[0] == -1 and a.args[1] is b:
            return R.const(0)
    return _mk(R, '+', tuple(rest))


def mul(*args):
    _chkinf(*args)
    cst = Fraction(1)
    rest = []
    for a in args:
        if a.op == 'c':
            cst *= a.args[0]
        elif a.op == '*':
            for b in a.args:
                if b.op == 'c':
                    cst *= b.args[0]
                else:
                    rest.append(b)
        else:
            rest.append(a)
    if cst == 0:
        return R.const(0)
    if not rest:
        return R.const(cst)
    if cst == 1 and len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda n: n.id)
    if cst != 1:
        rest = [R.const(cst)] + rest
    return _mk(R, '*', tuple(rest))


def div(a, b):
    _chkinf(a, b)
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError('symbolic division by zero')
        return mul(R.const(1 / b.args[0]), a)
    if a.op == 'c' and a.args[0] == 0:
        return a
    if a is b:
        return R.const(1)
    return _mk(R, '/', (a, b))


def sqrt(a):
    a = lift(a)
    if a.isconst:
        v = a.value
        n, d = v.numerator, v.denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return R.const(Fraction(rn, rd))
            return R.const(math.sqrt(float(v)))
        return _mk(R, 'sqrt', (a,))
    return _mk(R, 'sqrt', (a,))


def fun(name, *args):
    args = tuple(lift(a) for a in args)
    if all(a.isconst for a in args):
        f = {'sin': math.sin, 'cos': math.cos, 'atan2': math.atan2, 'atan': math.atan, 'acos': math.acos,
             'asin': math.asin, 'exp': math.exp}[name]
        return R.const(f(*[float(a.value) for a in args]))
    if name in ('sin', 'cos'):
        e = angle(args[0])
        if e is not None:
            c, s, h = e
            return (s if name == 'sin' else c) / h
    return _mk(R, 'f', (name,) + args)


def angle(a):
    """(c, s, h) with cos(a) = c/h and sin(a) = s/h, if a is a sum of integer multiples of arctangents (and other terms); else None"""
    c, s, h = R.const(1), R.const(0), R.const(1)
    hit, rest = False, []
    for t in (a.args if a.op == '+' else (a,)):
        k = Fraction(1)
        f = t
        if t.op == '*' and t.args[0].op == 'c' and len(t.args) == 2:
            k, f = t.args[0].args[0], t.args[1]
        if f.op == 'f' and f.args[0] in ('atan2', 'atan') and k.denominator == 1:
            y, x = (f.args[1], f.args[2]) if f.args[0] == 'atan2' else (f.args[1], R.const(1))
            if k < 0:
                y, k = -y, -k
            hit = True
            n2 = x * x + y * y
            for _ in range(int(k)):
                c, s = c * x - s * y, c * y + s * x
            h = h * n2 ** int(k // 2)
            if k % 2:
                h = h * sqrt(n2)
        else:
            rest.append(t)
    if not hit:
        return None
    if rest:
        r = add(*rest)
        cr, sr = _mk(R, 'f', ('cos', r)) if not r.isconst else fun('cos', r), _mk(R, 'f', ('sin', r)) if not r.isconst else fun('sin', r)
        c, s = c * cr - s * sr, c * sr + s * cr
    return c, s, h


def rounded(x, n):
    return _mk(R, 'round', (x, n))


def ite(c, a, b):
    c = liftb(c)
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk(R, 'ite', (c, a, b))


def _cst2(a, b):
    return a.op == 'c' and b.op == 'c'


def _infcmp(a, b):
    """sign of a-b when one is infinite, else None"""
    if a is INF:
        return 0 if b is INF else 1
    if a is NINF:
        return 0 if b is NINF else -1
    if b is INF:
        return -1
    if b is NINF:
        return 1
    return None


def lt(a, b):
    s = _infcmp(a, b)
    if s is not None:
        return TRUE if s < 0 else FALSE
    if _cst2(a, b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    r = _cmpdiv(a, b, lt)
    return _mk(B, '<', (a, b)) if r is None else r


def _cmpdiv(a, b, rel):
    """quotient against a constant: cross-multiplied (IEEE answer when the divisor is zero)"""
    if a.op == '/' and b.op == 'c':
        x, y = a.args
        p = mul(b, y)
        return bor(band(lt(R.const(0), y), rel(x, p)), band(lt(y, R.const(0)), rel(p, x)), band(eq(y, R.const(0)), lt(x, R.const(0))))
    if b.op == '/' and a.op == 'c':
        x, y = b.args
        p = mul(a, y)
        return bor(band(lt(R.const(0), y), rel(p, x)), band(lt(y, R.const(0)), rel(x, p)), band(eq(y, R.const(0)), lt(R.const(0), x)))
    return None


def le(a, b):
    s = _infcmp(a, b)
    if s is not None:
        return TRUE if s <= 0 else FALSE
    if _cst2(a, b):
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    r = _cmpdiv(a, b, le)
    return _mk(B, '<=', (a, b)) if r is None else r


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    s = _infcmp(a, b)
    if s is not None:
        return TRUE if s == 0 else FALSE
    if _cst2(a, b):
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk(B, '==', (a, b))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return _mk(B, 'not', (a,))


def band(*args):
    out = []
    for a in args:
        a = liftb(a)
        if a is FALSE:
            return FALSE
        if a is TRUE:
            continue
        if a.op == 'and':
            out.extend(a.args)
        else:
            out.append(a)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk(B, 'and', tuple(out))


def bor(*args):
    out = []
    for a in args:
        a = liftb(a)
        if a is TRUE:
            return TRUE
        if a is FALSE:
            continue
        if a.op == 'or':
            out.extend(a.args)
        else:
            out.append(a)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk(B, 'or', tuple(out))


def implies(a, b):
    return bor(bnot(liftb(a)), b)


def show(n, depth=4):
    if n.op == 'c':
        return '%.6g' % float(n.args[0])
    if n.op == 'v':
        return n.args[0]
    if depth == 0:
        return '...'
    return '(%s %s)' % (n.op, ' '.join(show(a, depth - 1) if isinstance(a, _Node) else str(a) for a in n.args))


# --------------------------------------------------------------------- arrays

def symvec(name, n):
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = R.var('%s[%d]' % (name, i))
    return a


def symarr(name, *shape):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = R.var('%s[%s]' % (name, ','.join(map(str, ix))))
    return a


def oarr(x):
    """list/array of terms -> object array"""
    x = np.asarray(x, dtype=object)
    return x


# ----------------------------------------------------------------- traversal

def topo(roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, _Node) and a.id not in seen:
                stack.append((a, False))
    return out


def evaluate(roots, env):
    """float evaluation; env: name -> number"""
    val = {}
    for n in topo(roots):
        a = n.args
        g = lambda k: val[a[k].id]
        op = n.op
        if op == 'c':
            v = a[0]
        elif op == 'v':
            v = env[a[0]]
        elif op == '+':
            v = sum(val[x.id] for x in a)
        elif op == '*':
            v = 1
            for x in a:
                v = v * val[x.id]
        elif op == '/':
            d = g(1)
            v = g(0) / d if d != 0 else float('nan')
        elif op == 'sqrt':
            v = math.sqrt(max(0., float(g(0))))
        elif op == 'f':
            f = {'sin': math.sin, 'cos': math.cos, 'atan2': math.atan2, 'atan': math.atan,
                 'acos': lambda q: math.acos(max(-1, min(1, q))), 'asin': lambda q: math.asin(max(-1, min(1, q))),
                 'exp': math.exp}[a[0]]
            v = f(*[float(val[x.id]) for x in a[1:]])
        elif op == 'round':
            v = round(g(0), a[1])
        elif op == 'ite':
            v = g(1) if g(0) else g(2)
        elif op == '<':
            v = g(0) < g(1)
        elif op == '<=':
            v = g(0) <= g(1)
        elif op == '==':
            v = g(0) == g(1)
        elif op == 'not':
            v = not g(0)
        elif op == 'and':
            v = all(val[x.id] for x in a)
        elif op == 'or':
            v = any(val[x.id] for x in a)
        elif op == 'true':
            v = True
        elif op == 'false':
            v = False
        elif op == 'inf':
            v = float('inf')
        elif op == 'ninf':
            v = -float('inf')
        else:
            raise Unsupported(op)
        val[n.id] = v
    return [val[r.id] for r in roots]


def substitute(roots, sub):
    """sub: dict node -> node"""
    m = {}
    for n in topo(roots):
        if n in sub:
            m[n.id] = sub[n]
            continue
        a = [m[x.id] if isinstance(x, _Node) else x for x in n.args]
        if all(x is y for x, y in zip(a, n.args)):
            m[n.id] = n
            continue
        op = n.op
        if op == '+':
            v = add(*a)
        elif op == '*':
            v = mul(*a)
        elif op == '/':
            v = div(*a)
        elif op == 'sqrt':
            v = sqrt(a[0])
        elif op == 'f':
            v = fun(a[0], *a[1:])
        elif op == 'ite':
            v = ite(*a)
        elif op == '<':
            v = lt(*a)
        elif op == '<=':
            v = le(*a)
        elif op == '==':
            v = eq(*a)
        elif op == 'not':
            v = bnot(a[0])
        elif op == 'and':
            v = band(*a)
        elif op == 'or':
            v = bor(*a)
        elif op == 'round':
            v = rounded(*a)
        else:
            raise Unsupported(op)
        m[n.id] = v
    return [m[r.id] for r in roots]


def diff(root, dmap):
    """total derivative; dmap: var node -> its derivative node (missing: 0)"""
    d = {}
    zero, one = R.const(0), R.const(1)
    for n in topo([root]):
        op, a = n.op, n.args
        if op == 'c' or isinstance(n, B):
            v = zero
        elif op == 'v':
            v = lift(dmap.get(n, zero))
        elif op == '+':
            v = add(*[d[x.id] for x in a])
        elif op == '*':
            terms = []
            for i, x in enumerate(a):
                if d[x.id] is not zero:
                    terms.append(mul(*([d[x.id]] + [y for j, y in enumerate(a) if j != i])))
            v = add(*terms) if terms else zero
        elif op == '/':
            x, y = a
            v = div(d[x.id], y) - div(mul(x, d[y.id]), mul(y, y)) if d[y.id] is not zero else div(d[x.id], y)
        elif op == 'sqrt':
            v = div(d[a[0].id], 2 * n)
        elif op == 'f':
            f = a[0]
            if f == 'sin':
                v = fun('cos', a[1]) * d[a[1].id]
            elif f == 'cos':
                v = -fun('sin', a[1]) * d[a[1].id]
            elif f == 'atan2':
                y, x = a[1], a[2]
                v = div(d[y.id] * x - y * d[x.id], x * x + y * y)
            elif f == 'atan':
                v = div(d[a[1].id], 1 + a[1] * a[1])
            elif f == 'asin':
                v = div(d[a[1].id], sqrt(1 - a[1] * a[1]))
            elif f == 'acos':
                v = -div(d[a[1].id], sqrt(1 - a[1] * a[1]))
            else:
                raise Unsupported(f)
        elif op == 'ite':
            v = ite(a[0], d[a[1].id], d[a[2].id])
        else:
            raise Unsupported(op)
        d[n.id] = v
    return d[root.id]


# ------------------------------------------------------------------- polynomials

class Poly(object):
    """multivariate polynomial over opaque atoms: {((atom_id, exp), ...): Fraction}"""
    __slots__ = ('t',)
    atoms = {}

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        c = frac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(n):
        Poly.atoms[n.id] = n
        return Poly({((n.id, 1),): Fraction(1)})

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = frac(o)
            return Poly({m: c * o for m, c in self.t.items()} if o else {})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                s = t.get(m, 0) + c1 * c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        return Poly(t)
    __rmul__ = __mul__

    def degree(self, aid):
        return max([e for m in self.t for (a, e) in m if a == aid] or [0])

    def coeffs_in(self, aid):
        """[Poly] coefficients of powers of atom aid"""
        out = {}
        for m, c in self.t.items():
            e = 0
            rest = []
            for (a, k) in m:
                if a == aid:
                    e = k
                else:
                    rest.append((a, k))
            out.setdefault(e, {})[tuple(rest)] = c
        n = max(out) if out else 0
        return [Poly(out.get(k, {})) for k in range(n + 1)]


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def to_poly(root, cache=None):
    cache = {} if cache is None else cache
    for n in topo([root]):
        if n.id in cache or isinstance(n, B):
            continue
        op, a = n.op, n.args
        if op == 'c':
            v = Poly.const(a[0])
        elif op == '+':
            t = {}
            for x in a:
                for m, c in cache[x.id].t.items():
                    s = t.get(m, 0) + c
                    if s:
                        t[m] = s
                    else:
                        t.pop(m, None)
            v = Poly(t)
        elif op == '*':
            v = cache[a[0].id]
            for x in a[1:]:
                v = v * cache[x.id]
        elif op == '/' and cache[a[1].id].t.keys() == {()}:
            v = cache[a[0].id] * (1 / cache[a[1].id].t[()])
        else:
            v = Poly.atom(n)
        cache[n.id] = v
    return cache[root.id]
