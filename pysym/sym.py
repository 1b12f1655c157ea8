"""Symbolic execution of Python code: numbers are z3 terms, every branch on one is decided by the
solver, and the code is executed again from the start for each feasible sequence of decisions."""
import fractions, math, time, z3, z3.z3util

class Failed(BaseException):
    def __init__(self, id): self.id = id
class Assumed(BaseException): pass
class Stop(BaseException): pass

class World:
    """Symbolic: decisions are made by the solver. Native (vals given): numbers and choices are read from vals."""
    def __init__(self, prefix=(), vals=None):
        self.prefix, self.taken, self.open = list(prefix), [], []
        self.vals, self.at, self.inputs = vals, 0, []
        self.native = vals is not None
        self.solver = z3.Solver(); self.solver.set('timeout', 20000)
        self.queries = self.sat = self.unsat = self.asserts = 0; self.time = 0.0; self.slowest = 0.0
        self.tokens = []; self.fresh = 0; self.shares = {}; self.logs = []; self.obs = []; self.covers = set(); self.notes = []; self.unknown = 0
    # -------------------------------------------------- inputs
    def value(self, lo, hi):
        if self.native:
            v = self.vals[self.at]; self.at += 1
            if not lo <= v <= hi: raise Assumed
            return v
        x = z3.Int('v%d' % len(self.inputs)); self.inputs.append(x)
        self.solver.add(x >= lo, x <= hi); return Num(x)
    def choose(self, n):
        x = self.value(0, n - 1)
        if self.native: return x
        lo = 0
        while n - lo > 1:
            mid = (lo + n) // 2
            if x < mid: n = mid
            else: lo = mid
        return lo
    # -------------------------------------------------- decisions
    def check(self, c):
        t = time.time(); self.queries += 1
        self.solver.push(); self.solver.add(c); r = self.solver.check(); m = self.solver.model() if r == z3.sat else None; self.solver.pop()
        d = time.time() - t; self.time += d; self.slowest = max(self.slowest, d)
        if r == z3.sat: self.sat += 1
        elif r == z3.unsat: self.unsat += 1
        else: self.unknown += 1; raise Stop('the solver gives no answer')
        return m
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.taken)
        if k < len(self.prefix): d = self.prefix[k]
        else:
            yes = self.check(c) is not None
            no = self.check(z3.Not(c)) is not None if yes else True
            d = yes
            if yes and no: self.open.append(self.taken + [False])
        self.taken.append(d); self.solver.add(c if d else z3.Not(c)); return d
    def fix(self, t, tries=3):
        """A value of the term; the other values are other paths, of which only a few are followed."""
        t = z3.simplify(t)
        if const(t): return t.as_long() if z3.is_int(t) else t.as_fraction()
        while True:
            k = len(self.taken)
            if k < len(self.prefix): v, d = self.prefix[k]
            else:
                if tries == 0: raise Stop('an unknown number is used where its value matters')
                v = self.check(z3.BoolVal(True)).eval(t, model_completion=True); d = True
                v = v.as_long() if z3.is_int(t) else v.as_fraction()
                if self.check(t != lift(v)) is not None: self.open.append(self.taken + [(v, False)])
            self.taken.append((v, d)); self.solver.add(t == lift(v) if d else t != lift(v)); tries -= 1
            if d: return v
    def require(self, c, id):
        """The property: c holds for all values on this path."""
        if not isinstance(c, Truth):
            if not c: raise Failed(id)
            return
        self.asserts += 1
        if self.check(z3.Not(c.t)) is not None:
            self.solver.add(z3.Not(c.t)); raise Failed(id)
        self.solver.add(c.t)
    def model(self):
        t = time.time(); self.queries += 1; r = self.solver.check(); self.time += time.time() - t
        if r != z3.sat: return None
        self.sat += 1; m = self.solver.model()
        return [m.eval(x, model_completion=True).as_long() for x in self.inputs]

W = None
def world(w):
    global W
    W = w

def lift(v): return z3.RealVal(str(v)) if isinstance(v, fractions.Fraction) else z3.IntVal(v)
def value(x):
    """A plain number for it."""
    if not isinstance(x, Num): return x
    v = W.fix(x.t); return float(v) if isinstance(v, fractions.Fraction) else v
def term(x):
    if isinstance(x, Num): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float): return z3.RealVal(str(fractions.Fraction(repr(x))))
    return None
class Truth:
    def __init__(self, t): self.t = t
    def __bool__(self): return W.decide(self.t)
    def __and__(self, o): return Truth(z3.And(self.t, o.t if isinstance(o, Truth) else bool(o)))
    def __or__(self, o): return Truth(z3.Or(self.t, o.t if isinstance(o, Truth) else bool(o)))
    def __invert__(self): return Truth(z3.Not(self.t))
    __rand__, __ror__ = __and__, __or__
def _bin(f):
    def g(self, o):
        t = term(o)
        return NotImplemented if t is None else Num(f(self.t, t))
    def r(self, o):
        t = term(o)
        return NotImplemented if t is None else Num(f(t, self.t))
    return g, r
def _cmp(f):
    def g(self, o):
        t = term(o)
        return NotImplemented if t is None else Truth(f(self.t, t))
    return g
def real(t): return z3.ToReal(t) if z3.is_int(t) else t
def const(t): return z3.is_int_value(t) or z3.is_rational_value(t)
def vague(t):
    """Does it depend on a logarithm?"""
    return z3.is_real(t) and any(str(v).startswith(('log', 'sgn')) for v in z3.z3util.get_vars(t))
def signed(a, b, divide=False):
    """A product or quotient of which only the sign is known."""
    r = z3.Real('sgn%d' % W.fresh); W.fresh += 1
    W.solver.add((r > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), (r == 0) == z3.Or(a == 0, b == 0))
    if divide and const(a): W.shares[str(r)] = (a, b)
    elif not divide:
        # (a / x) * y is known next to a
        for q, y in ((a, b), (b, a)):
            if str(q) in W.shares:
                n, x = W.shares[str(q)]
                W.solver.add(z3.Implies(z3.And(n > 0, x < 0, y < 0), z3.And((r < n) == (y > x), (r == n) == (y == x))), z3.Implies(z3.And(n > 0, x > 0, y > 0), z3.And((r < n) == (y < x), (r == n) == (y == x))))
    return r
class Num:
    """A number: an integer term or a real term (in place of a float)."""
    parts = None
    def __init__(self, t): self.t = t
    __add__, __radd__ = _bin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b)
    __mul__, __rmul__ = _bin(lambda a, b: signed(a, b) if vague(a) and not const(b) or vague(b) and not const(a) else a * b)
    def _div(a, b):
        if Truth(b.t == 0): raise ZeroDivisionError('division by zero')
        if vague(b.t) or vague(a.t) and not const(b.t): return Num(signed(a.t, b.t, True))
        r = Num(real(a.t) / real(b.t)); r.parts = (a.t, b.t); return r
    def __truediv__(self, o):
        t = term(o); return NotImplemented if t is None else Num._div(self, Num(t))
    def __rtruediv__(self, o):
        t = term(o); return NotImplemented if t is None else Num._div(Num(t), self)
    def _floor(a, b):
        if Truth(b.t == 0): raise ZeroDivisionError('division by zero')
        if z3.is_int(a.t) and z3.is_int(b.t): return Num(z3.If(b.t > 0, a.t / b.t, (-a.t) / (-b.t)))
        return Num(real(z3.ToInt(real(a.t) / real(b.t))))
    def __floordiv__(self, o):
        t = term(o); return NotImplemented if t is None else Num._floor(self, Num(t))
    def __rfloordiv__(self, o):
        t = term(o); return NotImplemented if t is None else Num._floor(Num(t), self)
    def __mod__(self, o):
        t = term(o); return NotImplemented if t is None else self - Num._floor(self, Num(t)) * Num(t)
    def __neg__(self): return Num(-self.t)
    def __pos__(self): return self
    def __abs__(self): return Num(z3.If(self.t < 0, -self.t, self.t))
    __lt__, __le__, __gt__, __ge__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b), _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    def __eq__(self, o):
        t = term(o); return False if t is None else Truth(self.t == t)
    def __ne__(self, o):
        t = term(o); return True if t is None else Truth(self.t != t)
    def __bool__(self): return W.decide(self.t != 0)
    def __hash__(self): return hash(value(self))
    def __index__(self): return value(self).__index__()
    def __int__(self): return int(value(trunc(self)))
    def __float__(self): return float(value(self))
    def bit_length(self):
        a = z3.If(self.t < 0, -self.t, self.t); return Num(z3.Sum([z3.If(a >= 2 ** k, 1, 0) for k in range(48)]))
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = Num(z3.IntVal(1))
            for _ in range(o): r = r * self
            return r
        return value(self) ** value(o)
    def __rpow__(self, o): return o ** value(self)
    def __rshift__(self, o): o = value(o); return Num._floor(self, Num(z3.IntVal(2 ** o)))
    def __lshift__(self, o): o = value(o); return self * 2 ** o
    def __and__(self, o): return value(self).__and__(value(o))
    __rand__ = __and__
    def __or__(self, o): return value(self).__or__(value(o))
    __ror__ = __or__
    def __xor__(self, o): return value(self).__xor__(value(o))
    __rxor__ = __xor__
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(0, n) and not hasattr(0.0, n): raise AttributeError(n)
        return getattr(value(self), n)
    def __str__(self): return token(self)
    __repr__ = __str__
    def __format__(self, spec):
        return format(value(self), spec) if spec and spec != 'd' else token(self)
    def __trunc__(self): return trunc(self)
    def __round__(self, n=None): return round(value(self), n) if n else Num(z3.ToInt(real(self.t) + z3.RealVal('1/2')))
    def __floor__(self): return Num(z3.ToInt(real(self.t)))
    def __ceil__(self): return Num(-z3.ToInt(-real(self.t)))
def trunc(x):
    if z3.is_int(x.t): return x
    return Num(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
BASE = 7000000000000
def token(x):
    W.tokens.append(x); return str(BASE + len(W.tokens) - 1)
def number(s):
    """The number a text stands for (None: none)."""
    try: n = int(s)
    except ValueError: return None
    if BASE <= n < BASE + len(W.tokens): return W.tokens[n - BASE]
    return n
def sym_int(x=0, *a):
    if isinstance(x, Num): return trunc(x)
    if isinstance(x, str) and not a:
        n = number(x)
        if n is None: raise ValueError('invalid literal for int(): %r' % x)
        return n
    return int(x, *a)
def sym_float(x=0.0):
    if isinstance(x, Num): return Num(real(x.t))
    if isinstance(x, str):
        n = number(x)
        if isinstance(n, Num): return Num(real(n.t))
    return float(x)
class Math:
    """The module math; logarithms are known by their order and sign only."""
    def __getattr__(self, n):
        f = getattr(math, n)
        return f if not callable(f) else lambda *a: f(*[value(x) for x in a])
    def log(self, x, base=None):
        if not isinstance(x, Num): return math.log(x) if base is None else math.log(x, base)
        if x <= 0: raise ValueError('math domain error')
        a, b = x.parts or (x.t, z3.IntVal(1))
        if Truth(b <= 0): raise Stop('logarithm of a fraction of negative numbers')
        l = z3.Real('log%d' % len(W.logs))
        W.solver.add((l < 0) == (a < b), (l == 0) == (a == b))
        # two logarithms are compared where their arguments have the same denominator
        for a2, b2, l2 in W.logs:
            if b.eq(b2): W.solver.add((l < l2) == (a < a2), (l == l2) == (a == a2))
        W.logs.append((a, b, l)); return Num(l)
    def log2(self, x): return self.log(x) if isinstance(x, Num) else math.log2(x)
    def log10(self, x): return self.log(x) if isinstance(x, Num) else math.log10(x)
    def floor(self, x): return x.__floor__() if isinstance(x, Num) else math.floor(x)
    def ceil(self, x): return x.__ceil__() if isinstance(x, Num) else math.ceil(x)
