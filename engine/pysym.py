"""Symbolic execution of the repository's Python sources.

The real modules are imported from the tree under test and run on symbolic values: numbers are rational functions of the
free reals (exact arithmetic), strings are Z3 string variables. A branch on a symbolic condition asks Z3 which sides are possible; the paths are
explored by running the harness again with the recorded decisions. An assertion is decided by Z3 for every value of the
path. Anything that cannot be followed raises Unsupported: the path counts as undecided.

The same harness runs with concrete floats (class Concrete) to replay a counterexample with the real numpy and scipy.
"""
import ast, json, os, re, sys, time
from fractions import Fraction


class Unsupported(Exception): pass
class Stop(Exception): pass                      # end of an infeasible path
class Violated(Exception): pass

CTX = None


# ------------------------------------------------------------------------------------------------ symbolic context
class Engine:
    def __init__(self, reals, deadline):
        import z3
        from sympy import QQ
        from sympy.polys.fields import field
        self.z3 = z3; self.deadline = deadline
        f = field(",".join(reals), QQ); self.K = f[0]; self.gens = dict(zip(reals, f[1:])); self.names = list(reals)
        self.zv = {n: z3.Real(n) for n in reals}
        self.st = dict(paths=0, pruned=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, solver_max_s=0.0, errors=0, instructions=0, symbolic_fp_ops=0)
        self.asserts = {}; self.reached = {}; self.ee = {}; self.ces = {}; self.functions = set(); self.deadline_hit = False
        self.memo = {}; self.fresh = 0

    # -- one path
    def begin(self, prefix):
        self.prefix = prefix; self.pos = 0; self.path = []; self.todo = []
        self.strs = {}; self.ints = {}; self.choices = {}; self.garbage = {}
    def solve(self, extra, want_model=False):
        z3 = self.z3
        key = (tuple(e.sexpr() for e in self.path), tuple(e.sexpr() for e in extra))
        if not want_model and key in self.memo: return self.memo[key]
        s = z3.Solver(); s.set("timeout", 20000); s.add(*self.path); s.add(*extra)
        t = time.time(); r = s.check(); t = time.time() - t
        self.st["queries"] += 1; self.st["solver_s"] += t; self.st["solver_max_s"] = max(self.st["solver_max_s"], t)
        r = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"; self.st[r] += 1
        if not want_model: self.memo[key] = r
        return (r, s.model() if r == "sat" else None) if want_model else r
    def branch(self, cond):
        """Decides a Z3 condition on this path, forking when both sides are possible."""
        z3 = self.z3
        if time.time() > self.deadline: self.deadline_hit = True; raise Stop()
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            yes, no = self.solve([cond]), self.solve([z3.Not(cond)])
            if yes == "unsat" and no == "unsat": raise Stop()
            if "unknown" in (yes, no): raise Unsupported("the solver does not decide a branch")
            b = yes == "sat"
            if yes == "sat" and no == "sat":
                self.st["forks"] += 1; self.todo.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix[:self.pos] + [b]
        self.pos += 1; self.path.append(cond if b else z3.Not(cond)); return b
    def assume(self, c):
        e = c.z if isinstance(c, SymBool) else c
        if e is True or e is False:
            if not e: raise Stop()
            return
        self.path.append(e)
    def reach(self, label): self.reached[label] = self.reached.get(label, 0) + 1
    def check(self, cond, label):
        z3 = self.z3
        a = self.asserts.setdefault(label, dict(concrete=0, unsat=0, sat=0, unknown=0))
        hints = []
        if isinstance(cond, SymBool): hints, e = cond.hints, cond.z
        else: e = z3.BoolVal(bool(cond))
        if z3.is_true(z3.simplify(e)):
            a["concrete" if not isinstance(cond, SymBool) else "unsat"] += 1
            if isinstance(cond, SymBool): self.st["queries"] += 1; self.st["unsat"] += 1
            return
        m = None
        for h in hints:                                        # prefer clear counterexamples
            r, m = self.solve([z3.Not(e), h], True)
            if r == "sat": break
            m = None
        if m is None: r, m = self.solve([z3.Not(e)], True)
        if r == "unsat": a["unsat"] += 1; return
        if r == "unknown": a["unknown"] += 1; return
        a["sat"] += 1
        if label not in self.ces: self.ces[label] = self.witness(m)
        self.path.append(e)                                    # go on with the values that satisfy it
        if self.solve([]) == "unsat": raise Stop()
    def witness(self, m):
        z3 = self.z3; w = {"reals": {}, "strs": {}, "ints": {}, "choices": dict(self.choices)}
        for n, v in self.zv.items():
            x = m.eval(v, model_completion=True)
            w["reals"][n] = str(Fraction(x.numerator_as_long(), x.denominator_as_long())) if z3.is_rational_value(x) else str(Fraction(float(x.approx(20).as_fraction())))
        for n, v in self.strs.items(): w["strs"][n] = m.eval(v, model_completion=True).as_string()
        for n, v in self.ints.items(): w["ints"][n] = m.eval(v, model_completion=True).as_long()
        return w
    # -- inputs
    def real(self, name): return SymReal(self.gens[name])
    def choice(self, name, n):
        """An arbitrary value of 0..n-1 (Z3 decides, every value is a path)."""
        v = self.z3.Int("choice_" + name)
        self.path.append(v >= 0); self.path.append(v < n)
        r = n - 1
        for i in range(n - 1):
            if self.branch(v == i): r = i; break
        self.choices[name] = r; return r
    def string(self, name):
        v = self.z3.String("s_" + name); self.strs[name] = v; return SymStr._make(v)
    def number(self, name, real):
        v = self.z3.Int("n_" + name); self.ints[name] = v
        return (SymFloat if real else SymInt)._make(v)
    def truth(self, name): return bool(self.choice(name, 2))
    def eq(self, a, b):
        d = lift(a) - lift(b)
        return d._cmp("==")
    def concrete(self): return False
    def fresh_real(self): raise Unsupported("use of a value that scipy leaves undefined")


def zpoly(p, names, zv, z3):
    out = []
    for mon, c in p.terms():
        t = z3.Q(int(c.numerator), int(c.denominator))
        for n, k in zip(names, mon):
            for _ in range(k): t = t * zv[n]
        out.append(t)
    return z3.Sum(out) if out else z3.RealVal(0)


class SymBool:
    def __init__(self, z, hints=()): self.z = z; self.hints = list(hints)
    def __bool__(self): return CTX.branch(self.z)
    def __and__(self, o): return SymBool(CTX.z3.And(self.z, zb(o)), self.hints)
    def __or__(self, o): return SymBool(CTX.z3.Or(self.z, zb(o)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return SymBool(CTX.z3.Not(self.z))
    def any(self, *a, **k): return self
    all = any
def zb(o): return o.z if isinstance(o, SymBool) else CTX.z3.BoolVal(bool(o))


def lift(x):
    if isinstance(x, SymReal): return x
    if hasattr(x, "item") and not isinstance(x, SymReal): x = x.item()
    if isinstance(x, (bool, int)): return SymReal(CTX.K(int(x)))
    if isinstance(x, Fraction): pass
    elif isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("infinite constant")
        x = Fraction(x)
    else: return None
    from sympy import QQ
    return SymReal(CTX.K(QQ(x.numerator, x.denominator)))


class SymReal:
    """An exact rational function of the free reals."""
    __slots__ = ("e",)
    __array_priority__ = 1000
    def __init__(self, e): self.e = e
    def _bin(self, o, f):
        o = lift(o)
        if o is None: return NotImplemented
        CTX.st["symbolic_fp_ops"] += 1
        return SymReal(f(self.e, o.e))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o):
        o = lift(o)
        if o is None: return NotImplemented
        if o._cmp("=="): raise ZeroDivisionError("division by zero")
        return SymReal(self.e / o.e)
    def __rtruediv__(self, o):
        o = lift(o); return NotImplemented if o is None else o / self
    def __neg__(self): return SymReal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __pow__(self, n):
        if not isinstance(n, int): raise Unsupported("power")
        r = lift(1)
        for _ in range(abs(n)): r = r * self
        return r if n >= 0 else 1 / r
    def _const(self):
        n, d = self.e.numer, self.e.denom
        if n.is_ground and d.is_ground: return Fraction(int(self.e.numer.LC.numerator) if n else 0, int(n.LC.denominator) if n else 1) / Fraction(int(d.LC.numerator), int(d.LC.denominator))
        return None
    def _cmp(self, op):
        z3 = CTX.z3; c = self._const()
        if c is not None: return SymBool(z3.BoolVal({"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]))
        n = zpoly(self.e.numer, CTX.names, CTX.zv, z3)
        if op in ("==", "!="):
            big = [z3.Or(n > v, n < -v) for v in (1, z3.Q(1, 100))]
            return SymBool(n == 0, big) if op == "==" else SymBool(n != 0)
        d = zpoly(self.e.denom, CTX.names, CTX.zv, z3)
        v = n if self.e.denom.is_ground and self.e.denom.LC > 0 else n * d
        return SymBool({"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op])
    def _rel(self, o, op):
        o = lift(o)
        return NotImplemented if o is None else (self - o)._cmp(op)
    def __eq__(self, o): r = self._rel(o, "=="); return False if r is NotImplemented else r
    def __ne__(self, o): r = self._rel(o, "!="); return True if r is NotImplemented else r
    def __lt__(self, o): return self._rel(o, "<")
    def __le__(self, o): return self._rel(o, "<=")
    def __gt__(self, o): return self._rel(o, ">")
    def __ge__(self, o): return self._rel(o, ">=")
    def __bool__(self): return bool(self._cmp("!="))
    __hash__ = None
    def __float__(self):
        c = self._const()
        if c is None: raise Unsupported("a symbolic number is converted to a float")
        return float(c)
    def __int__(self): return int(float(self))
    __index__ = None
    def __ceil__(self):
        c = self._const()
        if c is None: raise Unsupported("ceil of a symbolic number")
        return -((-c.numerator) // c.denominator)
    def __format__(self, s): return "<sym>"
    def __repr__(self): return "<%s>" % self.e
    def conjugate(self): return self
    def item(self): return self
    def copy(self): return self


LITERALS = set()          # string constants of the modules under test: the strings a dictionary lookup can hit


class SymStr(str):
    """A string variable. Lookups in dictionaries decide which of the code's literals it equals."""
    @staticmethod
    def _make(z):
        s = str.__new__(SymStr, "\0symbolic"); s.z = z; return s
    def _z(self, o):
        if isinstance(o, SymStr): return o.z
        return CTX.z3.StringVal(str(o)) if isinstance(o, str) else None
    def __eq__(self, o):
        z = self._z(o); return False if z is None else SymBool(self.z == z).__bool__()
    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self):
        for l in sorted(LITERALS):
            if self == l: return hash(l)
        return 7777777
    def __bool__(self): return not (self == "")
    def __str__(self): return self
    def __format__(self, s): return "<string>"
    def __repr__(self): return "<string>"
    def startswith(self, p): return SymBool(CTX.z3.PrefixOf(self._z(p), self.z)).__bool__()
    def endswith(self, p): return SymBool(CTX.z3.SuffixOf(self._z(p), self.z)).__bool__()
    def __contains__(self, p): return SymBool(CTX.z3.Contains(self.z, self._z(p))).__bool__()
    def __add__(self, o): return SymStr._make(CTX.z3.Concat(self.z, self._z(o)))
    def __radd__(self, o): return SymStr._make(CTX.z3.Concat(self._z(o), self.z))
    def __deepcopy__(self, m): return self
def _no(name):
    def f(*a, **k): raise Unsupported("str." + name + " of a symbolic string")
    return f
for _n in dir(str):
    if _n not in SymStr.__dict__ and not (_n.startswith("__") and _n not in ("__len__", "__iter__", "__getitem__", "__lt__", "__le__", "__gt__", "__ge__", "__mod__", "__mul__")): setattr(SymStr, _n, _no(_n))


class _SymNum:
    @classmethod
    def _make(cls, z):
        s = cls.__mro__[2].__new__(cls, 0); s.z = z; return s
    def _c(self, o, f):
        if isinstance(o, _SymNum): o = o.z
        elif isinstance(o, bool) or not isinstance(o, (int, float)): return None
        elif isinstance(o, float):
            if not o.is_integer(): return SymBool(CTX.z3.BoolVal(False)) if f == "eq" else None
            o = int(o)
        return SymBool({"eq": self.z == o, "lt": self.z < o, "le": self.z <= o, "gt": self.z > o, "ge": self.z >= o}[f])
    def __eq__(self, o): r = self._c(o, "eq"); return False if r is None else bool(r)
    def __ne__(self, o): return not self.__eq__(o)
    def __lt__(self, o): return bool(self._c(o, "lt"))
    def __le__(self, o): return bool(self._c(o, "le"))
    def __gt__(self, o): return bool(self._c(o, "gt"))
    def __ge__(self, o): return bool(self._c(o, "ge"))
    def __bool__(self): return not self.__eq__(0)
    def __hash__(self): return 4242
    def __float__(self): return SymFloat._make(self.z)
    def __int__(self): return SymInt._make(self.z)
    def __format__(self, s): return "<number>"
    def __str__(self): return "<number>"
    __repr__ = __str__
    def __deepcopy__(self, m): return self
class SymFloat(_SymNum, float): pass
class SymInt(_SymNum, int): pass
for _c in (SymFloat, SymInt):
    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__floordiv__", "__rfloordiv__", "__mod__", "__neg__", "__abs__", "__pow__", "__round__", "__index__"): setattr(_c, _n, _no(_n))


# ------------------------------------------------------------------------------------------------ concrete context (replay)
class Concrete:
    def __init__(self, w): self.w = w; self.bad = []
    def real(self, n): return float(Fraction(self.w["reals"][n]))
    def choice(self, n, k): return self.w["choices"].get(n, 0)
    def truth(self, n): return bool(self.choice(n, 2))
    def string(self, n): return self.w["strs"].get(n, "other_" + n)
    def number(self, n, real): v = self.w["ints"].get(n, 1); return float(v) if real else v
    def assume(self, c): pass
    def reach(self, l): pass
    def check(self, c, label):
        if not c: self.bad.append(label)
    def eq(self, a, b): return abs(float(a) - float(b)) <= 1e-8 * max(1.0, abs(float(a)), abs(float(b)))
    def concrete(self): return True


# ------------------------------------------------------------------------------------------------ numpy and scipy stand-ins
def make_numpy():
    import types, numpy as real
    np = types.ModuleType("numpy")
    class Proxy(types.ModuleType):
        def __getattr__(self, n): return getattr(real, n)
    np = Proxy("numpy")
    def obj(a): return real.array(a, dtype=object)
    def lifted(shape, v):
        a = real.empty(shape, dtype=object); a.fill(lift(v)); return a
    np.array = lambda a, dtype=None, **k: obj(a)
    np.asarray = lambda a, dtype=None, **k: a if isinstance(a, real.ndarray) else obj(a)
    np.zeros = lambda s, *a, **k: lifted(s, 0)
    np.ones = lambda s, *a, **k: lifted(s, 1)
    np.empty = lambda s, *a, **k: lifted(s, 0)
    np.full = lambda s, v, *a, **k: lifted(s, v)
    np.zeros_like = lambda x, *a, **k: lifted(real.shape(x), 0)
    np.append = lambda a, b, axis=None: real.concatenate([obj(a).ravel(), obj(b).ravel()])
    np.float64 = np.double = lambda x: x
    def arange(start, stop=None, step=1, dtype=None):
        if stop is None: start, stop = 0, start
        n = (lift(stop) - lift(start)) / lift(step)
        k = 0
        while n > k:                                  # ceil(n), decided on this path
            k += 1
            if k > 64: raise Unsupported("long range")
        return obj([lift(start) + i * lift(step) for i in range(k)] or []) if k else real.empty(0, dtype=object)
    def linspace(a, b, num=50, endpoint=True, **k):
        num = int(num); d = num - 1 if endpoint else num
        return obj([lift(a) + (lift(b) - lift(a)) * Fraction(i, d) if d else lift(a) for i in range(num)]) if num else real.empty(0, dtype=object)
    np.arange, np.linspace = arange, linspace
    np.allclose = lambda a, b, **k: all(bool(x == y) for x, y in zip(real.ravel(obj(a)), real.ravel(obj(b))))
    np.isclose = lambda a, b, **k: lift(a) == lift(b)
    return np, real


def make_scipy(real):
    import types
    sp, si = types.ModuleType("scipy"), types.ModuleType("scipy.interpolate")
    def arr(a): return a if isinstance(a, real.ndarray) and a.dtype == object else real.array([x if isinstance(x, (SymReal, Garbage)) else lift(x) for x in list(a)], dtype=object)
    class Garbage:                                       # what scipy leaves behind the coefficients after inserting a knot
        def _no(self, *a): raise Unsupported("use of a value that scipy leaves undefined")
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __float__ = __lt__ = __gt__ = _no
    class BSpline:
        def __init__(self, t, c, k, extrapolate=True, axis=0):
            self.t, self.c, self.k, self.extrapolate = arr(t), arr(c), int(k), extrapolate
            if self.k < 0: raise ValueError("Spline order cannot be negative.")
            n = len(self.t) - self.k - 1
            if n < self.k + 1: raise ValueError("Need at least %d knots for degree %d" % (2 * k + 2, k))
            for a, b in zip(self.t[:-1], self.t[1:]):
                if b < a: raise ValueError("Knots must be in a non-decreasing order.")
            if len(self.c) < n: raise ValueError("Knots, coefficients and degree are inconsistent.")
        def insert_knot(self, x, m=1):
            s = self
            for _ in range(m): s = insert(x, s)
            s.c = s.c[:len(s.t) - s.k - 1]; return s
    def insert(x, tck, m=1, per=False):
        """Boehm's knot insertion; the coefficient array is as long as the knot vector, with undefined values behind."""
        if m != 1 or per: raise Unsupported("knot insertion with multiplicity")
        t, c, k = tck.t, tck.c, tck.k; n = len(t) - k - 1; x = lift(x)
        if not (t[k] <= x and x <= t[n]): raise ValueError("An error occurred")
        l = max(i for i in range(k, n) if t[i] <= x)
        q = []
        for i in range(n + 1):
            if i <= l - k: q.append(c[i])
            elif i > l: q.append(c[i - 1])
            else:
                a = (x - t[i]) / (t[i + k] - t[i]); q.append(a * c[i] + (1 - a) * c[i - 1])
        T = real.array(list(t[:l + 1]) + [x] + list(t[l + 1:]), dtype=object)
        C = real.empty(len(T), dtype=object)
        for i in range(len(T)): C[i] = q[i] if i < len(q) else Garbage()
        return BSpline(T, C, k, tck.extrapolate)
    si.BSpline, si.insert = BSpline, insert; sp.interpolate = si
    return sp, si


class SymDict(dict):
    """A dictionary whose keys are symbolic strings (compared one by one)."""
    def __init__(self): super().__init__(); self.kv = []
    def put(self, k, v): self.kv.append((k, v))
    def items(self): return list(self.kv)
    def keys(self): return [k for k, _ in self.kv]
    def values(self): return [v for _, v in self.kv]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.kv)
    def __bool__(self): return bool(self.kv)
    def __contains__(self, k): return any(k == x for x, _ in self.kv)
    def __getitem__(self, k):
        for x, v in self.kv:
            if k == x: return v
        raise KeyError(k)
    def get(self, k, d=None): return self[k] if k in self else d
    def _no(self, *a, **k): raise Unsupported("change of the file's dictionary")
    __setitem__ = __delitem__ = pop = popitem = update = setdefault = clear = copy = _no


# ------------------------------------------------------------------------------------------------ driver
def literals(path):
    """Short string constants of a source file."""
    out = set()
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{0,40}", n.value): out.add(n.value)
    return out


def explore(reals, deadline, harness, repo, track):
    """Runs harness(ctx) on every path. track: directory whose functions are listed as encoded."""
    global CTX
    eng = CTX = Engine(reals, deadline)
    def prof(frame, event, arg):
        if event == "call":
            eng.st["instructions"] += 1
            f = frame.f_code.co_filename
            if f.startswith(track): eng.functions.add(os.path.relpath(f, repo) + ":" + frame.f_code.co_name)
    stack = [[]]
    while stack:
        if time.time() > deadline: eng.deadline_hit = True; break
        eng.begin(stack.pop())
        if eng.st["paths"] < 40: sys.setprofile(prof)      # the functions that are encoded
        try: harness(eng); eng.st["paths"] += 1
        except Stop: eng.st["pruned"] += 1
        except Unsupported as e: eng.st["errors"] += 1; eng.ee[str(e)] = eng.ee.get(str(e), 0) + 1
        except Violated: eng.st["paths"] += 1
        finally: sys.setprofile(None)
        stack += eng.todo
    return eng


def finish(eng, out, t0, confirm):
    for i, (label, w) in enumerate(eng.ces.items()):
        ok, log = confirm(label, w)
        open(out + ".ce%d" % i, "w").write("label %s\nconfirmed %s\nwitness %s\n%s\n" % (label, "yes" if ok else "no", json.dumps(w), log))
    json.dump({**eng.st, "asserts": eng.asserts, "reach": eng.reached, "engine_errors": eng.ee, "deadline_hit": eng.deadline_hit, "functions": sorted(eng.functions), "wall_s": round(time.time() - t0, 2)}, open(out + ".json", "w"))
