"""Harnesses over the repository's Python sources (queso/python), see engine/pysym.py.
  h_py.py --out F --repo R --mode bspline|maps|json|front ...       symbolic run
  h_py.py --replay W.json --repo R --mode ...                       one concrete run with the real numpy and scipy
"""
import argparse, builtins, importlib, io, json, os, subprocess, sys, time, types
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "engine"))
import pysym
from pysym import Stop

AX = "xyz"


class Settings:
    """Stands for the settings object of the C++ core: returns what was stored."""
    def __init__(self, v): self.v = v
    def __getitem__(self, k): return self.v[k]
    def _get(self, k): return self.v[k]
    GetIntVector = GetDoubleVector = GetDouble = GetInt = GetString = GetBool = GetIntegrationMethod = GetGridType = _get
    def IsSet(self, k): return k in self.v


class Token:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
class Enum:
    """An enumeration of the core with the names that are exported to Python."""
    def __init__(self, name, values): self._t = {v: Token(name + "." + v) for v in values}
    def __getattr__(self, k):
        try: return self.__dict__["_t"][k]
        except KeyError: raise AttributeError(k)
METHODS = ["Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"]
GRIDS = ["b_spline_grid", "hexahedral_fe_grid"]


def core_stub():
    q = types.ModuleType("QuESoPythonModule")
    class D: pass
    q.IntegrationMethod, q.GridType = Enum("IntegrationMethod", METHODS), Enum("GridType", GRIDS)
    class IO: pass
    q.IO = IO
    for n in ("Dictionary", "DictionaryHolder", "DictionaryList", "Element", "Condition", "IntegrationPointVector", "EmbeddedModel", "TriangleMesh"): setattr(q, n, type(n, (), {}))
    return q


def load(repo, symbolic, core):
    """Imports the real modules as the package pyq with stand-ins for the core (and numpy, scipy)."""
    base = os.path.join(repo, "queso", "python")
    sys.modules["QuESoPythonModule"] = core
    if symbolic:
        np, real = pysym.make_numpy(); sys.modules["numpy"] = np
        sp, si = pysym.make_scipy(real); sys.modules["scipy"], sys.modules["scipy.interpolate"] = sp, si
    for name, path in (("pyq", base), ("pyq.scripts", base + "/scripts")):
        m = types.ModuleType(name); m.__path__ = [path]; sys.modules[name] = m
    for name, path in (("QuESoPythonModule.scripts", base + "/scripts"),):
        m = types.ModuleType(name); m.__path__ = [path]; sys.modules[name] = m
    core.__path__ = [base]
    sys.dont_write_bytecode = True
    for f in ("helper", "b_spline_volume", "json_io"):
        pysym.LITERALS |= pysym.literals(os.path.join(base, "scripts", f + ".py"))
    pysym.LITERALS |= pysym.literals(os.path.join(base, "PyQuESo.py"))
    imp = importlib.import_module
    m = types.SimpleNamespace()
    m.helper = imp("pyq.scripts.helper")
    m.bspline = imp("pyq.scripts.b_spline_volume")
    m.json_io = imp("pyq.scripts.json_io")
    m.front = imp("pyq.PyQuESo")
    if symbolic:
        sys.modules["numpy"] = real
    return m


# ---------------------------------------------------------------------------------------------------- G29
def bounds(c):
    lx, ux, lu, uu = ([c.real(p + a) for a in AX] for p in ("L", "U", "l", "u"))
    for a, b in list(zip(lx, ux)) + list(zip(lu, uu)):
        c.assume(a >= -1000); c.assume(b <= 1000); c.assume(b - a >= 0.01)
    return lx, ux, lu, uu


def maps(c, m, a):
    lx, ux, lu, uu = bounds(c)
    p = [c.real("p" + x) for x in AX]
    for v in p: c.assume(v >= -1000); c.assume(v <= 1000)
    to_p, to_g = m.helper.point_from_global_to_param_space, m.helper.point_from_param_to_global_space
    bx, bu = (tuple(lx), tuple(ux)), (tuple(lu), tuple(uu))
    if a.kind == "list": bx, bu = [lx, ux], [lu, uu]
    before = [list(x) for x in (lx, ux, lu, uu)]
    u = to_p(tuple(p), bx, bu); x = to_g(tuple(p), bx, bu)
    c.check(len(u) == 3 and len(x) == 3, "three coordinates")
    for i in range(3):
        s = (uu[i] - lu[i]) / (ux[i] - lx[i])
        c.check(c.eq(u[i], lu[i] + (p[i] - lx[i]) * s), "parametric point is the linear map of the bounds")
        c.check(c.eq(x[i], lx[i] + (p[i] - lu[i]) / s), "global point is the linear map of the bounds")
    back = to_g(u, bx, bu); fro = to_p(x, bx, bu)
    for i in range(3):
        c.check(c.eq(back[i], p[i]), "to parametric space and back"); c.check(c.eq(fro[i], p[i]), "to global space and back")
    for v, w, t, g in ((lx, lu, to_p, to_g), (ux, uu, to_p, to_g)):
        for i, (r, q) in enumerate(zip(t(tuple(v), bx, bu), g(tuple(w), bx, bu))):
            c.check(c.eq(r, w[i]), "corner maps to corner"); c.check(c.eq(q, v[i]), "corner maps back to corner")
    c.check(all(bool(c.eq(s, t)) for x, y in zip(before, (lx, ux, lu, uu)) for s, t in zip(x, y)), "the bounds are not changed")
    c.reach("maps")


def bspline(c, m, a):
    lx, ux, lu, uu = bounds(c)
    d = a.axis
    order, nel = list(a.orders), list(a.elements)
    order[d] = 1 + c.choice("order", a.maxp); nel[d] = 1 + c.choice("elements", a.maxn)
    opened = c.truth("open")
    s = Settings({"background_grid_settings": Settings({"polynomial_order": list(order), "number_of_elements": list(nel),
        "lower_bound_xyz": list(lx), "upper_bound_xyz": list(ux), "lower_bound_uvw": list(lu), "upper_bound_uvw": list(uu)})})
    v = m.bspline.BSplineVolume(s, "open_knot_vector" if opened else "non_open_knot_vector")
    c.check(list(v.PolynomialOrder()) == order, "orders are those of the settings")
    knots = [v.KnotsU(), v.KnotsV(), v.KnotsW()]
    num = [v.NumberControlPointsInU(), v.NumberControlPointsInV(), v.NumberControlPointsInW()]
    cp = []
    for i in range(3):
        p, n = order[i], nel[i]; t = knots[i]; h = (uu[i] - lu[i]) / n
        c.check(num[i] == n + p, "elements plus order control points")
        c.check(len(t) == n + 2 * p + 1, "number of knots")
        if len(t) != n + 2 * p + 1 or num[i] != n + p: raise Stop() if not c.concrete() else pysym.Violated()
        for k in range(n + 2 * p + 1):
            j = k - p
            if opened: j = min(max(j, 0), n)
            c.check(c.eq(t[k], lu[i] + j * h), "knots are the element ends, repeated or continued at the ends")
        sp = v.GetSpline(i)
        c.check(sp.k == p and len(sp.c) == n + p, "degree and coefficients of the spline")
        col = []
        for k in range(n + p):
            js = [min(max(k + q - p, 0), n) if opened else k + q - p for q in range(1, p + 1)]
            g = lu[i] + h * sum(js) / p                            # Greville abscissa: coefficient of the linear function
            col.append(lx[i] + (g - lu[i]) * ((ux[i] - lx[i]) / (uu[i] - lu[i])))
            c.check(c.eq(sp.c[k], col[-1]), "the spline is the linear map from parametric to global space")
        cp.append(col)
    pts, mat = v.ControlPoints(), v.ControlPointsMatrix()
    c.check(len(pts) == num[0] * num[1] * num[2], "number of control points")
    c.check(tuple(mat.shape) == (num[0], num[1], num[2], 3), "shape of the control point matrix")
    q = 0
    for k in range(num[2]):
        for j in range(num[1]):
            for i in range(num[0]):
                e = (cp[0][i], cp[1][j], cp[2][k])
                if len(pts[q]) != 3: c.check(False, "control points are numbered first in u, then v, then w")
                for r in range(3):
                    c.check(c.eq(pts[q][r], e[r]), "control points are numbered first in u, then v, then w")
                    c.check(c.eq(mat[i, j, k][r], e[r]), "the matrix holds the control points by direction")
                q += 1
    bad = 3 + c.choice("bad_index", 2) if c.truth("above") else -1 - c.choice("bad_index", 2)
    try: v.GetSpline(bad); c.check(False, "an invalid direction is refused")
    except Exception as e:
        if isinstance(e, (Stop, pysym.Unsupported)): raise
    c.reach("open" if opened else "uniform")


def kind(c, m, a):
    """Any string as knot vector type."""
    s = Settings({"background_grid_settings": Settings({"polynomial_order": [2, 1, 2], "number_of_elements": [2, 3, 1],
        "lower_bound_xyz": [0.0] * 3, "upper_bound_xyz": [1.0, 2.0, 3.0], "lower_bound_uvw": [0.0] * 3, "upper_bound_uvw": [1.0] * 3})})
    k = c.string("type")
    try: v = m.bspline.BSplineVolume(s, k); ok = True
    except Exception as e:
        if isinstance(e, (Stop, pysym.Unsupported)): raise
        ok = False
    known = k == "open_knot_vector" or k == "non_open_knot_vector"
    c.check(ok == known, "exactly the two knot vector types are accepted")
    if ok:
        t = v.KnotsU()
        c.check(bool(c.eq(t[0], t[1])) == (k == "open_knot_vector"), "the type decides the knot vector")
    c.reach("known" if known else "unknown")


# ---------------------------------------------------------------------------------------------------- G30
class Rec:
    """A settings dictionary of the core that records what is stored; names are a fixed schema."""
    def __init__(self, name, log, path=()): self.name, self.log, self.path = name, log, path; self.subs = []; self.lists = []
    def _find(self, l, k, new):
        for x, v in l:
            if x == k: return v
        l.append((k, new)); return new
    def __getitem__(self, k): return self._find(self.subs, k, Rec(self.name, self.log, self.path + (k,)))
    def GetList(self, k): return self._find(self.lists, k, RecList(self.log, self.path + (k,)))
    def SetValue(self, k, v):
        if self.log["refuse"] is not None and len(self.log["set"]) == self.log["refuse"]: raise RuntimeError("the core refuses the value")
        self.log["set"].append((self, k, v))
    def GetBool(self, k): return self.log["get"][k]
    def GetString(self, k): return self.log["get"][k]
class RecList(list):
    def __init__(self, log, path): super().__init__(); self.log, self.path = log, path
    def append(self, h): super().append(h.o)
class Holder:
    def __init__(self, o): self.o = o
    def GetObject(self): return self.o


def json_core(core, log):
    log.update(set=[], created=[], refuse=None, get={}, written=[])
    def create(name):
        r = Rec(name, log); log["created"].append(r); return Holder(r)
    core.Dictionary.Create = staticmethod(create)
    core.IO.WriteDictionaryToJSON = staticmethod(lambda d, f: log["written"].append((d, f)))


def scalar(c, name):
    """Any JSON scalar: returns (value in the file, what must be stored or None, is it a string)."""
    k = c.choice(name + "_kind", 4)
    if k == 0: return c.string(name), True
    if k == 1: return c.number(name, True), False
    if k == 2: return c.number(name, False), False
    return c.truth(name), False


def same(c, a, b):
    """Identity of stored and expected values, including their types."""
    if isinstance(b, list): return isinstance(a, list) and len(a) == len(b) and all(same(c, x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool): return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(b, str): return isinstance(a, str) and bool(a == b)
    if isinstance(b, float): return isinstance(a, float) and bool(a == b)
    if isinstance(b, int): return isinstance(a, int) and not isinstance(a, float) and bool(a == b)
    return a is b


def entry(c, name, key, depth, want, path, core):
    """A value for key: scalar, list of numbers, or list of dictionaries. Appends what must be stored to want.
    Returns (value, must the reading fail)."""
    k = c.choice(name + "_form", 2 if depth else 3)
    if k == 0:
        v, text = scalar(c, name)
        if text and v == "Not Set.": return v, False
        for kw, vals, en in (("integration_method", METHODS, core.IntegrationMethod), ("grid_type", GRIDS, core.GridType)):
            if key == kw:
                if text:
                    for x in vals:
                        if v == x: want.append((path, key, getattr(en, x))); return v, False
                return v, True
        want.append((path, key, v)); return v, False
    if k == 1:
        n = 1 + c.choice(name + "_len", 3); r = c.truth(name + "_real"); v = [c.number("%s_%d" % (name, i), r) for i in range(n)]
        want.append((path, key, list(v))); return v, False
    n = c.choice(name + "_items", 3); v = []; fail = False
    for i in range(n):
        d = pysym.SymDict(); w = path + ((key, i),)
        for j in range(1 + (ARGS.big and c.choice("%s_%d_n" % (name, i), 2)) if n < 2 else c.choice("%s_%d_n" % (name, i), 2)):
            kk = c.string("%s_%d_k%d" % (name, i, j)); nonempty(c, kk)
            if any(kk == o for o in d): raise Stop()
            if not fail:
                x, fail = entry(c, "%s_%d_%d" % (name, i, j), kk, 1, want, w, core); d.put(kk, x)
        v.append(d)
    want.append((path, key, ("list", n))); return v, fail


def nonempty(c, s):
    if s == "": raise Stop()


def json_read(c, m, a, core, log):
    """Any file of up to two levels: everything it holds is stored, in its place, nothing else."""
    json_core(core, log)
    want, tree, fail = [], pysym.SymDict(), False
    for i in range(a.top):
        k = c.string("k%d" % i); nonempty(c, k)
        if any(k == o for o in tree): raise Stop()
        if a.nested and i == 0:
            sub = pysym.SymDict()
            for j in range(a.inner):
                kk = c.string("k%d_%d" % (i, j)); nonempty(c, kk)
                if any(kk == o for o in sub): raise Stop()
                if not fail: x, fail = entry(c, "e%d_%d" % (i, j), kk, a.depth, want, (k,), core); sub.put(kk, x)
            tree.put(k, sub)
        elif not fail: x, fail = entry(c, "e%d" % i, k, a.depth, want, (), core); tree.put(k, x)
    if c.truth("refused"):
        n = sum(1 for w in want if not (isinstance(w[2], tuple)))
        if not n or fail: raise Stop()
        log["refuse"] = c.choice("refused_at", n); fail = True
    seen = []
    def fake_open(f, *r, **k):
        seen.append(f); return io.StringIO("")
    m.json_io.open = fake_open
    mod = types.SimpleNamespace(load=lambda f, **k: tree, loads=lambda s, **k: tree)
    m.json_io.json = mod
    try: h = m.json_io.JsonIO.read_settings("settings.json"); ok = True
    except Exception as e:
        if isinstance(e, (Stop, pysym.Unsupported)): raise
        ok = False; err = repr(e)
    if fail:
        c.check(not ok, "a value that cannot be stored is reported"); c.reach("refused"); return
    c.check(ok, "a valid file is read")
    if not ok: c.reach("read"); return
    c.check(seen == ["settings.json"], "the named file is read")
    root = h.GetObject(); c.check(root is log["created"][0] and root.name == "Settings", "the result is a settings dictionary")
    def resolve(p):
        o = root
        for s in p:
            if isinstance(s, tuple):
                l = None
                for k, x in o.lists:
                    if k == s[0]: l = x
                if l is None or len(l) <= s[1]: return None
                o = l[s[1]]
            else:
                n = None
                for k, x in o.subs:
                    if k == s: n = x
                if n is None: return None
                o = n
        return o
    sets = list(log["set"])
    for p, k, v in want:
        o = resolve(p)
        if isinstance(v, tuple):
            l = None
            for q, x in (o.lists if o is not None else ()):
                if q == k: l = x
            c.check(l is not None and len(l) == v[1] and all(x.name == "ConditionSettings" for x in l) if v[1] else l is None or len(l) == 0, "every condition of the list is stored once, in order")
            continue
        hit = [i for i, s in enumerate(sets) if s[0] is o and s[1] == k]
        c.check(len(hit) == 1, "every value of the file is stored exactly once, in its place")
        if len(hit) == 1:
            c.check(same(c, sets[hit[0]][2], v), "the stored value is the value of the file"); del sets[hit[0]]
    c.check(not sets, "nothing else is stored")
    c.reach("read")


def json_write(c, m, a, core, log):
    json_core(core, log)
    f = c.string("file"); s = Rec("Settings", log)
    m.json_io.JsonIO.write_settings(s, f)
    c.check(len(log["written"]) == 1 and log["written"][0][0] is s and bool(log["written"][0][1] == f), "the given settings are written to the given file")
    c.reach("write")


class Fs:
    """The file system the front end sees: working directory /w/d; the calls that change it are only recorded."""
    def __init__(self, c, name, exists): self.c, self.name, self.there, self.ops = c, name, exists, []
    def norm(self, p):
        """Absolute path without . and .. (the symbolic name is a plain component)."""
        tag = "\1name\1"
        if isinstance(p, pysym.SymStr):
            z3 = self.c.z3; parts = []
            def walk(e):
                if z3.is_string_value(e): parts.append(e.as_string())
                elif e.eq(self.name.z): parts.append(tag)
                elif e.decl().kind() == z3.Z3_OP_SEQ_CONCAT: [walk(x) for x in e.children()]
                else: raise pysym.Unsupported("path expression")
            walk(p.z); p = "".join(parts)
        elif self.name is not None and not isinstance(self.name, pysym.SymStr): pass
        return os.path.normpath(os.path.join("/w/d", str.__str__(p)))
    def out(self, n):
        """A path for the code under test."""
        tag = "\1name\1"
        if tag not in n: return n
        r = pysym.SymStr._make(self.c.z3.StringVal("")); a, b = n.split(tag)
        r = self.name if not a else a + self.name
        return r + b if b else r
    def modules(self):
        f = self
        def j(*a):
            r = a[0]
            for x in a[1:]: r = r + ("" if isinstance(r, str) and not isinstance(r, pysym.SymStr) and r.endswith("/") else "/") + x
            return r
        def ab(p): return f.out(f.norm(p))
        def common(l):
            return f.out(os.path.commonpath([f.norm(x) for x in l]))
        def exists(p): n = f.norm(p); return f.there if n == f.target() else n in ("/", "/w", "/w/d")
        path = types.SimpleNamespace(exists=exists, isdir=exists, lexists=exists, islink=lambda p: False, isfile=lambda p: False, join=j, abspath=ab, realpath=ab, normpath=ab, commonpath=common, samefile=lambda a, b: f.norm(a) == f.norm(b), sep="/",
            dirname=lambda p: f.out(os.path.dirname(f.norm(p))), basename=lambda p: f.out(os.path.basename(f.norm(p))))
        o = types.SimpleNamespace(path=path, sep="/", getcwd=lambda: "/w/d", mkdir=lambda p, *a, **k: f.ops.append(("make", f.norm(p))), makedirs=lambda p, *a, **k: f.ops.append(("make", f.norm(p))),
            rmdir=lambda p: f.ops.append(("remove", f.norm(p))), remove=lambda p: f.ops.append(("remove", f.norm(p))), unlink=lambda p: f.ops.append(("remove", f.norm(p))))
        sh = types.SimpleNamespace(rmtree=lambda p, *a, **k: f.ops.append(("remove", f.norm(p))))
        return o, sh
    def target(self): return self.norm(self.name)


GUARD = [False]
def audit(event, args):
    if GUARD[0] and (event in ("os.remove", "os.rmdir", "os.mkdir", "os.rename", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.system", "os.exec", "os.fork", "os.posix_spawn", "shutil.rmtree", "shutil.move", "shutil.copyfile", "subprocess.Popen")
                     or event == "open" and (isinstance(args[1], str) and args[1].strip("rbtU") or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
        GUARD[0] = False; raise pysym.Unsupported("the real file system would be changed: " + event)


SPECIAL = ["", ".", "..", "./", "x/..", "../..", "../d", "../../..", ".//."]

def front(c, m, a, core, log):
    """The front end removes and creates its output folder, and nothing else."""
    json_core(core, log)
    write = c.truth("write"); exists = c.truth("exists"); special = c.truth("special")
    if special: name = SPECIAL[c.choice("shape", len(SPECIAL))]; exists = True
    else:
        name = c.string("name"); nonempty(c, name)
        for s in (".", ".."):
            if name == s: raise Stop()
        if not c.concrete(): c.assume(c.z3.Not(c.z3.Contains(name.z, c.z3.StringVal("/")))); c.assume(c.z3.Not(c.z3.Contains(name.z, c.z3.StringVal("\0"))))
    log["get"] = {"write_output_to_file": write, "output_directory_name": name}
    fs = Fs(c, name, exists); o, sh = fs.modules()
    import shutil, posixpath
    if "_orig" not in log: log["_orig"] = dict(vars(m.front))
    for k, v in log["_orig"].items():                           # every way the module reaches the file system
        if v is os: setattr(m.front, k, o)
        elif v is shutil: setattr(m.front, k, sh)
        elif v is os.path: setattr(m.front, k, o.path)
        elif callable(v) and getattr(v, "__module__", "") in ("shutil", "posix", "os", "posixpath", "genericpath"):
            n = v.__name__; r = getattr(sh, n, None) or getattr(o, n, None) or getattr(o.path, n, None)
            if r: setattr(m.front, k, r)
    h = Holder(Rec("Settings", log))
    m.front.JsonIO = types.SimpleNamespace(read_settings=lambda f: h)
    GUARD[0] = True                                              # a call that still reaches the real file system is refused
    try: p = m.front.PyQuESo("settings.json"); ok = True
    except Exception as e:
        if isinstance(e, (Stop, pysym.Unsupported)): raise
        ok = False
    finally: GUARD[0] = False
    rem = [x for k, x in fs.ops if k == "remove"]; mk = [x for k, x in fs.ops if k == "make"]
    if not write: c.check(ok and not fs.ops, "without output no folder is touched"); c.reach("none"); return
    if special: c.check(not rem, "the working directory and the folders above it are never removed"); c.reach("special"); return
    c.check(ok and rem == ([fs.target()] if exists else []), "exactly the existing output folder is removed")
    c.check(mk == [fs.target()] and fs.ops[-1][0] == "make", "the output folder is created")
    if ok: c.check(p.GetSettings() is h.o, "the settings are those of the file")
    c.reach("folder")


HARNESS = {"maps": maps, "bspline": bspline, "kind": kind}
HARNESS_CORE = {"json_read": json_read, "json_write": json_write, "front": front}


def main():
    ap = argparse.ArgumentParser()
    for n, t, d in (("out", str, ""), ("repo", str, "/repo"), ("tier", str, "quick"), ("budget", float, 200), ("mode", str, "maps"), ("replay", str, ""), ("kind", str, "tuple"), ("axis", int, 0),
                    ("orders", str, "1,2,1"), ("elements", str, "1,1,2"), ("maxp", int, 4), ("maxn", int, 4), ("top", int, 1), ("nested", int, 0), ("inner", int, 1), ("depth", int, 0), ("big", int, 0)): ap.add_argument("--" + n, type=t, default=d)
    a = ap.parse_args(); argv = sys.argv[1:]
    global ARGS; ARGS = a
    a.orders = [int(x) for x in a.orders.split(",")]; a.elements = [int(x) for x in a.elements.split(",")]
    core = core_stub(); log = {}
    sys.addaudithook(audit)
    h = HARNESS[a.mode] if a.mode in HARNESS else (lambda c, m, x: HARNESS_CORE[a.mode](c, m, x, core, log))
    if a.replay:
        c = pysym.Concrete(json.load(open(a.replay)))
        m = load(a.repo, False, core)
        import warnings; warnings.simplefilter("ignore")
        try: h(c, m, a)
        except Stop: pass
        except pysym.Violated: pass
        except Exception as e: c.bad.append("exception %r" % e)
        print("REPLAY violated " + "; ".join(sorted(set(c.bad))) if c.bad else "REPLAY held"); return 1 if c.bad else 0
    t0 = time.time()
    reals = [p + x for p in ("L", "U", "l", "u", "p") for x in AX]
    m = load(a.repo, True, core)
    def run(c):
        try: h(c, m, a)
        except (Stop, pysym.Unsupported, pysym.Violated): raise
        except Exception as e:
            c.check(False, "no error: %s" % type(e).__name__)
    eng = pysym.explore(reals, t0 + a.budget, run, a.repo, os.path.join(a.repo, "queso", "python"))
    def confirm(label, w):
        f = a.out + ".w"; json.dump(w, open(f, "w"))
        args = [x for i, x in enumerate(argv) if argv[i - 1] not in ("--out", "--budget", "--tier") and x not in ("--out", "--budget", "--tier")]
        r = subprocess.run(["/usr/bin/python3", os.path.abspath(__file__), *args, "--replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return r.returncode == 1 and "REPLAY violated" in r.stdout, r.stdout[-1500:]
    pysym.finish(eng, a.out, t0, confirm)


if __name__ == "__main__":
    sys.exit(main())
