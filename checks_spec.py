# Per property: the symbolic runs that decide it (harness, arguments, bounds, labels that must be reached).
G = "h_grid"
T = ("thorough",)
C04 = []
for k in range(8):
    for m in (1, 2, 4):
        slow = m == 1 and k in (1, 4, 5)
        C04.append({"name": "placed%d_m%d" % (k, m), "harness": "h_clip", "args": {"mode": 0, "tri": k, "flip": (k + m) % 2, "mask": m, "noff": 5}, "args_thorough": {"flip": (k + m + 1) % 2}, "budget": {"quick": 60, "thorough": 200},
                    "bounds": "triangle shape %d moved along %s by any amount from 5 places" % (k, {1: "x", 2: "y", 4: "z"}[m]), "tiers": T if slow else ("quick", "thorough"), "weight": 3 if m == 1 else 1})
    C04.append({"name": "placed%d_m3" % k, "harness": "h_clip", "args": {"mode": 0, "tri": k, "flip": k % 2, "mask": 3, "noff": 2}, "budget": {"quick": 60, "thorough": 300}, "tiers": ("quick", "thorough") if k in (0, 2, 3) else T,
                "bounds": "triangle shape %d moved in x and y by any amounts from 2 places" % k, "weight": 2})
C04 += [{"name": "planar_x", "harness": "h_clip", "args": {"mode": 1, "free": 1, "intri": 0}, "bounds": "triangles lying in a cell face, first vertex any point of a line", "weight": 5, "budget": {"quick": 100}},
        {"name": "planar_xy", "harness": "h_clip", "args": {"mode": 1, "free": 3, "intri": 0}, "bounds": "triangles lying in a cell face", "tiers": T},
        {"name": "fan", "harness": "h_clip", "args": {"mode": 2}, "reach": ["fan"], "bounds": "polygons of 1..9 vertices anywhere in [-1,1]^3, any face, any edge"}]
H = "h_geo"
C05 = [{"name": "sat%d" % k, "harness": H, "args": {"mode": 0, "tri": k, "cube": 0 if k == 9 else 1}, "bounds": "triangle shape %d at any position against the cell" % k, "budget": {"quick": 60, "thorough": 200}, "tiers": ("quick", "thorough") if k in (0, 2, 5, 9) else T, "weight": 2} for k in range(10)]
C05 += [{"name": "sat_tol%d" % k, "harness": H, "args": {"mode": 1, "tri": k}, "bounds": "triangle shape %d, any tolerance" % k, "budget": {"quick": 60, "thorough": 200}, "tiers": ("quick", "thorough") if k in (0, 3) else T} for k in range(8)]
C05 += [{"name": "sat_free%d_v%d" % (t, v), "harness": H, "args": {"mode": 2, "tri": t, "vertex": v, "dims": d}, "bounds": "triangle shape %d with vertex %d anywhere (components mask %d)" % (t, v, d), "budget": {"quick": 60, "thorough": 200}, "tiers": ti}
        for t, v, d, ti in ((0, 0, 3, ("quick", "thorough")), (5, 1, 3, ("quick", "thorough")), (7, 2, 3, ("quick", "thorough")), (1, 0, 3, T), (0, 1, 7, T), (3, 2, 7, T))]
C05 += [{"name": "boxbox", "harness": H, "args": {"mode": 3}, "bounds": "any two boxes"}]
C05 += [{"name": "tree%d" % m, "harness": H, "args": {"mode": 6, "mesh": m}, "bounds": "bounding-box tree of mesh %d, any query box" % m, "budget": {"quick": 60, "thorough": 200}} for m in (0, 1, 2, 4)]
C05 += [{"name": "tree_free%d" % n, "harness": H, "args": {"mode": 7, "n": n}, "bounds": "trees of %d boxes at arbitrary x positions, any query" % n, "budget": {"quick": 60, "thorough": 300}, "tiers": ti} for n, ti in ((2, ("quick", "thorough")), (3, ("quick", "thorough")), (4, T))]
C05 += [{"name": "query%d" % m, "harness": H, "args": {"mode": 8, "mesh": m}, "bounds": "mesh %d, cell anywhere" % m, "budget": {"quick": 60, "thorough": 300}, "tiers": ti} for m, ti in ((0, ("quick", "thorough")), (3, T), (6, T))]
C06 = [{"name": "raybox_pos", "harness": H, "args": {"mode": 4, "positive": 1}, "bounds": "any ray with positive direction against any box", "budget": {"quick": 60}},
       {"name": "raybox_neg", "harness": H, "args": {"mode": 4, "positive": 0, "signs": 5}, "bounds": "any ray, direction signs fixed, any box", "budget": {"quick": 60}, "weight": 2}]
C06 += [{"name": "raytri%d_d%d%s" % (t, d, "f" if f else ""), "harness": H, "args": {"mode": 5, "tri": t, "flip": f, "dir": d}, "bounds": "triangle shape %d, ray direction %d from any origin" % (t, d)} for t, d, f in ((0, 0, 0), (1, 1, 0), (3, 2, 0), (4, 3, 0), (5, 4, 0), (6, 5, 0), (0, 2, 1), (2, 4, 1), (7, 1, 1))]
C06 += [{"name": "inside%d_%s_d%d" % (m, "c" if c else "o", d), "harness": H, "args": {"mode": 9, "mesh": m, "closed": c, "free": 1, "dir": d}, "bounds": "mesh %d (%s), any point, ray direction %d" % (m, "closed" if c else "open", d), "budget": {"quick": 60, "thorough": 250}, "tiers": ti, "weight": 3}
        for m, c, d, ti in ((1, 1, 0, ("quick", "thorough")), (2, 1, 1, ("quick", "thorough")), (3, 1, 0, ("quick", "thorough")), (5, 1, 2, ("quick", "thorough")), (1, 0, 0, ("quick", "thorough")), (2, 0, 1, T), (4, 1, 0, T), (6, 1, 1, T), (5, 1, 0, T))]
C06 += [{"name": "parallel_%s" % ("c" if c else "o"), "harness": H, "args": {"mode": 9, "mesh": 3, "closed": c, "free": 1, "dir": 5}, "bounds": "slanted prism, any point, ray parallel to its side faces", "budget": {"quick": 60, "thorough": 250}} for c in (1, 0)]
C06 += [{"name": "anyray%d" % m, "harness": H, "args": {"mode": 9, "mesh": m, "closed": 1, "free": 2, "point": p}, "bounds": "mesh %d, fixed point %d, any ray direction" % (m, p), "budget": {"quick": 60, "thorough": 250}} for m, p in ((0, 0), (1, 1))]
C06 += [{"name": "anyrayanypoint0", "harness": H, "args": {"mode": 9, "mesh": 0, "closed": 1, "free": 3}, "bounds": "tetrahedron, any point and any ray", "budget": {"quick": 60}, "weight": 4}]

B = "h_bgrid"; Q1 = "h_quad1d"; FT = "h_fit"
def R(name, harness, mode, bounds, reach=(), tiers=("quick", "thorough"), th=None, budget=None, weight=1, opts=(), **args):
    r = {"name": name, "harness": harness, "args": {"mode": mode, **args}, "bounds": bounds, "reach": list(reach), "tiers": tiers, "weight": weight, "opts": list(opts)}
    if th: r["args_thorough"] = th
    r["budget"] = budget or {"quick": 90, "thorough": 400}
    return r
QT = ("quick", "thorough")
SHAPES = ["2x2x1", "3x2x1", "2x2x2", "4x1x1", "1x3x2", "4x2x1", "3x3x1", "2x3x2", "12x1x1", "1x24x1", "1x2x7"]
C07 = [R("container%d" % s, B, 0, "grid %s, every assignment full/trimmed/empty, three insertion orders, every id looked up, every step" % SHAPES[s], ["twice", "step"], ti, shape=s, weight=w) for s, ti, w in ((0, QT, 1), (3, QT, 1), (1, T, 5), (4, T, 5))]
C08 = [R("box_m%d_o%d%d%d" % (m, *o), FT, 0, "every sub-box of the cell with its free end faces (mask %d) anywhere, order (%d,%d,%d)" % (m, *o), ["constant"], ti, mask=m, ox=o[0], oy=o[1], oz=o[2], weight=3 if m == 7 else 1)
       for m, o, ti in ((1, (3, 1, 1), QT), (1, (2, 2, 0), QT), (2, (1, 3, 2), QT), (2, (0, 2, 1), QT), (4, (1, 1, 3), QT), (4, (2, 0, 2), QT), (4, (0, 0, 0), QT), (3, (1, 1, 0), T), (7, (1, 1, 1), T), (1, (3, 3, 3), T), (2, (3, 3, 3), T), (4, (3, 3, 3), T))]
C08 += [R("points", FT, 1, "four points, any weights in [-2,2], every order 0..2 per direction", ["points"])]
C09 = [R("legendre", Q1, 0, "orders 0..8, any point and any interval within the bounds", ["poly"]), R("legendre_free", Q1, 1, "any point, unit interval, orders 0..8", ["poly"], nmax=8), R("scaling", Q1, 2, "any interval", ["poly_scale"])]
C10 = [R("nnls%d" % k, FT, 2, "system %d, every right-hand side" % k, ["nnls"], ti, system=k, weight=w) for k, ti, w in ((0, QT, 1), (1, QT, 1), (2, QT, 1), (5, QT, 1), (4, QT, 1), (3, T, 1), (6, T, 1))]
C10 += [R("nnls_entry", FT, 3, "a free matrix entry", ["nnls"], norm=0)] + [R("fitting%d" % k, FT, 4, "point set %d, any moments" % k, ["fitting"], set=k) for k in (0, 1)]
C11 = [R("elim_s%d_o%d%d%d" % (s, *o), FT, 5, "point set %d, order (%d,%d,%d), four bodies, any targeted residual" % (s, *o), ["elimination"], set=s, ox=o[0], oy=o[1], oz=o[2]) for s, o in ((2, (1, 1, 1)), (3, (1, 1, 1)), (3, (1, 1, 2)), (4, (1, 1, 0)), (5, (1, 0, 0)), (5, (2, 0, 0)), (2, (2, 1, 0)), (1, (1, 0, 0)))]
C11 += [R("elim_scaled", FT, 5, "point set 2, moments scaled by any factor in [0.5,2], any targeted residual", ["elimination"], T, set=2, scale=1)]
C12 = [R("gauss", Q1, 3, "every Gauss rule of the tables on any interval, any polynomial of full degree", ["gauss"])]
C13 = [R("rule_m%d_p%d" % (m, p), Q1, 5, "method %d, degree %d, every number of elements 1..60 (..120 thorough), any spline of the target space" % (m, p), ["ggq"], th={"ecount": 120}, method=m, p=p, emin=1, ecount=60) for m in range(3) for p in (2, 3, 4)]
C14 = [R("tensor", Q1, 6, "orders 1..3 per direction, cell anywhere", ["tensor"], omax=3), R("tensor_linear", Q1, 7, "any polynomial coefficients", ["tensor_lin"])]
C15 = [R("ggq%d_m%d_p%d%s" % (s, m, p, "_t" if t else ""), B, 1, "grid %s, every subset of full cells, method %d, degree %d" % (SHAPES[s], m, p), ["ggq"], ti, shape=s, method=m, p=p, trimmed=t, weight=2 if s in (2, 5, 6) else 1)
       for s, m, p, t, ti in [(0, m, p, m % 2, QT) for m in range(3) for p in (2, 3, 4)] + [(1, 0, 2, 0, QT), (1, 2, 3, 1, QT), (3, 1, 2, 0, QT), (4, 0, 3, 1, QT), (2, 1, 2, 0, QT), (5, 0, 2, 1, QT), (6, 0, 2, 0, T), (6, 1, 3, 0, T), (7, 0, 2, 0, T), (2, 0, 4, 1, T), (5, 2, 4, 0, T)]]
C15 += [R("ggq%d_all_m%d_p%d" % (s, m, p), B, 1, "grid %s, all cells full, method %d, degree %d" % (SHAPES[s], m, p), ["ggq"], shape=s, method=m, p=p, all=1) for s, m, p in ((8, 0, 2), (8, 1, 3), (9, 2, 4), (9, 0, 3), (10, 2, 2), (10, 1, 4))]

M = "h_mesh"
C16 = [R("box", M, 0, "any cuboid", ["box"]), R("box_measures", M, 1, "cuboids with one free extent, 1..4 threads", ["measures"])]
C16 += [R("measures%d" % k, M, 2, "mesh %d anywhere, 1..9 threads" % k, ["measures"], ti, mesh=k) for k, ti in ((0, QT), (2, QT), (3, T), (5, QT), (6, QT), (4, T))]
C16 += [R("open%d" % k, M, 3, "mesh %d without any one triangle" % k, ["open"], mesh=k) for k in (0, 1, 5)] + [R("bbox", M, 4, "two triangles, four free coordinates per direction", ["bbox"], th={"n": 6})]
C16 += [R("refine%d_%d" % (k, s), M, 5, "mesh %d, stretch %d, any requested number up to 60 (200)" % (k, s), ["refine"], th={"max": 200}, mesh=k, stretch=s) for k, s in ((1, 0), (3, 0), (3, 1), (6, 2), (5, 3), (0, 0), (0, 4), (1, 4), (1, 5))]
C16 += [R("refine_free", M, 6, "cuboid with a free extent in [0.2,4]", ["refine"]), R("append", M, 7, "meshes of 0..5 vertices with free coordinates", ["append"])]
C17 = [R("triangle%d" % t, M, 8, "triangle shape %d anywhere, any first vertex and orientation" % t, ["triangle"], tri=t) for t in range(6)]
C17 += [R("triangle_free", M, 9, "any triangle over a fixed edge, three planes", ["triangle"]), R("rules", M, 10, "five rules, six triangles, any polynomial of full degree", ["rule"])]
C18 = [R("history", M, 11, "all histories of 5 (7) add/remove steps", ["history"], th={"steps": 7}), R("views", M, 12, "index lists of length 0..3 over four triangles, every stop", ["views"]), R("check", M, 13, "up to two triangles with any indices", ["good", "bad"]), R("edges", M, 14, "two edges on any planes", ["edges"], steps=2, weight=3)]

DC = "h_dict"
DN = ["Settings", "ConditionSettings", "ModelInfo", "ConditionInfo"]
I2R = ["-i2r"]   # integer-to-real conversions stay symbolic
C19 = [R("by_name%d" % d, DC, 0, "%s: any value of any type under any name" % DN[d], ["accepted", "rejected"], opts=I2R, dict=d) for d in range(4)]
C19 += [R("twice%d" % d, DC, 0, "%s: two values one after the other" % DN[d], ["accepted", "rejected"], T if d in (0, 2) else QT, opts=I2R, dict=d, again=1) for d in range(4)]
C19 += [R("names%d" % d, DC, 1, "%s: unknown names" % DN[d], ["names"], dict=d) for d in range(4)] + [R("typed%d" % d, DC, 2, "%s: every typed key, any value" % DN[d], ["typed"], dict=d) for d in range(4)]
C19 += [R("print%d" % d, DC, 5, "%s: values missing, up to two list entries" % DN[d], ["printed"], dict=d) for d in range(4)]
C20 = [R("required%d" % d, DC, 3, "%s: up to two missing values anywhere, up to two list entries, one of them empty" % DN[d], ["missing", "complete"], dict=d) for d in range(4)]
C20 += [R("settings", DC, 4, "orders 0..1000 per direction, every method and grid type", ["good", "bad"])]

FL = "h_flood"; BODY = ["box", "L", "box with a cavity", "U", "two boxes", "ring", "plate with a pin", "staircase", "comb"]
def F21(name, body, n, tiers=QT, reach=(), weight=1, th=None, **a):
    return R(name, FL, 0, "%s of voxels moved along axis %d by any amount in the bounds against a %dx%dx%d grid, %s" % (BODY[body], a.get("axis", 0), *n, "%d threads" % a["threads"] if a.get("threads") else "1..%d threads" % a.get("maxthreads", 4)), reach, tiers, th, {"quick": 60, "thorough": 300}, weight, body=body, nx=n[0], ny=n[1], nz=n[2], **a)
C21 = [F21("row", 0, (6, 1, 1), reach=["inside", "trimmed", "outside"], width4=14, minus=1, axis=0, maxthreads=8), F21("column", 0, (1, 1, 12), reach=["inside", "trimmed", "outside"], width4=30, minus=1, threads=5, axis=2), F21("rows", 0, (1, 9, 2), reach=["inside", "trimmed", "outside"], width4=24, minus=1, threads=3, axis=1, aligned=5),
       F21("small_cells", 0, (5, 2, 2), reach=["inside", "trimmed", "outside"], width4=11, minus=1, threads=2, scale=1, axis=0, weight=2), F21("large_cells", 0, (5, 2, 2), reach=["inside", "trimmed", "outside"], width4=11, minus=1, threads=2, scale=2, axis=0, weight=2), F21("gap", 4, (6, 1, 1), reach=["inside", "trimmed", "outside"], width4=8, minus=1, threads=4, axis=0),
       F21("box_threads", 0, (2, 2, 1), reach=["trimmed", "outside"], maxthreads=3), F21("ring", 5, (4, 4, 1), reach=["trimmed"], width4=5, threads=2, axis=0), F21("comb", 8, (5, 3, 1), reach=["trimmed"], threads=3, axis=1, weight=2), F21("cavity", 2, (4, 3, 1), reach=["trimmed"], width4=4, threads=2, axis=0, weight=2), F21("u", 3, (4, 3, 1), reach=["trimmed"], width4=4, threads=2, axis=0, weight=2),
       F21("box3d", 0, (2, 2, 2), threads=2, reach=["trimmed"]), F21("cavity3d", 2, (3, 3, 2), reach=["inside", "trimmed"], width4=4, threads=2, weight=4), F21("slab", 0, (4, 3, 1), reach=["inside", "trimmed"], width4=12, minus=1, threads=3, axis=0, weight=5),
       F21("cavity4", 2, (4, 4, 4), T, width4=4, threads=1, axis=2, weight=5), F21("l", 1, (3, 4, 1), T, width4=6, threads=2, axis=0, weight=5), F21("l_inside", 1, (3, 4, 1), T, width4=8, threads=2, axis=1, minus=1, weight=5), F21("ring_aligned", 5, (4, 4, 1), T, width4=4, off8=0, threads=2, axis=1, weight=5), F21("pin", 6, (4, 4, 3), T, width4=5, threads=2, axis=2, weight=5), F21("stairs", 7, (4, 4, 2), T, threads=4, axis=2, hi8=16, weight=5), F21("two_rows", 4, (2, 8, 1), T, width4=6, minus=1, threads=3, axis=1, weight=5)]
C21 += [F21("half_%s%s" % ("xyz"[ax], "+-"[f]), 0, tuple(5 if d == ax else 1 for d in range(3)), reach=["inside", "trimmed", "outside"], width4=400, minus=1, threads=2, lo8=8, hi8=32, axis=ax, free=f) for ax in range(3) for f in range(2)]
DM = "h_domain"; MN = ["tetrahedron", "box", "box with a hole", "slanted prism", "two boxes", "L-shaped body", "octahedron"]
def D22(mesh, axis, tiers=QT, weight=2, **a):
    return R("split%d_%s%s" % (mesh, "xyz"[axis], "".join("_%s%d" % (k[0], v) for k, v in a.items())), DM, 0, "%s cut by a plane at any place along %s (%s)" % (MN[mesh], "xyz"[axis], "exactly at its faces" if a.get("aligned") else "at least 1e-9 from parallel faces") + (", cells halved once more" if a.get("halves") else ""), ["parts", "volume"], tiers, None, {"quick": 120, "thorough": 300}, weight, mesh=mesh, axis=axis, **a)
C22 = [D22(0, 0, weight=3), D22(6, 1), D22(4, 2, weight=3), D22(1, 1, weight=4), D22(3, 2, weight=4), D22(5, 0, weight=4), D22(2, 0, weight=4), D22(2, 0, aligned=1), D22(2, 1, aligned=1), D22(2, 2, aligned=1), D22(4, 0, aligned=1, ), D22(5, 0, aligned=1), D22(0, 1, T), D22(0, 2, T, switch=1), D22(1, 0, T), D22(2, 2, T, halves=2), D22(3, 0, T), D22(3, 1, T), D22(6, 0, T, switch=1), D22(6, 2, T, halves=2), D22(5, 2, T), D22(4, 1, T, halves=2)]
def D22C(mesh, axis, lo, hi, at=0, tiers=QT, weight=2):
    return R("corner%d_%s%d" % (mesh, "xyz"[axis], at), DM, 0, "%s cut into eight cells: one plane anywhere in [%.2f,%.2f] along %s, one fixed plane in each other direction" % (MN[mesh], lo / 100, hi / 100, "xyz"[axis]), ["parts", "volume"], tiers, None, {"quick": 90, "thorough": 300}, weight, mesh=mesh, axis=axis, lo=lo, hi=hi, at=at, halves=4)
C22 += [D22C(0, 0, 20, 22), D22C(1, 1, 40, 50, 1), D22C(5, 2, 50, 60), D22C(2, 2, 55, 65, 2), D22C(4, 1, 55, 65, weight=3), D22C(3, 2, 42, 44, 1), D22C(6, 1, 17, 19), D22C(3, 0, 42, 44, 2, T), D22C(2, 0, 30, 45, 0, T), D22C(5, 0, 20, 30, 2, T), D22C(0, 2, 30, 50, 1, T), D22C(6, 0, 30, 60, 1, T)]
C23 = [R("point%d_%s" % (m, "xyz"[ax]), DM, 1, "%s clipped at a cell, points on lines along %s" % (MN[m], "xyz"[ax]), ["inside", "outside"], ti, None, {"quick": 60, "thorough": 300}, 2, mesh=m, axis=ax, **({"point": p} if p < 4 else {})) for m, ax, p, ti in ((0, 0, 1, QT), (0, 2, 0, QT), (3, 1, 9, QT), (2, 0, 9, QT), (5, 2, 1, QT), (6, 0, 0, QT), (0, 0, 9, T), (6, 1, 9, T), (3, 0, 9, T), (1, 2, 9, QT), (5, 0, 9, T))]
C23 += [R("box%d_%s%s" % (b, "xyz"[ax], "_whole" if w else ""), DM, 2, "%s clipped at a cell, boxes of three sizes moved along %s from four places" % (BODY[b], "xyz"[ax]), ["trimmed"], ti, None, {"quick": 60, "thorough": 300}, 2, body=b, axis=ax, whole=w) for b, ax, w, ti in ((3, 2, 1, QT), (0, 0, 0, QT), (1, 1, 0, QT), (2, 0, 1, QT), (5, 1, 1, T), (7, 0, 0, T), (4, 2, 0, T), (8, 1, 1, T))]
C23 += [R("builder%d_%s%s%s" % (b, "xyz"[ax], "l" if lw else "u", "_r" if rf else ""), DM, 3, "%s, cell face %s at any place, four volume ratios%s" % (BODY[b], "xyz"[ax], ", at least 20 triangles requested" if rf else ""), ["kept", "dropped"], ti, None, {"quick": 60, "thorough": 300}, 3, body=b, axis=ax, lower=lw, refine=rf) for b, ax, lw, rf, ti in ((0, 0, 0, 0, QT), (1, 1, 0, 0, QT), (3, 2, 0, 1, QT), (2, 0, 1, 0, T), (7, 1, 1, 0, QT), (5, 0, 0, 1, T), (4, 2, 1, 1, T), (8, 0, 0, 0, T))]
IO = "h_io"
def I(name, mode, bounds, reach, tiers=QT, weight=1, **a): return R(name, IO, mode, bounds, reach, tiers, None, {"quick": 60, "thorough": 300}, weight, **a)
C24 = [I("stl%d_%d" % (m, x), 0, "%s with free coordinates along axes %d, binary and text" % (MN[m], x), ["binary", "ascii"], mesh=m, axes=x) for m, x in ((0, 1), (1, 2), (3, 4))] + [I("stl_far", 0, "body far away", ["binary"], mesh=1, axes=1, far=1, enc=1), I("stl_skip", 0, "a mesh whose first triangles are missing", ["binary", "ascii"], mesh=1, axes=1, skip=3), I("stl_xy", 0, "two free coordinates", ["binary"], mesh=0, axes=3, enc=1),
       I("foreign", 1, "binary files of other programs: any normals, four headers, three attribute values", ["foreign"]), I("short", 1, "binary files cut off at 0..183 bytes (every length)", ["short"], cut=1, range=184, weight=2), I("text", 2, "text files of other programs: one or two facets, indentation, number formats", ["text"]), I("malformed", 2, "text files with one of five defects", ["malformed"], defect=1),
       I("condition_bin", 6, "conditions of up to three segments with up to two triangles each", ["binary"], enc=1), I("condition_text", 6, "the same as text", ["ascii"], T, enc=0, weight=3)]
C25 = [I("mesh%d" % m, 3, "%s with a free coordinate, binary and text" % MN[m], ["binary", "ascii"], mesh=m, axes=1) for m in (0, 1, 3)] + [I("grid", 4, "3x2x1 grid, cells full, cut or empty, up to two points each, domain anywhere", ["binary", "ascii"], weight=3), I("buffer", 5, "buffers of 1..12 bytes, every sequence of three writes of six kinds, both byte orders", ["buffer"], QT, 3, steps=3, bmax=12), I("buffer4", 5, "four writes, buffers of 1..24 bytes", ["buffer"], T, 4, steps=4, bmax=24)]

MB = ["a box", "an L", "a box with a cavity", "a U", "two boxes"]
def M(name, body, bounds, reach, tiers=QT, weight=1, **a): return R(name, "h_model", a.pop("mode", 0), MB[body] + ", " + bounds, reach, tiers, weight=weight, budget={"quick": 120, "thorough": 500}, body=body, **a)
C26 = [M("box", 0, "12 places, any volume ratio limit", ["volume", "cut", "empty"], nz=2), M("l_alpha", 1, "6 places, any ratio limit, any fictitious weight", ["volume", "cut", "empty", "fictitious"], alpha=1, places=2, nz=2, width4=3), M("cavity", 2, "12 places, any ratio limit", ["volume", "cut", "full"], nz=2), M("u2", 3, "6 places, quadratic, any ratio limit", ["volume", "cut", "empty"], places=2, order=2, nx=3, nz=2, weight=2),
       M("ggq", 0, "6 places, generalised rule, any ratio limit", ["volume", "cut", "full"], method=3, order=2, nx=4, nz=2, width4=9, places=2), M("reduced_fe", 2, "6 places, reduced Gauss rule, finite-element grid, any ratio limit", ["volume", "cut", "full"], method=1, fe=1, nz=2, places=2, order=2, weight=3), M("two_refined", 4, "6 places, any ratio limit, cut cells refined to 30 triangles", ["volume", "cut"], nx=3, nz=2, width4=3, places=2, mintri=30),
       M("files", 1, "6 places, up to two conditions, any ratio limit, everything read from and written to files", ["files"], mode=2, places=2, nz=2, width4=3, weight=2), M("l_quad", 1, "24 places, quadratic, any ratio and fictitious weight", ["volume", "cut", "fictitious"], T, 4, alpha=1, order=2, places=8, nz=2, nx=3, width4=4), M("box_full", 0, "24 places, any ratio", ["volume", "cut", "full"], T, 2, nx=4, ny=3, nz=2, width4=9, places=8), M("cubic", 0, "3 places, cubic", ["volume", "cut"], T, 3, order=3, places=1, nz=2), M("threads", 2, "12 places, 3 threads", ["volume", "cut"], T, 2, threads=3, nz=2)]
SF = ["a rectangle across cells", "an upright rectangle", "a slanted triangle", "a box", "two triangles"]
C27 = [M("s%d_%s%s" % (k, "xyz"[ax], "n" if neg else ""), 0, "surface: %s anywhere along %s" % (SF[k], "xyz"[ax]), ["condition"] + rc, QT if (k, ax) not in ((3, 1), (3, 2)) else T, 2 if k == 3 else 1, mode=1, places=1, ratio=0, surface=k, along=ax, neg=neg, hi=hi, nz=2, inside=ins)
       for k, ax, neg, hi, ins, rc in ((0, 0, 0, 1000, 0, ["active"]), (0, 1, 1, 2500, 0, ["active"]), (0, 2, 0, 1900, 0, ["active"]), (1, 0, 1, 2500, 0, ["active"]), (1, 2, 0, 1500, 0, ["active"]), (2, 0, 0, 800, 1, ["active"]), (2, 1, 0, 740, 1, ["active"]), (2, 2, 0, 620, 1, ["active"]), (3, 0, 0, 1100, 0, ["active"]), (3, 1, 1, 1900, 0, ["active"]), (3, 2, 0, 1200, 0, ["active"]), (4, 0, 0, 700, 1, ["active"]))]
C27 += [M("part%d_%s" % (k, "xyz"[ax]), b, "which leaves cells empty; surface: %s anywhere along %s" % (SF[k], "xyz"[ax]), ["condition", "active", "inactive"], mode=1, places=1, ratio=0, surface=k, along=ax, neg=neg, hi=hi, nz=nz, nx=nx, inside=ins, width4=w) for b, k, ax, neg, hi, nz, nx, ins, w in ((0, 0, 0, 1, 2500, 1, 3, 0, 2), (0, 1, 1, 0, 900, 2, 2, 0, 2), (0, 2, 0, 0, 1800, 2, 3, 1, 2), (0, 4, 1, 0, 300, 1, 2, 1, 2), (3, 3, 0, 0, 2100, 1, 3, 0, 2))]

C28 = [F21("fill_row", 0, (6, 1, 1), width4=14, minus=1, axis=0, threads=2, sched=5, reach=["threads"]), F21("fill_4", 0, (1, 8, 1), width4=20, minus=1, axis=1, threads=4, sched=3, reach=["threads"]), F21("fill_cavity", 2, (3, 2, 2), width4=4, axis=0, threads=2, sched=5, reach=["threads"], weight=2), F21("fill_3", 0, (3, 3, 1), width4=12, minus=1, axis=0, threads=3, sched=2, reach=["threads"], weight=3), F21("fill_l", 1, (3, 4, 1), T, width4=6, axis=0, threads=3, sched=4, weight=4), F21("fill_cavity3", 2, (4, 3, 2), T, width4=4, axis=1, threads=3, sched=4, weight=4)]
C28 += [M("model2", 0, "6 places, any ratio limit", ["threads", "volume", "cut"], nx=3, nz=2, places=2, threads=2, sched=3, weight=2), M("model3", 2, "3 places, any ratio limit and fictitious weight", ["threads", "volume", "cut"], nz=2, places=1, alpha=1, threads=3, sched=3, weight=2), M("model4", 3, "6 places, cut cells refined to 30 triangles", ["threads", "volume", "cut"], T, nx=3, nz=2, places=2, ratio=0, mintri=30, width4=3, threads=4, sched=3, weight=3)]
C28 += [M("condition%d_%d" % (k, t), 0, "surface: %s along %s" % (SF[k], "xyz"[ax]), ["threads", "condition", "active"], ti, w, mode=1, places=1, ratio=0, surface=k, along=ax, lo=lo, hi=hi, nz=2, inside=k == 4, threads=t, sched=sc) for k, ax, lo, hi, t, sc, ti, w in ((0, 0, 0, 400, 2, 4, QT, 1), (1, 0, 0, 300, 3, 3, QT, 2), (3, 0, 0, 150, 2, 3, QT, 2), (4, 0, 0, 300, 4, 2, QT, 1), (2, 1, 0, 300, 3, 3, T, 2), (3, 2, 0, 1100, 3, 3, T, 4))]
C28 += [R("measures%d" % k, "h_mesh", 2, "area and volume of mesh %d anywhere, 1..9 threads" % k, ["threads"], ti, mesh=k, sched=4) for k, ti in ((0, QT), (1, QT), (2, T))]
for r in C28: r["bounds"] += "; the first %d scheduling decisions of a path free" % r["args"]["sched"]

def PY(name, mode, bounds, reach=(), tiers=("quick", "thorough"), budget=None, weight=1, **a):
    return {"name": name, "py": "h_py.py", "args": {"mode": mode, **a}, "bounds": bounds, "reach": list(reach), "tiers": tiers, "budget": budget or {"quick": 150, "thorough": 400}, "weight": weight}
C29 = [PY("maps", "maps", "any bounds in [-1000,1000] of extent at least 0.01, any point", ["maps"]), PY("maps_lists", "maps", "the same with lists as bounds", ["maps"], kind="list"), PY("type", "kind", "any string as knot vector type", ["known", "unknown"])]
for d in range(3):
    C29 += [PY("volume_%s" % "uvw"[d], "bspline", "any bounds, order 1..3 and 1..3 elements along %s, fixed ones elsewhere, both knot vectors, any direction index" % "uvw"[d], ["open", "uniform"], axis=d, maxp=3, maxn=3, orders=("1,2,1", "2,1,1", "1,1,3")[d], elements=("1,1,2", "2,1,1", "1,2,1")[d], weight=2),
            PY("volume_long_%s" % "uvw"[d], "bspline", "any bounds, order 1..4 and 1..5 elements along %s" % "uvw"[d], ["open", "uniform"], T, axis=d, maxp=4, maxn=5, orders="1,1,1", elements="1,1,1", weight=3)]
PYA = ["the Python sources run in CPython 3.12 on symbolic values (engine/pysym.py); numpy works on exact numbers, scipy's BSpline and knot insertion are replaced by Boehm's algorithm with undefined values behind the coefficients, the core module by a recorder"]
C30 = [PY("flat", "json_read", "one entry: any key, any scalar, list of 1..3 numbers", ["read", "refused"], top=1, depth=1), PY("nested", "json_read", "one dictionary with one entry", ["read", "refused"], top=1, nested=1, inner=1, depth=1),
       PY("two", "json_read", "two entries: any two keys, any scalars or lists of numbers", ["read", "refused"], top=2, depth=1, weight=3, budget={"quick": 300, "thorough": 400}), PY("lists", "json_read", "one entry: also lists of 0..2 dictionaries of up to one entry", ["read", "refused"], top=1, depth=0, weight=3, budget={"quick": 400, "thorough": 600}), PY("long_lists", "json_read", "one entry: lists of 0..2 dictionaries of up to two entries", ["read", "refused"], T, top=1, depth=0, big=1, weight=3, budget={"thorough": 700}),
       PY("deep", "json_read", "a dictionary of two entries beside one entry", ["read", "refused"], T, top=2, nested=1, inner=2, depth=1, weight=3, budget={"thorough": 600}),
       PY("write", "json_write", "any file name", ["write"]), PY("output_folder", "front", "any plain folder name, nine spellings of the working directory and its parents", ["none", "folder", "special"])]
CHECKS = {
 "G01": {"runs": [
    {"name": "bijection", "harness": G, "args": {"mode": 0, "nmax": 4}, "reach": ["bijection"], "bounds": "grids 1..4 cells per direction, every index"},
    {"name": "bijection_big", "harness": G, "args": {"mode": 0, "nmax": 1, "big": 1}, "reach": ["bijection"], "bounds": "16x7x3, 1x64x5, 2x1x100, 129x1x1, every index"},
    {"name": "step", "harness": G, "args": {"mode": 1, "nmax": 3}, "args_thorough": {"nmax": 5}, "reach": ["middle", "local_end", "global_end"], "bounds": "grids 1..3 (5) cells per direction, every sub-partition, cell and direction"},
    {"name": "step_big", "harness": G, "args": {"mode": 1, "nmax": 1, "big": 1}, "reach": ["middle", "local_end", "global_end"], "bounds": "4 large grids, every sub-partition, cell, direction"},
    {"name": "directions", "harness": G, "args": {"mode": 3}, "bounds": "all six directions"}]},
 "G02": {"runs": [
    {"name": "boxes", "harness": G, "args": {"mode": 2, "nmax": 3}, "args_thorough": {"nmax": 4}, "reach": ["fe", "bspline", "adjacent"], "bounds": "grids 1..3 (4) cells per direction, bounds any reals in [-100,100], extents in [0.001,100]"}]},
 "G03": {"runs": [
    {"name": "points", "harness": "h_mapping", "args": {"mode": 0}, "reach": ["points"], "bounds": "cell bounds and parametric bounds any reals in [-100,100], extents in [0.01,100], any point in [-200,200]^3"},
    {"name": "weights", "harness": "h_mapping", "args": {"mode": 1}, "reach": ["weights"], "bounds": "same bounds, weight in [0,10]"},
    {"name": "boundary", "harness": "h_mapping", "args": {"mode": 2}, "reach": ["axis", "general"], "bounds": "axis-aligned and arbitrary unit normals, extents in [0.05,50], weight in [0,10]"},
    {"name": "boundary_scale", "harness": "h_mapping", "args": {"mode": 3}, "reach": ["scale"], "bounds": "four normals, cells of size 1e-6 .. 1e6 of the other space, free extents"}]},
 "G04": {"runs": C04, "parallel": 4},
 "G05": {"runs": C05, "parallel": 4},
 "G06": {"runs": C06, "parallel": 4, "init": "zero"},
 "G07": {"runs": C07, "parallel": 4},
 "G08": {"runs": C08, "parallel": 4},
 "G09": {"runs": C09, "parallel": 4},
 "G10": {"runs": C10, "parallel": 4},
 "G11": {"runs": C11, "parallel": 4},
 "G12": {"runs": C12, "parallel": 4},
 "G13": {"runs": C13, "parallel": 4},
 "G14": {"runs": C14, "parallel": 4},
 "G15": {"runs": C15, "parallel": 4},
 "G16": {"runs": C16, "parallel": 4},
 "G17": {"runs": C17, "parallel": 4},
 "G18": {"runs": C18, "parallel": 4},
 "G19": {"runs": C19, "parallel": 4},
 "G20": {"runs": C20, "parallel": 4},
 "G21": {"runs": C21, "parallel": 4},
 "G22": {"runs": C22, "parallel": 4},
 "G23": {"runs": C23, "parallel": 4},
 "G24": {"runs": C24, "parallel": 4},
 "G25": {"runs": C25, "parallel": 4},
 "G26": {"runs": C26, "parallel": 4},
 "G27": {"runs": C27, "parallel": 4},
 "G28": {"runs": C28, "parallel": 4, "race": True},
 "G29": {"runs": C29, "parallel": 8, "assumptions": PYA}, "G30": {"runs": C30, "parallel": 8, "assumptions": PYA},
}
