"""Electrode polygons: P28..P34."""
import io, sys
from drvlib import *
electrode, em, system, pm = load("electrode", "electrode.electrode", "electrode.system", "electrode.polygons")
from shapely import geometry, ops, affinity
Polygons, System = pm.Polygons, system.System
out = Out()
mode = sys.argv[1]


def n_(q, t):
    return t if THOROUGH else q


# ---- recording -------------------------------------------------------------
# Layouts are also given in other units of length: what is recorded is divided
# by this power of two again, which is exact.
UNIT = 1.


def units():
    """Chooses the unit of length of the following operations."""
    global UNIT
    UNIT = pick([1., 1., 1., 1., 2.**-13, 2.**-20, 2.**9])
    return UNIT


def scaled(g, f=None):
    """A geometry, layout, list of points or length in the present unit."""
    f = UNIT if f is None else f
    if f == 1 or g is None:
        return g
    if isinstance(g, (float, int)):
        return g*f
    if isinstance(g, list) and g and isinstance(g[0], tuple) and len(g[0]) == 2 and hasattr(g[0][1], "geom_type"):
        return Polygons((n, scaled(p, f)) for n, p in g)
    if hasattr(g, "geom_type"):
        return affinity.scale(g, f, f, origin=(0, 0)) if not g.is_empty else g
    if isinstance(g, Polygons):
        return g
    return (np.array(g)*f).tolist()


def ring(r):
    c = np.array(r.coords)[:, :2]/UNIT
    if len(c) > 1 and (c[0] == c[-1]).all():
        c = c[:-1]
    return nums(c)


def parts(g):
    if isinstance(g, geometry.Polygon):
        gs = [g]
    elif hasattr(g, "geoms"):
        gs = list(g.geoms)
    else:
        gs = [g]
    res = []
    for p in gs:
        if p.is_empty:
            continue
        if not isinstance(p, geometry.Polygon):
            res.append({"ext": [], "ints": []})     # nothing a region can be: the specification complains
            continue
        res.append({"ext": ring(p.exterior), "ints": [ring(i) for i in p.interiors]})
    return res


def lay(ps):
    return [{"name": n, "parts": parts(g), "valid": bool(g.is_valid)} for n, g in ps]


def snap(ps):
    return [(n, g.wkb) for n, g in ps]


def parts_of(g):
    return list(getattr(g, "geoms", [g]))


def cut(r):
    """Points on the sides of a ring, which may begin anywhere."""
    c = np.array(r.coords)[:-1, :2]
    res = []
    for i in range(len(c)):
        a, b = c[i], c[(i+1) % len(c)]
        res += [a]+[a+(b-a)*f for f in (.25, .5, .75) if rng.random() < .5]
    k = rng.randrange(len(res))
    return res[k:]+res[:k]


# ---- layouts ---------------------------------------------------------------
NAMES = ["a", "b", "c", "a", "", "rf", "dc 1", "a ", "A", "b "]


def cells(cs, x0=0, y0=0, s=1):
    return ops.unary_union([geometry.box(x0+i*s, y0+j*s, x0+(i+1)*s, y0+(j+1)*s) for i, j in cs])


def blob(m, n, k):
    cs = {(rng.randrange(m), rng.randrange(n))}
    while len(cs) < k:
        i, j = pick(sorted(cs))
        d = pick([(1, 0), (-1, 0), (0, 1), (0, -1)])
        c = (i+d[0], j+d[1])
        if 0 <= c[0] < m and 0 <= c[1] < n:
            cs.add(c)
    return cs


def lattice_layout(nel, m=5, n=5, disjoint=False, off=(0, 0)):
    """Electrodes that are sets of cells."""
    used = set()
    ps = Polygons()
    for q in range(nel):
        c = rng.random()
        if c < .25:
            cs = {(i, j) for i in range(m) for j in range(n) if rng.random() < .5}
        elif c < .4:       # a frame with an island
            cs = {(i, j) for i in range(m) for j in range(n) if i in (0, m-1) or j in (0, n-1)} | {(m//2, n//2)}
        else:
            cs = blob(m, n, rng.randrange(1, m*n//2))
        if disjoint:
            cs = cs - used
            used |= cs
        if not cs:
            continue
        ps.append((pick(NAMES), cells(cs, *off)))
    return ps


def centres(m=5, n=5, off=(0, 0), pad=1):
    return [[off[0]+i+.5, off[1]+j+.5] for i in range(-pad, m+pad) for j in range(-pad, n+pad)]


def star(c, r0, r1, k):
    a = np.sort((np.arange(k)+nrng.rand(k)*.7)*2*np.pi/k)
    r = r0+(r1-r0)*nrng.rand(k)
    return np.c_[c[0]+np.cos(a)*r, c[1]+np.sin(a)*r]


def generic_poly(scale=1.):
    c = nrng.randn(2)*scale
    ext = star(c, .8*scale, 1.6*scale, rng.randrange(5, 10))
    ints = []
    if rng.random() < .5:
        # star shaped about the same centre and well within
        ints = [star(c, .15*scale, .4*scale, rng.randrange(3, 7))]
    p = geometry.Polygon(ext, ints)
    if ints and rng.random() < .5:
        isl = geometry.Polygon(c+(np.array(ints[0])-c)*.4)
        p = geometry.MultiPolygon([p, isl])
    return p


def cheese(tiny=False):
    """A plate with many holes of very different sizes, some with islands (and these with holes), and points at
    and around their centres."""
    n, s = rng.randrange(2, 4), 2.
    o = nrng.randn(2)*2
    ints, isl, pts = [], [], []
    for i in range(n):
        for j in range(n):
            c = o+[(i+.5)*s, (j+.5)*s]
            pts += [c.tolist(), (c+s/2).tolist()]
            r = pick([0, .02, .06, .3, .7]) if not tiny or rng.random() < .6 else 10.**nrng.uniform(-7, -3)
            if not r:
                continue
            ints.append(star(c, r, 1.3*r, rng.randrange(3, 7))[::pick([1, -1])])
            if rng.random() < .4:
                q = geometry.Polygon((ints[-1]-c)*.5+c, [(ints[-1]-c)*.25+c] if rng.random() < .5 else [])
                isl.append(q)
                pts += [(np.array(q.exterior.coords[k])*f+c*(1-f)).tolist() for k in range(2) for f in (.75, 1.4)]
    p = geometry.Polygon([o, o+[n*s, 0], o+n*s, o+[0, n*s]], ints)
    return (geometry.MultiPolygon([p]+isl) if isl else p), pts


def cheese_layout(tiny=False):
    ps, pts = Polygons(), []
    for k in range(rng.randrange(1, 3)):
        p, q = cheese(tiny)
        if p.is_valid:
            ps.append((pick(NAMES), p))
            pts += q
    return ps, pts


def generic_layout(nel, scale=1.):
    ps = Polygons()
    while len(ps) < nel:
        p = generic_poly(scale)
        if p.is_valid:
            ps.append((pick(NAMES), p))
    return ps


def disjoint_generic(nel):
    """Stars on a coarse lattice: never overlapping."""
    ps = Polygons()
    while len(ps) < nel:
        i = len(ps)
        p = generic_poly()
        c = np.array(p.bounds).reshape(2, 2)
        p = affinity.translate(p, 5*i-c[0, 0], -c[0, 1])
        if p.is_valid:
            ps.append((pick(NAMES), p))
    return ps


def rand_pts(k, lo=-3., hi=3.):
    return (lo+(hi-lo)*nrng.rand(k, 2)).tolist()


# ---- P29 -------------------------------------------------------------------
def do_op(ps, op, pts, lattice, **a):
    """Apply op to the real layout; returns the resulting layout."""
    global UNIT
    if op != "filter" or a["test"] is not None:      # the default test is absolute
        units()
    ps = scaled(ps)
    was = snap(ps)
    before = lay(ps)
    rec = dict(default=False, deep=True, window=[], edge="0.", keep=[])
    if op == "restrict":
        win = scaled(a["g"])
        rec["window"] = parts(win)
        fn = lambda: ps.restrict(win)
    elif op == "within":
        rec["edge"] = num(a["edge"])
        fn = lambda: ps.within(scaled(a["edge"]))
    elif op == "filter":
        rec["deep"] = a["deep"]
        rec["default"] = a["test"] is None
        test = a["test"]
        if test is not None:
            if UNIT != 1:
                a["test"] = lambda nm, g, u=UNIT: test(nm, scaled(g, 1/u))
            for nm, g in ps:
                gs = list(getattr(g, "geoms", [g]))
                rec["keep"].append([[bool(a["test"](nm, r)) for r in [p.exterior]+list(p.interiors)] if a["deep"] else
                                    [bool(a["test"](nm, p))] for p in gs if not p.is_empty])
        fn = lambda: ps.filter(a["test"], deep=a["deep"])
    else:
        fn = {"remove_overlaps": ps.remove_overlaps, "unify": ps.unify, "unify_by_name": ps.unify_by_name,
              "zero_gaps": lambda: ps.add_gaps(0), "zero_simplify": lambda: ps.simplify(0)}[op]
    v, exc = call(fn)
    ev = out.emit(kind="op", op=op, exc=exc or "no", before=before, after=lay(v) if v is not None else [], pts=nums(pts),
                  lattice=lattice, changed=snap(ps) != was, type=type(v).__name__, unit=num(UNIT), **rec)
    v = scaled(v, 1/UNIT)
    UNIT = 1.
    return v, ev


def tests(ps=()):
    """Tests for filter that do not depend on more than name and geometry."""
    t = pick([.5, 1.5, 2.5])
    if rng.random() < .3:       # just below the area of one of the patches
        gs = [i for n, g in ps for i in getattr(g, "geoms", [g]) if i.area > 0]
        if gs:
            t = pick(gs).area*pick([.999, 1.001])
            return (lambda nm, g: geometry.Polygon(g).area > t), (lambda nm, g: g.area > t)
    return pick([
        (lambda nm, g: abs(geometry.Polygon(g).area) > t, lambda nm, g: g.area > t),
        (lambda nm, g: nm in ("a", "rf"), lambda nm, g: nm in ("a", "rf")),
        (lambda nm, g: g.is_ccw, lambda nm, g: not g.is_empty and g.bounds[0] > 1),
        (lambda nm, g: len(g.coords) > 5, lambda nm, g: len(g.exterior.coords) > 5),
        (lambda nm, g: g.bounds[0] >= 1, lambda nm, g: not g.interiors),
        (lambda nm, g: True, lambda nm, g: True),
        (lambda nm, g: False, lambda nm, g: False),
    ])


if mode == "P29":
    # histories of the model
    gen = inputs()
    rng.shuffle(gen)
    pos = [(0, 0), (1, 0), (0, 1), (1, 1)]
    for g in gen[:n_(60, 600)]:
        nc = len(g["init"][0]["mem"])
        ps = Polygons()
        for e in g["init"]:
            cs = [pos[j] for j in range(nc) if e["mem"][j]]
            ps.append((e["name"], cells(cs) if cs else geometry.MultiPolygon([])))
        pts = [[x+.5, y+.5] for x, y in pos]
        for o in g["ev"]:
            a = {}
            op = o["op"]
            if op == "restrict":
                a = dict(g=cells([pos[j] for j in range(nc) if o["g"][j]]))
            elif op == "filter_name":
                op, a = "filter", dict(test=lambda nm, b: nm == o["n"], deep=rng.random() < .5)
            ps, ev = do_op(ps, op, pts, True, **a)
            if ps is None:
                break
    # random histories on cells and in general position
    for t in range(n_(140, 520)):
        lattice = rng.random() < .6
        if lattice:
            ps, pts = lattice_layout(rng.randrange(1, 5), disjoint=rng.random() < .3), centres()
        else:
            ps, pts = cheese_layout() if rng.random() < .4 else (generic_layout(rng.randrange(1, 4)), rand_pts(n_(40, 60)))
        for q in range(rng.randrange(1, 4)):
            op = pick(["remove_overlaps", "remove_overlaps", "unify", "unify_by_name", "restrict", "restrict", "within", "filter", "filter", "zero_gaps", "zero_simplify"])
            if not lattice and rng.random() < .25:
                op = "filter"
            a = {}
            if op == "restrict":
                if lattice:
                    a = dict(g=cells(blob(5, 5, rng.randrange(3, 15))))
                else:
                    a = dict(g=generic_poly())
                    if not a["g"].is_valid:
                        continue
            elif op == "within":
                a = dict(edge=float(pick([2, 4, 6, 8, 20])))
            elif op == "filter":
                deep = rng.random() < .6
                tt = tests(ps)
                a = dict(deep=deep, test=None if rng.random() < .25 else tt[0 if deep else 1])
                if a["test"] is None and lattice and rng.random() < .7:
                    # small patches for the default test
                    s = .09
                    ps = Polygons((n, affinity.scale(g, s, s, origin=(0, 0))) for n, g in ps)
                    v, ev = do_op(ps, op, (np.array(pts)*s).tolist(), False, **a)
                    break
            v, ev = do_op(ps, op, pts, lattice, **a)
            if v is None:
                break
            if t in (1, 2, 3) and len(ev["after"]) > 1:
                out.canary(ev, after=ev["after"][:-1])
                e2 = json.loads(json.dumps(ev["after"]))
                big = max(e2, key=lambda i: len(i["parts"]))
                if big["parts"] and lattice:
                    big["parts"] = []
                    out.canary(ev, after=e2)
            ps = v


# ---- P28 -------------------------------------------------------------------
if mode == "P28":
    for t in range(n_(150, 600)):
        lattice = rng.random() < .6
        if lattice:
            ps, pts = lattice_layout(rng.randrange(1, 4)), centres()
        else:
            ps, pts = cheese_layout(True) if rng.random() < .4 else (generic_layout(rng.randrange(1, 3)), rand_pts(30))
        if rng.random() < .5:
            # either sense in the polygons
            ps = Polygons((n, geometry.MultiPolygon([geometry.polygon.orient(p, pick([1, -1])) for p in getattr(g, "geoms", [g])])
                           if not isinstance(g, geometry.Polygon) else geometry.polygon.orient(g, pick([1, -1]))) for n, g in ps)
        if rng.random() < .2:
            ps.insert(rng.randrange(len(ps)+1), ("empty", geometry.MultiPolygon([])))
        if not all(g.is_valid for n, g in ps):
            continue
        units()
        ps = scaled(ps)
        was = snap(ps)
        before = lay(ps)

        def f():
            s = ps.to_system()
            assert isinstance(s, System)
            x = np.c_[np.array(pts), np.full(len(pts), 1e-3)]*UNIT
            pot = []
            for e in s:
                pot.append(flat(e.potential(x, 0)[:, 0]) if lattice else [])
            b = Polygons.from_system(s)
            return dict(names=list(s.names), paths=[[nums(np.array(p)/UNIT) for p in e.paths] for e in s], pot=pot,
                        volts0=bool(np.all(s.dcs == 0) and np.all(s.rfs == 0)), back=lay(b))
        v, exc = call(f)
        ev = out.emit(kind="to_system", exc=exc or "no", before=before, pts=nums(pts), changed=snap(ps) != was, **(v or {}))
        if v and t in (1, 2) and v["paths"] and v["paths"][0]:
            if lattice:
                out.canary(ev, paths=[[p[::-1] for p in v["paths"][0]]]+v["paths"][1:])
            out.canary(ev, names=["zz"]+v["names"][1:])
    for t in range(n_(150, 600)):
        # systems: rings in any order, nested like onions
        s = System()
        units()
        allp = []
        for q in range(rng.randrange(1, 4)):
            c = nrng.randn(2)*1.5
            rings = []
            for o in range(rng.randrange(1, 3)):
                c2 = c + np.array([4.*o, 0])
                k = rng.randrange(1, 5)
                r = 1.6
                for d in range(k):
                    p = star(c2, .85*r, r, rng.randrange(8, 12))
                    r *= .5 if d < k-2 or rng.random() < .8 else 10.**nrng.uniform(-6, -2)
                    p = p if d % 2 == 0 else p[::-1]
                    p = np.roll(p, rng.randrange(len(p)), 0)
                    rings.append(np.asfortranarray(p) if rng.random() < .3 else p.copy())
            rng.shuffle(rings)
            if rng.random() < .15:
                rings = []
            rings = [p*UNIT for p in rings]
            s.append(em.PolygonPixelElectrode(name=pick(NAMES), paths=rings, dc=1., rf=2.))
        if rng.random() < .3:
            s.insert(rng.randrange(len(s)+1), em.CoverElectrode(name="cover"))
        pts = rand_pts(40, -4, 7)
        paths = [[nums(p/UNIT) for p in getattr(e, "paths", [])] for e in s]
        v, exc = call(Polygons.from_system, s)
        paths2 = [[nums(p/UNIT) for p in getattr(e, "paths", [])] for e in s]
        ev = out.emit(kind="from_system", exc=exc or "no", names=list(s.names), polygonal=[hasattr(e, "paths") for e in s],
                      paths=paths, after=lay(v) if v is not None else [], pts=nums(pts), changed=paths != paths2)
        if v and t in (1, 2):
            out.canary(ev, after=[dict(i, parts=[dict(p, ints=[]) for p in i["parts"]]+[{"ext": nums([[9, 9], [9.1, 9], [9, 9.1]]), "ints": []}]) for i in ev["after"]][:-1])


UNIT = 1.


# ---- P30 -------------------------------------------------------------------
def near_points(ps, g, k):
    """Points about g/2 inside the boundaries."""
    res = []
    rs = []
    for n, q in ps:
        for p in getattr(q, "geoms", [q]):
            rs += [p.exterior]+list(p.interiors)
    for _ in range(k):
        r = pick(rs)
        c = np.array(r.coords)[:, :2]
        i = rng.randrange(len(c)-1)
        a, b = c[i], c[i+1]
        l = np.hypot(*(b-a))
        if l == 0:
            continue
        nrm = np.array([a[1]-b[1], b[0]-a[0]])/l
        f = pick([.3, .6, .8, .9, .97, 1.03, 1.1, 1.3, 2.])
        u = pick([0, nrng.rand(), 1])
        res.append((a+(b-a)*u+nrm*pick([1, -1])*f*g/2+nrng.randn(2)*1e-3*g).tolist())
    return res


if mode == "P30":
    for t in range(n_(50, 400)):
        if rng.random() < .5:
            ps = lattice_layout(rng.randrange(1, 4), disjoint=True)
        else:
            ps = disjoint_generic(rng.randrange(1, 3))
        g = pick([.02, .1, .3, .8, 1.5, 4.])    # also so wide that nothing remains
        pts = near_points(ps, g, n_(12, 16)) + rand_pts(6, 0, 5)
        units()
        ps = scaled(ps)
        was = snap(ps)
        before = lay(ps)
        v, exc = call(ps.add_gaps, scaled(g))
        ev = out.emit(kind="gaps", exc=exc or "no", before=before, after=lay(v) if v is not None else [], g=num(g), pts=nums(pts),
                      changed=snap(ps) != was, type=type(v).__name__)
        if v and t in (1, 2):
            out.canary(ev, after=before)
            if any(i["parts"] for i in ev["after"]):
                out.canary(ev, g=num(g*1.5))
    canaried = False
    for t in range(n_(40, 300)):
        tol = pick([.01, .05, .1])
        ps = Polygons()
        anyw = False
        for q in range(rng.randrange(1, 4)):
            def wiggle(c, r, wig):
                p = star(c, .8*r, r, rng.randrange(7, 10))
                if not wig:
                    return p
                res = []
                for a, b in zip(p, np.roll(p, -1, 0)):
                    res.append(a)
                    for u in (.25, .5, .75):
                        res.append(a+(b-a)*u+nrng.uniform(-1, 1, 2)*tol*pick([.4, .4, 1.5]))
                return np.array(res)
            wig = rng.random() < .8
            c = nrng.randn(2)*2
            p = geometry.Polygon(wiggle(c, 4., wig), [wiggle(c, 1.2, wig)] if rng.random() < .5 else [])
            if p.is_valid:
                ps.append((pick(NAMES), geometry.MultiPolygon([p]) if rng.random() < .3 else p))
                anyw |= wig
        pt = rng.random() < .5
        units()
        ps = scaled(ps)
        was = snap(ps)
        v, exc = call(ps.simplify, scaled(tol), preserve_topology=pt)
        ev = out.emit(kind="simplify", exc=exc or "no", before=[dict(l, wiggles=False) for l in lay(ps)], after=lay(v) if v is not None else [],
                      tol=num(tol), changed=snap(ps) != was, type=type(v).__name__)
        if v and anyw and not canaried:
            canaried = out.canary(ev, tol=num(tol/1e6)) or True
    for t in range(n_(15, 60)):
        ps = generic_layout(rng.randrange(1, 3))
        units()
        ps = scaled(ps)
        v, exc = call(ps.smooth, smoothing=0.)
        ev = out.emit(kind="smooth", exc=exc or "no", s="0", before=lay(ps), after=lay(v) if v is not None else [])
    for t in range(n_(40, 300)):
        ps = Polygons()
        for q in range(pick([1, 1, 2])):
            if t % 2:
                # unit cells, sides cut at quarters: straight points and corners
                g = max((p for p in parts_of(cells(blob(4, 4, rng.randrange(1, 8))))), key=lambda p: p.area)
                g = geometry.Polygon(cut(g.exterior), [cut(i) for i in g.interiors])
            else:
                c = nrng.randn(2)*3
                hole = [star(c, .3, .6, rng.randrange(4, 7))] if rng.random() < .5 else []
                g = geometry.Polygon(star(c, .9, 1.6, rng.randrange(5, 12)), hole)
                if rng.random() < .3:
                    g = geometry.MultiPolygon([g, geometry.Polygon(star(c+5, .5, .7, 6))])
            if g.is_valid:
                ps.append((pick(NAMES), g))
        m = max([len(r.coords) for n, g in ps for p in parts_of(g) for r in [p.exterior]+list(p.interiors)] or [5])
        s = nrng.uniform(.002, .02)/m
        kw = {}
        if t % 2 and rng.random() < .6:
            kw["straight"] = pick([30., 5., .5])
        if t % 2 and rng.random() < .6:
            kw["corner"] = pick([30., 5., .5])
        slack = 0.
        if t % 5 == 4:
            # splines of higher degree, sampled finely
            kw.update(k=pick([2, 3]), knots=600)
            slack = .05
        units()
        ps = scaled(ps)
        for attempt in range(4):
            # the iteration behind may announce that it does not converge
            v, exc = call(ps.smooth, smoothing=s*UNIT**2, **kw)
            if exc != "AssertionError":
                break
            s *= .6
        ev = out.emit(kind="smooth", exc=exc or "no", s=num(s), slack=num(slack), straight=num(kw.get("straight", 1.)), corner=num(kw.get("corner", 1.)),
                      before=lay(ps), after=lay(v) if v is not None else [])
        if v and t in (6, 7):
            out.canary(ev, s="1e-15")


UNIT = 1.


# ---- P31 -------------------------------------------------------------------
if mode == "P31":
    for t in range(n_(80, 800)):
        ps = lattice_layout(rng.randrange(1, 6), m=4, n=4, disjoint=rng.random() < .5)
        pads = [[rng.randrange(-1, 10)/2., rng.randrange(-1, 10)/2.] for _ in range(rng.randrange(0, 8))]
        units()
        ps = scaled(ps)
        was = snap(ps)
        c = pick([lambda x: x, lambda x: np.array(x).reshape(-1, 2), lambda x: [tuple(i) for i in x]])
        v, exc = call(lambda: [[-1 if a is None else int(a), int(b)] for a, b in ps.assign_to_pad(c(scaled(pads)))])
        ev = out.emit(kind="assign", exc=exc or "no", before=lay(ps), pads=nums(pads) if pads else [],
                      got=[[a+1, b+1] for a, b in v or []], changed=snap(ps) != was)
        if v and len(v) > 1 and t < 10:
            out.canary(ev, got=ev["got"][::-1])
            out.canary(ev, got=ev["got"][:-1])
    for corner in range(4):
        for odd in (False, True):
            for step, m in [(10., 20), (1., 7), (.5, 4), (10., 1), (3., 5), (2., 6)] + ([(7., k) for k in range(1, 12)] if THOROUGH else []):
                v, exc = call(pm.square_pads, step=step, edge=step*m, odd=odd, start_corner=corner)
                n = m + ((m % 2) + 1 if odd else 0)
                if odd and n != m + 1 - m % 2 + m % 2*2:
                    pass
                ev = out.emit(kind="pads", exc=exc or "no", step=num(step), edge=num(step*m), odd=False if odd else False, n=m,
                              corner=corner, got=nums(v) if v is not None else []) if not odd else None
                if odd:
                    # how many pads fit is up to the code; one is centred
                    k = 0 if v is None else len(v)//4
                    out.emit(kind="pads", exc=exc or "no", step=num(step), edge=num(step*m), odd=True, n=k, corner=corner,
                             got=nums(v) if v is not None else [])
                elif m == 7:
                    out.canary(ev, corner=(corner+1) % 4)
                    out.canary(ev, step=num(step*1.01))


# ---- P32 -------------------------------------------------------------------
def rect(x0, y0, x1, y1):
    return [[x0, y0], [x1, y0], [x1, y1], [x0, y1], [x0, y0]]


def rpath(h, k):
    """A lattice path of k steps of random length."""
    p = [[rng.randrange(-h, h+1), rng.randrange(-h, h+1)]]
    last = None
    for _ in range(k):
        d = pick([i for i in range(4) if last is None or i != (last+2) % 4])
        last = d
        l = rng.randrange(1, 4)
        q = [p[-1][0]+[1, 0, -1, 0][d]*l, p[-1][1]+[0, 1, 0, -1][d]*l]
        p.append([max(-h-1, min(h+1, q[0])), max(-h-1, min(h+1, q[1]))])
        if p[-1] == p[-2]:
            p.pop()
    return p


def gds_file(kw, names):
    """The data as a GDS file with other things in it, and how to read it."""
    from gdsii import library, structure, elements
    unit, scale = pick([(2.**-10, 2.**-6), (2.**-4, None), (2.**-30, 2.**-26)])
    db = lambda p: [tuple(int(i) for i in q) for q in np.atleast_2d(p)*16]
    lib = library.Library(5, b"lib", unit, 1.)
    opt = {}
    # all layers by default; routes need separate ones
    lp = pick([None, [(4, 2)], [(4, 2), (5, 0)]])
    lg = pick([None, [(1, 0)], [(1, 0), (1, 3)]]) if not kw["routes"] and not kw["bridges"] else pick([[(1, 0)], [(1, 0), (1, 3)], []] if not kw["gaps"] else [[(1, 0)], [(2, 0), (1, 3)]])
    ln = pick([None, [9], [9, 0]])
    lr, lb = [(7, 1), (7, 2)][:pick([1, 2])], [(8, 1)]
    els = []

    def prop(e, n):
        if n:
            e.properties = [(77, b"other"), (Polygons._attr_name, n.encode())]
        return e
    cat = [[], [], [], [], []]
    for n, p in kw["polys"]:
        p = p if (p[0] == p[-1]).all() else np.r_[p, p[:1]]
        cat[0].append(prop(elements.Boundary(*pick(lp or [(4, 2), (0, 0)]), db(p)), n))
    for c, which, ls in (1, "gaps", lg or [(1, 0), (0, 7)]), (2, "routes", lr), (3, "bridges", lb):
        for p in kw[which]:
            cat[c].append(elements.Path(*pick(ls), db(p)))
    for n, p in names:
        e = elements.Text(pick(ln or [9, 3]), pick([0, 4]), db(p), n.encode())
        cat[4].append(e if rng.random() < .5 else prop(e, "no"))
    # decoys
    deco = [elements.Path(1, 0, db([[.5, .5]])), elements.Box(4, 2, db(rect(0, 0, 1, 1)+[[0, 0]])), elements.SRef(b"other", db([[0, 0]]))]
    if lp is not None:
        deco.append(elements.Boundary(4, 1, db(rect(-1, -1, 1, 1)+[[-1, -1]])))
    if lg is not None:
        deco.append(elements.Path(1, 1, db([[-9, 0], [9, 0]])))
        opt.update(route_layers=lr, bridge_layers=lb)
    if ln is not None:
        deco.append(prop(elements.Text(8, 9, db([[.5, .5]]), b"decoy"), "decoy"))
    cat += [[d] for d in deco if rng.random() < .6]
    st = structure.Structure(b"cell")
    while any(cat):
        st.append(pick([c for c in cat if c]).pop(0))
    other = structure.Structure(b"other")
    other.append(elements.Boundary(4, 2, db(rect(0, 0, 2, 2)+[[0, 0]])))
    name = None
    if rng.random() < .4:
        lib += [other, st] if rng.random() < .6 else [st, other]
        name = "cell"
    else:
        lib += [st, other]
    for k, l in ("poly_layers", lp), ("gap_layers", lg), ("name_layers", ln), ("name", name), ("scale", scale):
        if l is not None:
            opt[k] = l
    b = io.BytesIO()
    lib.save(b)
    return b.getvalue(), opt


if mode == "P32":
    t = 0
    while t < n_(70, 500):
        E = pick([6, 8]) if not THOROUGH else pick([4, 6, 8, 10])
        h = E//2
        cover = set()
        polys = []
        c = rng.random()
        npoly = rng.randrange(0, 4)
        for q in range(npoly):
            x, y = rng.randrange(-h-1, h), rng.randrange(-h-1, h)
            w, v = rng.randrange(1, 4), rng.randrange(1, 4)
            cs = {(x+i, y+j) for i in range(w) for j in range(v)}
            if rng.random() < .3:
                cs = {(x+i, y+j) for i, j in blob(4, 4, rng.randrange(2, 8))}
            g = cells(cs)
            if cs & cover or not isinstance(g, geometry.Polygon) or g.interiors:
                continue
            cover |= cs
            # does it reach over the square in one piece?
            r = np.array(g.exterior.coords)
            polys.append((pick(["p", "q", "", "rf"]), r if rng.random() < .5 else r[::-1]))
        if rng.random() < .04:
            polys = [("all", np.array(rect(-h, -h, h, h), float))]
        gaps = []
        for q in range(rng.randrange(0, 4)):
            k = rng.randrange(3)
            if k == 0:
                a = rng.randrange(-h+1, h)
                gaps.append([[-h-1, a], [h+1, a]] if rng.random() < .5 else [[a, -h], [a, h]])
            elif k == 1:
                x, y = rng.randrange(-h, h-1), rng.randrange(-h, h-1)
                gaps.append(rect(x, y, min(h, x+rng.randrange(1, 4)), min(h, y+rng.randrange(1, 4))))
            else:
                # a bent path from side to side
                a, b, m = rng.randrange(-h+1, h), rng.randrange(-h+1, h), rng.randrange(-h+1, h)
                gaps.append([[-h-1, a], [m, a], [m, b], [h+1, b]] if a != b else [[-h, a], [h, a]])
        routes, bridges = [], []
        if rng.random() < .5:
            over = 1 if rng.random() < .6 else -1      # may reach over the edge of the field
            x0, y0 = rng.randrange(-h-over, h-1), rng.randrange(-h-over, h-1)
            x1, y1 = min(h+over, x0+rng.randrange(1, 5)), min(h+over, y0+rng.randrange(1, 5))
            if x1 > x0 and y1 > y0:
                # a loop of routes, closed by a bridge on the last side
                routes.append([[x0, y0], [x1, y0], [x1, y1], [x0, y1]])
                bridges.append([[x0, y1], [x0, y0]])
                if rng.random() < .3:
                    routes[0] += [[x0, y0]]
                    bridges = []
        if rng.random() < .2:
            a = rng.randrange(-h+1, h)
            routes.append([[a, -h-1], [a, h+1]])
        if bridges and rng.random() < .3:
            a = rng.randrange(-h+1, h)
            bridges.append([[-h, a], [h, a]])
        if rng.random() < .15:
            gaps = []
        names = []
        for q in range(rng.randrange(0, 4)):
            if rng.random() < .6:
                names.append(("n%i" % q, [rng.randrange(-h, h)+.5, rng.randrange(-h, h)+.5]))
            else:
                names.append(("n%i" % q, [rng.randrange(-2*h, 2*h)/2., rng.randrange(-2*h, 2*h)/2.]))
        kw = dict(polys=[(n, np.array(p, float)) for n, p in polys], gaps=[np.array(g, float) for g in gaps],
                  routes=[np.array(g, float) for g in routes], bridges=[np.array(g, float) for g in bridges], edge=float(E))
        t += 1
        if t % 5 < 2:
            # by way of a file
            files = [gds_file(kw, nm) for nm in ([], names)]
            got = [call(lambda: lay(Polygons.from_gds(io.BytesIO(f), edge=float(E), **o))) for f, o in files]
            (v, exc), (w, exc2) = got if names else (got[0], got[0])
        else:
            UNIT = pick([1., 1., 1., 1e-3, 1e-6, 100.])      # coordinates are rounded to decimals
            if UNIT != 1:
                kw = {k: E*UNIT if k == "edge" else [(n, p*UNIT) for n, p in a] if k == "polys" else [p*UNIT for p in a] for k, a in kw.items()}
                names = [(n, (np.array(p)*UNIT).tolist()) for n, p in names]
                kw["buffer"] = 1e-10*UNIT
            v, exc = call(lambda: lay(Polygons.from_data(**kw)))
            w, exc2 = call(lambda: lay(Polygons.from_data(names=names, **kw))) if names else (v, None)
            names = [(n, (np.array(p)/UNIT).tolist()) for n, p in names]
            UNIT = 1.
        ev = out.emit(kind="data", exc=exc or exc2 or "no", polys=[{"name": n, "ring": nums(p)} for n, p in polys],
                      gaps=[[[int(i) for i in q] for q in g] for g in gaps],
                      routes=[[[int(i) for i in q] for q in g] for g in routes],
                      bridges=[[[int(i) for i in q] for q in g] for g in bridges],
                      names=[{"name": n, "xy": nums(p)} for n, p in names], edge=E, margin=2,
                      plain=v or [], after=w or [])
        if v and gaps and t < 12 and len(v) > len(polys):
            out.canary(ev, plain=v[:-1], after=w[:-1])
            out.canary(ev, plain=[dict(i, name="x") for i in v])


# ---- P34 -------------------------------------------------------------------
if mode == "P34":
    for t in range(n_(60, 500)):
        ps = lattice_layout(rng.randrange(1, 5), m=4, n=4, disjoint=True, off=(rng.randrange(-3, 3), rng.randrange(-3, 3)))
        if t % 4 == 3:      # of the same extent or circumference at the same place, turned or mirrored; may overlap
            cs = blob(3, 3, rng.randrange(1, 6))
            ps = Polygons()
            for _ in range(rng.randrange(2, 4)):
                cs = pick([cs, {(j, i) for i, j in cs}, {(-i, j) for i, j in cs}, {(-i, -j) for i, j in cs}, {(j, -i) for i, j in cs}])
                x0, y0 = [min(c[k] for c in cs)-pick([0, 0, 0, 1, 3]) for k in (0, 1)]
                ps.append((pick(NAMES), cells({(i-x0, j-y0) for i, j in cs})))
        if not ps:
            continue
        units()
        ps = scaled(ps)
        was = snap(ps)

        def f():
            g = ps.gaps_union()
            ls = [l for l in getattr(g, "geoms", [g]) if not l.is_empty]
            return dict(lines=[nums(np.array(l.coords)[:, :2]/UNIT) for l in ls], length=num(g.length/UNIT))
        v, exc = call(f)
        ev = out.emit(kind="network", exc=exc or "no", before=lay(ps), changed=snap(ps) != was, **(v or {}))
        if v and t in (1, 2):
            out.canary(ev, lines=v["lines"]+v["lines"][:1])
            out.canary(ev, lines=v["lines"][1:])


# ---- P33 -------------------------------------------------------------------
def reread(lib, how):
    if how == "memory":
        f = io.BytesIO()
        lib.save(f)
        f.seek(0)
        return f
    return lib


def elements_of(lib):
    from gdsii import elements
    res = []
    for stru in lib:
        for e in stru:
            d = dict(xy=[[num(i) for i in p] for p in np.array(e.xy)], layer=int(e.layer), name="", type=-1, string="", width="0")
            for k, v in (e.properties or []):
                if k == Polygons._attr_name:
                    d["name"] = v.decode()
            if isinstance(e, elements.Boundary):
                d.update(t="boundary", type=int(e.data_type))
            elif isinstance(e, elements.Path):
                d.update(t="path", type=int(e.data_type), width=num(e.width or 0))
            elif isinstance(e, elements.Text):
                d.update(t="text", type=int(e.text_type), string=e.string.decode())
            else:
                d.update(t="other")
            res.append(d)
    return res


if mode == "P33":
    t = 0
    while t < n_(60, 400):
        scale, unit = pick([(1e-6, 1e-9), (40e-6, 1e-9), (1., 1e-3), (40e-6, 1e-8), (1e-3, 1e-9), (50e-6, 5e-9)])
        if rng.random() < .5:
            ps = lattice_layout(rng.randrange(1, 5), disjoint=True, off=(-2, -3))
        else:
            ps = cheese_layout()[0][:1] if rng.random() < .3 else disjoint_generic(rng.randrange(1, 4))
            ps = Polygons((n, affinity.translate(g, -7, -1)) for n, g in ps)
        ps = Polygons((n if rng.random() < .9 else "", g) for n, g in ps)
        holes = any(p.interiors for n, g in ps for p in getattr(g, "geoms", [g]))
        if not ps:
            continue
        t += 1
        pl, gl, tl = pick([(0, 0), (13, 6)]), pick([(1, 0), (7, 3), None]), pick([(0, 0), (5, 2), None])
        width = pick([0., .01, .25])
        name = pick(["trap_electrodes", "T1"])
        units()
        ps = scaled(ps)
        was = snap(ps)
        before = lay(ps)

        def f():
            lib = ps.to_gds(scale=scale/UNIT, phys_unit=unit, poly_layer=pl, gap_layer=gl, text_layer=tl, gap_width=width*UNIT, name=name)
            b = io.BytesIO()
            lib.save(b)
            return lib, b.getvalue()
        v, exc = call(f)
        d = {}
        if v:
            from gdsii import library
            lib = library.Library.load(io.BytesIO(v[1]))
            d = dict(elements=elements_of(lib), lib_unit=num(lib.physical_unit), lib_name=lib.name.decode(), structures=[s.name.decode() for s in lib])
        ev = out.emit(kind="library", exc=exc or "no", before=before, scale=num(scale), unit=num(unit), poly_layer=list(pl),
                      gap_layer=list(gl or []), text_layer=list(tl or []), width=num(width), name=name, changed=snap(ps) != was, **d)
        if v and t in (1, 2):
            out.canary(ev, unit=num(unit*2))
            out.canary(ev, before=before[::-1] + before[:1])
        if not v:
            continue
        # and back
        for how in ("plain", "default"):
            if how == "default" and holes:
                continue          # outlines only: an island would be cut out of its surroundings
            kw = dict(gap_layers=[], name_layers=[]) if how == "plain" else {}
            if UNIT != 1:
                kw.update(edge=40.*UNIT, buffer=1e-10*UNIT)
            if how == "plain" and rng.random() < .5:
                kw["poly_layers"] = [pl, (99, 1)]
            w, exc = call(lambda: lay(Polygons.from_gds(io.BytesIO(v[1]), scale=scale/UNIT, name=pick([None, name]), **kw)))
            ev = out.emit(kind="back", exc=exc or "no", before=before, after=w or [], scale=num(scale), unit=num(unit), ordered=how == "plain")
            if w and t in (1, 2):
                out.canary(ev, scale=num(scale*1e9), before=[dict(i, name=i["name"]+"x") for i in before])
        units()
    for t in range(n_(30, 200)):
        scale, unit = pick([(1e-6, 1e-9), (40e-6, 1e-9)])
        UNIT = 1.
        ps = lattice_layout(rng.randrange(1, 5), m=6, n=6, disjoint=True, off=(-3, -3))
        ps = Polygons((n, geometry.MultiPolygon([p for p in getattr(g, "geoms", [g]) if not p.interiors])) for n, g in ps)
        ps = Polygons((n, g) for n, g in ps if not g.is_empty)
        if not ps:
            continue
        units()
        ps = scaled(ps)
        edge = pick([2., 4., 3., 5., 20.])
        pts = centres(6, 6, off=(-3.25, -3.25)) + centres(6, 6, off=(-2.75, -2.75))

        def f():
            b = io.BytesIO()
            ps.to_gds(scale=scale/UNIT, phys_unit=unit, edge=edge*UNIT).save(b)
            b.seek(0)
            return lay(Polygons.from_gds(b, scale=scale/UNIT, edge=40.*UNIT, gap_layers=[], name_layers=[]))
        v, exc = call(f)
        ev = out.emit(kind="clip", exc=exc or "no", before=lay(ps), after=v or [], edge=num(edge), scale=num(scale), unit=num(unit), pts=nums(pts))
        if v and t in (1, 2):
            out.canary(ev, after=[])


# ---- P44 -------------------------------------------------------------------
if mode == "P44":
    import itertools

    def check(ps, canary=False):
        units()
        ps = Polygons((m, g if g.is_empty else scaled(g)) for m, g in ps)
        was, before = snap(ps), lay(ps)
        v, exc = call(ps.validate)
        ev = out.emit(kind="validate", exc="no", before=before, raised=exc or "no", changed=snap(ps) != was)
        if canary:
            out.canary(ev, raised="ValueError" if not exc else "no")
    ok = [("ok", cells({(0, 0), (1, 0), (1, 1)}, 20, 20))]
    L3 = [(i, j) for i in range(3) for j in range(3)]
    n = 0
    # all rings of three and four (thorough: some of five and six) lattice points
    for k in (3, 4, 5, 6):
        every = itertools.product(L3, repeat=k) if k < 5 else (tuple(pick(L3) for _ in range(k)) for _ in range(n_(300, 4000)))
        for r in every:
            if k < 5 and (r[0] != min(r) or r[1] > r[-1]) or len(set(r)) < 3 and rng.random() < .5:
                continue
            if k == 4 and not THOROUGH and rng.random() < .6:
                continue
            n += 1
            ps = Polygons([("ring", geometry.Polygon(r))])
            check(Polygons((ok if n % 3 else [])+list(ps)+(ok if n % 5 else [])), canary=n in (3, 40))
    for t in range(n_(120, 1500)):
        ps = Polygons()
        for q in range(rng.randrange(0, 3)):
            gs = []
            for o in range(pick([0, 1, 1, 1, 2])):
                c = nrng.randn(2)*1.2
                ext = nrng.randn(rng.randrange(3, 7), 2) if rng.random() < .2 else star(c, .9, 1.7, rng.randrange(4, 10))
                ints = [star(c+nrng.randn(2)*.4, .1, .5, rng.randrange(3, 6)) for _ in range(pick([0, 0, 1, 1, 2]))]
                gs.append(geometry.Polygon(ext, ints))
            ps.append((pick(NAMES), gs[0] if len(gs) == 1 and rng.random() < .5 else geometry.MultiPolygon(gs)))
        check(ps)
