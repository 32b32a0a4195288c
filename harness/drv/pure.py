"""Histories of queries and assignments on systems of real electrodes (P38).

The history is what TLC enumerated (classes of queries and kinds of
assignments) or a random one; this driver fills in arguments, plays it on the
real system, and records everything observable after every step: voltages,
names, membership, every documented geometry attribute, the arguments before
and after, and the answer, together with the answer of a twin, a system built
afresh with the same attributes.
"""
import sys, hashlib, re, io, warnings
from drvlib import *
warnings.simplefilter("ignore")
electrode, em, utils, sysm, pc, gridm = load("electrode", "electrode.electrode", "electrode.utils",
                                      "electrode.system", "electrode.pattern_constraints", "electrode.grid")
import cvxopt, cvxopt.solvers
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
out = Out()
PRISTINE = dict(cvxopt.solvers.options)
np.seterr(all="ignore")

GEO = {"PointPixelElectrode": ["points", "areas", "cover_height", "cover_nmax"],
       "PolygonPixelElectrode": ["paths", "cover_height", "cover_nmax"],
       "CoverElectrode": ["height"],
       "GridElectrode": ["data", "origin", "spacing"],
       "MeshPixelElectrode": ["points", "edges", "polygons", "potentials", "cover_height", "cover_nmax"]}


def fp(o):
    """Value of an argument or attribute as a string."""
    if isinstance(o, np.ndarray):
        return "array%s:%s" % (list(o.shape), hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest()[:12])
    if isinstance(o, (list, tuple)):
        return "[%s]" % ",".join(fp(i) for i in o)
    if isinstance(o, dict):
        return "{%s}" % ",".join("%s=%s" % (k, fp(o[k])) for k in sorted(o))
    if isinstance(o, em.Electrode):
        return "%s(%s)" % (type(o).__name__, ",".join(fp(getattr(o, a)) for a in ["name", "dc", "rf"] + GEO[type(o).__name__]))
    if isinstance(o, (pc.Constraint,)):
        return "%s(%s)" % (type(o).__name__, ",".join("%s=%s" % (k, fp(v)) for k, v in sorted(vars(o).items()) if not k.startswith("_")))
    if isinstance(o, (bool, int, float, np.floating, np.integer)):
        return repr(float(o))
    if o is None or isinstance(o, str):
        return str(o)
    return type(o).__name__


# ---- electrodes ----------------------------------------------------------
def poly(n=None, at=None):
    n = n or rng.randrange(3, 7)
    a = np.sort(nrng.uniform(0, 2*np.pi, n))
    r = nrng.uniform(.4, 1.2)
    return (np.array(at if at is not None else nrng.randn(2)*1.5) + r*np.c_[np.cos(a), np.sin(a)])


def recipe(kind, name):
    r = {"cls": None, "name": name, "dc": float(nrng.randn()), "rf": float(pick([0., 0., 1., nrng.randn()])), "geo": {}}
    g = r["geo"]
    surf = {"cover_height": pick([50., 6.]), "cover_nmax": pick([0, 0, 1])}
    if kind == "point":
        n = rng.randrange(1, 5)
        r["cls"], r["geo"] = "PointPixelElectrode", dict(points=nrng.randn(n, 2)*1.5, areas=nrng.uniform(.1, .6, n), **surf)
    elif kind == "polygon":
        r["cls"], r["geo"] = "PolygonPixelElectrode", dict(paths=[poly() for _ in range(rng.randrange(1, 3))], **surf)
    elif kind == "cover":
        r["cls"], r["geo"] = "CoverElectrode", dict(height=pick([20., 50.]))
    elif kind == "grid":
        sh = (7, 6, 7)
        k = nrng.randn(3)*.3
        pts = np.moveaxis(np.mgrid[:7, :6, :7], 0, -1)*np.array([1., 1.2, .8])
        base = np.cos(pts.dot(k))
        r["cls"], r["geo"] = "GridElectrode", dict(
            data=[base[..., None]*nrng.randn(2*d+1) for d in range(5)],
            origin=np.array([-3., -3., -1.]), spacing=np.array([1., 1.2, .8]))
    else:
        a, b = poly(4, (-1.5, 0)), poly(5, (1.5, 0))
        pts = np.r_[a, b]
        ea, eb = np.arange(4), 4+np.arange(5)
        r["cls"], r["geo"] = "MeshPixelElectrode", dict(
            points=pts, edges=np.r_[np.c_[np.roll(ea, 1), ea], np.c_[np.roll(eb, 1), eb]].astype(np.intc),
            polygons=np.r_[np.zeros(4), np.ones(5)].astype(np.intc), potentials=nrng.randn(2), **surf)
    return r


def cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [cp(i) for i in v]
    return v


def build1(r):
    return getattr(em, r["cls"])(name=r["name"], dc=r["dc"], rf=r["rf"], **{k: cp(v) for k, v in r["geo"].items()})


class World(object):
    """A real system, its ids, and the recipes of its electrodes."""
    def __init__(self, kinds, rfc):
        self.rec, self.id, self.n = [], {}, 0
        self.s = sysm.System()
        for k in kinds:
            self.add(k)
        if rfc is not None:
            self.s.rf_coeff = rfc

    def add(self, kind):
        self.n += 1
        r = recipe(kind, "e%d" % self.n)
        e = build1(r)
        r["id"], r["el"] = self.n, e
        self.rec.append(r)
        self.s.append(e)
        return self.abstract(r)

    @staticmethod
    def abstract(r):
        return {"id": r["id"], "name": r["name"], "dc": repr(float(r["dc"])), "rf": repr(float(r["rf"])),
                "geo": {k: fp(v) for k, v in r["geo"].items()}}

    def obs(self):
        s = self.s
        ids = {id(r["el"]): r["id"] for r in self.rec}
        return {"order": [ids.get(id(e), -1) for e in list(s)],
                "names": [str(n) for n in s.names], "dcs": [repr(float(i)) for i in s.dcs],
                "rfs": [repr(float(i)) for i in s.rfs],
                "geo": [{k: fp(getattr(e, k)) for k in GEO[type(e).__name__]} for e in list(s)],
                "rfc": repr(float(s.rf_coeff)) if hasattr(s, "rf_coeff") else "unset"}

    def twin(self):
        ids = {id(r["el"]): r for r in self.rec}
        t = sysm.System()
        for e in list(self.s):
            r = dict(ids[id(e)])
            r.update(name=e.name, dc=e.dc, rf=e.rf)
            t.append(build1(r))
        if hasattr(self.s, "rf_coeff"):
            t.rf_coeff = self.s.rf_coeff
        return t


# ---- queries --------------------------------------------------------------
def pts(n=None):
    n = n or rng.randrange(1, 4)
    x = np.c_[nrng.uniform(-1, 1, (n, 2)), nrng.uniform(.5, 1.8, n)]
    return pick([lambda: x.tolist(), lambda: x, lambda: np.asfortranarray(x), lambda: x[0]])()


def pt():
    x = np.r_[nrng.uniform(-.6, .6, 2), nrng.uniform(.6, 1.6)]
    return pick([lambda: x, lambda: x.tolist(), lambda: tuple(x)])()


def objs(m):
    k = []
    for i in range(rng.randrange(1, 3)):
        k.append(pc.PotentialObjective(x=pt(), derivative=pick(["x", "z", "xx", "yz", ""]), value=pick([1., 0., -2.]) if i else 1.,
                                       rotation=pick([None, rotation()])))
    if rng.random() < .3:
        k.append(pc.MultiPotentialObjective(components=[pc.PotentialObjective(x=pt(), derivative="y", value=3.), k[0]], value=.5))
    return k


def q_evaluate(w):
    m = pick(["electrical", "electrical", "individual", "time", "pseudo", "potential", "electrode", "orientations", "to_points", "mesh"])
    x, d = pts(), rng.randrange(0, 4)
    a = {"x": x}
    if m == "electrical":
        ty, ex = pick(["dc", "rf"]), pick([True, False])
        return m, a, lambda s: s.electrical_potential(x, d, ty, ex), [d, ty, ex]
    if m == "individual":
        return m, a, lambda s: s.individual_potential(x, d), [d]
    if m == "time":
        t = nrng.uniform(0, 7)
        return m, a, lambda s: s.time_potential(x, d, t), [d, t]
    if m == "pseudo":
        return m, a, lambda s: s.pseudo_potential(x, d), [d]
    if m == "potential":
        ty = pick(["tot", "dc", "rf"])
        return m, a, lambda s: s.potential(x, d, ty), [d, ty]
    if m == "electrode":
        i, v = rng.randrange(8), float(nrng.randn())
        x2 = np.atleast_2d(np.array(x))
        return m, {"x": x2}, lambda s: s[i % len(s)].potential(x2, d, v), [i, d, v]
    i = rng.randrange(8)
    if m == "mesh":
        return m, {}, lambda s: em.MeshPixelElectrode.from_polygon_system(s).potential(np.atleast_2d(np.array(x)), 1), [fp(x)]
    return m, {}, lambda s: (lambda r: r if m == "orientations" else [r.points, r.areas])(getattr(s[i % len(s)], m)()), [i]


def q_search(w):
    m = pick(["minimum", "minimum", "saddle", "modes", "trajectory"])
    x = pt()
    ax = pick([(0, 1, 2), (0, 2), [2], (1,)])
    co = pick([np.identity(3), rotation()])
    if m == "minimum":
        me = pick(["Newton-CG", "Nelder-Mead", "BFGS", "Powell"])
        it = pick([3, 60, 60])
        return m, {"x": x, "axis": ax, "coord": co}, lambda s: s.minimum(x, ax, co, me, options={"maxiter": it}), [me, it]
    if m == "saddle":
        return m, {"x": x, "axis": ax, "coord": co}, lambda s: s.saddle(x, ax, co), []
    if m == "modes":
        so = pick([True, False])
        return m, {"x": x}, lambda s: s.modes(x, so), [so]
    v = nrng.randn(3)*.1

    def euler(ddx, n, t, p, q, t1):
        f = np.zeros_like(q)
        ddx(t, q, f)
        p += (t1-t)*f
        q += (t1-t)*p
    return m, {"x": x, "v": v, "axis": ax}, lambda s: [list(r) for r in s.trajectory(x, v, ax, 0, .05, .22, 1, euler)], []


def q_solve(w):
    m = pick(["optimize", "optimize", "shims", "solve", "solve"])
    k = objs(len(w.s))
    opt = pick([{}, {}, {}, {"maxiters": 1}, {"abstol": 1e-3, "reltol": 1e-3, "feastol": 1e-2}])
    mx = pick([1., 5.])
    r = pc.PatternRangeConstraint(min=pick([-mx, -1., -1., 2.]), max=mx)
    if m == "optimize":
        a = {"constraints": k+[r]}
        return m, a, lambda s: s.optimize(a["constraints"], verbose=False, **opt), [opt]
    if m == "shims":
        xcd = [(pt(), pick([None, rotation()]), pick(["x", "y", "zz"])) for _ in range(rng.randrange(1, 3))]
        a = {"xcd": xcd, "objectives": k[-1:], "constraints": pick([None, [r]])}
        return m, a, lambda s: s.shims(a["xcd"], a["objectives"], a["constraints"], **opt), [opt]
    loc = [[pc.PotentialObjective(x=pt(), derivative=pick(["x", "zz"]), value=pick([.1, 0.]))] + [pc.PatternRangeConstraint(min=-9., max=9.)] for _ in range(2)]
    glob = [pc.VoltageDerivativeConstraint(order=pick([0, 1]), weight=1., **pick([{}, {"max": 20.}]))]
    a = {"local": loc, "global": glob}
    return m, a, lambda s: s.solve(a["local"], a["global"], verbose=False, **opt), [opt]


def q_report(w):
    m = pick(["analyze", "analyze", "group", "group", "mathieu"])
    x = pt()
    if m == "analyze":
        off = nrng.randn(3)*.05
        kw = pick([{}, {"min_off": True}, {"min_offset": off, "saddle_offset": off}])
        stop = pick([100, 100, 4, 9])
        ax = pick([(0, 1, 2), (0, 2)])

        def f(s):
            r = []
            for line in s.analyze_static(x, axis=ax, m=40*1.66e-27, o=2*np.pi*20e6, **kw):
                r.append(line)
                if len(r) >= stop:
                    break
            return "\n".join(r)
        return m, {"x": x, "kw": kw, "axis": ax}, f, [stop, fp(kw)]
    if m == "group":
        v = pick([None, nrng.randn(len(w.s))])
        t = pick([None, [0.], np.sort(nrng.randn(2))])

        def f(s):
            g = s.group(t, v)
            return [g.dcs, g.rfs] + [np.concatenate([np.array(p) for p in e.paths]) if e.paths else np.zeros((0, 2)) for e in list(g)]
        return m, {"v": v, "t": t}, f, []
    sc, r, so = nrng.uniform(.1, .5), rng.randrange(1, 4), pick([True, False])
    return m, {"x": x}, lambda s: list(s.mathieu(x, sc, r, so))[:1], [sc, r, so]


def q_draw(w):
    m = pick(["plot", "voltages", "contour"])
    u = pick([None, nrng.randn(len(w.s))])
    um = pick([None, 2.])
    c = np.array([0., 0., 1.])
    g = dict(center=c, step=np.array([.2, .3, .2]), shape=np.array([3, 4, 2]))
    slc = pick("xyz")

    def f(s):
        fig, ax = plt.subplots()
        try:
            if m == "plot":
                s.plot(ax)
            elif m == "voltages":
                s.plot_voltages(ax, u, um)
            else:
                return list(s.plot_contour(ax, gridm.Grid(**g), "dc", slc, .9)[1])
            return []
        finally:
            plt.close(fig)
    return m, {"u": u, "grid": g}, f, [um, slc]


def q_fail(w):
    m = pick(["shape", "typ", "resource", "order", "axis", "infeasible", "method", "index", "contradictory", "groupshape"])
    x = pt()
    if m == "resource":
        k = [pc.PotentialObjective(x=x, derivative="x", value=1.), pc.PatternRangeConstraint(min=-1., max=1.)]
        return m, {"k": k}, lambda s: s.optimize(k, verbose=False, maxiters=1), []
    if m == "shape":
        y = nrng.randn(2, 2)
        return m, {"x": y}, lambda s: s.potential(y, 1), []
    if m == "typ":
        return m, {"x": x}, lambda s: s.potential(x, 0, "xx"), []
    if m == "order":
        return m, {"x": x}, lambda s: s.pseudo_potential(x, 5), []
    if m == "axis":
        return m, {"x": x}, lambda s: s.minimum(x, (0, 5)), []
    if m == "method":
        return m, {"x": x}, lambda s: s.minimum(x, method="nope"), []
    if m == "index":
        return m, {}, lambda s: s[99], []
    if m == "infeasible":
        k = [pc.PotentialObjective(x=x, derivative="x", value=pick([1., 3.])), pc.PatternRangeConstraint(min=2., max=1.)]
        xcd = [(x, None, "y"), (x, rotation(), "z")]
        if rng.random() < .5:
            return m, {"k": k}, lambda s: s.optimize(k, verbose=False), []
        return m, {"k": k, "xcd": xcd}, lambda s: s.shims(xcd, k[:1], k[1:]), []
    if m == "contradictory":
        k = [pc.PotentialObjective(x=x, derivative="x", value=1.), pc.PotentialObjective(x=x, derivative="x", value=2.)]
        return m, {"k": k}, lambda s: s.optimize(k, verbose=False), []
    v = nrng.randn(len(w.s)+2)
    return m, {"v": v}, lambda s: s.group([0.], v), []


CLASSES = {"evaluate": q_evaluate, "search": q_search, "solve": q_solve, "report": q_report, "draw": q_draw, "fail": q_fail}
TOL = {"minimum": "1e-6", "saddle": "1e-6", "optimize": "1e-6", "shims": "1e-6", "solve": "1e-6", "analyze": "2e-3"}
NUMRE = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)")


def digest(v, exc):
    """(shape, skeleton) and the numbers of an answer."""
    vals = []

    def walk(o):
        if isinstance(o, str):
            vals.extend(num(i) for i in NUMRE.findall(o))
            return NUMRE.sub("#", o)
        if isinstance(o, (list, tuple)):
            return "[%s]" % ";".join(walk(i) for i in o)
        if isinstance(o, np.ndarray):
            f = np.ascontiguousarray(o).ravel()
            if np.iscomplexobj(f):
                f = np.r_[f.real, f.imag]
            vals.extend(num(i) for i in f[:400])
            return "array%s" % list(o.shape)
        if isinstance(o, (int, float, np.floating, np.integer)):
            vals.append(num(o))
            return "#"
        return type(o).__name__
    if exc:
        return {"kind": exc, "vals": []}
    return {"kind": re.sub(r"\s+", " ", walk(v)), "vals": vals}


def scribble(o):
    if isinstance(o, (list, tuple)):
        for i in o:
            scribble(i)
    elif isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in "fc":
        o[...] = 7e77


import contextlib


class Boom(Exception):
    pass


def ask(w, q):
    cls, m, args, f, key = q
    before = fp(args)
    with contextlib.redirect_stdout(io.StringIO()):
        v, exc = call(f, w.s)
    after = fp(args)
    ans = digest(v, exc)
    if m not in ("to_points", "orientations", "group"):
        scribble(v)
    o = w.obs()
    t = w.twin()
    saved = dict(cvxopt.solvers.options)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(PRISTINE)
    with contextlib.redirect_stdout(io.StringIO()):
        v2, exc2 = call(f, t)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(saved)
    return {"op": "query", "kind": cls, "q": m + hashlib.sha1((before + fp([str(i) for i in key])).encode()).hexdigest()[:10], "m": m,
            "before": before, "after": after, "ans": ans, "twin": digest(v2, exc2), "tol": TOL.get(m, "1e-9"), "obs": o, "exc": "no"}


def run(kinds, rfc, ops, key):
    w = World(kinds, rfc)
    init = [w.abstract(r) for r in w.rec]
    ev, stack, asked = [], [], []
    for o in ops:
        s = w.s
        op = o["op"]
        if op == "query":
            q = o.get("again")
            if q is not None:
                if not asked:
                    continue
                q = asked[q % len(asked)]
            else:
                q = (o["cls"],) + CLASSES[o["cls"]](w)
                asked.append(q)
            ev.append(ask(w, q))
            continue
        e = {"op": op, "kind": op, "exc": "no"}
        if op in ("setdcs", "setrfs"):
            v = nrng.randn(rng.randrange(0, len(s)+2))
            e["v"] = {"t": "seq", "s": [repr(float(i)) for i in v]}
            setattr(s, op[3:], v)
        elif op == "setnames":
            v = ["n%d" % rng.randrange(9) for _ in range(len(s))]
            e["v"] = {"t": "seq", "s": v}
            s.names = v
        elif op == "setone":
            if not len(s):
                continue
            i, f, v = rng.randrange(len(s)), pick(["dc", "rf"]), float(nrng.randn())
            e.update(i=i+1, f=f, v=repr(v))
            setattr(s[i], f, v)
        elif op == "append":
            e["e"] = w.add(pick(["point", "polygon", "cover", "polygon"]))
        elif op == "pop":
            if len(s) < 2:
                continue
            s.pop()
        elif op == "enter":
            n = len(s)
            d = pick([None, nrng.randn(n)])
            r = pick([None, nrng.randn(n)])
            e["dcs"] = {"t": "none", "s": []} if d is None else {"t": "seq", "s": [repr(float(i)) for i in d]}
            e["rfs"] = {"t": "none", "s": []} if r is None else {"t": "seq", "s": [repr(float(i)) for i in r]}
            cm = s.with_voltages(dcs=d, rfs=r)
            cm.__enter__()
            stack.append(cm)
        elif op == "exit":
            if not stack:
                continue
            cm = stack.pop()
            if rng.random() < .4:
                try:
                    cm.__exit__(Boom, Boom(), None)
                except Boom:
                    pass
            else:
                cm.__exit__(None, None, None)
        elif op == "rfscale":
            s.rf_scale(pick([9, 40])*1.66e-27, 1.6e-19, 1e-4, 2*np.pi*pick([20e6, 30e6, 90e6]))
            e["rfc"] = repr(float(s.rf_coeff))
        elif op == "geo":
            if not len(s):
                continue
            i = rng.randrange(len(s))
            el = s[i]
            r = [r for r in w.rec if r["el"] is el][0]
            cands = [a for a in GEO[r["cls"]] if a in ("points", "areas", "cover_height", "cover_nmax", "paths", "height", "data", "origin", "potentials")]
            a = pick(cands)
            old = r["geo"][a]
            if a in ("cover_height", "height"):
                new = old*1.25
            elif a == "cover_nmax":
                new = (old+1) % 3
            elif isinstance(old, list):
                new = [i*1.05 for i in old]
            else:
                new = old*1.05
            r["geo"][a] = new
            if isinstance(old, np.ndarray) and rng.random() < .5:
                getattr(el, a)[...] = new       # in place
            elif isinstance(old, list) and rng.random() < .5:
                for p, n in zip(getattr(el, a), new):
                    p[...] = n
            else:
                setattr(el, a, cp(new))
            e.update(i=i+1, a=a, v=fp(new))
        e["obs"] = w.obs()
        ev.append(e)
    while stack:
        stack.pop().__exit__(None, None, None)
        ev.append({"op": "exit", "kind": "exit", "exc": "no", "obs": w.obs()})
    for q in asked[:4]:
        ev.append(ask(w, q))
    return out.emit(kind="history", key=key, init=init, rfc="unset" if rfc is None else repr(float(rfc)), ev=ev)


MIX = [["polygon", "polygon"], ["polygon", "polygon", "polygon", "polygon"], ["polygon", "polygon", "polygon"], ["point", "polygon"], ["polygon", "cover", "polygon"], ["grid", "grid", "grid"],
       ["polygon", "point", "mesh"], ["grid", "polygon"], ["polygon", "polygon", "polygon", "polygon", "point"], ["point"]]


def rfc():
    return pick([.1, .05, .1, .02, None])


for n, h in enumerate(inputs()):
    ops = [{"op": "query", "cls": o["cls"]} if o["op"] == "query" else
           {"op": "query", "again": 0} if o["op"] == "again" else {"op": o["op"]} for o in h["ev"]]
    run(MIX[(n + SEED) % len(MIX)], rfc(), ops, "gen-%d" % n)

STATE = ["setdcs", "setrfs", "setnames", "setone", "append", "pop", "enter", "exit", "rfscale", "geo"]
for n in range(500 if THOROUGH else 160):
    ops = []
    for _ in range(rng.randrange(5, 16)):
        c = rng.random()
        if c < .45:
            ops.append({"op": "query", "cls": pick(sorted(CLASSES))})
        elif c < .6:
            ops.append({"op": "query", "again": rng.randrange(9)})
        else:
            ops.append({"op": pick(STATE)})
    run(pick(MIX), rfc(), ops, "rand-%d" % n)

e = run(["polygon", "polygon"], .1, [{"op": "query", "cls": "evaluate"}, {"op": "setdcs"}, {"op": "query", "cls": "search"}], "canary")


def corrupt(f):
    b = json.loads(json.dumps(e["ev"]))
    f(b)
    out.canary(dict(e, ev=b))


corrupt(lambda b: b[0]["obs"]["dcs"].__setitem__(0, "77.0"))
corrupt(lambda b: b[0]["obs"]["geo"][1].__setitem__("paths", "x"))
corrupt(lambda b: b[2]["obs"]["order"].reverse())
corrupt(lambda b: b[0].__setitem__("after", "x"))
corrupt(lambda b: b[0]["twin"].__setitem__("kind", "x"))
corrupt(lambda b: b[-1]["ans"].__setitem__("kind", "x"))
corrupt(lambda b: b[0]["obs"].__setitem__("rfc", "2.0"))
