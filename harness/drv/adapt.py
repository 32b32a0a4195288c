"""Adaptive mesh refinement (P45).

The mesh generator is not installed: a stand-in records what it is asked for
and answers with planned meshes.
"""
import sys, re, types
from drvlib import *
import cvxopt, cvxopt.modeling
REQ, PLAN = [], []


def triangulate(opts="", **args):
    REQ.append((opts, {k: np.array(v, order="K") for k, v in args.items()}, args))
    if len(REQ) > len(PLAN):
        raise RuntimeError("too many requests")
    m = PLAN[len(REQ)-1]
    ans = {k: np.array(v) for k, v in m.items()}
    REQ[-1] += ({k: np.array(v) for k, v in ans.items()},)
    return ans


bem = types.ModuleType("bem")
bem.pytriangle = types.ModuleType("bem.pytriangle")
bem.pytriangle.triangulate = triangulate
sys.modules["bem"], sys.modules["bem.pytriangle"] = bem, bem.pytriangle
electrode, em, sysm, pc, adaptive = load("electrode", "electrode.electrode", "electrode.system",
                                         "electrode.pattern_constraints", "electrode.adaptive")
System, Poly = sysm.System, em.PolygonPixelElectrode
out = Out()
UNIT = 1.


# ---- meshes ----------------------------------------------------------------
def finish(pts, tri, nb):
    return {"points": np.asarray(pts, float)*UNIT, "triangles": np.asarray(tri, np.intc), "neighbors": np.asarray(nb, np.intc),
            "segments": np.array([[0, 1]], np.intc), "segmentmarkers": np.array([2], np.intc),
            "pointmarkers": np.zeros(len(pts), np.intc)}


def strip(n):
    """n triangles between two lines."""
    pts = np.array([(i/2.+.1*rng.random(), (i % 2)*1.+.1*rng.random()) for i in range(n+2)])
    tri = [(i, i+1, i+2) if i % 2 == 0 else (i+1, i, i+2) for i in range(n)]
    tri = [(t[0], t[2], t[1]) if i % 2 == 0 else (t[0], t[2], t[1]) for i, t in enumerate(tri)]
    res, nb = [], []
    for i, t in enumerate(tri):
        p = pts[list(t)]
        d1, d2 = p[1]-p[0], p[2]-p[0]
        if d1[0]*d2[1]-d1[1]*d2[0] < 0:
            t = (t[0], t[2], t[1])
        res.append(t)
    for i, t in enumerate(res):
        nb.append([next((j for j in (i-1, i+1) if 0 <= j < n and set(t)-{c} <= set(res[j])), -1) for c in t])
    return finish(pts, res, nb)


def delaunay(n):
    from scipy.spatial import Delaunay
    d = Delaunay(nrng.rand(n, 2)*2)
    tri, nb = np.array(d.simplices), np.array(d.neighbors)
    p = d.points[tri]
    a, b = p[:, 1]-p[:, 0], p[:, 2]-p[:, 0]
    cw = a[:, 0]*b[:, 1]-a[:, 1]*b[:, 0] < 0
    tri[cw] = tri[cw][:, [0, 2, 1]]
    nb[cw] = nb[cw][:, [0, 2, 1]]
    perm = nrng.permutation(len(tri))
    inv = np.argsort(perm)
    nb = np.where(nb[perm] < 0, -1, inv[nb[perm]])
    return finish(d.points, tri[perm], nb)


# ---- what to optimise --------------------------------------------------------
class Planned:
    """Voltages as planned: each electrode's largest, all wanted positive."""
    def __init__(self):
        self.plan = {}

    def w(self, s):
        return 1+.1*np.arange(len(s))

    def key(self, e):
        return tuple(np.round(np.mean(np.asarray(e.paths[0], float), 0)/UNIT, 7))

    def u(self, s):
        return np.array([self.plan[self.key(e)] for e in s])

    def objective(self, s, v):
        yield self.w(s), 1.

    def constraints(self, s, v):
        u = self.u(s)
        yield v <= cvxopt.matrix(u)
        yield v >= cvxopt.matrix(u-1.)


class Lookup(Planned):
    """A mesh may come again with other potentials: one plan for each round."""
    def __init__(self, plans):
        self.plans, self.n = plans, 0

    def u(self, s):
        # the mesh of these electrodes is the one of the present round
        plan = self.plans[len(REQ)-1]
        return np.array([plan[self.key(e)] for e in s])


def trafo():
    a = pick([0, np.pi/2, np.pi, nrng.rand()*6])
    m = np.eye(4)
    m[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
    sign = 1
    if rng.random() < .4:
        m[:, 0] *= -1
        sign = -1
    if rng.random() < .5:
        m[:2, 3] = nrng.randn(2)*UNIT*3
    m[2, :3] = nrng.randn(3)
    return m, sign


def trec(ts):
    return [{"m": nums(m), "sign": str(s)} for m, s in ts]


def boundary(n=None):
    n = n or rng.randrange(3, 9)
    t = np.sort(nrng.rand(n))*2*np.pi
    return np.c_[np.cos(t), np.sin(t)]*(1+nrng.rand())*UNIT + nrng.randn(2)*3*UNIT


def run(meshes, pots, limit, real=False, nfixed=None, sym=None, as_electrodes=None):
    """meshes: those within the limit; pots: planned potentials of each."""
    global PLAN
    paths = [boundary() for _ in range(rng.randrange(1, 4))]
    if rng.random() < .3:
        paths = [np.round(p*100/UNIT).astype(int) for p in paths] if UNIT == 1 else paths
    if rng.random() < .4:
        paths = [np.asfortranarray(p) for p in paths[:pick([1, 3])]]
    nf = rng.randrange(0, 3) if nfixed is None else nfixed
    fixed = [boundary()+100*(i+1)*UNIT for i in range(nf)]
    ufixed = list(nrng.randn(nf))
    thr = 1.5 if limit else pick([.5, .5, 1., nrng.rand()+.1])
    big = delaunay(limit + 6) if limit else delaunay(60)
    nlimit = limit or max([len(m["triangles"]) for m in meshes] or [5])
    if len(big["triangles"]) <= nlimit:
        big = delaunay(nlimit+20)
    PLAN = meshes + [big]
    if len(big["triangles"]) <= nlimit:
        return
    del REQ[:]
    a, q = pick([1., .25, 2.5, .013]), pick([20, 30., 12.5])
    up, down = pick([(16., 4.), (2., 2.), (3., 7.), (1., 1.5)])
    kw = {}
    opt = dict(threshold=thr, nmax=nlimit, a=a, q=q, up=up, down=down)
    if rng.random() < .2:
        opt.pop("up"), opt.pop("down")
        up, down = 16., 4.
    if rng.random() < .2:
        opt.pop("a"), opt.pop("q")
        a, q = 1, 20
    if not limit and rng.random() < .2:
        opt.pop("threshold")
        thr = .5
    cover = 50.
    if rng.random() < .5:
        cover = kw["cover_height"] = 3.*UNIT
    ts = [] if sym is None else sym
    if ts:
        opt["symmetry"] = adaptive.transformer(ts)

    def image(p):
        r = []
        for m, s in ts:
            r.append(np.array([m[:2, :2].dot(c)+m[:2, 3] for c in p])[::s])
        return r or [p]

    def own(m):
        """The system of a mesh, made here."""
        return System([Poly(paths=[f], **kw) for f in fixed] +
                      [Poly(paths=image(m["points"][t]), **kw) for t in m["triangles"]])
    if real:
        x = np.array([[.8, .9, .7]])*UNIT
        cs = [pc.PotentialObjective(x=x[0], derivative="xx", value=1.),
              pc.PotentialObjective(x=x[0], derivative="y", value=0.),
              pc.PatternRangeConstraint(min=-1., max=1.)]
        ans = []
        for m in meshes:
            r, exc = call(own(m).optimize, cs, verbose=False)
            if exc:
                return
            ans.append(r)
        pots = [v[nf:] for v, c in ans]
        if meshes:
            ufixed, wantc = list(ans[-1][0][:nf]), ans[-1][1]
    else:
        plans = []
        for m, u in zip(meshes, pots):
            d = {}
            p = Planned()
            s = own(m)
            for e, v in zip(s, list(ufixed)+list(u)):
                d[p.key(e)] = float(v)
            plans.append(d)
        cs = [Lookup(plans)]
        if meshes:
            # w . u, the objective wants 1
            u = np.r_[ufixed, pots[-1]]
            wantc = (1+.1*np.arange(len(u))).dot(u)
    if not meshes:
        wantc = 0.
    keep = [np.array(p) for p in paths], [np.array(f) for f in fixed], list(cs)
    arg = [Poly(paths=[f]) for f in fixed] if as_electrodes else list(fixed)
    if fixed or rng.random() < .5:
        opt["fixed"] = arg
    r, exc = call(adaptive.adapt_mesh, cs, paths, **dict(opt, **kw))
    ev = dict(kind="adapt", exc=exc or "no")
    if exc is None:
        s, v, c = r
        reqs = []
        for i, t in enumerate(REQ):
            o, args = t[0], t[1]
            g = lambda x: (re.search(x+r"(\d+\.?\d*)", o) or [0, "0"])[1]
            rec = dict(q=num(float(g("q"))), a=num(float(g("a"))), n="n" in o, has="triangleareas" in args,
                       areas=flat(args["triangleareas"]) if "triangleareas" in args else [])
            if i == 0:
                rec.update(points=nums(args["points"]), segments=np.asarray(args["segments"]).tolist(),
                           markers=np.asarray(args["segmentmarkers"]).ravel().tolist(),
                           types=[args["points"].dtype.name, args["segments"].dtype.name, args["segmentmarkers"].dtype.name] +
                           [str(all(args[k].flags["C_CONTIGUOUS"] for k in ("points", "segments", "segmentmarkers")))],
                           back=True)
            else:
                prev = REQ[i-1][3]
                rec.update(points=[], segments=[], markers=[], types=[],
                           back=set(prev)-{"neighbors"} <= set(args) and set(args)-{"triangleareas"} <= set(prev)
                           and all(np.array_equal(prev[k], args[k]) for k in prev if k in args))
            reqs.append(rec)
        same = (len(paths) == len(keep[0]) and all(np.array_equal(a_, b_) for a_, b_ in zip(paths, keep[0]))
                and all(np.array_equal(a_, b_) for a_, b_ in zip(fixed, keep[1])) and cs == keep[2] and len(arg) == nf)
        answer = s is not None or v is not None or c is not None
        full = s is not None and v is not None and c is not None
        ev.update(paths=nums2(paths), fixed=nums2(fixed), ufixed=flat(ufixed), threshold=num(thr), a=num(a), q=num(q), up=num(up), down=num(down),
                  cover=num(cover), ts=trec(ts), requests=reqs, same=same, answer=full if meshes else answer,
                  meshes=[dict(points=nums(m["points"]), triangles=m["triangles"].tolist(), neighbors=m["neighbors"].tolist()) for m in meshes],
                  pots=[flat(u) for u in pots], wantc=num(wantc),
                  v=flat(v) if full else [], c=num(c) if full else "0",
                  els=[dict(paths=nums2(e.paths), cover=num(e.cover_height)) for e in s] if full else [])
    return out.emit(**ev)


def nums2(ps):
    return [nums(p) for p in ps]


def transform():
    p = boundary()
    ts = [trafo() for _ in range(rng.randrange(0, 5))] or [(np.eye(4), 1)]
    p0 = p.copy()
    f = adaptive.transformer(ts) if rng.random() < .5 else lambda x: adaptive.transformed_copy(ts, x)
    g, exc = call(f, p)
    return out.emit(kind="transform", exc=exc or "no", path=nums(p), ts=trec(ts), got=nums2(g) if exc is None else [],
             same=bool(np.array_equal(p, p0)))


# every behaviour of the model
for line in inputs():
    run([strip(len(u)) for u in line["ev"]], [np.array(u, float) for u in line["ev"]], line["limit"],
        nfixed=pick([0, 0, 0, 1]))
for i in range(400 if THOROUGH else 60):
    UNIT = pick([1., 1., 1., 1e-3, 1e3])
    transform()
    ms = [delaunay(rng.randrange(3, 14)) for _ in range(rng.randrange(0, 4))]
    sym = [trafo() for _ in range(rng.randrange(1, 4))] if rng.random() < .4 else None
    run(ms, [np.where(nrng.rand(len(m["triangles"])) < .5, 1., -1.)*pick([1., .3]) + nrng.randn()*.1 for m in ms], 0, sym=sym,
        as_electrodes=rng.random() < .3)
UNIT = 1.
for i in range(40 if THOROUGH else 8):
    ms = [delaunay(rng.randrange(4, 12)) for _ in range(rng.randrange(1, 4))]
    run(ms, None, 0, real=True, sym=[trafo()] if rng.random() < .3 else None)

rng.seed(3)
nrng.seed(3)
e = transform()
if e["exc"] == "no":
    out.canary(e, got=[g[::-1] for g in e["got"]])
    out.canary(e, got=e["got"][1:])
    out.canary(e, same=False)
    out.canary(e, got=[[[bump(c) for c in p] for p in g] for g in e["got"]])
ms = [delaunay(9), delaunay(12)]
e = run(ms, [np.where(m["points"][m["triangles"]].mean(1)[:, 0] < 1, 1., -1.) for m in ms], 0, nfixed=1, as_electrodes=True)
if e and e["exc"] == "no":
    q = e["requests"]
    out.canary(e, requests=q[:-1])
    out.canary(e, requests=q[:1]+[dict(q[1], areas=[bump(a) for a in q[1]["areas"]])]+q[2:])
    out.canary(e, requests=q[:1]+[dict(q[1], back=False)]+q[2:])
    out.canary(e, requests=[dict(q[0], has=True)]+q[1:])
    out.canary(e, requests=[dict(q[0], markers=[2]*(len(q[0]["markers"])-1)+[1])]+q[1:])
    out.canary(e, requests=[dict(q[0], segments=q[0]["segments"][1:]+q[0]["segments"][:1][::-1][:0]+[[0, 0]])]+q[1:])
    out.canary(e, requests=[dict(q[0], a=bump(q[0]["a"]))]+q[1:])
    out.canary(e, v=e["v"][:1]+[bump(a) for a in e["v"][1:]])
    out.canary(e, c=bump(e["c"], .1))
    out.canary(e, els=e["els"][:1]+e["els"][:0:-1])
    out.canary(e, up=bump(e["up"]))
    out.canary(e, down=bump(e["down"]))
    out.canary(e, cover="3.5")
    out.canary(e, same=False)
    out.canary(e, answer=False)
    out.canary(e, fixed=[[[bump(c) for c in p] for p in f] for f in e["fixed"]])
