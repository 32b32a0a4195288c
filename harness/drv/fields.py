"""Potentials of surface electrodes (P08-P13)."""
import sys
from drvlib import *
electrode, em, system, cex, pex, utils = load("electrode", "electrode.electrode", "electrode.system",
                                              "electrode.cexpressions", "electrode.expressions", "electrode.utils")
out = Out()
mode = sys.argv[1]
ORD = 6
FACT = [1, 1, 2, 6, 24, 120]


def star(scale=1., n=None, ccw=True):
    """A simple, in general non-convex polygon."""
    n = n or rng.randrange(3, 8)
    while True:
        a = np.sort(nrng.rand(n))*2*np.pi
        if np.max(np.diff(np.r_[a, a[0]+2*np.pi])) < 3.:
            break
    r = .4 + nrng.rand(n)
    p = np.c_[np.cos(a)*r, np.sin(a)*r]*scale
    return p if ccw else p[::-1].copy()


def rect(scale=1.):
    x, y = nrng.randint(-3, 3, 2)*scale
    w, h = nrng.randint(1, 4, 2)*scale
    return np.array([[x, y], [x+w, y], [x+w, y+h], [x, y+h]], float)


def lshape():
    return np.array([[0, 0], [3, 0], [3, 1], [1, 1], [1, 2], [0, 2]], float)


def poly():
    c = rng.randrange(5)
    if c == 0:
        p = rect()
    elif c == 1:
        p = lshape() + nrng.randint(-2, 3, 2)
    else:
        p = star(pick([.3, 1., 4.])) + nrng.randn(2)*pick([0., 1.])
    if rng.random() < .3:
        p = p[::-1].copy()
    if rng.random() < .25:     # a vertex on an edge
        i = rng.randrange(len(p))
        q = p[i]+(p[(i+1) % len(p)]-p[i])*.25
        p = np.insert(p, i+1, q, axis=0)
    if rng.random() < .15:     # a repeated vertex
        i = rng.randrange(len(p))
        p = np.insert(p, i, p[i], axis=0)
    return p


def dist(paths, x):
    """distance of a point to the edges, relative to the path size"""
    d = np.inf
    for p in paths:
        for u, v in zip(p, np.roll(p, -1, 0)):
            e = v - u
            w = x[:2] - u
            t = min(1, max(0, w.dot(e)/e.dot(e))) if e.dot(e) else 0
            d = min(d, np.sqrt(((w - t*e)**2).sum() + x[2]**2)/max(1., np.ptp(p, 0).max()))
    return d


def where(paths, h=None, lim=.08):
    """A point: generic, above a vertex, an edge, its extension, low, high, below the plane."""
    while True:
        c = rng.randrange(8)
        p = pick(paths)
        if c == 0:
            q = pick(p)
        elif c == 1:
            i = rng.randrange(len(p))
            t = pick([.5, .25, 1.5, -1.])
            q = p[i]*(1-t) + p[i-1]*t
        elif c == 2:
            q = np.array([pick(p)[0], pick(p)[1]])
        elif c == 3:
            q = p.mean(0)
        else:
            q = nrng.randn(2)*2
        z = pick([.3, 1., .8, 2., 6., .15, 1e-3, 1e-7, nrng.rand()+.1])
        if h:
            z = h*nrng.uniform(.05, 1.)
        elif rng.random() < .3:
            z = -z
        x = np.r_[q, z].astype(float)
        if dist(paths, x) > lim:
            return x


def amid(x, big=True):
    """The points in another memory layout and amid other points: (array, where they are)."""
    c = rng.randrange(7)
    at = list(range(len(x)))
    if c in (0, 1) and big:
        n = len(x) + pick([3, 30, 64, 128, 1000, 2500])
        b = x[nrng.randint(0, len(x), n)] + nrng.randn(n, 3)*np.abs(x).max()
        at = sorted(rng.sample(range(n), len(x))) if c else list(range(n-len(x), n))
        b[at] = x
        if rng.random() < .3:       # other ones at the same places, or far away
            b[np.setdiff1d(np.arange(n), at)] *= pick([1., 1e4])
        x = b
    elif c == 2:
        x = np.asfortranarray(x)
    elif c == 3:
        x = np.repeat(x, 2, 0)[::2]
    elif c == 4:
        x, at = x[::-1], at[::-1]
    elif c == 5:
        x = np.c_[x, x][:, 3:]
    return x, at


def allpot(e, x, v=1., orders=ORD):
    """[point][order][component]"""
    y, at = amid(x)
    r = [e.potential(y, o, v) for o in range(orders)]
    assert all(a.shape == (len(y), 2*o+1) for o, a in enumerate(r))
    return [[nums(r[o][i]) for o in range(orders)] for i in at]


def build(cls, x, **kw):
    """The electrode, new or after it was another one that had been evaluated."""
    if rng.random() < .65:
        return cls(**kw)
    was = dict(kw)
    inplace = rng.random() < .5
    for k, v in kw.items():
        if k in ("points", "paths", "areas", "potentials"):
            was[k] = [np.array(i)*1.7 + .3 for i in v] if inplace or rng.random() < .5 else [np.array(v[0])]*len(v)
    if rng.random() < .5:
        was.update(cover_nmax=3, cover_height=7.)
    e = cls(**was)
    for o in range(ORD):
        e.potential(x, o)
    want = cls(**kw)
    for k in list(kw) + ["cover_nmax", "cover_height"]:
        a, b = getattr(e, k), getattr(want, k)
        if k == "paths" and inplace:
            for i, j in zip(a, b):
                i[:] = j
        elif isinstance(a, np.ndarray) and inplace:
            a[:] = b
        else:
            setattr(e, k, b)
    return e


def unit():
    """The unit of length: everything is free of a scale of its own."""
    return pick([1., 1., 1., 1e-6, 1e-4, 40e-6, 1e3, 1e-9])


def field(kind, e, x, loops=(), pixels=(), cover=(), nmax=0, h=1., v=1., tol="1e-10", key=None, canary=False, orders=ORD):
    def f():
        return allpot(e, x, v, orders)
    got, exc = call(f)
    kw = {"key": key} if key else {}
    ev = out.emit(kind=kind, exc=exc or "no", x=nums(x), got=got or [], loops=[dict(v=num(a), p=nums(p)) for a, p in loops],
                  pixels=[dict(v=num(a), a=num(b), p=nums(p)) for a, b, p in pixels],
                  cover=[dict(v=num(a), h=num(b)) for a, b in cover], nmax=nmax, h=num(h), tol=tol, **kw)
    if canary and got:
        for o in (0, 2, 5):
            bad = json.loads(json.dumps(got))
            j = max(range(2*o+1), key=lambda i: abs(float(bad[0][o][i])))
            bad[0][o][j] = num(float(bad[0][o][j])*1.01 or .01)
            out.canary(ev, got=bad)


def mag(o, d):
    return FACT[o]/d**o


def scaleof(paths, x, o):
    return max(sum(len(p) for p in paths)*mag(o, dist1(paths, x)), 1e-300)


def dist1(paths, x):
    d = np.inf
    for p in paths:
        for u, v in zip(p, np.roll(p, -1, 0)):
            e = v - u
            w = x[:2] - u
            t = min(1, max(0, w.dot(e)/e.dot(e))) if e.dot(e) else 0
            d = min(d, np.sqrt(((w - t*e)**2).sum() + x[2]**2))
    return d


def n_(q, t):
    return t if THOROUGH else q


if mode == "P08":
    for t in range(n_(40, 220)):
        k = pick([1, 1, 2, 3])
        paths = [poly() for _ in range(k)]
        if t % 8 == 0:      # a frame: outer boundary and hole
            paths = [np.array([[-2, -2], [2, -2], [2, 2], [-2, 2.]]), np.array([[-1, -1], [-1, 1], [1, 1], [1, -1.]])]
        if t % 10 == 3:     # many short edges
            m = rng.randrange(12, 30)
            w = np.arange(m)*2*np.pi/m
            paths = [np.c_[np.cos(w), np.sin(w)]*pick([.5, 2.])]
        v = pick([1., 1., -2.5])
        x = np.array([where(paths) for _ in range(pick([1, 2]))])
        s = unit()
        paths, x = [p*s for p in paths], x*s
        if t % 10 == 6:     # closed: the first vertex again at the end
            paths[0] = np.r_[paths[0], paths[0][:1]]
        e = build(em.PolygonPixelElectrode, x, paths=paths, cover_height=pick([50., .1]))
        field("polygon", e, x, loops=[(v, p) for p in paths], v=v, canary=t in (3, 4))
    for t in range(n_(12, 60)):   # far away, and large coordinates
        p = poly()
        d = pick([1, 10, 100, 100, 1000])
        x = np.array([[nrng.randn()*20, nrng.randn()*20, pick([-1, 1])*nrng.uniform(5, 25)]])*d
        field("polygon", build(em.PolygonPixelElectrode, x, paths=[p]), x, loops=[(1., p)], tol="3e-13" if d < 1000 else "1e-11")
    for t in range(n_(16, 80)):   # just beside or above an edge or a vertex
        p = poly() if t % 3 else rect()
        size = np.ptp(p, 0).max()
        while True:
            i = rng.randrange(len(p))
            w = p[i] + (p[i-1] - p[i])*pick([0., .5, rng.random()])
            x = np.r_[w, 0] + nrng.randn(3)*size*10**rng.uniform(-3.5, -1.5)
            if min(abs(x[2]), dist1([p], x)) > 2e-4*size:
                break
        s = unit()
        # the formulas of the higher orders lose their digits here
        field("polygon", build(em.PolygonPixelElectrode, x[None], paths=[p*s]), x[None]*s, loops=[(1., p*s)], tol="1e-7", orders=3)
    for t in range(n_(3, 12)):    # many patches, many vertices
        if t % 3 == 0:
            paths = [p + nrng.randint(-20, 20, 2)*4. for p in [poly() for _ in range(pick([12, 20]))]]
        elif t % 3 == 1:
            m = pick([90, 140])
            w = np.arange(m)*2*np.pi/m
            paths = [np.c_[np.cos(w), np.sin(w)]*(1 + .3*np.cos(7*w))[:, None]]
        else:
            paths = [rect()]*3
        x = np.array([where(paths, lim=.02)])
        field("polygon", build(em.PolygonPixelElectrode, x, paths=paths), x, loops=[(1., p) for p in paths])

if mode == "P09":
    for t in range(n_(40, 250)):
        n = pick([1, 1, 2, 4, 40]) if t % 7 == 0 else pick([1, 1, 2, 4])
        pts = nrng.randn(n, 2)
        if t % 9 == 8:      # the same pixel again
            pts[:] = pts[0]
        a = np.abs(nrng.randn(n))+.1
        if t % 4 == 0:
            a[0] *= -1
        v = pick([1., -3.])
        x = np.c_[nrng.randn(2, 2), nrng.uniform(.2, 3, 2)*[1, -1]]
        if t % 3 == 0:
            x[0, :2] = pts[0]
        if t % 5 == 0:
            x[0, 0] = pts[0, 0]
            x[1, 1] = pts[0, 1]
        s = unit()
        pts, a, x = pts*s, a*s*s, x*s
        e = build(em.PointPixelElectrode, x, points=pts, areas=a)
        field("pixel", e, x, pixels=[(v, ai, pi) for ai, pi in zip(a, pts)], v=v, canary=t in (2, 3))
    for t in range(n_(40, 200)):
        s = unit()
        paths = [poly()*s for _ in range(rng.randrange(1, 4))]
        c = rng.randrange(6)
        if c == 0:      # a frame: the hole has the same centre
            q = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1.]])*nrng.uniform(.5, 2)
            paths[:1] = [(g + d)*s for d in [nrng.randint(-2, 3, 2)*pick([0, 1])] for g in (q, q[::-1]*.5)]
        elif c == 1:    # twice the same
            paths.append(paths[0] if rng.random() < .5 else paths[0][::-1].copy())
        elif c == 2:    # twice nearly the same
            paths.append(paths[0]*(1 + 1e-7))
        kw = dict(name=pick(["a", "", "rf1"]), dc=pick([0., 1.5, -2]), rf=pick([0., 3.]), cover_nmax=pick([0, 2, 5]), cover_height=pick([50., 7.5, .5, .02*s]))
        e = em.PolygonPixelElectrode(paths=paths, **kw)
        p, exc = call(e.to_points)
        at = ["name", "dc", "rf", "cover_nmax", "cover_height"]
        out.emit(kind="convert", exc=exc or "no", paths=[nums(q) for q in paths],
                 **({} if exc else dict(areas=nums(p.areas), points=nums(p.points), attrs=[str(float(getattr(p, a)) if a != "name" else p.name) for a in at],
                                        want=[str(float(kw[a]) if a != "name" else kw[a]) for a in at])))
    for t in range(n_(20, 60)):
        p = poly()
        a, c = utils.area_centroid(p)
        if abs(a) < .2:
            continue
        e = em.PolygonPixelElectrode(paths=[p])
        d = nrng.randn(3)
        d[2] = abs(d[2])+.3
        d /= np.sqrt(d.dot(d))
        size = np.sqrt(((p-p.mean(0))**2).sum(1)).max()
        dd = [size*q for q in (5., 20., 80.)]
        x = np.array([np.r_[p.mean(0), 0] + d*q for q in dd])

        def f():
            return dict(poly=nums(e.potential(x)[:, 0]), pix=nums(e.to_points().potential(x)[:, 0]))
        v, exc = call(f)
        # the next order is the second moment of the area: (size/d)^2 times size^2/area
        b = [60.*size**2/abs(a)*(size/q)**2 for q in dd]
        out.emit(kind="far", exc=exc or "no", bound=nums(b), **(v or {}))

if mode == "P10":
    for t in range(n_(30, 200)):
        c = t % 3
        if c == 0:          # a triangulated strip with shared vertices and edges
            m = rng.randrange(2, 5)
            pts = np.c_[np.arange(m+2), (np.arange(m+2) % 2)] + nrng.randn(m+2, 2)*.15
            polys = [[i, i+1, i+2] for i in range(m)]
        elif c == 1:        # grid of cells
            pts = np.array([[i, j] for i in range(3) for j in range(3)], float) + nrng.randn(9, 2)*.1
            polys = [[0, 3, 4, 1], [1, 4, 5, 2], [3, 6, 7, 4], [4, 7, 8, 5]][:rng.randrange(1, 5)]
        else:
            polys, pts = [], []
            for i in range(rng.randrange(1, 4)):
                p = poly()
                polys.append(list(range(len(pts), len(pts)+len(p))))
                pts.extend(p)
            pts = np.array(pts)
        pot = np.round(nrng.randn(len(polys)), 3)
        if t % 5 == 0:
            pot = np.arange(len(polys))
        ed = [(q[i-1], q[i], j) for j, q in enumerate(polys) for i in range(len(q))]
        loops = [(pot[j], pts[q]) for j, q in enumerate(polys)]
        rng.shuffle(ed)
        nmax, h = pick([(0, 1.), (0, 50.), (1, 4.)])
        v = pick([1., 2.])
        lp = [p for _, p in loops]
        x = np.array([where(lp, h if nmax else None) for _ in range(pick([1, 2]))])
        s = unit()
        pts, x, h = pts*s, x*s, h*s
        loops = [(a, p*s) for a, p in loops]
        e, exc = call(build, em.MeshPixelElectrode, x, points=pts.tolist() if t % 2 else pts, edges=[q[:2] for q in ed],
                      polygons=[q[2] for q in ed], potentials=pot.tolist(), cover_nmax=nmax, cover_height=h)
        if exc:
            out.emit(kind="mesh", exc=exc)
            continue
        field("mesh", e, x, loops=[(a*v, p) for a, p in loops], v=v, nmax=nmax, h=h, canary=t in (3, 4))
    for t in range(n_(12, 80)):
        els = [em.PolygonPixelElectrode(paths=[poly() for _ in range(pick([1, 1, 2]))], dc=np.round(nrng.randn(), 3)) for _ in range(rng.randrange(1, 4))]
        k = unit()
        at = where([p for q in els for p in q.paths])*k
        for q in els:
            q.paths = [np.asarray(p)*k for p in q.paths]
        e, exc = call(em.MeshPixelElectrode.from_polygon_system, system.System(els))
        if exc:
            out.emit(kind="frommesh", exc=exc)
            continue
        loops = [(q.dc, p) for q in els for p in q.paths]
        x = np.array([at])
        field("frommesh", e, x, loops=loops, v=e.dc, canary=t == 2)

if mode == "P11":
    for t in range(n_(36, 200)):
        nmax = pick([0, 1, 2, 3, 5]) if t % 3 else pick([1, 2])
        h = pick([2., 3.5, 6., 20.]) if t % 6 else pick([100., 1000., 1000.])
        c = t % 4
        tight = {"tol": "1e-13"} if h > 90 else {}      # faint images
        v = pick([1., -1.5])
        if c == 0:
            pts = nrng.randn(2, 2)
            a = np.abs(nrng.randn(2))+.1
            if t % 16 == 8:
                h, nmax = 50., 1
            x = np.c_[nrng.randn(2, 2), nrng.uniform(.1, .9, 2)*(h if h < 90 else 5.)]
            e = build(em.PointPixelElectrode, x, points=pts, areas=a, cover_nmax=nmax, **({} if h == 50. else {"cover_height": h}))
            field("covered", e, x, pixels=[(v, ai, pi) for ai, pi in zip(a, pts)], v=v, nmax=nmax, h=h, canary=t == 4, **tight)
        elif c == 1:
            p = poly()
            x = np.array([where([p], h if h < 90 else 5.)])
            e = build(em.MeshPixelElectrode, x, points=p, edges=[((i-1) % len(p), i) for i in range(len(p))],
                      polygons=[0]*len(p), potentials=[2.], cover_nmax=nmax, cover_height=h)
            field("covered", e, x, loops=[(2*v, p)], v=v, nmax=nmax, h=h, **tight)
        else:
            paths = [poly() for _ in range(pick([1, 2]))]
            if t % 9 == 5:      # the documented default height
                h = 50.
                e = em.PolygonPixelElectrode(paths=paths, cover_nmax=nmax)
            else:
                e = em.PolygonPixelElectrode(paths=paths, cover_nmax=nmax, cover_height=h)
            x = np.array([where(paths, h if h < 90 else 5.)])
            if e.cover_height != 50.:
                s = unit()
                paths, x, h = [p*s for p in paths], x*s, h*s
                e = build(em.PolygonPixelElectrode, x, paths=paths, cover_nmax=nmax, cover_height=h)
            field("covered", e, x, loops=[(v, p) for p in paths], v=v, nmax=nmax, h=h, canary=t == 7, **tight)
    for t in range(n_(6, 40)):      # faint images of small patches
        p, h, nmax, u = star(1.), pick([300., 1000., 2000.]), pick([1, 2]), unit()
        x = np.array([where([p], 2.)])*u
        e = build(em.PolygonPixelElectrode, x, paths=[p*u], cover_nmax=nmax, cover_height=h*u) if t % 2 else \
            build(em.MeshPixelElectrode, x, points=p*u, edges=[((i-1) % len(p), i) for i in range(len(p))],
                  polygons=[0]*len(p), potentials=[1.], cover_nmax=nmax, cover_height=h*u)
        field("covered", e, x, loops=[(1., p*u)], nmax=nmax, h=h*u, tol="1e-14" if h > 500 else "1e-13")
    for t in range(n_(15, 60)):
        h = pick([50., 3., .7])
        v = pick([1., -4.])
        x = nrng.randn(3, 3)
        e = em.CoverElectrode(height=h if t % 3 else 2.)
        if t % 3 == 0:      # moved after it was evaluated
            e.potential(x, 0), e.potential(x, 1)
            e.height = h
        field("cover", e, x, cover=[(v, h)], v=v, canary=t == 1)
    field("cover", em.CoverElectrode(), nrng.randn(2, 3), cover=[(1., 50.)])
    for t in range(n_(20, 80)):
        p = star(1.)
        h = nrng.uniform(1, 4)
        c = t % 3
        x = np.array([[nrng.randn(), nrng.randn(), h]])
        ns = [0, 1, 2, 4, 8, 16, 40]
        area = 1.3 if c == 1 else abs(((p[:, 0]*np.roll(p[:, 1], -1)-p[:, 1]*np.roll(p[:, 0], -1)).sum()/2))

        def f():
            r = []
            for n in ns:
                if c == 0:
                    e = em.PolygonPixelElectrode(paths=[p], cover_nmax=n, cover_height=h)
                elif c == 1:
                    e = em.PointPixelElectrode(points=[p[0]], areas=[1.3], cover_nmax=n, cover_height=h)
                else:
                    e = em.MeshPixelElectrode(points=p, edges=[((i-1) % len(p), i) for i in range(len(p))],
                                              polygons=[0]*len(p), potentials=[1.], cover_nmax=n, cover_height=h)
                r.append(num(e.potential(x)[0, 0]))
            return r
        v, exc = call(f)
        ev = out.emit(kind="vanish", exc=exc or "no", v=v or [], ns=ns, area=num(area), h=num(h))
        if v and t == 0:
            out.canary(ev, v=v[:-1] + ["0.01"])

if mode == "P12":
    def pots(paths, x, s=1.):
        e = em.PolygonPixelElectrode(paths=paths, cover_nmax=cover[0], cover_height=cover[1]*s)
        return [nums(e.potential(x[None], k)[0]) for k in range(ORD)]
    EYE = np.eye(3)
    for t in range(n_(60, 400)):
        p = star(pick([.5, 1., 2.])) + nrng.randn(2)*.5 if t % 4 else rect()
        x = where([p])
        if t % 9 == 4:      # a narrow one
            p = p*[1, .1]
            x = where([p])
            if dist([p], x) < .1:
                continue
        if rng.random() < .15:      # exactly above a vertex
            q = np.r_[pick([p[0], p[-1], p[-1]]), x[2]]
            if dist([p], q) > .08:
                x = q
        u = unit() if t % 12 > 2 or rng.random() < .5 else 1e-9
        p, x = p*u, x*u
        # below a cover, whose images keep the symmetries
        cover = pick([(0, 50.), (2, max(8*u, 3*abs(x[2])))])
        mg = [num(scaleof([p], x, o)) for o in range(ORD)]
        kw = dict(mag=mg, tol="1e-10", sign=1, scale="1", m=nums(EYE))
        c = t % 12
        what = ["start", "sense", "vertex", "translate", "rotate", "mirror", "scale", "odd_z", "cut", "paths", "rot90", "xyswap"][c]

        def f():
            k2 = dict(kw)
            if what == "start":
                a = pots([np.roll(p, rng.randrange(1, len(p)), 0)], x)
            elif what == "sense":
                a = pots([p[::-1].copy()], x)
                k2["sign"] = -1
            elif what == "vertex":
                i = rng.randrange(len(p))
                q = p[i] + (p[(i+1) % len(p)]-p[i])*nrng.uniform(0, 1)
                a = pots([np.insert(p, i+1, q, axis=0)], x)
            elif what == "translate":
                d = nrng.randn(2)*pick([1, 10])*u
                a = pots([p+d], x+np.r_[d, 0])
            elif what in ("rotate", "rot90"):
                w = nrng.uniform(0, 6) if what == "rotate" else np.pi/2*rng.randrange(1, 4)
                m = np.array([[np.cos(w), -np.sin(w), 0], [np.sin(w), np.cos(w), 0], [0, 0, 1]])
                a = pots([p.dot(m[:2, :2].T)], m.dot(x))
                k2["m"] = nums(m)
            elif what in ("mirror", "xyswap"):
                m = np.diag([-1., 1, 1]) if what == "mirror" else np.array([[0, 1., 0], [1, 0, 0], [0, 0, 1]])
                a = pots([p.dot(m[:2, :2].T)[::-1].copy()], m.dot(x))
                k2["m"] = nums(m)
            elif what == "scale":
                s = pick([2., .1, 1e-3, 1e3, 1e-9, 40e-6])/pick([1., u])
                s = max(s, 1e-9/u)
                a = pots([p*s], x*s, s)
                k2["scale"] = num(s)
            elif what == "odd_z":
                m = np.diag([1., 1, -1])
                a = pots([p], m.dot(x))
                k2.update(m=nums(m), sign=-1)
            else:
                return None
            return dict(after=a, before=pots([p], x), **k2)
        if what == "cut":
            i, j = 0, len(p)//2
            parts = [p[i:j+1], np.r_[p[j:], p[:1]]]
            mm = [num(scaleof(parts + [p], x, o)) for o in range(ORD)]
            if dist(parts, x) < .05*u:
                continue
            v, exc = call(lambda: dict(after=pots([p], x), parts=[pots([q], x) for q in parts]))
            out.emit(kind="additive", what="cut", exc=exc or "no", mag=mm, tol="1e-10", **(v or {}))
        elif what == "paths":
            parts = [p, (star(1.) + nrng.randn(2))*u]
            if dist(parts, x) < .05*u:
                continue
            mm = [num(scaleof(parts, x, o)) for o in range(ORD)]
            v, exc = call(lambda: dict(after=pots(parts, x), parts=[pots([q], x) for q in parts]))
            ev = out.emit(kind="additive", what="paths", exc=exc or "no", mag=mm, tol="1e-10", **(v or {}))
        else:
            v, exc = call(f)
            ev = out.emit(kind="symmetry", what=what, exc=exc or "no", **(v or {}))
            if t in (12, 16, 17, 18) and v:
                bad = json.loads(json.dumps(v["after"]))
                bad[3][2] = bump(bad[3][2], 1e-4)
                out.canary(ev, after=bad)

if mode == "P13":
    def mkargs(kind):
        x = None
        h, nmax = pick([(4., 0), (3., 1), (5., 2)])
        v = pick([1., -2.])
        if kind == "point":
            pts, a = nrng.randn(3, 2), nrng.randn(3)
            args = [pts, a, v]
            paths = [np.array([q, q+1e-3, q+[1e-3, 0]]) for q in pts]
        elif kind == "polygon":
            paths = [poly() for _ in range(pick([1, 2]))]
            args = [paths, v]
        else:
            paths = [poly() for _ in range(2)]
            pts = np.concatenate(paths)
            ed, pg, n = [], [], 0
            for j, p in enumerate(paths):
                ed += [(n+(i-1) % len(p), n+i) for i in range(len(p))]
                pg += [j]*len(p)
                n += len(p)
            args = [pts, np.array(ed, np.intc), np.array(pg, np.intc), np.array([1.5, -.7])*v]
        n = pick([1, 1, 3])
        x = np.array([where(paths, h if nmax else None) for _ in range(n)])
        s = unit()
        if kind == "polygon":
            args[0] = paths = [p*s for p in paths]
        else:
            args[0], paths = args[0]*s, [p*s for p in paths]
        if kind == "point":
            args[1] = args[1]*s*s
        return x*s, args, nmax, h*s, paths

    for t in range(n_(54, 360)):
        kind = ["point", "polygon", "mesh"][t % 3]
        x, args, nmax, h, paths = mkargs(kind)
        o = (t//3) % 6
        s = [3.*scaleof(paths, xi, o) for xi in x]

        def f():
            r = {}
            y, at = amid(x, kind == "polygon" or o < 3)
            a, b = [getattr(m, kind + "_potential")(y, *(args+[o, nmax, h, None]))[at] for m in (cex, pex)]
            return dict(a=flat(a), b=flat(b), same=a.shape == b.shape)
        v, exc = call(f)
        mg = [num(si*(2*nmax+1)*5) for si in s for _ in range(2*o+1)]
        ev = out.emit(kind="kernels", what=kind + "_order_%d" % o, exc=exc or "no", size=len(x)*(2*o+1), tol="1e-10", mag=mg, **(v or {}))
        if v and t in (15, 16, 17):
            bad = list(v["a"])
            i = max(range(len(bad)), key=lambda i: abs(float(bad[i]))/float(mg[i]))
            bad[i] = num(float(bad[i])*1.001 + 1e-8*float(mg[i]))
            out.canary(ev, a=bad)
    for t in range(n_(60, 300)):
        c = t % 5
        o = (t//5) % 6
        if c == 0:
            x, args, nmax, h, paths = mkargs("point")
            e = em.PointPixelElectrode(points=args[0], areas=args[1], cover_nmax=nmax, cover_height=h)
            keep = [e.points, e.areas]
        elif c == 1:
            x, args, nmax, h, paths = mkargs("polygon")
            e = em.PolygonPixelElectrode(paths=args[0], cover_nmax=nmax, cover_height=h)
            keep = e.paths
        elif c == 2:
            x, args, nmax, h, paths = mkargs("mesh")
            e = em.MeshPixelElectrode(points=args[0], edges=args[1], polygons=args[2], potentials=args[3], cover_nmax=nmax, cover_height=h)
            keep = [e.points, e.edges, e.polygons, e.potentials]
        elif c == 3:
            x = nrng.randn(pick([1, 4]), 3)
            e = em.CoverElectrode(height=2.5)
            keep = []
        else:
            x = nrng.uniform(-1, 5, (pick([1, 3]), 3))
            e = em.GridElectrode(data=[nrng.randn(3, 4, 5, 2*i+1) for i in range(6)], origin=[-.2, .3, 0], spacing=[1.5, 1., .7])
            keep = e.data + [e.origin, e.spacing]
        keep = [x] + list(keep)
        was = [np.array(a) for a in keep]
        v = pick([1., 2.5, 0., -1.])
        start = nrng.randn(len(x), 2*o+1)
        buf = start.copy()

        if t % 6 == 0:      # many points at once
            x = np.repeat(x, 70, 0) + nrng.randn(70*len(x), 1)*1e-3*np.abs(x).max()
            keep[0], was[0] = x, x.copy()
            start = nrng.randn(len(x), 2*o+1)
            buf = start.copy()

        def f():
            acc = e.potential(x, o, v, buf)
            got = e.potential(x, o, v)
            got0 = got.copy()
            again = e.potential(x, o, v, None)
            kw = e.potential(x, derivative=o, potential=v, out=start.copy())
            return dict(shape=shape(got), same=bool(acc is buf) and bool(np.array_equal(kw, buf)), got=flat(got0), again=flat(again), acc=flat(buf),
                        fresh=bool(again is not got and not np.shares_memory(got, again) and np.array_equal(got, got0)
                                   and not any(np.shares_memory(got, k) for k in keep)))
        r, exc = call(f)
        s = [num(1e3*max(1., np.abs(np.array(r["got"], float)).max())) for _ in start.ravel()] if r else []
        ev = out.emit(kind="out", what=type(e).__name__, exc=exc or "no", np=len(x), n=o, start=flat(start), mag=s,
                      changed=not all(np.array_equal(a, b) for a, b in zip(was, keep)), **(r or {}))
        if r and t in (5, 6):
            out.canary(ev, acc=[bump(r["acc"][0], 1e-2)] + r["acc"][1:])
