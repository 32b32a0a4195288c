"""Area, centroid (P17), grouping (P18)."""
import sys
from drvlib import *
electrode, em, utils, system = load("electrode", "electrode.electrode", "electrode.utils", "electrode.system")
out = Out()
mode = sys.argv[1]


def n_(q, t):
    return t if THOROUGH else q


def poly(scale=1.):
    n = rng.randrange(3, 9)
    a = np.sort(nrng.rand(n))*2*np.pi
    r = .4 + nrng.rand(n)
    p = np.c_[np.cos(a)*r, np.sin(a)*r]*scale + nrng.randn(2)*pick([0, 1, 5])
    c = rng.randrange(6)
    if c == 0:
        p = np.array([[0, 0], [3, 0], [3, 1], [1, 1], [1, 2], [0, 2]], float) + nrng.randint(-3, 4, 2)
    elif c == 1:
        w, h = nrng.randint(1, 5, 2)
        p = np.array([[0, 0], [w, 0], [w, h], [0, h]], float)
    elif c == 2:
        p = np.round(p, 1)
    if rng.random() < .4:
        p = p[::-1].copy()
    return p


def rough(p):
    q = np.roll(p, -1, 0)
    return abs((p[:, 0]*q[:, 1]-q[:, 0]*p[:, 1]).sum())/2/np.ptp(p, 0).max()**2


if mode == "P17":
    t = 0
    while t < n_(150, 1000):
        p = poly(pick([1., 1., 1e-3, 100.]))
        if t % 9 == 4:      # many vertices
            m = pick([60, 300])
            w = np.arange(m)*2*np.pi/m
            p = (np.c_[np.cos(w), np.sin(w)]*(1 + .3*np.cos(5*w))[:, None] + nrng.randn(2))[::pick([1, -1])].copy()
        elif t % 9 == 5:    # closed, or with repeated vertices, or vertices on edges
            p = np.r_[p, p[:1]] if t % 2 else np.insert(np.repeat(p, 1 + nrng.randint(0, 3, len(p)), 0), 1, .25*p[0] + .75*p[1], axis=0)
            if t % 2 == 0:
                p = p[np.r_[0, np.arange(2, len(p))]] if np.array_equal(p[0], p[2]) else p
        if not rough(p) > .05:
            continue
        if t % 9 == 6 and not np.array_equal(p, np.round(p)):
            continue
        t += 1
        u = pick([1., 1., 1e-6, 40e-6])
        d = nrng.randn(2)*pick([1, 20])
        if t % 9 == 7 and np.array_equal(p, np.round(p)):
            p = p.astype(int)
        elif t % 2:
            p = layout(p*u)
            d = d*u
        was = p.copy()

        def one(q):
            a, c = utils.area_centroid(q)
            return dict(a=num(a), c=nums(c))

        def f():
            r = one(p)
            r["rolled"] = one(np.roll(p, rng.randrange(1, len(p)), 0))
            r["reversed"] = one(p[::-1])
            r["moved"] = one(p + d)
            return r
        v, exc = call(f)
        ev = out.emit(kind="area", exc=exc or "no", path=nums(was), shift=nums(d), changed=not np.array_equal(was, p), **(v or {}))
        if v and t in (3, 4):
            ext = float(np.abs(was).max())
            out.canary(ev, a=num(float(v["a"]) + .1*ext**2))
            out.canary(ev, c=[v["c"][0], num(float(v["c"][1]) + .1*ext)])
    for t in range(n_(40, 200)):
        paths = []
        while len(paths) < 1 + t % 4:
            p = poly()
            if rough(p) > .05:
                paths.append(p)
        v, exc = call(lambda: nums(em.PolygonPixelElectrode(paths=paths).orientations()))
        ev = out.emit(kind="orient", exc=exc or "no", paths=[nums(p) for p in paths], got=v or [])
        if t == 3 and v:
            out.canary(ev, got=[num(-float(v[0]))] + v[1:])

if mode == "P18":
    for t in range(n_(90, 500)):
        m = rng.randrange(1, 7) if t % 15 != 7 else 30
        grid = [-1., 0., .5, 1., 2.] if t % 15 != 8 else [-1e-7, 0., 1e-7, 2e-7, 2.]
        if t % 11 == 0 and t % 2 or t % 15 == 9:    # nearly equal ones
            e = pick([1e-5, 1e-9, 1e-14])
            grid = [.5, .5 + e, .5 - e, .5 + 2*e, 2.]
        dc = [pick(grid) for _ in range(m)]
        rf = [pick(grid) for _ in range(m)]
        nm = pick([lambda i: "e%d" % i, lambda i: "e%d" % i, lambda i: "", lambda i: pick("ab"), lambda i: "e%d" % (i//2)])
        cov = dict(cover_nmax=pick([0, 0, 1]), cover_height=pick([50., 3.]))
        els = [em.PolygonPixelElectrode(paths=[poly() for _ in range(pick([1, 1, 2, 0]))], dc=dc[i], rf=rf[i], name=nm(i), **cov) for i in range(m)]
        if m > 2 and t % 6 == 0:
            els[1].paths = list(els[0].paths)       # the same outline twice
        s = system.System(els)
        ths = sorted(set(pick(grid + [.3, -5., 9.]) for _ in range(rng.randrange(0, 5))))
        own = t % 3 == 0
        v = dc if own else ([pick(grid) for _ in range(m)] if t % 3 == 1 else rf)
        kw = {}
        if not own:
            kw["voltages"] = np.array(v) if t % 2 else list(v)
        if t % 11 == 0:
            ths = sorted(set(v))
            kw["thresholds"] = None
        elif not (t % 13 == 0):
            kw["thresholds"] = ths if t % 2 else np.array(ths)
        else:
            ths = [0]
        x = np.array([[.2, -.1, 1.]])
        n = t % 3
        if t % 4 == 1:      # asked before, when it had other voltages and paths
            s = system.System([em.PolygonPixelElectrode(paths=[p + 1 for p in e.paths], dc=e.dc + 1., **cov) for e in els])
            call(lambda: (s.group([0]), s.group(**kw)))
            s[:] = els
            s.dcs = np.array(dc)[::-1]
            call(lambda: (s.group([0]), s.group(**kw)))
            s.dcs = dc
        snap = [(e.name, e.dc, e.rf, [p.copy() for p in e.paths]) for e in els]

        def f():
            g = s.group(**kw)
            ng = s.group(**kw)
            return dict(gdc=nums(g.dcs), grf=nums(g.rfs), gpaths=[[nums(p) for p in e.paths] for e in g], units=[flat(e.potential(x, n)) for e in els],
                        gunits=[flat(e.potential(x, n)) for e in g])
        r, exc = call(f)
        ch = len(s) != m or any(a is not b for a, b in zip(s, els)) or any(
            e.name != q[0] or e.dc != q[1] or e.rf != q[2] or len(e.paths) != len(q[3]) or any(not np.array_equal(a, b) for a, b in zip(e.paths, q[3]))
            for e, q in zip(els, snap))
        ev = out.emit(kind="group", exc=exc or "no", t=nums(np.array(ths, float)) if len(ths) else [], v=nums(np.array(v)), dc=nums(np.array(dc)), rf=nums(np.array(rf)),
                      paths=[[nums(p) for p in e.paths] for e in els], changed=bool(ch), **(r or {}))
        if r and t in (20, 21):
            out.canary(ev, gdc=[bump(r["gdc"][0])] + r["gdc"][1:], grf=[bump(g) for g in r["grf"]])
            out.canary(ev, gpaths=r["gpaths"][::-1], t=ev["t"] + ["77"])
