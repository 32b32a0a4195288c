"""System potentials: superposition (P03) and pseudopotential tower (P04)."""
import sys
from drvlib import *
electrode, system, em = load("electrode", "electrode.system", "electrode.electrode")
from stubs import *
out = Out()
mode = sys.argv[1]


def poly_el():
    n = rng.randrange(3, 7)
    a = np.sort(nrng.rand(n))*2*np.pi
    p = np.c_[np.cos(a), np.sin(a)]*(.5 + nrng.rand()) + nrng.randn(2)
    if rng.random() < .3:
        p = p[::-1]
    return em.PolygonPixelElectrode(paths=[p], cover_nmax=pick([0, 0, 1]), cover_height=pick([4., 50.]))


def real_el(grid_ok):
    c = rng.randrange(7)
    if c == 0:
        return em.PointPixelElectrode(points=nrng.randn(3, 2), areas=nrng.rand(3)+.1, cover_nmax=pick([0, 2]), cover_height=3.)
    if c == 1:
        return em.CoverElectrode(height=pick([2., 3.5]))
    if c == 2:
        return em.MeshPixelElectrode(points=nrng.randn(4, 2), edges=[[0, 1], [1, 2], [2, 0], [2, 3], [3, 0], [0, 2]],
                                     polygons=[0, 0, 0, 1, 1, 1], potentials=nrng.randn(2))
    if c == 3 and grid_ok:
        return em.GridElectrode(data=[nrng.randn(3, 4, 5, 2*i+1) for i in range(6)], origin=[-2, -2, 0], spacing=[1.5, 1., .7])
    if c == 4:
        return Harm()
    return poly_el()


def volts(n, zero):
    v = np.round(nrng.randn(n)*10.**rng.randrange(-2, 3), 4)
    c = rng.randrange(8)
    if c == 0:       # push-pull: exactly cancelling
        v = np.array([(-1.)**i for i in range(n)])*v[:1].sum()
    elif c == 1:     # integers that add up to zero
        v = np.round(v)
        if n:
            v[-1] -= v.sum()
    elif c == 2:     # all equal
        v = np.full(n, v[:1].sum())
    elif c == 3:     # very different magnitudes
        v = nrng.randn(n)*10.**nrng.randint(-9, 9, n)
    elif c == 4:     # all of one sign
        v = -np.abs(v)
    elif c == 5:     # many digits
        v = nrng.randn(n)*pick([1., 5e3, 1e6])
    if c > 2:
        for i in range(n):
            if rng.random() < zero:
                v[i] = 0.
    return v


def points(npt, off):
    x = nrng.randn(npt, 3)*(1.5 if off == .4 else 1.)
    c = rng.randrange(5)
    if c == 0:       # on the symmetry axes, integer coordinates
        x[:, rng.randrange(2)] = 0.
    elif c == 1:
        x = np.round(x)
    elif c == 2:     # the same point several times
        x[:] = x[0]
    x[:, 2] = np.abs(x[:, 2]) + off
    return x


if mode == "P03":
    for t in range(400 if THOROUGH else 90):
        m = rng.randrange(0, 6) if t % 30 != 17 else 25
        els = [real_el(True) for _ in range(m)]
        dc, rf = volts(m, .3), volts(m, .4)
        for i in range(1, m):   # electrodes that share their outlines or data, but nothing else
            a, b = els[i-1], els[i]
            if type(a) is type(b) and rng.random() < .5:
                if isinstance(a, em.PolygonPixelElectrode):
                    els[i] = em.PolygonPixelElectrode(paths=a.paths, cover_nmax=1 - min(a.cover_nmax, 1), cover_height=2.5)
                    els[i].paths = a.paths
                elif isinstance(a, em.GridElectrode):
                    els[i] = em.GridElectrode(data=a.data, origin=np.array(a.origin) + [.2, -.1, 0], spacing=np.array(a.spacing)*1.1)
                elif isinstance(a, em.PointPixelElectrode):
                    els[i] = em.PointPixelElectrode(points=a.points, areas=a.areas*2 + .1)
                elif isinstance(a, em.MeshPixelElectrode):
                    els[i] = em.MeshPixelElectrode(points=a.points, edges=a.edges, polygons=a.polygons, potentials=a.potentials + 1)
            elif isinstance(b, em.PolygonPixelElectrode) and rng.random() < .2:
                els[i] = em.PolygonPixelElectrode(paths=b.paths, cover_nmax=b.cover_nmax, cover_height=b.cover_height)
                els[i-1] = em.PolygonPixelElectrode(paths=b.paths, cover_nmax=1 - min(b.cover_nmax, 1), cover_height=2.5)
                els[i].paths = els[i-1].paths = b.paths
        for i, e in enumerate(els):
            e.dc, e.rf, e.name = dc[i], rf[i], pick(["a", "b", ""])
        if m and t % 5 == 0:
            els[0].dc = dc[0] = 3     # an integer voltage
            els[-1].rf = rf[-1] = np.float32(2.5)
        if m > 1 and t % 7 == 0:
            els.append(els[0])     # the same electrode twice counts twice
            dc, rf, m = np.r_[dc, dc[0]], np.r_[rf, rf[0]], m+1
        n = t % 6
        s = system.System(els)
        if t % 3 == 1:      # a system that was asked before it became this one
            y = points(3, .4)
            if t % 2:
                s = system.System(els[:m//2] + [poly_el() for _ in range(pick([0, m - m//2]))])
            s.dcs, s.rfs = volts(len(s), 0), volts(len(s), 0)
            s.electrical_potential(y, n), s.electrical_potential(y, n, "rf"), s.individual_potential(y, n)
            s[:] = els
            s.dcs, s.rfs = dc, rf
        npt = pick([1, 1, 2, 5])
        x = points(npt, .4)
        form = pick(["array", "list", "fortran", "flat", "ints", "strided"])
        if form == "ints":
            x = np.round(x) + [0, 0, 1]
        xin = {"ints": x.astype(int), "strided": np.repeat(x, 3, 0)[::3], "array": x, "list": x.tolist(), "fortran": np.asfortranarray(x), "flat": x.ravel()}[form]
        at = list(range(npt))
        if npt == 1 and rng.random() < .5:
            xin = x[0]
        elif t % 6 == 2:    # many points at once
            big = points(pick([40, 300, 1001, 1025, 2001] + [4097, 10001]*(m < 6)), .4)
            at = sorted(rng.sample(range(len(big)), npt))
            if rng.random() < .6:       # the last of them
                at[-1] = len(big)-1
            if t % 4 == 0:      # a point that is none among them
                big[rng.randrange(len(big))] = pick([[np.nan]*3, [0, np.nan, 1.], [.1, .2, np.inf]])
            big[at] = x
            xin = big
        big = np.size(xin)//3
        tt = pick([0., .3, np.pi, -2., 1.57, 4., 23., -7.5])
        if t % 24 == 0:
            tt = 0.

        def f():
            r = dict(units=[nums(e.potential(x.copy(), n)) for e in els])
            r["edc"] = nums(s.electrical_potential(xin, n, "dc")[at])
            r["erf"] = nums(s.electrical_potential(xin, n, typ="rf")[at])
            pm = list(els)
            rng.shuffle(pm)
            r["perm"] = nums(system.System(pm).electrical_potential(xin, n)[at])
            r["single"] = [nums(s.electrical_potential(xi, n))[0] for xi in x]
            r["time"] = nums(s.time_potential(xin, n, tt)[at])
            if n == 0 and t % 12 == 0:     # derivative, kind and time have defaults
                r["edc"] = nums(s.electrical_potential(xin)[at])
                if tt == 0.:
                    r["time"] = nums(s.time_potential(xin)[at])
            r["ind"] = nums((s.individual_potential(xin, n) if n or t % 12 else s.individual_potential(xin))[:, at])
            r["xdc"] = nums(s.electrical_potential(xin, n, "dc", expand=True).reshape(big, -1)[at])
            r["xrf"] = nums(s.electrical_potential(xin, n, "rf", expand=True).reshape(big, -1)[at])
            r["xtime"] = nums(s.time_potential(xin, n, tt, expand=True).reshape(big, -1)[at])
            return r
        v, exc = call(f)
        e = out.emit(kind="sum", exc=exc or "no", n=n, np=npt, dc=nums(dc), rf=nums(rf), t=num(tt), **(v or {}))
        if m and t in (10, 20, 21) and v:
            bad = json.loads(json.dumps(e["edc"]))
            i = int(np.argmax(np.abs([float(b) for b in bad[0]])))
            bad[0][i] = bump(bad[0][i], 1e-3)
            if float(bad[0][i]):
                out.canary(e, edc=bad)

if mode == "P04":
    for t in range(250 if THOROUGH else 50):
        n = t % 5
        raw = t % 6 == 5
        m = rng.randrange(1, 4)
        els = [poly_el() for _ in range(m)] if raw else [Harm() for _ in range(m)]
        dc, rf = volts(m, .3), volts(m, .2)
        if t % 10 == 9:
            rf[:] = 0
        for i, e in enumerate(els):
            e.dc, e.rf = dc[i], rf[i]
        s = system.System(els)
        sc = pick([1., .03, 17.])
        npt = pick([1, 2, 3])
        x = points(npt, .5)
        if t % 3 == 1:      # a system that was asked with other voltages and another scale
            s.rf_scale(1., 7., 1., 3.)
            s.rfs = volts(m, 0)
            for k in range(3):
                s.pseudo_potential(x, k), s.potential(x, k)
            s.rfs = rf
        xa, at = x, list(range(npt))
        if t % 4 == 1:      # many points at once
            xa = points(pick([30, 200, 257, 1001, 1025]) if n < 3 else 20, .5)
            at = sorted(rng.sample(range(len(xa)), npt))
            if rng.random() < .5:       # the last of them
                at[-1] = len(xa)-1
            if t % 8 == 1:      # a point that is none among them
                xa[rng.randrange(len(xa))] = pick([[np.nan]*3, [0, np.nan, 1.]])
            xa[at] = x

        def f():
            got = s.rf_scale(1., (2*sc)**2, 1., 1.)
            p = s.pseudo_potential(xa, n)
            r = dict(scale=num(s.rf_coeff), shape=shape(p[at]))
            fl = lambda a: nums(np.reshape(a, (len(xa), -1))[at])
            r.update(pseudo=fl(p), rf=fl(s.potential(xa, n, "rf")), dc=fl(s.potential(xa, n, "dc")),
                     tot=fl(s.potential(xa, n, typ="tot")))
            r["def"] = fl(s.potential(xa, n))
            if n == 0 and t % 10 == 0:
                r["def"], r["pseudo"] = fl(s.potential(xa)), fl(s.pseudo_potential(xa))
            if raw:
                r["rfraw"] = [[nums(s.electrical_potential(xi, d, "rf")[0]) for d in range(n+2)] for xi in x]
                r["dcraw"] = [[nums(s.electrical_potential(xi, d, "dc")[0]) for d in range(n+1)] for xi in x]
            return r
        v, exc = call(f)
        e = out.emit(kind="pseudo", exc=exc or "no", n=n, x=nums(x), raw=raw,
                     els=[] if raw else [q.rec() for q in els], **(v or {}))
        if t in (3, 4) and v:
            bad = json.loads(json.dumps(e["pseudo"]))
            i = int(np.argmax(np.abs([float(b) for b in bad[0]])))     # the largest component
            bad[0][i] = bump(bad[0][i], 1.)
            out.canary(e, pseudo=bad)
    for t in range(30):
        s = system.System([])
        m, q, l, o = [float(10.**nrng.uniform(a, b)) for a, b in [(-27, -24), (-20, -18), (-6, -2), (5, 9)]]
        v, exc = call(s.rf_scale, m, q, l, o)
        out.emit(kind="scale", exc=exc or "no", m=num(m), q=num(q), l=num(l), o=num(o), got=num(v),
                 attr=num(getattr(s, "rf_coeff", None)))
        # and again, with other or nearly the same values
        m, q, l, o = [i*pick([1, 1, 1+10.**nrng.uniform(-9, -2), pick([2., 1e3])]) for i in (m, q, l, o)]
        v, exc = call(s.rf_scale, m, q, l, o)
        out.emit(kind="scale", exc=exc or "no", m=num(m), q=num(q), l=num(l), o=num(o), got=num(v),
                 attr=num(getattr(s, "rf_coeff", None)))
    s = system.System([Harm(dc=1, rf=1)])
    x = np.array([[.1, .2, .3]])
    for what, fn, want in [("no scale", lambda: s.pseudo_potential(x, 0), "AttributeError"),
                           ("no scale tot", lambda: s.potential(x, 1), "AttributeError")]:
        v, exc = call(fn)
        out.emit(kind="refuse", exc="no", what=what, raised=exc or "no", want=want)
    s.rf_scale(1., 1., 1., 1.)
    for what, fn, want in [("order 5", lambda: s.pseudo_potential(x, 5), None), ("typ", lambda: s.potential(x, 0, "foo"), None),
                           ("order 5 pot", lambda: s.potential(x, 5), None), ("order 4", lambda: s.potential(x, 4), "no")]:
        v, exc = call(fn)
        out.emit(kind="refuse", exc="no", what=what, raised=exc or "no", want=want or "raised") if want else \
            out.emit(kind="refuse", exc="no", what=what, raised="raised" if exc else "no", want="raised")
