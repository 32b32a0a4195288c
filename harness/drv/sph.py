"""Spherical harmonics, coordinates and grids (P41)."""
from drvlib import *
sph, grid = load("electrode.spherical_harmonics", "electrode.grid")
out = Out()
SH = sph.SphericalHarmonics


def cs(a):
    a = np.asarray(a, complex)
    return num(a[()]) if a.ndim == 0 else [cs(i) for i in a]


def coefs(N):
    a = np.zeros((N, N), complex)
    c = rng.random()
    if c < .3:
        a[:] = nrng.randn(N, N) + 1j*nrng.randn(N, N)
    elif c < .4:
        return nrng.randn(N, N)
    else:
        for _ in range(rng.randrange(1, 4)):
            a[rng.randrange(N), rng.randrange(N)] = nrng.randn() + 1j*nrng.randn()
    if rng.random() < .3:       # a weak part, other units
        if rng.random() < .5:
            a = a.real + 1j*a.imag*pick([1e-6, 1e-10])
        else:
            a = a*10.**nrng.choice([0, -6, -10], (N, N))
    if rng.random() < .2:
        a = a*pick([1e-15, 1e-9, 1e9])
    return a


def synth(s, a, npts, key=None):
    N = s.nmax
    arg = a
    if rng.random() < .4:
        arg = layout(a)
    f, exc = call(s.synthesis, arg)
    if not np.array_equal(arg, a):
        exc = "coefficients_overwritten"
    kw = {"key": key} if key else {}
    if exc:
        out.emit(kind="synthesis", N=N, a=cs(a), exc=exc, pts=[], shape=[], **kw)
        return
    th, ph = np.broadcast_arrays(s.theta, s.phi)
    ij = [(i, j) for i in range(N) for j in range(2*N)]
    if len(ij) > npts:
        ij = rng.sample(ij, npts)
    pts = [{"th": num(th[i, j]), "ph": num(ph[i, j]), "f": num(complex(f[i, j]))} for i, j in ij]
    e = out.emit(kind="synthesis", N=N, a=cs(a), exc="no", pts=pts, shape=shape(f), **kw)
    f1 = f.copy()
    arg = layout(f) if rng.random() < .4 else f
    b, exc = call(s.analysis, arg)
    if exc is None and not np.array_equal(arg, f1):
        exc = "values_overwritten"
    r = out.emit(kind="round", N=N, a=cs(a), b=cs(b) if exc is None else [], exc=exc or "no")
    return e, r


def poly(N, real):
    p = []
    for _ in range(rng.randrange(1, 5)):
        d = rng.randrange(0, N)
        i = rng.randrange(0, d+1)
        j = rng.randrange(0, d-i+1)
        c = complex(nrng.randn(), 0 if real else nrng.randn()*pick([1., 1., 1e-9]))*pick([1., 1., 1e-8])
        p.append({"i": i, "j": j, "k": d-i-j, "c": num(c), "_c": c})
    return p


def analysis(s):
    N = s.nmax
    real = rng.random() < .5
    p = poly(N, real)
    th, ph = np.broadcast_arrays(s.theta, s.phi)
    x, y, z = np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)
    f = sum(t["_c"]*x**t["i"]*y**t["j"]*z**t["k"] for t in p)
    if real:
        f = f.real.copy()
    if rng.random() < .3:
        f = layout(f)
    for t in p:
        del t["_c"]
    a, exc = call(s.analysis, f)
    e = out.emit(kind="analysis", N=N, p=p, a=cs(a) if exc is None else [], exc=exc or "no", shape=shape(a) if exc is None else [])
    if exc is None:
        g, exc = call(s.synthesis, a)
        out.emit(kind="back", f=[num(complex(i)) for i in f.ravel()], g=[num(complex(i)) for i in g.ravel()] if exc is None else [], exc=exc or "no")
    return e


T = THOROUGH
for N in range(1, 13 if T else 8):
    s, exc = call(SH, N)
    if exc:
        out.emit(kind="grid", N=N, exc=exc)
        continue
    idx, exc = call(lambda: [list(map(int, i)) for i in s.indices()])
    e = out.emit(kind="grid", N=N, theta=flat(s.theta), phi=flat(s.phi), weight=flat(s.weight), idx=idx or [], exc=exc or "no")
    if N == 5:
        out.canary(e, phi=[bump(i, 1e-6) for i in e["phi"]])
        out.canary(e, weight=e["weight"][1:] + e["weight"][:1])
        out.canary(e, idx=[[i[0], -i[1]] + i[2:] for i in e["idx"]])
    # every single coefficient
    if N <= (6 if T else 4):
        for n in range(N):
            for m in range(N):
                a = np.zeros((N, N), complex)
                a[n, m] = 1.
                r = synth(s, a, 12)
    for _ in range(20 if T else 5):
        r = synth(s, coefs(N), 8)
        a = analysis(s)
    if N == 5 and r:
        out.canary(r[0], pts=[dict(p, f={"re": bump(p["f"]["re"], 1e-6), "im": p["f"]["im"]}) for p in r[0]["pts"]])
        out.canary(r[1], b=[[{"re": bump(c["re"], 1e-6), "im": c["im"]} for c in q] for q in r[1]["b"]])
        out.canary(a, a=[[{"re": bump(c["re"], 1e-6), "im": c["im"]} for c in q] for q in a["a"]])
for N in ([16, 24, 40] if T else [16]):
    s, exc = call(SH, N)
    if exc:
        out.emit(kind="grid", N=N, exc=exc)
        continue
    a = np.zeros((N, N), complex)
    for _ in range(3):
        a[rng.randrange(N), rng.randrange(N)] = nrng.randn() + 1j*nrng.randn()
    synth(s, a, 4)
    call(SH, N+1)
    for _ in range(6 if T else 3):
        n = rng.randrange(N)
        a = nrng.randn(N, N) + 1j*nrng.randn(N, N)
        b, exc = call(lambda: s.analysis(s.synthesis(a)))
        out.emit(kind="round", N=N, a=cs(a), b=cs(b) if exc is None else [], exc=exc or "no")


# interleaved: sizes and objects do not disturb each other
objs = [SH(n) for n in (3, 4, 3, 6)]
for _ in range(30 if T else 12):
    s = pick(objs)
    synth(s, coefs(s.nmax), 6)
    analysis(pick(objs))


# ---- coordinates -----------------------------------------------------------
def triple(kind, n):
    if kind == "sph":
        return [np.abs(nrng.randn(n))*pick([1., 1e-3, 1e3]), nrng.uniform(0, np.pi, n), nrng.uniform(-np.pi, np.pi, n)]
    return list(nrng.randn(3, n)*pick([1., 1e-3, 1e3]))


def few(a, b):
    """the same few points of both; the first and last are always among them"""
    n = len(a[0])
    i = sorted({0, n-1} | {rng.randrange(n) for _ in range(8)})
    return [q[i] for q in a], [q[i] for q in b]


AXES = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (0, 0, 0), (-1, 1e-9, 0), (-1, -1e-9, 0), (1e-9, 0, -1)]
for n in range(60 if T else 20):
    s = triple("sph", rng.randrange(1, 6))
    if n % 4 == 0:
        s = [float(i[0]) for i in s]
    elif n % 4 == 1:
        s = [s[0][0], s[1][:, None], s[2][None, :]]       # broadcast
    elif n % 4 == 2:
        s = [layout(i) for i in triple("sph", pick([5, 70, 1500]))]
    x, exc = call(sph.spherical_to_cartesian, *s)
    b = [i.ravel() for i in np.broadcast_arrays(*s)]
    if n % 4 == 2 and exc is None:
        b, x = few(b, [np.ravel(i) for i in x])
    e = out.emit(kind="to_cartesian", s=[[num(c) for c in p] for p in zip(*b)], exc=exc or "no",
                 x=[] if exc else [[num(c) for c in p] for p in zip(*[np.ravel(i) for i in x])])
    x = triple("car", rng.randrange(1, 6))
    if n % 4 == 0:
        x = [np.array([p[c] for p in AXES], float) for c in range(3)]
    elif n % 4 == 1:
        x = [float(i[0]) for i in x]
    elif n % 4 == 2:
        x = [layout(i) for i in triple("car", pick([5, 70, 1500]))]
    s, exc = call(sph.cartesian_to_spherical, *x)
    b = [i.ravel() for i in np.broadcast_arrays(*x)]
    if n % 4 == 2 and exc is None:
        b, s = few(b, [np.ravel(i) for i in s])
    e2 = out.emit(kind="to_spherical", x=[[num(c) for c in p] for p in zip(*b)], exc=exc or "no",
                  s=[] if exc else [[num(c) for c in p] for p in zip(*[np.ravel(i) for i in s])])
    r, th, ph = [i.reshape(1, -1) for i in triple("sph", rng.randrange(1, 6))]
    th = np.clip(th, .1, np.pi-.1)
    r = r + .01
    d = nrng.randn(3, *r.shape)
    for way in ("to_spherical", "to_cartesian"):
        v, exc = call(sph.derivatives_spherical_cartesian, d, r, th, ph, way)
        if exc is None:
            v = np.array(v)
        cd = (d, v) if way == "to_spherical" else (v, d)
        e3 = out.emit(kind="gradient", way=way, s=[[num(c) for c in p] for p in zip(r.ravel(), th.ravel(), ph.ravel())], exc=exc or "no",
                      c=[] if exc else [[num(c) for c in p] for p in cd[0].reshape(3, -1).T],
                      d=[] if exc else [[num(c) for c in p] for p in cd[1].reshape(3, -1).T])
out.canary(e, x=[p[::-1] for p in e["x"]])
out.canary(e2, s=[[p[0], p[2], p[1]] for p in e2["s"]])
out.canary(e3, d=[[p[0], p[2], p[1]] for p in e3["d"]])

# ---- grids -------------------------------------------------------------------
for n in range(30 if T else 10):
    k = pick([1, 2, 3, 1, 2, 12])
    o = nrng.randn(k, 3)
    arg = pick([lambda: o, lambda: o.tolist(), lambda: layout(o), lambda: o[0] if k == 1 else o])()
    r, N = pick([1e-2, .5, 1., 3]), rng.randrange(1, 5)
    g, exc = call(grid.SphericalGrid, arg, r, N)
    if exc is None:
        v, exc = call(lambda: (g.to_mgrid(), g.to_points()))
    kw = {}
    if exc is None:
        s = g.spherical_harmonics
        kw = dict(xyz=nums(v[0]), points=nums(v[1]), shape=list(map(int, g.shape)), theta=flat(s.theta), phi=flat(s.phi))
    e = out.emit(kind="sgrid", origins=nums(np.atleast_2d(o)), r=num(r), N=N, exc=exc or "no", **kw)
out.canary(e, points=e["points"][::-1])
out.canary(e, r=bump(e["r"]))
