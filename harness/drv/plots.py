"""Plots (P43): records what reaches the axes and the rendered pixels."""
from drvlib import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
system, electrode, grid = load("electrode.system", "electrode.electrode", "electrode.grid")
import stubs
out = Out()


def new_axes(size=1.):
    fig = Figure(figsize=(size, size), dpi=100)
    can = FigureCanvasAgg(fig)
    ax = fig.add_axes([0, 0, 1, 1])
    return fig, can, ax


def quads(n, sign=None):
    s = []
    for i in range(n):
        c = nrng.randn()
        s.append(stubs.Quad(c=c, g=nrng.randn(3), H=stubs.traceless(), dc=nrng.randn(), rf=pick([0., nrng.randn()])))
    s[-1].rf = s[-1].rf or 1.
    if sign:     # one electrode shifts everything to one side of zero
        s[0].c, s[0].dc = 100., sign
    return s


def contour(slc, typ, shape, fill, given, key, sign=None, levels=False, divide=None):
    fig, can, ax = new_axes()
    els = quads(pick([1, 2, 3]), sign)
    step = np.round(nrng.uniform(.3, 2, 3), 3)
    if rng.random() < .5 and shape[0] == shape[1] == shape[2]:
        step[:] = step[0]
    center = np.round(nrng.randn(3), 3)
    origin = center - (np.array(shape) - 1)/2.*step
    at = float(np.round(nrng.randn(), 3))
    e0 = els[0]
    real = list(els)
    if not given:
        ax3 = [origin[a] + step[a]*np.arange(shape[a]) for a in range(3)]
        pts = np.array(np.meshgrid(*ax3, indexing="ij")).reshape(3, -1).T
        data = [e0.potential(pts, d).reshape(tuple(shape) + (-1,)) for d in (0, 1)]
        real[0] = electrode.GridElectrode(data=data, origin=origin, spacing=step, dc=e0.dc, rf=e0.rf)
        at = float(pick(list(ax3["xyz".index(slc)])))
    s = system.System(real)
    rfc = float(np.round(nrng.uniform(.3, 2), 3))
    s.rf_coeff = rfc
    got = {}

    def hook(name):
        orig = getattr(ax, name)

        def f(*a, **kw):
            if not got:
                got.update(a=a, kw=dict(kw), filled=name == "contourf")
            return orig(*a, **kw)
        return f
    c, cf = hook("contour"), hook("contourf")
    ax.contour, ax.contourf = c, cf
    kw = {"typ": typ, "slc": slc, "slc_at": at, "fill": fill}
    if typ == "tot" and rng.random() < .3:
        del kw["typ"]
    if slc == "x" and rng.random() < .3:
        del kw["slc"]
    dv = 8
    if divide is not None:
        dv = kw["divide_max"] = divide
    ln = 50
    if rng.random() < .5:
        ln = kw["line_num"] = rng.randrange(3, 30)
    want = []
    if levels:
        want = sorted(set(np.round(nrng.randn(rng.randrange(2, 5)), 3)))
        kw["levels"] = list(want)
    if given:
        g = pick([np.array, list])
        kw["grid"] = grid.Grid(center=center, step=step, shape=pick([tuple, np.array, list])(shape))
    v, exc = call(s.plot_contour, ax, **kw)
    ev = dict(kind="contour", key=key, slc=slc, typ=typ, shape=list(shape), fill=fill, given=given, at=num(at), divide=num(dv), line_num=ln,
              center=nums(center), step=nums(step), origin=nums(origin), rfc=num(rfc), els=[e.rec() for e in els],
              userlevels=levels, wantlevels=nums(want), exc=exc or "no")
    if exc:
        return out.emit(**ev)

    def obs():
        a = got["a"]
        X, Y, Z = (np.asarray(i, float) for i in a[:3])
        if X.ndim == 2:
            assert (X == X[:1]).all()
            X = X[0]
        if Y.ndim == 2:
            assert (Y == Y[:, :1]).all()
            Y = Y[:, 0]
        lev = got["kw"].get("levels", a[3] if len(a) > 3 else [])
        (mx, mn) = v[1]
        fig.canvas.draw()
        return dict(X=nums(X), Y=nums(Y), Z=nums(Z), levels=nums(lev), max=num(mx), min=num(mn), filled=got["filled"],
                    xlabel=ax.get_xlabel()[:1], ylabel=ax.get_ylabel()[:1])
    o, exc = call(obs)
    ev["exc"] = exc or "no"
    ev.update(o or {})
    return out.emit(**ev)


class Rec(electrode.Electrode):
    """Records how it is plotted."""
    __slots__ = ["log"]

    def __init__(self, log, **kw):
        super(Rec, self).__init__(**kw)
        self.log = log

    def plot(self, ax, label=None, color=None, **kw):
        self.log.append((self, ax, label, color, kw))


class Cmap(object):
    """Keeps its argument as the red component."""
    def __call__(self, u):
        u = np.asarray(u, float)
        r = np.zeros(u.shape + (4,))
        r[..., 0] = u
        r[..., 3] = 1.
        return tuple(r) if u.ndim == 0 else r


def volts():
    n = rng.randrange(1, 7)
    u = np.round(nrng.randn(n)*pick([1, 10]), 3)
    if rng.random() < .25:
        u[rng.randrange(n)] = 0.
    if rng.random() < .12:
        u[:] = 0
    if rng.random() < .3:
        u = -np.abs(u)
    return u


def voltages(key):
    u = volts()
    n = len(u)
    log = []
    s = system.System([Rec(log, name="e%d" % i, dc=nrng.randn(), rf=nrng.randn()) for i in range(n)])
    kw = {"cmap": Cmap()}
    m = pick(["dcs", "array", "list", "tuple", "ints"])
    if m == "ints":
        u = np.round(u)
    if m == "dcs":
        s.dcs = u
        if rng.random() < .3:
            kw["u"] = None
    else:
        kw["u"] = {"array": lambda: u.copy(), "list": lambda: list(map(float, u)), "tuple": lambda: tuple(map(float, u)),
                   "ints": lambda: u.astype(int)}[m]()
    um = "None"
    if rng.random() < .4:
        um = float(np.round(nrng.uniform(.5, 2)*max(np.abs(u).max(), 1.), 2))
        kw["um"] = um
    extra = {} if rng.random() < .5 else {"label": "", "alpha": .5}
    fig, can, ax = new_axes()
    v, exc = call(s.plot_voltages, ax, **dict(kw, **extra))
    idx = {id(e): i + 1 for i, e in enumerate(s)}

    def col(c):
        return num(np.ravel(c)[0])
    return out.emit(kind="voltages", key=key, u=nums(u), um=num(um) if um != "None" else um, exc=exc or "no", mode=m,
                    order=[idx.get(id(l[0]), 0) for l in log], shown=[col(l[3]) for l in log],
                    passed=all(l[1] is ax and (l[2] == "" if extra else l[2] is None) and l[4].get("alpha") == extra.get("alpha") for l in log))


def signs(key):
    u = volts()
    log = []
    s = system.System([Rec(log, dc=ui) for ui in u])
    fig, can, ax = new_axes()
    v, exc = call(s.plot_voltages, ax)
    return out.emit(kind="signs", key=key, u=nums(u), exc=exc or "no", rgb=[flat(l[3])[:3] for l in log])


def palette(key):
    n = pick([0, 1, 2, 5, 12, 13, 27])
    log = []
    s = system.System([Rec(log) for _ in range(n)])
    fig, can, ax = new_axes()
    kw = pick([{}, {"alpha": .7}, {"label": ""}])
    v, exc = call(s.plot, ax, **kw)
    idx = {id(e): i + 1 for i, e in enumerate(s)}
    return out.emit(kind="palette", key=key, n=n, exc=exc or "no", order=[idx.get(id(l[0]), 0) for l in log],
                    shown=[flat(l[3]) for l in log],
                    passed=all(l[1] is ax and ("label" not in kw or l[2] == "") and ("alpha" not in kw or l[4].get("alpha") == .7) for l in log))


LIM = 3.
U = 1.        # the unit of length


def unit():
    global U
    U = pick([1., 1., 1e-9, 1e-6, 1e-4, 1e4])


def ring(c, r, n=None, ccw=True):
    """A star shaped ring around c."""
    n = n or pick([3, 4, 5, 7])
    a = np.sort(2*np.pi*(np.arange(n) + nrng.uniform(-.3, .3, n))/n)
    p = np.array(c) + (nrng.uniform(.6, 1., n)*r)[:, None]*np.array([np.cos(a), np.sin(a)]).T
    return np.round(p if ccw else p[::-1], 3)


def polygon(c=None, r=None):
    """A polygon electrode within the view: outer ring, maybe holes, islands, several parts."""
    if c is None:
        c = nrng.uniform(-1, 1, 2)
        r = nrng.uniform(.7, 1.8)
    m = pick(["plain", "plain", "hole", "island", "two", "clockwise"])
    if m == "plain":
        return [ring(c, r)]
    if m == "clockwise":
        return [ring(c, r, ccw=False)]
    if m == "hole":
        return [ring(c, r, 6), ring(c, r*.4, ccw=False)]
    if m == "island":
        return [ring(c, r, 6), ring(c, r*.45, 5, ccw=False), ring(c, r*.2)]
    return [ring(np.array(c) - [r/2, 0], r*.4), ring(np.array(c) + [r/2, 0], r*.4)]


def points(c=None, r=None):
    n = rng.randrange(1, 5)
    if c is None:
        c, r = (0, 0), 2.
    p = np.array(c) + nrng.uniform(-.6, .6, (n, 2))*r
    a = np.pi*(nrng.uniform(.15, .4, n)*r)**2
    p3 = np.c_[p, nrng.randn(n)] if rng.random() < .5 else p
    return np.round(p3, 3), np.round(a, 4)


def make(t, c=None, r=None, **kw):
    if t == "polygon":
        p = [q*U for q in polygon(c, r)]
        return electrode.PolygonPixelElectrode(paths=pick([lambda: p, lambda: [q.tolist() for q in p]])(), **kw), {"t": t, "paths": nums_list(p)}
    p, a = points(c, r)
    p, a = p*U, a*U**2
    return electrode.PointPixelElectrode(points=p, areas=a, **kw), {"t": t, "points": nums(p[:, :2]), "areas": nums(a)}


def nums_list(p):
    return [nums(q) for q in p]


def sample(can, n):
    """Pixels of the rendered axes with the coordinates of their centres."""
    can.draw()
    b = np.asarray(can.buffer_rgba())[:, :, :3]/255.
    h, w = b.shape[:2]
    px = []
    for _ in range(n):
        i, j = rng.randrange(w), rng.randrange(h)
        x = U*(-LIM + 2*LIM*(i + .5)/w)
        y = U*(LIM - 2*LIM*(j + .5)/h)
        px.append({"p": [num(x), num(y)], "rgb": nums(b[j, i])})
    return px, U*4*LIM/w


def view(ax):
    ax.set_xlim(-LIM*U, LIM*U)
    ax.set_ylim(-LIM*U, LIM*U)
    ax.axis("off")


def colour():
    return tuple(np.round(nrng.uniform(.1, .8, 3), 2))


def pixels(t, key):
    unit()
    fig, can, ax = new_axes(pick([1., 1.5]))
    view(ax)
    el, rec = make(t, name="nn")
    c = colour()
    rec["colour"] = nums(c)

    def go():
        el.plot(ax, label="", color=c)
        return sample(can, 60 if THOROUGH else 30)
    v, exc = call(go)
    return out.emit(kind="pixels", key=key, els=[rec], exc=exc or "no", pixels=v[0] if v else [], margin=num(v[1]) if v else "1.0")


def many(key, how):
    """Electrodes in separate cells, through the system's plots."""
    unit()
    fig, can, ax = new_axes(1.5)
    view(ax)
    cells = [(x, y) for x in (-2, 0, 2) for y in (-2, 0, 2)]
    rng.shuffle(cells)
    els, recs = [], []
    for c in cells[:rng.randrange(1, 6)]:
        e, r = make(pick(["polygon", "points"]), c, .9, dc=float(np.round(nrng.randn(), 3)))
        els.append(e)
        recs.append(r)
    s = system.System(els)

    def go():
        if how == "plot":
            s.plot(ax, alpha=1, label="")
            import electrode.colors as col
            for i, r in enumerate(recs):
                r["colour"] = nums(col.set3[i % len(col.set3)]/255.)
        else:
            s.plot_voltages(ax, label="")
            u = np.array([e.dc for e in els])
            for r, ui in zip(recs, u/(np.abs(u).max() or 1.)):
                r["colour"] = nums(plt.cm.RdBu_r((ui + 1)/2)[:3])
        return sample(can, 60 if THOROUGH else 30)
    v, exc = call(go)
    return out.emit(kind="pixels", key=key, els=recs, exc=exc or "no", pixels=v[0] if v else [], margin=num(v[1]) if v else "1.0")


def text(t, key):
    unit()
    fig, can, ax = new_axes()
    view(ax)
    name = pick(["", "rf", "DC 1"])
    label = pick([None, None, "", "other"])
    el, rec = make(t, name=name)
    kw = {} if label is None and rng.random() < .5 else {"label": label}
    v, exc = call(el.plot, ax, color="r", **kw)
    p = np.concatenate([np.array(q, float) for q in rec["paths"]]) if t == "polygon" else np.array(rec["points"], float)
    return out.emit(kind="text", key=key, t=t, name=name, label="None" if label is None else label, exc=exc or "no",
                    texts=[{"s": i.get_text(), "p": nums(i.get_position())} for i in ax.texts],
                    box=[nums(p.min(0)), nums(p.max(0))])


def empty(key, how):
    fig, can, ax = new_axes()
    el = pick([electrode.PolygonPixelElectrode, electrode.PointPixelElectrode])(name="n")

    def go():
        n = len(ax.get_children())
        if how == "plot":
            el.plot(ax, color="r")
        else:
            system.System([el]).plot(ax)
        can.draw()
        return 0
    v, exc = call(go)
    return out.emit(kind="empty", key=key, exc=exc or "no", artists=len(ax.texts))


class Quiet(object):
    def write(self, s):
        pass

    def flush(self):
        pass


import sys as _s, warnings as _w
_w.simplefilter("ignore")
_stdout, _s.stdout = _s.stdout, Quiet()
for n, h in enumerate(inputs()):
    contour(h["slc"], h["typ"], h["shape"], h["fill"], h["given"], "gen-%d" % n)
for n in range(200 if THOROUGH else 30):
    contour(pick("xyz"), pick(["tot", "dc", "rf"]), [rng.randrange(2, 6) for _ in range(3)], rng.random() < .5, rng.random() < .6, "rand-%d" % n,
            sign=pick([None, 1., -1.]), levels=rng.random() < .2, divide=pick([None, 1, 2., 8, 20]))
for n in range(200 if THOROUGH else 40):
    voltages("volt-%d" % n)
    signs("sign-%d" % n)
    palette("pal-%d" % n)
    text("polygon", "tpoly-%d" % n)
    text("points", "tpts-%d" % n)
for n in range(120 if THOROUGH else 25):
    pixels("polygon", "poly-%d" % n)
    pixels("points", "pts-%d" % n)
    many("sys-%d" % n, "plot")
    many("sysv-%d" % n, "voltages")
for how in ("plot", "system"):
    for n in range(4):
        empty("empty-%s-%d" % (how, n), how)

rng.seed(5)
nrng.seed(5)
e = contour("y", "dc", [3, 2, 4], False, True, "canary")
if e["exc"] == "no":
    Z = np.array(e["Z"], float)
    out.canary(e, Z=nums(Z[::-1]))
    out.canary(e, Z=nums(Z*1.00001))
    out.canary(e, Z=nums(Z[:, ::-1]))
    out.canary(e, X=e["X"][::-1])
    out.canary(e, xlabel=e["ylabel"])
    out.canary(e, max=bump(e["max"]))
    out.canary(e, levels=e["levels"][:-1])
    out.canary(e, filled=True)
    out.canary(e, typ="rf")
e = out.emit(kind="voltages", key="canaryv", u=["1.0", "-2.0"], um="None", exc="no", mode="", order=[1, 2], shown=["0.75", "0.0"], passed=True)
out.canary(e, shown=["0.0", "0.75"])
out.canary(e, shown=["1.0", "0.0"])
out.canary(e, order=[2, 1])
out.canary(e, um="3.0")
out.canary(e, passed=False)
e = out.emit(kind="signs", key="canarys", u=["1.0", "-2.0"], exc="no", rgb=[["0.9", "0.5", "0.1"], ["0.1", "0.5", "0.9"]])
out.canary(e, rgb=e["rgb"][::-1])
e = out.emit(kind="pixels", key="canaryp", exc="no", margin="0.1",
             els=[{"t": "polygon", "paths": nums([[[0, 0], [2, 0], [2, 2], [0, 2]]]), "colour": nums([.5, .2, .1])}],
             pixels=[{"p": ["1.0", "1.0"], "rgb": nums([.5, .2, .1])}, {"p": ["-1.0", "1.0"], "rgb": nums([1, 1, 1])}])
out.canary(e, pixels=[{"p": ["-1.0", "1.0"], "rgb": nums([.5, .2, .1])}])
out.canary(e, pixels=[{"p": ["1.0", "1.0"], "rgb": nums([1, 1, 1])}])
out.canary(e, pixels=[{"p": ["1.0", "1.0"], "rgb": nums([.5, .2, .13])}])
_s.stdout = _stdout
