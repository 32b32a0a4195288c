"""Histories of `Adjust`: stepwise adjustment of the ion position (P39)."""
import sys, io, contextlib, warnings, itertools
from drvlib import *
warnings.simplefilter("ignore")
electrode, em, sysm, adj = load("electrode", "electrode.electrode", "electrode.system", "electrode.adjust")
from stubs import *
out = Out()
System, Adjust = sysm.System, adj.Adjust


def traceless(scale):
    a = nrng.randn(3, 3)*scale
    a = (a+a.T)/2
    return a - np.eye(3)*np.trace(a)/3


def quads():
    """An exactly quadratic trap."""
    r = rotation()
    x0 = nrng.randn(3)*.3
    h = r.dot(np.diag(pick([[1., -.7, -.3], [.9, -.75, -.15], [-.5, 1.2, -.7]]))).dot(r.T)
    els = [Quad(name="rf", rf=pick([1., 1.3]), dc=0., H=h, g=-h.dot(x0), c=.1)]
    n = rng.randrange(3, 7)
    for i in range(n):
        els.append(Quad(name="dc%d" % i, dc=float(nrng.randn()*.2), g=nrng.randn(3)*.5, H=traceless(.02)))
    order = list(range(len(els)))
    rng.shuffle(order)
    s = System([els[i] for i in order])
    s.rf_coeff = 1.
    return s, x0


def surface():
    """A five wire trap of polygons."""
    def rect(x0, x1, y0, y1):
        return np.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1.__float__()]])
    els = [em.PolygonPixelElectrode(name="rf", rf=75., paths=[rect(-9., 9., -1.8, -.7), rect(-9., 9., .5, 1.5)])]
    for i, (a, b) in enumerate([(-3., -1.), (-1., 1.), (1., 3.)]):
        v = [1., -1., 1.][i]*1.8
        els.append(em.PolygonPixelElectrode(name="t%d" % i, dc=v+nrng.randn()*.02, paths=[rect(a, b, 1.5, 4.)]))
        els.append(em.PolygonPixelElectrode(name="b%d" % i, dc=v+nrng.randn()*.02, paths=[rect(a, b, -4., -1.8)]))
    els.append(em.PolygonPixelElectrode(name="c", dc=float(nrng.randn()*.05), paths=[rect(-9., 9., -.7, .5)]))
    s = System(els)
    s.rf_coeff = .05
    return s, np.array([0., -.1, .9])


class World(object):
    def __init__(self, s, x0, quad):
        self.s, self.x0, self.quad = s, x0, quad
        self.a = Adjust(s)
        self.names = [e.name for e in list(s)]
        self.ev = []
        self.key = {"v": [repr(float(i)) for i in s.dcs], "rf": [repr(float(i)) for i in s.rfs]}

    def obs(self):
        a = self.a
        ok = hasattr(a, "xms")
        return {"v": [repr(float(i)) for i in self.s.dcs], "rf": [repr(float(i)) for i in self.s.rfs],
                "hist": [[num(i) for i in a.volts[n]] for n in self.names],
                "nx": len(a.xms) if ok else 0, "nc": len(getattr(a, "curves", [])),
                "xm": flat(a.xms[-1]) if ok else [], "curve": flat(a.curves[-1]) if hasattr(a, "curves") else []}

    def total(self, dcs):
        t = System(list(self.s))
        t.rf_coeff = self.s.rf_coeff
        return t, dcs

    def eval(self, x, n, dcs=None):
        """Total derivative with the given voltages, from a system of copies."""
        import copy
        t = System([copy.copy(e) for e in list(self.s)])
        t.rf_coeff = self.s.rf_coeff
        if dcs is not None:
            t.dcs = dcs
        return t.potential(np.array(x)[None], n)[0]

    def emit(self, op, fn, must=False, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            v, exc = call(fn)
        e = dict(op=op, kind=op, exc=exc or "no", must=must, obs=self.obs(), **kw)
        self.ev.append(e)
        return e, v

    def init(self, groups, xm, order):
        s = self.s
        g = [next((i+1 for i, gr in enumerate(groups) if n in gr), 0) for n in self.names]
        e, v = self.emit("init", lambda: self.a.set_move_init(groups, xm, order), g=g, given=xm is not None,
                         xm0=[] if xm is None else flat(xm), order=[] if order is None else [int(i)+1 for i in order])
        if v is not None:
            e.update(xm=flat(v[0]), curve=flat(self.a.curves[-1]), basis=nums(self.a.basis), names=[i[0] for i in v[1]],
                     check=[flat(i[1]) for i in v[1]], hn=nums(self.eval(v[0], 2)), gn=flat(self.eval(v[0], 1)))
        return v is not None

    def last(self):
        return np.array([(self.a.volts[n] or [np.nan])[-1] for n in self.names])

    def point(self, axis, l, dis, method):
        xm = self.a.xms[-1]
        at = xm if method == "force" else xm + dis/l*self.a.basis[axis]
        return {"at": flat(at), "part": [flat(el.potential(np.array(at)[None], 1)[0]) for el in list(self.s)],
                "gt": flat(self.eval(at, 1, self.last()))}

    def five(self, e, xm, off, ev, df, vc):
        e.update(xm=flat(xm), off=flat(off), curve=flat(ev), dfreq=flat(df), vec=nums(vc + self.a.basis),
                 hn=nums(self.eval(xm, 2)), gn=flat(self.eval(xm, 1)))

    def propose(self, method, change=False, must=False):
        axis, l = rng.randrange(3), pick([200e-6, 1e-4])
        dis = l*pick([1e-3, .005, .01, -.01])
        same = rng.random() < .3
        p = {"axis": axis+1, "l": num(l), "dis": num(dis), "same": same, "method": method}
        if not must:
            p.update(self.point(axis, l, dis, method))
        if change:
            e, v = self.emit("change", lambda: self.a.volt_change(axis, l, dis, same, method), must=must, **p)
            if v is not None:
                e["dv"] = flat(v)
            return
        e, v = self.emit("propose", lambda: self.a.propose_move(axis, l, dis, same, method), must=must, **p)
        if v is not None:
            e["dv"] = flat(v[0])
            self.five(e, v[1][0], v[1][1], (v[2]+np.sqrt(self.a.curves[0]))**2, v[2], v[3])

    def whatif(self):
        d = nrng.randn(3)*.01*(nrng.rand(3) < .8)
        e, v = self.emit("whatif", lambda: self.a.xm_freq_change(d), dv=flat(d))
        if v is not None:
            self.five(e, *v)

    def next(self, accept, user):
        d = nrng.randn(3)*.01*(nrng.rand(3) < .8)
        d0 = pick([d, list(d), tuple(d)])
        kw = {"user": user, "dv": flat(d) if user else []}
        if accept:
            e, v = self.emit("accept", lambda: self.a.next_step(d0 if user else None, True), **kw)
            if user and v is not None:
                xm = self.a.xms[-1]
                h = self.eval(xm, 2)
                e.update(xm=flat(xm), hn=nums(h), gn=flat(self.eval(xm, 1)))
                # the unit vector of each recorded curvature, towards the basis
                w, q = np.linalg.eigh(h)
                vec = []
                for i, c in enumerate(self.a.curves[-1]):
                    u = q[:, np.argmin(np.abs(w-c))]
                    vec.append(u*(1 if u.dot(self.a.basis[i]) >= 0 else -1))
                e["vec"] = nums(np.array(vec))
        else:
            self.emit("reject", lambda: self.a.next_step(d0 if user else None, False), **kw)

    def set(self, save):
        n = len(self.names)
        idx = [i for i in range(n) if self.names[i] != "rf" and rng.random() < .4]
        # some keep the voltage they have, or had at the last accepted step
        new = lambda i: pick([self.s.dcs[i], self.last()[i]]) if rng.random() < .3 else self.s.dcs[i] + nrng.randn()*.005
        cfg = {self.names[i]: float(new(i)) for i in idx}
        self.emit("set", lambda: self.a.set_volts(dict(cfg), save=save), save=save,
                  config=[repr(cfg[nm]) if nm in cfg else "" for nm in self.names])

    def play(self, ops):
        for o in ops:
            if o in ("force", "position"):
                self.propose(o)
            elif o == "regroup":
                self.regroup()
            elif o == "change":
                self.propose(pick(["force", "position"]), change=True)
            elif o == "whatif":
                self.whatif()
            elif o in ("accept", "acceptuser"):
                self.next(True, o == "acceptuser")
            elif o in ("reject", "rejectuser"):
                self.next(False, o == "rejectuser")
            elif o in ("save", "set"):
                self.set(o == "save")

    def regroup(self):
        """starts again from here with other groups"""
        gr = groups_of(self)
        x, exc = call(self.s.minimum, self.a.xms[-1], method="Nelder-Mead",
                      options=dict(xatol=1e-9, fatol=1e-14, initial_simplex=self.a.xms[-1]+.01*np.eye(4)[:, 1:]))
        if gr is None or x is None:
            return
        h = np.linalg.eigvalsh(self.eval(x, 2))
        if h[0] < .03 or np.diff(h).min() < .02*h[2]:
            return
        self.init(gr, x, pick([None, [2, 0, 1]]))

    def done(self, key):
        return out.emit(kind="history", key=key, ev=self.ev, **self.key)


def groups_of(w):
    """Three groups whose fields are independent."""
    names = [n for n in w.names if n != "rf"]
    for _ in range(50):
        rng.shuffle(names)
        cut = sorted(rng.sample(range(1, len(names)), 2)) if len(names) > 2 else None
        keep = rng.randrange(3, len(names)+1)
        cut = sorted(rng.sample(range(1, keep), 2))
        gr = [names[:cut[0]], names[cut[0]:cut[1]], names[cut[1]:keep]]
        c = np.array([sum(w.s[n].potential(w.x0[None], 1)[0] for n in g) for g in gr])
        if np.linalg.cond(c) < (9 if w.quad else 25):
            return gr
    return None


def run(ops, key, make):
    for _ in range(60):
        w = World(*make())
        gr = groups_of(w)
        if gr is None:
            continue
        # a confined ion with distinct frequencies
        t = w.s.potential(w.x0[None], 2)[0]
        l = np.linalg.eigvalsh(t)
        if l[0] > (.08 if w.quad else .04) and np.diff(l).min() > .02*l[2]:
            break
    else:
        return None
    xm = None
    if not w.quad or rng.random() < .5:
        x, exc = call(w.s.minimum, w.x0, method="Nelder-Mead", options=dict(xatol=1e-9, fatol=1e-14))
        if x is None:
            return None
        xm = pick([lambda: x, lambda: x.tolist()])()
    order = pick([None, None, [2, 0, 1], np.array([1, 0, 2])])
    if w.init(gr, xm, order):
        w.play(ops)
    return w.done(key)


def make_quad():
    return quads() + (True,)


def make_surface():
    return surface() + (False,)


for n, h in enumerate(inputs()):
    run(h["ev"], "gen-%d" % n, make_quad)
ALL = ["force", "position", "change", "whatif", "accept", "accept", "accept", "acceptuser", "reject", "rejectuser", "set", "regroup"]
for n in range(300 if THOROUGH else 60):
    ops = [pick(ALL) for _ in range(rng.randrange(4, 13))]
    run(ops, "rand-%d" % n, make_quad if n % 3 else make_surface)

# no solution: refused, nothing changed
for n in range(30 if THOROUGH else 8):
    w = World(*make_quad())
    dc = [i for i in w.names if i != "rf"]
    x = w.s.minimum(w.x0, method="Nelder-Mead")
    gr = [dc[:1], dc[1:2]] if n % 2 else [dc[:1], dc[1:2], []]
    if w.init(gr, x, None):
        w.propose(pick(["force", "position"]), must=True)
        w.next(False, False)
        w.done("refuse-%d" % n)

e = run(["force", "accept", "position", "reject", "acceptuser"], "canary", make_quad)


def corrupt(f):
    b = json.loads(json.dumps(e["ev"]))
    f(b)
    out.canary(dict(e, ev=b))


i = next(j for j, g in enumerate(e["ev"][0]["g"]) if g)
corrupt(lambda b: b[1]["dv"].__setitem__(0, num(float(b[1]["dv"][0])+1e-5)))
corrupt(lambda b: b[1]["obs"]["v"].__setitem__(i, num(float(b[1]["obs"]["v"][i])+1e-5)))
corrupt(lambda b: b[2]["obs"]["hist"][i].pop())
corrupt(lambda b: b[2]["obs"]["xm"].__setitem__(0, "0.123"))
corrupt(lambda b: b[4]["obs"]["v"].__setitem__(i, b[3]["obs"]["v"][i]))
corrupt(lambda b: b[5]["obs"]["curve"].reverse())
corrupt(lambda b: b[3]["curve"].reverse())
