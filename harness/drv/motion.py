"""Extrema and modes (P23), Floquet (P24), report (P26), trajectories (P27)."""
import logging, re, sys
from drvlib import *
electrode, em, utils, system = load("electrode", "electrode.electrode", "electrode.utils", "electrode.system")
from stubs import *
System = system.System
out = Out()
mode = sys.argv[1]


def n_(q, t):
    return t if THOROUGH else q


def table(s, x, scale):
    """Total potential, gradient, Hessian, by formula."""
    V, G, Hh = 0., np.zeros(3), np.zeros((3, 3))
    f1, f2, f3 = np.zeros(3), np.zeros((3, 3)), np.zeros((3, 3, 3))
    for e in s:
        v = e.c + e.g.dot(x) + .5*x.dot(e.H).dot(x)
        d1, d2, d3 = e.g + e.H.dot(x), e.H.copy(), np.zeros((3, 3, 3))
        for w, z, k in e.terms:
            a = k*np.array([1-z*z, 1j*(1+z*z), 2*z])
            f = w*np.exp(a.dot(x))
            v = v + f.real
            d1 = d1 + (f*a).real
            d2 = d2 + (f*np.multiply.outer(a, a)).real
            d3 = d3 + (f*np.multiply.outer(np.multiply.outer(a, a), a)).real
        V += e.dc*v
        G = G + e.dc*d1
        Hh = Hh + e.dc*d2
        f1, f2, f3 = f1 + e.rf*d1, f2 + e.rf*d2, f3 + e.rf*d3
    V += scale**2*f1.dot(f1)
    G = G + 2*scale**2*f2.dot(f1)
    Hh = Hh + 2*scale**2*(f2.dot(f2) + np.einsum("ijk,k", f3, f1))
    return V, G, Hh


def spd(lo=.3):
    """A Hessian as symmetric traceless matrix with well separated values."""
    while 1:
        h = traceless()
        w = np.linalg.eigvalsh(h)
        if abs(w).min() > lo*abs(w).max()*.3:
            return h


def well(rot=None):
    """An rf quadrupole: its pseudopotential confines."""
    d = pick([[1., 1., -2.], [1., -.7, -.3], [1., -1.5, .5]])
    r = rotation()
    return r.dot(np.diag(d)).dot(r.T)


def trap(kind):
    els = []
    x0 = nrng.randn(3)*.3
    if kind == "min":
        H = well()
        els.append(Mix(H=H, g=-H.dot(x0), rf=pick([1., -1.3])))
        els.append(Mix(H=traceless(.05), g=nrng.randn(3)*.05, dc=pick([1., -1.])))
        els.append(Mix(terms=[hterm(.05)], c=nrng.randn(), dc=1., rf=.1))
    else:
        while 1:
            H = traceless()
            w = np.linalg.eigvalsh(H)
            if (w < 0).sum() == 1 and abs(w).min() > .25*abs(w).max():
                break
        els.append(Mix(H=H, g=-H.dot(x0), dc=1., c=nrng.randn()))
        els.append(Mix(terms=[hterm(.05)], dc=1., rf=.2))
        els.append(Mix(H=traceless(.1), g=nrng.randn(3)*.1, rf=.5))
    rng.shuffle(els)
    s = System(els)
    s.rf_coeff = pick([1., .8, 1.5]) if kind == "min" else pick([.3, .1])
    return s, x0


def state(s):
    return [(e.dc, e.rf, e.name, tuple(e.terms), e.c, tuple(e.g), e.H.tolist()) for e in s], s.rf_coeff, len(s)


def asked(s, *queries):
    """The system had other voltages, electrodes and rf scale when it was asked before."""
    keep = [(e, e.dc, e.rf, list(e.terms), e.c, e.g, e.H) for e in s]
    sc = getattr(s, "rf_coeff", None)
    inside = rng.random() < .5
    for e in s:
        e.dc, e.rf = e.dc*-1.3 + .1, e.rf*.6 + .05
        if inside:
            e.g, e.H, e.c = e.g + .1, e.H*.5, e.c + 1.
    if sc is not None and inside:
        s.rf_coeff = sc*1.2
    for q in queries:
        call(q)
    for e, a, b, t, c, g, h in keep:
        e.dc, e.rf, e.terms, e.c, e.g, e.H = a, b, t, c, g, h
    if sc is not None:
        s.rf_coeff = sc


if mode == "P23":
    tried = {}
    for t in range(n_(240, 2000)):
        kind = pick(["minimum", "saddle"])
        s, xc = trap("min" if kind == "minimum" else "sad")
        F = rotation() if t % 3 else np.eye(3)
        axis = pick([(0, 1, 2), (0, 1, 2), (0, 1), (1, 2), (0, 2), (2, 0), [1, 2], (2,), (1,), (2, 1, 0)])
        x0 = F.T.dot(xc) + nrng.randn(3)*.05
        form = rng.randrange(4)
        if form == 0:
            xin = list(map(float, x0))
        elif form == 1 and kind == "minimum":
            x0 = np.round(x0)
            xin = pick([tuple(int(i) for i in x0), np.array(x0, int), [int(i) for i in x0]])
        else:
            xin = x0
        was = np.array(xin, float).copy()
        Fin = F.copy()
        before = state(s)
        kw = {}
        if len(axis) < 3 or t % 3 or rng.random() < .3:
            kw["axis"] = axis
        else:
            axis = (0, 1, 2)
        if t % 3 or rng.random() < .2:
            kw["coord"] = F
        tol = "1e-3"
        if kind == "minimum":
            m = pick([None, "Newton-CG", "BFGS", "Nelder-Mead", "trust-exact"])
            if m:
                kw["method"] = m
            if m == "Nelder-Mead":
                kw["options"] = dict(xatol=1e-7, fatol=1e-14, maxiter=5000)
            if m in ("BFGS", "trust-exact"):
                kw["options"] = dict(gtol=1e-6)
        else:
            kw.update(xtol=1e-9, ftol=1e-14) if rng.random() < .7 else None
            tol = "1e-4" if "xtol" in kw else "2e-2"
            if rng.random() < .3:
                kw["dx_max"] = .3
        if t % 5 == 3:
            asked(s, lambda: getattr(s, kind)(xin, **kw), lambda: s.modes(np.array(xin, float)))
        v, exc = call(lambda: getattr(s, kind)(xin, **kw))
        found = v is not None
        # whether the restricted problem surely has such a point here
        ix = list(axis)
        w0 = np.linalg.eigvalsh(F.T.dot(table(s, xc, s.rf_coeff)[2]).dot(F)[np.ix_(ix, ix)])
        good = (w0 > .2*abs(w0).max()).all() if kind == "minimum" else (w0 < -.15*abs(w0).max()).sum() == 1 and (abs(w0) > .15*abs(w0).max()).all()
        if good and form != 1:
            a, b = tried.get(kind, (0, 0))
            tried[kind] = a + 1, b + found
        d = dict(found=found, x=[], p="0.0", vecs=[], vals=[])
        if exc and exc not in ("ValueError",):
            pass
        else:
            exc = None
        if found:
            x, p = v if kind == "saddle" else (v, 0.)
            xa = np.asarray(x, float)
            h = F.T.dot(table(s, F.dot(xa), s.rf_coeff)[2]).dot(F)[np.ix_(ix, ix)]
            w, V = np.linalg.eigh(h)
            d.update(x=nums(xa), p=num(np.asarray(p).ravel()[0]), vecs=nums(V), vals=nums(w))
        ch = state(s) != before or not np.array_equal(np.array(xin, float), was) or not np.array_equal(F, Fin)
        ev = out.emit(kind=kind, exc=exc or "no", els=[e.rec() for e in s], scale=num(s.rf_coeff), x0=nums(was), axis=list(axis),
                      coord=nums(F), tol=tol, changed=ch, method=str(kw.get("method")), near="none", **d)
        if found and t in (20, 21, 22, 23, 24, 25):
            if len(axis) < 3:
                j = [i for i in range(3) if i not in axis][0]
                xx = list(d["x"])
                xx[j] = bump(xx[j], 1e-8)
                out.canary(ev, x=xx)
            if len(axis) == 3:
                xx = list(d["x"])
                xx[axis[0]] = bump(xx[axis[0]], .2)
                out.canary(ev, x=xx)
            if kind == "saddle":
                out.canary(ev, p=bump(d["p"], 1e-4))
            out.canary(ev, changed=True)
    for t in range(n_(40, 300)):     # one of many minima along a line
        kap, sc = rng.uniform(.6, .9), pick([1., .8])
        els = [Mix(terms=[(1., 1., kap/2)], g=[0, 0, -kap], rf=1.), Mix(H=np.diag([.02, -.01, -.01]), dc=pick([1., .5]))]
        s = System(els)
        s.rf_coeff = sc
        xc = np.array([0, 2*np.pi/kap*pick([1, -1, 2]), 0])
        F = [np.eye(3), np.eye(3)[rng.sample(range(3), 3)], rotation()][t % 3]
        axis = pick([(2, 0), (2, 1), (1, 0), [0, 2], (0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1)])
        x0 = F.T.dot(xc) + nrng.randn(3)*.05
        kw = {} if rng.random() < .3 else dict(method=pick(["Newton-CG", "BFGS", "trust-exact"]))
        if kw.get("method") in ("BFGS", "trust-exact"):
            kw["options"] = dict(gtol=1e-6)
        if t % 3 or t % 2:
            kw["coord"] = F
        was, before = x0.copy(), state(s)
        x, exc = call(lambda: s.minimum(x0, axis=axis, **kw))
        d = dict(found=x is not None, x=[], p="0.0", vecs=[], vals=[])
        a, b = tried.get("near", (0, 0))
        tried["near"] = a + 1, b + d["found"]
        if d["found"]:
            ix = list(axis)
            w, V = np.linalg.eigh(F.T.dot(table(s, F.dot(np.asarray(x, float)), s.rf_coeff)[2]).dot(F)[np.ix_(ix, ix)])
            d.update(x=nums(x), vecs=nums(V), vals=nums(w))
        ev = out.emit(kind="minimum", exc=exc if exc and exc != "ValueError" else "no", els=[e.rec() for e in s], scale=num(s.rf_coeff), x0=nums(was), axis=list(axis),
                      coord=nums(F), tol="1e-3", changed=state(s) != before or not np.array_equal(was, x0), method=str(kw.get("method")), near="3", **d)
        if t == 1 and d["found"]:
            out.canary(ev, near="1e-9")
    for kd in tried:
        out.emit(kind="found", exc="no", tried=tried[kd][0], found=tried[kd][1], what=kd)
    print(tried)
    for t in range(n_(60, 400)):
        s, xc = trap(pick(["min", "sad"]))
        x = xc + nrng.randn(3)*pick([.01, .5])
        if t % 6 == 4:      # weak and strong traps
            u = 10.**rng.randrange(-9, 8)
            for e in s:
                e.dc *= u
            s.rf_coeff *= u**.5
        elif t % 12 == 5:   # nearly flat along some directions
            e = 10.**nrng.uniform(-9, -4)
            d = pick([[e, 1., -1-e], [1., -e, -1+e], [-1-e, 1., e], [e, 2*e, -3*e]])
            s = System([Mix(H=np.diag(d) if t % 24 == 5 else np.diag(d) + e*traceless(), g=nrng.randn(3)*e, dc=1.)])
            s.rf_coeff = 1.
        elif t % 6 == 5:    # symmetric ones
            d = pick([[1., 1., -2.], [1., -1., 0.], [0., 0., 0.], [-2., 1., 1.]])
            s = System([Mix(H=np.diag(d), g=nrng.randn(3), dc=pick([0., 1., -3.]), rf=pick([0., 1.]))])
            s.rf_coeff = pick([.5, 1.])
        xin = pick([x, list(map(float, x))])
        if t % 4 == 1:
            asked(s, lambda: s.modes(x))

        def f():
            w, V = s.modes(np.asarray(xin)) if rng.random() < .7 else s.modes(np.asarray(xin), sorted=True)
            return dict(ew=nums(w), emodes=nums(V))
        v, exc = call(f)
        ev = out.emit(kind="modes", exc=exc or "no", els=[e.rec() for e in s], scale=num(s.rf_coeff), x=nums(x), **(v or {}))
        if v and t < 2:
            out.canary(ev, ew=v["ew"][:2] + [bump(v["ew"][2], 1e-6)])
            out.canary(ev, emodes=[v["emodes"][0]] + v["emodes"][1:][::-1])


if mode == "P24":
    for t in range(n_(40, 300)):
        n = rng.randrange(1, 4)
        r = rng.randrange(1, 4 if n < 3 else 3)
        k = rng.randrange(1, 4)
        A = []
        for i in range(k):
            a = nrng.randn(n, n)*pick([.1, .5, 1.])
            if rng.random() < .7:
                a = (a + a.T)/2
            A.append(a)
        if rng.random() < .1:
            A = [np.diag(nrng.rand(n)), np.zeros((n, n))]
        elif t % 10 == 7:       # weak
            A = [a*1e-4 for a in A]
        elif t % 10 == 4:       # weakly coupled
            e = 10.**nrng.uniform(-6, -2)
            A = [np.diag(nrng.permutation(np.resize([.3, -.3, .1], n))) + e*(a + a.T) for a in A]
        elif t % 10 == 8:
            A = [layout(a) for a in A]
        was = [a.copy() for a in A]
        v, exc = call(lambda: utils.mathieu(r, *A))
        d = {}
        if v is not None:
            d = dict(mu=[num(complex(i)) for i in v[0]], b=[[num(complex(i)) for i in q] for q in v[1]])
        ev = out.emit(kind="floquet", exc=exc or "no", n=n, r=r, a=[nums(a) for a in was], halved=False,
                      changed=not all(np.array_equal(a, b) for a, b in zip(A, was)), **d)
        if d and t < 3:
            mu = json.loads(json.dumps(d["mu"]))
            mu[0]["re"] = bump(mu[0]["re"], 1e-4)
            out.canary(ev, mu=mu)
            mu = [d["mu"][0]] * len(d["mu"])
            out.canary(ev, mu=mu, b=[[q[0]]*len(q) for q in d["b"]])
    for t in range(n_(20, 150)):
        els = []
        for i in range(rng.randrange(1, 4)):
            els.append(Mix(H=traceless(pick([.1, 1.])), g=nrng.randn(3), terms=[hterm(.2)] if rng.random() < .4 else [],
                           dc=pick([0., nrng.randn()*.1]), rf=pick([0., 1., nrng.randn()])))
        if t % 6 == 5:      # along the axes
            els = [Mix(H=np.diag(nrng.permutation([1., .3, -1.3])), g=nrng.randn(3), dc=pick([0., .1]), rf=pick([0., 1., -1.])) for e in els]
        elif t % 6 == 3:    # weakly coupled directions
            e = 10.**nrng.uniform(-6, -2)
            els = [Mix(H=np.diag(pick([[1., -1., 0.], [-1., 0., 1.], [.5, .5, -1.]])) + e*traceless(), rf=1.),
                   Mix(H=np.diag(nrng.permutation([-.5, -.5, 1.])) + pick([0, e])*traceless(), dc=pick([0., .05, e])),
                   Mix(H=e*traceless(), dc=pick([0., 1.]), rf=pick([0., 1.]))]
        s = System(els)
        x = nrng.randn(3)*.5
        if t % 4 == 2:
            asked(s, lambda: s.mathieu(x, .3, r=1), lambda: s.mathieu(x, .3))
        scale = pick([.05, .2, .3, 1.])
        r = rng.randrange(1, 3)
        srt = t % 3 != 0

        def f():
            kw = dict(r=r) if r != 2 or rng.random() < .5 else {}
            if not srt:
                kw["sorted"] = False
            mu, b = s.mathieu(x, scale, **kw)
            al, _ = s.mathieu(x, scale, r=r, sorted=False)
            return dict(mu=[num(complex(i)) for i in mu], b=[[num(complex(i)) for i in q] for q in b], all=[num(complex(i)) for i in al])
        v, exc = call(f)
        ev = out.emit(kind="sysfloquet", exc=exc or "no", els=[e.rec() for e in s], x=nums(x), scale=num(scale), r=r, sorted=srt, halved=True, **(v or {}))
        if v and t < 3:
            mu = json.loads(json.dumps(v["mu"]))
            mu[0]["im"] = bump(mu[0]["im"], 1e-3)
            out.canary(ev, mu=mu)
            if srt:
                out.canary(ev, mu=v["mu"][::-1], b=[q[::-1] for q in v["b"]])


def stays(els, x0, v0, axis, t0, dt, t1):
    """Selects orbits that do not run away (input selection only)."""
    x, p, t, ax = np.array(x0), np.array(v0), t0, list(axis)
    while t < t1:
        f = np.zeros(3)
        for e in els:
            d1 = e.g + e.H.dot(x)
            for w, z, k in e.terms:
                a = k*np.array([1-z*z, 1j*(1+z*z), 2*z])
                d1 = d1 + (w*np.exp(a.dot(x))*a).real
            f -= (e.dc + e.rf*np.cos(t))*d1
        p[ax] += f[ax]*dt
        x[ax] += p[ax]*dt
        t += dt
        if not abs(x).max() < 3:
            return False
    return True


if mode == "P27":
    for t in range(n_(120, 800)):
        els = [Mix(H=traceless(), g=nrng.randn(3)*.3, terms=[hterm(.3)] if rng.random() < .5 else [],
                   dc=pick([0., 1., nrng.randn()]), rf=pick([0., 1., nrng.randn()])) for i in range(rng.randrange(1, 4))]
        s = System(els)
        x0, v0 = nrng.randn(3)*.4, nrng.randn(3)*.4
        axis = pick([(0, 1, 2), (0, 1), (1, 2), (2, 0), (2,), [0, 2], (2, 1, 0)])
        t0, dt = pick([0, 0., .5, -1.]), pick([.125, .25, .0625, .5, .125, .25, 2.**-24, 2.**-12])
        t1 = t0 + dt*(pick([0, 1, 3, 5.5, 8]) if dt > 1e-2 else pick([.5, 3.5, 5.5]))
        if t % 8 == 3:     # documented defaults
            axis, t0, dt = (0, 1, 2), 0, .0063*2*np.pi
            t1 = dt*pick([.5, 3.5, 5.5])
        form = rng.randrange(3)
        xin, vin = (x0.copy(), v0.copy()) if form else (list(map(float, x0)), list(map(float, v0)))
        if rng.random() < .1:
            x0 = np.round(x0*3) + 0.
            v0 = np.round(v0*3) + 0.
            xin, vin = x0.astype(int), v0.astype(int)
        if not stays(els, x0, v0, axis, t0, dt, t1):
            continue
        was = nums(x0), nums(v0)
        calls, passed = [], [True]
        extra = pick([(), (1,), (1, "a")]) if t % 8 != 3 else ()
        kextra = pick([{}, {"foo": 3}])
        nst = pick([1, 3])
        inter = t % 3 == 1

        def integ0(ddx, nsteps, t, p, q, t1, *args, **kwargs):
            f = np.zeros(len(q))
            ddx(t, q, f)
            p += f*.01
            q += p*.01
        if t % 5 == 2:
            asked(s, lambda: list(s.trajectory(x0, v0, axis=axis, t0=t0, dt=dt, t1=t0 + dt, integ=integ0)))

        def integ(ddx, nsteps, t, p, q, t1, *args, **kwargs):
            passed[0] &= args == extra and kwargs == kextra and nsteps == nst
            h = t1-t
            # sample the acceleration at other places and times first
            for i in range(rng.randrange(0, 3)):
                qq, tt, f = nrng.randn(len(q))*.3, nrng.rand()*6, np.full(len(q), 7.)
                ddx(tt, qq, f)
                if len(calls) < 6:
                    calls.append(dict(q=nums(qq), t=num(tt), f=nums(f)))
            f = np.empty(len(q))
            ddx(t, q, f)
            p += f*h
            q += p*h

        def f():
            kw = dict(t0=t0, dt=dt, t1=t1, nsteps=nst, integ=integ)
            kw.update(kextra)
            if t % 8 == 3:
                if nst == 1:
                    del kw["nsteps"]
                g = s.trajectory(xin, vin, **{a: b for a, b in kw.items() if a not in ("t0", "dt")})
            elif extra:
                g = s.trajectory(xin, vin, axis, t0, dt, t1, nst, integ, *extra, **kextra)
            else:
                g = s.trajectory(xin, vin, axis=axis, **kw)
            keep = []
            other = None
            if inter and not extra and t % 8 != 3:     # in turns with another ion
                other = s.trajectory(np.array(v0), np.array(x0), axis=[0, 2], t0=.3, dt=dt, t1=t1 + 1, nsteps=nst, integ=integ0, **kextra)
            for tt, q, p in g:
                keep.append((tt, q, p))
                if other:
                    next(other, None)
            return [dict(t=num(a), q=nums(b), p=nums(c)) for a, b, c in keep]
        v, exc = call(f)
        ch = (nums(np.array(xin, float)), nums(np.array(vin, float))) != was
        ev = out.emit(kind="trajectory", exc=exc or "no", els=[e.rec() for e in s], x0=was[0], v0=was[1], axis=list(axis), t0=num(t0), dt=num(dt), t1=num(t1),
                      steps=v or [], calls=calls, changed=ch, passed=passed[0])
        if v and len(v) > 1 and t < 12:
            st = json.loads(json.dumps(v))
            st[1]["q"][0] = bump(st[1]["q"][0], 1e-6)
            out.canary(ev, steps=st)
            out.canary(ev, steps=v[:-1])


F_ = r"([-+0-9.eE]+|nan|inf)"


def arr(txt):
    m = re.search(r"\[([^\]]*)\]", txt)
    return [num(float(i)) for i in m.group(1).split()] if m else []


def parse(lines):
    txt = "\n".join(lines)
    d = dict(saddle="missing", bounded="missing")

    def grab(key, pat):
        m = re.search(pat, txt, re.M | re.S)
        d[key] = (m.group(1) if m.group(1) == "nan" else num(float(m.group(1)))) if m else "missing"

    def garr(key, pat):
        m = re.search(pat, txt, re.M | re.S)
        d[key] = arr(m.group(1)) if m else []
    for key, unit in (("f", " MHz"), ("m", " amu"), ("q", " qe"), ("l", " µm"), ("scale", "")):
        grab(key, r"\b%s=%s%s" % (key, F_, unit))
    A = r"(\[[^\]]*\])"
    garr("point", r"analyze point: " + A)
    garr("point_um", r"analyze point: .*?\(" + A + " µm")
    garr("min", r"minimum is at offset: " + A)
    garr("min_um", r"minimum is at offset: .*?\(" + A + " µm")
    grab("dc", r"potential:.*?dc electrical: %s eV" % F_)
    grab("pp", r"potential:.*?rf pseudo: %s eV" % F_)
    if "saddle not found" in txt:
        d["saddle"] = "not found"
    elif "saddle offset" in txt:
        d["saddle"] = "found"
    garr("sad", r"saddle offset: " + A)
    garr("sad_um", r"saddle offset: .*?\(" + A + " µm")
    grab("height", r"saddle height: %s eV" % F_)
    garr("fdc", r"force:.*?dc electrical: " + A + " eV/l")
    garr("fdc_m", r"force:.*?dc electrical: .*?\(" + A + " eV/m")
    garr("frf", r"force:.*?rf pseudo: " + A + " eV/l")
    garr("frf_m", r"force:.*?rf pseudo: .*?\(" + A + " eV/m")
    garr("curv", r"normal curvatures: " + A)
    m = re.search(r"motion is bounded: (\w+)", txt)
    d["bounded"] = m.group(1) if m else "missing"

    def modes(name, kf, km):
        d[kf], d[km] = [], []
        m = re.search(name + r" modes:\n(.*?)(modes:| heating|\Z)", txt, re.S)
        for c in "abc":
            q = m and re.search(r"^\s+%s: %s MHz, (\[[^\]]*\])" % (c, F_), m.group(1), re.M)
            if q:
                d[kf].append("nan" if q.group(1) == "nan" else num(float(q.group(1))))
                d[km].append(arr(q.group(2)))
    modes("pseudopotential", "ppf", "ppm")
    modes("mathieu", "mf", "mm")
    garr("psd", r"field-noise psd: " + A)
    d["sef"], d["ndot"] = [], []
    for c in "abc":
        q = re.search(r"^\s+%s: ndot=%s /s, S_E\*f=%s" % (c, F_, F_), txt, re.M)
        if q:
            d["ndot"].append(num(float(q.group(1))))
            d["sef"].append(num(float(q.group(2))))
    return d


if mode == "P26":
    import scipy.constants as ct
    for t in range(n_(30, 200)):
        at_saddle = t % 3 == 1       # a saddle is near, and the potentials there are of similar size
        s, xc = trap("saddle" if at_saddle else "min")
        q, m = ct.elementary_charge*pick([1, 2]), ct.atomic_mass*pick([9.01, 24.3, 40.])
        l, o = pick([50e-6, 100e-6, 1e-3]), 2*np.pi*pick([20e6, 35e6, 50e6])
        k = pick([.05, .1, .3])
        drop = {1: "mqlo", 5: "mq", 9: "lo", 13: "mqlo"}.get(t % 16, "")     # rely on documented defaults
        if "m" in drop:
            m, q = ct.atomic_mass, ct.elementary_charge
        if "l" in drop:
            l, o = 100e-6, 2*np.pi*1e6
        kw = {a: b for a, b in dict(m=m, q=q, l=l, o=o).items() if a not in drop}
        # rf voltage such that the scale is moderate
        sc = np.sqrt(q/m)/(2*l*o)
        for e in s:
            e.rf *= k/sc*.5
            e.dc *= k*k*.02
        s.rf_scale(m, q, l, o)
        x = xc + nrng.randn(3)*.02
        xin = pick([x, list(map(float, x))])
        axis = pick([(0, 1, 2), (0, 1, 2), (0, 1), (1, 2)])
        if axis != (0, 1, 2) or rng.random() < .3:
            kw["axis"] = axis
        meth = pick(["Nelder-Mead", "Newton-CG"])
        off = np.zeros(3)
        soff = np.zeros(3)
        if meth != "Nelder-Mead":
            kw["min_method"] = meth
        if rng.random() < .3:
            kw["min_offset"] = off = nrng.randn(3)*.02
        if rng.random() < .4:
            kw["saddle_offset"] = soff = nrng.randn(3)*.3
        min_off = rng.random() < .3 or at_saddle
        if at_saddle:
            x = xc + nrng.randn(3)*.4
            xin = pick([x, list(map(float, x))])
            soff = (xc - x) + nrng.randn(3)*.05
            kw["saddle_offset"] = soff = pick([soff, soff*0])
        if min_off:
            kw["min_off"] = True
        if t % 5 == 4:
            asked(s, lambda: list(s.analyze_static(xin, **kw)))
        before = state(s)
        lines = []

        class H(logging.Handler):
            def emit(self, rec):
                lines.append((rec.levelno, rec.getMessage()))
        res = {}

        def query():
            x = np.array(xin)
            try:
                sad, sp = s.saddle(x + soff, axis=axis)
                sad, sp = nums(np.array(sad)-x), num(np.asarray(sp).ravel()[0])
            except Exception:
                sad, sp = [], "0.0"
            mn = x if min_off else s.minimum(x + off, axis=axis, method=meth)
            w, V = s.modes(x)
            mu, b = s.mathieu(x, s.rf_coeff, r=4)
            md = b[24:27, :3].real
            return dict(scale=num(s.rf_coeff), min=nums(np.array(mn)-x), dc=num(s.electrical_potential(x, 0)[0]), pp=num(s.pseudo_potential(x, 0)[0]),
                        saddle=sad, height=sp, fdc=nums(s.electrical_potential(x, 1, "dc")[0]), frf=nums(s.pseudo_potential(x, 1)[0]),
                        curv=nums(w), modes=nums(V), mu=[num(complex(i)) for i in mu[:3]], mmodes=nums(md), bounded=str(bool(np.allclose(mu.real, 0))),
                        fields=nums(s.individual_potential(x, 1)[:, 0, :]))

        def f():
            qy = query()
            ls = list(s.analyze_static(xin, **kw))
            h = H()
            lg = logging.getLogger("electrode")
            lg.addHandler(h)
            old = lg.level
            lg.setLevel(1)
            try:
                ret = s.analyze_static(xin, log=logging.INFO, **kw)
            finally:
                lg.removeHandler(h)
                lg.setLevel(old)
            lines[:] = [i for i in lines if i[0] == logging.INFO]
            lg_ok = [i[1] for i in lines] == ls
            return dict(report=parse("\n".join(ls).split("\n")), query=qy, logged=bool(lg_ok))
        v, exc = call(f)
        if exc == "ValueError" and not min_off:
            # the minimum search may fail at this point; the query says so too
            if call(lambda: s.minimum(np.array(xin) + off, axis=axis, method=meth))[1] == "ValueError":
                continue
        ev = out.emit(kind="report", exc=exc or "no", x=nums(x), m=num(m), q=num(q), l=num(l), o=num(o), amu=num(ct.atomic_mass), qe=num(ct.elementary_charge), h=num(ct.h),
                      changed=state(s) != before, **(v or {}))
        if v and t < 6:
            for key in ("dc", "height", "f"):
                r = dict(v["report"])
                if r[key] != "missing":
                    r[key] = num(float(r[key])*1.3)
                    out.canary(ev, report=r)
            r = dict(v["report"])
            r["ppf"] = r["ppf"][::-1]
            out.canary(ev, report=r)
            out.canary(ev, logged=False)
