"""P25: the Mathieu class."""
import sys, warnings
from drvlib import *
mathieu = load("electrode.mathieu")
from scipy.integrate import solve_ivp
out = Out()
M = mathieu.Mathieu
n_ = lambda q, t: t if THOROUGH else q


def trace2(a, q):
    """y1(pi) (selects inputs only)."""
    s = solve_ivp(lambda t, y: [y[1], -(a-2*q*np.cos(2*t))*y[0]], [0, np.pi], [1., 0.], method="DOP853", rtol=1e-12, atol=1e-13)
    return s.y[0, -1]


def stable(lo=.03):
    """(a, q) of bounded motion; also weak or no drive, and higher stability regions"""
    w = rng.random()
    while 1:
        if w < .12:
            q, a = pick([0., 0, 1e-9, 1e-4, -1e-3]), rng.uniform(.06, .9)
            return a, q, trace2(a, q)
        if w < .25:
            q, a = rng.uniform(.1, 1.5)*pick([1, -1]), rng.uniform(1.3, 8.)
            c = trace2(a, q)
            if abs(c) < 1-max(lo, .2):
                return a, q, c
            continue
        q = pick([rng.uniform(.02, .85), rng.uniform(-.8, -.02), .3, .5])
        a = pick([rng.uniform(-.3, .9), rng.uniform(-.05, .05), 0., -q*q/4, .2])
        c = trace2(a, q)
        if abs(c) < 1-lo:
            return a, q, c


def warned(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v, exc = call(f)
    return v, exc, any("nbounded" in str(i.message) for i in w)


for t in range(n_(60, 500)):
    how = rng.randrange(4)
    a, q, c = stable(.03 if how == 0 else .25)
    m = M()
    nu = float(np.arccos(c)/np.pi)
    nc, ng, tol = -1, pick([5, 8, 12]), "1e-9"
    ts = [rng.uniform(0, 3.), rng.uniform(-8, 8), pick([0., 0., 25.3, 60.]), pick([np.pi, np.pi/2, -1., 2])]

    if how == 0 and t % 2:      # long after
        ts += [pick([1, -1])*10.**rng.uniform(2, 4), pick([1, -1])*10.**rng.uniform(4.8, 6)]

    def f():
        global nc, tol, nu
        if rng.random() < .4:            # the object solved another equation before
            a0, q0, _ = stable(.25)
            call(lambda: (m.init_sol(a0, q0), m.sol_y1(ts[0]), m.sol_y2(.5, 1), m.init_value((1., 0.), .3)))
        if how == 0:                     # exact exponent
            nc = pick([8, 10, 15])
            # plain numbers divide by q: without drive give the exponent as init_sol does
            nu = nu if q else np.float64(nu)
            m.nu = nu
            m.Cn = m.coeff_Cn(a, q, nu, nc, ng)[:2]
        elif how == 1:
            tn = pick([None, 1e-5, 1e-6, 1e-7])
            tol = "4e-4" if tn is None else repr(30*tn)
            if tn is None:
                m.init_sol(a, q)
            else:
                m.init_sol(a, q, ng=ng, tol_nu=tn)
        elif how == 2:
            nc, tol = pick([6, 9]), "4e-4"
            m.init_sol(a, q, nc, ng)
        else:
            tol = "2e-2"
            if rng.random() < .5:
                nc = 10
                m.init_sol(a, q, nc=nc, mode="ivp")
            else:
                m.init_sol(a, q, mode="ivp")
        r1, r2, sc = [], [], True
        for x in ts:
            d = rng.randrange(0, 6) if how == 0 else rng.randrange(0, 4)
            v1, v2 = (m.sol_y1(x, d), m.sol_y2(x, d)) if d else (m.sol_y1(x), m.sol_y2(x))
            sc = sc and np.ndim(v1) == 0 and np.ndim(v2) == 0
            r1.append(dict(t=num(x), d=d, v=num(v1)))
            r2.append(dict(t=num(x), d=d, v=num(v2)))
        return dict(y1=r1, y2=r2, scalar=bool(sc), nu=num(m.nu), cc=nums(m.Cn[0]), cs=nums(m.Cn[1]))
    v, exc = call(f)
    ev = out.emit(kind="solution", exc=exc or "no", a=num(a), q=num(q), nc=nc, tol=tol, **(v or {}))
    if v and how == 0 and t < 30:
        y = json.loads(json.dumps(v["y1"]))
        y[0]["v"] = bump(y[0]["v"], 1e-3)
        out.canary(ev, y1=y)
        out.canary(ev, y2=v["y1"])
        out.canary(ev, cc=v["cc"][1:] + ["0.0"])
    for _ in range(2):
        if v is None:
            break
        y0 = (nrng.randn(), nrng.randn())
        t0 = pick([0., 0, rng.uniform(-4, 4), rng.uniform(0, 20), 1])
        form = rng.randrange(4)
        yin = [y0, list(y0), np.array(y0), y0][form]

        def g():
            if form == 3 and t0 == 0:
                return dict(ab=nums(m.init_value(yin)))
            return dict(ab=nums(m.init_value(yin, t0)))
        w, exc = call(g)
        ev = out.emit(kind="initial", exc=exc or "no", a=num(a), q=num(q), y=num(y0[0]), v=num(y0[1]), t0=num(t0), tol=tol, **(w or {}))
        if w and t < 6 and how == 0:
            out.canary(ev, ab=[w["ab"][0], bump(w["ab"][1], .3)])


for t in range(n_(120, 1000)):
    w = rng.random()
    if w < .15:      # weak
        q = pick([1, -1])*10.**rng.uniform(-4, -1.5)
        a = q*q*rng.uniform(-.3, 2)
        c = trace2(a, q)
        if not abs(c) < 1:
            continue
    elif w < .75:
        a, q, c = stable()
    else:
        while 1:
            q = rng.uniform(.05, 2.)
            a = rng.uniform(-1., 3.)
            c = trace2(a, q)
            if abs(c) > 1.1 and abs(a) > .01:
                break
    m = M()
    small = abs(c) < 1 and abs(q) < .35 and abs(a) < .1
    meth = "det" if w < .15 else pick(["det", "det", "ivp"] + (["d0ap", "bla"]*2 if small else []))
    acc = "0"
    if meth == "det":
        if rng.random() < .5:
            ntr = pick([20, 30, 60])
            acc = repr(min(1., q*q)*40./ntr**3)
            fn = lambda: m.nu_exp_det(a, q, ntr)
        else:
            tn = pick([1e-5, 1e-6, 1e-7])
            # how far the cosine is off when the exponent is off by less than 20 tn
            acc = repr(20*tn*(np.pi*np.sqrt(max(1-c*c, 0)) + 200*tn) if abs(c) < 1 else 20*tn)
            fn = (lambda: m.nu_tolerance(a, q, tn)[0]) if tn != 1e-5 else (lambda: m.nu_tolerance(a, q)[0])
    elif meth == "ivp":
        mt = pick(["RK45", "Radau"])
        fn = pick([lambda: m.nu_exp_ivp(a, q), lambda: m.nu_exp_ivp(a, q, method=mt), lambda: m.nu_exp_ivp(a, q, 40, mt)])
    elif meth == "d0ap":
        if abs(a) < .01:
            continue
        fn = lambda: m.nu_exp_d0ap(a, q)
    else:
        fn = lambda: m.nu_exp_bla(a, q)
    v, exc, w = warned(fn)
    d = {}
    if exc is None:
        z = complex(v)
        d = dict(nu=dict(re=num(z.real), im=num(z.imag)), complex=bool(np.iscomplexobj(v)), warned=bool(w))
    ev = out.emit(kind="exponent", exc=exc or "no", a=num(a), q=num(q), method=meth, acc=acc, **d)
    if d and t < 25 and not d["complex"]:
        out.canary(ev, nu=dict(re=num(1-z.real), im="0.0"))
        out.canary(ev, complex=True, warned=True)

v, exc = call(lambda: M().init_sol(.1, .3, mode="nope"))
out.emit(kind="mode", exc="no", refused=exc == "ValueError")
