"""Optimisation: optimize (P19), shims (P20), rows and bounds (P21), solve (P22).

Certificates come from an independent solver; TLC checks them.
"""
import sys
from drvlib import *
from scipy.optimize import linprog
electrode, em, utils, system, pc = load("electrode", "electrode.electrode", "electrode.utils",
                                        "electrode.system", "electrode.pattern_constraints")
import cvxopt, cvxopt.modeling
from stubs import *
System = system.System
out = Out()
mode = sys.argv[1]
OPT = {}


def n_(q, t):
    return t if THOROUGH else q


def units(s):
    """The same electrodes in another unit of length."""
    f = pick([1e6, 1e3, 1e-3, 1e-5])
    for e in s:
        e.terms = [(w*f, z, k) for w, z, k in e.terms]
    return f


def mksys(m=None):
    return System([Harm(dc=nrng.randn(), rf=nrng.randn(), name="e%d" % i) for i in range(m or rng.randrange(2, 7))])


# ---- objectives: a description (for TLC), the row, the code's object -----------
def name(t):
    return "".join("xyz"[i] for i in t)


def frame():
    """A local frame, sometimes a left handed one."""
    r = rotation()
    return r*pick([[1, 1, 1], [1, 1, 1], [1, -1, 1], [-1, -1, -1]])


def gen_pot(order=None, rot=None):
    n = rng.randrange(0, 5) if order is None else order
    if rng.random() < .3 and rot is None and n:
        rot = frame()
    return dict(type="pot", x=nrng.randn(3)*.5, name=[rng.randrange(3) for _ in range(n)], rot=rot)


TINY = [1., 1., 1e-3, 1e-7] if mode == "P21" else [1.]      # units of weights


def gen_obj(depth=1, **kw):
    if depth and rng.random() < .25:
        tiny = pick(TINY)
        return dict(type="multi", parts=[dict(obj=gen_obj(depth-1, **kw), w=None if i and rng.random() < .2 else pick([1., -1., 2., nrng.randn()])*tiny)
                                         for i in range(rng.randrange(1, 4))])
    return gen_pot(**kw)


def row(s, o):
    """The row by the exponential's algebra (not the code's)."""
    if o["type"] == "multi":
        return sum((p["w"]*row(s, p["obj"]) for p in o["parts"] if p["w"] is not None), np.zeros(len(s)))
    R = np.eye(3) if o["rot"] is None else o["rot"]
    r = []
    for e in s:
        v = 0
        for w, z, k in e.terms:
            a = k*np.array([1-z*z, 1j*(1+z*z), 2*z])
            f = w*np.exp(a.dot(o["x"]))
            for ax in o["name"]:
                f = f*a.dot(R[:, ax])
            v += f.real
        r.append(v)
    return np.array(r)


def rec(o):
    if o["type"] == "multi":
        return dict(type="multi", parts=[dict(obj=rec(p["obj"]), w=opt(p["w"])) for p in o["parts"]])
    return dict(type="pot", x=nums(o["x"]), name=o["name"], rot=[] if o["rot"] is None else nums(o["rot"]))


def opt(v):
    return "None" if v is None else num(v)


def real(o, **kw):
    if o["type"] == "multi":
        return pc.MultiPotentialObjective(components=[real(p["obj"], value=p["w"]) for p in o["parts"]], **kw)
    x = o["x"] if rng.random() < .5 else list(map(float, o["x"]))
    return pc.PotentialObjective(x=x, derivative=name(o["name"]), rotation=o["rot"], **kw)


# ---- constraints --------------------------------------------------------------
def rng_c(lo, hi, index=None):
    return dict(t="range", min=lo, max=hi, index=index)


def val_c(o, lo=None, hi=None, offset=None):
    return dict(t="value", obj=o, min=lo, max=hi, offset=offset)


def crec(c):
    if c["t"] == "range":
        return dict(t="range", min=opt(c["min"]), max=opt(c["max"]), index=-1 if c["index"] is None else c["index"])
    return dict(t="value", obj=rec(c["obj"]), min=opt(c["min"]), max=opt(c["max"]), offset=opt(c["offset"]))


def creal(c, m=None):
    if c["t"] == "range":
        # any kind of number
        k = lambda v: v if v is None else pick([float, float, np.float64, lambda q: int(q) if q == int(q) else q, lambda q: np.array(q)])(v)
        i = c["index"]
        if i is not None and m and rng.random() < .3:      # counted from the end
            i -= m
        i = i if i is None or rng.random() < .5 else np.int64(i)
        return pc.PatternRangeConstraint(min=k(c["min"]), max=k(c["max"]), index=i)
    return real(c["obj"], min=c["min"], max=c["max"], offset=c["offset"])


def rows_of(s, c):
    """Inequalities a.u <= b and equations of a constraint, in the order of Linear.tla."""
    m = len(s)
    iq, eq = [], []
    if c["t"] == "range":
        ix = range(m) if c["index"] is None else [c["index"]]
        I = np.eye(m)
        if c["min"] is not None and c["min"] == c["max"]:
            eq += [(I[j], c["min"]) for j in ix]
        else:
            if c["min"] is not None:
                iq += [(-I[j], -c["min"]) for j in ix]
            if c["max"] is not None:
                iq += [(I[j], c["max"]) for j in ix]
    else:
        r = row(s, c["obj"])
        if c["min"] is not None:
            iq.append((-r, -c["min"]))
        if c["max"] is not None:
            iq.append((r, c["max"]))
        if c["offset"] is not None:
            eq.append((r, c["offset"]))
    return iq, eq


def mat(rs, m):
    return (np.array([a for a, b in rs]).reshape(-1, m), np.array([float(b) for a, b in rs]))


def state(s):
    return [(e.dc, e.rf, e.name, tuple(e.terms)) for e in s]


def polish(A, x0, res):
    """Least squares correction of multipliers to the stationarity equation."""
    return x0


def certificate(B, b, iq, eq):
    """Proof for max c s.t. B u = c b, A u <= r, E u = f, by the dual problem."""
    m, n = B.shape[1], len(b)
    A, r = mat(iq, m)
    E, f = mat(eq, m)
    nl, ne = len(r), len(f)
    cert = dict(kind="none", lam=[], mu=[], y=[], ray=[], gain="0.0")
    # contradictory rows
    y = np.linalg.svd(B.T)[2]
    w = np.linalg.svd(B.T)[1]
    rank = (w > 1e-9*w.max()).sum() if len(w) else 0
    null = y[rank:]
    pb = null.T.dot(null.dot(b)) if len(null) else np.zeros(n)
    if abs(pb.dot(b)) > 1e-3 or not np.any(b):
        if np.any(b):
            cert.update(kind="contradictory", y=nums(pb))
            return cert
    opts = dict(dual_feasibility_tolerance=1e-10, primal_feasibility_tolerance=1e-10, presolve=False)
    # primal in u, c
    M = np.vstack([np.c_[B, -b], np.c_[E, np.zeros(ne)]]) if n+ne else np.zeros((0, m+1))
    rhs = np.r_[np.zeros(n), f]
    G = np.c_[A, np.zeros(nl)]
    p = linprog(np.r_[np.zeros(m), -1.], A_ub=G if nl else None, b_ub=r if nl else None, A_eq=M, b_eq=rhs,
                bounds=(None, None), method="highs-ds", options=opts)
    # dual: min lam.r + mu.f, B'y + A'lam + E'mu = 0, b.y = -1
    D = np.vstack([np.hstack([B.T, A.T, E.T]), np.r_[b, np.zeros(nl+ne)][None]])
    bounds = [(None, None)]*n + [(0, None)]*nl + [(None, None)]*ne
    cost = np.r_[np.zeros(n), r, f]
    if p.status == 0:
        d = linprog(cost, A_eq=D, b_eq=np.r_[np.zeros(m), -1.], bounds=bounds, method="highs-ds", options=opts)
        if d.status != 0:
            return cert
        z = d.x
        cert.update(kind="optimal", strength=abs(p.x[-1]))
    elif p.status == 3 or p.status == 4:
        q = linprog(np.r_[np.zeros(m), -1.], A_ub=np.vstack([G, np.eye(m+1)[-1:]]), b_ub=np.r_[np.zeros(nl), 1.], A_eq=M,
                    b_eq=np.zeros(n+ne), bounds=(None, None), method="highs-ds", options=opts)
        if q.status == 0 and q.x[-1] > .5:
            cert.update(kind="unbounded", ray=nums(q.x[:-1]), gain=num(q.x[-1]))
            return cert
    if p.status in (2, 3, 4) and cert["kind"] == "none":
        d = linprog(cost, A_ub=np.r_[np.zeros(n), np.ones(nl), np.zeros(ne)][None], b_ub=[1.], A_eq=D, b_eq=np.zeros(m+1),
                    bounds=[(-1e3, 1e3) if bb == (None, None) else bb for bb in bounds], method="highs-ds", options=opts)
        if d.status != 0 or d.fun > -1e-3:
            return cert
        z = d.x
        cert["kind"] = "infeasible"
    if cert["kind"] != "none":
        cert.update(y=nums(z[:n]), lam=nums(z[n:n+nl]), mu=nums(z[n+nl:]))
    return cert


def bounds_for(s):
    """Range constraints that bound all electrodes."""
    c = rng.randrange(5)
    if c == 0:
        return [rng_c(-1., 1.)]
    if c == 1:
        return [rng_c(-pick([.5, 2., 10.]), pick([1., 3.]))]
    if c == 2:
        return [rng_c(None, 2.), rng_c(-1., None)]
    if c == 3:
        return [rng_c(-1.-nrng.rand(), 1.+nrng.rand(), i) for i in range(len(s))]
    j = rng.randrange(len(s))
    v = pick([0., .25, -.5])
    return [rng_c(-1., 1.), rng_c(v, v, j)]


if mode == "P21":
    every = [t for n in range(5) for t in __import__("itertools").product(range(3), repeat=n)]
    tt = 0
    for t in range(n_(len(every) + 120, len(every) + 1500)):
        s = mksys(rng.randrange(1, 4))
        o = dict(type="pot", x=nrng.randn(3)*.5, name=list(every[t]), rot=frame() if rng.random() < .5 and every[t] else None) if t < len(every) else gen_obj(2)
        value = pick([None, 0, 0., 1, -2.5, 3])

        def f():
            c = real(o, value=value)
            if t % 3 == 1:      # read before, for other electrodes
                z = mksys(len(s))
                c.get(z, None)
                if t % 2:
                    keep = [list(e.terms) for e in s]
                    for a, b in zip(s, z):
                        a.terms = b.terms
                    list(c.objective(s, None))
                    for a, b in zip(s, keep):
                        a.terms = b
            return nums(np.asarray(c.get(s, None)).ravel()), [dict(row=nums(np.asarray(a).ravel()), value=num(b)) for a, b in c.objective(s, None)]
        v, exc = call(f)
        if v:
            v = dict(got=v[0], terms=v[1])
        ev = out.emit(kind="row", exc=exc or "no", els=[e.rec() for e in s], obj=rec(o), value=opt(value), **(v or {}))
        if v and value is not None and tt < 2 and t > 50:
            tt += 1
            out.canary(ev, got=[bump(v["got"][0])] + v["got"][1:])
            out.canary(ev, value=bump(ev["value"]))
    tt = 0
    for t in range(n_(150, 1500)):
        s = mksys(rng.randrange(1, 5))
        m = len(s)
        if t % 2:
            lo, hi = pick([(None, None), (-1., None), (None, .5), (-1., 1.), (.3, .3), (0, 0), (0., 1.), (-1, 0), (0, None), (None, 0)])
            c = rng_c(lo, hi, pick([None, rng.randrange(m)]))
        else:
            lo, hi = pick([(None, None), (-1., None), (None, .5), (-1., 1.), (0, 1.), (0., None), (None, 0)])
            c = val_c(gen_obj(), lo, hi, pick([None, None, 0, 0., .5, -1]))

        def f():
            v = cvxopt.modeling.variable(m)
            rc = creal(c, m)
            if t % 4 > 1:       # used before, with other electrodes
                list(rc.constraints(mksys(m), cvxopt.modeling.variable(m)))
            cons = list(rc.constraints(s, v))
            res = []
            for u in us:
                v.value = cvxopt.matrix(np.array(u, float))
                ok = True
                for q in cons:
                    z = np.array(q.value()).ravel()
                    ok = ok and bool((abs(z) < 1e-8).all() if q.type() == "=" else (z <= 1e-8).all())
                res.append(ok)
            return res
        us = [nrng.randn(m)*pick([.3, 1, 3]) for _ in range(6)]
        iq, eq = rows_of(s, c)
        if eq:  # points that satisfy the equations
            E, g = mat(eq, m)
            for i in range(3):
                us[i] = us[i] - np.linalg.pinv(E).dot(E.dot(us[i])-g)
        v, exc = call(f)
        ev = out.emit(kind="bounds", exc=exc or "no", els=[e.rec() for e in s], c=crec(c), tests=[nums(u) for u in us], ok=v or [])
        if v and tt < 2 and c["t"] == "range" and c["max"] and not eq:
            tt += 1
            out.canary(ev, ok=[not i for i in v])


def scaled(cs, f):
    """The constraints of the same problem for voltages f times as large."""
    k = lambda v: None if v is None else v*f
    return [dict(c, **{q: k(c[q]) for q in ("min", "max", "offset") if q in c}) for c in cs]


class NotConverged(Exception):
    """The solver gave up (its status is "unknown"): no verdict about the problem."""


solvable, gave_up = 0, 0


def solver(fn):
    def f():
        try:
            return fn()
        except ValueError as e:
            if "unknown" in str(e):
                raise NotConverged()
            raise
    return call(f)


def optimize_event(s, objs, cs, retry=(.83, 1.45, 1.7), unit=1., weak=()):
    B = np.array([row(s, o) for o, v in objs]).reshape(-1, len(s))/unit
    for i, w in weak:   # rows of these are that small (and to be zero)
        B[i] /= w
    b = np.array([float(v) for o, v in objs])
    iq, eq = [], []
    for c in cs:
        i, e = rows_of(s, c)
        iq += i
        eq += e
    sizes = [np.linalg.norm(a) for a in list(B) + [a for a, r in iq + eq]]
    if retry and not all(.05 < i < 20 for i in sizes):
        return None
    cert = certificate(B, b, iq, eq)
    if cert["kind"] == "none" or not np.any(b):
        return None
    if cert["kind"] == "optimal" and (np.linalg.norm(np.linalg.pinv(B)) > 100 or not (cert["strength"] < 1e-9 or 1e-2 < cert["strength"] < 1e2)):
        return None
    cert.pop("strength", None)
    for i, w in weak:
        if cert["y"]:
            cert["y"][i] = num(float(cert["y"][i])/w)
    if unit != 1. and cert["kind"] == "infeasible":
        cert["y"] = nums(np.array([float(i) for i in cert["y"]])/unit)
    elif unit != 1.:
        for k in "lam", "mu":
            cert[k] = nums(np.array([float(i) for i in cert[k]])*unit)
        if "gain" in cert:
            cert["gain"] = num(float(cert["gain"])*unit)
    robj = [real(o, value=v) for o, v in objs]
    rcs = [creal(c, len(s)) for c in cs]
    mixed = robj + rcs
    rng.shuffle(mixed)
    if rng.random() < .25:      # the same objects served another system
        call(mksys(len(s)).optimize, list(mixed), verbose=False)
    before = state(s)
    global solvable, gave_up
    solvable += cert["kind"] == "optimal"
    v, exc = solver(lambda: s.optimize(mixed, verbose=False, **OPT))
    if exc == "NotConverged" and cert["kind"] == "optimal":
        # pose the same problem at another scale
        gave_up += 1
        return optimize_event(s, objs, scaled(cs, retry[0]), retry[1:], unit, weak) if retry else None
    d = {}
    if v is not None:
        d = dict(p=flat(v[0]), c=num(v[1]))
    return out.emit(kind="optimize", exc=exc or "no", els=[e.rec() for e in s], objs=[dict(obj=rec(o), value=num(float(v))) for o, v in objs],
                    cs=[crec(c) for c in cs], cert=cert, changed=state(s) != before, **d), cert


if mode == "P19":
    kinds = {}
    t = 0
    can = 0
    while t < n_(200, 1500):
        s = mksys(rng.randrange(2, 8) if t % 20 else 20)
        m = len(s)
        n = rng.randrange(1, min(m, 4)+1)
        want = pick(["opt", "opt", "opt", "inf", "contra", "unb", "zero"])
        unit = 1.
        if t % 5 == 4:
            unit = units(s)
            want = pick(["opt", "contra"])
        objs = [(gen_obj(1, order=rng.randrange(0, 4)), pick([1., 0, 0., -2., nrng.randn()])) for _ in range(n)]
        if not any(v for o, v in objs):
            objs[rng.randrange(n)] = (objs[0][0], 1.)
        cs = bounds_for(s)
        if rng.random() < .6 and unit == 1.:
            o = gen_obj(1, order=rng.randrange(0, 3))
            cs.append(val_c(o, *pick([(-.1, None), (None, .2), (-.3, .3)])))
        if rng.random() < .25 and n < m-1 and unit == 1.:
            cs.append(val_c(gen_obj(1, order=1), offset=pick([0, .05, -.02])))
        if want == "inf":
            o = gen_obj(1, order=1)
            cs.append(val_c(o, lo=1+30*abs(row(s, o)).sum()))
        elif want == "contra":
            o, v = objs[-1]
            objs = objs + [(o, v + 1.)]
        elif want == "unb":
            j = rng.randrange(m)
            cs = [rng_c(-1., 1., j)]
            if rng.random() < .3:
                cs = [rng_c(-1., None)]
        elif want == "zero" and n > 1:
            objs = [(o, 0. if i else 1.) for i, (o, v) in enumerate(objs)]
        if rng.random() < .2:  # redundant row
            o, v = objs[0]
            objs = objs + [(o, v)]
        weak = []
        if t % 4 == 2 and unit == 1. and n > 1 and want != "contra":    # some quantities, to vanish, are weak ones
            for i in range(1, n):
                if rng.random() < .7:
                    w = 10.**nrng.uniform(-6, -2)
                    objs[i] = (dict(type="multi", parts=[dict(obj=objs[i][0], w=w)]), 0.)
                    weak.append((i, w))
            if not objs[0][1]:
                objs[0] = (objs[0][0], 1.)
        r = optimize_event(s, objs, cs, unit=unit, weak=weak)
        if r is None:
            continue
        t += 1
        ev, cert = r
        kinds[cert["kind"]] = kinds.get(cert["kind"], 0) + 1
        if "p" in ev and can < 2 and unit == 1.:
            can += 1
            k = float(ev["c"])
            out.canary(ev, p=[num(float(i)*.99) for i in ev["p"]], c=num(k - .01*abs(k)-.01))
            out.canary(ev, p=[bump(ev["p"][0], 1e-2)] + ev["p"][1:])
            out.canary(ev, changed=True)
    print("certificates", kinds)
    out.emit(kind="converges", exc="no", solvable=solvable, gave_up=gave_up)


def shim_certs(B, lo, hi):
    """For every row: the dual of the smallest share of the range that gives one
    unit of it, or of the impossibility."""
    n, m = B.shape
    certs, no = [], []
    # v = sum_j g hi_j a_j, scaled: variables v_j, g;  min g, B v = e_i, lo g <= v <= hi g
    A = np.r_[np.c_[np.eye(m), -hi], np.c_[-np.eye(m), lo]]
    for i in range(n):
        r = linprog(np.r_[np.zeros(m), 1.], A_ub=A, b_ub=np.zeros(2*m), A_eq=np.c_[B, np.zeros(n)], b_eq=np.eye(n)[i],
                    bounds=[(None, None)]*m+[(0, None)], method="highs")
        if r.status == 0:
            y = r.eqlin.marginals
            if r.x[m] > 1e3 or r.x[m] < 1e-4:
                return None, None     # badly conditioned
            certs.append(nums(y))
        elif r.status == 2:
            no.append(i)
        else:
            return None, None
    if not no:
        return certs, True
    # y with y_i > 0 and  sum_j max(z_j lo_j, z_j hi_j) = 0, z = B' y: feasibility in y
    i = no[0]
    A, b = [], []
    for j in range(m):
        if hi[j] > 0:
            A.append(B[:, j])
            b.append(0.)
        if lo[j] < 0:
            A.append(-B[:, j])
            b.append(0.)
    r = linprog(-np.eye(n)[i], A_ub=A, b_ub=b, bounds=[(-1, 1)]*n, method="highs")
    if r.status != 0 or r.x[i] < 1e-3:
        return None, None
    return [[i+1, nums(r.x)]], False


if mode == "P20":
    t = can = 0
    while t < n_(140, 900):
        s = mksys(rng.randrange(3, 9))
        m = len(s)
        if t % 4 == 1:
            units(s)
        n = rng.randrange(1, min(m-1, 5)+1)
        pts = [gen_pot(order=rng.randrange(0, 3)) for _ in range(n)]
        extra = [gen_obj(1, order=rng.randrange(0, 3)) for _ in range(rng.randrange(0, 3) if n+2 <= m else 0)]
        if t % 3 == 2 and n > 1:    # at the same point, in other frames or directions
            j = rng.randrange(1, n)
            pts[j] = dict(pts[0], **pick([dict(rot=frame()), dict(x=nrng.randn(3)*.5), dict(name=pts[0]["name"][::-1] + [0]),
                                          dict(rot=rotation() if pts[0]["rot"] is None else None)]))
            for o in pts:
                if not o["name"]:
                    o["name"], o["rot"] = [rng.randrange(3)], pick([None, frame()])
        objs = pts + extra
        B = np.array([row(s, o) for o in objs])
        w = np.linalg.svd(B)[1]
        dup = t % 10 == 9
        if len(w) < len(objs) or w[-1] < 1e-2*w[0]:
            continue
        t += 1
        lo, hi = np.full(m, -1.), np.full(m, 1.)
        give = rng.random() < .6
        if give:
            c = rng.randrange(4)
            if c < 2:
                lo[:], hi[:] = pick([(-1., 1.), (-3., 2.), (-.01, .02), (-1000., 1000.)])
                con = [rng_c(lo[0], hi[0])] if c else [rng_c(lo[0], hi[0], i) for i in range(m)]
            else:
                # some electrodes grounded, of one sign or with a wider range
                con = [rng_c(-1., 1.)] if rng.random() < .5 else [rng_c(None, 1.), rng_c(-1., None)]
                for j in range(m):
                    a = pick([(-1., 1.)]*4+[(0., 0.), (0., 1.), (-.5, 0.), (-.2, .3)])
                    if a != (-1., 1.):
                        lo[j], hi[j] = a
                        con.append(rng_c(a[0], a[1], j))
            rng.shuffle(con)
        values = [pick([None, 0, 1., -3.]) for _ in extra]
        rex = [real(o, value=v) for o, v in zip(extra, values)]
        xcd = [(o["x"], o["rot"], name(o["name"])) for o in pts]
        before = state(s)
        if dup:
            rex = [real(pts[0], value=None)]
            if pts[0]["type"] != "pot":
                continue
            v, exc = call(lambda: s.shims(xcd, objectives=rex))
            out.emit(kind="refused", raised=exc or "no", exc="no")
            continue
        certs, possible = shim_certs(B, lo, hi)
        if certs is None:
            continue
        kw = dict(constraints=[creal(c, m) for c in con]) if give else {}
        if rex or rng.random() < .5:
            kw["objectives"] = rex
        if t % 5 == 3:
            call(lambda: mksys(m).shims(xcd, **dict(kw, **OPT)))
            for o, v in zip(rex, values):
                o.value = v
        v, exc = call(lambda: s.shims(xcd, **dict(kw, **OPT)))
        if not possible:
            out.emit(kind="impossible", raised=exc or "no", exc="no", els=[e.rec() for e in s], objs=[rec(o) for o in objs], lo=nums(lo), hi=nums(hi), certs=certs)
            continue
        ev = out.emit(kind="shims", exc=exc or "no", lo=nums(lo), hi=nums(hi), certs=certs, els=[e.rec() for e in s], objs=[rec(o) for o in objs], vectors=nums(v) if v is not None else [],
                      changed=state(s) != before, values=[opt(o.value) for o in rex], values0=[opt(i) for i in values])
        if v is not None and can < 2:
            can += 1
            vv = nums(v)
            vv[0][0] = bump(vv[0][0], 1e-2)
            out.canary(ev, vectors=vv)
            out.canary(ev, changed=True)
            out.canary(ev, values=ev["values"] + ["1.0"])
            out.canary(ev, lo=nums(lo/2), hi=nums(hi/2), vectors=nums(v))
            out.canary(ev, certs=[nums(np.array(v[0][:len(objs)])*0)]*len(objs))


# ---- P22 ------------------------------------------------------------------------
def forms(N, g):
    """Coefficients over the configurations (independent of the code): order-fold differences."""
    rows = np.eye(N)
    d = g["delta"]
    for i in range(g["order"]):
        if g["smooth"] and i % 2 == 0:
            k = len(rows)
            rows = np.array([rows[j] for j in range(d, 0, -1)] + list(rows) + [rows[k-1-j] for j in range(1, d+1)])
        rows = np.array([rows[j+d]-rows[j] for j in range(len(rows)-d)]).reshape(-1, N)
    return rows/float(d)**g["order"]


def solve_cert(s, local, glob):
    """Dual of: min sum lin.u + sum w |D u| s.t. constraints and |D u| <= max."""
    m, N = len(s), len(local)
    nv = 0
    bounds, cost, idx = [], [], {}
    terms = []   # (variable, configuration, vector)

    def var(lo, c):
        cost.append(c)
        bounds.append((lo, None))
        return len(cost)-1
    cert = dict(lam=[], mu=[], s=[], t=[], tl=[], tm=[])
    eqrow, eqcol, eqval = [], [], []

    def put(v, n, a):
        for j in range(m):
            if a[j]:
                eqrow.append(n*m+j)
                eqcol.append(v)
                eqval.append(a[j])
    rhs = np.zeros(N*m)
    for n, l in enumerate(local):
        for o, v in l["objs"]:
            rhs[n*m:(n+1)*m] -= v*row(s, o)
        lam, mu = [], []
        for c in l["cs"]:
            iq, eq = rows_of(s, c)
            for a, b in iq:
                k = var(0, b)
                put(k, n, a)
                lam.append(k)
            for a, b in eq:
                k = var(None, b)
                put(k, n, a)
                mu.append(k)
        cert["lam"].append(lam)
        cert["mu"].append(mu)
    ub, ubv, eqx, eqxv = [], [], [], []
    for g in glob:
        D = forms(N, g)
        S, T, L, B = [], [], [], []
        for f in D:
            tl = var(0, g["max"] if g["max"] is not None else 0.)
            if g["max"] is None:
                bounds[tl] = (0, 0)
            L.append(tl)
            tm = var(0, -g["min"] if g["min"] is not None else 0.)
            if g["min"] is None:
                bounds[tm] = (0, 0)
            B.append(tm)
            for n in range(N):
                put(tm, n, [-f[n]]*m)
            for acc, lim in ((S, None), (T, tl)):
                vs = [var(None, 0.) for _ in range(m)]
                acc.append(vs)
                for j, v in enumerate(vs):
                    for n in range(N):
                        if f[n]:
                            eqrow.append(n*m+j)
                            eqcol.append(v)
                            eqval.append(f[n])

                def le(co, w):   # sum co <= w*(weight or tl)
                    if lim is None:
                        ub.append(co)
                        ubv.append(w*g["weight"])
                    else:
                        ub.append(co + [(lim, -w)])
                        ubv.append(0.)

                def eqq(co):
                    if lim is None:
                        eqx.append(co)
                        eqxv.append(g["weight"])
                    else:
                        eqx.append(co + [(lim, -1.)])
                        eqxv.append(0.)
                if g["abs"] and g["norm"] == "one":
                    for v in vs:
                        le([(v, 1.)], 1.)
                        le([(v, -1.)], 1.)
                elif g["abs"]:
                    absv = []
                    for v in vs:
                        a = var(0, 0.)
                        ub.append([(v, 1.), (a, -1.)])
                        ubv.append(0.)
                        ub.append([(v, -1.), (a, -1.)])
                        ubv.append(0.)
                        absv.append((a, 1.))
                    le(absv, 1.)
                elif g["norm"] == "one":
                    for v in vs:
                        eqq([(v, 1.)])
                else:
                    for v in vs:
                        bounds[v] = (0, None)
                    eqq([(v, 1.) for v in vs])
        cert["s"].append(S)
        cert["t"].append(T)
        cert["tl"].append(L)
        cert["tm"].append(B)
    nv = len(cost)
    A = np.zeros((N*m + len(eqx), nv))
    for r, c, v in zip(eqrow, eqcol, eqval):
        A[r, c] += v
    for i, co in enumerate(eqx):
        for c, v in co:
            A[N*m+i, c] += v
    G = np.zeros((len(ub), nv))
    for i, co in enumerate(ub):
        for c, v in co:
            G[i, c] += v
    d = linprog(cost, A_ub=G if len(ub) else None, b_ub=ubv if len(ub) else None, A_eq=A, b_eq=np.r_[rhs, eqxv], bounds=bounds,
                method="highs-ds", options=dict(dual_feasibility_tolerance=1e-10, primal_feasibility_tolerance=1e-10, presolve=False))
    if d.status != 0:
        return None

    def fill(q):
        if isinstance(q, (list, tuple)):
            return [fill(i) for i in q]
        return num(d.x[q])
    return {k: fill(v) for k, v in cert.items()}


if mode == "P22":
    t = can = tries = 0
    while t < n_(120, 800):
        tries += 1
        s = mksys(rng.randrange(1, 5))
        m = len(s)
        N = rng.randrange(1, 6) if tries % 25 else 9
        local = []
        for n in range(N):
            cs = [rng_c(-1., 1.)] if rng.random() < .6 else bounds_for(s)
            if rng.random() < .5:
                o = gen_obj(1, order=rng.randrange(0, 3))
                sc = abs(row(s, o)).sum()
                cs.append(val_c(o, *pick([(None, None, .3*sc*nrng.uniform(-1, 1)), (.1*sc, None), (None, -.1*sc), (-.05*sc, .1*sc)])))
            objs = []
            if rng.random() < .6:
                for _ in range(rng.randrange(1, 3)):
                    objs.append((gen_obj(1, order=rng.randrange(0, 3)), pick([1., -.5, 2., nrng.randn()])))
            local.append(dict(cs=cs, objs=objs))
        shared = tries % 4 == 0
        some = tries % 4 == 2       # the constraints or the objectives are common
        if shared:
            local = [local[0]]*N
        elif some:
            part = pick(["cs", "objs", "both"])
            local = [dict(local[n], **{k: local[0][k] for k in ("cs", "objs") if part in (k, "both")}) for n in range(N)]
        glob = []
        for _ in range(rng.randrange(0, 4)):
            order = rng.randrange(0, 4)
            delta = pick([1, 1, 1, 2])
            smooth = rng.random() < .35
            if smooth and N <= 2*delta or delta*order >= N and not smooth:
                continue
            if not smooth and N-delta*order < 1:
                continue
            g = dict(order=order, delta=delta, smooth=smooth, abs=rng.random() < .75, norm=pick(["one", "inf"]),
                     weight=pick([0, 1., .3, 2., 5e-4]), max=pick([None, None, .8, 2.]), min=None)
            if not g["abs"] and g["norm"] == "one":     # sums are linear, they may be bounded from below too
                g["min"] = pick([None, -.8, -.2, 0, .3])
            glob.append(g)
        if not any(l["objs"] for l in local) and not any(g["weight"] for g in glob):
            continue
        cert = solve_cert(s, local, glob)
        if cert is None:
            continue
        for o, w in [i for l in local for i in l["objs"]] + [(c["obj"], 0) for l in local for c in l["cs"] if c["t"] == "value"]:
            if not .05 < np.linalg.norm(row(s, o)) < 20:
                cert = None
        if cert is None:
            continue
        t += 1
        rl = []
        made = {}
        for l in local:
            if some:    # the same objects in lists of their own
                for c in l["cs"]:
                    if id(c) not in made:
                        made[id(c)] = creal(c, m)
                for i in l["objs"]:
                    if id(i) not in made:
                        made[id(i)] = real(i[0], value=i[1])
                q = [made[id(c)] for c in l["cs"] + l["objs"]]
            else:
                q = [creal(c, m) for c in l["cs"]] + [real(o, value=v) for o, v in l["objs"]]
            rng.shuffle(q)
            rl.append(q)
        if shared:      # the same objects in every configuration
            rl = [rl[0]]*N
        # arguments may be left out where the default is meant
        usual = dict(weight=0, max=None, min=None, smooth=False, delta=1, norm="one", abs=True)
        rg = [pc.VoltageDerivativeConstraint(g["order"], **{k: g[k] for k in usual if g[k] != usual[k] or rng.random() < .5}) for g in glob]
        before = state(s)

        def f():
            u, c = s.solve(rl, rg, verbose=False, **OPT)
            return nums(u), num(np.asarray(c).ravel()[0])
        v, exc = solver(f)
        solvable += 1
        if exc == "NotConverged":
            gave_up += 1
            continue
        d = dict(u=v[0], c=v[1]) if v else {}
        ev = out.emit(kind="solve", exc=exc or "no", els=[e.rec() for e in s],
                      local=[dict(cs=[crec(c) for c in l["cs"]], objs=[dict(obj=rec(o), value=num(w)) for o, w in l["objs"]]) for l in local],
                      **dict(d, cert=cert, changed=state(s) != before, **{"global": [dict(g, weight=num(g["weight"]), max=opt(g["max"]), min=opt(g["min"])) for g in glob]}))
        if v and can < 2 and any(l["objs"] for l in local):
            can += 1
            out.canary(ev, c=bump(v[1], 1e-2))
            u = v[0]
            u2 = json.loads(json.dumps(u))
            u2[0][0] = "50.0"
            out.canary(ev, u=u2)
    print("tries", tries)
    out.emit(kind="converges", exc="no", solvable=solvable, gave_up=gave_up)
