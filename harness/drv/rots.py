"""Rotations: P35 Euler angles, P36 quaternions."""
from rotlib import *
out = Out()
mode = sys.argv[1]


# ---- P35 -------------------------------------------------------------------
def euler(name, a, model=[], tup=None):
    t = tuple(tup) if tup is not None else tuple(tr._AXES2TUPLE[name])
    mats, quats, failed = [], [], []
    forms = [name, t]
    for f in forms:
        v, e = run(both("euler_matrix"), a[0], a[1], a[2], f)
        mats += v
        failed += e
        v, e = run(both("euler_matrix"), a[0], a[1], a[2], axes=f)
        mats += v
        failed += e
        v, e = run(both("quaternion_from_euler"), a[0], a[1], a[2], f)
        quats += v
        failed += e
    if name == "sxyz":
        v, e = run(both("euler_matrix")+[lambda *x: tr.quaternion_matrix(tr.quaternion_from_euler(*x))], *a)
        mats += v
        failed += e
    return out.emit(kind="euler", name=name, frame=name[0], ax=[LET[c] for c in name[1:]], tuple=list(tr._AXES2TUPLE.get(name, ())),
                    angles=nums(a), model=model, mats=[nums(m) for m in mats], quats=[nums(q) for q in quats], failed=failed)


def back(name, M):
    t = tr._AXES2TUPLE[name]
    M = pick([M, layout(M), M.T.copy().T])
    got, failed = [], []
    fs = both("euler_from_matrix")
    for f in (name, t):
        v, e = run(fs, M, f)
        got += v
        failed += e
    v, e = run(fs[1:], M[:3, :3], axes=name)    # the Python version takes the 3x3 part, too
    got += v
    failed += e
    if name == "sxyz":
        v, e = run(fs, M)
        got += v
        failed += e
    qs, e = run(both("quaternion_from_matrix"), M)
    failed += e
    viaq = []
    for q in qs:
        q = q*pick([1, -1, 2.5])
        for f in (name, t):
            v, e = run([tr.euler_from_quaternion], q, f)
            viaq += [[nums(q), nums(x)] for x in v]
            failed += e
    return out.emit(kind="back", name=name, frame=name[0], ax=[LET[c] for c in name[1:]], M=nums(M),
                    angles=[nums(g) for g in got], viaq=viaq, failed=failed)


def lockmatrix(name):
    """Near or at gimbal lock of this convention, with rounding errors."""
    lock = (0 if name[1] == name[3] else math.pi/2)+math.pi*rng.randrange(2)
    if rng.random() < .6:
        lock += rng.choice([-1, 1])*10**rng.uniform(-17, -4)
    a = [ang(), lock, ang()]
    M, e = call(tr._py_euler_matrix, *a, axes=name)
    if e:
        return np.identity(4)
    if rng.random() < .6:
        Q = np.identity(4)
        Q[:3, :3] = rotation()
        M = Q.T.dot(Q.dot(M))
    return M


def p35():
    code = "sr"
    evs = inputs()
    ev = None
    for m in evs:
        name = m["frame"]+"".join("xyz"[i-1] for i in m["ax"])
        if name not in tr._AXES2TUPLE:
            continue                    # reported by the missing convention below
        ev = euler(name, [k*math.pi/2 for k in m["k"]], m["M"], m["tuple"])
    if ev:
        out.canary(ev, model=[[0, 0, 1], [1, 0, 0], [0, 1, 0]] if ev["model"] != [[0, 0, 1], [1, 0, 0], [0, 1, 0]] else
                   [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        out.canary(ev, mats=ev["mats"][:1]+[[[bump(x) for x in r] for r in ev["mats"][1]]]+ev["mats"][2:])
        out.canary(ev, tuple=[ev["tuple"][0], 1-ev["tuple"][1]]+ev["tuple"][2:])
    for name in ALL:
        if name not in tr._AXES2TUPLE:
            out.emit(kind="euler", name=name, frame=name[0], ax=[LET[c] for c in name[1:]], tuple=[], angles=nums([0, 0, 0]),
                     model=[], mats=[], quats=[], failed=["missing"])
            continue
        for i in range(n_(4, 40)):
            ev = euler(name, [ang(), ang(), ang()])
        out.canary(ev, angles=[bump(ev["angles"][0])]+ev["angles"][1:])
        for i in range(n_(6, 60)):
            b = back(name, rot() if i % 2 else lockmatrix(name))
        a = b["angles"][0]
        out.canary(b, angles=[[bump(a[0]), a[1], a[2]]])
    for bad in ("xyz", "sxxz", "sxyy", "txyz", "", "sxy", "sxyzx", (0, 0, 0), (3, 0, 0, 0), (0, 2, 0, 0), (0, 0, 0, 2), 5):
        excs = []
        for nm, a in (("euler_matrix", (1., 2., 3., bad)), ("euler_from_matrix", (np.identity(4), bad)), ("quaternion_from_euler", (1., 2., 3., bad))):
            v, e = run(both(nm), *a)
            excs += e+["accepted" for i in v]
        out.emit(kind="refuse", excs=excs, what=str(bad))


# ---- P36 -------------------------------------------------------------------
def quatev(p, q, model=[]):
    p0, q0 = p.copy(), q.copy()
    failed = []

    def r(name, *a):
        v, e = run(both(name), *a)
        failed.extend(e)
        return v
    mul = r("quaternion_multiply", p, q)
    conj, inv, mat = r("quaternion_conjugate", p), r("quaternion_inverse", p), r("quaternion_matrix", p)
    matpq = [m for x in mul for m in r("quaternion_matrix", x)]
    re, e1 = call(tr.quaternion_real, p)
    im, e2 = call(tr.quaternion_imag, p)
    s, e3 = call(lambda: bool(tr.is_same_quaternion(p, -p)) and bool(tr.is_same_quaternion(p, p.copy()))
                 and not bool(tr.is_same_quaternion(p, p+np.array([0, 0, 1, 0])*(.1+np.abs(p).max()))))
    failed += [x for x in (e1, e2, e3) if x]
    return out.emit(kind="quat", p=nums(p0), q=nums(q0), model=model, mul=[nums(x) for x in mul], conj=[nums(x) for x in conj],
                    inv=[nums(x) for x in inv], mat=[nums(x) for x in mat], matpq=[nums(x) for x in matpq],
                    real=num(re if e1 is None else np.nan), imag=nums(im) if e2 is None else [], same=bool(s),
                    changed=bool((p != p0).any() or (q != q0).any()), failed=failed)


def p36():
    for m in inputs():
        ev = quatev(np.array(m["p"], float), np.array(m["q"], float), [{"pq": m["pq"], "R": m["R"], "n": m["n"]}])
    out.canary(ev, mul=[[bump(x) for x in ev["mul"][0]]])
    out.canary(ev, model=[dict(ev["model"][0], n=ev["model"][0]["n"]+1)])
    for i in range(n_(60, 600)):
        ev = quatev(layout(quat(0)), layout(quat()))
    out.canary(ev, conj=[ev["p"]])
    out.canary(ev, inv=[[bump(x) for x in ev["inv"][0]]])
    out.canary(ev, mat=[[[bump(x) for x in r] for r in ev["mat"][0]]])
    # from matrices
    for i in range(n_(120, 1500)):
        M = rot()
        if i % 5 == 0:
            M = M.dot(rot())
        arg = pick([M, layout(M), M.T.copy().T, np.linalg.inv(M).T]) if i % 3 else M.tolist()
        M = np.array(arg, float)
        v1, e1 = run(both("quaternion_from_matrix"), arg)
        v2, e2 = run(both("quaternion_from_matrix"), arg, True)
        v3, e3 = run(both("quaternion_from_matrix"), arg, isprecise=False)
        ev = out.emit(kind="frommatrix", M=nums(M), q=[nums(q) for q in v1+v2+v3], failed=e1+e2+e3, tol="1e-7")
    out.canary(ev, q=[[bump(ev["q"][0][0], 1e-2)]+[bump(x, -3e-2) for x in ev["q"][0][1:]]])
    # the nearest rotation to a disturbed matrix
    for i in range(n_(20, 200)):
        M = rot()
        M[:3, :3] += nrng.randn(3, 3)*10**rng.uniform(-3, -.7)
        v, e = run(both("quaternion_from_matrix"), M)
        ev = out.emit(kind="nearest", M=nums(M), q=[nums(q) for q in v], failed=e)
    a = [float(x) for x in ev["q"][0]]
    a = [a[0]*.99+a[1]*.1, a[1]*.99-a[0]*.1, a[2], a[3]]
    out.canary(ev, q=[nums(a)])
    # axis and angle
    for i in range(n_(80, 800)):
        a, u = ang(), axis()
        u0 = u.copy()
        q, e1 = run(both("quaternion_about_axis"), a, u if i % 3 else u.tolist())
        m, e2 = run(both("rotation_matrix"), a, u if i % 3 else u.tolist())
        v, e3 = run(both("quaternion_matrix"), q[0]) if q else ([], ["none"])
        v1, e4 = run(both("rotation_matrix"), a-2*math.pi, u)
        v2, e5 = run(both("rotation_matrix"), -a, -u)
        ev = out.emit(kind="about", angle=num(a), axis=nums(u0), q=[nums(x) for x in q], mats=[nums(x) for x in m+v+v1+v2],
                      failed=e1+e2+e3+e4+e5, changed=bool((u != u0).any()))
    out.canary(ev, angle=bump(ev["angle"]))
    # interpolation
    FR = [0., 1., .5, .25, 2., -1., 3., 1.5, -2., 1]
    for i in range(n_(250, 4000)):
        p = quat()
        c = rng.random()
        if c < .5:
            q = quat()
        elif c < .6:
            q = p*pick([1., -1., 2., -.5])
        elif c < .8:                   # close to each other or to the opposite
            q = pick([1, -1])*p+nrng.randn(4)*np.linalg.norm(p)*10**rng.uniform(-6, -1)
        else:                          # half turns between them
            q = nrng.randn(4)
            q -= p*(p.dot(q)/p.dot(p))
            q += 1e-3*pick([-1, 1])*p
        if not q.any():
            q = quat()
        f = pick(FR) if rng.random() < .5 else rng.uniform(-2, 3)
        spin = 0 if rng.random() < .6 else rng.randrange(-3, 4)
        short = rng.random() < .6
        d = abs(p.dot(q)/np.linalg.norm(p)/np.linalg.norm(q))
        if d < 1e-9:
            q = q+1e-3*p*np.linalg.norm(q)/np.linalg.norm(p)
        if d > 1-1e-9 and (spin or (not short and p.dot(q) < 0)):
            spin, short = 0, True      # no axis
        p0, q0 = p.copy(), q.copy()
        if short and spin == 0 and i % 2:
            v, e = run(both("quaternion_slerp"), p, q, f)
        elif i % 3:
            v, e = run(both("quaternion_slerp"), p, q, f, spin, short)
        else:
            v, e = run(both("quaternion_slerp"), p, q, f, spin=spin, shortestpath=short)
        ev = out.emit(kind="slerp", p=nums(p0), q=nums(q0), f=num(f), spin=spin, short=bool(short), r=[nums(x) for x in v], failed=e,
                      changed=bool((p != p0).any() or (q != q0).any()))
    v, e = run(both("quaternion_slerp"), [1, 0, 0, 0], [1, 1, 0, 0], .3)
    ev = out.emit(kind="slerp", p=nums([1, 0, 0, 0]), q=nums([1, 1, 0, 0]), f=num(.3), spin=0, short=True, r=[nums(x) for x in v], failed=e, changed=False)
    out.canary(ev, f="0.31")
    out.canary(ev, short=True, spin=1)
    out.canary(ev, r=[["0", "0", "0", "1"]])
    # random rotations
    for i in range(n_(30, 300)):
        h = 1e-5
        r = nrng.rand(3)*(1-4*h)+2*h
        if i == 0:
            r = np.array([0., 0., 0.])
        if i == 1:
            r = np.array([1., .5, .999])
        edge = r[0] in (0., 1.) or r[0] < 1e-3 or r[0] > 1-1e-3
        for f, g in zip(both("random_quaternion"), both("random_rotation_matrix")):
            failed = []

            def c(fn, *a):
                v, e = call(fn, *a)
                if e:
                    failed.append(e)
                return v
            q, m, m2 = c(f, r), c(g, r), c(g)
            q2 = c(f)
            plus = [] if edge else [c(f, r+h*np.eye(3)[j]) for j in range(3)]
            minus = [] if edge else [c(f, r-h*np.eye(3)[j]) for j in range(3)]
            ev = out.emit(kind="random", q=nums(q) if q is not None else [], h=num(h), plus=[] if failed else [nums(x) for x in plus],
                          minus=[] if failed else [nums(x) for x in minus],
                          mats=[nums(x) for x in (m, m2, tr.quaternion_matrix(q2) if q2 is not None else None) if x is not None], failed=failed)
    if ev["plus"]:
        out.canary(ev, h=num(1.01e-5))
    out.canary(ev, q=[bump(x) for x in ev["q"]])


{"P35": p35, "P36": p36}[mode]()
