"""P37: homogeneous transformations, compositions, fits, cells, vectors."""
from rotlib import *
out = Out()
S = 1e3


def vec(p=.4, spread=2):
    if rng.random() < p:
        return nrng.randint(-2, 3, size=3).astype(float)
    return nrng.randn(3)*10**rng.uniform(-spread, spread)


def mag(*xs):
    return num(max([1.]+[float(np.abs(x).max()) for x in xs if x is not None and np.size(x)]))


def opt(x):
    return [] if x is None else nums(np.asarray(x)[:3])


def form(v):
    """How a caller may write a vector."""
    if v is None:
        return None
    c = rng.randrange(5)
    if c == 0:
        return [float(x) for x in v]
    if c == 1:
        return tuple(v)
    if c == 2:
        return np.append(v, pick([1., 0., 7.]))
    if c == 3 and (v == v.astype(int)).all():
        return v.astype(int)
    if c == 4:
        return np.repeat(v, 2)[::2]
    return v


def make(op, fs, q, m, *a, **k):
    mats, failed = run(fs, *a, **k)
    q["mag"] = m
    ev = out.emit(kind="make", op=op, q=q, mats=[nums(x) for x in mats], failed=failed)
    return ev, mats


def recover(op, M, f, conv, m, again=None):
    """conv: from what f returns to the parameters of the definition."""
    M0 = M.copy()
    v, e = run([f], M)
    q, ag = {"mag": m, "pseudo": False}, []
    if not e:
        q2, e2 = call(conv, v[0])
        if e2:
            e = [e2]
        else:
            q.update(q2)
            if again:
                x, e3 = call(again, v[0])
                if e3:
                    e = [e3]
                else:
                    ag = nums(x)
    return out.emit(kind="recover", op=op, M=nums(M0), q=q, again=ag, failed=e)


def unitless(v):
    return v/np.linalg.norm(v)


def translations():
    for i in range(n_(10, 100)):
        d = vec()
        ev, ms = make("translation", both("translation_matrix"), {"d": nums(d)}, mag(d), form(d))
        for M in ms:
            recover("translation", M, tr.translation_from_matrix, lambda r: {"d": nums(r)}, mag(d))
    out.canary(ev, q=dict(ev["q"], d=[bump(ev["q"]["d"][0])]+ev["q"]["d"][1:]))
    make("identity", both("identity_matrix"), {}, "1")


def reflections():
    for i in range(n_(20, 200)):
        p, n = vec(), axis()
        ev, ms = make("reflection", both("reflection_matrix"), {"point": nums(p), "normal": nums(n)}, mag(p), form(p), form(n))
        for M in ms:
            ev = recover("reflection", M, tr.reflection_from_matrix, lambda r: {"point": nums(r[0][:3]), "normal": nums(r[1][:3])}, mag(p),
                    )
            if i == 0:
                out.canary(ev, q=dict(ev["q"], normal=["0.3", "0.4", "-0.1"]))


def rotations():
    for i in range(n_(30, 300)):
        a, d, p = ang(), axis(), (vec() if i % 3 else None)
        args = (a, form(d)) + ((form(p),) if i % 3 else ())
        ev, ms = make("rotation", both("rotation_matrix"), {"angle": num(a), "direction": nums(d), "point": opt(p)}, mag(p), *args)
        for M in ms:
            recover("rotation", M, tr.rotation_from_matrix,
                    lambda r: {"angle": num(r[0]), "direction": nums(r[1][:3]), "point": nums(r[2][:3])}, mag(p, 1e2))
    out.canary(ev, q=dict(ev["q"], angle=bump(ev["q"]["angle"])))


def scales():
    for i in range(n_(40, 400)):
        f = pick([-1., .5, 2., 0., -.3, 1e-3, 40.]) if i % 2 else rng.uniform(-4, 4)
        if i % 5 == 4:      # close to one
            f = 1 + pick([-1, 1])*10**rng.uniform(-6, -2)
        o = vec() if i % 3 else None
        d = axis() if i % 4 < 2 else None
        k = {}
        if o is not None:
            k["origin"] = form(o)
        if d is not None:
            k["direction"] = form(d)
        a = (f,) if i % 2 else (f, k.pop("origin", None), k.pop("direction", None))
        ev, ms = make("scale", both("scale_matrix"), {"factor": num(f), "origin": opt(o), "direction": opt(d)}, mag(o, f), *a, **k)
        if abs(f-1) > 1e-7:
            for M in ms:
                recover("scale", M, tr.scale_from_matrix,
                        lambda r: {"factor": num(r[0]), "origin": nums(r[1][:3]), "direction": opt(r[2])}, mag(o, f))
    out.canary(ev, q=dict(ev["q"], factor=bump(ev["q"]["factor"])))


def rays(r):
    return {"point": nums(r[0][:3]), "normal": nums(r[1][:3]), "direction": opt(r[2]), "perspective": opt(r[3]), "pseudo": bool(r[4])}


def projections():
    fs = both("projection_matrix")
    for i in range(n_(90, 900)):
        p, n, d, c = vec(), axis(), None, None
        if i % 7 == 0:
            p = np.zeros(3)
        u = unitless(n)
        k, m, pseudo = {}, 1., False
        if i % 3 == 1:
            d = axis()
            if abs(d.dot(u)) < .05*np.linalg.norm(d):
                d = d+u*np.linalg.norm(d)
            m = np.linalg.norm(d)/abs(d.dot(u))
            k = {"direction": form(d)}
        elif i % 3 == 2:
            c = vec(spread=1)
            if abs((c-p).dot(u)) < .2:
                c = c+u
                if abs((c-p).dot(u)) < .2:
                    c = c+2*u
            pseudo = i % 2 == 0
            k = {"perspective": form(c)}
            if pseudo:
                k["pseudo"] = True
            m = max(1, 1/abs((c-p).dot(u)))
        q = {"point": nums(p), "normal": nums(n), "direction": opt(d), "perspective": opt(c), "pseudo": pseudo}
        if i % 4 == 0:
            args, k2 = (form(p), form(n), k.get("direction"), k.get("perspective"), k.get("pseudo", False)), {}
        else:
            args, k2 = (form(p), form(n)), k
        ev, ms = make("projection", fs, q, mag(p, c, m), *args, **k2)
        for M in ms:
            # the opposite sign reverses the depth
            M2 = M if rng.random() < .6 or c is None else M*pick([2., .3 if pseudo else -.3])
            ag = (lambda r: fs[0](*r)) if pseudo else None
            r = recover("projection", M2, (lambda M: tr.projection_from_matrix(M, pseudo=True)) if pseudo else tr.projection_from_matrix,
                        rays, mag(p, c, m, 10*m), ag)
    out.canary(ev, q=dict(ev["q"], point=nums(p+u)))
    out.canary(r, q=dict(r["q"], normal=["0.3", "0.4", "-0.1"]))


def clips():
    for i in range(n_(60, 600)):
        persp = i % 2 == 1
        if i % 5 == 0:
            b = nrng.randint(-3, 4, size=6).astype(float)
        else:
            b = nrng.randn(6)
            b[1], b[3] = b[0]+abs(b[1]), b[2]+abs(b[3])
            if persp:
                b[4] = abs(b[4])+.01
            b[5] = b[4]+abs(b[5])+.01
        b = [float(x) for x in b]
        form_ = i % 3
        if form_ == 0:
            ms, e = run(both("clip_matrix"), *b, perspective=persp)
        elif form_ == 1:
            ms, e = run(both("clip_matrix"), *(b+[persp]))
        elif persp:
            ms, e = run(both("clip_matrix"), *b, perspective=1)
        else:
            ms, e = run(both("clip_matrix"), *b)
        w = [abs(b[1]-b[0]), abs(b[3]-b[2]), abs(b[5]-b[4])]
        sp = max(max(abs(x) for x in b)/max(x, 1e-6) for x in w)
        ev = out.emit(kind="clip", bounds=nums(b), perspective=persp, mats=[nums(m) for m in ms], failed=e, mag=num(max(1, sp*sp)))
        if ms and not e:
            good = ev
    out.canary(good, bounds=[num(float(good["bounds"][0])-.1)]+good["bounds"][1:])


def shears():
    for i in range(n_(40, 400)):
        n, p = axis(), vec()
        d = np.cross(n, nrng.randn(3) if i % 2 else axis(.8))
        if np.linalg.norm(d) < 1e-3*np.linalg.norm(n):
            d = np.cross(n, [.3, .5, -.7])
        a = pick([math.pi/4, .1, 1e-3, 0., math.pi, -1.]) if i % 3 == 0 else rng.uniform(-1.4, 1.4)
        ev, ms = make("shear", both("shear_matrix"), {"angle": num(a), "direction": nums(d), "point": nums(p), "normal": nums(n)},
                      mag(p, math.tan(a)), a, form(d), form(p), form(n))
        for M in ms:
            if abs(math.tan(a)) > 1e-6 or a == 0.:
                r = recover("shear", M, tr.shear_from_matrix,
                            lambda r: {"angle": num(r[0]), "direction": nums(r[1][:3]), "point": nums(r[2][:3]), "normal": nums(r[3][:3])},
                            mag(p, math.tan(a)))
    out.canary(ev, q=dict(ev["q"], angle=num(a+.1)))
    for i in range(n_(5, 30)):
        n = axis()
        ms, e = run(both("shear_matrix"), .3, n+1e-2*np.cross(n, [.3, .2, .1])*pick([0, 1]), vec(), n)
        out.emit(kind="refuse", mats=len(ms), failed=e)


def nosuch():
    """Matrices that are no such transformations."""
    G = np.identity(4)
    G[:3, :3] = [[2., .3, .1], [0, 3., .2], [0, 0, 4.]]
    for f in (tr.reflection_from_matrix, tr.rotation_from_matrix, tr.shear_from_matrix):
        ms, e = run([f], G)
        out.emit(kind="refuse", mats=len(ms), failed=e)
    for M in (np.zeros((4, 4)), np.diag([1., 1., 1., 0.]), np.diag([1., 0., 1., 1.])):
        ms, e = run([tr.decompose_matrix], M)
        out.emit(kind="refuse", mats=len(ms), failed=e)


def compositions():
    def o(f, p=.7):
        return f() if rng.random() < p else None
    for i in range(n_(60, 600)):
        sc = o(lambda: nrng.randn(3)+pick([-2, 2]))
        sh = o(lambda: nrng.randn(3))
        an = o(lambda: np.array([ang(), ang(), ang()]))
        t = o(lambda: vec(spread=1))
        pe = o(lambda: np.append(nrng.randn(3)*.3, rng.uniform(.5, 2)), .5)
        if i % 5 == 0:      # nearly nothing in one part
            tiny = 10**rng.uniform(-9, -3)
            c = rng.randrange(5)
            if c == 0:
                sc = rng.uniform(.5, 2)*(1+tiny*nrng.randn(3))
            elif c == 1:
                sh = tiny*nrng.randn(3)
            elif c == 2:
                an = tiny*nrng.randn(3)
            elif c == 3:
                t = tiny*nrng.randn(3)
            else:
                pe = np.append(tiny*nrng.randn(3), rng.uniform(.5, 2))
        parts = {"scale": sc, "shear": sh, "angles": an, "translate": t, "persp": pe}
        if i % 2:
            M, e = call(tr.compose_matrix, sc, sh, an, t, pe)
        else:
            M, e = call(tr.compose_matrix, **{("perspective" if k == "persp" else k): list(v) for k, v in parts.items() if v is not None})
        w = 1.
        if pe is not None and t is not None:
            w = max(1, 1/abs(float(pe[:3].dot(t)+pe[3])))
        rec = {k: [] if v is None else nums(v) for k, v in parts.items()}
        ev = out.emit(kind="compose", op="compose", M=nums(M) if e is None else [], failed=[e] if e else [], tol=num(1e-11*w*w), **rec)
        if e is None and w < 1e3:
            decompose(M)
    out.canary(ev, translate=["7", "8", "9"])
    for i in range(n_(60, 600)):
        M = np.identity(4)
        if i % 3 == 0:
            M = nrng.randn(4, 4)
        else:                               # products ending up at gimbal lock about static y
            sg, a, b = pick([1, -1]), ang(), ang()
            y = math.pi/2*sg+(0 if i % 2 else 10**rng.uniform(-17, -4))
            M = tr._py_euler_matrix(a, y, b)
            Q = np.identity(4)
            Q[:3, :3] = rotation()
            M = Q.T.dot(Q.dot(M))
            if i % 4 == 0:
                U = np.identity(4)
                U[:3, :3] = np.triu(nrng.randn(3, 3))+np.diag([2., 2., 2.])
                M = M.dot(U)
            M[:3, 3] = vec(spread=1)
        ev = decompose(M)
    for i in range(n_(12, 60)):         # all but the identity: one entry or row is a little off
        M = np.identity(4)
        tiny = 10**rng.uniform(-9, -3)
        if i % 3 == 0:
            M[3, :3] = tiny*nrng.randn(3)
        elif i % 3 == 1:
            M[rng.randrange(4), rng.randrange(3)] += tiny
        else:
            M[:3, :3] = rotation()
            M[3, rng.randrange(3)] = tiny
        decompose(M)
    out.canary(ev, angles=[num(float(ev["angles"][0])+.1)]+ev["angles"][1:])


def decompose(M):
    M = M.copy()
    v, e = run([tr.decompose_matrix], M)
    r = v[0] if v else [[]]*5
    c = np.linalg.cond(M/M[3, 3])*np.linalg.cond(M[:3, :3])
    return out.emit(kind="decompose", op="decompose", M=nums(M), scale=nums(r[0]), shear=nums(r[1]), angles=nums(r[2]), translate=nums(r[3]),
                    persp=nums(r[4]), failed=e, tol=num(max(1e-11, 1e-13*c*c)))


def products():
    for i in range(n_(10, 60)):
        ms = [nrng.randn(4, 4) for j in range(rng.randrange(6))]
        M, e = call(tr.concatenate_matrices, *ms)
        ev = out.emit(kind="concat", ms=[nums(m) for m in ms], M=nums(M), mag=num(max([1]+[np.prod([np.abs(m).max()*2 for m in ms])])))
    out.canary(ev, ms=ev["ms"][1:]+[nums(nrng.randn(4, 4))])
    for i in range(n_(60, 600)):
        n = i % 7+1
        c = rng.random()
        M = nrng.randn(n, n) if c < .5 else nrng.randint(-3, 4, size=(n, n)).astype(float)
        if c < .15:
            M = M*10**rng.uniform(-9, 9)
        singular = np.linalg.matrix_rank(M) < n
        if np.linalg.cond(M) > 1e8 and not singular:
            continue
        if .9 < c:
            M = np.zeros((n, n))
            singular = True
        M = M if i % 3 else np.asfortranarray(M)
        v, e = run(both("inverse_matrix"), M if i % 2 else M.tolist())
        if not singular:
            ev = out.emit(kind="inverse", M=nums(M), inv=[nums(x) for x in v], failed=e)
        elif .9 < c:
            out.emit(kind="refuse", mats=len(v), failed=e)
    # singular ones decided without rounding
    for M in ([[1., 2], [2, 4]], [[1., 2, 3], [2, 4, 6], [1, 0, 1]], np.diag([1., 1, 0, 1]).tolist(), np.diag([1., 1, 1, 1, 0]).tolist(),
              np.diag([1., 0, 1, 1, 1, 2]).tolist(), [[0.]], [[1., 1, 1, 1, 1]]*5):
        v, e = run(both("inverse_matrix"), M)
        out.emit(kind="refuse", mats=len(v), failed=e)
    out.canary(ev, inv=[[[bump(x) for x in r] for r in ev["inv"][0]]])
    for i in range(n_(20, 100)):
        M = nrng.randn(4, 4)
        M[3, 3] = pick([1., -2., .3])
        for f in both("is_same_transform"):
            a = call(f, M, M*pick([1., 3., -.5]))
            N = M.copy()
            r, c = rng.randrange(4), rng.randrange(4)
            N[r, c] += pick([.1, -.1])*(2. if (r, c) == (3, 3) else 1.)
            b = call(f, M, N)
            ev = out.emit(kind="same", same=[bool(a[0]) and a[1] is None, bool(b[0]) or b[1] is not None], want=[True, False])
    out.canary(ev, same=[False, False])


def fits():
    for i in range(n_(120, 1500)):
        d = 3 if i % 3 else pick([2, 3, 4])
        n = rng.randrange(d+1, d+9)
        c = rng.random()
        v0 = nrng.randn(d, n)*10**pick([rng.uniform(-2, 2), rng.uniform(-2, 2), -6, -9, 6]) if c < .7 else nrng.randint(-3, 4, size=(d, n)).astype(float)
        flat_ = c > .9 and d == 3 and i % 4
        sh = rng.random() < .3
        if flat_:
            v0[2] = v0[0]-.5*v0[1]            # in a plane
        if np.linalg.matrix_rank(v0-v0.mean(1)[:, None]) < (2 if flat_ else d):
            continue
        scale = rng.random() < .5
        if sh:
            A = nrng.randn(d, d)
            if np.linalg.cond(A) > 30:
                continue
        else:
            A = np.linalg.qr(nrng.randn(d, d))[0]
            if np.linalg.det(A) < 0:
                A[0] *= -1
            if d == 3 and rng.random() < .4:
                A = rot()[:3, :3]
                if rng.random() < .4:       # nearly none
                    A = tr.rotation_matrix(10.**rng.uniform(-9, -3), nrng.randn(3))[:3, :3]
            if scale:
                A = A*(rng.uniform(.2, 4) if i % 4 else 1 + pick([-1, 1])*10**rng.uniform(-7, -3))
        exact = rng.random() < .6 or sh
        size = np.abs(v0-v0.mean(1)[:, None]).max()
        if sh and rng.random() < .2:
            A = np.eye(d) + nrng.randn(d, d)*10.**rng.uniform(-8, -4)
        v1 = A.dot(v0)+nrng.randn(d, 1)*size*pick([0, 0, 1, 10, 1e-7, 1e-5])
        tol = 1e-8
        if not exact:
            v1 = v1+nrng.randn(d, n)*size*10**rng.uniform(-3, -.5)
            if rng.random() < .3:
                v1[0] *= -1                    # a mirror image is not a rotation
            s = np.linalg.svd((v1-v1.mean(1)[:, None]).dot((v0-v0.mean(1)[:, None]).T))[1]
            if d == 3 and s[1]-s[2] < .05*s[0] or d > 3:
                continue
        if exact:
            tol = 1e-10
        shear = sh
        fs = [lambda a, b: tr.affine_matrix_from_points(a, b, shear=shear, scale=scale, usesvd=True)]
        if not sh:
            if d == 3:
                fs += [lambda a, b: tr.affine_matrix_from_points(a, b, False, scale, False)]
                for f in both("superimposition_matrix"):
                    fs += [lambda a, b, f=f: f(a, b, scale, True), lambda a, b, f=f: f(a, b, scale=scale, usesvd=False),
                           lambda a, b, f=f: f(np.vstack([a, np.ones(n)]), np.vstack([b, np.ones(n)]), scale=scale)]
                    if not scale:
                        fs += [lambda a, b, f=f: f(a, b), lambda a, b, f=f: f(a.tolist(), b.tolist())]
        elif i % 2:
            fs += [lambda a, b: tr.affine_matrix_from_points(a, b)]
        if i % 5 == 0:
            v0, v1 = np.asfortranarray(v0), np.asfortranarray(v1)
        ms, e = run(fs, v0, v1)
        ev = out.emit(kind="fit", v0=nums(v0), v1=nums(v1), shear=sh, scale=bool(scale), exact=exact, mats=[nums(m) for m in ms], failed=e,
                      tol=num(tol), mag=num(max(np.abs(v0).max(), np.abs(v1).max())))
        if not sh and d == 3:
            good = ev
    m = np.array(good["mats"][0], float)
    r = np.identity(4)
    r[:2, :2] = [[math.cos(.01), -math.sin(.01)], [math.sin(.01), math.cos(.01)]]
    out.canary(good, mats=[nums(m.dot(r))])
    out.canary(good, mats=[nums(np.diag([1, 1, -1, 1]).dot(m))])
    for a, b in ((np.zeros((1, 4)), np.zeros((1, 4))), (np.zeros((3, 4)), np.zeros((3, 5))), (np.zeros((3, 4)), np.zeros((2, 4)))):
        ms, e = run([tr.affine_matrix_from_points]+both("superimposition_matrix"), a, b)
        out.emit(kind="refuse", mats=len(ms), failed=e)


def cellm():
    for i in range(n_(20, 200)):
        l = nrng.rand(3)*10**rng.uniform(-1, 2)+.01
        while True:
            a = np.array([pick([60., 90., 120., 45.]) if rng.random() < .3 else rng.uniform(30, 150) for j in range(3)])
            c = np.cos(np.radians(a))
            if 1-c.dot(c)+2*c.prod() > .05:
                break
        ms, e = run(both("orthogonalization_matrix"), form(l)[:3], form(a)[:3])
        ev = out.emit(kind="cell", lengths=nums(l), angles=nums(a), mats=[nums(m) for m in ms], failed=e)
    out.canary(ev, angles=[bump(ev["angles"][0])]+ev["angles"][1:])


def vectors():
    for i in range(n_(60, 600)):
        nd = rng.randrange(1, 4)
        shp = tuple(rng.randrange(1, 6) for j in range(nd))
        x = nrng.randn(*shp)*10**rng.uniform(-3, 3)
        if i % 6 == 0:
            x = x.round()+7.
            x[x == 0] = 1.
        ax = None if nd == 1 and i % 2 else rng.randrange(-nd, nd)
        y = x
        if i % 4 == 1:
            y = np.asfortranarray(x)
        if i % 4 == 2 and (x == x.round()).all():
            y = x.astype(int)
        if i % 4 == 3 and nd > 1:
            y = np.moveaxis(np.moveaxis(x, -1, 0).copy(), 0, -1)
        if ax is None:
            lines = [nums(x.ravel())]
            v1, e1 = run(both("vector_norm"), y)
            v2, e2 = run(both("unit_vector"), y)
            nr, un, ok = [flat(v) for v in v1], [[nums(v.ravel())] for v in v2], all(np.ndim(v) == 0 for v in v1) and all(np.shape(v) == shp for v in v2)
        else:
            to = lambda v: nums(np.moveaxis(np.asarray(v), ax, -1).reshape(-1, shp[ax]))
            lines = to(x)
            v1, e1 = run(both("vector_norm"), y, axis=ax)
            v2, e2 = run(both("unit_vector"), y, axis=ax)
            o1 = [np.empty(shp[:ax % nd]+shp[ax % nd+1:]) for j in both("vector_norm")]
            o2 = [np.empty(shp) for j in both("unit_vector")]
            if nd > 1:
                for f, o in zip(both("vector_norm"), o1):
                    r, e = call(f, y, axis=ax, out=o)
                    e1 += [e] if e else (["returned"] if r is not None else [])
                v1 = v1+o1
            for f, o in zip(both("unit_vector"), o2):
                r, e = call(f, y, axis=ax, out=o)
                e2 += [e] if e else (["returned"] if r is not None else [])
            v2 = v2+o2
            # in place
            for f in both("unit_vector"):
                z = x.copy()
                r, e = call(f, z, axis=ax, out=z)
                e2 += [e] if e else []
                v2.append(z)
            shs = shp[:ax % nd]+shp[ax % nd+1:]
            ok = all(np.shape(v) == shs for v in v1 if nd > 1) and all(np.shape(v) == shp for v in v2)
            nr, un = [flat(v) for v in v1], [to(v) for v in v2] if ok else []
        ev = out.emit(kind="norm", lines=lines, norms=nr, units=un, shapes=bool(ok), failed=e1+e2)
    out.canary(ev, norms=[[bump(x) for x in ev["norms"][0]]])
    out.canary(ev, units=[[[bump(x) for x in l] for l in ev["units"][0]]])
    for i in range(n_(30, 300)):
        n = rng.randrange(1, 6)
        a = np.array([axis() for j in range(n)])
        b = np.array([pick([axis(), a[j]*pick([1, -2, .1]), np.cross(a[j], axis()) + 0]) for j in range(n)])
        b[~b.any(1)] = 1.
        di = bool(rng.randrange(2))
        if n == 1:
            c, e1 = run([tr.vector_product], a[0], b[0])
            g, e2 = run([tr.angle_between_vectors], a[0], b[0], *([] if di else [False]))
            c, g = [[nums(x)] for x in c], [[num(x)] for x in g]
        elif i % 2:
            c, e1 = run([tr.vector_product], a, b, 1)
            g, e2 = run([tr.angle_between_vectors], a, b, di, 1)
            c, g = [nums(x) for x in c], [nums(x) for x in g]
        else:
            c, e1 = run([tr.vector_product], a.T, b.T)
            g, e2 = run([tr.angle_between_vectors], a.T, b.T, directed=di)
            c, g = [nums(x.T) for x in c], [nums(x) for x in g]
        ev = out.emit(kind="pair", a=nums(a), b=nums(b), cross=c[0] if c else [], angle=g[0] if g else [], directed=di, failed=e1+e2)
    out.canary(ev, angle=[bump(ev["angle"][0], .1)]+ev["angle"][1:])
    for size in (1, 7, 1000):
        v, e = run(both("random_vector"), size)
        w = call(both("random_vector")[0], size)[0]
        ok = all(np.shape(x) == (size,) for x in v) and (size < 3 or len(set(np.concatenate([v[0], w]))) == 2*size)
        ev = out.emit(kind="uniform", v=[num(x) for y in v for x in y][:50]+[num(max(y.max() for y in v)), num(min(y.min() for y in v))], shapes=bool(ok), failed=e)
    out.canary(ev, v=["1.0"])


for f in (translations, reflections, rotations, scales, projections, clips, shears, nosuch, compositions, products, fits, cellm, vectors):
    f()
