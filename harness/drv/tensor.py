"""Tensor utilities: names, expansion, rotation, spherical harmonics."""
import sys, itertools
from drvlib import *
u = load("electrode.utils")
out = Out()
mode = sys.argv[1]
ax = lambda s: ["xyz".index(c) for c in s]


def rec(kind, exc, arrs, before, **kw):
    ch = any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(arrs, before))
    return out.emit(kind=kind, exc=exc or "no", changed=bool(ch), **kw)


def rand(shape, scale=None):
    s = 10.**rng.randrange(-6, 7) if scale is None else scale
    if scale is None and rng.random() < .25:      # other units
        s = 10.**pick([-20, -16, -13, -10, 9, 12, 20])
    a = nrng.randn(*shape)*s
    if scale is None and len(shape) > 1 and rng.random() < .25:      # points of different sizes
        a *= 10.**nrng.randint(-12, 3, shape[:1] + (1,)*(len(shape)-1))
    return a


if mode == "P05":
    for n in range(0, 6):
        for t in itertools.product(range(3), repeat=n):
            def f():
                nm = "".join("xyz"[i] for i in t)
                red = u.deriv_to_reduced_idx(nm)
                if isinstance(red, tuple):
                    r = {"sign": -1, "of": [int(i) for i in red]}
                else:
                    r = {"sign": 1, "of": [int(red)]}
                return dict(n2i=list(u.name_to_idx(nm)), i2n=ax(u.idx_to_name(t)), nidx=int(u.idx_to_nidx(t)),
                            lap=[[list(a), list(b)] for a, b in u.find_laplace(t)], red=r)
            v, exc = call(f)
            rec("names", exc, [], [], t=list(t), **(v or {}))
        for i in range(2*n+1):
            def f():
                nm = u.deriv_to_name(n, i)
                o, j = u.name_to_deriv(nm)
                d = dict(name=ax(nm), back=[int(o), int(j)], cd={"n": 0, "i": 0, "a": 0})
                if n:
                    (a, b), c = u.construct_derivative(n, i)
                    d["cd"] = {"n": int(a), "i": int(b), "a": int(c)}
                return d
            v, exc = call(f)
            e = rec("component", exc, [], [], n=n, i=i, **(v or {}))
            if (n, i) == (3, 2):
                out.canary(e, back=[3, 1])
        for trial in range(20 if THOROUGH else 4):
            for batch in [(1,), (4,), (3,), (), (2, 3), (1, 3, 2), (0,)] + [[(3, 3), (1, 1, 1)], [(2*n+1,)], [(3, 3, 3)], [(150,)]][trial % 4]:
                if batch == () and n == 0:
                    pass
                c = rand(batch + (2*n+1,))
                if trial % 4 == 2:
                    c = np.round(c/np.abs(c).max()*99) if c.size else c
                if trial == 3 and c.size:
                    c = c*(nrng.rand(*c.shape) < .5)
                if batch != (0,):
                    c = layout(c)
                c0 = c.copy()
                if trial % 4 == 1:      # the tensor of a complex potential
                    im = pick([0, 1])
                    z = layout([c + 1j*rand(c.shape), rand(c.shape) + 1j*c][im])
                    d, exc = call(lambda: [np.real, np.imag][im](u.expand_tensor(z, n)))
                else:
                    d, exc = call(u.expand_tensor, c, *([n] if trial % 2 else []))
                e = rec("expand", exc, [c], [c0], n=n, batch=list(batch),
                        c=nums(c.reshape(-1, 2*n+1)), shape=shape(d) if exc is None else [],
                        d=nums(np.reshape(d, (-1, 3**n))) if exc is None else [])
                if n == 4 and batch == (4,) and not trial:
                    bad = json.loads(json.dumps(e["d"]))
                    bad[1][37] = bump(bad[1][37], 1e-9)
                    out.canary(e, d=bad)
                if batch == (0,):
                    continue
                full = rand(batch + (3,)*n)
                if trial % 2 == 0 and exc is None:
                    full = np.array(d)
                full = layout(full)
                f0 = full.copy()
                kw = {} if (len(batch) == 1 and trial % 2) else {"order": n}
                s, exc = call(u.select_tensor, full, **kw)
                if n == 0 and exc is None and np.shape(s) == batch:
                    s = s.reshape(batch + (1,))   # a scalar has no axis to select from
                rec("select", exc, [full], [f0], n=n, batch=list(batch), c=nums(full.reshape(-1, 3**n)),
                    shape=shape(s) if exc is None else [], d=nums(np.reshape(s, (-1, 2*n+1))) if exc is None else [])

if mode == "P06":
    for n in range(0, 6):
        for trial in range(30 if THOROUGH else 8):
            r = [rotation(), rand((3, 3), 1.), np.eye(3), np.diag([2., -1, .5]),
                 np.eye(3)[[1, 2, 0]], np.array([[1., 2, 3], [4, 5, 6], [7, 8, 9]])][trial % 6]
            if trial % 6 == 2 and (n + trial//6) % 2:     # close to no rotation
                th = 10.**-(3 + (2*n + trial//6) % 7)
                r = np.array([[np.cos(th), -np.sin(th), 0], [np.sin(th), np.cos(th), 0], [0, 0, 1.]])
                r = r[[0, 2, 1]][:, [0, 2, 1]] if n % 4 == 1 else r
            batch = [(2,), (3,), (1,), (3, 3), (2, 1), (3, 3, 3), (40,), (3,)][trial % 8]
            if n > 3 and len(batch) == 3:
                batch = (3, 1, 1)
            if trial == 7:
                batch = (0,)
            c = rand(batch + (3,)*n)
            if trial == 3:      # sums of many equal terms, integers
                c = np.round(c/np.abs(c).max()*9)
            if trial == 5 and batch:
                c = c.astype(int) if np.all(c == np.round(c)) else np.round(c/np.abs(c).max()*9).astype(int)
            c, r = layout(c), layout(r) if trial % 2 else r.T.copy().T
            c0, r0 = c.copy(), r.copy()
            kw = {} if len(batch) == 1 and trial % 2 else {"order": n}
            d, exc = call(u.rotate_tensor, c, r, **kw)
            e = rec("rotate", exc, [c, r], [c0, r0], n=n, r=nums(r), c=nums(c.reshape(-1, 3**n)), inshape=shape(c),
                    shape=shape(d) if exc is None else [], d=nums(np.reshape(d, (-1, 3**n))) if exc is None else [])
            if n == 3 and trial == 0:
                bad = json.loads(json.dumps(e["d"]))
                bad[1][5] = bump(bad[1][5], 1e-9)
                out.canary(e, d=bad)
            if exc is None and batch != (0,):
                q = rotation()
                a, e1 = call(lambda: u.rotate_tensor(u.rotate_tensor(c, r, n), q, n))
                b, e2 = call(lambda: u.rotate_tensor(c, r.dot(q), n))
                rec("equal", e1 or e2, [], [], what="composition", a=flat(a), b=flat(b), tol="1e-11")

if mode == "P07":
    for n in range(0, 6):
        for i in range(2*n+1):    # each component on its own, and random points
            c = np.eye(2*n+1)[:, i:i+1]
            d, exc = call(u.cartesian_to_spherical_harmonics, c)
            e = rec("spherical", exc, [], [], n=n, c=nums(c.T), d=nums(np.transpose(d)) if exc is None else [])
            if n == 4 and i == 5:
                bad = json.loads(json.dumps(e["d"]))
                bad[0][2] = bump(bad[0][2], 1e-9)
                out.canary(e, d=bad)
        for trial in range(10 if THOROUGH else 3):
            c = layout(rand((2*n+1, pick([1, 3, 5, 2*n+1, 60]))))
            if trial == 2:
                c = np.round(c/np.abs(c).max()*9).astype(int)
            c0 = c.copy()
            d, exc = call(u.cartesian_to_spherical_harmonics, c)
            rec("spherical", exc, [c], [c0], n=n, c=nums(c.T), d=nums(np.transpose(d)) if exc is None else [])
            if exc is None:
                # rotating the frame keeps the norm of the coefficients
                r = rotation()
                c2 = u.select_tensor(u.rotate_tensor(u.expand_tensor(c.T, n), r, n), n).reshape(-1, 2*n+1).T
                d2, e2 = call(u.cartesian_to_spherical_harmonics, c2)
                rec("equal", e2, [], [], what="rotation_invariance", a=flat((d**2).sum(0)),
                    b=flat((d2**2).sum(0)) if e2 is None else [], tol="1e-12")
