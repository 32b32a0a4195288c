"""Grid electrodes and grids (P14, P15, P16)."""
import sys
from drvlib import *
electrode, em, gr = load("electrode", "electrode.electrode", "electrode.grid")
out = Out()
mode = sys.argv[1]


def n_(q, t):
    return t if THOROUGH else q


if mode == "P14":
    for t in range(n_(90, 500)):
        sh = pick([(3, 4, 5), (2, 2, 2), (4, 2, 3), (1, 3, 2), (2, 5, 1), (3, 3, 3)])
        n = t % 6
        origin = np.round(nrng.randn(3)*pick([1, 10]), 3)
        spacing = pick([np.array([1., 1., 1.]), np.array([.3, 1.7, .05]), np.round(nrng.rand(3)+.1, 3), np.array([1., .5, -.25])])
        if t % 5 == 4:
            u = pick([1e-6, 1e-3, 1e4])
            origin, spacing = origin*u, spacing*u
        data = [nrng.randn(*sh, 2*i+1)*10.**rng.randrange(-3, 4) for i in range(6)]
        if t % 7 == 3:
            data = [np.round(d/np.abs(d).max()*9).astype(int) for d in data]
        o2, s2 = pick([(origin, spacing), (tuple(origin), list(spacing))])
        e = em.GridElectrode(data=data if t % 2 else [d.copy(order="F") for d in data], origin=o2, spacing=s2)
        what = ["inside", "gridpoint", "outside", "face"][t % 4]
        q = nrng.rand(3, 3)*(np.array(sh)-1)
        if what == "gridpoint":
            q = np.round(q)
        elif what == "outside":
            q = q + nrng.choice([-3.3, 0, 4.7, 1e3], (3, 3))*1.
        elif what == "face":
            q[0] = [0, 0, sh[2]-1]
            q[1, :2] = [sh[0]-1, sh[1]-1]
            q[2] = np.floor(q[2]) + [0, .5, 1e-6]
        x = origin + q*spacing
        x = x[:rng.randrange(1, 4)]
        v = pick([1., 1., -2.5, 0.])
        if t % 6 == 1:      # an electrode that had other data and another place
            inplace = rng.random() < .5
            e = em.GridElectrode(data=[np.array(d)*-3. + 1 for d in data], origin=origin + spacing, spacing=spacing*2)
            call(lambda: [e.potential(x, i) for i in range(6)])
            if inplace:
                for a, b in zip(e.data, data):
                    a[:] = b
                e.origin[:], e.spacing[:] = origin, spacing
            else:
                e.data[:] = [np.array(d, float) for d in data]
                e.origin, e.spacing = np.array(origin), np.array(spacing)
        y, at = layout(x), list(range(len(x)))
        if t % 5 == 2:      # many points at once
            y = origin + nrng.uniform(-1, 6, (pick([50, 700, 1001, 1025, 4097]), 3))*spacing
            at = sorted(rng.sample(range(len(y)), len(x)))
            if rng.random() < .5:
                at[-1] = len(y)-1
            y[at] = x
        got, exc = call(lambda: e.potential(y, n, v)[at])
        ev = out.emit(kind="interp", what=what, exc=exc or "no", n=n, shape=list(sh), data=flat(data[n]), origin=nums(origin), spacing=nums(spacing),
                      x=nums(x), v=num(v), got=nums(got), gshape=shape(got))
        if t in (4, 5, 6) and not exc:
            bad = nums(got)
            bad[0][0] = bump(bad[0][0])
            out.canary(ev, got=bad)

if mode == "P15":
    def gen(e, data, m, kind="generate", canary=False, **kw):
        before = [flat(d) for d in data]
        sh = list(data[0].shape[:3])
        keep = [np.array(d) for d in data]

        def f():
            e.generate(m)
            return dict(after=[flat(d) for d in e.data], ashape=[shape(d) for d in e.data],
                        untouched=[bool(np.array_equal(a, b)) for a, b in zip(keep, data)])
        v, exc = call(f)
        ev = out.emit(kind=kind, exc=exc or "no", before=before, max=m, shape=sh, spacing=nums(e.spacing), origin=nums(e.origin), **dict(v or {}, **kw))
        if canary and v:
            bad = json.loads(json.dumps(v["after"]))
            i = max(range(len(bad[-1])), key=lambda j: abs(float(bad[-1][j])))
            bad[-1][i] = bump(bad[-1][i])
            out.canary(ev, after=bad)
        return v

    for t in range(n_(36, 200)):
        sh = pick([(3, 4, 5), (3, 3, 3), (2, 3, 4), (5, 2, 3)])
        g = 1 + t % 3
        data = [layout(nrng.randn(*sh, 2*i+1)) for i in range(g)]
        e = em.GridElectrode(data=list(data), origin=nrng.randn(3), spacing=pick([(1., 1., 1.), (.5, .2, 3.), tuple(nrng.rand(3)+.1), tuple(1e-6*(nrng.rand(3)+.1)), (2, 1, 3), (3e-9, 1e-9, 7e-9), (2e-6, 1e-6, 2e-6), (1., 1.+1e-6, 1.), (1e3, 1e3, 1e-6)]))
        gen(e, data, pick([0, 1, 2, 3, 5]) if t % 2 else pick([4, 5, 6]), canary=t in (7, 9))
    for t in range(n_(12, 60)):     # a second call adds what is missing
        sh = (3, 4, 3)
        d0 = nrng.randn(*sh, 1)
        e = em.GridElectrode(data=[d0*10.**-(t % 16)], spacing=pick([(.5, .4, 2.), (5e-10, 4e-10, 2e-9)]))
        v, exc = call(e.generate, 2)
        if exc:
            out.emit(kind="generate", exc=exc)
            continue
        gen(e, list(e.data), pick([1, 3, 5]))
    for t in range(n_(20, 80)):     # harmonic quadratic
        sh = pick([(5, 5, 5), (6, 5, 7)])
        H = nrng.randn(3, 3)
        H = H + H.T
        H -= np.eye(3)*np.trace(H)/3
        g, c = nrng.randn(3), nrng.randn()
        o, s = nrng.randn(3), pick([np.array([1., 1., 1.]), np.array([.5, .2, 3.]), nrng.rand(3)+.1])
        x = o + np.moveaxis(np.indices(sh), 0, -1)*s
        pot = c + x.dot(g) + .5*np.einsum("...i,ij,...j", x, H, x)
        data = [pot[..., None]]
        e = em.GridElectrode(data=list(data), origin=o, spacing=s)

        def f():
            e.generate(4)
            return dict(after=[flat(d) for d in e.data])
        v, exc = call(f)
        ev = out.emit(kind="exact", exc=exc or "no", shape=list(sh), origin=nums(o), spacing=nums(s), grad=nums(g),
                      hess=nums(H[[0, 0, 0, 1, 1], [0, 1, 2, 1, 2]]), **(v or {}))
        if v and t == 0:
            i = ((2*sh[1]+2)*sh[2]+2)*5+3
            bad = json.loads(json.dumps(v["after"]))
            bad[2][i] = bump(bad[2][i])
            out.canary(ev, after=bad)

    class Res(object):
        pass
    for t in range(n_(20, 80)):
        sh = pick([(3, 4, 5), (4, 3, 2)])
        r = Res()
        c, s = nrng.randn(3), nrng.rand(3)+.1
        r.grid = gr.Grid(center=c, step=s, shape=sh)
        r.potential = nrng.randn(*sh)
        r.field = nrng.randn(3, *sh) if t % 2 else None
        if t % 8 == 3:      # a field that is zero, nearly zero or not a gradient of the potential
            r.field *= pick([0., 0., 1e-9, 1e-14])
        if t % 8 == 5:
            r.potential *= pick([0., 1e-12])
        if t % 8 == 7:
            r.field[rng.randrange(3)] = 0
        m = pick([1, 2, 4])
        hold = [r.potential.copy(), None if r.field is None else r.field.copy()]

        def f():
            e = em.GridElectrode.from_result(r, m) if t % 4 < 2 else em.GridElectrode.from_result(r, maxderiv=m)
            return dict(after=[flat(d) for d in e.data], ashape=[shape(d) for d in e.data], origin=nums(e.origin), spacing=nums(e.spacing))
        v, exc = call(f)
        fl = None if r.field is None else flat(np.moveaxis(r.field, 0, -1))
        before = [flat(r.potential)] + ([fl] if fl else [])
        same = np.array_equal(hold[0], r.potential) and (r.field is None or np.array_equal(hold[1], r.field))
        out.emit(kind="result", exc=exc or "no", pot=flat(r.potential), field="none" if fl is None else "given", fieldlast=fl or [], max=m, shape=list(sh), before=before,
                 gorigin=nums(c-(np.array(sh)-1)/2.*s), step=nums(s), untouched=[bool(same)]*2, **(v or {}))
    r = Res()
    r.grid, r.potential, r.field = gr.Grid(center=(0, 0, 0), step=(1, 1, 1), shape=(3, 3, 3)), nrng.randn(3, 3, 3), None
    v, exc = call(lambda: len(em.GridElectrode.from_result(r).data))
    out.emit(kind="equal", what="default_orders", exc=exc or "no", a=v, b=4)

    # a VTK file, as a stand-in for the reader (not installed) describes it
    import types, tempfile, shutil
    FILES = {}

    class Arr(object):
        def __init__(self, a, nc):
            self.a, self.number_of_components = a, nc

        def to_array(self):
            return np.array(self.a)

    class Points(object):
        def __init__(self, arrays):
            self.a = arrays
            self.number_of_arrays = len(arrays)

        def get_array_name(self, i):
            return self.a[i][0]

        def get_array(self, i):
            return Arr(self.a[i][2], self.a[i][1])

    class Reader(object):
        def __init__(self, file_name):
            self.f, self.ready = file_name, False

        def update(self):
            self.ready = True

        def get_output(self):
            assert self.ready
            return FILES[self.f]
    tv = types.ModuleType("tvtk")
    tv.api = types.ModuleType("tvtk.api")
    tv.api.tvtk = types.SimpleNamespace(StructuredPointsReader=Reader)
    sys.modules["tvtk"], sys.modules["tvtk.api"] = tv, tv.api
    scratch = tempfile.mkdtemp()
    try:
        for t in range(n_(24, 120)):
            sh = pick([(3, 4, 5), (4, 3, 2), (2, 5, 3)])
            path = os.path.join(scratch, pick(["a.vtk", "DC 1.vtk", "x.y.vtk"]))
            open(path, "w").close()
            names = [("potential", 1)] + [("field", 3)]*(t % 2) + [("DC1_pondpot", 1)]*(t % 3 == 0) + [("pseudopotential", 1), ("field_old", 3)]*(t % 5 == 0)
            if t > 3:
                rng.shuffle(names)
            arrays = [(n, nc, nrng.randn(np.prod(sh), nc).astype(pick([float, float, np.float32]))) for n, nc in names]
            arrays = [(n, nc, a if nc > 1 or t % 4 else a[:, 0]) for n, nc, a in arrays]
            o, s = nrng.randn(3), nrng.rand(3)+.1
            f = Points(arrays)
            FILES[path] = types.SimpleNamespace(point_data=f, spacing=np.array(s), origin=np.array(o), dimensions=np.array(sh))
            m = pick([1, 2, 4])

            def f():
                e = em.GridElectrode.from_vtk(path, m) if t % 4 else em.GridElectrode.from_vtk(path, maxderiv=m)
                return dict(after=[flat(d) for d in e.data], ashape=[shape(d) for d in e.data], gorigin=nums(e.origin), gspacing=nums(e.spacing))
            v, exc = call(f)
            g = {n: np.asarray(a, float).reshape(sh[::-1]+(-1,)).transpose(2, 1, 0, 3) for n, nc, a in arrays}
            ev = out.emit(kind="vtk", exc=exc or "no", file=[dict(name=n, nc=nc, data=flat(a)) for n, nc, a in arrays], max=m, shape=list(sh),
                          origin=nums(o), spacing=nums(s), before=[flat(g[n]) for n in ("potential", "field") if n in g], untouched=[True]*2, **(v or {}))
            if v and t == 1:
                out.canary(ev, gorigin=[bump(i) for i in ev["gorigin"]])
                out.canary(ev, gspacing=ev["gspacing"][::-1])
                out.canary(ev, after=[a[::-1] for a in ev["after"]])
        for f in [scratch, os.path.join(scratch, "none.vtk"), os.path.join(scratch, "a.txt")]:
            if f.endswith("txt"):
                open(f, "w").close()
            v, exc = call(em.GridElectrode.from_vtk, f)
            out.emit(kind="equal", what="no_file", exc="no", a=exc or "no", b="FileNotFoundError")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if mode == "P16":
    for t in range(n_(60, 300)):
        d = (3 if t % 5 else 2) if t % 11 != 5 else pick([1, 4])
        sh = tuple(int(i) for i in nrng.randint(1, 6, d)) if t % 3 else (pick([2, 3, 4]),)*d
        c = np.round(nrng.randn(d)*pick([0, 1, 50]), 3)
        s = np.round(nrng.rand(d)+.05, 4) if t % 2 else np.full(d, .5)
        if t % 10 == 6:     # whole numbers, other units
            c, s = np.round(c).astype(int), nrng.randint(1, 4, d)
        elif t % 10 == 9:
            c, s = c*1e-6, s*1e-6
        if t % 7 == 4:      # an axis counted backwards
            s = s*np.array([pick([1, -1]) for _ in range(d)])
        kc, ks, ksh = [(c, s, sh), (tuple(c), tuple(s), list(sh)), (c, s, np.array(sh))][t % 3]
        g = gr.Grid(center=kc, step=ks, shape=ksh)
        if t % 4 == 3:      # a grid that was another one before
            g = gr.Grid(center=np.array(kc)+1, step=np.array(ks)*2, shape=(3,)*d if t % 8 == 3 else ksh)
            call(lambda: [g.to_slices(), g.to_mgrid(), g.to_points(), g.to_xyz(), g.get_origin(), g.indices_to_coordinates(np.zeros((1, d)))])
            g.center, g.step, g.shape = np.array(c), np.array(s), np.array(sh) if isinstance(g.shape, np.ndarray) else tuple(sh)

        def f():
            sl = g.to_slices()
            mg = g.to_mgrid()
            return dict(origin=nums(g.get_origin()), points=nums(g.to_points()), mshape=shape(mg), mesh=[flat(m) for m in mg],
                        axes=[nums(a) for a in g.to_xyz()],
                        slices=[dict(start=num(q.start), stop=num(q.stop), num=num(abs(q.step))) for q in sl])
        v, exc = call(f)
        base = dict(center=nums(c), step=nums(s), shape=list(sh))
        ev = out.emit(kind="grid", exc=exc or "no", **dict(v or {}, **base))
        if v and t in (1, 2):
            out.canary(ev, axes=v["axes"][::-1])
            out.canary(ev, points=v["points"][::-1])
        idx = np.array([nrng.randint(0, h, 4) for h in sh]).T.astype(float) if t % 2 else nrng.randn(3, d)*5
        if t % 3 == 1:      # close to the grid's points, but not at them
            idx = np.rint(idx) + nrng.choice([-1, 1], idx.shape)*10**nrng.uniform(-11, -4, idx.shape)

        def f2():
            if t % 4 < 2:
                co = g.indices_to_coordinates(idx)
                return co, g.coordinates_to_indices(co)
            co = [g.indices_to_coordinates(i) for i in idx]
            return np.array(co), np.array([g.coordinates_to_indices(i) for i in co])
        v, exc = call(f2)
        ev = out.emit(kind="index", exc=exc or "no", idx=nums(idx), coord=nums(v[0]) if v else [], back=nums(v[1]) if v else [],
                      same=bool(v and v[0].shape == idx.shape == v[1].shape), **base)
        if v and t == 3:
            out.canary(ev, coord=nums(v[0] + s*.5))
    for t in range(n_(10, 40)):
        p = nrng.randn(3, rng.randrange(1, 6))
        def f3():
            u = gr.UnstructuredGrid(p if t % 2 else p.tolist())
            return [nums(u.to_points()), shape(u.to_points()), list(u.shape)]
        v, exc = call(f3)
        out.emit(kind="equal", what="unstructured", exc=exc or "no", a=v, b=[nums(p.T), [p.shape[1], 3], [p.shape[1]]])
