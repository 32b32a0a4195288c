"""The trackball: replayed behaviours of ArcballModel and random histories (P42)."""
from rotlib import *
out = Out()


def apply(b, o):
    """One input given as the model's record."""
    k = o["op"]
    if k == "place":
        b.place([float(x) for x in o["c"]], float(o["r"]))
    elif k == "axes":
        b.setaxes(*[np.array(a, float) if not isinstance(a, int) else np.eye(3)[a-1] for a in o["axes"]])
    elif k == "constrain":
        b.constrain = o["on"]
    elif k == "down":
        b.down([float(x) for x in o["p"]])
    elif k == "drag":
        b.drag([float(x) for x in o["p"]])
    elif k == "next":
        if float(o["acc"]) == 0 and rng.random() < .5:
            b.next()
        else:
            b.next(float(o["acc"]))


def walks():
    groups = {}
    for g in inputs():
        groups.setdefault(json.dumps(g["prefix"]), []).append(g)
    ev = None
    for pre, gs in groups.items():
        pre = json.loads(pre)
        got, ops, want, failed = [], [], [], []
        for g in gs:
            def go():
                b = tr.Arcball()
                for o in pre:
                    apply(b, o)
                apply(b, g["op"])
                return b.matrix()
            m, e = call(go)
            if e:
                failed.append(e)
            else:
                got.append(nums(m)), ops.append(g["op"]["op"]), want.append(g["want"])
        e = out.emit(kind="walk", prefix=pre, ops=ops, got=got, want=want, failed=failed)
        if got and len(pre) > 1:
            ev = e
    out.canary(ev, want=[[w[2], w[3], w[0], w[1]] for w in ev["want"]])


def mat(q):
    """Rotation matrix of a unit quaternion."""
    w, x, y, z = q/np.linalg.norm(q)
    M = np.identity(4)
    M[:3, :3] = [[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)], [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)], [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]]
    return M


def point(c, r):
    k = rng.random()
    if k < .15:
        return list(c)
    if k < .35:
        i = rng.randrange(4)
        f = pick([.5, 1, 2])*r
        return [c[0]+f*(1, 0, -1, 0)[i], c[1]+f*(0, 1, 0, -1)[i]]
    if k < .45:
        return [float(int(c[0]+r*rng.uniform(-2, 2))), float(int(c[1]+r*rng.uniform(-2, 2)))]
    return [c[0]+r*rng.uniform(-1.3, 1.3), c[1]+r*rng.uniform(-1.3, 1.3)]


FORMS = [list, tuple, np.array]


def histories():
    for i in range(n_(150, 2500)):
        init = ("none", "quaternion", "matrix")[i % 3]
        q0 = quat()
        if init == "none":
            b, e = call(tr.Arcball)
        elif init == "quaternion":
            x = q0.copy()
            b, e = call(tr.Arcball, pick([x, x.tolist()]) if i % 2 else x)
            if not e and not np.array_equal(x, q0):
                e = "changed its argument"
        else:
            x = mat(q0)
            b, e = call(tr.Arcball, initial=x)
            if not e and not np.array_equal(x, mat(q0)):
                e = "changed its argument"
        if e:
            out.emit(kind="ball", init=init, q0=nums(q0), R0=nums(mat(q0)), M0=[], ops=[], failed=e)
            continue
        M0 = b.matrix()
        c, r = [0., 0.], 1.
        ops, last = [], None
        for j in range(rng.randrange(4, 26)):
            k = rng.random()
            form = pick(FORMS)
            if k < .1 or (j == 0 and i % 4):
                c = pick([[320, 320], [0., 0.], [rng.uniform(-100, 900), rng.uniform(-100, 900)], (10, 20)])
                r = pick([1, 320, 75.5, rng.uniform(.1, 500)])
                o, f = {"op": "place", "c": nums(c), "r": num(r)}, lambda: b.place(form(c), r)
                c = [float(x) for x in c]
            elif k < .18:
                ax = [axis() for a in range(rng.randrange(0, 4))]
                o, f = {"op": "axes", "axes": nums(ax)}, lambda: b.setaxes(*[form(a) for a in ax])
            elif k < .28:
                on = rng.random() < .7
                o = {"op": "constrain", "on": on}
                f = lambda: setattr(b, "constrain", on if on or i % 2 else 0)
            elif k < .45:
                p = point(c, r)
                if last and rng.random() < .2:
                    p = last
                last = p
                o, f = {"op": "down", "p": nums(p)}, lambda: b.down(form(p))
            elif k < .8:
                p = point(c, r)
                if last and rng.random() < .1:
                    p = list(last)
                    if rng.random() < .5:
                        p[0] += r*10**rng.uniform(-9, -2)
                o, f = {"op": "drag", "p": nums(p)}, lambda: b.drag(form(p))
            else:
                acc = 0. if rng.random() < .5 else pick([-1., -2., 1., -.5, .5, rng.uniform(-2.5, 2.5)])
                o = {"op": "next", "acc": num(acc)}
                f = (lambda: b.next()) if acc == 0 and i % 2 else (lambda: b.next(acc))
            v, e = call(f)
            m, e2 = call(b.matrix) if not e else (None, None)
            if not e and v is not None:
                e = "returned something"
            o.update(M=nums(m) if not (e or e2) else [], failed=e or e2 or "", con=bool(b.constrain))
            ops.append(o)
            if e or e2:
                break
        ev = out.emit(kind="ball", init=init, q0=nums(q0), R0=nums(mat(q0)), M0=nums(M0), ops=ops, failed="")
        if not (ops[-1]["failed"]):
            good = ev
    o = good["ops"][-1]
    M = np.array(o["M"], float)
    t = np.identity(4)
    t[:2, :2] = [[math.cos(.01), -math.sin(.01)], [math.sin(.01), math.cos(.01)]]
    out.canary(good, ops=good["ops"][:-1]+[dict(o, M=nums(t.dot(M)))])
    out.canary(good, M0=nums(t.dot(np.array(good["M0"], float))))
    for x in ([1, 0, 0], np.identity(3), np.ones((4, 3)), 5.):
        v, e = call(tr.Arcball, x)
        out.emit(kind="refuse", failed=[e or "nothing"])


def functions():
    for i in range(n_(100, 1000)):
        c = [rng.uniform(-9, 900), rng.uniform(-9, 900)] if i % 3 else [0., 0.]
        r = pick([1., 2., 320., rng.uniform(.1, 500)])
        p = point(c, r)
        form = pick(FORMS)
        v, e = run(both("arcball_map_to_sphere"), form(p), form(c), r)
        ev = out.emit(kind="point", c=nums(c), r=num(r), p=nums(p), v=nums(v), failed=e)
        v0 = v[0] if v else np.array([0, 0, 1.])
        a = axis()
        a = a/math.sqrt(a.dot(a))
        if i % 10 == 0:
            a = v0/math.sqrt(v0.dot(v0))
        if i % 10 == 1:     # close to the axis, but not at it
            a = v0 + axis()*10**rng.uniform(-7, -2)
            a = a/math.sqrt(a.dot(a))
        v, e = run(both("arcball_constrain_to_axis"), form(v0), form(a))
        e2 = out.emit(kind="circle", p=nums(v0), a=nums(a), v=nums(v), failed=e)
        ax = [a]
        for j in range(rng.randrange(0, 4)):
            b = axis()
            ax.append(b/math.sqrt(b.dot(b)))
        rng.shuffle(ax)
        v, e = run(both("arcball_nearest_axis"), form(v0), ax if i % 2 else np.array(ax))
        w = [([j+1 for j, b in enumerate(ax) if x is not None and np.array_equal(b, x)] or [0])[0] for x in v]
        out.emit(kind="nearest", p=nums(v0), axes=nums(ax), picked=w, failed=e)
    out.canary(ev, v=[[ev["v"][0][1], ev["v"][0][0], bump(ev["v"][0][2])]])
    out.canary(e2, v=[[bump(x) for x in e2["v"][0]]])
    out.canary(e2, v=[[repr(-float(x)-.001) for x in e2["v"][0]]])
    out.canary(dict(ev, kind="nearest", p=["0", "0", "1"], axes=nums([[1, 0, 0], [0, .6, .8]])), picked=[2])


walks()
histories()
functions()
