"""Replay operation histories on a real System and record what is seen."""
import sys
from drvlib import *
electrode, system, elmod = load("electrode", "electrode.system", "electrode.electrode")


class Boom(Exception):
    pass


class Lin(elmod.Electrode):
    """Electrode with potential k + gx*x + ..., enough for queries."""
    __slots__ = ["eid"]

    def potential(self, x, derivative=0, potential=1., out=None):
        if out is None:
            out = np.zeros((x.shape[0], 2*derivative+1))
        if derivative == 0:
            out[:, 0] += potential*(1 + x[:, 0]*self.eid + x[:, 2]**2 - .5*x[:, 0]**2 - .5*x[:, 1]**2)
        elif derivative == 1:
            out[:, 0] += potential*(self.eid - x[:, 0])
            out[:, 1] += potential*(-x[:, 1])
            out[:, 2] += potential*2*x[:, 2]
        elif derivative == 2:
            out[:, 0] += -potential
            out[:, 3] += -potential
        return out


def labelled(cls, **geo):
    """The class with a label to recognise the electrode by."""
    sub = type(cls.__name__, (cls,), {"__slots__": ["eid"]})
    return lambda **kw: sub(**dict(geo, **kw))


SQ = [[0., 0.], [1., 0.], [1., 1.], [0., 1.]]
KINDS = [Lin, labelled(elmod.Electrode), labelled(elmod.CoverElectrode), labelled(elmod.CoverElectrode, height=3.),
         labelled(elmod.PointPixelElectrode, points=[[0., 0.]], areas=[1.]), labelled(elmod.PolygonPixelElectrode, paths=[SQ]),
         labelled(elmod.SurfaceElectrode), labelled(elmod.GridElectrode), labelled(elmod.PolygonPixelElectrode, paths=[SQ], cover_nmax=1),
         labelled(elmod.MeshPixelElectrode, points=SQ, edges=[[0, 1], [1, 2], [2, 3], [3, 0]], polygons=[[0, -1]]*4, potentials=[1.])]


def make(e, n):
    """An electrode of the given name and voltages; what is the default may be left out."""
    kw = {"name": e["name"], "dc": e["dc"], "rf": e["rf"]}
    if n % 2:
        kw = {k: v for k, v in kw.items() if v}
    l = KINDS[n % len(KINDS)](**kw)
    l.eid = e["id"]
    return l


def ji(v):
    try:
        f = float(v)
        return int(f) if f == int(f) and abs(f) < 2**30 else repr(f)
    except Exception:
        return str(v)


def conv(v, bad_kind, field, n=0):
    """Abstract argument -> concrete one (several concrete shapes)."""
    if v["t"] == "none":
        return None
    if v["t"] == "bad":
        # a plain setter may have taken the values before the failure, a block
        # has to put everything back
        return gen_bad(n > 1) if bad_kind % 3 == 2 and field.startswith("with") and n else [5, object()][bad_kind % 2]
    r = list(v["s"])
    if field == "names":
        return r
    return [r, tuple(r), np.array(r, float)][bad_kind % 3]


FATAL = (KeyboardInterrupt, SystemExit, GeneratorExit)
BODY = (Boom, KeyboardInterrupt, ValueError, SystemExit, StopIteration, GeneratorExit, KeyError, RuntimeError, AssertionError)


def gen_bad(some):
    if some:
        yield 21
    raise pick([Boom, KeyboardInterrupt, SystemExit, TypeError])("generator")


def observe(s, ids):
    def pos(r):
        if r is None:
            return 0
        for i, e in enumerate(list.__iter__(s)):
            if e is r:
                return i + 1
        return -2
    els = list(list.__iter__(s))
    n = len(els)
    li, ln = [], []
    for i in range(-n - 1, n + 1):
        try:
            r = pos(s[i]) if i % 2 else pos(s.electrode(i))
        except IndexError:
            r = -1
        except Exception as e:
            r = type(e).__name__
        li.append({"k": i, "r": r})
    for nm in ["a", "b", "c", "", "x", "y", "nosuch", "0", "A", "a ", " a", "ab", "B", "a.1", "1"]:
        try:
            r = pos(s[nm])
            if pos(s.electrode(nm)) != r:
                r = -3
        except Exception as e:
            r = type(e).__name__
        ln.append({"k": nm, "r": r})
    return {"names": list(s.names), "dcs": [ji(v) for v in s.dcs], "rfs": [ji(v) for v in s.rfs],
            "order": [e.eid for e in els], "li": li, "ln": ln}


def run(key, init, ops, kind, variant):
    els = []
    for e in init:
        els.append(make(e, variant + 7*e["id"]))
    s = system.System(els)
    s.rf_scale(1., 1., 1., 1.)
    cms, evs = [], []
    for n, o in enumerate(ops):
        ev = dict(o)
        exc = "no"
        v = variant + n
        try:
            if o["op"] == "setdcs":
                s.dcs = conv(o["v"], v, "dcs")
            elif o["op"] == "setrfs":
                s.rfs = conv(o["v"], v, "rfs")
            elif o["op"] == "setnames":
                s.names = conv(o["v"], v, "names")
            elif o["op"] == "setone":
                setattr(s[o["i"]-1], o["f"], o["v"])
            elif o["op"] == "append":
                s.append(make(o["e"], v))
            elif o["op"] == "insert":
                s.insert(o["i"]-1, make(o["e"], v))
            elif o["op"] == "delete":
                if v % 2:
                    del s[o["i"]-1]
                else:
                    s.remove(s[o["i"]-1])
            elif o["op"] == "replace":
                s[o["i"]-1] = make(o["e"], v)
            elif o["op"] == "reverse":
                if v % 2:
                    s.reverse()
                else:
                    s[:] = list(s)[::-1]
            elif o["op"] == "pop":
                s.pop()
            elif o["op"] == "enter":
                kw = {}
                if o["dcs"]["t"] != "none" or v % 2:
                    kw["dcs"] = conv(o["dcs"], v, "with-dcs", len(s))
                if o["rfs"]["t"] != "none" or v % 3:
                    kw["rfs"] = conv(o["rfs"], v, "with-rfs", len(s))
                cm = s.with_voltages(**kw)
                cm.__enter__()
                cms.append(cm)
            elif o["op"] == "exit":
                cm = cms.pop()
                if o["how"] == "ok":
                    cm.__exit__(None, None, None)
                else:
                    # whatever leaves the block, the very same thing comes out
                    thrown = BODY[v % len(BODY)]("body")
                    try:
                        try:
                            raise thrown
                        except BaseException:
                            if not cm.__exit__(*sys.exc_info()):
                                raise
                    except BaseException as e:
                        exc = "Boom" if e is thrown else "other:" + type(e).__name__
        except (Exception,) + FATAL as e:
            exc = type(e).__name__
        ev["exc"] = exc
        ev["kind"] = o["op"]
        ev["obs"] = observe(s, None)
        evs.append(ev)
    return out.emit(kind=kind, key=key, init=init, ev=evs)


out = Out()
mode = sys.argv[1]
# names may differ in case, blanks or length only
NAMES = ["a", "b", "", "c", "A", "a ", "ab", "B", "1", "0"]


def randhist(length):
    init = [{"id": i+1, "name": pick(NAMES), "dc": rng.randrange(-9, 9), "rf": rng.randrange(0, 9)}
            for i in range(rng.randrange(0, 5) if rng.random() < .93 else rng.randrange(9, 22))]
    n, depth, ops, nid = len(init), 0, [], 30

    def vals():
        if rng.random() < .12:
            return {"t": "bad", "s": []}
        return {"t": "seq", "s": [rng.randrange(-50, 50) for _ in range(rng.randrange(0, n + 2))]}
    none = {"t": "none", "s": []}
    for _ in range(length):
        c = rng.random()
        if c < .55:
            ops.append({"op": pick(["setdcs", "setrfs"]), "v": vals()})
        elif c < .62 and mode != "with":
            ops.append({"op": "setnames", "v": {"t": "seq", "s": [pick(NAMES + ["x"]) for _ in range(rng.randrange(0, n + 2))]}})
        elif c < .67:
            nid += 1
            ops.append({"op": "append", "e": {"id": nid, "name": pick(NAMES), "dc": 3, "rf": 4}})
            n += 1
        elif c < .685 and not depth and mode == "reg":
            nid += 1
            e = {"id": nid, "name": pick(NAMES + ["y"]), "dc": rng.randrange(-5, 5), "rf": rng.randrange(3)}
            o = pick(["insert", "delete", "replace", "reverse"])
            if o == "insert":
                ops.append({"op": o, "i": rng.randrange(n + 1) + 1, "e": e})
                n += 1
            elif o == "reverse":
                ops.append({"op": o})
            elif n and o == "replace":
                ops.append({"op": o, "i": rng.randrange(n) + 1, "e": e})
            elif n:
                ops.append({"op": o, "i": rng.randrange(n) + 1})
                n -= 1
        elif c < .72 and n:
            ops.append({"op": "setone", "i": rng.randrange(n)+1, "f": pick(["dc", "rf"]), "v": rng.randrange(9)})
        elif c < .88 and depth < 4:
            o = {"op": "enter", "dcs": pick([none, vals()]), "rfs": pick([none, vals()])}
            ops.append(o)
            if "bad" not in (o["dcs"]["t"], o["rfs"]["t"]):
                depth += 1
        elif depth:
            ops.append({"op": "exit", "how": pick(["ok", "raise"])})
            depth -= 1
    while depth:
        ops.append({"op": "exit", "how": pick(["ok", "raise"])})
        depth -= 1
    return init, ops


for n, h in enumerate(inputs()):
    e = run("gen-%d" % n, h["init"], h["ev"], "enumerated", n)
    if n in (5, 50, 150):
        bad = json.loads(json.dumps(e))
        o = bad["ev"][-1]["obs"]
        if o["dcs"]:
            o["dcs"][0] = 77
            out.canary(bad)
for n in range(1500 if THOROUGH else 200):
    init, ops = randhist(rng.randrange(4, 25))
    run("rand-%d" % n, init, ops, "random", n)
