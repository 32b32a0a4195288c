"""What the drivers of transformations share."""
import math, sys
from drvlib import *
_, tr = load("electrode", "electrode.transformations")
LET = {"x": 1, "y": 2, "z": 3}


def n_(q, t):
    return t if THOROUGH else q


def both(name):
    """The public version and the Python one a compiled one stands in for."""
    f = [getattr(tr, name)]
    if hasattr(tr, "_py_" + name):
        f.append(getattr(tr, "_py_" + name))
    return f


def run(fs, *a, **k):
    """Values of all the versions, and the exceptions (or complaints)."""
    before = [np.array(x, copy=True) if isinstance(x, np.ndarray) else None for x in a]
    r = [call(f, *a, **k) for f in fs]
    bad = [e for v, e in r if e is not None]
    for b, x in zip(before, a):
        if b is not None and not np.array_equal(b, x, equal_nan=True):
            bad.append("changed its argument")
            x[...] = b
    return [v for v, e in r if e is None], bad


QUARTER = [0., math.pi/2, math.pi, -math.pi/2, -math.pi, 2*math.pi, math.pi/4, 3*math.pi/2, -2*math.pi]


def ang(p=.3):
    return pick(QUARTER) if rng.random() < p else rng.uniform(-7, 7)


def axis(p=.4):
    if rng.random() < p:
        while True:
            v = nrng.randint(-1, 2, size=3).astype(float)
            if v.any():
                return v
    return nrng.randn(3)*10**rng.uniform(-3, 3)


def quat(p=.3):
    if rng.random() < p:
        while True:
            q = nrng.randint(-1, 2, size=4).astype(float)
            if q.any():
                return q
    q = nrng.randn(4)
    if rng.random() < .2:       # nearly of unit length
        return q/np.linalg.norm(q)*(1 + pick([1, -1])*10.**rng.uniform(-9, -3))
    return q*10**rng.uniform(-2, 2)


def rot():
    """Rotation matrices, 4x4, also special ones."""
    c = rng.random()
    M = np.identity(4)
    if c < .4:
        M[:3, :3] = rotation()
    elif c < .7:
        for i in range(3):
            a, b = pick(QUARTER), i
            s, cc = math.sin(a), math.cos(a)
            E = np.identity(4)
            j, k = (b+1) % 3, (b+2) % 3
            E[j, j] = E[k, k] = cc
            E[j, k], E[k, j] = -s, s
            M = M.dot(E)
    else:                               # half turns about any axis, and close to them
        u = axis()
        u = u/np.linalg.norm(u)
        a = math.pi if c < .85 else math.pi+rng.choice([-1, 1])*10**rng.uniform(-12, -1)
        K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
        M[:3, :3] = np.identity(3)*math.cos(a)+math.sin(a)*K+(1-math.cos(a))*np.outer(u, u)
    return M


NAMES = sorted(tr._AXES2TUPLE)
ALL = [f+a+b+c for f in "sr" for a in "xyz" for b in "xyz" for c in "xyz" if a != b and b != c]


