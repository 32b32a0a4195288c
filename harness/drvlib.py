"""Helpers for drivers (they run under the code's own Python)."""
import json, os, random, signal, sys, traceback
import numpy as np

LIB = os.environ["VCHK_LIB"]
TIER = os.environ["VCHK_TIER"]
SEED = int(os.environ["VCHK_SEED"])
THOROUGH = TIER == "thorough"
rng = random.Random(SEED * 7919 + 13)
nrng = np.random.RandomState((SEED * 104729 + 7) % (2**31))


def load(*names):
    """Import modules of the code under test, from the scratch build."""
    import importlib
    res = []
    try:
        for n in names:
            m = importlib.import_module(n)
            assert os.path.realpath(m.__file__).startswith(os.path.realpath(LIB)), m.__file__
            res.append(m)
    except AssertionError:
        raise
    except BaseException:
        traceback.print_exc()
        print("IMPLEMENTATION-UNUSABLE: import failed")
        sys.exit(3)
    return res[0] if len(res) == 1 else res


def num(x):
    """A number as the string TLA+ reads (exact to the double)."""
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": num(x.real), "im": num(x.imag)}
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return "notanumber"


def nums(a):
    """Nested lists of number strings."""
    if a is None:
        return "None"
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a[()])
    return [nums(i) for i in a]


def flat(a):
    return [num(i) for i in np.asarray(a).ravel()]


def shape(a):
    return list(np.shape(a))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def call(fn, *args, **kw):
    """(value, None) or (None, exception class name); hangs become 'Timeout'."""
    limit = kw.pop("_limit", 60)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(*args, **kw), None
    except Timeout:
        return None, "Timeout"
    except Exception as e:
        if os.environ.get("VCHK_VERBOSE"):
            traceback.print_exc()
        return None, type(e).__name__
    finally:
        signal.alarm(0)


def plain(v):
    """What JSON and TLA+ can read, also where the code returned something odd."""
    if isinstance(v, dict):
        return {str(k): plain(i) for k, i in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v) if abs(int(v)) < 2**31 else str(int(v))
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    if isinstance(v, str):
        return str(v)
    return str(v) if v is None else type(v).__name__


class Out(object):
    def __init__(self):
        self.f = open(os.environ["VCHK_OUT"], "w")
        self.n = 0

    def emit(self, **ev):
        self.n += 1
        ev.setdefault("key", "%s-%d" % (ev.get("kind", "ev"), self.n))
        ev.setdefault("canary", False)
        ev = plain(ev)
        self.f.write(json.dumps(ev) + "\n")
        self.f.flush()
        return ev

    def canary(self, ev, **change):
        """The same scenario with a corrupted observation: must be rejected."""
        e = json.loads(json.dumps(plain(dict(ev, **change))))
        e["canary"] = True
        e["key"] = "canary-" + e["key"]
        self.f.write(json.dumps(e) + "\n")
        self.f.flush()


def bump(s, d=1e-3):
    """Corrupt one number string."""
    v = float(s)
    return repr(v + d * max(1.0, abs(v)))


def inputs():
    return [json.loads(l) for l in open(os.environ["VCHK_IN"])]


def pick(seq):
    return seq[rng.randrange(len(seq))]


def rotation(kind="any"):
    """A proper rotation matrix."""
    q, r = np.linalg.qr(nrng.randn(3, 3))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def layout(a):
    """The same values in another memory layout (or as given)."""
    a = np.asarray(a)
    c = rng.randrange(6)
    if a.ndim == 0 or c > 3:
        return a
    if c == 0:
        return np.asfortranarray(a)
    if c == 1:
        return a[::-1].copy()[::-1]
    if c == 2:
        return np.repeat(a, 2, 0)[::2]
    b = np.repeat(a, 2, a.ndim-1)
    return b[..., ::2]
