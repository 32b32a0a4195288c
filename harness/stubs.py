"""Electrodes with known potentials, for driving System without real kernels."""
from drvlib import *
from electrode.electrode import Electrode
import electrode.utils as _u

NAMES = [s.split() for s in [
    "", "x y z", "xx xy xz yy yz", "xxy xxz yyz xyy xzz yzz xyz",
    "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz",
    "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz yyzzz"]]
NAMES[0] = [""]


class Harm(Electrode):
    """phi(x) = sum Re(w exp(a.x)), a = k (1-s^2, i(1+s^2), 2s)."""
    __slots__ = ["terms"]

    def __init__(self, terms=None, **kw):
        super(Harm, self).__init__(**kw)
        self.terms = terms if terms is not None else [
            (complex(nrng.randn(), nrng.randn()), complex(nrng.randn(), nrng.randn())*.7, pick([.3, .5, 1.]))
            for _ in range(pick([1, 2]))]

    def potential(self, x, derivative=0, potential=1., out=None):
        x = np.asarray(x, float)
        if out is None:
            out = np.zeros((x.shape[0], 2*derivative+1))
        for w, s, k in self.terms:
            a = k*np.array([1-s*s, 1j*(1+s*s), 2*s])
            v = w*np.exp(x.dot(a))
            for i, nm in enumerate(NAMES[derivative]):
                f = np.prod([a["xyz".index(c)] for c in nm]) if nm else 1.
                out[:, i] += potential*(v*f).real
        return out

    def rec(self):
        return {"dc": num(self.dc), "rf": num(self.rf), "name": self.name,
                "terms": [{"w": num(w), "s": num(complex(s)), "k": num(k)} for w, s, k in self.terms]}


class Quad(Electrode):
    """phi = c + g.x + x.H.x/2 with traceless symmetric H: an exact reference."""
    __slots__ = ["c", "g", "H"]

    def __init__(self, c=0., g=(0, 0, 0), H=None, **kw):
        super(Quad, self).__init__(**kw)
        self.c, self.g = float(c), np.array(g, float)
        self.H = np.zeros((3, 3)) if H is None else np.array(H, float)

    def potential(self, x, derivative=0, potential=1., out=None):
        x = np.asarray(x, float)
        if out is None:
            out = np.zeros((x.shape[0], 2*derivative+1))
        if derivative == 0:
            out[:, 0] += potential*(self.c + x.dot(self.g) + .5*np.einsum("ij,jk,ik->i", x, self.H, x))
        elif derivative == 1:
            out += potential*(self.g + x.dot(self.H))
        elif derivative == 2:
            out += potential*self.H[[0, 0, 0, 1, 1], [0, 1, 2, 1, 2]]
        return out

    def rec(self):
        return {"dc": num(self.dc), "rf": num(self.rf), "c": num(self.c), "g": nums(self.g), "H": nums(self.H)}


def traceless(scale=1.):
    a = nrng.randn(3, 3)*scale
    a = (a + a.T)/2
    return a - np.eye(3)*np.trace(a)/3


class Mix(Electrode):
    """A quadratic plus harmonic exponentials."""
    __slots__ = ["terms", "c", "g", "H"]

    def __init__(self, terms=(), c=0., g=(0, 0, 0), H=None, **kw):
        super(Mix, self).__init__(**kw)
        self.terms = list(terms)
        self.c, self.g = float(c), np.array(g, float)
        self.H = np.zeros((3, 3)) if H is None else np.array(H, float)

    def potential(self, x, derivative=0, potential=1., out=None):
        out = Harm(self.terms).potential(x, derivative, potential, out)
        return Quad(self.c, self.g, self.H).potential(x, derivative, potential, out)

    def rec(self):
        return {"dc": num(self.dc), "rf": num(self.rf), "c": num(self.c), "g": nums(self.g), "H": nums(self.H),
                "terms": [{"w": num(complex(w)), "s": num(complex(s)), "k": num(k)} for w, s, k in self.terms]}


def hterm(w, k=.7):
    return (complex(nrng.randn(), nrng.randn())*w, complex(nrng.randn(), nrng.randn())*.5, k)
