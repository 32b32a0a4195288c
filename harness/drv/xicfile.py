"""Layouts in XIC format (P40): renders abstract lines, records the parse."""
import io
from drvlib import *
xic = load("electrode.xic")
out = Out()
OTHER = ["L L1", "9 name", "DS 1 1 1", "(comment P 1 2", "B 100 200 0 0", "W 100 0 0 5 5", "E", "5 xx", "DF", "C 1 T 0 0"]


def number():
    return pick([lambda: str(rng.randrange(-10**6, 10**6)), lambda: str(rng.randrange(-9, 9)), lambda: "%.3f" % nrng.randn(),
                 lambda: "%.5e" % (nrng.randn()*1e4)])()


def render(lines):
    text, ev = [], []
    sep = pick([" ", " ", "  "])
    nl = pick(["\n", "\n", "\r\n"])
    seen = {}
    for l in lines:
        n = [number() for _ in range(2*l["n"])]
        if l["n"] and rng.random() < .25:       # the same numbers, or nearly, as before
            n = list(seen.setdefault(l["n"], n))
            if rng.random() < .4:
                n[rng.randrange(len(n))] += pick(["1", "0"])
        end = ";" if l["end"] else ""
        t = l["t"]
        if t == "poly":
            s = "P " + sep.join(n) + end
        elif t == "other":
            s = pick(OTHER) + end
        elif t == "cont":
            s = pick([" ", "   "]) + sep.join(n) + end
        else:
            s = pick(["", "", "  "])
        text.append(s + nl)
        ev.append({"t": t, "n": n, "end": l["end"], "kind": t})
    return text, ev


def run(lines, key):
    text, ev = render(lines)
    src = pick([lambda: list(text), lambda: io.StringIO("".join(text)), lambda: (i for i in text)])()
    v, exc = call(xic.xic_to_list, src)
    return out.emit(kind="layout", key=key, ev=ev, text="".join(text), exc=exc or "no",
                    out=[nums(p) for p in v] if v is not None else [])


def rand():
    lines = []
    for _ in range(rng.randrange(1, 12)):
        t = pick(["poly", "poly", "other", "blank"])
        if t == "blank":
            lines.append({"t": t, "n": 0, "end": False})
            continue
        c = pick([0, 0, 1, 3, 12])
        one = rng.random() < .6
        for i in range(c+1):
            if rng.random() < .1:
                lines.append({"t": "blank", "n": 0, "end": False}) if i else None
            lines.append({"t": t if i == 0 else "cont", "n": 0 if (t == "other" and i == 0) else 1 if one else pick([rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(5, 40)]), "end": i == c})
    return lines


for n, h in enumerate(inputs()):
    run(h["lines"], "gen-%d" % n)
for n in range(3000 if THOROUGH else 300):
    run(rand(), "rand-%d" % n)
e = run([{"t": "poly", "n": 2, "end": False}, {"t": "cont", "n": 2, "end": True}, {"t": "poly", "n": 3, "end": True}], "canary")
o = e["out"]
out.canary(e, out=o[::-1])
out.canary(e, out=o[:1])
out.canary(e, out=[o[0][:-1], o[1]])
out.canary(e, out=[[[num(1.001*float(c)) for c in q] for q in p] for p in o])
