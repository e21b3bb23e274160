"""Random instances of MockProblem (dyadic numbers, regular equations)."""

# an effect of the first control that cancels with nothing: the state must change where the control does
ODD = 0.7109375 + 2.0 ** -12


def dy(r, lo=-2, hi=2, q=8):
    return r.randint(int(lo * q), int(hi * q)) / q


def mat(r, rows, cols, p=1.0, lo=-1, hi=1):
    return [[dy(r, lo, hi) if r.random() < p else 0.0 for _ in range(cols)] for _ in range(rows)]


def vec(r, n, p=1.0, lo=-1, hi=1):
    return [dy(r, lo, hi) if r.random() < p else 0.0 for _ in range(n)]


def problem(r, n, m, q, nonlinear=.5, density=.7):
    """Strongly diagonally dominant, so every step has one solution near the last state."""
    S = mat(r, n, n, density)
    for i in range(n):
        S[i][i] = n + 1 + dy(r, 0, 1)
    eighth = lambda p: [v / 8 for v in vec(r, n, p)]
    pos = lambda k, p: [abs(x) / 4 for x in vec(r, k, p)]
    return {"n": n, "m": m, "q": q, "S": S, "a": pos(n, nonlinear), "A": mat(r, n, n, density), "p": [x / 4 for x in vec(r, n, nonlinear)],
            "B": mat(r, n, m, density), "b2": vec(r, n, nonlinear), "d": vec(r, n, .5), "h": pos(n, .6), "k": vec(r, n, .6), "pt": dy(r), "xl": eighth(.5), "xu": eighth(.5) if m else [0.0] * n, "lu": eighth(.5) if m else [0.0] * n, "ch": vec(r, q, .6),
            "cq": vec(r, n), "cr": vec(r, n), "cs": vec(r, m), "ct": dy(r), "cm": dy(r) if m else 0.0,
            "pq": vec(r, n, .7), "pr": vec(r, n, .7), "ps": vec(r, m, .7),
            "C": mat(r, q, n, density), "ce": vec(r, q, .6), "D": mat(r, q, m, density), "cf": vec(r, q), "cg": vec(r, q, .6) if m else [0.0] * q}


def times(r, k, start=0.0, equidistant=False):
    t = [start]
    for _ in range(k - 1):
        t.append(t[-1] + (1.0 if equidistant else r.randint(1, 8) / 8))
    return t


def traj(r, k, w, lo=-1, hi=1):
    return [dy(r, lo, hi) for _ in range(k * w)]
