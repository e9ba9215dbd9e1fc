"""Boundary value problems of the library's weak forms whose solutions are polynomials, in strong form."""
import itertools

import numpy as np

from sim import forms


class P:
    """Polynomial in (x - b) / L; derivatives are with respect to x."""

    def __init__(self, c, frame):
        self.c, self.frame = {k: v for k, v in c.items() if v}, frame

    def __add__(self, o):
        o = o if isinstance(o, P) else P({(0, 0, 0): o}, self.frame)
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c.get(k, 0.0) + v
        return P(c, self.frame)

    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-1.0 * o)

    def __mul__(self, o):
        if not isinstance(o, P):
            return P({k: v * o for k, v in self.c.items()}, self.frame)
        c = {}
        for (k, v), (m, w) in itertools.product(self.c.items(), o.c.items()):
            q = tuple(i + j for i, j in zip(k, m))
            c[q] = c.get(q, 0.0) + v * w
        return P(c, self.frame)

    __rmul__ = __mul__

    def d(self, a):
        c = {}
        for k, v in self.c.items():
            if k[a]:
                c[tuple(e - (j == a) for j, e in enumerate(k))] = v * k[a] / self.frame[1]
        return P(c, self.frame)

    def __call__(self, x, y, z):
        b, L = self.frame
        X = [(x - b[0]) / L, (y - b[1]) / L, (z - b[2]) / L]
        return sum((v * X[0] ** k[0] * X[1] ** k[1] * X[2] ** k[2] for k, v in self.c.items()), 0.0 * X[0])


def grad(p, dim):
    return [p.d(a) for a in range(dim)]


def div(v):
    return sum((q.d(a) for a, q in enumerate(v)), 0.0)


def law(g, mu, kappa, lam, dim):
    """2 mu sym + 2 kappa skew + lambda tr I"""
    tr = sum((g[i][i] for i in range(dim)), 0.0)
    return [[mu * (g[i][j] + g[j][i]) + kappa * (g[i][j] - g[j][i]) + (lam * tr if i == j else 0.0)
             for j in range(dim)] for i in range(dim)]


def cross(t, dim):
    """Matrix of a rotation."""
    if dim == 2:
        return [[0.0 * t[0], -1.0 * t[0]], [t[0], 0.0 * t[0]]]
    z = 0.0 * t[0]
    return [[z, -1.0 * t[2], t[1]], [t[2], z, -1.0 * t[0]], [-1.0 * t[1], t[0], z]]


def axial(s, dim):
    if dim == 2:
        return [s[1][0] - s[0][1]]
    return [s[2][1] - s[1][2], s[0][2] - s[2][0], s[1][0] - s[0][1]]


def plus(a, b):
    return [[p + q for p, q in zip(r, s)] for r, s in zip(a, b)]


NAMES = ("laplace_primal", "laplace_dual", "le_primal", "le_taylor_hood", "lce_primal", "le_dual", "le_dual_vec", "le_primal_stress",
         "lce_dual", "lce_dual_vec", "lce_scaled_dual", "lce_scaled_dual_vec", "degenerate", "unscaled")


class Problem:
    """fields: layout of the spaces; volume: given functions of the form; bcs: kind -> (boundary form, functions);
    exact: rows of polynomials (rows of rows for vector families) by field; averaged: fields of which the solution
    holds the projection; scale: magnitude of a field to measure errors with where it vanishes."""


def problem(name, dim, fam, k, coefs, frame):
    """k: order; coefs: numbers in [-2, 2]; frame: origin and length scale."""
    base = name[:-4] if name.endswith("_vec") else name
    at = itertools.count()
    L = frame[1]

    def num():
        n = next(at)
        return coefs[n % len(coefs)] * (1.0 + 0.37 * (n // len(coefs)))

    def poly(deg):
        return P({e: num() / (1 + sum(e)) for e in itertools.product(range(deg + 1), repeat=3)
                  if sum(e) <= deg and not any(e[dim:])}, frame)

    def positive(deg, size):
        """Away from zero on the unit box of the frame."""
        return P({e: size * (2.0 if not any(e) else 0.12 * num())
                  for e in itertools.product(range(deg + 1), repeat=3) if sum(e) <= deg and not any(e[dim:])}, frame)

    o = Problem()
    o.name, o.form, o.averaged, o.unread = name, name, (), ()
    o.fields = forms.FORMS[name]["fields"](dim, fam, k)
    dual = fam if any(f["fam"] in ("RT", "BDM") for f in o.fields.values()) else None
    ks = {None: k, "RT": k - 1, "BDM": k}[dual]        # degree all of which fluxes can be
    kl = k if dual is None else k - 1                  # and the discontinuous fields
    dc = abs(int(coefs[0] * 1000)) % 2                 # degree of the coefficients
    R = forms.rot(dim)
    size = 10.0 ** (int(abs(coefs[1]) * 1000) % 5 - 2)
    o.dual, o.size = dual, size

    def arr(ps):
        return lambda x, y, z: np.array([q(x, y, z) for q in ps])

    def wide(ps):
        """As many entries as a reader may ask for."""
        return arr(list(ps) + [ps[0] * 0.0] * (3 - len(ps)))

    if base in ("laplace_primal", "laplace_dual"):
        if base == "laplace_dual":
            dc = min(dc, ks)
            p, o.averaged = poly(min(k, ks + 1 - dc)), ("p",)
        else:
            p = poly(k)
        kappa = positive(dc, size)
        u = [-1.0 * kappa * g for g in grad(p, dim)]
        o.volume = {"rhs": arr([div(u)]), "kappa": kappa}
        o.bcs = {"given": (base + "_bc", {"p": wide([p])})}
        o.exact = {"p": [p]} if base == "laplace_primal" else {"u": [u], "p": [p]}
    elif base in ("le_primal", "le_taylor_hood", "le_primal_stress"):
        if base == "le_taylor_hood":
            du, k = k + 1 - dc, k + 1
        else:
            du = k
        u = [poly(du) for _ in range(dim)]
        mu, lam = positive(dc, size), positive(dc, size)
        s = law([grad(c, dim) for c in u], mu, 0.0, lam, dim)
        o.volume = {"rhs": arr([div(r) for r in s]), "lambda": lam, "mu": mu}
        o.bcs = {"given": (("le_primal" if base == "le_primal_stress" else base) + "_bc", {"u": wide(u)})}
        o.exact = {"u": u}
        if base == "le_primal_stress":
            del o.volume["rhs"]
            o.volume["s_target"] = lambda x, y, z: np.array([[q(x, y, z) for q in r] for r in s])
            o.bcs["free"] = None
        elif base == "le_taylor_hood":
            o.exact["p"] = [(lam + mu) * div(u)]
        else:
            o.stress = s
    elif base == "lce_primal":
        u, t = [poly(k) for _ in range(dim)], [poly(k) for _ in range(R)]
        mu, lam, kappa, gamma = (positive(dc, q) for q in (size, size, size, size * L * L))
        t = [q * (1.0 / L) for q in t]
        s = law(plus([grad(c, dim) for c in u], cross(t, dim)), mu, kappa, lam, dim)
        c = axial(s, dim)
        o.volume = {"rhs": arr([div(r) for r in s] +
                               [div([gamma * g for g in grad(q, dim)]) - w for q, w in zip(t, c)]),
                    "mu": mu, "lambda": lam, "kappa": kappa, "gamma": gamma}
        o.bcs = {"given": ("lce_primal_bc", {"u": wide(u), "t": wide(t)})}
        o.exact = {"u": u, "t": t}
    elif base == "le_dual":
        dc = min(dc, ks)
        u = [poly(min(k, ks + 1 - dc)) for _ in range(dim)]
        g = [grad(c, dim) for c in u]
        mu, lam = positive(dc, size), positive(dc, size)
        s = law(g, mu, 0.0, lam, dim)
        # skew grad u + cross(t) = 0
        t = [q * -0.5 for q in axial(g, dim)]
        o.volume = {"rhs": arr([div(r) for r in s] + [0.0 * q for q in t]), "lambda": lam, "mu": mu}
        o.bcs = {"given": ("le_dual_bc", {"u": wide(u)})}
        o.exact, o.averaged = {"s": s, "u": u, "t": t}, ("u",)
    elif base in ("lce_dual", "lce_scaled_dual"):
        dc = min(dc, ks)
        scaled = base == "lce_scaled_dual"
        dl = min(abs(int(coefs[2] * 1000)) % 2, ks)
        dt = max(0, min(kl, ks - dc, ks + 1 - dc - dl))
        u, t = [poly(min(k, ks + 1 - dc)) for _ in range(dim)], [poly(dt) * (1.0 / L) for _ in range(R)]
        mu, lam, kappa = (positive(dc, size) for _ in range(3))
        dm = min(dc, max(0, ks - dl))
        mo, lo, ko = (positive(dm, size * L * L) for _ in range(3))
        if dt == 0:
            mo, lo, ko = (positive(1, size * L * L) for _ in range(3))
        el = positive(dl, 1.0)
        s = law(plus([grad(c, dim) for c in u], cross(t, dim)), mu, kappa, lam, dim)
        gt = [grad(c, dim) for c in t]
        m = [[(mo + ko) * q for q in gt[0]]] if dim == 2 else law(gt, mo, ko, lo, dim)
        m = [[el * q for q in r] for r in m]
        flux = [[el * q for q in r] for r in m] if scaled else m
        o.volume = {"rhs": arr([div(r) for r in s] + [div(r) - w for r, w in zip(flux, axial(s, dim))]),
                    "lambda_s": lam, "mu_s": mu, "kappa_s": kappa, "lambda_o": lo, "mu_o": mo, "kappa_o": ko,
                    "l": el}
        b = {"u": wide(u), "t": wide(t)}
        if scaled:
            o.volume["grad_l"] = arr(grad(el, 3))
            b.update({"l": el, "grad_l": arr(grad(el, 3))})
        o.bcs = {"given": (base + "_bc", b)}
        o.exact, o.averaged = {"s": s, "m": m, "u": u, "t": t}, ("u",)
        o.stress, o.couple = s, m
        o.bcs["flux"] = ("lce_dual_bc_neumann", None)
    elif base in ("degenerate", "unscaled"):
        dd = min(abs(int(coefs[2] * 1000)) % 2, ks)
        p = poly(max(0, min(kl, ks + 1 - (2 if base == "unscaled" else 1) * dd)))
        delta = positive(dd, 1.0)
        root = positive(0 if p.c.keys() - {(0, 0, 0)} else min(kl, 1), 1.0)
        phi = root * root
        names = ("v", "q") if base == "degenerate" else ("u", "p")
        if base == "degenerate":
            delta = delta * L
            q = root * p
            v = [-1.0 * delta * g for g in grad(p, dim)]
            w = div([delta * c for c in v])
            o.volume = {"rhs": lambda x, y, z: np.array([q(x, y, z) + w(x, y, z) / root(x, y, z)])}
            # the scaled flux is given data of the pressure q / sqrt(porosity)
            b = {"q": wide([q]), "porosity": phi, "d_phi": delta}
        else:
            delta = delta * L
            q = p
            v = [-1.0 * delta * delta * g for g in grad(p, dim)]
            w = div(v)
            o.volume = {"rhs": lambda x, y, z: np.array([(w(x, y, z) + phi(x, y, z) * p(x, y, z)) / root(x, y, z)])}
            b = {"p": wide([p])}
        if base == "degenerate":
            # fluxes and pressures unscaled
            flux = [delta * c for c in v]
            fits = max((sum(e) for c in flux for e in c.c), default=0) <= ks
            o.physical = {"v": [flux], "q": [p]} if fits else None
        o.volume.update({"porosity": phi, "d_phi": delta, "grad_d_phi": arr(grad(delta, 3))})
        o.bcs = {"given": (base + "_bc", b)}
        o.exact = {names[0]: [v], names[1]: [q]}
    else:
        raise KeyError(name)
    # what values of a field are to be measured with when they vanish
    flux = {"degenerate": 1.0, "unscaled": L}.get(base, size / L)
    o.scale = {"s": flux, "v": flux, "m": size, "u": 1.0, "p": 1.0, "q": 1.0, "t": 1.0 / L}
    if base in ("laplace_dual", "unscaled"):
        o.scale["u"] = flux
    if base == "le_taylor_hood":
        o.scale["p"] = flux
    if base == "le_primal":
        o.bcs["traction"] = ("le_primal_bc_neumann", None)
        o.bcs["normal"] = ("le_primal_bc_normal", None)
    return o


def rows(ps, x):
    """Values (points, components[, axes])."""
    def val(q):
        return q(*x.T) if isinstance(q, P) else np.full(len(x), float(q))
    if isinstance(ps[0], (list, tuple)):
        return np.stack([np.stack([val(q) for q in r], axis=-1) for r in ps], axis=1)
    return np.stack([val(q) for q in ps], axis=-1)
