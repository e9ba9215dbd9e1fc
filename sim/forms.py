"""The library's weak forms with spaces and functions that exercise them."""
import importlib

from sim import lib
from sim.lib import np


def L(k, c, d=False):
    return {"fam": "Lagrange", "k": k, "comp": c, "disc": d}


def V(fam, k, c):
    return {"fam": fam, "k": k, "comp": c, "disc": False}


def rot(dim):
    return 1 if dim == 2 else 3


def _mixed(fam, k, dim, names):
    """Dual (mixed) field layouts: fluxes in H(div), scalars discontinuous."""
    kl = k if fam == "BDM" else k - 1
    kl = max(0, kl - 1) if fam == "BDM" else kl
    out = {}
    for n in names:
        if n == "s":
            out[n] = V(fam, k, dim)
        elif n == "m":
            out[n] = V(fam, k, rot(dim))
        elif n == "u":
            out[n] = L(kl, dim, True)
        elif n == "t":
            out[n] = L(kl, rot(dim), True)
        elif n in ("q", "p"):
            out[n] = L(kl, 1, True)
        elif n == "v":
            out[n] = V(fam, k, 1)
    return out


ELASTIC = ("lambda", "mu")
COSSERAT = ("lambda_s", "mu_s", "kappa_s", "lambda_o", "mu_o", "kappa_o", "l")

# name: (module, class, on boundary, dims, fields(dim, fam, k), functions, method)
FORMS = {}


def _add(name, module, cls, bc, dims, fields, funs, method="evaluate_form"):
    FORMS[name] = {"module": module, "cls": cls, "bc": bc, "dims": dims, "fields": fields,
                   "funs": funs, "method": method}


def _dual_scalar(dim, fam, k):
    m = _mixed(fam, k, dim, ("v", "q"))
    return {"u": m["v"], "p": m["q"]}


_add("laplace_dual", "laplace_dual_weak_form", "LaplaceDualWeakForm", False, (2, 3), _dual_scalar, ("rhs", "kappa"))
_add("laplace_dual_bc", "laplace_dual_weak_form", "LaplaceDualWeakFormBCDirichlet", True, (2, 3), _dual_scalar, ("p1",))
_add("laplace_primal", "laplace_primal_weak_form", "LaplacePrimalWeakForm", False, (2, 3),
     lambda d, f, k: {"p": L(k, 1)}, ("rhs", "kappa"))
_add("laplace_primal_bc", "laplace_primal_weak_form", "LaplacePrimalWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: {"p": L(k, 1)}, ("p1",))
_add("le_primal", "le_primal_weak_form", "LEPrimalWeakForm", False, (2, 3),
     lambda d, f, k: {"u": L(k, d)}, ("rhs",) + ELASTIC)
_add("le_primal_bc", "le_primal_weak_form", "LEPrimalWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: {"u": L(k, d)}, ("u1",))
_add("le_primal_bc_neumann", "le_primal_weak_form", "LEPrimalWeakFormBCNeumann", True, (2, 3),
     lambda d, f, k: {"u": L(k, d)}, ("t1",))
_add("le_primal_bc_normal", "le_primal_weak_form", "LEPrimalWeakFormBCNormalDirichlet", True, (2, 3),
     lambda d, f, k: {"u": L(k, d)}, ("ud1",))
_add("le_primal_stress", "le_primal_stress_constraint_weak_form", "LEPrimalStressConstraintWeakForm", False, (2, 3),
     lambda d, f, k: {"u": L(k, d)}, ("s_target",) + ELASTIC)
_add("le_taylor_hood", "le_taylor_hood_weak_form", "LETaylorHoodWeakForm", False, (2,),
     lambda d, f, k: {"u": L(k + 1, d), "p": L(k, 1)}, ("rhs",) + ELASTIC)
_add("le_taylor_hood_bc", "le_taylor_hood_weak_form", "LETaylorHoodWeakFormBCDirichlet", True, (2,),
     lambda d, f, k: {"u": L(k + 1, d), "p": L(k, 1)}, ("u1",))
_add("lce_primal", "lce_primal_weak_form", "LCEPrimalWeakForm", False, (2, 3),
     lambda d, f, k: {"u": L(k, d), "t": L(k, rot(d))}, ("rhs", "lambda", "mu", "kappa", "gamma"))
_add("lce_primal_bc", "lce_primal_weak_form", "LCEPrimalWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: {"u": L(k, d), "t": L(k, rot(d))}, ("u1", "t1"))
for _m in ("evaluate_form", "evaluate_form_vectorized"):
    _s = "" if _m == "evaluate_form" else "_vec"
    _add("le_dual" + _s, "le_dual_weak_form", "LEDualWeakForm", False, (2,) if not _s else (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "u", "t")), ("rhs",) + ELASTIC, _m)
    _add("le_riesz" + _s, "le_riesz_map_weak_form", "LERieszMapWeakForm", False, (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "u", "t")), ("rhs",) + ELASTIC, _m)
    _add("lce_dual" + _s, "lce_dual_weak_form", "LCEDualWeakForm", False, (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("rhs",) + COSSERAT, _m)
    _add("lce_riesz" + _s, "lce_riesz_map_weak_form", "LCERieszMapWeakForm", False, (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("rhs",) + COSSERAT, _m)
    _add("lce_scaled_dual" + _s, "lce_scaled_dual_weak_form", "LCEScaledDualWeakForm", False, (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("rhs", "grad_l") + COSSERAT, _m)
    _add("lce_scaled_riesz" + _s, "lce_scaled_riesz_map_weak_form", "LCEScaledRieszMapWeakForm", False, (2, 3),
         lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("rhs", "grad_l") + COSSERAT, _m)
_add("le_dual_bc", "le_dual_weak_form", "LEDualWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: _mixed(f, k, d, ("s", "u", "t")), ("u1",))
_add("lce_dual_bc", "lce_dual_weak_form", "LCEDualWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("u1", "t1"))
_add("lce_dual_bc_neumann", "lce_dual_weak_form", "LCEDualWeakFormBCNeumann", True, (2, 3),
     lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("s1", "m1"))
_add("lce_scaled_dual_bc", "lce_scaled_dual_weak_form", "LCEScaledDualWeakFormBCDirichlet", True, (2, 3),
     lambda d, f, k: _mixed(f, k, d, ("s", "m", "u", "t")), ("u1", "t1", "l", "grad_l"))
_add("degenerate", "degenerate_elliptic_weak_form", "DegenerateEllipticWeakForm", False, (1, 2, 3),
     lambda d, f, k: _mixed(f, k, d, ("v", "q")), ("rhs", "porosity", "d_phi", "grad_d_phi"))
_add("degenerate_bc", "degenerate_elliptic_weak_form", "DegenerateEllipticWeakFormBCDirichlet", True, (1, 2, 3),
     lambda d, f, k: _mixed(f, k, d, ("v", "q")), ("q1", "porosity", "d_phi"))
_add("unscaled", "unscaled_elliptic_weak_form", "UnscaledEllipticWeakForm", False, (1, 2, 3), _dual_scalar,
     ("rhs", "porosity", "d_phi", "grad_d_phi"))
_add("unscaled_bc", "unscaled_elliptic_weak_form", "UnscaledEllipticWeakFormBCDirichlet", True, (1, 2, 3),
     _dual_scalar, ("p1",))
_add("l2", "l2_projector_weak_form", "L2ProjectorWeakForm", False, (1, 2, 3), _dual_scalar, ("u*", "p*"))
_add("scaled_to_physical", "scaled_to_physical_l2_projection", "ScaledToPhysicalL2Projection", False, (2, 3),
     lambda d, f, k: _mixed(f, k, d, ("v", "q")), ("porosity", "d_phi"))


for _f in FORMS.values():  # once, not in every forked run
    importlib.import_module(f"weak_forms.{_f['module']}")


def function(name, dim, coef):
    """(key, function) for one entry of the table."""
    c = coef

    def s(j):
        return lambda x, y, z: 1.0 + 0.1 * abs(c[j % 7]) + 0.05 * (x + c[(j + 1) % 7] * y * y) + 0.02 * z

    if name in ("rhs",):
        return "rhs", lambda x, y, z: np.array([s(j)(x, y, z) for j in range(3 + 3)])
    if name == "grad_l" or name == "grad_d_phi":
        return name, lambda x, y, z: np.array([s(j)(x, y, z) for j in range(dim)])
    if name == "s_target":
        return name, lambda x, y, z: np.array([[s(3 * i + j)(x, y, z) for j in range(dim)] for i in range(dim)])
    if name == "ud1":
        return "u", lambda x, y, z: np.array([s(j)(x, y, z) for j in range(dim)])
    if name.endswith("1"):
        return name[:-1], lambda x, y, z: np.array([s(j)(x, y, z) for j in range(3)])
    if name.endswith("*"):
        n = name[:-1]
        if n == "u" and dim > 1:
            return n, lambda x, y, z: np.array([[s(j)(x, y, z) for j in range(3)]])
        return n, lambda x, y, z: np.array([s(0)(x, y, z)])
    k = sum(map(ord, name))
    if name in ("porosity", "d_phi"):
        return name, lambda x, y, z: np.array(s(k)(x, y, z))
    return name, s(k)


def functions(form, dim, coef):
    return dict(function(n, dim, coef) for n in FORMS[form]["funs"])


def make(form, space, funs):
    f = FORMS[form]
    cls = getattr(importlib.import_module(f"weak_forms.{f['module']}"), f["cls"])
    w = cls(space)
    w.functions = funs
    return w


def evaluate(form, w, i, alpha, extra=None):
    m = getattr(w, FORMS[form]["method"])
    if form == "scaled_to_physical":
        return m(i, alpha, extra)
    return m(i, alpha)


def dests(form, space, i):
    return space.bc_destination_indexes(i) if FORMS[form]["bc"] else space.destination_indexes(i)


def boundary_fields(form, fields):
    """Fields the boundary forms of this layout look at."""
    if form.startswith("le_taylor_hood"):
        return ["u"]
    return [n for n, f in fields.items() if not (f["fam"] == "Lagrange" and f["disc"])]
