"""Random scenarios for the finite-volume harness program."""
import random

HYD_RHO = 998.0


def box(rng, nmax=4, grade=True, perm=True, nmin=1):
    n = [rng.randint(nmin, nmax) for _ in range(3)]
    if n[0] * n[1] * n[2] < 2:
        n[rng.randrange(3)] += 1
    o = dict(h_mesh="box", h_n=n, h_lo=[round(rng.uniform(-3, 3), 3) for _ in range(3)], h_seed=rng.randint(1, 10**6))
    o["h_hi"] = [round(l + rng.uniform(0.6, 2.5) * k, 3) for l, k in zip(o["h_lo"], n)]
    if grade and rng.random() < 0.7:
        o["h_grade"] = round(rng.uniform(0.2, 2.0), 2)
    if perm and rng.random() < 0.6:
        o["h_perm"] = rng.randint(1, 10**6)
    return o


# meshes whose faces are all plane (the geometry of a warped face depends on the order of its vertices)
PLANE = ["box", "pert", "column", "wedge", "wedgepert", "wedgecol", "wedgez"]
WARPED = ["zpert"]


def mesh(rng, kind, nmax=4):
    """kind: box | pert (moved columns) | column (z shifted per column) | zpert (every vertex moved in z)
       | wedge | wedgepert | wedgecol | wedgez: the same, columns cut into triangular prisms"""
    o = box(rng, nmax, nmin=2 if kind != "box" else 1)
    if kind in ("pert", "wedgepert", "wedgez"):
        o["h_pert"] = round(rng.uniform(0.1, 0.35), 2)
        o["h_n"] = [max(2, k) for k in o["h_n"]]
    if kind in ("zpert", "wedgez"):
        o["h_zpert"] = round(rng.uniform(0.1, 0.35), 2)
    if kind in ("column", "wedgecol"):
        o["h_column"] = round(rng.uniform(0.02, 0.12), 3)
    if kind.startswith("wedge"):
        o["h_mesh"] = "wedge"
        o.pop("h_perm", None)
    return o


def ncells(o):
    n = o["h_n"]
    return n[0] * n[1] * n[2] * (2 if o["h_mesh"] == "wedge" else 1)


def ranks(rng, o, choices=(1, 1, 1, 2, 3, 4)):
    """a process count that leaves no process without cells"""
    return rng.choice([k for k in choices if k == 1 or 2 * k <= ncells(o)] or [1])


def seed(rng):
    return rng.randint(1, 10**6)


def perm(rng, style=None):
    style = style or rng.choice(["iso", "diag", "tens"])
    e = rng.uniform(-14.5, -10)
    lo, hi = 10 ** (e - rng.uniform(0, 1)), 10 ** (e + rng.uniform(0.01, 1))
    o = {"h_kstyle": style}
    s = lambda: "lhash:%.6g,%.6g,%d" % (lo, hi, seed(rng))
    o["h_f_kxx"] = s()
    if style != "iso":
        o["h_f_kyy"] = s()
        o["h_f_kzz"] = s()
    if style == "tens":
        for k in ("h_f_kxy", "h_f_kxz", "h_f_kyz"):
            o[k] = "hash:%.6g,%.6g,%d" % (-0.3 * lo, 0.3 * lo, seed(rng))
    return o


def soil(rng):
    return {"h_f_poro": "hash:%.3f,%.3f,%d" % (rng.uniform(.05, .2), rng.uniform(.25, .6), seed(rng)),
            "h_f_sr": "hash:%.3f,%.3f,%d" % (rng.uniform(0.0, .1), rng.uniform(.1, .25), seed(rng))}


RANGES = {"wet": (102000, 140000), "dry": (20000, 99000), "mixed": (80000, 125000), "near": (100500, 102000),
          "verydry": (-300000, 60000)}


def pressure(rng, which=None):
    which = which or rng.choice(list(RANGES))
    lo, hi = RANGES[which]
    return "hash:%d,%d,%d" % (lo, hi, seed(rng))


def eos(rng):
    o = {"tdy_water_density": rng.choice(["constant", "exponential", "batzle_and_wang"])}
    if rng.random() < 0.3:
        o["tdy_water_viscosity"] = "batzle_and_wang"
    if rng.random() < 0.3:
        o["tdy_gravity"] = rng.choice([0.0, 1.62, 24.79])
    return o


def kfun(t):
    """n.K n on a recorded trace, from the fields the harness supplied."""
    k = [t.field("kxx"), t.field("kyy"), t.field("kzz"), t.field("kxy"), t.field("kxz"), t.field("kyz")]
    for i in (1, 2):
        if k[i] is None:
            k[i] = k[0]
    for i in (3, 4, 5):
        if k[i] is None:
            k[i] = k[0] * 0
    return lambda c, u: (k[0][c] * u[0] ** 2 + k[1][c] * u[1] ** 2 + k[2][c] * u[2] ** 2
                         + 2 * (k[3][c] * u[0] * u[1] + k[4][c] * u[0] * u[2] + k[5][c] * u[1] * u[2]))
