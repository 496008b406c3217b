"""Water density and viscosity follow their formulas, in value and derivative."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one cell mass reported by a simulation, or one evaluation of a water property model at a pressure, temperature and salinity, compared with the published formula",
            assumptions=["reference: constants, exponential compressibility above the reference pressure, Batzle & Wang (1992) eq. 27 for density and 28-29 for viscosity; derivatives by complex step of the reference"])
DEN = ["constant", "exponential", "batzle_and_wang"]


def cases(ck):
    rng = ck.rng
    out = []
    n = 36 if ck.quick else 400
    for i in range(n):
        mode = ["RICHARDS", "RICHARDS", "SALINITY"][i % 3]
        o = gen.mesh(rng, rng.choice(gen.PLANE), 3)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso"))
        o.update(tdy_water_density=DEN[(i // 3) % 3], h_diag=1, h_nstate=3, h_f_P="hash:%d,%d,%d" % (rng.choice([30000, 101000]), rng.choice([110000, 10 ** 6, 4 * 10 ** 7]), gen.seed(rng)),
                 h_f_Pprev=gen.pressure(rng), h_disc=rng.choice(["MPFA_O", "FV_TPF"]) if mode == "RICHARDS" else "MPFA_O", h_bctype="NEUMANN_BC", h_f_pbct="const:1.5", tdy_gravity=0.0)
        if rng.random() < .5:
            o["tdy_water_viscosity"] = "batzle_and_wang"
        if mode == "SALINITY":
            o.update(h_mode="SALINITY", h_f_C="hash:0,%g,%d" % (rng.choice([.01, .5, 4.]), gen.seed(rng)), h_f_Cprev="hash:0,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso",
                     h_f_mw="const:%.2f" % rng.choice([58.44, 40.3, 110.98]))
        out.append(dict(name="M%d-%s" % (i, mode), opts=o, np=gen.ranks(rng, o, (1, 1, 2, 3))))
    for i in range(8 if ck.quick else 80):
        out.append(dict(name="E%d" % i, seed=gen.seed(rng)))
    return out


def sim(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    rho = ref.RHO[o["tdy_water_density"]]
    for s in range(o["h_nstate"]):
        P = t.cell("U", s)
        f = 0.0
        if t.dof == 2:
            w = t.cell("U", s, 1) * t.field("mw")
            f = w / (w + 999.0)
        want = rho(P, ref.TREF, f) * t.vol * ref.sat(P, t.field("sr")) * t.field("poro")
        got = t.vec[("mass", s)]
        if c["np"] > 1:
            # the diagnostic is in natural order: compare the sorted values
            want, got = np.sort(want), np.sort(got)
        ck.ev(t.n, c["name"])
        ck.count("densities_" + o["tdy_water_density"], t.n)
        q, i = worst(got, want, 1e-9 * np.abs(want) + 1e-300)
        if q > 1:
            raise Fail("%s: mass of the water in a cell at %.6g Pa is %.12g kg, expected %.12g" % (o["tdy_water_density"], P[i] if c["np"] == 1 else float("nan"), got[i], want[i]))


def model(ck, c):
    rng = random.Random(c["seed"])
    pts, lines = [], []
    for _ in range(150):
        d, v = rng.randrange(3), rng.randrange(2)
        P = rng.choice([rng.uniform(-2e5, 2e5), 10 ** rng.uniform(4, 8), 101325.0])
        T = rng.choice([25.0, rng.uniform(1, 95)])
        S = rng.choice([0.0, rng.uniform(0, .3), 10 ** rng.uniform(-6, -1)])
        pts.append((d, v, P, T, S))
        lines.append("eos %d %d %.17g %.17g %.17g" % pts[-1])
    fr = [(10 ** rng.uniform(-6, 1), rng.uniform(30, 120), rng.uniform(900, 1100)) for _ in range(40)]
    lines += ["frac %.17g %.17g %.17g" % f for f in fr]
    t = need_ok(run("props", ["-h_script", "script"], files={"script": "\n".join(lines) + "\n"}))
    got = [[float(x) for x in w[1:]] for w in t.X["EOS"]]
    fgot = [float(w[1]) for w in t.X["FRAC"]]
    for (d, v, P, T, S), g in zip(pts, got):
        ck.ev(1, c["name"])
        rho, mu = ref.RHO[DEN[d]], ref.MU[["constant", "batzle_and_wang"][v]]
        r = float(rho(P, T, S))
        if d == 0:
            d1 = d2 = 0.0
        elif d == 1:
            d1, d2 = (1e-8 * r, 1e-16 * r) if P > ref.PREF else (0.0, 0.0)
            if P == ref.PREF:
                d1 = d2 = None
        else:   # polynomial of degree two in P: exact divided differences
            h = 1e6
            a, b = float(rho(P + h, T, S)), float(rho(P - h, T, S))
            d1, d2 = (a - b) / (2 * h), (a - 2 * r + b) / h ** 2
        want = [r, d1, d2, float(mu(P, T, S)), 0.0, 0.0, 1.8890, 0.0, 0.0]
        tol = [1e-11 * r, 1e-9 * abs(d1 or 0) + 1e-18, 1e-6 * abs(d2 or 0) + 1e-22, 1e-11 * want[3], 0, 0, 1e-9, 0, 0]
        ck.count("model_points_%s" % DEN[d])
        for k, nm in enumerate(["density", "its P-derivative", "its second P-derivative", "viscosity", "its P-derivative", "its second P-derivative", "enthalpy", "its P-derivative", "its T-derivative"]):
            if want[k] is not None and not abs(g[k] - want[k]) <= tol[k]:
                raise Fail("%s of the %s / %s model at P=%.6g, T=%.4g, salinity %.4g is %.12g, expected %.12g" % (nm, DEN[d], ["constant", "batzle_and_wang"][v], P, T, S, g[k], want[k]))
    for (psi, mw, den), g in zip(fr, fgot):
        ck.ev(1, c["name"])
        w = psi * mw / (psi * mw + 999.0)
        if not abs(g - w) <= 1e-12:
            raise Fail("mass fraction of salt for concentration %.6g, weight %.6g is %.12g, expected %.12g" % (psi, mw, g, w))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0].get("opts")})
    try:
        build("plain")["props"]
    except BuildError:
        ck.count("models_not_built")
        cs = [c for c in cs if c["name"][0] == "M"]
    ck.map(lambda c: (sim if c["name"][0] == "M" else model)(ck, c), cs)
