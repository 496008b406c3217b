"""Alternative formulations of one problem agree."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one state whose flow terms were assembled by two formulations of the library and compared cell by cell",
            assumptions=["the flow term of a formulation is its residual less its own storage term, which the oracle computes"])


def cases(ck):
    rng = ck.rng
    out = []
    n = 28 if ck.quick else 400
    s = gen.seed
    for i in range(n):
        o = gen.mesh(rng, rng.choice(gen.PLANE), 3)
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng))
        o.update(h_disc="MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC", h_nstate=2, h_dt=round(10 ** rng.uniform(1, 6), 2))
        o["h_f_P"] = o["h_f_Pprev"] = gen.pressure(rng)
        if rng.random() < .8:
            o["h_f_pbc"] = gen.pressure(rng)
        out.append(dict(name="T%d-transient" % i, opts=o, np=gen.ranks(rng, o)))
    for i in range(n):
        o = gen.mesh(rng, gen.PLANE[i % len(gen.PLANE)], 3)
        o.update(gen.soil(rng)); o.update(gen.perm(rng))
        o.update(h_disc="MPFA_O", h_bctype="DIRICHLET_BC", h_steady=1, h_nstate=2, tdy_gravity=0.0, tdy_water_density="constant", h_dt=1000.0)
        o["h_f_P"] = o["h_f_Pprev"] = gen.pressure(rng, "wet")
        o["h_f_pbc"] = gen.pressure(rng, "wet")
        k = float(o["h_f_kxx"].split(":")[1].split(",")[0])
        if rng.random() < .5:
            o["h_f_src"] = "hash:%g,%g,%d" % (-1e4 * k, 1e5 * k, s(rng))
        out.append(dict(name="S%d-steady" % i, opts=o, np=gen.ranks(rng, o)))
    for i in range(n // 2):
        # two-point interaction-region weights: the same as the full ones on a rectangular box
        o = gen.box(rng, 4)
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng, rng.choice(["iso", "diag"])))
        for k in ("kxx", "kyy", "kzz"):
            if "h_f_" + k in o:
                o["h_f_" + k] = "const:" + o["h_f_" + k].split(":")[1].split(",")[0]
        o.update(h_disc="MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC", h_nstate=2, h_dt=1000.0, h_jac=1)
        o["h_f_P"], o["h_f_Pprev"], o["h_f_pbc"] = gen.pressure(rng), gen.pressure(rng), gen.pressure(rng)
        out.append(dict(name="G%d-weights" % i, opts=o, np=gen.ranks(rng, o)))
    return out


def transient(ck, c):
    o = c["opts"]
    a = need_ok(run("fv", opts(o), np_=c["np"]), "SNES form")
    rng = random.Random(c["name"] + str(ck.seed))
    d = "hash:-1e-3,1e-3,%d" % gen.seed(rng)
    b = need_ok(run("fv", opts(dict(o, h_ts=1, h_f_Pdot="const:0")), np_=c["np"]), "TS form")
    v = need_ok(run("fv", opts(dict(o, h_ts=1, h_disc="MPFA_O_TRANSIENTVAR", h_f_Pdot=d)), np_=c["np"]), "transient-variable form")
    e = need_ok(run("fv", opts(dict(o, h_ts=1, h_disc="MPFA_O_DAE", h_f_T="hash:0,400,%d" % gen.seed(rng), h_f_Tdot=d)), np_=c["np"]), "DAE form")
    rho = ref.RHO[o["tdy_water_density"]]
    poro, sr = a.field("poro"), a.field("sr")
    for s in range(o["h_nstate"]):
        F = a.cell("F", s)
        if not np.array_equal(a.cell("U", s), a.cell("Up", s)):
            raise Inconclusive("the previous state differs")     # state index enters the seed of both alike
        P = a.cell("U", s)
        sc = np.abs(F).max() + 1e-13 * np.abs(ref.mass(P, poro, sr, a.vol, rho)).max() / o["h_dt"]
        for nm, t in (("TS", b), ("transient-variable", v), ("DAE", e)):
            ix = match(a.x, t.x)        # the partition may differ
            G = t.cell("F", s, 0).copy()
            if nm == "transient-variable":
                G -= t.cell("Ud", s) * t.vol
                sd = np.abs(t.cell("Ud", s) * t.vol)[ix]
            elif nm == "DAE":
                G -= t.cell("Ud", s, 1) * t.vol
                sd = np.abs(t.cell("Ud", s, 1) * t.vol)[ix]
                M = t.cell("U", s, 1)
                R = t.cell("F", s, 1)
                m = ref.mass(t.cell("U", s, 0), t.field("poro"), t.field("sr"), 1.0, rho)
                q, i = worst(R, M - m, 1e-10 * (np.abs(M) + m))
                ck.count("algebraic_equations", t.n)
                if q > 1:
                    raise Fail("%s: DAE mass equation of cell %s is %.12g, expected %.12g" % (c["name"], t.x[i].round(3), R[i], (M - m)[i]))
            else:
                sd = 0
            G = G[ix]
            q, i = worst(F, G, 1e-9 * (sc + sd) + 1e-300)
            ck.ev(1, (c["name"], s, nm))
            ck.count("flows_" + nm, a.n)
            if q > 1:
                raise Fail("%s state %d: flow out of the cell at %s is %.12g by the SNES form and %.12g by the %s form" % (c["name"], s, a.x[i].round(3), F[i], G[i], nm))
        if np.abs(F).max() > 0:
            ck.count("states_with_flow")


def steady(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    A, b = t.dense("A"), t.vec[("b", 0)]
    b = b - t.field("src", 0.0) * t.vol
    k = 998.0 / 9.94e-4
    for s in range(o["h_nstate"]):
        P, F = t.cell("U", s), t.cell("F", s)
        w = k * (A.dot(P) - b)
        sc = k * (np.abs(A).dot(np.abs(P)) + np.abs(b))
        q, i = worst(F, w, 1e-11 * sc + 1e-9 * np.abs(F).max() + 1e-300)
        ck.ev(1, (c["name"], s))
        ck.count("steady_rows", t.n)
        if q > 1:
            raise Fail("%s: flow out of the cell at %s is %.12g by the transient form and %.12g by the steady system" % (c["name"], t.x[i].round(3), F[i], w[i]))


def weights(ck, c):
    o = c["opts"]
    a = need_ok(run("fv", opts(o), np_=c["np"]))
    b = need_ok(run("fv", opts(dict(o, h_gmatrix="MPFAO_GMATRIX_TPF")), np_=c["np"]))
    for s in range(o["h_nstate"]):
        ck.ev(1, (c["name"], s))
        same_system(ck, "%s: two-point weights on a box" % c["name"], a, b, np.arange(a.n), s)


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: dict(T=transient, S=steady, G=weights)[c["name"][0]](ck, c), cs)
