"""Darcy's law: recorded residuals are those of the two-point flux on K-orthogonal grids, and of the exact flux for linear pressures."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one recorded state on one mesh whose every cell residual was compared with the flux model",
            assumptions=["MPFA-O is compared with the two-point flux on graded boxes with isotropic or axis-aligned permeability, where the two coincide",
                         "general meshes and full tensors: linear pressures, uniform permeability, no gravity"])
TOL = 1e-10


def cases_two_point(ck):
    rng = ck.rng
    out = []
    n = 36 if ck.quick else 500
    for i in range(n):
        scheme = "fvtpf" if i % 3 == 2 else "mpfao"
        bc = ["DIRICHLET", "NEUMANN", "SEEPAGE"][(i // 3) % 3]
        kind = "box" if scheme == "mpfao" else rng.choice(["box", "pert", "wedge", "wedgepert"])
        o = gen.mesh(rng, kind, 3 if ck.quick else 4)
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, "iso" if kind != "box" else rng.choice(["iso", "diag", "diag"])))
        if rng.random() < 0.1:      # very tight rock
            for k in ("h_f_kxx", "h_f_kyy", "h_f_kzz"):
                if k in o:
                    o[k] = "lhash:1e-19,1e-17,%d" % gen.seed(rng)
        o.update(h_nstate=3, h_dt=round(10 ** rng.uniform(1, 6), 3))
        o["h_f_P"], o["h_f_Pprev"] = gen.pressure(rng), gen.pressure(rng)
        o["h_f_pbc"] = gen.pressure(rng)
        if scheme == "fvtpf":
            o.update(h_disc="FV_TPF")
            if rng.random() < 0.4:
                o["h_f_pbct"] = "hash:0,3,%d" % gen.seed(rng)
                bc = "mixed"
            else:
                o["h_f_pbct"] = "const:%g" % (["DIRICHLET", "NEUMANN", "SEEPAGE"].index(bc) + 0.5)
        else:
            o.update(h_disc="MPFA_O", h_bctype=bc + "_BC")
            if rng.random() < 0.2:
                o.pop("h_f_pbc")
        out.append(dict(name="T%d-%s-%s-%s" % (i, scheme, kind, bc), part="T", opts=o, np=gen.ranks(rng, o), scheme=scheme, bc=bc))
    return out


def run_two_point(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    rho = ref.RHO[o["tdy_water_density"]]
    mu = ref.MU[o.get("tdy_water_viscosity", "constant")]
    g = o.get("tdy_gravity", ref.G)
    poro, sr = t.field("poro"), t.field("sr")
    K = gen.kfun(t)
    ft = None
    if c["bc"] == "mixed":
        ft = lambda f: ["DIRICHLET", "NEUMANN", "SEEPAGE"][f["pbct"]]
    for s in range(o["h_nstate"]):
        P, F = t.cell("U", s), t.cell("F", s)
        out, sc, rec = ref.tpfa(t, P, K, sr, rho=rho, mu=mu, g=g, bc=c["bc"], scheme=c["scheme"], pbc="h_f_pbc" in o, face_type=ft)
        m1, m0 = ref.mass(P, poro, sr, t.vol, rho), ref.mass(t.cell("Up", s), poro, sr, t.vol, rho)
        acc = (m1 - m0) / o["h_dt"]
        err = np.abs(F - acc - out)
        ok = sc + np.abs(m1 + m0) / o["h_dt"] * 1e-5
        ck.ev(1, (c["name"], s))
        ck.count("cells_compared", t.n)
        ck.count("faces_" + c["scheme"] + "_" + c["bc"], len(rec))
        ck.count("flowing_faces", sum(1 for r in rec if r[2] != 0))
        b = np.where(np.isnan(err), np.inf, err) > TOL * ok
        if b.any():
            i = int(np.argmax(err / ok))
            raise Fail("%s state %d: %d of %d cells differ from the two-point flux model; cell at %s: residual %.9e, model %.9e" %
                       (c["name"], s, b.sum(), t.n, t.x[i].round(4).tolist(), F[i], acc[i] + out[i]))


def cases_linear(ck):
    rng = ck.rng
    out = []
    kinds = ["pert", "wedge", "wedgepert", "column", "wedgecol", "wedgez", "box"]
    for i in range(21 if ck.quick else 300):
        kind = kinds[i % len(kinds)]
        layered = kind == "box" and i % 2 == 0 or kind == "wedge" and i % 2 == 1
        o = gen.mesh(rng, kind, 4)
        if i % 3 == 2:
            o["h_n"] = [max(3, k) for k in o["h_n"]]
        if layered:
            o.pop("h_grade", None)
            o["h_n"][2] = 2
        o["h_hi"] = [round(l + rng.uniform(0.6, 2.5) * k, 3) for l, k in zip(o["h_lo"], o["h_n"])]
        lo, hi = o["h_lo"], o["h_hi"]
        g = [rng.uniform(-1, 1) for _ in range(3)]
        ext = sum(abs(a) * (h - l) for a, h, l in zip(g, hi, lo))
        f = rng.uniform(2000, 9000) / ext
        g = [a * f for a in g]
        mid = [0.5 * (h + l) for h, l in zip(hi, lo)]
        base = 94500 - sum(a * m for a, m in zip(g, mid))
        k = 10 ** rng.uniform(-14, -11)

        def tensor():
            d = [k * rng.uniform(0.3, 2) for _ in range(3)]
            e = [0.0] * 3 if rng.random() < 0.3 else [k * rng.uniform(-0.12, 0.12) for _ in range(3)]
            return np.array([[d[0], e[0], e[1]], [e[0], d[1], e[2]], [e[1], e[2], d[2]]])
        K = [tensor()]
        dg = 0.0
        names = {"h_f_kxx": (0, 0), "h_f_kyy": (1, 1), "h_f_kzz": (2, 2), "h_f_kxy": (0, 1), "h_f_kxz": (0, 2), "h_f_kyz": (1, 2)}
        if layered:
            # two layers: the tangential gradient and the normal flux are continuous
            K.append(tensor())
            g = np.array(g)
            dg = float(((K[0] - K[1]).dot(g))[2] / K[1][2, 2])
            if abs(dg) * (hi[2] - lo[2]) > 8000:
                continue
            for q, ij in names.items():
                o[q] = "step:2,%.17g,%.17g,%.17g" % (mid[2], K[0][ij], K[1][ij])
        else:
            for q, ij in names.items():
                o[q] = "const:%.17g" % K[0][ij]
        o.update(h_kstyle="tens", h_f_poro="const:0.3", h_f_sr="const:0.1", tdy_water_density="constant", tdy_gravity=0.0, h_disc="MPFA_O",
                 h_nstate=1, h_dt=1000.0, h_bctype="DIRICHLET_BC")
        o["h_f_P"] = o["h_f_Pprev"] = o["h_f_pbc"] = "pwl:2,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g" % (mid[2], base, g[0], g[1], g[2], dg)
        out.append(dict(name="L%d-%s%s" % (i, kind, "-layered" if layered else ""), part="L", opts=o, np=gen.ranks(rng, o),
                        q=[(-K[0].dot(g)).tolist(), (-K[-1].dot(np.array(g) + [0, 0, dg])).tolist()], mid=mid[2]))
    return out


def run_linear(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    P, F = t.cell("U"), t.cell("F")
    out, sc, bnd = ref.linear_fluxes(t, lambda x: np.array(c["q"][0] if x[2] <= c["mid"] + 1e-9 else c["q"][1]), P, t.field("sr"), bc=True)
    err = np.abs(F - out) / sc
    ck.ev(1, c["name"])
    ck.count("cells_exact_linear", t.n)
    b = ~(err < 1e-10)
    if b.any():
        raise Fail("%s: %d of %d cells (%d on the boundary) off the exact flux of a linear pressure, by up to %.2e of the face fluxes" % (c["name"], b.sum(), t.n, (b & bnd).sum(), np.nanmax(err)))


def check(ck, only=None):
    cs = [only] if only else cases_two_point(ck) + cases_linear(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: (run_two_point if c["part"] == "T" else run_linear)(ck, c), cs)
