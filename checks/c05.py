"""Water at rest stays at rest: a hydrostatic pressure gives no residual, and time stepping keeps it."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one mesh and material whose hydrostatic state was assembled (all cell residuals compared with zero), or one time-stepping run started at rest whose every accepted state was compared with the start",
            assumptions=["constant water density, and the same pressure imposed at boundary faces",
                         "scoped to grids where the method balances gravity by construction: boxes with axis-aligned permeability and, for FV-TPF, grids of moved columns and prisms with isotropic permeability; MPFA-O on moved columns and prisms with uniform isotropic permeability"])
RHO = 998.0


def cases(ck):
    rng = ck.rng
    out = []
    n = 36 if ck.quick else 400
    for i in range(n):
        scheme = ["MPFA_O", "FV_TPF"][i % 2]
        step = i % 6 >= 4
        kind = ["box", "pert", "wedge", "wedgepert"][(i // 2) % 4] if not step else "box"
        o = gen.mesh(rng, kind, 3 if ck.quick else 4)
        o.update(gen.soil(rng))
        uniform = kind != "box" and scheme == "MPFA_O"
        o.update(gen.perm(rng, "iso" if kind != "box" or (scheme == "FV_TPF") else rng.choice(["iso", "diag"])))
        if uniform:
            o["h_f_kxx"] = "const:%.6g" % (10 ** rng.uniform(-18, -10))
        g = rng.choice([ref.G, ref.G, 1.62, 24.79])
        z0 = rng.uniform(o["h_lo"][2], o["h_hi"][2])
        P = "lin:%.17g,0,0,%.17g" % (rng.choice([ref.PREF, 96000, 120000, 250000]) + RHO * g * z0, -RHO * g)
        o.update(h_disc=scheme, tdy_water_density="constant", tdy_gravity=g, h_f_P=P, h_f_Pprev=P, h_dt=round(10 ** rng.uniform(0, 6), 2), h_nstate=1)
        bc = rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"])
        o["h_f_pbc"] = P
        if scheme == "FV_TPF":
            o["h_f_pbct"] = "const:%g" % (["DIRICHLET", "NEUMANN", "SEEPAGE"].index(bc) + .5)
        else:
            o["h_bctype"] = bc + "_BC"
            if uniform and bc == "SEEPAGE":
                o["h_bctype"] = "NEUMANN_BC"
        if step:
            kmax = max(float(v.split(":")[1].split(",")[1]) for k, v in o.items() if k in ("h_f_kxx", "h_f_kyy", "h_f_kzz"))
            ext = [b - a for a, b in zip(o["h_lo"], o["h_hi"])]
            # at rest the first residual is rounding error: without an absolute tolerance there is nothing to converge to
            o["snes_atol"] = 1e-9 * RHO / 9.94e-4 * kmax * RHO * g * ext[0] * ext[1]
            o.update(tdy_dt_init=10.0, h_sync=[10, 200, 2000], ksp_type="preonly", pc_type="lu")
            if scheme == "MPFA_O" and rng.random() < 0.5:
                o["tdy_time_integration_method"] = "TS"
        out.append(dict(name="%s%d-%s-%s-%s" % ("R" if step else "A", i, scheme, kind, bc), opts=o, np=gen.ranks(rng, o) if not step else 1, step=step, g=g))
    return out


def run_one(ck, c):
    o = c["opts"]
    t = need_ok(run("step" if c["step"] else "fv", opts(o), np_=c["np"]))
    h = o["h_hi"][2] - o["h_lo"][2]
    if c["step"]:
        P0 = t.vec[("init", 0)]
        n = 0
        for k, v in t.vec.items():
            if k[0] in ("sol", "tsol", "end"):
                n += 1
                d = np.max(np.abs(v - P0))
                if not d <= 1e-5 * RHO * c["g"] * h:
                    raise Fail("%s: water at rest moved: pressure of %s %d is off by %.3e Pa" % (c["name"], k[0], k[1], d))
        ck.ev(1, c["name"]); ck.count("states_at_rest_stepped", n)
        return
    K = gen.kfun(t)
    kz = np.array([K(i, np.array([0, 0, 1.0])) for i in range(t.n)])
    kx = np.array([max(K(i, np.array([1.0, 0, 0])), K(i, np.array([0, 1.0, 0]))) for i in range(t.n)])
    Smax = 0.0
    A = max(f["area"] for f in t.faces)
    sc = RHO / 9.94e-4 * max(kz.max(), kx.max()) * RHO * c["g"] * A
    F = t.cell("F")
    e = np.max(np.abs(F)) / sc
    ck.ev(1, c["name"]); ck.count("cells_at_rest", t.n)
    with ck.lock:
        ck.counts["worst"] = max(ck.counts.get("worst", 0), float(e))
    if not e <= 1e-10:
        raise Fail("%s: at hydrostatic pressure the largest residual is %.3e of rho*K*rho*g/mu*A" % (c["name"], e))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: run_one(ck, c), cs)
