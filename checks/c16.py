"""The diagnostics state what the accepted solution holds."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one cell value of a diagnostic (saturation, mass or pressure) compared with the value that follows from the solution",
            assumptions=["natural order is the order of the run on one process (meshes with plane faces; cells matched by centroid)", "saturation from the documented curve with the default parameters"])


def modes(rng, o, form):
    o.update(gen.soil(rng))
    o["tdy_water_density"] = rng.choice(["constant", "exponential", "batzle_and_wang"])
    o.update(h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O", h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng), h_kstyle="iso")
    if form == "th":
        o.update(h_mode="TH", h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_txx="const:1", h_tstyle="iso", h_f_rho="const:2000", h_f_cp="const:1000")
    if form == "sal":
        o.update(h_mode="SALINITY", h_f_C="hash:0.01,0.2,%d" % gen.seed(rng), h_f_Cprev="hash:0,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="hash:50,60,%d" % gen.seed(rng))


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(40 if ck.quick else 600):
        form = ["fvtpf", "mpfao", "th", "sal", "mpfao-ts"][i % 5]
        o = gen.mesh(rng, rng.choice(gen.PLANE), 4)
        if o["h_mesh"] == "box" and rng.random() < .6:
            o["h_perm"] = gen.seed(rng)
        modes(rng, o, form)
        o.update(h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_nstate=3, h_diag=2, h_bctype="NEUMANN_BC")
        if form in ("th", "mpfao-ts"):
            o.update(h_ts=1, h_f_Pdot="const:0", h_f_Tdot="const:0")
        out.append(dict(name="D%d-%s" % (i, form), prog="fv", opts=o, np=gen.ranks(rng, o, (1, 2, 3, 4))))
    for i in range(16 if ck.quick else 240):
        form = ["fvtpf", "mpfao", "th", "mpfao-ts"][i % 4]
        o = gen.mesh(rng, rng.choice(["box", "box", "column", "wedge"]), 4)
        modes(rng, o, form)
        o.update(tdy_dt_init=1.0, tdy_dt_max=1.0, tdy_dt_growth_factor=1.0, ksp_type="preonly", pc_type="redundant", h_f_P="hash:%d,%d,%d" % (rng.randint(80000, 90000), rng.randint(92000, 120000), gen.seed(rng)),
                 snes_rtol=1e-9 if form != "th" else 1e-7, snes_max_it=60, tdy_time_integration_method="SNES" if form in ("fvtpf", "mpfao") else "TS", h_sync=[1.0, 3.0], h_diag=1, h_bctype="NEUMANN_BC")
        if form == "fvtpf" and rng.random() < .6:
            o.update(h_failat=[rng.randint(0, 4)], tdy_dt_growth_factor=1.5, tdy_dt_max=2.0)
        out.append(dict(name="R%d-%s" % (i, form), prog="step", opts=o, np=gen.ranks(rng, o)))
    return out


def expect(o, t, U):
    """saturation, mass and pressure of the cells of a recorded state"""
    dof = U.shape[1]
    P, f, sr, poro = U[:, 0], 0.0, t.field("sr"), t.field("poro")
    if o.get("h_mode") == "SALINITY":
        w = U[:, 1] * t.field("mw")
        f = w / (w + 999.0)
    S = ref.sat(P, sr)
    return S, ref.RHO[o["tdy_water_density"]](P, ref.TREF, f) * poro * S * t.vol, P


def one(ck, c):
    o, nm = c["opts"], c["name"]
    t = run(c["prog"], opts(o), np_=c["np"])
    if c["prog"] == "step" and t.rc and ("DIVERGED" in t.out or "maximum time step cuts" in t.out or "not implemented" in t.out):
        raise Skip("the solver did not converge")
    t = need_ok(t, nm)
    ix = np.arange(t.n)
    if c["np"] > 1:
        q = dict(o, h_nstate=1) if c["prog"] == "fv" else dict(o, h_nstate=1, h_ts=0)
        for k in ("h_mode", "h_diag", "h_ts", "h_sync", "h_failat"):
            q.pop(k, None)
        q["h_disc"] = "FV_TPF"
        a = need_ok(run("fv", opts(q)), nm + ": the mesh on one process")
        ix = match(a.x, t.x)
    ns = o["h_nstate"] if c["prog"] == "fv" else len(o["h_sync"])
    masses = []
    for s in range(ns):
        U = t.vec[("U", s) if c["prog"] == "fv" else ("endprev", s)].reshape(t.n, -1)
        for d, w in zip(("sat", "mass", "pres"), expect(o, t, U)):
            got = t.vec[(d, s)]
            if len(got) != t.n:
                raise Fail("%s: %d values of the diagnostic for %d cells" % (nm, len(got), t.n))
            w = w[ix]
            q, i = worst(got, w, 1e-9 * np.abs(w) + 1e-12 * np.max(np.abs(w)))
            ck.ev(t.n, nm)
            ck.count("values_" + d, t.n)
            if q > 1:
                raise Fail("%s on %d process(es), state %d: the %s of cell %d is %.12g, its solution gives %.12g" % (nm, c["np"], s, dict(sat="saturation", mass="liquid mass", pres="liquid pressure")[d], i, got[i], w[i]))
        masses.append(float(np.sum(t.vec[("mass", s)])))
    if c["prog"] == "step" and o["tdy_time_integration_method"] == "SNES":
        m0 = float(np.sum(expect(o, t, t.vec[("init", 0)].reshape(t.n, -1))[1]))
        ck.ev(1, nm)
        ck.count("closed_runs")
        for m in masses:
            if abs(m - m0) > 1e-6 * m0:
                raise Fail("%s: in a closed domain the masses add up to %.12g, at the start they were %.12g" % (nm, m, m0))
    ck.count("forms_" + nm.split("-", 1)[1])


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
