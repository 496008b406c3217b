"""The assembled Jacobian is the derivative of the assembled residual."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one Jacobian whose every entry was compared with central differences of the residual, column by column",
            assumptions=["entries whose one-sided differences disagree (upwind switch or kink within the step) are skipped and counted",
                         "scoped to Richards: MPFA-O (SNES and TS forms) with boundary pressures from a function or closed boundaries, FV-TPF with all boundary types; and to the blocks of the thermo-hydro Jacobian that are correct, with closed boundaries; other Jacobians are known findings"])


def cases(ck):
    rng = ck.rng
    out = []
    forms = ["mpfao-DIRICHLET", "mpfao-NEUMANN", "mpfao-SEEPAGE", "mpfao-ts-DIRICHLET", "mpfao-ts-NEUMANN",
             "fvtpf-DIRICHLET", "fvtpf-NEUMANN", "fvtpf-SEEPAGE", "fvtpf-mixed"]
    n = 90 if ck.quick else 900
    for i in range(n):
        form = forms[i % len(forms)]
        kind = rng.choice(["box", "pert", "column", "wedge", "wedgepert"])
        o = gen.mesh(rng, kind, 3)
        if gen.ncells(o) > 20:
            o["h_n"] = [2, 2, 2]
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        if form.startswith("fvtpf"):
            o.update(gen.perm(rng, "iso")); o["h_disc"] = "FV_TPF"
            bc = form.split("-")[1]
            o["h_f_pbct"] = "hash:0,3,%d" % gen.seed(rng) if bc == "mixed" else "const:%g" % (["DIRICHLET", "NEUMANN", "SEEPAGE"].index(bc) + .5)
        else:
            o.update(gen.perm(rng, rng.choice(["iso", "diag", "tens"]))); o["h_disc"] = "MPFA_O"
            o["h_bctype"] = form.split("-")[-1] + "_BC"
        w = rng.choice(["dry", "mixed", "wet", "dry", "mixed"])
        lo, hi = {"dry": (85000, 99000), "mixed": (93000, 108000), "wet": (102000, 130000)}[w]
        o["h_f_P"] = "hash:%d,%d,%d" % (lo, hi, gen.seed(rng))
        o["h_f_Pprev"] = "hash:%d,%d,%d" % (lo, hi, gen.seed(rng))
        o["h_f_pbc"] = "hash:%d,%d,%d" % (88000, 112000, gen.seed(rng))
        if "-ts-" in form:
            o.update(h_ts=1, h_f_Pdot="hash:-1e-3,1e-3,%d" % gen.seed(rng), h_shift=float("%.3g" % 10 ** rng.uniform(-8, -4)))
        o.update(h_jac=1, h_fd=1, h_nstate=1, h_dt=round(10 ** rng.uniform(3, 8), 1), h_fdh=[0.5, 1e-3, 1e-6])
        out.append(dict(name="J%d-%s-%s" % (i, form, kind), opts=o, np=gen.ranks(rng, o, (1, 1, 1, 2, 3)), form=form))
    for i in range(15 if ck.quick else 150):
        # thermo-hydro, closed boundaries: all blocks but the derivative of the water balance with respect to temperature
        o = gen.mesh(rng, rng.choice(["box", "pert", "column", "wedge", "wedgepert"]), 3)
        if gen.ncells(o) > 20:
            o["h_n"] = [2, 2, 2]
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng, rng.choice(["iso", "diag", "tens"])))
        if o["tdy_water_density"] == "exponential":      # its slope times depth is the other half of that finding
            o["tdy_water_density"] = "constant"
        lo, hi = rng.choice([(85000, 99000), (93000, 108000), (102000, 130000)])
        o.update(h_mode="TH", h_ts=1, h_f_rho="hash:1500,3200,%d" % gen.seed(rng), h_f_cp="hash:400,1600,%d" % gen.seed(rng), h_f_txx="hash:0.2,4,%d" % gen.seed(rng), h_tstyle="iso",
                 h_bctype="NEUMANN_BC", h_f_P="hash:%d,%d,%d" % (lo, hi, gen.seed(rng)), h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_Pdot="const:0", h_f_Tdot="hash:-1e-4,1e-4,%d" % gen.seed(rng),
                 h_shift=float("%.3g" % 10 ** rng.uniform(-8, -4)), h_jac=1, h_fd=1, h_nstate=1, h_fdh=[0.5, 1e-3, 1e-6])
        out.append(dict(name="H%d-th" % i, opts=o, np=gen.ranks(rng, o, (1, 1, 1, 2, 3)), form="th-closed"))
    for i in range(20 if ck.quick else 160):
        # storage alone: rock so tight that nothing flows, and steps of the difference chosen so that the smallest term (compressibility times the slope of the curve) stands out of its error
        form = ["mpfao-ts", "mpfao", "fvtpf", "mpfao-ts"][i % 4]
        wet = i % 8 < 4
        o = gen.mesh(rng, rng.choice(["box", "pert", "wedge"]) if form != "fvtpf" else "box", 3)
        if gen.ncells(o) > 20:
            o["h_n"] = [2, 2, 2]
        o.update(gen.soil(rng)); o.update(h_f_kxx="const:1e-30", h_kstyle="iso", tdy_water_density="exponential" if wet and i % 3 else "batzle_and_wang", h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O")
        lo, hi = (2e5, 2e7) if wet else (86000, 95000)
        o.update(h_f_P="hash:%g,%g,%d" % (lo, hi, gen.seed(rng)), h_f_Pprev="hash:%g,%g,%d" % (lo, hi, gen.seed(rng)), h_jac=1, h_fd=1, h_nstate=1, h_fdh=[1e5 if wet else 0.5], h_dt=round(10 ** rng.uniform(1, 5), 1))
        if form == "mpfao-ts":
            o.update(h_ts=1, h_f_Pdot="hash:0.5,1,%d" % gen.seed(rng), h_shift=0 if rng.random() < 0.7 else 1e-7)
        if form != "fvtpf":
            o["h_bctype"] = "NEUMANN_BC"
        else:
            o["h_f_pbct"] = "const:1.5"
        out.append(dict(name="S%d-%s-%s" % (i, form, "wet" if wet else "dry"), opts=o, np=gen.ranks(rng, o, (1, 1, 1, 2, 3)), form="storage"))
    # forms whose Jacobian is known to be incomplete: listed findings, each with its own key
    b = dict(h_mesh="box", h_n=[3, 3, 2], h_hi=[3, 3, 2], h_jac=1, h_fd=1, h_nstate=1, h_f_poro="hash:0.2,0.4,1", h_f_kxx="lhash:1e-13,1e-11,2", h_f_sr="hash:0.05,0.2,3",
             h_dt=1e5, h_f_P="hash:90000,100000,5", h_f_Pprev="hash:90000,100000,6", h_disc="MPFA_O")
    out.append(dict(name="K-cell-pressure-boundary", key="mpfao-dirichlet-without-boundary-function", opts=dict(b), np=1, form="known"))
    h = dict(b, h_mode="TH", h_ts=1, h_f_rho="const:2000", h_f_cp="const:1000", h_f_txx="const:1", h_tstyle="iso", h_f_T="hash:5,60,7", h_f_Pdot="const:0", h_f_Tdot="const:0", h_shift=1e-6,
             h_fdh=[0.5, 1e-3, 1e-6], h_bctype="NEUMANN_BC")
    h.pop("h_f_Pprev"), h.pop("h_dt")
    out.append(dict(name="K-th-water-by-temperature", key="th-water-by-temperature", opts=h, np=1, form="known"))
    out.append(dict(name="K-th-held-boundary", key="th-held-boundary", opts=dict(h, h_bctype="DIRICHLET_BC", h_f_pbc="hash:88000,112000,8", h_f_tbc="hash:5,60,9"), np=1, form="known", blocks=1))
    z = dict(b, h_mode="SALINITY", h_f_dxx="const:1e-9", h_dstyle="iso", h_f_mw="const:58.44", h_f_C="hash:10,30,7", h_f_Cprev="hash:10,30,8", h_bctype="NEUMANN_BC", h_fdh=[0.5, 1e-3, 1e-3])
    out.append(dict(name="K-salinity", key="salinity-no-jacobian", opts=z, np=1, form="known"))
    return out


def run_one(ck, c):
    o = c["opts"]
    r = run("fv", opts(o), np_=c["np"])
    if c.get("key") == "salinity-no-jacobian" and r.rc != 0 and "no Jacobian" in r.out:
        return
    t = need_ok(r)
    D = 2 if o.get("h_mode") in ("TH", "SALINITY") else 1
    N = t.n * D
    h = np.tile(np.array(o.get("h_fdh", [1.0, 1.0])[:D]), t.n)[None, :]
    J = t.dense("J")
    F = t.vec[("F", 0)]
    Fp = np.array([t.vec[("FDp%d" % j, 0)] for j in range(N)]).T
    Fm = np.array([t.vec[("FDm%d" % j, 0)] for j in range(N)]).T
    A = (Fp - Fm) / (2 * h)
    jump = np.abs(Fp - 2 * F[:, None] + Fm) / h
    blk = (np.arange(N)[:, None] % D) * D + np.arange(N)[None, :] % D
    off = np.abs(A - np.diag(np.diag(A)))
    ref_ = np.minimum(off.max(1)[:, None], off.max(0)[None, :])
    # the size of what is summed into an entry, with its rounding error
    base = np.maximum(np.abs(A), 0)
    big = np.abs(A).max(1)[:, None] * h
    rel = 2e-3 if c["form"] == "th-closed" else 2e-4     # thermo-hydro: see the finding th-water-by-temperature
    tol = rel * np.abs(A) + 1e-5 * ref_ + 3e-13 * (np.abs(F)[:, None] + big) / h + 1e-30
    tol = np.maximum(tol, 3e-13 * np.abs(A).max()) + jump     # the one-sided differences bracket the derivative where the curve bends
    err = np.abs(J - A)
    if c["form"] == "storage":
        f = np.abs(F) if o.get("h_ts") else np.abs(np.diag(A)) * 2e3
        tol = np.diag(1e-10 * f + 1e-30) + np.diag(2e-5 * np.abs(np.diag(A)) if "wet" in c["name"] or not o.get("h_ts") else 0 * f) + 1e-12 * np.abs(A).max()
    kink = jump > 0.02 * np.abs(A) + 10 * (tol - jump)
    bad = (~(err <= tol)) & ~kink
    if c["form"] == "th-closed" or c.get("blocks"):
        bad &= blk != 1
    nz = np.abs(A) > 0
    ck.ev(1, c["name"])
    ck.count("entries_compared", int((nz & ~kink).sum())); ck.count("entries_skipped_kink", int((kink & nz).sum()))
    ck.count("jacobians_" + c["form"])
    if bad.any():
        i, j = np.unravel_index(np.argmax(np.where(bad, err / tol, 0)), err.shape)
        raise Fail("%s: %d of %d entries differ from the differenced residual; entry (%d,%d) is %.6e, derivative %.6e" % (c["name"], bad.sum(), nz.sum(), i, j, J[i, j], A[i, j]))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: run_one(ck, c), cs)
