"""The number of processes does not change what is computed."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one run on several processes whose residual, Jacobian, diagnostics or end state was compared cell by cell with the run on one process",
            assumptions=["meshes with plane faces (the geometry PETSc gives a warped face depends on its vertex order)", "rounding: 1e-9 of the size of the summed terms; end states: solver tolerances tightened, 1e-6"])


def cases(ck):
    rng = ck.rng
    out = []
    kinds = gen.PLANE
    forms = ["mpfao", "fvtpf", "mpfao-ts", "th", "dae", "transientvar"]
    n = 64 if ck.quick else 640
    for i in range(n):
        form = forms[i % 4]
        o = gen.mesh(rng, kinds[(i // 4) % len(kinds)], 4)
        o["h_n"] = [max(2, k) for k in o["h_n"]]
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, "iso" if form == "fvtpf" else None))
        o.update(h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_f_pbc=gen.pressure(rng), h_dt=round(10 ** rng.uniform(1, 6), 2), h_nstate=2, h_jac=1)
        if form == "fvtpf":
            o.update(h_disc="FV_TPF", h_f_pbct="hash:0,3,%d" % gen.seed(rng), h_diag=1)
        else:
            o.update(h_disc="MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC")
            if form == "mpfao":
                o["h_diag"] = 1
        if form in ("mpfao-ts", "th"):
            o.update(h_ts=1, h_f_Pdot="hash:-1,1,%d" % gen.seed(rng), h_shift=1e-4)
        if form == "th":
            o.update(h_mode="TH", h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_Tdot="hash:-0.01,0.01,%d" % gen.seed(rng), h_f_txx="hash:0.5,3,%d" % gen.seed(rng), h_f_rho="hash:2000,3000,%d" % gen.seed(rng), h_f_cp="hash:500,1500,%d" % gen.seed(rng))
            o["h_f_tbc"] = "hash:5,60,%d" % gen.seed(rng)
            o["h_bctype"] = "NEUMANN_BC" if o["h_bctype"].startswith("SEEP") else o["h_bctype"]
        nc = gen.ncells(o)
        ps = [k for k in (2, 3, 4, 5, 6) if 2 * k <= nc]
        ps = rng.sample(ps, min(len(ps), 1 if ck.quick else 2))
        if not ps:
            continue
        out.append(dict(name="A%d-%s" % (i, form), opts=o, nps=ps, prog="fv", form=form))
    # time stepping: same end state
    for i in range(8 if ck.quick else 80):
        form = ["fvtpf", "mpfao", "mpfao-ts", "fvtpf"][i % 4]
        o = gen.box(rng, 4, nmin=2)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso")); o["tdy_water_density"] = "exponential"
        o["h_f_P"] = "hash:%d,%d,%d" % (85000, 96000, gen.seed(rng))
        o["h_f_pbc"] = "hash:%d,%d,%d" % (88000, 99000, gen.seed(rng))
        o.update(tdy_dt_init=round(10 ** rng.uniform(0, 1.5), 2), snes_rtol=1e-12, snes_stol=0, snes_atol=1e-12, snes_max_it=40, ksp_rtol=1e-13, h_dumpv=0)
        o["h_sync"] = [o["tdy_dt_init"] * k for k in (1.5, 4.0, 9.0)]
        if form == "fvtpf":
            o.update(h_disc="FV_TPF", h_f_pbct="const:%g" % rng.choice([.5, 1.5]))
        else:
            o.update(h_disc="MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN"]) + "_BC")
        if form == "mpfao-ts":
            o["tdy_time_integration_method"] = "TS"
        out.append(dict(name="B%d-%s" % (i, form), opts=o, nps=[rng.choice([2, 3, 4])], prog="step", form=form))
    return out


def run_one(ck, c):
    o = c["opts"]
    r1 = run(c["prog"], opts(o))
    if c["prog"] == "step" and r1.rc != 0 and ("DIVERGED" in r1.out or "TDyPreSolveSNESSolver not implemented" in r1.out):
        ck.count("runs_not_converged")
        return
    a = need_ok(r1)
    for np_ in c["nps"]:
        b = need_ok(run(c["prog"], opts(o), np_=np_), "%d processes" % np_)
        ix = match(a.x, b.x)
        q, i = worst(a.vol, b.vol[ix], 1e-9 * a.vol)
        if q > 1:
            raise Fail("%s on %d processes: a cell's volume differs" % (c["name"], np_))
        ck.ev(1, (c["name"], np_))
        ck.count("np%d" % np_); ck.count("cells_ghosted_runs", b.n)
        dof = a.dof
        if c["prog"] == "step":
            for k in sorted(k for k in a.vec if k[0] == "end"):
                q, i = worst(a.vec[k], b.vec[k][ix], 1e-6 * np.abs(a.vec[k]).max())
                if q > 1:
                    raise Fail("%s on %d processes: pressure after target time %d differs at cell %s: %.12g and %.12g" % (c["name"], np_, k[1], a.x[i].round(3), a.vec[k][i], b.vec[k][ix][i]))
            continue
        for s in range(o["h_nstate"]):
            same_system(ck, "%s on %d processes" % (c["name"], np_), a, b, ix, s)
            if o.get("h_diag"):
                # natural order does not depend on the partition
                for nm in ("sat", "mass"):
                    q, i = worst(np.sort(a.vec[(nm, s)]), np.sort(b.vec[(nm, s)]), 1e-10 * np.abs(a.vec[(nm, s)]).max())
                    if q > 1:
                        raise Fail("%s on %d processes: diagnostic %s differs" % (c["name"], np_, nm))
                    q, i = worst(a.vec[(nm, s)], b.vec[(nm, s)], 1e-10 * np.abs(a.vec[(nm, s)]).max())
                    if q > 1:
                        raise Fail("%s on %d processes: diagnostic %s in natural order is permuted" % (c["name"], np_, nm))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: run_one(ck, c), cs)
