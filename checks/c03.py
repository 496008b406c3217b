"""Water mass is conserved: residuals telescope, and time steps balance."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one recorded state whose cell residuals were summed against the storage change and sources (part A), or one accepted time step whose mass change was balanced against sources and boundary fluxes (part B)",
            assumptions=["sources are per-cell mass rates in SNES runs and rates per volume in TS runs, as the code defines them",
                         "part A uses closed boundaries; part B uses boundary fluxes from the reference two-point model on box meshes"])
TOLA, TOLB = 1e-9, 2e-6


def cases_a(ck):
    rng = ck.rng
    out = []
    kinds = gen.PLANE + gen.WARPED
    n = 30 if ck.quick else 400
    for i in range(n):
        form = ["mpfao-snes", "fvtpf-snes", "mpfao-ts"][i % 3]
        o = gen.mesh(rng, kinds[(i // 3) % len(kinds)], nmax=3 if ck.quick else 4)
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, "iso" if form.startswith("fvtpf") else None))
        o.update(h_nstate=2 if ck.quick else 4, h_dt=round(10 ** rng.uniform(0, 6), 3), h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng))
        if form.startswith("fvtpf"):
            o["h_disc"] = "FV_TPF"
            if rng.random() < 0.5:
                o["h_f_pbct"] = "const:1.5"
                o["h_f_pbc"] = gen.pressure(rng)
        else:
            o["h_disc"] = "MPFA_O"; o["h_bctype"] = "NEUMANN_BC"
            if rng.random() < 0.3:
                o["h_f_pbc"] = gen.pressure(rng)
        if form == "mpfao-ts":
            o["h_ts"] = 1; o["h_f_Pdot"] = "hash:-10,10,%d" % gen.seed(rng)
        out.append(dict(name="A%d-%s" % (i, form), part="A", opts=o, np=1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o)))
    for form in ("mpfao-snes", "fvtpf-snes", "mpfao-ts"):
        # a water source: the one class of case in which TDySetForcingFunction matters
        o = dict(h_mesh="box", h_n=[2, 2, 2], h_f_poro="const:0.3", h_f_kxx="const:1e-11", h_f_sr="const:0.1", tdy_water_density="constant",
                 h_nstate=1, h_dt=100.0, h_f_P="const:90000", h_f_Pprev="const:90000", h_f_src="const:0.01",
                 h_disc="FV_TPF" if form.startswith("fv") else "MPFA_O")
        if form.startswith("fv"):
            o.update(h_f_pbct="const:1.5", h_f_pbc="const:90000")
        else:
            o["h_bctype"] = "NEUMANN_BC"
        if form == "mpfao-ts":
            o.update(h_ts=1, h_f_Pdot="const:0.0")
        out.append(dict(name="S-" + form, key="source-ignored-" + form, part="A", opts=o, np=1))
    return out


def run_a(ck, c):
    o = c["opts"]
    r = run("fv", opts(o), np_=c["np"])
    t = need_ok(r)
    rho = ref.RHO[o["tdy_water_density"]]
    poro, sr = t.field("poro"), t.field("sr")
    src = t.field("src", 0.0)
    for s in range(o["h_nstate"]):
        P, F = t.cell("U", s), t.cell("F", s)
        if o.get("h_ts"):
            Pd = t.cell("Ud", s)
            dP = 1.0
            # d(rho phi S)/dt by a centred difference in the direction of Pdot
            h = 1e-3 / np.maximum(np.abs(Pd), 1e-9)
            acc = (ref.mass(P + h * Pd, poro, sr, t.vol, rho) - ref.mass(P - h * Pd, poro, sr, t.vol, rho)) / (2 * h)
            q = src * t.vol
            # exact derivative where the difference is inaccurate: use analytic saturation derivative
            S, dS = ref.sat(P, sr), ref.dsat(P, sr)
            e = 1e-1
            drho = (rho(P + e) - rho(P - e)) / (2 * e)
            if o["tdy_water_density"] == "exponential":
                drho = np.where(P > ref.PREF, 1e-8 * rho(P), 0.0)
            acc = poro * t.vol * (drho * S + rho(P) * dS) * Pd
            tol = 1e-6 if o["tdy_water_density"] == "batzle_and_wang" else TOLA
            base = np.sum(np.abs(acc))
        else:
            Pp = t.cell("Up", s)
            m1, m0 = ref.mass(P, poro, sr, t.vol, rho), ref.mass(Pp, poro, sr, t.vol, rho)
            acc = (m1 - m0) / o["h_dt"]
            q = src * t.vol
            tol = TOLA
            base = np.sum(np.abs(m1) + np.abs(m0)) / o["h_dt"] * 1e-4
        scale = np.sum(np.abs(F)) + base + np.sum(np.abs(q))
        err = abs(np.sum(F) - np.sum(acc) + np.sum(q))
        ck.ev(1, (c["name"], s))
        ck.count("faces_interior", sum(1 for f in t.faces if min(f["c"]) >= 0))
        ck.count("states_np%d" % c["np"])
        flux = F - acc + q
        if np.max(np.abs(flux)) > 1e-6 * scale / t.n:
            ck.count("states_with_flow")
        if not err <= tol * scale:
            raise Fail("%s: the residuals of a closed domain sum to %.6e but storage change minus sources is %.6e (scale %.3e)" %
                       (c["name"], np.sum(F), np.sum(acc) - np.sum(q), scale))


def cases_b(ck):
    rng = ck.rng
    out = []
    for i in range(9 if ck.quick else 80):
        form = ["mpfao", "fvtpf", "ts"][i % 3]
        o = gen.box(rng, 3)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso" if form == "fvtpf" else rng.choice(["iso", "diag"])))
        o["tdy_water_density"] = rng.choice(["constant", "exponential"])
        o["h_f_P"] = "hash:%d,%d,%d" % (rng.randint(60000, 80000), rng.randint(90000, 99000), gen.seed(rng))
        o.update(tdy_dt_init=round(10 ** rng.uniform(0, 2), 3), snes_rtol=1e-8, snes_stol=0, snes_atol=1e-13, ksp_type="preonly", pc_type="lu", snes_max_it=60)
        o["h_sync"] = [o["tdy_dt_init"] * k for k in (1.5, 4.0, 9.0)]
        closed = rng.random() < 0.4
        if form == "fvtpf":
            o["h_disc"] = "FV_TPF"
            o["h_f_pbct"] = "const:1.5" if closed else "const:0.5"
        else:
            o["h_disc"] = "MPFA_O"
            o["h_bctype"] = "NEUMANN_BC" if closed else "DIRICHLET_BC"
        o["h_f_pbc"] = "hash:%d,%d,%d" % (85000, 99000, gen.seed(rng))
        if form == "ts":
            o["tdy_time_integration_method"] = "TS"
        np_ = 1
        out.append(dict(name="B%d-%s%s" % (i, form, "-closed" if closed else ""), part="B", opts=o, np=np_, closed=closed))
    return out


def run_b(ck, c):
    o = c["opts"]
    r = run("step", opts(o), np_=c["np"])
    if r.rc != 0 and ("DIVERGED" in r.out or "cuts" in r.out):
        ck.count("runs_not_converged")     # the equations were not solved: nothing to balance
        return
    t = need_ok(r)
    rho = ref.RHO[o["tdy_water_density"]]
    poro, sr, src = t.field("poro"), t.field("sr"), t.field("src", 0.0)
    K = gen.kfun(t)
    ts = o.get("tdy_time_integration_method") == "TS"
    steps = []
    if ts:
        T = sorted(t.X["T"], key=lambda x: int(x[1]))
        for a, b in zip(T, T[1:]):
            if float(b[3]) > float(a[3]):
                steps.append((float(b[3]) - float(a[3]), t.vec[("tsol", int(a[1]))], t.vec[("tsol", int(b[1]))]))
    else:
        B = {int(x[1]): x for x in t.X["B"]}
        for x in t.X["E"]:
            i = int(x[1])
            if int(x[2]) > 0:
                steps.append((float(B[i][3]), t.vec[("prev", i)], t.vec[("sol", i)]))
    if not steps:
        raise Fail("%s: no accepted time step was observed" % c["name"])
    bc = "NEUMANN" if c["closed"] else "DIRICHLET"
    for k, (dt, p0, p1) in enumerate(steps):
        m0, m1 = ref.mass(p0, poro, sr, t.vol, rho), ref.mass(p1, poro, sr, t.vol, rho)
        out, sc, rec = ref.tpfa(t, p1, K, sr, rho=rho, bc=bc, scheme="fvtpf" if o["h_disc"] == "FV_TPF" else "mpfao")
        want = dt * (np.sum(src) - np.sum(out))
        got = np.sum(m1) - np.sum(m0)
        scale = dt * (np.sum(np.abs([q for _, _, q, _ in rec])) + np.sum(np.abs(src))) + np.sum(np.abs(m1 - m0))
        if ts:
            # backward Euler on dM/dP * dP/dt: not mass-conservative beyond first order in the step
            dP = p1 - p0
            S, dS = ref.sat(p1, sr), ref.dsat(p1, sr)
            drho = np.where(p1 > ref.PREF, 1e-8 * rho(p1), 0.0) if o["tdy_water_density"] == "exponential" else 0.0
            got = np.sum(poro * t.vol * (drho * S + rho(p1) * dS) * dP)
        ck.ev(1, (c["name"], k))
        ck.count("steps_%s" % ("closed" if c["closed"] else "open"))
        if not abs(got - want) <= (TOLB if not ts else 2e-5) * scale + 1e-13 * np.sum(m1):
            raise Fail("%s step %d: stored mass changed by %.9e, sources and boundary fluxes account for %.9e (scale %.3e)" % (c["name"], k, got, want, scale))


def check(ck, only=None):
    cs = [only] if only else cases_a(ck) + cases_b(ck)
    ck.sample({"first": cs[0]["name"], "cases": len(cs), "example": cs[0]["opts"]})
    nb = sum(1 for c in cs if c["part"] == "B")
    ck.map(lambda c: (run_a if c["part"] == "A" else run_b)(ck, c), cs)
    if ck.counts.get("runs_not_converged", 0) > max(1, nb // 2):
        ck.violate("no-convergence", "%d of %d time-stepping runs did not converge" % (ck.counts["runs_not_converged"], nb), cs[-1])
