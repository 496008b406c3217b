"""The simulated clock: contiguous accepted steps that end where asked, whatever the solver does."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one recorded solver call or accepted step checked against the clock rules, or one accepted step whose balance was recomputed in every cell",
            assumptions=["solver failures are injected at PETSc's SNESSolve, after the real call, leaving a changed solution vector behind",
                         "the balance of accepted steps is recomputed by the two-point reference on boxes, where both schemes equal it"])


def cases(ck):
    rng = ck.rng
    out = []
    n = 72 if ck.quick else 800
    for i in range(n):
        form = ["fvtpf", "mpfao", "fvtpf", "ts"][i % 4]
        o = gen.box(rng, 3)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso"))
        o["h_f_kxx"] = "lhash:%.6g,%.6g,%d" % (1e-13, 10 ** rng.uniform(-12.5, -11), gen.seed(rng))
        o["tdy_water_density"] = rng.choice(["constant", "exponential"])
        o["h_f_P"] = "hash:%d,%d,%d" % (rng.randint(70000, 90000), rng.randint(92000, 99000), gen.seed(rng))
        dt = round(10 ** rng.uniform(-0.5, 1.5), rng.choice([1, 3, 6])) or 1.0
        o.update(tdy_dt_init=dt, snes_rtol=1e-8, snes_stol=0, snes_atol=1e-14, ksp_type="preonly", pc_type="lu", snes_max_it=60)
        if rng.random() < .7:
            o["tdy_dt_growth_factor"] = rng.choice([1.0, 1.1, 1.5, 2.0, 3.0])
        if form == "fvtpf" and rng.random() < .6:
            o["tdy_dt_reduction_factor"] = rng.choice([0.2, 0.3, 0.5, 0.75])
        if rng.random() < .5:
            o["tdy_dt_max"] = dt * rng.choice([0.7, 1.0, 1.3, 2.0, 5.0])
        sync, t = [], 0.0
        for _ in range(rng.randint(1, 4)):
            t += dt * rng.choice([0.3, 1.0, 2.0, 1.7, 6.0, 3.5])
            sync.append(round(t, rng.choice([2, 6, 9])) or t)
        if rng.random() < .2:
            sync.insert(rng.randrange(len(sync)), sync[-1] if rng.random() < .3 else 0.0)
            sync.sort()
        if i % 9 == 0 and form != "ts":      # times for which t + (S - t) is not S in floating-point numbers
            for _ in range(200):
                S = dt * rng.uniform(2.1, 3.9)
                if dt + (S - dt) != S:
                    break
            sync = [S, S * 1.5]
            o["tdy_dt_growth_factor"] = 3.0; o.pop("tdy_dt_max", None)
        o["h_sync"] = sync
        closed = rng.random() < 0.3
        fail = []
        if form == "fvtpf":
            o["h_disc"] = "FV_TPF"; o["h_f_pbct"] = "const:1.5" if closed else "const:0.5"
            if rng.random() < .75 and i % 9:
                k = 0
                for _ in range(rng.randint(1, 4)):
                    k += rng.randint(0, 4)
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        fail.append(k); k += 1
                o["h_failat"] = fail
                o["tdy_dt_growth_factor"] = rng.choice([1.5, 2.0, 3.0])     # or the run takes for ever after the cuts
        else:
            o["h_disc"] = "MPFA_O"; o["h_bctype"] = "NEUMANN_BC" if closed else "DIRICHLET_BC"
        o["h_f_pbc"] = "hash:%d,%d,%d" % (90000, 98000, gen.seed(rng))
        if form == "ts":
            o["tdy_time_integration_method"] = "TS"
        np_ = gen.ranks(rng, o, (1, 1, 1, 2, 3))
        if np_ > 1:
            o["pc_type"] = "redundant"
        out.append(dict(name="T%d-%s" % (i, form), opts=o, closed=closed, fail=fail, np=np_))
    # failures the integrator cannot recover from must end the run with an error
    for i in range(6 if ck.quick else 40):
        o = dict(out[0]["opts"])
        o.update(gen.box(rng, 2)); o.pop("tdy_dt_max", None); o["pc_type"] = "lu"
        a = rng.randint(0, 3)
        o.update(tdy_dt_init=1.0, tdy_dt_growth_factor=1.0, h_sync=[20.0], h_dumpv=0)
        if i % 2:
            o.update(h_disc="FV_TPF", h_f_pbct="const:0.5", h_failat=list(range(a, a + 60)))
        else:
            o.update(h_disc="MPFA_O", h_bctype="DIRICHLET_BC", h_failat=[a])
        out.append(dict(name="X%d-%s" % (i, o["h_disc"]), opts=o, closed=False, fail=[a], np=1))
    return out


def near(a, b, scale):
    return abs(a - b) <= 1e-11 * (abs(a) + abs(b) + scale)


def fatal(ck, c):
    r = run("step", opts(c["opts"]), np_=1)
    if "HARNESS" in r.out:
        raise Skip("no cells")
    if r.timed_out:
        raise Inconclusive("timed out")
    ck.ev(1, c["name"]); ck.count("unrecoverable_failures")
    if r.rc == 0:
        raise Fail("%s: the solver failed in every attempt from call %d on and the run still ended with exit code 0" % (c["name"], c["fail"][0]))
    E = r.trace.X.get("E", [])
    if not E or int(E[-1][2]) >= 0 and c["opts"]["h_disc"] == "MPFA_O":
        raise Fail("%s: the run went on after a failed solve it cannot recover from" % c["name"])
    if r.rc < 0 or "Signal" in r.out and "Caught signal" in r.out:
        raise Fail("%s: the run crashed (exit %s): %s" % (c["name"], r.rc, why(r)))


def snes(ck, c, t):
    o = c["opts"]
    g, dmax = o.get("tdy_dt_growth_factor", 1.25), o.get("tdy_dt_max", 1e20)
    sync = o["h_sync"]
    B = sorted(t.X.get("B", []), key=lambda x: int(x[1]))
    B = [x for x in B if x[0] == 0]
    E = {int(x[1]): x for x in t.X.get("E", []) if x[0] == 0}
    R = sorted((x for x in t.X["R"] if x[0] == 0), key=lambda x: int(x[1]))
    nm = c["name"]
    time, nacc, want, i = 0.0, 0, o["tdy_dt_init"], 0
    last = t.vec[("init", 0)]
    sc = max(sync)
    natural = want      # the step the integrator would take with no synchronisation point ahead
    acc = []
    for k, S in enumerate(sync):
        first = True
        while i < int(R[k][6]):
            b, e = B[i], E[i]
            tb, dt, ist = float(b[2]), float(b[3]), int(b[4])
            ck.ev(1, (nm, i))
            if not near(tb, time, sc):
                raise Fail("%s: solver call %d starts at time %.15g, the last accepted step ended at %.15g" % (nm, i, tb, time))
            if ist != nacc:
                raise Fail("%s: solver call %d: %d steps counted, %d were accepted" % (nm, i, ist, nacc))
            if not (0 < dt <= (S - time) * (1 + 1e-11) + 1e-12 * sc):
                raise Fail("%s: solver call %d: step %.15g from time %.15g with synchronisation time %.15g" % (nm, i, dt, time, S))
            if natural is None:     # after a failure without a given reduction factor: any smaller step
                if not dt < failed:
                    raise Fail("%s: solver call %d repeats a failed step of %.15g with one of %.15g" % (nm, i, failed, dt))
                natural = dt
            exp = min(natural, S - time)
            if not near(dt, exp, 1e-3 * sc * 1e-8):
                raise Fail("%s: solver call %d at time %.15g: step %.15g, expected %.15g (initial %g, growth %g, largest %g, synchronisation %g)" % (nm, i, time, dt, exp, o["tdy_dt_init"], g, dmax, S))
            if not np.array_equal(t.vec[("prev", i)], last):
                raise Fail("%s: solver call %d does not start from the last accepted state" % (nm, i))
            if not np.array_equal(t.vec[("guess", i)], last):
                raise Fail("%s: solver call %d: the initial guess is not the last accepted state" % (nm, i))
            if int(e[2]) < 0:
                failed, natural = dt, None
                if "tdy_dt_reduction_factor" in o:
                    natural = dt * o["tdy_dt_reduction_factor"]
                ck.count("failed_solves")
            else:
                acc.append((dt, last, t.vec[("sol", i)]))
                if S - time < natural * (1 - 1e-9):      # a step shortened to end at S does end there
                    if i + 1 < int(R[k][6]):
                        raise Fail("%s: another solver call, with a step of %.3g, after the step that was shortened to end at %.17g" % (nm, float(B[i + 1][3]), S))
                    if float(R[k][3]) != S:
                        raise Fail("%s: a step shortened to end at %.17g leaves the clock at %.17g" % (nm, S, float(R[k][3])))
                    ck.count("shortened_steps")
                time += dt
                nacc += 1
                last = t.vec[("sol", i)]
                natural = min(natural * g, dmax)
                ck.count("accepted_steps")
            i += 1
        if S <= 0:
            continue
        r = R[k]
        if not near(float(r[3]), S, sc) or not near(time, S, sc):
            raise Fail("%s: asked to run to %.15g, the clock shows %.15g and the accepted steps end at %.15g" % (nm, S, float(r[3]), time))
        time = float(r[3])
        if int(r[5]) != nacc:
            raise Fail("%s: %d steps counted after %d were accepted" % (nm, int(r[5]), nacc))
        if not np.array_equal(t.vec[("end", k)], last):
            raise Fail("%s: the state after running to %g is not that of the last accepted step" % (nm, S))
        ck.count("synchronisation_points")
    return acc


def ts(ck, c, t):
    nm = c["name"]
    T = sorted((x for x in t.X["T"] if x[0] == 0), key=lambda x: int(x[1]))
    R = sorted((x for x in t.X["R"] if x[0] == 0), key=lambda x: int(x[1]))
    acc = []
    times = [float(x[3]) for x in T]
    for a, b in zip(times, times[1:]):
        if b < a:
            raise Fail("%s: the clock went back from %.15g to %.15g" % (nm, a, b))
    for k, S in enumerate(c["opts"]["h_sync"]):
        if S > 0 and not near(float(R[k][3]), S, S):
            raise Fail("%s: asked to run to %.15g, the clock shows %.15g" % (nm, S, float(R[k][3])))
        ck.ev(1, (nm, k)); ck.count("synchronisation_points")
    for a, b in zip(T, T[1:]):
        if float(b[3]) > float(a[3]):
            acc.append((float(b[3]) - float(a[3]), t.vec[("tsol", int(a[1]))], t.vec[("tsol", int(b[1]))]))
            ck.count("accepted_steps")
    return acc


def balance(ck, c, t, acc):
    """every accepted step solves its equations"""
    o = c["opts"]
    rho = ref.RHO[o["tdy_water_density"]]
    poro, sr = t.field("poro"), t.field("sr")
    K = gen.kfun(t)
    isTS = o.get("tdy_time_integration_method") == "TS"
    for k, (dt, p0, p1) in enumerate(acc):
        out, sc, rec = ref.tpfa(t, p1, K, sr, rho=rho, bc="NEUMANN" if c["closed"] else "DIRICHLET", scheme="fvtpf" if o["h_disc"] == "FV_TPF" else "mpfao")
        if isTS:
            S, dS = ref.sat(p1, sr), ref.dsat(p1, sr)
            drho = np.where(p1 > ref.PREF, 1e-8 * rho(p1), 0.0) if o["tdy_water_density"] == "exponential" else 0.0
            a = poro * t.vol * (drho * S + rho(p1) * dS) * (p1 - p0) / dt
            m1 = 0
        else:
            m0, m1 = ref.mass(p0, poro, sr, t.vol, rho), ref.mass(p1, poro, sr, t.vol, rho)
            a = (m1 - m0) / dt
        # Newton's method stops at 1e-8 of the residual it starts from
        out0, sc0, _ = ref.tpfa(t, p0, K, sr, rho=rho, bc="NEUMANN" if c["closed"] else "DIRICHLET", scheme="fvtpf" if o["h_disc"] == "FV_TPF" else "mpfao")
        tol = 2e-5 * np.linalg.norm(np.abs(out0) + np.abs(out)) + 1e-11 * np.max(m1 if not isTS else 0) / dt + 1e-12 * np.max(sc)
        e = np.abs(a + out)
        e = np.where(np.isnan(e), np.inf, e)
        ck.ev(1, (c["name"], "b", k)); ck.count("balances_checked", t.n)
        if e.max() > tol:
            i = int(e.argmax())
            raise Fail("%s: accepted step %d (dt %g): in the cell at %s storage changes at %.9g kg/s and outflow is %.9g kg/s" % (c["name"], k, dt, t.x[i].round(3), a[i] if np.ndim(a) else a, out[i]))


def one(ck, c):
    if c["name"][0] == "X":
        return fatal(ck, c)
    r = run("step", opts(c["opts"]), np_=c["np"])
    bad = [x for x in (r.trace.X.get("E", []) if r.trace else []) if int(x[2]) < 0 and int(x[4]) == 0]
    if r.rc != 0 and ("DIVERGED" in r.out or "cuts" in r.out or bad) and (bad or c["opts"].get("tdy_time_integration_method") == "TS"):
        ck.count("runs_not_converged")
        return
    t = need_ok(r)
    acc = (ts if c["opts"].get("tdy_time_integration_method") == "TS" else snes)(ck, c, t)
    if not acc and max(c["opts"]["h_sync"]) > 0:
        raise Fail("%s: no accepted step" % c["name"])
    balance(ck, c, t, acc)


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
    if ck.counts.get("runs_not_converged", 0) > max(2, len(cs) // 2):
        ck.violate("no-convergence", "%d of %d runs did not converge" % (ck.counts["runs_not_converged"], len(cs)), cs[0])
