"""Energy in thermo-hydro mode: storage, enthalpy carried by the water, and heat conducted by Fourier's law."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one recorded state (or accepted time step) whose every cell's mass and energy residual was compared with the model",
            assumptions=["the flow term is compared with the two-point flux on graded boxes, where it coincides with MPFA-O; conduction also on general meshes with full tensors",
                         "the mass flux has no gravity term and water properties are taken at 25 C, as the mode defines them",
                         "thermal and flow boundaries are both held (DIRICHLET) or both closed (NEUMANN): the mode has one boundary type for both"])
TOL = 1e-10
H = 1.8890
THRESH = 2.3e-16      # see the finding th-small-flux-dropped


def th(rng, o):
    o.update(h_mode="TH", h_ts=1, h_f_rho="hash:1500,3200,%d" % gen.seed(rng), h_f_cp="hash:400,1600,%d" % gen.seed(rng))
    return o


def cases_two_point(ck):
    rng = ck.rng
    out = []
    for i in range(30 if ck.quick else 400):
        bc = ["DIRICHLET", "NEUMANN"][i % 2]
        o = th(rng, gen.mesh(rng, "box", 3 if ck.quick else 4))
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, rng.choice(["iso", "diag"])))
        if rng.random() < 0.5:
            o.update(h_f_txx="hash:0.2,4,%d" % gen.seed(rng), h_tstyle="iso")
        else:
            o.update({"h_f_t" + a: "hash:0.2,4,%d" % gen.seed(rng) for a in ("xx", "yy", "zz")}, h_tstyle="diag")
        o.update(h_nstate=3, h_bctype=bc + "_BC", h_f_P=gen.pressure(rng), h_f_T="hash:%d,%d,%d" % (rng.randint(-5, 20), rng.randint(25, 90), gen.seed(rng)),
                 h_f_Pdot="const:0.0" if i % 3 else "hash:-10,10,%d" % gen.seed(rng), h_f_Tdot="hash:-1,1,%d" % gen.seed(rng))
        if rng.random() < 0.8:
            o["h_f_pbc"] = gen.pressure(rng)
        if rng.random() < 0.8:
            o["h_f_tbc"] = "hash:%d,%d,%d" % (rng.randint(-5, 20), rng.randint(25, 90), gen.seed(rng))
        out.append(dict(name="T%d-%s%s" % (i, bc, "" if i % 3 else "-dP"), part="T", opts=o, np=gen.ranks(rng, o), bc=bc))
    o = th(rng, dict(h_mesh="box", h_n=[3, 1, 1], h_f_poro="const:0.3", h_f_sr="const:0.1", h_f_kxx="const:1e-21", h_f_txx="const:2", h_tstyle="iso", tdy_water_density="constant",
                     h_nstate=1, h_f_P="hash:60000,99000,%d" % gen.seed(rng), h_f_T="const:20", h_f_Pdot="const:0.0", h_f_Tdot="const:0.0", h_bctype="NEUMANN_BC"))
    out.append(dict(name="tight-rock", part="T", opts=o, np=1, bc="NEUMANN", tight=1))
    return out


def storage(o, P, T, Pd, Td, poro, sr, rhos, cps, vol, missing):
    """Time derivatives of the water mass and of the energy in every cell."""
    rho = ref.RHO[o["tdy_water_density"]]
    S, dS = ref.sat(P, sr), ref.dsat(P, sr)
    r = rho(P)
    e = 1e-1
    dr = (rho(P + e) - rho(P - e)) / (2 * e)
    if o["tdy_water_density"] == "exponential":
        dr = np.where(P > ref.PREF, 1e-8 * r, 0.0)
    dm = poro * (dr * S + r * dS) * Pd
    u = H - P / r
    du = -1.0 / r + P / r ** 2 * dr
    de = poro * ((dr * S + r * dS) * u) * Pd + (1 - poro) * rhos * cps * Td
    if not missing:
        de = de + poro * S * r * du * Pd
    mag = np.abs(poro * (np.abs(dr) * S + r * dS) * Pd)
    return dm * vol, de * vol, mag * vol, (mag * np.abs(u) + (1 - poro) * rhos * cps * np.abs(Td) + np.abs(poro * Pd)) * vol


def run_two_point(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    rho = ref.RHO[o["tdy_water_density"]]
    mu = ref.MU[o.get("tdy_water_viscosity", "constant")]
    poro, sr, rs, cs = t.field("poro"), t.field("sr"), t.field("rho"), t.field("cp")
    K = gen.kfun(t)
    k = [t.field("txx"), t.field("tyy"), t.field("tzz")]
    k = [k[0] if a is None else a for a in k]
    lam = lambda i, u: k[0][i] * u[0] ** 2 + k[1][i] * u[1] ** 2 + k[2][i] * u[2] ** 2
    told = False
    for s in range(o["h_nstate"]):
        P, T, Pd, Td = t.cell("U", s, 0), t.cell("U", s, 1), t.cell("Ud", s, 0), t.cell("Ud", s, 1)
        Fm, Fe = t.cell("F", s, 0), t.cell("F", s, 1)
        mass, sm, rec = ref.tpfa(t, P, K, sr, rho=rho, mu=mu, g=0.0, bc=c["bc"], scheme="mpfao", pbc="h_f_pbc" in o)
        # differences of pressure are formed from pressures: round-off is relative to those, with a threshold below which they are dropped
        nf = 6
        kmax = np.max([np.abs(K(np.arange(t.n), u)) for u in np.eye(3)], axis=0)
        slack = nf * 4 * rho(P) / 5e-4 * (0 if c.get("tight") else THRESH)
        okm = TOL * (sm + 1e-4 * sum_abs(t, P, K, rho)) + slack
        cond, sc = conduct(t, T, lam, c["bc"], "h_f_tbc" in o)
        out = mass * H + cond
        dm, de, am, ae = storage(o, P, T, Pd, Td, poro, sr, rs, cs, t.vol, False)
        dq = storage(o, P, T, Pd, Td, poro, sr, rs, cs, t.vol, True)[1]
        loose = 1e-6 if o["tdy_water_density"] == "batzle_and_wang" else TOL
        em, ee = np.abs(Fm - mass - dm), np.abs(Fe - out - de)
        okm = okm + loose * am
        oke = okm * H + TOL * sc + loose * ae
        ck.ev(1, (c["name"], s))
        ck.count("cells_compared", t.n)
        ck.count("states_%s_np%d" % (c["bc"], c["np"]))
        ck.count("faces", len(rec))
        bad = ~(em <= okm)
        if bad.any():
            i = int(np.argmax(em / okm))
            text = ("%s state %d: water balance of %d of %d cells differs from storage plus fluxes; cell at %s: residual %.9e, model %.9e" %
                       (c["name"], s, bad.sum(), t.n, t.x[i].round(4).tolist(), Fm[i], (mass + dm)[i]))
            if not (c.get("tight") and np.all(Fm == 0)):
                raise Fail(text)
            ck.violate("th-small-flux-dropped", text, c)
        bad = ~(ee <= oke)
        if bad.any():
            i = int(np.argmax(ee / oke))
            known = np.all(np.abs(Fe - out - dq) <= oke)
            text = ("%s state %d: energy balance of %d of %d cells differs from storage plus fluxes; cell at %s: residual %.9e, model %.9e%s" %
                       (c["name"], s, bad.sum(), t.n, t.x[i].round(4).tolist(), Fe[i], (out + de)[i], " (the rate lacks the change of internal energy with pressure)" if known else ""))
            if not known:
                raise Fail(text)
            if not told:
                ck.violate("th-storage-lacks-du-dP", text, c)
            told = True


def sum_abs(t, P, K, rho):
    """Round-off scale of the mass fluxes of each cell."""
    out = np.zeros(t.n)
    for f in t.faces:
        for c in f["c"]:
            if c >= 0:
                d = abs(np.dot(t.x[c] - f["x"], f["n"]))
                out[c] += float(rho(P[c])) / 5e-4 * f["area"] * K(c, f["n"]) / d * 1e5 * 1e-6
    return out


def conduct(t, T, lam, bc, tbc):
    out, sc = np.zeros(t.n), np.zeros(t.n)
    for f in t.faces:
        a, b = f["c"]
        n = f["n"]
        if a >= 0 and b >= 0:
            da, db = abs(np.dot(f["x"] - t.x[a], n)), abs(np.dot(t.x[b] - f["x"], n))
            la, lb = lam(a, n), lam(b, n)
            g = f["area"] * la * lb / (da * lb + db * la)
            q = g * (T[a] - T[b])
            out[a] += q; out[b] -= q
            sc[[a, b]] += g * (abs(T[a]) + abs(T[b]))
        elif bc == "DIRICHLET" and tbc:
            a = max(a, b)
            g = f["area"] * lam(a, n) / abs(np.dot(f["x"] - t.x[a], n))
            out[a] += g * (T[a] - f["tbc"])
            sc[a] += g * (abs(T[a]) + abs(f["tbc"]))
        elif bc == "DIRICHLET":
            a = max(a, b)
            sc[a] += f["area"] * lam(a, n) / abs(np.dot(f["x"] - t.x[a], n)) * abs(T[a])
    return out, sc


def cases_linear(ck):
    rng = ck.rng
    out = []
    kinds = ["pert", "wedge", "wedgepert", "column", "wedgecol", "wedgez", "box"]
    for i in range(14 if ck.quick else 200):
        kind = kinds[i % len(kinds)]
        o = th(rng, gen.mesh(rng, kind, 4))
        layered = kind == "box" and rng.random() < 0.6 or kind == "wedge" and rng.random() < 0.6
        if layered:
            o.pop("h_grade", None)
            o["h_n"][2] = 2
        lo, hi = o["h_lo"], o["h_hi"]
        mid = 0.5 * (lo[2] + hi[2])
        g = np.array([rng.uniform(-30, 30) for _ in range(3)])

        def tensor():
            d = [rng.uniform(0.5, 4) for _ in range(3)]
            e = [rng.uniform(-0.15, 0.15) for _ in range(3)]
            return np.array([[d[0], e[0], e[1]], [e[0], d[1], e[2]], [e[1], e[2], d[2]]])
        L = [tensor()]
        dg = 0.0
        names = {"h_f_txx": (0, 0), "h_f_tyy": (1, 1), "h_f_tzz": (2, 2), "h_f_txy": (0, 1), "h_f_txz": (0, 2), "h_f_tyz": (1, 2)}
        if layered:
            L.append(tensor())
            dg = float(((L[0] - L[1]).dot(g))[2] / L[1][2, 2])
            for q, ij in names.items():
                o[q] = "step:2,%.17g,%.17g,%.17g" % (mid, L[0][ij], L[1][ij])
        else:
            for q, ij in names.items():
                o[q] = "const:%.17g" % L[0][ij]
        P = rng.uniform(60000, 150000)
        o.update(h_tstyle="tens", h_f_poro="const:0.3", h_f_sr="const:0.1", tdy_water_density="constant", h_nstate=1, h_bctype="DIRICHLET_BC",
                 h_f_P="const:%.17g" % P, h_f_pbc="const:%.17g" % P, h_f_Pdot="const:0.0", h_f_Tdot="const:0.0")
        o.update({"h_f_k" + a: "lhash:1e-13,1e-11,%d" % gen.seed(rng) for a in ("xx",)})
        o["h_f_T"] = o["h_f_tbc"] = "pwl:2,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g" % (mid, rng.uniform(10, 80), g[0], g[1], g[2], dg)
        out.append(dict(name="L%d-%s%s" % (i, kind, "-layered" if layered else ""), part="L", opts=o, np=gen.ranks(rng, o),
                        q=[(-L[0].dot(g)).tolist(), (-L[-1].dot(g + [0, 0, dg])).tolist()], mid=mid))
    return out


def run_linear(ck, c):
    t = need_ok(run("fv", opts(c["opts"]), np_=c["np"]))
    Fm, Fe, T = t.cell("F", 0, 0), t.cell("F", 0, 1), t.cell("U", 0, 1)
    out, sc = np.zeros(t.n), np.zeros(t.n)
    for f in t.faces:
        q = np.dot(c["q"][0] if f["x"][2] <= c["mid"] + 1e-9 else c["q"][1], f["n"]) * f["area"]
        for i in f["c"]:
            if i >= 0:
                out[i] += q * np.sign(np.dot(f["n"], f["x"] - t.x[i]))
                sc[i] += abs(q) + f["area"] * np.max(np.abs(c["q"])) * 1e-2
    ck.ev(1, c["name"])
    ck.count("cells_linear_temperature", t.n)
    err = np.abs(Fe - out) / sc
    b = ~(err < 1e-10)
    if b.any():
        raise Fail("%s: %d of %d cells off the exact heat flux of a linear temperature, by up to %.2e of the face fluxes" % (c["name"], b.sum(), t.n, np.nanmax(err)))
    if not np.max(np.abs(Fm)) <= 1e-12:
        raise Fail("%s: water moves under uniform pressure: residual up to %.3e" % (c["name"], np.max(np.abs(Fm))))


def cases_closed(ck):
    rng = ck.rng
    out = []
    kinds = gen.PLANE + gen.WARPED
    for i in range(12 if ck.quick else 200):
        o = th(rng, gen.mesh(rng, kinds[i % len(kinds)], 3 if ck.quick else 4))
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng))
        o.update(h_f_txx="hash:0.2,4,%d" % gen.seed(rng), h_tstyle="iso", h_nstate=2, h_bctype="NEUMANN_BC", h_f_P=gen.pressure(rng), h_f_T="hash:5,60,%d" % gen.seed(rng),
                 h_f_Pdot="const:0.0", h_f_Tdot="hash:-1,1,%d" % gen.seed(rng) if i % 2 else "const:0.0")
        out.append(dict(name="C%d" % i, part="C", opts=o, np=1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o)))
    return out


def run_closed(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    for s in range(o["h_nstate"]):
        Td = t.cell("Ud", s, 1)
        e = (1 - t.field("poro")) * t.field("rho") * t.field("cp") * Td * t.vol
        for k, name, acc in ((0, "water", 0 * e), (1, "energy", e)):
            F = t.cell("F", s, k)
            sc = np.sum(np.abs(F)) + np.sum(np.abs(acc)) + 1e-14
            ck.ev(1, (c["name"], s, name))
            ck.count("closed_sums")
            if not abs(np.sum(F) - np.sum(acc)) <= 1e-9 * sc:
                raise Fail("%s: the %s residuals of a closed domain sum to %.6e but storage is %.6e (scale %.3e)" % (c["name"], name, np.sum(F), np.sum(acc), sc))


def cases_steps(ck):
    """Heat conduction alone, stepped by the driver."""
    rng = ck.rng
    out = []
    for i in range(6 if ck.quick else 60):
        o = gen.mesh(rng, "box", 3)
        closed = i % 2 == 0
        P = rng.uniform(70000, 98000)
        dt = 10 ** rng.uniform(3, 5)
        o.update(h_mode="TH", tdy_time_integration_method="TS", h_f_poro="const:%.17g" % rng.uniform(0.1, 0.5), h_f_sr="const:0.1", h_f_kxx="const:1e-13", h_f_txx="hash:0.5,3,%d" % gen.seed(rng), h_tstyle="iso",
                 h_f_rho="hash:1500,3000,%d" % gen.seed(rng), h_f_cp="hash:500,1500,%d" % gen.seed(rng), h_f_P="const:%.17g" % P, h_f_pbc="const:%.17g" % P, tdy_water_density="constant",
                 h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_tbc="hash:5,60,%d" % gen.seed(rng), h_bctype="NEUMANN_BC" if closed else "DIRICHLET_BC",
                 tdy_dt_init=dt, tdy_dt_max=dt, h_sync=[dt * 5], snes_rtol=1e-9, snes_stol=0, snes_atol=1e-7, ksp_type="preonly", pc_type="lu", ts_adapt_type="none", ts_type="beuler")
        out.append(dict(name="S%d%s" % (i, "-closed" if closed else ""), part="S", opts=o, np=1, closed=closed))
    return out


def run_steps(ck, c):
    o = c["opts"]
    r = run("step", opts(o), np_=1)
    if r.rc != 0 and "DIVERGED" in r.out:
        ck.count("runs_not_converged")
        return
    t = need_ok(r)
    k = t.field("txx")
    Cv = (1 - t.field("poro")) * t.field("rho") * t.field("cp") * t.vol
    A, rhs = np.zeros((t.n, t.n)), np.zeros(t.n)
    lam = lambda i, u: k[i]
    bc = "NEUMANN" if c["closed"] else "DIRICHLET"
    rhs = -conduct(t, np.zeros(t.n), lam, bc, True)[0]
    for j in range(t.n):
        A[:, j] = conduct(t, np.eye(t.n)[j], lam, bc, True)[0] + rhs
    X = sorted(t.X["T"], key=lambda x: int(x[1]))
    n = 0
    for a, b in zip(X, X[1:]):
        dt = float(b[3]) - float(a[3])
        if dt <= 0:
            continue
        T0, T1 = t.cell("tsol", int(a[1]), 1), t.cell("tsol", int(b[1]), 1)
        want = np.linalg.solve(np.diag(Cv / dt) + A, Cv / dt * T0 + rhs)
        n += 1
        ck.ev(1, (c["name"], n))
        ck.count("heat_steps")
        ck.count("moved_cells", int(np.sum(np.abs(T1 - T0) > 1e-3)))
        e = np.max(np.abs(T1 - want))
        if not e <= 1e-5 * max(1.0, np.max(np.abs(T0))):
            raise Fail("%s step %d: temperature differs from an implicit step of heat conduction by %.3e C" % (c["name"], n, e))
        P1 = t.cell("tsol", int(b[1]), 0)
        if not np.max(np.abs(P1 - t.cell("tsol", int(a[1]), 0))) <= 5.0:
            raise Fail("%s step %d: heat conduction alone moved the pressure by %.3e Pa" % (c["name"], n, np.max(np.abs(P1 - t.cell("tsol", int(a[1]), 0)))))
    if not n:
        raise Fail("%s: no time step was recorded" % c["name"])


RUN = dict(T=run_two_point, L=run_linear, C=run_closed, S=run_steps)


def check(ck, only=None):
    cs = [only] if only else cases_two_point(ck) + cases_linear(ck) + cases_closed(ck) + cases_steps(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: RUN[c["part"]](ck, c), cs)
