"""Water and dissolved salt in salinity mode: storage, salt carried by the water, and salt diffused by Fick's law."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one recorded state (or accepted time step) whose every cell's water and salt residual was compared with the model",
            assumptions=["the flow term with variable density is compared with the two-point flux on graded boxes, where it coincides with MPFA-O; on general meshes it is compared with the Richards residual",
                         "water at a held boundary has the density and viscosity of fresh water at 25 C and the reference pressure, as the mode defines them",
                         "flow and salt boundaries are both held (DIRICHLET) or both closed (NEUMANN): the mode has one boundary type for both"])
TOL = 1e-10


def sal(rng, o, top=None):
    s = top or rng.choice([0.05, 0.5, 4.0])
    o.update(h_mode="SALINITY", h_disc="MPFA_O", h_f_mw="hash:50,60,%d" % gen.seed(rng), h_dt=round(10 ** rng.uniform(1, 5), 3),
             h_f_C="hash:0,%g,%d" % (s, gen.seed(rng)), h_f_Cprev="hash:0,%g,%d" % (s, gen.seed(rng)))
    return o


def diffusivity(rng, o, style):
    """Of the order of the water's mobility times a pressure difference, so that no part of the flux hides another."""
    e = 10 ** rng.uniform(-7, -3)
    s = lambda lo, hi: "hash:%.6g,%.6g,%d" % (lo * e, hi * e, gen.seed(rng))
    o.update(h_dstyle=style, h_f_dxx=s(0.5, 4))
    if style != "iso":
        o.update(h_f_dyy=s(0.5, 4), h_f_dzz=s(0.5, 4))
    if style == "tens":
        o.update(h_f_dxy=s(-.15, .15), h_f_dxz=s(-.15, .15), h_f_dyz=s(-.15, .15))
    return o


def fraction(psi, mw):
    w = psi * mw
    return w / (w + 999.0)


def stores(t, o, s, rho):
    """(ρφSV and ρφSΨV now) minus before, over the step, and their magnitudes"""
    poro, sr, mw = t.field("poro"), t.field("sr"), t.field("mw")
    M = []
    for n in ("U", "Up"):
        P, C = t.cell(n, s, 0), t.cell(n, s, 1)
        m = rho(P, ref.TREF, fraction(C, mw)) * poro * ref.sat(P, sr) * t.vol / o["h_dt"]
        M.append((m, m * C))
    return M[0][0] - M[1][0], M[0][1] - M[1][1], M[0][0] + M[1][0], np.abs(M[0][1]) + np.abs(M[1][1])


def cases_two_point(ck):
    rng = ck.rng
    out = []
    for i in range(30 if ck.quick else 400):
        bc = ["DIRICHLET", "NEUMANN"][i % 2]
        o = sal(rng, gen.mesh(rng, "box", 3 if ck.quick else 4))
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, rng.choice(["iso", "diag"])))
        diffusivity(rng, o, rng.choice(["iso", "diag"]))
        if i % 4 == 0:
            o.update(tdy_water_density="batzle_and_wang", tdy_water_viscosity="batzle_and_wang")
        o.update(h_nstate=3, h_bctype=bc + "_BC", h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng))
        if rng.random() < 0.8:
            o["h_f_pbc"] = gen.pressure(rng)
        if rng.random() < 0.8:
            o["h_f_cbc"] = "hash:0,%g,%d" % (rng.choice([.1, 4.0]), gen.seed(rng))
        out.append(dict(name="T%d-%s" % (i, bc), part="T", opts=o, np=gen.ranks(rng, o), bc=bc))
    return out


def model(t, P, C, K, D, o, bc):
    """Outflow of water and of salt of every cell, with the magnitudes of their parts."""
    R, M = ref.RHO[o["tdy_water_density"]], ref.MU[o.get("tdy_water_viscosity", "constant")]
    g, sr, f = o.get("tdy_gravity", ref.G), t.field("sr"), fraction(C, t.field("mw"))
    r, mu, kr = R(P, ref.TREF, f), M(P, ref.TREF, f), ref.kr(P, sr)
    rb, mb = float(R(ref.PREF)), float(M(ref.PREF))
    w, s, sw, ss = np.zeros(t.n), np.zeros(t.n), np.zeros(t.n), np.zeros(t.n)
    for x in t.faces:
        a, b = x["c"]
        n = x["n"]
        if a >= 0 and b >= 0:
            da, db = abs(np.dot(x["x"] - t.x[a], n)), abs(np.dot(t.x[b] - x["x"], n))
            two = lambda k: x["area"] * k(a, n) * k(b, n) / (da * k(b, n) + db * k(a, n))
            T, Dt, ra = two(K), two(D), .5 * (r[a] + r[b])
            dz = t.x[b][2] - t.x[a][2]
            dphi = P[a] - P[b] - ra * g * dz
            up = a if dphi >= 0 else b
            mob, cu = kr[up] / mu[up], C[up]
            q, dc, sp, sc = dphi, C[a] - C[b], abs(P[a] - P[b]) + ra * g * abs(dz), abs(C[a]) + abs(C[b])
        elif bc == "DIRICHLET":
            a = max(a, b); b = -1
            d = abs(np.dot(x["x"] - t.x[a], n))
            T, Dt, ra = x["area"] * K(a, n) / d, x["area"] * D(a, n) / d, .5 * (r[a] + rb)
            Pb = x["pbc"] if "h_f_pbc" in o else P[a]
            Cb = x["cbc"] if "h_f_cbc" in o else C[a]
            dz = x["x"][2] - t.x[a][2]
            dphi = P[a] - Pb - ra * g * dz
            mob, cu = (kr[a] / mu[a], C[a]) if dphi >= 0 else (float(ref.kr(Pb, sr[a])) / mb, Cb)
            q, dc, sp, sc = dphi, C[a] - Cb, abs(P[a] - Pb) + ra * g * abs(dz), abs(C[a]) + abs(Cb)
        else:
            continue
        fw, big = ra * T * mob * q, ra * T / 5e-4 * (sp + 1e-6 * (abs(P[a]) + 1e5))
        fs, bs = fw * cu + ra * Dt * dc, big * max(abs(cu), sc) + ra * Dt * sc
        for c, sg in ((a, 1), (b, -1)):
            if c >= 0:
                w[c] += sg * fw; s[c] += sg * fs; sw[c] += big; ss[c] += bs
    return w, s, sw, ss


def tensor(t, k):
    f = {a: t.field(k + a) for a in ("xx", "yy", "zz")}
    f = [f["xx"] if f[a] is None else f[a] for a in ("xx", "yy", "zz")]
    return lambda i, u: f[0][i] * u[0] ** 2 + f[1][i] * u[1] ** 2 + f[2][i] * u[2] ** 2


def run_two_point(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    K, D = gen.kfun(t), tensor(t, "d")
    for s in range(o["h_nstate"]):
        P, C = t.cell("U", s, 0), t.cell("U", s, 1)
        w, q, sw, sq = model(t, P, C, K, D, o, c["bc"])
        dw, dq, aw, aq = stores(t, o, s, ref.RHO[o["tdy_water_density"]])
        ck.ev(1, (c["name"], s))
        ck.count("cells_compared", 2 * t.n)
        ck.count("states_%s_np%d" % (c["bc"], c["np"]))
        ck.count("salt_moved", int(np.sum(np.abs(q) > 1e-9 * sq)))
        for k, name, want, sc in ((0, "water", w + dw, sw + aw), (1, "salt", q + dq, sq + aq)):
            F = t.cell("F", s, k)
            e = np.abs(F - want) / sc
            if not np.all(e <= TOL):
                i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                raise Fail("%s state %d: the %s balance of %d of %d cells differs from storage plus fluxes; cell at %s: residual %.9e, model %.9e" %
                           (c["name"], s, name, np.sum(~(e <= TOL)), t.n, t.x[i].round(4).tolist(), F[i], want[i]))


def cases_richards(ck):
    rng = ck.rng
    out = []
    kinds = gen.PLANE + gen.WARPED
    for i in range(14 if ck.quick else 200):
        o = gen.mesh(rng, kinds[i % len(kinds)], 3 if ck.quick else 4)
        o.update(gen.soil(rng)); o.update(gen.perm(rng)); o.update(tdy_water_density="constant")
        o.update(h_disc="MPFA_O", h_nstate=2, h_dt=1000.0, h_bctype=rng.choice(["DIRICHLET_BC", "NEUMANN_BC"]), h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng))
        if rng.random() < 0.7:
            o["h_f_pbc"] = gen.pressure(rng)
        if rng.random() < 0.3:
            o["tdy_gravity"] = rng.choice([0.0, 24.0])
        z = diffusivity(rng, sal(rng, dict(o)), rng.choice(["iso", "diag", "tens"]))
        z["h_dt"] = o["h_dt"]
        out.append(dict(name="R%d-%s" % (i, kinds[i % len(kinds)]), part="R", opts=z, ref=o, np=1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o)))
    return out


def run_richards(ck, c):
    a, b = need_ok(run("fv", opts(c["ref"]), np_=c["np"])), need_ok(run("fv", opts(c["opts"]), np_=c["np"]))
    ix = match(a.x, b.x)
    for s in range(2):
        if not np.allclose(a.cell("U", s, 0), b.cell("U", s, 0)[ix], rtol=1e-9):
            raise Inconclusive("states differ")
        x, y = a.cell("F", s, 0), b.cell("F", s, 0)[ix]
        sc = np.max(np.abs(x)) + 1e-30
        ck.ev(1, (c["name"], s))
        ck.count("cells_against_richards", a.n)
        if not np.max(np.abs(x - y)) <= 1e-10 * sc:
            i = int(np.argmax(np.abs(x - y)))
            raise Fail("%s state %d: with water of constant density the water balance is not that of Richards flow; cell at %s: %.9e, Richards %.9e" % (c["name"], s, a.x[i].round(4).tolist(), y[i], x[i]))


def cases_linear(ck):
    rng = ck.rng
    out = []
    kinds = ["pert", "wedge", "wedgepert", "column", "wedgecol", "wedgez", "box"]
    for i in range(14 if ck.quick else 200):
        kind = kinds[i % len(kinds)]
        o = gen.mesh(rng, kind, 4)
        layered = kind in ("box", "wedge") and rng.random() < 0.6
        if layered:
            o.pop("h_grade", None)
            o["h_n"][2] = 2
        lo, hi = o["h_lo"], o["h_hi"]
        mid = 0.5 * (lo[2] + hi[2])
        g = np.array([rng.uniform(-.3, .3) for _ in range(3)])

        def tens():
            d = [rng.uniform(0.5, 4) for _ in range(3)]
            e = [rng.uniform(-0.15, 0.15) for _ in range(3)]
            return np.array([[d[0], e[0], e[1]], [e[0], d[1], e[2]], [e[1], e[2], d[2]]]) * scale
        scale = 10 ** rng.uniform(-5, 0)
        L = [tens()]
        dg = 0.0
        names = {"h_f_dxx": (0, 0), "h_f_dyy": (1, 1), "h_f_dzz": (2, 2), "h_f_dxy": (0, 1), "h_f_dxz": (0, 2), "h_f_dyz": (1, 2)}
        if layered:
            L.append(tens())
            dg = float(((L[0] - L[1]).dot(g))[2] / L[1][2, 2])
            for q, ij in names.items():
                o[q] = "step:2,%.17g,%.17g,%.17g" % (mid, L[0][ij], L[1][ij])
        else:
            for q, ij in names.items():
                o[q] = "const:%.17g" % L[0][ij]
        P = rng.uniform(60000, 150000)
        o.update(h_mode="SALINITY", h_disc="MPFA_O", h_f_mw="const:58.44", h_dt=100.0, h_dstyle="tens", h_f_poro="const:0.3", h_f_sr="const:0.1", tdy_water_density="constant", tdy_gravity=0.0,
                 h_nstate=1, h_bctype="DIRICHLET_BC", h_f_P="const:%.17g" % P, h_f_Pprev="const:%.17g" % P, h_f_pbc="const:%.17g" % P, h_kstyle="iso", h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng))
        o["h_f_C"] = o["h_f_Cprev"] = o["h_f_cbc"] = "pwl:2,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g" % (mid, rng.uniform(1, 3), g[0], g[1], g[2], dg)
        out.append(dict(name="L%d-%s%s" % (i, kind, "-layered" if layered else ""), part="L", opts=o, np=gen.ranks(rng, o),
                        q=[(-998 * L[0].dot(g)).tolist(), (-998 * L[-1].dot(g + [0, 0, dg])).tolist()], mid=mid))
    return out


def run_linear(ck, c):
    t = need_ok(run("fv", opts(c["opts"]), np_=c["np"]))
    Fm, Fs, C = t.cell("F", 0, 0), t.cell("F", 0, 1), t.cell("U", 0, 1)
    out, sc = np.zeros(t.n), np.zeros(t.n)
    for f in t.faces:
        q = np.dot(c["q"][0] if f["x"][2] <= c["mid"] + 1e-9 else c["q"][1], f["n"]) * f["area"]
        for i in f["c"]:
            if i >= 0:
                out[i] += q * np.sign(np.dot(f["n"], f["x"] - t.x[i]))
                sc[i] += abs(q) + f["area"] * np.max(np.abs(c["q"])) * 1e-2
    # round-off of the flow under (numerically) uniform pressure carries salt too, and so does that of the storage
    leak = np.abs(Fm) * 8 + 1e-14 * 998 * .3 * t.vol / 100.0
    ck.ev(1, c["name"])
    ck.count("cells_linear_concentration", t.n)
    err = np.abs(Fs - out)
    lim = 1e-9 * sc + 20 * (leak + 1e-12) * np.max(np.abs(C))
    b = ~(err <= lim)
    if b.any():
        raise Fail("%s: %d of %d cells off the exact salt flux of a linear concentration, by up to %.2e of the face fluxes" % (c["name"], b.sum(), t.n, np.nanmax(err / sc)))
    if not np.max(np.abs(Fm)) <= 1e-9:
        raise Fail("%s: water moves under uniform pressure without gravity: residual up to %.3e" % (c["name"], np.max(np.abs(Fm))))


def cases_closed(ck):
    rng = ck.rng
    out = []
    kinds = gen.PLANE + gen.WARPED
    for i in range(14 if ck.quick else 200):
        o = sal(rng, gen.mesh(rng, kinds[i % len(kinds)], 3 if ck.quick else 4))
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng))
        diffusivity(rng, o, rng.choice(["iso", "diag", "tens"]))
        o.update(h_nstate=2, h_bctype="NEUMANN_BC", h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng))
        out.append(dict(name="C%d" % i, part="C", opts=o, np=1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o)))
    return out


def run_closed(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    for s in range(o["h_nstate"]):
        dw, dq, aw, aq = stores(t, o, s, ref.RHO[o["tdy_water_density"]])
        for k, name, acc, mag in ((0, "water", dw, aw), (1, "salt", dq, aq)):
            F = t.cell("F", s, k)
            sc = np.sum(np.abs(F)) + np.sum(np.abs(mag))
            ck.ev(1, (c["name"], s, name))
            ck.count("closed_sums")
            if not abs(np.sum(F) - np.sum(acc)) <= 1e-11 * sc:
                raise Fail("%s: the %s residuals of a closed domain sum to %.9e but storage is %.9e (scale %.3e)" % (c["name"], name, np.sum(F), np.sum(acc), sc))


def cases_uniform(ck):
    """Water of one concentration stays at it: salt follows the water exactly."""
    rng = ck.rng
    out = []
    kinds = gen.PLANE + gen.WARPED
    for i in range(12 if ck.quick else 150):
        o = sal(rng, gen.mesh(rng, kinds[i % len(kinds)], 3 if ck.quick else 4))
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng))
        diffusivity(rng, o, rng.choice(["iso", "diag", "tens"]))
        psi = rng.uniform(.1, 4)
        o.update(h_nstate=2, h_bctype=["DIRICHLET_BC", "NEUMANN_BC"][i % 2], h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_f_pbc=gen.pressure(rng),
                 h_f_C="const:%.17g" % psi, h_f_Cprev="const:%.17g" % psi, h_f_cbc="const:%.17g" % psi)
        out.append(dict(name="U%d-%s" % (i, kinds[i % len(kinds)]), part="U", opts=o, psi=psi, np=1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o)))
    return out


def run_uniform(ck, c):
    o = c["opts"]
    t = need_ok(run("fv", opts(o), np_=c["np"]))
    for s in range(o["h_nstate"]):
        F, Q = t.cell("F", s, 0), t.cell("F", s, 1)
        # round-off of the diffusive flux of a constant: corner transmissibilities are at most some tens of area*D/length
        D = max(np.max(np.abs(t.field(k))) for k in ("dxx", "dyy", "dzz") if t.field(k) is not None)
        dw, dq, aw, aq = stores(t, o, s, ref.RHO[o["tdy_water_density"]])
        big = 1e3 * 1e3 * D * max(f["area"] for f in t.faces) / max(1e-12, np.min(t.vol) / max(f["area"] for f in t.faces))
        ck.ev(1, (c["name"], s))
        ck.count("cells_uniform_salinity", t.n)
        lim = 1e-11 * (np.max(np.abs(F)) + np.max(aw)) * c["psi"] + 1e-13 * big * c["psi"]
        e = np.abs(Q - c["psi"] * F)
        if not np.max(e) <= lim:
            i = int(np.argmax(e))
            raise Fail("%s state %d: water of one salinity does not carry its salt along; cell at %s: salt %.9e, %.6g times water is %.9e" % (c["name"], s, t.x[i].round(4).tolist(), Q[i], c["psi"], c["psi"] * F[i]))


def cases_steps(ck):
    rng = ck.rng
    out = []
    for i in range(6 if ck.quick else 60):
        o = gen.mesh(rng, ["box", "pert", "wedge"][i % 3], 3)
        dt = float("%.3g" % 10 ** rng.uniform(1, 3))
        o.update(gen.soil(rng))
        o.update(h_mode="SALINITY", tdy_time_integration_method="SNES", h_f_mw="const:58.44", h_f_kxx="lhash:1e-13,1e-12,%d" % gen.seed(rng), h_kstyle="iso", h_f_dxx="hash:1e-7,1e-5,%d" % gen.seed(rng), h_dstyle="iso",
                 h_f_P="hash:90000,110000,%d" % gen.seed(rng), h_f_C="hash:0.01,1,%d" % gen.seed(rng), h_f_T="const:0", tdy_water_density=rng.choice(["constant", "batzle_and_wang"]), tdy_gravity=0.0 if i % 2 else 9.8,
                 h_bctype="NEUMANN_BC", tdy_dt_init=dt, tdy_dt_max=dt, tdy_dt_growth_factor=1.0, h_sync=[dt * 3], snes_fd=None, snes_rtol=1e-8, snes_stol=0, snes_max_it=60, ksp_type="preonly", pc_type="lu")
        out.append(dict(name="S%d" % i, part="S", opts=o, np=1))
    return out


def run_steps(ck, c):
    o = c["opts"]
    r = run("step", opts(o), np_=1)
    if r.rc != 0 and ("DIVERGED" in r.out or "maximum time step cuts" in r.out or "not implemented" in r.out):
        ck.count("runs_not_converged")
        return
    t = need_ok(r)
    rho, poro, sr, mw = ref.RHO[o["tdy_water_density"]], t.field("poro"), t.field("sr"), t.field("mw")

    def hold(name, k):
        P, C = t.cell(name, k, 0), t.cell(name, k, 1)
        m = rho(P, ref.TREF, fraction(C, mw)) * poro * ref.sat(P, sr) * t.vol
        return np.sum(m), np.sum(m * C), C
    states = sorted(k for n, k in t.vec if n == "end")
    if not states:
        raise Fail("%s: no end state was recorded" % c["name"])
    a, b = hold("init", 0), hold("end", states[-1])
    ck.ev(1, c["name"])
    ck.count("closed_runs_of_steps")
    ck.count("cells_whose_salinity_moved", int(np.sum(np.abs(a[2] - b[2]) > 1e-6)))
    for k, name in ((0, "water"), (1, "salt")):
        if not abs(a[k] - b[k]) <= 1e-7 * abs(a[k]):
            raise Fail("%s: a closed domain held %.12e of %s and holds %.12e after time steps" % (c["name"], a[k], name, b[k]))


RUN = dict(T=run_two_point, R=run_richards, L=run_linear, C=run_closed, U=run_uniform, S=run_steps)


def check(ck, only=None):
    cs = [only] if only else cases_two_point(ck) + cases_richards(ck) + cases_linear(ck) + cases_closed(ck) + cases_uniform(ck) + cases_steps(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: RUN[c["part"]](ck, c), cs)
