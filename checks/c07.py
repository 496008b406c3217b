"""Saturation and relative permeability follow their formulas, in value and derivative, on every set of points."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one cell saturation reported by a simulation, one flux residual of a cell, or one saturation or relative permeability evaluated through a characteristic-curve model, compared with the closed formula",
            assumptions=["reference: closed-form van Genuchten, Gardner, Mualem (cubic between x1 and 1) and Irmay curves, derivatives by complex step"])


# ---- reference, complex-valued so that derivatives come by complex step
def vg(pc, sr, m, a):
    n = 1 / (1 - m)
    return sr + (1 - sr) * (1 + (a * pc) ** n) ** (-m)


def gardner(pc, sr, n, m, a):
    return sr + (1 - sr) * np.exp(-a * pc / m)


def mualem(s, m):
    return np.sqrt(s) * (1 - (1 - s ** (1 / m)) ** m) ** 2


def dc(f, x):
    return float(np.imag(f(complex(x, 1e-30))) / 1e-30)


def d2c(f, x, scale):
    h = 1e-4 * scale        # second derivative: central difference of the complex-step first derivative (Richardson)
    d = lambda h: (dc(f, x + h) - dc(f, x - h)) / (2 * h)
    return (4 * d(h / 2) - d(h)) / 3


def ref_sat(kind, par, sr, pc):
    """S, dS/dP, d2S/dP2 with P = Pref - Pc"""
    f = (lambda p: vg(p, sr, *par)) if kind == 1 else (lambda p: gardner(p, sr, *par))
    if pc <= 0:
        return 1.0, 0.0, 0.0
    return float(np.real(f(pc))), -dc(f, pc), d2c(f, pc, pc)


def ref_kr(kind, par, s):
    if kind == 0:
        m = par[0]
        return (1.0, 0.0) if s >= 1 else (s ** m, m * s ** (m - 1))
    m, x0, x1, x2, dx = par
    f = lambda z: mualem(z, m)
    if s <= x1:
        return float(f(s)), dc(f, s)
    f1, d1, h = float(f(x1)), dc(f, x1), x2 - x1
    herm = lambda z: f1 * (2 * z ** 3 - 3 * z ** 2 + 1) + d1 * h * (z ** 3 - 2 * z ** 2 + z) + (-2 * z ** 3 + 3 * z ** 2)
    t = (s - x1) / h
    return float(herm(t)), dc(herm, t) / h


def cases(ck):
    rng = ck.rng
    out = []
    n = 40 if ck.quick else 400
    for i in range(n):
        scheme = ["MPFA_O", "FV_TPF"][i % 2]
        o = gen.box(rng, 3)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso"))
        m, a = round(rng.uniform(.25, .9), 4), float("%.4g" % 10 ** rng.uniform(-5, -3))
        if i % 5 == 0:
            m, a = ref.VG_M, ref.VG_A
        else:
            o.update(tdy_vangenuchten_param_m=m, tdy_vangenuchten_param_alpha=a)
        o.update(h_disc=scheme, h_bctype="NEUMANN_BC", h_f_pbct="const:1.5", tdy_gravity=0.0, tdy_water_density="constant",
                 h_dt=1e9, h_nstate=3, h_diag=1, h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng))
        if scheme == "MPFA_O" and rng.random() < .4:
            o.update(h_ts=1)
        out.append(dict(name="S%d-%s" % (i, scheme), opts=o, np=gen.ranks(rng, o, (1, 1, 2, 3)), m=m, a=a))
    for i in range(60 if ck.quick else 1500):
        out.append(dict(name="C%d" % i, seed=gen.seed(rng)))
    return out


def sim(ck, c):
    t = need_ok(run("fv", opts(c["opts"]), np_=c["np"]))
    Sr, poro, m, a = t.field("sr"), t.field("poro"), c["m"], c["a"]
    mu = ref.MU["constant"]
    for s in range(c["opts"]["h_nstate"]):
        P = t.cell("U", s)
        S = ref.sat(P, Sr, m, a)
        if c["np"] == 1:
            got = t.vec[("sat", s)]
            q, i = worst(got, S, 1e-9)
            ck.ev(t.n, c["name"])
            if q > 1:
                raise Fail("saturation of a cell at %.3f Pa (Sr=%.4f, m=%.4g, alpha=%.4g) is %.10g, expected %.10g" % (P[i], Sr[i], m, a, got[i], S[i]))
        else:
            q = float(np.max(np.abs(np.sort(t.vec[("sat", s)]) - np.sort(S)))) / 1e-9
            ck.ev(t.n, c["name"])
            if not q <= 1:
                raise Fail("the saturations reported differ from those of the cell pressures by %.3g" % (q * 1e-9))
        F, _, _ = ref.tpfa(t, P, gen.kfun(t), Sr, g=0.0, bc="NEUMANN", scheme="mpfao" if c["opts"]["h_disc"] == "MPFA_O" else "fvtpf", m=m, a=a, face_type=lambda f: "NEUMANN")
        R = t.cell("F", s)
        _, sc, _ = ref.tpfa(t, P, gen.kfun(t), Sr, g=0.0, bc="NEUMANN", scheme="mpfao" if c["opts"]["h_disc"] == "MPFA_O" else "fvtpf", m=m, a=a, face_type=lambda f: "NEUMANN")
        if c["opts"].get("h_ts"):
            continue
        Pp = t.cell("Up", s)
        dt = c["opts"]["h_dt"]
        acc = (ref.mass(P, poro, Sr, t.vol, m=m, a=a) - ref.mass(Pp, poro, Sr, t.vol, m=m, a=a)) / dt
        if c["opts"]["h_disc"] == "FV_TPF" or not c["opts"].get("h_n") is None:
            tol = 1e-9 * sc + 1e-11 * np.abs(ref.mass(Pp, poro, Sr, t.vol, m=m, a=a)) / dt + 1e-300
            q, i = worst(R, F + acc, tol)
            ck.count("flux_balances", t.n)
            ck.ev(t.n, c["name"])
            if q > 1:
                raise Fail("%s: with m=%.4g, alpha=%.4g the balance of the cell at %s is %.9g, expected %.9g" % (c["opts"]["h_disc"], m, a, t.x[i].round(3), R[i], (F + acc)[i]))


def model(ck, c):
    rng = random.Random(c["seed"])
    N = rng.randint(1, 9)
    lines, todo = [], []
    satk, krk = {}, {}
    def setsat(t, pts):
        par = []
        for p_ in pts:
            par.append((round(rng.uniform(.2, .9), 5), float("%.4g" % 10 ** rng.uniform(-5, -3))) if t == 1 else
                       (rng.uniform(.2, 3), round(rng.uniform(.3, 3), 4), float("%.4g" % 10 ** rng.uniform(-5, -3))))
        for p_ in [k for k, v in satk.items() if v[0] == t]:
            del satk[p_]
        for p_, q in zip(pts, par):
            satk[p_] = (t, q)
        lines.append("satset %d %d %d %s %s" % (t, len(pts), 2 if t == 1 else 3, " ".join(map(str, pts)), " ".join("%.17g" % x for q in par for x in q)))
    def setkr(t, pts):
        for p_ in [k for k, v in krk.items() if v[0] == t]:
            del krk[p_]
        par = []
        for p_ in pts:
            if t == 0:
                q = (round(rng.uniform(.5, 6), 4),)
            else:
                x1 = round(rng.uniform(.9, .995), 4)
                q = (round(rng.uniform(.25, .9), 4), round((x1 + 1) / 2, 6), x1, 1.0, round((1 - x1) / 2, 6))
            par.append(q); krk[p_] = (t, q)
        lines.append("krset %d %d %s %s" % (t, len(pts), " ".join(map(str, pts)), " ".join("%.17g" % x for q in par for x in q)))
    def pc():
        return rng.choice([rng.uniform(-1e5, 0), 0.0, 10 ** rng.uniform(-2, 6), 10 ** rng.uniform(2, 5)])
    def se():
        return rng.choice([rng.uniform(.02, 1), rng.uniform(.9, 1), 1.0, rng.uniform(.05, .5)])
    for rnd in range(rng.randint(1, 3)):
        for setter, kinds in ((setsat, 2), (setkr, 2)):
            pts = list(range(N)); rng.shuffle(pts)
            k = rng.randint(0, N)
            first = rng.randrange(2)
            if rnd == 0 or rng.random() < .6:
                setter(first, pts[:k]); setter(1 - first, pts[k:])
        for _ in range(2):
            sr = [rng.uniform(0, .3) for _ in range(N)]
            p_ = [pc() for _ in range(N)]
            lines.append("sat %d %s %s" % (N, " ".join("%.17g" % x for x in sr), " ".join("%.17g" % x for x in p_)))
            todo.append(("S", [(satk[j], sr[j], p_[j]) for j in range(N)]))
            sub = [rng.randrange(N) for _ in range(rng.randint(1, N))]
            sr = [rng.uniform(0, .3) for _ in sub]
            p_ = [pc() for _ in sub]
            lines.append("satpts %d %s %s %s" % (len(sub), " ".join(map(str, sub)), " ".join("%.17g" % x for x in sr), " ".join("%.17g" % x for x in p_)))
            todo.append(("S", [(satk[j], a, b) for j, a, b in zip(sub, sr, p_)]))
            s = [se() for _ in range(N)]
            lines.append("kr %d %s" % (N, " ".join("%.17g" % x for x in s)))
            todo.append(("K", [(krk[j], s[j]) for j in range(N)]))
            s = [se() for _ in sub]
            lines.append("krpts %d %s %s" % (len(sub), " ".join(map(str, sub)), " ".join("%.17g" % x for x in s)))
            todo.append(("K", [(krk[j], b) for j, b in zip(sub, s)]))
    r = run("props", ["-h_script", "script"], files={"script": "\n".join(lines) + "\n"})
    t = need_ok(r)
    got = {k: [[float(x) for x in w[1:]] for w in t.X.get(k, [])] for k in ("S", "K")}
    pos = {"S": 0, "K": 0}
    for kind, items in todo:
        nrec = 3 if kind == "S" else 2
        rec = got[kind][pos[kind]:pos[kind] + nrec]
        pos[kind] += nrec
        if len(rec) < nrec:
            raise Inconclusive("missing records")
        for j, it in enumerate(items):
            ck.ev(1, c["name"])
            if kind == "S":
                (ty, par), sr, pc_ = it
                want = ref_sat(ty, par, sr, pc_)
                if ty == 0 and pc_ == 0:
                    continue
                sc = (1.0, abs(want[1]), abs(want[2]) + abs(want[1]) / max(pc_, 1e-9))
                tol = (1e-11, 1e-9, 1e-5)
                what = ("saturation", "dS/dP", "d2S/dP2")
                ck.count("saturation_points_%s" % ("vg" if ty else "gardner"))
            else:
                (ty, par), s = it
                want = ref_kr(ty, par, s)
                if s == 1.0 and ty == 1:
                    want = (1.0, 0.0)
                d = abs(want[1])
                sc = (1.0, max(d, 1.0) if s > .5 else d)
                tol = (1e-9, 1e-7)
                what = ("relative permeability", "dkr/dSe")
                ck.count("kr_points_%s" % ("mualem" if ty else "irmay"))
            for k in range(nrec):
                if not abs(rec[k][j] - want[k]) <= tol[k] * sc[k] + 1e-300:
                    raise Fail("%s of a %s model (parameters %s) at %s is %.12g, expected %.12g" % (
                        what[k], (["Gardner", "van Genuchten"] if kind == "S" else ["Irmay", "Mualem"])[ty], ", ".join("%.5g" % x for x in par),
                        "Pc=%.6g" % it[2] if kind == "S" else "Se=%.6g" % it[1], rec[k][j], want[k]))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0].get("opts")})
    try:
        build("plain")["props"]
    except BuildError as e:
        ck.count("curve_models_not_built")
        cs = [c for c in cs if c["name"][0] == "S"]
    ck.map(lambda c: (sim if c["name"][0] == "S" else model)(ck, c), cs)
