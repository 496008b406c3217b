"""The vertex-quadrature mixed method (WY) assembles the multipoint-flux system."""
from core import *
import gen, ref, feref

META = dict(level="exploration",
            rule="one evaluation = one assembled system or transient residual compared with an independent assembly from the recorded corners",
            assumptions=["faces are plane"])


def femesh(rng, dim, kind=None, nmax=4):
    kind = kind or rng.choice(["box", "pert", "shear"] + (["column"] if dim == 3 else []))
    o = dict(h_mesh="box", h_dim=dim, h_n=[rng.randint(1, nmax) for _ in range(3)], h_seed=gen.seed(rng))
    if dim == 2:
        o["h_n"] = [rng.randint(1, nmax + 1), rng.randint(1, nmax + 1), 1]
    if kind == "pert":
        o["h_n"] = [max(2, k) for k in o["h_n"]]
        o["h_pert"] = round(rng.uniform(.1, .35), 2)
    if kind == "column":
        o["h_column"] = round(rng.uniform(.02, .12), 3)
        o["h_n"][0] = max(2, o["h_n"][0])
    if kind == "shear":
        u = lambda: round(rng.uniform(-.35, .35), 3)
        o["h_shear"] = [1.0, u(), 0.0, u(), 1.0, 0.0, 0.0, 0.0, 1.0] if dim == 2 or rng.random() < .5 else [1.0, u(), u(), 0.0, 1.0, u(), 0.0, 0.0, 1.0]
    far = rng.choice([0, 0, 0, 3, 4e3, 3e5])
    o["h_lo"] = [round(rng.uniform(-far, far), 3) for _ in range(3)]
    sz = rng.choice([.01, 1, 1, 30])
    if far > 1e3:
        sz = max(1, sz)
        o["h_quantum"] = 1e-4
    o["h_hi"] = [round(l + sz * rng.uniform(.5, 2), 4) for l in o["h_lo"]]
    if kind in ("column", "pert") and far < 1e3:
        pass
    if rng.random() < .6:
        o["h_grade"] = round(rng.uniform(.2, 2), 2)
    if rng.random() < .5:
        o["h_perm"] = rng.randint(1, 10**6)
    o["kind"] = kind
    n = o["h_n"]
    nc = n[0] * n[1] * (n[2] if dim == 3 else 1)
    np_ = rng.choice([k for k in (1, 1, 2, 3, 4) if k == 1 or 2 * k <= nc])
    return o, np_


def feperm(rng, dim, const=False, style=None):
    style = style or rng.choice(["iso", "diag", "tens", "tens"])
    m = 10 ** rng.uniform(-12, 1)
    v = (lambda a, b: "const:%.6g" % (m * rng.uniform(a, b))) if const else (lambda a, b: "hash:%.6g,%.6g,%d" % (a * m, b * m, gen.seed(rng)))
    o = dict(h_kstyle=style, h_f_kxx=v(2, 6))
    if style != "iso":
        o["h_f_kyy"] = v(1, 4)
        if dim == 3:
            o["h_f_kzz"] = v(1, 5)
    if style == "tens":
        o["h_f_kxy"] = v(-.6, .6)
        if dim == 3:
            o["h_f_kxz"], o["h_f_kyz"] = v(-.6, .6), v(-.4, .4)
    if const and rng.random() < .5:
        o["h_capi"] = 1
    return o, m


def kof(t, C, dim):
    f = {q: t.field(q) for q in ("kxx", "kxy", "kxz", "kyy", "kyz", "kzz")}
    K = {}
    for g in C:
        i = t.cell_of[g]
        z = lambda q, d: d if f[q] is None else f[q][i]
        xx = f["kxx"][i]
        k = np.array([[xx, z("kxy", 0), z("kxz", 0)], [z("kxy", 0), z("kyy", xx), z("kyz", 0)], [z("kxz", 0), z("kyz", 0), z("kzz", xx)]])
        K[g] = k[:dim, :dim]
    return K


def cases(ck):
    rng = ck.rng
    out = []
    n = 36 if ck.quick else 700
    for i in range(n):
        dim = 2 + i % 2
        o, np_ = femesh(rng, dim)
        k, m = feperm(rng, dim)
        o.update(k, h_disc="WY", h_times=2)
        if rng.random() < .8:
            o["h_f_pbc"] = "hash:%.4g,%.4g,%d" % (rng.uniform(-5, 0), rng.uniform(1, 1e5), gen.seed(rng))
        if rng.random() < .7:
            o["h_f_src"] = "hash:%.4g,%.4g,%d" % (-m, 3 * m, gen.seed(rng))
        q = rng.random()
        if q < .3:
            o["h_quad"] = rng.choice(["FULL", "LUMPED"])
        elif q < .6:
            o["tdy_quadrature"] = rng.choice(["FULL", "LUMPED"])
        out.append(dict(name="A%d-assembly" % i, opts=o, np=np_))
    for i in range(n // 2):
        dim = 2 + i % 2
        o, np_ = femesh(rng, dim)
        k, m = feperm(rng, dim)
        o.update(k, h_disc="WY", h_ts=2)
        lo, hi = gen.RANGES[rng.choice(["wet", "mixed", "near"])]
        o["h_f_P"] = "hash:%d,%d,%d" % (lo, hi, gen.seed(rng))
        o["h_f_pbc"] = "hash:%d,%d,%d" % (lo, hi, gen.seed(rng))
        vol = np.prod([b - a for a, b in zip(o["h_lo"][:dim], o["h_hi"][:dim])])
        r = m * 1e4 / vol ** (2 / dim) * 1e5
        o["h_f_Pdot"] = "hash:%.4g,%.4g,%d" % (-r, r, gen.seed(rng))
        o["h_f_poro"] = "hash:.1,.5,%d" % gen.seed(rng)
        if rng.random() < .8:
            o["h_f_sr"] = "hash:%.2f,%.2f,%d" % (rng.uniform(0, .1), rng.uniform(.1, .25), gen.seed(rng))
        if rng.random() < .6:
            o["h_f_src"] = "hash:%.4g,%.4g,%d" % (-r / 100, r / 100, gen.seed(rng))
        out.append(dict(name="T%d-transient" % i, opts=o, np=np_))
    return out


def matrix(t, name, s, n):
    A = np.zeros((n, n))
    for (i, j), v in t.mat[(name, s)].items():
        A[i, j] += v
    return A


def tol(o):
    """Relative rounding error of the geometry: coordinates far from the origin lose digits."""
    ext = min(abs(b - a) for a, b in zip(o["h_lo"][:o["h_dim"]], o["h_hi"]))
    nn = max(o["h_n"]) * (1 + o.get("h_grade", 0)) * 4
    return 1e-11 + 4e-15 * max(abs(q) for q in o["h_lo"] + o["h_hi"]) * nn / ext


def one(ck, c):
    o = {k: v for k, v in c["opts"].items() if k != "kind"}
    dim = o["h_dim"]
    t = need_ok(run("fe", opts(o), np_=c["np"]), c["name"])
    C = feref.cells(t, dim)
    if len(C) != t.n or t.n != int(np.prod(o["h_n"][:dim])):
        raise Fail("%s: %d cells, expected %d" % (c["name"], t.n, np.prod(o["h_n"][:dim])))
    K = kof(t, C, dim)
    e = tol(o)
    nm = c["name"]
    if "h_ts" in o:
        sr = t.field("sr", 0.0)
        for s in range(o["h_ts"]):
            U, Ud, R = t.vec[("U", s)], t.vec[("Ud", s)], t.vec[("R", s)]
            Kr = {g: K[g] * ref.kr(U[g], sr[t.cell_of[g]]) for g in C}
            vel = feref.velocities(C, Kr, dim, U)
            want, mag, stor = np.zeros(t.n), np.zeros(t.n), np.zeros(t.n)
            for q in C.values():
                i = t.cell_of[q.off]
                for f in q.faces:
                    a = [f.sign * vel[(f.id, k)] * f.area / len(f.key) for k in f.key]
                    want[q.off] += sum(a)
                    mag[q.off] += sum(map(abs, a))
                if "h_f_src" in o:
                    want[q.off] -= feref.vertex_quadrature(q, dim)
                stor[q.off] = t.field("poro")[i] * ref.dsat(U[q.off], sr[i]) * q.vol * Ud[q.off]
            # a rounding error of the pressures makes one of the flows through the vertex systems
            sc = e * (mag.max() + np.abs(want) + np.abs(stor)) + 1e-300
            q, i = worst(R, want + stor, sc + 1e-7 * np.abs(stor))
            ck.count("transient_residuals", t.n)
            ck.ev(1, nm + "/%d" % s)
            if q > 1:
                raise Fail("%s: transient residual of cell %d is %.12g, expected %.12g (storage %.6g)" % (nm, i, R[i], (want + stor)[i], stor[i]))
        return
    A, F = matrix(t, "K", 0, t.n), t.vec[("F", 0)]
    M, R, nv = feref.wy(C, K, dim)
    if "h_f_src" in o:
        for q in C.values():
            R[q.off] += feref.vertex_quadrature(q, dim)
    mx = abs(M).max()
    q, i = worst(A, M, 10 * e * mx * np.ones_like(M))
    ck.count("matrix_entries", int((M != 0).sum())); ck.count("vertex_systems", nv); ck.count("systems_%dd" % dim)
    ck.ev(1, nm)
    if q > 1:
        i, j = divmod(i, t.n)
        raise Fail("%s: matrix entry of cells %d and %d is %.12g, expected %.12g" % (nm, i, j, A[i, j], M[i, j]))
    gm = max([abs(f.g) for q in C.values() for f in q.faces if f.bnd] + [0])
    q, i = worst(F, R, 10 * e * (abs(R) + mx * gm) + 1e-300)
    ck.count("right_hand_sides", t.n)
    if q > 1:
        raise Fail("%s: right-hand side of cell %d is %.12g, expected %.12g" % (nm, i, F[i], R[i]))
    B, G = matrix(t, "K", 1, t.n), t.vec[("F", 1)]
    ck.count("repeated_assemblies")
    if worst(B, A, 1e-13 * mx * np.ones_like(A))[0] > 1 or worst(G, F, 1e-13 * (abs(F) + mx * gm) + 1e-300)[0] > 1:
        raise Fail("%s: assembling the system again gives another system" % nm)


def check(ck, only=None):
    cs = cases(ck)
    if only:
        cs = [only]
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
