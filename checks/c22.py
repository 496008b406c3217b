"""The mixed Brezzi-Douglas-Marini method assembles the weak form of Darcy flow."""
from core import *
import gen, feref
from checks.c21 import femesh, feperm, kof, matrix, tol

META = dict(level="exploration",
            rule="one evaluation = one assembled system (matrix and right-hand side) compared with an independent assembly, or one pressure and velocity solution of a linear problem",
            assumptions=["faces are plane", "in three dimensions the velocity space follows the axes of the mesh, which stay near those of the coordinates"])


def linspec(rng, o, dim, scale=1.0, kind=None):
    kind = kind or rng.choice(["lin", "lin", "quad"])
    far = max(abs(q) for q in o["h_lo"] + o["h_hi"])
    if far > 1e3:
        kind = "lin"
    g = [rng.uniform(-3, 3) * scale for _ in range(dim)] + [0.0] * (3 - dim)
    c = rng.uniform(-5, 5) * scale
    if kind == "lin":
        c -= sum(a * b for a, b in zip(g, o["h_lo"]))
    return "%s:%.9g,%.9g,%.9g,%.9g" % (kind, c, *g)


def cases(ck):
    rng = ck.rng
    out = []
    n = 30 if ck.quick else 500
    for i in range(n):
        dim = 2 + i % 2
        o, np_ = femesh(rng, dim, nmax=3)
        k, m = feperm(rng, dim)
        o.update(k, h_disc="BDM", h_times=2)
        if rng.random() < .8:
            o["h_f_pbc"] = linspec(rng, o, dim)
        if rng.random() < .7:
            o["h_f_src"] = linspec(rng, o, dim, m)
        q = ["FULL", "LUMPED", None][i % 3]
        if q:
            o[rng.choice(["h_quad", "tdy_quadrature"])] = q
        out.append(dict(name="A%d-assembly" % i, opts=o, np=np_))
    for i in range(n // 2):
        dim = 2 + i % 2
        # constant velocities are in the space on meshes of parallelograms
        o, np_ = femesh(rng, dim, rng.choice(["box", "shear", "pert"] if dim == 2 else ["box", "shear"]), nmax=3)
        k, m = feperm(rng, dim, const=True)
        o.update(k, h_disc="BDM", h_quad="FULL", h_f_pbc=linspec(rng, o, dim, kind="lin"))
        out.append(dict(name="L%d-linear" % i, opts=o, np=np_))
    return out


def one(ck, c):
    o = {k: v for k, v in c["opts"].items() if k != "kind"}
    dim, nm = o["h_dim"], c["name"]
    t = need_ok(run("fe", opts(o), np_=c["np"]), nm)
    C = feref.cells(t, dim)
    nc = int(np.prod(o["h_n"][:dim]))
    if len(C) != nc:
        raise Fail("%s: %d cells, expected %d" % (nm, len(C), nc))
    F = t.vec[("F", 0)]
    n = len(F)
    fid = {f.off for q in C.values() for f in q.faces}
    if n != nc + len(fid) * 2 ** (dim - 1):
        raise Fail("%s: %d unknowns, expected %d cells and %d on each of %d faces" % (nm, n, nc, 2 ** (dim - 1), len(fid)))
    K = kof(t, C, dim)
    e = tol(o)
    A = matrix(t, "K", 0, n)
    pres = np.array(sorted(C))
    vel = np.setdiff1d(np.arange(n), pres)
    dofs = lambda f: {k: f.off + i for i, k in enumerate(f.key)}
    ck.count("systems_%dd" % dim); ck.ev(1, nm)
    # the velocity unknowns are scaled differently from the pressures: compare block by block
    lumped = o.get("h_quad", o.get("tdy_quadrature", "FULL")) == "LUMPED"
    g = feref.spec(o["h_f_pbc"]) if "h_f_pbc" in o else None
    f = feref.spec(o["h_f_src"]) if "h_f_src" in o else None
    M, R = feref.bdm(C, K, dim, n, lumped, dofs, g, f)
    blocks = [("velocity", vel, vel), ("gradient", vel, pres), ("divergence", pres, vel), ("pressure", pres, pres)]
    for b, r, q in blocks:
        sc = max(abs(M[np.ix_(r, q)]).max(), 1e-300)
        w, i = worst(A[np.ix_(r, q)].ravel(), M[np.ix_(r, q)].ravel(), 30 * e * sc)
        ck.count(b + "_entries", int((M[np.ix_(r, q)] != 0).sum()))
        if w > 1:
            x, y = r[i // len(q)], q[i % len(q)]
            raise Fail("%s: %s entry of unknowns %d and %d is %.12g, expected %.12g" % (nm, b, x, y, A[x, y], M[x, y]))
    gm = max([abs(g(x)) for q in C.values() for x in q.x.values()]) if g else 0
    fm = max([abs(f(x)) * q.vol for q in C.values() for x in q.x.values()]) if f else 0
    sl = lambda s: max(abs(float(q)) for q in s.split(":")[1].split(",")) * max(1, max(abs(q) for q in o["h_lo"] + o["h_hi"])) if s else 0
    for b, r, sc in (("velocity", vel, 30 * e * gm + 1e-14 * sl(o.get("h_f_pbc"))),
                     ("pressure", pres, 30 * e * fm + 1e-14 * sl(o.get("h_f_src")) * max(q.vol for q in C.values()))):
        w, i = worst(F[r], R[r], sc + 1e-300)
        ck.count("right_hand_sides_" + b, len(r))
        if w > 1:
            raise Fail("%s: right-hand side of the %s unknown %d is %.12g, expected %.12g" % (nm, b, r[i], F[r[i]], R[r[i]]))
    if o.get("h_times", 1) > 1:
        B, G = matrix(t, "K", 1, n), t.vec[("F", 1)]
        ck.count("repeated_assemblies")
        if abs(B - A).max() > 1e-13 * abs(A).max() or abs(G - F).max() > 1e-13 * abs(F).max() + 1e-300:
            raise Fail("%s: assembling the system again gives another system" % nm)
    if "linear" in nm:
        # equilibrate before solving: permeabilities span twelve decades
        km = max(abs(k).max() for k in K.values())
        s = np.ones(n); s[vel] = km ** .5; s[pres] = km ** -.5
        X = s * np.linalg.solve(A * np.outer(s, s), s * F)
        want = np.array([g(C[i].ctr) for i in pres])      # the mean over the reference cell
        q, i = worst(X[pres], want, 1e4 * e * (gm + 1) + 1e-12 * sl(o["h_f_pbc"]))
        ck.count("pressures_of_linear_fields", nc)
        if q > 1:
            raise Fail("%s: a linear pressure is not reproduced: cell %d has %.12g, expected %.12g" % (nm, pres[i], X[pres[i]], want[i]))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
