"""Richards flow on a PFLOTRAN mesh (FV-TPF): the balance of two-point fluxes, in the order of the file."""
from core import *
import gen, ref, h5, itertools

META = dict(level="exploration",
            rule="one evaluation = one cell residual, or one row of a Jacobian, on a mesh read from a PFLOTRAN file compared with the two-point balance computed from the file",
            assumptions=["faces are plane; the centre of a cell is the mean of its vertices, as the mesh reader defines it",
                         "every process gets a cell"])
FACES = {8: [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (0, 3, 2, 1), (4, 5, 6, 7)],
         6: [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
         5: [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 3, 2, 1)],
         4: [(0, 1, 3), (1, 2, 3), (2, 0, 3), (0, 2, 1)]}
# rotations of a hexahedron and a prism about their axes keep the local numbering valid
ROT8 = [(1, 2, 3, 0, 5, 6, 7, 4), (4, 5, 1, 0, 7, 6, 2, 3)]
ROT6 = (1, 2, 0, 4, 5, 3)


def mesh(rng, kind):
    n = [rng.randint(1, 4) for _ in range(3)]
    if kind == "single":
        n = [1, 1, 1]
    elif kind == "centre":
        n = [2, 2, 2]
    elif n[0] * n[1] * n[2] < 4:
        n = [rng.randint(2, 3) for _ in range(3)]
    L = [rng.choice([1, 10, 100.]) * rng.uniform(.5, 2) for _ in range(3)]
    X = [np.concatenate([[0], np.cumsum([rng.uniform(.5, 2) for _ in range(k)])]) for k in n]
    X = [x / x[-1] for x in X]
    nx, ny, nz = n
    vid = lambda i, j, k: i + (nx + 1) * (j + (ny + 1) * k)
    V = np.array([[X[0][i], X[1][j], X[2][k]] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)])
    if kind == "projective":
        c = np.array([rng.uniform(-.25, .25) for _ in range(3)])
        V = V / (1 + V @ c)[:, None]
    if kind != "box":
        A = np.eye(3) + np.array([[rng.uniform(-.25, .25) for _ in range(3)] for _ in range(3)])
        V = V @ A.T
    V = V * L + np.array([rng.uniform(-100, 100) for _ in range(3)])
    C = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                h = [vid(i, j, k), vid(i + 1, j, k), vid(i + 1, j + 1, k), vid(i, j + 1, k), vid(i, j, k + 1), vid(i + 1, j, k + 1), vid(i + 1, j + 1, k + 1), vid(i, j + 1, k + 1)]
                if kind == "wedge" or (kind == "mixed" and (i + j) % 2):
                    # the cut runs through whole columns
                    for t in ((0, 1, 2), (0, 2, 3)):
                        C.append([h[a] for a in t] + [h[a + 4] for a in t])
                else:
                    C.append(h)
    return V, C


def shuffle(rng, V, C, kind=None):
    p = list(range(len(V)))
    rng.shuffle(p)
    if kind == "centre":
        # every cell holds the vertex which the file lists first
        j = p.index(0)
        p[j], p[13] = p[13], 0
    W = np.empty_like(V)
    W[p] = V
    D = []
    for c in C:
        c = [p[i] for i in c]
        for _ in range(rng.randint(0, 4)):
            r = ROT8[rng.randint(0, 1)] if len(c) == 8 else ROT6
            c = [c[i] for i in r]
        D.append(c)
    rng.shuffle(D)
    return W, D


class Geo:
    """The mesh of the file as the reference sees it."""

    def __init__(self, V, C):
        self.n = len(C)  # cells
        self.x = np.array([V[c].mean(0) for c in C])
        self.vol = np.zeros(self.n)
        fs = {}
        for i, c in enumerate(C):
            for f in FACES[len(c)]:
                v = [c[k] for k in f]
                w = V[v]
                m = w.mean(0)
                nn = sum(np.cross(w[k] - m, w[(k + 1) % len(v)] - m) for k in range(len(v))) / 2
                self.vol[i] += abs(np.dot(nn, m - self.x[i])) / 3
                fs.setdefault(tuple(sorted(v)), []).append((i, m, nn))
        self.faces = []
        for k, l in fs.items():
            if len(l) == 2:
                a = np.linalg.norm(l[0][2])
                self.faces.append(dict(c=(l[0][0], l[1][0]), x=l[0][1], n=l[0][2] / a, area=a))
            else:
                i, m, nn = l[0]
                a = np.linalg.norm(nn)
                nn = nn * np.sign(nn @ (m - self.x[i]))
                self.faces.append(dict(c=(i, -1), x=m, n=nn / a, area=a))


def spec(rng, lo, hi, x):
    """A field linear in space which stays within bounds on the mesh."""
    a, b = x.min(0), x.max(0)
    g = np.array([rng.uniform(-1, 1) for _ in range(3)]) * (hi - lo) / 6 / np.maximum(b - a, 1e-3)
    c = (lo + hi) / 2 - float(g @ ((a + b) / 2))
    v = [float(c)] + [float(q) for q in g]
    return "lin:" + ",".join("%r" % q for q in v), (lambda y: v[0] + y @ np.array(v[1:]))


def cases(ck):
    rng, out = ck.rng, []
    for i in range(60 if ck.quick else 400):
        out.append(dict(name="pf%03d" % i, seed=rng.randint(1, 1 << 30), kind=["box", "affine", "projective", "wedge", "mixed"][i % 5] if i % 12 < 10 else ["single", "centre"][i % 2], np=rng.choice([1, 1, 2, 2, 3, 4])))
    return out


def run_case(ck, cs):
    import random
    rng = random.Random(cs["seed"])
    V, C = shuffle(rng, *mesh(rng, cs["kind"]), cs["kind"])
    g = Geo(V, C)
    N = g.n
    np_ = min(cs["np"], max(1, N // 3))
    scale = 10 ** rng.uniform(-14, -10)
    o = dict(h_disc="FV_TPF", h_mode="RICHARDS", tdy_read_pflotran_mesh="m.h5", h_vec="v", h_jac=1, h_dt=10 ** rng.uniform(1, 6), h_nstate=2,
             tdy_water_density=rng.choice(["constant", "exponential"]))
    o["h_f_poro"], poro = spec(rng, .1, .6, g.x)
    o["h_f_sr"], srf = spec(rng, .05, .3, g.x)
    kind = rng.choice(["iso", "diag"])
    o["h_kstyle"] = kind
    ks = []
    for nm in ("kxx", "kyy", "kzz")[:1 if kind == "iso" else 3]:
        o["h_f_" + nm], k = spec(rng, .2 * scale, 2 * scale, g.x)
        ks.append(k)
    if kind == "iso":
        ks = ks * 3
    if rng.random() < .5:
        o["tdy_gravity"] = rng.choice([0, 1.6, 9.8068])
    grav = float(o.get("tdy_gravity", ref.G))
    Kc = np.array([[k(x) for k in ks] for x in g.x])
    # the permeability of a cell along the line to its neighbour: 1/sum(u_k^2/K_kk)
    K = lambda c, u: 1 / np.sum(u * u / Kc[c], axis=-1)
    rho = ref.RHO[o["tdy_water_density"]]
    phi, Sr = poro(g.x), srf(g.x)
    st = [np.array([rng.uniform(60000, 140000) for _ in range(N)]) for _ in range(4)]
    w = max(len(c) for c in C)
    cells = np.array([[len(c)] + [i + 1 for i in c] + [0] * (w - len(c)) for c in C], float)
    files = {"m.h5": h5.put({"Domain/Cells": cells, "Domain/Vertices": V}), "v": b"".join(h5.petsc_vec(s) for s in st)}
    o["h_rounds"] = 4
    # a boundary held at a pressure
    held = rng.random() < .2
    if held:
        pb = float(rng.uniform(90000, 120000))
        o.update(h_f_pbct="const:0.5", h_f_pbc="const:%r" % pb)
        for f in g.faces:
            f["pbc"] = pb
    bc = "DIRICHLET" if held else "NEUMANN"
    r = run("pfm", opts(o), np_=np_, files=files)
    need_ok(r)
    t = r.trace
    for k in range(np_):
        u = [int(x[3]) for x in t.X["M"] if int(x[2]) == k]
        if len(u) != 4:
            raise Fail("%d records of the memory held" % len(u), key="memory")
        if min(b - a for a, b in zip(u[1:], u[2:])) > 0:
            raise Fail("process %d holds %s bytes after each life of a dycore on the mesh" % (k, u), key="memory")
    ck.count("lives", 4)
    mass = lambda P: phi * ref.sat(P, Sr, ref.VG_M, ref.VG_A) * np.array([float(rho(p)) for p in P]) * g.vol
    where = t.vec[("where", 0)].astype(int)
    if sorted(where) != list(range(N)):
        raise Fail("the natural order of the mesh is not a permutation of its cells: %s" % where[:20], key="order")
    for s in range(2):
        Pp, P = st[2 * s], st[2 * s + 1]
        U = t.vec[("U", s)]
        if not np.array_equal(U[where], P):
            raise Fail("state %d: the initial condition did not reach its cells" % s, key="order")
        out, sc, _ = ref.tpfa(g, P, K, Sr, rho=rho, g=grav, scheme="fvtpf", bc=bc)
        dt = float(o["h_dt"])
        R = (mass(P) - mass(Pp)) / dt + out
        F = t.vec[("F", s)]
        sc = sc + (mass(P) + mass(Pp)) / dt
        q, i = worst(F, R, sc)
        ck.ev(N, "residual", "kind:" + cs["kind"], "np:%d" % np_, "faces:%d" % len(g.faces))
        if held:
            o3, s3, _ = ref.tpfa(g, P, K, Sr, rho=rho, g=grav, scheme="fvtpf", bc="NEUMANN")
            if q > 1e-6 and worst(F, (mass(P) - mass(Pp)) / dt + o3, sc)[0] < 1e-9:
                raise Fail("state %d: a boundary held at a pressure passes no flow: the residual is that of a closed boundary" % s, key="boundary-conditions-ignored")
        if q > 1e-9:
            raise Fail("state %d, cell %d of the file: residual %r, two-point balance %r (scale %.3g)" % (s, i, F[i], R[i], sc[i]), key="residual")
        # the Jacobian by differences of the reference, in the order of the file
        J = np.zeros((N, N))
        for (i, j), v in t.mat[("J", s)].items():
            J[i, j] = v
        J = J[np.ix_(where, where)]
        h = 1.0
        ups = []
        for sg in (1, -1):
            D = np.zeros((N, N))
            for j in range(N):
                Q = P.copy()
                Q[j] += sg * h
                o2, _, _ = ref.tpfa(g, Q, K, Sr, rho=rho, g=grav, scheme="fvtpf", bc=bc)
                D[:, j] = sg * ((mass(Q) - mass(P)) / dt + o2 - out) / h
            ups.append(D)
        D, jump = (ups[0] + ups[1]) / 2, abs(ups[0] - ups[1])
        js = abs(D).max(1, keepdims=True) + abs(D).max(0, keepdims=True)
        bad = (abs(J - D) > 1e-5 * js + 3 * jump + 1e-9 * sc[:, None] / h)
        ck.ev(N, "jacobian")
        if bad.any():
            i, j = [int(a[0]) for a in np.nonzero(bad)]
            raise Fail("state %d: derivative of the balance of cell %d by the pressure of cell %d: assembled %r, reference %r" % (s, i, j, J[i, j], D[i, j]), key="jacobian")


def check(ck, only=None):
    ck.map(lambda c: run_case(ck, c), [only] if only else cases(ck))
