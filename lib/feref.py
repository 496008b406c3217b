"""What the mixed finite-element discretisations have to assemble, from the geometry and the fields of a recorded run."""
import itertools
import numpy as np

GX = np.array([-np.sqrt(0.6), 0.0, np.sqrt(0.6)])
GW = np.array([5.0, 8.0, 5.0]) / 9


class Face:
    pass


class Cell:
    pass


def cells(t, dim):
    """Cells by global number, with faces, vertices and the corners in a reference ordering."""
    C = {}
    for w in t.X.get("CF", []):
        c = C.setdefault(int(w[1]), Cell())
        if not hasattr(c, "faces"):
            c.faces, c.off = [], int(w[1])
        f = Face()
        f.off, f.bnd, f.area = int(w[2]), w[3] == "1", float(w[4])
        f.n = np.array([float(q) for q in w[5:5 + dim]])
        f.x = np.array([float(q) for q in w[8:8 + dim]])
        f.g = float(w[11])
        k = int(w[12])
        v = np.array([float(q) for q in w[13:13 + 5 * k]]).reshape(k, 5)
        f.v, f.src, f.gv = v[:, :dim], v[:, 3], v[:, 4]
        f.key = [tuple(np.round(q, 9) + 0.0) for q in f.v]
        c.faces.append(f)
    for c in C.values():
        c.x = {}
        c.src = {}
        for f in c.faces:
            for k, x, s in zip(f.key, f.v, f.src):
                c.x[k] = x
                c.src[k] = s
        ctr = np.mean(list(c.x.values()), 0)
        for f in c.faces:
            f.sign = 1.0 if np.dot(f.n, f.x - ctr) > 0 else -1.0
            f.nout = f.n * f.sign
        c.at = {k: [i for i, f in enumerate(c.faces) if k in f.key] for k in c.x}
        # neighbours: vertices sharing dim-1 faces
        c.nb = {k: [m for m in c.x if m != k and len(set(c.at[k]) & set(c.at[m])) == dim - 1] for k in c.x}
        # corners in a tensor ordering, for the multilinear map
        o = min(c.x)
        # the axes in the order of the coordinate they mostly follow (the velocity space in three dimensions depends on
        # the cyclic order of the axes, not on their directions)
        e = sorted(c.nb[o], key=lambda m: int(np.argmax(abs(c.x[m] - c.x[o]))))
        far = [[i for i in range(len(c.faces)) if i not in c.at[o] and i in c.at[m]] for m in e]
        c.corner = {}
        for bits in itertools.product((0, 1), repeat=dim):
            # the vertex on the far face of each axis with bit 1 and on the near face of the others
            want = [k for k in c.x if all((far[a][0] in c.at[k]) == bool(b) for a, b in enumerate(bits))]
            assert len(want) == 1
            c.corner[bits] = c.x[want[0]]
        c.ctr = ctr
        c.vol = integrate(c, dim, lambda x: 1.0)
    return C


def fmap(c, dim, xi):
    """Point, Jacobian matrix and determinant of the multilinear map at xi in [-1,1]^dim."""
    x = np.zeros(dim)
    D = np.zeros((dim, dim))
    for b, p in c.corner.items():
        w = [(1 + xi[a]) / 2 if b[a] else (1 - xi[a]) / 2 for a in range(dim)]
        x += np.prod(w) * p
        for a in range(dim):
            D[:, a] += (0.5 if b[a] else -0.5) * np.prod([w[q] for q in range(dim) if q != a]) * p
    return x, D, abs(np.linalg.det(D))


def integrate(c, dim, fn, lumped=False):
    s = 0.0
    pts = [-1.0, 1.0] if lumped else GX
    ws = [1.0, 1.0] if lumped else GW
    for ix in itertools.product(range(len(pts)), repeat=dim):
        x, D, J = fmap(c, dim, [pts[i] for i in ix])
        s = s + np.prod([ws[i] for i in ix]) * J * fn(x)
    return s


def vertex_quadrature(c, dim):
    """Integral of the forcing by the vertex rule."""
    s = 0.0
    for k, x in c.x.items():
        T = np.array([c.x[m] - x for m in c.nb[k]]).T
        s += abs(np.linalg.det(T)) / 2 ** dim * c.src[k]
    return s


def corners(c, dim, k):
    """Of the corner at vertex k: |det|, edge vectors t_i, and for each the face not containing it."""
    T, F = [], []
    for m in c.nb[k]:
        T.append(c.x[m] - c.x[k])
        F.append([c.faces[i] for i in c.at[k] if i not in c.at[m]][0])
    T = np.array(T)
    return abs(np.linalg.det(T)), T, F


def wy(C, K, dim, drop=True):
    """Cell-centred system of the vertex-quadrature (multipoint flux) mixed method.
    K: permeability tensor by cell.  Returns the dense matrix, the right-hand side, and the drop tolerance seen."""
    n = max(C) + 1
    M = np.zeros((n, n))
    R = np.zeros(n)
    fid = {}
    byv = {}
    for c in C.values():
        for f in c.faces:
            f.id = fid.setdefault(tuple(sorted(f.key)), len(fid))
        for k in c.x:
            byv.setdefault(k, []).append(c)
    nv = 0
    cmin = np.inf
    for k, cs in byv.items():
        ids = sorted({f.id for c in cs for f in c.faces if k in f.key})
        loc = {q: i for i, q in enumerate(ids)}
        A = np.zeros((len(ids), len(ids)))
        B = np.zeros((len(ids), len(cs)))
        G = np.zeros(len(ids))
        for j, c in enumerate(cs):
            d, T, F = corners(c, dim, k)
            Ki = np.linalg.inv(K[c.off])
            s = [_orient(f) for f in F]
            for a in range(dim):
                B[loc[F[a].id], j] += s[a] * F[a].area / 2 ** (dim - 1)
                if F[a].bnd:
                    G[loc[F[a].id]] = s[a] * F[a].g * F[a].area / 2 ** (dim - 1)
                for b in range(dim):
                    A[loc[F[a].id], loc[F[b].id]] += s[a] * s[b] * F[a].area * F[b].area * (T[a] @ Ki @ T[b]) / d / 2 ** dim
        X = np.linalg.solve(A, np.column_stack([B, G]))
        S = B.T @ X[:, :-1]
        mx = abs(S).max()
        cmin = min(cmin, mx)
        if drop:
            S = np.where(abs(S) < 1e4 * 2.220446049250313e-16 * mx, 0, S)
        D = B.T @ X[:, -1]
        for i, c in enumerate(cs):
            R[c.off] += D[i]
            for j, e in enumerate(cs):
                M[c.off, e.off] += S[i, j]
        nv += 1
    return M, R, nv


def _orient(f):
    """A direction of the face common to both of its cells: that of the recorded normal (same face, same normal)."""
    return f.sign


def velocities(C, K, dim, P, n=None):
    """Normal velocity at every (face, vertex) of the same method, along the recorded normal, for cell pressures P."""
    out = {}
    byv = {}
    fid = {}
    for c in C.values():
        for f in c.faces:
            f.id = fid.setdefault(tuple(sorted(f.key)), len(fid))
        for k in c.x:
            byv.setdefault(k, []).append(c)
    for k, cs in byv.items():
        ids = sorted({f.id for c in cs for f in c.faces if k in f.key})
        loc = {q: i for i, q in enumerate(ids)}
        A = np.zeros((len(ids), len(ids)))
        F0 = np.zeros(len(ids))
        for j, c in enumerate(cs):
            d, T, F = corners(c, dim, k)
            Ki = np.linalg.inv(K[c.off])
            s = [f.sign for f in F]
            for a in range(dim):
                F0[loc[F[a].id]] += s[a] * F[a].area / 2 ** (dim - 1) * P[c.off]
                if F[a].bnd:
                    F0[loc[F[a].id]] -= s[a] * F[a].g * F[a].area / 2 ** (dim - 1)
                for b in range(dim):
                    A[loc[F[a].id], loc[F[b].id]] += s[a] * s[b] * F[a].area * F[b].area * (T[a] @ Ki @ T[b]) / d / 2 ** dim
        u = np.linalg.solve(A, F0)
        for q, i in loc.items():
            out[(q, k)] = u[i]
    return out


# ---------------------------------------------------------------- BDM1 on the reference square and cube
def _polys(dim):
    """Spanning fields of the velocity space on [-1,1]^dim: functions of a point."""
    out = []
    for i in range(dim):
        e = np.eye(dim)[i]
        out.append(lambda x, e=e: e)
        for j in range(dim):
            out.append(lambda x, e=e, j=j: e * x[j])
    if dim == 2:
        out.append(lambda x: np.array([x[0] ** 2, -2 * x[0] * x[1]]))
        out.append(lambda x: np.array([2 * x[0] * x[1], -x[1] ** 2]))
        return out
    # curls of the vector potentials of the enhanced Brezzi-Douglas-Duran-Fortin space
    def cz(fx, fy):    # curl(0,0,p) = (p_y, -p_x, 0)
        return lambda x: np.array([fy(*x), -fx(*x), 0.0])

    def cx(fy, fz):    # curl(p,0,0) = (0, p_z, -p_y)
        return lambda x: np.array([0.0, fz(*x), -fy(*x)])

    def cy(fx, fz):    # curl(0,p,0) = (-p_z, 0, p_x)
        return lambda x: np.array([-fz(*x), 0.0, fx(*x)])
    z = lambda x, y, z: 0.0
    out += [cz(lambda x, y, z: y * z, lambda x, y, z: x * z),               # xyz
            cz(lambda x, y, z: y * y, lambda x, y, z: 2 * x * y),           # xy^2
            cz(lambda x, y, z: 2 * x * z, z),                               # x^2 z
            cz(lambda x, y, z: 2 * x * y * z, lambda x, y, z: x * x * z),   # x^2 y z
            cx(lambda x, y, z: x * z, lambda x, y, z: x * y),               # xyz
            cx(lambda x, y, z: z * z, lambda x, y, z: 2 * y * z),           # yz^2
            cx(lambda x, y, z: 2 * x * y, z),                               # xy^2
            cx(lambda x, y, z: 2 * x * y * z, lambda x, y, z: x * y * y),   # xy^2 z
            cy(lambda x, y, z: y * z, lambda x, y, z: x * y),               # xyz
            cy(lambda x, y, z: 2 * x * z, lambda x, y, z: x * x),           # x^2 z
            cy(z, lambda x, y, z: 2 * y * z),                               # y z^2
            cy(lambda x, y, z: y * z * z, lambda x, y, z: 2 * x * y * z)]   # x y z^2
    return out


_basis = {}


def basis(dim):
    """Coefficients of the nodal basis: degree of freedom (corner, axis) is the outward normal component at the corner on
    the face across that axis; each reference face carries 2^(dim-1) of them, scaled to share its area."""
    if dim not in _basis:
        P = _polys(dim)
        dofs = [(b, a) for b in itertools.product((0, 1), repeat=dim) for a in range(dim)]
        V = np.zeros((len(dofs), len(P)))
        for i, (b, a) in enumerate(dofs):
            x = np.array([1.0 if q else -1.0 for q in b])
            for j, p in enumerate(P):
                V[i, j] = p(x)[a] * x[a] * 1.0
        # unit flux: normal component 1 at one corner carries 1 (area 2^(d-1), shared by 2^(d-1) corners)
        _basis[dim] = (P, dofs, np.linalg.inv(V))
    return _basis[dim]


def basis_at(dim, xi):
    P, dofs, Ci = basis(dim)
    val = np.array([p(np.array(xi, float)) for p in P])          # (np, dim)
    return Ci.T @ val                                             # (ndof, dim)


def bdm(C, K, dim, n, lumped, dofs_of, g=None, f=None):
    """Mixed system [A -B'; -B 0] with right-hand side, numbered as the library numbers it: cells by their number and
    the corner of a face by dofs_of(face)[vertex], positive along the recorded normal."""
    M = np.zeros((n, n))
    F = np.zeros(n)
    pts, ws = ([-1.0, 1.0], [1.0, 1.0]) if lumped else (GX, GW)
    for c in C.values():
        _, dofs, _ = basis(dim)
        glob, sg = [], []
        # which face and which vertex each reference degree of freedom is
        inv = {tuple(np.round(p, 9) + 0.0): b for b, p in c.corner.items()}
        for b, a in dofs:
            k = [q for q, bb in inv.items() if bb == b][0]
            fc = [fa for fa in c.faces if all(inv[q][a] == b[a] for q in fa.key)][0]
            glob.append(dofs_of(fc)[k])
            sg.append(fc.sign)
        glob, sg = np.array(glob), np.array(sg)
        Ki = np.linalg.inv(K[c.off])
        A = np.zeros((len(dofs), len(dofs)))
        for ix in itertools.product(range(len(pts)), repeat=dim):
            xi = [pts[i] for i in ix]
            x, D, J = fmap(c, dim, xi)
            B = basis_at(dim, xi) @ D.T / J
            w = np.prod([ws[i] for i in ix]) * J
            A += w * (B @ Ki @ B.T)
            if f is not None:
                F[c.off] -= w * f(x)
        M[np.ix_(glob, glob)] += A * np.outer(sg, sg)
        M[glob, c.off] -= sg
        M[c.off, glob] -= sg
        if g is not None:
            for fc in c.faces:
                if not fc.bnd:
                    continue
                a, side = [(a, inv[fc.key[0]][a]) for a in range(dim) if len({inv[q][a] for q in fc.key}) == 1][0]
                for ix in itertools.product(range(3), repeat=dim - 1):
                    xi = [GX[i] for i in ix]
                    xi.insert(a, 1.0 if side else -1.0)
                    x, D, J = fmap(c, dim, xi)
                    bn = basis_at(dim, xi)[:, a] * (1.0 if side else -1.0)
                    F[glob] -= sg * bn * g(x) * np.prod([GW[i] for i in ix])
    return M, F


def spec(s):
    """Python twin of the lin and quad fields of the harness (identity map)."""
    kind, p = s.split(":")
    p = [float(q) for q in p.split(",")] + [0.0] * 4
    if kind == "const":
        return lambda x: p[0]
    y = lambda x: list(x) + [0.0] * (3 - len(x))
    if kind == "lin":
        return lambda x: p[0] + sum(a * b for a, b in zip(p[1:4], y(x)))
    if kind == "quad":
        return lambda x: p[0] + sum(a * b * b for a, b in zip(p[1:4], y(x)))
    raise ValueError(s)
