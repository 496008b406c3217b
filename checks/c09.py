"""The mesh the finite-volume methods compute on is the mesh that was given."""
from core import *
from build import BuildError
import gen, feref
from checks.c21 import femesh

META = dict(level="exploration",
            rule="one evaluation = one cell, face, vertex or cell corner of the library's mesh on one process compared with the given mesh",
            assumptions=["faces are plane", "the library's own mesh structure is read through its private header; where that does not compile only the boundary faces are decided"])


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(36 if ck.quick else 600):
        o = gen.mesh(rng, rng.choice(gen.PLANE), 4)
        if rng.random() < .3:
            o["h_perm"] = gen.seed(rng)
        if rng.random() < .3:
            far = rng.choice([3.0, 4e3, 2e5])
            for k in range(3):
                s = float(round(rng.uniform(-far, far), 2))
                o["h_lo"][k] = float(o["h_lo"][k] + s); o["h_hi"][k] = float(o["h_hi"][k] + s)
        o.update(h_disc=["MPFA_O", "FV_TPF"][i % 2], h_f_kxx="const:1e-12", h_kstyle="iso")
        out.append(dict(name="V%d-%s" % (i, o["h_disc"]), opts=o, np=gen.ranks(rng, o)))
    for i in range(8 if ck.quick else 120):
        o, np_ = femesh(rng, 2 + i % 2)
        o.pop("kind")
        o.update(h_disc=rng.choice(["WY", "BDM"]), h_times=0, h_f_kxx="const:1", h_kstyle="iso")
        out.append(dict(name="B%d-boundary" % i, opts=o, np=np_))
    return out


class G:
    """The given mesh, from the cells recorded by their owners."""

    def __init__(self, t, dim):
        self.cells, self.faces = {}, {}
        for w in t.X.get("CF", []):
            k = int(w[12])
            v = np.array([float(q) for q in w[13:13 + 5 * k]]).reshape(k, 5)[:, :3]
            pts = [tuple(q[:dim]) for q in v]
            c = self.cells.setdefault(int(w[1]), set())
            c.update(pts)
            f = self.faces.setdefault(frozenset(pts), [set(), pts])
            f[0].add(int(w[1]))
        self.key = {frozenset(v): g for g, v in self.cells.items()}
        self.at = {}
        for g, v in self.cells.items():
            for p in v:
                self.at.setdefault(p, [set(), set()])[0].add(g)
        for k in self.faces:
            for p in k:
                self.at[p][1].add(k)
        self.cf = {}
        for k, (cs, pts) in self.faces.items():
            for g in cs:
                self.cf.setdefault(g, set()).add(k)
        self.dim = dim
        self.memo = {}

    def polygon(self, k):
        """Area vector (unoriented), centroid and area of a plane face."""
        if k not in self.memo:
            self.memo[k] = self._polygon(k)
        return self.memo[k]

    def volume(self, g):
        """Volume and centroid of a cell with plane faces."""
        if g not in self.memo:
            self.memo[g] = self._volume(g)
        return self.memo[g]

    def _polygon(self, k):
        p = self.order(k)
        if self.dim == 2:
            d = p[1] - p[0]
            return np.array([d[1], -d[0]]), (p[0] + p[1]) / 2, np.linalg.norm(d)
        o = p.mean(0)
        N, S, X = np.zeros(3), 0.0, np.zeros(3)
        for a, b in zip(p, np.roll(p, -1, 0)):
            N += np.cross(a - o, b - o) / 2
        u = N / np.linalg.norm(N)
        for a, b in zip(p, np.roll(p, -1, 0)):
            s = np.cross(a - o, b - o) @ u / 2
            S += s
            X += s * ((a - o) + (b - o)) / 3
        return N, o + X / S, S

    def order(self, k):
        """Vertices of a face in order round it."""
        p = np.array(sorted(k))
        if len(p) <= 3:
            return p
        o = p.mean(0)
        q = p - o
        n = np.linalg.svd(q)[2][2]
        e = q[0] / np.linalg.norm(q[0])
        f = np.cross(n, e)
        return p[np.argsort(np.arctan2(q @ f, q @ e))]

    def _volume(self, g):
        o = np.mean(list(self.cells[g]), 0)
        V, X = 0.0, np.zeros(self.dim)
        for k in self.cf[g]:
            N, x, a = self.polygon(k)
            p = self.order(k)
            m = p.mean(0)
            for a_, b_ in zip(p, np.roll(p, -1, 0)):
                v = abs(np.dot(np.cross(a_ - o, b_ - o), m - o)) / 6
                V += v
                X += v * (a_ + b_ + m - 3 * o) / 4
        return V, o + X / V


def boundary(ck, c, t, g):
    rim = {k for k, (cs, _) in g.faces.items() if len(cs) == 1}
    ctr = {k: np.array(list(k)).mean(0) for k in g.faces}
    keys = list(ctr)
    pts = np.array([ctr[k] for k in keys])
    span = np.ptp(np.array([p for k in keys for p in k]), 0).max()
    seen = {}
    for w in t.X.get("BF", []):
        if w[2] != "1":
            raise Fail("%s: point %s, given as a boundary face on process %d, is no face" % (c["name"], w[1], w[0]))
        x = np.array([float(q) for q in w[5:5 + g.dim]])
        i = int(np.argmin(((pts - x) ** 2).sum(1)))
        if keys[i] not in rim:
            raise Fail("%s: face at %s is given as a boundary face on process %d and has two cells" % (c["name"], x.round(4), w[0]))
        seen.setdefault(w[0], set()).add(keys[i])
        ck.count("boundary_faces")
    for r in range(c["np"]):
        own = {k for w in t.X["CF"] if w[0] == r for k in g.cf[int(w[1])]} & rim
        d = own - seen.get(r, set())
        if d:
            raise Fail("%s: boundary face at %s is missing from those given on process %d" % (c["name"], ctr[d.pop()].round(4), r))
    n = sum(int(w[1]) for w in t.X["NBF"])
    if n != len(t.X.get("BF", [])):
        raise Fail("%s: boundary faces counted twice" % c["name"])
    ck.ev(len(rim), c["name"])


def one(ck, c):
    o = c["opts"]
    dim = o.get("h_dim", 3)
    nm = c["name"]
    t = need_ok(run("fe" if nm[0] == "B" else "mesh", opts(o), np_=c["np"]), nm)
    g = G(t, dim)
    nc = gen.ncells(o) if nm[0] == "V" else int(np.prod(o["h_n"][:dim]))
    if len(g.cells) != nc:
        raise Fail("%s: %d cells are owned, the mesh has %d" % (nm, len(g.cells), nc))
    boundary(ck, c, t, g)
    if nm[0] == "B":
        return
    span = np.ptp(np.array(list(g.at)), 0).max()
    far = max(abs(np.array(list(g.at))).max(), span)
    e = 1e-11 + 1e-15 * (far / span) * 50 * max(o["h_n"])
    own = set()
    for r in range(c["np"]):
        R = lambda k: [w for w in t.X.get(k, []) if w[0] == r]
        V = {}
        for w in R("MV"):
            x = tuple(float(q) for q in w[3:6])
            s = w.index("|")
            V[int(w[1])] = (x, w[2] == "1", [int(q) for q in w[6:s]], [int(q) for q in w[s + 1:]])
            if x not in g.at:
                raise Fail("%s process %d: vertex %s is not in the given mesh" % (nm, r, x))
        # cells
        C = {}
        for w in R("MC"):
            s = w.index("|")
            key = frozenset(V[int(q)][0] for q in w[9:s])
            if key not in g.key:
                raise Fail("%s process %d: a cell has vertices that form none of the given mesh" % (nm, r))
            a = g.key[key]
            C[int(w[1])] = a
            vol, x = g.volume(a)
            h = vol ** (1 / 3)
            dv, dx = abs(float(w[8]) - vol) / vol, np.abs(np.array([float(q) for q in w[5:8]]) - x).max() / h
            ck.count("cells")
            if dv > 100 * e * span / h or dx > 100 * e * span / h:
                raise Fail("%s process %d: cell at %s has volume %.12g and centroid %s, expected %.12g and %s" % (nm, r, x.round(4), float(w[8]), w[5:8], vol, x))
            if w[2] == "1":
                if a in own:
                    raise Fail("%s: cell at %s belongs to two processes" % (nm, x.round(4)))
                own.add(a)
        mine = {int(w[1]) for w in R("CF")}
        if {a for i, a in C.items() if a in own} & mine != mine:
            raise Fail("%s process %d: owned cells are missing or not marked as owned" % (nm, r))
        # faces
        F, rel = {}, {}
        for w in R("MF"):
            key = frozenset(V[int(q)][0] for q in w[21:])
            i = int(w[1])
            F[i] = key
            if key not in g.faces:
                raise Fail("%s process %d: face %d has vertices that form no face of the given mesh" % (nm, r, i))
            cs = g.faces[key][0]
            near = cs & mine
            if not near:
                continue        # a face between or beyond ghost cells
            N, x, A = g.polygon(key)
            cc = [int(w[5]), int(w[6])]
            got = {C[q] for q in cc if q >= 0 and q in C}
            ck.count("faces")
            if got != cs:
                raise Fail("%s process %d: the face at %s has cells %s, expected %s" % (nm, r, x.round(4), got, cs))
            if (w[3] == "1") != (len(cs) == 2):
                raise Fail("%s process %d: the face at %s is marked as %s" % (nm, r, x.round(4), "internal" if w[3] == "1" else "boundary"))
            h = A ** .5
            # a face off the origin loses digits in its area relative to its size
            tl = 200 * e * span / h
            area, n, xc = float(w[7]), np.array([float(q) for q in w[8:11]]), np.array([float(q) for q in w[11:14]])
            u = N / np.linalg.norm(N)
            if abs(area - A) > tl * A or min(abs(n - u).max(), abs(n + u).max()) > tl or abs(xc - x).max() > tl * h:
                raise Fail("%s process %d: the face at %s has area %.12g, normal %s and centroid %s, expected %.12g, +-%s" % (nm, r, x.round(4), area, n, xc, A, u))
            ctr = [np.mean(list(g.cells[C[q]]), 0) if q >= 0 else x for q in cc]
            if n @ (ctr[1] - ctr[0]) <= 0:
                raise Fail("%s process %d: the normal of the face at %s does not point from its first cell to its second" % (nm, r, x.round(4)))
            if o["h_disc"] == "FV_TPF":
                cen = [g.volume(C[q])[1] if q >= 0 else x for q in cc]
                # where the line of centroids meets the face, or the foot of the perpendicular on a boundary face
                if len(cs) == 2:
                    s = ((x - cen[0]) @ u) / ((cen[1] - cen[0]) @ u)
                    foot = cen[0] + s * (cen[1] - cen[0])
                else:
                    q = [q for q in (0, 1) if cc[q] >= 0][0]
                    foot = cen[q] - ((cen[q] - x) @ u) * u
                    cen[1 - q] = foot
                d = [np.linalg.norm(foot - q) for q in cen]
                v = cen[1] - cen[0]
                uv = v / np.linalg.norm(v)
                got = [float(q) for q in w[14:21]]
                want = d + [d[0] / (d[0] + d[1])] + list(uv) + [A * abs(uv @ u)]
                sc = [h + d[0] + d[1], h + d[0] + d[1], 1, 1, 1, 1, A]
                m = max(abs(a - b) / s * min(1, h / (d[0] + d[1])) for a, b, s in zip(got, want, sc))
                ck.count("two_point_faces")
                if m > 10 * tl:
                    raise Fail("%s process %d: the face at %s has distances, weight, direction and projected area %s, expected %s" % (nm, r, x.round(4), got, want))
        # lists of vertices and cells
        for i, (x, loc, cs, fs) in V.items():
            if not g.at[x][0] & mine:
                continue
            if loc != bool(g.at[x][0] & mine):
                raise Fail("%s process %d: vertex %s of an owned cell is not marked as local" % (nm, r, x))
            ck.count("vertices")
            if {C[q] for q in cs} != g.at[x][0] or len(set(cs)) != len(cs):
                raise Fail("%s process %d: vertex %s lists %d cells, expected %d" % (nm, r, x, len(cs), len(g.at[x][0])))
            if {F[q] for q in fs} != g.at[x][1]:
                raise Fail("%s process %d: vertex %s lists %d faces, expected %d" % (nm, r, x, len(fs), len(g.at[x][1])))
        for w in R("MC"):
            a = C[int(w[1])]
            if a not in mine:
                continue
            s = w.index("|")
            fs = [int(q) for q in w[s + 1:w.index("|", s + 1)]]
            if {F[q] for q in fs} != g.cf[a]:
                raise Fail("%s process %d: cell %d lists other faces than its own" % (nm, r, a))
        # corners: areas add up, and the corner's gradient is exact for linear fields
        area = {}
        for w in R("MS"):
            a = C[int(w[2])]
            if a not in mine:
                continue
            k = int(w[4])
            T = float(w[3])
            ctr = g.volume(a)[1]
            M = np.zeros((3, 3))
            big = 0.0
            for q in range(k):
                f, A, up = w[5 + 9 * q], float(w[6 + 9 * q]), w[7 + 9 * q]
                nu = np.array([float(z) for z in w[8 + 9 * q:11 + 9 * q]])
                key = F[int(f)]
                area[(a, key)] = area.get((a, key), 0.0) + A
                d = g.polygon(key)[1] - ctr
                M += np.outer(nu, d)
                big = max(big, np.linalg.norm(nu) * np.linalg.norm(d))
            ck.count("corners")
            h = g.volume(a)[0] ** (1 / 3)
            if abs(M + T * np.eye(3)).max() > 1000 * e * span / h * (big + abs(T)):
                raise Fail("%s process %d: the gradient of a corner of the cell at %s is not exact for linear fields" % (nm, r, ctr.round(4)))
        for (a, key), A in area.items():
            w = g.polygon(key)[2]
            ck.count("faces_split")
            if abs(A - w) > 500 * e * span / w ** .5 * w:
                raise Fail("%s process %d: the parts of the face at %s have %.12g of its area %.12g" % (nm, r, g.polygon(key)[1].round(4), A, w))
    if len(own) != nc:
        raise Fail("%s: %d of %d cells are owned" % (nm, len(own), nc))
    if len(t.X["MC"]) and sorted({int(w[4]) for w in t.X["MC"] if w[2] == "1"}) != list(range(nc)):
        raise Fail("%s: the natural numbers of the owned cells are not 0 to %d" % (nm, nc - 1))
    ck.ev(len(t.X["MC"]) + len(t.X["MF"]) + len(t.X["MV"]) + len(t.X.get("MS", [])), nm)


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})

    def go(c):
        try:
            one(ck, c)
        except BuildError:
            if c["name"][0] == "B":
                raise
            ck.count("not decided: the mesh structure changed")
    ck.map(go, cs)
