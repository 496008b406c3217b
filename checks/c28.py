"""Turning, moving or renumbering the mesh does not change what is computed."""
import math
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one system assembled twice, on a mesh and on its turned, moved or renumbered copy, whose residuals and Jacobians were compared entry by entry",
            assumptions=["turns about the vertical, any turn when gravity is zero", "renumbering on meshes with plane faces", "rounding: 1e-8 of the size of the summed terms"])


def rot(rng, full):
    a = rng.uniform(-math.pi, math.pi) if rng.random() < 0.7 else rng.choice([1, 2, 3]) * math.pi / 2
    c, s = math.cos(a), math.sin(a)
    Q = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
    if full:
        b = rng.uniform(-math.pi, math.pi)
        c, s = math.cos(b), math.sin(b)
        Q = np.array([[1, 0, 0], [0, c, -s], [0, s, c]]).dot(Q)
    return Q


def cases(ck):
    rng = ck.rng
    out = []
    n = 80 if ck.quick else 900
    forms = ["mpfao", "fvtpf", "mpfao-ts", "th"]
    for i in range(n):
        form = forms[i % 4]
        kind = rng.choice(gen.PLANE)
        o = gen.mesh(rng, kind, 4 if i % 5 else 5)
        o.update(gen.soil(rng)); o.update(gen.eos(rng))
        o.update(gen.perm(rng, "iso" if form == "fvtpf" else rng.choice(["iso", "tens"])))
        o.update(h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_f_pbc=gen.pressure(rng), h_dt=round(10 ** rng.uniform(1, 6), 2), h_nstate=2, h_jac=1)
        if form == "fvtpf":
            o.update(h_disc="FV_TPF", h_f_pbct="hash:0,3,%d" % gen.seed(rng))
        else:
            o.update(h_disc="MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC")
        if form in ("mpfao-ts", "th"):
            o.update(h_ts=1, h_f_Pdot="hash:-1,1,%d" % gen.seed(rng), h_shift=1e-4)
        if form == "th":
            o.update(h_mode="TH", h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_Tdot="hash:-0.01,0.01,%d" % gen.seed(rng), h_f_txx="hash:0.5,3,%d" % gen.seed(rng),
                     h_f_rho="hash:2000,3000,%d" % gen.seed(rng), h_f_cp="hash:500,1500,%d" % gen.seed(rng), h_f_tbc="hash:5,60,%d" % gen.seed(rng))
            o["h_bctype"] = rng.choice(["DIRICHLET", "NEUMANN"]) + "_BC"
        if rng.random() < 0.3:
            o["tdy_gravity"] = 0.0
        o["h_quantum"] = 1e-4
        what = ["turn", "move", "renumber", "turn+move+renumber"][(i // 4) % 4]
        m = {}
        if "turn" in what:
            m["h_q"] = rot(rng, False).ravel().tolist()
        if "move" in what:
            m["h_t"] = [round(rng.uniform(-50, 50), 3) for _ in range(3)]
        if "renumber" in what:
            if o["h_mesh"] == "box":
                o.pop("h_perm", None)
            m["h_perm"] = gen.seed(rng)
        out.append(dict(name="M%d-%s-%s-%s" % (i, form, kind, what), opts=o, map=m, np=1, np2=gen.ranks(rng, o, (1, 1, 1, 2, 3))))
    return out


def run_one(ck, c):
    o = c["opts"]
    a = need_ok(run("fv", opts(o), np_=c["np"]))
    b = need_ok(run("fv", opts(dict(o, **c["map"])), np_=c["np2"]), "changed mesh")
    Q = np.array(c["map"].get("h_q", np.eye(3).ravel())).reshape(3, 3)
    x = a.x.dot(Q.T) + np.array(c["map"].get("h_t", [0, 0, 0]))
    ix = match(x, b.x)
    q, i = worst(a.vol, b.vol[ix], 1e-8 * a.vol)
    if q > 1:
        raise Inconclusive("the copies do not match")
    for s in range(o["h_nstate"]):
        q, i = worst(a.vec[("U", s)], b.vec[("U", s)].reshape(-1, a.dof)[ix].ravel(), 1e-9 * np.abs(a.vec[("U", s)]))
        if q > 1:
            raise Skip("a field's rounding point fell between the copies")
    for k in a.fld:
        q, i = worst(a.fld[k], b.fld[k][ix], 1e-8 * np.abs(a.fld[k]))
        if q > 1 and k[0][0] not in "ktd" :
            raise Skip("a field's rounding point fell between the copies")
    ck.ev(1, c["name"])
    ck.count(c["name"].split("-")[1]); ck.count("np%d" % c["np2"])
    for s in range(o["h_nstate"]):
        same_system(ck, c["name"], a, b, ix, s, rtol=1e-8, jac="-th-" not in c["name"])


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[-1]["opts"], "map": cs[-1]["map"]})
    ck.map(lambda c: run_one(ck, c), cs)
