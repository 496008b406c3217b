"""Scripts of calls of the public interface for the "calls" harness program."""
import gen
from core import run, opts, Fail, Skip, Inconclusive, why, need_ok, BuildError

MODE = dict(RICHARDS=0, TH=1, SALINITY=2)
DISC = dict(MPFA_O=0, MPFA_O_DAE=1, MPFA_O_TRANSIENTVAR=2, BDM=3, WY=4, FV_TPF=5)
MAKE = ["vectors", "jac"]
# how a dycore of each kind is used once it is set up; {k} numbers the state, {t} is a time
USES = {
    "snes": ["setsnes", "setjac", "dtime {dt}", "prev 0", "presolve", "eval 0", "evalj 0"],
    "snesdiag": ["setsnes", "dtime {dt}", "prev 1", "presolve", "eval 1", "diag", "sat", "mass", "post 1", "pres"],
    "ts": ["setts", "setijac", "evalt 0", "evaltj 0"],
    "tsf": ["setts", "evalt 1", "evalt 0"],
    "sal": ["setsnes", "dtime {dt}", "prev 0", "presolve", "eval 0", "diag", "sat", "mass"],
    "steady": ["steady"],
    "fe": ["fe"],
    "driver": ["driver", "run {t}", "soln"],
    "look": ["faces", "dim", "getdisc", "getmode", "getic", "g2n 0", "dvec", "pvec", "matrix"],
    "lookfe": ["faces", "dim", "getdisc", "getmode", "pvec", "matrix"],
}
KINDS = {"MPFA_O": ["snes", "snesdiag", "ts", "steady", "driver", "look"], "FV_TPF": ["snes", "snesdiag", "driver"], "MPFA_O_DAE": ["tsf"], "MPFA_O_TRANSIENTVAR": ["tsf"], "BDM": ["fe", "lookfe"], "WY": ["fe", "lookfe"]}


def fields(rng, hom=False):
    """the fields of one dycore, for every mode and discretization"""
    s = lambda: gen.seed(rng)
    o = gen.soil(rng)
    o.update(h_f_kxx="const:%r" % float("%.3g" % 10 ** rng.uniform(-13, -11)) if hom else "lhash:1e-13,1e-11,%d" % s(), h_kstyle="iso",
             h_f_P="hash:%d,%d,%d" % (rng.randint(85000, 95000), rng.randint(97000, 120000), s()), h_f_Pprev="hash:%d,%d,%d" % (rng.randint(85000, 95000), rng.randint(97000, 120000), s()),
             h_f_pbc="hash:90000,110000,%d" % s(), h_f_src="hash:-1e-3,1e-3,%d" % s(), h_f_T="hash:10,50,%d" % s(), h_f_Tprev="hash:10,50,%d" % s(), h_f_tbc="hash:10,50,%d" % s(), h_f_txx="const:%.2f" % rng.uniform(.5, 3),
             h_f_rho="const:%d" % rng.randint(1500, 2700), h_f_cp="const:%d" % rng.randint(600, 1200), h_f_C="hash:.01,.2,%d" % s(), h_f_Cprev="hash:.01,.2,%d" % s(), h_f_cbc="hash:.01,.2,%d" % s(), h_f_mw="const:58.44",
             h_f_dxx="const:1e-6", h_f_Pdot="hash:-1,1,%d" % s(), h_f_Tdot="hash:-.01,.01,%d" % s(), h_tstyle="iso", h_dstyle="iso", h_capi=rng.randint(0, 1))
    o["h_f_pbct"] = "hash:0,3,%d" % s() if rng.random() < .5 else "none"
    return o


def kinds(rng, n, nomax=None):
    """(mode, discretization, use) combinations"""
    out = []
    for i in range(n):
        d = rng.choice(["MPFA_O", "MPFA_O", "FV_TPF", "WY", "BDM", "MPFA_O_DAE", "MPFA_O_TRANSIENTVAR", "TH", "SAL"])
        if d == "TH":
            out.append(("TH", "MPFA_O", rng.choice(["ts", "ts", "look"])))
        elif d == "SAL":
            out.append(("SALINITY", "MPFA_O", rng.choice(["sal", "look"])))
        else:
            out.append(("RICHARDS", d, rng.choice(KINDS[d])))
    return out


def life(mode, disc, use, dt, t, cond=True):
    """the calls from creation to use"""
    mat = ["mat", "cond"] if cond else ["mat"]
    mid = mat if use == "driver" else mat + ["setup"] + (MAKE if use not in ("fe", "steady", "lookfe") else [])
    return ["create", "mode %d" % MODE[mode], "disc %d" % DISC[disc], "dm", "fromopt"] + mid + [u.format(dt=dt, t=t) for u in USES[use]]


def go(script, o, np_=1, files=None, variant="plain", timeout=None, **kw):
    f = {"script": "\n".join(script) + "\n"}
    f.update(files or {})
    return run("calls", opts(dict(o, h_script="script")), np_=np_, files=f, variant=variant, timeout=timeout, **kw)


def codes(t):
    """error code of each line on the first process, None where the call never came back"""
    c = {int(x[1]): int(x[2]) for x in t.trace.X.get("C", []) if x[0] == 0}
    w = [int(x[1]) for x in t.trace.X.get("W", []) if x[0] == 0]
    return c, (max(w) if w else -1)
