"""Every way of giving the same material gives the same problem."""
from core import *
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = two problems whose materials were given in two equivalent ways (constant or function; isotropic, diagonal or tensor), compared by residual, Jacobian and diagnostics",
            assumptions=["differences up to 1e-12 of the largest entry are rounding"])


def cases(ck):
    rng = ck.rng
    out = []
    n = 60 if ck.quick else 600
    forms = ["mpfao", "fvtpf", "mpfao-ts", "th", "salinity", "dae"]
    for i in range(n):
        form = forms[i % 6]
        o = gen.mesh(rng, rng.choice(gen.PLANE + ["zpert"]), 3)
        o.update(gen.eos(rng))
        s = gen.seed
        o.update(h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_f_pbc=gen.pressure(rng), h_dt=round(10 ** rng.uniform(1, 6), 2), h_nstate=2, h_jac=1, h_diag=1)
        if form == "fvtpf":
            o.update(h_disc="FV_TPF", h_f_pbct="hash:0,3,%d" % s(rng))
        else:
            o.update(h_disc="MPFA_O_DAE" if form == "dae" else "MPFA_O", h_bctype=rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC")
        if form in ("mpfao-ts", "th", "dae"):
            o.update(h_ts=1, h_f_Pdot="hash:-1,1,%d" % s(rng), h_shift=1e-4)
        if form == "th":
            o.update(h_mode="TH", h_f_T="hash:5,60,%d" % s(rng), h_f_Tdot="hash:-0.01,0.01,%d" % s(rng), h_f_tbc="hash:5,60,%d" % s(rng))
            o["h_bctype"] = rng.choice(["DIRICHLET", "NEUMANN"]) + "_BC"
            o.pop("h_diag")
        if form == "salinity":
            o.update(h_mode="SALINITY", h_f_C="hash:0.01,0.1,%d" % s(rng), h_f_Cprev="hash:0.01,0.1,%d" % s(rng), h_f_cbc="hash:0.01,0.1,%d" % s(rng))
            o.pop("h_diag")
        if form == "dae":
            o.pop("h_jac"); o.pop("h_diag")
        const = rng.random() < 0.6
        e = rng.uniform(-14, -10)
        def scal(lo, hi):
            return "const:%.9g" % rng.uniform(lo, hi) if const else "hash:%.9g,%.9g,%d" % (lo, hi, s(rng))
        def tens(names, lo, hi, form_):
            """material given in style form_, and its equivalents"""
            d = [scal(lo, hi) for _ in range(3)]
            if form_ == "iso":
                d = [d[0]] * 3
            r = {"h_f_" + names + c: v for c, v in zip(("xx", "yy", "zz"), d)}
            if form_ == "tens":
                for c in ("xy", "xz", "yz"):
                    r["h_f_" + names + c] = scal(-0.2 * lo, 0.2 * lo)
            return r
        f = rng.choice(["iso", "iso", "diag", "diag", "tens"])
        # FV-TPF takes diagonal permeabilities
        if form == "fvtpf" and f == "tens":
            f = "diag"
        o.update(h_f_poro=scal(.1, .5), h_f_sr=scal(0.01, .2))
        o.update(tens("k", 10 ** e, 3 * 10 ** e, f))
        up = {"iso": ["iso", "diag", "tens"], "diag": ["diag", "tens"], "tens": ["tens"]}
        styles = {"h_kstyle": up[f]}
        if form == "th":
            g = rng.choice(["iso", "diag", "tens"])
            o.update(tens("t", 0.5, 3, g)); styles["h_tstyle"] = up[g]
            o.update(h_f_rho=scal(2000, 3000), h_f_cp=scal(500, 1500))
        if form == "salinity":
            g = rng.choice(["iso", "diag", "tens"])
            o.update(tens("d", 1e-9, 1e-6, g)); styles["h_dstyle"] = up[g]
            o["h_f_mw"] = scal(40, 70)
        var = []
        for k in range(4):
            v = {q: rng.choice(w) for q, w in styles.items()}
            if const:
                v["h_capi"] = k % 2
            if v not in var:
                var.append(v)
        if len(var) < 2:
            var.append(dict(var[0]))
            if const:
                var[1]["h_capi"] = 1 - var[0]["h_capi"]
        out.append(dict(name="E%d-%s-%s%s" % (i, form, f, "-const" if const else ""), opts=o, var=var, np=gen.ranks(rng, o, (1, 1, 1, 2))))
    return out


def run_one(ck, c):
    o = c["opts"]
    t0 = None
    for v in c["var"]:
        t = need_ok(run("fv", opts(dict(o, **v)), np_=c["np"]), "materials given as %s" % v)
        if t0 is None:
            t0, v0 = t, v
            continue
        ck.ev(1, (c["name"], str(v)))
        ck.count("variants_" + c["name"].split("-")[1])
        for s in range(o["h_nstate"]):
            for nm in ("F", "sat", "mass"):
                if (nm, s) not in t0.vec:
                    continue
                a, b = t0.vec[(nm, s)], t.vec[(nm, s)]
                for d in range(t.dof if nm == "F" else 1):
                    x, y = (a[d::t.dof], b[d::t.dof]) if nm == "F" else (a, b)
                    q, i = worst(x, y, 1e-11 * np.abs(x) + 1e-11 * np.abs(x).max() + 1e-300)
                    ck.count("values_compared", len(x))
                    if q > 1:
                        raise Fail("%s: %s (field %d) entry %d is %.12g with %s and %.12g with %s" % (c["name"], nm, d, i, x[i], v0, y[i], v))
            if o.get("h_jac"):
                A, B = t0.dense("J", s), t.dense("J", s)
                q, i = worst(A, B, 1e-10 * np.abs(A).max(1)[:, None] + 1e-300)
                ck.count("values_compared", A.size)
                if q > 1:
                    raise Fail("%s: the Jacobian differs between %s and %s" % (c["name"], v0, v))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"], "variants": cs[0]["var"]})
    ck.map(lambda c: run_one(ck, c), cs)
