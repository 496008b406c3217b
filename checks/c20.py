"""The regression file states what the solution is."""
from core import *
import re
import gen

META = dict(level="exploration",
            rule="one evaluation = one number of a regression file compared with the solution vector it was written for",
            assumptions=["a sampled cell is identified by its position in the distributed solution"])


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(32 if ck.quick else 400):
        form = ["fvtpf", "mpfao", "th", "sal"][i % 4]
        o = gen.mesh(rng, rng.choice(["box", "box", "wedge"]), 4)
        if o["h_mesh"] == "box" and rng.random() < .7:
            o["h_perm"] = gen.seed(rng)
        o.update(gen.soil(rng))
        o.update(h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O", tdy_dt_init=1.0, tdy_dt_max=1.0, tdy_dt_growth_factor=1.0, ksp_type="preonly", pc_type="redundant",
                 h_f_P="hash:%d,%d,%d" % (rng.randint(60000, 90000), rng.randint(92000, 120000), gen.seed(rng)), h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng), h_kstyle="iso",
                 snes_rtol=1e-8, snes_max_it=60, tdy_time_integration_method="TS" if form == "th" else "SNES", tdy_water_density="exponential")
        if form == "th":
            o.update(h_mode="TH", h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_txx="const:1", h_tstyle="iso", h_f_rho="const:2000", h_f_cp="const:1000", snes_rtol=1e-7)
        if form == "sal":
            o.update(h_mode="SALINITY", h_f_T="const:0", h_f_C="hash:0.01,0.2,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="const:58.44", snes_fd=None)
        n = rng.choice([None, 1, 2, 3, 5, 9, 40])
        o.update(h_sync=[1.0] if rng.random() < .6 else [1.0, 2.0], h_reg=1, tdy_regression_test=None, tdy_regression_test_filename="r%d" % i)
        if n:
            o["tdy_regression_test_num_cells_per_process"] = n
        out.append(dict(name="%d-%s" % (i, form), opts=o, np=gen.ranks(rng, o)))
    return out


def one(ck, c):
    o, nm = c["opts"], c["name"]
    fn = o["tdy_regression_test_filename"] + ".regression"

    def grab(wd):
        p = os.path.join(wd, fn)
        return open(p).read() if os.path.exists(p) else None
    t = run("step", opts(o), np_=c["np"], grab=grab)
    if t.rc and ("DIVERGED" in t.out or "maximum time step cuts" in t.out or "not implemented" in t.out):
        raise Skip("the solver did not converge")
    text = t.grab
    t = need_ok(t, nm)
    if text is None:
        raise Fail("%s: no file %s was written" % (nm, fn))
    two = o.get("h_mode") in ("TH", "SALINITY")
    last = ("endprev", len(o["h_sync"]) - 1)
    U = t.vec[last].reshape(-1, 2 if two else 1)
    loc = [q // U.shape[1] for q in t.parts[last]]
    blocks = re.split(r"^-- (\w+): (.*?) --\n", text, flags=re.M)
    if blocks[0].strip() or len(blocks) != 1 + 3 * U.shape[1]:
        raise Fail("%s: the file has %d sections, expected %d" % (nm, len(blocks) // 3, U.shape[1]))
    want_n = o.get("tdy_regression_test_num_cells_per_process", 2)
    want_n = min(want_n, min(loc))
    for k in range(U.shape[1]):
        kind, title, body = blocks[1 + 3 * k:4 + 3 * k]
        kw = ["Pressure", {"TH": "Temperature"}.get(o.get("h_mode"), "Concentration")][k]
        if kw not in title:
            raise Fail("%s: section %d is titled %r" % (nm, k, title))
        S = dict((a.strip(), float(b)) for a, b in re.findall(r"^ *(\w+): +(\S+)$", body, flags=re.M) if not a.isdigit())
        u = U[:, k]
        for q, w in (("Max", u.max()), ("Min", u.min()), ("Mean", u.mean())):
            ck.ev(1, (nm, k, q))
            if q not in S or abs(S[q] - w) > 1e-12 * abs(u).max():
                raise Fail("%s: %s of the %s is %s in the file, %.14g in the solution" % (nm, q, title, S.get(q), w))
        ids = [(int(a), float(b)) for a, b in re.findall(r"^ *(\d+): +(\S+)$", body, flags=re.M)]
        for a, b in ids:
            ck.ev(1, (nm, k, a)); ck.count("cells_" + (o.get("h_mode") or "RICHARDS"))
            if a >= len(u) or abs(b - u[a]) > 1e-13 * abs(u[a]) + 1e-300:
                raise Fail("%s: cell %d has %s %.14g in the file, %.14g in the solution" % (nm, a, title, b, u[a] if a < len(u) else np.nan))
        if len({a for a, _ in ids}) != len(ids):
            raise Fail("%s: a cell is listed twice" % nm)
        st = 0
        for n in loc:
            got = [a for a, _ in ids if st <= a < st + n]
            if len(got) != want_n:
                raise Fail("%s: %d cells of a process with %d are listed, expected %d" % (nm, len(got), n, want_n))
            st += n
    ck.count("files")


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
