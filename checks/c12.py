"""Checkpoints hold the accepted state, and a run restarted from one continues it."""
from core import *
import gen, ref, h5

META = dict(level="exploration",
            rule="one evaluation = one entry of a checkpoint compared with the accepted state, or one entry of the state of a restarted run compared with the uninterrupted one",
            assumptions=["checkpoint files are read, and matched with accepted steps by their name, which has six digits of the time",
                         "a restarted run takes the same steps as the uninterrupted one: constant time step"])


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(24 if ck.quick else 300):
        form = ["fvtpf", "mpfao", "fvtpf", "sal"][i % 4]
        o = gen.mesh(rng, rng.choice(gen.PLANE if form == "fvtpf" else ["box", "box", "wedge"]), 3 if form == "sal" else 4)
        if o["h_mesh"] == "box" and rng.random() < .7:
            o["h_perm"] = gen.seed(rng)
        dt = round(rng.uniform(.5, 50), 2)
        o.update(gen.soil(rng))
        o.update(tdy_water_density=rng.choice(["constant", "exponential"]), tdy_dt_init=dt, tdy_dt_growth_factor=1.0, tdy_dt_max=dt,
                 snes_rtol=1e-9, snes_stol=0, snes_atol=1e-13, snes_max_it=80, ksp_type="preonly", pc_type="redundant",
                 h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O", tdy_time_integration_method="SNES",
                 h_f_P="hash:%d,%d,%d" % (rng.randint(70000, 90000), rng.randint(92000, 99000), gen.seed(rng)),
                 h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng), h_kstyle="iso")
        if form == "fvtpf":
            o["h_f_pbct"] = "const:1.5"
        if form == "sal":
            o.update(h_mode="SALINITY", h_f_T="const:0", h_f_C="hash:0.01,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="const:58.44", snes_rtol=1e-8, snes_fd=None)
        n1, n2 = rng.randint(1, 4), rng.randint(1, 4)
        if form == "sal":
            n1, n2 = min(n1, 2), min(n2, 2)
        o["h_sync"] = [n1 * dt, (n1 + n2) * dt] if rng.random() < .6 else [(n1 + n2) * dt]
        o["enable_checkpoint"] = None
        k = rng.choice([1, 1, 2, 3])
        if k > 1 or rng.random() < .3:
            o["checkpoint_timestep_interval"] = k
        fail = form == "fvtpf" and rng.random() < .3
        if fail:
            o["h_failat"] = sorted(rng.sample(range(4), rng.choice([1, 2])))
            o["tdy_dt_growth_factor"] = 2.0
        out.append(dict(name="K%d-%s" % (i, form), opts=o, every=k, fail=fail, dt=dt, np=gen.ranks(rng, o, (1, 2, 3, 4, 5)), np2=gen.ranks(rng, o, (1, 2, 3, 4, 5)), pick=rng.random()))
    return out


def grab(wd):
    d = {}
    for f in os.listdir(wd):
        if f.endswith("_chk.h5"):
            d[f] = h5.cat(wd + "/" + f) + (open(wd + "/" + f, "rb").read(),)
    return d


def run_(o, np_, what, **k):
    r = run("step", opts(o), np_=np_, **k)
    if any(s in r.out for s in ("DIVERGED", "after maximum time step cuts", "TDyPreSolveSNESSolver not implemented for MPFA_O")):
        raise Skip("the solver did not converge")
    return need_ok(r, what), r


def one(ck, c):
    o = c["opts"]
    fvo = {k: v for k, v in o.items() if k.startswith("h_") and k not in ("h_sync", "h_failat")}
    a = need_ok(run("fv", opts(fvo), np_=1), "order of the mesh")
    t, r = run_(o, c["np"], "run with checkpoints", grab=grab)
    ix, dof = match(a.x, t.x), t.dof
    B = {int(x[1]): x for x in t.X.get("B", []) if x[0] == 0}
    E = {int(x[1]): x for x in t.X.get("E", []) if x[0] == 0}
    ends = [int(x[5]) for x in sorted((x for x in t.X["R"] if x[0] == 0), key=lambda x: int(x[1]))]     # calls made up to each synchronisation
    want, n = {}, 0
    for i in sorted(B):
        if int(E[i][2]) < 0:
            continue
        n += 1
        if n % c["every"] == 0 or i + 1 in ends:
            k = "%11.5e_chk.h5" % (float(B[i][2]) + float(B[i][3]))
            if k in want:
                raise Skip("two checkpoints have the same name")
            want[k] = (n, t.vec[("sol", i)])
    if not n:
        raise Skip("no step was accepted")
    got = r.grab
    if set(got) - set(want):
        raise Fail("%s: a checkpoint that is not due: %s" % (c["name"], sorted(set(got) - set(want))[0]))
    for k, (n, v) in want.items():
        if k not in got:
            raise Fail("%s: the checkpoint of step %d, %s, was not written" % (c["name"], n, k))
        D, A, _ = got[k]
        g = D.get("fields/IC")
        ex = v.reshape(-1, dof)[ix].ravel()
        if g is None or g.size != ex.size:
            raise Fail("%s: the checkpoint of step %d holds %s values" % (c["name"], n, "no" if g is None else g.size))
        q, i = worst(g.ravel(), ex, 1e-13 * np.abs(ex))
        ck.ev(ex.size, (c["name"], n)); ck.count("entries_checkpointed", ex.size); ck.count("checkpoints")
        if q > 1:
            raise Fail("%s, %d processes: the checkpoint of step %d has %.12g for unknown %d of cell %d, the accepted state %.12g" % (o["h_disc"], c["np"], n, g.ravel()[i], i % dof, i // dof, ex[i]))
        st = [x for q_, x in A.items() if q_.endswith("|time step")]
        if st != [n]:
            raise Fail("%s: the checkpoint of step %d says it is of step %s" % (c["name"], n, st))
    # restart from one of them
    ks = sorted(want, key=lambda k: want[k][0])
    k = ks[int(c["pick"] * len(ks))]
    n, v = want[k]
    left = max(B) - [i for i in B if float(B[i][2]) + float(B[i][3]) > 0 and "%11.5e_chk.h5" % (float(B[i][2]) + float(B[i][3])) == k and int(E[i][2]) >= 0][0]
    tc = float(k.split("_")[0])
    b = {q_: w for q_, w in o.items() if q_ not in ("enable_checkpoint", "checkpoint_timestep_interval", "h_failat", "h_sync")}
    b.update(h_ic=0, ic_file="r.h5", ic_dataset="fields/IC", h_sync=[max(left, 1) * c["dt"]])
    u, _ = run_(b, c["np2"], "run restarted from a checkpoint", files={"r.h5": got[k][2]})
    jx = match(t.x, u.x)
    cmp = [("init", "the state it starts from", v, 1e-13)]
    if left and not c["fail"]:
        cmp.append(("end", "the state after %d more steps" % left, t.vec[("end", len(o["h_sync"]) - 1)], None))
    for nm, what, ex, tol in cmp:
        g = u.vec[(nm, 0)].reshape(-1, dof)[jx]
        ex = ex.reshape(-1, dof)
        for e in range(dof):
            sc = tol * np.abs(ex[:, e]) if tol else 1e-4 * np.abs(ex[:, e] - v.reshape(-1, dof)[:, e]).max() + 1e-9 * np.abs(ex[:, e]).max()
            q, i = worst(g[:, e], ex[:, e], sc)
            ck.ev(len(ex), (c["name"], nm)); ck.count("entries_restarted_%s" % nm, len(ex))
            if q > 1:
                raise Fail("%s, written by %d and read by %d processes: restarted from step %d, %s: unknown %d at %s is %.12g, in the uninterrupted run %.12g" % (
                    o["h_disc"], c["np"], c["np2"], n, what, e, t.x[i].round(3), g[i, e], ex[i, e]))
    if left and not c["fail"]:
        ck.count("continuations")


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["opts"]})
    ck.map(lambda c: one(ck, c), cs)
    if not only and not ck.counts.get("continuations"):
        ck.violate("nothing-continued", "no restarted run could be compared", cs[0])
