"""Dycores can be created, used and destroyed any number of times, at any stage."""
from core import *
import api, gen

META = dict(level="exploration",
            rule="one evaluation = one cycle of creating, using and destroying dycores (possibly broken off early, possibly with the library finalized in between), whose memory and results are compared with those of the earlier cycles",
            assumptions=["memory is what PETSc's allocator accounts to the process; the first two cycles may allocate caches and registries"])
N = 5


def gen_case(rng, i):
    o = gen.mesh(rng, rng.choice(["box", "box", "pert", "column"]), 3)
    o.update(api.fields(rng))
    np_ = gen.ranks(rng, o, (1, 1, 1, 2, 3))
    rounds = []
    for mode, disc, use in api.kinds(rng, rng.choice([1, 1, 2])):
        if disc in ("BDM", "WY"):
            if np_ > 1 or o["h_mesh"] != "box":
                np_ = 1
            if disc == "BDM" and o.get("h_kstyle") != "iso":
                pass
        if np_ > 1 and use == "driver":
            use = "snes"
        s = api.life(mode, disc, use, round(10 ** rng.uniform(1, 5), 1), rng.randint(100, 1000), cond=disc != "BDM" or rng.random() < .5)
        if rng.random() < .35:
            s = s[:rng.randint(1, len(s))]
        rounds.append([mode, disc, use, s])
    o.update(tdy_dt_init=500, h_bctype="DIRICHLET_BC", snes_rtol=1e-9, ksp_type="preonly", pc_type="redundant")
    io = rng.choice([None] * 4 + ["chk", "iomode 2", "iomode 0", "regression"])
    if io and any(r[2] == "driver" for r in rounds):
        if io == "chk":
            o.update(enable_checkpoint=None, checkpoint_timestep_interval=1)
        elif io == "regression":
            o.update(tdy_regression_test=None, tdy_regression_test_filename="reg", tdy_regression_test_num_cells_per_process=2)
        else:
            for r in rounds:
                if "driver" in r[3]:
                    r[3].insert(r[3].index("driver") + 1, io)
                    r[3].append("write") if r[3][-1] == "soln" else None
    if rng.random() < .15:
        o["tdy_init_with_random_field"] = None
    return dict(name="%d %s%s" % (i, "+".join("%s/%s/%s%s" % (r[0][:2], r[1], r[2], "" if len(r[3]) > 10 else "(%s)" % r[3][-1].split()[0]) for r in rounds), " np=%d" % np_ if np_ > 1 else ""), opts=o, np=np_, rounds=[r[3] for r in rounds],
                reinit=rng.choice([None, None, None, 0, 1]), interleave=rng.random() < .3 and len(rounds) > 1)


def script(c):
    """lines, and for each line (round, position in the round)"""
    one = []
    if c["interleave"]:
        for k, r in enumerate(c["rounds"]):
            one += ["%d %s" % (k, x) for x in r]
        one += ["%d destroy" % k for k in range(len(c["rounds"]))]
    else:
        for r in c["rounds"]:
            one += ["0 " + x for x in r] + ["0 destroy"]
    if c["reinit"] is not None:
        one += ["0 inited", "0 finalize", "0 inited", "0 init %d" % c["reinit"]] + ["%d fields" % k for k in range(len(c["rounds"]) if c["interleave"] else 1)]
    one.append("0 heap")
    pre = ["%d fields" % k for k in range(len(c["rounds"]))] if c["interleave"] else []
    return pre, one


def check(ck, only=None):
    n = 120 if ck.quick else 1500
    cases = [only] if only else [gen_case(ck.rng, i) for i in range(n)]
    ck.map(lambda c: one(ck, c), cases)


def one(ck, c):
    pre, rnd = script(c)
    t = api.go(pre + rnd * N, c["opts"], c["np"])
    if t.timed_out:
        raise Inconclusive("timeout")
    L = pre + rnd * N
    if "a process has no cells" in t.out:
        raise Skip("no cells")
    if t.trace is None:
        raise Fail("no trace: " + why(t), key="crash:start")
    cod, last = api.codes(t)
    if t.rc or last not in cod:
        call = L[last].split()[1] if 0 <= last < len(L) else "exit"
        raise Fail("the process ended in call %d (%s) of the script: %s" % (last, L[last] if 0 <= last < len(L) else "exit", why(t)), key="crash:%s" % call)
    bad = {k: e for k, e in cod.items() if e}
    if any("run" == L[k].split()[1] and (e == 91 or any(m in t.out for m in ("DIVERGED", "after maximum time step cuts", "TDyPreSolveSNESSolver not implemented", "cut is only"))) for k, e in bad.items()):
        raise Skip("did not converge")
    first = {}
    for k, e in sorted(bad.items()):
        q = (k - len(pre)) // len(rnd)
        p = (k - len(pre)) % len(rnd)
        if q == 0:
            first[p] = e
        if q > 0 and first.get(p) != e:
            raise Fail("call '%s' returns %d in cycle %d and %d in the first" % (L[k], e, q + 1, first.get(p, 0)), key="error-later:%s" % L[k].split()[1])
    if bad:
        k, e = sorted(bad.items())[0]
        raise Fail("call '%s' of a valid sequence returns error %d" % (L[k], e), key="error:%s" % L[k].split()[1])
    # the handle is cleared
    for z in t.trace.X.get("Z", []):
        if z[2] != "1":
            raise Fail("the handle is not cleared by the destruction (line %s)" % z[1], key="handle")
    if c["reinit"] is not None:
        y = [z[2] for z in t.trace.X.get("Y", []) if z[0] == 0]
        if y != ["1", "0"] * N:
            raise Fail("the library says it is initialized: %s" % y, key="initialized")
        ck.count("re-initializations", N)
    # memory
    for r in range(c["np"]):
        u = [int(x[3]) for x in t.trace.X.get("U", []) if x[0] == r]
        if len(u) != N:
            raise Fail("%d memory records instead of %d" % (len(u), N), key="records")
        d = [b - a for a, b in zip(u[1:], u[2:])]
        if min(d) > 0:
            raise Fail("process %d holds %s bytes more after each cycle (%s)" % (r, d, c["name"]), key="leak:%s" % "+".join(sorted(set(x.split()[0] for q in c["rounds"] for x in q[-1:]))))
        h = [int(x[2]) for x in t.trace.X.get("U", []) if x[0] == r]
        d = [b - a for a, b in zip(h[1:], h[2:])]
        if min(d) > 16384:
            raise Fail("process %d: the heap grows by %s bytes with each cycle" % (r, d), key="heap")
        ck.ev(N - 2, *["%d:%s" % (i, x) for i, q in enumerate(c["rounds"]) for x in q])
    # results
    ref, nvec = {}, 0
    for (nm, line), v in sorted(t.trace.vec.items(), key=lambda kv: kv[0][1]):
        q, p = divmod(line - len(pre), len(rnd))
        if q == 0:
            ref[(nm, p)] = v
        elif (nm, p) not in ref:
            raise Fail("%s of line %d has no counterpart in the first cycle" % (nm, line), key="missing")
        else:
            a = ref[(nm, p)]
            if a.shape != v.shape or not np.allclose(a, v, rtol=1e-10, atol=1e-10 * max(1e-300, np.abs(a).max() if a.size else 0)):
                raise Fail("%s after '%s' differs in cycle %d from the first by %g of %g" % (nm, rnd[p], q + 1, np.abs(a - v).max() if a.shape == v.shape else -1, np.abs(a).max()), key="result:%s" % rnd[p].split()[1])
            nvec += 1
    mref = {}
    for (nm, line), v in sorted(t.trace.mat.items(), key=lambda kv: kv[0][1]):
        q, p = divmod(line - len(pre), len(rnd))
        if q == 0:
            mref[(nm, p)] = v
        else:
            a = mref.get((nm, p))
            sc = max([abs(x) for x in a.values()] + [0]) if a else 0
            if a is None or set(a) != set(v) or any(abs(a[k] - v[k]) > 1e-10 * sc for k in a):
                raise Fail("matrix %s after '%s' differs in cycle %d from the first" % (nm, rnd[p], q + 1), key="result:%s" % rnd[p].split()[1])
            nvec += 1
    ck.count("cycles", N)
    ck.count("instances created", N * len(c["rounds"]))
    ck.count("results compared between cycles", nvec)
    for r in c["rounds"]:
        ck.count("last call: " + r[-1].split()[0])
    ck.sample(c["name"])
