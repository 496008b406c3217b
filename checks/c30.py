"""The timing profile: what it counts is what was called, and measuring changes nothing."""
import re
from core import *
import api, gen

META = dict(level="exploration",
            rule="one evaluation = one count, time, footer entry or result of a run with timers compared with the calls made and with the run without timers",
            assumptions=["the counts of the public functions that a script calls itself are compared; functions called inside others are bounded from below", "one dycore per session, as the library documents for its profile"])
NAME = dict(setup="TDySetup", vectors="TDyCreateVectors", jac="TDyCreateJacobian", setsnes="TDySetSNESFunction", setjac="TDySetSNESJacobian", setts="TDySetIFunction",
            setijac="TDySetIJacobian", presolve="TDyPreSolveSNESSolver", driver="TDyDriverInitializeTDy", run="TDyTimeIntegratorRunToTime", regr="TDyRegressionOutput")

INNER = ("jac",)          # also called by functions of the library

EVAL = dict(eval=r"TDy(MPFAO|FVTPF)SNESFunction(_\w+)?", evalt=r"TDyMPFAOIFunction(_TH|_DAE|_TransientVariable)?", evalj=r"TDy(MPFAO|FVTPF)SNESJacobian(_\w+)?", evaltj=r"TDyMPFAOIJacobian(_TH)?")


def disc_fv(c):
    return c["disc"] not in ("BDM", "WY")


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(60 if ck.quick else 400):
        mode, disc, use = api.kinds(rng, 1)[0]
        o = gen.mesh(rng, "box" if disc in ("BDM", "WY") else rng.choice(["box", "pert"]), 3)
        o.update(api.fields(rng))
        o.update(h_bctype="DIRICHLET_BC", tdy_dt_init=500, snes_rtol=1e-9, ksp_type="preonly", pc_type="redundant")
        np_ = gen.ranks(rng, o, (1, 2)) if use != "driver" else 1
        L = api.life(mode, disc, use, round(10 ** rng.uniform(1, 5), 1), rng.randint(100, 1000))
        for w in ("presolve", "eval", "evalj", "evalt", "evaltj", "setsnes", "setts"):     # some calls more than once
            k = [j for j, x in enumerate(L) if x.split()[0] == w]
            if k and rng.random() < .6:
                L[k[0]:k[0]] = [L[k[0]]] * rng.randint(1, 4)
        out.append(dict(name="%d-%s-%s-%s" % (i, mode, disc, use), opts=o, np=np_, mode=mode, disc=disc, lines=["0 " + x for x in L] + ["0 destroy"], twice=rng.random() < .3))
    return out


def table(text):
    rows, foot = {}, None
    l = text.splitlines()
    for i, s in enumerate(l):
        w = s.split(",")
        if s == "METADATA":
            foot = l[i + 2].split(",") if len(l) > i + 2 else []
            break
        if i and len(w) > 5 and w[1].startswith("TDy"):
            rows.setdefault(w[1], {}).setdefault(w[0], {})[int(w[2])] = (int(w[3]), float(w[4]))
    return rows, foot


def one(ck, c):
    L, np_ = list(c["lines"]), c["np"]
    nm = "%s, %d process(es)" % (c["name"], np_)
    if c["twice"]:
        L = L + ["0 finalize", "0 init"] + L
    a = api.go(L, c["opts"], np_)
    if a.timed_out:
        raise Inconclusive("time limit")
    if "a process has no cells" in a.out:
        raise Skip("no cells")
    ca = api.codes(a)[0] if a.trace else None
    if a.rc or not ca or any(e for k, e in ca.items() if L[k].split()[1] != "run"):
        raise Fail("%s: without timers: %s" % (nm, why(a)), key="untimed")
    if any(ca.values()):
        raise Skip("did not converge")
    b = api.go(L, dict(c["opts"], tdy_timers=None), np_, grab=lambda wd: open(wd + "/tdycore_profile.csv").read() if os.path.exists(wd + "/tdycore_profile.csv") else "")
    if b.timed_out:
        raise Inconclusive("time limit")
    if b.rc or not b.trace or api.codes(b)[0] != ca:
        raise Fail("%s: with timers: %s" % (nm, why(b)))
    for (n, s), v in a.trace.vec.items():
        w = b.trace.vec.get((n, s))
        ck.ev(1)
        if w is None or w.shape != v.shape or not np.allclose(v, w, rtol=1e-11, atol=1e-12 * (np.abs(v).max() if v.size else 0), equal_nan=True):
            raise Fail("%s: vector %s of call %d differs with timers" % (nm, n, s))
    ck.count("vectors", len(a.trace.vec))
    rows, foot = table(b.grab)
    if not rows:
        raise Fail("%s: no timing profile was left" % nm)
    calls = {}
    for l in c["lines"]:
        w = l.split()[1]
        calls[w] = calls.get(w, 0) + 1
    driver = "driver" in calls
    total = sum(t for s in rows.values() for q in s.values() for k, t in q.values())
    for w, f in NAME.items():
        k = calls.get(w, 0)
        if not k or driver and w not in ("driver", "run", "regr"):
            continue
        for r in range(np_):
            got = sum(q.get(r, (0, 0))[0] for q in rows.get(f, {}).values())
            ck.ev(1, f); ck.count("calls_" + w, k)
            if got < k or got > k and w not in INNER:
                raise Fail("%s: %s was called %d times, the profile has %d on process %d" % (nm, f, k, got, r))
    ev = sum(calls.get(w, 0) for w in ("eval", "evalt"))
    if ev and disc_fv(c):
        for r in range(np_):
            got = sum(q.get(r, (0, 0))[0] for q in rows.get("TDyUpdateState", {}).values())
            ck.ev(1)
            if got < ev:
                raise Fail("%s: %d evaluations, the profile has %d updates of the state on process %d" % (nm, ev, got, r))
    for w, pat in EVAL.items():
        k = calls.get(w, 0)
        if k and disc_fv(c) and not driver:
            for f in rows:
                if re.fullmatch(pat, f):
                    for r in range(np_):
                        got = sum(q.get(r, (0, 0))[0] for q in rows[f].values())
                        ck.ev(1, f); ck.count("evaluations", k)
                        if got not in (0, k):
                            raise Fail("%s: %d evaluations, the profile has %d calls of %s on process %d" % (nm, k, got, f, r))
    if not driver and calls.get("vectors"):          # made by the program itself, outside every stage
        got = rows.get("TDyCreateVectors", {}).get("Main Stage", {}).get(0, (0, 0))[0]
        ck.ev(1)
        if got != calls["vectors"]:
            raise Fail("%s: the vectors were created after set-up %d times, the profile has %d outside of the set-up stage" % (nm, calls["vectors"], got))
    for f, st in rows.items():
        for s, q in st.items():
            for r, (k, t) in q.items():
                if t < 0 or k < 0 or (k == 0 and t) or not np.isfinite(t) or t > b.wall + 1:
                    raise Fail("%s: %s in stage %s: %d calls, %g s of a run of %.1f s" % (nm, f, s, k, t, b.wall))
                ck.count("rows")
    cells = gen.ncells(c["opts"])
    want = [c["mode"], c["disc"], str(np_)]
    ck.ev(1, "footer " + c["disc"])
    if not foot or foot[:3] != want or (cells and foot[3] != str(cells)):
        raise Fail("%s: the footer of the profile is %s for %s and %s cells" % (nm, foot, want, cells))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.map(lambda c: one(ck, c), cs)
