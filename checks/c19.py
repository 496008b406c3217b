"""The registry of named functions, start and shutdown of the library follow their history."""
from core import *
import api, gen

META = dict(level="exploration",
            rule="one evaluation = one lookup, selection, shutdown hook or initialization query of a random history, compared with what the history says it must give",
            assumptions=["the registry is asked only while the library is initialized", "selected functions are compared through the systems they lead to"])
POOL = ["p", "P", "p1", "p10", "pressure", "pressure_", "Pressure", "boundary-pressure", "a" * 31, "a" * 32, "a" * 33, "a" * 64, "x" * 200, "é", "p.1", "0", "-1", "temperature_bc", "temperature_bc2", "none"]
KIND = [("RICHARDS", "MPFA_O", ["setsnes", "dtime 1000", "prev 0", "presolve", "eval 0"], ["pbc"]), ("RICHARDS", "FV_TPF", ["setsnes", "dtime 1000", "prev 0", "presolve", "eval 0"], ["pbc"]),
        ("TH", "MPFA_O", ["setts", "evalt 0"], ["pbc", "tbc"]), ("SALINITY", "MPFA_O", ["setsnes", "dtime 1000", "prev 0", "presolve", "eval 0"], ["pbc", "cbc"]), ("RICHARDS", "WY", ["fe"], ["pbc", "src"]),
        ("RICHARDS", "BDM", ["fe"], ["pbc", "src"]), ("RICHARDS", "MPFA_O", ["steady"], ["pbc", "src"])]


def gen_case(rng, i):
    lines, ncall = [], 0
    o = gen.mesh(rng, "box", 3)
    f = api.fields(rng)
    for k in ("h_f_pbc", "h_f_pbct", "h_f_tbc", "h_f_cbc", "h_f_src"):
        f.pop(k)
    o.update(f, h_bctype="DIRICHLET_BC", tdy_mpfao_boundary_condition_type="DIRICHLET_BC", tdy_fvtpf_boundary_condition_type="DIRICHLET_BC")
    names = rng.sample(POOL, rng.randint(2, 8)) + ["n%d" % j for j in range(rng.choice([0, 0, 5, 40]))]
    sel = None
    reg = {}
    for cyc in range(rng.choice([1, 2, 3])):
        if rng.random() < .4:
            lines.append("0 get %s" % rng.choice(names))      # nothing registered yet
        many = rng.choice([0, 0, 31, 32, 40, 70, 130])
        reg = {}
        L = []
        for _ in range(rng.randint(4, 60)):
            q = rng.random()
            if q < .4:
                L.append("0 reg %s %d" % (rng.choice(names), rng.randint(0, 3)))
            elif q < .8:
                L.append("0 get %s" % rng.choice(names))
            elif q < .85:
                L.append("0 inited")
            elif q < .88:
                L.append("0 init %d" % rng.randint(0, 1))
            else:
                L.append("0 hook %d" % rng.randint(0, 3))
        for _ in range(many):
            L.insert(rng.randint(0, len(L)), "0 hook %d" % rng.randint(0, 3))
        if rng.random() < .5 and not sel:
            # a dycore whose conditions are selected by name
            mode, disc, use, slots = rng.choice(KIND)
            at = sorted(rng.randint(0, len(L)) for _ in range(5))
            chosen = {s: rng.randint(0, 3) for s in rng.sample(slots, rng.randint(1, len(slots)))}
            if use == ["steady"]:
                chosen.setdefault("pbc", rng.randint(0, 3))
            nm = {s: "sel%d_%s" % (j, rng.choice(["x", "b" * 40])) for j, s in enumerate(chosen)}
            pre = []
            for s in chosen:
                if rng.random() < .5:
                    pre.append("0 reg %s %d" % (nm[s], rng.randint(0, 3)))
                pre.append("0 reg %s %d" % (nm[s], chosen[s]))
            life = ["create", "mode %d" % api.MODE[mode], "disc %d" % api.DISC[disc], "dm", "fromopt", "mat"]
            a = pre + ["1 " + x for x in ["fields"] + life]
            b = []
            for s in chosen:
                if rng.random() < .4:
                    b.append("1 sel %s %s" % (s, rng.choice(["no-such-function", nm[s] + "_", nm[s][:-1]])))
                b.append("1 sel %s %s" % (s, nm[s]))
                if rng.random() < .3:
                    b.append("1 sel %s %s" % (s, "no-such-function"))
            tail = ["1 setup"] + (["1 vectors", "1 jac"] if use[0] not in ("fe", "steady") else []) + ["1 " + x for x in use] + ["1 destroy"]
            for pos, blk in zip(reversed(at[:3]), (tail, b, a)):
                L[pos:pos] = blk
            sel = (life, chosen, nm, tail)
        lines += L + ["0 inited", "0 finalize", "0 inited", "0 init %d" % rng.randint(0, 1), "1 fields", "0 inited"]
    return dict(name="%d%s" % (i, " %s/%s" % (mode, disc) if sel else ""), opts=o, np=rng.choice([1, 1, 1, 2]) if not sel else 1, lines=lines, sel=sel)


def check(ck, only=None):
    n = 250 if ck.quick else 4000
    ck.map(lambda c: one(ck, c), [only] if only else [gen_case(ck.rng, i) for i in range(n)])


def one(ck, c):
    L = c["lines"]
    t = api.go(L, c["opts"], c["np"])
    if t.timed_out:
        raise Inconclusive("timeout")
    if t.trace is None:
        raise Fail("no trace: " + why(t), key="crash:start")
    cod, last = api.codes(t)
    if t.rc or last not in cod:
        raise Fail("the process ended in call %d (%s): %s" % (last, L[last] if 0 <= last < len(L) else "exit", why(t)), key="crash:%s" % (L[last].split()[1] if 0 <= last < len(L) else "exit"))
    X = t.trace.X
    for r in range(c["np"]):
        got = {int(x[1]): int(x[2]) for x in X.get("G", []) if x[0] == r}
        ini = {int(x[1]): int(x[2]) for x in X.get("Y", []) if x[0] == r}
        hooked = [int(x[1]) for x in X.get("H", []) if x[0] == r]
        cr = {int(x[1]): int(x[2]) for x in X.get("C", []) if x[0] == r}
        reg, hooks, inited, want, wh = {}, [], True, None, []
        for k, l in enumerate(L):
            w = l.split()[1:]
            e = cr.get(k)
            if w[0] == "reg":
                reg[w[1]] = int(w[2])
                bad = e
                what = "registering a function"
            elif w[0] == "get":
                bad = got.get(k) != reg.get(w[1], -2)
                what = "looking up '%s' gives %s instead of %s (of %d registered; -2: an error)" % (w[1], got.get(k), reg.get(w[1], -2), len(reg))
                ck.ev(1, "get:%s" % ("none" if not reg else "known" if w[1] in reg else "unknown"))
            elif w[0] == "hook":
                hooks.append(int(w[1]))
                bad, what = e, "registering a shutdown function"
            elif w[0] == "finalize":
                wh += hooks[::-1]
                ck.ev(1, "finalize:%d" % (len(hooks) // 32))
                hooks, reg, inited = [], {}, False
                bad, what = e, "finalizing"
            elif w[0] == "init":
                inited = True
                bad, what = e, "initializing"
            elif w[0] == "inited":
                bad = ini.get(k) != int(inited)
                what = "the library says it is%s initialized" % ("" if ini.get(k) else " not")
                ck.ev(1, "inited:%d" % inited)
            elif w[0] == "sel":
                ok = w[2] in reg
                bad = bool(e) == ok
                what = "selecting %s function '%s' returns %s" % ("the registered" if ok else "an unknown", w[2], e)
                ck.ev(1, "select %s:%s" % (w[1], "known" if ok else "unknown"))
            else:
                bad, what = e, "'%s' returns %s" % (l, e)
            if bad:
                raise Fail("call %d of process %d: %s" % (k, r, what), key="history:%s" % w[0])
        wh += [] if inited is False else []
        if hooked[:len(wh)] != wh or len(hooked) != len(wh):
            raise Fail("the shutdown functions ran as %s instead of %s" % (hooked, wh), key="hooks")
        ck.count("shutdown functions run", len(wh))
    if c["sel"]:
        life, chosen, nm, tail = c["sel"]
        o = dict(c["opts"])
        for s, k in chosen.items():
            o["h_f_" + s] = "const:%d" % (1000 + k)
        t2 = api.go(["1 " + x for x in ["fields"] + life + ["cond"]] + tail, o)
        if t2.rc:
            raise Fail("with the functions given directly: " + why(t2), key="direct")
        a = {nm_: v for (nm_, line), v in t.trace.vec.items()}
        b = {nm_: v for (nm_, line), v in t2.trace.vec.items()}
        if set(a) != set(b) or not a:
            raise Fail("recorded vectors %s, %s" % (sorted(a), sorted(b)), key="records")
        for q in a:
            s = np.abs(b[q]).max()
            if np.abs(a[q] - b[q]).max() > 1e-11 * s:
                raise Fail("%s with selected functions %s differs from the one with the same functions given directly by %g of %g" % (q, chosen, np.abs(a[q] - b[q]).max(), s), key="selected:%s" % "+".join(sorted(chosen)))
            ck.ev(1, "selected:%s" % c["name"].split()[1])
    ck.sample("%s: %d calls" % (c["name"], len(L)))
