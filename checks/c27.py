"""Dycores of one process do not influence each other, and a run can be repeated."""
from core import *
import api, gen

META = dict(level="exploration",
            rule="one evaluation = one vector or matrix computed by a dycore whose calls were interleaved with those of others, compared with what the same calls compute in a process of their own",
            assumptions=["the dycores of one process share the options database; every option a dycore reads is set again before the call that reads it"])


def gen_case(rng, i):
    k = rng.choice([2, 2, 2, 3])
    mesh = gen.mesh(rng, "box", 3)
    np_ = gen.ranks(rng, mesh, (1, 1, 1, 2))
    insts = []
    same = rng.random() < .3
    shape = gen.mesh(rng, "box", 3) if rng.random() < .4 else None      # meshes of the same size: a remembered array would fit
    fs = api.fields(rng)
    kinds = api.kinds(rng, k)
    if rng.random() < .4:
        kinds = [kinds[0]] * k      # the same kind of dycore several times
    for j, (mode, disc, use) in enumerate(kinds):
        fe = disc in ("BDM", "WY")
        if np_ > 1 and (fe or use == "driver"):
            mode, disc, use, fe = "RICHARDS", "MPFA_O", "snes", False
        f = fs if same else api.fields(rng)
        if rng.random() < .6 and not same:
            for n in [n for n in f if n.startswith("h_f_k")]:
                f.pop(n)
            f.update(gen.perm(rng, rng.choice(["diag", "diag", "tens"])))
        for n in ("kyy", "kzz", "kxy", "kxz", "kyz"):
            f.setdefault("h_f_" + n, "none")
        m = shape if shape and not (np_ > 1 and fe) else gen.mesh(rng, rng.choice(["box"] if fe else ["box", "pert", "column"]), 3)
        while np_ > 1 and gen.ncells(m) < 4:
            m = gen.mesh(rng, "box", 3)
        s = api.life(mode, disc, use, round(10 ** rng.uniform(1, 5), 1), rng.randint(100, 1000), cond=True)
        if not fe and rng.random() < .3 and use in ("snes", "snesdiag"):
            s += [x for x in api.USES[use] if x.split()[0] in ("eval", "evalj", "prev", "presolve")]
        at = s.index("fromopt") + 1
        if not fe:
            if rng.random() < .5:
                s.insert(at, "rho %d" % rng.choice([0, 1]))
            if disc != "FV_TPF" and rng.random() < .5:
                s.insert(at, "bct %d" % rng.choice([0, 1]))
            if disc == "MPFA_O" and mode == "RICHARDS" and rng.random() < .2:
                s.insert(at, "gmat 1")
        # everything a dycore reads from the options goes right before the call that reads it
        mo = {n: m.get(n) for n in ("h_n", "h_lo", "h_hi", "h_grade", "h_perm", "h_pert", "h_zpert", "h_column", "h_seed", "h_mesh")}
        mo.update(tdy_gravity=round(rng.choice([9.8068, rng.uniform(0, 12)]), 3), tdy_porosity=round(rng.uniform(.1, .5), 2), tdy_vangenuchten_param_alpha=float("%.3g" % 10 ** rng.uniform(-5, -3.5)), tdy_vangenuchten_param_m=round(rng.uniform(.4, .85), 2))
        setup = []
        for n, v in mo.items():
            setup.append("unopt -" + n if v is None else "opt -%s %s" % (n, ",".join(str(x) for x in v) if isinstance(v, list) else v))
        groups = [["opt -%s %s" % (n, v) for n, v in f.items()] + ["fields"]]
        for x in s:
            groups.append(setup + [x] if x == "fromopt" else ["opt -h_kstyle %s" % f["h_kstyle"], "opt -h_capi %s" % f["h_capi"], x] if x in ("mat", "cond") else [x])
        if rng.random() < .6:
            groups.append(["destroy"])
        insts.append(groups)
    order = [j for j, g in enumerate(insts) for _ in g]
    style = rng.random()
    if style < .7:
        rng.shuffle(order)
    elif style < .85:               # in step
        order = [j for q in range(max(len(g) for g in insts)) for j, g in enumerate(insts) if q < len(g)]
    o = dict(tdy_dt_init=500, snes_rtol=1e-9, ksp_type="preonly", pc_type="redundant", h_bctype="DIRICHLET_BC")
    return dict(name="%d %s" % (i, "+".join("%s/%s/%s" % (a[:2], b, c) for a, b, c in kinds)), opts=o, np=np_, insts=insts, order=order)


def check(ck, only=None):
    n = 150 if ck.quick else 1500
    cases = [only] if only else [gen_case(ck.rng, i) for i in range(n)]
    ck.map(lambda c: one(ck, c), cases)


def results(c, lines, slots):
    """per instance: list of error codes and of recorded numbers, in the order of its own calls"""
    L = ["%d %s" % x for x in lines]
    t = api.go(L, c["opts"], c["np"])
    if t.timed_out:
        raise Inconclusive("timeout")
    if "a process has no cells" in t.out:
        raise Skip("no cells")
    if t.trace is None:
        raise Fail("no trace: " + why(t), key="crash:start")
    cod, last = api.codes(t)
    own, seq = {}, {s: [] for s in slots}
    for i, (s, x) in enumerate(lines):
        own[i] = (s, len(seq[s]))
        seq[s].append([x, cod.get(i), {}])
    for (nm, line), v in t.trace.vec.items():
        if line in own:
            s, k = own[line]
            seq[s][k][2][nm] = v
    for (nm, line), v in t.trace.mat.items():
        if line in own:
            s, k = own[line]
            seq[s][k][2]["mat " + nm] = v
    return t, cod, last, L, seq


def one(ck, c):
    ptr = [0] * len(c["insts"])
    lines = []
    for j in c["order"]:
        lines += [(j, x) for x in c["insts"][j][ptr[j]]]
        ptr[j] += 1
    t, cod, last, L, seq = results(c, lines, range(len(c["insts"])))
    alone = []
    for j, g in enumerate(c["insts"]):
        ta, ca, la, La, sa = results(c, [(j, x) for q in g for x in q], [j])
        if ta.rc or la not in ca:
            raise Fail("dycore %d alone: the process ended in '%s': %s" % (j, La[la], why(ta)), key="crash-alone:%s" % La[la].split()[1])
        if any("run" == x.split()[0] and e for x, e, _ in sa[j]):
            raise Skip("did not converge")
        alone.append(sa[j])
    if t.rc or last not in cod:
        raise Fail("together, the process ended in '%s' though each dycore alone works: %s" % (L[last] if last >= 0 else "start", why(t)), key="crash:%s" % L[last].split()[1])
    for j in range(len(c["insts"])):
        for k, ((x, e, v), (xa, ea, va)) in enumerate(zip(seq[j], alone[j])):
            if e != ea:
                raise Fail("'%s' of dycore %d returns %s together with the others and %s alone" % (x, j, e, ea), key="error:%s" % x.split()[0])
            if e and x.split()[0] not in ("presolve",):
                raise Fail("'%s' of dycore %d, a valid call, returns error %d" % (x, j, e), key="invalid:%s" % x.split()[0])
            if set(v) != set(va):
                raise Fail("'%s' of dycore %d records %s together and %s alone" % (x, j, sorted(v), sorted(va)), key="records:%s" % x.split()[0])
            for nm in v:
                a, b = va[nm], v[nm]
                if nm.startswith("mat "):
                    sc = max([abs(q) for q in a.values()] + [0])
                    same = set(a) == set(b) and all(abs(a[q] - b[q]) <= 1e-10 * sc for q in a)
                else:
                    sc = np.abs(a).max() if a.size else 0
                    same = a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= 1e-10 * sc)
                if not same:
                    raise Fail("%s after '%s' of dycore %d differs from what the same calls give in a process of their own" % (nm, x, j), key="result:%s" % x.split()[0])
                ck.ev(1, "%s %s" % (c["name"].split(" ", 1)[1], x.split()[0]))
                ck.count("numbers compared", len(a))
    sw = sum(1 for a, b in zip(c["order"], c["order"][1:]) if a != b)
    ck.count("switches between dycores", sw)
    ck.count("dycores", len(c["insts"]))
    ck.sample("%s: %d calls, %d switches" % (c["name"], len(c["order"]), sw))
