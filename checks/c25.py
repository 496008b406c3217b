"""The Fortran interface: the same script of calls carried out from Fortran and from C."""
from core import *
import build, h5, struct

META = dict(level="exploration",
            rule="one evaluation = one number (residual, matrix entry, state, diagnostic, error code or count of calls of a spatial function) of a script of calls made from Fortran compared with that made from C",
            assumptions=["a refused call is one with a non-zero error code in both languages; the codes may differ", "boxes made by the Fortran mesh maker or by options; functions are linear in the coordinates"])
NF, NG = 47, 40


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(40 if ck.quick else 500):
        form = ["mpfao", "fvtpf", "mpfao-ts", "mpfao", "driver", "two", "two"][i % 7]
        n = [rng.randint(2, 4) for _ in range(3)]
        o = dict(f_n=n)
        fc, gc = np.zeros((48, 4)), np.zeros((40, 6))
        ext = np.array([n[0], 2.0 * n[1], .5 * n[2]])
        ks = list(range(1, NF + 1)); rng.shuffle(ks)
        pool = dict(poro=ks[:12], sr=ks[12:22], pbc=ks[22:36], src=ks[36:47])
        pool["esrc"] = pool["vbc"] = pool["src"]
        rngs = dict(poro=(.1, .4), sr=(.02, .2), pbc=(93000, 112000), src=(1e-8, 1e-6))
        for role, (lo, hi) in rngs.items():
            for k in pool[role]:
                a = rng.uniform(lo, hi)
                d = np.array([rng.uniform(-1, 1) for _ in range(3)])
                d *= min(a - lo, hi - a) / np.abs(d).sum() / ext
                fc[k - 1] = [a, *d]
        for k in range(NG):
            d = np.array([rng.uniform(-1, 1) for _ in range(3)]) / ext
            gc[k] = [-float(d @ ext) * rng.uniform(.2, .8), *d, *rng.choice([(0, 1), (1, 0), (0, 2), (1, 2), (2, 1)])]
        coef = [[float(x) for x in fc.ravel()], [float(x) for x in gc.ravel()]]
        slots = [0, 1] if form == "two" else [0]
        pre, mid, post = [], [], []
        names = {}
        for s in slots:
            fv = form == "fvtpf" or (form == "two" and s == 1)
            mode = 0
            a = ["create", "mode %d" % mode, "disc %d" % (5 if fv else 0), "ctor", "fromopt"]
            if rng.random() < .3 and len(slots) == 1:
                a[2] = "disc %d" % (0 if fv else 5); o["tdy_discretization"] = "FV_TPF" if fv else "MPFA_O"
            if rng.random() < .4 and len(slots) == 1 and not o.get("tdy_discretization"):
                a.remove("ctor"); o.update(dm_plex_dim=3, dm_plex_simplex=0, dm_plex_box_faces=n, dm_plex_box_lower=[0, 0, 0], dm_plex_box_upper=[float(x) for x in ext])
            if len(slots) == 2 and s == 1 and rng.random() < .4:
                a.remove("ctor"); o.update(dm_plex_dim=3, dm_plex_simplex=0, dm_plex_box_faces=n, dm_plex_box_lower=[0, 0, 0], dm_plex_box_upper=[float(x) for x in ext])
            if rng.random() < .8:      # a type and, where it is one that needs it, a method
                a.insert(rng.randint(1, len(a)), "dens %d" % rng.choice([0, 1]))
            pre += ["%d %s" % (s, x) for x in a]
            # what stays in force is the last given for each property; what came before are decoys
            m = []
            def give(role, cond):
                for j in range(rng.choice([1, 1, 1, 2, 3, 14]) if len(slots) == 1 else 1):
                    k = rng.choice(pool[role])
                    if role != "sr" and rng.random() < .5:
                        nm = names.get(k) or "".join(rng.choice("abcdefgh_") for _ in range(rng.choice([1, 2, 5, 12, 31]))) + "%d" % (k % 10)
                        nm = nm[:32]
                        if nm in names.values() and names.get(k) != nm:
                            nm = nm[:28] + "_%d" % k
                        names[k] = nm
                        pre_ = []
                        if rng.random() < .3:       # the name belonged to another function before
                            pre_ = ["reg %s %d" % (nm, rng.choice(pool[role]))]
                        if rng.random() < .3:       # the function has another name too
                            pre_ += ["reg %s %d" % (nm[:20] + "_q%d" % k, k)]
                        m.append((rng.random(), pre_ + ["reg %s %d" % (nm, k), "sel%s %s" % (role, nm)] + pre_[:0]))
                        if rng.random() < .3:
                            m.append((m[-1][0], ["reg %s %d" % (nm[:20] + "_r%d" % k, k)]))
                    else:
                        m.append((rng.random(), ["%s %d" % (role, k)]))
            give("poro", 0)
            give("pbc", 0)
            if rng.random() < .7:
                give("sr", 0)
            else:
                m.append((rng.random(), ["csr %.17g" % rng.uniform(.02, .2)]))
            if rng.random() < .5:
                give("src", 0)
            if mode == 1:
                give("esrc", 0)
            if fv or rng.random() < .3:
                for j in range(rng.choice([1, 2, 5])):
                    m.append((rng.random(), ["pbct %d" % rng.randint(1, NG)]))
            if rng.random() < .3:
                m.append((rng.random(), ["cporo %.17g" % rng.uniform(.1, .4)]))
            if form not in ("fvtpf",) and not fv and rng.random() < .7:
                m.append((rng.random(), ["bct %d" % rng.choice([0, 1, 2])]))
            if not fv and rng.random() < .4:
                m.append((rng.random(), ["gmat %d" % rng.choice([0, 1])]))
            K = [0.0] * 9
            for j in range(3):
                K[4 * j] = 10 ** rng.uniform(-13, -11)
            if not fv and rng.random() < .6:
                K[1] = K[3] = .3 * min(K[0], K[4]); K[2] = K[6] = -.2 * min(K[0], K[8])
            m.append((rng.random(), ["cperm " + " ".join("%.17g" % x for x in K)]))
            if i % 7 in (0, 1, 3):       # many functions: the tables of the interface grow at the 32nd
                use = [rng.choice(pool[r]) for r in ("poro", "sr", "pbc")]
                first = [k for k in range(1, NF + 1) if k not in use]
                rng.shuffle(first); rng.shuffle(use)
                at = rng.choice([28, 29, 30, 31, 31, 31, 32])
                first[at - 1:at - 1] = use
                for j, k in enumerate(first):
                    m.append((-1 + j * .01, ["reg n%d_ %d" % (k, k)]))
                for k in use:
                    r = [r for r in ("poro", "sr", "pbc") if k in pool[r]][0]
                    m.append((3.0, ["%s %d" % (r, k) if r == "sr" or rng.random() < .5 else "sel%s n%d_" % (r, k)]))
            if rng.random() < .3:
                m.append((rng.random(), ["sel%s nobody%d" % (rng.choice(["poro", "pbc", "src", "vbc"]), rng.randint(0, 9))]))
            if (rng.random() < .15 or i % 7 == 1) and form != "two":
                g = list(range(1, NG + 1)); rng.shuffle(g)
                for j, k in enumerate(g[:rng.randint(33, NG)]):
                    m.append((-1 + j * .01, ["pbct %d" % k]))
                m.append((2.0, ["pbct %d" % rng.choice(g[28:35] if rng.random() < .5 else g[30:33])]))
            mid += [(t, "%d %s" % (s, x)) for t, y in sorted(m) for x in y]
            b = ["driver" if form == "driver" else "setup"]
            dof = 2 if mode else 1
            if form != "driver":
                b += ["vectors", "jac"]
            b += ["dim", "ic ic.bin"]
            dt = rng.choice([10.0, 100.0, 1000.0])
            if form == "driver":
                b += ["setdt %g" % dt, "run %g" % dt, "diag", "sat", "mass", "pres", "treg", "run %g" % (3 * dt), "pres", "destroy"]
            elif form == "mpfao-ts":
                b += ["ts", "diag", "sat", "mass", "pres", "nat"]
            else:
                b += ["snes", "dt %g" % dt, "pre", "resid", "matrix", "diag", "sat", "mass", "pres", "nat", "solve", "post", "pres", "dt %g" % (2 * dt), "pre", "resid", "oreg"]
            if rng.random() < .5 and form != "driver":
                b.append("destroy")
            post.append(["%d %s" % (s, x) for x in b])
        if len(slots) == 2:     # interleave the two in every stage
            x, y = post; z = []
            while x or y:
                q = x if (x and (not y or rng.random() < .5)) else y
                z.append(q.pop(0))
            m0 = [l for t, l in mid if l[0] == "0"]; m1 = [l for t, l in mid if l[0] == "1"]; mm = []
            while m0 or m1:
                q = m0 if (m0 and (not m1 or rng.random() < .5)) else m1
                mm.append(q.pop(0))
            lines = pre + mm + z
        else:
            lines = pre + [l for t, l in mid] + post[0]
        nc = n[0] * n[1] * n[2]
        U = np.array([rng.uniform(90000, 112000) for _ in range(nc)])
        o.update(tdy_regression_test=None, tdy_regression_test_num_cells_per_process=2, tdy_regression_test_filename="reg", snes_rtol=1e-9, snes_max_it=60, snes_stol=0, snes_atol=1e-16, ksp_type="preonly", pc_type="redundant")
        out.append(dict(name="F%d-%s" % (i, form), opts=o, script="\n".join(lines + ["0 finalize"]) + "\n", coef=coef, U=[float(x) for x in U], np=rng.choice([1, 1, 2, 3]) if form != "two" else 1))
    # a function that reports an error must be heard
    for role in ("poro", "sr"):
        out.append(dict(name="E-" + role, bad=1, np=1, opts=dict(f_n=[2, 2, 2]), coef=[[.2] * 192, [0.] * 240], U=[1e5] * 8,
                        script="\n".join("0 " + x for x in ["create", "mode 0", "disc 0", "ctor", "fromopt", "%s 48" % role, "setup", "finalize"]) + "\n"))
    return out


def grab(wd):
    r = {}
    for f in sorted(os.listdir(wd)):
        b = open(os.path.join(wd, f), "rb").read() if f.endswith(".bin") and f[0] in "vm" or f.endswith(".regression") else None
        if b is None:
            continue
        if f.endswith(".regression"):
            r[f] = b.decode(errors="replace")
        elif len(b) >= 8 and f[0] == "v":
            n = struct.unpack(">ii", b[:8])[1]
            r[f] = np.frombuffer(b, ">f8", n, 8).astype(float)
        elif len(b) >= 16:
            k, m, n, nz = struct.unpack(">iiii", b[:16])
            d = np.zeros((m, n))
            rows = np.frombuffer(b, ">i4", m, 16); cols = np.frombuffer(b, ">i4", nz, 16 + 4 * m); v = np.frombuffer(b, ">f8", nz, 16 + 4 * m + 4 * nz)
            d[np.repeat(np.arange(m), rows), cols] = v
            r[f] = d
    return r


def go(prog, c):
    P = build.build("plain", fortran=True)
    o = dict(c["opts"], f_script="script")
    U = np.array(c["U"])
    return run(prog, opts(o), np_=c["np"], progs=P, trace=False, files={"coef": "\n".join("\n".join("%.17g" % x for x in q) for q in c["coef"]) + "\n", "script": c["script"], "ic.bin": h5.petsc_vec(U)}, grab=grab)


def parse(out):
    d = dict(C={}, R={}, D={}, N={}, I={}, S={}, done=None)
    for m in re.finditer(r"@(C|R|D|N|I|S|DONE) +([^@\n]*)", out):
        w = m.group(2).split(); k = m.group(1)
        if k == "C":
            d["C"][int(w[0])] = (w[1], int(w[2]))
        elif k == "DONE":
            d["done"] = int(w[0])
        elif k in "NI":
            d[k][int(w[0]), int(w[1])] = [int(x) for x in w[2:]]
        else:
            d[k][int(w[0])] = int(w[1])
    return d


def one(ck, c):
    nm = "%s, %d process(es)" % (c["name"], c["np"])
    rf = go("fapi", c)
    f = parse(rf.out)
    L = c["script"].splitlines()
    if c.get("bad"):
        ck.ev(1, c["name"])
        if rf.timed_out or not f["C"]:
            raise Fail("%s: the Fortran program ended with %s: %s" % (nm, rf.rc, why(rf)))
        w = f["C"].get(7)
        if rf.rc == 0 and w and w[1] == 0:
            raise Fail("%s: the error code of a Fortran function was lost" % nm)
        return
    rc = go("ctwin", c)
    k = parse(rc.out)
    if rc.timed_out or rf.timed_out:
        raise Inconclusive(nm + ": time limit")
    if k["done"] is None or rc.rc:
        raise Fail("%s: the C program ended with %s: %s" % (nm, rc.rc, why(rc)), key="c-program")
    if f["done"] is None or rf.rc:
        n = max(f["C"], default=0)
        raise Fail("%s: the Fortran program ended with %s after line %d, before or in '%s': %s" % (nm, rf.rc, n, L[n] if n < len(L) else "the end", why(rf)))
    ck.count("scripts"); ck.count("calls", len(f["C"]))
    for i, (op, e) in sorted(k["C"].items()):
        g = f["C"].get(i)
        ck.ev(1)
        if not g or (g[1] == 0) != (e == 0):
            raise Fail("%s: the call '%s' returned %s from Fortran and %d from C" % (nm, L[i - 1], g and g[1], e))
        ck.count("refused" if e else "accepted")
    if f["R"] != k["R"] or f["D"] != k["D"] or f["done"] != k["done"]:
        raise Fail("%s: convergence or dimension from Fortran %s, from C %s" % (nm, (f["R"], f["D"], f["done"]), (k["R"], k["D"], k["done"])))
    if any(v for v in f["S"].values()):
        raise Fail("%s: %s calls of Fortran functions got arrays that do not hold the coordinates of their points" % (nm, f["S"]))
    for w, what in (("N", "spatial"), ("I", "integer")):
        if f[w] != k[w]:
            d = sorted(set(map(str, f[w].items())) ^ set(map(str, k[w].items())))[:4]
            raise Fail("%s: the %s functions were called differently from Fortran and C (process and function, calls and points): %s" % (nm, what, d))
        ck.count("functions_called", len(f[w])); ck.ev(len(f[w]))
    if set(rf.grab) != set(rc.grab):
        raise Fail("%s: files %s" % (nm, sorted(set(rf.grab) ^ set(rc.grab))))
    for n, a in rf.grab.items():
        b = rc.grab[n]
        if isinstance(a, str):
            ck.ev(1); ck.count("regression_files")
            x, y = [re.findall(r"[-+.\deE]+", re.sub(r"[A-Za-z_]{2,}\S*", "", s)) for s in (a, b)]
            if len(x) != len(y) or any(p != q and abs(float(p) - float(q)) > 1e-9 * abs(float(q)) for p, q in zip(x, y) if re.search(r"\d", p)):
                raise Fail("%s: the regression file differs" % nm)
            continue
        if a.shape != b.shape:
            raise Fail("%s: %s has shape %s from Fortran and %s from C" % (nm, n, a.shape, b.shape))
        line = L[int(re.search(r"\d+", n).group()) - 1]
        s = 1e-11 * (np.abs(b) + (np.abs(b).max() if b.size else 0))
        q, i = worst(a.ravel(), b.ravel(), s.ravel() + 1e-300)
        ck.ev(a.size, c["name"]); ck.count("numbers_" + line.split()[1], int(a.size))
        if q > 1:
            raise Fail("%s: entry %d after '%s' is %.15g from Fortran and %.15g from C" % (nm, i, line, a.ravel()[i], b.ravel()[i]))


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["script"].splitlines()})
    ck.map(lambda c: one(ck, c), cs)
