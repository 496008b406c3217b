"""Calls out of order, unsupported combinations and unusable input are refused with an error, and refusing them leaves the dycore as it was."""
from core import *
import api, gen, h5

# failures inside PETSc's own file readers are not collective: those cases run on one process
META = dict(level="exploration",
            rule="one evaluation = one call that the documentation or the library's own rules exclude at that point, which must return an error on every process without ending the process, or one result computed after such refusals and compared with that of a run without them",
            assumptions=["only misuse the library states rules about is tried (order of the set-up calls, combinations of mode, formulation and solver, names, files and mesh kinds), not invalid pointers",
                         "a set-up that was refused halfway is destroyed, not continued", "an abort of all processes with a message counts as refusing a mesh that cannot be traversed"])
DIAG = ["diag", "dvec", "sat", "mass"]
FE = ("BDM", "WY")


def misuse(rng, mode, disc, done, regs):
    """calls that must be refused, given the calls made so far"""
    has = lambda x: any(c.split()[0] == x for c in done)
    m = []
    if not has("create"):
        return m
    if not has("setup"):
        m += ["diag", "dvec", "pvec", "matrix", "sat", "mass"]
    if not has("mode"):
        m += ["disc %d" % rng.randint(0, 5)]
    if not has("disc"):
        m += ["fromopt", "setup", "dm"] if has("mode") or rng.random() < .5 else ["setup", "dm", "disc 2"]
    if has("mode") and not has("fromopt"):
        m += ["disc %d" % rng.choice([6, 7, 100])]
        if mode != "RICHARDS":
            m += ["disc %d" % rng.randint(1, 5)]
        elif has("disc") and disc != "MPFA_O":
            m += ["mode %d" % rng.choice([1, 2])]
    if has("disc") and not has("fromopt"):
        m += ["setup"]
    if has("fromopt"):
        m += ["dm"] + ["sel %s %s" % (s, rng.choice(["nope", "h_pb", "h_pbc_", "H_PBC"])) for s in ("src", "esrc", "pbc", "vbc", "tbc", "cbc")]
    if has("setup"):
        m += ["fromopt", "dm"]
        if disc in FE:
            m += ["diag", "dvec", "sat", "mass"]
        if disc not in ("MPFA_O", "FV_TPF"):
            m += ["setsnes", "setjac"]
        if mode == "SALINITY" or disc in ("BDM", "FV_TPF"):
            m += ["setts"]
        if disc in ("BDM", "WY", "FV_TPF"):
            m += ["setijac"]
        if mode == "TH" or disc not in ("MPFA_O", "FV_TPF"):
            m += ["presolve"]
    m += ["get %s" % rng.choice(["nope", "h_pb", "H_src"])]
    return m


MIX = None


def mixed():
    """a mesh of one hexahedron and two prisms"""
    pts = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]
    cells = [(5, [0, 1, 4, 3]), (6, [1, 2, 5]), (6, [1, 5, 4])]
    el = ["%d %d 2 1 1 %s" % (k + 1, ty, " ".join(str(1 + i + 6 * l) for l in (0, 1) for i in b)) for k, (ty, b) in enumerate(cells)]
    return "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n12\n%s\n$EndNodes\n$Elements\n3\n%s\n$EndElements\n" % (
        "\n".join("%d %g %g %g" % (i + 1, x, y, z) for i, (z, x, y) in enumerate((z, x, y) for z in (0, 1) for x, y in pts)), "\n".join(el))


PF = {}


def damaged(rng):
    """a PFLOTRAN mesh of eight cells in which something is wrong"""
    if not PF:
        V = np.array([[x, y, z] for z in range(3) for y in range(3) for x in range(3)], float)
        i = lambda x, y, z: 1 + x + 3 * y + 9 * z
        C = np.array([[8] + [i(x + a, y + b, z + c) for c in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))] for z in (0, 1) for y in (0, 1) for x in (0, 1)], float)
        P = lambda c, v: h5.put({k: x for k, x in (("Domain/Cells", c), ("Domain/Vertices", v)) if x is not None})
        def ch(j, v):
            D = C.copy(); D[3, j] = v; return P(D, V)
        good = P(C, V)
        PF.update({"vertex 0": ch(2, 0), "vertex -5": ch(2, -5), "one vertex too far": ch(2, 28), "vertex 2e9": ch(2, 2e9), "type 5": ch(0, 5), "type 9": ch(0, 9), "type 0": ch(0, 0), "prism of eight": ch(0, 6),
                   "no cells": P(None, V), "no vertices": P(C, None), "too narrow": P(C[:, :8], V), "vertices in a plane": P(C, V[:, :2]), "list of coordinates": P(C, V.ravel()), "list of cells": P(C.ravel(), V),
                   "half": good[:len(good) // 2], "end missing": good[:-100], "vertices missing": P(C, V[:20])})
    k = rng.choice(sorted(PF))
    return ("damaged PFLOTRAN mesh", "RICHARDS", "FV_TPF", None, {"tdy_read_pflotran_mesh": "g.h5"}, {"g.h5": "hex:" + PF[k].hex()}, "fromopt")


def datafile(rng, what):
    """a file of cell data which does not fit (no mesh of the check has 1000 cells)"""
    n = rng.choice([0, 1000, 1001])
    v = {"porosity": .2, "permeability": 1e-12, "ic": 9e4}[what]
    good = h5.put({"p": np.full(1000, v)})
    b = rng.choice([h5.put({"p": np.full(n, v)}), h5.put({"p": np.full((1000, 2), v)}), good[:-40], h5.put({"q": np.full(1000, v)})])
    o = {"ic_file": "d.h5", "ic_dataset": "p"} if what == "ic" else {"init_%s_file" % what: "d.h5", what + "_dataset": "p"}
    if what == "ic" and rng.random() < .3:
        o, b = {"tdy_init_file": "d.h5"}, rng.choice([h5.petsc_vec(np.full(n, v)), b"rubbish rubbish rubbish"])
    return ("damaged %s file" % what, "RICHARDS", rng.choice(["MPFA_O", "FV_TPF"]), "driver" if what == "ic" else "driver-nomat", o, {"d.h5": "hex:" + b.hex()}, "driver")


def bad_setups(rng):
    """(what, mode, disc, use, options, files, the call that must be refused, calls left out)"""
    r = rng.choice
    fv, fe = ["MPFA_O", "FV_TPF", "MPFA_O_DAE", "MPFA_O_TRANSIENTVAR"], ["BDM", "WY"]
    every = fv + fe
    w = r(["bogus", "X", "1e5", "richard"])
    flow2d = {"dm_plex_dim": 2, "dm_plex_simplex": 0, "dm_plex_box_faces": "%d,%d" % (rng.randint(1, 4), rng.randint(1, 4))}
    name = r(["nope", "h_pb", "H_PBC"])
    L = [("mode name", "RICHARDS", r(every), None, {"tdy_mode": w}, {}, "fromopt"),
         ("discretization name", r(["RICHARDS", "TH", "SALINITY"]), "MPFA_O", None, {"tdy_discretization": w}, {}, "fromopt"),
         ("density name", "RICHARDS", r(every), None, {"tdy_water_density": w}, {}, "fromopt"),
         ("viscosity name", "RICHARDS", r(every), None, {"tdy_water_viscosity": w}, {}, "fromopt"),
         ("enthalpy name", "TH", "MPFA_O", None, {"tdy_water_enthalpy": w}, {}, "fromopt"),
         ("gmatrix name", "RICHARDS", r(["MPFA_O", "MPFA_O_DAE", "MPFA_O_TRANSIENTVAR"]), None, {"tdy_mpfao_gmatrix_method": w}, {}, "fromopt"),
         ("boundary kind name", "RICHARDS", "MPFA_O", None, {"tdy_mpfao_boundary_condition_type": w}, {}, "fromopt"),
         ("boundary kind name", "RICHARDS", "FV_TPF", None, {"tdy_fvtpf_boundary_condition_type": w}, {}, "fromopt"),
         ("quadrature name", "RICHARDS", r(fe), None, {"tdy_quadrature": w}, {}, "fromopt"),
         ("number", "RICHARDS", r(every), None, {r(["tdy_porosity", "tdy_permability", "tdy_gravity", "tdy_vangenuchten_param_m"]): "abc"}, {}, "fromopt"),
         ("mode by option", "RICHARDS", r(every[1:]), None, {"tdy_mode": r(["TH", "SALINITY"])}, {}, "fromopt"),
         ("discretization by option", r(["TH", "SALINITY"]), "MPFA_O", None, {"tdy_discretization": r(every[1:])}, {}, "fromopt"),
         ("unknown function", "RICHARDS", r(every), None, {"tdy_%s_bc_func" % r(["pressure", "velocity", "temperature"]): name}, {}, "fromopt"),
         ("two initial conditions", "RICHARDS", r(fv), None, {"tdy_init_file": "x.bin", "tdy_init_with_random_field": None}, {}, "fromopt"),
         ("mesh output", "RICHARDS", r(every[1:]), None, {"tdy_output_mesh": None}, {}, "setup"),
         ("regression without file", r(["RICHARDS", "TH", "SALINITY"]), "MPFA_O", None, {"tdy_regression_test": None}, {}, "setup"),
         ("regression without file", "RICHARDS", r(every), None, {"tdy_regression_test": None}, {}, "setup"),
         ("missing mesh", "RICHARDS", r(every), None, {"tdy_read_mesh": "missing.msh"}, {}, "fromopt"),
         ("unreadable mesh", "RICHARDS", r(every), None, {"tdy_read_mesh": "g.msh"}, {"g.msh": "not a mesh\n"}, "fromopt"),
         ("unknown mesh format", "RICHARDS", r(every), None, {"tdy_read_mesh": "g.xyz"}, {"g.xyz": "not a mesh\n"}, "fromopt"),
         ("missing PFLOTRAN mesh", "RICHARDS", "FV_TPF", None, {"tdy_read_pflotran_mesh": "missing.h5"}, {}, "fromopt"),
         ("unreadable PFLOTRAN mesh", "RICHARDS", "FV_TPF", None, {"tdy_read_pflotran_mesh": "g.h5"}, {"g.h5": "not a mesh\n"}, "fromopt"),
         damaged(rng), damaged(rng), damaged(rng), damaged(rng), datafile(rng, "porosity"), datafile(rng, "permeability"), datafile(rng, "ic"),
         ("boundary type function", "RICHARDS", "FV_TPF", None, {"h_f_pbct": r(["const:3.5", "const:-0.5", "const:1000.5"])}, {}, "setup"),
         ("plane mesh", "RICHARDS", r(fv), None, flow2d, {}, "setup"),
         ("plane mesh", r(["TH", "SALINITY"]), "MPFA_O", None, flow2d, {}, "setup"),
         ("mixed cells", "RICHARDS", r(every), None, {"tdy_read_mesh": "m.msh"}, {"m.msh": mixed()}, "setup"),
         ("mesh shifted up by cells", "RICHARDS", r(fv), None, {"h_shear": [1, 0, .3, 0, 1, 0, 0, 0, 1], "h_n": [3, 2, 2]}, {}, "setup"),
         ("prisms", "RICHARDS", r(fe), None, {"h_mesh": "wedge"}, {}, "setup"),
         ("driver", "RICHARDS", "WY", "driver", {}, {}, "driver"), ("driver", "RICHARDS", "BDM", "driver", {}, {}, "driver"),
         ("driver SNES", "RICHARDS", r(["MPFA_O_DAE", "MPFA_O_TRANSIENTVAR"]), "driver", {"tdy_time_integration_method": "SNES"}, {}, "driver"),
         ("driver TS", "RICHARDS", "FV_TPF", "driver", {"tdy_time_integration_method": "TS"}, {}, "driver"),
         ("driver TH SNES", "TH", "MPFA_O", "driver", {"tdy_time_integration_method": "SNES"}, {}, "driver"),
         ("driver salinity TS", "SALINITY", "MPFA_O", "driver", {"tdy_time_integration_method": "TS"}, {}, "driver"),
         ("driver method", "RICHARDS", r(["MPFA_O", "FV_TPF"]), "driver", {"tdy_time_integration_method": w}, {}, "driver"),
         ("missing permeability file", "RICHARDS", r(["MPFA_O", "FV_TPF"]), "driver-nomat", {"init_permeability_file": "missing.h5"}, {}, "driver"),
         ("missing porosity file", "RICHARDS", r(["MPFA_O", "FV_TPF"]), "driver-nomat", {"init_porosity_file": "missing.h5"}, {}, "driver"),
         ("missing initial condition file", "RICHARDS", r(["MPFA_O", "FV_TPF"]), "driver", {r(["ic_file", "tdy_init_file"]): "missing.h5"}, {}, "driver"),
         ("output without format", "RICHARDS", r(["MPFA_O", "FV_TPF"]), "driver-write", {}, {}, "write"),
         ("time step cut", r(["RICHARDS"]), "MPFA_O", "driver-cut", {"snes_max_it": 0, "snes_force_iteration": None}, {}, "run")]
    return L


def gen_case(rng, i, allbad):
    o = gen.mesh(rng, rng.choice(["box", "box", "pert"]), 3)
    o.update(api.fields(rng))
    o.update(h_bctype="DIRICHLET_BC", tdy_dt_init=500, snes_rtol=1e-9, ksp_type="preonly", pc_type="redundant")
    mode, disc, use = api.kinds(rng, 1)[0]
    if i % 2 == 0:
        b = allbad[(i // 2) % len(allbad)]
        bad = bad_setups(rng)[(i // 2) % len(allbad)]
        np_ = gen.ranks(rng, o, (1, 1, 1, 2)) if bad[0] not in ("unreadable PFLOTRAN mesh", "missing PFLOTRAN mesh", "unreadable mesh", "missing mesh", "unknown mesh format", "mixed cells", "plane mesh", "missing permeability file", "missing porosity file", "missing initial condition file", "mesh shifted up by cells") and bad[1] == "RICHARDS" and bad[2] not in FE else 1
        if disc in FE:
            mode, disc, use = "RICHARDS", "MPFA_O", "snes"
        if np_ > 1 and use == "driver":
            use = "snes"
        clean = api.life(mode, disc, use, 1000., 700)
        return dict(name="%d refused: %s %s/%s" % (i, bad[0], bad[1], bad[2]), kind="bad", opts=o, np=np_, bad=bad, clean=clean)
    if disc in FE:
        o.update(gen.mesh(rng, "box", 3))
    np_ = gen.ranks(rng, o, (1, 1, 1, 2)) if disc not in FE and use != "driver" else 1
    clean = api.life(mode, disc, use, round(10 ** rng.uniform(1, 5), 1), rng.randint(100, 1000))
    lines, must = [], []
    for k in range(len(clean) + 1):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            q = misuse(rng, mode, disc, clean[:k], None)
            if use == "driver" and any(c == "driver" for c in clean[:k]):
                q = ["dm", "fromopt"] + [c for c in q if c.startswith("sel")] + (["disc %d" % rng.choice([7, 9])] if False else [])
            if q:
                lines.append("0 " + rng.choice(q))
                must.append(True)
        if k < len(clean):
            lines.append("0 " + clean[k])
            must.append(False)
    lines.append("0 destroy")
    must.append(False)
    return dict(name="%d misuse %s/%s/%s" % (i, mode, disc, use), kind="misuse", opts=o, np=np_, lines=lines, must=must, clean=clean)


def check(ck, only=None):
    n = 240 if ck.quick else 2400
    allbad = bad_setups(ck.rng)
    ck.map(lambda c: one(ck, c), [only] if only else [gen_case(ck.rng, i, allbad) for i in range(n)])


def rank_codes(t, np_):
    return [{int(x[1]): int(x[2]) for x in t.trace.X.get("C", []) if x[0] == r} for r in range(np_)]


def vectors(t, first, count):
    """recorded numbers of the given range of lines"""
    d = {}
    for (nm, line), v in t.trace.vec.items():
        if first <= line < first + count:
            d[(nm, line - first)] = v
    for (nm, line), v in t.trace.mat.items():
        if first <= line < first + count:
            d[("mat " + nm, line - first)] = v
    return d


def same(a, b):
    if isinstance(a, dict):
        sc = max([abs(x) for x in a.values()] + [0])
        return set(a) == set(b) and all(abs(a[q] - b[q]) <= 1e-10 * sc for q in a)
    return a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= 1e-10 * np.abs(a).max())


def one(ck, c):
    clean = ["0 " + x for x in c["clean"]] + ["0 destroy"]
    t0 = api.go(clean, c["opts"], c["np"])
    if t0.timed_out:
        raise Inconclusive("timeout")
    if "a process has no cells" in t0.out:
        raise Skip("no cells")
    if t0.trace is None:
        raise Fail("no trace: " + why(t0), key="crash:start")
    c0, l0 = api.codes(t0)
    if any(e and clean[k].split()[1] == "run" for k, e in c0.items()):
        raise Skip("did not converge")
    if t0.rc or any(c0.values()):
        raise Fail("without any misuse: %s" % (why(t0) if t0.rc else {clean[k]: e for k, e in c0.items() if e}), key="clean")
    ref = vectors(t0, 0, len(clean))
    if c["kind"] == "misuse":
        L, must = c["lines"], c["must"]
        t = api.go(L, c["opts"], c["np"])
        files = None
    else:
        what, mode, disc, use, bo, files, call = c["bad"]
        bo, files = dict(bo), {k: bytes.fromhex(v[4:]) if v.startswith("hex:") else v for k, v in files.items()}
        o = dict(c["opts"])
        meshless = any(k in ("tdy_read_mesh", "tdy_read_pflotran_mesh", "dm_plex_dim") for k in bo)
        pre = ["opt -%s %s" % (k, ",".join(str(x) for x in v) if isinstance(v, list) else v) if v is not None else "opt -%s" % k for k, v in bo.items()]
        seq = ["create", "mode %d" % api.MODE[mode], "disc %d" % api.DISC[disc]] + ([] if meshless else ["dm"]) + ["fromopt"]
        if call != "fromopt":
            if use is None:
                seq += ["mat", "cond", "setup"]
            else:
                seq += (["cond"] if use == "driver-nomat" else ["mat", "cond"]) + ["driver"]
                seq += ["write"] if use == "driver-write" else ["run 1000"] if use == "driver-cut" else []
        # back to the options of the clean run
        post = []
        for k in bo:
            v = o.get(k)
            post.append("unopt -" + k if k not in o else "opt -%s %s" % (k, ",".join(str(x) for x in v) if isinstance(v, list) else v))
        L = ["1 " + x for x in pre + ["fields"] + seq] + ["1 destroy"] + ["0 " + x for x in post] + clean
        must = [False] * len(L)
        must[1 + len(pre) + len(seq) - 1] = True
        t = api.go(L, o, c["np"], files)
    if t.timed_out:
        raise Fail("the run hangs", key="hang")
    if t.trace is None:
        raise Fail("no trace: " + why(t), key="crash:start")
    if c["kind"] == "bad" and what == "mesh shifted up by cells" and t.rc == 83 and "IsCellAboveTheVertex" in t.out:
        ck.ev(1, "refused:" + what)
        return
    cods = rank_codes(t, c["np"])
    last = api.codes(t)[1]
    if t.rc or any(last not in x for x in cods):
        ll = L[last] if last >= 0 else "start"
        raise Fail("the process ended in call %d (%s)%s: %s" % (last, ll, " that must be refused" if last >= 0 and must[last] else "", why(t)), key="crash:%s%s" % (ll.split()[1] if last >= 0 else "", ":" + c["bad"][0] if c["kind"] == "bad" else ""))
    for k, l in enumerate(L):
        e = [x.get(k) for x in cods]
        if must[k]:
            if any(not x for x in e):
                raise Fail("call %d ('%s') must be refused and returns %s%s" % (k, l, e, " (%s)" % c["bad"][0] if c["kind"] == "bad" else ""), key="accepted:%s%s" % (l.split()[1], ":" + c["bad"][0] if c["kind"] == "bad" else ""))
            ck.ev(1, "refused:%s" % (c["bad"][0] + " " + c["bad"][2] if c["kind"] == "bad" else "%s %s" % (l.split()[1], "before setup" if "0 setup" not in L[:k] else "after setup")))
        elif any(e):
            raise Fail("call %d ('%s'), a valid one, returns %s after refused ones" % (k, l, e), key="refused:%s" % l.split()[1])
    if c["kind"] == "misuse":
        own = [k for k in range(len(L)) if not must[k]]
        got = {}
        for (nm, line), v in list(t.trace.vec.items()) + [(("mat " + a, b), v) for (a, b), v in t.trace.mat.items()]:
            if not must[line]:
                got[(nm, own.index(line))] = v
    else:
        got = vectors(t, len(L) - len(clean), len(clean))
        got = {k: v for k, v in got.items()}
    if set(got) != set(ref):
        raise Fail("recorded %s after refused calls and %s without them" % (sorted(got), sorted(ref)), key="records")
    for k in ref:
        if not same(ref[k], got[k]):
            raise Fail("%s after '%s' differs from that of a run without the refused calls" % (k[0], clean[k[1]]), key="changed:%s" % clean[k[1]].split()[1])
        ck.ev(1, "unchanged:%s" % clean[k[1]].split()[1])
    ck.sample(c["name"])
