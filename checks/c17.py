"""An option on the command line does what the public function does."""
from core import *
import struct
import gen, ref

META = dict(level="exploration",
            rule="one evaluation = one option with one value, compared value by value with a run configured through the public interface (or with its formula), and with a run that lacks it",
            assumptions=["the options that C11 (files), C12 (checkpoints), C13 (time stepping) and C20 (regression files) cover are left to them"])


def soil(rng, o):
    o.update(gen.soil(rng))
    o.update(h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng), h_kstyle="iso")


def fvbase(rng, form, kinds=gen.PLANE, pres=None):
    o = gen.mesh(rng, rng.choice(kinds), 4)
    soil(rng, o)
    o.update(h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O", h_f_P=gen.pressure(rng, pres), h_f_Pprev=gen.pressure(rng, pres), h_f_pbc=gen.pressure(rng), h_dt=round(10 ** rng.uniform(1, 5), 1), h_nstate=2)
    if form == "th":
        o.update(h_mode="TH", h_ts=1, h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_Pdot="hash:-1,1,%d" % gen.seed(rng), h_f_Tdot="hash:-0.01,0.01,%d" % gen.seed(rng), h_f_tbc="hash:5,60,%d" % gen.seed(rng),
                 h_f_txx="const:1.3", h_tstyle="iso", h_f_rho="const:2000", h_f_cp="const:1000")
    if form == "sal":
        o.update(h_mode="SALINITY", h_f_C="hash:0.01,0.2,%d" % gen.seed(rng), h_f_Cprev="hash:0,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="const:58.44", h_f_cbc="hash:0,0.2,%d" % gen.seed(rng))
    return o


def driver(rng, th):
    """a short run whose material properties come from the options"""
    o = gen.mesh(rng, "box", 3)
    o.update(h_mat=0, h_disc="MPFA_O", h_bctype="NEUMANN_BC", tdy_dt_init=1.0, tdy_dt_max=1.0, tdy_dt_growth_factor=1.0, h_sync=[2.0], h_dumpv=1, h_diag=1, ksp_type="preonly", pc_type="redundant", snes_max_it=60,
             snes_rtol=1e-9, tdy_time_integration_method="SNES", tdy_water_density="exponential", h_f_P="hash:%d,%d,%d" % (rng.randint(85000, 95000), rng.randint(96000, 110000), gen.seed(rng)))
    if th:
        o.update(h_mode="TH", tdy_time_integration_method="TS", snes_rtol=1e-7, h_f_T="hash:5,60,%d" % gen.seed(rng))
    elif rng.random() < .5:
        o["h_disc"] = "FV_TPF"
    return o


# each family returns the common options, those of the run with the option, of the run with the public function, of the run without
def materials(rng):
    name, slot, val, th, sty = rng.choice([("tdy_porosity", "poro", rng.uniform(.05, .6), 0, {}), ("tdy_permability", "kxx", 10 ** rng.uniform(-13, -11.2), 0, {"h_kstyle": "iso"}), ("tdy_residual_satuaration", "sr", rng.uniform(.01, .14), 0, {}),
                                           ("tdy_soil_density", "rho", rng.uniform(1000, 2500), 1, {}), ("tdy_soil_specific_heat", "cp", rng.uniform(300, 950), 1, {}), ("tdy_thermal_conductivity", "txx", rng.uniform(1.5, 9), 1, {"h_tstyle": "iso"})])
    v = float("%.6g" % val)
    o = driver(rng, th or rng.random() < .2)
    b = {"h_f_" + slot: "const:%r" % v, "h_mat": 1, "h_capi": rng.randint(0, 1)}
    b.update(sty)
    return dict(kind=name, prog="step", o=o, a={name: v}, b=b, d={})


def mode_over(rng):
    form = rng.choice(["th", "sal", "mpfao"])
    o = fvbase(rng, form)
    want = o.get("h_mode", "RICHARDS")
    other = rng.choice([m for m in ("RICHARDS", "TH", "SALINITY") if m != want])
    return dict(kind="tdy_mode", o=o, a={"h_api_mode": other, "tdy_mode": want}, b={})


def disc_over(rng):
    form = rng.choice(["fvtpf", "mpfao"])
    o = fvbase(rng, form)
    o["h_jac"] = 1
    other = "MPFA_O" if form == "fvtpf" else rng.choice(["FV_TPF", "BDM", "WY"])
    return dict(kind="tdy_discretization", o=o, a={"h_api_disc": other, "tdy_discretization": o["h_disc"]}, b={}, d={"h_disc": "FV_TPF" if form == "mpfao" else "MPFA_O"})


def density(rng):
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf", "th", "sal"]))
    v = rng.choice(["exponential", "batzle_and_wang"])
    w = rng.choice(["constant"] + [x for x in ("exponential", "batzle_and_wang") if x != v])
    return dict(kind="tdy_water_density", o=o, a={"tdy_water_density": v}, b={"h_api_density": v, "tdy_water_density": w}, d={"tdy_water_density": w})


def viscosity(rng):
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf", "th", "sal"]))
    return dict(kind="tdy_water_viscosity", o=o, a={"tdy_water_viscosity": "batzle_and_wang"}, b={"h_api_viscosity": "batzle_and_wang"}, d={})


def bfunc(rng):
    form = rng.choice(["mpfao", "fvtpf", "th"])
    o = fvbase(rng, form)
    if form == "fvtpf":
        o["h_f_pbct"] = "const:0.5"
    else:
        o["h_bctype"] = "DIRICHLET_BC"
    th = form == "th" and rng.random() < .6
    a = {"h_bcvia": "cli", "tdy_pressure_bc_func": "h_pbc"}
    d = dict(a)
    if form == "th":
        a["tdy_temperature_bc_func"] = "h_tbc"
        if th:
            d["tdy_temperature_bc_value"] = 3.0
    if not th:
        d = dict(a, tdy_pressure_bc_func=None, tdy_pressure_bc_value=7000.0)
        d.pop("tdy_pressure_bc_func")
    return dict(kind="tdy_temperature_bc_func" if th else "tdy_pressure_bc_func", o=o, a=a, b={"h_bcvia": rng.choice(["select", "fn"])}, d=d)


def bvalue(rng):
    form = rng.choice(["mpfao", "fvtpf", "th"])
    o = fvbase(rng, form)
    if form == "fvtpf":
        o["h_f_pbct"] = "const:0.5"
    else:
        o["h_bctype"] = "DIRICHLET_BC"
    P, T = round(rng.uniform(80000, 150000), 3), round(rng.uniform(2, 70), 3)
    a, b, d = {"h_bcvia": "cli", "tdy_pressure_bc_value": P}, {"h_f_pbc": "const:%r" % P}, {}
    if form == "th":
        a["tdy_temperature_bc_value"] = T
        b["h_f_tbc"] = "const:%r" % T
        if rng.random() < .5:
            return dict(kind="tdy_temperature_bc_value", o=o, a=a, b=b, d=dict(a, tdy_temperature_bc_value=T + 5))
    return dict(kind="tdy_pressure_bc_value", o=o, a=a, b=b, d=dict(a, tdy_pressure_bc_value=P + 3000))


def gmatrix(rng):
    o = fvbase(rng, rng.choice(["mpfao", "th"]), ["box", "column"])
    o["h_jac"] = 1
    v = rng.choice(["MPFAO_GMATRIX_DEFAULT", "MPFAO_GMATRIX_TPF"])
    w = "MPFAO_GMATRIX_TPF" if v.endswith("DEFAULT") else "MPFAO_GMATRIX_DEFAULT"
    return dict(kind="tdy_mpfao_gmatrix_method", o=o, a={"tdy_mpfao_gmatrix_method": v}, b={"h_gmatrix": v, "tdy_mpfao_gmatrix_method": w}, d={"tdy_mpfao_gmatrix_method": w})


def bctype(rng):
    o = fvbase(rng, rng.choice(["mpfao", "th", "sal"]))
    v, w = rng.sample(["DIRICHLET_BC", "NEUMANN_BC", "SEEPAGE_BC"] if "h_mode" not in o else ["DIRICHLET_BC", "NEUMANN_BC"], 2)
    o["h_f_pbc"] = "hash:70000,100000,%d" % gen.seed(rng)
    return dict(kind="tdy_mpfao_boundary_condition_type", o=o, a={"tdy_mpfao_boundary_condition_type": v}, b={"h_bctype": v, "tdy_mpfao_boundary_condition_type": w}, d={"tdy_mpfao_boundary_condition_type": w})


def fvtpfbc(rng):
    o = fvbase(rng, "fvtpf")
    o["h_f_pbc"] = "hash:70000,100000,%d" % gen.seed(rng)
    v = rng.choice([0, 1, 2])
    n = ["DIRICHLET_BC", "NEUMANN_BC", "SEEPAGE_BC"]
    w = (v + rng.choice([1, 2])) % 3
    return dict(kind="tdy_fvtpf_boundary_condition_type", o=o, a={"tdy_fvtpf_boundary_condition_type": n[v]}, b={"h_f_pbct": "const:%g" % (v + .5), "tdy_fvtpf_boundary_condition_type": n[w]}, d={"h_f_pbct": "const:%g" % (w + .5)})


def quadrature(rng):
    from checks.c21 import femesh
    dim = rng.choice([2, 3])
    o = femesh(rng, dim)[0]
    o.update(h_disc="BDM", h_f_kxx="hash:0.5,2,%d" % gen.seed(rng), h_kstyle="iso", h_f_poro="const:0.3", h_f_pbc="quad:1,2,3,1", h_f_src="quad:1,1,2,1")
    v, w = rng.sample(["LUMPED", "FULL"], 2)
    return dict(kind="tdy_quadrature", prog="fe", o=o, a={"tdy_quadrature": v}, b={"h_quad": v}, d={"h_quad": w})


FAMILIES = [materials, mode_over, disc_over, density, viscosity, bfunc, bvalue, gmatrix, bctype, fvtpfbc, quadrature, materials]


# ---------------------------------------------------------------- options without a public function
def gravity(rng):
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf"]), pres="wet")
    o.update(tdy_water_density="constant", h_f_pbc=o["h_f_P"], h_bctype="NEUMANN_BC", h_f_Pprev=o["h_f_P"])
    return dict(special="gravity", kind="tdy_gravity", o=o, g=round(rng.uniform(.5, 30), 3))


def curve(rng):
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf", "th", "sal"]), pres="dry")
    o["h_diag"] = 1
    k, m, a = rng.choice(["tdy_vangenuchten_param_m", "tdy_vangenuchten_param_alpha", "both"]), .8, 1e-4
    e = {}
    if k != "tdy_vangenuchten_param_alpha":
        m = e["tdy_vangenuchten_param_m"] = round(rng.uniform(.3, .9), 4)
    if k != "tdy_vangenuchten_param_m":
        a = e["tdy_vangenuchten_param_alpha"] = float("%.4g" % 10 ** rng.uniform(-5, -3))
    return dict(special="curve", kind="tdy_vangenuchten", o=dict(o, **e), m=m, a=a)


def meshfile(rng):
    n = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 4)]
    lo = [round(rng.uniform(-3, 3), 3) for _ in range(3)]
    hi = [round(l + rng.uniform(.5, 2) * k, 3) for l, k in zip(lo, n)]
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf"]), ["box"])
    for k in ("h_grade", "h_perm"):
        o.pop(k, None)
    o.update(h_n=n, h_lo=lo, h_hi=hi)
    if rng.random() < .5:
        b = dict(h_nodm=None, dm_plex_dim=3, dm_plex_simplex=0, dm_plex_box_faces=n, dm_plex_box_lower=lo, dm_plex_box_upper=hi)
        return dict(special="mesh", kind="dm_plex_box", o=o, b=b)
    return dict(special="mesh", kind="tdy_read_mesh", o=o, b=dict(h_nodm=None, tdy_read_mesh="m.msh"), shuffle=gen.seed(rng))


def gmsh(n, lo, hi, shuffle):
    r = random.Random(shuffle)
    pt = [(i, j, k) for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)]
    r.shuffle(pt)
    num = {p: i + 1 for i, p in enumerate(pt)}
    cl = [[(i, j, k), (i + 1, j, k), (i + 1, j + 1, k), (i, j + 1, k), (i, j, k + 1), (i + 1, j, k + 1), (i + 1, j + 1, k + 1), (i, j + 1, k + 1)] for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    r.shuffle(cl)
    s = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n" % len(pt)
    for p in pt:
        s += "%d %r %r %r\n" % ((num[p],) + tuple(lo[d] + (hi[d] - lo[d]) * p[d] / n[d] for d in range(3)))
    s += "$EndNodes\n$Elements\n%d\n" % len(cl)
    for i, c in enumerate(cl):
        s += "%d 5 2 1 1 %s\n" % (i + 1, " ".join(str(num[p]) for p in c))
    return s + "$EndElements\n"


def region(rng):
    n = [rng.randint(2, 5), rng.randint(1, 3), rng.randint(1, 3)]
    o = fvbase(rng, "mpfao", ["box"])
    for k in ("h_grade", "h_perm"):
        o.pop(k, None)
    o.update(h_n=n, h_lo=[0, 0, 0], h_hi=[float(k) for k in n], h_gmatrix="MPFAO_GMATRIX_TPF", h_bctype="NEUMANN_BC", h_jac=0, h_f_kxx="const:1e-12")
    return dict(special="region", kind="tdy_connected_region", o=o, cut=rng.randint(1, n[0] - 1))


def petscvec(v):
    return struct.pack(">ii%dd" % len(v), 1211214, len(v), *v)


def initial(rng):
    mode = rng.choice(["RICHARDS", "TH", "SALINITY"])
    o = driver(rng, mode == "TH")
    o.update(h_n=[rng.randint(1, 3), rng.randint(2, 3), rng.randint(1, 3)], h_ic=0, h_sync=[0.0], h_diag=0)
    if mode == "SALINITY":
        o.update(h_mode="SALINITY", h_disc="MPFA_O", snes_fd=None)
    for k in ("h_f_P", "h_f_T"):
        o.pop(k, None)
    if rng.random() < .4:
        return dict(special="random", kind="tdy_init_with_random_field", mode=mode, o=dict(o, tdy_init_with_random_field=None))
    return dict(special="init", kind="tdy_init_file", mode=mode, o=dict(o, tdy_init_file="ic.bin"), seed=gen.seed(rng))


def interval(rng):
    o = driver(rng, False)
    o.update(h_writes=rng.choice([1, 2]), output_timestep_interval=rng.randint(1, 4), h_sync=[float(rng.randint(3, 8))])
    if o["h_disc"] == "FV_TPF" and rng.random() < .5:
        o.update(h_failat=[rng.randint(0, 3)], tdy_dt_growth_factor=1.5)
    return dict(special="interval", kind="output_timestep_interval", o=o)


def without(rng):
    k = rng.choice(["tdy_gardner_param_n", "tdy_velocity_bc_value", "tdy_velocity_bc_func"])
    o = fvbase(rng, rng.choice(["mpfao", "fvtpf"]), pres="dry")
    if k.endswith("n"):
        return dict(special="effect", kind=k, o=o, a={k: 1.7}, d={})
    o["h_bctype"] = "NEUMANN_BC"
    if o["h_disc"] == "FV_TPF":
        o["h_f_pbct"] = "const:1.5"
    return dict(special="effect", kind=k, o=dict(o, h_f_vbc="const:1e-3", h_bcvia="cli"), a={k: "h_vbc" if k.endswith("func") else 1e-3}, d={})


SPECIAL = [gravity, curve, meshfile, region, initial, interval, without, meshfile, initial]


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(48 if ck.quick else 600):
        c = FAMILIES[i % len(FAMILIES)](rng)
        c.update(name="P%d-%s" % (i, c["kind"]), np=gen.ranks(rng, c["o"], (1, 2, 3, 4) if c["kind"] == "tdy_connected_region" else (1, 1, 2, 3)) if c.get("prog") != "fe" else 1)
        out.append(c)
    for i in range(36 if ck.quick else 450):
        c = SPECIAL[i % len(SPECIAL)](rng)
        c.update(name="S%d-%s" % (i, c["kind"]), np=gen.ranks(rng, c["o"], (1, 2, 3, 4) if c["kind"] == "tdy_connected_region" else (1, 1, 2, 3)))
        out.append(c)
    return out


def vectors(t):
    """everything a run produced, the state it was given left out"""
    d = {}
    for k, v in t.vec.items():
        if k[0] not in ("U", "Up", "Ud", "init", "guess"):
            d[k] = v
    for k, m in t.mat.items():
        N = 1 + max(max(q) for q in m)
        d[k + ("matrix",)] = A = np.zeros((N, N))
        for (i, j), v in m.items():
            A[i, j] += v
    return d


def differ(x, y, tol):
    """the first result that differs by more than tol of its size"""
    if set(x) != set(y):
        return "the runs record different things (%s)" % sorted(map(str, set(x) ^ set(y)))[:3]
    for k in x:
        if x[k].shape != y[k].shape:
            return "%s %s has another size" % k[:2]
        sc = np.abs(x[k]).max() if x[k].size else 0
        q, i = worst(x[k].ravel(), y[k].ravel(), tol * (np.abs(x[k].ravel()) + sc) + 1e-300)
        if q > 1:
            return "entry %d of %s %s is %.12g instead of %.12g" % (i, k[0], k[1], x[k].ravel()[i], y[k].ravel()[i])


def go(c, e, files=None, what=""):
    t = run(c.get("prog", "fv"), opts(dict(c["o"], **e)), np_=c["np"], files=files)
    if c.get("prog") == "step" and t.rc and ("DIVERGED" in t.out or "maximum time step cuts" in t.out):
        raise Skip("the solver did not converge")
    return need_ok(t, "%s %s" % (c["name"], what))


def pair(ck, c):
    a = go(c, c["a"], what="by the option %s" % c["a"])
    b = go(c, c["b"], what="by the public function")
    x, y = vectors(a), vectors(b)
    ck.ev(1, c["name"])
    ck.count("option_" + c["kind"])
    ck.count("values_compared", int(sum(v.size for v in x.values())))
    w = differ(x, y, 1e-10 if c.get("prog") != "step" else 1e-7)
    if w:
        raise Fail("-%s: with the option, %s as with the public function (%s)" % (c["kind"], w, c["a"]))
    if "d" in c:
        d = go(c, c["d"], what="without the option")
        ck.count("effects")
        if not differ(x, vectors(d), 1e-13):
            # the option may by chance not matter for this state: it must for some
            ck.count("no_visible_effect")
            c["silent"] = True


def special(ck, c):
    o, nm, k = c["o"], c["name"], c["special"]
    ck.ev(1, nm)
    ck.count("option_" + c["kind"])
    if k == "gravity":
        F = [go(c, {"tdy_gravity": g}).vec for g in (0.0, 1.0, c["g"])]
        for s in range(o["h_nstate"]):
            f0, f1, fg = (f[("F", s)] for f in F)
            w = f0 + c["g"] * (f1 - f0)
            q, i = worst(fg, w, 1e-9 * (np.abs(f0) + np.abs(w) + np.abs(w).max()) + 1e-300)
            ck.count("values_compared", len(w))
            if q > 1:
                raise Fail("%s: residual %d under gravity %g is %.12g, proportional to gravity it would be %.12g" % (nm, i, c["g"], fg[i], w[i]))
        if np.array_equal(F[0][("F", 0)], F[1][("F", 0)]) and o["h_n"][2] > 1:
            raise Fail("%s: gravity has no effect" % nm)
    elif k == "curve":
        t = go(c, {})
        for s in range(o["h_nstate"]):
            w = ref.sat(t.cell("U", s), t.field("sr"), c["m"], c["a"])
            g = t.vec[("sat", s)]
            w, g = np.sort(w), np.sort(g)
            q, i = worst(g, w, 1e-9)
            ck.count("values_compared", len(w))
            if q > 1:
                raise Fail("%s: a saturation with m=%g and alpha=%g is %.12g, expected %.12g" % (nm, c["m"], c["a"], g[i], w[i]))
    elif k == "mesh":
        a = go(c, {})
        f = {"m.msh": gmsh(o["h_n"], o["h_lo"], o["h_hi"], c["shuffle"])} if "shuffle" in c else None
        b = need_ok(run("fv", opts(dict(o, **c["b"])), np_=c["np"], files=f), nm)
        if b.n != a.n:
            raise Fail("%s: the mesh has %d cells, expected %d" % (nm, b.n, a.n))
        ix = match(a.x, b.x)
        for s in range(o["h_nstate"]):
            same_system(ck, nm, a, b, ix, s, jac=False)
        ck.count("values_compared", a.n * o["h_nstate"])
    elif k == "region":
        n = o["h_n"]
        v = [1.0 if i < c["cut"] else 2.0 for z in range(n[2]) for y in range(n[1]) for i in range(n[0])]
        t = go(c, {"tdy_connected_region": "reg.bin"}, files={"reg.bin": petscvec(v)})
        for lo, hi in ((0, c["cut"]), (c["cut"], n[0])):
            if (hi - lo) * n[1] * n[2] < 2:
                continue
            p = need_ok(run("fv", opts(dict(o, h_n=[hi - lo, n[1], n[2]], h_lo=[float(lo), 0, 0], h_hi=[float(hi), float(n[1]), float(n[2])]))), nm)
            ix = [int(np.argmin(np.abs(t.x - x).sum(1))) for x in p.x]
            for s in range(o["h_nstate"]):
                F, G = p.cell("F", s), t.cell("F", s)[ix]
                q, i = worst(F, G, 1e-9 * (np.abs(F) + np.abs(F).max()))
                ck.count("values_compared", len(F))
                if q > 1:
                    raise Fail("%s: residual of the cell at %s is %.12g, that of its region alone is %.12g" % (nm, p.x[i].round(3), G[i], F[i]))
    elif k in ("random", "init"):
        c["prog"] = "step"
        dof = 1 if c["mode"] == "RICHARDS" else 2
        N = dof * gen.ncells(o)
        if k == "init":
            r = random.Random(c["seed"])
            v = [r.uniform(8e4, 1.2e5) if i % dof == 0 else r.uniform(.01, .2) if c["mode"] == "SALINITY" else r.uniform(5, 60) for i in range(N)]
            t = go(c, {}, files={"ic.bin": petscvec(v)})
            q = {q: w for q, w in o.items() if q in ("h_mesh", "h_n", "h_lo", "h_hi", "h_grade", "h_seed", "h_perm")}
            a = need_ok(run("fv", opts(dict(q, h_disc="FV_TPF", h_f_P="const:1", h_f_poro="const:.3", h_f_kxx="const:1e-12", h_kstyle="iso", h_f_sr="const:0.1"))), nm)
            ix = match(a.x, t.x)
            got = t.vec[("init", 0)].reshape(t.n, dof)[ix]
            want = np.array(v).reshape(t.n, dof)
            ck.count("values_compared", N)
            if not np.array_equal(got, want):
                i = int(np.argmax(np.abs(got - want).max(1)))
                raise Fail("%s in %s mode on %d process(es): cell %d starts with %s, the file says %s" % (nm, c["mode"], c["np"], i, got[i], want[i]))
        else:
            t = go(c, {})
            got = t.vec[("init", 0)].reshape(t.n, dof)
            lim = {"RICHARDS": [(1e4, 1e6)], "TH": [(1e4, 1e5), (15, 35)], "SALINITY": [(1e4, 1e6), (-1e9, 1e9)]}[c["mode"]]
            ck.count("values_compared", N)
            for e in range(dof):
                if not (np.all(got[:, e] >= lim[e][0]) and np.all(got[:, e] <= lim[e][1])) or len(set(got[:, e])) < t.n:
                    raise Fail("%s in %s mode: the initial values of unknown %d, %s, are not random numbers of their range" % (nm, c["mode"], e, got[:5, e]))
    elif k == "interval":
        c["prog"] = "step"

        def grab(wd):
            if o["h_writes"] == 2:
                return [x.split("_")[0] for x in os.listdir(wd) if x.endswith("_LiquidPressure.txt")]
            import h5
            p = os.path.join(wd, "out.h5")
            return [x.split("/")[-1].split("_")[0] for x in (h5.cat(p)[0] if os.path.exists(p) else {}) if "LiquidPressure" in x]
        t = run("step", opts(o), np_=c["np"], grab=grab)
        if t.rc and ("DIVERGED" in t.out or "maximum time step cuts" in t.out):
            raise Skip("the solver did not converge")
        got = sorted(float(x) for x in t.grab)
        t = need_ok(t, nm)
        want = {0.0} | {float(x) for x in o["h_sync"]}
        tm, n = 0.0, 0
        B = {int(x[1]): float(x[3]) for x in t.X["B"] if x[0] == 0}
        for x in t.X["E"]:
            if x[0] == 0 and int(x[2]) > 0:
                n += 1
                tm += B[int(x[1])]
                if n % o["output_timestep_interval"] == 0:
                    want.add(tm)
        ck.count("values_compared", len(want))
        if len(got) != len(set(got)) or any(min(abs(g - w) for w in want) > 1e-5 * max(1, abs(g)) for g in got) or any(min(abs(g - w) for g in got) > 1e-5 * max(1, abs(w)) for w in want):
            raise Fail("%s: with an interval of %d, output was written at %s, expected at %s" % (nm, o["output_timestep_interval"], got, sorted(want)))
    elif k == "effect":
        a, d = go(c, c["a"]), go(c, c["d"])
        x, y = vectors(a), vectors(d)
        ck.count("values_compared", int(sum(v.size for v in x.values())))
        if not differ(x, y, 1e-13):
            raise Fail("-%s has no effect on the residual" % c["kind"], key="no-effect:" + c["kind"])


def one(ck, c):
    (special if "special" in c else pair)(ck, c)


def check(ck, only=None):
    cs = [only] if only else cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0]["o"], "options": sorted({c["kind"] for c in cs})})
    ck.map(lambda c: one(ck, c), cs)
    if only:
        return
    for k in sorted({c["kind"] for c in cs if "d" in c and "special" not in c}):
        g = [c for c in cs if c["kind"] == k and "d" in c and "special" not in c]
        if len(g) > 1 and all(c.get("silent") for c in g):
            ck.violate("no-effect:" + k, "-%s changes nothing in any of %d runs" % (k, len(g)), g[0])
