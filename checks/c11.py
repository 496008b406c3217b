"""Natural order: vectors handed to and by the library keep the numbering of the mesh as it was given."""
from core import *
import gen, ref, h5

META = dict(level="exploration",
            rule="one evaluation = one vector entry passed through a scatter (global to natural, natural to global and back, previous solution read back, diagnostics) whose cell was identified by its centroid",
            assumptions=["the mesh as given = the order of cells of the DM built by the DM constructor, read on one process"])


def cases(ck):
    rng = ck.rng
    out = []
    for i in range(30 if ck.quick else 400):
        mode = ["RICHARDS", "RICHARDS", "SALINITY", "RICHARDS"][i % 4]
        o = gen.mesh(rng, rng.choice(gen.PLANE), 4)
        o.update(gen.soil(rng)); o.update(gen.perm(rng, "iso"))
        if o["h_mesh"] == "box" and rng.random() < .7:
            o["h_perm"] = gen.seed(rng)
        o.update(h_nat=1, h_diag=1, h_nstate=2, h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_bctype="NEUMANN_BC", h_disc="MPFA_O", tdy_water_density="exponential")
        if mode == "SALINITY":
            o.update(h_mode="SALINITY", h_f_C="hash:0,0.1,%d" % gen.seed(rng), h_f_Cprev="hash:0,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="const:58.44")
        elif i % 4 == 1:
            o["h_disc"] = "FV_TPF"
        elif i % 4 == 3:
            o.update(h_ts=1)
            if rng.random() < .4:
                o.update(h_disc="MPFA_O_DAE", h_f_T="hash:0,400,%d" % gen.seed(rng)); o.pop("h_diag")
        out.append(dict(name="N%d-%s-%s" % (i, mode, o["h_disc"]), opts=o, np=gen.ranks(rng, o, (2, 2, 3, 4, 5))))
    return out


def one(ck, c):
    o = c["opts"]
    a = need_ok(run("fv", opts(dict(o, h_nat=0, h_nstate=1)), np_=1))      # the order of the mesh as given
    b = need_ok(run("fv", opts(o), np_=c["np"]), "%d processes" % c["np"])
    ix = match(a.x, b.x)                                                  # cell i of the mesh is cell ix[i] of b
    dof = b.dof
    ext = np.max(a.x.max(0) - a.x.min(0))
    if a.n != b.n:
        raise Fail("cells are missing")
    for k, d in enumerate("xyz"):
        for q_, want, what in (("glo", b.x[:, k], "global vector"), ("nat", a.x[:, k], "natural-order vector"),
                               ("ini", b.x[:, k], "initial condition given in natural order and read back in global order"),
                               ("fst", a.x[:, k], "initial condition given in natural order and read back as liquid pressure"),
                               ("prv", a.x[:, k], "previous solution read back as liquid pressure")):
            v = b.vec.get((q_ + d, 0))
            if v is None:
                continue
            for e in range(dof):
                w = want + 1000.0 * e
                ck.ev(a.n, c["name"])
                ck.count("entries_" + q_, a.n)
                q, i = worst(v[e::dof], w, 1e-8 * ext + 1e-10)
                if q > 1:
                    raise Fail("%s, %d processes: entry %d of the %s (unknown %d) belongs to a cell with %s=%.6g, expected %.6g" % (o["h_disc"], c["np"], i, what, e, d, v[e::dof][i] - 1000.0 * e, want[i]))
    if o.get("h_diag"):
        Sr = b.field("sr")
        for s in range(o["h_nstate"]):
            P = b.cell("U", s)
            want = ref.sat(P, Sr)[ix]
            q, i = worst(b.vec[("sat", s)], want, 1e-8)
            ck.ev(a.n, c["name"])
            ck.count("entries_diagnostics", a.n)
            if q > 1:
                raise Fail("%s, %d processes: saturation %d in natural order is %.9g, that of the cell there is %.9g" % (o["h_disc"], c["np"], i, b.vec[("sat", s)][i], want[i]))


# ---------------------------------------------------------------- files
def problem(rng, form, nmax=4):
    """a short driver run that converges easily"""
    o = gen.mesh(rng, rng.choice(["box", "box", "wedge"] if form != "fvtpf" else gen.PLANE), nmax)
    if o["h_mesh"] == "box" and rng.random() < .7:
        o["h_perm"] = gen.seed(rng)
    dt = round(rng.uniform(.5, 50), 2)
    o.update(tdy_water_density=rng.choice(["constant", "exponential"]), tdy_dt_init=dt, tdy_dt_growth_factor=1.5, h_sync=[dt],
             snes_rtol=1e-9 if form != "th" else 1e-7, snes_stol=0, snes_atol=1e-13, snes_max_it=80, ksp_type="preonly", pc_type="redundant", h_disc="FV_TPF" if form == "fvtpf" else "MPFA_O",
             h_f_P="hash:%d,%d,%d" % (rng.randint(70000, 90000), rng.randint(92000, 99000), gen.seed(rng)), h_f_sr="const:0.15")
    if form in ("ts", "th"):
        o["tdy_time_integration_method"] = "TS"
    else:
        o["tdy_time_integration_method"] = "SNES"
    if form == "fvtpf":
        o["h_f_pbct"] = "const:1.5"
    if form == "th":
        o.update(h_mode="TH", h_f_T="hash:20,30,%d" % gen.seed(rng), h_f_txx="const:1", h_f_rho="const:2650", h_f_cp="const:1000")
    return o


FORMS = ["fvtpf", "mpfao", "fvtpf", "ts", "th"]


def io_cases(ck):
    rng = ck.rng
    out = []
    for i in range(15 if ck.quick else 200):
        form = FORMS[i % 5]
        o = problem(rng, form)
        np_ = gen.ranks(rng, o, (1, 2, 3, 4, 5))
        kind = rng.choice(["poro", "iso", "diag", "ic", "init"] if form != "th" else ["poro", "iso", "diag", "ic"])
        o["h_f_poro"] = "hash:0.1,0.5,%d" % gen.seed(rng)
        for k in ("kxx", "kyy", "kzz"):
            o["h_f_" + k] = "lhash:1e-13,1e-11,%d" % gen.seed(rng)
        o["h_kstyle"] = "iso" if kind == "iso" else "diag"
        if kind == "iso":
            o.pop("h_f_kyy"), o.pop("h_f_kzz")
            if gen.ncells(o) < 12:
                o["h_n"] = [3, 2, 2]
            np_ = rng.choice([1, 1, 2])
            if np_ > 1:     # the known finding takes another value on each process: a uniform field must still be right
                o["h_f_kxx"] = "const:%.3ge-12" % rng.uniform(.1, 9)
        out.append(dict(name="F%d-%s-%s" % (i, form, kind), io="in", kind=kind, opts=o, np=np_, ds=rng.random() < .4))
    for i in range(15 if ck.quick else 200):
        form = FORMS[i % 5]
        o = problem(rng, form)
        fmt = rng.choice([1, 1, 2])
        k = rng.choice([0, 1, 2, 3]) if form in ("fvtpf", "mpfao") else 0
        dt = o["tdy_dt_init"]
        o.update(h_f_poro="const:0.25", h_f_kxx="lhash:1e-13,1e-11,%d" % gen.seed(rng), h_kstyle="iso", h_writes=fmt, h_sync=[2 * dt, 6 * dt])
        if k:
            o["output_timestep_interval"] = k
        if form == "fvtpf" and rng.random() < .5:
            o["h_failat"] = sorted(rng.sample(range(6), rng.choice([1, 2])))
        out.append(dict(name="O%d-%s-%s" % (i, form, "HDF5" if fmt == 1 else "ASCII"), io="out", fmt=fmt, every=k, opts=o, np=gen.ranks(rng, o, (1, 2, 3, 4, 5))))
    return out


def solved(r, what):
    if any(k in r.out for k in ("DIVERGED", "after maximum time step cuts", "TDyPreSolveSNESSolver not implemented for MPFA_O")):
        raise Skip("the solver did not converge")
    return need_ok(r, what)


def read_in(ck, c):
    o, kind = c["opts"], c["kind"]
    a = solved(run("step", opts(o), np_=1), "fields given as functions")
    f = {}
    pre = "some/" if c["ds"] else ""
    b = dict(o)
    if kind in ("poro", "iso", "diag"):
        b["h_mat"] = 0      # materials left to the driver: files, options or their defaults
        f[pre + ("phi" if c["ds"] else "Porosity")] = a.field("poro")
        b["init_porosity_file"] = "in.h5"
        K = [a.field(k) for k in ("kxx", "kyy", "kzz")]
        if kind == "iso":
            f[pre + ("K" if c["ds"] else "Permeability")] = K[0]
        else:
            for k, v in zip("XYZ", K):
                f[pre + ("K" if c["ds"] else "Permeability") + k] = v
            b["anisotropic_perm"] = None
        b["init_permeability_file"] = "in.h5"
        if c["ds"]:
            b.update(porosity_dataset=pre + "phi", permeability_dataset=pre + "K")
    elif kind == "ic":
        b["h_ic"] = 0
        f[pre + "IC"] = a.vec[("init", 0)]
        b["ic_file"] = "in.h5"
        if c["ds"]:
            b["ic_dataset"] = pre + "IC"
    else:
        b["h_ic"] = 0
        b["tdy_init_file"] = "in.vec"
    files = {"in.h5": h5.put(f)} if f else {}
    if kind == "init":
        files["in.vec"] = h5.petsc_vec(a.vec[("init", 0)])
    t = need_ok(run("step", opts(b), np_=c["np"], files=files), "fields read from a file")
    ix = match(a.x, t.x)
    for nm in ("init", "end"):
        for e in range(a.dof):
            want, got = a.vec[(nm, 0)][e::a.dof], t.vec[(nm, 0)][e::a.dof][ix]
            ch = np.abs(a.vec[("end", 0)][e::a.dof] - a.vec[("init", 0)][e::a.dof]).max()
            q, i = worst(got, want, 1e-12 * np.abs(want) if nm == "init" else 1e-3 * ch + 1e-8 * np.abs(want).max())
            ck.ev(a.n, c["name"])
            ck.count("entries_read_%s" % kind, a.n)
            if q > 1:
                if kind == "iso" and c["np"] == 1 and nm == "end":
                    K = [float(k) for k in a.field("kxx")[:3]]
                    d = need_ok(run("step", opts(dict(o, h_kstyle="diag", h_f_kxx="const:%r" % K[0], h_f_kyy="const:%r" % K[1], h_f_kzz="const:%r" % K[2])), np_=1))
                    if np.allclose(d.vec[("end", 0)], t.vec[("end", 0)], rtol=1e-8, atol=0):
                        f = Fail("an isotropic permeability field read from a file is replaced by the constant diagonal tensor of its first three values")
                        f.key = "isotropic-permeability-file"
                        raise f
                raise Fail("%s from a file, %d processes, %s: %s of the run: unknown %d at %s is %.10g, expected %.10g" % (
                    kind, c["np"], o["h_disc"], "initial state" if nm == "init" else "end", e, a.x[i].round(3), got[i], want[i]))


def written(wd):
    d = dict(txt={}, h5=None, xmf=None)
    for f in os.listdir(wd):
        if f.endswith(".txt"):
            d["txt"][f] = h5.ascii_vec(wd + "/" + f)
        elif f == "out.h5":
            d["h5"] = h5.cat(wd + "/" + f)[0]
        elif f == "out.xmf":
            d["xmf"] = open(wd + "/" + f, errors="replace").read()
    return d


def write_out(ck, c):
    o = c["opts"]
    a = need_ok(run("fv", opts({k: v for k, v in o.items() if k.startswith("h_") and k not in ("h_writes", "h_sync", "h_failat")}) + (["-h_ts", "1"] if o.get("h_mode") == "TH" else []), np_=1), "order of the mesh")
    r = run("step", opts(o), np_=c["np"], grab=written)
    t = solved(r, "run with output")
    w = r.grab
    ix = match(a.x, t.x)        # natural entry i is cell ix[i] of the run
    # the states accepted, and when
    want = {"%11.5e" % 0.0: t.vec[("init", 0)]}
    B = {int(x[1]): x for x in t.X.get("B", []) if x[0] == 0}
    E = {int(x[1]): x for x in t.X.get("E", []) if x[0] == 0}
    n = 0
    due = []
    for i in sorted(B):
        if int(E[i][2]) >= 0:
            n += 1
            if c["every"] and n % c["every"] == 0:
                due.append((float(B[i][2]) + float(B[i][3]), t.vec[("sol", i)]))
    for x in t.X["R"]:
        if x[0] == 0:
            due.append((float(x[3]), t.vec[("end", int(x[1]))]))
    names = {}
    for tm, v in due:
        k = "%11.5e" % tm
        if k in want and names.get(k, tm) != tm and abs(names[k] - tm) > 1e-12 * tm:
            raise Skip("two output times have the same name")
        names[k], want[k] = tm, v
    Sr, dof = t.field("sr"), t.dof
    fld = ["LiquidPressure", "LiquidTemperature"][:dof]
    got = {}
    if c["fmt"] == 2:
        got = {f[:-4]: v for f, v in w["txt"].items()}
    else:
        if w["h5"] is None:
            raise Fail("no HDF5 file was written")
        got = {k[len("cell_fields/"):]: v.ravel() for k, v in w["h5"].items() if k.startswith("cell_fields/")}
    eps = 1e-12 if c["fmt"] == 1 else 2e-5      # ASCII output has six digits
    for k, v in want.items():
        S = ref.sat(v[0::dof], Sr)[ix]
        if c["fmt"] == 2:
            items = [(fld[0], v.reshape(-1, dof)[ix].ravel(), eps), ("LiquidSaturation", S, max(eps, 1e-7))]
        else:
            items = [(f, v[e::dof][ix], eps) for e, f in enumerate(fld)] + [("LiquidSaturation", S, 1e-7)]
        for nm, ex, ep in items:
            g = got.get(k + "_" + nm)
            if g is None or len(g) != len(ex):
                raise Fail("%s, %d processes: %s at time %s is %s in the output" % (o["h_disc"], c["np"], nm, k, "missing" if g is None else "of length %d" % len(g)))
            q, i = worst(g, ex, ep * np.abs(ex) + 1e-300)
            ck.ev(len(ex), c["name"]); ck.count("entries_written", len(ex))
            if q > 1:
                raise Fail("%s, %d processes: %s number %d at time %s is %.10g in the output, the accepted state there has %.10g" % (o["h_disc"], c["np"], nm, i, k, g[i], ex[i]))
    extra = [k for k in got if k.rsplit("_", 1)[0] not in want]
    if extra:
        raise Fail("output for a time that is not due: %s" % extra[0])
    if c["fmt"] == 1:
        import xml.etree.ElementTree as ET
        try:
            x = ET.fromstring(w["xmf"].replace("&HeavyData;", "out.h5"))
        except (ET.ParseError, AttributeError) as e:
            raise Fail("%d processes: out.xmf is not well-formed: %s" % (c["np"], e))
        ck.count("xdmf_files")
        for el in x.iter("DataItem"):
            txt = (el.text or "").strip()
            if not txt.startswith("out.h5:/"):
                continue
            d = w["h5"].get(txt[len("out.h5:/"):])
            dim = [int(q) for q in el.get("Dimensions").split()]
            if d is None or int(np.prod(dim)) != d.size:
                raise Fail("%d processes: out.xmf refers to %s with dimensions %s, out.h5 has %s" % (c["np"], txt, dim, None if d is None else list(d.shape)))
            ck.ev(1)
        topo, corners = next(x.iter("Topology")), w["h5"]["viz/topology/cells"].shape[1]
        kind = {6: "Wedge", 8: "Hexahedron"}.get(corners)
        if topo.get("TopologyType") != kind or int(topo.get("NumberOfElements")) != a.n:
            raise Fail("%d processes: out.xmf describes %s cells of type %s, the mesh has %d of type %s" % (c["np"], topo.get("NumberOfElements"), topo.get("TopologyType"), a.n, kind))
        shown = set()
        for el in x.iter("Attribute"):
            slab = next(e for e in el.iter("DataItem") if e.get("Dimensions") == "3 3").text.split()
            if slab != ["0"] * 3 + ["1"] * 3 + ["1", str(a.n), "1"]:
                raise Fail("%d processes: out.xmf shows the part %s of %s, which has %d entries" % (c["np"], " ".join(slab), el.get("Name"), a.n))
            shown.add(el.get("Name"))
        if shown != set(got):
            raise Fail("%d processes: out.xmf shows the fields %s, out.h5 has %s" % (c["np"], sorted(shown), sorted(got)))
        cen = w["h5"]["geometry/vertices"][w["h5"]["viz/topology/cells"].astype(int)].mean(1)
        # prisms: the mean of the vertices is the centroid; perturbed hexahedra: only roughly
        if np.abs(cen - a.x).max() > 0.2 * np.min(a.vol) ** (1 / 3.) + 0.25 * (o.get("h_pert", 0) + o.get("h_zpert", 0)):
            f = Fail("%d processes: the cells of the mesh in out.h5 are in another order than the fields" % c["np"])
            f.key = "hdf5-topology-order-np%s" % (">1" if c["np"] > 1 else "1")
            raise f


def check(ck, only=None):
    cs = [only] if only else cases(ck) + io_cases(ck)
    ck.sample({"cases": len(cs), "example": cs[0].get("opts"), "io": cs[-1].get("opts")})
    ck.map(lambda c: {None: one, "in": read_in, "out": write_out}[c.get("io")](ck, c), cs)
