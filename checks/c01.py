"""No memory error or undefined behaviour: the library under AddressSanitizer and UBSan, over the other checks' workloads."""
from core import *
import gen, ref, importlib

META = dict(level="exploration",
            rule="one evaluation = one run of the instrumented library over a generated scenario that completed (or was rejected by the library) without a sanitizer report",
            assumptions=["PETSc, MPI and HDF5 are not instrumented; their allocations still carry red zones",
                         "leak detection is separate (C02)"])


def cases(ck):
    rng = ck.rng
    out = []
    def add(name, prog, o, np_, **kw):
        out.append(dict(name="%s%d" % (name, len(out)), prog=prog, opts=o, np=np_, **kw))
    n = 160 if ck.quick else 1600
    kinds = gen.PLANE + gen.WARPED
    for i in range(n):
        form = ["mpfao-snes", "fvtpf", "mpfao-ts", "th", "sal", "dae", "tv", "steady"][i % 8]
        o = gen.mesh(rng, rng.choice(kinds), nmax=3)
        if rng.random() < .3:
            o["h_n"] = [k if j != i % 3 or o.get("h_pert") or o.get("h_zpert") else 1 for j, k in enumerate(o["h_n"])]
            if o["h_n"] == [1, 1, 1]:
                o["h_n"][rng.randrange(3)] = 2
        o.update(gen.soil(rng)); o.update(gen.eos(rng)); o.update(gen.perm(rng, "iso" if form == "fvtpf" else None))
        o.update(h_nstate=2, h_dt=round(10 ** rng.uniform(0, 5), 3), h_f_P=gen.pressure(rng), h_f_Pprev=gen.pressure(rng), h_jac=1, h_diag=1)
        if rng.random() < .7:
            o["h_f_pbc"] = gen.pressure(rng)
        o["h_disc"] = "MPFA_O"; o["h_bctype"] = rng.choice(["DIRICHLET", "NEUMANN", "SEEPAGE"]) + "_BC"
        if form == "fvtpf":
            o["h_disc"] = "FV_TPF"
            if rng.random() < .7:
                o["h_f_pbct"] = "hash:0,3,%d" % gen.seed(rng); o["h_f_pbc"] = gen.pressure(rng)
        elif form == "mpfao-ts":
            o.update(h_ts=1, h_f_Pdot="hash:-10,10,%d" % gen.seed(rng))
        elif form == "th":
            o.update(h_mode="TH", h_ts=1, h_f_Pdot="hash:-10,10,%d" % gen.seed(rng), h_f_T="hash:5,60,%d" % gen.seed(rng), h_f_Tdot="hash:-1,1,%d" % gen.seed(rng),
                     h_f_txx="lhash:0.5,3,%d" % gen.seed(rng), h_f_rho="const:2600", h_f_cp="const:900", h_tstyle="iso")
            if rng.random() < .6:
                o["h_f_tbc"] = "hash:5,60,%d" % gen.seed(rng)
        elif form == "sal":
            o.update(h_mode="SALINITY", h_f_C="hash:0,0.1,%d" % gen.seed(rng), h_f_Cprev="hash:0,0.1,%d" % gen.seed(rng), h_f_dxx="const:1e-6", h_dstyle="iso", h_f_mw="const:58.44")
            if rng.random() < .6:
                o["h_f_cbc"] = "hash:0,0.1,%d" % gen.seed(rng)
        elif form == "dae":
            o.update(h_ts=1, h_disc="MPFA_O_DAE", h_f_T="hash:0,400,%d" % gen.seed(rng), h_f_Pdot="const:0", h_f_Tdot="const:0.1"); o.pop("h_jac"); o.pop("h_diag")
        elif form == "tv":
            o.update(h_ts=1, h_disc="MPFA_O_TRANSIENTVAR", h_f_Pdot="const:0.1"); o.pop("h_jac"); o.pop("h_diag")
        elif form == "steady":
            o.update(h_steady=1, h_bctype="DIRICHLET_BC"); o.pop("h_jac")
        if form not in ("fvtpf",) and rng.random() < .1:
            o["h_gmatrix"] = "MPFAO_GMATRIX_TPF"
        np_ = 1 if o.get("h_zpert") and o["h_mesh"] == "box" else gen.ranks(rng, o, (1, 1, 2, 3))
        add("F-%s-" % form, "fv", o, np_, uninit=i % 4 == 3 - (i // 8) % 4 or form in ("th", "sal"))
    c13 = importlib.import_module("checks.c13")
    for c in c13.cases(ck)[:10 if ck.quick else 60] + c13.cases(ck)[-2:]:
        add("S-", "step", dict(c["opts"], h_diag=1), c["np"])
    return out


class Shadow(Check):
    """Takes the cases which another check would run."""

    def __init__(self, pid, tier, n):
        Check.__init__(self, pid, tier)
        self.n, self.taken = n, []

    def map(self, fn, cases, workers=8):
        cases = list(cases)
        k = max(1, len(cases) // self.n)
        i = self.rng.randrange(k)
        self.taken += [(fn, c) for c in cases[i::k][:self.n + 1]]
        return [None] * len(cases)

    def violate(self, *a):
        pass


def borrowed(ck):
    """cases of the other checks"""
    out = []
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        m = re.fullmatch(r"c(\d\d)\.py", f)
        if not m or m.group(1) in ("01",) + SLOW:
            continue
        sh = Shadow("C" + m.group(1), ck.tier, 7 if ck.quick else 60)
        try:
            importlib.import_module("checks.c" + m.group(1)).check(sh)
        except BuildError:
            raise
        except Exception as e:
            ck.count("not borrowed from %s: %s" % (sh.pid, type(e).__name__))
        for i, (fn, c) in enumerate(sh.taken):
            out.append(dict(name="B-%s-%s" % (sh.pid, c.get("name")), mod=m.group(1), case=c, pat=i % 7 == 3))
    return out


SLOW = ()


def play(c, variant):
    """the results of the runs which the other check makes for its case, and whether it was satisfied"""
    sh = Shadow("C" + c["mod"], "quick", 1)
    importlib.import_module("checks.c" + c["mod"]).check(sh, only=c["case"])
    got, verdict = [], None
    for fn, x in sh.taken:
        SPY.to = (variant, got)
        try:
            fn(x)
        except BuildError:
            raise
        except (Inconclusive, Skip):
            verdict = "none"
        except Fail as e:
            verdict = "fail: " + str(e)
        except Exception as e:
            verdict = "exception: %s: %s" % (type(e).__name__, e)
        finally:
            SPY.to = None
    return got, verdict


def borrow(ck, c):
    got, v = play(c, "asan")
    for r in got:
        report(c, r)
        ck.count("processes", len(r.cmd) and (int(r.cmd[3]) if r.cmd[0] == "mpiexec" else 1))
    ck.count("runs borrowed from C" + c["mod"], len(got))
    ck.ev(len(got), c["name"])
    if c["pat"]:
        got, v = play(c, "pat")
        ck.count("uninit_cases")
        if v and v.startswith("fail"):
            _, w = play(c, "plain")
            if w is None:
                f = Fail("%s: with unwritten memory holding a pattern: %s" % (c["name"], v)); f.key = "uninit:C" + c["mod"]
                raise f


def uninit(ck, c):
    """The results must not depend on what unwritten memory happens to hold."""
    a = run(c["prog"], opts(c["opts"]), np_=c["np"])
    b = run(c["prog"], opts(c["opts"]), np_=c["np"], variant="pat", env={"MALLOC_PERTURB_": "90"})
    if a.timed_out or b.timed_out:
        raise Inconclusive("timed out")
    key = "uninit:" + c["name"].split("-")[1]
    if (a.rc == 0) != (b.rc == 0):
        f = Fail("%s: exit status %s, but %s when unwritten memory holds a pattern: %s" % (c["name"], a.rc, b.rc, why(b if b.rc else a)))
        f.key = key
        raise f
    if a.rc or a.trace is None or b.trace is None:
        return
    ta, tb = a.trace, b.trace
    if set(ta.vec) != set(tb.vec) or set(ta.mat) != set(tb.mat):
        f = Fail("%s: other results recorded when unwritten memory holds a pattern" % c["name"]); f.key = key
        raise f
    ck.count("uninit_runs")
    for k in ta.vec:
        va, vb = ta.vec[k], tb.vec[k]
        ck.count("uninit_values", len(va))
        for d in range(ta.dof if len(va) == ta.n * ta.dof else 1):
            st = ta.dof if len(va) == ta.n * ta.dof else 1
            q, i = worst(va[d::st], vb[d::st], 1e-9 * (np.abs(va[d::st]).max() if len(va) else 1) + 1e-300)
            if not q <= 1:
                f = Fail("%s: %s depends on unwritten memory: %.9g or %.9g" % (c["name"], k, va[d::st][i], vb[d::st][i])); f.key = key
                raise f
    for k in ta.mat:
        A, B = ta.dense(*k), tb.dense(*k)
        ck.count("uninit_values", A.size)
        for p_ in range(ta.dof):
            for d in range(ta.dof):
                x, y = A[p_::ta.dof, d::ta.dof], B[p_::ta.dof, d::ta.dof]
                q, i = worst(x, y, 1e-9 * np.abs(x).max() + 1e-300)
                if not q <= 1:
                    f = Fail("%s: matrix %s depends on unwritten memory: %.9g or %.9g" % (c["name"], k, x.flat[i], y.flat[i])); f.key = key
                    raise f


def report(c, r):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)|runtime error: ([^\n]*)|corrupted memory|Corrupted memory|Caught signal number \d+ (\S+)", r.out)
    # PETSc's own message about an unknown name in a list of one overruns its buffer: nothing TDycore does
    if m and m.group(1) == "heap-buffer-overflow" and re.search(r"#0 \S+ in strcpy .*\n.*#1 \S+ in PetscStrcpy .*\n.*#2 \S+ in PetscOptionsGetEList ", r.out):
        return
    if m:
        fn = re.search(r"#\d+ 0x\w+ in (\w+) /repo/(\S+)", r.out) or re.search(r"#\d+ 0x\w+ in (\w+) (\S*(?:src|include)/\S+)", r.out)
        loc = re.search(r"(\S+):(\d+):\d+: runtime error", r.out)
        what = (m.group(1) or m.group(2) or m.group(0)).strip()
        f = Fail("%s: %s in %s" % (c["name"], what, (fn.group(1) + " (" + fn.group(2) + ")") if fn else (loc.group(0) if loc else why(r))))
        f.key = "%s:%s" % ("asan" if m.group(1) else "ubsan", fn.group(1) if fn else "unknown")
        raise f


def one(ck, c):
    if "mod" in c:
        return borrow(ck, c)
    if c.get("uninit"):
        uninit(ck, c)
    r = run(c["prog"], opts(c["opts"]), np_=c["np"], variant="asan", timeout=240)
    if "HARNESS: a process has no cells" in r.out:
        raise Skip("a process has no cells")
    report(c, r)
    if r.timed_out:
        raise Inconclusive("timed out")
    ck.ev(1, c["name"])
    ck.count("runs_" + c["name"].split("-")[1] if c["name"][0] == "F" else "runs_step")
    ck.count("processes", c["np"])
    if r.rc != 0:
        ck.count("rejected_runs")


def check(ck, only=None):
    cs = [only] if only else cases(ck) + borrowed(ck)
    ck.sample({"cases": len(cs), "example": cs[0].get("opts") or cs[0]["name"]})
    ck.map(lambda c: one(ck, c), cs)
