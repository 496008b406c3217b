"""Running harness programs, reading their recorded traces, and reporting verdicts."""
import json, os, sys, time, shutil, subprocess, tempfile, hashlib, random, re, threading, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed
import numpy as np
from build import build, BuildError, ENV, VERIF, REPO

WORK = os.path.join(VERIF, "work")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Fail(Exception):
    """The oracle saw the property broken."""

    def __init__(self, text, key=None):
        Exception.__init__(self, text)
        if key:
            self.key = key


class Inconclusive(Exception):
    """The run gave no verdict (harness trouble)."""


# ------------------------------------------------------------------ traces
class Trace:
    """One run's recorded trace, merged over ranks.  Cells are indexed by global cell number."""

    def __init__(self, path, np_):
        self.done = 0
        self.dof = 1
        cells, faces, L, V, M, X = {}, {}, {}, {}, {}, {}
        self.local = []
        for r in range(np_):
            p = "%s.%d" % (path, r)
            if not os.path.exists(p):
                continue
            with open(p, errors="replace") as f:
                for line in f:
                    w = line.split()
                    if not w:
                        continue
                    k = w[0]
                    if k == "N":
                        self.dof = max(self.dof, int(w[3]))
                        self.local.append((int(w[1]), int(w[2])))
                    elif k == "C":
                        if w[2] == "1":
                            cells[int(w[3])] = [float(x) for x in w[4:8]]
                    elif k == "F":
                        o = (int(w[2]), int(w[3]))
                        faces.setdefault((min(o), max(o)) + ((round(float(w[8]), 9), round(float(w[9]), 9), round(float(w[10]), 9)) if min(o) < 0 else ()),
                                         [o] + [float(x) for x in w[4:15]] + [int(w[15])])
                    elif k == "L":
                        d = L.setdefault((w[1], int(w[2])), {})
                        for t in w[3:]:
                            a, b = t.split(":")
                            d[int(a)] = float(b)
                    elif k == "V":
                        V.setdefault((w[1], int(w[2])), {})[int(w[3])] = [float(x) for x in w[4:]]
                    elif k == "M":
                        d = M.setdefault((w[1], int(w[2])), {})
                        for t in w[3:]:
                            i, j, v = t.split(":")
                            d[(int(i), int(j))] = float(v)
                    elif k == "X":
                        X.setdefault(w[1], []).append([r] + w[2:])
                    elif k == "DONE":
                        self.done += 1
        self.complete = self.done == np_
        self.X = X
        n = len(cells)
        self.n = n
        key = sorted(cells)
        self.goff = np.array(key, int)
        self.cell_of = {g: i for i, g in enumerate(key)}
        a = np.array([cells[k] for k in key]) if n else np.zeros((0, 4))
        self.x = a[:, :3]
        self.vol = a[:, 3]
        self.fld = {k: np.array([d[g] for g in key]) for k, d in L.items()}
        self.vec, self.parts = {}, {}      # parts: length on each process
        for k, d in V.items():
            self.parts[k] = [len(d[s]) for s in sorted(d)]
            self.vec[k] = np.concatenate([np.array(d[s]) for s in sorted(d)]) if d else np.zeros(0)
        self.mat = M
        self.faces = []
        for f in faces.values():
            o = f[0]
            c = [self.cell_of.get(q, -1) if q >= 0 else -1 for q in o]
            fa = dict(c=c, area=f[1], n=np.array(f[2:5]), x=np.array(f[5:8]), pbc=f[8], vbc=f[9], tbc=f[10], cbc=f[11], pbct=f[12])
            self.faces.append(fa)

    def cell(self, name, state=0, comp=0):
        """Component comp of a prognostic vector, by cell."""
        v = self.vec[(name, state)]
        return v[comp::self.dof]

    def field(self, name, default=None, state=0):
        if (name, state) in self.fld:
            return self.fld[(name, state)]
        return None if default is None else np.full(self.n, float(default))

    def dense(self, name, state=0):
        N = self.n * self.dof
        A = np.zeros((N, N))
        for (i, j), v in self.mat[(name, state)].items():
            A[i, j] += v
        return A


class Result:
    def __init__(self, rc, out, trace, wd, wall, cmd, timed_out=False):
        self.rc, self.out, self.trace, self.wd, self.wall, self.cmd = rc, out, trace, wd, wall, cmd
        self.timed_out = timed_out

    @property
    def crashed(self):
        return self.rc != 0 or self.timed_out


ASAN_OPTIONS = "detect_leaks=0:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77:handle_abort=0:handle_segv=1:allow_user_segv_handler=0"
UBSAN_OPTIONS = "print_stacktrace=1:halt_on_error=1"


class Slots:
    """Processes running at a time: ranks of one run busy-wait on each other, so oversubscription is slow."""

    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        k = min(k, 8)
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
        return k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


SLOTS = Slots(8)


def session(sid):
    """the processes of a session of ours (mpiexec puts its children in process groups of their own)"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                w = open("/proc/%s/stat" % d).read().rpartition(")")[2].split()
            except OSError:
                continue
            if w[3] == str(sid):
                out.append(int(d))
    return out


def runproc(cmd, cwd, env, timeout):
    """Runs in its own session; everything it started is ended with it."""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        for _ in range(3):
            for q in session(p.pid):
                try:
                    os.kill(q, 9)
                except OSError:
                    pass
        out, _ = p.communicate()
        to = True
    return p.returncode, out.decode(errors="replace"), to, time.time() - t0


SPY = threading.local()     # .to: (variant, list of results) while another check's case runs for C01


def run(prog, args, np_=1, variant="plain", files=None, keep=False, timeout=None, env=None, wd=None, progs=None, wrap=None, trace=True, grab=None):
    spy = getattr(SPY, "to", None)
    if spy and variant == "plain" and not progs:
        variant = spy[0]
        if variant == "pat":
            env = dict(env or {}, MALLOC_PERTURB_="90")
        if timeout is not None:
            timeout *= 3
    exe = (progs or build(variant))[prog]
    own = wd is None
    if own:
        os.makedirs(WORK, exist_ok=True)
        wd = tempfile.mkdtemp(prefix="r", dir=WORK)
    try:
        for n, b in (files or {}).items():
            with open(os.path.join(wd, n), "wb") as f:
                f.write(b if isinstance(b, bytes) else b.encode())
        e = dict(ENV)
        # private session directories, so that nothing collides or is left in /tmp
        e["TMPDIR"] = wd
        e["OMPI_MCA_orte_tmpdir_base"] = wd
        e["PMIX_MCA_gds"] = "hash"
        cmd = []
        if np_ > 1:
            cmd = ["mpiexec", "--oversubscribe", "-n", str(np_)]
        else:
            e["OMPI_MCA_ess_singleton_isolated"] = "1"
        if variant == "asan":
            e["ASAN_OPTIONS"] = ASAN_OPTIONS
            e["UBSAN_OPTIONS"] = UBSAN_OPTIONS
            args = list(args) + ["-malloc_debug", "0"]
        e.update(env or {})
        cmd += (wrap or []) + [exe] + [str(a) for a in args] + ["-h_out", "trace", "-no_signal_handler"]
        if timeout is None:
            timeout = 120 if variant == "plain" else 240
        k = SLOTS.take(np_)
        try:
            rc, out, to, wall = runproc(cmd, wd, e, timeout)
        finally:
            SLOTS.give(k)
        tr = None
        if trace:
            try:
                tr = Trace(os.path.join(wd, "trace"), np_)
            except (ValueError, IndexError, KeyError):
                tr = None
        res = Result(rc, out, tr, wd if keep or not own else None, wall, cmd, to)
        res.files = sorted(os.listdir(wd))
        if spy:
            spy[1].append(res)
        res.grab = grab(wd) if grab else None       # reads what the run wrote before the directory goes
        return res
    finally:
        if own and not keep:
            shutil.rmtree(wd, ignore_errors=True)


def opts(d):
    """{'h_n': '3,3,2', 'snes_x': None} -> argument list"""
    a = []
    for k, v in d.items():
        a.append("-" + k)
        if v is not None:
            if isinstance(v, (list, tuple, np.ndarray)):
                v = ",".join(("%d" % t) if isinstance(t, (int, np.integer)) else ("%.17g" % t) for t in v)
            elif isinstance(v, float):
                v = "%.17g" % v
            a.append(str(v))
    return a


def why(res):
    t = [l for l in res.out.splitlines() if l.strip()]
    pick = [l for l in t if re.search(r"ERROR|runtime error|Signal|Sanitizer|Assert|abort|free\(\)|corrupt", l)]
    return "; ".join((pick or t)[:4])[:600]


class Skip(Exception):
    """The generated case is outside what the library supports."""


def need_ok(res, what="run"):
    if "HARNESS: a process has no cells" in res.out:
        raise Skip("a process has no cells")
    if res.timed_out:
        raise Inconclusive("%s timed out" % what)
    if res.rc != 0 or res.trace is None or not res.trace.complete:
        raise Fail("%s: the program failed (exit %s): %s" % (what, res.rc, why(res)))
    return res.trace


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, tier, level="exploration", rule="", assumptions=()):
        self.pid, self.tier, self.seed = pid, tier, SEED
        self.level, self.rule, self.assumptions = level, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.viol = []      # (key, text, replay dict)
        self.known_hit = []
        self.notes = []
        self.inconclusive = []
        self.lock = threading.Lock()
        try:
            self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
        except OSError:
            self.known = []
        self.rng = random.Random("%s-%s-%s" % (pid, tier, self.seed))

    @property
    def quick(self):
        return self.tier == "quick"

    def count(self, what, n=1):
        with self.lock:
            self.counts[what] = self.counts.get(what, 0) + n

    def ev(self, n=1, *keys):
        with self.lock:
            self.evals += n
            for k in keys:
                self.distinct.add(k)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def violate(self, key, text, replay):
        with self.lock:
            for k in self.known:
                if re.fullmatch(k["key"], key):
                    if k["key"] not in [x["key"] for x in self.known_hit]:
                        self.known_hit.append(k)
                    return
            self.viol.append((key, text, replay))

    def map(self, fn, cases, workers=8):
        """fn(case) for each case; a case is a dict with a 'name'. Fail -> violation, Inconclusive -> rerun once."""
        def one(c):
            for attempt in (0, 1):
                try:
                    return fn(c)
                except Inconclusive as e:
                    if attempt:
                        with self.lock:
                            self.inconclusive.append("%s: %s" % (c.get("name"), e))
                except Skip as e:
                    self.count("skipped: " + str(e))
                    return None
                except Fail as e:
                    key = getattr(e, "key", None) or c.get("key") or c.get("name", "case")
                    self.violate(key, str(e), c)
                    return None
                except BuildError:
                    raise
                except Exception as e:      # what the run recorded does not make sense
                    traceback.print_exc()
                    self.violate("exception:" + c.get("name", "case"), "the record of the run could not be evaluated: %s: %s" % (type(e).__name__, e), c)
                    return None
            return None
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(one, cases))

    def finish(self):
        rep = None
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (key, text, case) in enumerate(self.viol[:20]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(dict(property=self.pid, key=key, what=text, case=case), f, indent=1, default=str)
                rep = rep or p
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                 coverage=dict(evaluations=int(self.evals), distinct_nontrivial=len(self.distinct), rule=self.rule,
                               samples=self.samples or ["none"], observed=self.counts,
                               inconclusive=self.inconclusive[:20],
                               known_findings_seen=[k["key"] for k in self.known_hit]),
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                 violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(d, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for k in self.known:
            # a listed finding is listed whether or not this tier's workload reached it
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for key, text, _ in self.viol[:20]:
            print("  [%s] %s" % (key, text))
        for t in self.inconclusive[:10]:
            print("  (inconclusive) " + t)
        print("%s %s: %d evaluations, %d distinct, %s, %.1fs" % (self.pid, self.tier, self.evals, len(self.distinct), self.counts, time.time() - self.t0))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        return 0


# ------------------------------------------------------------------ numerics
def close(a, b, rtol, scale):
    """max |a-b| / (rtol*scale) with NaN counted as infinite."""
    a, b, scale = np.asarray(a, float), np.asarray(b, float), np.asarray(scale, float)
    d = np.abs(a - b)
    d = np.where(np.isnan(d), np.inf, d)
    with np.errstate(divide="ignore", invalid="ignore"):
        q = np.where(d == 0, 0.0, d / (rtol * scale))
    return float(np.max(q)) if q.size else 0.0


def match(xa, xb):
    """idx with xb[idx] == xa (cells of two runs matched by their centroids)."""
    from scipy.spatial import cKDTree
    if len(xa) != len(xb):
        raise Fail("the runs have different numbers of cells: %d and %d" % (len(xa), len(xb)))
    d, i = cKDTree(xb).query(xa)
    ext = np.max(xa.max(0) - xa.min(0)) + 1e-300
    if len(set(i.tolist())) != len(i) or np.max(d) > 1e-7 * ext:
        raise Fail("the cells of the two runs do not coincide (largest distance %.3g)" % np.max(d))
    return i


def worst(a, b, scale):
    """largest |a-b|/scale, NaN counting as infinite"""
    d = np.abs(np.asarray(a, float) - np.asarray(b, float))
    d = np.where(np.isnan(d), np.inf, d)
    with np.errstate(divide="ignore", invalid="ignore"):
        q = np.where(d == 0, 0.0, d / scale)
    return (float(q.max()), int(q.argmax())) if q.size else (0.0, -1)


def same_system(ck, what, a, b, ix, s, rtol=1e-9, jac=True):
    """residual and Jacobian of state s of two runs agree, cell ix[i] of b being cell i of a"""
    dof = a.dof
    N = a.n * dof
    A, B = a.dense("J", s) if jac else np.zeros((N, N)), None
    jx = (ix[:, None] * dof + np.arange(dof)).ravel()
    for d in range(dof):
        F, G = a.cell("F", s, d), b.cell("F", s, d)[ix]
        # size of the terms of a residual row
        sc = np.abs(F) + np.abs(F).max()
        if jac:
            for e in range(dof):
                sc = sc + np.abs(A[d::dof, e::dof]).dot(np.abs(a.cell("U", s, e)))
        q, i = worst(F, G, rtol * sc)
        ck.count("residuals_compared", a.n)
        if q > 1:
            raise Fail("%s: residual (field %d) at cell %s is %.12g, expected %.12g" % (what, d, a.x[i].round(3), G[i], F[i]))
    if jac:
        B = b.dense("J", s)[np.ix_(jx, jx)]
        sc = (1e-4 if dof > 1 else 100 * rtol) * np.abs(A) + 1e-2 * rtol * np.abs(A).max(1)[:, None]
        for p_ in range(dof):       # rounding of cancelled terms, by kind of entry
            for d in range(dof):
                sc[p_::dof, d::dof] += 0.1 * rtol * np.abs(A[p_::dof, d::dof]).max()
        q, i = worst(A, B, sc + 1e-300)
        ck.count("jacobian_entries", int((A != 0).sum()))
        if q > 1:
            i, j = divmod(i, N)
            raise Fail("%s: Jacobian entry of cells %s, %s is %.9g, expected %.9g" % (what, a.x[i // dof].round(3), a.x[j // dof].round(3), B[i, j], A[i, j]))
