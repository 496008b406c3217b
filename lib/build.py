"""Builds TDycore (from /repo's working tree) and the harness programs, cached by content hash.

Nothing of /repo's own build products is used: every object is compiled here,
into /verif/build/<variant>-<hash>/ (git-ignored).
"""
import glob, hashlib, os, subprocess, sys, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PETSC = "/opt/petsc-3.17.3"

ENV = dict(os.environ)
ENV.update(HOME="/root", PETSC_DIR=PETSC,
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8")
for k in ("PETSC_ARCH", "TDYCORE_DIR", "MAKEFLAGS", "MAKELEVEL", "PETSC_OPTIONS"):
    ENV.pop(k, None)

INC = ["-I%s/include" % PETSC, "-I/usr/include/hdf5/openmpi", "-I/usr/include"]
LIBS = ["-Wl,-rpath,%s/lib" % PETSC, "-L%s/lib" % PETSC,
        "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi",
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib/fortran/gfortran",
        "-L/usr/lib/x86_64-linux-gnu/openmpi/lib/fortran/gfortran",
        "-lpetsc", "-llapack", "-lblas", "-lhdf5_hl", "-lhdf5", "-lparmetis", "-lmetis",
        "-lm", "-lz", "-lstdc++", "-ldl", "-lmpi_usempif08", "-lmpi_usempi_ignore_tkr",
        "-lmpi_mpifh", "-lmpi", "-lgfortran", "-lm", "-lquadmath"]
VARIANTS = {
    "plain": ["-g", "-O1"],
    "asan": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vla-bound"],
    # every automatic variable starts out as 0xFE bytes; with MALLOC_PERTURB_ so does the heap
    "pat": ["-g", "-O1", "-ftrivial-auto-var-init=pattern"],
}
# The tree's own source selection (gmakefile): these wildcards.
CGLOBS = ["src/fv/share/*.c", "src/fv/mpfao/*.c", "src/fv/fvtpf/*.c", "src/fe/*.c",
          "src/materials/*.c", "src/*.c", "src/f90-mod/*.c"]


# link-time interposition of PETSc calls (not of TDycore's own functions)
WRAP = {"step": ["-Wl,--wrap=SNESSolve"]}


class BuildError(Exception):
    pass


def repo_files():
    fs = []
    for root in ("src", "include"):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            if d.startswith(os.path.join(REPO, "src/tests")):
                continue
            for f in fn:
                if f.endswith((".c", ".h", ".F90", ".cxx")):
                    fs.append(os.path.join(d, f))
    return sorted(fs)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Progs(dict):
    out = None

    def __missing__(self, p):
        try:
            raise BuildError(open("%s/%s.err" % (self.out, p)).read())
        except OSError:
            raise BuildError("no program " + p)


_cache = {}


def build(variant="plain", fortran=False):
    """Returns {program name: path}; one static TDycore per variant and all of harness/*.c."""
    key = (variant, fortran)
    if key in _cache:
        return _cache[key]
    flags = VARIANTS[variant]
    hs = sorted(glob.glob(VERIF + "/harness/*.[ch]") + glob.glob(VERIF + "/harness/*.F90"))
    tag = digest(repo_files() + hs + [os.path.abspath(__file__)], " ".join(flags) + str(fortran))
    name = variant + ("-f" if fortran else "")
    out = os.path.join(BUILD, "%s-%s" % (name, tag))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(out, "done")):
            for old in glob.glob(os.path.join(BUILD, name + "-*")):
                # only our own variant's older trees
                if os.path.isdir(old) and len(os.path.basename(old)) == len(name) + 17 \
                        and time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp + "/obj")
            os.makedirs(tmp + "/mod")
            srcs = []
            for g in CGLOBS:
                srcs += sorted(glob.glob(os.path.join(REPO, g)))
            inc = ["-I%s/include" % REPO] + INC
            jobs, objs = [], []
            for s in srcs:
                o = tmp + "/obj/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
                objs.append(o)
                jobs.append(["mpicc"] + flags + ["-w"] + inc + ["-c", s, "-o", o])
            hsrc = [h for h in hs if h.endswith(".c")]
            hobjs, hjobs = {}, {}
            for s in hsrc:
                o = tmp + "/obj/h_" + os.path.basename(s) + ".o"
                hobjs[os.path.basename(s)[:-2]] = o
                hjobs[os.path.basename(s)[:-2]] = ["mpicc"] + flags + ["-Wall", "-Wno-unused"] + inc + ["-I%s/harness" % VERIF, "-c", s, "-o", o]
            failed = {}

            def hcomp(p):
                # a harness program that no longer compiles fails only the checks that need it
                try:
                    sh(hjobs[p])
                except BuildError as e:
                    failed[p] = str(e)
            with ThreadPoolExecutor(8) as ex:
                f1 = [ex.submit(sh, j) for j in jobs]
                f2 = [ex.submit(hcomp, p) for p in hjobs]
                for f in f1 + f2:
                    f.result()
            if "common" in failed:
                raise BuildError(failed["common"])
            for p, e in failed.items():
                hobjs.pop(p)
                with open(tmp + "/%s.err" % p, "w") as fh:
                    fh.write(e)
            if fortran:
                for s in sorted(glob.glob(REPO + "/src/f90-mod/*.F90")):
                    o = tmp + "/obj/" + os.path.basename(s) + ".o"
                    objs.append(o)
                    sh(["mpif90", "-g", "-O1", "-w", "-ffree-line-length-none"] + inc +
                       ["-J", tmp + "/mod", "-c", s, "-o", o])
            lib = tmp + "/libtdy.a"
            sh(["ar", "rcs", lib] + objs)
            common = hobjs.pop("common")
            link = {p: ["mpicc"] + flags + [o, common, lib] + WRAP.get(p, []) + LIBS + ["-o", tmp + "/" + p]
                    for p, o in hobjs.items()}
            if fortran:
                for s in [h for h in hs if h.endswith(".F90")]:
                    p = os.path.basename(s)[:-4]
                    o = tmp + "/obj/h_%s.F90.o" % p
                    try:
                        sh(["mpif90", "-g", "-O1", "-w", "-ffree-line-length-none"] + inc +
                           ["-I", tmp + "/mod", "-J", tmp + "/mod", "-c", s, "-o", o])
                    except BuildError as e:
                        with open(tmp + "/%s.err" % p, "w") as fh:
                            fh.write(str(e))
                        continue
                    link[p] = (["mpif90"] + [x for x in flags if x != "-w"] + [o, common, lib] + LIBS + ["-o", tmp + "/" + p])

            def hlink(p):
                try:
                    sh(link[p])
                except BuildError as e:
                    with open(tmp + "/%s.err" % p, "w") as fh:
                        fh.write(str(e))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(hlink, link))
            shutil.rmtree(tmp + "/obj")
            open(tmp + "/done", "w").write(tag)
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    progs = Progs({os.path.basename(p): p for p in glob.glob(out + "/*") if os.access(p, os.X_OK) and os.path.isfile(p)})
    progs.out = out
    _cache[key] = progs
    return progs


if __name__ == "__main__":
    t = time.time()
    for v in (sys.argv[1:] or ["plain", "asan"]):
        v, _, f = v.partition("+")
        print(v, sorted(build(v, fortran=bool(f))), "%.1fs" % (time.time() - t))
