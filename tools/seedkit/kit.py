"""Runs a harness program against /repo's built library and reads what it recorded."""
import os, sys, subprocess, shutil, tempfile, glob
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
PETSC = "/opt/petsc-3.17.3"
ENV = dict(os.environ, HOME="/root", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_MCA_ess_singleton_isolated="1")
REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo")
ENV["TMPDIR"] = TMP


def compile(prog="fv", extra=()):
    exe = TMP + "/" + prog
    cmd = ["mpicc", "-g", "-O1", "-w", "-I" + REPO + "/include", "-I" + PETSC + "/include", "-I/usr/include/hdf5/openmpi", "-I" + HERE, HERE + "/" + prog + ".c", HERE + "/common.c",
           ] + sorted(glob.glob(REPO + "/arch-default/obj/src/**/*.o", recursive=True)) + ["-L" + PETSC + "/lib", "-Wl,-rpath," + PETSC + "/lib", "-lpetsc",
           "-lmpi", "-lm", "-lmpi_mpifh", "-lgfortran", "-llapack", "-lblas", "-lhdf5_openmpi", "-o", exe] + list(extra)
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        sys.exit(90)
    return exe


class Trace:
    pass


def run(exe, o, np_=1, timeout=120, ok=True):
    wd = tempfile.mkdtemp(dir=TMP)
    a = []
    for k, v in o.items():
        a.append("-" + k)
        if v is not None:
            a.append(",".join(str(x) for x in v) if isinstance(v, (list, tuple)) else str(v))
    cmd = (["mpiexec", "--oversubscribe", "-n", str(np_)] if np_ > 1 else []) + [exe] + a + ["-h_out", "trace", "-no_signal_handler"]
    p = subprocess.run(cmd, cwd=wd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    t = Trace()
    t.rc, t.out, t.wd, t.X = p.returncode, p.stdout.decode(errors="replace"), wd, []
    if ok and p.returncode:
        print(t.out[-3000:])
        print("the program failed")
        sys.exit(1)
    cells, V, M = {}, {}, {}
    t.dof = 1
    for r in range(np_):
        f = "%s/trace.%d" % (wd, r)
        if not os.path.exists(f):
            continue
        for line in open(f):
            w = line.split()
            if not w:
                continue
            if w[0] == "N":
                t.dof = max(t.dof, int(w[3]))
            elif w[0] == "C" and w[2] == "1":
                cells[int(w[3])] = [float(x) for x in w[4:8]]
            elif w[0] == "V":
                V.setdefault((w[1], int(w[2])), {})[int(w[3])] = [float(x) for x in w[4:]]
            elif w[0] == "M":
                d = M.setdefault((w[1], int(w[2])), {})
                for q in w[3:]:
                    i, j, v = q.split(":")
                    d[int(i), int(j)] = float(v)
            elif len(w) > 2:
                t.X.append(w)
    k = sorted(cells)
    g = np.array([cells[i] for i in k]) if k else np.zeros((0, 4))
    # cells in a fixed order, whatever their numbering
    t.order = np.lexsort(np.round(g[:, :3], 7).T) if k else []
    t.x, t.vol = g[t.order, :3], g[t.order, 3]
    t.v = {}
    for n, d in V.items():
        a = np.concatenate([np.array(d[s]) for s in sorted(d)])
        t.v[n] = a.reshape(-1, t.dof)[t.order] if len(a) == len(k) * t.dof else a
    t.m = {}
    N = len(k) * t.dof
    for n, d in M.items():
        L = max([N] + [1 + max(q) for q in d]); A = np.zeros((L, L))
        for (i, j), v in d.items():
            A[i, j] += v
        j = (np.array(t.order)[:, None] * t.dof + np.arange(t.dof)).ravel()
        t.m[n] = A[np.ix_(j, j)]
    return t


def done(bad, text):
    shutil.rmtree(TMP, ignore_errors=True)
    print(text)
    sys.exit(1 if bad else 0)
