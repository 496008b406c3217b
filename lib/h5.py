"""HDF5 files and PETSc binary vectors, through our own small reader and writer (harness/h5.c)."""
import os, subprocess, tempfile, struct, shutil
import numpy as np
from build import build, ENV
from core import WORK, Inconclusive


def cat(path):
    """-> ({dataset: array}, {object|attribute: int}); raises Inconclusive if the file cannot be read"""
    p = subprocess.run([build("plain")["h5"], "-cat", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    D, A = {}, {}
    lines = p.stdout.decode(errors="replace").splitlines()
    if p.returncode or not lines or lines[-1] != "END":
        raise Inconclusive("cannot read " + os.path.basename(path))
    for l in lines:
        w = l.split(" ")
        if w[0] == "A":
            k, v = l[2:].rsplit(" ", 1)
            A[k] = int(v)
        elif w[0] == "D":
            nd = int(w[2])
            dims = [int(x) for x in w[3:3 + nd]]
            D[w[1]] = np.array([float(x) for x in w[3 + nd:]]).reshape(dims)
    return D, A


def put(d):
    """{dataset: values} -> bytes of an HDF5 file"""
    os.makedirs(WORK, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="h", dir=WORK)
    try:
        with open(wd + "/s", "w") as f:
            for k, v in d.items():
                v = np.asarray(v, float)
                f.write("%s %d %s %s\n" % (k, v.ndim, " ".join(map(str, v.shape)), " ".join("%.17g" % x for x in v.ravel())))
        subprocess.run([build("plain")["h5"], "-put", wd + "/f", wd + "/s"], env=ENV, check=True, timeout=60)
        return open(wd + "/f", "rb").read()
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def petsc_vec(v):
    return struct.pack(">ii", 1211214, len(v)) + np.asarray(v, ">f8").tobytes()


def ascii_vec(path):
    out = []
    for l in open(path, errors="replace"):
        try:
            out.append(float(l.strip().replace("i", "x")))
        except ValueError:
            pass
    return np.array(out)
