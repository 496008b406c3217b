"""Independent reference model of the flow physics, in numpy, and TPFA residuals from recorded meshes."""
import numpy as np

PREF, TREF = 101325.0, 25.0
VG_M, VG_A = 0.8, 1e-4
G = 9.8068


def sat(P, Sr, m=VG_M, a=VG_A):
    """van Genuchten (m, alpha): saturation of liquid at pressure P."""
    P, Sr = np.asarray(P, float), np.asarray(Sr, float)
    pc = np.maximum(PREF - P, 0.0)
    n = 1.0 / (1.0 - m)
    se = (1.0 + (a * pc) ** n) ** (-m)
    return Sr + (1.0 - Sr) * se


def dsat(P, Sr, m=VG_M, a=VG_A):
    P, Sr = np.asarray(P, float), np.asarray(Sr, float)
    pc = np.maximum(PREF - P, 1e-300)
    n = 1.0 / (1.0 - m)
    x = (a * pc) ** n
    d = m * n * x / pc * (1.0 + x) ** (-m - 1.0)
    return np.where(PREF - P > 0, (1 - Sr) * d, 0.0)


def kr_se(se, m=VG_M, x1=0.99, x2=1.0):
    """Mualem, cubic Hermite between x1 and x2 = 1."""
    se = np.asarray(se, float)
    def f(s):
        s = np.clip(s, 0, 1)
        return np.sqrt(s) * (1 - (1 - s ** (1 / m)) ** m) ** 2
    f1 = f(x1)
    u = 1 - x1 ** (1 / m)
    d1 = 0.5 * f1 / x1 + 2 * np.sqrt(x1) * (1 - u ** m) * u ** (m - 1) * x1 ** (1 / m - 1)
    t = (se - x1) / (x2 - x1)
    h = x2 - x1
    herm = f1 * (2 * t ** 3 - 3 * t ** 2 + 1) + d1 * h * (t ** 3 - 2 * t ** 2 + t) + (-2 * t ** 3 + 3 * t ** 2)
    return np.where(se > x1, herm, f(se))


def kr(P, Sr, m=VG_M, a=VG_A):
    S = sat(P, Sr, m, a)
    return kr_se((S - Sr) / (1 - Sr), m)


def rho_const(P, T=TREF, s=0.0):
    return np.full_like(np.asarray(P, float), 998.0)


def rho_exp(P, T=TREF, s=0.0):
    P = np.asarray(P, float)
    return 997.16 * np.exp(1e-8 * np.maximum(P - PREF, 0.0))


def rho_bw(P, T=TREF, s=0.0):
    """Batzle and Wang (1992), eqs. 27a and 27b; P in Pa, T in C, s a mass fraction."""
    p = np.asarray(P, float) * 1e-6
    T = np.asarray(T, float)
    s = np.asarray(s, float)
    w = 1 + 1e-6 * (-80 * T - 3.3 * T ** 2 + 0.00175 * T ** 3 + 489 * p - 2 * T * p + 0.016 * T ** 2 * p
                    - 1.3e-5 * T ** 3 * p - 0.333 * p ** 2 - 0.002 * T * p ** 2)
    b = w + s * (0.668 + 0.44 * s + 1e-6 * (300 * p - 2400 * p * s + T * (80 + 3 * T - 3300 * s - 13 * p + 47 * p * s)))
    return 1000.0 * b


def mu_const(P, T=TREF, s=0.0):
    return np.full_like(np.asarray(P, float), 9.94e-4)


def mu_bw(P, T=TREF, s=0.0):
    s = np.asarray(s, float)
    T = np.asarray(T, float)
    v = 0.1 + 0.333 * s + (1.65 + 91.9 * s ** 3) * np.exp(-(0.42 * (s ** 0.8 - 0.17) ** 2 + 0.045) * T ** 0.8)
    return 1e-3 * v + 0.0 * np.asarray(P, float)


RHO = {"constant": rho_const, "exponential": rho_exp, "batzle_and_wang": rho_bw}
MU = {"constant": mu_const, "batzle_and_wang": mu_bw}


def mass(P, poro, Sr, vol, rho=rho_const, m=VG_M, a=VG_A):
    return rho(P) * poro * sat(P, Sr, m, a) * vol


def tpfa(t, P, K, Sr, rho=rho_const, mu=mu_const, g=G, bc="DIRICHLET", scheme="mpfao", pbc=True,
         m=VG_M, a=VG_A, face_type=None):
    """Mass fluxes out of every cell, by the two-point formula, on a recorded mesh.

    K: function (cell index array, unit vector) -> directional permeability n.K n.
    Returns (net outflow per cell, per face list of (faces, flux up->dn), scale).
    """
    out = np.zeros(t.n)
    scale = np.zeros(t.n)
    rec = []
    for f in t.faces:
        c0, c1 = f["c"]
        x = f["x"]
        if c0 >= 0 and c1 >= 0:
            d = t.x[c1] - t.x[c0]
            L = np.linalg.norm(d)
            u = d / L
            A = f["area"] * abs(np.dot(f["n"], u))
            # distances along the line between the centroids, to where it crosses the plane of the face
            nu = np.dot(f["n"], u)
            d0, d1 = np.dot(x - t.x[c0], f["n"]) / nu, np.dot(t.x[c1] - x, f["n"]) / nu
            k0, k1 = K(c0, u), K(c1, u)
            T = A * k0 * k1 / (d0 * k1 + d1 * k0)
            r0, r1 = float(rho(P[c0])), float(rho(P[c1]))
            if scheme == "mpfao":
                ra = 0.5 * (r0 + r1)
            else:
                w = d1 / (d0 + d1)
                ra = w * r0 + (1 - w) * r1
            dphi = P[c0] - P[c1] - ra * g * d[2]
            up = c0 if dphi >= 0 else c1
            q = ra * T * float(kr(P[up], Sr[up], m, a) / mu(P[up])) * dphi
            out[c0] += q
            out[c1] -= q
            s = ra * T / 9.94e-4 * (abs(P[c0] - P[c1]) + ra * g * abs(d[2]))
            if scheme == "fvtpf" and max(kr(P[c0], Sr[c0], m, a), kr(P[c1], Sr[c1], m, a)) < 1.01e-8:
                s += abs(q) * 1e12      # the scheme drops fluxes between cells with relative permeability under 1e-8
            scale[c0] += s
            scale[c1] += s
            rec.append((c0, c1, q, s))
        else:
            c = c0 if c0 >= 0 else c1
            ty = bc if face_type is None else face_type(f)
            if ty == "NEUMANN":
                continue
            d = t.x[c] - x
            n = f["n"]
            if scheme == "fvtpf":
                d = n * np.dot(d, n)    # along the normal of the face
            u = d / np.linalg.norm(d)
            A = f["area"] * abs(np.dot(n, u))
            Kc = K(c, u)
            T = A * Kc / np.linalg.norm(d)
            Pb = f["pbc"] if pbc else P[c]
            rb, rc = float(rho(PREF)), float(rho(P[c]))
            ra = 0.5 * (rb + rc) if scheme == "mpfao" else rb
            dphi = Pb - P[c] - ra * g * d[2]
            if dphi > 0 and ty == "SEEPAGE" and Pb <= PREF:
                continue
            if dphi >= 0:
                mob = float(kr(Pb, Sr[c], m, a) / mu(Pb))
            else:
                mob = float(kr(P[c], Sr[c], m, a) / mu(P[c]))
            q = ra * T * mob * dphi
            out[c] -= q
            s = ra * T / 9.94e-4 * (abs(Pb - P[c]) + ra * g * abs(d[2]))
            if scheme == "fvtpf" and max(kr(P[c], Sr[c], m, a), kr(Pb, Sr[c], m, a)) < 1.01e-8:
                s += abs(q) * 1e12
            scale[c] += s
            rec.append((-1, c, q, s))
    return out, scale, rec


def linear_fluxes(t, qof, P, Sr, rho=998.0, mu=9.94e-4, bc=False, m=VG_M, a=VG_A):
    """Exact mass outflow of every cell where K grad P = -q(x) at the faces (no gravity), upwinded per face.
    bc: count boundary faces (at the pressure of their centroid) or not."""
    krs = kr(P, Sr, m, a)
    out, scale, bnd = np.zeros(t.n), np.zeros(t.n), np.zeros(t.n, bool)
    for f in t.faces:
        c0, c1 = f["c"]
        q = qof(f["x"])
        s = np.linalg.norm(q) * rho / mu
        v = f["area"] * np.dot(q, f["n"])
        if c0 >= 0 and c1 >= 0:
            if np.dot(f["n"], t.x[c1] - t.x[c0]) < 0:
                v = -v
            w = rho * v * krs[c0 if v >= 0 else c1] / mu
            out[c0] += w
            out[c1] -= w
            kk = max(krs[c0], krs[c1])
            scale[c0] += s * f["area"] * kk
            scale[c1] += s * f["area"] * kk
        else:
            c = max(c0, c1)
            bnd[c] = True
            if bc:
                if np.dot(f["n"], f["x"] - t.x[c]) < 0:
                    v = -v
                kb = float(kr(f["pbc"], Sr[c], m, a))
                out[c] += rho * v * (krs[c] if v >= 0 else kb) / mu
                scale[c] += s * f["area"] * max(krs[c], kb)
    return out, scale, bnd
