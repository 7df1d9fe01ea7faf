"""Crystals and an anharmonic force field with exactly known derivatives.

V = sum_{bonds} [k/2 d^2 + c/6 d^3] + sum_i [b/2 rho_i^2 + a/6 rho_i^3]

with d = |r_ij| - r0_ij (r0 the bond length in the ideal crystal) and
rho_i = sum_j w_ij d_ij.  The coefficients depend on species and bond length
only, so every symmetry of the crystal is a symmetry of V; forces vanish in
the ideal crystal; second derivatives are positive semi-definite for k, b >= 0.
"""
import itertools

import numpy as np
from hypothesis import strategies as st
from phonopy.structure.atoms import PhonopyAtoms

# ----------------------------------------------------------------- lattices
_F = np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]])
_I = np.array([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]])


def _diag(a, b, c):
    return np.diag([float(a), float(b), float(c)])


def _hex(a, c):
    return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]], dtype=float)


def _rhomb(a, c):
    h = _hex(a, c)
    t = np.array([[2, 1, 1], [-1, 1, 1], [-1, -2, 1]]) / 3.0
    return t @ h


# name -> function(u) -> (primitive lattice rows, fractional positions, species, conv)
# conv: None or matrix C with conventional lattice rows = C @ primitive rows.
def _t_sc(u):
    return _diag(3 + u[0], 3 + u[0], 3 + u[0]), [[0, 0, 0]], "A", None


def _t_fcc(u):
    return _F * (4.2 + u[0]), [[0, 0, 0]], "A", np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])


def _t_bcc(u):
    return _I * (3.2 + u[0]), [[0, 0, 0]], "A", np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])


def _t_cscl(u):
    a = 3.5 + u[0]
    return _diag(a, a, a), [[0, 0, 0], [0.5] * 3], "AB", None


def _t_rocksalt(u):
    return (_F * (5 + u[0]), [[0, 0, 0], [0.5] * 3], "AB",
            np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]))


def _t_zb(u):
    return (_F * (5.2 + u[0]), [[0, 0, 0], [0.25] * 3], "AB",
            np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]))


def _t_diamond(u):
    return (_F * (5.2 + u[0]), [[0, 0, 0], [0.25] * 3], "AA",
            np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]))


def _t_hcp(u):
    return (_hex(3 + u[0], 4.9 + u[1]), [[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]], "AA", None)


def _t_simplehex(u):
    return _hex(3 + u[0], 3.3 + u[1]), [[0, 0, 0]], "A", None


def _t_wurtzite(u):
    z = 0.375 + 0.03 * (u[2] - 0.4)
    return (_hex(3.1 + 0.5 * u[0], 5 + 0.5 * u[1]),
            [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, z], [2 / 3, 1 / 3, z + 0.5]],
            "AABB", None)


def _t_rhomb1(u):
    return _rhomb(3.2 + u[0], 9.0 + 2 * u[1]), [[0, 0, 0]], "A", np.array(
        [[1, -1, 0], [0, 1, -1], [1, 1, 1]])


def _t_rhomb2(u):
    z = 0.47 - 0.03 * u[2]
    return _rhomb(4.0 + u[0], 10.0 + u[1]), [[0, 0, 0], [z, z, z]], "AB", np.array(
        [[1, -1, 0], [0, 1, -1], [1, 1, 1]])


def _t_l10(u):
    return (_diag(2.8 + u[0] / 2, 2.8 + u[0] / 2, 3.7 + u[1]), [[0, 0, 0], [0.5] * 3], "AB", None)


def _t_tet1(u):
    a = 3.0 + u[0]
    return _diag(a, a, a + 0.35 + u[1]), [[0, 0, 0]], "A", None


def _t_bct(u):
    lat = np.dot(_I, _diag(3.2 + u[0], 3.2 + u[0], 4.1 + u[1] + u[0]))
    return lat, [[0, 0, 0]], "A", np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])


def _t_ortho1(u):
    return _diag(3.0 + 0.4 * u[0], 3.55 + 0.4 * u[1], 4.1 + 0.5 * u[2]), [[0, 0, 0]], "A", None


def _t_ortho2(u):
    return (_diag(3.0 + 0.4 * u[0], 3.55 + 0.4 * u[1], 4.6 + 0.5 * u[2]),
            [[0, 0, 0], [0.5, 0.5, 0.42 + 0.05 * u[3]]], "AB", None)


def _t_mono(u):
    b = np.deg2rad(98 + 8 * u[3])
    lat = np.array([[3.2 + 0.4 * u[0], 0, 0], [0, 3.7 + 0.4 * u[1], 0],
                    [(4.4 + u[2]) * np.cos(b), 0, (4.4 + u[2]) * np.sin(b)]])
    return lat, [[0, 0, 0], [0.46, 0.5, 0.44 + 0.03 * u[4]]], "AB", None


def _t_mono1(u):
    b = np.deg2rad(97 + 8 * u[3])
    lat = np.array([[3.0 + 0.4 * u[0], 0, 0], [0, 3.6 + 0.4 * u[1], 0],
                    [(4.2 + u[2]) * np.cos(b), 0, (4.2 + u[2]) * np.sin(b)]])
    return lat, [[0, 0, 0]], "A", None


def _tri_lat(u):
    return np.array([[3.1 + 0.4 * u[0], 0, 0],
                     [0.4 + 0.3 * u[1], 3.6 + 0.4 * u[2], 0],
                     [-0.5 - 0.3 * u[3], 0.35 + 0.2 * u[4], 4.2 + 0.6 * u[5]]])


def _t_tric1(u):
    return _tri_lat(u), [[0, 0, 0]], "A", None


def _t_tric2(u):
    return _tri_lat(u), [[0, 0, 0], [0.47, 0.44 + 0.04 * u[0], 0.52]], "AB", None


def _t_p121(u):
    x = 0.24 + 0.03 * u[2]
    return (_hex(4.4 + 0.5 * u[0], 5.6 + 0.6 * u[1]),
            [[x, 0, 1 / 3], [0, x, 2 / 3], [-x, -x, 0]], "AAA", None)


def _t_perov(u):  # 5 atoms cubic
    a = 3.8 + 0.5 * u[0]
    return (_diag(a, a, a), [[0, 0, 0], [0.5] * 3, [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
            "ABCCC", None)


def _t_tetp(u):  # polar tetragonal 2 atoms (P4mm)
    a = 3.2 + u[0]
    return _diag(a, a, a + 0.4 + u[1]), [[0, 0, 0], [0.5, 0.5, 0.45 - 0.03 * u[2]]], "AB", None


def _t_c3(u):  # P3 (3-fold axis only): hexagonal with 3 general atoms of one kind + 1
    x, y, z = 0.31, 0.07 + 0.04 * u[2], 0.06
    return (_hex(4.2 + 0.4 * u[0], 4.0 + 0.5 * u[1]),
            [[x, y, z], [-y, x - y, z], [y - x, -x, z], [0, 0, 0.5]], "AAAB", None)


TEMPLATES = {k[3:]: v for k, v in list(globals().items()) if k.startswith("_t_")}
ONE = ["sc", "fcc", "bcc", "simplehex", "rhomb1", "tet1", "bct", "ortho1", "mono1", "tric1"]
TWO = ["cscl", "rocksalt", "zb", "diamond", "hcp", "rhomb2", "l10", "ortho2", "mono", "tric2", "tetp"]
MORE = ["wurtzite", "p121", "c3"]
SYMBOLS = [("Si", "C", "O"), ("Na", "Cl", "O"), ("Mg", "O", "F"), ("Ga", "N", "O"), ("Zn", "S", "O"),
           ("Ge", "Te", "O"), ("Ti", "B", "N"), ("K", "Br", "F")]
UNI = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]


# ------------------------------------------------------------- force field
class ForceField:
    """Coefficients as functions of species and bond length."""

    def __init__(self, p):
        # p: dict of small ints
        self.k0 = 3.0 + 0.5 * p.get("k", 0)
        self.c0 = -4.0 - 2.0 * p.get("c", 0)
        self.b0 = 0.25 * p.get("b", 1)
        self.a0 = 1.0 * p.get("a", 1)
        self.neg = p.get("neg", 0)
        self.rc = p.get("rc", 210) / 100.0
        self.rw = 1.35

    def pair(self, zi, zj, r, d0):
        """Return k, c of bonds; r/d0 is the bond length over nearest distance."""
        x = r / d0
        s = np.exp(-1.6 * (x - 1.0))
        fac = 1.0 + 0.25 * np.sin(0.7 * (zi + zj)) + 0.15 * np.cos(1.3 * zi * zj)
        k = self.k0 * s * fac
        if self.neg:
            k = k * np.where(x > 1.2, -0.55 * self.neg, 1.0)
        c = self.c0 * s * (1.0 + 0.2 * np.cos(0.9 * (zi + zj)))
        return k, c

    def site(self, zi):
        """Return b, a of an atom."""
        return (self.b0 * (1.0 + 0.3 * np.sin(1.1 * zi)), self.a0 * (1.0 + 0.4 * np.cos(0.6 * zi)))


def nearest(lat, pos):
    """Return nearest-neighbour distance of a crystal."""
    p = pos - np.floor(pos)
    # A cell is at most moderately skewed here; use reciprocal bounds.
    rec = np.linalg.inv(lat)
    best = min(np.linalg.norm(lat, axis=1))
    n = [int(np.ceil(best * np.linalg.norm(rec[:, i]))) + 1 for i in range(3)]
    T = np.array(list(itertools.product(*[range(-m, m + 1) for m in n])), dtype=float)
    d = (p[None, :, None, :] - p[:, None, None, :] + T[None, None]) @ lat
    r = np.sqrt((d ** 2).sum(-1))
    return float(r[r > 1e-3].min())


def bonds(lat, pos, rcut):
    """Return arrays i, j, vector for all ordered bonds shorter than rcut."""
    p = pos - np.floor(pos)
    rec = np.linalg.inv(lat)
    n = [int(np.ceil(rcut * np.linalg.norm(rec[:, i]))) + 1 for i in range(3)]
    T = np.array(list(itertools.product(*[range(-m, m + 1) for m in n])), dtype=float)
    TT = T @ lat
    ii, jj, vv = [], [], []
    c = p @ lat
    for i in range(len(p)):
        d = c[:, None, :] - c[i] + TT[None]
        r2 = (d ** 2).sum(-1)
        jx, tx = np.nonzero((r2 < rcut ** 2) & (r2 > 1e-6))
        ii.append(np.full(len(jx), i))
        jj.append(jx)
        vv.append(d[jx, tx])
    return np.concatenate(ii), np.concatenate(jj), np.concatenate(vv)


class Potential:
    """Force field applied to one periodic cell."""

    def __init__(self, cell, ff, d0):
        lat = np.array(cell.cell)
        pos = np.array(cell.scaled_positions)
        z = np.array(cell.numbers, dtype=float)
        self.n = len(pos)
        self.ff = ff
        i, j, v = bonds(lat, pos, ff.rc * d0)
        self.i, self.j, self.v = i, j, v
        self.r = np.sqrt((v ** 2).sum(1))
        self.k, self.c = ff.pair(z[i], z[j], self.r, d0)
        self.k = self.k * self._cut(self.r, ff.rc * d0)
        self.c = self.c * self._cut(self.r, ff.rc * d0)
        w = np.clip(1.0 - self.r / (ff.rw * d0), 0, None)
        self.w = w * (1 + 0.1 * np.sin(z[j])) * 2
        self.b, self.a = ff.site(z)

    @staticmethod
    def _cut(r, rc):
        return np.clip(1.0 - (r / rc) ** 2, 0, None) ** 2

    def energy(self, u, strain=None):
        """Energy of displaced (and homogeneously strained) crystal."""
        return self._eval(u, strain)[0]

    def forces(self, u, strain=None):
        """Forces of displaced crystal."""
        return self._eval(u, strain)[1]

    def _eval(self, u, strain=None):
        v0 = self.v if strain is None else self.v @ (np.eye(3) + strain).T
        v = v0 + u[self.j] - u[self.i]
        r = np.sqrt((v ** 2).sum(1))
        d = r - self.r
        nvec = v / r[:, None]
        rho = np.bincount(self.i, self.w * d, minlength=self.n)
        e = 0.5 * np.sum(0.5 * self.k * d ** 2 + self.c / 6 * d ** 3) + np.sum(
            0.5 * self.b * rho ** 2 + self.a / 6 * rho ** 3)
        g = 0.5 * (self.k * d + 0.5 * self.c * d ** 2)
        drho = self.b * rho + 0.5 * self.a * rho ** 2
        g = g + drho[self.i] * self.w
        f = np.zeros((self.n, 3))
        for x in range(3):
            t = g * nvec[:, x]
            f[:, x] += np.bincount(self.i, t, minlength=self.n)
            f[:, x] -= np.bincount(self.j, t, minlength=self.n)
        return e, f

    def fc2(self):
        """Second derivatives, shape (n, n, 3, 3)."""
        n = self.n
        fc = np.zeros((n, n, 3, 3))
        nv = self.v / self.r[:, None]
        K = 0.5 * self.k[:, None, None] * nv[:, :, None] * nv[:, None, :]
        i, j = self.i, self.j
        np.add.at(fc, (i, i), K)
        np.add.at(fc, (j, j), K)
        np.add.at(fc, (i, j), -K)
        np.add.at(fc, (j, i), -K)
        for s in range(n):
            at, g, _ = self._site(s)
            if len(at) == 0:
                continue
            G = self.b[s] * np.einsum("ax,by->abxy", g, g)
            fc[np.ix_(at, at)] += G
        return fc

    def _site(self, s):
        """Return unique atoms, gradient of rho_s and hessian of rho_s."""
        sel = np.nonzero((self.i == s) & (self.w > 0))[0]
        at = np.unique(np.concatenate([[s], self.j[sel]])) if len(sel) else np.array([], int)
        m = {a: x for x, a in enumerate(at)}
        g = np.zeros((len(at), 3))
        h = np.zeros((len(at), len(at), 3, 3))
        for q in sel:
            nv = self.v[q] / self.r[q]
            P = self.w[q] * (np.eye(3) - np.outer(nv, nv)) / self.r[q]
            a, b = m[s], m[self.j[q]]
            g[a] -= self.w[q] * nv
            g[b] += self.w[q] * nv
            h[a, a] += P
            h[b, b] += P
            h[a, b] -= P
            h[b, a] -= P
        return at, g, h

    def fc3(self):
        """Third derivatives, shape (n, n, n, 3, 3, 3)."""
        n = self.n
        fc = np.zeros((n, n, n, 3, 3, 3))
        nv = self.v / self.r[:, None]
        P = (np.eye(3)[None] - nv[:, :, None] * nv[:, None, :]) / self.r[:, None, None]
        t = np.einsum("ax,ayz->axyz", nv, P)
        t = t + t.transpose(0, 2, 1, 3) + t.transpose(0, 2, 3, 1)
        T = 0.5 * (self.c[:, None, None, None] * np.einsum("ax,ay,az->axyz", nv, nv, nv)
                   + self.k[:, None, None, None] * t)
        for x, y, z in itertools.product((0, 1), repeat=3):
            ix = (self.j if x else self.i, self.j if y else self.i, self.j if z else self.i)
            sg = (-1) ** (3 - x - y - z)
            np.add.at(fc, ix, sg * T)
        for s in range(n):
            at, g, h = self._site(s)
            if len(at) == 0:
                continue
            A = self.a[s] * np.einsum("ax,by,cz->abcxyz", g, g, g)
            H = np.einsum("ax,bcyz->abcxyz", g, h)
            H = H + H.transpose(1, 0, 2, 4, 3, 5) + H.transpose(1, 2, 0, 4, 5, 3)
            fc[np.ix_(at, at, at)] += A + self.b[s] * H
        return fc


# ------------------------------------------------------------------ crystal
def rotation(q):
    """Rotation matrix of an integer quaternion."""
    q = np.array(q, dtype=float)
    if not q.any():
        q = np.array([1.0, 0, 0, 0])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def unimodular(ops):
    """Product of elementary row operations."""
    m = np.eye(3, dtype=int)
    for o, s in ops:
        i, j = UNI[o]
        m[i] = m[i] + s * m[j]
    return m


class Crystal:
    """Crystal built from a JSON descriptor."""

    def __init__(self, d):
        self.d = d
        u = [x / 8.0 for x in d.get("u", [])] + [0.0] * 6
        lat, pos, sp, conv = TEMPLATES[d["t"]](u)
        pos = np.array(pos, dtype=float)
        self.d0 = nearest(lat, pos)
        names = SYMBOLS[d.get("sym", 0) % len(SYMBOLS)]
        sym = [names["ABC".index(s)] for s in sp]
        self.prim_lat0, self.prim_pos0, self.prim_sym = lat, pos, sym
        view = d.get("view", {})
        # primitive cell, basis change
        U = unimodular(view.get("uni", []))
        R = rotation(view.get("rot", [1, 0, 0, 0]))
        shift = np.array(view.get("shift", [0, 0, 0]), dtype=float) / 12.0
        self.R, self.U = R, U
        if view.get("conv") and conv is not None:
            C = np.array(conv, dtype=float)
            clat = C @ lat
            det = int(round(abs(np.linalg.det(C))))
            T = np.array(list(itertools.product(range(-2, 3), repeat=3)), dtype=float)
            cp, cs = [], []
            for p, s in zip(pos, sym):
                f = (p + T) @ np.linalg.inv(C)
                f = f - np.floor(f + 1e-9)
                f = f[np.unique(np.round(f, 9), axis=0, return_index=True)[1]]
                assert len(f) == det, (len(f), det)
                # exact positions
                cp += list(f)
                cs += [s] * det
            self.primitive_matrix = np.linalg.inv(C).T  # columns = primitive in conv basis
            ulat, upos, usym = clat, np.array(cp), cs
            self.is_conv = True
        else:
            ulat = U @ lat
            upos = pos @ np.linalg.inv(U.astype(float))
            usym = list(sym)
            self.primitive_matrix = None
            self.is_conv = False
        upos = upos + (shift @ lat) @ np.linalg.inv(ulat)
        if view.get("perm"):
            order = np.random.RandomState(view["perm"]).permutation(len(usym))
            upos = upos[order]
            usym = [usym[i] for i in order]
        if view.get("wrap"):
            upos = upos + np.random.RandomState(view["wrap"]).randint(-1, 2, upos.shape)
        ulat = ulat @ R.T
        self.unitcell = PhonopyAtoms(cell=ulat, scaled_positions=upos, symbols=usym)
        self.ff = ForceField(d.get("ff", {}))
        self.supercell_matrix = self._scm(d.get("sc", [2, 2, 2]))
        self.phonon_supercell_matrix = self._scm(d["psc"]) if d.get("psc") else None

    @staticmethod
    def _scm(sc):
        a = np.array(sc, dtype=int)
        return np.diag(a) if a.ndim == 1 else a

    def potential(self, cell):
        """Potential of this force field in a (super)cell of the crystal."""
        return Potential(cell, self.ff, self.d0)

    def born(self, primitive):
        """Born charges and dielectric constant symmetric under the crystal's group."""
        pos = np.array(primitive.scaled_positions)
        lat = np.array(primitive.cell)
        z = np.array(primitive.numbers, dtype=float)
        i, j, v = bonds(lat, pos, 1.5 * self.d0)
        r = np.sqrt((v ** 2).sum(1))
        nn = (v / r[:, None])[:, :, None] * (v / r[:, None])[:, None, :]
        w = np.exp(-r / self.d0) * (1 + 0.3 * np.sin(z[j]))
        n = len(pos)
        q = np.array([1.5 * np.sin(1.7 * zz) for zz in z])
        born = np.zeros((n, 3, 3))
        eps = 3.0 * np.eye(3)
        for a in range(n):
            t = (w[i == a][:, None, None] * nn[i == a]).sum(0)
            born[a] = q[a] * (np.eye(3) + 0.5 * t)
            eps += 0.4 * t
        born -= born.mean(0)
        return {"born": born, "dielectric": eps, "factor": 14.4}


def phono3py_obj(crystal, primitive_matrix="model", is_symmetry=True, is_mesh_symmetry=True, nac=False,
                 fc=True, compact=False, psc=None, symprec=1e-5, **kw):
    """Create a Phono3py object with exact force constants of the model."""
    from phono3py import Phono3py

    pm = crystal.primitive_matrix if isinstance(primitive_matrix, str) and \
        primitive_matrix == "model" else primitive_matrix
    ph = Phono3py(crystal.unitcell, supercell_matrix=crystal.supercell_matrix, primitive_matrix=pm,
                  phonon_supercell_matrix=crystal.phonon_supercell_matrix if psc is None else psc,
                  is_symmetry=is_symmetry, is_mesh_symmetry=is_mesh_symmetry, log_level=0,
                  symprec=symprec, **kw)
    if nac:
        ph.nac_params = crystal.born(ph.primitive)
    if fc:
        set_fc(ph, crystal, compact)
    return ph


def set_fc(ph, crystal, compact=False, fc2=True, fc3=True):
    """Give exact force constants to a Phono3py object."""
    if fc3:
        f3 = crystal.potential(ph.supercell).fc3()
        if compact:
            f3 = np.array(f3[ph.primitive.p2s_map], order="C")
        ph.fc3 = f3
    if fc2:
        f2 = crystal.potential(ph.phonon_supercell).fc2()
        if compact:
            f2 = np.array(f2[ph.phonon_primitive.p2s_map], order="C")
        ph.fc2 = f2


def set_mesh(ph, mesh):
    """Set mesh numbers; a mesh refused for breaking the crystal symmetry rejects the case."""
    from pbt.core import Reject

    try:
        ph.mesh_numbers = mesh
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("mesh breaks the symmetry and was refused")
        raise


# ---------------------------------------------------------------- strategies
ints = st.integers


@st.composite
def ffs(draw, neg=False):
    d = dict(k=draw(ints(0, 4)), c=draw(ints(0, 4)), b=draw(ints(0, 4)), a=draw(ints(0, 4)))
    if neg and draw(ints(0, 3)) == 3:
        d["neg"] = draw(ints(1, 2))
    return d


@st.composite
def views(draw, conv=True, rot=True, uni=2, shift=True, wrap=False):
    v = {}
    if rot and draw(st.booleans()):
        v["rot"] = [draw(ints(0, 3)) for _ in range(4)]
        if not any(v["rot"]):
            v["rot"] = [1, 0, 0, 0]
    if uni:
        n = draw(ints(0, uni))
        if n:
            v["uni"] = [[draw(ints(0, 5)), draw(st.sampled_from([1, -1]))] for _ in range(n)]
    if conv and draw(ints(0, 3)) == 3:
        v["conv"] = 1
    if shift and draw(st.booleans()):
        v["shift"] = [draw(ints(0, 11)) for _ in range(3)]
    if draw(st.booleans()):
        v["perm"] = draw(ints(0, 20))
    if wrap and draw(ints(0, 3)) == 3:
        v["wrap"] = draw(ints(1, 20))
    return v


@st.composite
def crystals(draw, names=None, neg=False, conv=True, uni=2, max_atoms=None, psc=False, wrap=False,
             sc="sym", size=32):
    """Crystal descriptors.

    sc: "sym" symmetry-preserving multiples, "any" also anisotropic or
    non-diagonal supercells.
    """
    t = draw(st.sampled_from(names or (ONE + TWO + MORE)))
    d = dict(t=t, u=[draw(ints(0, 8)) for _ in range(6)], sym=draw(ints(0, 7)),
             ff=draw(ffs(neg=neg)), view=draw(views(conv=conv, uni=uni, wrap=wrap)))
    d["sc"] = draw(supercells(t, d["view"], sc, size))
    if psc and draw(ints(0, 2)) == 2:
        d["psc"] = draw(supercells(t, d["view"], "sym", size * 2))
    return d


NATOM = {t: len(TEMPLATES[t]([0.0] * 6)[1]) for t in TEMPLATES}
HEXL = ("hcp", "simplehex", "wurtzite", "p121", "c3")
TETL = ("l10", "tet1", "tetp")
LOWL = ("ortho1", "ortho2", "mono", "mono1", "tric1", "tric2")


def ncell(t, view):
    """Number of atoms of the unit cell of a descriptor."""
    n = NATOM[t]
    if view.get("conv"):
        c = TEMPLATES[t]([0.0] * 6)[3]
        if c is not None:
            n *= int(round(abs(np.linalg.det(c))))
    return n


@st.composite
def supercells(draw, t, view, kind="sym", size=32):
    """Supercell multiplicities that fit in size atoms."""
    n = ncell(t, view)
    plain = not view.get("uni")
    opts = [[1, 1, 1], [2, 2, 2], [3, 3, 3]]
    if plain and t in HEXL + TETL:
        opts += [[2, 2, 1], [3, 3, 1], [3, 3, 2], [1, 1, 2]]
    if t in LOWL and (plain or t.startswith("tric")):
        opts += [[2, 1, 1], [1, 2, 2], [3, 2, 1], [2, 2, 1], [2, 1, 3]]
    if kind == "any":
        opts += [[2, 1, 1], [1, 2, 3], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
                 [[1, 1, 0], [0, 1, 1], [1, 0, 1]]]
    if not view.get("uni") and not view.get("conv") and TEMPLATES[t]([0.0] * 6)[3] is not None:
        c = TEMPLATES[t]([0.0] * 6)[3]
        # symmetric conventional supercell; phonopy uses columns: lattice rows = M.T @ rows
        opts.append([list(map(int, r)) for r in c.T])

    def cnt(o):
        o = np.array(o)
        return n * (int(np.prod(o)) if o.ndim == 1 else int(round(abs(np.linalg.det(o)))))

    ok = [o for o in opts if cnt(o) <= size]
    if n == 1 and len(ok) > 1:  # a lone atom has no force constants at all
        ok = [o for o in ok if o != [1, 1, 1]]
    ok.sort(key=lambda o: abs(cnt(o) - min(size, 16)))
    return draw(st.sampled_from(ok or [[1, 1, 1]]))


def smallmesh(draw, lo=1, hi=4):
    """Draw mesh numbers."""
    return [draw(ints(lo, hi)) for _ in range(3)]


def smallmesh_of(draw, lo=1, hi=4):
    """Mesh numbers drawn inside another strategy."""
    return [draw(ints(lo, hi)) for _ in range(3)]


@st.composite
def grids(draw, crystal, lo=1, hi=4, length=22):
    """Grid specification that usually keeps the crystal's symmetry."""
    k = draw(st.sampled_from(["iso", "iso", "axis", "grg", "any"]))
    if k == "grg":
        return dict(kind="grg", len=draw(ints(6, length)) / 2.0)
    if k == "any" or crystal["t"] in LOWL:
        return dict(kind="mesh", mesh=[draw(ints(lo, hi)) for _ in range(3)])
    a = draw(ints(min(lo + 1, hi), hi))
    m = [a] * 3
    if k == "axis" and crystal["t"] in HEXL + TETL:
        m[2] = draw(ints(lo, hi))
    return dict(kind="iso", mesh=m)


def apply_grid(ph, case, limit=60):
    """Set the grid of a case (generalized grids limited to about limit points)."""
    if case["kind"] == "grg":
        set_mesh(ph, min(case["len"], (ph.primitive.volume * limit) ** (1.0 / 3)))
    else:
        set_mesh(ph, case["mesh"])
