"""Independent harmonic lattice dynamics (no phono3py / phonopy code)."""
import itertools

import numpy as np

from pbt import gridref

AMU = 1.66053906660e-27
EV = 1.602176634e-19
THZ = np.sqrt(EV / AMU) / 1e-10 / 2 / np.pi / 1e12  # sqrt(eV/Angstrom^2/AMU) -> THz


def shortest(lat_super, pos_super, tol=1e-5, frm=None):
    """Shortest images of supercell atoms j seen from atoms i (Cartesian).

    Returns list over frm of list over j of arrays (n, 3).
    """
    b = gridref.reduce_basis(lat_super)
    inv = np.linalg.inv(b)
    c = np.array(pos_super) @ lat_super
    T = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))) @ b
    out = []
    for i in (range(len(c)) if frm is None else frm):
        row = []
        for j in range(len(c)):
            d = c[j] - c[i]
            d = d - np.rint(d @ inv) @ b
            v = d + T
            r = np.sqrt((v ** 2).sum(1))
            row.append(v[r < r.min() + tol])
        out.append(row)
    return out


class Harmonic:
    """Dynamical matrix from full supercell force constants.

    The primitive atoms are p2s; s2p gives for every supercell atom its
    primitive atom (supercell index).
    """

    def __init__(self, supercell, primitive, fc2, nac=None):
        self.masses = np.array(primitive.masses, dtype=float)
        self.p2s = list(map(int, primitive.p2s_map))
        s2p = list(map(int, primitive.s2p_map))
        self.map = [self.p2s.index(x) for x in s2p]
        self.plat = np.array(primitive.cell)
        lat = np.array(supercell.cell)
        sv = shortest(lat, np.array(supercell.scaled_positions), frm=self.p2s)
        self.terms = []
        n = len(self.p2s)
        self.nat = n
        self.fc = fc2
        vec, wt, ii, jj, blk = [], [], [], [], []
        for a, row in enumerate(sv):
            for j, v in enumerate(row):
                for x in v:
                    vec.append(x)
                    wt.append(1.0 / len(v))
                    ii.append(a)
                    jj.append(self.map[j])
                    blk.append(fc2[self.p2s[a], j])
        self.vec = np.array(vec)
        self.wt = np.array(wt)
        self.ij = np.array(ii) * n + np.array(jj)
        self.blk = np.array(blk)
        self.nac = nac
        self.ncell = len(s2p) / n
        self.ms = np.sqrt(np.outer(self.masses, self.masses))

    def dynmat(self, qs, qdir=None, nac="wang"):
        """Dynamical matrices at reduced q-points (n, 3); qdir reduced direction at q=0."""
        qs = np.atleast_2d(np.array(qs, dtype=float))
        rec = np.linalg.inv(self.plat)  # columns are reciprocal basis vectors
        ph = np.exp(2j * np.pi * (qs @ rec.T) @ self.vec.T) * self.wt
        n = self.nat
        out = np.zeros((len(qs), n, n, 3, 3), dtype=complex)
        for p in range(n * n):
            s = self.ij == p
            B = np.einsum("qt,txy->qxy", ph[:, s], self.blk[s])
            if self.nac is not None:
                cs = np.array([self._charge(q, qdir)[p // n, p % n] for q in qs]) / self.ncell
                B = B + ph[:, s].sum(1)[:, None, None] * cs
            out[:, p // n, p % n] = B / self.ms[p // n, p % n]
        out = out.transpose(0, 1, 3, 2, 4).reshape(len(qs), 3 * n, 3 * n)
        return (out + out.conj().transpose(0, 2, 1)) / 2

    def _charge(self, q, qdir):
        n = self.nat
        rec = np.linalg.inv(self.plat)
        x = rec @ q
        if np.linalg.norm(x) < 1e-12:
            if qdir is None:
                return np.zeros((n, n, 3, 3))
            x = rec @ np.array(qdir, dtype=float)
        z = np.array(self.nac["born"])
        eps = np.array(self.nac["dielectric"])
        vol = abs(np.linalg.det(self.plat))
        qz = np.einsum("x,axy->ay", x, z)
        f = self.nac["factor"] * 4 * np.pi / vol / (x @ eps @ x)
        return f * np.einsum("ax,by->abxy", qz, qz)

    def frequencies(self, qs, qdir=None, factor=THZ):
        """Frequencies and eigenvectors."""
        w, v = np.linalg.eigh(self.dynmat(qs, qdir))
        return np.sign(w) * np.sqrt(np.abs(w)) * factor, v
