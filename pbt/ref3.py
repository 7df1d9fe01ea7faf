"""Independent three-phonon quantities (no phono3py code)."""
import numpy as np

from pbt import gridref, phonons

HBAR = 1.054571817e-34
KB = 1.380649e-23
KBEV = 8.617333262e-5  # eV/K
EV = phonons.EV
AMU = phonons.AMU
THZEV = 4.135667696e-3  # h * THz in eV


def strength_unit(n):
    """Factor to eV^2: hbar^3/(8 m^3 w^3) (1/3!)^2 / n with eV/A^3, AMU, THz."""
    return HBAR ** 3 / 8 / 36 / n * (EV / 1e-30) ** 2 / AMU ** 3 / (2e12 * np.pi) ** 3 / EV ** 2


class FC3Transform:
    """Fourier transform of full fc3 with explicit shortest vectors."""

    def __init__(self, supercell, primitive, fc3):
        self.p2s = [int(x) for x in primitive.p2s_map]
        s2p = [int(x) for x in primitive.s2p_map]
        self.np, self.ns = len(self.p2s), len(s2p)
        m = np.zeros((self.ns, self.np))
        for j, s in enumerate(s2p):
            m[j, self.p2s.index(s)] = 1
        self.m = m
        self.rec = np.linalg.inv(np.array(primitive.cell))
        sv = phonons.shortest(np.array(supercell.cell), np.array(supercell.scaled_positions), frm=self.p2s)
        self.sv = sv
        # vectors between primitive atoms (any fixed image)
        self.pos = (np.array(supercell.scaled_positions) @ np.array(supercell.cell))[self.p2s]
        self.fc3 = fc3  # (ns or np, ns, ns, 3, 3, 3)
        self.rows = self.p2s if fc3.shape[0] == self.ns else list(range(self.np))
        self.ims = np.sqrt(1.0 / np.repeat(np.array(primitive.masses, dtype=float), 3))

    def phases(self, q):
        """Average phase of images: [reference primitive atom][supercell atom]."""
        k = 2j * np.pi * (self.rec @ q)
        return np.array([[np.exp(v @ k).mean() for v in row] for row in self.sv])

    def leg(self, ref, q1, q2):
        """Sum with the first index in the home cell; q1, q2 of the second and third index."""
        p1, p2 = self.phases(q1), self.phases(q2)
        out = np.zeros((self.np,) * 3 + (3, 3, 3), dtype=complex)
        for a in range(self.np):
            x = np.einsum("jkxyz,kc->jcxyz", self.fc3[self.rows[a]], p2[a][:, None] * self.m)
            out[a] = np.einsum("jcxyz,jb->bcxyz", x, p1[a][:, None] * self.m)
            out[a] *= np.exp(2j * np.pi * (self.pos[a] @ (self.rec @ ref)))
        return out

    def transform(self, q, average=False):
        """Transform, shape (3n, 3n, 3n)."""
        s = q[0] + q[1] + q[2]
        n3 = self.np * 3
        t = self.leg(s, q[1], q[2])
        if average:
            # second (third) atom in the home cell; first index of fc3 is the atom in the home cell
            u = self.leg(s, q[0], q[2])  # b, a, c; y, x, z
            v = self.leg(s, q[1], q[0])  # c, b, a; z, y, x
            t = (t + u.transpose(1, 0, 2, 4, 3, 5) + v.transpose(2, 1, 0, 5, 4, 3)) / 3
        return t.transpose(0, 3, 1, 4, 2, 5).reshape(n3, n3, n3)

    def strength(self, q, freqs, vecs, cutoff, average=False, symq=False):
        """|V|^2 without unit factor, shape (3n, 3n, 3n)."""
        import itertools

        out = 0
        for p in (itertools.permutations(range(3)) if symq else [(0, 1, 2)]):
            t = self.transform([q[i] for i in p], average)
            e = [vecs[i] * self.ims[:, None] for i in p]
            v = np.einsum("abc,ax->xbc", t, e[0])
            v = np.einsum("xbc,by->xyc", v, e[1])
            v = np.einsum("xyc,cz->xyz", v, e[2])
            out = out + np.transpose(np.abs(v) ** 2, np.argsort(p))
        if symq:
            out = out / 6
        f = [np.where(x > cutoff, x, np.inf) for x in freqs]
        return out / f[0][:, None, None] / f[1][None, :, None] / f[2][None, None, :]


def bose(f, t):
    """Occupation of frequencies (THz)."""
    if t < 1e-5:
        return np.zeros(np.shape(f))
    return 1.0 / np.expm1(np.maximum(np.array(f, dtype=float), 1e-10) * THZEV / (KBEV * t))


def qpoints(bz):
    return gridref.qpoints(bz)
