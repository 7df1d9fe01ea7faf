"""Strategies and exact reference computations for sampling grids."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import model

ints = st.integers


def lattice_of(case):
    """Return (lattice rows, symmetry dataset or None) of a grid case."""
    from phonopy.structure.symmetry import Symmetry

    if "lat" in case:
        m = np.array(case["lat"], dtype=float) / 4.0
        return m, None
    c = model.Crystal(case["crystal"])
    from phonopy.structure.atoms import PhonopyAtoms

    cell = c.unitcell
    if c.is_conv:
        from phonopy.structure.cells import get_primitive

        cell = get_primitive(c.unitcell, c.primitive_matrix)
        cell = PhonopyAtoms(cell=cell.cell, scaled_positions=cell.scaled_positions,
                            symbols=cell.symbols)
    ds = None if case.get("nosym") else Symmetry(cell, 1e-5).dataset
    return np.array(cell.cell), ds


@st.composite
def raw_lattices(draw):
    while True:
        m = [[draw(ints(8, 20)), draw(ints(-3, 9)), draw(ints(-6, 9))],
             [draw(ints(-9, 9)), draw(ints(9, 22)), draw(ints(-3, 6))],
             [draw(ints(-6, 6)), draw(ints(-9, 9)), draw(ints(9, 26))]]
        if np.linalg.det(np.array(m) / 4.0) > 8:
            return m
        m[0][1] = m[0][2] = m[1][2] = 0
        return m


@st.composite
def gridcases(draw, raw=True, shift=False, maxn=500, names=None, tr=True, uni=2, grgmat=True):
    """Grid specification cases."""
    d = {}
    if raw and draw(ints(0, 4)) == 4:
        d["lat"] = draw(raw_lattices())
    else:
        d["crystal"] = draw(model.crystals(names=names, uni=uni))
        if draw(ints(0, 7)) == 7:
            d["nosym"] = 1
    kinds = ["mesh", "mesh", "len"]
    if "crystal" in d and not d.get("nosym"):
        kinds += ["grg", "grg"]
        if grgmat:
            kinds += ["grgmat"]
    k = draw(st.sampled_from(kinds))
    d["kind"] = k
    if k == "mesh":
        if draw(ints(0, 2)) == 0:
            n = draw(ints(1, 7))
            d["mesh"] = [n, n, n]
        else:
            d["mesh"] = [draw(ints(1, 6)) for _ in range(3)]
    elif k in ("len", "grg"):
        d["len"] = draw(ints(4, 48)) / 2.0
        if k == "grg":
            d["coord"] = draw(st.sampled_from(["reciprocal", "direct"]))
            d["snf"] = draw(ints(0, 1))
    else:
        # conventional mesh numbers multiplied on the conventional cell: any
        # multiple keeps symmetry for cubic/hexagonal axes, may break otherwise
        d["gm"] = [draw(ints(1, 5)) for _ in range(3)]
        if draw(st.booleans()):
            d["gm"] = [d["gm"][0]] * 3
        d["snf"] = draw(ints(0, 1))
    d["dense"] = draw(ints(0, 1))
    if tr:
        d["tr"] = draw(ints(0, 3)) and 1
    if shift and k == "mesh" and draw(ints(0, 2)) == 2:
        d["shift"] = [draw(ints(0, 1)) for _ in range(3)]
    return d


class TooBig(Exception):
    pass


def make_grid(case, dense=None, maxn=900):
    """Build BZGrid of a case. Returns (grid, lattice, dataset)."""
    from phono3py.phonon.grid import BZGrid

    lat, ds = lattice_of(case)
    kw = dict(lattice=lat, symmetry_dataset=ds, is_time_reversal=bool(case.get("tr", 1)),
              store_dense_gp_map=bool(case["dense"] if dense is None else dense))
    if case.get("shift") and any(case["shift"]):
        kw["is_shift"] = case["shift"]
    k = case["kind"]
    if k == "mesh":
        mesh = case["mesh"]
    elif k in ("len", "grg"):
        mesh = case["len"]
        vol = abs(np.linalg.det(lat))
        if mesh ** 3 / vol > maxn:
            mesh = (vol * maxn) ** (1.0 / 3)
    else:
        tmat = np.array(ds.transformation_matrix)
        inv = np.rint(np.linalg.inv(tmat)).astype(int)
        mesh = (inv * np.array(case["gm"])).T
    if k in ("grg", "grgmat"):
        kw["use_grg"] = True
        kw["force_SNF"] = bool(case["snf"])
        kw["SNF_coordinates"] = case.get("coord", "reciprocal")
    return BZGrid(mesh, **kw), lat, ds


def qpoints(bz):
    """Reduced q-points of all stored addresses, by the documented formula."""
    ps = np.zeros(3) if bz.PS is None else np.array(bz.PS)
    return ((2 * np.array(bz.addresses) + ps) / np.array(bz.D_diag, dtype=float) / 2) @ np.array(bz.Q).T


def intdet(m):
    m = [[int(x) for x in r] for r in np.array(m)]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def reduce_basis(b):
    """Return a short (pairwise and body-diagonal reduced) basis; b has rows."""
    b = np.array(b, dtype=float)
    for _ in range(1000):
        changed = False
        for i, j in itertools.permutations(range(3), 2):
            n = np.rint(np.dot(b[i], b[j]) / np.dot(b[j], b[j]))
            if n != 0:
                c = b[i] - n * b[j]
                if np.dot(c, c) < np.dot(b[i], b[i]) * (1 - 1e-12):
                    b[i] = c
                    changed = True
        for s in itertools.product((-1, 0, 1), repeat=3):
            v = np.dot(s, b)
            for i in range(3):
                if s[i] and np.dot(v, v) < np.dot(b[i], b[i]) * (1 - 1e-12):
                    b[i] = v * s[i]
                    changed = True
                    break
        if not changed:
            break
    return b
