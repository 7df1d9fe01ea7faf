"""C01: BZ grid completeness, BZ images and index conversions."""
import itertools

import numpy as np

from pbt import gridref
from pbt.core import Reject, Violation, require, same


def strategy(tier):
    return gridref.gridcases(shift=True)


def check(case):
    from phono3py.phonon.grid import (
        get_grid_point_from_address,
        get_grid_point_from_address_py,
    )

    try:
        bz, lat, ds = gridref.make_grid(case)
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("grid refused")
        raise
    D = np.array(bz.D_diag)
    P = np.array(bz.P)
    Q = np.array(bz.Q)
    N = int(np.prod(D))
    adrs = np.array(bz.addresses)
    require((D > 0).all(), f"D_diag not positive: {D}")
    require(abs(gridref.intdet(P)) == 1 and abs(gridref.intdet(Q)) == 1, f"P or Q not unimodular {P} {Q}")
    A = bz.grid_matrix
    k = case["kind"]
    if A is not None:
        A = np.array(A)
        same(P @ A @ Q, np.diag(D), "D = PAQ")
    else:
        A = np.diag(D)
        same(P, np.eye(3, dtype=int), "P identity without SNF")
        same(Q, np.eye(3, dtype=int), "Q identity without SNF")
    if k == "mesh":
        same(D, case["mesh"], "mesh numbers")
    if k == "grgmat":
        tm = np.rint(np.linalg.inv(np.array(ds.transformation_matrix))).astype(int)
        E = (tm * np.array(case["gm"])).T
        U = A @ np.linalg.inv(E.astype(float))
        require(N == abs(gridref.intdet(E)) and np.abs(U - np.rint(U)).max() < 1e-9,
                f"grid lattice of matrix {E.tolist()}: got {A.tolist()}")
    if k == "len" and (case.get("nosym") or "lat" in case):
        L = min(case["len"], (abs(np.linalg.det(lat)) * 900) ** (1 / 3)) \
            if case["len"] ** 3 / abs(np.linalg.det(lat)) > 900 else case["len"]
        x = np.linalg.norm(np.linalg.inv(lat), axis=0) * L
        ok = [D[i] == max(1, int(np.rint(x[i]))) or abs(x[i] % 1 - 0.5) < 1e-6 for i in range(3)]
        require(all(ok), f"length mesh: {D} for {x}")
    # documented q-points lie on the grid {q: A q integer (+shift)}
    s = np.array(case.get("shift") or [0, 0, 0]) / 2.0
    q = gridref.qpoints(bz)
    t = q @ A.T - s
    require(np.abs(t - np.rint(t)).max() < 1e-8, "stored q-point is not on the grid lattice")
    # every GR point exactly once, index <-> address
    gr = np.array([get_grid_point_from_address(a, D) for a in adrs])
    same(gr, get_grid_point_from_address(adrs, D), "array/scalar get_grid_point_from_address")
    same(gr, get_grid_point_from_address_py(adrs, D), "get_grid_point_from_address_py")
    same(gr, np.mod(adrs, D) @ [1, D[0], D[0] * D[1]], "grid index of address")
    same(bz.bzg2grg, gr, "bzg2grg")
    grg2bzg = np.array(bz.grg2bzg)
    require(grg2bzg.shape == (N,), f"grg2bzg shape {grg2bzg.shape}")
    same(np.array(bz.bzg2grg)[grg2bzg], np.arange(N), "bzg2grg[grg2bzg]")
    same(np.unique(gr), np.arange(N), "set of grid points")
    require(len(np.unique(adrs, axis=0)) == len(adrs), "duplicate address")
    same(bz.get_indices_from_addresses(adrs), grg2bzg[gr], "get_indices_from_addresses")
    i0 = len(adrs) // 2
    require(bz.get_indices_from_addresses(adrs[i0]) == grg2bzg[gr[i0]], "scalar get_indices_from_addresses")
    require(bz.gp_Gamma == grg2bzg[0], "gp_Gamma")
    require(np.abs(bz.QDinv - Q / D.astype(float)).max() < 1e-15, "QDinv")
    B = np.linalg.inv(lat)  # columns: reciprocal basis
    mz = B @ np.linalg.inv(A.astype(float))
    require(np.abs(bz.microzone_lattice - mz).max() < 1e-9 * np.abs(mz).max(), "microzone lattice")
    require(bz.store_dense_gp_map == bool(case["dense"]), "store_dense_gp_map")
    # layout
    gm = np.array(bz.gp_map)
    if case["dense"]:
        require(gm.shape == (N + 1,) and gm[0] == 0 and gm[-1] == len(adrs), "dense gp_map ends")
        for g in range(N):
            sl = gr[gm[g]:gm[g + 1]]
            require(len(sl) > 0 and (sl == g).all(), "dense gp_map slices")
    else:
        same(gr[:N], np.arange(N), "sparse layout: first N addresses")
        cnt = np.bincount(gr, minlength=N) - 1
        same(gm[8 * N:8 * N + N + 1], np.concatenate([[0], np.cumsum(cnt)]), "sparse surface counts")
        same(gr[N:], np.repeat(np.arange(N), cnt), "sparse surface ordering")
        if bz.PS is None or not np.any(bz.PS):
            d2 = np.mod(adrs, 2 * D) @ [1, 2 * D[0], 4 * D[0] * D[1]]
            if len(np.unique(d2)) == len(d2):
                same(gm[d2], np.arange(len(d2)), "sparse gp_map of double addresses")
    # shortest images, all of them
    bred = gridref.reduce_basis(B.T)  # rows
    qc = q @ B.T
    f = qc @ np.linalg.inv(bred)
    base = (f - np.rint(f)) @ bred
    G = np.array(list(itertools.product(range(-2, 3), repeat=3)), dtype=float) @ bred
    d2all = ((base[:, None, :] + G[None]) ** 2).sum(-1)
    dmin = d2all.min(1)
    d2 = (qc ** 2).sum(1)
    mzr = gridref.reduce_basis(mz.T)
    band = 0.02 * (mzr ** 2).sum(1).max()
    tight = 1e-7 * (bred ** 2).sum(1).max()
    loose = max(band, tight)
    bad = d2 > dmin + loose
    require(not bad.any(), lambda: f"stored point outside first BZ: {adrs[np.argmax(bad)]} "
            f"|q|^2={d2[np.argmax(bad)]:.6f} shortest {dmin[np.argmax(bad)]:.6f}")
    nlow = np.zeros(N, int)
    nhigh = np.zeros(N, int)
    nlow[gr] = (d2all < dmin[:, None] + tight).sum(1)
    nhigh[gr] = (d2all < dmin[:, None] + loose).sum(1)
    got = np.bincount(gr, minlength=N)
    b = (got < nlow) | (got > nhigh)
    require(not b.any(), lambda: f"number of BZ images: gp {np.argmax(b)} got {got[np.argmax(b)]} "
            f"expected {nlow[np.argmax(b)]}..{nhigh[np.argmax(b)]}")
    labels = [k, "dense" if case["dense"] else "sparse"]
    if bz.grid_matrix is not None:
        labels.append("snf")
    if len(adrs) > N:
        labels.append("surface")
    if case.get("shift") and any(case["shift"]):
        labels.append("shift")
    return dict(nontrivial=N > 1 and len(adrs) > N, labels=labels)
