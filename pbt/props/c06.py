"""C06: displacement data sets."""
import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model
from pbt.core import Reject, close, require, same

ints = st.integers


@st.composite
def strategy_(draw):
    size = draw(st.sampled_from([4, 8, 12, 18]))
    d = dict(crystal=draw(model.crystals(sc="any", size=size, psc=True, wrap=True)))
    d["sym"] = draw(ints(0, 5)) and 1
    d["kind"] = draw(st.sampled_from(["sys", "sys", "sys", "rand"]))
    if draw(st.booleans()):
        d["dist"] = draw(ints(1, 20)) / 100.0
    d["pm"] = draw(st.sampled_from(["auto", True, False]))
    if d["kind"] == "sys":
        d["diag"] = draw(st.booleans())
        if draw(ints(0, 2)) == 2:
            d["cut"] = draw(ints(0, 5))
    else:
        d["n"] = draw(ints(1, 7))
        d["seed"] = draw(st.one_of(st.none(), ints(0, 2 ** 32 - 1)))
        if draw(ints(0, 2)) == 2:
            d["max"] = draw(ints(1, 10)) / 100.0
    if draw(st.booleans()):
        d["fc2"] = dict(pm=draw(st.sampled_from(["auto", True, False])), diag=draw(st.booleans()),
                        n=draw(st.sampled_from([None, None, 1, 3])), seed=draw(ints(0, 99)))
    d["again"] = draw(ints(0, 3)) == 3
    return d


def strategy(tier):
    return strategy_()


class Group:
    """Symmetry operations of a supercell with their atom permutations."""

    def __init__(self, cell, translations_only):
        import spglib

        lat = np.array(cell.cell)
        pos = np.array(cell.scaled_positions)
        sym = spglib.get_symmetry((lat, pos, cell.numbers), symprec=1e-5)
        rot, tr = sym["rotations"], sym["translations"]
        if translations_only:
            s = (rot == np.eye(3, dtype=int)).all((1, 2))
            rot, tr = rot[s], tr[s]
        self.rot, self.pos, self.lat = rot, pos, lat
        self.perm = np.zeros((len(rot), len(pos)), dtype=int)
        for i, (r, t) in enumerate(zip(rot, tr)):
            d = (pos @ r.T + t)[:, None] - pos[None]
            d -= np.rint(d)
            m = ((d @ lat) ** 2).sum(2)
            self.perm[i] = m.argmin(1)
            assert m.min(1).max() < 1e-6
        L = lat.T
        self.cart = np.array([L @ r @ np.linalg.inv(L) for r in rot])


def rank_ok(g, n):
    """Whether Gram matrices (..., n, n) have full rank."""
    w = np.linalg.eigvalsh(g)
    return w[..., 0] > 1e-6 * np.maximum(w[..., -1], 1e-300)


def mindist(cell):
    lat = np.array(cell.cell)
    b = gridref.reduce_basis(lat)
    c = np.array(cell.positions)
    d = c[None] - c[:, None]
    d = d - np.rint(d @ np.linalg.inv(b)) @ b
    T = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]) @ b
    return np.sqrt(((d[:, :, None] + T) ** 2).sum(3)).min(2)


def check_first(cell, G, firsts, dist, pm, diag, what):
    """First-order displacements generate all by symmetry."""
    n = len(cell)
    L = np.array(cell.cell)
    gram = np.zeros((n, 3, 3))
    for f in firsts:
        a, u = int(f["number"]), np.array(f["displacement"])
        require(0 <= a < n, f"{what}: atom index {a}")
        require(abs(np.linalg.norm(u) - dist) < 1e-10, f"{what}: length {np.linalg.norm(u)} != {dist}",
                f"{what}: length")
        if "direction" in f:
            e = np.array(f["direction"]) @ L
            require(np.abs(e / np.linalg.norm(e) * dist - u).max() < 1e-10, f"{what}: direction and displacement differ")
        if not diag:
            x = u @ np.linalg.inv(L)
            require((np.abs(x) > 1e-10).sum() == 1, f"{what}: displacement not along a basis vector")
        v = G.cart @ u
        np.add.at(gram, G.perm[:, a], v[:, :, None] * v[:, None, :] / dist ** 2)
    bad = ~rank_ok(gram, 3)
    require(not bad.any(), f"{what}: displacements of atom {int(np.argmax(bad))} are not generated", f"{what}: not generated")
    for f in firsts:
        a, u = int(f["number"]), np.array(f["displacement"])
        opp = [x for x in firsts if x["number"] == a and np.abs(np.array(x["displacement"]) + u).max() < 1e-10]
        if pm is True:
            require(opp, f"{what}: opposite displacement missing with is_plusminus=True")
        elif pm is False:
            require(not opp, f"{what}: both directions with is_plusminus=False")
        else:
            s = G.perm[:, a] == a
            eq = (np.abs(G.cart[s] @ u + u).max(1) < 1e-6).any()
            require(bool(opp) != eq, f"{what}: opposite displacement {'redundant' if eq else 'missing'} with 'auto'",
                    f"{what}: auto plus-minus")
    return gram


def check_pairs(cell, G, ds, dist, diag, cut, md):
    n = len(cell)
    L = np.array(cell.cell)
    gram = np.zeros((n, n, 9, 9))
    for f in ds["first_atoms"]:
        a, u = int(f["number"]), np.array(f["displacement"])
        stab = (G.perm[:, a] == a) & (np.abs(G.cart @ u - u).max(1) < 1e-6)
        R, P = G.cart[stab], G.perm[stab]
        g3 = np.zeros((n, 3, 3))
        for s in f["second_atoms"]:
            b, v = int(s["number"]), np.array(s["displacement"])
            require(abs(np.linalg.norm(v) - dist) < 1e-10, f"pair: length {np.linalg.norm(v)} != {dist}", "pair: length")
            e = np.array(s["direction"]) @ L
            require(np.abs(e / np.linalg.norm(e) * dist - v).max() < 1e-10, "pair: direction and displacement differ")
            require(abs(s["pair_distance"] - md[a, b]) < 1e-8, f"pair_distance {s['pair_distance']} != {md[a, b]}",
                    "pair_distance")
            if not diag:
                require(np.count_nonzero(s["direction"]) == 1, "pair: displacement not along a basis vector")
            inc = True
            if cut is None:
                require(s.get("included", True), "pair excluded without cutoff")
            else:
                inc = bool(s["included"])
                if abs(md[a, b] - cut) > 1e-5:
                    require(inc == (md[a, b] < cut), f"pair at distance {md[a, b]} with cutoff {cut}: included={inc}",
                            "pair inclusion")
            w = R @ v
            np.add.at(g3, P[:, b], w[:, :, None] * w[:, None, :] / dist ** 2)
            # opposite second displacement explicit or by symmetry
            sb = P[:, b] == b
            opp = any(int(x["number"]) == b and (np.abs(R[sb] @ np.array(x["displacement"]) + v).max(1) < 1e-6).any()
                      for x in f["second_atoms"])
            require(opp, "pair: opposite second displacement is missing")
            if inc:
                t = np.einsum("ox,oy->oxy", G.cart @ u, G.cart @ v).reshape(-1, 9) / dist ** 2
                np.add.at(gram, (G.perm[:, a], G.perm[:, b]), t[:, :, None] * t[:, None, :])
        bad = ~rank_ok(g3, 3)
        require(not bad.any(), f"second displacements of atom {int(np.argmax(bad))} are not generated for first "
                f"displacement {u.tolist()} of atom {a}", "second displacements not generated")
    need = np.ones((n, n), dtype=bool) if cut is None else md < cut - 1e-5
    bad = need & ~rank_ok(gram, 9)
    require(not bad.any(), lambda: f"pair displacements of atoms {np.argwhere(bad)[0].tolist()} are not generated",
            "pairs not generated")


def expected_structures(ds, n):
    """List of displacement arrays (None when not included)."""
    out = []
    for f in ds["first_atoms"]:
        d = np.zeros((n, 3))
        d[f["number"]] += f["displacement"]
        out.append(d)
    for f in ds["first_atoms"]:
        for s in f["second_atoms"]:
            d = np.zeros((n, 3))
            d[f["number"]] += f["displacement"]
            d[s["number"]] += s["displacement"]
            out.append(d if s.get("included", True) else None)
    return out


def replaced_structures(ds, n):
    """Known finding: the second displacement of the same atom replaces the first one."""
    out = expected_structures(ds, n)
    i = len(ds["first_atoms"])
    for f in ds["first_atoms"]:
        for s in f["second_atoms"]:
            if out[i] is not None and s["number"] == f["number"]:
                out[i][s["number"]] = s["displacement"]
            i += 1
    return out


def compare_cells(cells, disps, base, what):
    require(len(cells) == len(disps), f"{what}: {len(cells)} supercells for {len(disps)} displacement sets")
    lat = np.array(base.cell)
    inv = np.linalg.inv(lat)
    p0 = np.array(base.positions)
    for i, (c, d) in enumerate(zip(cells, disps)):
        if d is None:
            require(c is None, f"{what}: supercell {i} of an excluded pair exists")
            continue
        require(c is not None, f"{what}: supercell {i} is missing")
        x = (np.array(c.positions) - p0 - d) @ inv
        x = (x - np.rint(x)) @ lat
        require(np.abs(x).max() < 1e-9, f"{what}: supercell {i} is not displaced as the data set says",
                f"{what}: supercell differs")
        same(c.numbers, base.numbers, f"{what}: numbers")
        close(c.cell, lat, f"{what}: cell")
        close(c.masses, base.masses, f"{what}: masses")


def check_random(d, n, dist, mx, pm, number, what):
    d = np.array(d)
    require(d.shape == (number * (2 if pm is True else 1), n, 3), f"{what}: shape {d.shape}", f"{what}: shape")
    r = np.sqrt((d ** 2).sum(2))
    if mx is None:
        require(np.abs(r - dist).max() < 1e-8, f"{what}: amplitude {r.min()}..{r.max()} != {dist}", f"{what}: amplitude")
    else:
        lo = min(dist, mx)
        require(r.min() > lo - 1e-8 and r.max() < max(dist, mx) + 1e-8,
                f"{what}: amplitudes {r.min()}..{r.max()} outside {dist}..{mx}", f"{what}: amplitude")
    if pm is True:
        require(np.abs(d[:number] + d[number:]).max() < 1e-12, f"{what}: not plus-minus")
        d = d[:number]
    if d.size > 3:
        f = d.reshape(-1, 3) / np.sqrt((d ** 2).sum(2)).reshape(-1, 1)
        require(np.unique(np.round(f, 8), axis=0).shape[0] == len(f), f"{what}: repeated directions")


def check(case):
    from phono3py.phonon3.dataset import get_displacements_and_forces_fc3

    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), fc=False)
    sc = ph.supercell
    n = len(sc)
    dist = case.get("dist")
    kw = {}
    if dist is not None:
        kw["distance"] = dist
    dist = 0.03 if dist is None else dist
    dev = []
    labels = [case["kind"], f"pm={case['pm']}"]
    if case["again"]:
        ph.generate_displacements(distance=0.011)
        ph.supercells_with_displacements
        if case.get("fc2"):
            ph.generate_fc2_displacements(distance=0.012)
            ph.phonon_supercells_with_displacements
        labels.append("replaced")
    md = mindist(sc)
    G = Group(sc, not case["sym"])
    if case["kind"] == "sys":
        cut = None
        if "cut" in case:
            sh = np.unique(np.round(md.ravel(), 4))
            cut = float(sh[min(case["cut"], len(sh) - 1)] + 0.02)
            kw["cutoff_pair_distance"] = cut
            labels.append("cutoff")
        ph.generate_displacements(is_plusminus=case["pm"], is_diagonal=case["diag"], **kw)
        ds = ph.dataset
        require(ds["natom"] == n, "natom")
        if cut is not None:
            require(abs(ds["cutoff_distance"] - cut) < 1e-12, "cutoff_distance not recorded")
        firsts = ds["first_atoms"]
        check_first(sc, G, firsts, dist, case["pm"], False, "first")
        check_pairs(sc, G, ds, dist, case["diag"], cut, md)
        exp = expected_structures(ds, n)
        ids = [f["id"] for f in firsts] + [s["id"] for f in firsts for s in f["second_atoms"]]
        same(ids, np.arange(1, len(exp) + 1), "displacement ids")
        zero = np.zeros((n, 3))
        full = expected_structures({"first_atoms": [dict(f, second_atoms=[dict(s, included=True) for s in
                                                                          f["second_atoms"]]) for f in firsts]}, n)
        pairs = {s["id"]: (f, s) for f in firsts for s in f["second_atoms"]}
        for i, j in ds.get("duplicates", []):
            other = zero if j == 0 else full[j - 1]
            if i != j and np.abs(full[i - 1] - other).max() < 1e-10:
                continue
            f, s = pairs[i]
            flip = j == 0 and f["number"] == s["number"] and any(
                g["number"] == t["number"] == f["number"] and np.array_equal(np.array(t["direction"]) * -1, f["direction"])
                and np.array_equal(np.array(g["direction"]) * -1, s["direction"]) for g, t in pairs.values())
            require(flip, f"duplicates ({i}, {j}) are different structures", "duplicates")
            dev.append(("same-atom-pair-flagged-as-perfect", f"duplicates ({i}, 0): supercell {i} has atom {f['number']} "
                        f"displaced by {full[i - 1][f['number']].tolist()}"))
        if ds.get("duplicates"):
            labels.append("duplicates")
        got = np.array(ph.displacements)
        inc = [x is not None for x in exp]
        require(len(got) == len(exp), "displacements: number")
        for i, x in enumerate(full):
            if inc[i]:
                require(np.abs(got[i] - x).max() < 1e-12, f"Phono3py.displacements[{i}] differ from the data set",
                        "displacements differ from data set")
        d, _ = get_displacements_and_forces_fc3(ds)
        want = np.array([x for x in exp if x is not None])
        if np.abs(d - want).max() > 1e-10:
            repl = np.array([x for x in replaced_structures(ds, n) if x is not None])
            close(d, repl, "displacement array of included configurations")
            dev.append(("second-displacement-replaces-first", "array of get_displacements_and_forces_fc3 lacks the first "
                        "displacements of pairs of one atom"))
        compare_cells(ph.supercells_with_displacements, exp, sc, "fc3")
        # forces are kept at their configuration
        F = np.arange(len(exp) * n * 3, dtype=float).reshape(-1, n, 3)
        ph.forces = F
        same(ph.forces, F, "forces")
        d, f = get_displacements_and_forces_fc3(ph.dataset)
        same(f, F[inc], "forces of included configurations")
        i = 0
        for f in ph.dataset["first_atoms"]:
            same(f["forces"], F[i], "forces in data set")
            i += 1
        for f in ph.dataset["first_atoms"]:
            for s in f["second_atoms"]:
                same(s["forces"], F[i], "forces in data set")
                i += 1
        nt = len(exp) > 2
    else:
        mx = case.get("max")
        if mx is not None:
            mx += dist
            kw["max_distance"] = mx
            labels.append("max-distance")
        args = dict(number_of_snapshots=case["n"], is_plusminus=case["pm"], random_seed=case["seed"], **kw)
        ph.generate_displacements(**args)
        d = np.array(ph.displacements)
        check_random(d, n, dist, mx, case["pm"], case["n"], "random")
        same(ph.dataset["displacements"], d, "data set displacements")
        compare_cells(ph.supercells_with_displacements, list(d), sc, "fc3 random")
        ph2 = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), fc=False)
        ph2.generate_displacements(**args)
        if case["seed"] is not None:
            same(ph2.displacements, d, "same seed gives different displacements")
            require(ph.dataset.get("random_seed") == case["seed"], "seed not recorded")
            ph2.generate_displacements(**dict(args, random_seed=(case["seed"] + 1) % 2 ** 32))
            require(np.abs(ph2.displacements - d).max() > 0, "different seeds give the same displacements")
        dd, _ = get_displacements_and_forces_fc3(ph.dataset)
        same(dd, d, "displacement array")
        nt = True
    if ph.phonon_supercell_matrix is not None or case.get("fc2"):
        psc = ph.phonon_supercell
        Gp = Group(psc, not case["sym"])
        o = case.get("fc2")
        if o:
            kw2 = {} if case.get("dist") is None else dict(distance=case["dist"])
            ph.generate_fc2_displacements(is_plusminus=o["pm"], is_diagonal=o["diag"], number_of_snapshots=o["n"],
                                          random_seed=o["seed"], **kw2)
        else:
            # generated together with the fc3 data set (unless kept from before)
            o = dict(pm=case["pm"] if not case["again"] else "auto", diag=False, n=None)
        pds = ph.phonon_dataset
        pd = dist
        if case["again"] and not case.get("fc2"):
            pd = 0.011
        labels.append("fc2")
        if o["n"]:
            check_random(pds["displacements"], len(psc), pd, None, o["pm"], o["n"], "fc2 random")
            exp2 = list(np.array(pds["displacements"]))
            same(ph.phonon_displacements, pds["displacements"], "phonon_displacements")
        else:
            check_first(psc, Gp, pds["first_atoms"], pd, o["pm"], o["diag"], "fc2")
            exp2 = expected_structures({"first_atoms": [dict(f, second_atoms=[]) for f in pds["first_atoms"]]}, len(psc))
            close(ph.phonon_displacements, np.array(exp2), "phonon_displacements")
        compare_cells(ph.phonon_supercells_with_displacements, exp2, psc, "fc2")
        F = np.arange(len(exp2) * len(psc) * 3, dtype=float).reshape(-1, len(psc), 3)
        ph.phonon_forces = F
        same(ph.phonon_forces, F, "phonon_forces")
    return dict(nontrivial=nt, labels=labels, deviations=dev)
