"""C07: force constants recovered from forces of a known force field."""
import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require, same
from pbt.props.c06 import expected_structures, mindist, replaced_structures

ints = st.integers


@st.composite
def strategy_(draw):
    mode = draw(st.sampled_from(["fd", "fd", "fd", "cut", "cut", "symfc", "symfc", "conv", "zero"]))
    size = draw(st.sampled_from({"symfc": [4, 8, 8, 9], "cut": [8, 12, 16]}.get(mode, [4, 8, 12])))
    d = dict(mode=mode, crystal=draw(model.crystals(sc="any", size=size, psc=mode in ("fd", "symfc"), wrap=True,
                                                    neg=True)))
    d["sym"] = draw(ints(0, 5)) and 1
    d["pm"] = draw(st.sampled_from(["auto", "auto", True]))
    d["diag"] = draw(st.booleans())
    d["compact"] = draw(st.booleans())
    d["symm"] = draw(ints(0, 3)) == 3
    d["dist"] = draw(st.sampled_from([0.01, 0.03, 0.07]))
    if mode in ("cut", "zero"):
        d["shell"] = draw(ints(0, 3))
        d["junk"] = draw(ints(0, 3))
    if mode == "symfc":
        d["type1"] = draw(ints(0, 2)) == 2
        d["seed"] = draw(ints(0, 999))
        d["max"] = draw(st.booleans())
    d["force2"] = draw(st.booleans())
    return d


def strategy(tier):
    return strategy_()


def taylor(f2, f3, disps):
    """Forces of the Taylor expansion for displacements (s, n, 3)."""
    u = np.array(disps)
    f = -np.einsum("ijxy,sjy->six", f2, u)
    n = len(f2)
    # third-order part with only displaced atoms
    for s in range(len(u)):
        at = np.nonzero(np.abs(u[s]).sum(1))[0]
        f[s] -= 0.5 * np.einsum("ijkxyz,jy,kz->ix", f3[:, at][:, :, at], u[s][at], u[s][at], optimize=True)
    assert f.shape == (len(u), n, 3)
    return f


def cut_of(md, shell):
    sh = np.unique(np.round(md.ravel(), 4))
    return float(sh[min(shell, len(sh) - 1)] + 0.02)


def check(case):
    try:
        return check_(case)
    except (ValueError, IndexError, AssertionError, TypeError, np.linalg.LinAlgError) as e:
        import traceback
        if case["mode"] == "symfc" and "/symfc/" in traceback.extract_tb(e.__traceback__)[-1].filename:
            raise Reject("symfc cannot treat this supercell")  # e.g. no degree of freedom in fc3
        raise


def check_(case):
    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), fc=False)
    sc, psc = ph.supercell, ph.phonon_supercell
    n = len(sc)
    sep = ph.phonon_supercell_matrix is not None
    pot = c.potential(sc)
    f2, f3 = pot.fc2(), pot.fc3()
    ppot = c.potential(psc) if sep else pot
    pf2 = ppot.fc2() if sep else f2
    p2s, pp2s = ph.primitive.p2s_map, ph.phonon_primitive.p2s_map
    s3, s2 = max(1.0, np.abs(f3).max()), max(1.0, np.abs(f2).max())
    mode, cpt = case["mode"], case["compact"]
    labels = [mode, "compact" if cpt else "full", "sym" if case["sym"] else "nosym"]
    e2 = pf2[pp2s] if cpt else pf2
    e3 = f3[p2s] if cpt else f3

    def run(h, forces, fc_calculator=None, symm=False, **kw):
        ph.generate_displacements(distance=h, is_plusminus=case["pm"], is_diagonal=case["diag"], **kw)
        u = np.array(ph.displacements)
        if len(u) > 1500:
            raise Reject("too many displacements")
        F = forces(pot, f2, f3, u)
        ph.forces = F
        ph.fc2 = None
        ph.produce_fc3(is_compact_fc=cpt, symmetrize_fc3r=symm, fc_calculator=fc_calculator)
        if sep:
            require(ph.fc2 is None, "fc2 of the fc3 supercell was set although the phonon supercell differs")
            ph.generate_fc2_displacements(distance=h, is_plusminus=case["pm"])
            ph.phonon_forces = forces(ppot, pf2, None, np.array(ph.phonon_displacements))
            if not case["sym"] and cpt and fc_calculator != "symfc":
                ph.fc2 = e2  # refused by phonopy
            else:
                ph.produce_fc2(is_compact_fc=cpt, symmetrize_fc2=symm, fc_calculator=fc_calculator)
        else:
            require(ph.fc2 is not None, "fc2 was not set by produce_fc3")
            if case["force2"] and fc_calculator == "symfc":
                # a harmonic fit: the cubic forces drop out of it only when both u and -u are in the data set
                if case["pm"] is True and case["sym"]:
                    a, b = np.array(ph.fc2), np.array(ph.fc3)
                    ph.produce_fc2(is_compact_fc=cpt, symmetrize_fc2=symm, fc_calculator=fc_calculator)
                    close(ph.fc2, e2, "fc2 of produce_fc2", atol=2e-6 * s2, rtol=0)
                    return a, b
            elif case["force2"] and (case["sym"] or not cpt):  # compact without symmetry: refused by phonopy
                a = np.array(ph.fc2)
                ph.produce_fc2(is_compact_fc=cpt, symmetrize_fc2=symm, fc_calculator=fc_calculator)
                close(ph.fc2, a, "fc2 of produce_fc2 and produce_fc3", atol=1e-6 * s2 if fc_calculator else 1e-9 * s2)
        return np.array(ph.fc2), np.array(ph.fc3)

    def tay(p, a2, a3, u):
        if a3 is None:
            # even part drops out of plus-minus displacements
            return -np.einsum("ijxy,sjy->six", a2, u)
        return taylor(a2, a3, u)

    if mode == "fd":
        g2, g3 = run(case["dist"], tay, fc_calculator="traditional" if case["symm"] and case["diag"] else None,
                     symm=case["symm"])
        close(g2, e2, "fc2", atol=1e-9 * s2 / case["dist"], rtol=0)
        close(g3, e3, "fc3", atol=1e-10 * s3 / case["dist"] ** 2, rtol=0)
    elif mode == "cut":
        cut = cut_of(mindist(sc), case["shell"])
        ph.generate_displacements(distance=case["dist"], is_plusminus=case["pm"], is_diagonal=case["diag"],
                                  cutoff_pair_distance=cut)
        if len(ph.displacements) > 1500:
            raise Reject("too many displacements")
        cells = ph.supercells_with_displacements
        x0 = np.array(sc.positions)
        inv = np.linalg.inv(sc.cell)
        rng = np.random.RandomState(case["junk"])
        F = []
        for cell in cells:
            if cell is None:  # forces of excluded supercells are never looked at
                F.append(rng.normal(size=(n, 3)) * (case["junk"] > 0))
            else:
                u = (np.array(cell.positions) - x0) @ inv
                u = (u - np.rint(u)) @ sc.cell
                F.append(taylor(f2, f3, [u])[0])
        ph.forces = np.array(F)
        ph.fc2 = None
        ph.produce_fc3(is_compact_fc=cpt)
        md = mindist(sc)
        inc = md < cut
        keep = inc[:, :, None] | inc[None, :, :] | inc[:, None, :]
        exp = f3 * keep[:, :, :, None, None, None]
        exp = exp[p2s] if cpt else exp
        g = np.array(ph.fc3)
        close(g, exp, "fc3 with pair cutoff", atol=1e-10 * s3 / case["dist"] ** 2, rtol=0)
        kk = keep[p2s] if cpt else keep
        require(not np.abs(g[~kk]).any(), "elements out of pair cutoff are not zero")
        if not sep:
            close(ph.fc2, e2, "fc2 with pair cutoff", atol=1e-9 * s2 / case["dist"], rtol=0)
        labels.append("cut-some" if (~keep).any() else "cut-none")
        return dict(nontrivial=bool((~keep).any()), labels=labels)
    elif mode == "symfc":
        h = case["dist"]
        if case["type1"]:
            g2, g3 = run(h, tay, fc_calculator="symfc")
            labels.append("type1")
        else:
            # more equations than unknowns even when there is no symmetry but translations
            m = 3 * n
            ns = max(12 * min(n, 10), int(1.4 * (m * (m + 1) * (m + 2) // 6 + m * (m + 1) // 2) / m
                                          / (n // len(ph.primitive) if case["sym"] else 1)) + 4)
            kw = dict(max_distance=2 * h) if case["max"] else {}
            ph.generate_displacements(distance=h, number_of_snapshots=ns, random_seed=case["seed"], **kw)
            u = np.array(ph.displacements)
            ph.forces = taylor(f2, f3, u)
            ph.fc2 = None
            ph.produce_fc3(is_compact_fc=cpt, fc_calculator="symfc")
            g2, g3 = ph.fc2, np.array(ph.fc3)
            if sep:
                require(g2 is None, "fc2 of the fc3 supercell was set although the phonon supercell differs")
                ph.generate_fc2_displacements(distance=h, number_of_snapshots=max(8, 4 * len(psc)), random_seed=case["seed"])
                ph.phonon_forces = tay(None, pf2, None, np.array(ph.phonon_displacements))
                ph.produce_fc2(is_compact_fc=cpt, fc_calculator="symfc")
                g2 = ph.fc2
        if not case["sym"]:  # symfc has no translation to make them compact
            e2 = pf2 if len(g2) == len(psc) else e2
            e3 = f3 if len(g3) == n else e3
        if case["type1"]:
            bad = np.abs(g2 - e2).max() if not sep else 0, np.abs(g3 - e3).max()
            if max(bad) > 1e-5 * s3:
                # known finding: would the answer be that of the data set with replaced displacements?
                rep = np.array(replaced_structures(ph.dataset, n))
                true = np.array(expected_structures(ph.dataset, n))
                require(np.abs(rep - true).max() > 0, "symfc force constants are wrong")
                F = taylor(f2, f3, true)
                ph.dataset = {"displacements": rep, "forces": F}
                ph.fc2 = None
                ph.produce_fc3(is_compact_fc=cpt, fc_calculator="symfc")
                close(g3, ph.fc3, "symfc fc3", atol=1e-6 * s3, rtol=1e-6)
                if not sep:
                    close(g2, ph.fc2, "symfc fc2", atol=1e-6 * s2, rtol=1e-6)
                return dict(nontrivial=n > 1, labels=labels, deviations=[("second-displacement-replaces-first",
                            f"symfc fc3 of a systematic data set off by {bad[1]:.2e} (largest element {s3:.2e})")])
        close(g2, e2, "symfc fc2", atol=2e-6 * s2, rtol=0)
        close(g3, e3, "symfc fc3", atol=2e-6 * s3 * (0.03 / h), rtol=0)
    elif mode == "conv":
        def full(p, a2, a3, u):
            return np.array([p.forces(x) for x in u])

        errs = []
        for h in (0.02, 0.01):
            g2, g3 = run(h, full, symm=False)
            errs.append((np.abs(g2 - e2).max(), np.abs(g3 - e3).max()))
        for k, name, floor in ((0, "fc2", 1e-8 * s2), (1, "fc3", 1e-6 * s3)):
            a, b = errs[0][k], errs[1][k]
            # When -u is obtained from u by symmetry, the even error of second differences, which is not
            # symmetrized, leaves a first-order term in fc3.
            lim = 0.35 if case["pm"] is True or k == 0 else 0.62
            require(b <= lim * a + floor, f"{name}: error {a:.3e} -> {b:.3e} when the displacement is halved",
                    f"{name}: error order")
            require(a <= 0.15 * (s2, s3)[k] + floor, f"{name}: error {a:.3e} at displacement 0.02")
    else:  # zero
        ph.fc3 = np.array(e3, order="C")
        md = mindist(sc)
        cut = cut_of(md, case["shell"])
        far = md > cut
        keep = ~(far[:, :, None] | far[None, :, :] | far[:, None, :])
        kk = keep[p2s] if cpt else keep
        ph.cutoff_fc3_by_zero(cut)
        same(ph.fc3, e3 * kk[:, :, :, None, None, None], "cutoff_fc3_by_zero")
        return dict(nontrivial=bool((~keep).any()), labels=labels)
    return dict(nontrivial=n > 1, labels=labels)
