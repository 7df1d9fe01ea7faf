"""C08: symmetrization of force constants; compact and full layouts."""
import contextlib
import io
import itertools
import re

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, Violation, close, require, same

ints = st.integers
FNS = ["perm", "trans", "api-perm", "api-trans", "drift"]


@st.composite
def strategy_(draw):
    mode = draw(st.sampled_from(["arrays", "arrays", "produce", "later"]))
    size = draw(st.sampled_from([4, 8, 12]))
    d = dict(mode=mode, crystal=draw(model.crystals(sc="any", size=size, psc=mode != "arrays", wrap=True)))
    if mode == "arrays":
        d["fn"] = draw(st.sampled_from(FNS))
        d["kind"] = draw(st.sampled_from(["random", "random", "exact", "perm-only", "sparse"]))
        d["seed"] = draw(ints(0, 9999))
        d["twice"] = draw(st.booleans())
    elif mode == "produce":
        d["noise"] = draw(ints(0, 3))
        d["seed"] = draw(ints(0, 9999))
        d["calc"] = draw(st.sampled_from([None, "traditional"]))
    else:
        d["mesh"] = model.smallmesh_of(draw, 2, 3)
        d["what"] = draw(st.sampled_from(["pp", "gamma", "rta", "gruneisen", "jdos", "selfenergy", "lbte", "phonons"]))
        d["symq"] = draw(st.booleans())
        d["drift"] = draw(st.booleans())
        d["r0"] = draw(st.booleans())
        d["cut"] = draw(ints(0, 2)) == 2
        d["nac"] = draw(ints(0, 2)) == 2
    return d


def strategy(tier):
    return strategy_()


def translations(prim):
    """Atom permutations of pure translations (columns: image of atom)."""
    return np.array(prim.atomic_permutations)


def expand(cfc, prim):
    """Compact (2nd or 3rd order) to full by the pure translations, independent of phono3py."""
    perms = translations(prim)
    n = perms.shape[1]
    p2s = list(prim.p2s_map)
    nd = (cfc.ndim) // 2
    full = np.zeros((n,) * nd + cfc.shape[nd:])
    done = np.zeros(n, dtype=bool)
    for P in perms:
        for a, s in enumerate(p2s):
            t = P[s]
            if done[t]:
                continue
            done[t] = True
            # full[P s, P j, ...] = cfc[a, j, ...]
            inv = np.argsort(P)
            full[t] = cfc[a][np.ix_(*([inv] * (nd - 1)))]
    assert done.all()
    return full


def perm3(f):
    """Average over index permutations."""
    out = np.zeros_like(f)
    for p in itertools.permutations(range(3)):
        out += f.transpose(p + tuple(3 + x for x in p))
    return out / 6


def trans3(f):
    f = f.copy()
    for ax in range(3):
        f -= f.sum(axis=ax, keepdims=True) / f.shape[ax]
    return f


def perm2(f):
    return (f + f.transpose(1, 0, 3, 2)) / 2


def trans2(f):
    f = f.copy()
    for ax in range(2):
        f -= f.sum(axis=ax, keepdims=True) / f.shape[ax]
    return f


def transpose01_defective(c3, prim):
    """Known defect: pairs (i, j) exchanged by a half translation are left as they were."""
    out = np.array(expand(c3, prim).transpose(1, 0, 2, 4, 3, 5)[prim.p2s_map])
    perms = translations(prim)
    ident = np.arange(perms.shape[1])
    for P in perms:
        if (P == ident).all() or not (P[P] == ident).all():
            continue
        for a, i in enumerate(prim.p2s_map):
            out[a, P[i]] = c3[a, P[i]]
    return out


def trans3_defective(c3, prim):
    f = transpose01_defective(c3, prim)
    f = f - f.sum(axis=1, keepdims=True) / f.shape[1]
    f = transpose01_defective(f, prim)
    for ax in (1, 2):
        f = f - f.sum(axis=ax, keepdims=True) / f.shape[ax]
    return f


SIG = "half-translation-transposed-twice"


def either(got, exp, defective, what, tol, dev):
    """got must be exp; the known defective result is noted in dev."""
    try:
        close(got, exp, what, atol=tol)
    except Violation:
        try:
            close(got, defective(), what, atol=tol)
        except Violation:
            pass
        else:
            dev.append((SIG, what))
            return False
        raise
    return True


def asr3(f):
    return max(np.abs(f.sum(axis=a)).max() for a in range(3))


def compare_arrays(case, c, dev):
    from phono3py.phonon3 import fc3 as m

    ph = model.phono3py_obj(c, fc=False)
    prim = ph.primitive
    p2s = prim.p2s_map
    n, npr = len(ph.supercell), len(prim)
    rng = np.random.RandomState(case["seed"])
    kind, fn = case["kind"], case["fn"]
    if kind == "exact":
        f3 = c.potential(ph.supercell).fc3()
        f2 = c.potential(ph.supercell).fc2()
    else:
        c3 = rng.normal(size=(npr, n, n, 3, 3, 3))
        if kind == "sparse":
            c3 *= rng.uniform(size=(npr, n, n, 1, 1, 1)) < 0.2
        f3 = expand(c3, prim)
        f2 = expand(rng.normal(size=(npr, n, 3, 3)), prim)
        if kind == "perm-only":
            f3, f2 = perm3(f3), perm2(f2)
    cpt3, cpt2 = np.array(f3[p2s], order="C"), np.array(f2[p2s], order="C")
    s = max(1.0, np.abs(f3).max())
    tol = 1e-12 * s * n
    if fn == "drift":
        vals = []
        for a in (f3, cpt3):
            b = np.array(a, order="C")
            o = io.StringIO()
            with contextlib.redirect_stdout(o):
                m.show_drift_fc3(b, primitive=prim)
            same(b, a, "show_drift_fc3 changes fc3")
            vals.append([abs(float(x)) for x in re.findall(r"(-?[0-9]+\.[0-9]+) \(", o.getvalue())])
        exp = [np.abs(f3.sum(axis=a)).max() for a in range(3)]
        for v, name in zip(vals, ("full", "compact")):
            if name == "compact" and len(v) == 3 and np.abs(np.array(v) - exp).max() >= 2e-6:
                d0 = np.abs(transpose01_defective(cpt3, prim).sum(axis=1)).max()
                if np.abs(np.array(v) - [d0, exp[1], exp[2]]).max() < 2e-6:
                    dev.append((SIG, "drift of compact fc3"))
                    continue
            require(len(v) == 3 and np.abs(np.array(v) - exp).max() < 2e-6, f"drift of {name} fc3: {v}, expected {exp}",
                    f"drift {name}")
        return n > npr
    for it in range(2 if case["twice"] else 1):
        e3, e2 = (perm3(f3), perm2(f2)) if "perm" in fn else (trans3(f3), trans2(f2))
        g, h = np.array(f3, order="C"), np.array(cpt3, order="C")
        if fn == "perm":
            m.set_permutation_symmetry_fc3(g)
            m.set_permutation_symmetry_compact_fc3(h, prim)
        elif fn == "trans":
            m.set_translational_invariance_fc3(g)
            m.set_translational_invariance_compact_fc3(h, prim)
        else:
            out = []
            for a3, a2 in ((f3, f2), (cpt3, cpt2)):
                ph.fc3, ph.fc2 = np.array(a3, order="C"), np.array(a2, order="C")
                if fn == "api-perm":
                    ph.set_permutation_symmetry()
                else:
                    ph.set_translational_invariance()
                out.append((np.array(ph.fc3), np.array(ph.fc2)))
            (g, g2), (h, h2) = out
            close(g2, e2, f"{fn}: full fc2", atol=tol)
            close(h2, e2[p2s], f"{fn}: compact fc2", atol=tol)
            f2, cpt2 = g2, h2
        close(g, e3, f"{fn}: full fc3", atol=tol)
        ok = either(h, e3[p2s], (lambda: trans3_defective(cpt3, prim)) if "trans" in fn else (lambda: e3[p2s]),
                    f"{fn}: compact fc3", tol, dev)
        if kind == "exact":
            close(g, f3, f"{fn}: symmetric fc3 is changed", atol=1e-10 * s)
        if "perm" in fn:
            require(asr3(g) <= asr3(f3) + tol, "permutation symmetrization increased the drift")
        else:
            require(asr3(g) <= 1e-12 * s * n * n, f"sum rule violated by {asr3(g):.2e} after imposing it")
        # then the other operation and compose
        f3, cpt3 = (g if ok else expand(h, prim)), h
        fn = {"perm": "trans", "trans": "perm", "api-perm": "api-trans", "api-trans": "api-perm"}[fn]
    return n > npr


def produce(case, c, dev):
    """Symmetrized products are the symmetrization of plain ones, in both layouts."""
    from pbt.props.c07 import taylor

    res = {}
    for cpt, symm in itertools.product((False, True), repeat=2):
        ph = model.phono3py_obj(c, fc=False)
        pot = c.potential(ph.supercell)
        ph.generate_displacements(distance=0.03)
        u = np.array(ph.displacements)
        if len(u) > 400:
            raise Reject("too many displacements")
        rng = np.random.RandomState(case["seed"])
        ph.forces = taylor(pot.fc2(), pot.fc3(), u) + rng.normal(size=u.shape) * 0.003 * case["noise"]
        ph.produce_fc3(is_compact_fc=cpt, symmetrize_fc3r=symm, fc_calculator=case["calc"])
        a2 = None if ph.fc2 is None else np.array(ph.fc2)
        if ph.phonon_supercell_matrix is not None:
            ph.generate_fc2_displacements()
            pu = np.array(ph.phonon_displacements)
            pp = c.potential(ph.phonon_supercell)
            ph.phonon_forces = np.array([pp.forces(x) for x in pu]) + rng.normal(size=pu.shape) * 0.003 * case["noise"]
        ph.produce_fc2(is_compact_fc=cpt, symmetrize_fc2=symm, fc_calculator=case["calc"])
        res[cpt, symm] = (np.array(ph.fc3), np.array(ph.fc2), a2)
    p2s, pp2s = ph.primitive.p2s_map, ph.phonon_primitive.p2s_map
    s3 = max(1e-3, np.abs(res[False, False][0]).max())
    s2 = max(1e-3, np.abs(res[False, False][1]).max())
    for symm in (False, True):
        what = "symmetrized" if symm else "plain"
        full, com = res[False, symm], res[True, symm]
        if symm:
            either(com[0], full[0][p2s],
                   lambda: perm3(expand(trans3_defective(res[True, False][0], ph.primitive), ph.primitive))[p2s],
                   f"{what} fc3 of compact and full layouts", 1e-9 * s3, dev)
        else:
            close(com[0], full[0][p2s], f"{what} fc3 of compact and full layouts", atol=1e-9 * s3)
        if not symm:  # phonopy's symmetrizers of full and compact fc2 are different schemes
            close(com[1], full[1][pp2s], f"{what} fc2 of compact and full layouts", atol=1e-9 * s2)
            if full[2] is not None:
                close(com[2], full[2][p2s], f"{what} fc2 (by produce_fc3) of compact and full layouts", atol=1e-9 * s2)
    for k, prim in ((1, ph.phonon_primitive), (2, ph.primitive)):
        if res[True, True][k] is None:
            continue
        g, g0 = expand(res[True, True][k], prim), expand(res[True, False][k], prim)
        close(g, perm2(g), "symmetrized compact fc2 is not index-permutation symmetric", atol=1e-9 * s2)
        require(np.abs(g.sum(0)).max() <= max(np.abs(g0.sum(0)).max(), np.abs(g0.sum(1)).max()) + 1e-9 * s2 * len(g),
                "sum rule of symmetrized compact fc2")
    close(res[False, True][0], perm3(trans3(res[False, False][0])), "symmetrized fc3", atol=1e-9 * s3)
    g = res[False, True][1]
    close(g, perm2(g), "symmetrized fc2 is not index-permutation symmetric", atol=1e-9 * s2)
    require(np.abs(g.sum(0)).max() <= 1e-9 * s2 * len(g), "sum rule of symmetrized fc2")
    return len(p2s) < len(full[0])


def later(case, c, dev):
    """Same results of compact and full force constants."""
    res = []
    mesh = case["mesh"]
    what = case["what"]
    for cpt in (False, True):
        ph = model.phono3py_obj(c, fc=True, compact=cpt, nac=case["nac"],
                                make_r0_average=case["r0"])
        if case["cut"]:
            ph.cutoff_fc3_by_zero(1.7 * c.d0)
        model.set_mesh(ph, mesh)
        if case["drift"]:
            with contextlib.redirect_stdout(io.StringIO()):
                from phono3py.phonon3.fc3 import show_drift_fc3
                show_drift_fc3(ph.fc3, primitive=ph.primitive)
        r = {}
        gp = int(ph.grid.grg2bzg[len(ph.grid.grg2bzg) // 2])
        if what == "gruneisen":
            from phono3py.phonon3.gruneisen import Gruneisen

            if len(ph.supercell) == len(ph.primitive) and len(ph.supercell) == 1:
                raise Reject("one atom")
            f2 = c.potential(ph.supercell).fc2()
            if cpt:
                f2 = np.array(f2[ph.primitive.p2s_map], order="C")
            gr = Gruneisen(f2, ph.fc3, ph.supercell, ph.primitive, nac_params=ph.nac_params)
            gr.set_qpoints(np.array([[0.11, 0.23, 0.37], [0.5, 0, 0.1]]))
            gr.run()
            f = np.array(gr.get_gruneisen_parameters())
            res.append({"gruneisen": f / max(1.0, np.abs(f).max())})
            continue
        ph.init_phph_interaction(symmetrize_fc3q=case["symq"])
        if what == "phonons":
            ph.run_phonon_solver()
            r["frequencies"] = np.array(ph.get_phonon_data()[0])
        elif what == "pp":
            pp = ph.phph_interaction
            pp.set_grid_point(gp)
            pp.run(g_zero=None)
            r["pp"] = np.array(pp.interaction_strength)
        elif what == "gamma":
            ph.sigmas = [None, 0.3]
            r["gamma"] = ph.run_imag_self_energy([gp], [300.0], frequency_points=np.linspace(0, 12, 7))[1]
        elif what == "selfenergy":
            ph.sigmas = [None]
            r["delta"] = ph.run_real_self_energy([gp], [300.0], frequency_points_at_bands=True, epsilons=[0.2])[1]
        elif what == "rta":
            ph.sigmas = [0.4]
            ph.run_thermal_conductivity(temperatures=[300.0], is_isotope=True)
            tc = ph.thermal_conductivity
            r.update(kappa=np.array(tc.kappa), gamma=np.array(tc.gamma), gv=np.array(tc.group_velocities))
        elif what == "lbte":
            ph.sigmas = [0.4]
            ph.run_thermal_conductivity(is_LBTE=True, temperatures=[300.0])
            tc = ph.thermal_conductivity
            r.update(gamma=np.array(tc.gamma), col=np.array(tc.collision_matrix))
        elif what == "jdos":
            from phono3py import Phono3pyJointDos

            j = Phono3pyJointDos(ph.phonon_supercell, ph.phonon_primitive, ph.fc2, mesh=mesh, nac_params=ph.nac_params,
                                 sigmas=[0.3])
            j.run([gp])
            r["jdos"] = np.array(j.joint_dos)
        res.append(r)
    for k in res[0]:
        a, b = res
        close(b[k], a[k], f"{what}: {k} of compact and full force constants", rtol=1e-6, atol=1e-12)
    return len(c.unitcell) < len(ph.supercell)


def check(case):
    c = model.Crystal(case["crystal"])
    mode = case["mode"]
    dev = []
    nt = {"arrays": compare_arrays, "produce": produce, "later": later}[mode](case, c, dev)
    lab = {"arrays": case.get("fn"), "produce": "produce", "later": case.get("what")}[mode]
    return dict(nontrivial=bool(nt), labels=[mode, f"{mode}:{lab}"], deviations=dev)
