"""C24: phono3py.yaml round trip preserves the calculation."""
import contextlib
import copy
import io
import lzma

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require
from pbt.props import c27
from pbt.props.c25 import lattice_free, random_forces

ints = st.integers
pick = st.sampled_from
SETTINGS = [None, {"force_sets": False}, {"force_sets": False, "displacements": False},
            {"born_effective_charge": False}, {"dielectric_constant": False}, {"displacements": False}]


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(sc="any", size=16, max_atoms=4, wrap=True)))
    d["seed"] = draw(ints(0, 10 ** 6))
    d["pm"] = draw(pick(["model", "model", "auto", None]))
    d["typ"] = draw(pick([1, 1, 2, 0]))
    d["cut"] = draw(pick([None, 0.7, 0.4, 0.0, 1.0]))
    d["plusminus"] = draw(pick(["auto", True, False]))
    d["diag"] = draw(pick([True, False]))
    d["psc"] = draw(pick([None, [1, 1, 2], [2, 1, 1], [2, 2, 1], [1, 1, 1]]))
    d["typ2"] = draw(pick([1, 2, 0]))
    d["n"] = draw(ints(1, 3))
    d["forces"] = draw(pick(["all", "array", "none", "fc3", "fc2"]))
    d["energies"] = draw(ints(0, 1))
    d["calc"] = draw(pick([None, None, "qe", "vasp", "lammps", "cp2k", "siesta"]))
    d["nac"] = draw(pick([None, "default", "gonze", "wang", "nofactor"]))
    d["nacfactor"] = draw(pick([14.399652, 2.0, 7.25]))
    d["masses"] = draw(ints(0, 1))
    d["ext"] = draw(ints(0, 2)) == 2 and 1 or 0
    d["mag"] = draw(pick([None, None, "z", "all"]))
    if d["mag"]:
        d["pm"] = None if d["pm"] == "auto" else d["pm"]
    d["sym"] = draw(ints(0, 3)) < 3 and 1 or 0
    d["size"] = draw(pick([0.1, 1e-3, 30.0, 1200.0]))
    d["dist"] = draw(pick([0.03, 0.01, 0.2]))
    d["how"] = draw(pick(["plain", "xz", "old", "parse", "settings", "settings"]))
    d["settings"] = draw(ints(0, len(SETTINGS) - 1))
    d["again"] = draw(ints(0, 1))
    return d


def strategy(tier):
    return strategy_()


def check(case):
    with c27.scratch():
        return _check(case)


def build(case, rng):
    from phono3py import Phono3py
    from phonopy.interface.calculator import get_default_physical_units
    from phonopy.structure.atoms import PhonopyAtoms

    crystal = model.Crystal(case["crystal"])
    units = get_default_physical_units(case["calc"])
    d2A, f2A = units["distance_to_A"], units["force_to_eVperA"] or 1.0
    c = crystal.unitcell
    kw = dict(cell=c.cell / d2A, scaled_positions=c.scaled_positions, symbols=c.symbols)
    if case["ext"]:
        kinds = sorted(set(c.symbols))
        kw["symbols"] = [s + (str(kinds.index(s) + 1) if kinds.index(s) % 2 == 0 else "") for s in c.symbols]
    if case["masses"] or case["ext"]:
        kinds = sorted(set(c.symbols))
        m = np.round(rng.uniform(1, 200, len(kinds)), 6)
        kw["masses"] = [m[kinds.index(s)] for s in c.symbols]
    if case["mag"]:
        kinds = sorted(set(c.symbols))
        m = np.round(rng.uniform(-5, 5, (len(kinds), 3)), 7)
        if case["mag"] == "z":
            kw["magnetic_moments"] = [m[kinds.index(s), 0] for s in c.symbols]
        else:
            kw["magnetic_moments"] = [m[kinds.index(s)] for s in c.symbols]
    cell = PhonopyAtoms(**kw)
    pm = crystal.primitive_matrix if case["pm"] == "model" else case["pm"]
    ph = Phono3py(cell, crystal.supercell_matrix, primitive_matrix=pm, calculator=case["calc"],
                  is_symmetry=bool(case["sym"]),
                  phonon_supercell_matrix=np.diag(case["psc"]) if case["psc"] else None)
    return crystal, ph, units, d2A, f2A


def _check(case):
    import phono3py
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    rng = np.random.default_rng(case["seed"])
    try:
        crystal, ph, units, d2A, f2A = build(case, rng)
    except RuntimeError as e:
        if "auto" in str(e) or "primitive" in str(e).lower():
            raise Reject("no primitive cell")
        raise
    except AttributeError as e:
        if case["mag"] and "rotations" in str(e):
            raise Reject("spglib found no magnetic symmetry")
        raise
    labels = [f"type{case['typ']}", str(case["calc"]), case["how"]]
    dist = case["dist"] / d2A
    if case["typ"] == 1:
        kw = {}
        if case["cut"] is not None:
            kw["cutoff_pair_distance"] = float(max(0.3 / d2A, case["cut"] * np.linalg.norm(ph.supercell.cell, axis=1).min() / 2))
            labels.append("cutoff")
        ph.generate_displacements(distance=dist, is_plusminus=case["plusminus"], is_diagonal=case["diag"], **kw)
        if len(ph.supercells_with_displacements) * len(ph.supercell) > 4000:
            raise Reject("many displacements")
        if ph.dataset.get("duplicates"):
            labels.append("duplicates")
    elif case["typ"] == 2:
        ph.generate_displacements(distance=dist, number_of_snapshots=case["n"], random_seed=case["seed"] % 1000)
    if case["psc"]:
        labels.append("psc")
        if case["typ2"] == 1:
            ph.generate_fc2_displacements(distance=dist, is_plusminus=case["plusminus"], is_diagonal=case["diag"])
        elif case["typ2"] == 2:
            ph.generate_fc2_displacements(distance=dist, number_of_snapshots=case["n"], random_seed=3)
    have3 = case["typ"] and case["forces"] in ("all", "array", "fc3")
    have2 = case["psc"] and case["typ2"] and case["forces"] in ("all", "array", "fc2")
    forced_out = False
    if have3:
        cells = ph.supercells_with_displacements
        F = random_forces(rng, len(cells), len(ph.supercell), case["size"])
        kept = np.array([c is not None for c in cells])
        if case["forces"] == "all" and case["typ"] == 1:  # As from files: nothing for left-out pairs
            d = ph.dataset
            k = 0
            for d1 in d["first_atoms"]:
                d1["forces"] = F[k]
                k += 1
            for d1 in d["first_atoms"]:
                for d2 in d1["second_atoms"]:
                    if kept[k]:
                        d2["forces"] = F[k]
                    k += 1
            ph.dataset = d
        else:
            F[~kept] = 0
            ph.forces = F
            forced_out = not kept.all()
        if case["energies"]:
            ph.supercell_energies = rng.uniform(-500, 500, len(cells))
    if have2:
        n = len(ph.phonon_supercells_with_displacements)
        ph.phonon_forces = random_forces(rng, n, len(ph.phonon_supercell), case["size"])
        if case["energies"]:
            ph.phonon_supercell_energies = rng.uniform(-500, 500, n)
    if case["nac"]:
        nac = crystal.born(ph.primitive)
        nac["factor"] = case["nacfactor"]
        if case["nac"] == "nofactor":
            del nac["factor"]
        elif case["nac"] != "default":
            nac["method"] = case["nac"]
        ph.nac_params = nac
    if have3:
        labels.append("forces")
    if forced_out:
        labels.append("zero forces of left-out pairs")

    settings = SETTINGS[case["settings"]] if case["how"] == "settings" else None
    before = copy.deepcopy((ph.dataset, ph.phonon_dataset))
    ph.save("p.yaml", settings=settings)
    require(deep_equal(before, (ph.dataset, ph.phonon_dataset)), "saving changed the data set", sig="changed by saving")
    file = "p.yaml"
    if case["how"] == "xz":
        open("p.yaml.xz", "wb").write(lzma.compress(open("p.yaml", "rb").read()))
        import os
        os.remove("p.yaml")
        file = "p.yaml.xz"
    elif case["how"] == "old":
        text = open("p.yaml").read()
        text = text.replace("paired_with:", "second_atoms:")
        if case["typ"] == 1 and case["psc"] and case["typ2"] == 1:
            text = text.replace("phonon_displacements:", "displacements:")
        open("p.yaml", "w").write(text)
    settings = settings or {}
    with_forces = settings.get("force_sets", True)
    with_disp = with_forces or settings.get("displacements", True)
    with_nac = settings.get("born_effective_charge", True) and settings.get("dielectric_constant", True)
    kw = {}
    if case["pm"] == "auto" and case["seed"] % 2:
        kw["primitive_matrix"] = "auto"
    if case["how"] == "parse":
        y = Phono3pyYaml().read(file)
        cells_equal(y.unitcell, ph.unitcell, 1.0, "unit cell read")
        cells_equal(y.supercell, ph.supercell, 1.0, "supercell read")
        cells_equal(y.primitive, ph.primitive, 1.0, "primitive cell read")
        if case["psc"]:
            cells_equal(y.phonon_supercell, ph.phonon_supercell, 1.0, "phonon supercell read")
        matrices(y, ph)
        require((y.calculator or None) == case["calc"], f"calculator {y.calculator}", sig="calculator")
        datasets(y.dataset, ph.dataset, 1, 1, True, "read")
        datasets(y.phonon_dataset, ph.phonon_dataset, 1, 1, True, "fc2 read")
        nac_equal(y.nac_params, ph.nac_params, None)
        open("q.yaml", "w").write(str(y))
        same_text("p.yaml", "q.yaml")
    new = phono3py.load(file, produce_fc=False, log_level=0, is_symmetry=bool(case["sym"]), **kw)
    cells_equal(new.unitcell, ph.unitcell, d2A, "unit cell")
    cells_equal(new.supercell, ph.supercell, d2A, "supercell")
    cells_equal(new.primitive, ph.primitive, d2A, "primitive cell")
    cells_equal(new.phonon_supercell, ph.phonon_supercell, d2A, "phonon supercell")
    matrices(new, ph)
    require(len(new.symmetry.symmetry_operations["rotations"]) == len(ph.symmetry.symmetry_operations["rotations"]),
            "number of symmetry operations", sig="symmetry")
    d0, d1 = (ph.dataset, ph.phonon_dataset) if with_disp else (None, None)
    datasets(new.dataset, d0, d2A, f2A, with_forces, "fc3")
    datasets(new.phonon_dataset, d1, d2A, f2A, with_forces, "fc2")
    nac_equal(new.nac_params, ph.nac_params if with_nac else None, units["nac_factor"])
    dev = results(case, crystal, ph, new, d2A, f2A, with_forces, with_nac, labels)
    if case["again"]:
        labels.append("again")
        new.save("r.yaml", settings=SETTINGS[case["settings"]] if case["how"] == "settings" else None)
        new2 = phono3py.load("r.yaml", produce_fc=False, log_level=0, is_symmetry=bool(case["sym"]))
        cells_equal(new2.unitcell, new.unitcell, 1, "unit cell, second time")
        matrices(new2, new)
        datasets(new2.dataset, new.dataset, 1, 1, with_forces, "fc3, second time")
        datasets(new2.phonon_dataset, new.phonon_dataset, 1, 1, with_forces, "fc2, second time")
        nac_equal(new2.nac_params, new.nac_params, None)
        new2.save("s.yaml", settings=SETTINGS[case["settings"]] if case["how"] == "settings" else None)
        same_text("r.yaml", "s.yaml")
    return dict(nontrivial=bool(case["typ"] or case["psc"] or case["nac"]), labels=labels, deviations=dev)


def deep_equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b)


def cells_equal(a, b, f, what):
    require(a is not None, what + " is missing", sig=what)
    require(len(a) == len(b) and list(a.symbols) == list(b.symbols), what + " symbols", sig=what + " symbols")
    close(a.cell, np.array(b.cell) * f, what + " lattice", rtol=2e-9, atol=1e-12)
    d = a.scaled_positions - b.scaled_positions
    close(d - np.rint(d), np.zeros_like(d), what + " positions", rtol=0, atol=3e-10)
    close(a.masses, b.masses, what + " masses", rtol=0, atol=6e-7)
    require((a.magnetic_moments is None) == (b.magnetic_moments is None), what + " magnetic moments", sig=what + " moments")
    if b.magnetic_moments is not None:
        close(a.magnetic_moments, b.magnetic_moments, what + " magnetic moments", rtol=0, atol=1e-8)


def matrices(a, b):
    require(np.array_equal(a.supercell_matrix, b.supercell_matrix), "supercell matrix", sig="supercell matrix")
    x, y = a.phonon_supercell_matrix, b.phonon_supercell_matrix
    require((x is None) == (y is None) and (x is None or np.array_equal(x, y)), "phonon supercell matrix",
            sig="phonon supercell matrix")
    x, y = a.primitive_matrix, b.primitive_matrix
    x = np.eye(3) if x is None else x
    y = np.eye(3) if y is None else y
    close(x, y, "primitive matrix", rtol=0, atol=1e-12)


def nac_equal(a, b, factor):
    require((a is None) == (b is None), f"NAC parameters {'missing' if a is None else 'present'}", sig="NAC")
    if b is None:
        return
    close(a["born"], b["born"], "Born charges", rtol=0, atol=1e-12)
    close(a["dielectric"], b["dielectric"], "dielectric tensor", rtol=0, atol=1e-12)
    want = b.get("factor", factor)
    require((want is None) == (a.get("factor") is None), "NAC factor", sig="NAC factor")
    if want is not None:
        close(a["factor"], want, "NAC factor", rtol=0, atol=6e-7)
    require(a.get("method") == b.get("method"), f"NAC method {a.get('method')}", sig="NAC method")


def datasets(a, b, d, f, with_forces, what):
    """Data set a is b in other units."""
    require((a is None) == (b is None), f"{what} data set {'missing' if a is None else 'present'}", sig="data set")
    if b is None:
        return
    if "displacements" in b:
        require("displacements" in a, what + " data set type", sig="data set")
        close(a["displacements"], np.array(b["displacements"]) * d, what + " displacements", rtol=1e-12, atol=1e-15)
        forces = "forces" in b and with_forces
        require(forces == ("forces" in a), what + " forces missing or present", sig="forces")
        if forces:
            close(a["forces"], np.array(b["forces"]) * f, what + " forces", rtol=1e-12, atol=1e-14 * max(1, f))
        if "supercell_energies" in b and forces:
            close(a["supercell_energies"], b["supercell_energies"], what + " energies", rtol=0, atol=2e-8)
        return
    require("first_atoms" in a, what + " data set type", sig="data set")
    require(a["natom"] == b["natom"], what + " natom", sig="natom")
    if "cutoff_distance" in b:
        require("cutoff_distance" in a, what + " cutoff distance missing", sig="cutoff distance")
        if d == 1:
            close(a["cutoff_distance"], b["cutoff_distance"], what + " cutoff distance", rtol=0, atol=1e-8)
    else:
        require("cutoff_distance" not in a, what + " cutoff distance present", sig="cutoff distance")
    dup = lambda x: sorted((int(p), int(q)) for p, q in (x.items() if isinstance(x, dict) else x or []))
    require(dup(a.get("duplicates")) == dup(b.get("duplicates")), what + " duplicates", sig="duplicates")
    require(len(a["first_atoms"]) == len(b["first_atoms"]), what + " number of displacements", sig="count")
    for x, y in zip(a["first_atoms"], b["first_atoms"]):
        entry(x, y, d, f, with_forces, what)
        require(("second_atoms" in x) == ("second_atoms" in y), what + " pairs", sig="count")
        if "second_atoms" in y:
            require(len(x["second_atoms"]) == len(y["second_atoms"]), what + " number of pairs", sig="count")
            for p, q in zip(x["second_atoms"], y["second_atoms"]):
                entry(p, q, d, f, with_forces, what)
                require(bool(p.get("included", True)) == bool(q.get("included", True)),
                        what + ": a left-out pair is not left out any more" if p.get("included", True) else
                        what + ": a pair is left out", sig="included flag")
                if d == 1 and "pair_distance" in q:
                    close(p["pair_distance"], q["pair_distance"], what + " pair distance", rtol=0, atol=1e-7)


def entry(x, y, d, f, with_forces, what):
    require(x["number"] == y["number"], what + " atom", sig="atom")
    if "id" in y:
        require(x.get("id", y["id"]) == y["id"], what + " id", sig="id")
    close(x["displacement"], np.array(y["displacement"]) * d, what + " displacement", rtol=1e-12, atol=1e-15)
    forces = "forces" in y and with_forces
    require(forces == ("forces" in x), what + " forces missing or present", sig="forces")
    if forces:
        close(x["forces"], np.array(y["forces"]) * f, what + " forces", rtol=1e-12, atol=1e-14 * max(1, f))
        if "supercell_energy" in y:
            require("supercell_energy" in x, what + " energy is missing", sig="energy")
            close(x["supercell_energy"], y["supercell_energy"], what + " energy", rtol=0, atol=2e-8)


def results(case, crystal, ph, new, d2A, f2A, with_forces, with_nac, labels):
    """Displaced supercells, phonons and force constants of both objects."""
    dev = []
    if new.dataset is not None:
        a, b = new.supercells_with_displacements, ph.supercells_with_displacements
        require(len(a) == len(b), "number of displaced supercells", sig="count")
        for x, y in zip(a, b):
            require((x is None) == (y is None), "a supercell is left out of one object", sig="included flag")
            if y is not None:
                v = x.positions - y.positions * d2A
                close(lattice_free(v, new.supercell.cell), np.zeros_like(v), "displaced supercell", rtol=0, atol=1e-8)
    if case["typ"] == 1 and with_forces and "forces" in ph.dataset["first_atoms"][0] and len(ph.supercell) <= 12 \
            and len(ph.supercells_with_displacements) < 150:
        labels.append("fc")
        fcs = []
        for o, u in ((ph, f2A / d2A), (new, 1)):
            with contextlib.redirect_stdout(io.StringIO()):
                o.produce_fc3(symmetrize_fc3r=False)
            fcs.append((o.fc3 * u / (d2A if o is ph else 1), o.fc2 * u if o.phonon_supercell_matrix is None else None))
        floor = case["size"] / case["dist"] * 1e-10
        close(fcs[1][0], fcs[0][0], "fc3 computed", rtol=1e-6, atol=floor / case["dist"] + 1e-7 * np.abs(fcs[0][0]).max(), sig="fc3")
        if fcs[0][1] is not None:
            close(fcs[1][1], fcs[0][1], "fc2 computed", rtol=1e-6, atol=floor + 1e-7 * np.abs(fcs[0][1]).max(), sig="fc2")
    fc2 = crystal.potential(new.phonon_supercell).fc2() if not case["ext"] else None
    if fc2 is not None and case["nac"] != "nofactor" and d2A == 1:
        labels.append("phonons")
        fr = []
        q = np.random.default_rng(case["seed"]).uniform(-0.5, 0.5, (3, 3))
        for o in (ph, new):
            o.fc2 = fc2.copy()
            if not with_nac:
                o.nac_params = None
            o.mesh_numbers = [1, 1, 1]
            o.init_phph_interaction()
            with contextlib.redirect_stdout(io.StringIO()):
                fr.append(phonons(o, q))
        w = [np.sign(x) * x * x for x in fr]
        close(w[1], w[0], "squared frequencies", rtol=2e-6, atol=1e-6 * np.abs(w[0]).max(), sig="frequencies")
    return dev


def phonons(o, q):
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
    dm = o.dynamical_matrix
    out = []
    for x in list(q) + [np.zeros(3)]:
        if dm.is_nac() and not x.any():
            dm.run(x, q_direction=np.array([1.0, 0.3, 0.2]))
        else:
            dm.run(x)
        e = np.linalg.eigvalsh(dm.dynamical_matrix)
        out.append(np.sign(e) * np.sqrt(np.abs(e)) * 15.633302)
    return np.array(out)


def same_text(p, q):
    """Files of equal content, numbers within written precision."""
    import yaml
    L = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
    a, b = (yaml.load(open(f), Loader=L) for f in (p, q))
    diff = tree(a, b, "")
    require(diff is None, f"saving again gives other content: {diff}", sig="saved again")


def tree(a, b, path):
    if isinstance(a, dict) and isinstance(b, dict):
        if path == "/phono3py":
            a, b = ({k: v for k, v in x.items() if k not in ("version", "configuration", "frequency_unit_conversion_factor", "symmetry_tolerance")} for x in (a, b))
        keys = (set(a) ^ set(b)) - {"space_group", "magnetic_space_group"}
        if path.count("/") >= 2:
            keys -= {"reduced_to"}  # Known only to the object that made the cells
        if path == "":
            keys -= {"physical_unit"}
        if path.endswith("dataset"):
            keys -= {"random_seed"}
        if keys:
            return f"{path}: keys {sorted(map(str, keys))}"
        for k in a:
            if k in b and k not in ("space_group", "magnetic_space_group", "physical_unit", "random_seed"):
                r = tree(a[k], b[k], f"{path}/{k}")
                if r:
                    return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} and {len(b)}"
        if a and isinstance(a[0], (int, float)):
            e = np.abs(np.array(a, dtype=float) - np.array(b, dtype=float)).max()
            if path.endswith("/coordinates"):
                e = abs(e - round(e))
            return f"{path}: differ by {e}" if e > 1e-8 else None
        for i, (x, y) in enumerate(zip(a, b)):
            r = tree(x, y, f"{path}/{i}" if i < 3 else f"{path}/.")
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return f"{path}: {a} {b}" if abs(a - b) > 2e-8 else None
    return None if a == b else f"{path}: {a!r} {b!r}"
