"""Small calculations which reach all compiled entry points."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import xtal

DEF = dict(xtal="tric2", smat=(2, 1, 1), mesh=[3, 1, 1])


class Cwd:
    def __enter__(self):
        self.old = os.getcwd()
        self.new = tempfile.mkdtemp(prefix="mcw")
        os.chdir(self.new)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.new)


def obj(c, **kw):
    a = dict(nac=c.get("nac"))
    a.update(kw)
    return xtal.phono3py(c["xtal"], c["smat"], compact=c.get("compact", False),
                         is_mesh_symmetry=c.get("ms", True), make_r0_average=c.get("r0", True), **a)


def init(c, ph3, **kw):
    ph3.mesh_numbers = c["mesh"]
    ph3.init_phph_interaction(openmp_per_triplets=c.get("omp"), symmetrize_fc3q=c.get("symq", False),
                              nac_q_direction=c.get("qdir"), **kw)
    return ph3


def grid(c):
    from phono3py.phonon.grid import BZGrid, GridMatrix, get_grid_point_from_address, get_ir_grid_points

    ph3 = obj(c)
    p = ph3.primitive
    ds = ph3.primitive_symmetry.dataset
    for dense, gr in itertools.product((True, False), (None, False, True)):
        kw = {} if gr is None else dict(use_grg=gr)
        bz = BZGrid(c["mesh"], lattice=p.cell, symmetry_dataset=ds, store_dense_gp_map=dense, **kw)
        get_ir_grid_points(bz)
        from phono3py.phonon.grid import get_grid_points_by_rotations

        get_grid_points_by_rotations(1, bz)
        get_grid_points_by_rotations(1, bz, with_surface=True)
        get_grid_point_from_address([1, 0, -1], bz.D_diag)
        from phono3py.phonon3.triplets import get_triplets_at_q, get_nosym_triplets_at_q

        for g in range(min(3, len(bz.addresses))):
            get_triplets_at_q(g, bz)
            get_triplets_at_q(g, bz, swappable=False)
            get_nosym_triplets_at_q(g, bz)
    GridMatrix(12, lattice=p.cell, symmetry_dataset=ds)


def rta(c):
    ph3 = obj(c)
    ph3.sigmas = c.get("sigmas", [None, 0.7])
    ph3.sigma_cutoff = c.get("scut")
    if c.get("bands"):
        ph3.band_indices = c["bands"]
    init(c, ph3)
    for kw in (dict(), dict(is_N_U=True), dict(is_full_pp=True, is_isotope=True), dict(write_gamma_detail=True)):
        ph3.run_thermal_conductivity(temperatures=[100.0, 300.0], grid_points=c.get("gps"), **kw)


def wigner(c):
    ph3 = obj(c)
    ph3.sigmas = [0.7]
    init(c, ph3)
    for t in ("wigner", "kubo"):
        ph3.run_thermal_conductivity(temperatures=[300.0], conductivity_type=t)


def lbte(c):
    for red, sig in itertools.product((False, True), ([0.7], [None])):
        ph3 = obj(c)
        ph3.sigmas = sig
        init(c, ph3)
        for solver in (1, 3, 6) if not red and sig[0] else (2,):
            ph3.run_thermal_conductivity(temperatures=[100.0, 300.0], is_LBTE=True, pinv_solver=solver,
                                         is_reducible_collision_matrix=red, is_isotope=True)


def energies(c):
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy

    ph3 = obj(c)
    ph3.sigmas = [None, 0.7]
    init(c, ph3)
    ph3.run_phonon_solver()
    gps = [0] if c.get("qdir") else [1]
    ph3.run_imag_self_energy(gps, temperatures=[300.0], num_frequency_points=3)
    ph3.run_imag_self_energy(gps, temperatures=[300.0], frequency_points_at_bands=True)
    ph3.run_imag_self_energy(gps, temperatures=[300.0], num_frequency_points=3, keep_gamma_detail=True)
    ph3.run_real_self_energy(gps, temperatures=[300.0], num_frequency_points=3, epsilons=[0.1])
    ph3.run_real_self_energy(gps, temperatures=[300.0], frequency_points_at_bands=True, epsilons=[0.1])
    ph3.run_spectral_function(gps, temperatures=[300.0], num_frequency_points=3)


def jdos(c):
    from phono3py import Phono3pyJointDos

    ph3 = obj(c)
    for sig, t in itertools.product((None, 0.7), (None, [300.0])):
        j = Phono3pyJointDos(ph3.supercell, ph3.primitive, ph3.fc2, mesh=c["mesh"], sigmas=[sig], temperatures=t,
                             num_frequency_points=3, nac_params=ph3.nac_params,
                             nac_q_direction=c.get("qdir"), is_mesh_symmetry=c.get("ms", True))
        j.run([0, 1])


def isotope(c):
    from phono3py import Phono3pyIsotope

    ph3 = obj(c)
    for sig in (None, 0.7):
        i = Phono3pyIsotope(c["mesh"], ph3.primitive, mass_variances=[1e-3 * (k + 1) for k in range(
            len(ph3.primitive))], sigmas=[sig], band_indices=c.get("bands"))
        i.init_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive, nac_params=ph3.nac_params)
        i.run([1])


def phonons(c):
    for nac in (None, "gonze", "wang"):
        if nac and c["xtal"] not in xtal.NAC:
            continue
        ph3 = obj(c, nac=nac)
        init(dict(c, qdir=[1, 0, 0] if nac else None), ph3)
        ph3.run_phonon_solver()
        ph3 = obj(c, nac=nac)
        init(c, ph3)
        ph3.run_phonon_solver()


def fcs(c):
    import phono3py as p3
    from phonopy.structure.cells import compute_all_sg_permutations  # noqa: F401

    ph3 = obj(c, with_fc=False)
    ph3.generate_displacements(distance=0.03)
    fc2, fc3 = xtal.model(c["xtal"], tuple(c["smat"]))
    d = np.array(ph3.supercells_with_displacements and [
        s.positions - ph3.supercell.positions for s in ph3.supercells_with_displacements])
    ph3.forces = xtal.forces_of(fc2, fc3, d)
    for compact, sym in itertools.product((True, False), (True, False)):
        ph3.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact)
        ph3.set_permutation_symmetry()
        ph3.set_translational_invariance()


def pinv(c):
    """Solvers which are reached with LAPACKE only."""
    import phono3py._phono3py as p

    rng = np.random.RandomState(3)
    for m, n in ((4, 3), (3, 3)):
        a = rng.rand(m, n)
        out = np.zeros((n, m), dtype="double", order="C")
        p.lapacke_pinv(out, a, 1e-13)
    for s in range(1, 3):
        x = rng.rand(6, 6)
        x = np.array((x + x.T).reshape(1, 1, 2, 3, 2, 3), dtype="double", order="C")
        w = np.ones(6)
        p.diagonalize_collision_matrix(x, w, 0, 0, 0.0, s, 0)
        p.pinv_from_eigensolution(x, w, 0, 0, 1e-3, s - 1)
    p.omp_max_threads()
    p.default_colmat_solver()


WORK = dict(grid=grid, rta=rta, wigner=wigner, lbte=lbte, energies=energies, jdos=jdos, isotope=isotope,
            phonons=phonons, fcs=fcs, pinv=pinv)
