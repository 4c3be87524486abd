"""Source of /verif/properties.jsonl (kept as code so that long texts stay readable).  Run: python3 tools/gen_properties.py"""
import json, os
S = "src/tight_binding_redweasel/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=[S + f for f in files], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))

prop("C01", "Bloch Hamiltonian: Fourier sum, Hermitian, periodic, sorted real bands",
  """For every tight-binding model and every k-point, the evaluated Hamiltonian (and overlap) is exactly the Fourier sum over all
  stored lattice vectors and their inverses of the hopping matrices the model reports, is Hermitian, and is unchanged when k moves by an integer
  reciprocal vector. The returned bands are the real, ascending (generalised) eigenvalues of that matrix, for one k-point or any stack of them.""",
  ["inputs", "configurations"], """all models (both fitting classes, all cosine/exponential parametrisations, with and without overlap,
  any band count, dimension 1-3, any neighbour list) and all k-points, including zone-boundary and gamma points""",
  """the suite evaluates two fixed small models at a handful of k-points and compares the implementations only to each other""",
  ["tight_binding_asym.py", "bandstructure.py", "linalg.py"],
  [("HermitianFourierSeries.f / AsymTightBindingModel.bands", S+"tight_binding_asym.py:60"), ("BandStructureModel.f / _get_tight_binding_coeff_funcs", S+"bandstructure.py:158"), ("geigvalsh", S+"linalg.py:85")],
  ["AsymTightBindingModel.bands", "AsymTightBindingModel.H.f", "BandStructureModel.f", "BandStructureModel.bands"],
  [("H_r / neighbors", "hopping matrices and lattice vectors of one half space, the first being the onsite term", "HermitianFourierSeries"), ("params", "real or complex coefficient matrices", "BandStructureModel")])

prop("C02", "Analytic band gradients and Hessians are the derivatives of the bands",
  """The first and second k-derivatives a model returns for its Hamiltonian are the derivatives of the Hamiltonian it evaluates, and the returned band gradients
  and Hessians are the derivatives of the returned bands wherever the bands are non-degenerate; inside a degenerate level the sum over the level is still correct.
  The band values returned along with derivatives are the same as those of plain band evaluation.""",
  ["inputs", "configurations"], "all models, parametrisations and k-points given as an array (N_k, dim), including degenerate ones",
  "the suite compares derivative code only in a benchmark on one model and checks one 1D case; wrong factors or index order in other modes or dimensions are invisible",
  ["tight_binding_asym.py", "bandstructure.py", "linalg.py", "bulk_properties.py"],
  [("df/ddf", S+"tight_binding_asym.py:71"), ("df/ddf and f_i/df_i/ddf_i tables", S+"bandstructure.py:175"), ("eigh_grad / eigh_grad_hess / geigh_grad", S+"linalg.py:95")],
  ["bands_grad", "bands_grad_hess", "H.df", "H.ddf"])

prop("C03", "Model algebra acts on the spectrum exactly as stated",
  """Copying, permuting orbitals, normalising the orbital basis, cleaning up or completing the neighbour list, and converting between representations leave every band energy unchanged;
  adding a number shifts and multiplying by a number scales all bands; adding two models gives the union of both spectra.
  This holds after any sequence of such operations.""",
  ["histories", "inputs"], "all models and all finite sequences of the model operations",
  "the suite has no test of model algebra; a sequence of operations (e.g. normalise after add, cleanup after direct sum) is never driven",
  ["tight_binding_asym.py", "bandstructure.py", "linalg.py"],
  [("normalize/permute/__add__/__mul__/copy", S+"tight_binding_asym.py:694"), ("add_neighbors/cleanup_neighbors/limit_neighbors/direct_sum", S+"tight_binding_asym.py:96"), ("normalize/permute/__add__/__mul__", S+"bandstructure.py:552")],
  ["AsymTightBindingModel.bands", "BandStructureModel.bands", "params_complex"])

prop("C04", "Supercells fold the bands and coordinate changes move the k-points",
  """The bands of a supercell model at K are exactly the union of the primitive bands over all primitive k-points that fold onto K, with the right multiplicity, for every full-rank integer supercell matrix.
  Transforming a model to another lattice basis gives the same energies at the correspondingly transformed k-points.""",
  ["inputs", "configurations"], "all models, all non-singular integer supercell matrices (diagonal and skewed), all k-points",
  "not covered by the suite at all",
  ["tight_binding_asym.py", "bandstructure.py"],
  [("AsymTightBindingModel.supercell/transform", S+"tight_binding_asym.py:743"), ("BandStructureModel.supercell/transform", S+"bandstructure.py:809")],
  ["supercell(...).bands", "transform(...)"])

prop("C05", "Saving and loading a model preserves it",
  """A model written to disk and read back, in every offered format, has the same neighbour vectors up to sign and ordering, the same hopping matrices and therefore the same bands to the written precision;
  extracting the complex parameters and setting them again restores the model in every parametrisation, and does not depend on the neighbour order.""",
  ["inputs", "configurations"], "all models with finite parameters of any magnitude, both loadable formats (json, python repr), all parametrisations",
  "the suite loads one committed json file; it never saves a model and reads it back",
  ["tight_binding_asym.py", "bandstructure.py", "json_tb_format.py", "wannier90_tb_format.py"],
  [("save/load", S+"json_tb_format.py"), ("AsymTightBindingModel.save/load/params_complex/set_from_complex", S+"tight_binding_asym.py:251"), ("BandStructureModel.save/load/params_complex/set_params_complex", S+"bandstructure.py:594")],
  ["save", "load", "params_complex", "set_params_complex"])

prop("C06", "Wannier90 files are imported as the Hamiltonian they define",
  """Reading a Wannier90 hr or tb file gives a model whose Hamiltonian is the Hermitian Fourier sum that the file defines: every lattice vector of the file is used once, in any line order, for any number
  of orbitals, and the lattice vectors, Wigner-Seitz degeneracies and position matrix elements are those in the file.""",
  ["inputs"], "all well-formed Wannier90 hr/tb files: any number of orbitals and vectors, any order of the blocks, any degeneracy table length (each hopping matrix counts with the inverse of its degeneracy)",
  "there is no Wannier90 test in the suite (module coverage 4%)",
  ["wannier90_tb_format.py", "tight_binding_asym.py", "bandstructure.py"],
  [("load_tb/load_hr/save_hr", S+"wannier90_tb_format.py")],
  ["wannier90_tb_format.load_hr", "wannier90_tb_format.load_tb", "AsymTightBindingModel.load", "BandStructureModel.load"])

prop("C07", "Fitting reports the true loss, never gets worse, and keeps its constraints",
  """Whatever the data, start point, weights and batch settings, after a fit the logged loss belongs to the model that was evaluated, and a full-batch fit returns a model that fits the data at least as well as the start model;
  parameters frozen at zero stay zero, the model stays Hermitian, and the caller's data arrays are not modified. Data generated by a model of the same form, starting close to it, is recovered.""",
  ["inputs", "histories", "configurations"], "all reference data sets, start parameters, weights, band offsets and optimiser options that are documented to work (training of the overlap is a known finding)",
  "the suite fits two fixed toy cases and checks that the error is small; weights, offsets, frozen parameters and the log are not examined",
  ["tight_binding_asym.py", "bandstructure.py", "logger.py", "loss.py"],
  [("optimize/optimize_cg", S+"tight_binding_asym.py:356"), ("optimize/optimize_cg", S+"bandstructure.py:246"), ("OptimisationLogger", S+"logger.py")],
  ["optimize", "optimize_cg", "OptimisationLogger.add_data", "OptimisationLogger.last_loss"])

prop("C08", "Fit-quality measures equal their definition",
  """The reported loss, per-band error, maximal error and window-aligned loss of any model against any band data equal the weighted statistics recomputed from the model's own bands; the window-aligned loss
  finds the best of all admissible band alignments, including the case of equal band counts.""",
  ["inputs"], "all models, weights, band offsets and data with at least as many bands as needed",
  "the suite compares loss values between two implementations on one model; offsets, weights and windows are not covered",
  ["loss.py", "tight_binding_asym.py", "bandstructure.py"],
  [("model_error/model_loss/model_windowed_loss/model_error_hist", S+"loss.py")],
  ["loss", "error", "windowed_loss", "model_error_hist"])

prop("C09", "Point groups are groups",
  """Every symmetry group that the library names, generates, multiplies, restricts or conjugates is closed under composition and inversion, contains the identity, has no repeated elements and has the documented order;
  membership, equality, subgroups and quotients agree with the set of matrices; conjugacy and equivalence classes partition the group correctly.""",
  ["inputs", "programs"], "all named groups, all generator sets of finite groups, all products/subgroups/conjugations of them",
  "the suite checks the sizes of a few named groups and one product",
  ["symmetry.py", "linalg.py"],
  [("from_generator/named groups", S+"symmetry.py:236"), ("__mul__/__truediv__/__contains__/__eq__/subgroup/conjugacy_classes", S+"symmetry.py:856"), ("transform", S+"symmetry.py:206")],
  ["Symmetry.S", "Symmetry.inversion", "len", "in", "==", "conjugacy_classes", "equivalence_classes"])

prop("C10", "Orbits: realising, reducing and completing point sets is lossless",
  """Reducing symmetric data to representatives and realising it again gives back exactly the same points and values; realised sets are closed under the group and contain no duplicates, orbit sizes and k-weights follow the orbit-stabiliser count,
  and completed neighbour lists are closed under the group with one representative of every plus/minus pair.""",
  ["inputs"], "all groups, all point sets (generic, on mirror planes and axes, at the origin, wrapped at the zone boundary) and all data on them",
  "the suite realises a few fixed points for the cubic group",
  ["symmetry.py"],
  [("realize_symmetric/realize_symmetric_data/reduce_symmetric_data", S+"symmetry.py:526"), ("complete_neighbors/check_neighbors/k_weight/r_class_size/find_classes", S+"symmetry.py:701")],
  ["realize_symmetric", "realize_symmetric_data", "reduce_symmetric_data", "complete_neighbors", "check_neighbors", "k_weight", "r_class_size", "find_classes"])

prop("C11", "Tensor symmetrisation is the invariant projection",
  """Symmetrising any tensor of any rank over a group, as a true tensor or a pseudotensor, gives a tensor that every group operation (including inversion) maps to itself, leaves already invariant tensors unchanged and therefore is idempotent and linear.""",
  ["inputs", "configurations"], "all groups, ranks 0-4, true and pseudo tensors, all tensor values",
  "the suite checks one isotropic rank-2 case",
  ["symmetry.py"],
  [("Symmetry.symmetrize", S+"symmetry.py:827")], ["Symmetry.symmetrize"])

prop("C12", "Representations are homomorphisms",
  """Every unitary representation that is named, generated, summed, multiplied, permuted or matched to a group assigns to each group operation a unitary matrix such that composition and inversion are respected (projectively at most by a sign/phase where the group is double),
  and sums and products act as the direct sum and Kronecker product of their factors.""",
  ["inputs", "programs"], "all named representations and all sums/products/permutations of them over all named groups",
  "the suite checks two representations for one group",
  ["unitary_representations.py", "linalg.py", "symmetry.py"],
  [("UnitaryRepresentation.from_generator/o3/so3/d3/__add__/__mul__/match_sym", S+"unitary_representations.py:40")],
  ["UnitaryRepresentation.U", "UnitaryRepresentation.inv_split", "check"])

prop("C13", "Symmetrised hoppings give a Hamiltonian with the symmetry",
  """Symmetrising the hopping matrices of any model over a point group, with any orbital content, yields a model whose bands at k and at every symmetry image of k coincide and whose Hamiltonians there are related by the orbital representation;
  symmetrising twice changes nothing, already symmetric models stay unchanged, and the fast precomputed symmetriser agrees with the direct one.""",
  ["inputs", "configurations"], "all point groups and orbital contents (s, p, d on one or several sites), all neighbour lists closed under the group, all hopping matrices",
  "the suite runs one cubic group with one orbital set and one neighbour list",
  ["hamiltonian_symmetry.py", "unitary_representations.py", "symmetry.py"],
  [("HamiltonianSymmetry.symmetrize/symmetrizer/apply", S+"hamiltonian_symmetry.py:240"), ("UnitaryRepresentation.symmetrize/symmetrizer", S+"unitary_representations.py:156")],
  ["symmetrizer(...)", "symmetrize(...)", "bands after symmetrisation"])

prop("C14", "Cell-cut volumes are the exact linear-interpolation geometry",
  """For each smearing method the fraction of a cell below an energy lies in [0,1], never decreases with energy, is 0 below and 1 above the cell's energy range, and equals the exact volume of the half-space cut through the cube, tetrahedron or ball;
  the returned densities are its energy derivative and combined evaluations agree with separate ones.""",
  ["inputs"], "all band values and gradients including zero, axis-parallel, equal and extremely anisotropic components, all energies (the extrapolated method is the combination 4/3, -1/3 of two exact volumes)",
  "the suite compares two implementations of the cube cut on random generic gradients; degenerate gradients and the other methods are not reached",
  ["smearing.py"],
  [("cube_cut_*", S+"smearing.py:60"), ("tetra_cut_*", S+"smearing.py:353"), ("unit_sphere_cut", S+"smearing.py:455")],
  ["cube_cut_volume", "cube_cut_dvolume", "cube_cut_volume_dvolume", "cube_cut_area_com", "tetra_cut_volume", "SmearingMethod.volume/dvolume/volume_dvolume"])

prop("C15", "Density of states conserves states",
  """For every model, grid, smearing method and option, the number of states below an energy rises monotonically from 0 to the number of bands, is the sum of the per-band counts, and the density is non-negative and its derivative, so that it integrates to the number of bands;
  the counts converge to the fraction of k-space below the energy, and shifting, scaling or duplicating bands shifts, scales or duplicates the curves.""",
  ["inputs", "configurations"], "all band structures, grids, smearing methods, gradient and midpoint options, symmetric and asymmetric ranges, all energies (the extrapolated method 'cubes+' is neither monotone nor bounded between samples and is exempt from those two)",
  "the suite checks a linear, a sine and a cubic band at a few settings",
  ["density_of_states.py", "smearing.py"],
  [("DensityOfStates.__init__ and queries", S+"density_of_states.py:202"), ("full_curve", S+"density_of_states.py:402"), ("SmearingMethod implementations", S+"smearing.py")],
  ["states_below", "states_density", "density", "full_curve", "density_bands", "k_resolved_density", "energy_range"])

prop("C16", "Fermi level, chemical potential and band gap are consistent with the filling",
  """The Fermi energy returned for n electrons is an energy at which exactly n states are filled (inside the gap for an insulator), the band gap edges bracket it and are the true band extrema of the sampled data,
  and the chemical potential at any temperature makes the thermal occupation equal n and tends to the Fermi energy for vanishing temperature.""",
  ["inputs", "configurations"], "all band structures, fillings strictly between zero and full (metallic, touching, gapped) which the sampled count attains, temperatures and smearing methods",
  "the suite checks free electrons and one gapped toy model",
  ["density_of_states.py"],
  [("fermi_energy/bandgap/chemical_potential/naive_fermi_energy", S+"density_of_states.py:455")],
  ["fermi_energy", "bandgap", "chemical_potential", "energy_range"])

prop("C17", "Thermal averages equal the Fermi-Dirac integrals of the density of states",
  """Thermally broadened state counts and densities, the electronic energy and the electronic heat capacity are the Fermi-Dirac weighted integrals of the zero-temperature state count that the same object reports; energy is non-decreasing in temperature, its temperature derivative is the heat capacity,
  and all reduce to the zero-temperature values for vanishing temperature.""",
  ["inputs", "configurations"], "all band structures, fillings and temperatures, from far below the sampling resolution to comparable with the band width",
  "the suite checks free-electron limits at one temperature",
  ["density_of_states.py"],
  [("convolve_df/convolve_ddf/int_poly/gauss_*", S+"density_of_states.py:13"), ("energy/heat_capacity/full_curve(T)", S+"density_of_states.py:402")],
  ["full_curve(T)", "energy", "heat_capacity", "chemical_potential", "naive_energy"])

prop("C18", "Fermi-surface samples and exports lie on the Fermi surface",
  """Every point sampled, drawn or exported as Fermi surface lies on a level set of a band at the Fermi energy to grid resolution, belongs to a band that crosses the level, and together the sampled area elements converge to the true surface area;
  bands that do not cross contribute nothing, and exported meshes are well formed with every vertex index valid.""",
  ["inputs", "configurations"], "all band structures, energies, grids, lattices and symmetry settings (weights are normalised by the volume of the Brillouin zone)",
  "the Fermi-surface module has 0% coverage in the suite",
  ["fermi_surface.py", "density_of_states.py", "smearing.py"],
  [("fermi_surface_samples", S+"density_of_states.py:735"), ("fermi_surface/export_3D_fermi_surface", S+"fermi_surface.py")],
  ["fermi_surface_samples", "fermi_surface", "export_3D_fermi_surface", "cut_band_indices"])

prop("C19", "Transport integrals have the right values, symmetry and units",
  """Conductivity-type k-integrals equal the defining Fermi-surface or thermal averages of velocity products, are symmetric positive semidefinite tensors, transform as tensors under a change of lattice, scale linearly with relaxation time and spin, and reproduce Drude, Wiedemann-Franz and Hall results for free electrons;
  coefficients derived from them satisfy their defining relations.""",
  ["inputs", "configurations"], "all band structures, lattices, temperatures, chemical potentials, relaxation-time functions and quadrature orders, to the accuracy of the k-grid",
  "the suite checks a 1D integral and one free-electron setting",
  ["bulk_properties.py", "density_of_states.py"],
  [("KIntegral.*", S+"bulk_properties.py:164"), ("conductivity/peltier/seebeck/electronic_thermal_conductivity/hall_coefficients", S+"bulk_properties.py:30")],
  ["KIntegral.integrate_df", "KIntegral.integrate_df_A", "transport_coefficients", "conductivity_hall_tensor", "drude_factor", "conductivity", "seebeck", "peltier", "electronic_thermal_conductivity", "hall_coefficients"])

prop("C20", "k-paths and band interpolation reproduce the sampled data",
  """A k-path visits its corner points in order, evenly spaced on every segment, with non-decreasing arc-length coordinates that match its labels, for any chain of segments and jumps; interpolated bands pass through every sampled point and all its symmetric and periodic images and are exact for data in the interpolation space.
  The generated high-symmetry points of a lattice lie on the Brillouin-zone boundary where they are named to be.""",
  ["inputs", "configurations"], "all chains of path segments and jumps, all lattice parameters, all sampled grids, symmetry groups and interpolation methods (cubic interpolation to the accuracy of scipy's iterative solver)",
  "the suite draws one path and interpolates one data set",
  ["kpaths.py", "symmetry.py"],
  [("KPath", S+"kpaths.py:33"), ("interpolate/interpolate_unstructured", S+"kpaths.py:252"), ("hexagonal_points/tetragonal_bc_points/trigonal_points", S+"kpaths.py:377")],
  ["KPath", "interpolate", "interpolate_unstructured", "hexagonal_points", "tetragonal_bc_points", "trigonal_points"])

prop("C21", "Quantum Espresso results are read as what the files say",
  """Reading the result files of a Quantum Espresso run gives the k-points in crystal coordinates, the energies in eV, the symmetry operations acting on reciprocal crystal coordinates, the crystal (lattice, atom positions, species, cut-off) and the orbital projections that the files contain, for every unit setting, number of bands, atoms, spins and symmetries.""",
  ["inputs"], "all well-formed result files within the supported formats (wavefunction files of collinear and spinor runs; the Fermi energy where the run wrote one)",
  "the suite reads one xml file of copper and no other output format",
  ["qespresso_interface.py"],
  [("QECrystal.read_*", S+"qespresso_interface.py:420"), ("from_disk", S+"qespresso_interface.py:1354")],
  ["read_bands_crystal", "from_disk", "read_projections", "read_bandx_raw", "read_wavefunctions", "read_charge_density", "read_dos", "read_dielectric_function"])

prop("C22", "Quantum Espresso inputs describe the requested crystal and k-points",
  """The lattice constructors give right-handed cells with exactly the requested lengths, angles and centring, and every generated Quantum Espresso or Wannier90 input contains exactly the lattice, atoms, k-points and grid of the crystal object in the stated unit; mass density and density scaling are consistent with them.""",
  ["inputs", "configurations"], "all valid lattice parameters, atomic bases and k-point lists",
  "input generation and the lattice constructors are not tested at all (module coverage 12%)",
  ["qespresso_interface.py"],
  [("lattice constructors", S+"qespresso_interface.py:131"), ("k_points/k_grid/_crystal/crystal_wannier/k_points_wannier", S+"qespresso_interface.py:233"), ("mass_density/scale_to_density", S+"qespresso_interface.py:392")],
  ["sc/fcc/bcc/hexagonal/...", "k_points", "k_grid", "scf/nscf/bands input files", "mass_density"])

prop("C23", "Queries have no side effects and copies are independent",
  """Evaluating, comparing, saving or deriving quantities from a model, symmetry group, representation, path or density-of-states object never changes that object nor any array the caller passed in, so repeating a query gives the same answer whatever was queried in between;
  changing a copy never changes the original and vice versa.""",
  ["histories", "inputs"], "all interleavings of queries and mutations over an object and its copies (a constructor may keep the array it was given; the neighbour list is immutable and may be shared)",
  "the suite never repeats a query after other operations and never inspects the arguments or the source of a copy",
  ["tight_binding_asym.py", "bandstructure.py", "symmetry.py", "unitary_representations.py", "density_of_states.py", "kpaths.py", "hamiltonian_symmetry.py"],
  [("copy methods and ndarray aliasing", S+"tight_binding_asym.py:92"), ("copy", S+"bandstructure.py:82"), ("copy", S+"symmetry.py:109")],
  ["every public query method, digest of object state and arguments before and after"])

prop("C24", "Linear-algebra helpers satisfy their defining equations",
  """The helper routines return what they are named for on every valid input: generalised eigenpairs that solve the problem and are normalised with the overlap, block sums and Kronecker products with the right structure, a conjugate-gradient solution of the system, all and only the lattice vectors inside a sphere, and a point-cloud distance that vanishes exactly for equal clouds in any order.""",
  ["inputs"], "all matrices (stacked or single), lattices, radii and point clouds in the supported dimensions",
  "the suite does not test the helpers directly",
  ["linalg.py"],
  [("geigh/geigvalsh/direct_sum/kron/lattice_in_sphere/conjugate_gradient_solve/pointcloud_distance", S+"linalg.py")],
  ["linalg.geigh", "linalg.geigvalsh", "linalg.direct_sum", "linalg.kron", "linalg.lattice_in_sphere", "linalg.conjugate_gradient_solve", "linalg.pointcloud_distance"])

prop("C25", "Reference models reproduce free electrons",
  """The free-electron reference bands are the lowest folded parabolas of the lattice with the right units, ordering, gradients and Hessians, and the free-electron tight-binding construction for orthogonal lattices approaches the lowest folded parabolas along every axis within the bound given by the Fourier terms that it leaves out.""",
  ["inputs", "configurations"], "all lattices, band counts and k-points",
  "the suite evaluates a single cubic lattice",
  ["bulk_properties.py", "tight_binding_asym.py"],
  [("FreeElectrons", S+"bulk_properties.py:466"), ("free_electron_model_orthogonal", S+"tight_binding_asym.py:893")],
  ["FreeElectrons.__call__", "FreeElectrons.bands_grad", "FreeElectrons.bands_grad_hess", "free_electron_model_orthogonal"])

prop("C26", "Plots and fit logs show what was computed",
  """Drawing never changes or mixes up the data: every band is one line through exactly its samples (runs of a band file stay separate lines, corners and the Fermi level are marked at their places, the same band of two models has the same colour), a drawn crystal shows every atom of the drawn cells at its position in the colour of its kind together with the cell, and the log of a fit returns, counts, prints and plots exactly the iterations, losses, errors and messages that were added, also for a perfect fit.""",
  ["inputs", "histories"], "all models, samples, crystals and all histories of log entries",
  "the suite neither inspects a figure nor the contents of a log",
  ["bandstructure.py", "qespresso_interface.py", "logger.py"],
  [("plot_bands_generic", S+"bandstructure.py:14"), ("plot_bands", S+"bandstructure.py:915"), ("plot_bands_generic", S+"qespresso_interface.py:121"), ("QECrystal.plot_bands", S+"qespresso_interface.py:466"), ("OptimisationLogger", S+"logger.py:6")],
  ["BandStructureModel.plot_bands", "qespresso_interface.plot_bands_generic", "QECrystal.plot_bands", "QECrystal.plot_wannier_bands", "QECrystal.plot_crystal", "OptimisationLogger.add_data", "OptimisationLogger.plot_loss"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
