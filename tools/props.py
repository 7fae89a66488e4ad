import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
SIM="nannos/simulation.py"; LAY="nannos/layers.py"; LAT="nannos/lattice.py"
p("C01","Answers do not depend on what was asked before",
 "Whatever a simulation has been asked so far (diffraction efficiencies in any form, scattering matrices of any range of layers, fields, stress integrals, permittivities, layer lookups, explicit solving, in any order and any number of times), each answer equals the one a freshly built identical simulation gives.",
 ["histories"],"every sequence of public queries on one simulation, for every range of layers and every layer",
 "The tests ask one or two questions per simulation in one fixed order; the memoized scattering matrices and amplitudes make the answer depend on the order only in histories no test performs.",
 [SIM,LAY],[("memoized partial scattering matrices","Simulation.get_S_matrix"),("lazy solving","Simulation.is_solved / solve"),("external and internal amplitudes","Simulation._solve_ext/_solve_int")],
 [("_intermediate_S","memoized scattering matrices by range","Simulation"),("S","scattering matrix of the whole stack","Simulation")],
 ["diffraction_efficiencies","get_S_matrix","get_field_fourier","get_z_stress_tensor_integral"])
p("C02","A reset simulation reflects the current layers",
 "After the thickness of a layer is changed and the simulation is reset (its scattering matrices or everything), or after the permittivity of a layer other than the incidence medium is replaced by another of the same kind and the simulation is fully reset, every answer is the one of a freshly built simulation with the current layers. This holds for any number of changes and resets, whichever queries were made in between.",
 ["histories"],"every interleaving of thickness changes, permittivity changes, resets and queries",
 "Tests reset once at most; stale caches only show in particular sequences of change, query and reset.",
 [SIM,LAY],[("reset of caches","Simulation.reset"),("memoized partial scattering matrices","Simulation.get_S_matrix"),("solution token","Simulation.is_solved")],
 [("layer.thickness","current thickness","Layer"),("layer.epsilon","current permittivity","Layer"),("_intermediate_S","memoized scattering matrices","Simulation")],
 ["diffraction_efficiencies","get_S_matrix","get_field_fourier"])
p("C03","Simulations sharing layers do not interfere",
 "When layer objects are used in several simulations (different excitations, harmonics, stacks), each simulation answers every question as if it were alone, in whatever order the simulations are solved and queried.",
 ["histories"],"every interleaving of queries on simulations built over a common pool of layers",
 "Tests build independent layers for each simulation; solutions are stored in the layers, so interference needs interleaved use of two simulations.",
 [SIM,LAY],[("ownership of the solution stored in the layers","Simulation.is_solved"),("solve","Simulation.solve")],
 [("eigenvalues, eigenvectors, Qeps","solution stored in the layer object","Layer")],["diffraction_efficiencies","get_field_fourier","get_S_matrix"])
p("C04","Copies of layers behave as independent layers",
 "A stack containing copies of layers gives the same answers as the stack in which each copy is replaced by a layer built independently with the copy's current name, thickness and permittivity, wherever the original and its copies stand in the stack, whether or not the original is part of it, and for copies of copies.",
 ["programs","histories"],"every arrangement of originals and copies, with thickness or permittivity changed before or after copying",
 "Tests copy a layer in one arrangement (original above the copy); the shortcut that reuses eigenmodes depends on the position and on changes after copying.",
 [SIM,LAY],[("copy","Layer.copy"),("reuse of the eigenmodes of the original","Layer.solve_eigenproblem, Simulation.build_matrix")],
 [("original","the layer a copy was made from","Layer"),("iscopy","copies may reuse eigenmodes","Layer")],["diffraction_efficiencies","get_field_fourier"])
p("C05","Backend, precision and device selection",
 "After any sequence of backend, precision, device and log-level selections, the reported backend, device, number types and log level are the last ones effectively selected (unknown backends are rejected and GPU requests that cannot be honoured are ignored, both without changing anything), all parts of the package use that same backend and precision, and a simulation runs with them and gives the reference result. The environment variables choose the initial backend only.",
 ["histories","configurations"],"every sequence of selections, including rejected ones, for every initial environment",
 "Each test switches backend once in a fresh process; the selection is kept in module globals across package reloads, so only longer histories expose leftovers of an earlier choice.",
 ["nannos/__init__.py","nannos/log.py","nannos/utils/helpers.py"],[("selection flags surviving reloads","set_backend, use_gpu, use_32_bit"),("package reload","_reload_package")],
 [("_SCIPY,_AUTOGRAD,_JAX,_TORCH","selected backend","nannos"),("_USE_32","single precision","nannos"),("_GPU_DEVICE","gpu selected","nannos")],["get_backend","get_device","get_types","Simulation"])
p("C06","All backends compute the same physics",
 "The same scene gives the same diffraction efficiencies (total and per order), complex coefficients, fields and stress integrals with every available backend, up to rounding, in double and in single precision, whatever was selected before in the process.",
 ["configurations","inputs"],"every backend and precision, every formulation and lattice type",
 "Tests run each backend on a few scenes and mostly do not compare numbers across backends.",
 ["nannos/__init__.py",SIM,LAY,"nannos/formulations/tangent.py","nannos/formulations/fft.py","nannos/utils/helpers.py"],[("backend dispatch","nannos.backend"),("indexed assignment","set_index"),("fft wrappers","formulations/fft.py")],(),
 ["diffraction_efficiencies","get_field_grid","get_z_stress_tensor_integral"])
p("C07","Energy is conserved",
 "For lossless stacks the reflected and transmitted powers sum to one, and the power flux along the normal is the same at every depth, for any lattice, pattern (including Hermitian anisotropic ones), incidence, polarization and number of harmonics with the default formulation. With absorbing layers they sum to less than one and the missing part is what the absorbing layers take from the flux, which never increases with depth.",
 ["inputs"],"all stacks, patterns, incidences and truncations",
 "Tests check R+T=1 on two or three stacks at particular incidences.",
 [SIM,LAY],[("power flux","Simulation.get_z_poynting_flux"),("normalization by the incident flux","Simulation.diffraction_efficiencies"),("scattering matrix recursion","Simulation.get_S_matrix")],(),
 ["diffraction_efficiencies","get_field_fourier"])
p("C08","Planar multilayers are solved exactly",
 "Reflected and transmitted powers, the complex reflection coefficient and the field intensities at the interfaces of planar multilayers agree with exact thin-film optics for both polarizations and any mixture, any azimuth, transparent, totally reflecting, metallic or absorbing substrates, whether layers are given as numbers or as constant patterns.",
 ["inputs"],"all planar stacks of quarter-pi optical thicknesses with rational wavenumbers",
 "Tests compare one interface or one slab with a reference; they do not vary stack, polarization, azimuth and substrate together.",
 [SIM,LAY,"nannos/excitation.py"],[("uniform modes","Layer.solve_uniform"),("interface matrices","_build_Imatrix"),("incident amplitudes","PlaneWave")],(),["diffraction_efficiencies","get_field_fourier"])
p("C09","Equivalent stacks give equal answers",
 "Rewriting a stack without changing the structure (splitting or merging layers of the same pattern, adding or removing layers of zero thickness, giving a uniform layer as a constant pattern, changing the thickness of the outermost media, renaming layers) changes no efficiency and no complex coefficient, apart from the phase reference at the outer faces.",
 ["programs"],"all sequences of rewriting steps from any stack",
 "Tests never compare two descriptions of one structure.",
 [SIM,LAY],[("scattering matrix recursion","Simulation.get_S_matrix"),("phases","phasor"),("uniform and patterned modes","Layer.solve_uniform, Layer.solve_eigenproblem")],(),["diffraction_efficiencies"])
p("C10","Harmonics are chosen as documented",
 "The harmonics retained are distinct, contain the zeroth order and, for the circular truncation, are exactly those closer to the origin than some radius in reciprocal space; for the parallelogrammic truncation they form a square index range, and for mono-periodic gratings the lowest orders in absolute value, never more than the number requested. An explicit list of harmonics is used as given, and a discretization too coarse for the harmonics is rejected.",
 ["inputs"],"all lattices, numbers of harmonics and discretizations",
 "Tests check lengths for a few square lattices; the metric matters for oblique lattices only.",
 [LAT,SIM],[("truncation rules","_circular_truncation, _parallelogramic_truncation, _one_dim_truncation"),("Nyquist check","Simulation.__init__")],(),["Lattice.get_harmonics","Simulation.harmonics","Simulation.nh"])
p("C11","Diffraction orders are accounted for consistently",
 "For every scene the totals equal the sums over orders, the dictionaries contain exactly the retained orders with the values that order lookups return, the squared moduli of the complex coefficients equal the powers of each order, evanescent orders carry no power, and asking for the powers in one form does not change another.",
 ["inputs","configurations"],"all scenes, orders and combinations of the options",
 "Tests call one or two option combinations on one scene.",
 [SIM],[("efficiencies","Simulation.diffraction_efficiencies"),("complex coefficients","Simulation._get_complex_orders"),("order index","Simulation.get_order_index")],
 [("harmidx_dict","order to index","Simulation")],["diffraction_efficiencies","get_order","get_order_index"])
p("C12","Field accessors agree with one another",
 "All ways to obtain the fields (per component, electric or magnetic only, several depths at once or one by one, in Fourier or real space, by layer index, negative index, name or object, on any grid shape) describe the same field, whose real-space values are the plain Fourier sum of its harmonics.",
 ["inputs","configurations"],"all accessors, components, depths, layers and grids",
 "Tests check that the calls run and have some shape.",
 [SIM],[("fields","Simulation.get_field_fourier, get_field_grid"),("Fourier synthesis","Simulation.get_ifft_amplitudes"),("layer lookup","_get_layer")],(),["get_field_fourier","get_field_grid","get_Efield_grid","get_Hfield_grid","get_ifft"])
p("C13","Fields satisfy Maxwell's interface conditions",
 "Tangential electric and magnetic fields are continuous at every interface of every stack, in the outermost media the field consists of the incident wave and of outgoing waves only, and within each layer the harmonics satisfy Maxwell's equations.",
 ["inputs"],"all stacks, patterns, incidences and interfaces",
 "Tests never look at the fields on both sides of an interface.",
 [SIM,LAY],[("mode amplitudes","Simulation._solve_int, _solve_ext"),("translation of amplitudes","_translate_amplitudes"),("fields","Simulation.get_field_fourier")],(),["get_field_fourier"])
p("C14","Rasterized shapes are exact",
 "The mask of a shape on the grid of any lattice is true at the grid points inside the shape and false at those outside, for any position, discretization (square or not) and overlap with the cell boundary; rectangles, squares, polygons, circles, ellipses with rotations and stripes are the shapes their parameters describe.",
 ["inputs"],"all shapes, lattices and discretizations",
 "Tests rasterize a few centred shapes and do not compare with the shape point by point.",
 ["nannos/geometry.py",LAT],[("recursive subdivision","shape_mask"),("change of coordinates","geometry_mask"),("shapes","polygon, circle, ellipse, rectangle, square, stripe")],(),["Lattice.polygon","Lattice.circle","Lattice.ellipse","Lattice.rectangle","Lattice.square","Lattice.stripe","Lattice.geometry_mask"])
p("C15","The permittivity seen by the solver is the pattern's",
 "The permittivity reconstructed from a simulation is the pattern of the layer band-limited to the differences between retained harmonics and the zeroth order; it equals the pattern exactly when the harmonics resolve the grid, and is the given number for uniform layers.",
 ["inputs"],"all complex patterns on grids of any parity, lattices and harmonics",
 "Tests look at shapes only; a transposed, conjugated or shifted pattern passes on symmetric test patterns.",
 [SIM,"nannos/formulations/fft.py"],[("Toeplitz matrices","Simulation._get_toeplitz_matrix"),("Fourier transforms","formulations/fft.py"),("reconstruction","Simulation.get_epsilon, get_ifft")],(),["get_epsilon"])
p("C16","Parallel loops keep order and lose nothing",
 "A parallelized function applied to any list returns, for any number of jobs, preference and relative speed of the tasks, the results of the sequential calls in the order of the arguments, each argument being evaluated exactly once and the extra arguments passed unchanged; an exception of a task reaches the caller.",
 ["schedules","inputs","fault_sequences"],"all lists, numbers of workers, completion orders and failing tasks",
 "Tests run one parallel loop with tasks of equal duration.",
 ["nannos/parallel.py"],[("decorated loop","parloop")],(),["parloop"])
p("C17","Adaptive sampling refines exactly where needed",
 "The sampled abscissas are sorted, distinct, contain the initial ones and are each evaluated exactly once, with values in the same order; sampling stops exactly when no triple of consecutive points bends more than allowed, or is uneven by more than a factor of three, outside the resolution limits; each such triple gets the middle of its longer segment (the second when equal) and no other point is added.",
 ["inputs","histories"],"all functions on a grid, initial points and tolerances",
 "Tests sample one smooth function and check that it runs.",
 ["nannos/sample.py"],[("refinement rule","adaptive_sampler.get_new"),("merge of points","adaptive_sampler")],(),["adaptive_sampler"])
p("C18","The topology optimizer follows its schedule",
 "For every method, each level of the threshold range is optimized once, in order, with the projection parameter of that level and the other arguments unchanged, starting from the point the previous level retained (an evaluated one, no worse than its start); the callback sees every evaluated point with its value, evaluations stay within the bounds, and the point and value returned belong together, also when the stop value interrupts a level.",
 ["histories","inputs"],"all objective functions, schedules, budgets and stop values",
 "Tests run one optimization and check that it ends.",
 ["nannos/optimize.py"],[("levels","TopologyOptimizer.minimize"),("stop value","StopFun")],
 [("current_iteration","evaluations so far","TopologyOptimizer")],["TopologyOptimizer.minimize"])
p("C19","Symmetries of the structure are respected",
 "Translating the pattern, rotating or mirroring the whole scene, exchanging or replacing the lattice vectors by an equivalent basis, and scaling all lengths with the wavelength leave the efficiencies unchanged, the orders being relabelled accordingly.",
 ["inputs"],"all compositions of symmetry operations on all scenes",
 "Tests never compare a scene with its transform.",
 [SIM,LAT,LAY,"nannos/excitation.py"],[("lattice geometry","Lattice.reciprocal, grid"),("wavevectors","Simulation.__init__, PlaneWave"),("Fourier matrices","Simulation._get_toeplitz_matrix")],(),["diffraction_efficiencies"])
p("C20","Equivalent periodic cells give equal answers",
 "A structure described with a repeated cell (a supercell), or a mono-periodic grating described as a bi-periodic one invariant along a direction, gives the efficiencies of the elementary description, with power only in the orders of the elementary lattice.",
 ["inputs"],"all patterns, supercell multiplicities, lattices and incidences with corresponding harmonics",
 "Tests never compare two descriptions of one periodic structure.",
 [SIM,LAT],[("explicit harmonics","Lattice.harmonics_array"),("mono-periodic lattices","Lattice.is_1D"),("Fourier matrices","Simulation._get_toeplitz_matrix")],(),["diffraction_efficiencies"])
p("C21","Invalid input is rejected, valid input accepted",
 "Every combination of construction and query arguments is accepted exactly when it is documented as valid, and rejected otherwise with an exception of the documented kind before any result is returned: layer names, thicknesses and lattices, formulations, truncations, discretizations, field and component names, layer identifiers, diffraction orders and shapes on mono-periodic lattices. A rejected call leaves the objects usable as before.",
 ["inputs","configurations"],"all combinations of valid and invalid arguments",
 "Tests try a few invalid arguments one at a time.",
 [SIM,LAT,LAY],[("checks","Simulation.__init__, Lattice.__init__, Lattice.no1d, Layer.__init__, _get_layer, get_order_index")],(),["Simulation","Lattice","Layer"])
p("C22","Gradients are the derivatives of the results",
 "With the differentiable backends (autograd and torch), the gradient of the efficiencies (totals, orders, and functions of them) with respect to layer thicknesses, to the real or complex permittivity of uniform, patterned and anisotropic layers (given directly or through a filtered and projected density) and to the wavelength is their derivative, real and finite, for any stack, pattern and incidence whose layers have distinct modes; with torch this extends to complex coefficients, fields and stress integrals.",
 ["inputs"],"all stacks, parameters and directions",
 "Tests compare one gradient on one scene at most.",
 ["nannos/__init__.py",SIM,LAY],[("differentiable operations","nannos.grad, backend"),("eigenmodes","Layer.solve_eigenproblem")],(),["nannos.grad"])
p("C23","Scattering matrices compose",
 "The scattering matrix of a range of layers is the composition of those of its parts wherever it is cut, the matrix of an empty range is the identity, the matrix of the whole stack does not depend on how it is asked for and yields the efficiencies, and for lossless stacks it conserves energy for any combination of incoming propagating orders.",
 ["inputs","histories"],"all ranges and cuts of all stacks",
 "Tests only ask for the whole matrix.",
 [SIM],[("scattering matrix recursion","Simulation.get_S_matrix")],[("_intermediate_S","memoized scattering matrices","Simulation")],["get_S_matrix"])
p("C24","Power goes only to propagating orders",
 "A reflected or transmitted order carries power only when the grating equation makes it propagating in the outer medium, for every lattice, wavelength, incidence and pair of outer media.",
 ["inputs"],"all lattices, orders, incidences and outer media with exact rational kinematics",
 "Tests do not look at individual orders near their cutoff.",
 [SIM,"nannos/excitation.py",LAT],[("wavevectors of the orders","Simulation.__init__"),("reciprocal lattice","Lattice.reciprocal"),("power flux","Simulation.get_z_poynting_flux")],(),["diffraction_efficiencies"])
p("C25","Density filters and interpolations are exact at their nodes",
 "Projections (with one or several thresholds) and two-material interpolation map the densities 0 and 1 to the extreme values, are monotone and stay between them; interpolation of several materials passes through every prescribed material at its node; the values are those of the documented laws. Filtering keeps constant densities and the mean density, is linear, commutes with cyclic translations, and with the mirrors of densities of odd size.",
 ["inputs"],"all densities, sharpness, thresholds, penalization powers and material lists",
 "Tests evaluate them once without comparing values.",
 ["nannos/optimize.py","nannos/utils/helpers.py"],[("interpolation","simp, multi_simp"),("projection","project, multi_project"),("filter","apply_filter")],(),["optimize.simp","optimize.project","optimize.multi_simp","optimize.multi_project","apply_filter"])
p("C26","Formulations apply the factorization they name",
 "With one harmonic a patterned layer acts as a film whose permittivity along each in-plane axis is the mean (original formulation) or, for the tangent, pol and jones formulations, the mean along the tangent field and the inverse of the mean inverse across it; one lamellar grating gets the same answers from every description of its lattice, direction, tangent field (computed or given, of any sign, and of any length except for jones) that uses the same rule, computed tangent fields being along its grooves and turning with any pattern; and for smooth patterns all formulations and truncations have the same limit.",
 ["inputs"],"all patterns, tangent fields, lattices, directions of variation and formulations",
 "Tests only run the formulations; none compares what they compute.",
 [SIM,LAY,"nannos/formulations/tangent.py","nannos/formulations/jones.py"],[("factorization","Simulation.build_matrix, _get_Peps, _get_nu_hat_inv"),("tangent fields","formulations.tangent, Layer.get_tangent_field"),("jones fields","formulations.jones")],(),["formulation","tangent_field","tangent_field_type","get_tangent_field"])
p("C27","Stress integrals are the momentum the field carries",
 "In uniform outer media the integrals of the stress tensor are the momentum of the incident, reflected and transmitted orders, at any depth; lateral stress passes every interface and is the lateral momentum of the power flux everywhere, normal stress is the mean of Maxwell's stress over the cell and constant with depth in transparent layers (patterned, including anisotropic, with the default formulation), uniform transparent layers feel no lateral force, nor do lamellar patterns along their grooves.",
 ["inputs"],"all stacks, patterns, incidences, depths and ways to name a layer",
 "Tests call the stress integral once and look at no value.",
 [SIM],[("stress integrals","Simulation.get_z_stress_tensor_integral"),("fields","Simulation.get_field_fourier"),("order powers","Simulation.diffraction_efficiencies")],(),["get_z_stress_tensor_integral"])
p("C28","Pictures show the structure",
 "The three-dimensional picture of a structure shows, once in every period and at the depth the layers above it leave, every layer whose permittivity is not one: uniform layers as full cells, patterned ones as one solid per value covering the points with that value on any lattice and grid, layers of no thickness with the one given (or the largest), each with the style given to it, with every backend. The picture of a bi-periodic layer shows the chosen part of the permittivity at the points of the lattice once per period.",
 ["inputs"],"all stacks, lattices, grids (square or not), periods and spacings",
 "No test draws anything.",
 ["nannos/plot.py",LAY],[("pictures of structures","plot.plot_structure"),("pictures of layers","plot.plot_layer, Layer.plot")],(),["plot_structure","Layer.plot"])
p("C29","Light paths are reversible",
 "With the default formulation (and tangent for mono-periodic gratings), the power one channel (a side, an order, a polarization) of a structure sends to another is what it receives from it in the structure with transposed permittivities when both are reversed, with or without absorption. Powers are never negative, a channel sends out no more than it is given, all of it without absorption, and the answer does not depend on which channels are asked first.",
 ["inputs"],"all structures, pairs of channels and orders of questions",
 "Tests never compare a structure illuminated from two sides or in two orders.",
 [SIM,LAY,"nannos/excitation.py"],[("order powers","Simulation.diffraction_efficiencies"),("eigenmodes of patterned layers","Layer.solve_eigenproblem, Simulation.build_matrix"),("incident wave","PlaneWave, Simulation._solve_ext")],(),["diffraction_efficiencies"])
p("C30","Answers follow the incident wave, not its angles",
 "Sets of angles that describe the same incident wave give the same answers up to its phase: full turns, the polarization turned by half a turn, the polar angle reversed with the azimuth turned by half a turn, and at normal incidence azimuth exchanged for polarization. Complex coefficients and fields of a wave are the combination of those of its p and s parts.",
 ["inputs","histories"],"all structures, incidences and chains of rewritings of the angles",
 "Tests use one description of each wave and never superpose two.",
 ["nannos/excitation.py",SIM],[("angles, wavevector, amplitudes","PlaneWave"),("incident field","Simulation._solve_ext")],(),["PlaneWave","diffraction_efficiencies","get_field_grid"])
p("C31","Computations in parallel threads do not interfere",
 "Simulations with their own layers and excitation (on a common lattice or not), samplers, shapes and density filters computed in several threads of one process give, however the threads are interleaved, the answers each gives alone.",
 ["schedules"],"all interleavings of computations in threads",
 "Tests of parallel loops run trivial functions under whatever schedule occurs.",
 [SIM,LAY,LAT,"nannos/parallel.py","nannos/sample.py"],[("state of computations","Simulation, Layer, Lattice"),("modules","backend, logger, parloop")],(),["Simulation","parloop"])
p("C32","Lattices measure their cell",
 "For every basis the area, basis matrix, reciprocal vectors, grids, coordinates, uniform arrays and stripes of a lattice are those of its cell: reciprocal vectors are dual to the basis, transformations are linear maps of it (of arrays in every accepted form), unit grids cover the cell once with the shape asked for, stripes have the width and position given. This holds in every backend and precision, for mono-periodic lattices too, and no question changes a later answer.",
 ["inputs","configurations"],"all bases, discretizations, backends and sequences of lattices",
 "Tests build a few lattices and compare little of what they give.",
 [LAT],[("cell","Lattice.area, matrix, reciprocal, transform"),("grids","Lattice.unit_grid, grid, ones, stripe")],(),["Lattice"])
p("C33","Layers of any thickness keep answers sound",
 "With layers from nearly no thickness to thousands of decay lengths, powers stay finite, non-negative and balanced, and fields stay bounded. Each thickness takes the same share of what passes an attenuating layer, whose thickness and the layers beneath it are not seen from above once it is opaque; a film acts in proportion to its thickness as that goes to zero, and whole turns of the phase of a uniform layer change nothing.",
 ["inputs"],"all stacks with layers of thickness from 1e-10 to thousands of wavelengths",
 "Tests use layers of about a wavelength.",
 [SIM],[("scattering matrices","Simulation.get_S_matrix, phasor"),("fields inside layers","_translate_amplitudes, Simulation._solve_int"),("powers","Simulation.diffraction_efficiencies")],(),["diffraction_efficiencies","get_field_fourier"])
p("C34","Duplicated simulations answer like the originals",
 "A duplicate of a simulation, solved or not (deep copy, pickle, another process, a new simulation of copied layers), with those that share its layers, answers what the original would have. From then on the two are independent: changing, resetting, asking or dropping one never changes what the other answers, in this process or another.",
 ["histories"],"all histories of building, changing, asking, duplicating and dropping simulations",
 "Tests never copy or pickle a simulation, though parallel loops do.",
 [SIM,LAY,LAT,"nannos/excitation.py"],[("state of simulations","Simulation, is_solved, _intermediate_S"),("state of layers","Layer, Layer.copy"),("lattices and waves","Lattice, PlaneWave")],(),["Simulation","Layer"])
p("C35","Numbers mean the same in every form",
 "Numbers that equal each other give the same answers, given as Python numbers, NumPy scalars, zero-dimensional arrays or arrays of any type wide enough, memory layout or backend, for every argument documented as a number or array. Arguments are not changed, and results belong to the caller: overwriting them in place does not change later answers.",
 ["inputs","histories"],"all arguments in all numeric forms, in every backend",
 "Tests give each argument in one form and never write to results.",
 [SIM,LAY,LAT,"nannos/excitation.py","nannos/utils/helpers.py","nannos/__init__.py"],[("permittivities","Layer"),("cells","Lattice, is_scalar"),("waves","PlaneWave"),("results","Simulation.diffraction_efficiencies, get_field_fourier")],(),["Lattice","Layer","PlaneWave","Simulation"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
sys.path.insert(0,"/verif")
for x in P:
    assert len(x["title"])<=80, x["title"]
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
