"""Writes properties.jsonl (the source of truth for titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
FC='euphonic/force_constants.py'; QM='euphonic/qpoint_phonon_modes.py'; QF='euphonic/qpoint_frequencies.py'
SP='euphonic/spectra.py'; SF='euphonic/structure_factor.py'; DW='euphonic/debye_waller.py'; CR='euphonic/crystal.py'
UT='euphonic/util.py'; BR='euphonic/broadening.py'; PW='euphonic/powder.py'; SA='euphonic/sampling.py'
CU='euphonic/cli/utils.py'; CA='euphonic/readers/castep.py'; PH='euphonic/readers/phonopy.py'; PL='euphonic/plot.py'
VA='euphonic/validate.py'; IO='euphonic/io.py'

p('C01','Fourier interpolation of phonon modes is exact',
 'For any force constants, commensurate supercell, order of the unit cells in it, basis, cell shape and list of q-points, the frequencies and eigenvectors returned by force-constants interpolation without a dipole correction are the square roots of the eigenvalues (negative values standing for imaginary frequencies, ascending eigenvalue order) and orthonormal eigenvectors of the mass-weighted dynamical matrix summed directly over atom pairs at their minimum-image separations, equidistant images sharing the weight. The result for one q-point does not depend on the other q-points, and is periodic under reciprocal lattice vectors up to the eigenvector phases; frequencies are even in q.',
 ['inputs','configurations'],'all cell shapes, supercell matrices (diagonal, non-diagonal, primitive), unit-cell orderings, bases (atoms inside and outside the cell) and q-points of the stated alphabets',
 'tests compare stored outputs for four materials; nothing varies the supercell shape, the ordering of cells or boundary-sharing images',
 [FC],[('minimum-image weights','ForceConstants._calculate_supercell_images'),('phase sum','ForceConstants._calculate_dyn_mat, c/dyn_mat.c')],
 ['calculate_qpoint_phonon_modes','calculate_qpoint_frequencies'])
p('C02','Acoustic sum rule corrections restore zero modes and nothing else',
 'With either acoustic sum rule correction the three acoustic frequencies at gamma are zero while all optic frequencies and eigenvectors at gamma are unchanged, and force constants that already obey the sum rule give unchanged results at every q-point. The real-space correction produces force constants that are translationally invariant and symmetric at every q, and no correction is made (only a warning) when acoustic modes cannot be identified.',
 ['inputs','configurations'],'all cells, supercells, bases, q-points, dipole on/off, C and Python of the alphabet, with exact and broken sum rules',
 'tests compare three materials at 1e-? tolerances to stored data',
 [FC,'c/dyn_mat.c'],[('realspace','ForceConstants._enforce_realspace_asr'),('reciprocal','ForceConstants._enforce_reciprocal_asr, c/_euphonic.c')])
p('C03','Long-range dipole correction is a correct Ewald sum with LO-TO splitting',
 'When Born charges and a dielectric tensor are present, the frequencies do not depend on the dipole (Ewald) parameter; the long-range term behaves as the direct physical limit: approaching gamma along a direction gives the gamma frequencies with LO-TO splitting in that direction, the acoustic modes stay at zero and the splitting does not depend on the length of the approach. Force constants built from totals by subtracting the long-range part give back, on commensurate q-points, the frequencies of the totals, whatever units the arguments use.',
 ['inputs','configurations'],'all cells, bases, isotropic and anisotropic Born charges / dielectric tensors, dipole parameters, directions, unit systems of the alphabet',
 'tests use NaCl, quartz, LZO with a single dielectric type and default parameter; an off-diagonal dielectric tensor is not exercised in C',
 [FC,'c/dyn_mat.c','c/util.c'],[('Ewald','ForceConstants._calculate_dipole_correction, c/dyn_mat.c'),('non-analytic term','ForceConstants._calculate_gamma_correction'),('from_total_fc_with_dipole','ForceConstants.from_total_fc_with_dipole')])
p('C04','The C extension and the Python implementation agree',
 'For every combination of interpolation options, every valid memory layout and dtype of the inputs, and every choice of outputs, the C extension and the pure Python implementation return the same frequencies, equivalent eigenvectors, mode gradients and weights, and raise or warn alike. Requesting the extension never changes the meaning of any option.',
 ['inputs','configurations'],'full product of asr x dipole x splitting x reduce x insert_gamma x gradients x weights x layout x outputs over a q-list alphabet',
 'tests run a few option sets on C-contiguous arrays only',
 [FC,'c/_euphonic.c','c/dyn_mat.c','c/util.c','c/py_util.c'],[('dispatch','ForceConstants._calculate_phonons_at_qpts'),('contiguity','util._ensure_contiguous_attrs')])
p('C05','Interpolation results are independent of threads and their schedule',
 'The frequencies, eigenvectors and gradients computed by the C extension are the same for every number of threads and every interleaving of those threads, and equal the single-threaded result. No thread reads or writes memory outside the buffers it was given.',
 ['schedules','configurations'],'every interleaving with a bounded number of preemptions at conflicting accesses, 2-4 threads, all q-list shapes and option sets of the alphabet',
 'tests run with whatever interleaving the machine happens to produce, usually benign',
 ['c/_euphonic.c','c/dyn_mat.c'],[('parallel loop','c/_euphonic.c calculate_phonons')],['calculate_qpoint_phonon_modes'])
p('C06','Results follow the q-point list: order, duplicates, weights, gamma insertion',
 'Interpolated results are aligned with the requested q-points and weights one to one, in order, whatever duplicates, reciprocal-lattice translates or gamma points the list contains and whether or not equivalent q-points are reduced internally. With gamma insertion, each interior gamma point is duplicated, its weight shared between the copies, and each copy carries the LO-TO splitting of its own neighbour.',
 ['inputs','configurations'],'every q-point list up to length 5 over a small alphabet of gamma, translates, duplicates and general points, with all option combinations',
 'tests use a handful of hand-written lists',
 [FC,UT],[('reduction','ForceConstants._calculate_phonons_at_qpts'),('splitting direction','ForceConstants._calculate_phonons_at_qpts, c/_euphonic.c'),('convert_fc_phases etc.','euphonic/util.py')])
p('C07','Results do not depend on call history; inputs are never modified',
 'Any sequence of operations on one force-constants, modes, crystal or spectrum object gives for each operation the result a freshly constructed object would give, also after attributes have been replaced or units changed. No computing operation changes the object it is called on, its arguments or arrays the user passed in, and copies, spectra made from other spectra (by splitting, indexing, selecting, summing, broadening or arithmetic) and dictionaries made from an object share no mutable data with it.',
 ['histories'],'all operation sequences up to the stated depth over the alphabet of public operations on shared objects',
 'tests call one operation on a fresh object',
 [FC,QM,SP,CR],[('lazily built caches','ForceConstants._dipole_init, _cell_origins_per_image'),('copy','Spectrum.copy')],
 state=[dict(name='caches',meaning='lazily built supercell-image and Ewald tables',where='ForceConstants')])
p('C08','Mode gradients are the q-derivative of the frequencies',
 'Mode gradients returned by interpolation equal the Cartesian q-derivative of the (Fourier interpolated, short-range, as documented) dynamical matrix projected on each eigenvector and divided by twice the frequency: without a dipole correction the derivative of the frequency of every real, non-degenerate mode, and summed over a degenerate set the derivative of the summed frequencies, for every combination of acoustic sum rule, splitting and gamma insertion. Requesting gradients does not change frequencies or eigenvectors, and gradients are aligned with the returned q-points and expressed in the frequency unit times the cell length unit.',
 ['inputs','configurations'],'all cells, bases, q-points and option products of the alphabet',
 'tests compare stored values for quartz and NaCl',
 [FC,'c/dyn_mat.c'],[('gradient of the dynamical matrix','ForceConstants._calculate_dyn_mat, c/dyn_mat.c'),('rotation','c/dyn_mat.c, force_constants.py')])
p('C09','Values never change when their units are changed',
 'For every object, any sequence of unit changes through its unit attributes leaves the physical quantities the same: reading a quantity returns the stored values converted to the selected unit, all results computed from the object are the same physical quantities, and setting a quantity in one unit and reading it in another agree. A unit of the wrong dimensionality is rejected and leaves the object unchanged.',
 ['histories','inputs'],'all sequences of unit changes, sets and reads to the stated depth over all unit-bearing attributes of all public classes',
 'tests set one unit once on a few attributes',
 [SP,FC,QM,QF,CR,DW,SF,UT,VA],[('unit conversion properties','*_unit attributes and quantity properties'),('setter checks','validate._check_unit_conversion, __setattr__')])
p('C10','Serialisation round trips are lossless',
 'Writing any object to a dictionary, JSON file and reading it back gives an object with equal data, units, metadata, weights and labels, whatever units or optional parts it was in when it was written. The written form, text files of spectra included, holds exactly the data of the object, serialisation does not modify the object and the written form does not alias it.',
 ['inputs','configurations','histories'],'product of classes x optional parts x unit choices x metadata shapes x write routes, and re-writing the read object',
 'tests round-trip one example per class',
 [IO,SP,FC,QM,QF,CR,DW,SF],[('to_dict/from_dict','every class'),('io','euphonic/io.py _obj_to_json_file etc.'),('to_text_file','Spectrum1D.to_text_file, Spectrum1DCollection.to_text_file')])
p('C11','Inconsistent data is rejected at construction',
 'Every public data class either accepts constructor data with mutually consistent shapes, types and units, or raises an error naming the problem; it never yields an object whose arrays disagree in shape. Data that is consistent is always accepted, including documented optional and scalar forms.',
 ['inputs'],'all single and pairwise perturbations of shape, type, dimension and unit of each constructor argument',
 'tests try a few bad arguments per class',
 [VA,CR,FC,QM,QF,SP,SF,DW],[('validation','validate._check_constructor_inputs')])
p('C12','Spectrum collections behave as lists of spectra with metadata',
 'A collection of spectra is equivalent, under every operation (indexing, slicing, iteration, concatenation, selection, grouping, summing, building from spectra, broadening, copying), to the plain list of its spectra each with its own merged metadata. Summation and grouping never lose, duplicate or reorder a spectrum or its metadata, whatever units the members carry.',
 ['histories','inputs'],'all operation sequences to the stated depth on all small collections over a metadata alphabet, against a list model',
 'tests check single operations on two example collections',
 [SP],[('collection mixin','SpectrumCollectionMixin / _combine_metadata'),('select/group_by/sum','Spectrum1DCollection, Spectrum2DCollection')])
p('C13','Spectra keep data and axes consistent under split, bins, scaling and arithmetic',
 'For any spectrum the bin edges and bin centres derived from its axes are mutually consistent and monotonic, splitting at any set of points partitions the data without losing, duplicating or moving a value (bin-edge data included), and copies, scaling, addition and subtraction act pointwise on the physical values and leave the operands unchanged.',
 ['inputs','histories'],'all axis shapes (bin edges or points, uniform or not), split points, units and operation sequences of the alphabet',
 'tests split two example band structures',
 [SP],[('bins','Spectrum._bin_edges_to_centres/_bin_centres_to_edges'),('split','Spectrum1D.split, Spectrum2D.split')])
p('C14','Density of states counts every mode once with its weight',
 'A density of states on given bins is the weighted number of modes in each bin divided by its width, so that its integral over bins covering all modes is the number of modes; partial densities of states per species and per atom add up to the total, weighted by the documented cross sections. This holds for uneven bins, any bin units, frequencies on bin edges, imaginary and gamma modes, and any (unnormalised or zero) weights as documented.',
 ['inputs','configurations'],'all assignments of modes to bin positions (inside, on an edge, outside), weights and weightings of the alphabet',
 'tests compare stored DOS for a few materials',
 [QF,QM,UT],[('DOS','QpointFrequencies._calculate_dos'),('PDOS','QpointPhononModes.calculate_pdos')])
p('C15','Structure factors and Debye-Waller factors follow the one-phonon formula',
 'The coherent one-phonon structure factor of every mode is the modulus squared of the sum over atoms of scattering length times Debye-Waller damping times the phase of the scattering vector and its projection on the eigenvector, scaled as documented by mass and frequency, and the Debye-Waller tensor is the documented weighted thermal average over the Brillouin zone. The result does not depend on eigenvector phases, on the choice of scattering-length specification, or on units, and is aligned with q-points and weights.',
 ['inputs','configurations'],'all bases, q-points in several zones, temperatures including zero, scattering-length specifications, frequency cut-offs of the alphabet',
 'tests compare stored outputs for quartz and LZO',
 [QM,DW,SF],[('structure factor','QpointPhononModes.calculate_structure_factor'),('Debye-Waller','QpointPhononModes.calculate_debye_waller')])
p('C16','Scattering maps conserve intensity and obey detailed balance',
 'Binning a structure factor or frequencies into an S(Q,w) map places each mode intensity exactly once in the bin containing its energy, energy-loss and energy-gain sides scaled by the Bose populations n+1 and n so that they obey detailed balance at the given temperature, divided by bin width. One-dimensional averages are the weighted mean over q-points of the same quantities, for any bin units, weights and temperatures, zero included.',
 ['inputs','configurations'],'all assignments of mode energies to bins (edges, outside, negative), temperatures, weights, units and option sets of the alphabet',
 'tests compare stored maps',
 [SF,UT],[('S(Q,w)','StructureFactor.calculate_sqw_map, _bose_corrected_structure_factor'),('1-D averages','StructureFactor.calculate_1d_average')])
p('C17','Fixed-width broadening is a unit-independent convolution',
 'Broadening a spectrum by a fixed width convolves the data with the documented kernel of that full width at half maximum: linear in the data, independent of the units of axis and width, symmetric and centred on every peak, and conserving the integrated intensity away from the edges, on each axis independently. Spectra with unevenly spaced bins give an error or a documented method rather than wrong numbers, and the axes, metadata and input are unchanged.',
 ['inputs','configurations'],'all kernels x widths x axes x units x impulse positions x even or uneven grids',
 'tests check a few widths on stored spectra',
 [SP,BR],[('broaden','Spectrum1D.broaden, Spectrum2D.broaden'),('kernels','spectra._gaussian/_lorentzian')])
p('C18','Variable-width and adaptive broadening spread each contribution by its width',
 'When the width is a function of energy, or is supplied per mode, every contribution is spread by the kernel of its own width with unit area (in the approximate method within the documented error), independent of units and of the order of the bins. Adaptive broadening of a density of states uses one width per mode, in order, and respects the stated lower bound and scaling.',
 ['inputs','configurations'],'all impulse positions x width functions x kernels x width conventions x units x methods',
 'tests compare stored curves',
 [BR,SP,QF,UT],[('variable width','broadening.variable_width_broadening'),('interpolation','broadening.width_interpolated_broadening'),('mode widths','util.mode_gradients_to_widths')])
p('C19','Kinematic constraints mask exactly the unreachable region',
 'Applying kinematic constraints to an S(Q,w) map masks exactly the points for which no scattering angle in the allowed range connects the incident and final neutron energies, for direct and indirect geometry, any angle range (order and sign as documented), any units, and leaves the others untouched. The input spectrum is not modified and errors are raised for contradictory or missing energies.',
 ['inputs','configurations'],'all grids of (Q, energy) points x geometries x angle ranges x units of the alphabet, against the momentum-conservation triangle',
 'tests compare stored masks for a few parameters',
 [SP],[('apply_kinematic_constraints','spectra.apply_kinematic_constraints')])
p('C20','Sphere sampling and powder averaging are unbiased and reproducible',
 'Sphere samplings return the requested number of points (as documented per scheme), all on the sphere of the requested radius, reproducibly for schemes without jitter, and covering the sphere evenly enough to integrate low-order harmonics correctly. A powder average at |Q| is the mean of the single-crystal quantity over exactly those points at that |Q| in Cartesian reciprocal space, whatever the units and the cell shape.',
 ['inputs','configurations'],'all schemes x numbers of points from 1 upwards x jitter x moduli x units, against an independently recorded average',
 'tests use one or two point counts per scheme',
 [PW,SA],[('samplings','euphonic/sampling.py'),('average','powder.sample_sphere_*')])
p('C21','Reciprocal-space grids and paths are complete and well formed',
 'A Monkhorst-Pack grid contains exactly the documented set of points for its dimensions, each once, and a grid chosen from a spacing is no coarser than asked in every direction and no finer than necessary. Distances along a q-path, with the documented treatment of jumps, are the accumulated Cartesian distances and never decrease. Points where a path starts, ends, turns, passes gamma or repeats are labelled, and a symmetry name is only given to a point equivalent to the point of that name.',
 ['inputs'],'all grid dimensions up to the bound, cell shapes and spacings; all path shapes of the alphabet',
 'tests try a few grids',
 [UT,CR,SP],[('mp_grid','util.mp_grid'),('spacing','Crystal.get_mp_grid_spec'),('abscissa','util._calc_abscissa'),('labels','util.get_qpoint_labels')])
p('C22','Crystal geometry is self-consistent',
 'Reciprocal cell, cell volume, per-species grouping and symmetry-equivalent atoms of any crystal agree with their definitions for every cell shape and unit, for atoms in any order and in or outside the unit cell. Each reported symmetry operation maps the atoms onto themselves, species by species.',
 ['inputs','histories'],'all cells x bases x atom orders x units of the alphabet',
 'tests use three example crystals',
 [CR],[('reciprocal_cell','Crystal.reciprocal_cell'),('symmetry','Crystal.get_symmetry_equivalent_atoms'),('species','Crystal.get_species_idx')])
p('C23','CASTEP files are read faithfully',
 'Reading a .phonon, .phonon_dos or .castep_bin/.check file gives exactly the numbers it encodes, in documented units: q-points, weights, frequencies, complex eigenvectors, split gamma points with their directions and weights, cell, masses, force constants with cell origins, Born charges and dielectric. This holds for every number of atoms, q-points, optional section and formatting variant the format allows.',
 ['inputs','configurations'],'all combinations of optional sections, counts, split-gamma patterns of the file grammar, written by an independent writer',
 'tests read about ten fixed files',
 [CA],[('.phonon','readers/castep.read_phonon_data'),('.castep_bin','readers/castep.read_interpolation_data'),('.phonon_dos','readers/castep.read_phonon_dos_data')])
p('C24','Phonopy files are read faithfully',
 'Reading phonopy mesh, band, qpoints or force-constants data (YAML or HDF5, full or compact, with primitive or expanded cells, BORN file or inline NAC data, any of the documented unit conventions) gives exactly the quantities they encode, independent of the container. Equivalent files give equal objects.',
 ['inputs','configurations'],'all combinations of container, optional part, supercell, cell mapping and NAC source of the file grammar, written by an independent writer',
 'tests read a fixed set of files',
 [PH],[('modes','readers/phonopy.read_phonon_data'),('force constants','readers/phonopy.read_interpolation_data'),('BORN','readers/phonopy._extract_born')])
p('C25','Truncated or corrupted input never yields silently wrong objects',
 'Reading a file cut short at any point, or with a required record missing or malformed, either raises an error or gives an object that contains exactly a complete leading part of the data; it never returns fabricated, misaligned or uninitialised numbers.',
 ['crash_points','fault_sequences'],'every truncation point (each byte of small files, each record) of every supported format',
 'tests never truncate a file',
 [CA,PH,IO],[('readers','euphonic/readers'),('JSON','euphonic/io.py')])
p('C26','Mode reordering is a permutation that follows eigenvectors',
 'Reordering frequencies by mode permutes modes within each q-point and nothing else: frequencies, eigenvectors and everything derived at each q-point are the same multiset, data stay matched, and modes that continue smoothly keep their index along the path while jumps from equivalent q-points do not scramble branches. High-symmetry labels along a band path stay attached to their q-points.',
 ['inputs'],'all permutations of modes at each q-point along short paths of known continuous eigenvectors',
 'tests compare stored reorderings for three materials',
 [QM,QF,CR,UT],[('reorder','QpointPhononModes.reorder_frequencies'),('labels','util._calc_abscissa / get_qpoint_labels')])
p('C27','Command-line tools give the library result for their options',
 'The data a command-line tool plots or writes equals the result of the documented library calls with the same options, for every combination of options, units and input type, and saving or plotting never changes it. Combinations and values the tools exclude are rejected before any output is written; an option that has no meaning for the kind of input (such as force-constants options with precalculated modes) has no effect.',
 ['configurations'],'pairwise-complete option combinations of each tool on small inputs',
 'tests try hand-picked option lists with stored outputs for a few materials',
 ['euphonic/cli/dos.py','euphonic/cli/dispersion.py','euphonic/cli/intensity_map.py','euphonic/cli/powder_map.py',CU],[('argument handling','euphonic/cli/utils.py')])
p('C28','Plots show exactly the data of the spectrum',
 'Every line or image drawn from a spectrum shows the values of that spectrum at their coordinates, one line per spectrum or branch, with panels split where the data are split, tick labels at their coordinates and axis limits and scaling as requested. Plotting does not change the spectrum.',
 ['inputs','configurations'],'all split patterns, axis kinds, units, label sets, limits of the alphabet',
 'tests check a few plots for expected artists',
 [PL],[('1D','plot.plot_1d'),('2D','plot.plot_2d')])
p('C29','Interpolation with Brille reproduces the force constants it was made from',
 'A Brille interpolator made from force constants holds, at each of its grid points, the modes Fourier interpolation gives there with the requested calculation options, on a grid of the requested kind and size. Its results at any list of q-points are the interpolated frequencies and eigenvectors of the grid at exactly those q-points, in order and in documented units and shapes; at grid points and their symmetry- and lattice-equivalent images they equal Fourier interpolation. Grids that are unfilled or made for another number of modes are refused, and neither the force constants nor the caller\'s arguments are modified.',
 ['inputs','configurations'],'all crystals x kinds of grid x ways of giving the size x calculation options; all 48 operations of the cubic group x lattice vectors at every grid point; all q-point lists up to length 2 (3) over an alphabet x memory layouts x threading',
 'tests mock Brille or compare a few stored values',
 ['euphonic/brille.py'],[('construction','brille.BrilleInterpolator.from_force_constants'),('queries','brille.BrilleInterpolator._br_grid_calculate_phonons')])
p('C30','Tuning tools report what they measured and compared',
 'The tool that searches the dipole parameter times, for every parameter in the requested range, exactly one initialisation and the requested number of q-points with the requested options, and suggests the parameter with the least time per q-point of those it measured, with its own times; printed and returned values agree. The tool that checks Brille settings draws, for every requested grid, the differences between interpolated and Fourier-interpolated frequencies, structure factors and spectra that library calls with the same options give, with the documented broadening, bins and units, labelled by the size of the grid they belong to.',
 ['histories','configurations'],'all assignments of durations from an alphabet to the timed calls of a controlled clock; all combinations of the values of any three (thorough: four) options of both tools, every line of every figure',
 'tests compare a few stored figures and cannot control the clock',
 ['euphonic/cli/optimise_dipole_parameter.py','euphonic/cli/brille_convergence.py'],[('search','cli.optimise_dipole_parameter.calculate_optimum_dipole_parameter'),('comparison','cli.brille_convergence.check_brille_settings')])
if __name__ == '__main__':
    import sys
    keep = sys.argv[1:]
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            if not keep or x['id'] in keep:
                f.write(json.dumps(x) + '\n')
