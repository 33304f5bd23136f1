def more(prop, S):
    prop('C14', 'Distributed continuation continues every momentum from its own data',
         'The continuation program continues, for every momentum and for the local function, the imaginary-axis data of that very momentum '
         'with the configured settings and leaves the spectrum in the entry of that momentum, independent of the number of ranks and the '
         'schedule; the written lattice spectra equal those of a one-rank run.',
         ['schedules', 'inputs', 'configurations'], '1..6 ranks, even and uneven shares, random spectra and settings, whole continuation jobs on finished DGA outputs',
         'The tests continue single functions on one rank.',
         [S + 'analytic_continuation.py', S + 'dga_max_ent.py', S + 'mpi_aux.py', S + 'two_point.py'],
         [('distribution', S + 'analytic_continuation.py: mpi_ana_cont'), ('program', S + 'dga_max_ent.py: main')],
         'continuation jobs on simulated ranks', 'Spectra compared with a task-by-task continuation without ranks and with a one-rank job.',
         ['arrays returned at rank 0', 'files in the MaxEnt folders'])
    prop('C15', 'A failed continuation of one momentum stays confined to that momentum',
         'If the solver fails for some momenta, on any rank, the continuation still ends on every rank, the spectra of all other momenta are '
         'exactly those of an undisturbed run, and the entries of the failed momenta are zero.',
         ['fault_sequences', 'schedules', 'inputs'], 'solver failures of seven exception kinds for one, some, all momenta or all of one rank; 1..6 ranks',
         'The tests have no failing solver and one rank.',
         [S + 'analytic_continuation.py', S + 'dga_max_ent.py', S + 'mpi_aux.py'],
         [('failure handling', S + 'analytic_continuation.py: MaxEnt.cont_single_ind, mpi_ana_cont'), ('gather', S + 'mpi_aux.py: gather')],
         'injected solver failures on simulated ranks', 'Compared entry by entry with an undisturbed task-by-task continuation.',
         ['arrays returned at rank 0'])

    prop('C13', 'Every rank works with one recorded configuration that suffices to repeat the job',
         'All ranks of a job use one and the same version of the configuration file, even if the file is replaced while the job starts, and '
         'the output folder records that version together with the DMFT data and the Hamiltonian, such that a job started from the recorded '
         'files alone, on any number of ranks, gives the same results.',
         ['schedules', 'histories', 'configurations'], 'up to three atomic replacements of the file at any moment, four kinds of edits, default and ED input, '
         'automatic boxes, repeat from the recorded files in an empty folder on another rank count',
         'The tests never change a file during a run and never start a job from recorded files.',
         [S + 'config.py', S + 'dga_main.py', S + 'dga_io.py', S + 'wannier.py'],
         [('one reader, broadcast', S + 'config.py: the reader on rank 0 and comm.bcast'), ('records', S + 'config.py: ConfigBase.as_dict, save'),
          ('Hamiltonian record', S + 'wannier.py: write_hr_w2k, read_hr_w2k')],
         'simulated editor process racing with the simulated ranks', 'The job and its repetition are compared with the job run on the recorded version alone.',
         ['configuration, dmft_input.npy and wannier_hr.dat in the output folder', 'result files'])
    prop('C16', 'A job writes only its own output, one rank per file, and logs events once',
         'A job on any number of ranks changes nothing outside its own output folder, no two ranks ever write the same file, and the log '
         'holds every event exactly once and in order with the same content as on one rank, even when the clock runs unevenly or jumps.',
         ['schedules', 'configurations', 'inputs'], 'random jobs and options, 2..9 ranks, clock speeds from zero to 20 s per step, up to three jumps in either direction',
         'The tests run on one rank and never look at the log or at who writes which file.',
         [S + 'loggers.py', S + 'config.py', S + 'dga_main.py', S + 'mpi_aux.py', S + 'plotting.py'],
         [('log on rank 0 only', S + 'loggers.py: MpiLogger'), ('root-only writers', S + 'dga_main.py, dga_io.py: comm.rank == 0 sections')],
         'simulated ranks, clock and disk with a record of every file operation', 'The operation record gives the writer of each file; the log is compared with that of a one-rank run.',
         ['dga.log', 'record of file operations'])
    prop('C17', 'sym1b leaves the complete spin average under the final name, or nothing',
         'Whatever happens to sym1b (read or write errors, a full disk, a kill at any point, a second sym1b at the same time, repeated starts), '
         'the output name at no time ends up with an incomplete file: it is absent, an untouched older file, or holds the exact spin average of '
         'the worm data; the worm file is never changed, success is reported only with the output in place, and an undisturbed start after '
         'failures succeeds.',
         ['crash_points', 'fault_sequences', 'schedules', 'histories'], 'up to three disturbed attempts, one or two processes, six kinds of failing operations, kills at any step, '
         'NaN samples, pre-existing outputs, other file names',
         'sym1b has no tests.',
         [S + 'symmetrize.py', 'src/cli/sym1b.py', S + 'w2dyn_aux_dga.py'],
         [('spin average', S + 'symmetrize.py: get_symgroups, read_and_add'), ('completion', S + 'symmetrize.py: main'),
          ('reader', S + 'w2dyn_aux_dga.py: W2dynG4iwFile.read_g2_full')],
         'crashes, storage faults and races injected into sym1b', 'The file is read back through the loader of the main program and compared with an independently computed average.',
         ['g4iw_sym.hdf5', 'exit status'])
    prop('C18', 'All input formats give the same results and no read error is silent',
         'The same physical system supplied as default, EDFermion or w2dynamics files, with the Hamiltonian given by parameters or as a '
         'wannier90 file, leads to the same results; if an input file cannot be read completely (error on open or read on any rank, truncated '
         'file) the job fails visibly or still gives exactly those results.',
         ['fault_sequences', 'inputs', 'configurations', 'schedules'], 'three formats, shuffled and degenerate R vectors, one or two read faults at any operation on any rank, missing data sets, '
         'truncation at any point, automatic and explicit boxes, 1..9 ranks',
         'The tests read one intact file per format at most and never run the program on it.',
         [S + 'dga_io.py', S + 'w2dyn_aux_dga.py', S + 'wannier.py', S + 'config.py'],
         [('loaders', S + 'dga_io.py: load_1p_data'), ('w2dynamics reader', S + 'w2dyn_aux_dga.py: W2dynFile, W2dynG4iwFile'),
          ('Hamiltonian', S + 'wannier.py: read_hr_w2k, convham')],
         'read faults and truncation injected on the input files', 'Compared with the undisturbed run of the default format.', ['exit status and result files'])

    prop('C19', 'Summary numbers and fits follow from the arrays of the same job',
         'The chemical potential, filling, energies, uniform susceptibilities, Ornstein-Zernike coefficients, polynomial fits and the bubble '
         'conductivity a job reports are those of the Green function, self-energy and susceptibility arrays it leaves in the same folder, '
         'and those arrays satisfy the Dyson equation with the reported chemical potential, on any number of ranks and under any schedule.',
         ['inputs', 'configurations', 'schedules'], 'random systems, boxes, hopping parameters and options; lattices of low symmetry, even and odd grids; 1..9 ranks',
         'The tests look at single functions on two stored systems, never at two files of one job.',
         [S + 'dga_main.py', S + 'dga_io.py', S + 'two_point.py', S + 'ornstein_zernicke_function.py', S + 'optics.py', S + 'high_level_routines.py'],
         [('energies', S + 'two_point.py: GreensFunction.e_kin, e_pot'), ('chemical potential', S + 'two_point.py: update_mu, get_fill'),
          ('fits', S + 'dga_io.py: dga_poly_fit, dmft_poly_fit, fit_and_plot_oz'), ('bubble', S + 'optics.py: vec_get_chijj_bubble')],
         'simulated job on random systems and schedules', 'Every summary file is recomputed from the arrays of the same folder with independent formulas.',
         ['files in the output folder'])
    prop('C20', 'The Eliashberg step ends and reports leading eigenpairs of the written vertex',
         'Whatever the random start, the configured symmetry, the number of ranks and the schedule, the Eliashberg step terminates and the '
         'eigenvalues and gap functions it reports are leading eigenpairs of the linearised gap equation built from the pairing vertex and '
         'Green function written by the same job, wherever the iteration bound suffices for convergence.',
         ['inputs', 'configurations', 'schedules'], 'random systems and lattices, one to three eigenvalues, four starting symmetries, six tolerances, bounds 1..20000, 1..9 ranks',
         'The tests run the solver on at most one vertex and compare with stored numbers.',
         [S + 'eliashberg_equation.py', S + 'pairing_vertex.py', S + 'dga_main.py'],
         [('power iteration', S + 'eliashberg_equation.py: EliashbergPowerIteration'), ('gap equation', S + 'eliashberg_equation.py: linear_eliashberg')],
         'simulated job with seeded random starts', 'Compared with a dense diagonalisation of the operator built independently from the written arrays.',
         ['Eliashberg/eliashberg.npy', 'Eliashberg/eigenvalues.txt'])
    prop('C21', 'A successful job leaves exactly the files its configuration asks for',
         'A job that reports success leaves in its output folder every result its configuration requests, none it does not request, and no '
         'working file, whatever the number of ranks and the schedule. When removing files fails, at most the working files that could not be '
         'removed stay behind.',
         ['configurations', 'schedules', 'fault_sequences'], 'all keep, save and do options, three input formats, 1..9 ranks, failing removals on any rank',
         'The tests check the presence of no output file of a complete job.',
         [S + 'dga_main.py', S + 'config.py', S + 'mpi_aux.py', S + 'dga_io.py'],
         [('cleaning up', S + 'mpi_aux.py: MpiDistributor.delete_file'), ('keep options', S + 'dga_main.py: main')],
         'simulated job on a simulated disk with failing removals', 'The set of files is compared with the set derived from the configuration.',
         ['set of files in the output folder'])
    prop('C22', 'Real-axis results follow from the continued data of the same job',
         'The Green function a continuation job leaves on the real axis is the one of the continued self-energy it leaves, with a single real '
         'chemical potential that gives the filling of the system wherever the spectrum allows it; the real-axis optical conductivity is the '
         'bubble of that Green function for every frequency mesh; and the continued local Green functions and optical conductivities are the '
         'continuations of the local functions and current correlations of the same job. All of it for any rank count and schedule.',
         ['inputs', 'configurations', 'schedules'], 'random systems, four kinds of real-frequency meshes with even and odd sizes, blur widths, fit ranges; 1..9 ranks',
         'No test continues a lattice quantity, computes a chemical potential on the real axis or evaluates the real-axis bubble.',
         [S + 'dga_max_ent.py', S + 'two_point.py', S + 'optics.py', S + 'analytic_continuation.py', S + 'dga_main.py'],
         [('chemical potential', S + 'two_point.py: RealFrequencyGF, adjust_mu_real_f'), ('bubble', S + 'optics.py: vec_get_chijj_bubble_realf, get_sigma_from_chijj_realf'),
          ('local continuation', S + 'analytic_continuation.py: max_ent_loc_bw_range'), ('optical continuation', S + 'dga_main.py: MaxEnt for optical conductivity')],
         'continuation jobs on simulated ranks', 'Every derived file is recomputed from the other files of the same folder with independent formulas.',
         ['files in the MaxEnt and Optics folders'])
    prop('C23', 'Symmetrising solver output gives complete averages of all orbitals, or nothing',
         'For any number of atoms and orbitals and any sets of equivalent orbitals, the symmetrisation tool leaves under the output name the average '
         'of the solver data over spins (density and magnetic channel) and over equivalent orbitals, for one-particle, one-, two- and three-frequency '
         'data, however it is started (questions, command line, call). After read or write errors, a full disk, a kill at any point or a second start '
         'at the same time the output name is absent, an untouched older file or complete; the solver file is never changed, success means '
         'the output is in place, and an undisturbed start after failures succeeds.',
         ['crash_points', 'fault_sequences', 'schedules', 'inputs'], 'one or two atoms, one to three orbitals, every partition into equivalent orbitals, four targets, '
         'two worm iterations, up to two disturbed attempts of one or two processes, NaN samples',
         'The tool has no tests.',
         [S + 'symmetrize.py'], [('averages', S + 'symmetrize.py: get_symgroups, read_and_add, main'), ('components', S + 'symmetrize.py: index2component_general, component2index_band')],
         'crashes, storage faults and races injected into the symmetrisation tool', 'The output is compared with averages computed independently over all images of a component.',
         ['output file', 'exit status'])
    prop('C24', 'The configuration template starts the job it documents',
         'dga_dc puts the configuration template unchanged into the current folder, or fails visibly, and writes nothing else. Edited to any lattice, '
         'boxes and documented values (symmetries by name or as a list, input type, lambda correction, pairing symmetry, output options), it starts a job '
         'that succeeds and gives the same results as a configuration which leaves out every entry that has its documented default, on any number of ranks.',
         ['configurations', 'schedules', 'fault_sequences', 'inputs'], 'random systems, boxes and options, symmetry lists of up to five entries, two pairing symmetries per spin channel, storage errors '
         'while the template is copied, 1..5 ranks',
         'No test reads the template or runs a program from a configuration file.',
         ['src/cli/dga_config_generator.py', S + 'config.py', S + 'dga_main.py'],
         [('template', 'src/cli/dga_config_generator.py: main'), ('defaults', S + 'config.py: DgaConfig and its sections'), ('documented values', S + 'config.py: LatticeConfig.check_symmetries')],
         'dga_dc and a whole job on simulated ranks and disk', 'The results of the edited template are compared with those of a minimal configuration of the same job.',
         ['dga_config.yaml', 'files in the output folder'])
    for pid, title, statement, files, why in (
            ('N01', 'Irreducible Brillouin zone: reduction and expansion are inverse',
             'For every grid and symmetry, the irreducible points, their multiplicities and the index maps describe a partition of the zone into orbits, '
             'and expanding the reduced form of a symmetric array gives the array back.', [S + 'brillouin_zone.py'],
             'A pure function of grid and symmetry: no schedule, time, I/O, fault or second party enters, so there is nothing to simulate (wrong maps '
             'inside a job are seen by C05 to C08, whose reference works on the full zone).'),
            ('N02', 'Matsubara frequency helpers keep every value at its frequency',
             'Cutting to a box, extending to the full range by complex conjugation and joining core and shell keep every value at its frequency for every size.',
             [S + 'matsubara_frequencies.py'],
             'Pure array functions with no nondeterminism, fault or interaction to control (misplaced frequencies inside a job are seen by C05 to C08).'),
            ('N03', 'The vendored MaxEnt solver finds the most probable spectrum',
             'The solver returns the non-negative spectrum which maximises the entropy functional at the chosen weight.', ['src/ana_cont/solvers.py'],
             'Numerical optimisation of one function on one thread; its correctness depends on no schedule or fault, and there is no oracle '
             'other than a second solver.'),
            ('N04', 'Wannier Hamiltonian file reading and writing are inverse',
             'Writing a real-space Hamiltonian and reading it back gives the same dispersion for every set of hoppings.', [S + 'wannier.py'],
             'The conversion is a pure function of the hoppings; what depends on the disk and on other ranks is decided by C12, C13 and C16.')):
        prop(pid, title, statement, ['inputs'], 'all inputs', 'Tests sample a few inputs.', files, [('functions', files[0])], 'none', why, [], na=why)
