'''Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
SIM = ('Trusts the simulated MPI, disk and clock (MPI semantics compared with real OpenMPI by selftest/mpi_diff.py) '
       'and, where one is used, the independent reference model sim/refmodel.py. Sampled, not exhaustive.')
P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note, observe=(), state=(), hook=None, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note,
                  observe=list(observe), state=list(state), hook=hook, na=na))


S = 'src/dga/'
prop('C01', 'Work partition covers every task exactly once on any number of ranks',
     'For any number of tasks and any number of ranks, the tasks handed to the ranks are disjoint, contiguous, in rank order and '
     'together cover every task exactly once, with sizes that differ by at most one. Every rank derives the same partition without '
     'communication, and this stays true on sub-communicators.',
     ['inputs', 'configurations'], 'task counts 0..3000, 1..24 ranks, split communicators, several partitions alive at once',
     'The existing tests run on one rank, where every partition is trivially right.',
     [S + 'mpi_aux.py'], [('partition arithmetic', S + 'mpi_aux.py: MpiDistributor.distribute_tasks')],
     'partition arithmetic on simulated ranks', 'Every rank of each simulated job is asked for its share and the shares are checked '
     'against the definition of a partition.', ['my_tasks, my_slice, sizes, my_size on every rank'])
prop('C02', 'Distributed collectives neither lose, duplicate nor reorder data',
     'Scattering an array over the ranks, working on it and gathering it again yields, at the receiving ranks, exactly the rows in '
     'global task order, for every shape, element type and memory layout, whatever the rank count and the order in which ranks reach '
     'the call. Reducing sums every contribution exactly once, and a broadcast gives every rank the root value.',
     ['inputs', 'schedules', 'configurations'], '1..9 ranks, 7 dtypes, C/F/strided/negative-stride/transposed layouts, empty shares, any '
     'root, any schedule, several partitions interleaved',
     'The tests never run a collective on more than one rank, and their arrays are all C-contiguous.',
     [S + 'mpi_aux.py'], [('counts and displacements', S + 'mpi_aux.py: allgather, gather, scatter, allreduce, bcast')],
     'simulated MPI collectives under a seeded scheduler', 'Results of each collective compared with a direct computation on the full array.',
     ['return values on every rank'])
prop('C03', 'Results do not depend on the number of ranks or on the schedule',
     'A job run on any number of ranks up to the number of irreducible momenta, under any interleaving, leaves the same set of '
     'output files with the same physical content as the job run on a single rank.',
     ['schedules', 'configurations', 'inputs'], 'random physical systems, boxes, lattice symmetries, option sets, 2..9 ranks, five scheduling '
     'policies', 'No test runs the workflow at all, let alone on two rank counts; the differences show only with several ranks and '
     'uneven shares.',
     [S + 'dga_main.py', S + 'mpi_aux.py', S + 'four_point.py', S + 'pairing_vertex.py', S + 'optics.py'],
     [('distributor', S + 'mpi_aux.py: MpiDistributor'), ('rank-file assembly', S + 'pairing_vertex.py, four_point.py, optics.py: loaders of rank files')],
     'whole job on N simulated ranks compared with one rank', 'Every output file of the N-rank run compared with the one-rank run (iterative '
     'quantities within their solver tolerance).', ['every file in the output folder'])
prop('C04', 'Every accepted job finishes, and a failing rank ends the whole job',
     'A job whose configuration is accepted runs to completion on every rank under every schedule: no rank waits for a message that '
     'never comes and no collective is entered with mismatching operations. If a rank fails, for example on a disk error, the whole '
     'job ends instead of leaving the other ranks waiting, and a rank count above the number of irreducible momenta is rejected on '
     'every rank.',
     ['schedules', 'fault_sequences', 'configurations'], 'random option sets (pairing, Eliashberg, optics, plots, polynomial fits, '
     'verbosity), 1..16 ranks; in six of ten cases a storage fault (also permanent) or a failing allocation on one rank',
     'Deadlocks and orphaned ranks cannot occur in the one-process tests.',
     [S + 'dga_main.py', S + 'mpi_aux.py', S + 'config.py', S + 'dga_max_ent.py'],
     [('matching collectives in every branch', S + 'dga_main.py: main'), ('abort on failure', S + 'mpi_aux.py: abort_on_error')],
     'deadlock and progress detection in the simulated scheduler, with injected rank failures', 'The scheduler knows exactly which rank waits for '
     'what; a state without a runnable rank is a violation.', ['exit of every rank, MPI_Abort'])
prop('C05', 'The pairing vertex is complete and equals its definition',
     'The singlet and triplet pairing vertices that a job writes equal, for every momentum of the full zone and every pair of fermionic '
     'frequencies, the ones defined by the ladder vertex of that momentum and the local vertex, however the momenta and bosonic '
     'frequencies were spread over the ranks.',
     ['schedules', 'inputs', 'configurations'], 'random systems, boxes, symmetries, 1..9 ranks, schedules',
     'No test assembles a pairing vertex, and an error appears only for certain momentum/rank layouts.',
     [S + 'pairing_vertex.py', S + 'dga_main.py', S + 'four_point.py', S + 'mpi_aux.py', S + 'brillouin_zone.py'],
     [('rank files', S + 'four_point.py: write_vertex_components, dga_main.py'), ('assembly', S + 'pairing_vertex.py: load_pairing_vertex_from_rank_files')],
     'whole-job simulation against a reference model', 'Refinement against a reference model that works on the full zone without ranks.',
     ['Eliashberg/F_sing_pp.npy', 'Eliashberg/F_trip_pp.npy'])
prop('C06', 'The stored ladder vertex covers every momentum and frequency correctly',
     'When the momentum-dependent vertex is requested, the stored density and magnetic vertices hold, for every momentum of the irreducible '
     'set, every positive and negative bosonic frequency and every fermionic pair, the value given by the ladder equation with the '
     'lambda-corrected susceptibility.',
     ['schedules', 'inputs', 'configurations'], 'random systems, boxes, symmetries, 1..9 ranks, schedules',
     'No test covers the stored vertex; the failing combination of frequency sign, momentum and rank is not one a hand-written case hits.',
     [S + 'four_point.py', S + 'mpi_aux.py', S + 'dga_main.py'],
     [('rank files', S + 'four_point.py: write_vertex_components, load_vertex_from_rank_files'), ('assembly', S + 'four_point.py: build_vertex_fq')],
     'whole-job simulation against a reference model', 'Refinement against the reference model.', ['F_dens.npy', 'F_magn.npy'])
prop('C07', 'The optical vertex and its current-current correlator are correct',
     'The vertex collected for the optical conductivity equals its definition for every momentum and frequency in the requested window, '
     'and the vertex part of the current-current correlation function equals the corresponding sum with the light vertices of the '
     'configured directions, for any number of ranks.',
     ['schedules', 'inputs', 'configurations'], 'random systems, frequency windows, light-vertex directions, 1..9 ranks, schedules',
     'No test runs the optics code on distributed data.',
     [S + 'optics.py', S + 'four_point.py', S + 'dga_main.py', S + 'mpi_aux.py'],
     [('collection', S + 'optics.py: vertex assembly from the rank files'), ('correlator', S + 'optics.py: vertex_chijj')],
     'whole-job simulation against a reference model', 'Refinement against the reference model (full zone, no ranks).',
     ['Optics/F_cond.npy', 'Optics/chijj_vert.npy'])
prop('C08', 'Written physical results follow from the input by the DGA equations',
     'The local irreducible vertex, local and lattice susceptibilities, lambda correction, self-energy, chemical potential, Green function and '
     'three-leg vertices that a job writes satisfy the ladder DGA equations for the given input, for every momentum and frequency and '
     'for every number of ranks; the corrected susceptibilities satisfy the configured sum rule.',
     ['inputs', 'configurations', 'schedules'], 'random systems, fillings, boxes with and without shell, symmetries, correction modes, 1..9 ranks',
     'The tests cover single helper functions on one stored data set; the composed, distributed computation is not run.',
     [S + 'dga_main.py', S + 'four_point.py', S + 'local_four_point.py', S + 'lambda_correction.py', S + 'two_point.py', S + 'bubble.py',
      S + 'high_level_routines.py', S + 'mpi_aux.py'],
     [('ladder', S + 'four_point.py: get_vrg_and_chir_lad_from_gammar_uasympt_q'), ('correction', S + 'lambda_correction.py'),
      ('self-energy', S + 'four_point.py: schwinger_dyson_full_q')],
     'whole-job simulation against a reference model', 'Refinement of about fifteen output files against the reference model.',
     ['gamma_*, chi_*, siw_*, siwk_dga, giwk_dga, mu, lambda, vrg_q_* files'])
prop('C09', 'A storage fault on intermediate vertex files never corrupts results silently',
     'If creating, writing, closing, opening or reading one of the intermediate per-rank vertex files fails on any rank, the job either '
     'still produces exactly the results of an undisturbed run or fails visibly; missing vertex data is never taken as zero.',
     ['fault_sequences', 'schedules'], 'one to three faults (EIO, ENOSPC, EACCES, EMFILE, EDQUOT, once or sticky) at any operation on any rank',
     'The tests inject no faults.',
     [S + 'mpi_aux.py', S + 'four_point.py', S + 'pairing_vertex.py', S + 'optics.py'],
     [('error propagation', S + 'mpi_aux.py: open_file, close_file'), ('loaders', S + 'pairing_vertex.py, four_point.py, optics.py')],
     'storage faults injected on the rank files', 'Each faulted run that reports success is compared with a fault-free run of the same case.',
     ['exit status and every output file'])
prop('C10', 'Each job has its own output folder and leaves earlier results untouched',
     'Jobs started one after the other or at the same moment on the same input each write into a folder no other job uses, and together '
     'those folders hold exactly the results each job gives when run alone. No job changes a file of an earlier output or of the input.',
     ['schedules', 'histories'], '1..3 jobs started together with different configurations and rank counts, up to two earlier outputs, gaps in the numbering',
     'The tests never start two jobs; the failure is a race between looking for a free name and creating it.',
     [S + 'config.py', S + 'util.py', S + 'dga_io.py'], [('unique folder names', S + 'util.py: make_unique_dir, uniquify'), ('creation', S + 'config.py: set_output_path')],
     'concurrent simulated jobs on one simulated disk', 'Jobs interleave at every file operation; folders compared with solo runs.', ['folders below the output path'])
prop('C11', 'A killed job can simply be started again',
     'If a job or one of its ranks is killed at any point, including in the middle of a write, the input stays intact and starting the same '
     'job again, also repeatedly, completes in a folder of its own with exactly the results of a job that was never killed.',
     ['crash_points', 'schedules', 'histories'], 'one to three kills at random steps or named operations, whole job or a single rank, torn or clean writes',
     'Tests cannot place a kill between two file operations of a distributed job.',
     [S + 'dga_main.py', S + 'config.py', S + 'mpi_aux.py', S + 'util.py'], [('fresh output folder per start', S + 'config.py: set_output_path'),
      ('inputs opened read-only', S + 'dga_io.py: load_1p_data')],
     'crash injection at arbitrary simulated steps followed by reruns', 'Only what reached the simulated disk survives the kill; the final run is compared with an undisturbed one.',
     ['input files, output folders of every attempt'])
prop('C12', 'A job that reports success has written complete results',
     'If any file operation of a job fails (error on open, write, read or mkdir, a full disk, a short write), then either the job '
     'reports failure or every result file is present with the same content as in an undisturbed run.',
     ['fault_sequences', 'schedules'], 'one to three storage faults of seven kinds on any class of file, once or sticky, on rank 0 or any rank',
     'The tests inject no faults.',
     [S + 'dga_main.py', S + 'config.py', S + 'dga_io.py', S + 'eliashberg_equation.py', S + 'optics.py', S + 'wannier.py'],
     [('every result is written through an error-raising call', S + 'config.py: OutputConfig.save_data and np.save/np.savetxt callers')],
     'storage faults injected on all files', 'Each faulted run that reports success is compared with a fault-free run.', ['exit status and every output file'])

# --- more properties are appended by meta_more.py
try:
    from meta_more import more
    more(prop, S)
except ImportError:
    pass


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['pid']):
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                 'observe_at': p['observe'], 'hook_needed': p['hook']}
            if p['state']: a['state'] = p['state']
            assert len(p['title']) <= 80, p['pid']
            f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: every seam (MPI, clock, file system, HDF5, random numbers, figures) is taken at the module boundary '
                  'by sim/. See DESIGN.md.'}
    for p in sorted(P, key=lambda p: p['pid']):
        if p['na']:
            m['not_applicable'].append({'property': p['pid'], 'reason': p['na']})
            continue
        m['checks'].append({'property': p['pid'], 'quick_cmd': f'python3 check.py {p["pid"]}',
                            'thorough_cmd': f'python3 check.py {p["pid"]} --tier thorough',
                            'evidence_file': f'evidence/{p["pid"]}.json', 'technique': TECH + p['tech'],
                            'level': 'exploration', 'level_note': p['note'] + ' ' + SIM})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
