"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ('Seeded search: random configurations, adversarial draw tapes (ties, bursts, stalls, zero and huge times), every '
       'event judged. Trusts the observer (object identity of jobs in queues and channels) and, for the random streams, '
       'C19. Bounded by run length and by the configurations generated (see domain in the evidence).')
LONG = ('Seeded search over parameters; each judged by long seeded runs of the real simulator against the reported or '
        'calculated number, three-stage sequential test (false alarm below 1e-6 per number). Trusts the simulators, '
        'which C01-C15 judge; deviations below the stated tolerance are not seen.')
T = 'deterministic simulation with fault injection: '
CHECKS = [
 ('C%02d' % i, T + 'seeded search over event schedules, invariants at every event against a reference ledger', SIM)
 for i in range(1, 16)] + [
 ('C16', T + 'seeded interleavings and line-level thread preemption of several simulators, histories compared bit for bit',
  'Threads are real threads run one at a time, switched at seeded lines of the repository\'s code (sys.settrace); '
  'preemption inside C functions and inside one line is not explored.'),
 ('C17', T + 'seeded cuts, observations, copies, crashes and restarts, continuation compared event for event',
  'Restart means unpickling a saved simulator with its tapes and generators; file system faults of saving are C20.'),
 ('C18', T + 'seeded event tapes of the flows, merged streams rebuilt and compared', SIM),
 ('C19', T + 'seeded draws tested against the declared law (1e-9), seeded interleavings of consumers compared draw by draw',
  'Statistical part: KS and moment tests of up to tens of thousands of draws per case, so deviations of a few per cent '
  'are found, smaller ones not. Independence of generators is decided exactly.'),
 ('C20', T + 'simulated disk with crashes, torn, short, lost writes, full disk, failing calls at seeded points',
  'The disk model gives ordered directory operations and unsynced data that may be lost; the only thing trusted is that '
  'the code reaches the disk through the Python file functions the seam covers.'),
 ('C21', T + 'long seeded runs of the simulator against the calculator over seeded parameters', LONG),
 ('C22', T + 'long seeded runs, measured channel occupancy against the reported load', LONG),
 ('C23', T + 'long seeded runs of the network, visits and occupancy against the calculated traffic', LONG),
 ('C24', T + 'seeded histories replayed on a clock with another unit, compared event by event; calculators and laws asked in both',
  'Units differ by powers of two, so that floating-point arithmetic scales exactly and the comparison needs no statistical '
  'tolerance. An absolute constant is found only when the parameters generated make it matter.'),
 ('C25', T + 'seeded event schedules, reports taken at seeded events and read back number by number against the observed '
  'history; tables and figures of seeded results read back', SIM),
 ('C26', T + 'simulated replications under seeds, share of the intervals that contain the true mean',
  'The results of the replications are simulated normal samples; the coverage is decided up to the resolution of the '
  'table of quantiles the library uses (stated per sample size in dst/reports.py).'),
 ('C27', T + 'seeded streams of every law against what the library says about them, and against a reference model held against the same streams',
  'The sample alone would show errors of a few percent; the reference model (own formulas) sharpens this to rounding and is '
  'itself tested against every sample (Kolmogorov-Smirnov, chi-square).'),
]
NA = [
 ('N02', 'A relation among numbers one pure calculation returns; a simulator has nothing to decide there. (Agreement of '
         'calculators with the simulated behaviour is C21.)'),
 ('N03', 'Algebraic identities of pure functions without time, concurrency or I/O.'),
]

if __name__ == '__main__':
    m = {'version': 1,
         'setup_cmd': './check setup',
         'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                     'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration', 'level_note': n}
                    for p, t, n in CHECKS],
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
         'notes': 'No hooks in /repo: the seams are the distribution objects, numpy and random generators, time, files '
                  'and the stepping interface run_one_step(). See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
