"""Writes known_findings.json (findings not repaired, and the record of the repaired ones)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = []
for sim in ('batch', 'impatience', 'finite'):
    for phase, what in (('warm', 'crashes when a job finds the system empty (AttributeError in Server.start_service)'),
                        ('cold', 'serves jobs while it cools')):
        FINDINGS.append({'property': 'C06', 'what': 'the %s simulator accepts set_%s but %s' % (sim, phase, what),
                         'scenario': {'kind': 'phases_elsewhere',
                                      'cfg': {'sim': sim, 'phase': phase, 'seed': 1, 'steps': 60}}})
for sj in (False, True):
    FINDINGS.append({'property': 'C05', 'what': 'ForkJoinSimDelta(buffer=1%s) never refuses a task: it hands its buffer to '
                     'the is_Purge parameter of ForkJoinSim' % (', is_SJ=True' if sj else ''),
                     'scenario': {'kind': 'delay_buffer', 'cfg': {'sj': sj, 'buffer': 1, 'seed': 1, 'steps': 400}}})
FINDINGS.append({
    'property': 'C01', 'what': "interarrival times of a 'Norm' source can be negative and the clock then runs backwards",
    'scenario': {'family': 'basic', 'seed': 1, 'regime': 'finding', 'steps': 20,
                 'cfg': {'n': 1, 'buffer': None, 'buffer_type': 'list'}, 'full_p': False, 'u': [0.5],
                 'streams': {'src': {'vals': [1.0, 1.0, -0.5], 'type': 'Norm', 'params': [0.5, 0.25], 'style': 'finding'},
                             'srv': {'vals': [0.3], 'type': 'M', 'params': 1.0, 'style': 'finding'}}}})
for model, params in (
    ('M/PH,M/n, two preemptive classes',
     {'n': 2, 'mu': [1.521902894252412, 1.7621050178482556], 'l': [0.7250142270882417, 0.6575737431641011], 'cox': [0.8875383704232891, 2.8998087321637955, 2.8426532934146564]}),
    ('M/M/2, three preemptive classes',
     {'n': 2, 'mu': [0.8388770990121523, 1.613361181182912, 1.547654626408558], 'l': [0.5133453968012769, 0.5285589829937196, 0.4969462793170612]}),
):
    FINDINGS.append({'property': 'C21', 'what': '%s: the iteration of the calculator diverges for the parameters %s' % (
        model, json.dumps(params)), 'scenario': {'model': model, 'params': params, 'seed': 1, 'stage': 2, 'jobs': 20000}})

FINDINGS.append({
    'property': 'C27', 'what': 'most_queue.theory.utils.weibull cannot be imported: it imports rand_distribution, which is found only '
    'with the folder of the package on the path', 'scenario': {'family': 'laws', 'mode': 'weibull_import', 'seed': 1, 'n': 1}})

FIXED = [
 ('12bfeb5', ['C13', 'C12'], 'the batch and finite source simulators crashed: queue buffers had no len()'),
 ('2654447', ['C01'], 'batch arrivals accounted the time after the arrival to the state before it'),
 ('61f9ac9', ['C04'], 'batch simulator left the zero waits of jobs served at once out of its waiting moments'),
 ('acc7fd9', ['C01'], 'impatient departures did not account the time spent in the state before'),
 ('15153b0', ['C04', 'C11'], 'impatience simulator weighted its waiting moments with the wrong number of jobs'),
 ('3981aff', ['C04', 'C13'], 'finite source simulator counted taken jobs twice in its waiting moments'),
 ('6748a70', ['C13', 'C05'], 'a finite source whose job was refused never sent again'),
 ('3c35c05', ['C07'], 'taking a waiting job restarted the running busy period'),
 ('23a30c3', ['C08'], "PriorityQueueSimulator with discipline 'No' crashed"),
 ('b06f32e', ['C05'], 'buffer=0 meant an infinite buffer in PriorityQueueSimulator'),
 ('2bd68aa', ['C05'], 'the buffer was ignored under non-preemptive priority'),
 ('43fff6f', ['C09'], "RS resampled from another class's service distribution"),
 ('13ebb35', ['C09'], 'RW repeated the remaining instead of the full time after a second interruption'),
 ('8657f33', ['C09'], 'preemption did not choose the job of the lowest class in service'),
 ('e3ec4d5', ['C10'], "network nodes used another class's service distribution when the priority order was permuted"),
 ('86bee13', ['C05'], 'fork-join simulator ignored its buffer'),
 ('c75ff8f', ['C14'], 'purging left parts of a departed task in queues and channels'),
 ('bc17897', ['C16', 'C17'], 'fork-join simulators shared one global task counter'),
 ('e4fc495', ['C15'], 'a late part found a free channel and was queued for ever'),
 ('e9e798b', ['C15'], 'split-join with delays served parts of several tasks at a time and lost parts'),
 ('e08eab0', ['C01', 'C17'], 'an idle channel completed a job at time 1e10 (phases: 1e16)'),
 ('ba8330e', ['C19'], 'exponential distribution ignored the generator it was given'),
 ('b63479b', ['C17'], 'printing a finite source simulator with fewer than 9 sources crashed'),
 ('2c40d9c', ['C17'], 'the load factor in reports crashed for several distributions'),
 ('55c385a', ['C20'], 'a crash or error during a save destroyed the previously saved file'),
 ('fc86252', ['C19'], 'Erlang times of high order were infinite (logarithm of an underflowed product)'),
 ('619bda2', ['C21'], 'M/G/1 probabilities with uniform service were right for arrival rate 1 only'),
 ('1b938ac', ['C21'], 'M/M/n/r waiting moments mixed admitted and refused jobs'),
 ('07aaf8c', ['C21'], 'M/M/n/r divided by zero at load one'),
 ('7663381', ['C21'], 'M/G/1 preemptive waiting counted the class itself among its preemptors'),
 ('5c0a081', ['C21'], 'classes without priority shared an unweighted service law'),
 ('afda8a9', ['C21'], 'priority invariants compared queues of different load'),
 ('b4b8825', ['C21'], 'Engset waiting moments differentiated with a step unrelated to the time scale'),
 ('5a76240', ['C21'], 'the two-phase fit of exponential moments divided by zero'),
 ('75f32d5', ['C21'], "Varma's approximation for (n, k) fork-join was negative"),
 ('7c26205', ['C21'], 'network calculator gave classes the sojourn of another priority'),
 ('63f6c82', ['C21'], 'M/H2/n with warm-up waited too little when cold and mixed up service phases'),
 ('a7858ed', ['C21'], 'two-phase fits near exponential and Erlang-2 service changed the mean: waits up to 40% too small at high load'),
 ('0a9b783', ['C21'], 'M/M/n two-class calculator stopped before the iteration converged: low class sojourn up to 40% too large'),
 ('3e6e197', ['C21'], 'moments of the maximum in split-join formulas were off by up to 60% away from service times near one'),
 ('da0502c', ['C18', 'C21'], 'real H2 fit was wrong or divided by zero for times below 0.01, zeros or a zero mean near exponential moments'),
 ('6fff6b8', ['C18'], 'real H2 fit returned a probability of another bisection step: mean off by 1e-5'),
 ('57a8273', ['C21'], 'Cox fit took every law with times below 0.03 for exponential: two-class calculators wrong for high rates'),
 ('626478e', ['C22'], 'load of several classes was that of one class'),
 ('35413ad', ['C22'], 'load of normally distributed intervals or services was reported as zero'),
 ('dc4ca11', ['C22'], 'load of batch arrivals left out the size of the batches'),
 ('bf74ff3', ['C23', 'C21'], 'network calculator failed when a class or every class passes a node by'),
 ('21d82e4', ['C09', 'C10', 'C21'], 'an interrupted job was put behind jobs of its class that had come later'),
 ('7aa6bbc', ['C21'], 'GI/M/1 second waiting moments were wrong, even negative'),
 ('e4179cc', ['C21'], 'second and third waiting and sojourn moments of the first preemptive class were too small'),
 ('bad2e11', ['C21'], 'second waiting moments with interruptions ignored that longer services are interrupted more often'),
 ('862f84f', ['C21'], 'preemptive M/G/1 calculator failed with five service moments or two moments asked for'),
 ('84f0940', ['C21'], "Klimov's second moments of the wait until the first start were those of no model"),
 ('19dd66b', ['C21'], 'three-class M/M/2 calculator served no low-class job beside one high-class job'),
 ('496342f', ['C21', 'C24'], 'second and third waiting moments of non-preemptive M/G/1 classes depended on the unit of time and were off by up to 13 %'),
 ('9526b51', ['C24', 'C21'], 'GI/M/n waiting moments were differentiated with a step unrelated to the time scale'),
 ('b0d79fa', ['C24', 'C21'], 'sojourn moments of M/G/1 with warm-up were wrong away from times near one'),
 ('e7f31a9', ['C24', 'C21'], 'network sojourn times depended on the unit of time'),
 ('9ff8918', ['C24', 'C21'], 'M/M/n with warm-up and cooling: waiting moments were wrong away from rates near one'),
 ('b59a689', ['C24', 'C21'], 'passage time iterations stopped at an absolute accuracy'),
 ('edc3ad7', ['C24', 'C21'], 'M/G/n with warm-up, cooling and delay: waiting moments depended on the unit of time'),
 ('46675a0', ['C21'], 'queue-growth probabilities of Pareto laws with a whole tail index, or with little or much load, were garbage or never came'),
 ('1507afb', ['C21'], 'arrival-epoch probabilities of GI/M/1 with Pareto intervals did not add up to one'),
 ('0472f7f', ['C21'], 'Takahashi-Takami with a finite buffer: wrong probabilities and waits, crash for buffers of 0 or above 149 - n'),
 ('f127965', ['C25'], 'the report of the impatience simulator was its last line only'),
 ('6d73cfa', ['C25'], 'the report of the fork-join simulator counted no waiting parts'),
 ('afd5f3e', ['C26'], "Student's quantile for samples of 76 to 85 was 1.001"),
 ('6592e73', ['C26'], "Student's quantiles for samples of 20 to 65 were those of larger samples"),
 ('31b8e37', ['C27'], 'distribution, tail and density of Pareto laws below K (a probability of minus infinity)'),
 ('092d4fb', ['C27'], 'distribution function of Erlang laws of order above 170: OverflowError'),
 ('e1a2ac1', ['C27'], 'density of gamma laws: ValueError at negative times, OverflowError or 0 for small variation'),
 ('3068c8e', ['C27'], 'Cox fit of exactly exponential moments: ZeroDivisionError'),
]

if __name__ == '__main__':
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    fixes = {x.split()[0] for x in log if x.split(' ', 1)[1].startswith('fix:')}
    assert fixes == {f[0] for f in FIXED}, fixes ^ {f[0] for f in FIXED}
    fixed = ['fixed: property=%s %s %s' % (p, c, w) for c, ps, w in FIXED for p in ps]
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
        f.write('\n')
