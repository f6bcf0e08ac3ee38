"""Which machinery decides which property."""
from .oracles import *
from .simcheck import SimCheck
from . import fam_basic as B
from . import fam_queue as Q
from . import fam_prio as P
from . import fam_net as N
from . import fam_fj as F
from . import multi as X
from . import flows as S
from . import disk as K
from . import streams as G
from . import calc as L
from . import units as U
from . import reports as T

basic, vac, batch, imp, fin = B.Basic(), Q.Vac(), Q.Batch(), Q.Imp(), Q.Fin()
prio, np_, pre = P.Prio(), P.Prio('prio_np', ['No', 'NP']), P.Prio('prio_pre', ['PR', 'RS', 'RW'])
net = N.Net()
fj, fjd = F.Fj(), F.Fjd('fjd')
one = [basic, vac, batch, imp, fin]
multi = one + [prio, net, fj, fjd]

TAPES = ('Each case: one seed draws a configuration (channels, buffer, discipline, phases, classes, routes, ...), one tape '
         'of times per random stream (regimes: exponential, lattice with ties, zero lengths, stalls, bursts and outages, '
         'huge clock jumps, tiny steps) and the uniform draws; the real simulator is stepped event by event and judged after '
         'every event and over the whole history. ')
NONTRIV = 'Counted as distinct and non-trivial: runs with at least one %s, by the digest of their complete event history.'
DOMAIN = ['times drawn are finite and non-negative; the first interarrival time is positive; uniform draws lie in '
          '[1e-6, 1-1e-6]', 'histories are compared up to relative rounding of about 1e-9']


def _sim(prop, parts, judged, event='event processed', quick=10000, thorough=600000, extra=(), **k):
    return SimCheck(prop, parts, TAPES + judged + ' ' + NONTRIV % event, quick, thorough, DOMAIN + list(extra), **k)


def get(prop):
    if prop == 'C01':
        return _sim(prop, [(f, 1, [TimeFractions]) for f in multi],
                    'Judged: clock, earliest scheduled event, accumulated time per number in system after every event, '
                    'get_p() at the end.')
    if prop == 'C02':
        return _sim(prop, [(f, 1, [Conservation]) for f in multi],
                    'Judged: the set of job objects in queues and channels, their moves, and the reported counts.')
    if prop == 'C03':
        return _sim(prop, [(basic, 1, [Arrivals, ServiceAsDrawn, FifoNoIdling, Conservation])],
                    'Judged: arrival spacing, start order, idleness, service lengths.')
    if prop == 'C04':
        return _sim(prop, [(f, 1, [Moments]) for f in multi],
                    'Judged: all reported moments against the moments of the observed waits and sojourns.')
    if prop == 'C05':
        return _sim(prop, [(basic, 1, [B.BufferRule]), (vac, 1, [Q.VacBuffer]), (batch, 1, [Q.BatchBuffer]),
                           (imp, 1, [B.BufferRule]), (fin, 1, [B.BufferRule]), (prio, 2, [P.PrioBuffer]),
                           (fj, 1, [F.FjBuffer])],
                    'Judged: every arrival against the room left; a refusal changes nothing else.')
    if prop == 'C06':
        return _sim(prop, [(vac, 1, [Q.Vacations, Arrivals, ServiceAsDrawn, FifoOrder])],
                    'Judged: a reference automaton of delay, cooling and warm-up, phase shares, service order.',
                    extra=['finite buffers together with warm-up have at least one place'])
    if prop == 'C07':
        return _sim(prop, [(f, 1, [BusyPeriods]) for f in one],
                    'Judged: number and moments of the observed all-busy periods.')
    if prop == 'C08':
        return _sim(prop, [(np_, 1, [P.PrioDiscipline, P.PrioService, Arrivals, Conservation])],
                    'Judged: choice of the next job, no interruption, service from the own class.')
    if prop == 'C09':
        return _sim(prop, [(pre, 1, [P.PrioDiscipline, P.PrioService, Arrivals, Conservation])],
                    'Judged: precedence after every event, remaining / resampled / repeated times at every resumption.')
    if prop == 'C10':
        return _sim(prop, [(net, 1, [N.Routes, N.NodeDiscipline, Arrivals, Conservation, Moments])],
                    'Judged: every visit against the routing matrix, node disciplines, totals; plus long seeded runs whose '
                    'routing frequencies are tested.', quick=6000, thorough=300000, long_runs=[N.routing_frequencies],
                    extra=['service times in networks are at least 0.01'])
    if prop == 'C11':
        return _sim(prop, [(imp, 1, [Q.Impatience, Arrivals, ServiceAsDrawn, FifoNoIdling, Conservation, Moments])],
                    'Judged: every deadline, departures, order of the rest, statistics.')
    if prop == 'C12':
        return _sim(prop, [(batch, 1, [Q.WholeBatches, Arrivals, ServiceAsDrawn, FifoNoIdling, Conservation, Moments])],
                    'Judged: batch sizes, admission one by one, statistics; plus long seeded runs whose batch size '
                    'frequencies are tested.', long_runs=[Q.batch_frequencies])
    if prop == 'C13':
        return _sim(prop, [(fin, 1, [Q.FiniteSources, ServiceAsDrawn, FifoNoIdling, Conservation])],
                    'Judged: outstanding jobs per source, request spacing, no source silent.')
    if prop == 'C14':
        return _sim(prop, [(fj, 1, [F.ForkJoin, F.PartService, Arrivals, Conservation, Moments])],
                    'Judged: a reference model of the per-channel part queues, k-th completion, purge.')
    if prop == 'C15':
        return _sim(prop, [(fjd, 1, [F.Delays, F.PartService, Arrivals, Conservation, Moments])],
                    'Judged: due times of parts, start rules, departures.')
    if prop == 'C16':
        return X.Isolation(prop, multi, 'Each case: two to four simulators (tapes or real seeded generators) in one process, '
                           'interleaved step by step, or in threads preempted at seeded source lines, every decision by the '
                           'seeded scheduler; each must reproduce, bit for bit, the history of its solo run. Counted as '
                           'distinct and non-trivial: cases with a distinct interleaving of at least two simulators that '
                           'all processed events.', 2500, 200000, DOMAIN)
    if prop == 'C17':
        return X.Undisturbed(prop, multi, 'Each case: one simulator and a seeded list of cuts, reports, probability '
                             'reads, deep copies, pickled crashes and restarts from saved state at seeded events; the '
                             'continuation must equal the undisturbed run event for event. Counted as distinct and '
                             'non-trivial: distinct histories with at least one disturbance.', 2000, 150000, DOMAIN)
    if prop == 'C18':
        return S.Flows(prop, 'Each case: two to six flows of one kind with seeded tapes for the underlying draws; the merged '
                       'event stream is rebuilt from the tapes and its interval moments compared. Counted as distinct and '
                       'non-trivial: distinct merged streams with at least one interval.', 30000, 2000000)
    if prop == 'C19':
        return G.Streams(prop, multi, 'Each case: one distribution sampled under a seed and tested against its law '
                         '(Kolmogorov-Smirnov and moments at 1e-9 or rarer); or several distributions drawing in a seeded '
                         'interleaving with global noise, compared draw by draw with their solo streams; or the streams of a '
                         'running simulator judged for law and independence. Counted as distinct: digests of draws.',
                         3000, 300000)
    if prop == 'C20':
        return K.Disk(prop, 'Each case: a seeded sequence of saves under faults (process death at any line, call or disk '
                      'operation, failing or short operations, full disk, file size limit, unsaveable data, power loss), '
                      'files damaged on the disk between saves and disk failures during loads; every file loaded and compared after each. Counted as distinct and non-trivial: distinct fault and '
                      'result histories.', 1500, 200000)
    if prop == 'C21':
        return L.Calc(prop)
    if prop == 'C22':
        return L.Calc(prop, L.LOADS, quick=40, thorough=4000)
    if prop == 'C23':
        return L.Calc(prop, L.TRAFFIC, quick=60, thorough=6000)
    if prop == 'C24':
        return U.Units(prop, multi, 'Each case: one simulator on two clocks whose units differ by a power of two, compared event '
                       'by event; or one calculator, or one law, asked in both units. Counted as distinct and non-trivial: '
                       'distinct histories or sets of numbers.', 5000, 300000, DOMAIN)
    if prop == 'C25':
        return T.Reports(prop, [(f, 1, [T.Report]) for f in one + [prio, fj, fjd]], TAPES + 'Judged: every number of the long and '
                         'the short report, read back at seeded events, against the state of the simulator and the observed '
                         'history; and tables and figures of results against the results. ' + NONTRIV % 'event processed',
                         6000, 400000, DOMAIN)
    if prop == 'C26':
        return T.Confidence(prop, 'Each case: simulated replications (normal results) for one confidence and one number of '
                            'replications; the intervals are formed by the library and the share that contains the true mean is '
                            'compared with the promised one. Counted as distinct: digests of the intervals.', 600, 20000)
    if prop == 'C27':
        from . import laws
        return laws.Laws(prop, 'Each case: one law (or fit, sum, time with arrivals); streams of it are drawn under the seed, and what '
                         'the library says about them is compared with the sample and with a reference model that is held against '
                         'the same sample. Counted as distinct: digests of the times drawn.', 10000, 200000)
    raise SystemExit('unknown property ' + prop)
