"""Networks of priority nodes: priority_network."""
import math

from .fam_base import *
from .fam_prio import PREEMPTIVE, check_np, check_preemptive, check_length
from .stat import chi2_fail

NAMES = ['No', 'NP', 'PR', 'RS', 'RW']


class Visit(observe.Job):
    """One job of the network; the fields of the current visit are reset at each node."""
    __slots__ = ()

    def visit(self, node, t, seq, prty):
        self.node = node
        self.arr = t
        self.seq = seq
        self.task = prty            # class inside the node
        self.wait = 0.0
        self.start = self.end = self.first_dur = self.remain = self.extra = None
        self.starts = self.interrupted = 0
        self.loc = None


class NetEvents(observe.Events):
    __slots__ = ('trans', 'exits', 'node_exits', 'lost', 'jumped', 'completed', 'n_arr', 'n_srv', 'n_drop')


class NetTracker:
    def __init__(self, cfg):
        self.jobs = {}
        self.alive = {}
        self.cfg = cfg
        self.seq = 0
        self.reneged = 0

    def vseq(self):
        self.seq += 1
        return self.seq

    def step(self, prev, cur):
        ev = NetEvents()
        t = ev.t = cur.t
        sub = lambda a, b: tuple(x - y for x, y in zip(a, b))
        ev.d_arr = sub(cur.arrived, prev.arrived)
        ev.d_srv = sub(cur.served, prev.served)
        ev.d_drop = sub(cur.dropped, prev.dropped)
        ev.n_arr = [sub(c.arrived, p.arrived) for c, p in zip(cur.nodes, prev.nodes)]
        ev.n_srv = [sub(c.served, p.served) for c, p in zip(cur.nodes, prev.nodes)]
        ev.n_drop = [sub(c.dropped, p.dropped) for c, p in zip(cur.nodes, prev.nodes)]
        ev.trans, ev.exits, ev.node_exits, ev.lost, ev.jumped, ev.completed = [], [], [], [], [], None
        prty = self.cfg['nodes_prty']
        where = {}
        for m, s in enumerate(cur.nodes):
            for c, o in enumerate(s.srv):
                if o is not None:
                    if id(o) in where:
                        ev.dup.append(o)
                    where[id(o)] = (m, 's', c, s.end[c], o)
            for o in s.queue:
                if id(o) in where:
                    ev.dup.append(o)
                where[id(o)] = (m, 'q', None, None, o)
        x = self.completed(ev, where, t)
        ev.completed = x
        for i, j in list(self.alive.items()):
            w = where.get(i)
            if j is x:
                self.visit_done(j, ev, w, t)
                continue
            if w is None:
                del self.alive[i]
                ev.lost.append(j)
                continue
            m, kind, c, end, o = w
            if m != j.node:
                ev.jumped.append(j)
                continue
            if kind == 's':
                if j.loc == 'q':
                    j.wait += t - j.wait_from
                    j.net_wait += t - j.wait_from
                    self.start(j, c, end, t, ev)
                elif j.loc[1] != c:
                    ev.moved.append(j)
            elif j.loc != 'q':
                j.remain = j.end - t
                j.interrupted += 1
                j.loc = 'q'
                j.wait_from = t
                ev.interrupted.append(j)
        for i, (m, kind, c, end, o) in where.items():
            if i in self.alive:
                continue
            if i in self.jobs:
                ev.back.append(self.jobs[i])
                continue
            k = next((q for q, d in enumerate(ev.d_arr) if d > 0), -1)
            j = Visit(o, 0, k, t)
            j.entry = t
            j.net_wait = 0.0
            self.jobs[i] = j
            self.alive[i] = j
            ev.new.append(j)
            ev.trans.append((j, -1, m))
            j.visit(m, t, self.vseq(), prty[m][k])
            self.place(j, kind, c, end, t, ev)
        return ev

    def completed(self, ev, where, t):
        node = next(((m, k) for m, d in enumerate(ev.n_srv) for k, x in enumerate(d) if x > 0), None)
        if node is None:
            return None
        m, k = node
        cand = [j for j in self.alive.values() if j.node == m and j.loc != 'q' and j.task == k and
                close(j.end, t, t)]
        if len(cand) > 1:
            def changed(j):
                w = where.get(id(j.obj))
                return w is None or w[0] != m or w[1] != 's' or w[2] != j.loc[1] or w[3] != j.end
            ch = [j for j in cand if changed(j)]
            cand = ch or cand
        return cand[0] if cand else None

    def visit_done(self, j, ev, w, t):
        ev.node_exits.append((j.node, j.task, t - j.arr, j.wait, j.end))
        if w is None:
            del self.alive[id(j.obj)]
            j.gone = t
            ev.exits.append(j)
            ev.left_srv.append(j)
            ev.trans.append((j, j.node, len(self.cfg['nodes'])))
            return
        m, kind, c, end, o = w
        ev.trans.append((j, j.node, m))
        j.visit(m, t, self.vseq(), self.cfg['nodes_prty'][m][j.cls])
        self.place(j, kind, c, end, t, ev)

    def place(self, j, kind, c, end, t, ev):
        if kind == 's':
            self.start(j, c, end, t, ev)
        else:
            j.loc = 'q'
            j.wait_from = t

    @staticmethod
    def start(j, c, end, t, ev):
        j.loc = ('s', c)
        j.start = t
        j.end = end
        j.starts += 1
        ev.started.append((j, c, end))


class Net(Family):
    name = 'net'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        M = r.choice([1, 2, 2, 3, 4])
        K = r.choice([1, 2, 2, 3])
        nodes = [r.choice([1, 1, 2, 3]) for _ in range(M)]
        cfg = dict(M=M, K=K, nodes=nodes, prty=[r.choice(NAMES) for _ in range(M)],
                   nodes_prty=[r.sample(range(K), K) for _ in range(M)],
                   R=[random_routes(r, M) for _ in range(K)])
        for k in range(K):
            g.stream(f'src{k}', 1.0 * K, 41, 'src', types=['M'], first_positive=True)
        load = r.choice([0.2, 0.5, 0.8, 1.2])
        for m in range(M):
            for k in range(K):
                st = g.stream(f'srv{m}_{k}', load * nodes[m], 37)
                st['vals'] = [max(x, 0.01) for x in st['vals']]
        sc = self.base_sc(g, r.choice([60, 150, 300]), **cfg)
        sc['u'] = g.uvals(89)
        return sc

    def build(self, sc):
        import numpy as np
        from most_queue.sim.priority_network import PriorityNetwork
        c, st = sc['cfg'], sc['streams']
        serv = [[{'type': st[f'srv{m}_{k}']['type'], 'params': st[f'srv{m}_{k}']['params']} for k in range(c['K'])]
                for m in range(c['M'])]
        return PriorityNetwork(c['K'], [st[f'src{k}']['params'] for k in range(c['K'])],
                               [np.array(x) for x in c['R']], list(c['nodes']), list(c['prty']), serv,
                               [list(x) for x in c['nodes_prty']])

    def shrink_cfg(self, sc):
        import copy
        cfg = sc['cfg']
        for m in range(cfg['M']):
            if cfg['nodes'][m] > 1:
                c = copy.deepcopy(sc)
                c['cfg']['nodes'][m] = 1
                yield c
            if cfg['prty'][m] != 'NP':
                c = copy.deepcopy(sc)
                c['cfg']['prty'][m] = 'NP'
                yield c
        if cfg['K'] > 1:
            for d in range(cfg['K']):
                c = copy.deepcopy(sc)
                cc = c['cfg']
                del cc['R'][d]
                for m in range(cfg['M']):
                    v = cc['nodes_prty'][m].pop(d)
                    cc['nodes_prty'][m] = [x - (x > v) for x in cc['nodes_prty'][m]]
                st = c['streams']
                for pre in ['src'] + [f'srv{m}_' for m in range(cfg['M'])]:
                    left = [st.pop(f'{pre}{k}') for k in range(cfg['K'])]
                    del left[d]
                    for i, x in enumerate(left):
                        st[f'{pre}{i}'] = x
                cc['K'] -= 1
                yield c

    def snap(self, sim):
        s = observe.Snap()
        s.t = sim.ttek
        s.arrived = tuple(sim.arrived)
        s.served = tuple(sim.served)
        s.in_sys = tuple(sim.in_sys)
        s.nodes = [observe.snap_queueing(x) for x in sim.smos]
        s.dropped = tuple(sum(n.dropped) for n in s.nodes)
        s.srv = [o for n in s.nodes for o in n.srv]
        s.end = [o for n in s.nodes for o in n.end]
        s.queue = [o for n in s.nodes for o in n.queue]
        s.future = []
        s.busy = sum(n.busy for n in s.nodes)
        s.nq = len(s.queue)
        return s

    def make_tracker(self, sc):
        return NetTracker(sc['cfg'])

    def pending(self, sim):
        return list(sim.arrival_time) + [c.time_to_end_service for s in sim.smos for c in s.servers]

    def p_count(self, run):
        c = run.sc['cfg']
        return c['M'] * c['K']

    def occupancy(self, run):
        c = run.sc['cfg']
        occ = [0] * (c['M'] * c['K'])
        for j in run.tracker.alive.values():
            occ[j.node * c['K'] + j.task] += 1
        return occ

    def touched(self, run):
        ev = run.ev
        return [a != 0 or b != 0 for x, y in zip(ev.n_arr, ev.n_srv) for a, b in zip(x, y)]

    def raw_p(self, sim):
        return [p for s in sim.smos for p in s.p]

    def get_p(self, sim):
        return None

    def source_roles(self, sc):
        return [f'src{k}' for k in range(sc['cfg']['K'])]

    def n_classes(self, sim):
        return sim.k_num * (1 + sim.n_num)

    def departures(self, run):
        t, K = run.cur.t, run.sc['cfg']['K']
        return [(j.cls, t - j.entry) for j in run.ev.exits] + \
            [(K + m * K + kk, soj) for m, kk, soj, _, _ in run.ev.node_exits]

    def waits(self, run):
        K = run.sc['cfg']['K']
        return None, [(j.cls, j.net_wait) for j in run.ev.exits] + \
            [(K + m * K + kk, w) for m, kk, _, w, _ in run.ev.node_exits]

    def reported_v(self, sim):
        return list(sim.v_network) + [v for s in sim.smos for v in s.v]

    def reported_w(self, sim):
        return list(sim.w_network) + [w for s in sim.smos for w in s.w]

    def check_balance(self, run):
        ev, cur, t, cfg = run.ev, run.cur, run.cur.t, run.sc['cfg']
        if ev.lost:
            fail('%r disappeared from node %d at t=%.12g', ev.lost[0], ev.lost[0].node, t)
        if ev.jumped:
            fail('%r jumped to another node at t=%.12g without finishing its service', ev.jumped[0], t)
        if any(cur.dropped):
            fail('an unlimited node refused a job')
        n_exit = [0] * cfg['K']
        for j in ev.exits:
            n_exit[j.cls] += 1
        n_new = [0] * cfg['K']
        for j in ev.new:
            n_new[j.cls] += 1
        inside = [0] * cfg['K']
        for j in run.tracker.alive.values():
            inside[j.cls] += 1
        for k in range(cfg['K']):
            if ev.d_arr[k] != n_new[k] or ev.d_srv[k] != n_exit[k]:
                fail('class %d at t=%.12g: %d entered and %d left, reported %d and %d', k, t, n_new[k], n_exit[k],
                     ev.d_arr[k], ev.d_srv[k])
            if cur.in_sys[k] != inside[k] or cur.arrived[k] != cur.served[k] + cur.in_sys[k]:
                fail('class %d at t=%.12g: arrived %d, left %d, in network %d, found %d', k, t, cur.arrived[k],
                     cur.served[k], cur.in_sys[k], inside[k])
        occ = self.occupancy(run)
        for m, s in enumerate(cur.nodes):
            for kk in range(cfg['K']):
                if s.in_sys[kk] != occ[m * cfg['K'] + kk] or s.arrived[kk] != s.served[kk] + s.in_sys[kk]:
                    fail('node %d, class %d in the node, t=%.12g: arrived %d, served %d, in node %d, found %d', m, kk, t,
                         s.arrived[kk], s.served[kk], s.in_sys[kk], occ[m * cfg['K'] + kk])

    def coverage(self, run):
        super().coverage(run)
        for j, a, b in run.ev.trans:
            if a == b:
                run.counts['self_loops'] += 1
        run.counts['visits'] += len(run.ev.trans)

    def state_key(self, run):
        c = run.cur
        return ('net', tuple((min(s.nq, 3), s.busy) for s in c.nodes), tuple(min(x, 4) for x in c.in_sys), run.ev_kind())

    def digest(self, run):
        c = run.cur
        return repr((c.t, c.arrived, c.served, c.in_sys, c.end, c.nq)).encode()


def random_routes(r, M):
    """Row 0: entry; row i+1: after node i; last column: exit. Every class can leave eventually."""
    while True:
        R = []
        for i in range(M + 1):
            w = [r.choice([0, 0, 1, 2, r.random()]) for _ in range(M + 1)]
            if i == 0:
                w[M] = 0
            elif r.random() < 0.7:
                w[M] = max(w[M], 0.7)
            if not any(w):
                w[r.randrange(M) if i == 0 else M] = 1
            s = sum(w)
            R.append([x / s for x in w])
        # last column must be reachable from every node
        ok = {M}
        for _ in range(M + 1):
            for i in range(M):
                if any(R[i + 1][j] > 0.05 and j in ok for j in range(M + 1)):
                    ok.add(i)
        if len(ok) == M + 1:
            return R


class Routes(Oracle):
    """Transitions inside the support of the routing matrix; arrivals as drawn; nobody gets lost."""

    def step(self, run):
        ev, t, cfg = run.ev, run.cur.t, run.sc['cfg']
        if sum(ev.d_arr) == 0 and ev.completed is None:
            fail('at t=%.12g something happened that is no arrival and no end of a service', t)
        for j, a, b in ev.trans:
            p = cfg['R'][j.cls][a + 1][b]
            if p <= 0:
                fail('job of class %d went from %s to %s at t=%.12g, its routing matrix gives that probability 0', j.cls,
                     'outside' if a < 0 else 'node %d' % a, 'outside' if b == cfg['M'] else 'node %d' % b, t)
        if sum(ev.d_arr) and ev.completed is not None:
            fail('an arrival and a departure in one event at t=%.12g', t)


class NodeDiscipline(Oracle):
    """Every node: its priority discipline with its own order of classes, services as drawn."""

    def __init__(self, run):
        self.pool = Pool()
        self.pool.feed(run.world.log)

    def step(self, run):
        ev, cur, cfg = run.ev, run.cur, run.sc['cfg']
        t = cur.t
        self.pool.feed(run.world.log)
        for m, kk, _, _, end in ev.node_exits:
            if not close(end, t, t):
                fail('a job left node %d at %.12g, its service ends at %.12g', m, t, end)
        for j in ev.interrupted:
            if cfg['prty'][j.node] not in PREEMPTIVE:
                fail('%r in service in node %d was interrupted at %.12g', j, j.node, t)
        for j, c, end in ev.started:
            check_length(self.pool, j, end, t, cfg['prty'][j.node], f'srv{j.node}_{j.cls}')
        qs = [[] for _ in range(cfg['M'])]
        ss = [[] for _ in range(cfg['M'])]
        for j in run.tracker.alive.values():
            if j.loc == 'q':
                qs[j.node].append(j)
            else:
                ss[j.node].append(j)
                if j.end < t and not close(j.end, t, t):
                    fail('%r still in node %d at %.12g, its service ended at %.12g', j, j.node, t, j.end)
        x = ev.completed
        loop = next((a for j, a, b in ev.trans if j is x and a == b), None) if x is not None else None
        if loop is not None and x.loc != 'q' and cfg['prty'][loop] in PREEMPTIVE and qs[loop]:
            # x may have displaced, in the same event, a job that had just got its channel
            top = min(j.task for j in qs[loop])
            for j in qs[loop]:
                if j.task == top:
                    j.interrupted += 1
        for m, s in enumerate(cur.nodes):
            for c, o in enumerate(s.srv):
                if o is not None:
                    j = run.tracker.jobs[id(o)]
                    if not close(s.end[c], j.end, t):
                        fail('%r: end of its service in node %d changed from %.12g to %.12g', j, m, j.end, s.end[c])
            st = [j for j, _, _ in ev.started if j.node == m]
            where = ' in node %d' % m
            if cfg['prty'][m] in PREEMPTIVE:
                check_preemptive(qs[m], ss[m], st, [j for j in ev.interrupted if j.node == m], node_cls, t,
                                 cfg['nodes'][m], where)
            else:
                # a job that comes right back to the node competes only after its channel was filled
                q = [j for j in qs[m] if not (m == loop and j is x)]
                if qs[m] and len(ss[m]) < cfg['nodes'][m]:
                    fail('a channel idles in node %d at %.12g while %d jobs wait', m, t, len(qs[m]))
                check_np(q, st, node_cls, cfg['prty'][m], t, cfg['nodes'][m], len(ss[m]), where)


def node_cls(j):
    return j.task


def routing_frequencies(tier, base):
    """Routes of runs with the real (seeded) generators against the routing matrices."""
    import random
    r = random.Random(f'{base}/net')
    for c in range(8 if tier == 'quick' else 48):
        M, K = r.randint(1, 4), r.randint(1, 3)
        cfg = dict(M=M, K=K, nodes=[r.randint(1, 2) for _ in range(M)], prty=[r.choice(['NP', 'PR', 'No'])] * M,
                   nodes_prty=[r.sample(range(K), K) for _ in range(M)], R=[random_routes(r, M) for _ in range(K)],
                   steps=12000, seed=r.getrandbits(31))
        yield {'kind': 'routing_freq', 'family': 'routing_freq', 'cfg': cfg, 'seed': cfg['seed']}


def routing_run(cfg):
    import numpy as np
    from . import world as W
    from most_queue.sim.priority_network import PriorityNetwork
    W.set_world(None)
    W.seed_globals(cfg['seed'])
    K, M = cfg['K'], cfg['M']
    fam = Net()
    sample = {}
    with W.Mute():
        serv = [[{'type': 'M', 'params': 40.0 * K} for _ in range(K)] for _ in range(M)]
        sim = PriorityNetwork(K, [1.0] * K, [np.array(x) for x in cfg['R']], list(cfg['nodes']), list(cfg['prty']),
                              serv, [list(x) for x in cfg['nodes_prty']])
        tr = NetTracker(cfg)
        prev = fam.snap(sim)
        for _ in range(cfg['steps']):
            sim.run_one_step()
            cur = fam.snap(sim)
            ev = tr.step(prev, cur)
            for j, a, b in ev.trans:
                sample.setdefault((j.cls, a), []).append(b)
            # jobs that are gone need no history here
            for j in ev.exits:
                tr.jobs.pop(id(j.obj), None)
            prev = cur
    n = sum(map(len, sample.values()))
    for (k, a), s in sorted(sample.items()):
        if k < 0 or k >= K:
            return 'a job of unknown class entered', n
        msg = chi2_fail(s, {i: p for i, p in enumerate(cfg['R'][k][a + 1]) if p > 0},
                        'class %d, next stop after %s' % (k, 'entry' if a < 0 else 'node %d' % a))
        if msg:
            return msg, n
    return None, n
