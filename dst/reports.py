"""C25: what the library prints is what happened.

Reports of running simulators are taken at seeded events and read back, number by number, against the
state of the simulator and the observed history; tables and figures of results are read back against
the results they were asked to show. C26: confidence intervals hold what they promise."""
import contextlib
import copy
import hashlib
import io
import math
import random
import re

import numpy as np

from . import disk as K
from .engine import Check, Outcome
from .observe import tup
from .oracles import Oracle, fail
from .simcheck import SimCheck, protect

NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)'


def shown(text, x, sig=None):
    """Is text the number x, to the digits it has (or to sig significant ones)?"""
    try:
        y = float(text)
    except ValueError:
        return False
    x = float(np.real(x))
    if not math.isfinite(x) or not math.isfinite(y):
        return x == y or (x != x and y != y)
    if sig is not None:
        return abs(x - y) <= 0.51 * 10.0 ** (1 - sig) * max(abs(x), 1e-300)
    dec = len(text.split('.')[1]) if '.' in text else 0
    return abs(x - y) <= 0.501 * 10.0 ** -dec + 1e-12 * abs(x)


def expect(text, x, what, t, sig=None):
    if not shown(text, x, sig):
        fail('the report says %s %s, it is %.12g (t=%.12g)', what, text, float(np.real(x)), t)


class Reader:
    """The lines of a report, section by section."""

    def __init__(self, text, t):
        self.text = text
        self.t = t

    def one(self, label, what=None):
        """The number behind a label."""
        m = re.search(r'(?m)^\s*' + label + r'\s*:?\s*(' + NUM + r')\s*$', self.text)
        if not m:
            fail('the report does not say: %s (t=%.12g)', what or label, self.t)
        return m.group(1)

    def row(self, label, size):
        """The numbers on the lines that follow a label."""
        m = re.search(r'(?m)^\s*' + label + r'\s*:?\s*$', self.text)
        if not m:
            fail('the report does not say: %s (t=%.12g)', label, self.t)
        rest = self.text[m.end():]
        m = re.match(r'\s*((?:' + NUM + r'\s+)*' + NUM + r')', rest + '\n')
        got = m.group(1).split() if m else []
        if len(got) != size:
            fail('the report has %d numbers under %s (t=%.12g)', len(got), label, self.t)
        return got

    def lacks(self, label):
        return re.search(r'(?m)^\s*' + label, self.text) is None


def counters(r, c, k, full):
    for label, x in (('Arrived', c['arrived'][k]), ('Served', c['served'][k]), ('In System', c['in_sys'][k])):
        expect(r.one(label), x, label, r.t)
    if c['buffer'] is not None:
        expect(r.one('Dropped'), c['dropped'][k], 'Dropped', r.t)
    if full:
        expect(r.one('Taken'), c['taken'][k], 'Taken', r.t)


class Report(Oracle):
    """Takes a report now and then and reads it."""

    def __init__(self, run):
        self.rng = random.Random(run.sc['seed'] ^ 0x5a17)
        self.taken = [0] * run.fam.n_classes(run.sim)
        self.rate = self.rng.choice([0.03, 0.1, 0.3])

    def step(self, run):
        for j, _, _ in run.ev.started:
            self.taken[j.cls if len(self.taken) > 1 else 0] += 1
        self.next_event(run)
        if run.cur.t > 0 and self.rng.random() < self.rate:
            self.judge(run)

    def next_event(self, run):
        """The time to the next event, where it is asked for."""
        sim, t = run.sim, run.cur.t
        if run.fam.name == 'fin':
            sim.calc_next_event_time()
        elif not run.sc['cfg'].get('next'):
            return
        due = min(run.fam.pending(sim))
        if not abs(sim.time_to_next_event - (due - t)) <= 1e-9 * (abs(t) + abs(due)):
            fail('time to the next event is given as %.12g, the next one is at %.12g (t=%.12g)', sim.time_to_next_event, due, t)
        run.count('next_event_times')

    def finish(self, run):
        if run.cur.t > 0:
            self.judge(run)

    def judge(self, run):
        sim, cur, fam = run.sim, run.cur, run.fam
        t = cur.t
        full = str(sim)
        short = sim.__str__(is_short=True)
        run.count('reports_read', 2)
        if str(sim) != full:
            fail('two reports of the same moment differ (t=%.12g)', t)
        c = {'buffer': run.sc['cfg'].get('buffer'), 'arrived': cur.arrived, 'served': cur.served, 'dropped': cur.dropped,
             'in_sys': cur.in_sys, 'taken': self.taken}
        for text, is_full in ((full, True), (short, False)):
            self.head(run, text, c)
            if fam.name.startswith('prio'):
                self.classes(run, text, c, is_full)
            else:
                self.single(run, text, c, is_full)
        self.servers(run, full)

    def head(self, run, text, c):
        cfg, st = run.sc['cfg'], run.sc['streams']
        line = text.split('\n')[0].strip()
        m = re.match(r'Queueing system\s+(.*)$', line)
        if not m:
            fail('the report does not begin with the kind of system: %r', line)
        want = ''
        for what in ('src', 'srv'):
            kinds = [st[x]['type'] for x in sorted(st) if x.startswith(what)]
            if run.fam.name.startswith('prio'):
                want += kinds[0] + ('*/' if what == 'src' else '/') if len(set(kinds)) == 1 else ','.join(kinds) + '/'
            else:
                want += kinds[0] + '/'
        want += str(cfg['n'])
        if c['buffer'] is not None:
            want += '/' + str(c['buffer'])
        if run.fam.name.startswith('prio') and cfg['prty'] != 'No':
            want += '/' + cfg['prty']
        if run.fam.name in ('fj', 'fjd'):
            want += '|Split-Join' if cfg['sj'] else '|Fork-Join'
        if m.group(1).replace(' ', '') != want:
            fail('the report is headed %r, the system is %s', line, want)

    def single(self, run, text, c, full):
        sim, cur, fam, t = run.sim, run.cur, run.fam, run.cur.t
        r = Reader(text, t)
        fj = fam.name in ('fj', 'fjd')
        expect(r.one('Current Time'), t, 'Current Time', t)
        if fam.name == 'fin':
            for i, x in enumerate(sim.arrival_times):
                expect(r.one('Arrival Time of Source %d' % (i + 1)), x, 'Arrival Time of Source %d' % (i + 1), t)
        else:
            expect(r.one('Arrival Time'), sim.arrival_time, 'Arrival Time', t)
        if not fj:
            expect(r.one('Load'), sim.calc_load(), 'Load', t)
        for label, m in (('Sojourn moments', fam.reported_v(sim)), ('Wait moments', fam.reported_w(sim))):
            if m is None:
                continue
            for i, s in enumerate(r.row(label, 3)):
                expect(s, m[0][i], '%s %d' % (label, i + 1), t)
        if not full:
            if not (r.lacks('Served') and r.lacks('Stationary')):
                fail('the short report is not short')
            return
        p = fam.raw_p(sim)[0]
        for i, s in enumerate(r.row('Stationary prob', min(10, len(p)))):
            expect(s, p[i] / t, 'probability of %d' % i, t)
        counters(r, c, 0, not fj)
        if not fj:
            for i, s in enumerate(r.row('PPNZ moments', 3)):
                expect(s, sim.ppnz[i], 'PPNZ moment %d' % (i + 1), t)
        expect(r.one('Queue Count'), cur.nq, 'Queue Count', t)
        if fam.name == 'imp':
            self.patience(run, text)

    def patience(self, run, text):
        m = re.search(r'Task\s+(-?\d+)\s+is earlier to leave at\s+(' + NUM + ')', text)
        if not m:
            fail('the report does not say who is earliest to leave (t=%.12g)', run.cur.t)
        at = [o.moment_to_leave for o in run.cur.queue]
        first = min(at, default=math.inf)
        expect(m.group(2), first, 'the earliest to leave, at', run.cur.t)
        i = int(m.group(1))
        if at and not (0 <= i < len(at) and at[i] == first) or not at and i != -1:
            fail('the report says task %d is earliest to leave, their moments are %s (t=%.12g)', i, at[:12], run.cur.t)

    def classes(self, run, text, c, full):
        sim, cur, fam, t = run.sim, run.cur, run.fam, run.cur.t
        whole = Reader(text, t)
        expect(whole.one('Load'), sim.calc_load(), 'Load', t)
        if full:
            expect(whole.one('Current Time'), t, 'Current Time', t)
        parts = re.split(r'(?m)^Class\s+(\d+)\s*$', text)
        if [int(x) for x in parts[1::2]] != list(range(1, len(cur.in_sys) + 1)):
            fail('the report has the classes %s', parts[1::2])
        for k, part in enumerate(parts[2::2]):
            r = Reader(re.split(r'(?m)^\s*Server', part)[0], t)
            who = 'class %d: ' % (k + 1)
            for label, m in (('Sojourn moments', fam.reported_v(sim)), ('Wait moments', fam.reported_w(sim))):
                for i, s in enumerate(r.row(label, 3)):
                    expect(s, m[k][i], '%s%s %d' % (who, label, i + 1), t, 4)
            if not full:
                continue
            expect(r.one('Arrival time'), sim.arrival_time[k], who + 'Arrival time', t)
            for i, s in enumerate(r.row('Stationary prob', 10)):
                expect(s, fam.raw_p(sim)[k][i] / t, '%sprobability of %d' % (who, i), t, 4)
            counters(r, c, k, True)
            for i, s in enumerate(r.row('PPNZ moments', 3)):
                expect(s, sim.ppnz[k][i], '%sPPNZ moment %d' % (who, i + 1), t, 4)

    def servers(self, run, text):
        """Who is in which channel, until when, and who waits."""
        cur, cfg, t = run.cur, run.sc['cfg'], run.cur.t
        prio = run.fam.name.startswith('prio')
        parts = re.split(r'(?m)^\s*Server\b', text)[1:]
        if len(parts) != cfg['n']:
            fail('the report shows %d channels of %d (t=%.12g)', len(parts), cfg['n'], t)
        for c, (part, job) in enumerate(zip(parts, cur.srv)):
            free = re.search(r'\bFree\b', part) is not None
            if free != (job is None):
                fail('the report shows channel %d as %s (t=%.12g)', c + 1, 'free' if free else 'busy', t)
            if free:
                no = re.match(r'\s*(\d+):\s*Free', part)
                if prio and not (no and int(no.group(1)) == c + 1):
                    fail('the report numbers channel %d otherwise: %r', c + 1, part.strip()[:40])
                continue
            arr = re.search(r'Arrival (?:moment|time):\s*(' + NUM + ')', part)
            if not arr:
                fail('the report does not say when the job in channel %d arrived (t=%.12g)', c + 1, t)
            h = run.tracker.jobs[id(job)]
            expect(arr.group(1), h.arr if run.fam.name not in ('fj', 'fjd') else job.arr_time,
                   'job in channel %d arrived' % (c + 1), t)
            end = re.search((r'End service moment:\s*(' if prio else r'Time to end\s*(') + NUM + ')', part)
            if end:
                expect(end.group(1), cur.end[c], 'service in channel %d ends' % (c + 1), t)
            elif not prio or cur.end[c] != 0:
                fail('the report does not say when the service in channel %d ends (t=%.12g)', c + 1, t)
            if not prio:
                continue
            k = re.search(r'Class:\s*(\d+)', part)
            if not k or int(k.group(1)) != h.cls + 1:
                fail('the report shows a job of class %s in channel %d, it is of class %d', k and k.group(1), c + 1, h.cls + 1)
            if cfg['prty'] == 'No':
                m = re.search(r'Queue count\s+(\d+)', part)
                if not m or int(m.group(1)) != cur.nq:
                    fail('the report says %s jobs wait, %d do (t=%.12g)', m and m.group(1), cur.nq, t)
                continue
            got = {int(a): int(b) for a, b in re.findall(r'Queue # (\d+) count (\d+)', part)}
            want = {i + 1: 0 for i in range(len(cur.in_sys))}
            for o in cur.queue:
                want[run.tracker.jobs[id(o)].cls + 1] += 1
            if got != want:
                fail('the report counts the waiting jobs of each class as %s, they are %s (t=%.12g)', got, want, t)


# ------------------------------------------------------------------------------------------- tables and figures

class Figure:
    """Stands in for the plotting library and keeps what it was given."""

    def __init__(self):
        self.lines = []
        self.labels = {}

    def subplots(self, *a, **k):
        return self, self

    def plot(self, xs, ys, *a, label=None, **k):
        self.lines.append((label, [float(np.real(x)) for x in xs], [float(np.real(y)) for y in ys]))
        return [self]

    def set_xlabel(self, s, *a, **k):
        self.labels['x'] = s

    def set_ylabel(self, s, *a, **k):
        self.labels['y'] = s

    def __getattr__(self, name):
        return lambda *a, **k: None


def plain(text):
    return re.sub(r'\x1b\[[0-9;]*m', '', text).replace('\r', '')


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return plain(out.getvalue())


def cells(line):
    return [x.strip() for x in line.split('|')]


def values(r, n, complex_):
    out = [r.choice([1.0, 1.0, 1e-3, 1e-6, 1e3, 1e7]) * r.uniform(0.1, 10.0) for _ in range(n)]
    return [complex(x, 0.0) if complex_ and r.random() < 0.7 else x for x in out]


def two_columns(text, a, b, sig, first, header='ИМ'):
    """Rows number | calculated | simulated, of the order the header says."""
    head = next((cells(x) for x in text.split('\n') if header in x and '|' in x and '№' in x), None)
    if head is None or len(head) != 3:
        fail('the table has no header of three columns')
    col = {}
    for i, x in enumerate(head):
        if x in ('ИМ', 'Sim'):
            col['sim'] = i
        elif x in ('Числ', 'Numerical'):
            col['calc'] = i
    if set(col) != {'sim', 'calc'}:
        fail('the header of the table is %s', head)
    rows = []
    for x in text.split('\n'):
        x = cells(x)
        if len(x) == 3 and re.fullmatch(r'\d+', x[0]):
            rows.append(x)
    if len(rows) != len(a):
        fail('the table has %d rows, %d are to be shown', len(rows), len(a))
    for i, row in enumerate(rows):
        if int(row[0]) != first + i:
            fail('row %d of the table is numbered %s', i + 1, row[0])
        for kind, v in (('sim', a[i]), ('calc', b[i])):
            if not shown(row[col[kind]], v, sig):
                fail('row %s of the table shows %s as the %s value, it is %.12g', row[0], row[col[kind]],
                     'simulated' if kind == 'sim' else 'calculated', float(np.real(v)))


def word(text, is_w):
    has = ('ожидания' in text, 'пребывания' in text)
    if has != (is_w, not is_w):
        fail('the table is headed by the wrong kind of time')


def t_times(r):
    from most_queue.general_utils.tables import times_print
    is_w = r.random() < 0.5
    kw = {} if is_w and r.random() < 0.5 else {'is_w': is_w}
    if r.random() < 0.2:
        a, b = values(r, 1, r.random() < 0.5), values(r, 1, r.random() < 0.5)
        text = printed(lambda: times_print(a[0], b[0], **kw))
    else:
        a, b = values(r, r.randint(1, 6), r.random() < 0.3), values(r, r.randint(1, 6), r.random() < 0.3)
        text = printed(lambda: times_print(list(a), list(b), **kw))
    n = min(len(a), len(b))
    word(text, is_w)
    two_columns(text, a[:n], b[:n], 5, 1)
    return a, b


def t_probs(r):
    from most_queue.general_utils.tables import probs_print
    a, b = ([r.random() * r.choice([1.0, 1e-3, 1e-8, 0.0]) for _ in range(r.randint(1, 25))] for _ in range(2))
    kw = {} if r.random() < 0.4 else {'size': r.randint(1, 20)}
    text = printed(lambda: probs_print(a, b, **kw))
    n = min(len(a), len(b), kw.get('size', 10))
    two_columns(text, a[:n], b[:n], 5, 0)
    return a, b


def t_classes(r):
    from most_queue.general_utils.tables import times_print_with_classes
    k, m = r.randint(1, 6), r.randint(1, 4)
    is_w = r.random() < 0.5
    a, b = [values(r, m, False) for _ in range(k)], [values(r, m, False) for _ in range(k)]
    kw = {} if is_w and r.random() < 0.5 else {'is_w': is_w}
    text = printed(lambda: times_print_with_classes(a, b, **kw))
    word(text, is_w)
    rows, cls, heads = {}, 0, False
    for line in text.split('\n'):
        c = cells(line)
        heads = heads or [x for x in c if x] == [str(j + 1) for j in range(m)]
        if len(c) > 1 and c[1] in ('ИМ', 'Р'):
            rows.setdefault((c[1], sum(1 for x in rows if x[0] == c[1])), [x for x in c[2:] if x])
        elif re.fullmatch(r'\d+', c[0]) and len(c) > 1 and set(c[1]) == {'-'}:
            cls += 1
            if int(c[0]) != cls:
                fail('class %d of the table is numbered %s', cls, c[0])
    if cls != k or not heads:
        fail('the table numbers %d classes of %d%s', cls, k, '' if heads else ', and its columns wrongly')
    for kind, v, name in (('ИМ', a, 'simulated'), ('Р', b, 'calculated')):
        if sum(1 for x in rows if x[0] == kind) != k:
            fail('the table shows the %s times of %d classes of %d', name, sum(1 for x in rows if x[0] == kind), k)
        for i in range(k):
            got = rows[(kind, i)]
            if len(got) != m or not all(shown(x, y, 3) for x, y in zip(got, v[i])):
                fail('the table shows %s as the %s times of class %d, they are %s', got, name, i + 1, v[i])
    return a, b


def experiment(r, n=None):
    p = lambda: [r.random() * r.choice([1.0, 0.1, 1e-4]) for _ in range(r.randint(11, 30))]
    u = lambda: round(r.uniform(0.0, 3.0), r.choice([1, 3, 9]))
    s = {k: u() for k in ('ro', 'coev_service', 'coev_warm', 'coev_cold', 'coev_cold_delay', 'sim_warm_prob', 'tt_warm_prob',
                          'sim_cold_prob', 'tt_cold_prob', 'sim_cold_delay_prob', 'tt_cold_delay_prob', 'tt_time', 'sim_time', 'coev')}
    s.update(n=n or r.randint(1, 40), tt_num_of_iter=r.randint(1, 5000), p_tt=p(), p_sim=p(), w_tt=values(r, 3, r.random() < 0.3),
             w_sim=values(r, 3, r.random() < 0.3), b_d=values(r, 3, False))
    return s


def t_experiments(r):
    v = K.module()
    ss = [experiment(r) for _ in range(r.randint(1, 3))]
    text = printed(lambda: v.print_table(ss))
    parts = re.split(r'Comparison of calculation results', text)[1:]
    if len(parts) != len(ss):
        fail('%d experiments are printed of %d', len(parts), len(ss))
    for s, t in zip(ss, parts):
        for label, key in ((r'M/H2/\s*', 'n'), (r'Utilization factor:\s*', 'ro'), (r'Service time coefficient of variation\s*', 'coev_service'),
                           (r'Warm-up time coefficient of variation\s*', 'coev_warm'),
                           (r'Cooling time coefficient of variation\s*', 'coev_cold'),
                           (r'Cooling delay coefficient of variation\s*', 'coev_cold_delay'),
                           (r'algorithm:\s*', 'tt_num_of_iter'), (r'Running time of the [\w-]+ algorithm:\s*', 'tt_time'),
                           (r'Simulation time:\s*', 'sim_time')):
            m = re.search(label + '(' + NUM + ')', t)
            if not m or not shown(m.group(1), s[key]):
                fail('the table shows %s as %s, it is %.12g', m and m.group(1), key, s[key])
        for what, key in (('warm-up', 'warm'), ('cooling', 'cold'), ('cooling delay', 'cold_delay')):
            m = re.search(r'being in a %s state\s*ИМ:\s*(%s)\s*Числ:\s*(%s)' % (what, NUM, NUM), t)
            if not m or not shown(m.group(1), s['sim_%s_prob' % key]) or not shown(m.group(2), s['tt_%s_prob' % key]):
                fail('the probabilities of %s are printed as %s, they are %s (simulated), %s (calculated)', what, m and m.groups(),
                     s['sim_%s_prob' % key], s['tt_%s_prob' % key])
        probs, times = t.split('Initial waiting times')
        rows = sum(1 for x in probs.split('\n') if re.match(r'\s*\d+\s*\|', x))
        if rows < 10:
            fail('the table shows %d probabilities', rows)
        two_columns(probs, s['p_sim'][:rows], s['p_tt'][:rows], 3, 0, 'Sim')
        two_columns(times, s['w_sim'], s['w_tt'], 3, 1, 'Sim')
    return ss


def t_figure(r):
    v = K.module()
    mode, x = r.choice(['error', 'abs']), r.choice(['ro', 'n', 'delay_mean', 'coev'])
    i = r.randint(0, 2)
    ss = [experiment(r) for _ in range(r.randint(1, 8))]
    for s in ss:
        s['w_tt'], s['w_sim'] = values(r, 3, False), values(r, 3, False)
    fig, old = Figure(), v.plt
    v.plt = fig
    try:
        kw = {'w_moments_num': i, 'param_name': x, 'mode': mode}
        for name, default in (('w_moments_num', 0), ('param_name', 'ro'), ('mode', 'error')):
            if kw[name] == default and r.random() < 0.5:
                del kw[name]
        v.make_plot(ss, **kw)
    finally:
        v.plt = old
    xs = [s['b_d'][0] if x == 'delay_mean' else s[x] for s in ss]
    sim, calc = [s['w_sim'][i] for s in ss], [s['w_tt'][i] for s in ss]
    if mode == 'error':
        want = [(None, xs, [100 * (a - b) / b for a, b in zip(sim, calc)])]
    else:
        want = [('ИМ', xs, sim), ('Числ', xs, calc)]
    got = sorted(fig.lines, key=lambda z: str(z[0]))
    want = sorted(want, key=lambda z: str(z[0]))
    same = len(got) == len(want)
    for (l0, x0, y0), (l1, x1, y1) in zip(got, want):
        same = same and (mode == 'error' or l0 == l1) and np.allclose(x0, x1, rtol=1e-9, atol=0) and \
            len(y0) == len(y1) and np.allclose(y0, y1, rtol=1e-9, atol=1e-12)
    axis = {'ro': r'\rho', 'n': 'n', 'coev': r'\nu', 'delay_mean': 't'}[x]
    if axis not in str(fig.labels.get('x')) or ('%' in str(fig.labels.get('y'))) != (mode == 'error'):
        fail('the axes of the figure (%s over %s) are called %s', mode, x, fig.labels)
    if not same:
        fail('the figure (%s over %s) shows %s, asked for %s', mode, x, got, want)
    return ss


TABLES = {'times': t_times, 'probabilities': t_probs, 'classes': t_classes, 'experiments': t_experiments, 'figure': t_figure}


class Reports(SimCheck):
    def gen(self, seed, tier):
        r = random.Random(seed ^ 0x7ab1e)
        if r.random() < 0.15:
            return {'family': 'table', 'table': r.choice(list(TABLES)), 'seed': seed & 0x7fffffffffff}
        sc = SimCheck.gen(self, seed, tier)
        if sc['family'].startswith('prio'):
            sc['cfg']['next'] = r.random() < 0.5
        return sc

    def execute(self, sc):
        if sc['family'] != 'table':
            return SimCheck.execute(self, sc)
        o = Outcome()
        r = random.Random(sc['seed'])
        got = protect(lambda: TABLES[sc['table']](r), o)
        if o.message:
            o.message = '%s: %s' % (sc['table'], o.message)
        o.counts['tables_' + sc['table']] = 1
        o.nontrivial = 1
        o.states.add(hash(sc['table']))
        o.trace = o.events = hashlib.blake2b(repr(got).encode(), digest_size=12).hexdigest()
        return o

    def shrink_moves(self, sc):
        return iter(()) if sc['family'] == 'table' else SimCheck.shrink_moves(self, sc)

    def describe(self, sc):
        return sc if sc['family'] == 'table' else SimCheck.describe(self, sc)


# ------------------------------------------------------------------------------------------ confidence intervals

# how far the coverage may be from what is promised, in shares of the promised error: the two or three decimals of the
# usual table (sizes in the table; sizes between its rows; beyond its last row, where the normal quantile stands in)
IN_TABLE = set(range(5, 20)) | set(range(20, 71, 5)) | {80, 90, 100, 120}
SLACK = {0.95: (0.012, 0.03, 0.052), 0.99: (0.026, 0.07, 0.13), 0.999: (0.07, 0.155, 0.33)}
GRAINS = {0.95: 0.012, 0.99: 0.013, 0.999: 0.013}


def slack(gamma, n):
    if n < 20:
        return GRAINS[gamma]
    return SLACK[gamma][0 if n in IN_TABLE else 1 if n <= 120 else 2]


class Confidence(Check):
    """Simulated samples of normal results: how many of the intervals contain the true mean."""
    state_measure = 'distinct (confidence, number of replications) pairs'
    components = 'real'
    real = ['most_queue.theory.utils.student_stat: real code, unmodified']
    stubs = ['the results of the replications: seeded normal samples']

    def __init__(self, prop, rule, quick, thorough):
        self.prop, self.rule, self.quick_runs, self.thorough_runs = prop, rule, quick, thorough
        self.assumptions = ['results of the replications are independent and normal, at least five of them']

    def gen(self, seed, tier):
        r = random.Random(seed)
        n = r.choice([r.randint(5, 19), r.choice(sorted(IN_TABLE)), r.randint(20, 120), r.randint(20, 70), r.randint(121, 1000)])
        return {'family': 'confidence', 'seed': seed & 0x7fffffffffff, 'gamma': r.choice([0.95, 0.99, 0.999]), 'n': n,
                'mean': r.choice([0.0, 1.0, 1e-3, 1e5]) * r.uniform(-1, 1), 'std': r.choice([1.0, 1e-3, 1e4]) * r.uniform(0.1, 3.0),
                'draws': 200000 if tier == 'quick' else 1000000}

    def first(self, tier, base):
        out = []
        for g in (0.95, 0.99, 0.999):
            for n in sorted(IN_TABLE | {22, 23, 27, 28, 32, 33, 62, 63, 67, 68, 75, 76, 85, 86, 95, 96, 110, 121, 200}):
                out.append({'family': 'confidence', 'seed': seed_base(base, g, n), 'gamma': g, 'n': n, 'mean': 3.0, 'std': 2.0,
                            'draws': 200000})
        return out

    def execute(self, sc):
        o = Outcome()
        got = protect(lambda: self.cover(sc, o), o)
        o.nontrivial = 1
        o.states.add(hash((sc['gamma'], sc['n'])))
        o.trace = o.events = hashlib.blake2b(repr((sorted((k, v) for k, v in sc.items()), got)).encode(), digest_size=12).hexdigest()
        return o

    def cover(self, sc, o):
        from most_queue.theory.utils.student_stat import get_conf_intervals
        rng = np.random.RandomState(sc['seed'] % 2 ** 32)
        n, g, m, s = sc['n'], sc['gamma'], sc['mean'], sc['std']
        half = None
        for i in range(40):                # replications, whole
            x = m + s * rng.standard_normal(n)
            mean, std = float(x.mean()), float(x.std(ddof=1))
            lo, hi = get_conf_intervals(g, n, mean, std)
            if not lo <= mean <= hi:
                fail('the interval [%.12g, %.12g] does not contain the mean %.12g of its sample', lo, hi, mean)
            eps = 1e-12 * abs(mean) + 1e-9 * std
            if abs((hi - mean) - (mean - lo)) > eps:
                fail('the interval [%.12g, %.12g] is not around the mean %.12g', lo, hi, mean)
            f = (hi - lo) / 2 / std * math.sqrt(n)
            if half is not None and abs(f - half) > 1e-6 * half + 1e-12 * abs(mean) / std * math.sqrt(n) * 4:
                fail('intervals of samples of %d are %.9g and %.9g deviations of the mean wide', n, half, f)
            half = half if half is not None else f
        # how often such intervals contain the true mean: over simulated deviations, the mean averaged out
        from scipy.special import ndtr
        dev = np.sqrt(rng.chisquare(n - 1, sc['draws']) / (n - 1))
        c = 2 * ndtr(half * dev) - 1
        cover, err = float(c.mean()), float(c.std()) / math.sqrt(len(c))
        o.counts['intervals_simulated'] += len(c) + 40
        o.counts['confidence_%g' % g] += 1
        if abs(cover - g) > slack(g, n) * (1 - g) + 6 * err:
            fail('%g intervals of samples of %d contain the true mean in a share of %.6f (+- %.2g) of the samples', g, n, cover, err)
        return half, cover


def seed_base(base, g, n):
    from .engine import seed_of
    return seed_of(base, 'C26 %g' % g, n)
