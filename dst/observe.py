"""
Black-box observation of a simulator after each event, and the history of every job drawn from it.

Only what a user can see is read: the clock, the counters, who sits in which channel until when,
and who waits where. A job is recognised by its object identity.
"""


def tup(x):
    if isinstance(x, (list, tuple)):
        return tuple(x)
    return (x,)


def flat_queue(q):
    """Jobs waiting in a queue of any shape, in order (a list of lists: one after another)."""
    if hasattr(q, 'queue'):
        q = q.queue
    out = []
    for x in q:
        if isinstance(x, (list, tuple)) or hasattr(x, 'queue'):
            out.extend(flat_queue(x))
        else:
            out.append(x)
    return out


class Snap:
    __slots__ = ('t', 'arrived', 'served', 'dropped', 'in_sys', 'srv', 'end', 'queue', 'future',
                 'where', 'busy', 'nq', 'nodes', 'sj')


def snap_queueing(sim):
    """Snapshot of a single-node simulator."""
    s = Snap()
    s.t = sim.ttek
    s.arrived = tup(sim.arrived)
    s.served = tup(sim.served)
    s.dropped = tup(getattr(sim, 'dropped', 0))
    s.in_sys = tup(sim.in_sys)
    s.srv = []
    s.end = []
    for c in sim.servers:
        s.srv.append(c.tsk_on_service)
        s.end.append(c.time_to_end_service)
    q = getattr(sim, 'queues', None)
    s.queue = flat_queue(sim.queue)
    if q is not None:
        s.queue = s.queue + flat_queue(q)
    s.future = list(getattr(sim, 'subtask_arr_queue', ()))
    s.busy = sum(1 for x in s.srv if x is not None)
    s.nq = len(s.queue)
    s.where = {}
    return s


class Job:
    __slots__ = ('obj', 'seq', 'cls', 'arr', 'loc', 'wait_from', 'wait', 'start', 'end', 'starts',
                 'interrupted', 'gone', 'how', 'deadline', 'dur', 'remain', 'task', 'chan',
                 'first_dur', 'node', 'net_wait', 'net_arr', 'entry', 'extra')

    def __init__(self, obj, seq, cls, arr):
        self.obj = obj
        self.seq = seq
        self.cls = cls
        self.arr = arr
        self.loc = None          # ('s', channel) or 'q'
        self.wait_from = None
        self.wait = 0.0
        self.start = None
        self.end = None
        self.starts = 0
        self.interrupted = 0
        self.gone = None
        self.how = None
        self.deadline = None
        self.dur = None
        self.first_dur = None
        self.remain = None
        self.task = None
        self.chan = None
        self.extra = None

    def __repr__(self):
        return f'job {self.seq}(class {self.cls}, arrived {self.arr:.6g})'


class Events:
    """What happened to jobs within one step."""
    __slots__ = ('t', 'new', 'started', 'left_srv', 'left_q', 'interrupted', 'd_arr', 'd_srv',
                 'd_drop', 'dup', 'back', 'moved', 'requeued')

    def __init__(self):
        self.new = []           # jobs seen for the first time
        self.started = []       # (job, channel, end) jobs that entered a channel in this step
        self.left_srv = []      # jobs that left the system out of a channel
        self.left_q = []        # jobs that left the system out of the queue
        self.interrupted = []   # jobs that went from a channel back to the queue
        self.moved = []         # jobs that changed channel
        self.dup = []           # objects seen in two places
        self.back = []          # objects that had left and are there again


class Tracker:
    """History of all jobs of one simulator, from successive snapshots."""

    def __init__(self, classes=1, cls_of=None):
        self.jobs = {}           # id(obj) -> Job ; Job keeps obj alive
        self.alive = {}
        self.seq = 0
        self.cls_of = cls_of

    def step(self, prev, cur):
        ev = Events()
        ev.t = cur.t
        ev.d_arr = tuple(a - b for a, b in zip(cur.arrived, prev.arrived))
        ev.d_srv = tuple(a - b for a, b in zip(cur.served, prev.served))
        ev.d_drop = tuple(a - b for a, b in zip(cur.dropped, prev.dropped))
        where = {}
        for c, o in enumerate(cur.srv):
            if o is None:
                continue
            if id(o) in where:
                ev.dup.append(o)
            where[id(o)] = ('s', c, o)
        for o in cur.queue:
            if id(o) in where:
                ev.dup.append(o)
            where[id(o)] = ('q', -1, o)
        t = cur.t
        alive = self.alive
        for i, j in list(alive.items()):
            if i in where:
                continue
            del alive[i]
            j.gone = t
            if j.loc == 'q':
                j.wait += t - j.wait_from
                j.how = 'q'
                ev.left_q.append(j)
            else:
                j.how = 's'
                ev.left_srv.append(j)
        for i, (kind, c, o) in where.items():
            j = alive.get(i)
            if j is None:
                if i in self.jobs:
                    ev.back.append(self.jobs[i])
                cls = self.cls_of(o, ev) if self.cls_of else 0
                j = Job(o, self.seq, cls, t)
                self.seq += 1
                self.jobs[i] = j
                alive[i] = j
                ev.new.append(j)
                if kind == 's':
                    self._start(j, c, cur.end[c], t, ev)
                else:
                    j.loc = 'q'
                    j.wait_from = t
                continue
            if kind == 's':
                if j.loc == 'q':
                    j.wait += t - j.wait_from
                    self._start(j, c, cur.end[c], t, ev)
                elif j.loc[1] != c:
                    ev.moved.append(j)
                    self._start(j, c, cur.end[c], t, ev)
            elif j.loc != 'q':
                j.remain = j.end - t
                j.interrupted += 1
                j.loc = 'q'
                j.wait_from = t
                ev.interrupted.append(j)
        return ev

    @staticmethod
    def _start(j, c, end, t, ev):
        j.loc = ('s', c)
        j.start = t
        j.end = end
        j.starts += 1
        j.dur = end - t
        ev.started.append((j, c, end))
