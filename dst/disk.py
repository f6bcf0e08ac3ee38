"""C20: saving and loading of experiment results on a disk and in a process that fail.

Each save runs in a forked process of its own inside a scratch directory, with real files. Faults:
the process dies at the k-th line or call of the save; the file-size limit or a full disk cuts a write
short; the k-th disk operation fails; the data cannot be written as JSON; and after a crash the
power may be gone, so that what no fsync has confirmed is torn. Between saves a file may be damaged on
the disk (cut, zeroed, emptied, overwritten, swapped), and the disk may fail while a file is loaded.
"""
import builtins
import copy
import errno
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import types

from . import world as W
from .engine import Check, Outcome
from .simcheck import protect
from .world import Violation

ERRNOS = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS, 'EINTR': errno.EINTR}

SAVED, RAISED, DIED = 'saved', 'raised', 'died'


def no_plots():
    """Plotting is no part of what is judged."""
    if 'matplotlib' not in sys.modules:
        m = types.ModuleType('matplotlib')
        m.use = lambda *a, **k: None
        p = types.ModuleType('matplotlib.pyplot')
        m.pyplot = p
        sys.modules['matplotlib'] = m
        sys.modules['matplotlib.pyplot'] = p


def module():
    """The module under test."""
    no_plots()
    import most_queue.general_utils.vacations_paper_utils as v
    return v


# ---------------------------------------------------------------------------------------- the disk seam

class Seam:
    """Counts every disk operation of the save and makes the chosen one fail."""

    def __init__(self, fault):
        self.kind = fault.get('kind')
        self.at = fault.get('at', -1)
        self.err = ERRNOS.get(fault.get('errno', 'EIO'), errno.EIO)
        self.part = fault.get('part', 0.5)
        self.times = fault.get('times', 1)
        self.n = 0
        self.hit = 0
        self.synced = {}         # (dev, inode) -> content confirmed by fsync

    def op(self, name):
        """True: this operation fails."""
        self.n += 1
        if self.kind == 'die_op' and self.n == self.at:
            die(self)
        if self.kind == 'fail_op' and self.at <= self.n < self.at + self.times:
            self.hit += 1
            return True
        return False

    def after(self, name):
        if self.kind == 'die_after_op' and self.n == self.at:
            die(self)

    def error(self, *a):
        return OSError(self.err, os.strerror(self.err), *a)


def die(seam):
    report(seam, DIED)
    os._exit(77)


REPORT = [None]


def report(seam, status):
    out = {'status': status, 'ops': seam.n, 'hit': seam.hit, 'synced': [[d, i, c] for (d, i), c in seam.synced.items()]}
    os.write(REPORT[0], json.dumps(out).encode())


class Raw(io.FileIO):
    """A real file below the buffering, on the failing disk."""
    seam = None

    def write(self, b):
        s = Raw.seam
        if s.op('write'):
            k = int(len(b) * s.part)
            if k:
                super().write(bytes(b)[:k])
            raise s.error()
        n = super().write(b)
        s.after('write')
        return n

    def close(self):
        if not self.closed:
            s = Raw.seam
            if s is not None and s.op('close'):
                super().close()
                raise s.error()
            super().close()
            if s is not None:
                s.after('close')
        else:
            super().close()


def install(seam):
    """Puts the failing disk under everything Python code can write files with."""
    real_open, real_os_open = builtins.open, os.open
    Raw.seam = seam

    def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not any(c in mode for c in 'wax+') or mode.count('+') and 'r' in mode and 'b' in mode:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if seam.op('open'):
            raise seam.error(str(file))
        raw = Raw(file, ''.join(c for c in mode if c in 'wax+r'), closefd, opener)
        seam.after('open')
        if '+' in mode:
            buf = io.BufferedRandom(raw)
        else:
            buf = io.BufferedWriter(raw)
        if 'b' in mode:
            return raw if buffering == 0 else buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t
    builtins.open = io.open = fopen
    import _io
    _io.open = fopen

    def wrap(name, mod=os):
        real = getattr(mod, name)

        def f(*a, **k):
            if seam.op(name):
                if name == 'write' and len(a) > 1:
                    real(a[0], bytes(a[1])[:int(len(a[1]) * seam.part)])
                raise seam.error()
            x = real(*a, **k)
            if name in ('fsync', 'fdatasync'):
                fd = a[0] if isinstance(a[0], int) else a[0].fileno()
                seam.note(fd)
            seam.after(name)
            return x
        f.__name__ = name
        setattr(mod, name, f)
    for name in ('replace', 'rename', 'remove', 'unlink', 'link', 'fsync', 'fdatasync', 'truncate', 'ftruncate', 'write'):
        wrap(name)
    os.sync = lambda real=os.sync: seam.note_all()

    def os_open(path, flags, *a, **k):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            if seam.op('open'):
                raise seam.error(str(path))
            fd = real_os_open(path, flags, *a, **k)
            seam.after('open')
            return fd
        return real_os_open(path, flags, *a, **k)
    os.open = os_open

    def note(fd):
        st = os.fstat(fd)
        try:
            here = real_open('/proc/self/fd/%d' % fd, 'rb')
        except OSError:
            return
        with here:
            seam.synced[(st.st_dev, st.st_ino)] = here.read().decode('latin-1')
    seam.note = note

    def note_all():
        for root, _, files in os.walk('.'):
            for f in files:
                fd = real_os_open(os.path.join(root, f), os.O_RDONLY)
                note(fd)
                os.close(fd)
    seam.note_all = note_all


class NotJson:
    pass


def value(spec):
    """The data of a save, built from its description."""
    r = random.Random(spec['seed'])
    kind = spec['kind']
    if kind == 'bad':           # cannot be written: somewhere in the middle
        d = [{'n': i, 'p_sim': [r.random() for _ in range(spec['size'])]} for i in range(4)]
        d[spec['seed'] % 4]['w_sim'] = [1.0, complex(1, 2) if spec['seed'] % 2 else NotJson()]
        return d
    out = []
    for i in range(spec['items']):
        out.append({'n': r.randint(1, 30), 'ro': r.random(), 'label': r.choice(['ИМ', 'a"b\\c\n', 'plain', '']),
                    'none': None, 'flag': r.random() < 0.5, 'nested': {'a': [[], {}, [1, [2.5, -3e-300]]]},
                    'w_sim': [r.random() * 10 ** r.randint(-12, 12) for _ in range(3)],
                    'p_sim': [r.random() for _ in range(spec['size'])]})
    return out if kind == 'list' else {'stat': out, 'v': spec['seed']} if kind == 'dict' else r.choice([0, 1.5, 'x', [], {}])


class Disk(Check):
    state_measure = 'distinct (fault, status of the save, operation or number of bytes at which it struck) tuples'
    real = ['most_queue.general_utils.vacations_paper_utils.dump_stat / load_stat, json, Python file objects, '
            'kernel file system in a scratch directory: real']
    stubs = ['matplotlib: empty module', 'failing operations: injected at builtins.open / os.* in the saving process',
             'power loss: modelled, data without fsync is torn after the crash']

    def __init__(self, prop, rule, quick, thorough, assumptions=()):
        self.prop, self.rule = prop, rule
        self.quick_runs, self.thorough_runs = quick, thorough
        self.assumptions = list(assumptions)

    def data(self, r):
        kind = r.choice(['list', 'list', 'list', 'dict', 'scalar'])
        return {'kind': kind, 'seed': r.getrandbits(30), 'items': r.choice([0, 1, 2, 5]),
                'size': r.choice([0, 3, 11, 100, 100, 1000])}

    def fault(self, r):
        k = r.choice(['none', 'die_line', 'die_line', 'die_line', 'die_op', 'die_op', 'die_after_op', 'fail_op', 'fail_op',
                      'fail_op', 'fsize', 'fsize', 'fsize_kill', 'bad', 'bad', 'interrupt'])
        f = {'kind': k}
        if k in ('die_line', 'interrupt'):
            f['u'] = round(r.random(), 6)          # place in the save, as a fraction of its lines
            if r.random() < 0.4:
                f['end'] = r.randint(0, 40)        # or counted from the end
        elif k in ('die_op', 'die_after_op', 'fail_op'):
            f['at'] = r.randint(1, 8)
            f['errno'] = r.choice(['EIO', 'ENOSPC', 'ENOSPC', 'EDQUOT', 'EROFS'])
            f['part'] = r.choice([0.0, 0.3, 0.99])
            f['times'] = r.choice([1, 1, 2, 50])
        elif k.startswith('fsize'):
            f['bytes'] = r.choice([0, 1, 10, 100, 1000, 4096, 8192, 20000, 100000, 1 << 20])
        if k.startswith('die') or k == 'none':
            f['power'] = r.random() < 0.5
            f['tear'] = round(r.random(), 6)
        return f

    def gen(self, seed, tier):
        r = random.Random(seed)
        names = r.choice([['run_stat.json'], ['a.json', 'b.json'], ['sub/dir x/stat.json'], ['stat'], ['данные.json', 'd.json']])
        ops = []
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            f = self.fault(r)
            d = self.data(r)
            if f['kind'] == 'bad':
                d = {'kind': 'bad', 'seed': d['seed'], 'size': d['size']}
            ops.append({'name': r.choice(names), 'data': d, 'fault': f})
        if r.random() < 0.7:
            ops[0]['fault'] = {'kind': 'none'}
            if ops[0]['data']['kind'] == 'bad':
                ops[0]['data'] = self.data(r)
        out = []
        for op in ops:
            out.append(op)
            x = r.random()
            if x < 0.25:
                out.append({'name': r.choice(names), 'damage': r.choice(
                    ['cut', 'cut', 'zero_tail', 'zero_all', 'empty', 'byte', 'append', 'swap', 'remove']),
                    'u': round(r.random(), 6), 'byte': r.randint(0, 255)})
            elif x < 0.4:
                out.append({'name': r.choice(names), 'load_fault': r.choice(['open', 'read', 'read', 'read']),
                            'at': r.choice([1, 1, 2]), 'errno': r.choice(['EIO', 'EINTR', 'ENOSPC'])})
        ops = out
        return {'seed': seed & 0x7fffffffffff, 'names': names, 'ops': ops, 'default': r.random() < 0.2,
                'abs': r.random() < 0.3}

    def execute(self, sc):
        o = Outcome()
        h = hashlib.blake2b(digest_size=12)
        base = tempfile.mkdtemp(prefix='dst-c20-')
        try:
            protect(lambda: self.body(sc, o, h, base), o)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        o.trace = o.events = h.hexdigest()
        return o

    def body(self, sc, o, h, base):
        v = module()
        for n in sc['names']:
            os.makedirs(os.path.join(base, os.path.dirname(n)), exist_ok=True)
        holds = {n: None for n in sc['names']}       # what a load has to give: None = nothing saved yet
        for i, op in enumerate(sc['ops']):
            if 'damage' in op:
                self.damage(v, base, op, sc, holds, o)
                h.update(repr(('damage', [self.show(holds[n]) for n in sc['names']])).encode())
                continue
            if 'load_fault' in op:
                self.load_fault(v, base, op, sc, holds, o)
                continue
            name, f = op['name'], op['fault']
            data = value(op['data'])
            lines = None
            if f['kind'] in ('die_line', 'interrupt'):
                lines = self.count_lines(op, sc, base)
                k = max(1, lines - f['end']) if 'end' in f else max(1, int(lines * f['u']) + 1)
                f = dict(f, at=k)
            res = self.child(base, name, op['data'], f, sc)
            st = res['status']
            o.counts['saves'] += 1
            o.counts['save_' + st] += 1
            if f['kind'] != 'none':
                o.counts['fault_' + f['kind']] += 1
            if f.get('power') and st == DIED or f.get('power') and st == SAVED:
                o.counts['power_loss'] += 1
                o.counts['files_torn'] += self.tear(base, res['synced'], f['tear'], holds)
            what = 'save %d of %d into %s (%s)' % (i + 1, len(sc['ops']), name, self.say(f))
            new = None if op['data']['kind'] == 'bad' else json.loads(json.dumps(data))
            if st == SAVED and new is None:
                raise Violation('%s: returned normally for data that cannot be saved' % what)
            for n in sc['names']:
                got, err = self.load(v, base, n, sc)
                allowed = []
                if n != name:
                    allowed = [holds[n]]
                elif st == SAVED:
                    allowed = [('data', new)]
                else:
                    allowed = [holds[n]]
                    if new is not None:
                        allowed.append(('data', new))
                res_now = None if err == 'absent' else ('data', got) if err is None else ('error', err)
                if not any(self.eq(res_now, a) for a in allowed):
                    raise Violation('%s %s; loading %s afterwards: %s, it has to be %s' % (
                        what, {'saved': 'returned', 'raised': 'failed with an exception', 'died': 'was cut by a crash'}[st], n,
                        self.show(res_now), ' or '.join(self.show(a) for a in allowed)))
                holds[n] = res_now
            h.update(repr((st, res.get('ops'), [self.show(holds[n]) for n in sc['names']])).encode())
            o.steps += 1
            o.states.add(hash((f['kind'], st, f.get('at') if f['kind'].endswith('op') else None, f.get('bytes'))))
        o.nontrivial = o.steps

    @staticmethod
    def eq(a, b):
        return repr(a) == repr(b) and (a is None) == (b is None)

    @staticmethod
    def show(x):
        if x is None:
            return 'no file'
        s = repr(x[1])
        return ('the results ' if x[0] == 'data' else 'damaged: ') + (s if len(s) < 80 else s[:50] + '... (%d characters)' % len(s))

    @staticmethod
    def say(f):
        return ', '.join('%s=%s' % (k, x) for k, x in f.items())

    def load(self, v, base, name, sc):
        path = os.path.join(base, name)
        cwd = os.getcwd()
        os.chdir(base)
        try:
            return v.load_stat(path if sc['abs'] else name), None
        except FileNotFoundError:
            return None, 'absent' if not os.path.exists(path) else 'FileNotFoundError'
        except Exception as e:  # noqa
            return None, '%s: %s' % (type(e).__name__, e)
        finally:
            os.chdir(cwd)

    def damage(self, v, base, op, sc, holds, o):
        """The disk spoils a file behind the program's back: a load says so, or gives what is there."""
        names = [op['name']]
        path = os.path.join(base, op['name'])
        if not os.path.exists(path):
            return
        with open(path, 'rb') as fh:
            cur = fh.read()
        k = int(len(cur) * op['u'])
        kind = op['damage']
        if kind == 'swap':
            other = next((n for n in sc['names'] if n != op['name'] and os.path.exists(os.path.join(base, n))), None)
            if other is None:
                return
            names.append(other)
            os.rename(path, path + '.aside')
            os.rename(os.path.join(base, other), path)
            os.rename(path + '.aside', os.path.join(base, other))
        elif kind == 'remove':
            os.remove(path)
        else:
            new = {'cut': cur[:k], 'zero_tail': cur[:k] + b'\0' * (len(cur) - k), 'zero_all': b'\0' * len(cur), 'empty': b'',
                   'byte': cur[:k] + bytes([op['byte']]) + cur[k + 1:], 'append': cur + cur[:k]}[kind]
            with open(path, 'wb') as fh:
                fh.write(new)
        o.counts['damage_' + kind] += 1
        o.states.add(hash(('damage', kind)))
        for n in names:
            p = os.path.join(base, n)
            want = None
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    raw = fh.read()
                try:
                    want = ('data', json.loads(raw.decode('ascii')))
                except ValueError:
                    want = ('error',)
                    o.counts['files_unreadable'] += 1
                    if any(x > 127 for x in raw):
                        # whether bytes beyond the ones a save writes can be read is left open
                        try:
                            want = ('either', json.loads(raw.decode('utf-8', 'replace')))
                        except ValueError:
                            pass
            got, err = self.load(v, base, n, sc)
            now = None if err == 'absent' else ('data', got) if err is None else ('error', err)
            if want is not None and want[0] == 'either':
                ok = now is not None and (now[0] == 'error' or now[0] == 'data' and isinstance(got, type(want[1])))
            elif want is not None and want[0] == 'error':
                ok = now is not None and now[0] == 'error'
            else:
                ok = self.eq(now, want)
            if not ok:
                raise Violation('%s was damaged on the disk (%s): loading it gives %s, it has to %s' % (
                    n, kind, self.show(now), 'fail, for this is no saved result' if want and want[0] == 'error'
                    else 'give ' + self.show(want)))
            holds[n] = now

    def load_fault(self, v, base, op, sc, holds, o):
        """The disk fails while a file is loaded: the failure shows, and the file is as it was."""
        n = op['name']
        if holds[n] is None or holds[n][0] != 'data':
            return
        err = ERRNOS[op['errno']]
        real = builtins.open
        hits = [0, 0]

        def hit(kind):
            if op['load_fault'] == kind:
                hits[0] += 1
                if hits[0] == op['at']:
                    hits[1] += 1
                    raise OSError(err, os.strerror(err))

        class Reader(io.FileIO):
            def readinto(self, b):
                hit('read')
                return super().readinto(b)

            def readall(self):
                hit('read')
                return super().readall()

            def read(self, size=-1):
                hit('read')
                return super().read(size)

        def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if any(c in mode for c in 'wax+') or isinstance(file, int):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            hit('open')
            raw = Reader(file, 'r', closefd, opener)
            if 'b' in mode:
                return raw if buffering == 0 else io.BufferedReader(raw)
            t = io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)
            t.mode = mode
            return t
        builtins.open = io.open = fopen
        try:
            got, e = self.load(v, base, n, sc)
        finally:
            builtins.open = io.open = real
        if hits[1]:
            o.counts['fault_load_' + op['load_fault']] += 1
        now = ('data', got) if e is None else ('error', e)
        if not self.eq(now, holds[n]) and not (hits[1] and now[0] == 'error'):
            raise Violation('loading %s while the disk fails (%s %s): it gives %s, it has to fail or give %s' % (
                n, op['load_fault'], op['errno'], self.show(now), self.show(holds[n])))
        got, e = self.load(v, base, n, sc)
        if not self.eq(('data', got) if e is None else ('error', e), holds[n]):
            raise Violation('after a load of %s that failed on the disk: loading gives %s, it has to be %s' % (
                n, self.show(('data', got) if e is None else ('error', e)), self.show(holds[n])))

    def tear(self, base, synced, u, holds):
        """The power goes: of what was written without fsync only a part is on the disk."""
        done = dict(self.durable)
        done.update({(d, i): c.encode('latin-1') for d, i, c in synced})
        n = 0
        for root, _, files in os.walk(base):
            for f in sorted(files):
                p = os.path.join(root, f)
                st = os.stat(p)
                with open(p, 'rb') as fh:
                    cur = fh.read()
                if done.get((st.st_dev, st.st_ino)) == cur:
                    continue
                n += 1
                os.truncate(p, int(len(cur) * u))
        return n

    def count_lines(self, op, sc, base):
        """How many lines the save runs through, measured in a process that touches a copy only."""
        d = tempfile.mkdtemp(prefix='dst-c20n-')
        try:
            for n in sc['names']:
                os.makedirs(os.path.join(d, os.path.dirname(n)), exist_ok=True)
                if os.path.exists(os.path.join(base, n)):
                    shutil.copy(os.path.join(base, n), os.path.join(d, n))
            return self.child(d, op['name'], op['data'], {'kind': 'count'}, sc).get('lines', 1)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def child(self, base, name, data, f, sc):
        """One save in a process of its own."""
        v = module()
        # what is on the disk before the save counts as durable
        self.durable = {}
        for root, _, files in os.walk(base):
            for x in files:
                p = os.path.join(root, x)
                st = os.stat(p)
                with open(p, 'rb') as fh:
                    self.durable[(st.st_dev, st.st_ino)] = fh.read()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                self.save(v, base, name, data, f, w, sc)
            finally:
                os._exit(99)
        os.close(w)
        buf = b''
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not buf:
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXFSZ or f['kind'] == 'fsize_kill':
                return {'status': DIED, 'synced': [], 'ops': 0}
            raise Violation('the saving process ended with status %d' % status)
        return json.loads(buf)

    def save(self, v, base, name, data, f, w, sc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(base)
        REPORT[0] = w
        kind = f['kind']
        d = value(data)
        seam = Seam(f)
        path = os.path.join(base, name) if sc['abs'] else name
        n = [0]
        at = f.get('at', -1)
        args = (d,) if sc['default'] and name == 'run_stat.json' and not sc['abs'] else (d, path)

        def local(frame, event, arg):
            if event in ('line', 'return', 'call'):
                n[0] += 1
                if n[0] == at:
                    if kind == 'die_line':
                        die(seam)
                    elif kind == 'interrupt':
                        seam.hit += 1
                        raise KeyboardInterrupt
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename == __file__:
                return None
            return local(frame, event, arg)
        if kind.startswith('fsize'):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == 'fsize_kill' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (f['bytes'], f['bytes']))
        real_write = os.write
        install(seam)
        dump = v.dump_stat
        status = SAVED
        try:
            if kind in ('die_line', 'interrupt', 'count'):
                sys.settrace(tracer)
            dump(*args)
        except BaseException:  # noqa
            status = RAISED
        finally:
            sys.settrace(None)
        os.write = real_write
        # buffered data of file objects nobody closed reaches the file when the process ends in order
        import gc
        gc.collect()
        out = {'status': status, 'ops': seam.n, 'hit': seam.hit, 'lines': n[0],
               'synced': [[a, b, c] for (a, b), c in seam.synced.items()]}
        real_write(w, json.dumps(out).encode())
        os._exit(0)

    def shrink_moves(self, sc):
        for i in range(len(sc['ops'])):
            if len(sc['ops']) > 1:
                c = copy.deepcopy(sc)
                del c['ops'][i]
                yield c
        for i, op in enumerate(sc['ops']):
            if 'fault' not in op:
                continue
            if op['fault']['kind'] != 'none' and op['data']['kind'] != 'bad':
                c = copy.deepcopy(sc)
                c['ops'][i]['fault'] = {'kind': 'none'}
                yield c
            if op['fault'].get('power'):
                c = copy.deepcopy(sc)
                c['ops'][i]['fault']['power'] = False
                yield c
            for k, vals in (('items', (0, 1)), ('size', (0, 3))):
                if op['data'].get(k, 0) > vals[0]:
                    for x in vals:
                        if x < op['data'][k]:
                            c = copy.deepcopy(sc)
                            c['ops'][i]['data'][k] = x
                            yield c
        if sc['abs']:
            yield dict(sc, abs=False)
        if len(sc['names']) > 1:
            used = {op['name'] for op in sc['ops']}
            if len(used) == 1:
                yield dict(sc, names=sorted(used))
