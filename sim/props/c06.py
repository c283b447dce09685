"""C06: session logs and the list that tracks them."""
import os

from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 900, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 100000, 'budget': 1800, 'chunk': 100}
RULE = ('Random histories of sessions started and stopped in one or two '
        'processes that restart, with old, young, missing and unlisted logs '
        'lying around, clock jumps between and inside the operations, '
        'failing or dying disk operations on the tracking list and on the '
        'removal of logs.')
REAL = 'nxt session logging and log tracking, logging.FileHandler'
STUB = 'wall clock, file times, disk calls (scratch files, fault layer)'
ASSUMES = ['Files lose nothing that was written before a process dies '
           '(process death, not power loss).']
H = 3600.0
LIMIT = 48 * H
AGES = [0, 60, H, 24 * H, LIMIT - 120, LIMIT + 120, 50 * H, 2000 * H,
        -5 * H, -100 * H]
JUMPS = [-1000 * H, -49 * H, -1.0, 1.0, 24 * H, 47 * H, 49 * H, 1000 * H]
CLUTTER = ['live', 'live', 'old', 'old', 'gone', 'dir', 'blank']


def generate(rng, tier):
    mode = rng.choice(['plain', 'plain', 'faults', 'faults', 'crash',
                       'concurrent'])
    return {'mode': mode,
            'start': [[rng.choice(CLUTTER), rng.choice(AGES),
                       rng.random() < 0.75]
                      for _ in range(rng.randrange(0, 7))],
            'meta': rng.choice(['ok', 'ok', 'ok', 'ok', 'none', 'no_newline',
                                'garbage', 'crlf']),
            'ops': [[rng.choice(['session', 'session', 'track', 'named',
                                 'stop', 'jump', 'restart', 'age', 'log']),
                     rng.randrange(1 << 16)]
                    for _ in range(rng.randrange(2, 12))],
            'rates': {'fs': {'plain': 0, 'faults': 0.15, 'crash': 0.08,
                             'concurrent': 0}[mode],
                      'switch': rng.choice([0.05, 0.2, 0.5])
                      if mode == 'concurrent' else 0,
                      'pick': 0.5}}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for i in range(len(s['start'])):
        yield dict(s, start=s['start'][:i] + s['start'][i + 1:])


class Watch(object):
    """What is on the disk, and what nxt may do about it."""

    def __init__(self, w):
        self.w = w
        self.meta = w.root + '/user/.nxt_meta_log'
        self.logs = w.root + '/tmp'

    def files(self):
        out = {}
        for top in (self.logs, self.w.root + '/work'):
            for base, _, names in os.walk(top):
                for n in names:
                    p = os.path.join(base, n)
                    st = os.lstat(p)
                    out[p] = (st.st_mtime, st.st_size)
        return out

    def readable(self):
        try:
            with open(self.meta, 'rb') as fp:
                fp.read().decode('utf-8')
        except OSError:
            pass
        except ValueError:
            return False
        return True

    def listed(self):
        try:
            with open(self.meta, 'rb') as fp:
                data = fp.read()
        except OSError:
            return None
        return [ln.rstrip() for ln in
                data.decode('utf-8', 'replace').splitlines()]


def run(w, s):
    import random
    d = Watch(w)
    fs = w.fs
    fs.sim_mtime = True
    work = w.root + '/work'
    os.mkdir(d.logs + '/nxt_logs')

    def put(path, age, text='x\n'):
        with open(path, 'w') as fp:
            fp.write(text)
        t = w.wall() - age
        os.utime(path, (t, t))

    lines = []
    for i, (what, age, listed) in enumerate(s['start']):
        path = '{}/old{}.log'.format(work, i)
        if what == 'dir':
            os.mkdir(path)
        elif what == 'blank':
            path = ''
        elif what != 'gone':
            put(path, age if what == 'old' or age < LIMIT else H)
        if listed:
            lines.append(path)
    if s['meta'] != 'none':
        sep = '\r\n' if s['meta'] == 'crlf' else '\n'
        text = ''.join(p + sep for p in lines)
        if s['meta'] == 'no_newline':
            text = text.rstrip()
        with open(d.meta, 'wb') as fp:
            if s['meta'] == 'garbage':
                fp.write(b'\xff\xfe\x00broken\xe9\n')
            fp.write(text.encode())
    if s['mode'] == 'crash':
        fs.allow = ('crash', 'crash_after', 'crash_torn')
    else:
        fs.allow = ('EIO', 'EACCES', 'ENOSPC', 'torn_ENOSPC')
    old = lambda p: str(p).startswith(work + '/') or \
        str(p).startswith(d.logs + '/nxt_logs')
    fs.filter = lambda kind, path: (
        'nxt_meta_log' in str(path) and kind in (
            'open_r', 'open_w', 'read', 'write', 'rename', 'close')) or (
        kind == 'remove' and (old(path) or 'nxt_meta_log' in str(path)))
    calls, turn = [], [0]   # [process, begin, end, log] of tracking calls
    counts = {'sessions': 0, 'removed': 0, 'meta_checks': 0, 'crashes': 0}
    state = {'marks': 0}

    def stale(listed, files, slack=0.0):
        now = w.wall()
        return {p for p in listed if p in files
                and now - files[p][0] > LIMIT - slack}

    def guarded(p, fn, label, own):
        """One tracking call of one process, alone on the machine."""
        before = d.files()
        listed = d.listed()
        readable = d.readable()
        f0 = len(fs.fault_log)
        w.faults_on = s['mode'] in ('faults', 'crash') \
            and 'calm' not in state
        try:
            path = fn()
        except Exception as e:
            raise Violation('session-failed', '{} failed with {!r} because '
                            'of the tracking list or an old log'.format(
                                label, e), what=label)
        finally:
            w.faults_on = False
            # Still runs when the process dies inside the call
            judge(before, listed, readable, fs.fault_log[f0:],
                  p.dead, label)
        own.append(path)
        faults = fs.fault_log[f0:]
        if readable and not faults:
            after = set(d.listed() or [])
            if path not in after:
                raise Violation('untracked', 'the new log {} is not on the '
                                'list'.format(fs.rel(path)))
        return path

    def judge(before, listed, readable, faults, died, label):
        after = d.files()
        old_list = set(listed or [])
        gone = set(before) - set(after)
        may = stale(old_list, before) if readable else set()
        for g in sorted(gone - may):
            if '/.nxt' in g:
                continue
            why = 'is not on the list' if g not in old_list else \
                'is only {:.1f} h old'.format((w.wall() - before[g][0]) / H)
            raise Violation('removed', '{} removed {} which {}'.format(
                label, fs.rel(g), why))
        counts['removed'] += len(gone)
        new = set(d.listed() or [])
        counts['meta_checks'] += 1
        if not readable:
            return
        keep = {p for p in old_list if p in before} - gone
        lost = {p for p in keep if p not in new}
        if lost:
            raise Violation('forgotten', '{} forgot the existing log {}'
                            .format(label, fs.rel(sorted(lost)[0])),
                            faults=[f[2] for f in faults])
        if died or any(f[0] != 'remove' for f in faults):
            return
        left = {p for p in may if p in after and
                fs.rel(p) not in [f[1] for f in faults]}
        if left:
            raise Violation('kept', '{} left the stale log {} behind'.format(
                label, fs.rel(sorted(left)[0])))
        for p in new:
            if p in old_list and p not in before and p not in after:
                raise Violation('still-listed', '{} kept {} on the list, '
                                'which does not exist'.format(
                                    label, fs.rel(p)))

    def body_for(ops, idx):
        def body(p):
            import logging
            from nxt import nxt_log
            from nxt.session import Session
            active = []
            log = logging.getLogger('nxt.simtest')
            while ops:
                kind, salt = ops.pop(0)
                rng = random.Random(salt)
                w.log('op', kind)
                alone = s['mode'] != 'concurrent'
                got = []
                if kind == 'session':
                    counts['sessions'] += 1

                    def fn():
                        return Session().log_file
                elif kind == 'named':
                    name = '{}/named{}_{}.log'.format(work, idx, len(ops))

                    def fn():
                        return nxt_log.make_session_log(name)
                elif kind == 'track':
                    name = '{}/track{}_{}.log'.format(work, idx, len(ops))
                    put(name, 0)

                    def fn():
                        nxt_log.track_log_file(name)
                        return name
                elif kind == 'stop':
                    if active:
                        f = active.pop(rng.randrange(len(active)))
                        nxt_log.stop_session_log(f)
                    fn = None
                elif kind == 'jump':
                    w.jump_clock(rng.choice(JUMPS))
                    fn = None
                elif kind == 'age':
                    for f in sorted(d.files()):
                        if rng.random() < 0.4:
                            t = w.wall() - rng.choice(AGES)
                            os.utime(f, (t, t))
                    fn = None
                elif kind == 'restart':
                    return
                else:
                    fn = None
                if fn is not None:
                    if alone:
                        path = guarded(p, fn, kind, got)
                    else:
                        call = [idx, len(calls), None, None]
                        calls.append(call)
                        turn[0] += 1
                        call[1] = turn[0]
                        try:
                            path = fn()
                            turn[0] += 1
                            call[2:] = [turn[0], path]
                        except Exception as e:
                            raise Violation(
                                'session-failed', '{} failed with {!r}'
                                .format(kind, e), what=kind)
                        if kind == 'session':
                            mine = state.setdefault('own', set())
                            if path in mine:
                                raise Violation(
                                    'shared-log', 'two sessions log to {}'
                                    .format(fs.rel(path)))
                            mine.add(path)
                    if kind != 'track':
                        if path in active:
                            raise Violation('shared-log', 'two sessions '
                                            'log to {}'.format(fs.rel(path)))
                        active.append(path)
                state['marks'] += 1
                mark = 'mark-{}-end'.format(state['marks'])
                log.info(mark)
                for f in sorted(d.files()):
                    try:
                        with open(f, errors='replace') as fp:
                            n = fp.read().count(mark)
                    except FileNotFoundError:
                        if f in active or alone:
                            raise
                        continue    # the other process removed it
                    if n != (f in active):
                        raise Violation(
                            'log-content', 'a record appears {} times in '
                            '{}, which is {} session log'.format(
                                n, fs.rel(f), 'a running' if f in active
                                else 'not a running'))
                w.note_state(kind, len(active), len(d.listed() or []))
        return body

    def launch(ops, idx, n):
        p = SimProcess(w, 'p{}-{}'.format(idx, n))
        return p, p.start(body_for(ops, idx))

    if s['mode'] == 'concurrent':
        concurrent(w, s, d, launch, counts, stale, calls)
    else:
        ops = [list(o) for o in s['ops']]
        n = 0
        while ops:
            p, t = launch(ops, 0, n)
            n += 1
            w.run()
            counts['crashes'] += p.crashed
            settle(w, p, t)
    # Two undisturbed calls tidy everything up
    state['calm'] = True
    if s['mode'] != 'concurrent' and d.listed() is not None \
            and d.readable():
        for k in range(2):
            p, t = launch([['track', 0]], 'z{}'.format(k), 0)
            w.run()
            settle(w, p, t)
        files = d.files()
        end = [x for x in d.listed() if x not in files]
        if end:
            raise Violation('still-listed', 'the list keeps {}, which does '
                            'not exist'.format(fs.rel(end[0])))
        if stale(d.listed(), files):
            raise Violation('kept', 'a stale log stays')
    return dict(counts, nontrivial=True)


def settle(w, p, t):
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'the session broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-400:])


def concurrent(w, s, d, launch, counts, stale, calls):
    """Two processes at once: nothing young or unlisted may disappear."""
    ops = [o for o in s['ops'] if o[0] in ('session', 'named', 'track',
                                           'log')]
    before = d.files()
    ever = set(d.listed() or [])
    halves = [[list(o) for o in ops], [list(o) for o in ops]]
    live = [launch(h, i, 0) for i, h in enumerate(halves)]
    w.run()
    for p, t in live:
        settle(w, p, t)
    after = d.files()
    ok = stale(ever, before)
    for g in sorted(set(before) - set(after) - ok):
        raise Violation('removed', 'two processes at once removed {}'.format(
            w.fs.rel(g)))
    listed = set(d.listed() or [])
    lost = [c for c in calls if c[3] in after and c[3] not in listed]
    for apart in (True, False):
        for c in lost:
            over = [o for o in calls if o[0] != c[0] and o[2] is not None and
                    o[1] < c[2] and c[1] < o[2]]
            if apart is not bool(over):
                raise Violation(
                    'untracked', 'the log {} of one of two processes is not '
                    'on the list; {}'.format(
                        w.fs.rel(c[3]), 'both were tracking a log at the time'
                        if over else 'no other was tracking a log then'),
                    overlapping=bool(over))
