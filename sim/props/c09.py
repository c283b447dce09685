"""C09: an application that hosts nxt talks to the editor through a socket."""
import os
import pickle

from ..core import Violation
from ..proc import SimProcess
from .. import graphs

LEVEL = 'exploration'
QUICK = {'cases': 900, 'budget': 60, 'chunk': 30}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 100}
RULE = ('Random histories of connecting, loading, running, refreshing, '
        'asking for results, logging from several threads and closing in an '
        'application, while the listener answers late or not at all, closes, '
        'dies, is away, and connections are slow, fragment or break. The '
        'listener decodes every byte it gets.')
REAL = ('nxt.remote.nxt_socket model, messages, handshakes and log handler; '
        'stage and execution')
STUB = 'TCP, threads, clock, process death, the listening editor'
ASSUMES = ['The listener answers a handshake with one short reply.']
PORT = 4436
HANDSHAKE = 60.0
KEYS = {'log', 'cache', 'shutdown', 'ping', 'wait', 'error'}
TEXTS = ['plain', 'caf\u00e9 \u2028', 'x' * 5000, 'two\nlines', '%d %s',
         '{}', '']


def salt(rng):
    return round(rng.random() * 300, 1)


def generate(rng, tier):
    ops = [['open', 0]]
    for _ in range(rng.randrange(2, 12)):
        ops.append([rng.choice(['open', 'close', 'bye', 'ping', 'load', 'load',
                                'load_bad', 'run', 'run', 'run', 'refresh',
                                'cache', 'log', 'log', 'log', 'same', 'odd',
                                'pause',
                                'away', 'back']),
                    rng.randrange(1 << 16)])
    calm = rng.random() < 0.45
    s = {'ops': ops,
         'noise': rng.choice([0, 0, 1, 2]),
         'replies': [rng.choice([['ok', 0]] * 6 + [
             ['late', round(rng.random() * 3, 3)],
              ['late', round(rng.random() * 59, 2)]]
             + ([] if calm else [['none', 0], ['close', 0], ['abort', 0],
                                 ['die', 0], ['deaf', 75.0 + salt(rng)]]))
             for _ in range(20)],
         'deep': rng.random() < 0.3,
         'busy': rng.random() < 0.3,
         'buffer': rng.choice([None, 1000, 4000]),
         'rates': {'net.': 0 if calm else rng.choice([0, 0.01, 0.1]),
                   'net.recv': rng.choice([0, 0.2]),
                   'switch': rng.choice([0, 0.1, 0.4]), 'pick': 0.5},
         'max_steps': 200000}
    return s


def shrink(s):
    for i in range(1, len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    if s['noise']:
        yield dict(s, noise=s['noise'] - 1)
    for i, r in enumerate(s['replies']):
        if r[0] != 'ok':
            yield dict(s, replies=s['replies'][:i] + [['ok', 0]]
                       + s['replies'][i + 1:])


class Connection(object):
    """One connection as the listener sees it."""

    def __init__(self, proc):
        self.proc = proc
        self.data = b''
        self.at = 0
        self.frames = []        # (time, decoded)
        self.depth = 0
        self.ended = False
        self.deaf = False
        self.answered = []      # when each handshake was answered
        self.dropped = False    # the listener ended it

    def feed(self, chunk, now):
        self.data += chunk
        while len(self.data) - self.at >= 10:
            head = self.data[self.at:self.at + 10]
            try:
                n = int(head.decode('ascii'))
                if n < 0:
                    raise ValueError
            except ValueError:
                return 'header {!r}'.format(head)
            if len(self.data) - self.at < 10 + n:
                break
            body = self.data[self.at + 10:self.at + 10 + n]
            self.at += 10 + n
            try:
                msg = pickle.loads(body)
            except Exception as e:
                return 'a message that cannot be decoded: {!r}'.format(e)
            if not isinstance(msg, dict) or len(msg) != 1 or \
                    not set(msg) <= KEYS:
                return 'an unknown message {!r}'.format(msg)[:200]
            self.frames.append((now, msg))
        return None


def run(w, s):
    import random
    work = w.root + '/work'
    graphs.write(work + '/g.nxt', {
        'version': '1.17', 'alias': 'g', 'nodes': {
            '/': {'child_order': ['a', 'b', 'slow', 'loud']},
            '/a': {'code': ['import time', 'STAGE.began = time.time()',
                            'STAGE.big = "b" * 9000',
                            'STAGE.n = getattr(STAGE, "n", 0) + 1']},
            '/b': {'code': ['1 / 0']},
            '/slow': {'code': ['import time; time.sleep(2)',
                               'STAGE.slow = True']},
            '/loud': {'code': ['import logging', 'for i in range(5):',
                               '    logging.getLogger("nxt").warning('
                               '"loud %d", i)']}}})
    with open(work + '/bad.nxt', 'w') as fp:
        fp.write('{"version": ')
    counts = {'ops': 0, 'frames': 0, 'connections': 0, 'handshakes': 0}
    conns = []
    problems = []
    replies = list(s['replies'])
    editor = [None]
    w.net.fault_ports = {PORT}
    w.net.no_timeout = True
    w.net.buffer = s['buffer']

    def listen(p):
        import socket
        import threading
        srv = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        srv.bind(('localhost', PORT))
        srv.listen(5)
        while True:
            c, _ = srv.accept()
            threading.Thread(target=serve, args=(p, c), daemon=True).start()

    def serve(p, c):
        conn = Connection(p)
        conns.append(conn)
        seen = 0
        while True:
            try:
                chunk = c.recv(4096)
            except OSError:
                break
            if not chunk:
                break
            bad = conn.feed(chunk, w.elapsed)
            if bad:
                problems.append(('garbled', 'the listener received ' + bad))
                break
            for t, msg in conn.frames[seen:]:
                seen += 1
                if 'wait' not in msg:
                    continue
                counts['handshakes'] += 1
                what, t = replies.pop(0) if replies and w.faults_on \
                    else ('ok', 0)
                if what != 'ok':
                    w.fault('listener_' + what)
                if what == 'late':
                    w.block(None, t, 'late')
                if what == 'none':
                    conn.answered.append(None)
                    continue
                if what == 'deaf':
                    # Neither answers nor reads for a while
                    conn.answered.append(None)
                    conn.deaf = True
                    w.block(None, t, 'deaf')
                    conn.deaf = False
                    continue
                if what == 'die':
                    conn.dropped = True
                    editor[0] = None
                    p.kill()
                if what in ('close', 'abort'):
                    conn.dropped = True
                    c.close()
                    conn.ended = True
                    return
                conn.answered.append(w.elapsed)
                try:
                    c.sendall(b'1')
                except OSError:
                    break
        conn.ended = True
        c.close()

    def back():
        if editor[0] is None or editor[0].dead:
            editor[0] = SimProcess(w, 'editor')
            editor[0].start(listen, boot=False)

    back()
    w.run(until=lambda: PORT in w.net.listeners)
    state = {'op': None, 'since': 0.0}

    def faults():
        return sum(n for k, n in w.fault_counts.items() if k not in (
            'net:fragment', 'net:delay', 'net:short_send', 'net:slow_connect',
            'listener_late'))

    def body(p):
        import logging
        import threading
        import time
        from nxt.remote import nxt_socket as ns
        log = logging.getLogger('nxt')
        log.setLevel(16 if s.get('deep') else logging.INFO)
        made = [0]

        class Count(logging.Handler):
            def emit(self, record):
                made[0] += 1
        log.addHandler(Count())
        model = ns.get_nxt_model()
        if ns.get_nxt_model() is not model:
            raise Violation('two-models', 'the model was made twice')
        sent = []       # (when begun, text, connection sure?)
        stop = []
        names = iter(range(100000))
        is_open = [False]
        epoch = [0]     # connections made and closed
        base = [0]      # faults there had been when the connection was made
        loaded = [False]

        def say(who, text):
            n = next(names)
            msg = 'm {} {} {}'.format(n, who, text)
            sure = is_open[0] and faults() == base[0]
            b, t0, c0 = faults(), w.elapsed, epoch[0]
            made[0] = 0
            try:
                log.warning('m %d %s %s', n, who, text)
            except BaseException as e:
                if type(e).__module__ != 'builtins':
                    raise
                problems.append(('log-raised', 'logging raised {!r}'.format(
                    e)))
            took = w.elapsed - t0
            sent.append((who, msg, sure and faults() == b
                         and is_open[0] and epoch[0] == c0))
            if made[0] > 20 and not s['noise']:
                problems.append(('flood', 'logging one message made {} '
                                 'more'.format(made[0] - 1)))
            if took > 380:
                problems.append(('log-slow', 'logging one message took {:.0f}'
                                 ' s'.format(took)))

        def noisy(k):
            for i in range(60 if s['busy'] else 300):
                if stop:
                    break
                say('noise{}'.format(k), 'x' * (900 * k))
                w.block(lambda: bool(stop), 0.003 if s['busy'] else 0.7 + k,
                        'noise')
        for k in range(s['noise']):
            threading.Thread(target=noisy, args=(k,), daemon=True).start()

        def call(fn, *a):
            """Nothing about the connection may reach the caller."""
            try:
                return fn(*a), None
            except Violation:
                raise
            except Exception as e:
                return None, e

        def ended(n):
            return lambda: all(
                c.ended or c.deaf or c.proc.dead for c in conns[:n])

        for i, (kind, salt) in enumerate(s['ops']):
            rng = random.Random(salt)
            counts['ops'] += 1
            state['op'], state['since'] = kind, w.elapsed
            w.log('op', kind)
            b, t0 = faults(), w.elapsed
            conn = conns[-1] if conns and is_open[0] else None
            at = len(conn.frames) if conn is not None else 0
            steady = is_open[0] and faults() == base[0]
            err = None

            def settled():
                """Everything has arrived over a connection that works."""
                if steady and faults() == b:
                    w.block(None, 3, 'settle')
                return steady and faults() == b
            epoch[0] += kind in ('open', 'close', 'bye')
            if kind == 'open':
                n0, was, is_open[0] = len(conns), is_open[0], False
                _, err = call(model.open)
                if err is not None and not isinstance(err, OSError):
                    raise Violation('open-raised', 'connecting raised '
                                    '{!r}'.format(err))
                if err is not None and editor[0] is not None and \
                        not editor[0].dead and faults() == b:
                    raise Violation('open-failed', 'connecting to a listener '
                                    'failed with {!r}'.format(err))
                if err is None:
                    is_open[0], base[0] = True, b
                    w.block(lambda: len(conns) > n0, 5, 'accepted')
                    handlers = [h for h in log.handlers if isinstance(
                        h, ns.NXTSocketLogHandler)]
                    if len(handlers) != 1:
                        raise Violation('handlers', '{} log handlers after '
                                        'connecting'.format(len(handlers)))
                elif was:
                    is_open[0] = None       # whatever became of the old one
            elif kind in ('close', 'bye'):
                is_open[0] = False
                _, err = call(model.close, kind == 'bye')
                if [h for h in log.handlers
                        if isinstance(h, ns.NXTSocketLogHandler)]:
                    raise Violation('handlers', 'a log handler is left after '
                                    'closing')
                n = len(conns)
                w.block(ended(n), 90, 'ended')
                if not ended(n)():
                    raise Violation('left-open', 'a connection is still open '
                                    'after it was closed')
                if kind == 'bye' and steady and faults() == b and \
                        conn is not None and not any(
                            'shutdown' in m for _, m in conn.frames):
                    raise Violation('no-shutdown', 'the listener was not told')
            elif kind == 'ping':
                _, err = call(model.ping)
            elif kind == 'load':
                _, err = call(model.load, work + '/g.nxt')
                loaded[0] = err is None
            elif kind == 'load_bad':
                try:
                    model.load(work + '/bad.nxt')
                    raise Violation('loaded-bad', 'a broken file loads')
                except ValueError:
                    pass
                loaded[0] = False
                model.stage = None
            elif kind == 'refresh' and loaded[0]:
                _, err = call(model.refresh)
            elif kind == 'run' and loaded[0]:
                order = rng.choice([['/a'], ['/a', '/slow'], ['/b'],
                                    ['/a', '/b'], ['/loud', '/a']])
                _, err = call(model.refresh)
                mark = len(conn.answered) if conn is not None else 0
                now = time.time() - w.elapsed
                _, err = call(model.run, order)
                stage = model.runtime_layer.cache_layer.lookup('/')
                if '/a' in order:
                    if getattr(stage, 'n', None) != 1:
                        raise Violation('not-run', 'a run gave n={}'.format(
                            getattr(stage, 'n', None)))
                    if steady and faults() == b and is_open[0]:
                        ok = conn.answered[mark:mark + 1]
                        began = stage.began - now
                        if not ok or ok[0] is None or began < ok[0] - 1e-6:
                            raise Violation('no-handshake', 'nodes ran '
                                            'before the listener agreed to '
                                            'wait')
                if settled():
                    errs = sum('error' in m for _, m in conn.frames[at:])
                    if errs != ('/b' in order):
                        raise Violation('error-message', 'a run that {} sent '
                                        '{} error messages'.format(
                                            'failed' if '/b' in order else
                                            'worked', errs))
                    texts = [m['log'][1] for _, m in conn.frames[at:]
                             if 'log' in m and m['log'][1].startswith('loud')]
                    if texts != ['loud {}'.format(k) for k in range(5)] * (
                            '/loud' in order):
                        raise Violation('lost-log', 'messages of nodes '
                                        'arrived as {}'.format(texts))
            elif kind == 'cache' and loaded[0] and model.runtime_layer:
                model.cache_filepath = rng.choice(
                    [None, work + '/cache{}.nxt'.format(i)])
                got, err = call(model.get_cache)
                if err is None and settled():
                    have = [m['cache'] for _, m in conn.frames[at:]
                            if 'cache' in m]
                    if have != [got]:
                        raise Violation('cache-message', 'asked for the cache '
                                        'once, the listener got {}'.format(
                                            len(have)))
                if err is None and got != model.runtime_layer.cache_layer \
                        .get_save_data():
                    raise Violation('wrong-cache', 'another cache was given')
            elif kind == 'log':
                for k in range(rng.randrange(1, 5)):
                    say('main', rng.choice(TEXTS))
            elif kind == 'same':
                # The same record several times, in any level with any links
                level = rng.choice(['info', 'error', 'nodeout', 'execinfo',
                                    'grapherror'])
                links = rng.choice([None, ['/a'], ['/a', '/b']])
                times = rng.randrange(1, 4)
                extra = {'links': links} if links else {}
                for k in range(times):
                    try:
                        getattr(log, level)('same', **extra)
                    except Exception as e:
                        raise Violation('log-raised', 'logging raised '
                                        '{!r}'.format(e))
                if settled():
                    have = [m['log'] for _, m in conn.frames[at:]
                            if 'log' in m and m['log'][1] == 'same']
                    lno = {'info': 20, 'error': 40, 'nodeout': 19,
                           'execinfo': 18, 'grapherror': 39}[level]
                    want = [[lno, 'same', links]] * times \
                        if log.isEnabledFor(lno) else []
                    if have != want:
                        raise Violation('lost-log', 'records logged as {} '
                                        'arrived as {}'.format(want, have))
            elif kind == 'odd':
                # Things that cannot be formatted or sent
                what = rng.randrange(3)
                try:
                    if what == 0:
                        log.warning('broken %d', 'text')
                    elif what == 1:
                        log.warning('links', extra={'links': [lambda: 1]})
                    else:
                        log.warning('%s', object())
                except Exception as e:
                    raise Violation('log-raised', 'logging raised '
                                    '{!r}'.format(e))
            elif kind == 'pause':
                w.block(None, rng.choice([1, 30]), 'pause')
            elif kind == 'away':
                if editor[0] is not None and not editor[0].dead:
                    w.fault('listener_away')
                    e, editor[0] = editor[0], None
                    e.kill()
            elif kind == 'back':
                back()
                w.block(lambda: PORT in w.net.listeners, 5, 'up')
            if err is not None and kind not in ('open',):
                raise Violation('raised', '{} raised {!r}'.format(kind, err),
                                op=kind)
            w.note_state(kind, bool(is_open[0]), ns.__nxt_server__ is None,
                         faults() == b)
            if kind in ('ping', 'load', 'run', 'refresh', 'cache') and \
                    is_open[0] and (kind in ('ping', 'load') or loaded[0]) \
                    and settled():
                waits = [m['wait'] for _, m in conn.frames if 'wait' in m]
                depth = 0
                for x in waits:
                    depth += 1 if x else -1
                    if depth < 0:
                        break
                if depth:
                    raise Violation('unbalanced', 'after {} the listener '
                                    'waits {} times'.format(kind, depth),
                                    op=kind)
                if kind == 'ping' and sum('ping' in m for _, m in
                                          conn.frames[at:]) != 1:
                    raise Violation('no-ping', 'a ping did not arrive')
            state['op'] = None
            if problems:
                raise Violation(*problems[0])
        stop.append(1)
        w.block(None, 10, 'settle')
        # Every message once and in order
        got = []
        for c in conns:
            got += [m['log'][1] for _, m in c.frames if 'log' in m
                    and m['log'][1].startswith('m ')]
            bad = [m for _, m in c.frames if 'log' in m and (
                len(m['log']) != 3 or not isinstance(m['log'][0], int))]
            if bad:
                raise Violation('bad-log', 'a log message of {} '
                                'parts'.format(len(bad[0]['log'])))
        if len(set(got)) != len(got):
            raise Violation('twice', 'a log message arrived twice')
        known = {m for _, m, _ in sent}
        if not set(got) <= known and not problems:
            raise Violation('invented', 'a log message nobody sent arrived')
        for who in {x[0] for x in sent}:
            mine = [m for x, m, _ in sent if x == who]
            arrived = [m for m in got if m.split(' ')[2] == who]
            if arrived != [m for m in mine if m in set(arrived)]:
                raise Violation('log-order', 'messages of one thread arrived '
                                'out of order')
        lost = [m for _, m, sure in sent if sure and m not in set(got)]
        if lost and faults() == 0:
            raise Violation('lost-log', 'a message logged while connected '
                            'never arrived: {!r}'.format(lost[0][:60]))
        counts['frames'] = sum(len(c.frames) for c in conns)
        # (closing may cut what another thread is still sending)
        whole = conns[-1:] if is_open[0] else []
        if faults() == 0 and any(c.at != len(c.data) for c in (
                whole if s['noise'] else conns)):
            raise Violation('cut', 'a message arrived in part')
        # It still works once the faults are over
        w.faults_on = False
        stopped = editor[0] is None or editor[0].dead
        if stopped:
            back()
            w.block(lambda: PORT in w.net.listeners, 5, 'up')
        n0 = len(conns)
        _, err = call(model.open)
        if err is None:
            w.block(lambda: len(conns) > n0, 5, 'accepted')
            at = len(conns[-1].frames)
            _, err = call(model.ping)
            w.block(None, 3, 'settle')
        if err is not None:
            raise Violation('dead-end', 'connecting again failed with '
                            '{!r}'.format(err))
        if not any('ping' in m for _, m in conns[-1].frames[at:]):
            raise Violation('dead-end', 'after connecting again messages do '
                            'not arrive')
        call(model.close)
        state['finished'] = True

    client = SimProcess(w, 'dcc', cwd=work)
    w.faults_on = True
    t = client.start(body)
    while True:
        clock = w.spawn(lambda: w.block(None, 20, 'clock'), 'clock')
        w.run(until=lambda: t.done or clock.done)
        if t.exc is not None:
            raise t.exc
        if t.done:
            break
        if problems:
            raise Violation(*problems[0])
        if state['op'] and w.elapsed - state['since'] > 30 * HANDSHAKE:
            raise Violation('stuck', '{} did not return'.format(state['op']),
                            op=state['op'])
    if not state.get('finished'):
        raise Violation('died', client.stderr.getvalue()[-500:])
    counts['connections'] = len(conns)
    return dict(counts, nontrivial=counts['frames'] > 3)
