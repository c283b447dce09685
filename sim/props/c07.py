"""C07: log records sent to another nxt process."""
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 1500, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 100}
RULE = ('Random sequences of log records from one to three processes to one '
        'receiving process while the network cuts the stream into pieces, '
        'delays it or drops connections, and senders die inside a record.')
REAL = ('nxt log socket receiver and stream handler, socketserver, '
        'logging.SocketHandler, nxt verbosity setup')
STUB = 'TCP, threads, clock'
ASSUMES = ['TCP keeps the order of the bytes it delivers.']
KINDS = ('plain',) * 8 + ('empty', 'same', 'same', 'unicode', 'percent',
                          'lines', 'error', 'extra', 'arg')


def generate(rng, tier):
    mode = rng.choice(['pieces', 'pieces', 'breaks', 'raw'])
    return {'mode': mode,
            'stay': rng.random() < 0.3,
            'grain': rng.choice([0, 0, 1.0, 1000.0]),
            'senders': [[[rng.choice(['info', 'warning', 'grapherror',
                                      'nodeout', 'execinfo', 'debug']),
                          rng.choice([1, 5, 40, 300, 70000 if
                                      rng.random() < 0.1 else 900]),
                          rng.choice([0, 0, 0.2, 3.0]),
                          rng.choice(KINDS)]
                         for _ in range(rng.randrange(1, 9))]
                        for _ in range(rng.randrange(1, 4))],
            'cut': [rng.randrange(0, 400) for _ in range(3)],
            'rates': {'net.recv': 0.5 if mode != 'breaks' else 0.1,
                      'net.send': 0.3 if mode != 'breaks' else 0.15,
                      'switch': rng.choice([0, 0.1, 0.4]), 'pick': 0.5},
            'max_steps': 60000}


def shrink(s):
    for i in range(len(s['senders'])):
        if len(s['senders']) > 1:
            yield dict(s, senders=s['senders'][:i] + s['senders'][i + 1:])
        one = s['senders'][i]
        for j in range(len(one)):
            new = [list(x) for x in s['senders']]
            new[i] = one[:j] + one[j + 1:]
            yield dict(s, senders=new)


def run(w, s):
    port = 9020     # logging.handlers.DEFAULT_TCP_LOGGING_PORT
    got = []        # [(sender, n, level name, text length, ok)]
    sent = {}
    began = {}      # when each record was sent
    arrived = {}    # when it was first logged
    breaks = s['mode'] in ('breaks', 'raw')
    counts = {'records_sent': 0, 'records_received': 0}
    stop = [False]

    w.clock_grain = s.get('grain', 0)

    def text(i, n, size, kind):
        if kind == 'empty':
            return ''
        if kind == 'same':
            return 'again'
        msg = '{}:{}:{}'.format(i, n, chr(97 + n % 26) * size)
        return {'unicode': u'{} \u00fc\u4e2d\U0001f600', 'percent': '{} 100% %s',
                'lines': 'two\nlines {}\n'}.get(kind, '{}').format(msg)

    def receiver(p):
        import logging
        from nxt import nxt_log

        class Keep(logging.Handler):
            def emit(self, record):
                got.append((record.getMessage(), record.levelname,
                            record.levelno, record.name,
                            getattr(record, 'links', None),
                            (record.exc_text or '').splitlines()[-1:]))
                arrived.setdefault(got[-1][0], w.elapsed)
        root = logging.getLogger('nxt')
        root.addHandler(Keep())
        nxt_log.startup_log_socket()
        w.block(lambda: stop[0], None, 'wait')
        t0 = w.elapsed
        nxt_log.shutdown_log_socket()
        counts['stop_s'] = w.elapsed - t0

    def sender(i, recs):
        def body(p):
            import logging
            from nxt import nxt_log
            nxt_log.set_verbosity('socket')
            log = logging.getLogger('nxt.sender{}'.format(i))
            mine = sent.setdefault(i, [])
            for n, rec in enumerate(recs):
                level, size, pause = rec[:3]
                kind = rec[3] if len(rec) > 3 else 'plain'
                msg = text(i, n, size, kind)
                links = ['/l{}'.format(n)] if n % 3 == 1 and \
                    kind not in ('same', 'empty') else None
                exc = ['ValueError: {}'.format(n)] if kind == 'error' else []
                mine.append((msg, level, links, exc))
                began.setdefault(msg, w.elapsed)
                counts['records_sent'] += 1
                if kind == 'error':
                    try:
                        raise ValueError(n)
                    except ValueError:
                        getattr(log, level)(msg, exc_info=True, links=links)
                elif links:
                    getattr(log, level)('%s', msg, links=links)
                elif kind == 'arg':
                    getattr(log, level)('%s%d%%', msg, n)
                    mine[-1] = ('{}{}%'.format(msg, n), level, None, [])
                elif kind in ('same', 'empty', 'percent'):
                    getattr(log, level)(msg)
                else:
                    getattr(log, level)('%s', msg)
                if pause:
                    import time
                    time.sleep(pause)
            if s.get('stay'):
                # Done logging, still connected
                w.block(None, 40, 'stay')
        return body

    def raw(cut, i):
        """A sender that dies with a record half written."""
        def body(p):
            import socket
            import pickle
            import struct
            body_ = pickle.dumps({'name': 'nxt.raw', 'msg': 'x' * 300,
                                  'levelno': 20, 'levelname': 'INFO'}, 1)
            data = struct.pack('>L', len(body_)) + body_
            c = socket.create_connection(('localhost', port))
            c.sendall(data[:min(cut, len(data) - 1)])
            c.close()
        return body

    # A receiving process, then the senders all at once
    a = SimProcess(w, 'receiver')
    ta = a.start(receiver)
    w.run(until=lambda: ta.done or port in w.net.listeners)
    if port not in w.net.listeners:
        raise Violation('not-started', 'the log receiver did not start '
                        'listening', where=a.tracebacks[-1:])
    w.net.fault_ports = {port}
    procs = []
    for i, recs in enumerate(s['senders']):
        p = SimProcess(w, 's{}'.format(i))
        procs.append((p, p.start(sender(i, recs))))
    if s['mode'] == 'raw':
        for i, c in enumerate(s['cut']):
            p = SimProcess(w, 'raw{}'.format(i))
            procs.append((p, p.start(raw(c, i))))
    w.faults_on = True
    if not breaks:
        w.net.no_reset = True
    if s['mode'] == 'raw':
        w.net.no_reset = True
    w.run(until=lambda: all(t.done for _, t in procs))
    w.faults_on = False
    for p, t in procs:
        if t.exc is not None:
            raise Violation('sender-failed', '{} failed: {!r}'.format(
                p.name, t.exc))
    end = w.elapsed + 30

    def settle():
        t = w.spawn(lambda: w.block(None, end - w.elapsed, 'settle'), 'settle')
        w.run(until=lambda: t.done)
    settle()
    stop[0] = True
    t = w.spawn(lambda: w.block(None, 30, 'grace'), 'grace')
    w.run(until=lambda: t.done)
    if a.exit_code is None:
        raise Violation('stuck', 'the receiving process is still busy 30 s '
                        'after every sender has gone')
    counts['records_received'] = len(got)
    # What arrived, per sender
    per = {}
    for msg, lname, lno, name, links, exc in got:
        if not name.startswith('nxt.sender'):
            if name == 'nxt.raw':
                raise Violation('invented', 'a record that was never sent '
                                'completely was logged')
            continue
        per.setdefault(int(name[10:]), []).append((msg, lname, links, exc))
    names = {'info': 'INFO', 'warning': 'WARNING', 'debug': 'DEBUG',
             'grapherror': 'GRAPH ERROR', 'nodeout': 'NODEOUT',
             'execinfo': 'EXECUTE'}
    for i, recs in sent.items():
        want = [(m, 'remote.' + names[lv], links, exc)
                for m, lv, links, exc in recs]
        have = per.pop(i, [])
        j = 0
        for r in have:
            while j < len(want) and want[j] != r:
                j += 1
            if j == len(want):
                dup = have.count(r) > want.count(r) > 0
                raise Violation('duplicate' if dup else 'wrong-record',
                                'sender {}: {!r} arrived {}'.format(
                                    i, r[0][:30], 'twice or out of order'
                                    if r in want else 'but was never sent'))
            j += 1
        late = [m for m, _, _, _ in want if m in arrived and m in began and
                len(m) > 5
                and arrived[m] - began[m] > 20]
        if late and s['mode'] != 'breaks':
            raise Violation('late', 'sender {}: a record was logged {:.0f} s '
                            'after it was sent'.format(
                                i, arrived[late[0]] - began[late[0]]))
        if s['mode'] != 'breaks' and have != want:
            miss = [r for r in want if r not in have]
            raise Violation('lost-record', 'sender {}: {} of {} records did '
                            'not arrive over a connection that never broke'
                            .format(i, len(miss), len(want)))
    if per:
        raise Violation('wrong-record', 'records of an unknown sender')
    w.note_state(len(got), counts['records_sent'], s['mode'])
    return dict(counts, nontrivial=True)
