"""C08: starting and stopping the log receiver."""
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 2000, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 100}
RULE = ('Random histories of starting and stopping the log receiver in '
        'processes that exit or are killed, while other processes connect, '
        'stall inside a record, reset, send records or stay connected.')
REAL = ('nxt log socket receiver, its threads, startup and shutdown '
        'functions, socketserver, logging.SocketHandler')
STUB = 'TCP, threads, clock, process death'
ASSUMES = []
PORT = 9020
BOUND = 5.0


def generate(rng, tier):
    return {'ops': [[rng.choice(['start', 'stop', 'bounce', 'idle', 'stall',
                                 'record', 'record', 'hangup', 'pause',
                                 'exit', 'kill', 'twice']),
                     rng.randrange(1 << 16)]
                    for _ in range(rng.randrange(3, 16))],
            'rates': {'net.': rng.choice([0, 0, 0.1]),
                      'switch': rng.choice([0, 0.1, 0.4]), 'pick': 0.5},
            'max_steps': 40000}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])


def run(w, s):
    import random
    counts = {'starts': 0, 'stops': 0, 'clients': 0, 'longest_stop_s': 0}
    got = []
    host = [None, None]     # SimProcess, its inbox
    running = [False]
    clients = []
    w.net.fault_ports = {PORT}

    def host_body(box):
        def body(p):
            import logging
            from nxt import nxt_log

            class Keep(logging.Handler):
                def emit(self, record):
                    got.append(record.getMessage())
            logging.getLogger('nxt').addHandler(Keep())
            while True:
                w.block(lambda: bool(box), None, 'inbox')
                what, reply = box.pop(0)
                if what == 'exit':
                    if running[0]:
                        nxt_log.shutdown_log_socket()
                    reply.append(None)
                    return
                t0 = w.elapsed
                try:
                    if what == 'start':
                        nxt_log.startup_log_socket()
                    else:
                        nxt_log.shutdown_log_socket()
                    reply.append((None, w.elapsed - t0))
                except Exception as e:
                    reply.append((e, w.elapsed - t0))
        return body

    def ask(what):
        if host[0] is None:
            box = []
            p = SimProcess(w, 'host')
            p.start(host_body(box))
            host[:] = [p, box]
        reply = []
        host[1].append((what, reply))
        clock = w.spawn(lambda: w.block(None, 60, 'wait'), 'wait')
        w.run(until=lambda: reply or clock.done or host[0].dead)
        if not reply:
            raise Violation('stuck', '{} did not return within 60 s'.format(
                what), what=what)
        return reply[0]

    def start():
        err, took = ask('start')
        counts['starts'] += 1
        if err is not None:
            raise Violation('not-started', 'the receiver could not be '
                            'started{}: {!r}'.format(
                                ' again' if counts['starts'] > 1 else '',
                                err))
        running[0] = True
        if PORT not in w.net.listeners:
            raise Violation('not-started', 'nothing listens after the start')

    def stop():
        err, took = ask('stop')
        counts['stops'] += 1
        if err is not None:
            raise Violation('stop-failed', 'stopping failed with {!r}'.format(
                err))
        counts['longest_stop_s'] = max(counts['longest_stop_s'], took)
        if took > BOUND:
            raise Violation('slow-stop', 'stopping took {:.1f} s'.format(took))
        if running[0] and PORT in w.net.listeners:
            raise Violation('port-held', 'the port is still taken after the '
                            'receiver was stopped')
        running[0] = False

    def wait(secs):
        t = w.spawn(lambda: w.block(None, secs, 'pause'), 'pause')
        w.run(until=lambda: t.done)

    def client(kind, salt, msg):
        hold = [True]

        def body(p):
            import socket
            if kind == 'record':
                import logging
                from nxt import nxt_log
                nxt_log.set_verbosity('socket')
                logging.getLogger('nxt.client').warning(msg)
                return
            try:
                c = socket.create_connection(('localhost', PORT))
                if kind == 'stall':
                    c.sendall(b'\0\0\1\0abc'[:salt % 8])
                w.block(lambda: not hold[0], None, 'hold')
                c.close()
            except OSError:
                pass
        p = SimProcess(w, kind)
        t = p.start(body, boot=kind == 'record')
        counts['clients'] += 1
        return p, t, hold

    def over():
        running[0] = False
        host[:] = [None, None]

    def leave(what):
        if host[0] is None:
            return
        p = host[0]
        if what == 'kill':
            p.kill()
        else:
            ask('exit')
            t = w.spawn(lambda: w.block(None, 60, 'exit'), 'exit')
            w.run(until=lambda: t.done or p.exit_code is not None)
            if p.exit_code is None:
                raise Violation('no-exit', 'a process that stopped its '
                                'receiver cannot exit', clients=len(clients))
        over()

    for kind, salt in s['ops']:
        rng = random.Random(salt)
        w.log('op', kind, salt % 8)
        if kind == 'start' and not running[0]:
            start()
        elif kind == 'stop' and host[0] is not None:
            stop()
        elif kind == 'bounce':
            if not running[0]:
                start()
            stop()
            start()
        elif kind == 'twice' and running[0]:
            # The port is taken: reported, and the first one keeps working
            err, _ = ask('start')
            if err is None and PORT not in w.net.listeners:
                raise Violation('not-started', 'a second start ended the '
                                'first receiver')
            if err is None:
                stop()
        elif kind in ('idle', 'stall') and running[0]:
            w.faults_on = True
            clients.append(client(kind, salt, None))
            wait(0.5)
            w.faults_on = False
        elif kind == 'hangup' and clients:
            p, t, hold = clients.pop(rng.randrange(len(clients)))
            if rng.random() < 0.5:
                p.kill()
            else:
                hold[0] = False
            wait(0.5)
        elif kind == 'record' and running[0]:
            msg = 'record {}'.format(counts['clients'])
            p, t, _ = client('record', salt, msg)
            w.run(until=lambda: t.done)
            wait(5)
            if got.count(msg) != 1:
                raise Violation('lost-record', 'a record sent to the running '
                                'receiver arrived {} times'.format(
                                    got.count(msg)))
        elif kind == 'pause':
            wait(rng.choice([0.3, 1.5, 20]))
        elif kind in ('exit', 'kill'):
            leave(kind)
        w.note_state(kind, running[0], len(clients))
    leave('exit')
    # Whatever happened, the next process can have the port
    start()
    leave('exit')
    return dict(counts, nontrivial=True)
