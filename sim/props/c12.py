"""C12: finding the running rpc server through its info file."""
import os

from ..core import Violation
from ..proc import SimProcess
from .. import remote

LEVEL = 'exploration'
QUICK = {'cases': 700, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 100000, 'budget': 1800, 'chunk': 100}
RULE = ('Random contents of the server info file (missing, torn, foreign, '
        'stale, unreadable), servers that start, stop and die while writing '
        'it, and processes that look the server up meanwhile.')
REAL = 'nxt server start-up, address lookup, client; xmlrpc, socketserver'
STUB = 'TCP, threads, clock, disk calls, process death'
ASSUMES = ['Process death, not power loss.']
DEFAULT = 8001
GOOD = 39000
CONTENTS = ['none', 'good', 'good', 'good', 'nonl', 'crlf', 'empty', 'one',
            'torn', 'three', 'words', 'binary', 'big', 'zero', 'minus',
            'float', 'dir', 'blank', 'huge']
TEXT = {'good': 'localhost\n39000', 'nonl': 'localhost\n39000\n',
        'crlf': 'localhost\r\n39000\r\n', 'empty': '', 'one': 'localhost\n',
        'torn': 'localh', 'three': 'localhost\n39000\n1', 'words': 'a\nb\n',
        'big': 'localhost\n70000', 'zero': 'localhost\n0',
        'minus': 'localhost\n-5', 'float': 'localhost\n80.5',
        'blank': 'localhost\n\n', 'huge': 'localhost\n' + '9' * 400}
VALID = ('good', 'nonl', 'crlf')


def generate(rng, tier):
    faults = rng.random() < 0.4
    return {'content': rng.choice(CONTENTS),
            'servers': [[round(rng.random() * 0.05, 4),
                         rng.choice(['run', 'run', 'stop', 'kill'])]
                        for _ in range(rng.choice([0, 1, 1, 1, 2]))],
            'readers': [[round(rng.random() * 0.06, 4),
                         rng.choice([0.0005, 0.002, 0.01])]
                        for _ in range(rng.choice([1, 1, 2]))],
            'faulty': rng.choice(['server', 'reader']) if faults else None,
            'rates': {'fs': 0.2, 'switch': rng.choice([0.1, 0.3, 0.5]),
                      'pick': 0.5},
            'max_steps': 40000}


def shrink(s):
    for key in ('servers', 'readers'):
        for i in range(len(s[key])):
            yield dict(s, **{key: s[key][:i] + s[key][i + 1:]})


def run(w, s):
    info = w.root + '/tmp/NXT_RPC_SERVER'
    if s['content'] == 'dir':
        os.mkdir(info)
    elif s['content'] == 'binary':
        with open(info, 'wb') as fp:
            fp.write(b'\xff\xfe\x00\n\x80\x81')
    elif s['content'] != 'none':
        with open(info, 'w', newline='') as fp:
            fp.write(TEXT[s['content']])
    valid = s['content'] in VALID
    counts = {'lookups': 0, 'servers': len(s['servers'])}
    servers, readers, done = [], [], []

    def on(path):
        p = w.proc
        return p is not None and 'NXT_RPC_SERVER' in str(path) and \
            p.name.startswith(s['faulty'] or '-')
    # A file that can't be reached any more looks like a missing one
    w.fs.filter = lambda kind, path: on(path) and kind != 'stat'
    w.fs.allow = None
    w.fs.sim_mtime = True

    def server(i, at, end):
        def body(p):
            import runpy
            if at:
                w.block(None, at, 'offset')
            remote.prepare(p)
            runpy.run_module('nxt.remote.server', run_name='__main__')
        p = SimProcess(w, 'server{}'.format(i))
        p.at, p.end = at, end
        p.start(body, boot=False)
        servers.append(p)

    def ports():
        return {x._port for x in w.net.sockets
                if x._proc in servers and x._port is not None}

    def look(p, exact=None):
        from nxt import remote as nxt_remote
        from nxt.remote.client import NxtClient
        counts['lookups'] += 1
        n0 = len(w.fs.fault_log)
        seen = []
        for as_str in (True, False):
            try:
                got = nxt_remote.get_running_server_address(as_str=as_str)
            except Exception as e:
                raise Violation('raised', 'looking up the server raised '
                                '{!r}'.format(e), content=s['content'])
            if as_str:
                host, _, port = got.partition(':')
                if not port.isdigit():
                    raise Violation('malformed', 'not an address: '
                                    '{!r}'.format(got))
                port = int(port)
            else:
                host, port = got
            if host != 'localhost' or not isinstance(port, int):
                raise Violation('malformed', 'not an address: {!r}'.format(
                    got))
            seen.append(port)
            ok = ports()
            if valid or s['content'] == 'three':
                ok.add(GOOD)
            if not valid or len(w.fs.fault_log) > n0 or s['content'] == 'dir':
                ok.add(DEFAULT)
            if port not in ok:
                raise Violation('wrong-port', 'the lookup gave port {}, which '
                                'was never published'.format(port),
                                content=s['content'])
            if exact is not None and port != exact:
                raise Violation('not-found', 'the lookup gave port {} while '
                                'the server that started last listens at '
                                '{}'.format(port, exact))
        try:
            proxy = NxtClient()
        except Exception as e:
            raise Violation('raised', 'making a client raised {!r}'.format(e),
                            content=s['content'])
        w.note_state(s['content'], tuple(p in ports() for p in seen))
        return proxy

    phase = [None]      # the port every lookup must give by now

    def reader(i, at, gap):
        def body(p):
            w.block(None, at, 'offset')
            for _ in range(12):
                look(p)
                w.block(None, gap, 'gap')
            while True:
                # Some processes live longer than the servers they know
                w.block(lambda: phase[0] is not None and p not in done, None,
                        'phase')
                look(p, phase[0])
                done.append(p)
        p = SimProcess(w, 'reader{}'.format(i))
        t = p.start(body)
        readers.append((p, t))

    w.faults_on = bool(s['faulty'])
    for i, (at, end) in enumerate(s['servers']):
        server(i, at, end)
    for i, (at, gap) in enumerate(s['readers']):
        reader(i, at, gap)
    clock = w.spawn(lambda: w.block(None, 5, 'clock'), 'clock')
    w.run(until=lambda: clock.done)
    w.faults_on = False
    for p, t in readers:
        if t.exc is not None:
            raise t.exc
    def told(port):
        """Processes that looked before find what was published last."""
        del done[:]
        phase[0] = port
        w.run(until=lambda: all(p in done or p.dead or t.done
                                for p, t in readers))
        for p, t in readers:
            if t.exc is not None:
                raise t.exc
        phase[0] = None

    # Whoever could not publish an address does not stay
    alive = [p for p in servers if p.exit_code is None]
    for p in alive:
        if not any(x._proc is p for x in w.net.listeners.values()):
            raise Violation('useless-server', 'a server that does not listen '
                            'keeps running')
    if not s['faulty'] == 'server' and s['content'] != 'dir':
        for p in servers:
            if p.exit_code is not None:
                raise Violation('server-died', 'a server did not start: '
                                '{}'.format(p.stderr.getvalue()[-300:]),
                                content=s['content'])
        if alive:
            by_port = {x._port: x._proc for x in w.net.listeners.values()
                       if x._proc in alive}

            published = []

            def last(p):
                proxy = look(p)
                port = int(proxy.address.rpartition(':')[2])
                if port not in by_port:
                    raise Violation('not-found', 'the lookup gave port {}, '
                                    'servers listen at {}'.format(
                                        port, sorted(by_port)))
                if len(by_port) == 1:
                    look(p, port)
                published.append(port)
                if proxy.is_alive() is not True:
                    raise Violation('not-found', 'the server found does not '
                                    'answer')
                if by_port[port].end == 'stop':
                    proxy.kill()
            q = SimProcess(w, 'last')
            t = q.start(last)
            w.run(until=lambda: t.done)
            if t.exc is not None:
                raise t.exc
            if not q.dead and t.exc is None and not t.done:
                raise Violation('stuck', 'asking the server hangs')
            # (the file cannot tell two servers apart that raced)
            told(published[0])
    # A dead server's address is stale, not in the way of the next one
    for p in servers:
        p.kill()
    if s['content'] != 'dir':
        before = {x._port for x in w.net.listeners.values()}
        server(len(servers), 0, 'run')
        clock = w.spawn(lambda: w.block(None, 3, 'clock'), 'clock')
        w.run(until=lambda: clock.done)
        new = {x._port for x in w.net.listeners.values()} - before

        def again(p):
            if not new:
                raise Violation('server-died', 'no server can be started any '
                                'more: {}'.format(
                                    servers[-1].stderr.getvalue()[-300:]))
            port = new.pop()
            if look(p, port).is_alive() is not True:
                raise Violation('not-found', 'the server found does not '
                                'answer')
            new.add(port)
        q = SimProcess(w, 'again')
        t = q.start(again)
        w.run(until=lambda: t.done)
        if t.exc is not None:
            raise t.exc
        told(new.pop())
        if os.listdir(w.root + '/tmp') and \
                [n for n in os.listdir(w.root + '/tmp')
                 if n.startswith('NXT_RPC_SERVER.')] and \
                s['faulty'] != 'server':
            raise Violation('stray-file', 'starting servers left {}'.format(
                os.listdir(w.root + '/tmp')))
    return dict(counts, nontrivial=True)
