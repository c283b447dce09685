"""C10: an execution that needs the rpc server leaves nothing behind."""
import os

from ..core import Violation
from ..proc import SimProcess
from .. import graphs, remote

LEVEL = 'exploration'
QUICK = {'cases': 300, 'budget': 60, 'chunk': 15}
THOROUGH = {'cases': 20000, 'budget': 1800, 'chunk': 40}
RULE = ('Random histories of executions by one or two sessions, with servers '
        'that fail to start, start late, hang, die or are already running, '
        'spawn failures, resets, refused and slow connections, and stale or '
        'foreign addresses.')
REAL = ('nxt sessions, rpc server process and client, headless executions '
        'through the real cli, xmlrpc and socketserver')
STUB = 'TCP, threads, clock, process creation and death'
ASSUMES = []
GRACE = 12.0
SLOW = 4.6
BOUND = 90.0
KINDS = ('remote', 'remote', 'context', 'nodes', 'fail', 'error', 'sub',
         'deep', 'plain', 'nested', 'params', 'service', 'service')


def gen_ops(rng):
    ops = [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        ops += ['pause', rng.choice(['plain', 'plain', 'remote'])]
    return ops


def generate(rng, tier):
    kids = []
    for _ in range(6):
        k = rng.choice(['ok'] * 6 + ['dead', 'hang', 'late', 'late', 'dies'])
        t = round(rng.choice([0.3, 1.0, 2.5, 4.2, 4.97, 5.0, 5.5, 9.0])
                  + rng.random() * 0.1, 3)
        kids.append([k, t])
    calm = rng.random() < 0.4
    if calm:
        # Slow, but in time
        kids = [rng.choice([['ok', 0], ['late', round(
            rng.random() * SLOW, 3)]]) for _ in kids]
    s = {'hosts': [{'ops': gen_ops(rng), 'at': 0.0}],
         'kids': kids,
         'verbose': rng.choice([None, None, '0', '1']),
         'info': rng.choice([None, None, None, 'stale', 'dumb', 'port']),
         'foreign': rng.choice([None] * 6 + [0, round(
             1 + rng.random() * 8, 3), round(rng.random() * 20, 3)]),
         'rates': {'net.': 0 if calm else rng.choice([0, 0.02, 0.1]),
                   'spawn': 0 if calm else rng.choice([0, 0, 0.2]),
                   'switch': rng.choice([0, 0.05, 0.2]), 'pick': 0.3,
                   'net.delay': 0.9},
         'max_steps': 200000}
    if rng.random() < 0.3:
        s['hosts'].append({'ops': gen_ops(rng), 'at': rng.choice(
            [0.0, 0.0, 0.5, 1.0, 1.5, 3.0, 14.0])})
    theme = rng.randrange(10)
    if theme == 0:
        # Two sessions start servers at the same moment
        s['hosts'] = [{'ops': gen_ops(rng), 'at': 0.0},
                      {'ops': gen_ops(rng), 'at': rng.random() * 0.02}]
        s['kids'] = [['late', round(rng.random() * 3, 3)] for _ in kids]
        s['foreign'] = s['info'] = None
    elif theme == 1:
        # A server appears between two executions of one session
        s['hosts'] = [{'ops': ['remote', 'pause', 'plain', 'remote'],
                       'at': 0.0}]
        s['foreign'] = round(2 + rng.random() * 5, 3)
    return s


def shrink(s):
    if len(s['hosts']) > 1:
        yield dict(s, hosts=s['hosts'][:1])
        yield dict(s, hosts=s['hosts'][1:])
    for i, h in enumerate(s['hosts']):
        for j in range(len(h['ops'])):
            hs = list(s['hosts'])
            hs[i] = dict(h, ops=h['ops'][:j] + h['ops'][j + 1:])
            yield dict(s, hosts=hs)
    for i, k in enumerate(s['kids']):
        if k[0] != 'ok':
            yield dict(s, kids=s['kids'][:i] + [['ok', 0]] + s['kids'][i + 1:])
    for k in ('verbose', 'info', 'foreign'):
        if s[k] is not None:
            yield dict(s, **{k: None})


SUB = ['STAGE.y = self.x + 1']


def write_graphs(work):
    graphs.write(work + '/sub.nxt', remote.sub_graph(SUB))
    graphs.write(work + '/bad.nxt', remote.sub_graph(['STAGE.y = 1 / 0']))
    graphs.write(work + '/remote.nxt', remote.remote_graph(work + '/sub.nxt'))
    graphs.write(work + '/local.nxt', remote.remote_graph(
        work + '/sub.nxt', ref='sub_graphs'))
    deep = remote.remote_graph(work + '/remote.nxt', ref='sub_graphs')
    deep['nodes']['/r']['code'] = [
        'from nxt.stage import Stage',
        'rt = Stage.load_from_filepath(self._graph_path).execute()',
        "self.y = rt.cache_layer.lookup('/r').y"]
    graphs.write(work + '/deep.nxt', deep)
    graphs.write(work + '/error.nxt', remote.remote_graph(work + '/bad.nxt'))
    fail = remote.remote_graph(work + '/sub.nxt')
    fail['nodes']['/r'] = {'start_point': True, 'code': ['1 / 0']}
    graphs.write(work + '/fail.nxt', fail)
    nested = remote.remote_graph(work + '/sub.nxt')
    nested['nodes']['/'] = {'child_order': ['n']}
    nested['nodes']['/n'] = {'start_point': True, 'code': [
        'from nxt.session import Session',
        'Session().execute_graph({!r})'.format(work + '/remote.nxt')],
        'child_order': ['r']}
    nested['nodes']['/n/r'] = dict(nested['nodes'].pop('/r'))
    nested['nodes']['/n/r'].pop('start_point')
    graphs.write(work + '/nested.nxt', nested)
    graphs.write(work + '/plain.nxt', remote.sub_graph(SUB))


def perform(se, kind, work):
    """The public calls a user makes; returns what the graph computed."""
    def value(layer, path, attr):
        return getattr(layer.lookup(path), attr, None)
    if kind in ('remote', 'sub', 'deep', 'error', 'fail'):
        f = {'sub': 'local'}.get(kind, kind)
        rt = se.execute_graph('{}/{}.nxt'.format(work, f))
        return value(rt.cache_layer, '/r', 'y')
    if kind == 'params':
        rt = se.execute_graph(work + '/remote.nxt', parameters={'/r.x': 5})
        return value(rt.cache_layer, '/r', 'y')
    if kind == 'nested':
        rt = se.execute_graph(work + '/nested.nxt')
        return value(rt.cache_layer, '/n/r', 'y')
    if kind == 'nodes':
        rt = se.execute_nodes(work + '/remote.nxt', ['/r'])
        return value(rt.cache_layer, '/r', 'y')
    if kind == 'plain':
        rt = se.execute_graph(work + '/plain.nxt', parameters={'/.x': 5})
        return value(rt.cache_layer, '/', 'y')
    if kind == 'context':
        layer = se.execute_graph(work + '/plain.nxt', context='python',
                                 parameters={'/.x': 5})
        return value(layer, '/', 'y')
    if kind == 'service':
        # What an application that hosts nxt does
        from nxt.session import RPCServerProcess
        server = RPCServerProcess.start(
            use_custom_stdout=True, stdout_filepath=work + '/out.nxtlog',
            socket_log=True)
        if server is None:
            return 6
        try:
            rt = se.execute_graph(work + '/remote.nxt')
        finally:
            server.terminate()
        return value(rt.cache_layer, '/r', 'y')
    raise AssertionError(kind)


def run(w, s):
    work = w.root + '/work'
    tmp = w.root + '/tmp'
    write_graphs(work)
    kids, made = [], [0]
    counts = {'ops': 0, 'ok': 0, 'failed': 0, 'servers': 0, 'headless': 0}

    def before(p, kind):
        if kind != 'server':
            return
        i = made[0]
        made[0] += 1
        if not w.faults_on or i >= len(s['kids']):
            return
        what, t = s['kids'][i]
        if what == 'ok':
            return
        w.fault('server_slow' if what == 'late' and t <= SLOW
                else 'server_' + what)
        if what == 'dead':
            raise SystemExit(1)
        if what == 'hang':
            w.block(lambda: False, None, 'hang')
        if what == 'late':
            w.block(None, t, 'late')
        if what == 'dies':
            def die():
                w.block(None, t, 'dies')
                p.kill(-9)
            w.spawn(die, 'killer', daemon=True)

    spawn0 = remote.runner(w, kids, before)

    def spawn(*a):
        if w.faults_on and w.decide('spawn', 2):
            w.fault('spawn_failure')
            raise OSError(12, 'Cannot allocate memory')
        return spawn0(*a)
    w.spawn_handler = spawn
    w.net.no_timeout = True

    killed = []

    def watch(sock, data):
        peer = sock._peer
        if peer is None or b'<methodName>kill</methodName>' not in data:
            return
        if peer._proc.parent is not sock._proc:
            # The code that sends it handles exceptions
            killed.append('{} told a server to shut down that it did not '
                          'start'.format(sock._proc.name))
    w.net.on_send = watch

    # Something else on the machine
    if s['info'] in ('stale', 'dumb', 'port'):
        with open(tmp + '/NXT_RPC_SERVER', 'w') as fp:
            fp.write('localhost\n' + ('39999' if s['info'] != 'port'
                                      else '70000'))
    ext = None
    if s['info'] == 'dumb':
        def dumb(p):
            import socket
            srv = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            srv.bind(('localhost', 39999))
            srv.listen(5)
            while True:
                c, _ = srv.accept()
                c.close()
        ext = SimProcess(w, 'other')
        ext.start(dumb, boot=False)
    foreign = None
    if s['foreign'] is not None:
        foreign = SimProcess(w, 'foreign')

        def serve(p):
            import runpy
            w.block(None, s['foreign'] or None, 'foreign')
            remote.prepare(p)
            runpy.run_module('nxt.remote.server', run_name='__main__')
        foreign.start(serve, boot=False)
        if not s['foreign']:
            t = w.spawn(lambda: w.block(None, 3, 'settle'), 'settle')
            w.run(until=lambda: t.done)

    def faults():
        return sum(n for k, n in w.fault_counts.items() if k != 'server_slow')

    def own(host):
        return [k for k in kids if k.parent is host and k.kind == 'server']

    def host(n, conf):
        state = {'op': None, 'since': 0.0, 'done': False}

        def body(p):
            import nxt.constants as c
            from nxt.session import Session
            os.environ[c.NXT_DCC_ENV_VAR] = c.STANDALONE
            if s['verbose'] is not None:
                os.environ['NXT_VERBOSE'] = s['verbose']
            if conf['at']:
                w.block(None, conf['at'], 'offset')
            se = Session()
            for i, kind in enumerate(conf['ops']):
                if kind == 'pause':
                    w.block(None, 8, 'pause')
                    continue
                one(p, se, kind, False)
            state['op'] = None
            state['done'] = True
            w.block(lambda: state.get('last'), None, 'last')
            if state['last'] == 'go':
                one(p, se, 'remote', True)
            state['finished'] = True

        def one(p, se, kind, calm):
            n0 = len(kids)
            env = dict(os.environ)
            state['op'], state['since'] = kind, w.elapsed
            counts['ops'] += 1
            w.log('op', kind)
            before = faults()
            try:
                got, err = perform(se, kind, work), None
                counts['ok'] += 1
            except Exception as e:
                got, err = None, e
                counts['failed'] += 1
            w.log('done', kind, type(err).__name__, got)
            state['op'] = None
            quiet = faults() == before
            if err is None and got != 6:
                raise Violation('wrong-result', '{} gave {!r}'.format(
                    kind, got), op=kind)
            if err is None and kind in ('fail', 'error'):
                raise Violation('lost-error', 'a failing graph was reported '
                                'as executed', op=kind)
            if err is not None and kind == 'fail' and quiet and \
                    not isinstance(err, (OSError,)) and \
                    'GraphError' not in [x.__name__ for x in
                                         type(err).__mro__]:
                raise Violation('wrong-error', 'a failing graph raised '
                                '{!r}'.format(err))
            if err is not None and kind not in ('fail', 'error') and (
                    calm or quiet and len(s['hosts']) == 1
                    and s['info'] != 'dumb'):
                raise Violation('failed', '{} failed without any fault: '
                                '{!r}'.format(kind, err), op=kind)
            if dict(os.environ) != env:
                raise Violation('environment', 'an execution changed the '
                                'environment of its process: {}'.format(
                                    {k: os.environ.get(k) for k in
                                     set(env) ^ set(os.environ)
                                     | {k for k in env
                                        if os.environ.get(k) != env[k]}}))
            w.block(lambda: all(k.exit_code is not None for k in own(p)),
                    GRACE, 'grace')
            left = [k.name for k in own(p) if k.exit_code is None]
            if left:
                raise Violation(
                    'server-left', '{} s after {} {} the server it started '
                    'still runs'.format(GRACE, kind, 'failed' if err else
                                        'ended'), op=kind, failed=bool(err))
            if any(x._proc is p for x in w.net.listeners.values()):
                raise Violation('port-held', 'a port is still held after {} '
                                '{}'.format(kind, 'failed' if err else
                                            'ended'), op=kind)
            w.note_state(kind, type(err).__name__, len(kids) - n0)
        p = SimProcess(w, 'host{}'.format(n))
        return p, p.start(body), state

    w.faults_on = True
    hosts = [host(i, h) for i, h in enumerate(s['hosts'])]

    def drive(key):
        while True:
            def over():
                return all(st.get(key) or p.dead for p, t, st in hosts) or \
                    any(st['op'] and w.elapsed - st['since'] > BOUND
                        for p, t, st in hosts) or \
                    any(t.exc for p, t, st in hosts)
            clock = w.spawn(lambda: w.block(None, 5, 'clock'), 'clock')
            w.run(until=lambda: over() or clock.done)
            if killed:
                raise Violation('killed-foreign', killed[0])
            for p, t, st in hosts:
                if t.exc is not None:
                    raise t.exc
                if p.dead and not st.get(key):
                    raise Violation('host-died', p.stderr.getvalue()[-500:])
                if st['op'] and w.elapsed - st['since'] > BOUND:
                    raise Violation('stuck', '{} did not return within {} '
                                    's'.format(st['op'], BOUND), op=st['op'])
            if over():
                return
    drive('done')
    w.faults_on = False
    if ext is not None:
        ext.kill()
    if foreign is not None and foreign.exit_code is not None:
        raise Violation('foreign-server-died', 'a server that no session '
                        'started was shut down')
    clock = w.spawn(lambda: w.block(None, 120, 'clock'), 'clock')
    w.run(until=lambda: clock.done or all(
        k.exit_code is not None for k in kids))
    left = [k.kind for k in kids if k.exit_code is None]
    if left:
        raise Violation('child-left', 'a {} process started for an execution '
                        'never ends'.format(left[0]))
    # Executions work once the faults are over, one session after the other
    for h in hosts:
        h[2]['last'] = 'go'
        drive2 = [h]
        saved, hosts = hosts, drive2
        drive('finished')
        hosts = saved
    clock = w.spawn(lambda: w.block(None, 30, 'clock'), 'clock')
    w.run(until=lambda: clock.done or all(
        p.exit_code is not None for p, t, st in hosts))
    for p, t, st in hosts:
        if p.exit_code is None:
            raise Violation('no-exit', 'a process that executed graphs '
                            'cannot exit')
    counts['servers'] = sum(k.kind == 'server' for k in kids)
    counts['headless'] = sum(k.kind == 'headless' for k in kids)
    return dict(counts, nontrivial=True)
