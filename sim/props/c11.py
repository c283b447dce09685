"""C11: graphs run as sub graphs or in another interpreter give what running
them here gives."""
import json
import os

from ..core import Violation
from ..proc import SimProcess
from .. import graphs, remote
from ..remote import raw

LEVEL = 'exploration'
QUICK = {'cases': 240, 'budget': 60, 'chunk': 12}
THOROUGH = {'cases': 20000, 'budget': 1800, 'chunk': 40}
RULE = ('Random graphs run in a named context, through a remote sub graph '
        'node, as a local sub graph, by the cli and by concurrent calls to '
        'one server, with random starts and parameters, while interpreters '
        'die or are slow, connections break and the disk fails; each result '
        'is compared with one plain local execution of the same graph.')
REAL = ('nxt sessions, rpc server and client, headless executions through '
        'the real cli and built in graphs')
STUB = 'TCP, threads, clock, process creation and death, disk faults'
ASSUMES = ['Values that are not JSON and None are not compared.']
BOUND = 120.0

CONSTS = [0, 1, -5, 2 ** 40, False, True, '', 'word', '5', 'caf\u00e9\u2028',
          'a\r\nb\x01', '"q"', "it's", [], [1, [2]], {}, {'k': 0},
          {'k': [1, {'m': ''}]}, 1.5, 'x' * 3000]
WORLD = {'x': '1', 'y': '2', 'f': '7', 'l': '[1]', 's': 'word', 'n': '0',
         'd': '{"a": 1}', 'q': '"quoted"'}
# Names the context graphs use themselves
OURS = ['graph_file', 'cache_file', 'parameters_file', 'start_node']
HOST = ['x', 'y', 'l', 'n', 's', 'own']
SEEN = ('marks = {marks!r}\n'
        'with open(marks, "a") as fp:\n'
        '    fp.write("{{}} {{}} {{}}\\n".format(getattr(self, "tag", '
        '"none"), {path!r}, __import__("os").getpid()))')


def gen_lines(rng, names):
    out = []
    for _ in range(rng.randrange(0, 6)):
        k = rng.randrange(9)
        a, b = rng.choice(names), rng.choice(names)
        c = repr(rng.choice(CONSTS))
        if k == 0:
            out.append('self.{} = {}'.format(a, c))
        elif k in (1, 2):
            out.append('STAGE.{} = {}'.format(a, c))
        elif k == 3:
            out.append('STAGE.{} = getattr(self, {!r}, {})'.format(a, b, c))
        elif k == 4:
            out.append('self.{} = [getattr(self, {!r}, 0), {}]'.format(
                a, b, c))
        elif k == 5:
            out.append('STAGE.new{} = [{}, getattr(STAGE, {!r}, None)]'
                       .format(rng.randrange(3), c, a))
        elif k == 6:
            out.append('self.obj = object()')
        elif k == 7:
            out.append('STAGE.typ = type(getattr(self, {!r}, 0)).__name__'
                       .format(a))
        elif k == 8:
            out.append('self.made = STAGE.__dict__.get({!r}, 5)'.format(a))
    r = rng.random()
    if r < 0.06:
        out.append('raise ValueError("deliberate")')
    elif r < 0.12:
        out.append('raise ExitGraph("enough")')
    elif r < 0.18:
        out.append('raise ExitNode("enough")')
    elif r < 0.24:
        out.insert(0, 'import time; time.sleep({})'.format(
            rng.choice([0.3, 1.0, 4.0])))
    elif r < 0.26:
        out.append('for')
    return out


def gen_graph(rng):
    names = list(WORLD)
    if rng.random() < 0.2:
        names += OURS
    top = ['a', 'b', 'c'][:rng.randrange(1, 4)]
    g = {'world': {n: WORLD.get(n, '3') for n in names
                   if rng.random() < 0.7} if rng.random() < 0.8 else None,
         'top': top, 'nodes': {}, 'layered': rng.random() < 0.25}
    paths = []
    for t in top:
        paths.append('/' + t)
        for k in ('k', 'm')[:rng.randrange(3)]:
            paths.append('/{}/{}'.format(t, k))
    for p in paths:
        g['nodes'][p] = {
            'lines': gen_lines(rng, names),
            'attrs': {n: rng.choice(list(WORLD.values()))
                      for n in rng.sample(names + ['v'], rng.randrange(4))},
            'start': p.count('/') == 1 and (p == '/a' or rng.random() < 0.5)}
    return g


def gen_params(rng, g):
    if rng.random() < 0.3:
        return None
    out = {}
    for _ in range(rng.randrange(1, 4)):
        p = rng.choice(list(g['nodes']) + ['/'] * 2)
        out[('/.' if p == '/' else p + '.') + rng.choice(
            list(WORLD) + ['fresh'])] = rng.choice(CONSTS)
    return out


def gen_call(rng, gs):
    i = rng.randrange(len(gs))
    starts = [None, None, None] + ['/' + t for t in gs[i]['top']]
    n = sum(d['start'] for d in gs[i]['nodes'].values())
    return {'g': i, 'start': rng.choice(starts + [n - 1, 0]),
            'params': gen_params(rng, gs[i]),
            'context': rng.choice(['python', 'python', 'mine'])}


def gen_op(rng, gs):
    kind = rng.choice(['context', 'context', 'node', 'node', 'node', 'sub',
                       'sub', 'cli', 'batch', 'batch'])
    op = gen_call(rng, gs)
    op['kind'] = kind
    op['relative'] = rng.random() < 0.3
    if kind != 'context' and not isinstance(op['start'], str):
        op['start'] = None
    if kind in ('node', 'sub'):
        op['host'] = {n: rng.choice(CONSTS) for n in rng.sample(
            HOST, rng.randrange(4))}
    if kind == 'batch':
        op['calls'] = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            c = gen_call(rng, gs)
            if not isinstance(c['start'], str):
                c['start'] = None
            c['cache'] = rng.choice([None, 'fresh', 'stale', 'stale'])
            op['calls'].append(c)
    return op


def generate(rng, tier):
    gs = [gen_graph(rng) for _ in range(rng.randrange(1, 3))]
    s = {'graphs': gs,
         'ops': [gen_op(rng, gs) for _ in range(rng.choice([1, 2, 3]))],
         'args': rng.choice([[], ['-B']]),
         'init': rng.random() < 0.3,
         'kids': [rng.choice([['ok', 0]] * 5 + [
             ['slow', round(rng.random() * 3, 3)], ['dead', 0],
             ['dies', round(rng.random() * 5, 3)]]) for _ in range(6)],
         'rates': {'net.': rng.choice([0, 0, 0.03]),
                   'fs': rng.choice([0, 0, 0.03]),
                   'switch': rng.choice([0, 0.05, 0.2]), 'pick': 0.3},
         'max_steps': 300000}
    if rng.random() < 0.5:
        s['rates'].update({'net.': 0, 'fs': 0})
        s['kids'] = [k if k[0] == 'slow' else ['ok', 0] for k in s['kids']]
    return s


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for i, op in enumerate(s['ops']):
        def put(**k):
            return dict(s, ops=s['ops'][:i] + [dict(op, **k)]
                        + s['ops'][i + 1:])
        for j in range(len(op.get('calls', []))):
            yield put(calls=op['calls'][:j] + op['calls'][j + 1:])
        for k in ('start', 'params'):
            if op[k] is not None:
                yield put(**{k: None})
        if op.get('host'):
            yield put(host={})
    for i, g in enumerate(s['graphs']):
        for p, d in g['nodes'].items():
            for j in range(len(d['lines'])):
                yield dict(s, graphs=s['graphs'][:i] + [dict(
                    g, nodes=dict(g['nodes'], **{p: dict(
                        d, lines=d['lines'][:j] + d['lines'][j + 1:])}))]
                    + s['graphs'][i + 1:])
            if d['attrs']:
                yield dict(s, graphs=s['graphs'][:i] + [dict(
                    g, nodes=dict(g['nodes'], **{p: dict(d, attrs={})}))]
                    + s['graphs'][i + 1:])
    for i, k in enumerate(s['kids']):
        if k[0] != 'ok':
            yield dict(s, kids=s['kids'][:i] + [['ok', 0]] + s['kids'][i + 1:])


# ---------------------------------------------------------------------------
def write_graph(work, i, g):
    nodes = {}
    world = g['world']
    if world is not None:
        nodes['/'] = {'attrs': {k: raw(v) for k, v in world.items()}}
    nodes.setdefault('/', {})['child_order'] = list(g['top'])
    if world is None:
        nodes['/'].pop('attrs', None)
    low = {}
    for p, d in g['nodes'].items():
        code = SEEN.format(marks=work + '/marks', path=p).split('\n')
        n = {'code': code + d['lines'],
             'attrs': {k: raw(v) for k, v in d['attrs'].items()}}
        if d['start']:
            n['start_point'] = True
        kids = [q.rsplit('/', 1)[1] for q in g['nodes']
                if q.rsplit('/', 1)[0] == p]
        if kids:
            n['child_order'] = kids
        if g['layered'] and p.count('/') == 1:
            # Code from a referenced layer
            low[p] = {'code': n.pop('code')}
        nodes[p] = n
    data = {'version': '1.17', 'alias': 'g', 'nodes': nodes}
    if low:
        graphs.write('{}/low{}.nxt'.format(work, i), {
            'version': '1.17', 'alias': 'low', 'nodes': low})
        data['references'] = ['./low{}.nxt'.format(i)]
    graphs.write('{}/g{}.nxt'.format(work, i), data)


def tagged(params, tag):
    out = dict(params or {})
    for t in 'abc':
        out['/{}.tag'.format(t)] = tag
    return out


def write_host(work, name, op, tag):
    """A graph that runs another one from a node."""
    path = 'g{}.nxt'.format(op['g'])
    if not op['relative']:
        path = work + '/' + path
    ref, node = (('remote_contexts', '/_remote_sub_graph')
                 if op['kind'] == 'node' else ('sub_graphs', '/_sub_graph'))
    attrs = {'_graph_path': raw(path)}
    if op['start'] is not None:
        attrs['_start'] = raw(op['start'])
    if op['kind'] == 'node' and op['context'] != 'python':
        attrs['_context'] = raw(op['context'])
    graphs.write('{}/{}.nxt'.format(work, name), {
        'version': '1.17', 'alias': 'h',
        'references': ['$NXT_BUILTINS/{}.nxt'.format(ref)],
        'nodes': {'/': {'child_order': ['r']},
                  '/r': {'start_point': True, 'instance': node,
                         'attrs': attrs}}})
    out = {'/r.' + k: v for k, v in op['host'].items()}
    out['/r._parameters'] = tagged(op['params'], tag)
    return out


def plain(v):
    """(v as JSON gives it back, True) or (None, False)."""
    try:
        return json.loads(json.dumps(v)), v is not None
    except TypeError:
        return None, False


def values(layer, skip=()):
    out = {}
    for path, node in layer.nodes.items():
        out[path] = {}
        for k, v in vars(node).items():
            if k.startswith('_') or k.endswith('__') or k.endswith('__nxt') \
                    or k in skip or '__nxt' in k:
                continue
            v, ok = plain(v)
            if ok:
                out[path][k] = v
    return out


def unlike(want, got):
    for p in sorted(set(want) | set(got)):
        if p not in got:
            return '{} is missing'.format(p)
        if p not in want:
            return '{} should not have run'.format(p)
        for k in sorted(set(want[p]) | set(got[p])):
            a, b = want[p].get(k, '(nothing)'), got[p].get(k, '(nothing)')
            if a != b or type(a) != type(b):
                return '{}.{} is {!r} instead of {!r}'.format(p, k, b, a)
    return None


def run(w, s):
    work, tmp = w.root + '/work', w.root + '/tmp'
    for i, g in enumerate(s['graphs']):
        write_graph(work, i, g)
    kids, made = [], [0]
    counts = {'ok': 0, 'failed': 0, 'remote': 0, 'same': 0}

    def before(p, kind):
        if kind != 'headless' or not w.faults_on:
            return
        i = made[0]
        made[0] += 1
        what, t = s['kids'][i] if i < len(s['kids']) else ('ok', 0)
        if what == 'ok':
            return
        w.fault('headless_' + what)
        if what == 'dead':
            raise SystemExit(3)
        if what == 'slow':
            w.block(None, t, 'slow')
        if what == 'dies':
            def die():
                w.block(None, t, 'dies')
                p.kill(-9)
            w.spawn(die, 'killer', daemon=True)

    w.spawn_handler = remote.runner(w, kids, before)
    w.net.no_timeout = True
    w.fs.allow = ('EIO', 'ENOSPC')
    w.fs.filter = lambda kind, path: str(path).startswith(tmp) \
        and 'NXT_RPC' not in str(path) and 'nxtlog' not in str(path) \
        and kind in ('open_r', 'open_w', 'read', 'write', 'rename', 'fsync')
    w.faults_on = False

    def faults():
        return sum(n for k, n in w.fault_counts.items()
                   if k != 'headless_slow')

    def marks(tag):
        try:
            with open(work + '/marks') as fp:
                lines = [x.split() for x in fp.read().splitlines()]
        except FileNotFoundError:
            return []
        return [x[1:] for x in lines if x[0] == tag]

    def local(call, tag, extra=None):
        """What a plain execution in this process does."""
        from nxt.stage import Stage
        from nxt.runtime import ExitGraph
        st = Stage.load_from_filepath('{}/g{}.nxt'.format(work, call['g']))
        params = tagged(call['params'], tag)
        params.update(extra or {})
        try:
            rt = st.execute(start=call['start'], parameters=params)
        except ExitGraph as e:
            return 'exit', values(e.runtime_layer.cache_layer, ('tag',))
        except Exception:
            return 'error', None
        return 'ok', values(rt.cache_layer, ('tag',))

    def check(what, call, tag, want, got, err, quiet, breaks, here):
        """One execution against the plain one."""
        outcome, expect = want
        ran = marks(tag)
        should = [x[0] for x in marks('local-' + tag)]
        w.log('checked', what, outcome, type(err).__name__)
        w.note_state(what, outcome, type(err).__name__, quiet)
        if err is not None:
            counts['failed'] += 1
            if outcome == 'ok' and quiet:
                raise Violation('failed', '{} failed, the same graph runs '
                                'when executed here: {!r}'.format(what, err),
                                what=what)
        else:
            counts['ok'] += 1
            if outcome == 'error':
                raise Violation('lost-error', '{} reports a graph as executed '
                                'that fails when executed here'.format(what),
                                what=what)
            if got is not None:
                bad = unlike(expect, got)
                if bad:
                    raise Violation('other-result', '{} gave another result '
                                    'than executing the graph here: {}'.format(
                                        what, bad), what=what)
                counts['same'] += 1
        paths = [x[0] for x in ran]
        if len({x[1] for x in ran}) > (1 if not breaks else 2):
            raise Violation('split', '{} ran in several '
                            'processes'.format(what), what=what)
        if ran and (ran[0][1] == str(os.getpid())) != here:
            raise Violation('place', '{} ran its graph in the wrong '
                            'process'.format(what), what=what)
        if ran and not here and s['init']:
            ready = ran[0][1] in [x[1] for x in marks('mine-init')]
            if ready != (call['context'] == 'mine'):
                raise Violation('wrong-context', '{} ran in another context '
                                'than {}'.format(what, call['context']),
                                what=what)
        if breaks:
            return
        if err is None and paths != should or \
                paths != should[:len(paths)]:
            raise Violation('order', '{} ran {} instead of {}'.format(
                what, paths, should), what=what)

    def body(p):
        import threading
        import nxt
        import nxt.constants as c
        from nxt.session import Session, RPCServerProcess
        from nxt.nxt_layer import CacheLayer
        from nxt.remote.client import NxtClient
        os.environ[c.NXT_DCC_ENV_VAR] = c.STANDALONE
        graph = None
        if s['init']:
            graph = work + '/ctx.nxt'
            graphs.write(graph, {
                'version': '1.17', 'alias': 'ctx',
                'references': ['$NXT_BUILTINS/_context.nxt'],
                'nodes': {'/enter/init': {'code': [
                    SEEN.format(marks=work + '/marks', path='init').replace(
                        '"none"', '"mine-init"')]}}})
        nxt.create_context('mine', context_graph=graph,
                           exe_script_args=list(s['args']))

        def nets():
            return sum(n for k, n in w.fault_counts.items()
                       if k.startswith('net:') and k not in (
                           'net:delay', 'net:fragment', 'net:short_send'))

        for n, op in enumerate(s['ops']):
            kind, tag = op['kind'], 't{}'.format(n)
            path = 'g{}.nxt'.format(op['g'])
            path = path if op['relative'] else work + '/' + path
            calls = op.get('calls') or [op]
            wants, extras = [], []
            host = op.get('host') or {}
            for j, call in enumerate(calls):
                extra = {'/.' + k: v for k, v in host.items()}
                t = '{}-{}'.format(tag, j)
                wants.append(local(call, 'local-' + t, extra))
            before_faults, before_nets = faults(), nets()
            w.log('op', kind)
            results = [(None, None)] * len(calls)
            w.faults_on = True
            if kind == 'context':
                results[0] = attempt(lambda: values(
                    Session().execute_graph(
                        path, start=op['start'], context=op['context'],
                        parameters=tagged(op['params'], tag + '-0')),
                    ('tag',)))
            elif kind == 'cli':
                results[0] = attempt(lambda: cli(op, path, tag + '-0'))
            elif kind in ('node', 'sub'):
                w.faults_on = False
                given = write_host(work, 'h{}'.format(n), op, tag + '-0')
                w.faults_on = True
                res, err = attempt(lambda: values(Session().execute_graph(
                    '{}/h{}.nxt'.format(work, n), parameters=given)
                    .cache_layer, ('ret',)))
                if err is None:
                    res = {'/': res.get('/r', {})}
                    res['/'].pop('tag', None)
                    # Everything the world of the sub graph got
                    if wants[0][1] is not None:
                        world = dict(wants[0][1].get('/', {}))
                        full = {k: plain(v)[0] for k, v in host.items()}
                        full.update(world)
                        wants[0] = ('ok', {'/': full})
                        # None and such can't be told apart from nothing
                        for k in list(full):
                            if k not in world and k not in host:
                                full.pop(k)
                elif wants[0][0] == 'exit':
                    wants[0] = ('ok', None)
                results[0] = (res, err)
            elif kind == 'batch':
                server, err = attempt(RPCServerProcess.start)
                if err is not None or server is None:
                    if faults() == before_faults:
                        raise Violation('failed', 'no server: {!r}'.format(
                            err))
                    w.faults_on = False
                    continue
                try:
                    ts = [threading.Thread(target=call_one, args=(
                        results, j, call, '{}-{}'.format(tag, j)))
                        for j, call in enumerate(calls)]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                    w.faults_on = False
                    held = [x for q, x in w.fs.fds.values()
                            if q.kind == 'server']
                    if held:
                        raise Violation('held-open', 'after {} executions '
                                        'the server holds {} files open'
                                        .format(len(calls), len(held)))
                finally:
                    w.faults_on = False
                    attempt(server.terminate)
            w.faults_on = False
            counts['remote'] += kind != 'sub'
            quiet = faults() == before_faults
            breaks = nets() != before_nets
            for j, call in enumerate(calls):
                res, err = results[j]
                check(kind, call, '{}-{}'.format(tag, j), wants[j], res, err,
                      quiet, breaks, kind == 'sub')

    def attempt(fn):
        try:
            return fn(), None
        except Exception as e:
            return None, e

    def cli(op, path, tag):
        from nxt import cli
        import sys
        pf = '{}/params-{}.json'.format(work, tag)
        with open(pf, 'w') as fp:
            json.dump(tagged(op['params'], tag), fp)
        argv = ['nxt', 'exec', path, '-c', op['context'], '-p', pf]
        if isinstance(op['start'], str):
            argv += ['-s', op['start']]
        sys.argv[:] = argv
        cli.main()

    def call_one(results, j, call, tag):
        from nxt.remote.client import NxtClient
        from nxt.nxt_layer import CacheLayer
        cache = None
        if call['cache']:
            cache = '{}/cache-{}.nxt'.format(work, tag)
        if call['cache'] == 'stale':
            graphs.write(cache, {'version': '1.17', 'nodes': {'/': {
                'attrs': {'y': {'value': 'stale'}}}}})

        def go():
            got = NxtClient().exec_in_headless(
                '{}/g{}.nxt'.format(work, call['g']), call['start'], cache,
                tagged(call['params'], tag), call['context'])
            if cache and os.path.realpath(got) != os.path.realpath(cache):
                raise Violation('cache-place', 'asked for the result in '
                                'another file')
            return values(CacheLayer.load_from_filepath(got), ('tag',))
        results[j] = attempt(go)

    host = SimProcess(w, 'host', cwd=work)
    t = host.start(body)
    clock = w.spawn(lambda: w.block(None, BOUND * len(s['ops']), 'clock'),
                    'clock')
    w.run(until=lambda: t.done or clock.done or host.dead)
    if t.exc is not None:
        raise t.exc
    if not t.done:
        raise Violation('stuck', 'an execution did not return')
    return dict(counts, nontrivial=counts['same'] > 0)
