"""C01: an interrupted or failing save leaves the old or the new file."""
import json
import os
import stat

from .. import core, graphs, util
from ..core import SimCrash, Violation
from ..proc import SimProcess

LEVEL = 'fault_enumeration'
QUICK = {'cases': 130, 'budget': 60, 'chunk': 8}
THOROUGH = {'cases': 6000, 'budget': 3000, 'chunk': 20}
SWEEP = {'quick': 8, 'thorough': 250}
RULE = ('Random graphs are opened, edited and saved (in place, to a new '
        'path, through a session, as runtime results) by a simulated '
        'process; then the same session is re-run once per (disk operation, '
        'fault) pair: death before/in the middle of/after the operation, '
        'full disk, I/O error, permission error, short write.')
REAL = 'nxt (all of it), json, logging, tempfile'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['process death, not power loss: completed system calls persist',
           'rename within one directory is atomic']

KINDS = ['save', 'save', 'save', 'save_as', 'save_as', 'session_save',
         'cache_save', 'save_data', 'edit', 'edit', 'unserialisable', 'binary',
         'lost', 'replaced']


def generate(rng, tier):
    files = []
    for i in range(rng.randrange(1, 3)):
        files.append({'name': 'g{}.nxt'.format(i),
                      'data': graphs.layer(rng, 'g{}'.format(i),
                                           big=rng.choice([0, 0, 0, 150])),
                      'mode': rng.choice([0o644, 0o644, 0o600, 0o664]),
                      'link': rng.random() < 0.25})
    ops = []
    kinds = KINDS
    if rng.random() < 0.4:
        kinds = [rng.choice(KINDS[:8] + ['binary']),
                 rng.choice(KINDS + ['lost'] * 4)]
        kinds += kinds[:1]
    for _ in range(rng.randrange(2, 6)):
        k = rng.choice(kinds)
        ops.append({'op': k, 'file': rng.randrange(len(files)),
                    'tag': 'v{}'.format(rng.randrange(10 ** 6)),
                    'to': rng.choice(['new_a.nxt', 'new_b.nxt',
                                      'sub/new_c.nxt', 'g0.nxt']),
                    'big': rng.choice([0, 0, 400]),
                    'same': rng.random() < 0.35})
        if k in ('lost', 'replaced') and rng.random() < 0.7:
            ops.insert(len(ops) - 1, dict(ops[-1], op='save'))
            ops.append(dict(ops[-2], same=True))
    if rng.random() < 0.04:
        ops[0]['big'] = 20000
    ops.append({'op': 'save', 'file': 0, 'tag': 'last',
                'to': '', 'big': 0})
    return {'files': files, 'ops': ops,
            'rate': rng.choice([0.0, 0.0, 0.0, 0.03]),
            'write_limit': rng.choice([None, None, 1000])}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for i, f in enumerate(s['files']):
        for d in graphs.fewer_nodes(f['data']):
            fs = list(s['files'])
            fs[i] = dict(f, data=d)
            yield dict(s, files=fs)


def sweep(scenario, base, rng, tier):
    return util.fs_sweep(base, rng, SWEEP[tier])


class Model(object):
    """What each file is allowed to contain."""

    def __init__(self):
        self.ok = {}        # path -> list of acceptable parsed contents
        self.acked = 0
        self.failed = 0

    def settle(self, path, content):
        self.ok[path] = [content]

    def allow(self, path, content):
        self.ok.setdefault(path, [None])
        self.ok[path] = self.ok[path] + [content]


def jsonable(d):
    return json.loads(json.dumps(d))


def run(w, s):
    work = w.root + '/work'
    os.mkdir(work + '/sub')
    os.mkdir(work + '/real')
    model = Model()
    paths = []
    for f in s['files']:
        p = work + '/' + f['name']
        if f['link']:
            graphs.write(work + '/real/' + f['name'], f['data'])
            os.symlink(work + '/real/' + f['name'], p)
            os.chmod(work + '/real/' + f['name'], f['mode'])
        else:
            graphs.write(p, f['data'])
            os.chmod(p, f['mode'])
        paths.append(p)
        model.settle(os.path.realpath(p), f['data'])
    w.fs.raw_write_limit = s.get('write_limit')
    w.fs.filter = lambda kind, path: kind in (
        'open_w', 'write', 'rename', 'remove', 'fsync', 'truncate', 'chmod',
        'close', 'link') and str(path).startswith(work)
    current = {}        # the save in flight
    modes = {os.path.realpath(p): f['mode'] for f, p in zip(s['files'], paths)}

    def body(p):
        import nxt
        from nxt.session import Session
        from nxt import nxt_io
        sess = Session()
        stages = []
        for path in paths:
            stages.append(sess.load_file(path))
        for op in s['ops']:
            st = stages[op['file'] % len(stages)]
            layer = st.top_layer
            kind = op['op']
            node = '/' + op['tag']
            if kind in ('lost', 'replaced'):
                # Somebody else removes or overwrites the file
                path = os.path.realpath(layer.real_path)
                want = None
                if kind == 'replaced':
                    want = {'version': '1.17', 'nodes': {}}
                    graphs.write(path, want)
                elif os.path.exists(path):
                    os.remove(path)
                model.settle(path, want)
                modes.pop(path, None)
                continue
            if not op.get('same') or kind == 'unserialisable':
                st.add_node(name=op['tag'], layer=0, data={
                    'attrs': {'val': {'type': 'str',
                                      'value': repr(op['tag'])}},
                    'code': ['# filler ' + 'y' * 50] * op['big']})
            if kind == 'edit':
                continue
            target = layer.real_path
            call = None
            if kind == 'save':
                def call():
                    return layer.save()
            elif kind == 'session_save':
                def call():
                    sess.save_layer(layer)
            elif kind == 'save_as':
                target = work + '/' + op['to']

                def call():
                    return layer.save(filepath=target)
            elif kind == 'cache_save':
                from nxt.nxt_layer import CacheLayer
                cache = CacheLayer()
                frame = type('frame', (), {'val': op['tag'],
                                           'n': [1, 2, {'k': op['tag']}]})
                cache.add_node(node, frame)
                target = work + '/cache.nxt'

                def call():
                    return cache.save(target)
            elif kind in ('save_data', 'binary'):
                data = {'version': '1.17', 'nodes': {node: {
                    'comment': op['tag'], 'code': ['x' * 70] * op['big']}}}
                target = work + ('/data.nxt' if kind == 'save_data'
                                 else '/data.nxtb')

                fmt = '.nxt' if kind == 'save_data' else '.nxtb'

                def call():
                    return nxt_io.save_file_data(data, target, fmt)
            elif kind == 'unserialisable':
                def call():
                    return layer.save()
            if kind in ('save_data', 'binary'):
                want = data
            elif kind == 'cache_save':
                want = jsonable(cache.get_save_data())
            elif kind == 'unserialisable':
                st_node = layer.lookup(node)
                setattr(st_node, '_code', [object()])
                want = None
            else:
                want = jsonable(layer.get_save_data())
            key = os.path.realpath(target)
            old_real = layer.real_path
            faults_before = len(w.fs.fault_log)
            before = set(os.listdir(os.path.dirname(target)))
            if want is not None:
                model.allow(key, want)
            current.update(path=key, want=want)
            w.log('save', kind, os.path.basename(key))
            err = None
            w.faults_on = True
            try:
                call()
            except OSError as e:
                err = e
            finally:
                w.faults_on = False
            if kind == 'unserialisable':
                setattr(st_node, '_code', ['# fine again'])
                verdict(w, model, 'refused-save-changed-file',
                        'a save of data that cannot be stored')
                continue
            hit = w.fs.fault_log[faults_before:]
            if err is None:
                model.acked += 1
                model.settle(key, want)
                verdict(w, model, 'acknowledged-save-not-on-disk',
                        'a save that reported success')
            else:
                model.failed += 1
                got = verdict(w, model, 'failed-save-damaged-file',
                              'a save that reported an error ({})'.format(
                                  type(err).__name__))
                if not hit:
                    raise Violation('spurious-save-error', 'saving {} failed '
                                    'with {!r} though no fault was injected'
                                    .format(w.fs.rel(key), err))
                if not any(h[0] == 'remove' for h in hit):
                    after = set(os.listdir(os.path.dirname(target)))
                    extra = after - before - {os.path.basename(target)}
                    if extra:
                        raise Violation(
                            'failed-save-left-files', 'a failed save of {} '
                            'left {} behind'.format(w.fs.rel(key),
                                                    sorted(extra)))
                if kind == 'save_as' and layer.real_path != old_real \
                        and got.get(key) != want:
                    raise Violation(
                        'failed-save-as-redirects', 'after a failed save to '
                        '{} the layer saves there'.format(w.fs.rel(key)))
                # Nothing about the failure may stop the next attempt
                call()
                model.settle(key, want)
                verdict(w, model, 'retried-save-not-on-disk',
                        'a retried save')
            current.clear()
        return True

    p1 = SimProcess(w, 'editor')
    t = p1.run(body)
    if isinstance(t.exc, Violation):
        raise t.exc
    if t.exc is not None and not p1.crashed:
        raise Violation('save-raised', 'saving broke with {!r}'.format(t.exc),
                        error=type(t.exc).__name__)
    # Whatever happened, look at the disk, then reopen it in a new process
    verdict(w, model, 'crash-damaged-file', 'a crash while saving')
    for f, path in zip(s['files'], paths):
        if p1.crashed:
            break
        if os.path.realpath(path) not in modes:
            continue
        mode = stat.S_IMODE(os.stat(path).st_mode)
        if mode != f['mode']:
            raise Violation('save-changed-permissions', 'saving changed the '
                            'permissions of {} from {:o} to {:o}'.format(
                                w.fs.rel(path), f['mode'], mode))
        if f['link'] and not os.path.islink(path):
            raise Violation('save-replaced-link', 'saving through the link '
                            '{} replaced it by a file'.format(
                                w.fs.rel(path)))

    def reopen(p):
        from nxt.stage import Stage
        for path in paths:
            if os.path.isfile(path):
                Stage.load_from_filepath(path).build_stage()

    w.faults_on = False
    p2 = SimProcess(w, 'reopen')
    t = p2.run(reopen)
    if t.exc is not None:
        raise Violation('reopen-failed', 'after the run a graph does not '
                        'open: {!r}'.format(t.exc))
    w.note_state(p1.crashed, model.acked, model.failed,
                 tuple(x[0] + x[2] for x in w.fs.fault_log))
    return {'acknowledged_saves': model.acked, 'failed_saves': model.failed,
            'crashes': int(p1.crashed)}


def verdict(w, model, kind, what):
    got = {}
    for path, ok in model.ok.items():
        c = got[path] = graphs.read(path)
        if not any(c == o for o in ok):
            raise Violation(kind, 'after {} {} holds {}; it should hold {}'
                            .format(what, w.fs.rel(path), short(c),
                                    ' or '.join(short(o) for o in ok[-2:])),
                            file=os.path.basename(path))
    return got


def short(c):
    if c is None:
        return 'nothing (no file)'
    if isinstance(c, str):
        return c
    return 'a graph with nodes {}'.format(sorted(c.get('nodes', {})))[:160]
