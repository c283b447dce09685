"""C19: temp copies of a graph, as it is now, for something else to use."""
import copy
import os
import random

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess
from . import c18

LEVEL = 'exploration'
QUICK = {'cases': 380, 'budget': 60, 'chunk': 15}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 50}
SWEEP = {'quick': 1, 'thorough': 30}
RULE = ('Random trees of up to seven layers in several folders, with equal '
        'file names, references of every kind, overrides and unsaved edits, '
        'copied from any layer down to new or used folders, copies of copies too, with failing '
        'disks and deaths; every copy is opened by another process.')
REAL = 'nxt stage, layers, composition, tokens, loading and saving'
STUB = 'disk calls (scratch files, fault layer), clock'
ASSUMES = ['Process death, not power loss.',
           'The folder given is not one the graph itself is in.']

DIRS = ['', '', 'a', 'b', 'a/c', 'x y']
FILES = ['g.nxt', 'g.nxt', 'h.nxt', 'G.nxt', 'g_1.nxt', 'g.v2.nxt', 'h']
TOKENS = ['${file::data.txt}', '${path::sub/q}', '${file::../data.txt}',
          '${contents::${file::data.txt}}', '${x}', '${file::${y}}',
          '${file::a/data.txt}', 'data.txt', '${/a.x}']
PLAIN = ['data.txt', '../data.txt', 'a/data.txt', 'nothing']


def generate(rng, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5, 7])
    parents = [None] + [rng.randrange(i) for i in range(1, n)]
    layers = []
    used = set()
    for i in range(n):
        d = c18.gen_layer(rng, 'L%d' % i)
        for p in d['nodes']:
            if rng.random() < 0.4:
                a = rng.choice('fghy')
                d['nodes'][p].setdefault('attrs', {})[a] = {
                    'type': 'raw', 'value': rng.choice(
                        TOKENS if a != 'y' else PLAIN)}
        while True:
            where = [rng.choice(DIRS), rng.choice(FILES)]
            if where[1] == 'h':
                where[1] = 'h%d.nxt' % i
            if '/'.join(where) not in used:
                used.add('/'.join(where))
                break
        extra = []
        if rng.random() < 0.2:
            extra.append(rng.choice(['missing', 'missing', 'cycle', 'empty']))
        layers.append({'data': d, 'where': where, 'extra': extra,
                       'ref': rng.choice(['rel', 'rel', 'rel', 'abs', 'env'])})
    over = []
    for i in range(n):
        if rng.random() < 0.35:
            over.append([i, rng.randrange(n), rng.random() < 0.6,
                         rng.random() < 0.3])
    kinds = ['attr', 'attr', 'mute', 'solo', 'over', 'temp', 'temp', 'temp',
             'save', 'become']
    ops = [[rng.choice(kinds), rng.randrange(1 << 20)]
           for _ in range(rng.randrange(1, 8))] + [
               ['temp', rng.randrange(1 << 20)]]
    mode = rng.choice(['plain', 'plain', 'faults', 'crash'])
    return {'parents': parents, 'layers': layers, 'over': over, 'ops': ops,
            'mode': mode, 'rates': {
                'fs': {'plain': 0, 'faults': 0.08, 'crash': 0.05}[mode]},
            'max_steps': 100000}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for i in range(len(s['over'])):
        yield dict(s, over=s['over'][:i] + s['over'][i + 1:])
    n = len(s['layers'])
    if n > 1 and n - 1 not in s['parents'] and \
            all(n - 1 not in o[:2] for o in s['over']):
        yield dict(s, layers=s['layers'][:-1], parents=s['parents'][:-1])
    for i, l in enumerate(s['layers']):
        def put(**k):
            return dict(s, layers=s['layers'][:i] + [dict(l, **k)] +
                        s['layers'][i + 1:])
        if l['extra']:
            yield put(extra=[])
        for p in sorted(l['data']['nodes'], reverse=True):
            nodes = {q: v for q, v in l['data']['nodes'].items() if q != p}
            if nodes:
                yield put(data=dict(l['data'], nodes=nodes))
            for k in sorted(l['data']['nodes'][p]):
                node = {q: v for q, v in l['data']['nodes'][p].items()
                        if q != k}
                yield put(data=dict(l['data'], nodes=dict(
                    l['data']['nodes'], **{p: node})))


def sweep(scenario, base, rng, tier):
    if scenario['mode'] == 'plain':
        return []
    return util.fs_sweep(base, rng, SWEEP[tier])


def look(stage, comp, layers):
    """What there is to see of a graph, wherever its files are."""
    if comp.failure:
        raise Violation('temp-comp', 'composing failed', why=comp.failure)
    files = {l.real_path: i for i, l in enumerate(layers)}
    out = c18.seen(stage, comp)
    for p in out:
        node = comp.lookup(p)
        for a, v in out[p]['attrs'].items():
            v[3][0] = files.get(v[3][0], v[3][0])
            v.append(stage.get_node_attr_value(node, a, comp))
    # Compared with what another process sees
    import json
    return json.loads(json.dumps({
        'nodes': out,
        'order': {p: c18.names(comp, p) for p in out if p != '/'},
        'layers': [[l.get_alias(local=True), bool(l.get_muted()),
                    bool(l.get_soloed()), l.get_cwd(), l.color]
                   for l in layers],
        'cwd': comp.get_cwd() if out else None}, sort_keys=True))


def run(w, s):
    work = w.root + '/work'
    counts = {'copies': 0, 'failed': 0, 'died': 0, 'opened': 0, 'edits': 0,
              'reused': 0, 'below': 0, 'became': 0, 'same_names': 0}
    env = {'HOME': w.root + '/home', 'PATH': '/usr/bin:/bin',
           'LANG': 'C.UTF-8', 'NXT_USER_DIR': w.root + '/user',
           'TMPDIR': w.root + '/tmp', 'GRAPHS': work}
    for d in ('', 'a', 'b', 'a/c', 'x y', 'a/a'):
        top = os.path.join(work, d)
        if not os.path.isdir(top):
            os.mkdir(top)
        if d != 'b':
            with open(top + '/data.txt', 'w') as fp:
                fp.write('in [%s]' % d)
    paths = [os.path.normpath(os.path.join(work, *l['where']))
             for l in s['layers']]
    refs = []
    for i, l in enumerate(s['layers']):
        up = s['parents'][i]
        base = os.path.dirname(paths[up]) if up is not None else work
        refs.append({'rel': os.path.relpath(paths[i], base), 'abs': paths[i],
                     'env': '$GRAPHS/' + os.path.relpath(paths[i], work)
                     }[l['ref']])
    for i, l in enumerate(s['layers']):
        data = copy.deepcopy(l['data'])
        data['references'] = [refs[j] for j in range(len(paths))
                              if s['parents'][j] == i]
        for k, e in enumerate(l['extra']):
            up = s['parents'][i]
            if e == 'cycle' and up is None:
                continue
            data['references'].insert(i % 2 * k, {
                'missing': 'sub/nothere.nxt', 'empty': 'd/empty.nxt',
                'cycle': paths[up or 0]}[e])
        overs = {refs[j]: {'mute': m, 'solo': so}
                 for k, j, m, so in s['over'] if k == i and j != i}
        if overs:
            data['comp_overrides'] = overs
        graphs.write(paths[i], data)
    counts['same_names'] = len(paths) > len({os.path.basename(p).lower()
                                             for p in paths})
    w.fs.allow = ('crash', 'crash_after', 'crash_torn') \
        if s['mode'] == 'crash' else ('EIO', 'EACCES', 'ENOSPC',
                                      'torn_ENOSPC', 'EROFS')
    w.fs.filter = lambda kind, path: kind in (
        'open_w', 'write', 'rename', 'fsync', 'close', 'mkdir')
    w.faults_on = False
    outs = [w.root + '/out0', w.root + '/out1']
    for o in outs:
        os.mkdir(o)
    copies = []     # (path of the copy, what it has to show)
    state = {'left': len(s['ops'])}

    def originals():
        return {p: open_read(p) for p in paths}

    def open_read(p):
        with open(p, 'rb') as fp:
            return fp.read()

    def life(p, ops):
        from nxt.session import Session
        stage = Session().load_file(paths[0])
        for op, seed in ops:
            rng = random.Random(seed)
            state['left'] -= 1
            if op == 'become':
                # A copy is a graph like any other, and gets copied itself
                if copies:
                    stage = Session().load_file(rng.choice(copies)[0])
                    counts['became'] += 1
                continue
            apply(stage, op, rng)

    def apply(stage, op, rng):
        i = rng.randrange(len(stage._sub_layers))
        layer = stage._sub_layers[i]
        v = rng.random() < 0.5
        if op == 'attr':
            nodes = sorted(q for q in layer.descendants())
            if not nodes:
                return
            node = layer.lookup(rng.choice(nodes))
            a = rng.choice('xyfz')
            value = rng.choice((TOKENS if a == 'f' else PLAIN) +
                               ['edited %d' % rng.randrange(99)])
            if a in stage.get_node_attr_names(node):
                stage.node_setattr_data(node, a, layer, False, value=value)
            else:
                stage.add_node_attr(node, a, {'value': value, 'type': 'raw'},
                                    layer)
            counts['edits'] += 1
        elif op in ('mute', 'solo'):
            (layer.set_muted if op == 'mute' else layer.set_soloed)(v)
        elif op == 'over':
            if i:
                stage.top_layer.set_mute_over(layer.filepath, v)
                stage.top_layer.set_solo_over(layer.filepath,
                                              rng.random() < 0.3)
        elif op == 'save':
            layer.save()
            copies[:] = [c for c in copies if os.path.dirname(c[0]) !=
                         os.path.dirname(layer.real_path)]
        else:
            temp(stage, rng)

    def temp(stage, rng):
        k = rng.choice([0, 0, 0, rng.randrange(len(stage._sub_layers))])
        comp = stage.build_stage(from_idx=k)
        layers = stage._sub_layers[k:]
        want = look(stage, comp, layers)
        files = originals()
        mem = [graphs.dump(l.get_save_data()) for l in stage._sub_layers]
        here = [os.path.dirname(l.real_path) for l in stage._sub_layers]
        out = rng.choice([None, None] + [o for o in outs if o not in here])
        if out:
            counts['reused'] += bool(os.listdir(out))
        counts['below'] += bool(k)
        # What else is there stays, but what a copy replaces is gone
        for c in list(copies):
            if out and os.path.dirname(c[0]) == out:
                copies.remove(c)
        w.faults_on = True
        was = sum(w.fault_counts.values())
        try:
            path = stage.save_to_temp(comp, output_dir=out)
        except OSError as e:
            counts['failed'] += 1
            if sum(w.fault_counts.values()) == was:
                raise Violation('temp-failed', 'a temp copy failed with '
                                'nothing wrong: {!r}'.format(e))
            path = None
        finally:
            w.faults_on = False
        if originals() != files:
            raise Violation('temp-originals', 'a temp copy changed the '
                            'files of the graph')
        if mem != [graphs.dump(l.get_save_data())
                   for l in stage._sub_layers]:
            raise Violation('temp-originals', 'a temp copy changed the open '
                            'layers')
        again = look(stage, stage.build_stage(from_idx=k), layers)
        if again != want:
            raise Violation('temp-originals', 'a temp copy changed the graph')
        if path is None:
            return
        counts['copies'] += 1
        if out and os.path.dirname(path) != out:
            raise Violation('temp-place', 'the copy is not in the folder '
                            'given', path=path)
        if os.path.dirname(path) in here + [os.path.dirname(q)
                                            for q in paths]:
            raise Violation('temp-place', 'the copy is with the originals')
        if any(os.path.dirname(path) == os.path.dirname(c[0])
               for c in copies):
            raise Violation('temp-place', 'two copies in one folder')
        copies.append((path, want))

    def opener(p):
        from nxt.session import Session
        for path, want in copies:
            stage = Session().load_file(path)
            counts['opened'] += 1
            got = look(stage, stage.build_stage(), stage._sub_layers)
            here = os.path.dirname(path)
            for l in stage._sub_layers:
                if os.path.dirname(l.real_path) != here:
                    raise Violation('temp-leads-out', 'a copy leads to '
                                    'other files than copies',
                                    path=l.real_path)
            for k in ('layers', 'cwd', 'order'):
                if got[k] != want[k]:
                    raise Violation('temp-' + k, 'the copy says {}, not {}'
                                    .format(got[k], want[k]))
            c18.differ(want['nodes'], got['nodes'], 'the copy')
            w.note_state(len(stage._sub_layers), len(want['nodes']))

    n = 0
    while state['left']:
        ops = s['ops'][len(s['ops']) - state['left']:]
        files = originals()
        p = SimProcess(w, 'life%d' % n, environ=dict(env), cwd=work)
        t = p.run(lambda p: life(p, ops))
        w.faults_on = False
        check_end(p, t)
        if p.crashed:
            counts['died'] += 1
            if not any(o[0] == 'save' for o in ops) and \
                    originals() != files:
                raise Violation('temp-originals', 'a death while copying '
                                'changed the files of the graph')
        n += 1
    p = SimProcess(w, 'other', environ=dict(env), cwd=w.root + '/tmp')
    check_end(p, p.run(opener))
    return dict(counts, nontrivial=counts['copies'] > 0)


def check_end(p, t):
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'copying broke with {!r}'.format(t.exc),
            error=type(t.exc).__name__, where=p.tracebacks[-1][-400:])
