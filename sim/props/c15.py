"""C15: running a graph never changes the graph that was authored."""
import json
import os

from .. import execsim, graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 1300, 'budget': 60, 'chunk': 25}
THOROUGH = {'cases': 80000, 'budget': 2400, 'chunk': 100}
RULE = ('Histories of calls on several runtime layers of the same random '
        'graph, with node code that changes values in place, sets STAGE '
        'attributes, creates names, fails, exits or is interrupted; after '
        'every call the authored layers, the composed graph, every other '
        'runtime layer and the files are compared with what they were; in '
        'the end the layers are saved and read back, the results saved and '
        'loaded, some of it with failing disk operations.')
REAL = ('nxt composition, execution, token resolving, console, cache layer, '
        'saver')
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['Node code does not edit the graph through __stage__.']
KINDS = execsim.CALM + ['app'] * 4 + ['stset', 'stset', 'point', 'point',
                                      'nest', 'try', 'glob']


def generate(rng, tier):
    g = execsim.gen_graph(rng, KINDS, n=rng.randrange(1, 6))
    paths = list(execsim.comp_paths(g))
    calls = []
    for _ in range(rng.randrange(2, 6)):
        rt = rng.choice([None, None, 0, 0, 1, 2])
        k = rng.choice(['setup', 'execute', 'execute', 'nodes', 'snippet'])
        if k == 'setup':
            calls.append([k, execsim.gen_params(rng, paths), None])
        elif k == 'execute':
            calls.append([k, execsim.gen_start(rng, g, paths),
                          execsim.gen_params(rng, paths), rt])
        elif k == 'nodes':
            calls.append([k, [rng.choice(paths) for _ in
                              range(rng.randrange(1, 4))],
                          execsim.gen_params(rng, paths), rt])
        else:
            calls.append([k, rng.choice(paths),
                          execsim.gen_ops(rng, paths, KINDS), rt])
    return {'graph': g, 'calls': calls, 'save': rng.random() < 0.5,
            'rates': {'node': rng.choice([0, 0.1, 0.4]),
                      'fs': rng.choice([0, 0.1])}}


shrink = execsim.shrink


def run(w, s):
    hooks = execsim.Hooks(w)
    work = w.root + '/work'
    was = {}

    def authored(player):
        st = player.stage
        return json.dumps(
            [[l.get_save_data() for l in st._sub_layers],
             util.snapshot(st, player.comp, resolved=True, sources=True)],
            default=str)

    def fresh(player):
        st = player.stage
        return json.dumps(util.snapshot(st, st.build_stage(), resolved=True,
                                        sources=True), default=str)

    def after(player, call, end, rt):
        if 'authored' not in was:
            return
        what = '{} ending with {}'.format(call[0], end[0])
        now = authored(player)
        if now != was['authored']:
            raise Violation('graph-changed', '{} changed the authored graph: '
                            '{}'.format(what, where(was['authored'], now)))
        now = fresh(player)
        if now != was['fresh']:
            raise Violation('graph-changed', 'after {} the graph composes '
                            'differently: {}'.format(
                                what, where(was['fresh'], now)))
        for i, x in enumerate(player.rts):
            seen = json.dumps(player.seen(x), default=str)
            if i < len(was['rts']) and x is not rt and was['rts'][i] != seen:
                raise Violation('other-run-changed', '{} on one runtime layer '
                                'changed another: {}'.format(
                                    what, where(was['rts'][i], seen)))
            was['rts'][i:i + 1] = [seen]
        if graphs.snapshot_tree(work) != was['files']:
            raise Violation('files-changed', '{} changed files'.format(what))

    player = execsim.Player(w, s, hooks, after)

    def body(p):
        from nxt.stage import Stage
        # What the graph is before anything has run
        path = execsim.write_graph(s['graph'], work)
        player.stage = Stage.load_from_filepath(path)
        player.comp = player.stage.build_stage()
        was.update(authored=authored(player), fresh=fresh(player), rts=[],
                   files=graphs.snapshot_tree(work))
        player.play(p)
        if not s['save']:
            return
        before = {k: [graphs.content(graphs.read(work + '/' + k))]
                  for k in was['files']}
        for l, d in zip(player.stage._sub_layers,
                        json.loads(was['authored'])[0]):
            before[os.path.basename(l.real_path)].append(graphs.content(d))
        w.fs.filter = lambda kind, q: str(q).startswith(work)
        w.faults_on = True
        try:
            for l in player.stage._sub_layers:
                try:
                    l.save()
                except OSError:
                    pass
        finally:
            w.faults_on = False
        for k in before:
            if graphs.content(graphs.read(work + '/' + k)) not in before[k]:
                raise Violation('saved-run', 'saving after a run wrote '
                                'something else than the authored graph to '
                                + k)
    w.faults_on = True
    w.fs.filter = lambda kind, q: False
    p = SimProcess(w, 'runner')
    hooks.install()
    try:
        t = p.run(body)
    finally:
        hooks.remove()
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'a call broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-300:])
    ends = [r['end'][0] for r in player.records]
    w.note_state(*ends)
    return {'calls': len(ends), 'runtime_layers': len(player.rts),
            'nontrivial': len(hooks.trace) > 0}


def where(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return '{!r} became {!r}'.format(a[max(0, i - 60):i + 40],
                                     b[max(0, i - 60):i + 40])
