"""C16: every run of a node is timed, however it ends."""
from .. import execsim
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 2500, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 120000, 'budget': 2400, 'chunk': 100}
RULE = ('Histories of calls on runtime layers of a random graph whose nodes '
        'take simulated time, are stalled, run more than once, run each '
        'other and themselves, fail, exit or are interrupted; a model with '
        'its own clock says how often each node ran and how long each run '
        'took, and the times kept with the runtime layer are compared with '
        'it after every call and while nodes run.')
REAL = 'nxt composition, execution, console, cache layer'
STUB = 'clock, disk calls (real scratch files behind a fault layer)'
ASSUMES = ['The clock does not go back while a node runs.',
           'Time passes only inside node code and between calls.']
KINDS = (['sleep'] * 5 + ['point', 'point', 'nest', 'try', 'try', 'try',
                          'raise', 'syntax', 'set', 'loc'])


def generate(rng, tier):
    g = execsim.gen_graph(rng, KINDS, n=rng.randrange(1, 5))
    paths = list(execsim.comp_paths(g))
    for p, d in g['nodes'].items():
        # nodes that run themselves, or each other in a circle
        if d.get('code') and rng.random() < 0.25:
            d['code'].insert(rng.randrange(1, len(d['code']) + 1), [
                'try', ['nest', [rng.choice([p, p, rng.choice(paths)])],
                        None]])
            d['code'].insert(rng.randrange(1, len(d['code']) + 1),
                             ['sleep', rng.choice([0.5, 3, 61.0])])
    calls = []
    if rng.random() < 0.8:
        calls.append(['setup', None, None])
    for _ in range(rng.randrange(1, 6)):
        rt = rng.choice([0, 0, 0, None])
        k = rng.choice(['execute', 'nodes', 'nodes', 'snippet'])
        if k == 'execute':
            calls.append([k, execsim.gen_start(rng, g, paths), None, rt])
        elif k == 'nodes':
            calls.append([k, [rng.choice(paths + ['/nowhere'] * (
                rng.random() < 0.05)) for _ in range(rng.randrange(1, 4))],
                None, rt])
        else:
            calls.append([k, rng.choice(paths),
                          execsim.gen_ops(rng, paths, KINDS)
                          if rng.random() < 0.9 else [], rt])
    return {'graph': g, 'calls': calls,
            'rates': {'node': rng.choice([0, 0.2, 0.5]),
                      'stall': rng.choice([0, 0.3])}}


shrink = execsim.shrink


def times(cache, path):
    """The times kept for a node, by index from the first and the last."""
    out, back = [], []
    for into, sign in ((out, 1), (back, -1)):
        while len(into) < 200:
            i = len(into) * sign - (sign < 0)
            try:
                into.append(cache.get_node_run_time(path, i))
            except ValueError:
                break
    if out != back[::-1]:
        raise Violation('wrong-times', 'the runs of {} took {} counted from '
                        'the first, {} from the last'.format(
                            path, out, back[::-1]))
    return [round(t, 3) for t in out]


def run(w, s):
    w.per_op = 0.0
    hooks = execsim.Hooks(w)
    kept = []

    def after(player, call, end, rt):
        if rt is None:
            kept.append(None)
            return
        kept.append((player.rts.index(rt),
                     [(times(rt.cache_layer, x), x) for x in player.paths]))
        # The times between runs and well before and after all of them
        now = w.wall()
        for t in (0.0, w.EPOCH - 1, now + 0.5, now + 1e6):
            if rt.cache_layer.was_during_node_exec(t):
                raise Violation('wrong-during', 'after {} ended with {} a '
                                'node is said to run at {} (now {})'.format(
                                    call[0], end[0], t, now))

    player = execsim.Player(w, s, hooks, after)
    p = SimProcess(w, 'runner')
    hooks.install()
    try:
        t = p.run(player.play)
    finally:
        hooks.remove()
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'a call broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-300:])
    if not all(hooks.marks):
        raise Violation('wrong-during', 'no node is said to run while one '
                        'does')
    n = 0
    for i, (rec, end, trace, rts) in enumerate(execsim.model_play(
            s, hooks, player.records)):
        if kept[i] is None:
            continue
        what = '{} ending with {}'.format(rec['call'][0], rec['end'][0])
        at, found = kept[i]
        if at >= len(rts):
            raise Violation('wrong-times', what + ' returned a runtime layer')
        for got, path in found:
            want = [round(b - a, 3) for q, a, b in rts[at].times
                    if q == path]
            if got != want:
                raise Violation('wrong-times', 'after {} the runs of {} took '
                                '{} instead of {}'.format(what, path, got,
                                                          want))
            n += len(got)
    # Whether a node ran at the edges of every run and halfway between runs
    for rt, m in zip(player.rts, rts if player.records else []):
        edges = sorted(set(x for _, a, b in m.times for x in (a, b)))
        probe = edges + [(a + b) / 2 for a, b in zip(edges, edges[1:])]
        for t in probe:
            want = any(a <= t <= b for _, a, b in m.times)
            got = bool(rt.cache_layer.was_during_node_exec(t))
            if want != got:
                raise Violation('wrong-during', 'a node is said {}to have run '
                                'at {}, the runs were {}'.format(
                                    '' if got else 'not ', t, m.times))
    for r in player.records:
        w.note_state(r['end'][0], len(hooks.slept))
    return {'calls': len(player.records), 'runs_timed': n,
            'nontrivial': n > 1 and len(hooks.slept) > 0}
