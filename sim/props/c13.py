"""C13: what the nodes of a graph see and leave behind when it runs."""
from .. import execsim
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 3500, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 150000, 'budget': 2400, 'chunk': 100}
RULE = ('Random graphs (hierarchy, instances, two layers, disabled nodes, '
        'execute-in chains) whose node code comes from a small language are '
        'executed by nxt, with parameters and nested execution, while errors '
        'and exits strike inside node code; a model of a few classes says '
        'which node runs when, with which values and names, what it leaves '
        'behind and how the run ends.')
REAL = 'nxt composition, execution, token resolving, console, cache layer'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['Values are plain data; node code fails only where it raises.']
KINDS = execsim.ROUGH
FAULTS = execsim.FAULTS[:-1]


def generate(rng, tier):
    g = execsim.gen_graph(rng, KINDS)
    paths = list(execsim.comp_paths(g))
    calls = []
    for _ in range(rng.randrange(1, 3)):
        if rng.random() < 0.75:
            start = execsim.gen_start(rng, g, paths)
            calls.append(['execute', start, execsim.gen_params(rng, paths),
                          None])
        else:
            calls.append(['nodes', [rng.choice(paths) for _ in
                                    range(rng.randrange(1, 4))],
                          execsim.gen_params(rng, paths), None])
    return {'graph': g, 'calls': calls,
            'rates': {'node': rng.choice([0, 0.1, 0.4])}}


shrink = execsim.shrink


def run(w, s):
    hooks = execsim.Hooks(w, FAULTS)
    player = execsim.Player(w, s, hooks)
    p = SimProcess(w, 'runner')
    hooks.install()
    try:
        t = p.run(player.play)
    finally:
        hooks.remove()
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'a call broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-300:])
    execsim.check(s, hooks, player.records)
    for r in player.records:
        w.note_state(r['end'][0], len(r['trace']))
    runs = sum(1 for e in hooks.trace if e[0] == 'at')
    return {'calls': len(player.records), 'node_runs': runs,
            'nested': hooks.nests, 'nontrivial': runs > 1}
