"""C14: carrying on with a runtime layer after any ending."""
from .. import execsim
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 3000, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 150000, 'budget': 2400, 'chunk': 100}
RULE = ('Histories of calls on one or two runtime layers of a random graph '
        '(execute, execute some nodes, run a snippet; with parameters and '
        'nested execution) in which node code fails, exits or is interrupted '
        'at seeded points; a model says what each call ends with and what '
        'the next one finds.')
REAL = 'nxt composition, execution, token resolving, console, cache layer'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['Interrupts arrive while node code runs.',
           'Values are plain data.']
KINDS = execsim.CALM + ['point'] * 5 + ['nest', 'try', 'try', 'loc', 'loc',
                                        'glob', 'raise', 'syntax']


def generate(rng, tier):
    g = execsim.gen_graph(rng, KINDS, n=rng.randrange(1, 5))
    paths = list(execsim.comp_paths(g))
    calls = [['setup', execsim.gen_params(rng, paths), None]]
    if rng.random() < 0.3:
        calls.append(['setup', None, None])
    for _ in range(rng.randrange(1, 7)):
        rt = rng.choice([0, 0, 1, None if rng.random() < 0.3 else 0])
        k = rng.choice(['execute', 'nodes', 'nodes', 'snippet'])
        if k == 'execute':
            calls.append([k, execsim.gen_start(rng, g, paths),
                          execsim.gen_params(rng, paths), rt])
        elif k == 'nodes':
            calls.append([k, [rng.choice(paths + ['/nowhere'] * (
                rng.random() < 0.05)) for _ in range(rng.randrange(1, 4))],
                execsim.gen_params(rng, paths), rt])
        else:
            calls.append([k, rng.choice(paths),
                          execsim.gen_ops(rng, paths, KINDS)
                          if rng.random() < 0.9 else [], rt])
    # Look at what is left
    calls.append(['snippet', paths[0], [['probe']], 0])
    return {'graph': g, 'calls': calls,
            'rates': {'node': rng.choice([0.1, 0.3, 0.6])}}


shrink = execsim.shrink


def run(w, s):
    hooks = execsim.Hooks(w)

    def after(player, call, end, rt):
        if hooks.idle:
            raise Violation('not-running', 'code of {} runs but the runtime '
                            'layer does not say so'.format(hooks.idle))
        for x in player.rts:
            if getattr(x, 'running', False):
                raise Violation('still-running', '{} ended with {} but the '
                                'runtime layer says it is running'.format(
                                    call[0], end[0]))
    player = execsim.Player(w, s, hooks, after)
    p = SimProcess(w, 'runner')
    hooks.install()
    try:
        t = p.run(player.play)
    finally:
        hooks.remove()
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'a call broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-300:])
    execsim.check(s, hooks, player.records)
    ends = [r['end'][0] for r in player.records]
    w.note_state(*ends)
    return {'calls': len(ends), 'failed_calls': sum(e != 'done' for e in ends),
            'interrupted': ends.count('KeyboardInterrupt'),
            'nontrivial': any(e != 'done' for e in ends)}
