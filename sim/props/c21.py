"""C21: running graphs from the command line."""
import copy
import json
import os

from .. import execsim, graphs
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 1500, 'budget': 60, 'chunk': 25}
THOROUGH = {'cases': 80000, 'budget': 2400, 'chunk': 100}
RULE = ('Command lines of nxt (exec with and without a start node, '
        'parameters in line or in a file, arguments after "--", the old form '
        'without exec, and mistyped ones) run random graphs from random '
        'working directories, one after another or at the same time, while '
        'node code fails, exits or is interrupted and reading the graph or '
        'the parameters meets disk faults or damaged files; a model of the '
        'run says which nodes run with which values, and the exit status '
        'says whether the graph finished.')
REAL = ('command line, session, nxt composition, execution, token resolving, '
        'console')
STUB = 'disk calls (real scratch files behind a fault layer), clock, exit'
ASSUMES = ['The status of a run that ended with exit_graph is not judged.',
           'Values are plain data; node code fails only where it raises.']
KINDS = execsim.ROUGH * 2 + ['syntax', 'sleep', 'sleep']
WORDS = ['w', ' padded ', 'two\nlines', '5', '-5', '0', '', 'two words',
         '/a.b', 'x=1', '[1, 2]',
         "{'k': 1}", 'None', '"quoted"', 'caf\u00e9', '1.50', '007', 'exec',
         '/n0', '# c', "it's"]
DAMAGE = ['torn', 'bytes', 'list', 'text', 'gone', 'folder', 'empty']
WRONG = ['odd', 'nokey', 'context', 'nxtcontext', 'verb', 'legacyflag',
         'flag', 'nopath', 'twopaths']


def own(g, p):
    d = dict(g['nodes'].get(p, {}).get('attrs', {}))
    d.update(g['over'].get(p, {}).get('attrs', {}))
    if p == '/':
        d = dict((g['world'] or {}).get('attrs', {}))
    return d


def repeat(rng, g, paths):
    """Parameters that give a node what it inherits and change its source."""
    found = []
    for p in paths:
        q = p
        while True:
            q = execsim.parent_of(q) or '/'
            found += [[p + '.' + a, v, q + '.' + a] for a, v in
                      sorted(own(g, q).items())
                      if a in execsim.ATTRS and a not in own(g, p)
                      and isinstance(v, str) and '$' not in v]
            if q == '/':
                break
    if not found:
        return []
    a, v, b = rng.choice(found)
    pair = [[a, v], [b, rng.choice(WORDS)]]
    return pair if rng.random() < 0.7 else pair[::-1]


def gen_call(rng, g, paths):
    n = len(execsim.start_nodes(g))
    start = execsim.gen_start(rng, g, paths)
    if isinstance(start, int):
        start = None if n == 1 else rng.choice(paths)
    if rng.random() < 0.05:
        start = rng.choice(['/nowhere', '0', 'n0', ''])
    form = rng.choice(['exec', 'exec', 'exec', 'dashes', 'verbose'])
    targets = paths + ['/'] * bool(g['world'])
    call = {'form': form, 'start': start, 'params': None, 'how': None,
            'cwd': rng.choice(['', '/work', '/home']),
            'relative': rng.random() < 0.5, 'wrong': None, 'damage': None,
            'graph': None, 'late': rng.random() < 0.3}
    k = rng.random()
    if k < 0.4:
        call['how'] = 'inline'
        call['params'] = [[p + '.' + rng.choice(execsim.ATTRS),
                           rng.choice(WORDS)] for p in [
            rng.choice(targets) if rng.random() < 0.9 else '/nobody'
            for _ in range(rng.randrange(1, 4))]]
        if rng.random() < 0.4:
            call['params'] = repeat(rng, g, paths) or call['params']
    elif k < 0.7:
        call['how'] = 'file'
        call['params'] = {p + '.' + rng.choice(execsim.ATTRS): rng.choice(
            WORDS + [7, [1, 2], None, True, 2.5, {'k': [1]}]) for p in [
                rng.choice(targets) if rng.random() < 0.9 else '/nobody'
                for _ in range(rng.randrange(0, 4))]}
        if rng.random() < 0.25:
            call['damage'] = rng.choice(DAMAGE)
    if n <= 1 and rng.random() < 0.15:
        call.update(form='legacy', start=None, params=None, how=None,
                    damage=None)
    elif rng.random() < 0.15:
        call['wrong'] = rng.choice(WRONG)
    if rng.random() < 0.06:
        call['graph'] = rng.choice(['torn', 'gone', 'bytes'])
    return call


def generate(rng, tier):
    g = execsim.gen_graph(rng, KINDS)
    paths = list(execsim.comp_paths(g))
    calls = [gen_call(rng, g, paths) for _ in range(rng.randrange(1, 4))]
    return {'graph': g, 'calls': calls, 'together': rng.random() < 0.3,
            'rates': {'node': rng.choice([0, 0, 0.1, 0.4]),
                      'fs': rng.choice([0, 0, 0.05, 0.2]),
                      'preempt': rng.choice([0, 0.1])}}


def shrink(s):
    if s['together']:
        yield dict(s, together=False)
    for i in range(len(s['calls'])):
        if len(s['calls']) > 1:
            yield dict(s, calls=s['calls'][:i] + s['calls'][i + 1:])
    for i, c in enumerate(s['calls']):
        for k, v in (('form', 'exec'), ('params', None), ('late', False),
                     ('cwd', ''), ('wrong', None), ('damage', None)):
            if c[k] != v and (k != 'form' or c[k] != 'legacy'):
                new = copy.deepcopy(c)
                new[k] = v
                if k == 'params':
                    new.update(how=None, damage=None)
                calls = list(s['calls'])
                calls[i] = new
                yield dict(s, calls=calls)
    for g in execsim.shrink_graph(s['graph']):
        yield dict(s, graph=g)


class Dispatch(object):
    """Node code of each process reports to the hooks of its own run."""

    def __init__(self, w):
        self.w = w
        self.hooks = {}

    def __getattr__(self, name):
        if name not in ('probe', 'point', 'budget', 'note', 'sleep'):
            raise AttributeError(name)
        return lambda *a: getattr(self.hooks[self.w.proc.name], name)(*a)

    install = execsim.Hooks.install
    remove = execsim.Hooks.remove


def write_params(f, c):
    """The parameter file of a call; whether it can be read."""
    text = json.dumps(c['params'])
    d = c['damage']
    if d == 'gone':
        return False
    if d == 'folder':
        os.mkdir(f)
        return False
    if d == 'torn':
        text = text[:-1]
    elif d == 'list':
        text = '[["/n0.a", "1"]]'
    elif d == 'text':
        text = '"/n0.a 1"'
    elif d == 'empty':
        text = ''
    raw = text.encode()
    if d == 'bytes':
        raw = b'{"/n0.a": "\xff\xfe"}'
    fd = open(f, 'wb')
    fd.write(raw)
    fd.close()
    return d is None


def command(w, c, i, top):
    """The argument list, working directory and what makes it unusable."""
    cwd = w.root + c['cwd']
    path = os.path.relpath(top, cwd) if c['relative'] else top
    bad = None
    options = []
    if c['start'] is not None:
        options += ['-s', c['start']]
    given = []
    if c['how'] == 'file':
        f = '{}/work/params{}.json'.format(w.root, i)
        if not write_params(f, c):
            bad = 'parameters ' + c['damage']
        given = [os.path.relpath(f, cwd) if c['relative'] else f]
    elif c['how'] == 'inline':
        given = [x for kv in c['params'] for x in kv]
    wrong = c['wrong']
    if wrong == 'odd':
        given = (given if c['how'] == 'inline' else []) + ['/n0.a', '1',
                                                          '/n0.b']
    elif wrong == 'nokey':
        given = ['n0.a', '1'] + (given if c['how'] == 'inline' else [])
    if wrong:
        bad = wrong
    if wrong == 'context':
        options += ['-c', 'nope']
    elif wrong == 'nxtcontext':
        options += ['-c', 'nope.nxt']
    elif wrong == 'flag':
        options += ['-x']
    given = ['-p'] + given if given else []
    if c['form'] == 'legacy':
        argv = [path]
    elif wrong == 'verb':
        argv = ['exce', path] + options + given
    elif wrong == 'legacyflag':
        argv = [path, '-s', c['start'] or '/n0']
    elif wrong == 'nopath':
        argv = ['exec'] + options + given
    elif wrong == 'twopaths':
        argv = ['exec', path] + options + [path] + given
    elif c['late'] or not given:
        argv = ['exec', path] + options + given
    else:
        argv = ['exec', path] + given + options
    if c['form'] == 'verbose':
        argv = ['-v'] + argv
    elif c['form'] == 'dashes':
        argv = ['scene.ma', '-batch', '--'] + argv
    if c['graph']:
        bad = 'graph ' + c['graph']
    return ['nxt'] + argv, cwd, bad


def run(w, s):
    work = w.root + '/work'
    g = s['graph']
    paths = list(execsim.comp_paths(g))
    good = execsim.write_graph(g, work)
    text = open(good, 'rb')
    raw = text.read()
    text.close()
    for name, data in (('torn', raw[:len(raw) // 2]),
                       ('bytes', raw.replace(b'alias', b'\xff\xfe', 1))):
        f = open('{}/{}.nxt'.format(work, name), 'wb')
        f.write(data)
        f.close()
    jobs = []
    dispatch = Dispatch(w)
    for i, c in enumerate(s['calls']):
        top = good if not c['graph'] else '{}/{}.nxt'.format(work, c['graph'])
        argv, cwd, bad = command(w, c, i, top)
        p = SimProcess(w, 'cli{}'.format(i), argv=argv, cwd=cwd)
        dispatch.hooks[p.name] = execsim.Hooks(w)
        jobs.append((c, p, bad))
    files = graphs.snapshot_tree(work)
    readable = [good] + ['{}/params{}.json'.format(work, i)
                         for i in range(len(jobs))]
    w.fs.filter = lambda kind, q: kind in ('open_r', 'read') and \
        os.path.realpath(str(q)) in readable
    w.fs.allow = ('EIO', 'EACCES', 'EMFILE', 'short', 'crash')
    w.faults_on = True

    def body(p):
        from nxt import cli
        cli.main()
    hits = {}
    owner = w.fs.point

    def point(kind, path):
        n = len(w.fs.fault_log)
        try:
            return owner(kind, path)
        finally:
            if w.proc is not None:
                hits.setdefault(w.proc.name, []).extend(w.fs.fault_log[n:])
    w.fs.point = point
    began = {}
    dispatch.install()
    try:
        for c, p, bad in jobs:
            began[p.name] = w.wall()
            p.start(body)
            if not s['together']:
                w.run()
        w.run()
    finally:
        dispatch.remove()
        w.fs.point = owner
    ran = done = refused = 0
    for c, p, bad in jobs:
        what = ' '.join(p.argv if len(p.argv) < 9 else p.argv[:9])
        hooks = dispatch.hooks[p.name]
        w.log('ended', p.name, p.exit_code, bad, len(hooks.trace))
        if p.crashed:
            if any(e[0] == 'at' for e in hooks.trace):
                raise Violation('ran-early', '{}: nodes ran before everything '
                                'was read'.format(what))
            continue
        hit = [h for h in hits.get(p.name, []) if h[2] != 'short']
        if bad or hit and not hooks.trace and p.exit_code != 0:
            if hooks.trace:
                raise Violation('ran-anyway', '{}: nodes ran in spite of {}'
                                .format(what, bad or hit))
            if p.exit_code == 0:
                raise Violation('failure-hidden', '{}: ended with 0 in spite '
                                'of {}'.format(what, bad or hit))
            refused += 1
            continue
        params = c['params']
        if c['how'] == 'inline':
            params = dict(params)
        start = c['start']
        end, trace = None, []
        if start is not None and start not in paths:
            end = ('ValueError',)
        else:
            rec = {'call': ['execute', start, params or None, None],
                   'clock': began[p.name], 'index': None}
            for _, end, trace, rts in execsim.model_play(s, hooks, [rec]):
                pass
        execsim.check_trace(what, hooks.trace, trace)
        if (p.exit_code == 0) != (end == ('done',)) and \
                end != ('ExitGraph',):
            raise Violation('wrong-status', '{} ended with {} though the '
                            'graph ended with {}: {}'.format(
                                what, p.exit_code, end, p.tracebacks[-1:]))
        w.note_state(end[0], c['form'], c['how'], len(trace))
        ran += sum(1 for e in trace if e[0] == 'at')
        done += end == ('done',)
    if graphs.snapshot_tree(work) != files:
        raise Violation('files-changed', 'running graphs changed files')
    return {'command_lines': len(jobs), 'node_runs': ran, 'finished': done,
            'refused': refused, 'nontrivial': ran > 1}
