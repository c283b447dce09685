"""C17: creating remote contexts and loading the plugins that hold them."""
import os

from ..core import Violation
from ..proc import REPO, SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 250, 'budget': 60, 'chunk': 10}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 50}
SWEEP = {'quick': 4, 'thorough': 60}
RULE = ('Random histories of processes that start, create remote contexts of '
        'any name, interpreter, graph and arguments, fail or die while doing '
        'so, one after another or at once, among other plugins that work, '
        'are damaged or cannot be read.')
REAL = 'nxt.create_context, plugin loader, context registry, layer saving, imp'
STUB = 'disk calls (scratch files, fault layer), clock, process scheduling'
ASSUMES = ['Process death, not power loss.',
           'Two processes do not create one context name at the same moment.']

NAMES = ['a', 'b', 'c', 'my ctx', "it's", 'q"q', 'br{x}', u'\xfc\u20ac',
         'back\\slash', 'end\\', 'a.b', 'maya', 'nl\nx', "'''", '%s', 'A',
         '{name}', '#c']
BAD = ['', 'python', 'd/e', '../f', 'x' * 300]
EXES = [None, '/opt/py/bin/python', '/usr/bin/python3.exe', "/o'dd/python",
        '/q"q/blender', '/x/maya', '/x/Maya.exe', 'C:\\x\\maya.exe',
        '/sp ace/blender.bin', u'/\xfc/python', '/br{a}ce/python', 'end\\']
ARGS = [[], [], ['--python'], ['-b', "it's"], ['{x}', '\\n'], [u'\xfc']]
GRAPHS = [None, None, None, 'good', 'rel', 'odd', 'env', 'missing', 'dir']
PLUGINS = ['ctx', 'ctx', 'ok', 'syntax', 'raises', 'import', 'binary',
           'empty', 'text', 'package', 'badpackage', 'dir', 'torn', 'key',
           'link']
CTX = ('from nxt.remote.contexts import RemoteContext, register_context\n'
       'register_context(RemoteContext({0!r}, "/exe/{0}", "/g/{0}.nxt"))\n')
TEXT = {'ok': 'X = 1\n', 'syntax': 'def (\n', 'raises': '1 / 0\n',
        'import': 'import no_such_module_here\n', 'empty': '',
        'torn': "from nxt.remote.contexts import RemoteC", 'key': '{}["x"]\n'}


def generate(rng, tier):
    mode = rng.choice(['plain', 'plain', 'faults', 'faults', 'crash', 'crash',
                       'boot', 'concurrent'])
    site = rng.random() < 0.5
    pool = rng.sample(NAMES, 4)

    def create():
        name = rng.choice(pool if rng.random() < 0.88 else BAD)
        return [name, rng.choice(EXES), rng.choice(GRAPHS),
                rng.choice(ARGS)]
    return {'mode': mode, 'site': site,
            'plugins': [[rng.choice(['user', 'site', 'user']),
                         'p%d' % i, rng.choice(PLUGINS)]
                        for i in range(rng.choice([0, 0, 1, 2, 3, 4]))],
            'procs': [[create() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                      for _ in range(rng.randrange(1, 4))],
            'offsets': [rng.choice([0, 0, 0.001, 0.01]) for _ in range(4)],
            'exe': rng.choice(['python'] * 4 + ['blender', 'maya']),
            'write_limit': rng.choice([None, 100, 300]),
            'rates': {'fs': {'plain': 0, 'faults': 0.12, 'crash': 0.06,
                             'boot': 0.25, 'concurrent': 0}[mode],
                      'switch': rng.choice([0.1, 0.3, 0.6])
                      if mode == 'concurrent' else 0, 'pick': 0.5},
            'max_steps': 60000}


def shrink(s):
    for key in ('plugins', 'procs'):
        for i in range(len(s[key])):
            yield dict(s, **{key: s[key][:i] + s[key][i + 1:]})
    for i, p in enumerate(s['procs']):
        for j in range(len(p)):
            yield dict(s, procs=s['procs'][:i] + [p[:j] + p[j + 1:]] +
                       s['procs'][i + 1:])
    for k, v in (('site', False), ('write_limit', None), ('exe', 'python')):
        if s[k] != v:
            yield dict(s, **{k: v})


def sweep(scenario, base, rng, tier):
    from .. import util
    if scenario['mode'] not in ('faults', 'crash', 'boot'):
        return []
    return util.fs_sweep(base, rng, SWEEP[tier])


def tree(top):
    out = {}
    for base, dirs, names in os.walk(top):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for n in names + dirs:
            p = os.path.join(base, n)
            if os.path.isdir(p):
                out[p] = None
                continue
            try:
                with open(p, 'rb') as fp:
                    out[p] = fp.read()
            except OSError:
                out[p] = '<gone>'
    return out


def run(w, s):
    fs = w.fs
    fs.raw_write_limit = s['write_limit']
    work = w.root + '/work'
    user = w.root + '/user/config'
    site = w.root + ('/site/config' if s['site'] else '/user/config')
    counts = {'processes': 0, 'created': 0, 'refused': 0, 'failed': 0,
              'died': 0, 'plugins': len(s['plugins']), 'opened': 0}
    dirs = {}

    # Where plugins live is asked from nxt itself
    def where(p):
        from nxt import constants
        dirs['user'] = constants.USER_PLUGIN_DIR
        dirs['site'] = constants.SITE_PLUGIN_DIR
    env = {'HOME': w.root + '/home', 'PATH': '/usr/bin:/bin',
           'LANG': 'C.UTF-8', 'NXT_USER_DIR': w.root + '/user',
           'TMPDIR': w.root + '/tmp', 'GRAPHS': work}
    if s['site']:
        env['NXT_SITE_DIR'] = w.root + '/site'
    SimProcess(w, 'setup', environ=env, cwd=work).run(where)
    graph_text = ('{"version": "1.17", "alias": "g", "references": '
                  '["$NXT_BUILTINS/_context.nxt"], "nodes": {}}')
    odd = work + "/it's {o}\\dd.nxt"
    for path in (work + '/good.nxt', odd):
        with open(path, 'w') as fp:
            fp.write(graph_text)
    os.mkdir(work + '/dir.nxt')
    os.makedirs(work + '/else/where')
    given = {}              # contexts of the other plugins
    spoiled = set()         # contexts that may be there or not
    taken = set()
    for where_, name, kind in s['plugins']:
        top = dirs[where_]
        if not os.path.isdir(top):
            os.makedirs(top)
        if kind in ('package', 'badpackage'):
            os.mkdir('{}/{}'.format(top, name))
            with open('{}/{}/__init__.py'.format(top, name), 'w') as fp:
                fp.write(CTX.format('ctx' + name) if kind == 'package'
                         else '1 / 0\n')
        elif kind == 'dir':
            os.mkdir('{}/{}'.format(top, name))
        elif kind == 'link':
            os.symlink(top + '/nowhere.py', '{}/{}.py'.format(top, name))
        elif kind == 'text':
            with open('{}/{}.txt'.format(top, name), 'w') as fp:
                fp.write('hello')
        elif kind == 'binary':
            with open('{}/{}.py'.format(top, name), 'wb') as fp:
                fp.write(b'\xff\xfe\x00x = \x81')
        else:
            with open('{}/{}.py'.format(top, name), 'w') as fp:
                fp.write(CTX.format('ctx' + name) if kind == 'ctx'
                         else TEXT[kind])
        if kind in ('ctx', 'package'):
            given['ctx' + name] = {'exe': '/exe/ctx' + name,
                                   'graph': '/g/ctx%s.nxt' % name,
                                   'args': [], 'path': '{}/{}'.format(
                                       top, name)}
            taken.add(name)

    made, maybe = {}, {}
    concurrent = s['mode'] == 'concurrent'
    on_plugins = lambda path: any(
        str(path) == d or str(path).startswith(d + '/')
        for d in (dirs['user'], dirs['site']))
    fs.allow = {'crash': ('crash', 'crash_after', 'crash_torn'),
                'boot': ('EIO', 'EACCES', 'EMFILE', 'ESTALE')}.get(
        s['mode'], ('EIO', 'EACCES', 'ENOSPC', 'torn_ENOSPC', 'short',
                    'EROFS'))
    reads = ('open_r', 'read', 'listdir')
    state = {'boot': False}
    fs.filter = lambda kind, path: on_plugins(path) and (
        (kind in reads) if s['mode'] == 'boot' else (
            kind in ('open_w', 'write', 'rename', 'close', 'fsync', 'remove')))
    w.faults_on = False

    def seen():
        from nxt.remote import contexts
        out = {}
        for name in contexts.iter_context_names():
            c = contexts.find_context_by_name(name)
            if name in out:
                raise Violation('context-twice', 'two contexts of one name',
                                name=name)
            out[name] = {'exe': c.exe, 'graph': c.graph,
                         'args': list(c.args)}
        return out

    def check_seen(label, must, may):
        """must: contexts that have to be there, may: that can be."""
        got = seen()
        got.pop('python', None)
        for name in got:
            want = may.get(name) or must.get(name)
            if want is None:
                raise Violation('context-invented', '{} has a context nobody '
                                'created'.format(label), name=name)
            have = got[name]
            for k in ('exe', 'args', 'graph'):
                if want[k] is not None and have[k] != want[k]:
                    raise Violation('context-changed', '{}: a context is not '
                                    'as it was created'.format(label),
                                    name=name, what=k, have=have[k],
                                    want=want[k])
        for name in must:
            if name not in got:
                raise Violation('context-lost', '{} lacks a context that was '
                                'created'.format(label), name=name)

    def check_graphs(label, names):
        """The graph a context starts from opens completely."""
        from nxt.remote import contexts
        from nxt.stage import Stage
        for name in sorted(names):
            want = names[name]
            c = contexts.find_context_by_name(name)
            if c is None or 'kind' not in want:
                continue
            try:
                stage = Stage.load_from_filepath(c.graph)
            except Exception as e:
                raise Violation('context-graph', 'the graph of a context '
                                'does not open', name=name,
                                error=repr(e)[:200])
            counts['opened'] += 1
            refs = [os.path.basename(l.real_path) for l in stage._sub_layers]
            if refs[1:] != ['_context.nxt', 'sub_graphs.nxt']:
                raise Violation('context-graph', 'the graph of a context '
                                'does not lead to the context graph',
                                name=name, layers=refs)
            if want['kind'] is not None:
                continue
            if stage.top_layer.get_alias() != 'custom_%s_context' % name:
                raise Violation('context-graph', 'the graph of a context has '
                                'another alias', name=name,
                                alias=stage.top_layer.get_alias())
            comp = stage.build_stage()
            node = comp.lookup('/enter/teardown')
            code = '\n'.join(stage.get_node_code_lines(node, comp, 'raw'))
            starts = {'maya': 'standalone.uninit', 'blender': 'bpy.ops.wm'}
            for exe in starts:
                text = starts[exe] in code or \
                    starts[exe] in '\n'.join(stage.get_node_code_lines(
                        comp.lookup('/'), comp, 'raw'))
                if (want['starter'] == exe) != text:
                    raise Violation('context-starter', 'the graph of a '
                                    'context starts another application',
                                    name=name, want=want['starter'],
                                    has=exe, there=text)

    def spec(name, exe, graph, args, current):
        used = exe if exe is not None else current
        base = os.path.splitext(os.path.basename(used.lower()))[0]
        own = os.path.splitext(os.path.basename(current))[0]
        starter = own if own in ('maya', 'blender') else base
        return {'exe': used, 'args': list(args), 'kind': graph,
                'graph': {None: None, 'good': work + '/good.nxt',
                          'rel': work + '/good.nxt', 'odd': odd,
                          'env': work + '/good.nxt'}.get(graph),
                'starter': starter if starter in ('maya', 'blender')
                else None}

    mine = {}       # contexts each process has in memory

    def body(p, creates, idx):
        import nxt
        import sys
        counts['processes'] += 1
        f1 = fs.fault_log[p.f0:]
        hurt = [path.replace('$S', w.root) for _, path, _ in f1]
        must = dict(p.known)
        may = dict(maybe)
        may.update(made)
        may.update(given)
        if concurrent:
            may.update(everything)
        must.update(given)
        for name in list(must):
            src = must[name].get('path') or '{}/custom_{}_context'.format(
                dirs['user'], name)
            for h in hurt:
                if h in (dirs['user'], dirs['site']) or h.startswith(src):
                    may[name] = must.pop(name)
                    break
        check_seen('a new process', must, may)
        from nxt import tokens
        for prefix in ('file::', 'filelist::'):
            n = [t.prefix for t in tokens.plugin_tokens].count(prefix)
            if n != 1:
                raise Violation('plugin-builtin', 'the token {} is there {} '
                                'times'.format(prefix, n))
        for name in list(maybe):
            # Decided now, for good
            if name in seen() and not concurrent and not hurt:
                made[name] = maybe.pop(name)
            elif not concurrent and not hurt:
                left = dirs['user'] + '/custom_%s_context.py' % name
                if os.path.exists(left):
                    raise Violation('context-torn', 'a context that was '
                                    'being created is neither there nor '
                                    'free', name=name)
                maybe.pop(name)
        if not hurt:
            check_graphs('a new process',
                         {n: made[n] for n in made if n in seen()})
        mine[p] = seen()
        if s['mode'] == 'boot':
            w.faults_on = False
        else:
            w.faults_on = True
        for name, exe, graph, args in creates:
            create(p, name, exe, graph, args)
        w.faults_on = False

    def create(p, name, exe, graph, args):
        import nxt
        import sys
        what = spec(name, exe, graph, args, sys.executable)
        path = {None: None, 'good': work + '/good.nxt', 
                'rel': os.path.relpath(work + '/good.nxt', os.getcwd()),
                'odd': odd, 'env': '$GRAPHS/good.nxt',
                'missing': 'nothere.nxt', 'dir': 'dir.nxt'}[graph]
        before = tree(dirs['user'])
        had = seen()
        f0 = len(fs.fault_log)
        kw = {} if exe is None else {'interpreter_exe': exe}
        if not concurrent:
            maybe[name] = what
        py = '{}/custom_{}_context'.format(dirs['user'], name)
        try:
            got = nxt.create_context(name, context_graph=path,
                                     exe_script_args=tuple(args), **kw)
            error = None
        except Exception as e:
            error = e
        faults = fs.fault_log[f0:]
        was_on, w.faults_on = w.faults_on, False
        try:
            after = tree(dirs['user'])
            broken = {k for k in before if after.get(k) != before[k]}
            broken -= {py + '.nxt'}
            if not concurrent and broken:
                raise Violation('context-damage', 'creating a context '
                                'changed other files', name=name,
                                files=sorted(os.path.basename(x)
                                             for x in broken))
            extra = {k for k in after if k not in before}
            if concurrent:
                extra = {k for k in extra if k.startswith(py + '.')}
            if error is None:
                counts['created'] += 1
                if name in made or name in had or name == '':
                    raise Violation('context-taken', 'a context name was '
                                    'given twice', name=name)
                if graph in ('missing', 'dir'):
                    raise Violation('context-graph', 'a context was made for '
                                    'a graph that is not there')
                if got != name:
                    raise Violation('context-name', 'another name returned',
                                    name=name, got=got)
                stray = extra - {py + '.py', py + '.nxt'}
                if stray:
                    raise Violation('context-stray', 'files left behind',
                                    files=sorted(os.path.basename(x)
                                                 for x in stray))
                maybe.pop(name, None)
                made[name] = what
                must = dict(had)
                must[name] = what
                must.pop('python', None)
                check_seen('the creating process', must, {})
                check_graphs('the creating process', {name: what})
                return
            # Refused or failed: nothing happened
            taken_now = name in made or name in had
            if not faults and not taken_now and name not in BAD and \
                    graph not in ('missing', 'dir'):
                raise Violation('context-refused', 'a context could not be '
                                'created', name=name, exe=exe, graph=graph,
                                args=args, error=repr(error)[:300])
            counts['failed' if faults else 'refused'] += 1
            maybe.pop(name, None)
            uncleaned = any(k == 'remove' for k, _, _ in faults)
            if extra and not uncleaned:
                raise Violation('context-leftover', 'a failed creation left '
                                'files behind', name=name,
                                error=repr(error)[:200],
                                files=sorted(os.path.basename(x)
                                             for x in extra))
            if uncleaned and any(x.endswith('.py') for x in extra):
                maybe[name] = what
            if seen() != had:
                raise Violation('context-half', 'a failed creation '
                                'registered a context', name=name)
            if faults and not taken_now and name not in BAD and \
                    graph not in ('missing', 'dir') and name not in maybe:
                # The fault is gone: it works now
                create(p, name, exe, graph, args)
        finally:
            w.faults_on = was_on

    everything = {}
    if concurrent:
        # Names of different processes differ
        used = set()
        plans = []
        for creates in s['procs']:
            plan, own = [], set()
            for c in creates:
                if c[0] in used:
                    continue
                own.add(c[0])
                plan.append(c)
            used |= own
            plans.append(plan)
        import sys
        current = '/usr/bin/' + s['exe']
        for plan in plans:
            for c in plan:
                everything.setdefault(c[0], spec(*(c + [current])))
        for c in list(everything):
            # Created again with something else: only checked by its maker
            if sum(1 for pl in plans for x in pl if x[0] == c) > 1:
                everything[c] = {'exe': None, 'graph': None, 'args': None}
    else:
        plans = s['procs']

    import sys
    real_exe = sys.executable

    def start(i, plan):
        p = SimProcess(w, 'p%d' % i, environ=dict(env),
                       cwd=work if i % 2 else work + '/else/where')
        p.known = dict(made)

        def main(p):
            import sys
            if concurrent and s['offsets'][i % 4]:
                w.block(None, s['offsets'][i % 4], 'offset')
            p.f0 = len(fs.fault_log)
            p.known = dict(made)
            if s['mode'] == 'boot':
                w.faults_on = True
            try:
                p.boot()
            except Violation:
                raise
            except Exception as e:
                raise Violation('import-failed', 'nxt does not start',
                                error=repr(e)[:300])
            if s['mode'] == 'boot':
                w.faults_on = False
            body(p, plan, i)
        return p, main

    sys.executable = '/usr/bin/' + s['exe']
    try:
        if concurrent:
            tasks = [(p, p.start(m, boot=False)) for p, m in
                     [start(i, pl) for i, pl in enumerate(plans)]]
            w.run()
        else:
            tasks = []
            for i, plan in enumerate(plans):
                p, m = start(i, plan)
                before = tree(dirs['user'])
                t = p.run(m, boot=False)
                w.faults_on = False
                tasks.append((p, t))
                if p.crashed:
                    counts['died'] += 1
                if t.exc is not None and not p.crashed:
                    raise t.exc
        for p, t in tasks:
            if t.exc is not None and not p.crashed:
                raise t.exc
        # Whatever happened, nxt starts and has what was created
        w.faults_on = False
        p, m = start(99, [])
        t = p.run(m, boot=False)
        if t.exc is not None:
            raise t.exc
        if not concurrent:
            # ... and every other name is free
            free = [c for pl in plans for c in pl
                    if c[0] not in made and c[0] not in BAD
                    and c[2] not in ('missing', 'dir')]
            todo, names = [], set()
            for c in free:
                if c[0] not in names:
                    names.add(c[0])
                    todo.append(c)
            p, m = start(100, todo)
            t = p.run(m, boot=False)
            if t.exc is not None:
                raise t.exc
    finally:
        sys.executable = real_exe
    if fs.escapes:
        raise Violation('escape', 'files outside were touched',
                        paths=[str(e) for e in fs.escapes[:3]])
    w.note_state(s["mode"], tuple(sorted(made)))
    return dict(counts, nontrivial=counts["created"] > 0)
