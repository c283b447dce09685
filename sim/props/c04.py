"""C04: opening graphs whose files are missing, damaged or failing."""
import json
import os
import shutil

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'fault_enumeration'
QUICK = {'cases': 80, 'budget': 60, 'chunk': 5}
THOROUGH = {'cases': 8000, 'budget': 2400, 'chunk': 20}
SWEEP = {'quick': 10, 'thorough': 120}
RULE = ('Random trees of graph files referencing each other (relative, '
        'absolute, environment, home and root paths; missing, damaged, '
        'cyclic and shared references) are opened by a simulated process '
        'while other graphs are open; then once per (open/read, I/O error) '
        'pair. What opens is compared with the same tree without the '
        'references that failed, opened by another process.')
REAL = 'nxt sessions, loaders, composition, file tokens and plugins'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['an operation either fails with an OSError or works']

STATES = ['ok'] * 12 + ['missing', 'missing', 'dir', 'torn', 'garbage',
                        'too_new', 'bad_version', 'empty']
REFUSED = ('missing', 'dir', 'too_new', 'bad_version')  # skipped
BROKEN = ('torn', 'garbage', 'empty')       # may also refuse the whole graph
DIRS = ['', 'a/', 'a/b/', 'c/']
TOKENS = ['${path::note.txt}', '${file::note.txt}', '${file::nothing.txt}',
          '${contents::${file::note.txt}}', '${path::../x/y}',
          '${contents::${path::note.txt}}']


def generate(rng, tier):
    n = rng.randrange(1, 7)
    names = ['{}f{}.nxt'.format(rng.choice(DIRS), i) for i in range(n)]
    names[0] = rng.choice(['', '', 'a/']) + 'f0.nxt'
    if rng.random() < 0.2:
        names[-1] = 'roots/r.nxt'
    files = {}
    cyc = rng.random() < 0.12
    for i, nm in enumerate(names):
        pool = names[i + 1:]
        refs = []
        for t in rng.sample(pool, min(len(pool), rng.randrange(0, 4))):
            refs.append([t, rng.choice(['rel', 'rel', 'rel', 'abs', 'env',
                                        'home'])])
        if cyc and rng.random() < 0.4:
            refs.append([rng.choice(names[:i + 1]), 'rel'])
        data = graphs.layer(rng, 'L{}'.format(i))
        node = sorted(data['nodes'])[-1]
        if rng.random() < 0.6:
            data['nodes'][node].setdefault('attrs', {})['tok'] = {
                'type': 'raw', 'value': rng.choice(TOKENS)}
        files[nm] = {'data': data, 'refs': refs,
                     'version': rng.choice(['1.99', '2.0', '10.1', '1.18.3']),
                     'state': 'ok' if i == 0 and rng.random() < 0.8
                     else rng.choice(STATES)}
    return {'files': files, 'top': names[0],
            'open': rng.choice(['session', 'session', 'stage']),
            'other': rng.random() < 0.7,
            'roots': rng.random() < (0.9 if 'roots/r.nxt' in files else 0.2),
            'decoys': rng.random() < 0.5,
            'cwd': rng.choice(['', '/work', '/work/c', '/home']),
            'form': rng.choice(['abs', 'abs', 'rel']),
            'save': rng.random() < 0.5}


def shrink(s):
    for nm in sorted(s['files']):
        if nm != s['top']:
            files = {k: dict(f, refs=[r for r in f['refs'] if r[0] != nm])
                     for k, f in s['files'].items() if k != nm}
            yield dict(s, files=files)
    for nm, f in sorted(s['files'].items()):
        for i in range(len(f['refs'])):
            yield dict(s, files=dict(s['files'], **{
                nm: dict(f, refs=f['refs'][:i] + f['refs'][i + 1:])}))
        for d in graphs.fewer_nodes(f['data']):
            yield dict(s, files=dict(s['files'], **{nm: dict(f, data=d)}))
    for k, v in (('other', False), ('roots', False), ('save', False),
                 ('decoys', False),
                 ('cwd', ''), ('form', 'abs')):
        if s[k] != v:
            yield dict(s, **{k: v})


def sweep(scenario, base, rng, tier):
    return util.fs_sweep(base, rng, SWEEP[tier])


def ref_text(s, work, frm, to, form):
    if form == 'abs':
        return work + '/' + to
    if form == 'env':
        return '${NXT_TEST_DIR}/' + to
    if form == 'home':
        return '~/../' + os.path.basename(work) + '/' + to
    if s['roots'] and to.startswith('roots/'):
        return to[len('roots/'):]
    return os.path.relpath('/' + to, '/' + os.path.dirname(frm))


def lay_out(s, work, drop=()):
    """Write the tree; drop: (referencing file, index) pairs left out."""
    for d in ('', '/a', '/a/b', '/c', '/roots'):
        os.makedirs(work + d, exist_ok=True)
        with open(work + d + '/note.txt', 'w') as fp:
            fp.write('note in ' + (d or '/'))
    refs = {}
    for nm, f in s['files'].items():
        refs[nm] = [ref_text(s, work, nm, t, form) for t, form in f['refs']]
        data = dict(f['data'])
        kept = [r for i, r in enumerate(refs[nm]) if (nm, i) not in drop]
        if kept:
            data['references'] = kept
        p = work + '/' + nm
        st = f['state']
        if st == 'missing':
            continue
        if st == 'dir':
            os.mkdir(p)
            continue
        if st == 'too_new':
            data['version'] = f.get('version', '1.99')
        if st == 'bad_version':
            data['version'] = '117'
        text = graphs.dump(data)
        if st == 'torn':
            text = text[:max(1, len(text) // 3)]
        if st == 'garbage':
            text = '\x00\x01 not json'
        if st == 'empty':
            text = ''
        graphs.write(p, text)
    if s['roots'] and s.get('decoys') and s['files'].get(
            'roots/r.nxt', {'state': 'missing'})['state'] not in ('missing',
                                                                  'dir'):
        # Later roots and the referencing folders have such a file as well
        for d in ('/roots2', '', '/a', '/a/b', '/c'):
            os.makedirs(work + d, exist_ok=True)
            graphs.write(work + d + '/r.nxt', {
                'version': '1.17', 'alias': 'decoy',
                'nodes': {'/decoy': {'comment': d}}})
    return refs


def load_model(s, failed_opens):
    """(loaded layers, dropped references, raises) of opening the top.

    failed_opens: {file: [indexes of its opens that failed]}
    """
    opens = {}
    loaded, drop, kept = [], [], set()
    maybe_raise = [False]

    def can_open(nm):
        i = opens.get(nm, 0)
        opens[nm] = i + 1
        if i in failed_opens.get(nm, ()):
            return False
        return s['files'][nm]['state'] not in REFUSED

    def load(nm, chain):
        loaded.append(nm)
        for i, (t, form) in enumerate(s['files'][nm]['refs']):
            if not can_open(t):
                drop.append((nm, i))
            elif s['files'][t]['state'] in BROKEN:
                maybe_raise[0] = True
                drop.append((nm, i))
            elif t in chain + [nm]:
                drop.append((nm, i))
            else:
                kept.add((nm, i))
                load(t, chain + [nm])
    top = s['top']
    if not can_open(top) or s['files'][top]['state'] in BROKEN:
        return None, [], False
    load(top, [])
    if kept & set(drop):
        # One file opened in one place and failed in another: there is no
        # tree of files to compare that with
        drop = None
    return loaded, drop, maybe_raise[0]


def run(w, s):
    work = w.root + '/work'
    refs = lay_out(s, work)
    graphs.write(w.root + '/other.nxt', graphs.layer(w.rng, 'other'))
    before = graphs.snapshot_tree(w.root)
    env = {'HOME': w.root + '/home', 'PATH': '/usr/bin', 'LANG': 'C.UTF-8',
           'NXT_USER_DIR': w.root + '/user', 'TMPDIR': w.root + '/tmp',
           'NXT_TEST_DIR': work}
    if s['roots']:
        env['NXT_FILE_ROOTS'] = (w.root + '/nowhere:' + work + '/roots:' +
                                 work + '/roots2')
    state = {'opens': {}, 'failed': {}}

    def track(kind, path):
        path = str(path)
        if not path.startswith(work) or kind not in ('open_r', 'read'):
            return False
        return path.endswith('.nxt')
    w.fs.filter = track
    w.fs.allow = ('EACCES', 'EIO', 'EMFILE', 'ESTALE', 'short')
    real_decide = w.fs.point

    def point(kind, path):
        # Number the opens of each file to know which of them failed
        nm = os.path.relpath(str(path), work) if track(kind, path) else None
        if nm is not None and w.faults_on:
            if kind == 'open_r':
                state['opens'][nm] = state['opens'].get(nm, 0) + 1
            try:
                return real_decide(kind, path)
            except OSError:
                state['failed'].setdefault(nm, []).append(
                    state['opens'][nm] - 1)
                raise
        return real_decide(kind, path)
    w.fs.point = point
    counts = {'opened': 0, 'refused': 0}

    def where():
        return os.getcwd()

    def body(p):
        from nxt.session import Session
        from nxt.stage import Stage
        sess = Session()
        other = None
        if s['other']:
            other = sess.load_file(w.root + '/other.nxt')
            other_snap = util.snapshot(other, other.build_stage())
        start = w.root + s['cwd']
        os.chdir(start)
        top = work + '/' + s['top']
        if s['form'] == 'rel':
            top = os.path.relpath(top, start)

        def attempt(faults):
            state['opens'].clear()
            state['failed'].clear()
            uids = sorted(sess.loaded_files)
            w.faults_on = faults
            stage = err = None
            try:
                if s['open'] == 'session':
                    stage = sess.load_file(top)
                else:
                    stage = Stage.load_from_filepath(top)
            except Exception as e:
                err = e
            finally:
                w.faults_on = False
            want, drop, may_raise = load_model(s, state['failed'])
            w.log('open', type(err).__name__, want)
            if where() != start:
                raise Violation('cwd-changed', 'opening a graph {} left the '
                                'working directory at {} instead of {}'
                                .format('failed and' if err else '',
                                        w.fs.rel(where()), w.fs.rel(start)))
            if err is not None:
                counts['refused'] += 1
                if want is not None and not may_raise:
                    raise Violation('open-failed', 'opening the graph failed '
                                    'with {!r} although its own file is '
                                    'readable'.format(err))
                if want is None and s['files'][s['top']]['state'] not in \
                        BROKEN + ('bad_version',) and not isinstance(
                            err, OSError):
                    raise Violation('wrong-error', 'an unreadable file was '
                                    'reported as {!r}'.format(err))
                if sorted(sess.loaded_files) != uids:
                    raise Violation('half-open', 'a graph that failed to '
                                    'open is in the session')
                return None, drop
            counts['opened'] += 1
            if want is None:
                raise Violation('opened-unreadable', 'opening an unreadable '
                                'file succeeded')
            got = [os.path.relpath(l.real_path, work)
                   for l in stage._sub_layers]
            if got != want:
                raise Violation('wrong-layers', 'opened the layers {} '
                                'instead of {}'.format(got, want))
            for nm in set(want):
                if s['files'][nm]['state'] != 'ok':
                    raise Violation('opened-unreadable', '{} opened though '
                                    'it is {}'.format(
                                        nm, s['files'][nm]['state']))
            if s['open'] == 'session' and \
                    sess.loaded_files.get(stage.uid) is not stage:
                raise Violation('not-in-session', 'the opened graph is not '
                                'in the session')
            return stage, drop

        stage, drop = attempt(True)
        first = None
        if stage is not None:
            comp = stage.build_stage()
            first = (util.snapshot(stage, comp, resolved=True), drop)
            if where() != start:
                raise Violation('cwd-changed', 'composing or resolving file '
                                'tokens moved the working directory')
        if other is not None and util.snapshot(
                other, other.build_stage()) != other_snap:
            raise Violation('other-graph-changed', 'opening a graph changed '
                            'another open graph')
        now = graphs.snapshot_tree(w.root)
        changed = [k for k in before if now.get(k) != before[k]]
        if changed:
            raise Violation('files-changed', 'opening a graph changed {}'
                            .format(changed))
        if stage is not None and s['save']:
            for l in stage._sub_layers:
                l.save()
                nm = os.path.relpath(l.real_path, work)
                saved = graphs.read(l.real_path)
                if saved.get('references', []) != refs[nm]:
                    raise Violation(
                        'references-lost', '{} referenced {}; saved after '
                        'opening, it references {}'.format(
                            nm, refs[nm], saved.get('references', [])))
        # Once the faults are gone everything opens
        again, drop2 = attempt(False)
        second = None
        if again is not None:
            second = (util.snapshot(again, again.build_stage(),
                                    resolved=True), drop2)
        return first, second

    p = SimProcess(w, 'opener', environ=env)
    t = p.run(body)
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'opening, composing or saving broke with {!r}'.format(
                t.exc), error=type(t.exc).__name__)
    for n, item in enumerate(t.result):
        if item is None or (n == 1 and item[1] == (t.result[0] or
                                                   (0, None))[1]):
            continue
        snap, drop = item
        if drop is None:
            continue
        clean = w.root + '/wk{:02d}'.format(n)
        s2 = dict(s, files=s['files'])
        lay_out(s2, clean, drop)
        env2 = dict(env, NXT_TEST_DIR=clean)
        if s['roots']:
            env2['NXT_FILE_ROOTS'] = w.root + '/nowhere:' + clean + '/roots:' + \
                clean + '/roots2'
        got = {}

        def reference(p):
            from nxt.stage import Stage
            st = Stage.load_from_filepath(clean + '/' + s['top'])
            got['snap'] = util.snapshot(st, st.build_stage(), resolved=True)
        p2 = SimProcess(w, 'reference{}'.format(n), environ=env2)
        t2 = p2.run(reference)
        if t2.exc is not None:
            raise Violation('reference-failed', 'the tree without the failed '
                            'references does not open: {!r}'.format(t2.exc))
        a = json.dumps(snap, sort_keys=True, default=str)
        b = json.dumps(got['snap'], sort_keys=True, default=str)
        if a.replace(work, '$W') != b.replace(clean, '$W'):
            raise Violation('wrong-composition', 'the graph that opened is '
                            'not the graph without its failed references: '
                            + diff(snap, got['snap'], work, clean))
        shutil.rmtree(clean)
    w.note_state(counts['opened'], counts['refused'], len(w.fs.fault_log))
    return dict(counts, nontrivial=any(
        f['state'] != 'ok' for f in s['files'].values()))


def diff(a, b, work, clean):
    for k in sorted(set(a) | set(b)):
        x = json.dumps(a.get(k), sort_keys=True, default=str)
        y = json.dumps(b.get(k), sort_keys=True, default=str)
        if x.replace(work, '$W') != y.replace(clean, '$W'):
            return '{}: {} / {}'.format(k, x[:200], y[:200])
    return ''
