"""C05: a session's open graphs under any clock."""
import os

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 1500, 'budget': 60, 'chunk': 40}
THOROUGH = {'cases': 60000, 'budget': 1800, 'chunk': 100}
RULE = ('Random histories of new, load, reload, failing load, edit, save, '
        'save as, layer save and unload of graphs of one or more layers in '
        'one session, while the wall clock is coarse, stands still or jumps, '
        'files are replaced or removed behind it and disk calls fail; a dictionary model says which graphs are '
        'open and what each holds.')
REAL = 'nxt Session, Stage, layers, loader and saver'
STUB = 'wall clock, disk calls (real scratch files behind a fault layer)'
ASSUMES = []
OPS = ['new', 'new', 'save_layer', 'vanish', 'rewrite', 'load', 'load', 'load', 'unload', 'edit', 'edit',
       'save', 'save_as', 'bad', 'unload_bad']


def generate(rng, tier):
    n = rng.randrange(1, 4)
    return {'refs': [[j for j in range(i + 1, n) if rng.random() < 0.4]
                     for i in range(n)],
            'layers': [graphs.layer(rng, 'L{}'.format(i), n_nodes=2)
                       for i in range(n)],
            'ops': [[rng.choice(OPS), rng.randrange(1 << 16)]
                    for _ in range(rng.randrange(3, 20))],
            'grain': rng.choice([0, 0, 1e-6, 0.015625, 1.0]),
            'rates': {'clock': rng.choice([0, 0.2, 0.6]),
                      'fs': rng.choice([0, 0, 0.05])}}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])


SAVE_AS = ['as0.nxt', 'as1.nxt', 'd0/as0.nxt', 'd1/as0.nxt', 'd0/g0.nxt']
JUMPS = [None, -1.0, -3600.0, 3600.0, -1e-6, 1e9]


def tick(w):
    v = w.decide('clock', 7)
    if v == 6:
        w.fault('clock_stall')
        w.clock_offset -= max(0, w.wall() - getattr(w, 'last_wall', w.wall()))
    elif v:
        w.jump_clock(JUMPS[v])
    w.last_wall = w.wall()


def run(w, s):
    w.clock_grain = s['grain']
    files = []
    for d in ('d0', 'd1'):
        os.mkdir(w.root + '/work/' + d)
    for i, d in enumerate(s['layers']):
        files.append('{}/work/g{}.nxt'.format(w.root, i))
        refs = ['g{}.nxt'.format(j) for j in s.get('refs', [[]] * 9)[i]]
        graphs.write(files[i], dict(d, references=refs) if refs else d)
    w.fs.allow = ('EIO', 'ENOSPC', 'EACCES')
    w.fs.filter = lambda kind, path: str(path).startswith(w.root + '/work') \
        and kind in ('open_r', 'open_w', 'read', 'write', 'rename')
    counts = {'opened': 0, 'unloaded': 0, 'saves': 0, 'failed': 0,
              'skipped': 0, 'layer_saves': 0}

    def body(p):
        import random
        from nxt.session import Session
        sess = Session()
        w.clock_policy = tick
        open_ = []      # [stage, path, known content of its layers]

        def content(st):
            return [graphs.content(l.get_save_data())
                    for l in st._sub_layers]

        def expected(path):
            # Reading the files: a layer, then what it references
            d = graphs.read(path)
            out = [graphs.content(d)]
            for ref in d.get('references', []):
                out += expected(os.path.join(os.path.dirname(path), ref))
            return out

        def check(what):
            have = sess.loaded_files
            if len(have) != len(open_) or any(
                    have.get(e[0].uid) is not e[0] for e in open_):
                raise Violation('lost-graph', 'after {} the session holds '
                                '{} of {} open graphs'.format(
                                    what, sum(have.get(e[0].uid) is e[0]
                                              for e in open_), len(open_)))
            if len({e[0].uid for e in open_}) != len(open_):
                raise Violation('same-uid', 'two open graphs share an id')
            names = [e[0].top_layer.alias for e in open_ if e[1] is None]
            for e in open_:
                if content(e[0]) != e[2]:
                    raise Violation('other-graph-changed', 'after {} the '
                                    'graph opened from {} is different'
                                    .format(what, e[1] and w.fs.rel(e[1])))
            return names

        def target_name(path):
            return os.path.splitext(os.path.basename(path))[0]

        def faulty(fn, *a, **k):
            w.faults_on = True
            try:
                return fn(*a, **k), None
            except OSError as e:
                counts['failed'] += 1
                return None, e
            finally:
                w.faults_on = False

        check('start')
        for kind, salt in s['ops']:
            rng = random.Random(salt)
            w.log('op', kind)
            if kind == 'new':
                before = {e[0].top_layer.alias for e in open_}
                st = sess.new_file()
                if st.top_layer.alias in before:
                    raise Violation('same-name', 'a new graph got the name '
                                    '{} of an open graph'.format(
                                        st.top_layer.alias))
                open_.append([st, None, content(st)])
                counts['opened'] += 1
            elif kind == 'load':
                path = rng.choice(files)
                if not os.path.isfile(path):
                    continue
                mark = len(w.fs.fault_log)
                st, err = faulty(sess.load_file, path)
                if err is None:
                    on_disk = expected(path)
                    if w.fs.fault_log[mark:]:
                        on_disk = content(st)   # a reference was skipped
                        counts['skipped'] += 1
                    if content(st) != on_disk:
                        raise Violation('wrong-graph', 'loading {} opened '
                                        'something else'.format(
                                            w.fs.rel(path)))
                    open_.append([st, path, on_disk])
                    counts['opened'] += 1
            elif kind == 'vanish':
                # Somebody removes or replaces a file behind the session
                path = rng.choice([e[1] for e in open_ if e[1]] or files)
                if os.path.isfile(path) and path not in files:
                    os.remove(path)
            elif kind == 'rewrite':
                path = rng.choice(files)
                with open(path) as fp:
                    text = fp.read()
                with open(path, 'w') as fp:     # as long, but different
                    fp.write(text.replace('# line', '# LINE') if '# line' in
                             text else text.replace('# LINE', '# line'))
            elif kind == 'bad':
                try:
                    sess.load_file(w.root + '/work/none.nxt')
                    raise Violation('opened-missing', 'a missing file opened')
                except OSError:
                    pass
            elif kind == 'unload' and open_:
                e = rng.choice(open_)
                sess.unload_file(e[0].uid)
                open_.remove(e)
                counts['unloaded'] += 1
            elif kind == 'unload_bad':
                try:
                    sess.unload_file(12345.5)
                    raise Violation('unloaded-unknown', 'unloading an id '
                                    'that was never given out worked')
                except LookupError:
                    pass
            elif kind == 'edit' and open_:
                e = rng.choice(open_)
                li = rng.randrange(len(e[0]._sub_layers))
                how = rng.randrange(4)
                layer = e[0]._sub_layers[li]
                if how == 0:
                    layer.positions['/p'] = [float(salt), 0.0]
                elif how == 1:
                    layer.collapse['/c{}'.format(salt)] = True
                elif how == 2:
                    layer.color = '#{:06x}'.format(salt)
                else:
                    e[0].add_node('made', {'code': ['# {}'.format(salt)]},
                                  layer=li)
                was, e[2] = e[2], content(e[0])
                for i, (a, b) in enumerate(zip(was, e[2])):
                    if i != li and a != b or i == li and how == 3 \
                            and a == b:
                        raise Violation('wrong-layer', 'editing the '
                                        'layer {} changed others, or not it'
                                        .format(li))
            elif kind == 'save_layer' and open_:
                # Two open graphs may hold the same file: each saves its own
                e = rng.choice(open_)
                lower = e[0]._sub_layers[1:]
                if not lower:
                    continue
                layer = rng.choice(lower)
                li = e[0]._sub_layers.index(layer)
                disk = graphs.snapshot_tree(w.root + '/work')
                _, err = faulty(sess.save_layer, layer)
                now = graphs.snapshot_tree(w.root + '/work')
                target = os.path.basename(layer.real_path)
                counts['layer_saves'] += 1
                for f in set(disk) | set(now):
                    if disk.get(f) != now.get(f) and (
                            f != target or err is not None):
                        raise Violation('wrong-file', 'saving the layer {} '
                                        'changed {}'.format(target, f))
                if err is None and graphs.content(graphs.read(
                        layer.real_path)) != e[2][li]:
                    raise Violation('not-saved', '{} does not hold the layer '
                                    'that was saved'.format(target))
            elif kind in ('save', 'save_as') and open_:
                e = rng.choice(open_)
                same = [x for x in open_ if x[1] == e[1]]
                if e[1] is not None and len(same) > 1:
                    continue
                new = None
                if kind == 'save_as' or e[1] is None:
                    new = w.root + '/work/' + rng.choice(SAVE_AS)
                    if any(x[1] == new for x in open_):
                        continue
                disk = graphs.snapshot_tree(w.root + '/work')
                first = e[1] is None
                if first:
                    # Never saved: the layer takes the name of its file
                    got, err = faulty(sess.save_layer, e[0].top_layer, new)
                    got = True
                    if err is None:
                        e[2][0]['alias'] = target_name(new)
                else:
                    got, err = faulty(sess.save_file, e[1], new)
                now = graphs.snapshot_tree(w.root + '/work')
                target = os.path.relpath(new or e[1], w.root + '/work')
                counts['saves'] += 1
                for f in set(disk) | set(now):
                    if disk.get(f) != now.get(f) and (
                            f != target or err is not None):
                        raise Violation('wrong-file', 'saving {} changed {}'
                                        .format(target, f))
                if err is None:
                    if got is not True:
                        raise Violation('not-saved', 'saving the open graph '
                                        '{} returned {!r}'.format(target,
                                                                  got))
                    if graphs.content(graphs.read(new or e[1])) != \
                            e[2][0]:
                        raise Violation('not-saved', '{} does not hold the '
                                        'graph that was saved'.format(target))
                    e[1] = new or e[1]
            elif kind == 'save':
                if sess.save_file(w.root + '/work/none.nxt') is not False:
                    raise Violation('saved-nothing', 'saving a graph that '
                                    'is not open reported success')
            check(kind)
            w.note_state(kind, len(open_))

    p = SimProcess(w, 'session')
    t = p.run(body)
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'a session operation broke with {!r}'.format(t.exc),
            where=p.tracebacks[-1][-400:])
    return dict(counts, nontrivial=bool(s['grain']))
