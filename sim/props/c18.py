"""C18: the layers that compose a graph, through histories of changes."""
import copy
import os

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 450, 'budget': 60, 'chunk': 15}
THOROUGH = {'cases': 100000, 'budget': 1800, 'chunk': 50}
RULE = ('Random histories of muting, soloing, overriding, adding, '
        'referencing and removing layers and of edits, on trees of up to '
        'eight layers, with failing saves, deaths and reopenings between.')
REAL = 'nxt stage, layers, composition, loading and saving'
STUB = 'disk calls (scratch files, fault layer), clock'
ASSUMES = ['Process death, not power loss.',
           'Only root nodes instance, and only earlier roots or below.']

ROOTS = ['a', 'b', 'c', 'd']
KIDS = ['k', 'l', 'm']
ATTRS = ['x', 'y', 'z']


def root_of(p):
    return p.split('/')[1]


def gen_path(rng):
    p = '/' + rng.choice(ROOTS)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3])):
        p += '/' + rng.choice(KIDS)
    return p


def gen_node(rng, p, tag):
    d = {}
    attrs = {}
    for a in ATTRS:
        if rng.random() < 0.4:
            attrs[a] = {'type': rng.choice(['raw', 'raw', 'int']),
                        'value': rng.choice(['{}_{}'.format(tag, a), '0',
                                             tag])}
            if rng.random() < 0.25:
                attrs[a]['comment'] = 'why ' + tag
    if attrs:
        d['attrs'] = attrs
    if p == '/':
        if rng.random() < 0.5:
            d['code'] = ['# world ' + tag]
        return d
    if rng.random() < 0.4:
        d['code'] = ['# {} {}'.format(tag, p)]
    if rng.random() < 0.25:
        d['comment'] = 'about {} {}'.format(p, tag)
    if rng.random() < 0.25:
        d['enabled'] = rng.random() < 0.5
    if rng.random() < 0.2:
        d['start_point'] = True
    if p.count('/') == 1:
        if rng.random() < 0.2:
            d['execute_in'] = '/' + rng.choice(ROOTS)
        if rng.random() < 0.45 and p != '/a':
            d['instance'] = gen_source(rng, p)
    elif rng.random() < 0.07:
        d['instance'] = ''
    return d


def gen_source(rng, p):
    while True:
        src = gen_path(rng)
        if root_of(src) < root_of(p):
            return src


def gen_nodes(rng, tag):
    nodes = {}
    for _ in range(rng.randrange(1, 8)):
        p = gen_path(rng)
        while p and p not in nodes:
            nodes[p] = gen_node(rng, p, tag)
            p = p.rsplit('/', 1)[0]
            if rng.random() < 0.3:
                break       # its parent is on another layer, or nowhere
    if rng.random() < 0.3:
        nodes['/'] = gen_node(rng, '/', tag)
    for p in nodes:
        kids = [q.rsplit('/', 1)[1] for q in nodes
                if p != '/' and q.rsplit('/', 1)[0] == p]
        if kids and rng.random() < 0.8:
            rng.shuffle(kids)
            nodes[p]['child_order'] = kids
    return nodes


def gen_layer(rng, name):
    d = {'version': '1.17', 'alias': name, 'mute': rng.random() < 0.15,
         'solo': rng.random() < 0.12, 'nodes': gen_nodes(rng, name)}
    return d


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    parents = [None] + [rng.randrange(i) for i in range(1, n)]
    spare = rng.randrange(1, 5)     # files to reference later
    sp = [rng.choice([None, None] + list(range(i))) for i in range(spare)]
    mode = rng.choice(['plain', 'plain', 'faults', 'crash'])
    kinds = ['mute', 'solo', 'mute_over', 'solo_over', 'mute', 'mute_over',
             'attr', 'delattr', 'code', 'enabled', 'comment', 'instance',
             'node', 'save', 'save_all', 'reopen', 'new', 'reference',
             'reference', 'remove', 'remove']
    return {'parents': parents, 'mode': mode,
            'layers': [gen_layer(rng, 'L%d' % i) for i in range(n)],
            'spare': [gen_layer(rng, 'S%d' % i) for i in range(spare)],
            'spare_parents': sp,
            'subdirs': rng.random() < 0.4,
            'namesakes': rng.random() < 0.4,
            'over': [[i, rng.randrange(n), rng.choice(['mute', 'solo']),
                      rng.random() < 0.6] for i in range(n)
                     if rng.random() < 0.2],
            'ops': [[rng.choice(kinds), rng.randrange(1 << 20)]
                    for _ in range(rng.randrange(3, 15))],
            'rates': {'fs': {'plain': 0, 'faults': 0.15, 'crash': 0.05}[mode]},
            'max_steps': 100000}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    if s['over']:
        yield dict(s, over=[])
    n = len(s['layers'])
    if n > 1 and n - 1 not in s['parents'] and \
            all(n - 1 not in o[:2] for o in s['over']):
        yield dict(s, layers=s['layers'][:-1], parents=s['parents'][:-1])
    for key in ('layers', 'spare'):
        for i, d in enumerate(s[key]):
            for p in sorted(d['nodes'], reverse=True):
                nodes = {q: v for q, v in d['nodes'].items() if q != p}
                if nodes:
                    yield dict(s, **{key: s[key][:i] + [
                        dict(d, nodes=nodes)] + s[key][i + 1:]})
                for k in sorted(d['nodes'][p]):
                    node = {q: v for q, v in d['nodes'][p].items() if q != k}
                    yield dict(s, **{key: s[key][:i] + [
                        dict(d, nodes=dict(d['nodes'], **{p: node}))
                    ] + s[key][i + 1:]})
    if s['subdirs']:
        yield dict(s, subdirs=False, namesakes=False)
    if s['namesakes']:
        yield dict(s, namesakes=False)


# -- the model -------------------------------------------------------------
class Layer(object):
    """What one layer says: save data, where it is, what it references."""

    def __init__(self, data, path, ref, parent):
        self.data = data        # save data without references
        self.path = path        # absolute path of the file
        self.ref = ref          # how its parent names it
        self.parent = parent
        self.kids = []          # layers in order of strength

    def file(self):
        d = copy.deepcopy(self.data)
        d['references'] = [k.ref for k in self.kids]
        return d

    def flat(self):
        out = [self]
        for k in self.kids:
            out += k.flat()
        return out


def flag(layer, key):
    own = layer.data.get(key) or False
    overs = dict(layer.data.get('comp_overrides', {}))
    up = layer.parent
    while up:
        overs.update(up.data.get('comp_overrides', {}))
        up = up.parent
    return overs.get(layer.ref, {}).get(key, own)


def active(layers):
    soloed = [l for l in layers if flag(l, 'solo')]
    return [l for l in (soloed or layers) if not flag(l, 'mute')]


def compose(layers):
    """{path: what is seen there} of active layers, strongest first."""
    specs = {}
    for l in layers:
        for p, d in l.data['nodes'].items():
            specs.setdefault(p, []).append((l, d))
    inst = {}
    for p in specs:
        for _, d in specs[p]:
            if d.get('instance') is not None:   # '' is an opinion too
                inst[p] = d['instance']
                break
    paths = set(specs)
    source = dict(inst)
    for r in sorted(p for p in paths if p.count('/') == 1 and p in inst):
        src = inst[r]
        if not src:
            continue
        for p in sorted(paths):
            if not p.startswith(src + '/'):
                continue
            q = r + p[len(src):]
            ends = [t for t in inst if inst[t] == '' and
                    (q + '/').startswith(t + '/')]
            if ends:            # one that says that it is no instance
                q = min(ends, key=len).rsplit('/', 1)[0]
            else:
                paths.add(q)
            while q != r:       # parents that are nowhere are led to as well
                source[q] = src + q[len(r):]
                q = q.rsplit('/', 1)[0]
    cls = {}

    def make(p):
        if p in cls:
            return cls[p]
        bases = []
        up = p
        if p != '/':
            while up.count('/') > 1:
                up = up.rsplit('/', 1)[0]
                if up in paths:
                    break
            else:
                up = '/'
            src = source.get(p)
            src = src if src in paths else None
            if up in paths and not (up == '/' and src):
                bases.append(make(up))
            if src:
                bases.append(make(src))
        c = type('n', tuple(bases), {})
        for l, d in reversed(specs.get(p, [])):
            for a, v in d.get('attrs', {}).items():
                setattr(c, a, v.get('value'))
                setattr(c, a + '#source', (l.path, p))
                for k in ('type', 'comment'):
                    if v.get(k) is not None:
                        setattr(c, a + '#' + k, v[k])
        own = {}
        for _, d in specs.get(p, []):
            for k in ('code', 'comment', 'start_point', 'execute_in'):
                if d.get(k) and k not in own:
                    own[k] = d[k]
            if d.get('enabled') is not None and 'enabled' not in own:
                own['enabled'] = d['enabled']
        if p != '/' and source.get(p) in paths:
            low = make(source[p]).own_
            for k in ('code', 'comment', 'enabled'):
                if k in low and k not in own:
                    own[k] = low[k]
        c.own_ = own
        cls[p] = c
        return c
    out = {}
    for p in paths:
        c = make(p)
        attrs = {}
        for a in dir(c):
            if a[0] == '_' or a == 'own_' or '#' in a:
                continue
            attrs[a] = [getattr(c, a), getattr(c, a + '#type', None),
                        getattr(c, a + '#comment', None),
                        list(getattr(c, a + '#source'))]
        out[p] = {'attrs': attrs, 'code': c.own_.get('code', []),
                  'comment': c.own_.get('comment'),
                  'enabled': c.own_.get('enabled'),
                  'start': bool(c.own_.get('start_point')),
                  'exec_in': c.own_.get('execute_in'),
                  'instance': source.get(p)}
    return out


def seen(stage, comp):
    out = {}
    paths = list(comp.descendants())
    if len(set(paths)) != len(paths):
        raise Violation('comp-twice', 'a node is there twice',
                        paths=sorted(paths))
    if comp.lookup('/') is not None:
        paths.append('/')
    for p in paths:
        node = comp.lookup(p)
        attrs = {}
        for a in stage.get_node_attr_names(node):
            data = stage.get_node_attr_data(node, a, comp, quiet=True)
            attrs[a] = [data.get('value'), data.get('type'),
                        stage.get_node_attr_comment(node, a),
                        list(stage.get_node_attr_source(node, a))]
        data = stage.get_node_data(node, comp)
        out[p] = {'attrs': attrs,
                  'code': list(stage.get_node_code_lines(node, comp, 'raw')),
                  'comment': stage.get_node_comment(node),
                  'enabled': data.get('enabled'),
                  'start': bool(data.get('start_point')),
                  'exec_in': stage.get_node_exec_in(node) or None,
                  'instance': data.get('instance')}
    return out


def differ(want, got, label, **facts):
    for p in sorted(set(want) | set(got)):
        a, b = want.get(p), got.get(p)
        if a == b:
            continue
        if a is None or b is None:
            raise Violation('comp-nodes', '{}: {} {}'.format(
                label, p, 'is missing' if b is None else 'should not be '
                'there'), path=p, **facts)
        for k in sorted(a):
            if k == 'attrs':
                for n in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(n) != b[k].get(n):
                        raise Violation(
                            'comp-attr', '{}: {}.{} is {}, not {}'.format(
                                label, p, n, b[k].get(n), a[k].get(n)),
                            path=p, **facts)
            elif a[k] != b[k]:
                raise Violation('comp-' + k, '{}: {} of {} is {!r}, not '
                                '{!r}'.format(label, k, p, b[k], a[k]),
                                path=p, **facts)


def names(layer, p):
    return [c.rsplit('/', 1)[1] for c in layer.children(
        p, layer.RETURNS.Path, ordered=True) if c.rsplit('/', 1)[0] == p]


def ordered(stage, comp, layers, model, label):
    """Children come in the order the strongest layer lists them, and in
    that of the instance source where no layer says."""
    for p in sorted(model):
        if p == '/':
            continue
        got = names(comp, p)
        own = [l for l in layers if l.lookup(p) is not None]
        want = names(own[0], p) if own else []
        if not own and model[p]['instance'] in model:
            want = list(stage.get_node_child_order(
                comp.lookup(model[p]['instance'])))
        if [c for c in got if c in want] != [c for c in want if c in got]:
            raise Violation('comp-order', '{}: the children of {} are in '
                            'order {}, not {}'.format(label, p, got, want),
                            path=p)


def run(w, s):
    import random
    work = w.root + '/work'
    counts = {'comps': 0, 'reopens': 0, 'saves': 0, 'failed': 0, 'died': 0,
              'added': 0, 'removed': 0, 'edits': 0, 'most_layers': 0}

    placed = set()

    def place(name, under=None):
        """Absolute path and the way to reference it."""
        sub = 'd_' + name if name != 'g0' and (s['namesakes'] or (
            s['subdirs'] and ord(name[-1]) % 2)) else ''
        top = os.path.dirname(under) if under else work
        if s['namesakes'] and top != work and \
                top + '/m.nxt' not in placed:
            # Referenced by the same path from different folders
            placed.add(top + '/m.nxt')
            return top + '/m.nxt', 'm.nxt'
        d = os.path.join(top, sub) if sub else top
        if not os.path.isdir(d):
            os.mkdir(d)
        return os.path.join(d, name + '.nxt'), os.path.join(sub, name + '.nxt')

    def tree(datas, parents, prefix):
        out = []
        for i, d in enumerate(datas):
            up = out[parents[i]] if parents[i] is not None else None
            path, ref = place('{}{}'.format(prefix, i), up.path if up else None)
            l = Layer(copy.deepcopy(d), path, ref if up else path, up)
            if up:
                up.kids.append(l)
            out.append(l)
        return out
    layers = tree(s['layers'], s['parents'], 'g')
    for i, j, key, v in s['over']:
        if j not in [k for k in range(len(layers))
                     if layers[k] in layers[i].flat()[1:]]:
            continue
        o = layers[i].data.setdefault('comp_overrides', {})
        o.setdefault(layers[j].ref, {'mute': False, 'solo': False})[key] = v
    spare = tree(s['spare'], s['spare_parents'], 's')
    disk = {}
    for l in layers + spare:
        graphs.write(l.path, l.file())
        disk[l.path] = l.file()
    top_path = layers[0].path
    spare_refs = {l.path: l for l in spare}
    state = {'top': layers[0], 'fresh': 0}
    w.fs.allow = ('crash', 'crash_after', 'crash_torn') \
        if s['mode'] == 'crash' else ('EIO', 'EACCES', 'ENOSPC',
                                      'torn_ENOSPC', 'EROFS')
    w.fs.filter = lambda kind, path: str(path).startswith(work) and kind in (
        'open_w', 'write', 'rename', 'fsync', 'close')
    w.faults_on = False

    def from_disk(path, ref, parent):
        """The layers a process finds when it opens a file."""
        d = copy.deepcopy(disk[path])
        refs = d.pop('references', [])
        l = Layer(d, path, ref, parent)
        for r in refs:
            sub = os.path.normpath(os.path.join(os.path.dirname(path), r))
            l.kids.append(from_disk(sub, r, l))
        return l

    def check_stack(stage, label):
        want = state['top'].flat()
        have = stage._sub_layers
        counts['most_layers'] = max(counts['most_layers'], len(want))
        if [l.real_path for l in have] != [l.path for l in want]:
            raise Violation('layer-stack', '{}: the layers are {}, not {}'
                            .format(label, [os.path.basename(l.real_path)
                                            for l in have],
                                    [os.path.basename(l.path)
                                     for l in want]), after=label)
        for i, (h, l) in enumerate(zip(have, want)):
            if h.layer_idx() != i:
                raise Violation('layer-index', '{}: layer {} says it is {}'
                                .format(label, i, h.layer_idx()))
            for key, fn in (('mute', h.get_muted), ('solo', h.get_soloed)):
                if bool(fn()) != bool(flag(l, key)):
                    raise Violation('layer-flag', '{}: {} of {} is {}'.format(
                        label, key, os.path.basename(l.path), fn()),
                        after=label)
                if bool(fn(local=True)) != bool(l.data.get(key)):
                    raise Violation('layer-flag', '{}: own {} of {} is {}'
                                    .format(label, key,
                                            os.path.basename(l.path),
                                            fn(local=True)), after=label)

    def check(stage, rng, label):
        check_stack(stage, label)
        want = state['top'].flat()
        before = [graphs.dump(l.get_save_data()) for l in stage._sub_layers]
        for k in sorted({0, rng.randrange(len(want))}):
            comp = stage.build_stage(from_idx=k)
            counts['comps'] += 1
            on = active(want[k:])
            model = compose(on)
            differ(model, seen(stage, comp), label, first=k)
            if on:
                ordered(stage, comp, [stage._sub_layers[want.index(l)]
                                      for l in on], model, label)
                if comp.real_path != on[0].path:
                    raise Violation('comp-path', '{}: the graph says it is {}'
                                    .format(label, comp.real_path))
        if rng.random() < 0.3:
            a = util.snapshot(stage, stage.build_stage(), sources=True)
            b = util.snapshot(stage, stage.build_stage(), sources=True)
            if a != b:
                raise Violation('comp-unstable', label + ': composing again '
                                'gives another graph')
        after = [graphs.dump(l.get_save_data()) for l in stage._sub_layers]
        if before != after:
            raise Violation('comp-writes', label + ': composing changed a '
                            'layer')
        w.note_state(len(want), tuple(bool(flag(l, 'mute')) * 2 +
                                      bool(flag(l, 'solo')) for l in want))

    def norm_nodes(nodes):
        out = {}
        for p, d in nodes.items():
            d = {k: v for k, v in d.items()
                 if v not in (None, [], {}) and k != 'child_order'}
            out[p] = d
        return out

    def check_file(l, label):
        got = graphs.read(l.path)
        want = l.file()
        for key in ('references', 'comp_overrides'):
            if (got.get(key) or None) != (want.get(key) or None):
                raise Violation('layer-file', '{}: {} of {} are {}, not {}'
                                .format(label, key, os.path.basename(l.path),
                                        got.get(key), want.get(key)),
                                after=label)
        for key in ('mute', 'solo'):
            if bool(got.get(key)) != bool(want.get(key)):
                raise Violation('layer-file', '{}: {} of {} is {}'.format(
                    label, key, l.path, got.get(key)), after=label)
        if norm_nodes(got.get('nodes', {})) != norm_nodes(want['nodes']):
            raise Violation('layer-file', '{}: nodes of {} differ'.format(
                label, os.path.basename(l.path)), after=label)

    def on_disk(l):
        d = l.file()
        d['nodes'] = copy.deepcopy(d['nodes'])
        return d

    def failed(e, was):
        counts['failed'] += 1
        if sum(w.fault_counts.values()) == was:
            raise Violation('layer-failed', 'a layer failed with nothing '
                            'wrong: {!r}'.format(e))

    def save(stage, i, label):
        l = state['top'].flat()[i]
        counts['saves'] += 1
        old = disk[l.path]
        state['dying'] = (l.path, old, on_disk(l))
        w.faults_on = True
        was = sum(w.fault_counts.values())
        try:
            stage._sub_layers[i].save()
        except OSError as e:
            failed(e, was)
        else:
            disk[l.path] = on_disk(l)
            check_file(l, label)
        finally:
            w.faults_on = False
        state['dying'] = None

    def life(p, ops):
        from nxt.session import Session
        stage = Session().load_file(top_path)
        counts['reopens'] += 1
        rng = random.Random(len(ops) * 7919)
        # Changes come before or after anything is composed
        if rng.random() < 0.5:
            check(stage, rng, 'opened')
        else:
            check_stack(stage, 'opened')
        for op, seed in ops:
            rng = random.Random(seed)
            state['left'] -= 1
            done = apply(stage, op, rng)
            if done is None:
                continue
            if done == 'reopen':
                return
            if rng.random() < 0.7:
                check(stage, rng, op)
            else:
                check_stack(stage, op)
        check(stage, rng, 'the last change')

    def apply(stage, op, rng):
        flat = state['top'].flat()
        i = rng.randrange(len(flat))
        l, layer = flat[i], stage._sub_layers[i]
        top, mtop = stage.top_layer, state['top']
        v = rng.random() < 0.6
        if op in ('mute', 'solo'):
            (layer.set_muted if op == 'mute' else layer.set_soloed)(v)
            l.data[op] = v
        elif op in ('mute_over', 'solo_over'):
            if i == 0:
                return None
            key = op[:4]
            # What a layer in between says of it gives way to the top
            if any(l.ref in x.data.get('comp_overrides', {})
                   for x in flat[1:]):
                if l.ref not in mtop.data.get('comp_overrides', {}):
                    return None
            (top.set_mute_over if key == 'mute' else top.set_solo_over)(
                layer.filepath, v)
            mtop.data.setdefault('comp_overrides', {}).setdefault(
                l.ref, {})[key] = v
        elif op in ('attr', 'delattr', 'code', 'enabled', 'comment',
                    'instance'):
            paths = sorted(p for p in l.data['nodes'] if p != '/')
            if not paths:
                return None
            p = rng.choice(paths)
            node = layer.lookup(p)
            d = l.data['nodes'][p]
            counts['edits'] += 1
            if op == 'attr':
                a = rng.choice(ATTRS)
                val = 'new{}'.format(rng.randrange(100))
                attrs = d.setdefault('attrs', {})
                if a in attrs:
                    stage.node_setattr_data(node, a, layer, False, value=val,
                                            type='raw')
                    attrs[a]['value'] = val
                    attrs[a]['type'] = 'raw'
                else:
                    got = stage.add_node_attr(node, a, {'value': val,
                                                        'type': 'raw'}, layer)
                    if got != a:
                        return None if got in attrs else attrs.__setitem__(
                            got, {'value': val, 'type': 'raw'}) or True
                    attrs[a] = {'value': val, 'type': 'raw'}
            elif op == 'delattr':
                if not d.get('attrs'):
                    return None
                a = rng.choice(sorted(d['attrs']))
                stage.delete_node_attr(node, a)
                del d['attrs'][a]
            elif op == 'code':
                comp = stage.build_stage()
                if comp.lookup(p) is None:
                    return None
                lines = ['# e{}'.format(rng.randrange(100))
                         for _ in range(rng.randrange(3))]
                stage.set_node_code_lines(node, list(lines), comp)
                d['code'] = lines
            elif op == 'comment':
                c = rng.choice(['c1', 'c2', None])
                stage.set_node_comment(node, c, layer)
                d['comment'] = c
            elif op == 'enabled':
                e = rng.choice([True, False, None])
                comp = stage.build_stage()
                if comp.lookup(p) is None:
                    return None
                stage.node_setattr_data(node, '_enabled', layer, False,
                                        comp_layer=comp, value=e)
                d['enabled'] = e
            else:
                if p == '/a':
                    return None
                if p.count('/') > 1:
                    src = rng.choice([None, ''])
                else:
                    src = rng.choice([None, '', gen_source(rng, p),
                                      gen_source(rng, p)])
                stage.set_node_instance_path(node, src, layer)
                d['instance'] = src
        elif op == 'node':
            p = gen_path(rng)
            up = p.rsplit('/', 1)[0]
            if p in l.data['nodes'] or (up and up not in l.data['nodes']) \
                    or any(p in x.data['nodes'] for x in flat):
                return None
            nodes, _ = stage.add_node(name=p.rsplit('/', 1)[1], data={},
                                      parent=up or '/', layer=layer)
            got = layer.get_node_path(nodes[0])
            # A name in use elsewhere in the stage (by an implied node) is made
            # unique; where the node goes is not what is decided here
            if got in l.data['nodes'] or got.rsplit('/', 1)[0] != up:
                raise Violation('added-elsewhere', '{} added as {}'.format(
                    p, got))
            l.data['nodes'][got] = {}
            counts['edits'] += 1
        elif op == 'save':
            save(stage, i, op)
        elif op == 'save_all':
            for j in reversed(range(len(flat))):
                save(stage, j, op)
        elif op == 'reopen':
            return 'reopen'
        elif op in ('new', 'reference'):
            return add(stage, op, i, rng)
        elif op == 'remove':
            if i == 0:
                return None
            stage.remove_sublayer(i if rng.random() < 0.5 else layer)
            l.parent.kids.remove(l)
            counts['removed'] += 1
        return op

    def add(stage, op, i, rng):
        """A layer below layer i, as strong as can be."""
        from nxt import nxt_io
        flat = state['top'].flat()
        up, up_layer = flat[i], stage._sub_layers[i]
        used = {x.path for x in flat}
        if op == 'new':
            state['fresh'] += 1
            path = work + '/n{}.nxt'.format(state['fresh'])
            data = {'alias': 'new', 'nodes': {}}
            l = Layer(copy.deepcopy(data), path, path, up)
            data = {'alias': 'new'}
        else:
            # Nothing that is open already, or leads to something open
            free = [p for p in sorted(disk)
                    if not ({x.path for x in from_disk(p, p, None).flat()}
                            & used)]
            if not free:
                return None
            path = rng.choice(free)
            l = from_disk(path, path, up)
            data = nxt_io.load_file_data(path)
        data.update({'parent_layer': up_layer, 'filepath': path,
                     'real_path': path})
        state['dying'] = (path, disk.get(path), None)
        w.faults_on = True
        was = sum(w.fault_counts.values())
        try:
            stage.new_sublayer(layer_data=data, idx=i + 1)
        except OSError as e:
            failed(e, was)
            state['dying'] = None
            return 'failed ' + op       # and nothing changed
        finally:
            w.faults_on = False
        state['dying'] = None
        up.kids.insert(0, l)
        counts['added'] += 1
        for x in l.flat():
            disk[x.path] = on_disk(x)
        return op

    state['left'] = len(s['ops'])
    n = 0
    while True:
        state['dying'] = None
        state['top'] = from_disk(top_path, top_path, None)
        ops = s['ops'][len(s['ops']) - state['left']:]
        last = not ops
        p = SimProcess(w, 'life{}'.format(n), cwd=work)
        t = p.run(lambda p: life(p, ops))
        w.faults_on = False
        if t.exc is not None:
            raise t.exc if isinstance(t.exc, Violation) else Violation(
                'crashed', 'composing broke with {!r}'.format(t.exc),
                error=type(t.exc).__name__, where=p.tracebacks[-1][-400:])
        if p.crashed:
            counts['died'] += 1
            if state['dying']:
                # Either all old or all new (C01); which of them shows
                path, old, new = state['dying']
                got = graphs.read(path)
                if new is not None and got is not None:
                    l = next(x for x in state['top'].flat()
                             if x.path == path)
                    try:
                        check_file(l, 'died')
                        disk[path] = new
                    except Violation:
                        pass
                elif new is None and got is not None and old is None:
                    disk[path] = {'alias': 'new', 'nodes': {}}
        n += 1
        if last:
            break
    return dict(counts, nontrivial=counts['comps'] > 2)
