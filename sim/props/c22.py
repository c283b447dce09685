"""C22: edits show in the composed graph they are made on."""
import copy
import json
import random

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess
from .c03 import KINDS, POOLS, instance_loop, ordered, parent_of

LEVEL = 'exploration'
QUICK = {'cases': 1200, 'budget': 60, 'chunk': 25}
THOROUGH = {'cases': 60000, 'budget': 2400, 'chunk': 100}
RULE = ('Histories of edits of values (attributes, code, enabled states, '
        'child orders) that are handed the composed graph somebody works on, '
        'on every layer of it, between changes of structure and of muted '
        'layers after which it is composed anew, and saves that meet disk '
        'faults; after each edit the graph is compared with one composed '
        'from the layers at that moment, also by another process.')
REAL = 'stage editing API, layers, composition, token resolving, saver, loader'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['Nothing instances something inside itself, and nothing that '
           'instances lies below something that does.',
           'After changes of structure the graph is composed anew.']
VALUES = ['attr', 'setattr', 'setattr', 'delattr', 'renattr', 'attr_comment',
          'code', 'code', 'enabled', 'enabled', 'order', 'order', 'world']
OTHER = ['add', 'delete', 'instance', 'instance', 'uninstance', 'mute',
         'rename', 'save']


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    names = rng.choice(POOLS)
    layers = [graphs.layer(rng, 'L{}'.format(i), n_nodes=rng.randrange(1, 7),
                           names=names) for i in range(n)]
    for l in layers:
        for p, d in l['nodes'].items():
            if p != '/' and rng.random() < 0.3:
                d['enabled'] = rng.random() < 0.5
    if rng.random() < 0.5:      # each instances the next, or all the last
        chain = ['/' + x for x in rng.sample(names, min(4, len(names)))]
        star = [chain[-1]] * 4
        for a, b in zip(chain[:-1], rng.choice([chain[1:], chain[1:], star])):
            rng.choice(layers)['nodes'].setdefault(a, {})['instance'] = b
        layers[0]['nodes'].setdefault(chain[-1], {})
    unnest(layers)
    pool = VALUES if rng.random() < 0.5 else rng.sample(sorted(set(VALUES)),
                                                        3)
    ops = []
    for _ in range(rng.randrange(2, 12 if tier == 'quick' else 25)):
        ops.append([rng.choice(OTHER if rng.random() < 0.2 else pool),
                    rng.randrange(n), rng.randrange(1 << 20)])
    return {'layers': layers, 'ops': ops, 'names': names,
            'rates': {'fs': rng.choice([0, 0.2])}}


def nested(all_nodes):
    """Paths that instance something below others that do."""
    having = {p for nodes in all_nodes for p, d in nodes.items()
              if d.get('instance')}
    return [p for p in having if any(p.startswith(q + '/') for q in having)]


def unnest(layers):
    for p in nested([l['nodes'] for l in layers]):
        for l in layers:
            l['nodes'].get(p, {}).pop('instance', None)


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for i, l in enumerate(s['layers']):
        for p in sorted(l['nodes'], reverse=True):
            if p != '/':
                new = copy.deepcopy(s)
                del new['layers'][i]['nodes'][p]
                yield new
        for p in sorted(l['nodes']):
            for k in sorted(l['nodes'][p]):
                new = copy.deepcopy(s)
                del new['layers'][i]['nodes'][p][k]
                yield new


class Saved(object):
    """What instance_loop looks at."""

    def __init__(self, layer):
        self.nodes = layer.get_save_data().get('nodes', {})


def composable(stage):
    saved = [Saved(l) for l in stage._sub_layers]
    return not instance_loop(saved) and not nested([l.nodes for l in saved])


class Editor(object):
    def __init__(self, stage, names):
        self.stage, self.names = stage, names
        self.live = stage.build_stage()

    def rebuild(self):
        if not composable(self.stage):
            return False
        self.live = self.stage.build_stage()
        return True

    def apply(self, kind, li, salt):
        rng = random.Random(salt)
        layer = self.stage._sub_layers[li]
        nodes = self.nodes = Saved(layer).nodes
        paths = sorted(p for p in nodes if p != '/')
        p = rng.choice(paths) if paths else None
        if kind == 'world':
            p = '/' if '/' in nodes and layer.lookup('/') else None
            kind = rng.choice(['setattr', 'code', 'attr'])
        if p is None and kind not in ('add', 'mute'):
            return None
        return getattr(self, 'do_' + kind)(
            rng, layer, p, nodes.get(p) or {},
            layer.lookup(p) if p else None)

    # values
    def do_attr(self, rng, layer, p, data, node):
        t, v = graphs.attr_value(rng)
        return self.stage.add_node_attr(node, rng.choice(graphs.ATTRS),
                                        {'value': v, 'type': t}, layer)

    def do_setattr(self, rng, layer, p, data, node):
        a = rng.choice(sorted(data.get('attrs', {})) * 2 + graphs.ATTRS)
        v = rng.choice(sorted(KINDS) + ['${name}', '${/%s.a}' % self.names[0]])
        if '$' in v and a in ('a', 'name', 'other'):    # tokens end there
            return None
        self.stage.node_setattr_data(node, a, layer, True,
                                     comp_layer=self.live, value=v)
        return a, v

    def do_attr_comment(self, rng, layer, p, data, node):
        if not data.get('attrs'):
            return None
        a = rng.choice(sorted(data['attrs']))
        c = rng.choice(['why', 'because', None, ''])
        self.stage.node_setattr_comment(node, a, layer, c)
        return a, c

    def do_delattr(self, rng, layer, p, data, node):
        if not data.get('attrs'):
            return None
        a = rng.choice(sorted(data['attrs']))
        self.stage.delete_node_attr(node, a)
        return a

    def do_renattr(self, rng, layer, p, data, node):
        if not data.get('attrs'):
            return None
        a, to = rng.choice(sorted(data['attrs'])), rng.choice(graphs.ATTRS)
        if a == to or '$' in str(data['attrs'][a].get('value')):
            return None
        self.stage.rename_node_attr(node, a, to, layer)
        return a, to

    def do_code(self, rng, layer, p, data, node):
        if self.live.lookup(p) is None:     # only on a muted layer
            return None
        lines = ['# edit {}'.format(rng.randrange(1000))
                 for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.5:
            self.stage.set_node_code_lines(node, lines, self.live)
        else:
            self.stage.node_setattr_data(node, '_code', layer, False,
                                         comp_layer=self.live, value=lines)
        return lines

    def do_enabled(self, rng, layer, p, data, node):
        v = rng.choice([True, False, None])
        self.stage.node_setattr_data(node, '_enabled', layer, False,
                                     comp_layer=self.live, value=v)
        return v

    def do_order(self, rng, layer, p, data, node):
        order = list(data.get('child_order', []))
        if not self.live.lookup(p) or len(order) < 2:
            return None
        if ([q for q in self.live.get_node_dirties(p) if q != p] or
                getattr(self.live.lookup(p), '_instance', None)):
            return None     # not claimed for nodes at an end of an instance
        rng.shuffle(order)
        elsewhere = [c for l in self.stage._sub_layers
                     if l is not layer and not l.get_muted()
                     for c in Saved(l).nodes.get(p, {}).get('child_order', ())]
        own = [q for q in self.nodes if parent_of(q) == p]
        if rng.random() < 0.5 and not own and set(order) <= set(elsewhere):
            order = []
        self.stage.node_setattr_data(node, '_child_order', layer, False,
                                     comp_layer=self.live, value=order)
        return order

    # structure
    def done(self):
        return () if self.rebuild() else False

    def do_add(self, rng, layer, p, data, node):
        self.stage.add_node(name=rng.choice(self.names), layer=layer,
                            parent=rng.choice([p, '/']) if p else '/')
        return self.done()

    def do_delete(self, rng, layer, p, data, node):
        self.stage.delete_node(node, layer)
        return self.done()

    def do_rename(self, rng, layer, p, data, node):
        self.stage.set_node_name(node, rng.choice(self.names), layer)
        return self.done()

    def do_instance(self, rng, layer, p, data, node):
        pool = sorted({q for l in self.stage._sub_layers
                       for q in Saved(l).nodes if q != '/' and
                       q.split('/')[1] != p.split('/')[1]})
        to = rng.choice(pool) if pool else None
        if to is None or nested([Saved(l).nodes for l in
                                 self.stage._sub_layers] +
                                [{p: {'instance': to}}]):
            return None
        self.stage.node_setattr_data(node, '_instance', layer, False,
                                     value=to)
        return self.done()

    def do_uninstance(self, rng, layer, p, data, node):
        self.stage.node_setattr_data(node, '_instance', layer, False,
                                     value=None)
        return self.done()

    def do_mute(self, rng, layer, p, data, node):
        if layer is self.stage.top_layer:
            return None
        layer.set_muted(rng.random() < 0.6)
        return self.done()

    def do_save(self, rng, layer, p, data, node):
        try:
            layer.save()
        except OSError:
            pass
        return ()


def look(stage, comp):
    return ordered(util.snapshot(stage, comp, resolved=True, sources='layers'))


def run(w, s):
    work = w.root + '/work'
    files = ['{}/g{}.nxt'.format(work, i) for i in range(len(s['layers']))]
    for i, data in enumerate(s['layers']):
        data = dict(data)
        if i == 0 and len(files) > 1:
            data['references'] = ['g{}.nxt'.format(k)
                                  for k in range(1, len(files))]
        graphs.write(files[i], data)
    counts = {'edits': 0, 'composed': 1}
    w.fs.filter = lambda kind, q: str(q).startswith(work)
    w.fs.allow = ('EIO', 'ENOSPC', 'EACCES', 'short', 'torn_ENOSPC')
    last = {}

    def body(p):
        from nxt.stage import Stage
        stage = Stage.load_from_filepath(files[0])
        if not composable(stage):
            return
        ed = Editor(stage, s['names'])
        for op in s['ops']:
            w.faults_on = op[0] == 'save'
            before = [Saved(l).nodes for l in stage._sub_layers]
            try:
                done = ed.apply(*op)
            finally:
                w.faults_on = False
            if done is False:
                return
            if done == () or done is None:
                counts['composed'] += done == ()
                continue
            counts['edits'] += 1
            w.log('edit', op[0], done)
            w.note_state(op[0], len(ed.live._nodes_path_as_key))
            for l, b in zip(stage._sub_layers, before):
                if l is not stage._sub_layers[op[1]] and Saved(l).nodes != b:
                    raise Violation('elsewhere', '{} on layer {} ({}) changed '
                                    'layer {}'.format(op[0], op[1], done,
                                                      l.get_alias()))
            live = look(stage, ed.live)
            fresh = look(stage, stage.build_stage())
            if live != fresh:
                raise Violation('not-shown', 'after {} on layer {} ({}) the '
                                'composed graph is not what the layers say: '
                                '{}'.format(op[0], op[1], done,
                                            where(live, fresh)))
            if look(stage, ed.live) != live:
                raise Violation('not-shown', 'looking changed the composed '
                                'graph after ' + op[0])
        for l in stage._sub_layers:
            l.save()
        last['shown'] = look(stage, ed.live)

    def again(p):
        from nxt.stage import Stage
        stage = Stage.load_from_filepath(files[0])
        found = look(stage, stage.build_stage())
        if found != last['shown']:
            raise Violation('not-shown', 'another process opens the saved '
                            'graph as something else than what the edited '
                            'one showed: ' + where(last['shown'], found))
    for name, fn in (('editor', body), ('reader', again)):
        if name == 'reader' and 'shown' not in last:
            break
        p = SimProcess(w, name)
        t = p.run(fn)
        if t.exc is not None:
            raise t.exc if isinstance(t.exc, Violation) else Violation(
                'crashed', 'an edit broke with {!r}'.format(t.exc),
                where=p.tracebacks[-1][-300:])
    return dict(counts, nontrivial=counts['edits'] > 1)


def where(a, b):
    a, b = json.loads(a), json.loads(b)
    for p in sorted(set(a) | set(b)):
        if p not in a or p not in b:
            return '{} is {} in it'.format(p, 'not' if p not in a else 'only')
        for k in sorted(b[p]):
            if a[p].get(k) != b[p][k]:
                return '{} {}: {!r} instead of {!r}'.format(
                    p, k, a[p].get(k), b[p][k])
    return ''
