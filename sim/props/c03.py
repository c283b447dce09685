"""C03: edit, save, crash and reopen histories."""
import copy
import json

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 650, 'budget': 90, 'chunk': 20}
THOROUGH = {'cases': 40000, 'budget': 3000, 'chunk': 50}
RULE = ('Random histories of edits through the stage API on a two or three '
        'layer graph, with saves of either layer, crashes between and within '
        'saves, I/O errors in saves, and reopening by a new process; a plain '
        'dictionary model of the save files predicts every file and every '
        'reopened graph.')
REAL = 'nxt sessions, stage editing API, layers, loader, saver, composition'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['process death, not power loss']

OPS = ['add', 'add', 'add', 'add', 'delete', 'delete_all', 'rename', 'rename',
       'parent', 'parent', 'attr', 'attr', 'setattr', 'setattr', 'delattr',
       'renattr', 'code', 'code', 'comment', 'enabled', 'start', 'instance',
       'exec_in', 'layer', 'position', 'collapse', 'attr_comment', 'duplicate',
       'uninstance', 'override', 'order', 'order', 'parent_many', 'world',
       'transfer', 'unplace']
THEMES = [
    ['layer', 'override', 'override', 'override', 'position', 'collapse',
     'unplace', 'rename', 'delete'],
    ['add', 'add', 'add', 'delete', 'delete', 'rename', 'parent', 'parent',
     'parent_many', 'duplicate', 'order', 'delete_all'],
    ['add', 'delete', 'delete', 'rename', 'parent', 'parent', 'collapse',
     'delete_all', 'position'],
    ['attr', 'attr', 'setattr', 'delattr', 'renattr', 'attr_comment',
     'duplicate', 'transfer'],
    ['code', 'comment', 'enabled', 'start', 'instance', 'uninstance',
     'exec_in', 'world', 'transfer', 'rename']]
# Few names meet more often, and some begin like others
POOLS = [['alpha', 'alphabet', 'beta'], ['et', 'eta', 'eps', 'eps1'],
         ['Beta', 'beta', 'eps', 'eps1'], ['gamma', 'delta'], graphs.NAMES]


def generate(rng, tier):
    n_layers = rng.choice([1, 2, 2, 3, 3])
    names = rng.choice(POOLS)
    layers = []
    for i in range(n_layers):
        layers.append(graphs.layer(rng, 'L{}'.format(i),
                                   n_nodes=rng.randrange(1, 7),
                                   names=names))
        if rng.random() < 0.3:
            layers[-1].setdefault('meta_data', {})['notes'] = {'kept': i}
    lives = []
    kind = rng.random()
    theme = OPS if kind < 0.3 else rng.choice(THEMES) if kind < 0.8 else \
        rng.sample(sorted(set(OPS)), 4)
    for _ in range(rng.randrange(1, 4)):
        ops = []
        for _ in range(rng.randrange(1, 14 if tier == 'quick' else 30)):
            if rng.random() < 0.2:
                ops.append(['save', rng.randrange(n_layers)])
            else:
                ops.append([rng.choice(theme), rng.randrange(n_layers),
                            rng.randrange(1 << 20)])
        ops.append([rng.choice(['save', 'save_all', 'save_all', 'crash',
                                'exit']), rng.randrange(n_layers)])
        lives.append(ops)
    return {'layers': layers, 'lives': lives, 'names': names,
            'rates': {'fs': rng.choice([0, 0, 0.02, 0.1])}}


def shrink(s):
    for i in range(len(s['lives'])):
        if len(s['lives']) > 1:
            yield dict(s, lives=s['lives'][:i] + s['lives'][i + 1:])
    for i, ops in enumerate(s['lives']):
        for j in range(len(ops)):
            lives = list(s['lives'])
            lives[i] = ops[:j] + ops[j + 1:]
            yield dict(s, lives=lives)
    for i, l in enumerate(s['layers']):
        for d in graphs.fewer_nodes(l):
            layers = list(s['layers'])
            layers[i] = d
            yield dict(s, layers=layers)


class Model(object):
    """What each layer file holds: {path: node data} plus layer settings."""

    def __init__(self, data):
        self.d = norm(data)

    @property
    def nodes(self):
        return self.d['nodes']

    def paths(self):
        return sorted(p for p in self.nodes if p != '/')

    def under(self, path):
        return [p for p in self.nodes if p.startswith(path + '/')]

    def move(self, old, new, top):
        moved = {}
        for p in [old] + self.under(old):
            if p in self.nodes:
                moved[new + p[len(old):]] = self.nodes.pop(p)
                # The top layer keeps what is folded for those below it
                for m in (self, top):
                    if p in m.d['collapse']:
                        m.d['collapse'][new + p[len(old):]] = \
                            m.d['collapse'].pop(p)
        self.nodes.update(moved)


def norm(data):
    """The meaning of a save file (child order is compared when composed)."""
    d = graphs.content(data)
    for n in d['nodes'].values():
        n.pop('child_order', None)
    d.pop('positions', None)
    d.pop('collapse', None)
    for k in ('positions', 'collapse'):
        d[k] = dict(data.get('meta_data', {}).get(k, {}))
    for k in ('aliases', 'colors', 'locks', 'notes'):
        d[k] = dict(data.get('meta_data', {}).get(k, {}))
    d['comp_overrides'] = json.loads(json.dumps(
        data.get('comp_overrides', {})))
    if data.get('lock'):
        d['lock'] = True
    return copy.deepcopy(d)


def parent_of(p):
    return p.rsplit('/', 1)[0] or '/'


def ordered(snap):
    """A snapshot in comparable form; roots are not ordered."""
    s = copy.deepcopy(snap)
    s['']['children'] = sorted(s['']['children'])
    return json.dumps(s, sort_keys=True, default=str)


def instance_loop(layers):
    """Would composing these layers instance something inside itself?"""
    edges = {}
    for m in layers:
        for p, n in m.nodes.items():
            if n.get('instance') and p != '/':
                edges.setdefault(p.split('/')[1], set()).add(
                    n['instance'].split('/')[1])
    for r in edges:
        seen, todo = set(), list(edges[r])
        while todo:
            x = todo.pop()
            if x == r:
                return True
            if x not in seen:
                seen.add(x)
                todo += edges.get(x, ())
    return False


KINDS = {'3': 'int', '4.5': 'float', 'text': 'raw', '[1, 2]': 'list',
         '${other}': 'raw', "'q'": 'str', '{}': 'dict', 'True': 'bool'}


class Editor(object):
    """Applies one random edit to the real stage and to the model."""

    def __init__(self, stage, models, note, names=graphs.NAMES):
        self.names = names
        self.stage = stage
        self.models = models
        self.note = note

    def apply(self, kind, li, salt):
        import random
        rng = random.Random(salt)
        layer = self.stage._sub_layers[li]
        m = self.models[li]
        before = self.orders(layer)
        done = getattr(self, 'do_' + kind)(rng, layer, m)
        if done == ():      # noted and checked already
            return done
        if done is not None:
            self.note(kind, li, done)
            self.same_order(kind, before, self.orders(layer), done)
        return done

    def orders(self, layer):
        return {p: list(n.get('child_order', [])) for p, n in
                layer.get_save_data().get('nodes', {}).items()}

    def same_order(self, kind, before, after, done):
        """Children an edit leaves alone keep their execution order."""
        want = {p: list(o) for p, o in before.items()}
        for change in self.moves(kind, done):
            want = change(want)
        for p in sorted(after):
            plan = want.get(p, [])
            # A node moved over implied ones may list their children last
            more = after[p][len(plan):] if kind in (
                'rename', 'parent', 'parent_many') else []
            if p != '/' and after[p] != plan + [
                    c for c in more if p + '/' + c in after]:
                raise Violation('wrong-order', 'after "{}" the children of {} '
                                'are ordered {}; they should be {}'.format(
                                    kind, p, after[p], want.get(p, [])))

    def moves(self, kind, done):
        """What an edit does to the order of children, step by step."""
        def name(p):
            return p.rsplit('/', 1)[1]

        def listed(p):
            def change(o):
                # A node over nodes that were there already lists those
                o.setdefault(p, sorted(name(q) for q in o
                                       if q != '/' and parent_of(q) == p))
                kids = o.get(parent_of(p))
                if parent_of(p) == '/':
                    kids = None
                if kids is not None and name(p) not in kids:
                    kids.append(name(p))
                return o
            return change

        def gone(p, whole):
            def change(o):
                left = [q for q in o if q.startswith(p + '/')]
                o.pop(p, None)
                if whole:
                    for q in left:
                        o.pop(q)
                kids = o.get(parent_of(p), [])
                if name(p) in kids and (whole or not left):
                    kids.remove(name(p))
                return o
            return change

        def renamed(p, q):
            def change(o):
                kids = o.get(parent_of(p), [])
                if name(p) in kids:
                    if name(q) in kids:     # of an implied node
                        kids.remove(name(q))
                    kids[kids.index(name(p))] = name(q)
                return moved(o, p, q)
            return change

        def moved(o, p, q):
            return {q + k[len(p):] if k == p or k.startswith(p + '/') else k:
                    v for k, v in o.items()}

        def parented(p, q):
            def change(o):
                left = [k for k in o if k != p and not k.startswith(p + '/')]
                was, o = o, moved(o, p, q)
                # The nearest real ancestor lists what it has below it
                up = p
                while up != '/' and parent_of(up) not in was:
                    up = parent_of(up)
                    if up == '/':
                        break
                if up != '/' and not any(k.startswith(up + '/') or k == up
                                         for k in left):
                    kids = o.get(parent_of(up), [])
                    if name(up) in kids:
                        kids.remove(name(up))
                return listed(q)(o)
            return change
        if kind == 'add':
            return [listed(done)]
        if kind == 'delete':
            return [gone(done, False)]
        if kind == 'delete_all':
            return [gone(done, True)]
        if kind == 'rename':
            return [renamed(*done)]
        if kind == 'parent':
            return [parented(*done)]
        if kind == 'parent_many':
            return [parented(p, q) for p, q in done]
        if kind == 'order':
            return [lambda o: dict(o, **{done[0]: done[1]})]
        if kind == 'duplicate':
            def change(o):
                for p, q in done:
                    kids = o[q]
                    o[q] = list(o[p])
                    o[q] += [k for k in kids if k not in o[q]]
                return o
            return [listed(q) for q in sorted(self.made)] + [
                listed(q) for p, q in done] + [change]
        if kind == 'transfer':
            made = done[2]

            def change(o):
                if done[1]:
                    own = sorted(name(q) for q in o if q != '/' and
                                 parent_of(q) == done[0])
                    o[done[0]] = list(done[1]) + [k for k in own
                                                  if k not in done[1]]
                return o
            return [listed(q) for q in made] + [change]
        return []

    def comp(self, rng):
        """Editors hand in the composed graph they show."""
        return self.stage.build_stage() if rng.random() < 0.4 else None

    def pick(self, rng, layer, m, placed=False):
        paths = m.paths()
        if not paths:
            return None, None
        p = rng.choice(paths)
        if placed and rng.random() < 0.5:
            # One with something kept about it or a node below
            kept = [q + '/' for q in list(m.d['collapse']) +
                    list(m.d['positions'])]
            p = rng.choice([x for x in paths if any(
                q.startswith(x + '/') for q in kept)] or paths)
        node = layer.lookup(p)
        if node is None:
            raise Violation('lost-node', 'the layer has no node {}'.format(p))
        return p, node

    def parents(self, rng, m):
        return rng.choice(['/', '/'] + m.paths())

    def do_add(self, rng, layer, m):
        name = rng.choice(self.names)
        parent = self.parents(rng, m)
        if parent != '/' and rng.random() < 0.15:
            parent += '/implied'
        data = {}
        if rng.random() < 0.5:
            data['code'] = ['# made {}'.format(rng.randrange(99))]
        if rng.random() < 0.5:
            data['comment'] = rng.choice(['c1', 'c2'])
        if rng.random() < 0.4:
            data['attrs'] = {'made': {'type': 'int', 'value': '7'}}
        model = copy.deepcopy(data)
        nodes, _ = self.stage.add_node(name=name, data=data, parent=parent,
                                       layer=layer, comp_layer=self.comp(rng))
        if len(nodes) != 1:
            raise Violation('wrong-add', 'added {} nodes'.format(len(nodes)))
        path = layer.get_node_path(nodes[0])
        if path is None or parent_of(path) != parent:
            raise Violation('wrong-add', 'a node added under {} is at {}'
                            .format(parent, path))
        if path in m.nodes:
            raise Violation('clobbered', 'a new node took the path {} of '
                            'another'.format(path))
        m.nodes[path] = model
        return path

    def do_duplicate(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        deep = rng.random() < 0.5
        before = set(m.nodes)
        made = self.stage.duplicate_node(node, layer, descendants=deep)
        nodes = made[0] if isinstance(made, tuple) else made
        new = [layer.get_node_path(n) for n in nodes]
        own = [q for q in new if parent_of(q) == parent_of(p)]
        self.made = []
        for q in layer.descendants(return_type=layer.RETURNS.Path):
            if p.startswith(q + '/') and q not in m.nodes:
                m.nodes[q] = {}         # missing parents may be made
                self.made.append(q)
        if len(own) != 1 or own[0] in before:
            raise Violation('wrong-duplicate', 'duplicating {} made {}'
                            .format(p, new))
        done = [(p, own[0])]
        if deep:
            done += [(q, own[0] + q[len(p):]) for q in sorted(m.under(p))
                     if self.joined(p, q, before)]
        for q, r in done:
            if r in before:
                raise Violation('clobbered', 'duplicating {} replaced {}'
                                .format(p, r))
            m.nodes[r] = copy.deepcopy(m.nodes[q])
        return done

    def joined(self, p, q, paths):
        """Is everything between two paths a node of the layer?"""
        while q != p:
            q = parent_of(q)
            if q not in paths:
                return False
        return True

    def do_order(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        order = self.orders(layer).get(p) if p else None
        if not order:
            return None
        order = list(order)
        rng.shuffle(order)
        comp = self.stage.build_stage()
        if rng.random() < 0.5 or comp.lookup(p) is None:
            comp = None
        self.stage.node_setattr_data(node, '_child_order', layer, False,
                                     comp_layer=comp, value=list(order))
        return p, order

    def do_parent_many(self, rng, layer, m):
        paths = m.paths()
        if len(paths) < 3:
            return None
        to = self.parents(rng, m)
        chosen = []
        for p in rng.sample(paths, rng.randrange(2, len(paths))):
            if p == to or to.startswith(p + '/') or parent_of(p) == to or \
                    any(q.startswith(p + '/') or p.startswith(q + '/')
                        for q in chosen):
                continue
            chosen.append(p)
        if not chosen:
            return None
        trial = [Model(want_as_file(mm.d)) for mm in self.models]
        for p in chosen:
            trial[self.models.index(m)].move(
                p, to.rstrip('/') + '/' + p.rsplit('/', 1)[1], trial[0])
            if instance_loop(trial):    # composing in between never ends
                return None
        got = self.stage.parent_nodes([layer.lookup(p) for p in chosen], to,
                                      layer)
        done = []
        for p in chosen:
            new = got.get(p)
            if new is None or parent_of(new) != to:
                raise Violation('wrong-parent', '{} moved under {} is at {}'
                                .format(p, to, new))
            if new in m.nodes:
                raise Violation('clobbered', 'moving {} took the path {} of '
                                'another node'.format(p, new))
            m.move(p, new, self.models[0])
            done.append((p, new))
        return done

    def do_world(self, rng, layer, m):
        node = layer.lookup('/')
        if node is None or '/' not in m.nodes:
            return None
        if rng.random() < 0.5:
            comp = self.stage.build_stage()
            if comp.lookup('/') is None:
                return None
            lines = ['import json'] * rng.randrange(3)
            self.stage.set_node_code_lines(node, list(lines), comp)
            m.nodes['/'].pop('code', None)
            if lines:
                m.nodes['/']['code'] = lines
            return len(lines)
        return self.set_comment(rng, layer, m, '/', node)

    def do_transfer(self, rng, layer, m):
        """Bring what a lower layer says about a node up to the top one."""
        top, tm = self.stage.top_layer, self.models[0]
        if layer is top:
            return None
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        before = self.orders(top)
        made = []
        target = top.lookup(p)
        if target is None:
            table, _ = self.stage.add_node_hierarchy(
                p.strip('/').split('/'), parent=None, layer=top)
            made = [q for q, _ in table]
            for q in made:
                tm.nodes[q] = {}
            target = top.lookup(p)
        self.stage.transfer_node_data(target, top, node, layer)
        src, dst = m.nodes[p], tm.nodes[p]
        for k in ('code', 'execute_in', 'comment', 'instance', 'start_point'):
            if k in src:
                dst[k] = copy.deepcopy(src[k])
        dst.pop('enabled', None)
        if 'enabled' in src:
            dst['enabled'] = src['enabled']
        for a, v in src.get('attrs', {}).items():
            if v.get('value') is None:
                continue
            old = dst.setdefault('attrs', {}).get(a)
            dst['attrs'][a] = {'value': v['value'], 'type': None}
            if v.get('comment'):
                dst['attrs'][a]['comment'] = v['comment']
        self.note('transfer', 0, p)
        self.same_order('transfer', before, self.orders(top),
                        (p, self.orders(layer).get(p), made))
        return ()

    def do_unplace(self, rng, layer, m):
        for k in ('positions', 'collapse'):
            if m.d[k]:
                p = rng.choice(sorted(m.d[k]))
                getattr(layer, k).pop(p)
                m.d[k].pop(p)
                return k, p
        return None

    def do_delete(self, rng, layer, m, desc=False):
        p, node = self.pick(rng, layer, m, True)
        if p is None:
            return None
        comp = self.comp(rng)
        if any(n.get('instance') for d in self.models for n in
               d.nodes.values()):
            comp = None     # recomposing instances is not what C03 is about
        ok, _ = self.stage.delete_node(node, layer, comp_layer=comp,
                                       delete_descendants=desc)
        if not ok:
            raise Violation('refused', 'deleting {} was refused'.format(p))
        m.nodes.pop(p)
        m.d['positions'].pop(p, None)
        m.d['collapse'].pop(p, None)
        if desc:
            for q in m.under(p):
                m.nodes.pop(q)
                m.d['positions'].pop(q, None)
                m.d['collapse'].pop(q, None)
        return p

    def do_delete_all(self, rng, layer, m):
        return self.do_delete(rng, layer, m, True)

    def do_rename(self, rng, layer, m):
        p, node = self.pick(rng, layer, m, True)
        if p is None:
            return None
        name = rng.choice(self.names)
        if name == p.rsplit('/', 1)[1]:
            return None
        new = self.stage.set_node_name(node, name, layer,
                                       comp_layer=self.comp(rng))
        if parent_of(new) != parent_of(p):
            raise Violation('wrong-rename', '{} became {}'.format(p, new))
        if new in m.nodes:
            raise Violation('clobbered', 'renaming {} took the path {} of '
                            'another node'.format(p, new))
        m.move(p, new, self.models[0])
        for mm in (m, self.models[0]):
            if p in mm.d['positions']:
                mm.d['positions'][new] = mm.d['positions'].pop(p)
        return p, new

    def do_parent(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        to = self.parents(rng, m)
        if to == p or to.startswith(p + '/') or parent_of(p) == to:
            return None
        got = self.stage.parent_nodes([node], to, layer)
        new = got.get(p)
        if new is None or parent_of(new) != to:
            raise Violation('wrong-parent', '{} moved under {} is at {}'
                            .format(p, to, new))
        if new in m.nodes:
            raise Violation('clobbered', 'moving {} took the path {} of '
                            'another node'.format(p, new))
        m.move(p, new, self.models[0])
        return p, new

    def do_attr(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        attr = rng.choice(graphs.ATTRS)
        t, v = graphs.attr_value(rng)
        if v == '':
            return None
        got = self.stage.add_node_attr(node, attr, {'value': v, 'type': t},
                                       layer)
        attrs = m.nodes[p].setdefault('attrs', {})
        if got in attrs:
            raise Violation('clobbered', 'adding an attribute to {} replaced '
                            '{}'.format(p, got))
        attrs[got] = {'type': t, 'value': v}
        return p, got

    def do_setattr(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        attrs = m.nodes[p].setdefault('attrs', {})
        attr = rng.choice(sorted(attrs) or ['fresh'])
        v = rng.choice(sorted(KINDS))
        had = attr in attrs
        self.stage.node_setattr_data(node, attr, layer, True, value=v)
        if had:
            attrs[attr]['value'] = v
            attrs[attr]['type'] = KINDS.get(v)
        else:
            attrs[attr] = {'value': v, 'type': None}
        return p, attr, v

    def do_attr_comment(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        attrs = m.nodes[p].get('attrs') if p else None
        if not attrs:
            return None
        attr = rng.choice(sorted(attrs))
        c = rng.choice(['why', 'because', None, ''])
        self.stage.node_setattr_comment(node, attr, layer, c)
        attrs[attr].pop('comment', None)
        if c:
            attrs[attr]['comment'] = c
        return p, attr, c

    def do_delattr(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        attrs = m.nodes[p].get('attrs') if p else None
        if not attrs:
            return None
        attr = rng.choice(sorted(attrs))
        self.stage.delete_node_attr(node, attr)
        del attrs[attr]
        return p, attr

    def do_renattr(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        attrs = m.nodes[p].get('attrs') if p else None
        if not attrs:
            return None
        attr = rng.choice(sorted(attrs))
        to = rng.choice(graphs.ATTRS)
        if to == attr:
            return None
        before = set(attrs)
        self.stage.rename_node_attr(node, attr, to, layer)
        from nxt.nxt_layer import get_node_local_attr_names
        now = set(get_node_local_attr_names(p, [layer]))
        new = now - before
        if len(new) != 1 or now - new != before - {attr}:
            raise Violation('clobbered', 'renaming attribute {} of {} turned '
                            '{} into {}'.format(attr, p, sorted(before),
                                                sorted(now)))
        attrs[new.pop()] = attrs.pop(attr)
        return p, attr, to

    def do_code(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        lines = ['# edit {}'.format(rng.randrange(1000))
                 for _ in range(rng.randrange(0, 3))]
        comp = self.stage.build_stage()
        if comp.lookup(p) is None:      # a muted layer
            return None
        self.stage.set_node_code_lines(node, list(lines), comp)
        m.nodes[p].pop('code', None)
        if lines:
            m.nodes[p]['code'] = lines
        return p, len(lines)

    def do_comment(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        return self.set_comment(rng, layer, m, p, node)

    def set_comment(self, rng, layer, m, p, node):
        c = rng.choice(['new comment', 'caf\u00e9', None])
        self.stage.set_node_comment(node, c, layer)
        m.nodes[p].pop('comment', None)
        if c:
            m.nodes[p]['comment'] = c
        return p, c

    def do_enabled(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        v = rng.random() < 0.5
        comp = self.stage.build_stage()
        self.stage.node_setattr_data(node, '_enabled', layer, False,
                                     comp_layer=comp, value=v)
        m.nodes[p]['enabled'] = v
        return p, v

    def do_start(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        v = rng.random() < 0.7
        self.stage.node_setattr_data(node, '_start_point', layer, False,
                                     value=v)
        m.nodes[p]['start_point'] = v
        return p, v

    def do_instance(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        pool = sorted({q for mm in self.models for q in mm.nodes
                       if q != '/' and q.split('/')[1] < p.split('/')[1]})
        if not pool:
            return None
        src = rng.choice(pool)
        self.stage.node_setattr_data(node, '_instance', layer, False,
                                     value=src)
        m.nodes[p]['instance'] = src
        return p, src

    def do_uninstance(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None or 'instance' not in m.nodes[p]:
            return None
        self.stage.node_setattr_data(node, '_instance', layer, False,
                                     value=None)
        m.nodes[p].pop('instance')
        return p

    def do_exec_in(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        roots = [q for q in m.paths() if q.count('/') == 1 and q != p]
        if p is None or p.count('/') > 1 or not roots:
            return None
        src = rng.choice(roots)
        self.stage.set_node_exec_in(node, src, layer)
        m.nodes[p]['execute_in'] = src
        return p, src

    def do_layer(self, rng, layer, m):
        k = rng.choice(['alias', 'color', 'mute', 'solo', 'lock'])
        if k == 'alias':
            v = rng.choice(['rig', 'anim'])
            layer.set_alias(v)
            m.d['alias'] = v
        elif k == 'color':
            v = rng.choice(['#112233', '#aabbcc'])
            layer.color = v
            m.d['color'] = v
        else:
            v = rng.random() < 0.4
            if k == 'mute':
                layer.set_muted(v)
            elif k == 'solo':
                layer.set_soloed(v)
            else:
                layer.set_locked(v)
            m.d.pop(k, None)
            if v:
                m.d[k] = True
        return k, v

    def do_override(self, rng, layer, m):
        top, tm = self.stage.top_layer, self.models[0]
        if layer is top:
            return None
        k = rng.choice(['alias', 'alias', 'color', 'lock', 'mute', 'solo'])
        key = layer.filepath
        if k in ('mute', 'solo'):
            v = rng.random() < 0.5
            (top.set_mute_over if k == 'mute' else top.set_solo_over)(key, v)
            tm.d['comp_overrides'].setdefault(key, {})[k] = v
            self.note('override', 0, (k, key, v))
            return k, v
        where = {'alias': 'aliases', 'color': 'colors', 'lock': 'locks'}[k]
        if key in tm.d[where] and rng.random() < 0.5:
            v = None
        else:
            v = rng.choice({'alias': ['mine', 'yours', None],
                            'color': ['#010203', '#aabbcc', None],
                            'lock': [True, False, None]}[k])
        {'alias': layer.set_alias_over, 'color': layer.set_color_over,
         'lock': layer.set_locked_over}[k](v)
        tm.d[where].pop(key, None)
        if v is not None:
            tm.d[where][key] = v
        self.note('override', 0, (k, key, v))
        return k, v

    def do_position(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        xy = [float(rng.randrange(3)), float(rng.randrange(3))]
        if rng.random() < 0.3:      # as editors do, for every layer's nodes
            layer, m = self.stage.top_layer, self.models[0]
        layer.positions[p] = xy
        m.d['positions'][p] = xy
        return p

    def do_collapse(self, rng, layer, m):
        p, node = self.pick(rng, layer, m)
        if p is None:
            return None
        v = rng.random() < 0.6
        if rng.random() < 0.3:
            layer, m = self.stage.top_layer, self.models[0]
        layer.collapse[p] = v
        m.d['collapse'][p] = v
        return p


def compare(want, data, what):
    """Raise unless a save dictionary says what the model says."""
    got = norm(data)
    want = copy.deepcopy(want)
    for path, n in want['nodes'].items():
        for attr, a in n.get('attrs', {}).items():
            if a.get('type') is None:
                a['type'] = got['nodes'].get(path, {}).get(
                    'attrs', {}).get(attr, {}).get('type')
                if a['type'] is None:
                    a.pop('type')
    want = norm(want_as_file(want))
    if got == want:
        return
    if set(got['nodes']) != set(want['nodes']):
        raise Violation('wrong-nodes', '{} has the nodes {}; the edits made '
                        '{}'.format(what, sorted(got['nodes']),
                                    sorted(want['nodes'])))
    for p in sorted(want['nodes']):
        if got['nodes'][p] != want['nodes'][p]:
            raise Violation('wrong-node-data', '{}: {} is {}; the edits made '
                            'it {}'.format(what, p, got['nodes'][p],
                                           want['nodes'][p]))
    for k in sorted(set(want) | set(got)):
        if got.get(k) != want.get(k):
            raise Violation('wrong-layer-data', '{}: {} is {}; the edits '
                            'made it {}'.format(what, k, got.get(k),
                                                want.get(k)))


def want_as_file(want):
    meta = ('positions', 'collapse', 'aliases', 'colors', 'locks', 'notes')
    d = {k: v for k, v in want.items() if k not in meta}
    d['meta_data'] = {k: want[k] for k in meta}
    return d


def run(w, s):
    files = [w.root + '/work/g{}.nxt'.format(i)
             for i in range(len(s['layers']))]
    durable = []
    for i, data in enumerate(s['layers']):
        data = dict(data)
        if i == 0 and len(files) > 1:
            data['references'] = ['g{}.nxt'.format(k)
                                  for k in range(1, len(files))]
        graphs.write(files[i], data)
        durable.append(Model(data))
    counts = {'edits': 0, 'saves': 0, 'saves_failed': 0, 'reopens': 0,
              'edit_kinds': 0}
    state = {'durable': durable, 'expect': None, 'in_save': None,
             'orders': {}}
    w.fs.allow = ('crash', 'crash_after', 'crash_torn', 'ENOSPC', 'EIO',
                  'torn_ENOSPC', 'short', 'EACCES')

    def life(p, ops):
        from nxt.session import Session
        sess = Session()
        stage = sess.load_file(files[0])
        counts['reopens'] += 1
        models = [Model(want_as_file(m.d)) for m in state['durable']]
        for m, d in zip(models, state['durable']):
            for path in m.nodes:
                for a, v in d.nodes[path].get('attrs', {}).items():
                    m.nodes[path]['attrs'][a] = dict(v)
        if [l.real_path for l in stage._sub_layers] != files:
            raise Violation('wrong-layers', 'reopened as {}'.format(
                [w.fs.rel(l.real_path) for l in stage._sub_layers]))
        for l, m in zip(stage._sub_layers, models):
            compare(m.d, l.get_save_data(), 'the reopened layer ' +
                    w.fs.rel(l.real_path))
        comp = stage.build_stage()
        snap = util.snapshot(stage, comp)
        if state['expect'] is not None and ordered(snap) != state['expect']:
            raise Violation('reopened-different', 'the reopened graph is not '
                            'the graph that was saved: ' + first_diff(
                                json.loads(state['expect']),
                                json.loads(ordered(snap))))
        state['expect'] = None
        dirty = [False] * len(files)

        def note(kind, li, done):
            counts['edits'] += 1
            if kind == 'override':
                dirty[0] = True
            dirty[li] = True
            if kind in ('rename', 'parent', 'parent_many', 'transfer'):
                # The top layer keeps positions for everything below it
                dirty[0] = True
            w.log('edit', kind, li, done)
            w.note_state(kind, len(models[li].nodes))

        ed = Editor(stage, models, note, s.get('names', graphs.NAMES))
        for li, want in state['orders'].items():
            now = ed.orders(stage._sub_layers[li])
            for path, o in want.items():
                # Children a file does not list come last
                if path != '/' and now[path][:len(o)] != o:
                    raise Violation('wrong-order', 'reopened, {} orders its '
                                    'children {}; saved as {}'.format(
                                        path, now[path], o))

        def save(li):
            layer = stage._sub_layers[li]
            counts['saves'] += 1
            state['in_save'] = (li, models[li])
            w.faults_on = True
            err = None
            try:
                layer.save()
            except OSError as e:
                err = e
            finally:
                w.faults_on = False
            state['in_save'] = None
            if err is not None:
                counts['saves_failed'] += 1
                compare(state['durable'][li].d, graphs.read(files[li]),
                        'the file after a failed save')
            else:
                compare(models[li].d, graphs.read(files[li]), 'the saved '
                        'file ' + w.fs.rel(files[li]))
                state['durable'][li] = freeze(models[li])
                state['orders'][li] = ed.orders(layer)
                if file_orders(files[li]) != state['orders'][li]:
                    raise Violation('wrong-order', 'the saved file {} orders '
                                    'children as {}; the layer is {}'.format(
                                        w.fs.rel(files[li]),
                                        file_orders(files[li]),
                                        state['orders'][li]))
                dirty[li] = False
        for op in ops:
            if op[0] == 'save':
                save(op[1])
            elif op[0] == 'save_all':
                for li in range(len(files)):
                    save(li)
            elif op[0] == 'crash':
                w.fs.die()
            elif op[0] == 'exit':
                break
            else:
                if ed.apply(*op) is not None:
                    if instance_loop(models):
                        # Recursive instances never finish composing
                        return
                    for i, l in enumerate(stage._sub_layers):
                        compare(models[i].d, l.get_save_data(),
                                'after "{}" the layer {}'.format(
                                    op[0], w.fs.rel(l.real_path)))
                    snap = util.snapshot(stage, stage.build_stage())
        if not any(dirty):
            state['expect'] = ordered(snap)

    def file_orders(path):
        return {p: list(n.get('child_order', [])) for p, n in
                graphs.read(path).get('nodes', {}).items()}

    def freeze(m):
        f = Model({'nodes': {}})
        f.d = copy.deepcopy(m.d)
        return f

    for n, ops in enumerate(s['lives'] + [[]]):
        state['in_save'] = None
        p = SimProcess(w, 'life{}'.format(n))
        t = p.run(lambda p: life(p, ops))
        if t.exc is not None:
            raise t.exc if isinstance(t.exc, Violation) else Violation(
                'crashed', 'editing broke with {!r}'.format(t.exc),
                error=type(t.exc).__name__, where=p.tracebacks[-1][-300:])
        if p.crashed and state['in_save'] is not None:
            li, m = state['in_save']
            try:
                compare(m.d, graphs.read(files[li]), 'x')
                state['durable'][li] = freeze(m)
                state['orders'][li] = file_orders(files[li])
            except (Violation, AttributeError, KeyError, TypeError):
                compare(state['durable'][li].d, graphs.read(files[li]) or
                        {}, 'the file after dying in a save')
        # A crash or a save that failed keeps the files as they were
        if instance_loop(state['durable']):
            break
    return dict(counts, nontrivial=counts['edits'] > 0)


def first_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if x and y:
                f = [f for f in x if x[f] != y.get(f)]
                return '{} {}: {} / {}'.format(k, f[0], x[f[0]], y.get(f[0]))
            return '{}: {} / {}'.format(k, x, y)
    return ''
