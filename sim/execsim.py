"""Graphs whose node code comes from a small language, and what running them
must do: the same scenario is run by nxt and by a model of a few classes."""
import builtins
import copy
from ast import literal_eval

from . import graphs
from .core import Violation

ATTRS = ['a', 'b', 'c', 'l', 'd']
LOCALS = ['ulo', 'vlo', 'gg']
GLOBALS = ['ggl', 'hgl']
STAGES = ['sx', 'sy']
VALUES = ['1', '2', '7', '[1]', '[]', '[3, 4]', 'word', '"quoted"', '2.5',
          '(1, 2)', '{"k": 1}', '']
CONSTS = [0, 3, 5, 'txt', '8', [9], [], None, 1.5, {'k': [1]}]
FAULTS = [None, 'ValueError', 'MemoryError', 'SystemExit', 'ExitNode',
          'ExitGraph', 'AssertionError', 'KeyboardInterrupt']
BUDGET = 6


# -- scenarios ---------------------------------------------------------------
def parent_of(p):
    return p.rsplit('/', 1)[0]


def gen_ops(rng, paths, kinds, n=None, world=False):
    """A list of operations for the code of a node."""
    ops = [] if world else [['probe']]
    for _ in range(rng.randrange(0, 6) if n is None else n):
        k = rng.choice(kinds)
        a, b = rng.choice(ATTRS), rng.choice(ATTRS)
        if k == 'set':
            ops.append(['set', a, rng.choice(CONSTS)])
        elif k == 'add':
            ops.append(['add', a, rng.choice([1, 2, [5], 'x'])])
        elif k == 'app':
            ops.append(['app', 'l' if rng.random() < 0.8 else a,
                        rng.randrange(9)])
        elif k == 'deep':
            ops.append(['deep', 'd', rng.randrange(9)])
        elif k == 'copy':
            ops.append(['copy', a, b])
        elif k == 'ref' and paths:
            ops.append(['ref', a, rng.choice(paths), b])
        elif k == 'own':
            ops.append(['own', a, b])
        elif k == 'loc':
            ops.append(['loc', rng.choice(LOCALS), rng.randrange(9)])
        elif k == 'glob':
            ops.append(['glob', rng.choice(GLOBALS), rng.randrange(9)])
        elif k == 'globs':
            ops.append(['globs', rng.randrange(9)])
        elif k == 'loop':
            ops.append(['loop', rng.choice(LOCALS), 'l'])
        elif k == 'func':
            ops.append(['func', a, rng.randrange(9)])
        elif k == 'use':
            ops.append(['use', a, rng.choice(LOCALS + GLOBALS * 2)])
        elif k == 'stset':
            ops.append(['stset', rng.choice(STAGES), rng.choice([1, [2]])])
        elif k == 'stuse':
            ops.append(['stuse', a, rng.choice(STAGES)])
        elif k == 'new':
            ops.append(['set', 'fresh', rng.randrange(9)])
        elif k == 'point':
            ops.append(['point'])
        elif k == 'raise':
            ops.append(['raise', rng.choice(FAULTS[1:-1])])
        elif k == 'syntax':
            ops.append(['syntax'])
        elif k == 'sleep':
            ops.append(['sleep', rng.choice([0.5, 3, 61.0])])
        elif k in ('nest', 'try') and paths:
            if rng.random() < 0.7:
                op = ['nest', [rng.choice(paths + ['/nowhere'])
                               if rng.random() < 0.1 else rng.choice(paths)
                               for _ in range(rng.randrange(1, 3))],
                      gen_params(rng, paths)]
            elif rng.random() < 0.9:
                op = ['start', rng.choice(paths), gen_params(rng, paths)]
            else:
                op = ['badnest', rng.randrange(3)]
            ops.append(['try', op] if k == 'try' else op)
            ops.append(['probe'])
    # Most runs should not end at the first missing attribute
    ops = [['safe', o] if o[0] in ('add', 'app', 'use', 'copy', 'stuse',
                                   'deep', 'loop')
           and rng.random() < 0.85 else o for o in ops]
    # A name has to be declared global before anything uses it
    first = {o[1]: o for o in ops if o[0] == 'glob'}
    if any(o[0] == 'globs' for o in ops):
        first = {0: [o for o in ops if o[0] == 'globs'][0]}
    rest = [o for o in ops if o[0] not in ('glob', 'globs')]
    return rest[:1] + list(first.values()) + rest[1:]


def gen_params(rng, paths):
    if rng.random() < 0.5:
        return None
    out = {}
    for _ in range(rng.randrange(1, 3)):
        p = rng.choice(paths) if rng.random() < 0.9 else '/nobody'
        out[p + '.' + rng.choice(ATTRS)] = rng.choice(
            [0, 4, 'w', '[6]', [1, 2], None, 'longer word'])
    return out


CALM = ['set', 'set', 'add', 'add', 'app', 'app', 'deep', 'copy', 'ref', 'ref', 'own',
        'loc', 'loc', 'glob', 'glob', 'globs', 'loop', 'func', 'use', 'use', 'stset', 'stuse', 'new']
ROUGH = CALM * 2 + ['nest', 'try', 'try', 'point', 'point', 'point',
                    'raise']


def gen_token(rng, p, q, attrs):
    """A token for an attribute of node p that points at q."""
    a = rng.choice(['a', 'b'])
    k = rng.random()
    if k < 0.45:
        return '${%s.%s}' % (q, a)
    if k < 0.6:
        attrs['k'] = a
        return '${%s.${k}}' % q
    if k < 0.7:
        return '${%s}' % a
    if k < 0.75:
        return '${_nxtpath}'
    up = p.split('/')[1:]
    down = q.split('/')[1:]
    n = 0
    while n < min(len(up), len(down)) and up[n] == down[n]:
        n += 1
    rel = '/'.join(['..'] * (len(up) - n) + down[n:])
    if not down[n:]:
        return '${%s.%s}' % (q, a)
    return '${%s%s.%s}' % ('' if rel.startswith('.') else rng.choice(
        ['./', '']), rel, a)


def gen_graph(rng, kinds, n=None, layered=True):
    nodes = {}
    order = {}      # parent -> children in order
    n = n or rng.randrange(1, 7)
    names = ['n%02d' % i for i in range(20)]
    rng.shuffle(names)
    for i in range(n):
        parent = rng.choice([''] * 2 + list(nodes)) if nodes else ''
        if parent.count('/') > 2:
            parent = ''
        name = names[i]
        siblings = order.setdefault(parent, [])
        if siblings and rng.random() < 0.35:
            # A name that begins with the name of another node
            name = rng.choice(siblings) + 'x'
            if name in siblings:
                name = names[i]
            elif rng.random() < 0.4:
                nodes[parent + '/' + name[:-1]]['enabled'] = False
        p = parent + '/' + name
        nodes[p] = {'attrs': {}}
        siblings.append(name)
    paths = list(nodes)
    roots = [p for p in paths if parent_of(p) == '']
    # A root that instances an earlier root
    if len(roots) > 1 and rng.random() < 0.4:
        i = rng.randrange(1, len(roots))
        nodes[roots[i]]['instance'] = rng.choice(roots[:i])
    everything = list(comp_paths({'nodes': nodes, 'order': order}))
    for p in paths:
        d = nodes[p]
        for a in rng.sample(ATTRS, rng.randrange(0, 4)):
            d['attrs'][a] = rng.choice(VALUES + ['1', '2', '3'] * 4)
        if rng.random() < 0.7 or parent_of(p) == '':
            d['attrs']['l'] = rng.choice(['[]', '[1]'])
        if rng.random() < 0.3:
            d['attrs']['d'] = rng.choice(['{"k": []}', '{"k": [1]}'])
        earlier = paths[:paths.index(p)]
        if earlier and rng.random() < 0.3:
            q = rng.choice(earlier)
            d['attrs']['c'] = rng.choice(['', 'pre ', '']) + \
                gen_token(rng, p, q, d['attrs'])
            if rng.random() < 0.2:
                d['attrs']['c'] += rng.choice(['', ' and ']) + \
                    gen_token(rng, p, rng.choice(paths), d['attrs'])
            for k in ('a', 'b'):
                nodes[q]['attrs'].setdefault(k, '1')
        if rng.random() < 0.12:
            d['enabled'] = False
        elif rng.random() < 0.1:
            d['enabled'] = True
        if rng.random() < 0.2:
            d['start'] = True
        if rng.random() < 0.9 and not (d.get('instance')
                                       and rng.random() < 0.5):
            d['code'] = gen_ops(rng, everything, kinds)
    if len(roots) > 1:
        # At most one root follows another, sometimes in a circle
        for r in roots:
            q = rng.choice(roots)
            if rng.random() < 0.6 and not any(
                    nodes[x].get('exec_in') == q for x in roots):
                nodes[r]['exec_in'] = q
    for p in paths[1:]:
        if nodes[p].get('start') and rng.random() < 0.8:
            del nodes[p]['start']
    for p in paths:
        if '${' in d['attrs'].get('a', '') + d['attrs'].get('b', ''):
            d['attrs'].pop('a', None)
    for names_ in order.values():
        # Children do not run in the order they were made
        if rng.random() < 0.4:
            rng.shuffle(names_)
    world = None
    if rng.random() < 0.5:
        world = {'attrs': {a: rng.choice(VALUES) for a in
                           rng.sample(ATTRS, rng.randrange(0, 2))}}
        if rng.random() < 0.8:
            nests = rng.random() < 0.3
            world['code'] = gen_ops(
                rng, everything if nests else [],
                ['loc', 'stset', 'glob', 'point'] + ['try'] * nests,
                world=True)
    over = {}
    if layered and rng.random() < 0.4:
        for p in rng.sample(paths, rng.randrange(1, len(paths) + 1)):
            o = {'attrs': {a: rng.choice(VALUES) for a in
                           rng.sample(ATTRS, rng.randrange(0, 3))}}
            if rng.random() < 0.3:
                o['code'] = gen_ops(rng, everything, kinds)
            if rng.random() < 0.15:
                o['enabled'] = rng.random() < 0.5
            over[p] = o
        if len(roots) > 1 and rng.random() < 0.3:
            # A root follows another one only in the upper layer
            r, q = rng.sample(roots, 2)
            used = [exec_in({'nodes': nodes, 'over': over}, x)
                    for x in roots if x != r]
            if q not in used:
                over.setdefault(r, {'attrs': {}})['exec_in'] = q
    return {'nodes': nodes, 'order': order, 'world': world, 'over': over}


def exec_in(g, p):
    return g['over'].get(p, {}).get('exec_in') or g['nodes'][p].get('exec_in')


def children(g, p):
    """Names of the children of a path in the composed graph, in order."""
    own = g['order'].get(p, [])
    inst = source(g, p)
    if inst is None:
        return list(own)
    return list(own) + [c for c in children(g, inst) if c not in own]


def source(g, p):
    """What a composed path instances."""
    d = g['nodes'].get(p)
    if d is not None and d.get('instance'):
        return d['instance']
    par = parent_of(p)
    if par:
        s = source(g, par)
        name = p.rsplit('/', 1)[1]
        if s is not None and name in children(g, s):
            return s + '/' + name
    return None


def comp_paths(g):
    """Composed paths, parents first and in child order."""
    def walk(p):
        for c in children(g, p):
            yield p + '/' + c
            for x in walk(p + '/' + c):
                yield x
    return walk('')


def shrink_graph(g):
    for p in list(g['nodes']):
        if any(q != p and (parent_of(q) == p or
                           g['nodes'][q].get('instance') == p or
                           exec_in(g, q) == p)
               for q in g['nodes']) or len(g['nodes']) == 1:
            continue
        new = copy.deepcopy(g)
        del new['nodes'][p]
        new['over'].pop(p, None)
        new['order'][parent_of(p)].remove(p.rsplit('/', 1)[1])
        yield new
    if g['world']:
        yield dict(g, world=None)
    if g['over']:
        yield dict(g, over={})
    for where in ('nodes', 'over'):
        for p, d in g[where].items():
            for i in range(len(d.get('code', ()))):
                new = copy.deepcopy(g)
                del new[where][p]['code'][i]
                yield new
            for k in ('enabled', 'exec_in', 'instance', 'start'):
                if k in d and (k != 'enabled' or where == 'nodes' or d[k]):
                    new = copy.deepcopy(g)
                    del new[where][p][k]
                    yield new
            for a in d['attrs']:
                new = copy.deepcopy(g)
                del new[where][p]['attrs'][a]
                yield new


# -- rendering ---------------------------------------------------------------
def call_text(op):
    if op[0] == 'nest':
        return 'execute(paths={!r}, parameters={!r})'.format(op[1], op[2])
    if op[0] == 'start':
        return 'execute(start={!r}, parameters={!r})'.format(op[1], op[2])
    return ['execute()', 'execute(paths=["/a"], start="/a")',
            'execute(paths="/a")'][op[1]]


def render(op):
    k = op[0]
    if k == 'probe':
        return ['sim_probe("${_nxtpath}", self, globals(), STAGE)']
    if k == 'set':
        return ['self.{} = {!r}'.format(op[1], op[2])]
    if k == 'add':
        return ['self.{0} = self.{0} + {1!r}'.format(op[1], op[2])]
    if k == 'app':
        return ['self.{}.append({!r})'.format(op[1], op[2])]
    if k == 'deep':
        return ['self.{}["k"].append({!r})'.format(op[1], op[2])]
    if k == 'copy':
        return ['self.{} = self.{}'.format(op[1], op[2])]
    if k == 'ref':
        return ["self.{} = '''${{{}.{}}}'''".format(op[1], op[2], op[3])]
    if k == 'own':
        return ["self.{} = '''${{{}}}'''".format(op[1], op[2])]
    if k == 'loc':
        return ['{} = {!r}'.format(op[1], op[2])]
    if k == 'glob':
        return ['global {}'.format(op[1]), '{} = {!r}'.format(op[1], op[2])]
    if k == 'globs':
        return ['global {}'.format(', '.join(GLOBALS)),
                '{} = {!r}'.format(' = '.join(GLOBALS), op[1])]
    if k == 'loop':
        return ['for {} in self.{}[:]: self.{}.append(len(self.{}))'.format(
            op[1], op[2], op[2], op[2])]
    if k == 'func':
        return ['def vlo(x):', '    # global ulo', '    return [x, self]',
                'self.{} = vlo({!r})[0]'.format(op[1], op[2]), 'del vlo']
    if k == 'use':
        return ['self.{} = {}'.format(op[1], op[2])]
    if k == 'stset':
        return ['STAGE.{} = {!r}'.format(op[1], op[2])]
    if k == 'stuse':
        return ['self.{} = STAGE.{}'.format(op[1], op[2])]
    if k == 'point':
        return ['sim_point(ExitNode, ExitGraph)']
    if k == 'raise':
        return ['raise {}("planned")'.format(op[1])]
    if k == 'text':
        return ['one line']
    if k == 'syntax':
        return ['self.a = = 1']
    if k == 'sleep':
        return ['sim_sleep({!r})'.format(op[1])]
    if k == 'safe':
        return ['try:', '    ' + render(op[1])[0], 'except Exception as err:',
                '    sim_note(type(err).__name__)']
    if k == 'try':
        return ['try:', '    if sim_budget():', '        ' + call_text(op[1]),
                'except Exception as err:',
                '    sim_note(type(err).__name__)']
    return ['if sim_budget():', '    ' + call_text(op)]


def syntax_line(ops):
    at = [o[0] for o in ops].index('syntax')
    return 1 + len(lines_of(ops[:at]))


def lines_of(ops):
    return [l for op in ops for l in render(op)]


def write_graph(g, work):
    """The graph as save files; returns the path of the top one."""
    nodes = {}
    for p, d in g['nodes'].items():
        nodes[p] = entry(d)
        kids = g['order'].get(p)
        if kids:
            nodes[p]['child_order'] = list(kids)
        if d.get('instance'):
            nodes[p]['instance'] = d['instance']
        if d.get('exec_in'):
            nodes[p]['execute_in'] = d['exec_in']
        if d.get('start'):
            nodes[p]['start_point'] = True
        if 'enabled' in d:
            nodes[p]['enabled'] = d['enabled']
    if g['world']:
        nodes['/'] = entry(g['world'])
    nodes.setdefault('/', {})
    nodes['/']['child_order'] = [c for c in g['order'].get('', [])]
    if not g['world']:
        del nodes['/']
    base = {'version': '1.17', 'alias': 'base', 'nodes': nodes}
    if not g['over']:
        graphs.write(work + '/top.nxt', base)
    else:
        graphs.write(work + '/base.nxt', base)
        over = {}
        for p in comp_paths(g):
            if p in g['over']:
                over[p] = entry(g['over'][p])
                if 'enabled' in g['over'][p]:
                    over[p]['enabled'] = g['over'][p]['enabled']
                if 'exec_in' in g['over'][p]:
                    over[p]['execute_in'] = g['over'][p]['exec_in']
            kids = g['order'].get(p)
            if kids and any(p + '/' + c in g['over'] for c in kids):
                over.setdefault(p, {})['child_order'] = list(kids)
        graphs.write(work + '/top.nxt', {
            'version': '1.17', 'alias': 'top', 'references': ['base.nxt'],
            'nodes': over})
    return work + '/top.nxt'


def entry(d):
    e = {}
    if d['attrs']:
        e['attrs'] = {a: {'type': 'raw', 'value': v}
                      for a, v in d['attrs'].items()}
    if d.get('code'):
        e['code'] = lines_of(d['code'])
    return e


# -- hooks the node code calls -----------------------------------------------
class Hooks(object):
    """What happened while nxt ran the graph."""

    def __init__(self, world, allowed=FAULTS):
        self.w = world
        self.allowed = [f for f in allowed]
        self.trace = []
        self.outcomes = []
        self.nests = 0
        self.marks = []
        self.slept = []
        self.asked = {}     # whether a node ran then, asked while one ran
        self.began = 0.0
        self.rt = None      # the runtime layer of the call, when known
        self.idle = None    # a node that ran while its layer was idle

    def install(self):
        for k in ('probe', 'point', 'budget', 'note', 'sleep'):
            setattr(builtins, 'sim_' + k, getattr(self, k))

    def remove(self):
        for k in ('probe', 'point', 'budget', 'note', 'sleep'):
            try:
                delattr(builtins, 'sim_' + k)
            except AttributeError:
                pass

    def probe(self, path, me, names, stage):
        if self.rt is not None and path != '/' and not self.rt.running:
            self.idle = path
        self.trace.append(('at', path, values(me), {
            n: repr(names[n]) for n in LOCALS + GLOBALS if n in names},
            {n: repr(getattr(stage, n)) for n in STAGES
             if hasattr(stage, n)}))
        self.w.log(*[str(x) for x in self.trace[-1]])

    def point(self, exit_node, exit_graph):
        v = self.w.decide('node', len(self.allowed))
        f = self.allowed[v]
        self.outcomes.append(f)
        self.trace.append(('point', f))
        if f is None:
            return
        self.w.fault('node:' + f)
        raise {'ExitNode': exit_node, 'ExitGraph': exit_graph}.get(
            f, getattr(builtins, f, None))('injected')

    def budget(self):
        self.nests += 1
        self.trace.append(('nested', self.nests <= BUDGET))
        return self.nests <= BUDGET

    def note(self, text):
        self.trace.append(('caught', text))

    def sleep(self, t):
        extra = [0, 0.25, 40, 3600][self.w.decide('stall', 4)]
        if extra:
            self.w.fault('stall')
        self.slept.append(t + extra)
        self.w.block(lambda: False, t + extra, 'sleep')
        if self.rt is not None:
            now = self.w.wall()
            during = self.rt.cache_layer.was_during_node_exec
            self.marks.append(during(now))
            self.asked[len(self.slept) - 1] = [
                (x, bool(during(x))) for x in
                (now, now - t / 2, now - t - 0.25, (now + self.began) / 2,
                 self.began, self.began - 0.5)]


def values(me):
    return {a: repr(getattr(me, a)) for a in ATTRS + ['fresh']
            if hasattr(me, a)}


# -- the model ---------------------------------------------------------------
class MGraph(Exception):
    def __init__(self, name, path=None, line=None, text=None):
        Exception.__init__(self, name, path, line)
        self.name, self.path, self.line, self.text = name, path, line, text


class MExitNode(Exception):
    pass


class MExitGraph(Exception):
    rt = None


class MInvalid(Exception):
    pass


NAMES = {MGraph: 'GraphError', MExitNode: 'ExitNode',
         MExitGraph: 'ExitGraph', MInvalid: 'InvalidNodeError'}


class Model(object):
    """One runtime layer."""

    def __init__(self, g, hooks, shared, params=None):
        self.g = g
        self.slept = hooks.slept
        self.asked = hooks.asked
        self.shared = shared    # trace, outcome position, nests
        self.outcomes = hooks.outcomes
        self.names = {}
        self.cache = {}
        self.cls = {}
        self.runs = []
        self.times = []
        self.stage = type('world', (), {})
        if g['world']:
            for a, v in g['world']['attrs'].items():
                setattr(self.stage, a, v)
        for p in comp_paths(g):
            self.make(p)
        if params:
            self.params(params)
        ops = (g['world'] or {}).get('code', [])
        if any(o[0] == 'syntax' for o in ops):
            raise MGraph('GraphSyntaxError', '/', syntax_line(ops))
        try:
            self.code(ops, self.stage, '/', True)
        except (MExitNode, MExitGraph, KeyboardInterrupt):
            raise
        # names made by the world's code stay

    def make(self, p):
        if p in self.cls:
            return
        g = self.g
        src = source(g, p)
        par = parent_of(p)
        bases = ()
        if par:
            bases += (self.cls[par],)
        elif g['world'] and src is None:
            bases += (self.stage,)
        if src is not None:
            if src not in self.cls:
                self.make(src)
            bases += (self.cls[src],)
        c = self.cls[p] = type('node', bases, {})
        d = g['nodes'].get(p, {'attrs': {}})
        o = g['over'].get(p, {'attrs': {}})
        for a, v in list(d['attrs'].items()) + list(o['attrs'].items()):
            setattr(c, a, v)
        c.code_ = o.get('code') or d.get('code') or (
            self.cls[src].code_ if src else [])
        c.enabled_ = o.get('enabled', d.get('enabled'))
        if c.enabled_ is None and src:
            c.enabled_ = self.cls[src].enabled_
        c.path_ = p

    # values
    def text(self, c, v):
        v = str(v)
        out, i = '', 0
        while True:
            j = v.find('${', i)
            if j < 0:
                return out + v[i:]
            k, deep = j + 2, 1
            while deep:
                if v.startswith('${', k):
                    deep += 1
                elif v[k] == '}':
                    deep -= 1
                k += 1
            k -= 1
            ref = self.text(c, v[j + 2:k])
            if ref == '_nxtpath':
                out += v[i:j] + c.path_
                i = k + 1
                continue
            if '.' in ref:
                p, a = ref.rsplit('.', 1)
                if not p.startswith('/'):
                    at = c.path_.split('/')
                    for x in p.split('/'):
                        if x == '..':
                            at.pop()
                        elif x != '.':
                            at.append(x)
                    p = '/'.join(at)
                tgt = self.cls.get(p)
            else:
                a, tgt = ref, c
            out += v[i:j] + self.string(tgt, a)
            i = k + 1

    def string(self, c, a):
        v = getattr(c, a, '') if c is not None else ''
        if not v:
            return '' if v is None else str(v)
        return self.text(c, v)

    def real(self, c, a):
        v = getattr(c, a)
        if not isinstance(v, str):
            return v
        v = self.text(c, v)
        try:
            r = literal_eval(v)
        except (ValueError, SyntaxError):
            return v
        return v if isinstance(r, str) else r

    def params(self, params):
        for k, v in params.items():
            p, a = k.rsplit('.', 1)
            c = self.stage if p == '/' else self.cls.get(p)
            if c is not None:
                setattr(c, a, str(v))

    # order
    def order(self, start):
        g = self.g
        roots = ['/' + start.split('/')[1]]
        while True:
            nxt = [r for r in g['nodes'] if parent_of(r) == '' and
                   exec_in(g, r) == roots[-1]]
            if not nxt or nxt[0] in roots:
                break
            roots.append(nxt[0])
        out, found = [], False

        def below(p):
            for c in children(g, p):
                yield p + '/' + c
                for x in below(p + '/' + c):
                    yield x
        for r in roots:
            found = found or r == start
            if found and self.cls[r].enabled_ is False:
                continue
            if found:
                out.append(r)
            off = []
            for p in below(r):
                found = found or p == start
                if self.cls[p].enabled_ is False or any(
                        p.startswith(x + '/') for x in off):
                    off.append(p)
                elif found:
                    out.append(p)
        return out

    # running
    def execute(self, start, params=None):
        self.nodes(self.order(start), params)

    def nodes(self, paths, params=None):
        if params:
            self.params(params)
        for p in paths:
            c = self.cls.get(p)
            if c is None:
                raise MInvalid(p)
            if c.enabled_ is False:
                continue
            try:
                self.run(c, p)
            except MExitNode:
                continue

    def run(self, c, p, ops=None):
        self.runs.append(p)
        self.times.append([p, self.shared['clock'], None])
        this = self.times[-1]
        try:
            self.run_code(c, p, ops)
        finally:
            this[2] = self.shared['clock']

    def run_code(self, c, p, ops):
        pre, frame = {}, type('frame', (), {})
        for a in ATTRS + ['fresh'] + STAGES:
            if not hasattr(c, a):
                continue
            v = self.real(c, a)
            pre[a] = copy.deepcopy(v)
            setattr(frame, a, copy.deepcopy(v))
        self.cache[p] = frame
        if ops is None:
            ops = c.code_
        frame.code_text = '\n'.join(self.text(c, x) for x in lines_of(ops))
        if any(o[0] == 'syntax' for o in ops):
            raise MGraph('GraphSyntaxError', p, syntax_line(ops))
        # Tokens in the code are replaced before any of it runs
        ops = [['text', o[1], self.string(self.cls.get(o[2]), o[3])]
               if o[0] == 'ref' else
               ['text', o[1], self.string(c, o[2])] if o[0] == 'own' else o
               for o in ops]
        good = set(self.names)
        self.declared = getattr(self, 'declared', set())
        glob = set(o[1] for o in ops if o[0] == 'glob')
        if any(o[0] == 'globs' for o in ops):
            glob.update(GLOBALS)
        leave = None
        try:
            self.code(ops, frame, p)
        except (MExitNode, MExitGraph) as e:
            leave = e
        finally:
            for n in list(self.names):
                if n not in good and n not in glob:
                    del self.names[n]
        for a, v in pre.items():
            new = getattr(frame, a)
            if not v == new:
                setattr(c, a, new)
        if leave is not None:
            raise leave

    def code(self, ops, me, p, world=False):
        line = 1
        for op in ops:
            try:
                self.op(op, me, p)
            except (MExitNode, MExitGraph, KeyboardInterrupt, Violation):
                raise
            except (SystemExit, Exception) as e:
                off = {'try': 2, 'nest': 1, 'start': 1, 'badnest': 1}.get(
                    op[0], 0)
                raise MGraph('GraphError', p, line + off,
                             render(op)[off].strip())
            line += len(render(op))

    def op(self, op, me, p):
        k = op[0]
        sh = self.shared
        if k == 'probe':
            sh['trace'].append(('at', p, values(me),
                                {n: repr(v) for n, v in self.names.items()},
                                {n: repr(getattr(self.stage, n))
                                 for n in STAGES if hasattr(self.stage, n)}))
        elif k == 'set':
            setattr(me, op[1], copy.deepcopy(op[2]))
        elif k == 'text':
            setattr(me, op[1], op[2])
        elif k == 'add':
            setattr(me, op[1], getattr(me, op[1]) + op[2])
        elif k == 'app':
            getattr(me, op[1]).append(op[2])
        elif k == 'deep':
            getattr(me, op[1])['k'].append(op[2])
        elif k == 'copy':
            setattr(me, op[1], getattr(me, op[2]))
        elif k == 'sleep':
            sh['clock'] += self.slept[sh['slept']]
            for x, got in self.asked.get(sh['slept'], ()):
                if got != any(a <= x and (b is None or x <= b)
                              for _, a, b in self.times):
                    raise Violation('wrong-during', 'asked at {} a node is '
                                    'said {}to have run at {}, the runs were '
                                    '{}'.format(sh['clock'], '' if got else
                                                'not ', x, self.times))
            sh['slept'] += 1
        elif k == 'globs':
            for n in GLOBALS:
                self.names[n] = op[1]
        elif k == 'loop':
            for x in getattr(me, op[2])[:]:
                self.names[op[1]] = x
                getattr(me, op[2]).append(len(getattr(me, op[2])))
        elif k == 'func':
            setattr(me, op[1], op[2])
            self.names.pop('vlo', None)
        elif k in ('loc', 'glob'):
            self.names[op[1]] = op[2]
        elif k == 'use':
            if op[2] not in self.names:
                raise NameError(op[2])
            setattr(me, op[1], self.names[op[2]])
        elif k == 'stset':
            setattr(self.stage, op[1], copy.deepcopy(op[2]))
        elif k == 'stuse':
            setattr(me, op[1], getattr(self.stage, op[2]))
        elif k == 'point':
            if sh['at'] >= len(self.outcomes):
                raise Violation('wrong-run', 'the code of {} should have run '
                                'but did not'.format(p))
            f = self.outcomes[sh['at']]
            sh['at'] += 1
            sh['trace'].append(('point', f))
            if f is not None:
                raise {'ExitNode': MExitNode, 'ExitGraph': MExitGraph}.get(
                    f, getattr(builtins, f, None))('injected')
        elif k == 'raise':
            raise {'ExitNode': MExitNode, 'ExitGraph': MExitGraph}.get(
                op[1], getattr(builtins, op[1], None))('planned')
        elif k in ('try', 'safe'):
            try:
                if k == 'safe':
                    self.op(op[1], me, p)
                else:
                    self.nested(op[1])
            except Violation:
                raise
            except Exception as e:
                name = e.name if isinstance(e, MGraph) else NAMES.get(
                    type(e), type(e).__name__)
                sh['trace'].append(('caught', name))
        elif k in ('nest', 'start', 'badnest'):
            self.nested(op)

    def nested(self, op):
        sh = self.shared
        sh['nests'] += 1
        ok = sh['nests'] <= BUDGET
        sh['trace'].append(('nested', ok))
        if not ok:
            return
        if op[0] == 'badnest':
            raise ValueError
        if op[0] == 'start':
            self.execute(op[1], op[2])
        else:
            self.nodes(op[1], op[2])



# -- playing a scenario ------------------------------------------------------
def ending(e):
    """What a call ended with, as a comparable tuple."""
    import re
    if e is None:
        return ('done',)
    name = type(e).__name__
    if isinstance(e, MGraph):
        return (e.name, e.path, e.line, e.text)
    if type(e) in NAMES:
        return (NAMES[type(e)],)
    if name == 'GraphError':
        m = re.match(r'File "[^"]*", line (\d+), in (\S+)\n *(.*)', str(e))
        return (name, m and m.group(2), m and int(m.group(1)),
                m and m.group(3).strip())
    if name == 'GraphSyntaxError':
        m = re.match(r'File "[^"]*", line (\d+), in (\S+)', str(e))
        return (name, m and m.group(2), m and int(m.group(1)), None)
    return (name,)


def start_nodes(g):
    return [p for p in g['nodes'] if g['nodes'][p].get('start')]


class Player(object):
    """Makes the calls of a scenario on nxt and records what is seen."""

    def __init__(self, w, s, hooks, after=None):
        self.w, self.s, self.hooks, self.after = w, s, hooks, after
        self.rts = []
        self.records = []

    def play(self, p):
        from nxt.stage import Stage
        g = self.s['graph']
        path = write_graph(g, self.w.root + '/work')
        self.stage = stage = Stage.load_from_filepath(path)
        self.comp = stage.build_stage()
        self.paths = list(comp_paths(g))
        for call in self.s['calls']:
            kind, rt = call[0], None
            if call[-1] is not None and self.rts:
                rt = self.rts[call[-1] % len(self.rts)]
            err = got = index = None
            told = False
            at = len(self.hooks.trace)
            self.hooks.rt = rt
            self.w.block(lambda: False, 1, 'pause')
            began = self.hooks.began = self.w.wall()
            try:
                if kind == 'setup':
                    got = stage.setup_runtime_layer(stage.build_stage(),
                                                    parameters=call[1])
                elif kind == 'execute':
                    if isinstance(call[1], int):
                        index = stage.get_layer_start_nodes(
                            rt or self.comp)[call[1]:][:1]
                    got = stage.execute(start=call[1], layer=rt or self.comp,
                                        parameters=call[2])
                elif kind == 'nodes':
                    got = stage.execute_nodes(call[1], rt or self.comp,
                                              parameters=call[2])
                elif kind == 'snippet':
                    err = stage.execute_custom_code(
                        '\n'.join(lines_of(call[2])), call[1],
                        rt or self.comp)
                    told = True
            except Violation:
                raise
            except (KeyboardInterrupt, SystemExit, Exception) as e:
                err = e
                if type(e).__name__ == 'ExitGraph':
                    got = getattr(e, 'runtime_layer', None)
            if got is not None and got not in self.rts:
                self.rts.append(got)
            end = ending(err)
            if told and err is not None:
                end = ('returned',) + end
            self.w.log('call', kind, *end)
            self.records.append({
                'clock': began, 'end': end, 'trace': self.hooks.trace[at:],
                'seen': [self.seen(x) for x in self.rts],
                'call': call, 'index': index})
            if self.after is not None:
                self.after(self, call, end, rt or got)
        return self.records

    def seen(self, rt):
        out = {}
        for p in self.paths:
            node = rt.lookup(p)
            frame = rt.cache_layer.lookup(p)
            out[p] = ({a: self.stage.get_node_attr_value(node, a, rt)
                       for a in ATTRS}, None if frame is None else
                      (values(frame), self.stage.get_node_code_string(
                          frame, rt)))
        return out


def model_play(s, hooks, records):
    """The same calls on the model, compared with what nxt did."""
    shared = {'trace': [], 'at': 0, 'nests': 0, 'clock': 0.0, 'slept': 0}
    g = s['graph']
    rts = []
    for rec in records:
        call = rec['call']
        kind, rt = call[0], None
        if call[-1] is not None and rts:
            rt = rts[call[-1] % len(rts)]
        at = len(shared['trace'])
        shared['clock'] = rec.get('clock', 0.0)
        err = got = None
        told = False

        def new(params):
            return Model(g, hooks, shared, params)
        try:
            if kind == 'setup':
                got = new(call[1])
            elif kind in ('execute', 'nodes'):
                if kind == 'execute':
                    start = call[1]
                    if start is None:
                        starts = start_nodes(g)
                        if not starts:
                            raise ValueError
                        start = starts[0]
                    elif isinstance(start, int):
                        # Only which one is first is up to nxt
                        if not start_nodes(g):
                            raise ValueError
                        start = rec['index'][0]
                    fresh = rt
                    if fresh is None:
                        fresh = got = new(call[2])
                        fresh.nodes(fresh.order(start))
                    else:
                        fresh.nodes(fresh.order(start), call[2])
                else:
                    fresh = rt
                    if fresh is None:
                        fresh = got = new(call[2])
                        fresh.nodes(call[1])
                    else:
                        fresh.nodes(call[1], call[2])
            elif kind == 'snippet':
                rt = rt or new(None)
                try:
                    rt.run(rt.cls[call[1]], call[1], call[2])
                except (MExitNode, MExitGraph) as e:
                    err = e
                    told = True
        except Violation:
            raise
        except (KeyboardInterrupt, SystemExit, Exception) as e:
            err = e
            if got is not None and not isinstance(e, MExitGraph):
                got = None
        if got is not None:
            rts.append(got)
        yield rec, ('returned',) * told + ending(err), shared['trace'][at:], rts


def check_trace(what, got, want):
    """What node code saw, compared with what the model says."""
    for a, b in zip(got + [None], want + [None]):
        if a == b:
            continue
        if a is None or b is None or a[0] != b[0] or a[0] == 'at' and \
                a[1] != b[1]:
            raise Violation('wrong-order', '{}: {} happened where {} '
                            'should'.format(what, brief(a), brief(b)))
        if a[0] != 'at':
            raise Violation('wrong-ending', '{}: {} instead of {}'.format(
                what, a, b))
        if a[2] != b[2]:
            raise Violation('wrong-values', '{}: {} ran with {} instead '
                            'of {}'.format(what, a[1], a[2], b[2]))
        raise Violation('wrong-names', '{}: {} found the names {} instead '
                        'of {}'.format(what, a[1], a[3:], b[3:]))


def check(s, hooks, records):
    """Raise Violation where nxt and the model part."""
    for rec, end, trace, rts in model_play(s, hooks, records):
        what = '{} {}'.format(rec['call'][0], rec['call'][1])
        check_trace(what, rec['trace'], trace)
        if rec['end'] != end:
            raise Violation('wrong-ending', '{} ended with {} instead of {}'
                            .format(what, rec['end'], end))
        if len(rts) != len(rec['seen']):
            raise Violation('wrong-result', '{} {} a runtime layer'.format(
                what, 'did not return' if len(rts) > len(rec['seen'])
                else 'returned'))
        for seen, m in zip(rec['seen'], rts):
            for p, (vals, frame) in seen.items():
                c = m.cls[p]
                want = {a: m.string(c, a) for a in ATTRS}
                if vals != want:
                    raise Violation('wrong-result', 'after {}: {} holds {} '
                                    'instead of {}'.format(what, p, vals,
                                                           want))
                f = m.cache.get(p)
                f = None if f is None else (values(f), f.code_text)
                if frame != f:
                    raise Violation('wrong-cache', 'after {}: the cached run '
                                    'of {} holds {} instead of {}'.format(
                                        what, p, frame, f))


def brief(e):
    if e is None:
        return 'nothing'
    return ' '.join(str(x) for x in e[:2])


def gen_start(rng, g, paths):
    n = len(start_nodes(g))
    if n == 1 and rng.random() < 0.4 or n == 0 and rng.random() < 0.05:
        return None
    roots = [p for p in paths if parent_of(p) == '']
    if rng.random() < 0.15:
        return rng.randrange(n + 1)
    return rng.choice(roots if rng.random() < 0.6 else paths)


def shrink(s):
    for i in range(len(s['calls'])):
        yield dict(s, calls=s['calls'][:i] + s['calls'][i + 1:])
    for g in shrink_graph(s['graph']):
        known = set(comp_paths(g))
        if all(c[0] != 'snippet' or c[1] in known for c in s['calls']):
            yield dict(s, graph=g)
