"""Random graph files (plain save-file dictionaries) and edits to them."""
import json
import pickle

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta',
         'alphabet', 'et', 'Beta', 'eps1']
ATTRS = ['a', 'b', 'count', 'name', 'path', 'flag']
WORDS = ['one', 'two', ' three ', 'rig', 'arm', 'caf\u00e9', 'x y', '"q"',
         'back\\slash', 'tab\there', '', '\u65e5\u672c', "it's"]


def attr_value(rng):
    k = rng.randrange(5)
    if k == 0:
        return 'int', str(rng.randrange(1, 1000))
    if k == 1:
        return 'str', json.dumps(rng.choice(WORDS))
    if k == 2:
        return 'list', repr([rng.randrange(10) for _ in
                             range(rng.randrange(4))])
    if k == 3:
        return 'raw', rng.choice(WORDS[:6])
    return 'float', str(rng.randrange(1, 100) / 4.0)


def node_data(rng, n_attrs=3, code_lines=3):
    d = {}
    attrs = {}
    for a in rng.sample(ATTRS, rng.randrange(0, n_attrs + 1)):
        t, v = attr_value(rng)
        attrs[a] = {'type': t, 'value': v}
        if rng.random() < 0.2:
            attrs[a]['comment'] = 'about ' + a
    if attrs:
        d['attrs'] = attrs
    if rng.random() < 0.6:
        d['code'] = ['# line {} {}'.format(i, rng.choice(WORDS))
                     for i in range(rng.randrange(1, code_lines + 1))]
    if rng.random() < 0.2:
        d['comment'] = rng.choice(WORDS[:5])
    if rng.random() < 0.15:
        d['enabled'] = False
    if rng.random() < 0.2:
        d['start_point'] = True
    return d


def layer(rng, name, n_nodes=None, refs=(), big=False, names=None):
    """A valid current-version save file."""
    nodes = {}
    paths = []
    n = rng.randrange(1, 7) if n_nodes is None else n_nodes
    for _ in range(n):
        parent = rng.choice([''] + paths) if paths else ''
        nm = rng.choice(names or NAMES)
        p = parent + '/' + nm
        if p in nodes or p.count('/') > 4:
            continue
        nodes[p] = node_data(rng)
        paths.append(p)
    for p in list(nodes):
        kids = [q.rsplit('/', 1)[1] for q in nodes
                if q.rsplit('/', 1)[0] == p]
        if kids:
            nodes[p]['child_order'] = kids
        # Only ever towards smaller roots: recursive instancing never ends
        others = [q for q in nodes if q.split('/')[1] < p.split('/')[1]]
        if others and rng.random() < 0.15:
            nodes[p]['instance'] = rng.choice(others)
    if rng.random() < 0.4:
        nodes['/'] = {'code': ['import os']}
    if big:
        nodes[paths[0]]['code'] = ['# pad {} {}'.format(i, 'z' * 60)
                                   for i in range(big)]
    d = {'version': '1.17', 'alias': name, 'mute': False, 'solo': False}
    if rng.random() < 0.5:
        d['color'] = '#{:06x}'.format(rng.randrange(1 << 24))
    if refs:
        d['references'] = list(refs)
    if rng.random() < 0.5:
        d['meta_data'] = {'positions': {
            p: [float(rng.randrange(100)), float(rng.randrange(100))]
            for p in paths[:2]}}
    d['nodes'] = nodes
    return d


def dump(data):
    return json.dumps(data, indent=4, separators=(',', ': '))


def write(path, data):
    with open(path, 'w', encoding='utf-8') as fp:
        fp.write(data if isinstance(data, str) else dump(data))


def read(path):
    """Parsed content of a file, or a string saying what is wrong with it."""
    try:
        with open(path, 'rb') as fp:
            raw = fp.read()
    except FileNotFoundError:
        return None
    try:
        if path.endswith('.nxtb'):
            return pickle.loads(raw)
        return json.loads(raw.decode('utf-8'))
    except (ValueError, EOFError, pickle.UnpicklingError):
        return '<unreadable: {} bytes, starts {!r}>'.format(len(raw),
                                                            raw[:40])


def snapshot_tree(root):
    """{relative path: bytes} of every file below root."""
    import os
    out = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, 'rb') as fp:
                    out[os.path.relpath(p, root)] = fp.read()
            except OSError:
                out[os.path.relpath(p, root)] = None
    return out


OLD_VERSIONS = ['1.16', '1.15', '1.14', '1.10', '1.9', '1.4.2', '1.0.0',
                '0.45.0', '0.45.6']


def downgrade(data, version):
    """The same graph as an older nxt would have stored it."""
    import copy
    d = copy.deepcopy(data)
    major, minor = [int(n) for n in version.split('.')[:2]]
    if (major, minor) >= (1, 10):
        d['version'] = version
        return d
    meta = d.get('meta_data', {})
    if 'positions' in meta:
        meta['position_data'] = meta.pop('positions')
    if 'collapse' in meta:
        meta['collapse_data'] = meta.pop('collapse')
    refs = []
    overs = d.get('comp_overrides', {})
    for r in d.get('references', []):
        rec = dict({'path': r}, **overs.pop(r, {}))
        for key, name in (('aliases', 'alias'), ('colors', 'color')):
            if r in meta.get(key, {}):
                rec[name] = meta[key].pop(r)
        refs.append(rec)
    for key in ('aliases', 'colors'):
        if meta.get(key) == {}:
            del meta[key]
    if overs == {}:
        d.pop('comp_overrides', None)
    d['references'] = refs
    d['version'] = version
    if major == 1:
        if not meta:
            d.pop('meta_data', None)
        return d
    d.pop('meta_data', None)
    d['data'] = meta
    nodes = d.pop('nodes')
    nodes.pop('/', None)
    made = {}
    top = []
    starts = []
    for path in sorted(nodes):
        n = nodes[path]
        inner = {}
        for new, old in (('attrs', 'attributes'), ('code', 'compute'),
                         ('instance', 'instance'), ('enabled', 'enabled')):
            if new in n:
                inner[old] = n[new]
        rec = {'name': path.rsplit('/', 1)[1], 'data': inner,
               'execute_order': n.get('child_order', [])}
        for k in ('comment', 'execute_in'):
            if k in n:
                rec[k] = n[k]
        if n.get('start_point'):
            starts.append(path)
        made[path] = rec
        parent = made.get(path.rsplit('/', 1)[0])
        if parent is None:
            top.append(rec)
        else:
            parent.setdefault('children', []).append(rec)
    d['children'] = top
    if starts:
        d['data']['start_nodes'] = starts
    return d


def content(data):
    """What a save file says, independent of key order and defaults."""
    if not isinstance(data, dict):
        return data
    out = {'nodes': {}}
    for path, n in data.get('nodes', {}).items():
        c = {}
        for k in ('code', 'comment', 'enabled', 'start_point', 'instance',
                  'child_order', 'execute_in', 'attrs'):
            v = n.get(k)
            if v not in (None, [], {}, ''):
                c[k] = v
        out['nodes'][path] = c
    for k in ('alias', 'color', 'references'):
        if data.get(k):
            out[k] = data[k]
    for k in ('positions', 'collapse'):
        if data.get('meta_data', {}).get(k):
            out[k] = data['meta_data'][k]
    for k in ('mute', 'solo'):
        if data.get(k):
            out[k] = True
    return out


def fewer_nodes(data):
    """Smaller variants of a save file: one subtree less."""
    nodes = data['nodes']
    for p in sorted(nodes):
        keep = {q: n for q, n in nodes.items()
                if q != p and not (p != '/' and q.startswith(p + '/'))}
        if not keep:
            continue
        parent = p.rsplit('/', 1)[0]
        if parent in keep and p.rsplit('/', 1)[1] in keep[parent].get(
                'child_order', []):
            keep[parent] = dict(keep[parent], child_order=[
                c for c in keep[parent]['child_order']
                if c != p.rsplit('/', 1)[1]])
        yield dict(data, nodes=keep)


def read_bytes(path):
    try:
        with open(path, 'rb') as fp:
            return fp.read()
    except OSError:
        return None
