"""C20: what tokens in values resolve to, whatever happens to the files."""
import copy
import itertools
import os
import random
import re

from .. import graphs
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'exploration'
QUICK = {'cases': 420, 'budget': 60, 'chunk': 15}
THOROUGH = {'cases': 100000, 'budget': 1800, 'chunk': 50}
RULE = ('Random trees of up to five layers in several folders, with nested '
        'tokens of every kind in values and in files, search roots that are '
        'there, missing or closed, files that come, go and change between '
        'and during lookups, failing lookups and reads, edits, muting, and '
        'two threads that resolve at once.')
REAL = 'nxt tokens, the token plugins, stage, layers, composition'
STUB = 'disk calls (scratch files, fault layer), threads, clock'
ASSUMES = ['Tokens do not lead back to themselves.',
           'Nodes have no instances.',
           'Tokens within file tokens are attribute or file tokens.']

DIRS = ['', '', 'a', 'b', 'a/c']
ROOTS = ['r1', 'r2', 'r3', 'gone', 'r1', 'r2', 'a', '']
FILES = ['d.txt', 'e.txt', 's/d.txt', 'n', '<invalid>']
NODES = ['/p', '/p/k', '/p/k/m', '/q', '/q/k']
# Attributes only lead to those after them
CHAIN = ['f', 'g', 'h', 'x', 'y']
PLAIN = ['d.txt', 'e.txt', 's/d.txt', '../d.txt', 's', 'n', 'no', '$DATA',
         '~/d.txt', 'ln/d.txt', 'two words', '%DATA%', '']


def gen_ref(rng, later):
    a = rng.choice(later)
    form = rng.choice(['', '', '', 'abs', 'up'])
    if form == 'abs':
        return '${%s.%s}' % (rng.choice(NODES + ['/']), a)
    if form == 'up':
        return '${../.%s}' % a if rng.random() < 0.0 else \
            '${%s.%s}' % (rng.choice(NODES), a)
    return '${%s}' % a


def gen_text(rng, attr, inner=0, in_file=False):
    """Text with tokens that only refer to later attributes."""
    later = CHAIN[CHAIN.index(attr) + 1:]
    if in_file:
        later = [a for a in later if a in 'hxy']
    out = ''
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.choice(['plain', 'ref', 'ref', 'file', 'file', 'path',
                           'list', 'contents', 'ex', 'me'])
        if inner > 1 and kind != 'ref':
            kind = 'plain'
        if in_file:
            kind = rng.choice(['plain', 'ref', 'ref'])
        if kind == 'ref' and not later:
            kind = 'plain'
        if kind == 'plain':
            t = rng.choice(PLAIN)
        elif kind == 'ref':
            t = gen_ref(rng, later)
        elif kind == 'me':
            t = '${_nxtpath}'
        elif kind in ('file', 'list'):
            t = '${%s::%s}' % ({'file': 'file', 'list': 'filelist'}[kind],
                               gen_text(rng, attr, inner + 1, True))
        elif kind == 'contents':
            t = '${contents::%s}' % (
                gen_text(rng, attr, 2, True) if rng.random() < 0.2 else
                '${file::%s}' % gen_text(rng, attr, 2, True))
        else:
            t = '${%s::%s}' % (kind, gen_text(rng, attr, inner + 1))
        out += t
    return out


def gen_value(rng, a, files=True):
    if a in 'xy':
        return rng.choice(PLAIN) if a == 'y' or rng.random() < 0.7 else \
            rng.choice(['${y}', 's/${y}', '${/q.y}', '${/.y}'])
    if a == 'h':
        # Values that file tokens may lead to
        def part():
            return rng.choice(['${file::%s}' % gen_text(rng, a, 2, True),
                               gen_text(rng, a, 2, True)])
        return part() + rng.choice(['', '', '', '/', part()])
    t = gen_text(rng, a)
    if rng.random() < 0.06:
        t += rng.choice([' ${', '}', '${${y}', '{', '} ${y}'])
    return t


def gen_content(rng):
    kind = rng.choice(['text', 'text', 'token', 'token', 'bad', 'empty',
                       'line'])
    return {'text': 'in %d' % rng.randrange(100), 'empty': '',
            'token': rng.choice(['${y}', '${_nxtpath} ${y}', '${/q.y}!']),
            'bad': None, 'line': 'a\nb {c} $%d\n' % rng.randrange(9)}[kind]


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    layers = []
    for i in range(n):
        nodes = {}
        for p in NODES + ['/']:
            if rng.random() < (0.35 if p != '/' else 0.3):
                attrs = {a: gen_value(rng, a) for a in CHAIN
                         if rng.random() < 0.55 and (p != '/' or a in 'hxy')}
                if attrs or p != '/':
                    nodes[p] = attrs
        if i == 0 and not any(p != '/' for p in nodes):
            nodes['/p'] = {'f': gen_value(rng, 'f')}
        layers.append({'nodes': nodes, 'dir': rng.choice(DIRS),
                       'mute': rng.random() < 0.1,
                       'solo': rng.random() < 0.06})
    # Disk: where files are, and what is in them
    files = {}
    for d in ('', 'a', 'b', 'a/c', 'r1', 'r2', 'r3', 'home', 'a/s', 'r1/s'):
        for f in FILES:
            if rng.random() < 0.22:
                files[(d + '/' if d else '') + f] = gen_content(rng)
    roots = None
    if rng.random() < 0.6:
        roots = [rng.choice(ROOTS) for _ in range(rng.randrange(0, 4))]
    mode = rng.choice(['plain', 'faults', 'faults', 'others', 'threads'])
    kinds = ['look', 'look', 'look', 'look', 'file', 'file', 'mute', 'attr',
             'roots', 'cwd', 'folder']
    ops = [[rng.choice(kinds), rng.randrange(1 << 20)]
           for _ in range(rng.randrange(4, 14))]
    return {'layers': layers, 'parents': [None] + [
                rng.randrange(i) for i in range(1, n)],
            'files': files, 'roots': roots, 'mode': mode, 'ops': ops,
            'rates': {'fs': 0.12 if mode == 'faults' else 0,
                      'switch': 0.3, 'pick': 0.5},
            'max_steps': 60000}


def shrink(s):
    for i in range(len(s['ops'])):
        yield dict(s, ops=s['ops'][:i] + s['ops'][i + 1:])
    for f in sorted(s['files']):
        yield dict(s, files={k: v for k, v in s['files'].items() if k != f})
    n = len(s['layers'])
    if n > 1:
        yield dict(s, layers=s['layers'][:-1], parents=s['parents'][:-1])
    for i, l in enumerate(s['layers']):
        def put(**k):
            return dict(s, layers=s['layers'][:i] + [dict(l, **k)] +
                        s['layers'][i + 1:])
        for key in ('mute', 'solo'):
            if l[key]:
                yield put(**{key: False})
        if l['dir']:
            yield put(dir='')
        for p in sorted(l['nodes'], reverse=True):
            rest = {q: v for q, v in l['nodes'].items() if q != p}
            if rest:
                yield put(nodes=rest)
            for a in sorted(l['nodes'][p]):
                yield put(nodes=dict(l['nodes'], **{p: {
                    k: v for k, v in l['nodes'][p].items() if k != a}}))
    if s['roots']:
        for i in range(len(s['roots'])):
            yield dict(s, roots=s['roots'][:i] + s['roots'][i + 1:])


def split(text):
    """The text's outermost tokens, as [(token, content)]."""
    out = []
    i = 0
    while True:
        i = text.find('${', i)
        if i < 0:
            return out
        depth, j = 1, i + 2
        while depth:
            if j >= len(text):
                return []
            if text.startswith('${', j):
                depth += 1
            elif text[j] == '}':
                depth -= 1
            j += 1
        out.append((text[i:j], text[i + 2:j - 1]))
        i = j


class Model(object):
    """What a token may resolve to, given what is certain about the disk.

    Every method gives a set: more than one result only where a file is not
    certain to be there (because a lookup failed or somebody changed it).
    """

    def __init__(self, layers, env, cwd, unsure):
        self.layers = layers    # dicts with nodes, cwd, mute, solo
        self.env = env
        self.cwd = cwd
        self.unsure = unsure    # real path -> contents it may have had

    def active(self, layers):
        solo = [l for l in layers if l['solo']]
        return [l for l in solo or layers if not l['mute']]

    def raw(self, path, attr, on, lower=False):
        """An attribute of a composed node, None if it has no such node."""
        specs = [l['nodes'][path] for l in on if path in l['nodes']]
        if not specs and not lower:
            return None
        for s in specs:
            if attr in s:
                return s[attr]
        while path != '/':
            path = path.rsplit('/', 1)[0] or '/'
            if any(path in l['nodes'] for l in on):
                return self.raw(path, attr, on)
        return ''

    def states(self, real):
        """Whether a file is there, as {True}, {False} or both."""
        if real in self.unsure:
            return {True, False}
        return {os.path.exists(real)}

    def expand(self, path, start):
        path = re.sub(r'%([a-zA-Z_]*)%', r'$\1', path)
        path = re.sub(r'\$(\w+)', lambda m: self.env.get(m.group(1),
                                                         m.group(0)), path)
        if path == '~' or path.startswith('~/'):
            path = self.env['HOME'] + path[1:]
        return os.path.realpath(os.path.join(start, path))

    def roots(self):
        return [r for r in (self.env.get('NXT_FILE_ROOTS') or '').split(':')]

    def find(self, path, layer_dir):
        out = set()
        for root in self.roots() + [layer_dir]:
            if not root:
                continue
            there = self.states(os.path.realpath(root))
            if True not in there:
                continue
            real = self.expand(path, root)
            has = self.states(real)
            if True in has:
                out.add(real)
            if has == {True} and there == {True}:
                return out
        return out | {''}

    def fill(self, text, of):
        """The text with every token replaced by what of(content) gives."""
        done = {''}
        for token, content in split(text):
            before, _, text = text.partition(token)
            done = {t + before + v for t in done for v in of(content)}
            if len(done) > 300:
                raise TooMany()
        return {t + text for t in done}

    def lower(self, text, path, on):
        """Text in a file token, as it is with these layers only."""
        def of(content):
            if content.startswith('file::'):
                return self.at(content[6:], path, on)
            where, attr = self.ref(content, path)
            if where not in self.every:
                return {''}
            v = self.raw(where, attr, on, True)
            return self.lower(v, where, on) if v else {''}
        return self.fill(text, of)

    def at(self, inner, path, on):
        out = set()
        for t in self.lower(inner, path, on):
            if not t and inner:
                t = '<invalid>'
            out |= self.find(t, on[0]['cwd'])
        return out

    def ref(self, content, path):
        if '.' in content and content.startswith('/'):
            where, _, attr = content.rpartition('.')
            return where, attr
        return path, content

    def depths(self, k):
        for d in range(k, len(self.layers)):
            on = self.active(self.layers[d:])
            if on:
                yield on

    def value(self, path, attr, k):
        on = self.active(self.layers[k:])
        self.every = {p for l in on for p in l['nodes']}
        v = self.raw(path, attr, on) if path in self.every else ''
        return self.resolve(v, path, k) if v else {''}

    def resolve(self, text, path, k):
        return self.fill(text, lambda c: self.token(c, path, k))

    def token(self, content, path, k):
        kind, sep, inner = content.partition('::')
        if content == '_nxtpath':
            return {path}
        if not sep:
            where, attr = self.ref(content, path)
            return self.value(where, attr, k)
        if kind == 'file':
            out = set()
            for on in self.depths(k):
                got = self.at(inner, path, on)
                out |= got - {''}
                if '' not in got:
                    return out
            return out | {''}
        if kind == 'filelist':
            each = [sorted(self.at(inner, path, on))
                    for on in self.depths(k)]
            out = set()
            for n, combo in enumerate(itertools.product(*each)):
                if n > 2000:
                    raise TooMany()
                found = []
                for f in combo:
                    if f and f not in found:
                        found.append(f)
                out.add(str(found))
            return out
        texts = self.resolve(inner, path, k)
        if kind == 'ex':
            return {t[::-1] for t in texts}
        out = set()
        if kind == 'path':
            starts = []
            for r in self.roots():
                there = self.states(os.path.realpath(r)) if r else {False}
                if True in there:
                    starts.append(r)
                if there == {True}:
                    break
            else:
                starts.append(self.active(self.layers[k:])[0]['cwd'])
                if True in [len(self.states(starts[-1])) > 1]:
                    starts.append(self.cwd)
            for t in texts:
                out |= {self.expand(t, r) for r in starts}
            return out
        for t in texts:         # contents
            if not t:
                out.add('')
                continue
            real = os.path.realpath(os.path.join(self.cwd, t))
            may = list(self.unsure.get(real, ()))
            try:
                with open(real, 'rb') as fp:
                    may.append(fp.read())
            except (OSError, ValueError):
                may.append(None)
            for b in may:
                try:
                    out |= self.resolve(b.decode('utf-8'), path, k)
                except (AttributeError, UnicodeDecodeError):
                    out.add('')
        return out


class TooMany(Exception):
    pass


def run(w, s):
    work = w.root + '/work'
    counts = {'looks': 0, 'tokens': 0, 'unsure': 0, 'files': 0, 'changed': 0,
              'edits': 0, 'both': 0}
    env = {'HOME': work + '/home', 'PATH': '/usr/bin:/bin',
           'LANG': 'C.UTF-8', 'NXT_USER_DIR': w.root + '/user',
           'TMPDIR': w.root + '/tmp', 'DATA': 'd.txt'}
    for d in ('a', 'b', 'a/c', 'r1', 'r2', 'r3', 'home', 's', 'a/s', 'r1/s',
              'r2/s', 'b/n', 'elsewhere'):
        os.makedirs(os.path.join(work, d), exist_ok=True)
    os.symlink(work + '/a', work + '/ln')
    os.symlink('../r2', work + '/r1/ln')

    def put(f, content):
        path = os.path.join(work, f)
        if os.path.isdir(path) or not os.path.isdir(os.path.dirname(path)):
            return
        with open(path, 'wb') as fp:
            fp.write(b'\xff\xfe \x81' if content is None
                     else content.encode())
    for f in sorted(s['files']):
        put(f, s['files'][f])

    def rooted(roots):
        return ':'.join(work + '/' + r if r else '' for r in roots)
    if s['roots'] is not None:
        env['NXT_FILE_ROOTS'] = rooted(s['roots'])
    # The layers, strongest first
    layers = []
    for i, l in enumerate(s['layers']):
        top = os.path.join(work, l['dir']) if l['dir'] else work
        layers.append({'nodes': copy.deepcopy(l['nodes']), 'cwd': top,
                       'path': '%s/g%d.nxt' % (top, i), 'mute': l['mute'],
                       'solo': l['solo'], 'kids': []})
    order = []

    def flat(i):
        order.append(layers[i])
        for j in range(len(layers)):
            if s['parents'][j] == i:
                flat(j)
    flat(0)
    for i, l in enumerate(layers):
        graphs.write(l['path'], {
            'alias': 'g%d' % i, 'mute': l['mute'], 'solo': l['solo'],
            'references': [layers[j]['path'] for j in range(len(layers))
                           if s['parents'][j] == i],
            'nodes': {p: {'attrs': {a: {'type': 'raw', 'value': v}
                                    for a, v in l['nodes'][p].items()}}
                      for p in l['nodes']}})
    w.fs.allow = ('EIO', 'EACCES', 'EMFILE', 'ESTALE', 'ENOENT', 'short')
    w.fs.filter = lambda kind, path: kind in ('stat', 'chdir', 'open_r',
                                              'read')
    w.faults_on = False
    state = {'cwd': work, 'env': dict(env)}

    def resolved(stage, comp, path, attr, got):
        """Resolve one value; whatever happens is appended to got."""
        node = comp.lookup(path)
        try:
            got.append(stage.get_node_attr_value(node, attr, comp))
        except Exception as e:
            import traceback
            got.append(e)
            got.append(traceback.format_exc()[-600:])

    def look(p, stage, rng):
        k = rng.choice([0, 0, 0, rng.randrange(len(order))])
        comp = stage.build_stage(from_idx=k)
        on = Model(order, state['env'], state['cwd'], {}).active(order[k:])
        where = sorted({q for l in on for q in l['nodes']})
        if not where:
            return
        asked = []
        for _ in range(2 if s['mode'] == 'threads' else 1):
            a = rng.choice('fffgghx')
            has = [q for q in where if any(a in l['nodes'].get(q, ())
                                           for l in on)]
            asked.append((rng.choice(has or where), a, []))
        before = [graphs.dump(l.get_save_data()) for l in stage._sub_layers]
        unsure = {}
        f0 = len(w.fs.fault_log)
        w.faults_on = s['mode'] == 'faults'
        tasks = []
        mutate = {}
        if s['mode'] == 'others':
            f = [os.path.join(work, x) for x in sorted(s['files'])]
            f += [os.path.join(work, d, 'd.txt') for d in
                  ('r1', 'r2', 'a', '')]
            f = [x for x in f if not os.path.isdir(x) and
                 os.path.isdir(os.path.dirname(x))]
            seed = rng.randrange(1 << 20)

            def other():
                r = random.Random(seed)
                for _ in range(3):
                    w.block(None, 0, 'other')
                    path = os.path.realpath(r.choice(f))
                    mutate.setdefault(path, []).append(
                        graphs.read_bytes(path))
                    if os.path.exists(path):
                        os.remove(path)
                        w.log('gone', path.replace(w.root, ''))
                    else:
                        put(os.path.relpath(path, work), r.choice(
                            ['new', '${y}', None]))
                        w.log('new', path.replace(w.root, ''))
                    counts['changed'] += 1
                    mutate[path].append(graphs.read_bytes(path))
            tasks.append(w.spawn(other, 'other'))
        try:
            if s['mode'] == 'threads':
                tasks.append(w.spawn(
                    lambda x=asked[1]: resolved(stage, comp, *x), 'second',
                    p))
                counts['both'] += 1
            path, attr, got = asked[0]
            resolved(stage, comp, path, attr, got)
            w.block(lambda: all(t.done for t in tasks), None, 'join')
        finally:
            w.faults_on = False
        for kind, path, what in w.fs.fault_log[f0:]:
            real = os.path.realpath(os.path.join(
                state['cwd'], path.replace('$S', w.root)))
            unsure.setdefault(real, [None])
        for path in mutate:
            unsure.setdefault(path, []).extend(mutate[path])
        if os.getcwd() != state['cwd']:
            raise Violation('token-cwd', 'resolving left the process in {}'
                            .format(os.getcwd().replace(w.root, '')))
        if before != [graphs.dump(l.get_save_data())
                      for l in stage._sub_layers]:
            raise Violation('token-changes', 'resolving changed the layers')
        for path, attr, got in asked:
            check(path, attr, got, k, unsure, comp)

    def check(path, attr, got, k, unsure, comp):
        counts['looks'] += 1
        counts['unsure'] += bool(unsure)
        m = Model(order, state['env'], state['cwd'], unsure)
        raw = m.raw(path, attr, m.active(order[k:]))
        counts['tokens'] += len(split(raw or ''))
        if isinstance(got[0], Exception):
            if isinstance(got[0], Violation):
                raise got[0]
            raise Violation('token-raises', 'resolving {!r} of {} failed '
                            'with {!r}'.format(raw, path, got[0]),
                            error=type(got[0]).__name__, where=got[1])
        try:
            want = m.value(path, attr, k)
        except TooMany:
            return
        # A failed lookup may hide that a folder is a link
        text = got[0]
        if text not in want and not (unsure and s['mode'] == 'faults' and
                                     text.startswith('/') and
                                     os.path.realpath(text) in want):
            raise Violation(
                'token-wrong', '{!r} of {} (layer {} down) is {!r}, not {}'
                .format(raw, path, k, text.replace(w.root, '')
                        if isinstance(text, str) else text,
                        sorted(x.replace(w.root, '') for x in want)[:4]),
                certain=not unsure)
        w.note_state(raw, text)

    def life(p):
        from nxt.session import Session
        import nxt.plugins.example  # noqa
        stage = Session().load_file(order[0]['path'])
        if [l.real_path for l in stage._sub_layers] != \
                [l['path'] for l in order]:
            raise Violation('token-setup', 'the graph opened otherwise')
        for op, seed in s['ops']:
            rng = random.Random(seed)
            i = rng.randrange(len(order))
            layer, l = stage._sub_layers[i], order[i]
            if op == 'look':
                for _ in range(4):
                    look(p, stage, rng)
            elif op == 'file':
                counts['files'] += 1
                f = rng.choice(sorted(s['files']) or ['d.txt'])
                full = os.path.join(work, f)
                if os.path.isfile(full):
                    os.remove(full)
                else:
                    put(f, gen_content(rng))
            elif op == 'folder':
                # A search root that comes and goes
                top = work + '/gone'
                if os.path.isdir(top):
                    os.remove(top + '/d.txt')
                    os.rmdir(top)
                else:
                    os.mkdir(top)
                    put('gone/d.txt', gen_content(rng))
            elif op == 'mute':
                l['mute'] = not l['mute']
                layer.set_muted(l['mute'])
            elif op == 'attr':
                q = rng.choice(sorted(l['nodes']) or [None])
                a = rng.choice('hxy' if q == '/' else 'fghxy')
                if q is None or a not in l['nodes'][q]:
                    continue
                v = gen_value(rng, a)
                stage.node_setattr_data(layer.lookup(q), a, layer, False,
                                        value=v)
                l['nodes'][q][a] = v
                counts['edits'] += 1
            elif op == 'roots':
                roots = [rng.choice(ROOTS) for _ in range(rng.randrange(3))]
                if rng.random() < 0.3:
                    os.environ.pop('NXT_FILE_ROOTS', None)
                    state['env'].pop('NXT_FILE_ROOTS', None)
                else:
                    os.environ['NXT_FILE_ROOTS'] = rooted(roots)
                    state['env']['NXT_FILE_ROOTS'] = rooted(roots)
            else:
                state['cwd'] = rng.choice([work, work + '/a',
                                           work + '/elsewhere'])
                os.chdir(state['cwd'])

    p = SimProcess(w, 'life', environ=dict(env), cwd=work)
    t = p.run(life)
    if t.exc is not None:
        raise t.exc if isinstance(t.exc, Violation) else Violation(
            'crashed', 'resolving broke with {!r}'.format(t.exc),
            error=type(t.exc).__name__, where=p.tracebacks[-1][-600:])
    return dict(counts, nontrivial=counts['tokens'] > 2)
