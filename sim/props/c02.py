"""C02: converting an old graph file never loses it or changes its meaning."""
import copy
import os

from .. import graphs, util
from ..core import Violation
from ..proc import SimProcess

LEVEL = 'fault_enumeration'
QUICK = {'cases': 120, 'budget': 60, 'chunk': 8}
THOROUGH = {'cases': 6000, 'budget': 2400, 'chunk': 20}
SWEEP = {'quick': 6, 'thorough': 200}
RULE = ('Random graphs stored in old (and current, and damaged) file formats '
        'are converted by the real command line in a simulated process, next '
        'to earlier results; then once per (disk operation, fault) pair.')
REAL = 'nxt command line, converters and loaders, json, logging'
STUB = 'disk calls (real scratch files behind a fault layer), clock'
ASSUMES = ['process death, not power loss: completed system calls persist',
           'rename within one directory is atomic']


LOWS = ['low.nxt', 'lower.nxt', 'lowest.nxt']
NEIGHBOURS = ['{}.tmp', '{}.nxt.tmp', '{}.nxt.bak', '{}_CONVERTED.tmp',
              '{}', 'my.nxt', '{}_CONVERTED', '{}.nxt~', 'my_CONVERTED.nxt']


def enrich(rng, data):
    """Everything else a save file can say about its layers and nodes."""
    refs = data.get('references', [])
    if rng.random() < 0.3:
        parent = rng.choice([p for p in sorted(data['nodes']) if p != '/'])
        kids = data['nodes'][parent].setdefault('child_order', [])
        for n in rng.sample(graphs.NAMES, 6):
            if n not in kids:
                kids.append(n)
                data['nodes'][parent + '/' + n] = graphs.node_data(rng)
    if rng.random() < 0.3:
        data.pop('meta_data', None)
    meta = data.get('meta_data', {})
    for r in refs:
        over = {k: rng.random() < 0.5 for k in ('mute', 'solo')
                if rng.random() < 0.4}
        if over:
            data.setdefault('comp_overrides', {})[r] = over
        if rng.random() < 0.4:
            meta.setdefault('aliases', {})[r] = rng.choice(graphs.WORDS[:6])
        if rng.random() < 0.4:
            meta.setdefault('colors', {})[r] = '#{:06x}'.format(
                rng.randrange(1 << 24))
    paths = sorted(data['nodes'])
    if rng.random() < 0.4:
        meta['collapse'] = {p: rng.random() < 0.7 for p in
                            rng.sample(paths, rng.randrange(
                                1, min(4, len(paths)) + 1))}
    if rng.random() < 0.2:
        meta['notes'] = {'seen': [1, 2]}
    if rng.random() < 0.1:
        data['extra'] = {'kept': True}
    for p in paths:
        if p.count('/') == 1 and p != '/' and rng.random() < 0.2:
            others = [q for q in paths if q < p and q.count('/') == 1
                      and q != '/']
            if others:
                data['nodes'][p]['execute_in'] = rng.choice(others)
    if meta:
        data['meta_data'] = meta
    for k in ('mute', 'solo'):
        if rng.random() < 0.15:
            data[k] = True
    return data


def content(data):
    out = graphs.content(data)
    if isinstance(out, dict):
        meta = data.get('meta_data', {})
        for k in ('aliases', 'colors', 'notes'):
            if meta.get(k):
                out['meta ' + k] = meta[k]
        for k in ('comp_overrides', 'extra'):
            if data.get(k):
                out[k] = data[k]
    return out


def generate(rng, tier):
    data = graphs.layer(rng, 'old', big=rng.choice([0, 0, 0, 200]),
                        n_nodes=rng.choice([None, None, 16]),
                        refs=rng.choice([(), (), LOWS[:1], LOWS[:2], LOWS]))
    enrich(rng, data)
    version = rng.choice(graphs.OLD_VERSIONS + ['1.17'] +
                         graphs.OLD_VERSIONS[4:])
    runs = [{'replace': rng.random() < 0.5,
             'form': rng.choice(['convert'] * 3 + ['-c'])}
            for _ in range(rng.randrange(1, 4))]
    return {'neighbours': rng.sample(NEIGHBOURS, rng.randrange(0, 5)),
            'data': data, 'version': version, 'runs': runs,
            'mode': rng.choice([0o644, 0o644, 0o600, 0o664]),
            'link': rng.random() < 0.1,
            'dotted': rng.random() < 0.3,
            'damage': rng.choice([None] * 7 + ['torn', 'ancient']),
            'stale': rng.random() < 0.3,
            'write_limit': rng.choice([None, 700])}


def shrink(s):
    if len(s['runs']) > 1:
        for i in range(len(s['runs'])):
            yield dict(s, runs=s['runs'][:i] + s['runs'][i + 1:])
    for d in graphs.fewer_nodes(s['data']):
        yield dict(s, data=d)
    for k, v in (('link', False), ('dotted', False), ('stale', False),
                 ('write_limit', None), ('mode', 0o644),
                 ('neighbours', [])):
        if s[k] != v:
            yield dict(s, **{k: v})


def sweep(scenario, base, rng, tier):
    return util.fs_sweep(base, rng, SWEEP[tier])


def raw(path):
    try:
        with open(path, 'rb') as fp:
            return fp.read()
    except FileNotFoundError:
        return None


def comp_of(w, name, path):
    """The composed graph a fresh process sees in a file."""
    got = {}

    def body(p):
        from nxt.stage import Stage
        stage = Stage.load_from_filepath(path)
        got.update(util.snapshot(stage, stage.build_stage()))
    p = SimProcess(w, name)
    t = p.run(body)
    return t.exc, got


def run(w, s):
    work = w.root + '/work'
    os.mkdir(work + '/real')
    name = 'my.old.graph' if s['dotted'] else 'old'
    path = work + '/' + name + '.nxt'
    beside = work + '/' + name + '_CONVERTED.nxt'
    old = graphs.downgrade(s['data'], s['version'])
    if s['version'].startswith('0'):
        want = copy.deepcopy(s['data'])
        want['nodes'].pop('/', None)
    else:
        want = s['data']
    want = content(want)
    text = graphs.dump(old)
    if s['damage'] == 'torn':
        text = text[:len(text) // 2]
    elif s['damage'] == 'ancient':
        old['version'] = '0.30.0'
        text = graphs.dump(old)
    real = path
    if s['link']:
        real = work + '/real/' + name + '.nxt'
        beside = work + '/real/' + name + '_CONVERTED.nxt'
        os.symlink(real, path)
    where = os.path.dirname(real)
    for d in {work, where}:
        for low in LOWS:
            graphs.write(d + '/' + low, {
                'version': '1.17', 'alias': low,
                'nodes': {'/' + low[:-4]: {'code': ['# ' + low]},
                          '/both': {'attrs': {'a': {'type': 'str',
                                                    'value': low}}}}})
    for n in s['neighbours']:
        if n.format(name) != os.path.basename(beside):
            graphs.write(where + '/' + n.format(name), 'someone else\'s')
    graphs.write(real, text)
    os.chmod(real, s['mode'])
    if s['stale']:
        graphs.write(beside, '{"earlier": "result"}')
    w.fs.raw_write_limit = s.get('write_limit')
    w.fs.filter = lambda kind, p: kind in (
        'open_w', 'open_r', 'read', 'write', 'rename', 'remove', 'fsync',
        'truncate', 'chmod', 'close', 'link') and str(p).startswith(work)
    exc0, before = comp_of(w, 'before', path)
    done = 0
    refused = 0
    for i, r in enumerate(s['runs']):
        was = {path: raw(path), beside: raw(beside)}
        listing = set(os.listdir(where))
        tree = graphs.snapshot_tree(work)
        target = path if r['replace'] else beside
        if r['form'] == 'convert':
            argv = ['nxt', 'convert', path] + (
                ['-r', '1'] if r['replace'] else [])
        else:
            argv = ['nxt', path, '-c'] + (['-r'] if r['replace'] else [])
        p = SimProcess(w, 'convert{}'.format(i), argv=argv)

        def body(p):
            from nxt import cli
            w.faults_on = True
            try:
                cli.main()
            finally:
                w.faults_on = False
        faults = len(w.fs.fault_log)
        p.run(body)
        w.faults_on = False
        hit = w.fs.fault_log[faults:]
        after = graphs.snapshot_tree(work)
        for f in sorted(tree):
            if os.path.realpath(work + '/' + f) != os.path.realpath(target) \
                    and after.get(f) != tree[f]:
                raise Violation('other-file-changed', 'converting{} changed '
                                '{}'.format(' in place' if r['replace'] else
                                            '', f))
        now = raw(target)
        complete = now is not None and \
            content(graphs.read(target)) == want
        ok_exit = p.exit_code == 0 and not p.crashed
        if now != was[target] and not complete:
            raise Violation(
                'target-damaged', 'after the conversion {} {} holds neither '
                'what it held before nor the converted graph: {}'.format(
                    'was cut short' if p.crashed else
                    'ended with {}'.format(p.exit_code), w.fs.rel(target),
                    'nothing' if now is None else repr(now[:60])))
        if ok_exit and not complete:
            raise Violation('success-without-result', 'the conversion '
                            'reported success but {} does not hold the '
                            'converted graph'.format(w.fs.rel(target)))
        if not ok_exit and not hit and not s['damage']:
            raise Violation('conversion-failed', 'converting a valid v{} '
                            'graph failed without any fault: {}'.format(
                                s['version'], p.tracebacks[-1:]))
        if s['damage'] in ('torn', 'ancient') and ok_exit:
            raise Violation('damaged-accepted', 'converting an unreadable '
                            'file reported success')
        if not p.crashed:
            extra = set(os.listdir(where)) - listing - {
                os.path.basename(target)}
            if extra and not any(h[0] == 'remove' for h in hit):
                raise Violation('files-left-behind', 'the conversion left {}'
                                .format(sorted(extra)))
        if r['replace']:
            if os.stat(path).st_mode & 0o7777 != s['mode']:
                raise Violation('permissions-changed', 'the conversion '
                                'changed the permissions of the file')
            if s['link'] and not os.path.islink(path):
                raise Violation('link-replaced', 'the conversion replaced a '
                                'link by a file')
        done += ok_exit
        refused += not ok_exit
        w.log('convert', i, r['replace'], p.exit_code, complete)
    # What any of the results means has not changed
    for f in (path, beside):
        if content(graphs.read(f)) != want or s['damage']:
            continue
        exc, after = comp_of(w, 'after', f)
        if exc0 is not None or exc is not None or after != before:
            raise Violation('meaning-changed', '{} does not compose like '
                            'the original: {} / {}'.format(
                                w.fs.rel(f), exc0 or '', exc or 'other graph'))
    w.note_state(done, refused, tuple(x[0] + x[2] for x in w.fs.fault_log))
    return {'converted': done, 'refused_or_failed': refused}
