"""Python interpreters started by nxt: rpc servers and headless executions.

`subprocess` calls made inside the simulation become further simulated
processes that run the same code a real interpreter would: `-m module` or a
script.
"""
import io
import os

from . import core
from .proc import SimProcess


class Tee(io.StringIO):
    """Output of a child that goes to a file of its parent."""

    def __init__(self, fp):
        io.StringIO.__init__(self)
        self.fp = fp

    def write(self, s):
        try:
            self.fp.write(s)
            self.fp.flush()
        except (OSError, ValueError):
            pass
        return len(s)


def runner(w, children, before=None):
    """A spawn handler; `children` collects every process it starts and
    `before(proc, kind)` runs first in the child, where it may die."""
    def spawn(w, args, cwd, env, stdout):
        if isinstance(args, str):
            args = args.split()
        parent = core.current_proc()
        args = [str(a) for a in args]
        kind = 'server' if '-m' in args else 'headless'
        p = SimProcess(w, '{}{}'.format(kind, len(children)),
                       environ=env if env is not None else parent.environ,
                       cwd=cwd or os.getcwd(), parent=parent)
        p.kind = kind
        p.args = args
        w.log('spawn', p.name, *[a for a in args[1:] if 'tmp' not in a])
        children.append(p)

        def body(p):
            import logging  # noqa: the child has its own
            import runpy
            if before is not None:
                before(p, kind)
            prepare(p)
            rest = args[1:]
            while rest[0] in ('-B', '-E', '-u'):
                rest = rest[1:]
            if rest[0] == '-m':
                p.argv[:] = rest[1:]
                runpy.run_module(rest[1], run_name='__main__',
                                 alter_sys=False)
            else:
                p.argv[:] = rest
                runpy.run_path(rest[0], run_name='__main__')
        p.start(body, boot=False)
        return p
    return spawn


def prepare(p):
    import tempfile
    from .proc import SimNames
    tempfile.tempdir = p.environ.get('TMPDIR') or '/tmp'
    tempfile._name_sequence = SimNames(p)


# ------------------------------------------------------------------ graphs --
def raw(v):
    return {'type': 'raw', 'value': v}


def remote_graph(sub, x='5', extra=(), ref='remote_contexts'):
    """A graph whose only node runs the graph `sub` through the rpc server."""
    name = {'remote_contexts': '/_remote_sub_graph',
            'sub_graphs': '/_sub_graph'}[ref]
    nodes = {'/': {'child_order': ['r'] + [n[0][1:] for n in extra]},
             '/r': {'instance': name, 'start_point': True,
                    'attrs': {'_graph_path': raw(sub), 'x': raw(x)}}}
    nodes.update(extra)
    return {'version': '1.17', 'alias': 'g',
            'references': ['$NXT_BUILTINS/{}.nxt'.format(ref)],
            'nodes': nodes}


def sub_graph(code):
    return {'version': '1.17', 'alias': 's', 'nodes': {
        '/': {'child_order': ['a'], 'attrs': {'x': raw('1'), 'y': raw('2')}},
        '/a': {'start_point': True, 'code': code}}}
