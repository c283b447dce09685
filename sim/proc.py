"""Simulated processes.

A SimProcess owns what a real process owns: a private copy of every stateful
Python module (nxt, logging, tempfile, plugins, __main__), environment,
working directory, argv, standard streams, open files and sockets, exit
hooks.  Restarting after a crash means a new SimProcess: only the disk
survives.
"""
import atexit
import io
import os
import sys
import traceback

from . import core, fs as simfs, simlib
from .core import SimCrash

REPO = os.environ.get('VERIF_REPO', '/repo')
PRIVATE = ('nxt', 'logging', 'tempfile', 'nxt_editor')
BASE = {}
_memo = {}
_REAL = {}


class SimEnviron(dict):
    """A process environment that never reaches the real one."""

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError('str expected, not {}'.format(
                type(v if isinstance(k, str) else k).__name__))
        dict.__setitem__(self, k, v)

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, *a, **k):
        for key, v in dict(*a, **k).items():
            self[key] = v

    def copy(self):
        return dict(self)


class Sink(io.StringIO):
    """stdout/stderr of a simulated process."""

    def write(self, s):
        if self.tell() < 200000:
            return io.StringIO.write(self, s)
        return len(s)


def install():
    """Prepare the interpreter once, before anything is simulated."""
    if BASE:
        return
    import importlib._bootstrap_external as be
    orig = be.SourceLoader.source_to_code

    def source_to_code(self, data, path, *a, **k):
        key = (str(path), bytes(data))
        c = _memo.get(key)
        if c is None:
            c = _memo[key] = orig(self, data, path, *a, **k)
        return c
    be.SourceLoader.source_to_code = source_to_code
    sys.dont_write_bytecode = True
    # Everything simulated code may import that keeps no state of its own
    import warnings
    warnings.simplefilter('ignore')
    for name in (
            'argparse', 'ast', 'base64', 'bisect', 'cgi', 'code', 'codeop',
            'collections', 'copy', 'csv', 'datetime', 'decimal', 'difflib',
            'email', 'email.message', 'email.parser', 'enum', 'errno',
            'fnmatch', 'functools', 'gc', 'getopt', 'getpass', 'glob', 'gzip',
            'hashlib', 'heapq', 'html', 'imp', 'inspect', 'itertools', 'json',
            'keyword', 'linecache', 'locale', 'math', 'mimetypes', 'numbers',
            'opcode', 'operator', 'pathlib', 'pickle', 'pkgutil', 'platform',
            'posixpath', 'pprint', 'pydoc', 'queue', 'random', 're', 'runpy',
            'shlex', 'shutil', 'signal', 'stat', 'string', 'struct',
            'textwrap', 'token', 'tokenize', 'traceback', 'types', 'typing',
            'unittest', 'urllib', 'urllib.parse', 'uuid', 'weakref',
            'xml.parsers.expat', 'zipfile', 'zlib', 'abc', 'ctypes'):
        __import__(name)
    simlib.install()
    for n in list(sys.modules):
        if n.split('.')[0] in ('queue', 'socketserver', 'http', 'xmlrpc',
                               'ssl', '_ssl'):
            del sys.modules[n]
    sys.modules['ssl'] = None
    simfs.install()
    import queue, socketserver, http.client, http.server  # noqa
    import xmlrpc.client, xmlrpc.server  # noqa
    _REAL['register'] = atexit.register
    _REAL['register_at_fork'] = os.register_at_fork

    def register(fn, *a, **k):
        p = core.current_proc()
        if p is None:
            return _REAL['register'](fn, *a, **k)
        p.atexit.append((fn, a, k))
        return fn
    atexit.register = register

    def register_at_fork(**k):
        if core.current_proc() is None:
            return _REAL['register_at_fork'](**k)
    os.register_at_fork = register_at_fork
    for n in list(sys.modules):
        if n.split('.')[0] in PRIVATE:
            del sys.modules[n]
    BASE.update(sys.modules)
    _REAL['environ'] = os.environ
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class SimNames(object):
    """Deterministic stand-in for tempfile's random names."""

    def __init__(self, proc):
        self.proc = proc
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 's{:04d}{:03d}'.format(self.proc.pid % 10000, self.n)

    next = __next__


class SimProcess(object):
    def __init__(self, world, name, environ=None, cwd=None, argv=None,
                 parent=None):
        self.world = world
        self.name = name
        self.parent = parent
        world.next_pid += 1
        self.pid = world.next_pid
        base = {'HOME': world.root + '/home', 'PATH': '/usr/bin:/bin',
                'LANG': 'C.UTF-8', 'NXT_USER_DIR': world.root + '/user',
                'TMPDIR': world.root + '/tmp'}
        self.environ = SimEnviron(base if environ is None else environ)
        self.cwd = cwd or world.root
        self.argv = list(argv or ['nxt'])
        self.path = [p for p in sys.path]
        self.modules = {}
        self.dead = False
        self.crashed = False
        self.exit_code = None
        self.tasks = []
        self.main = None
        self.atexit = []
        self.open_files = []
        self.thread_errors = []
        self.stdout = Sink()
        self.stderr = Sink()
        self.booted = False
        self.tracebacks = []
        world.procs.append(self)

    # -- context switch ----------------------------------------------------
    def switch_in(self):
        sys.modules.update(self.modules)
        os.environ = self.environ
        try:
            simfs.R['chdir'](self.cwd)
        except OSError:
            pass
        self._saved = (sys.argv, sys.stdout, sys.stderr, sys.path)
        sys.argv, sys.stdout, sys.stderr = self.argv, self.stdout, self.stderr
        sys.path = self.path

    def switch_out(self):
        mods = {}
        for n in [n for n in sys.modules if n not in BASE]:
            mods[n] = sys.modules.pop(n)
        for n in ('__main__',):
            if sys.modules.get(n) is not BASE.get(n):
                mods[n] = sys.modules.get(n)
                sys.modules[n] = BASE[n]
        self.modules = mods
        os.environ = _REAL['environ']
        self.argv, self.stdout, self.stderr = sys.argv, sys.stdout, sys.stderr
        self.path = sys.path
        sys.argv, sys.stdout, sys.stderr, sys.path = self._saved
        try:
            self.cwd = simfs.R['getcwd']()
        except OSError:
            pass
        simfs.R['chdir']('/')

    # -- life --------------------------------------------------------------
    def boot(self):
        """Import nxt the way a fresh interpreter does (in this process)."""
        import tempfile
        tempfile.tempdir = self.environ.get('TMPDIR') or '/tmp'
        tempfile._name_sequence = SimNames(self)
        import logging
        # No cached frames of one process in another
        logging.raiseExceptions = True
        import nxt
        self.booted = True
        return nxt

    def start(self, fn, boot=True):
        """Begin running fn(proc) as the process's main thread."""
        def body():
            return self.run_main(fn, boot)
        self.main = self.world.spawn(body, self.name + ':main', self)
        return self.main

    def run(self, fn, boot=True):
        """Run fn(proc) to completion, together with whatever it starts."""
        t = self.start(fn, boot)
        self.world.run()
        return t

    def run_main(self, fn, boot):
        code = 0
        err = None
        result = None
        try:
            if boot:
                self.boot()
            result = fn(self)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (
                0 if e.code is None else 1)
        except (SimCrash, core.StepLimit, core.Deadlock, core.HarnessError,
                core.SimKilled, core.CpuLimit):
            raise
        except BaseException as e:
            err = e
            code = 1
            text = traceback.format_exc()
            self.tracebacks.append(text)
            self.stderr.write(text)
        # Interpreter shutdown: wait for non-daemon threads, run exit hooks
        me = self.world.current
        others = [t for t in self.tasks if t is not me and not t.daemon]
        if any(not t.done for t in others):
            self.world.block(lambda: all(t.done for t in others), None,
                             'shutdown')
        for f, a, k in reversed(self.atexit):
            try:
                f(*a, **k)
            except Exception:
                pass
        self.world.fs.proc_exit(self, True)
        self.finish(code)
        if err is not None:
            raise err
        return result

    def finish(self, code):
        if self.exit_code is None:
            self.exit_code = code
        self.dead = True
        self.world.log('exit', self.name, code)
        self.world.net.proc_exit(self)

    def exit_now(self, code):
        self.finish(code)

    def task_finished(self, task):
        pass

    def crash(self):
        """The process is gone: nothing it had in memory matters any more."""
        if self.dead:
            return
        self.dead = True
        self.crashed = True
        self.exit_code = -9
        self.world.log('CRASH', self.name)
        self.world.fault('process_crash')
        self.world.net.proc_exit(self)

    def kill(self, code=-9):
        if self.dead:
            return
        self.dead = True
        self.exit_code = code
        self.world.log('killed', self.name, code)
        self.world.net.proc_exit(self)
