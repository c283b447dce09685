"""Simulated `time`, `threading`, `select`, `selectors`, `socket` and
`subprocess`, installed in sys.modules before simulated code is imported.

Outside a simulated process they refuse to block or pass straight through.
"""
import errno
import socket as _socket
import sys
import threading as _threading
import time as _time
import types
import traceback

from . import core
from .core import SimCrash, HarnessError, os_error


def W():
    w = core.CUR
    if w is None or w.closed or w.proc is None:
        return None
    return w


def WA():
    """World, also for actors that belong to no process."""
    w = core.CUR
    if w is None or w.closed:
        return None
    return w


# ------------------------------------------------------------------ time --
def make_time():
    m = types.ModuleType('time', 'simulated time')
    for k, v in vars(_time).items():
        if not k.startswith('__'):
            setattr(m, k, v)

    def time():
        w = WA()
        if w is None:
            return _time.time()
        w.clock_reads = getattr(w, 'clock_reads', 0) + 1
        if w.clock_policy is not None:
            w.clock_policy(w)
        w.step('time')
        return w.wall()

    def monotonic():
        w = WA()
        if w is None:
            return _time.monotonic()
        w.step('monotonic')
        return w.elapsed

    def sleep(secs):
        w = WA()
        if w is None:
            return _time.sleep(secs)
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        w.log('sleep', secs)
        w.block(None, secs, 'sleep')

    def localtime(secs=None):
        return _time.gmtime(time() if secs is None else secs)

    def strftime(fmt, t=None):
        return _time.strftime(fmt, localtime() if t is None else t)

    m.time = time
    m.monotonic = monotonic
    m.perf_counter = monotonic
    m.process_time = monotonic
    m.time_ns = lambda: int(time() * 1e9)
    m.monotonic_ns = lambda: int(monotonic() * 1e9)
    m.perf_counter_ns = m.monotonic_ns
    m.sleep = sleep
    m.localtime = localtime
    m.gmtime = lambda s=None: _time.gmtime(time() if s is None else s)
    m.ctime = lambda s=None: _time.asctime(localtime(s))
    m.strftime = strftime
    return m


# ------------------------------------------------------------- threading --
class Lock(object):
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        w = WA()
        if w is None:
            self._owner = self._owner or 'outside'
            return True
        w.step('lock')
        if self._owner is None:
            self._owner = w.current or 'outside'
            return True
        if not blocking:
            return False
        ok = w.block(lambda: self._free(), None if timeout < 0 else timeout,
                     'lock')
        if not ok and self._owner is not None:
            return False
        self._owner = w.current or 'outside'
        return True

    def _free(self):
        o = self._owner
        if o is None:
            return True
        # A lock held by a task that died with its process is gone too
        p = getattr(o, 'proc', None)
        return p is not None and p.dead

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        Lock.__init__(self)
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        w = WA()
        me = (w.current if w is not None else None) or 'outside'
        if self._owner is me:
            self._count += 1
            return True
        if Lock.acquire(self, blocking, timeout):
            self._count = 1
            return True
        return False

    def release(self):
        w = core.CUR
        me = (w.current if w is not None and not w.closed else None) \
            or 'outside'
        if self._owner is not me and w is not None and not w.closed \
                and not (w.proc is not None and w.proc.dead):
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0

    __enter__ = acquire

    def _is_owned(self):
        w = core.CUR
        return self._owner is ((w.current if w else None) or 'outside')


class Event(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        w = WA()
        if w is not None:
            w.step('event')
        return self._flag

    isSet = is_set

    def set(self):
        w = WA()
        if w is not None:
            w.step('event')
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        w = WA()
        if w is None or self._flag:
            return self._flag
        w.block(lambda: self._flag, timeout, 'event.wait')
        return self._flag


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock or RLock()
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        w = WA()
        token = [False]
        self._waiters.append(token)
        self._lock.release()
        try:
            if w is not None:
                w.block(lambda: token[0], timeout, 'cond.wait')
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            self._lock.acquire()
        return token[0]

    def wait_for(self, pred, timeout=None):
        w = WA()
        end = None if timeout is None else w.elapsed + timeout
        r = pred()
        while not r:
            left = None if end is None else end - w.elapsed
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = pred()
        return r

    def notify(self, n=1):
        for t in self._waiters[:n]:
            t[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Semaphore(object):
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        w = WA()
        if self._v <= 0:
            if not blocking or w is None:
                return False
            if not w.block(lambda: self._v > 0, timeout, 'sem'):
                return False
        self._v -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self._v += n

    def __exit__(self, *a):
        self.release()


class Thread(object):
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        w = WA()
        if w is not None:
            w.thread_n = getattr(w, 'thread_n', 0) + 1
            n = w.thread_n
        else:
            n = 0
        self.name = name or 'Thread-{}'.format(n)
        cur = current_thread() if daemon is None else None
        self.daemon = bool(daemon) if daemon is not None else \
            bool(getattr(cur, 'daemon', False))
        self._task = None
        self.ident = None
        self.native_id = None

    def start(self):
        w = WA()
        if w is None:
            raise HarnessError('thread started outside the simulation')
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        w.step('thread.start')
        if w.faults_on and getattr(w, 'thread_faults', False) \
                and w.decide('thread.start', 2):
            w.fault('thread_start')
            raise RuntimeError("can't start new thread")
        self._task = w.spawn(self._bootstrap, self.name, w.proc, self.daemon)
        self._task.pythread = self
        self.ident = self._task.ident
        w.log('thread', self.name)

    def _bootstrap(self):
        try:
            self.run()
        except (SimCrash, core.SimKilled, core.StepLimit, HarnessError):
            raise
        except SystemExit:
            pass
        except BaseException as e:
            w = WA()
            if w is not None and w.proc is not None:
                w.proc.thread_errors.append((self.name, repr(e)))
            sys.excepthook_last = traceback.format_exc()

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._task is not None and not self._task.done and not (
            self._task.proc is not None and self._task.proc.dead)

    isAlive = is_alive

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        w = WA()
        if w is not None:
            w.block(lambda: self._task.done, timeout, 'join')

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished._flag:
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _Main(Thread):
    def __init__(self):
        self.name = 'MainThread'
        self.daemon = False
        self.ident = 1
        self.native_id = 1
        self._task = None

    def is_alive(self):
        return True


_MAIN = _Main()


def current_thread():
    w = core.CUR
    t = w.current if w is not None and not w.closed else None
    return getattr(t, 'pythread', None) or _MAIN


class local(object):
    def __init__(self, *a, **k):
        object.__setattr__(self, '_per', {})

    def _d(self):
        w = core.CUR
        t = w.current if w is not None else None
        return object.__getattribute__(self, '_per').setdefault(id(t), {})

    def __getattr__(self, n):
        try:
            return self._d()[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self._d()[n] = v

    def __delattr__(self, n):
        try:
            del self._d()[n]
        except KeyError:
            raise AttributeError(n)


def make_threading():
    m = types.ModuleType('threading', 'simulated threading')
    for k, v in dict(Thread=Thread, Timer=Timer, Lock=Lock, RLock=RLock,
                     Event=Event, Condition=Condition, Semaphore=Semaphore,
                     BoundedSemaphore=Semaphore, local=local,
                     current_thread=current_thread,
                     currentThread=current_thread).items():
        setattr(m, k, v)
    m.main_thread = lambda: _MAIN

    def get_ident():
        w = core.CUR
        t = w.current if w is not None and not w.closed else None
        return t.ident if t is not None else 1
    m.get_ident = get_ident
    m.get_native_id = get_ident

    def enumerate_():
        w = core.CUR
        if w is None:
            return [_MAIN]
        return [_MAIN] + [t.pythread for t in w.tasks
                          if getattr(t, 'pythread', None) is not None
                          and t.proc is w.proc and not t.done]
    m.enumerate = enumerate_
    m.active_count = lambda: len(enumerate_())
    m.activeCount = m.active_count
    m.ThreadError = RuntimeError
    m.TIMEOUT_MAX = _threading.TIMEOUT_MAX
    m.excepthook = _threading.excepthook
    m.ExceptHookArgs = getattr(_threading, 'ExceptHookArgs', None)
    m.settrace = lambda f: None
    m.setprofile = lambda f: None
    m.stack_size = lambda *a: 0
    m._shutdown = getattr(_threading, '_shutdown', lambda: None)
    m._register_atexit = lambda f, *a, **k: None
    m._MainThread = _Main
    m._after_fork = getattr(_threading, '_after_fork', lambda: None)
    m._DummyThread = _Main
    m._active = {}
    m._allocate_lock = Lock
    m._start_new_thread = None
    return m


# ---------------------------------------------------------------- sockets --
EPHEMERAL = 40000


class Conn(object):
    """One direction of a TCP connection."""

    def __init__(self):
        self.chunks = []        # [deliver_at, bytes]
        self.eof_at = None      # orderly shutdown visible from then on
        self.reset = False
        self.last = 0.0
        self.blackhole = False
        self.sent = 0

    def avail(self, now):
        n = 0
        for at, b in self.chunks:
            if at > now:
                break
            n += len(b)
        return n

    def next_time(self):
        if self.chunks:
            return self.chunks[0][0]
        return self.eof_at


class Net(object):
    def __init__(self, world):
        self.world = world
        self.listeners = {}     # port -> listening Socket
        self.bound = {}         # port -> Socket holding the port
        self.accepted = {}      # port -> sockets of its connections
        self.fds = {}
        self.next_fd = 100000
        self.ephemeral = EPHEMERAL
        self.latency = 0.0005
        self.delay_max = 2.0
        self.sockets = []
        self.fault_ports = None     # ports whose connections may fault
        self.no_reset = False       # connections may be slow, not break
        self.no_timeout = False     # connecting is answered at once
        self.buffer = None          # bytes a connection holds unread
        self.on_send = None         # sees what is written to connections
        self.recv_log = []

    def port_ok(self, port):
        return self.fault_ports is None or port in self.fault_ports

    def proc_exit(self, proc):
        for s in list(self.sockets):
            if s._proc is proc and not s._sim_closed:
                s._real_close(reset=True)


def make_socket(mod=None):
    m = types.ModuleType('socket', 'simulated sockets')
    for k, v in vars(_socket).items():
        if not k.startswith('__'):
            setattr(m, k, v)

    class Socket(object):
        def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM,
                     proto=0, fileno=None):
            w = WA()
            if w is None:
                raise HarnessError('socket outside the simulation')
            w.step('socket')
            if family == -1:
                family = _socket.AF_INET
            if type == -1:
                type = _socket.SOCK_STREAM
            self.family, self.type, self.proto = family, type, max(proto, 0)
            self._w = w
            self._net = w.net
            self._proc = w.proc
            self._timeout = None
            self._io_refs = 0
            self._closed = False
            self._sim_closed = False
            self._closed_at = (0, True)
            self._addr = None
            self._peer_addr = None
            self._rx = None
            self._tx = None
            self._peer = None
            self._listening = False
            self._backlog = []
            self._opts = {}
            self._rd_shut = False
            self._fd = self._net.next_fd
            self._net.next_fd += 1
            self._net.fds[self._fd] = self
            self._net.sockets.append(self)
            self._port = None
            w.keep.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if not self._closed:
                self.close()

        def __repr__(self):
            return '<simsocket fd={} {}>'.format(self._fd, self._addr)

        def fileno(self):
            return -1 if self._sim_closed else self._fd

        def _check(self):
            if self._sim_closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')

        def settimeout(self, t):
            self._check()
            self._timeout = t

        def gettimeout(self):
            return self._timeout

        def setblocking(self, flag):
            self._timeout = None if flag else 0.0

        def getblocking(self):
            return self._timeout is None or self._timeout != 0.0

        def setsockopt(self, level, opt, *v):
            self._check()
            self._opts[(level, opt)] = v[0] if v else None

        def getsockopt(self, level, opt, *a):
            if opt == _socket.SO_ERROR:
                return 0
            return self._opts.get((level, opt), 0)

        def _has_reuse(self):
            return bool(self._opts.get((_socket.SOL_SOCKET,
                                        _socket.SO_REUSEADDR)))

        def bind(self, addr):
            self._check()
            w, net = self._w, self._net
            w.step('bind')
            port = addr[1]
            if port == 0:
                net.ephemeral += 1
                while net.ephemeral in net.bound:
                    net.ephemeral += 1
                port = net.ephemeral
            else:
                other = net.bound.get(port)
                if other is not None and not other._sim_closed:
                    # SO_REUSEADDR lets two sockets share a port only while
                    # neither of them listens
                    if other._listening or not (other._has_reuse()
                                                and self._has_reuse()):
                        raise OSError(errno.EADDRINUSE,
                                      'Address already in use')
                # Connections of an earlier listener hold the port too, for
                # a minute after this side has closed them first
                if not self._has_reuse():
                    for srv in net.accepted.get(port, ()):
                        if srv._holds_port():
                            w.fault('net:port_lingers')
                            w.log('lingers', port)
                            raise OSError(errno.EADDRINUSE,
                                          'Address already in use')
            host = addr[0]
            if host in ('', '0.0.0.0'):
                host = '0.0.0.0'
            else:
                host = '127.0.0.1'
            net.bound[port] = self
            self._port = port
            self._addr = (host, port)
            w.log('bind', port)

        def listen(self, backlog=5):
            self._check()
            if self._addr is None:
                self.bind(('', 0))
            other = self._net.listeners.get(self._addr[1])
            if other is not None and other is not self:
                raise OSError(errno.EADDRINUSE, 'Address already in use')
            self._listening = True
            self._net.listeners[self._addr[1]] = self
            self._w.log('listen', self._addr[1])

        def getsockname(self):
            self._check()
            return self._addr or ('0.0.0.0', 0)

        def getpeername(self):
            if self._peer_addr is None:
                raise OSError(errno.ENOTCONN,
                              'Transport endpoint is not connected')
            return self._peer_addr

        def connect_ex(self, addr):
            try:
                self.connect(addr)
            except OSError as e:
                return e.errno or errno.EIO
            return 0

        def connect(self, addr):
            self._check()
            w, net = self._w, self._net
            w.step('connect')
            port = addr[1]
            if not isinstance(port, int):
                raise TypeError('an integer is required')
            if not 0 <= port <= 65535:
                raise OverflowError('connect(): port must be 0-65535.')
            fate = 0
            if w.faults_on and net.port_ok(port):
                fate = w.decide('net.connect', 4)
            if net.no_reset and fate < 3 or net.no_timeout and fate == 2:
                fate = 0
            if fate == 1:
                w.fault('net:refused')
                w.log('FAULT', 'connect', port, 'refused')
                raise ConnectionRefusedError(errno.ECONNREFUSED,
                                             'Connection refused')
            if fate == 2:
                w.fault('net:connect_timeout')
                w.log('FAULT', 'connect', port, 'timeout')
                w.block(None, self._timeout if self._timeout else 127.0,
                        'connect')
                if self._timeout:
                    raise _socket.timeout('timed out')
                raise OSError(errno.ETIMEDOUT, 'Connection timed out')
            if fate == 3:
                w.fault('net:slow_connect')
                w.block(None, 0.2 + 0.1 * w.decide('net.delay', 20, 0.9),
                        'connect')
            lst = net.listeners.get(port)
            if lst is None or lst._sim_closed or (
                    lst._proc is not None and lst._proc.dead):
                w.elapsed += net.latency
                w.log('refused', port)
                raise ConnectionRefusedError(errno.ECONNREFUSED,
                                             'Connection refused')
            a, b = Conn(), Conn()
            srv = Socket()
            srv._proc = lst._proc
            self._rx, self._tx = a, b
            srv._rx, srv._tx = b, a
            self._peer, srv._peer = srv, self
            if self._addr is None:
                net.ephemeral += 1
                self._addr = ('127.0.0.1', net.ephemeral)
            self._peer_addr = ('127.0.0.1', port)
            srv._addr = ('127.0.0.1', port)
            srv._peer_addr = self._addr
            srv._service_port = self._service_port = port
            lst._backlog.append(srv)
            net.accepted.setdefault(port, []).append(srv)
            w.log('connect', port)

        def _holds_port(self):
            if self._rx.reset or self._tx.reset:
                return False
            if not self._sim_closed:
                return True
            at, passive = self._closed_at
            return not passive and self._w.elapsed - at < 60

        def _service(self):
            return getattr(self, '_service_port', None)

        def accept(self):
            self._check()
            w = self._w
            w.step('accept')
            if not self._wait(lambda: bool(self._backlog)
                              or self._sim_closed, 'accept'):
                raise _socket.timeout('timed out')
            if self._sim_closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            s = self._backlog.pop(0)
            w.log('accept', self._addr[1])
            return s, s._peer_addr

        def _wait(self, cond, label):
            w = self._w
            if cond():
                return True
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EWOULDBLOCK,
                                      'Resource temporarily unavailable')
            # Data already sent but still in flight wakes the reader later
            end = None if self._timeout is None else \
                w.elapsed + self._timeout
            while not cond():
                timeout = None if end is None else end - w.elapsed
                if timeout is not None and timeout <= 0:
                    return False
                nxt = self._rx.next_time() if self._rx is not None else None
                if nxt is not None and nxt > w.elapsed and (
                        timeout is None or nxt - w.elapsed < timeout):
                    w.block(cond, nxt - w.elapsed, label)
                else:
                    before = nxt
                    rx = self._rx
                    w.block(lambda: cond() or (rx is not None and
                                               rx.next_time() != before),
                            timeout, label)
            return True

        # -- data --
        def _fault_here(self):
            w = self._w
            return w.faults_on and self._net.port_ok(self._service())

        def _room(self, deadline):
            """Wait until the connection can take more bytes."""
            w, tx = self._w, self._tx
            peer = self._peer

            def room():
                return self._net.buffer - sum(len(b) for _, b in tx.chunks)

            def over():
                return room() > 0 or tx.reset or peer._sim_closed or (
                    peer._proc is not None and peer._proc.dead)
            if deadline is None and self._timeout is not None:
                deadline = w.elapsed + self._timeout
            while not over():
                left = None if deadline is None else deadline - w.elapsed
                if left is not None and left <= 0:
                    raise _socket.timeout('timed out')
                w.block(over, left, 'send')
            if self._sim_closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if room() <= 0:
                self._pipe_broken = True
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            return room()

        def send(self, data, flags=0, deadline=None):
            self._check()
            w = self._w
            w.step('send')
            if self._tx is None:
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            data = bytes(data)
            if self._net.on_send is not None:
                self._net.on_send(self, data)
            tx = self._tx
            if tx.reset:
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            if self._peer is None or self._peer._sim_closed or (
                    self._peer._proc is not None and self._peer._proc.dead):
                # First write after the peer went away is accepted and
                # answered with a reset; the next one fails.
                if getattr(self, '_pipe_broken', False):
                    raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
                self._pipe_broken = True
                return len(data)
            fate = w.decide('net.send', 4) if self._fault_here() else 0
            if fate == 1 and not self._net.no_reset:
                w.fault('net:reset')
                w.log('FAULT', 'send', 'reset')
                self._reset_both()
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            n = len(data)
            if self._net.buffer:
                n = min(n, self._room(deadline))
            if fate == 2 and n > 1:
                w.fault('net:short_send')
                n = max(1, n // 2)
            delay = self._net.latency
            if fate == 3:
                w.fault('net:delay')
                delay += 0.05 * w.decide('net.delay', 40, 0.95)
            at = max(tx.last, w.elapsed + delay)
            tx.last = at
            if not tx.blackhole:
                tx.chunks.append([at, data[:n]])
            tx.sent += n
            w.log('send', n)
            return n

        def sendall(self, data, flags=0):
            data = memoryview(bytes(data))
            deadline = None if self._timeout is None else \
                self._w.elapsed + self._timeout
            while len(data):
                n = self.send(data, 0, deadline)
                data = data[n:]

        def sendto(self, data, addr):
            return len(data)

        def _reset_both(self):
            for c in (self._rx, self._tx):
                if c is not None:
                    c.reset = True
                    del c.chunks[:]

        def recv(self, n, flags=0):
            self._check()
            w = self._w
            w.step('recv')
            if self._rx is None:
                raise OSError(errno.ENOTCONN,
                              'Transport endpoint is not connected')
            rx = self._rx
            if self._rd_shut:
                return b''
            fate = w.decide('net.recv', 3) if self._fault_here() else 0
            if fate == 1 and not self._net.no_reset:
                w.fault('net:reset')
                w.log('FAULT', 'recv', 'reset')
                self._reset_both()
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            ok = self._wait(lambda: rx.reset or rx.avail(w.elapsed) > 0
                            or (rx.eof_at is not None and not rx.chunks
                                and rx.eof_at <= w.elapsed)
                            or self._sim_closed, 'recv')
            if not ok:
                raise _socket.timeout('timed out')
            self._check()
            if rx.reset:
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            avail = rx.avail(w.elapsed)
            if avail == 0 or n == 0:
                w.log('recv', 'eof')
                return b''
            take = min(n, avail)
            if take > 1 and fate == 2:
                # Fragmentation: TCP may hand over any prefix
                k = w.decide('net.frag', 8, 0.9)
                take = min(take, (1, 2, 3, take // 2, take - 1, 1, 3,
                                  take)[k] or 1)
                w.fault('net:fragment')
            out = b''
            while len(out) < take:
                at, b = rx.chunks[0]
                need = take - len(out)
                if len(b) <= need:
                    out += b
                    rx.chunks.pop(0)
                else:
                    out += b[:need]
                    rx.chunks[0][1] = b[need:]
            w.log('recv', len(out))
            return out

        def recv_into(self, buf, nbytes=0, flags=0):
            mv = memoryview(buf).cast('B')
            data = self.recv(nbytes or len(mv))
            mv[:len(data)] = data
            return len(data)

        def shutdown(self, how):
            self._check()
            if self._tx is None:
                raise OSError(errno.ENOTCONN,
                              'Transport endpoint is not connected')
            if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
                self._eof()
            if how in (_socket.SHUT_RD, _socket.SHUT_RDWR):
                self._rd_shut = True

        def _eof(self):
            if self._tx is not None and self._tx.eof_at is None:
                self._tx.eof_at = max(self._tx.last,
                                      self._w.elapsed + self._net.latency)

        def close(self):
            self._closed = True
            if self._io_refs <= 0:
                self._real_close()

        def detach(self):
            fd = self._fd
            self._closed = True
            return fd

        def _decref_socketios(self):
            if self._io_refs > 0:
                self._io_refs -= 1
            if self._closed:
                self.close()

        def _real_close(self, reset=False):
            if self._sim_closed:
                return
            w = self._w
            self._sim_closed = True
            self._closed_at = (w.elapsed, self._peer is None
                               or self._peer._sim_closed)
            self._net.fds.pop(self._fd, None)
            if self._port is not None and \
                    self._net.bound.get(self._port) is self:
                del self._net.bound[self._port]
            if self._listening and \
                    self._net.listeners.get(self._port) is self:
                del self._net.listeners[self._port]
                w.log('unlisten', self._port)
                for s in self._backlog:
                    s._reset_both()
                    s._sim_closed = True
            if self._tx is not None:
                unread = self._rx is not None and self._rx.avail(w.elapsed)
                if unread:
                    # Closing with unread data sends a reset
                    if self._peer is not None and not self._tx.chunks:
                        self._tx.reset = True
                self._eof()

        def makefile(self, mode='r', buffering=None, encoding=None,
                     errors=None, newline=None):
            import io
            writing = 'w' in mode
            reading = 'r' in mode or not writing
            raw_mode = ('r' if reading else '') + ('w' if writing else '')
            raw = SockIO(self, raw_mode)
            self._io_refs += 1
            if buffering is None:
                buffering = -1
            if buffering < 0:
                buffering = io.DEFAULT_BUFFER_SIZE
            if buffering == 0:
                return raw
            if reading and writing:
                buf = io.BufferedRWPair(raw, raw, buffering)
            elif reading:
                buf = io.BufferedReader(raw, buffering)
            else:
                buf = io.BufferedWriter(raw, buffering)
            self._w.keep.append(buf)
            if 'b' in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline)
            text.mode = mode
            return text

    import io as _io

    class SockIO(_io.RawIOBase):
        def __init__(self, sock, mode):
            self._sock = sock
            self.mode = mode
            self._reading = 'r' in mode
            self._writing = 'w' in mode

        def readable(self):
            return self._reading

        def writable(self):
            return self._writing

        def readinto(self, b):
            return self._sock.recv_into(b)

        def write(self, b):
            if WA() is None:
                return len(b)
            return self._sock.send(b)

        def fileno(self):
            return self._sock.fileno()

        def close(self):
            if self.closed:
                return
            _io.RawIOBase.close(self)
            s, self._sock = self._sock, None
            if s is not None and WA() is not None:
                s._decref_socketios()

    m.socket = Socket
    m.SocketType = Socket
    m.SocketIO = SockIO

    def create_connection(address, timeout=m._GLOBAL_DEFAULT_TIMEOUT
                          if hasattr(m, '_GLOBAL_DEFAULT_TIMEOUT') else None,
                          source_address=None):
        s = Socket()
        if timeout is not getattr(m, '_GLOBAL_DEFAULT_TIMEOUT', None) \
                and timeout is not None:
            s.settimeout(timeout)
        try:
            s.connect(address)
        except BaseException:
            s.close()
            raise
        return s
    m.create_connection = create_connection
    m.getaddrinfo = lambda host, port, *a, **k: [
        (_socket.AF_INET, _socket.SOCK_STREAM, 6, '', ('127.0.0.1', port))]
    m.gethostbyname = lambda h: '127.0.0.1'
    m.getfqdn = lambda n='': 'localhost'
    m.gethostname = lambda: 'simhost'
    m.has_ipv6 = False
    m.getdefaulttimeout = lambda: None
    m.setdefaulttimeout = lambda t: None

    def create_server(address, *, family=_socket.AF_INET, backlog=None,
                      reuse_port=False, dualstack_ipv6=False):
        s = Socket()
        s.setsockopt(_socket.SOL_SOCKET, _socket.SO_REUSEADDR, 1)
        s.bind(address)
        s.listen(backlog or 5)
        return s
    m.create_server = create_server
    return m


# ---------------------------------------------------------- select & co --
def _lookup(w, fd):
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    if fd < 0:
        raise ValueError('file descriptor cannot be a negative integer')
    s = w.net.fds.get(fd)
    if s is None:
        raise OSError(errno.EBADF, 'Bad file descriptor')
    return s


def _readable(s, now):
    if s._sim_closed:
        return True
    if s._listening:
        return bool(s._backlog)
    rx = s._rx
    if rx is None:
        return False
    return rx.reset or rx.avail(now) > 0 or (
        rx.eof_at is not None and rx.eof_at <= now and not rx.chunks)


def wait_readable(w, socks, timeout, label):
    """Block until one of the sockets is readable; returns those that are."""
    w.step(label)
    end = None if timeout is None else w.elapsed + timeout

    def some():
        return any(_readable(s, w.elapsed) for s in socks)
    while not some():
        left = None if end is None else end - w.elapsed
        if left is not None and left <= 0:
            break
        times = [s._rx.next_time() for s in socks if s._rx is not None]
        times = [t - w.elapsed for t in times
                 if t is not None and t > w.elapsed]
        if times:
            nxt = min(times)
            left = nxt if left is None else min(left, nxt)
        if left is None:
            # Wake up when anything is put on the wire, then look again
            state = [(len(s._rx.chunks), s._rx.eof_at) if s._rx else None
                     for s in socks]
            w.block(lambda: some() or state != [
                (len(s._rx.chunks), s._rx.eof_at) if s._rx else None
                for s in socks], None, label)
        else:
            w.block(some, left, label)
        if w.closed:
            break
    return [s for s in socks if _readable(s, w.elapsed)]


def make_select():
    import select as _select
    m = types.ModuleType('select', 'simulated select')
    m.error = OSError

    def select(r, wl, x, timeout=None):
        w = WA()
        if w is None:
            return _select.select(r, wl, x, timeout)
        socks = [_lookup(w, f) for f in r]
        if wl:
            return [f for f, s in zip(r, socks) if _readable(s, w.elapsed)], \
                list(wl), []
        ok = wait_readable(w, socks, timeout, 'select')
        return [f for f, s in zip(r, socks) if s in ok], [], []
    m.select = select
    for k in dir(_select):
        if k.startswith('POLL') or k.startswith('EPOLL'):
            setattr(m, k, getattr(_select, k))
    return m


def make_selectors():
    from collections import namedtuple
    m = types.ModuleType('selectors', 'simulated selectors')
    m.EVENT_READ = 1
    m.EVENT_WRITE = 2
    m.SelectorKey = namedtuple('SelectorKey',
                               ['fileobj', 'fd', 'events', 'data'])

    class Selector(object):
        def __init__(self):
            self._keys = {}

        def register(self, fileobj, events, data=None):
            fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
            if fd < 0:
                raise ValueError('Invalid file descriptor: {}'.format(fd))
            k = m.SelectorKey(fileobj, fd, events, data)
            self._keys[fd] = k
            return k

        def unregister(self, fileobj):
            fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
            return self._keys.pop(fd)

        def modify(self, fileobj, events, data=None):
            return self.register(fileobj, events, data)

        def get_map(self):
            return {k.fileobj: k for k in self._keys.values()}

        def get_key(self, fileobj):
            return self.get_map()[fileobj]

        def select(self, timeout=None):
            w = WA()
            socks, keys = [], []
            for fd, k in self._keys.items():
                s = w.net.fds.get(fd)
                if s is None:
                    continue
                socks.append(s)
                keys.append(k)
            out = [(k, 2) for k in keys if k.events & 2]
            if out:
                return out
            if not socks:
                w.block(None, timeout if timeout is not None else 1.0,
                        'selector')
                return []
            ok = wait_readable(w, socks, timeout, 'selector')
            return [(k, 1) for k, s in zip(keys, socks) if s in ok]

        def close(self):
            self._keys = {}

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
    for n in ('DefaultSelector', 'SelectSelector', 'PollSelector',
              'EpollSelector', 'BaseSelector'):
        setattr(m, n, Selector)
    return m


# ------------------------------------------------------------- subprocess --
def make_subprocess():
    import subprocess as _sp
    m = types.ModuleType('subprocess', 'simulated subprocess')
    m.PIPE, m.STDOUT, m.DEVNULL = -1, -2, -3
    m.SubprocessError = _sp.SubprocessError
    m.CalledProcessError = _sp.CalledProcessError
    m.TimeoutExpired = _sp.TimeoutExpired
    m.CompletedProcess = _sp.CompletedProcess
    m.list2cmdline = _sp.list2cmdline

    class Popen(object):
        def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                     stdout=None, stderr=None, preexec_fn=None,
                     close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, **kw):
            w = W()
            if w is None:
                raise HarnessError('subprocess outside the simulation')
            w.step('popen')
            self.args = args
            self.stdin = self.stdout = self.stderr = None
            self.returncode = None
            if w.spawn_handler is None:
                raise os_error(errno.ENOENT)
            self._child = w.spawn_handler(w, args, cwd, env, stdout)
            self.pid = self._child.pid

        def poll(self):
            w = W()
            if w is not None:
                w.step('poll')
            if self._child.exit_code is not None:
                self.returncode = self._child.exit_code
            return self.returncode

        def wait(self, timeout=None):
            w = W()
            if not w.block(lambda: self._child.exit_code is not None,
                           timeout, 'wait'):
                raise m.TimeoutExpired(self.args, timeout)
            self.returncode = self._child.exit_code
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.wait(timeout)
            return None, None

        def send_signal(self, sig):
            if self.poll() is None:
                self._child.kill(-int(sig))

        def terminate(self):
            self.send_signal(15)

        def kill(self):
            self.send_signal(9)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    m.Popen = Popen

    def call(*a, timeout=None, **k):
        p = Popen(*a, **k)
        try:
            return p.wait(timeout)
        except m.TimeoutExpired:
            p.kill()
            raise
    m.call = call

    def check_call(*a, **k):
        rc = call(*a, **k)
        if rc:
            raise m.CalledProcessError(rc, a[0] if a else k.get('args'))
        return 0
    m.check_call = check_call

    def run(*a, input=None, capture_output=False, timeout=None, check=False,
            **k):
        p = Popen(*a, **k)
        rc = p.wait(timeout)
        if check and rc:
            raise m.CalledProcessError(rc, p.args)
        return m.CompletedProcess(p.args, rc, None, None)
    m.run = run

    def check_output(*a, **k):
        run(*a, check=True, **k)
        return b''
    m.check_output = check_output
    return m


NAMES = ('time', 'threading', 'socket', 'select', 'selectors', 'subprocess')
_cache = {}


def install():
    """Put the simulated modules in sys.modules; keep the real ones."""
    if _cache:
        return
    for n in NAMES:
        __import__(n)
        _cache[n] = sys.modules[n]
    sys.modules['time'] = make_time()
    sys.modules['threading'] = make_threading()
    sys.modules['socket'] = make_socket()
    sys.modules['select'] = make_select()
    sys.modules['selectors'] = make_selectors()
    sys.modules['subprocess'] = make_subprocess()


def real(name):
    return _cache[name]
