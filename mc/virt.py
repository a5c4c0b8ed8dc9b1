"""Virtual stand-ins for threading, multiprocessing and time, installed before glompo is imported.

Everything is context-aware: outside a World (module import, oracles) the primitives behave like uncontended ones.
"""
import copy
import os
import pickle
import sys
import traceback
import types

from . import kernel
from .kernel import cur

real = types.SimpleNamespace()


# ---- locks ----------------------------------------------------------------------------------------------------------
class VLock:
    __slots__ = ('_l', '__weakref__')

    def __init__(self):
        self._l = False

    def _free(self):
        return not self._l

    def acquire(self, blocking=True, timeout=-1):
        w = kernel.WORLD
        if w is None or w.current is None:
            if self._l:
                if blocking:
                    raise RuntimeError("virtual lock would deadlock outside a World")
                return False
            self._l = True
            return True
        if not blocking:
            if w.fine:
                w.point('trylock')
            if self._l:
                return False
            self._l = True
            return True
        if w.fine:
            if not w.point('lock', self._free, None if timeout is None or timeout < 0 else timeout):
                return False
        elif self._l:
            if not w.point('lock', self._free, None if timeout is None or timeout < 0 else timeout):
                return False
        self._l = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False

    release_lock = release

    def locked(self):
        return self._l

    def _is_owned(self):  # what a Condition finds out by a trial acquisition otherwise
        return self._l

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return self

    def _at_fork_reinit(self):
        self._l = False


class VRLock:
    __slots__ = ('_block', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._block = VLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == get_ident()

    def _at_fork_reinit(self):
        self.__init__()


def get_ident():
    t = cur()
    return real.get_ident() if t is None else (t.pid, t.ident)[1]


class _FakeThread:
    """ What current_thread() returns inside a task which is not a Thread object. """
    daemon = False

    def __init__(self, name, ident):
        self.name, self.ident = name, ident

    def getName(self):
        return self.name

    def is_alive(self):
        return True


def current_thread():
    t = cur()
    if t is None:
        return real.current_thread()
    if t.kind == 'thread' and t.obj is not None:
        return t.obj
    return _FakeThread('MainThread', t.ident)


_counter = [0]


class VThread:
    """ threading.Thread on top of the controlled scheduler. """

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        _counter[0] += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or f'Thread-{_counter[0]}'
        self.daemon = bool(daemon)
        self._task = None
        self._started = False

    @property
    def ident(self):
        return self._task.ident if self._task else None

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        w = kernel.WORLD
        if w is None:
            raise RuntimeError("virtual thread started outside a World")
        w.point('thread.start')
        t = w.spawn(self.name, self._bootstrap, 'thread')
        t.obj = self
        self._task = t
        w.data.setdefault('children', []).append(self)

    def _bootstrap(self):
        try:
            self.run()
        except SystemExit:
            pass
        except Exception as e:  # threading.excepthook would print it
            self._task.exc = e
        finally:
            pass

    def run(self):
        try:
            if self._target:
                self._target(*self._args, **self._kwargs)
        finally:
            del self._target, self._args, self._kwargs

    def _dead(self):
        return self._task is not None and self._task.done

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        w = kernel.WORLD
        if w is None:
            return
        w.point('join', self._dead, timeout)

    def is_alive(self):
        if self._task is None:
            return False
        w = kernel.WORLD
        if w is not None and w.current is not None:
            w.point('is_alive')
        return not self._task.done

    isAlive = is_alive


# ---- processes ------------------------------------------------------------------------------------------------------
class VProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        _counter[0] += 1
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name = name or f'Process-{_counter[0]}'
        self.daemon = bool(daemon)
        self._task = None

    @property
    def pid(self):
        return self._task.pid if self._task else None

    ident = pid

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._task is None, 'cannot start a process twice'
        w = kernel.WORLD
        w.point('process.start')
        # fork: the child gets its own copy of everything reachable; pipes, proxies and events are shared handles
        memo = {}
        self._target, self._args, self._kwargs = copy.deepcopy((self._target, self._args, self._kwargs), memo)
        conns = [c for c in list(w.data.get('conns', ())) if id(c) in memo]
        t = w.spawn(self.name, self._bootstrap, 'process')
        t.obj = self
        self._task = t
        w.data.setdefault('children', []).append(self)
        for c in conns:
            c.holder = t

    def _bootstrap(self):
        try:
            self.run()
        except SystemExit:
            raise
        except BaseException as e:
            self._task.exc = e
            self._task.exitcode = 1
            try:
                traceback.print_exc(file=sys.stderr)
            except Exception:
                pass
        finally:
            if not self._task.killed:
                for f in (sys.stdout, sys.stderr):
                    try:
                        f.flush()
                    except (AttributeError, ValueError):
                        pass

    def _dead(self):
        t = self._task
        return t.done or t.killed

    def is_alive(self):
        if self._task is None:
            return False
        w = kernel.WORLD
        if w is not None and w.current is not None:
            w.point('is_alive')
        return not self._dead()

    def join(self, timeout=None):
        assert self._task is not None, 'can only join a started process'
        w = kernel.WORLD
        if w is not None:
            w.point('join', self._dead, timeout)

    @property
    def exitcode(self):
        if self._task is None:
            return None
        return self._task.exitcode if self._dead() else None

    def terminate(self):
        w = kernel.WORLD
        w.point('terminate')
        w.log.append(('terminate', self.name, w.steps, self._dead()))
        w.kill(self._task, -15)

    def kill(self):
        w = kernel.WORLD
        w.point('terminate')
        w.log.append(('terminate', self.name, w.steps, self._dead()))
        w.kill(self._task, -9)

    def close(self):
        pass


# ---- crossing a process boundary ------------------------------------------------------------------------------------
_ATOM = (type(None), int, float, bool, str, bytes)
_np = []


def clone(o):
    """ pickle.loads(pickle.dumps(o)), with short cuts for plain data. """
    t = type(o)
    if t in _ATOM:
        return o
    if t is tuple:
        return tuple([clone(i) for i in o])
    if t is list:
        return [clone(i) for i in o]
    if t is dict:
        return {clone(k): clone(v) for k, v in o.items()}
    if not _np:
        import numpy
        _np.append(numpy)
    np = _np[0]
    if t is np.ndarray and o.dtype != object:
        return o.copy()
    if isinstance(o, tuple) and hasattr(t, '_fields') and t.__reduce__ is object.__reduce__:
        return t(*[clone(i) for i in o])
    return pickle.loads(pickle.dumps(o))


# ---- pipes ----------------------------------------------------------------------------------------------------------
class VConn:
    """ One end of a duplex pipe between processes: messages are pickled. """

    def __init__(self):
        self.q = []
        self.other = None
        self.closed = False
        self.reset = False
        self.holder = None  # the task whose death closes this end
        w = kernel.WORLD
        if w is not None:
            w.data.setdefault('conns', []).append(self)

    def __deepcopy__(self, memo):
        memo[id(self)] = self
        return self

    def _peer_gone(self):
        o = self.other
        if o.closed:
            return True
        w = kernel.WORLD
        if w is None or not w.eof:
            return False
        h = o.holder
        return h is not None and (h.done or h.killed) and not h.in_server

    def _readable(self):
        return bool(self.q) or self._peer_gone()

    def poll(self, timeout=0.0):
        w = kernel.WORLD
        if w is None or w.current is None:
            return self._readable()
        if timeout == 0:
            w.point('poll')
            r = self._readable()
            return r
        w.point('poll', self._readable, timeout)
        r = self._readable()
        if not r:
            w.spin()
        return r

    def recv(self):
        w = kernel.WORLD
        if w is not None and w.current is not None:
            w.point('recv', self._readable)
        if self.q:
            return self.q.pop(0)
        if self.other.q and not self.reset:  # the peer went away without reading everything: ECONNRESET, once
            self.reset = True
            raise ConnectionResetError(104, 'Connection reset by peer')
        raise EOFError

    def send(self, obj):
        w = kernel.WORLD
        data = clone(obj)
        if w is not None and w.current is not None:
            w.point('send')
        if self._peer_gone():
            raise BrokenPipeError(32, 'Broken pipe')
        if w is not None:
            w.data.setdefault('sent', []).append((self, data, len(w.log)))
        self.other.q.append(data)

    def close(self):
        self.closed = True

    def fileno(self):
        return 0


def Pipe(duplex=True):
    a, b = VConn(), VConn()
    a.other, b.other = b, a
    return a, b


# ---- manager proxies ------------------------------------------------------------------------------------------------
def _exc_copy(e):
    return e


class VProxy:
    """ A SyncManager proxy: arguments and results cross a pickle boundary, the call runs on the server. """

    def __init__(self, obj, exposed, typeid):
        self.__dict__['_obj'] = obj
        self.__dict__['_exposed'] = exposed
        self.__dict__['_typeid'] = typeid

    def __getattr__(self, name):
        if name.startswith('__') or name not in self._exposed:
            raise AttributeError(f"'AutoProxy[{self._typeid}]' object has no attribute '{name}'")
        meth = getattr(self._obj, name)
        label = f'{self._typeid}.{name}'
        is_set = name == 'is_set'

        def call(*args, **kwargs):
            w = kernel.WORLD
            t = w.current if w is not None else None
            if t is None:
                return clone(meth(*args, **kwargs))
            args, kwargs = clone(args), clone(kwargs)
            w.point(label)
            t.in_server += 1
            try:
                r = meth(*args, **kwargs)
            finally:
                t.in_server -= 1
                if t.killed and not t.in_server:
                    t.done = True
                    w.hub.switch()
                if t.inject is not None and not t.in_server:
                    exc, t.inject = t.inject, None
                    raise exc
            if is_set and r:
                w.spin()
            return clone(r)

        self.__dict__[name] = call
        return call

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _rebuild, (id(self), )

    def __repr__(self):
        return f'<VProxy {self._typeid}>'


def _rebuild(i):
    raise pickle.PicklingError("proxies are not pickled in this model")


class VManager:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        reg = real.SyncManager._registry
        if name.startswith('_') or name not in reg:
            raise AttributeError(name)
        callable_, exposed, method_to_typeid, proxytype = reg[name]

        def make(*args, **kwargs):
            obj = callable_(*args, **kwargs)
            exp = exposed or getattr(proxytype, '_exposed_', None)
            if not exp:
                exp = real.public_methods(obj)
            p = VProxy(obj, tuple(exp), name)
            w = kernel.WORLD
            if w is not None:
                w.data.setdefault('proxies', []).append(p)
            return p

        return make

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ---- time -----------------------------------------------------------------------------------------------------------
def vtime():
    w = kernel.WORLD
    if w is None:
        return real.time()
    return w.tick()


def vmono():
    w = kernel.WORLD
    if w is None:
        return real.monotonic()
    return w.tick() - 1_500_000_000.0


def vsleep(dt):
    w = kernel.WORLD
    if w is None or w.current is None:
        return real.sleep(dt)
    w.sleep(dt)


# ---- a matplotlib.pyplot which records nothing and costs nothing ------------------------------------------------------
class _Null:
    """ Absorbs any attribute access, call, iteration or arithmetic; `subplots` and friends are recorded by name. """

    def __init__(self, path='plt'):
        self._p = path

    def __getattr__(self, n):
        if n.startswith('__') or n == '_p':
            raise AttributeError(n)
        return _Null(self._p + '.' + n)

    colors = [(0., 0., 0.)]

    def __iter__(self):
        return iter(())

    def __float__(self):
        return 1.0

    def __mul__(self, o):
        return 1.0

    __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __mul__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, *a, **k):
        w = kernel.WORLD
        if w is not None and 'plot' in w.data:
            w.data['plot'].append((self._p, a, k))
        return _Null(self._p + '()')


def _process_pool(base):
    """ A pool of processes is a pool of threads to which everything is handed over as a copy. """
    class VProcessPoolExecutor(base):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=()):
            super().__init__(max_workers, initializer=initializer, initargs=initargs)

        def submit(self, fn, *args, **kw):
            fn, args, kw = copy.deepcopy((fn, args, kw))
            return super().submit(fn, *args, **kw)

    return VProcessPoolExecutor


def install(fake_plot=True):
    import threading
    import time
    import multiprocessing
    import multiprocessing.managers as mgr
    import queue
    import concurrent.futures  # noqa
    import random

    sys.getsizeof = lambda o, default=0: 64  # PyPy has none: an environment stand-in, see DESIGN.md

    # the real things
    real.time, real.monotonic, real.sleep, real.perf_counter = time.time, time.monotonic, time.sleep, time.perf_counter
    real.get_ident, real.current_thread = threading.get_ident, threading.current_thread
    real.SyncManager, real.public_methods = mgr.SyncManager, mgr.public_methods
    real.Thread, real.Lock, real.RLock = threading.Thread, threading.Lock, threading.RLock
    real.Process, real.Pipe, real.Manager = multiprocessing.Process, multiprocessing.Pipe, multiprocessing.Manager

    import logging  # keeps its real locks
    logging.disable(logging.CRITICAL)

    # third-party modules that hold real locks
    import numpy, tables, yaml, dill  # noqa
    if not fake_plot:
        import matplotlib.pyplot  # noqa

    threading.Lock = threading._allocate_lock = VLock
    threading.RLock = VRLock
    threading.Thread = VThread
    threading.get_ident = get_ident
    threading.current_thread = threading.currentThread = current_thread
    queue.threading = threading
    queue.time = vmono
    queue.SimpleQueue = queue._PySimpleQueue
    threading._time = vmono
    time.time, time.monotonic, time.perf_counter, time.sleep = vtime, vmono, vmono, vsleep
    import datetime as dt
    if hasattr(dt, '_time'):
        dt._time = time

    multiprocessing.Manager = VManager
    multiprocessing.Pipe = Pipe
    multiprocessing.Process = VProcess
    multiprocessing.cpu_count = lambda: 4
    os_cpu = os.cpu_count
    os.cpu_count = lambda: 4

    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = VLock()
    cft.threading = threading
    cft.queue = queue

    concurrent.futures.ProcessPoolExecutor = _process_pool(cft.ThreadPoolExecutor)

    ps = types.ModuleType('psutil')
    ps.version_info = (0, 0, 0)
    sys.modules['psutil'] = ps

    if fake_plot:
        import matplotlib
        m = types.ModuleType('matplotlib.pyplot')
        n = _Null()

        def subplots(*a, **k):
            w = kernel.WORLD
            if w is not None and 'canvas' in w.data:
                return w.data['canvas']()
            return _Null('fig'), _Null('ax')

        def close(fig=None):
            if hasattr(type(fig), 'shut'):
                fig.shut()
            else:
                n.close(fig)

        m.subplots = subplots
        m.close = close
        m.isinteractive = lambda: False
        m.__getattr__ = lambda name: getattr(n, name)
        sys.modules['matplotlib.pyplot'] = m
        matplotlib.pyplot = m
        m.Figure = m.Axes = object
    return os_cpu
