"""Loads the code under test from /repo and gives the harnesses their vocabulary."""
import importlib
import os
import sys
import threading as real_threading
import time as real_time

from . import engine as E
from . import sched as S
from .snapshot import Snapshot

REPO = os.environ.get('VERIF_REPO', '/repo')


def preload():
    """Import what the code under test imports, with the real threading module."""
    import abc, argparse, collections, contextlib, copy, functools, http.client  # noqa
    import inspect, itertools, json, logging, pickle, queue, random, string  # noqa
    import typing, unittest, urllib.request, urllib.error, warnings, bisect  # noqa
    import codecs, encodings.utf_8, encodings.latin_1, encodings.utf_16, io  # noqa
    import asyncio, selectors, socket, tempfile, weakref, heapq, dataclasses  # noqa
    import concurrent.futures, concurrent.futures.thread, encodings.idna  # noqa
    import encodings.ascii, encodings.utf_32, enum, operator, traceback, pprint  # noqa


class Runtime:
    """What harnesses use.  `e` is the engine of the current path."""

    def __init__(self, granularity='line'):
        preload()
        sys.dont_write_bytecode = True
        sys.pycache_prefix = '/nonexistent/pycache'  # never a stale .pyc of /repo
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        S.REPO_PREFIX = REPO.rstrip('/') + '/stream2py/'
        th, tm = S.build_fakes(real_threading, real_time)
        sys.modules['threading'] = th
        sys.modules['time'] = tm
        self.threading, self.time = th, tm
        # what is built upon threading, for code that uses it
        for x in ('queue', 'concurrent.futures._base', 'concurrent.futures.thread',
                  'concurrent.futures', 'concurrent', 'sched'):
            sys.modules.pop(x, None)
        sys.modules['_queue'] = None  # the implementation in C
        import queue, concurrent.futures.thread, sched  # noqa
        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter('ignore')
        m = importlib.import_module
        pkg = m('stream2py')
        assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO)), \
            pkg.__file__
        self.pkg = pkg
        self.SortedCollection = m('stream2py.utility.sorted_collection').SortedCollection
        self.SortedDeque = m('stream2py.utility.sorted_deque').SortedDeque
        self.locked = m('stream2py.utility.locked_sorted_deque')
        self.RWLockSortedDeque = self.locked.RWLockSortedDeque
        self.rwmod = m('stream2py.utility.reader_writer_lock')
        self.RWLock = self.rwmod.RWLock
        self.BufferReader = pkg.BufferReader
        self.StreamBuffer = pkg.StreamBuffer
        self.SourceReader = pkg.SourceReader
        self.exceptions = m('stream2py.exceptions')
        self.m = m
        self.import_all(os.path.dirname(pkg.__file__), 'stream2py')
        self.snapshot = Snapshot('stream2py')
        S.monitor(granularity)

    @staticmethod
    def import_all(path, name):
        """Import every module of the package now, so that none is new in a path"""
        for x in sorted(os.listdir(path)):
            full = os.path.join(path, x)
            if x in ('tests', 'examples') or x.startswith(('__', '.')):
                continue
            try:
                if x.endswith('.py'):
                    importlib.import_module(f'{name}.{x[:-3]}')
                elif os.path.exists(os.path.join(full, '__init__.py')):
                    importlib.import_module(f'{name}.{x}')
                    Runtime.import_all(full, f'{name}.{x}')
            except ImportError:
                pass

    def Event(self):
        return self.threading.Event()

    # ---- scheduling vocabulary
    @property
    def sched(self):
        return S.SCHED

    def spawn(self, fn, name):
        """Run fn() on a scheduled thread; .result / .error afterwards."""
        box = Box(self, name)

        def body():
            try:
                box.result = fn()
            except Exception as ex:
                box.error = ex

        box.rec = S.SCHED.spawn(body, name)
        return box

    def point(self):
        if S.SCHED is not None:
            S.SCHED.point('harness')

    def join(self, *boxes):
        for b in boxes:
            S.SCHED.block(lambda: b.rec.done, why=f'joining {b.name}')

    def wait_until(self, pred, timeout=None, why='harness wait'):
        return S.SCHED.block(pred, timeout, why=why)

    def sleep(self, t):
        S.sleep(t)

    @property
    def now(self):
        return S.SCHED.now

    def settle(self):
        S.SCHED.settle()


class Box:
    result = None
    error = None

    def __init__(self, rt, name):
        self.rt, self.name = rt, name

    @property
    def done(self):
        return self.rec.done


def call(f, *a, **k):
    """('ok', value) or ('raise', exception)"""
    try:
        return 'ok', f(*a, **k)
    except Exception as ex:
        return 'raise', ex
