"""Instrumentation attached at run time to third-party boundaries (rasterio, cv2, os).

A :class:`Session` records dataset events, perturbs the schedule with seeded delays, and injects faults.
Nothing of orthority itself is patched, so the monitors do not depend on how it is written.
"""
from __future__ import annotations

import dis
import os
import random
import sys
import threading
import time

import numpy as np

_active = None
_saved = []


def reset():
    """Remove all instrumentation."""
    global _active
    _active = None
    while _saved:
        obj, name, val, own = _saved.pop()
        if own:
            setattr(obj, name, val)
        else:
            delattr(obj, name)


def _patch(obj, name, make):
    own = not isinstance(obj, type) or name in vars(obj)
    old = getattr(obj, name)
    _saved.append((obj, name, old, own))
    setattr(obj, name, make(old))


class Fault(Exception):
    pass


def _fault_exc(kind):
    if kind == 'rio':
        from rasterio.errors import RasterioIOError

        return RasterioIOError('injected read / write failure')
    if kind == 'mem':
        return MemoryError('injected')
    if kind == 'cv':
        import cv2

        return cv2.error('injected')
    return OSError(5, 'injected I/O error')


class Session:
    """Context manager.

    ``delay``: largest delay (s) of calls in ``delay_kinds``; ``slow``: kinds held open for a while
    (to widen race windows); ``cpu``: value for os.cpu_count(); ``switch``: thread switch interval;
    ``fault``: (event kind, call number from 0, exception kind).
    """

    KINDS = ('write', 'write_mask', 'overviews', 'read', 'vrt_read', 'remap', 'open', 'dataset_mask')

    def __init__(self, seed=0, delay=0.0, delay_kinds=('write', 'remap', 'vrt_read', 'read'), slow=0.0, cpu=None, switch=None, fault=None, preempt=None):
        self.rng = random.Random(seed)
        self.preempt = Preempt(seed, **preempt) if preempt else None
        self.delay, self.delay_kinds, self.slow = delay, set(delay_kinds), slow
        self.cpu, self.switch, self.fault = cpu, switch, fault
        self.events = []
        self.overlaps = []
        self.counts = {}
        self.fired = 0
        self._lock = threading.Lock()
        self._serial = {}
        self._inflight = {}
        self.written = {}
        self.read_cov = {}
        self.threads = set()

    # -- event plumbing
    def _enter(self, kind, ds, info, exclusive):
        me = threading.get_ident()
        with self._lock:
            n = self.counts.get(kind, 0)
            self.counts[kind] = n + 1
            self.threads.add(me)
            self.events.append((kind, info, me))
            if ds is not None:
                users = self._inflight.setdefault(id(ds), [])
                others = [k for t, k in users if t != me]
                if others and exclusive:
                    self.overlaps.append((kind, others[0]))
                users.append((me, kind))
            d = self.rng.random() * self.delay if self.delay and kind in self.delay_kinds else 0
            fire = self.fault is not None and self.fault[0] == kind and self.fault[1] == n
            if fire:
                self.fired += 1
        if d:
            time.sleep(d)
        if self.slow and exclusive:
            time.sleep(self.slow)
        if fire:
            raise _fault_exc(self.fault[2])

    def _exit(self, kind, ds):
        if ds is None:
            return
        me = threading.get_ident()
        with self._lock:
            users = self._inflight.get(id(ds), [])
            if (me, kind) in users:
                users.remove((me, kind))

    def call(self, kind, ds, info, fn, exclusive=False, serial=True):
        try:
            self._enter(kind, ds, info, exclusive)
            if ds is not None and serial:
                # GDAL datasets are not thread safe: serialise the real call so that a race is
                # observed and reported rather than crashing the process
                with self._lock:
                    lk = self._serial.setdefault(id(ds), threading.RLock())
                with lk:
                    return fn()
            return fn()
        finally:
            self._exit(kind, ds)

    # -- coverage of dataset windows
    def _cover(self, store, ds, win, idx):
        key = id(ds)
        with self._lock:
            if key not in store:
                store[key] = dict(name=str(getattr(ds, 'name', '')), shape=(ds.height, ds.width), bands={}, keep=ds)
            e = store[key]
            sl = _slices(win, e['shape'])
            for b in idx:
                a = e['bands'].setdefault(b, np.zeros(e['shape'], np.uint16))
                a[sl] += 1

    def __enter__(self):
        global _active
        import cv2
        import rasterio
        import rasterio.io
        import rasterio.vrt

        reset()
        s = self

        def write(old):
            def f(ds, arr, indexes=None, window=None, *a, **k):
                idx = _indexes(ds, indexes)

                def go():
                    r = old(ds, arr, indexes, window, *a, **k)
                    s._cover(s.written, ds, window, idx)
                    return r

                return s.call('write', ds, (_win(window), tuple(idx)), go, exclusive=True)

            return f

        def write_mask(old):
            def f(ds, mask, window=None):
                def go():
                    r = old(ds, mask, window)
                    s._cover(s.written, ds, window, ['mask'])
                    return r

                return s.call('write_mask', ds, _win(window), go, exclusive=True)

            return f

        def ovw(old):
            def f(ds, *a, **k):
                return s.call('overviews', ds, None, lambda: old(ds, *a, **k), exclusive=True)

            return f

        def read(kind, excl):
            def make(old):
                def f(ds, indexes=None, *a, **k):
                    win = k.get('window')
                    idx = _indexes(ds, indexes)

                    def go():
                        r = old(ds, indexes, *a, **k)
                        if kind == 'vrt_read':
                            s._cover(s.read_cov, ds, win, idx)
                        return r

                    return s.call(kind, ds, (_win(win), tuple(idx)), go, exclusive=excl)

                return f

            return make

        def remap(old):
            def f(*a, **k):
                return s.call('remap', None, None, lambda: old(*a, **k))

            return f

        def ropen(old):
            def f(fp, mode='r', *a, **k):
                return s.call('open', None, (str(fp), mode), lambda: old(fp, mode, *a, **k))

            return f

        for cls in (rasterio.io.DatasetWriter, rasterio.io.BufferedDatasetWriter):
            _patch(cls, 'write', write)
            _patch(cls, 'write_mask', write_mask)
            _patch(cls, 'build_overviews', ovw)
        _patch(rasterio.io.DatasetReader, 'read', read('read', True))
        _patch(rasterio.vrt.WarpedVRT, 'read', read('vrt_read', True))
        _patch(cv2, 'remap', remap)
        _patch(rasterio, 'open', ropen)
        if self.cpu:
            _patch(os, 'cpu_count', lambda old: lambda: self.cpu)
        if self.switch:
            self._old_switch = sys.getswitchinterval()
            sys.setswitchinterval(self.switch)
        if self.preempt:
            self.preempt.start()
        _active = self
        return self

    def __exit__(self, *a):
        if self.preempt:
            self.preempt.stop()
        reset()
        if self.switch:
            sys.setswitchinterval(self._old_switch)

    # -- verdicts
    def order(self, kind='write'):
        return tuple(e[1] for e in self.events if e[0] == kind)

    def check_once(self, mon, what=''):
        """Every pixel of every band of every written dataset was written exactly once."""
        for e in self.written.values():
            for b, a in e['bands'].items():
                mon.check((a == 1).all(), f'{what}pixels not written exactly once', band=b, never=int((a == 0).sum()), more=int((a > 1).sum()), shape=e['shape'])
                mon.count('pixels_written', a.size)

    def check_overlap(self, mon, what=''):
        mon.check(not self.overlaps, f'{what}two threads used the same dataset at the same time', calls=self.overlaps[:4], n=len(self.overlaps))


_codes = None


def package_codes():
    """Code objects of all functions of the package, nested ones included."""
    global _codes
    if _codes is None:
        import gc
        import types

        import orthority

        root = os.path.dirname(os.path.abspath(orthority.__file__)) + os.sep
        todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType) and os.path.abspath(o.__code__.co_filename).startswith(root)]
        _codes = {}
        while todo:
            c = todo.pop()
            if id(c) not in _codes:
                _codes[id(c)] = c
                todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return list(_codes.values())


_stores = {}


def stores(code):
    """Offsets of the stores of ``code`` to state that other threads can see, and of what follows each."""
    res = _stores.get(id(code))
    if res is None:
        res, after = set(), False
        for ins in dis.get_instructions(code):
            if after or ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SUBSCR', 'STORE_SLICE'):
                res.add(ins.offset)
            after = ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SUBSCR', 'STORE_SLICE')
        _stores[id(code)] = res
    return res


class Preempt:
    """
    Preemption of worker threads between bytecode instructions of the package.

    A random 1 in ``every`` of the instruction locations (the choice differs from run to run) gives up
    the interpreter for up to ``pause`` (s) when a worker thread reaches it, so that other threads run
    between any two instructions over enough runs.  The locations around a store that other threads can
    see (attribute, item, global, closure cell) are always among those chosen.
    The pauses have a budget of ``limit`` (s) for each of the two kinds, and a number per location.
    """

    TOOL = 4

    def __init__(self, seed, every=25, pause=0.004, limit=2.0):
        self.seed, self.every, self.pause, self.limit = seed, every, pause, limit
        self.rng = random.Random(seed)
        self.main = threading.get_ident()
        self.points = {}
        self.seen = 0
        self.preempted = 0
        self.spent = dict(store=0.0, other=0.0)

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None or mon.get_tool(self.TOOL):
            return
        self.mon = mon
        mon.use_tool_id(self.TOOL, 'preempt')
        main, points, every, rng = self.main, self.points, self.every, self.rng

        def instruction(code, offset):
            if threading.get_ident() == main:
                return
            self.seen += 1
            key = (id(code), offset)
            hit = points.get(key)
            if hit is None:
                # [kind, times left]
                hit = points[key] = ['store', 60] if offset in stores(code) else ['other', 12] if rng.randrange(every) == 0 else ['', 0]
            if hit[1] > 0 and self.spent[hit[0]] < self.limit:
                hit[1] -= 1
                self.preempted += 1
                t = rng.random() * self.pause
                self.spent[hit[0]] += t
                time.sleep(t)

        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, instruction)
        self.codes = package_codes()
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, mon.events.INSTRUCTION)

    def stop(self):
        if not hasattr(self, 'codes'):
            return
        for c in self.codes:
            self.mon.set_local_events(self.TOOL, c, 0)
        self.mon.register_callback(self.TOOL, self.mon.events.INSTRUCTION, None)
        self.mon.free_tool_id(self.TOOL)
        del self.codes


def _indexes(ds, indexes):
    if indexes is None:
        return list(range(1, ds.count + 1))
    if isinstance(indexes, (int, np.integer)):
        return [int(indexes)]
    return [int(i) for i in indexes]


def _win(win):
    if win is None:
        return None
    if isinstance(win, tuple) and not hasattr(win, 'col_off'):
        return tuple(map(tuple, win))
    return (int(win.col_off), int(win.row_off), int(win.width), int(win.height))


def _slices(win, shape):
    if win is None:
        return (slice(0, shape[0]), slice(0, shape[1]))
    if not hasattr(win, 'col_off'):
        return tuple(slice(*w) if not isinstance(w, slice) else w for w in win)
    r, c = int(round(win.row_off)), int(round(win.col_off))
    return (slice(r, r + int(round(win.height))), slice(c, c + int(round(win.width))))
