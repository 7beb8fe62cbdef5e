"""Instants of the code under test: every executed line of diffpy.srmise is one.

Injector  counts the lines executed and raises an exception at a chosen one (an interrupt,
          lack of memory, the death of the process) or calls a function there.
Threads   runs caller threads one at a time and switches between them at chosen lines;
          who runs is decided by the plan alone.
"""
import dis
import os
import sys
import threading

from sim.core import REPO, SimHang

_NOP = dis.opmap["NOP"]
_mon = sys.monitoring
TOOL = 4
SRC = os.path.join(os.path.realpath(REPO), "src") + os.sep
_ours = {}
_active = None
_ready = False


def _is_ours(code):
    fn = code.co_filename
    r = _ours.get(fn)
    if r is None:
        r = _ours[fn] = os.path.realpath(fn).startswith(SRC)
    return r


def _line(code, line):
    if not _is_ours(code):
        return _mon.DISABLE
    a = _active
    if a is not None:
        a.line(code, line)


def _is_nop(frame):
    return frame.f_code.co_code[frame.f_lasti] == _NOP


def _start(obj):
    global _active, _ready
    if not _ready:
        _mon.use_tool_id(TOOL, "srmisesim")
        _mon.register_callback(TOOL, _mon.events.LINE, _line)
        _ready = True
    _active = obj
    _mon.set_events(TOOL, _mon.events.LINE)


def _stop():
    global _active
    _active = None
    if _ready:
        _mon.set_events(TOOL, 0)


def stop():
    _stop()


class Injector(object):
    """with Injector(n, exc): ... raises exc at the n-th line (from 0) executed inside.

    n None: only count.  functions: a dict in which executions of (function, line) are counted."""

    def __init__(self, n=None, exc=None, action=None, functions=None):
        self.n = n
        self.functions = functions
        self.exc = exc
        self.action = action
        self.count = 0
        self.fired = None
        self.file = None

    def line(self, code, line):
        i = self.count
        self.count = i + 1
        if self.functions is not None:
            self.functions[code, line] = self.functions.get((code, line), 0) + 1
        if i == self.n and self.exc is not None and self.action is None and _is_nop(sys._getframe(2)):
            # nothing is executed there (try: and the like), so nothing can be struck: the next line is
            self.n += 1
        elif i == self.n:
            self.fired = code.co_qualname
            self.file = os.path.basename(code.co_filename)
            if self.action is not None:
                self.action()
            if self.exc is not None:
                raise self.exc

    def __enter__(self):
        _start(self)
        return self

    def __exit__(self, *a):
        _stop()
        return False


class Threads(object):
    """Run functions in threads, one at a time, switching after given numbers of lines.

    switches: iterator of (lines to run, pick); pick selects the next among the threads
    not finished.  When the iterator ends the threads run to their end one after another.
    """

    def __init__(self, funcs, switches, focus=None):
        """focus: ({(function, line): probability}, generator, most): switch at these lines with
        these probabilities, at most that many times, for a random number of lines."""
        self.funcs = funcs
        self.switches = iter(switches)
        self.focus, self.rs, self.most = focus or ({}, None, 0)
        self.forced = False
        self.results = [None] * len(funcs)
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.alive = list(range(len(funcs)))
        self.current = None
        self.left = 0
        self.nswitch = 0
        self.places = []
        self.ticks = 0
        self.finished = threading.Event()
        self.ids = {}
        self.stalls = 0

    def _next(self):
        if self.forced:
            self.left = self.rs.choice((3, 20, 100, 400, 1500, 6000, 30000))
            return self.rs.randrange(12)
        s = next(self.switches, None)
        if s is None:
            self.left = None
            return None
        self.left = s[0]
        return s[1]

    def line(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.ticks += 1
        self.forced = self.most > 0 and self.rs.random() < self.focus.get((code, line), 0)
        if self.forced:
            self.most -= 1
        elif self.left is None:
            return
        elif self.left > 0:
            self.left -= 1
            return
        pick = self._next()
        if pick is None:
            return
        others = [i for i in self.alive if i != me]
        if not others:
            return
        nxt = others[pick % len(others)]
        self.nswitch += 1
        if len(self.places) < 200:
            self.places.append((me, nxt, code.co_qualname))
        self.switched(me, nxt, code)
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def switched(self, me, nxt, code):
        pass

    def _body(self, i):
        self.sems[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            try:
                self.results[i] = ("ok", self.funcs[i]())
            except BaseException as e:
                self.results[i] = ("raised", e)
        finally:
            del self.ids[threading.get_ident()]
            self.alive.remove(i)
            self.forced = False
            if self.alive:
                pick = self._next()
                nxt = self.alive[(pick or 0) % len(self.alive)]
                self.current = nxt
                self.sems[nxt].release()
            else:
                self.finished.set()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        for t in ths:
            t.start()
        _start(self)
        try:
            pick = self._next()
            self.current = self.alive[(pick or 0) % len(self.alive)]
            self.sems[self.current].release()
            last = -1
            while not self.finished.wait(10):
                if self.ticks == last:
                    # The thread chosen waits for something a parked one holds: let another go on.
                    self.stalls += 1
                    if self.stalls > 20 or not self.alive:
                        raise SimHang("threads wait for each other")
                    k = (self.alive.index(self.current) + 1) % len(self.alive) if self.current in self.alive else 0
                    self.current = self.alive[k]
                    self.sems[self.current].release()
                last = self.ticks
        finally:
            _stop()
        for t in ths:
            t.join(30)
        return self.results
