"""Controlled scheduler for two real threads: one runs at a time, switches happen
only at source lines (or byte codes) of the code under test, as a schedule says.

A schedule is a list of (thread, steps) segments; steps None means to the end.
Steps are observed with sys.monitoring on the code objects of the code under test.
"""
import dis
import sys
import threading
import types

BLOCKED_S = 1.5     # a thread that makes no step for so long waits for the other

_tool = None
_current = None
DISABLE = getattr(getattr(sys, 'monitoring', None), 'DISABLE', None)
_me = threading.local()


def _codes(prefix):
    seen = set()
    todo = []
    for mod in list(sys.modules.values()):
        f = getattr(mod, '__file__', None)
        if not (isinstance(f, str) and f.startswith(prefix)):
            continue
        for v in list(vars(mod).values()):
            todo.append(v)
    objs = set()
    while todo:
        v = todo.pop()
        if id(v) in objs:
            continue
        objs.add(id(v))
        if isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo += [v.fget, v.fset]
        elif isinstance(v, type) and getattr(v, '__module__', '').startswith('meshless'):
            todo += list(vars(v).values())
        elif isinstance(v, types.FunctionType):
            todo.append(v.__code__)
            todo += [c.cell_contents for c in (v.__closure__ or ()) if _filled(c)]
            w = getattr(v, '__wrapped__', None)
            if w is not None:
                todo.append(w)
        elif hasattr(v, '__wrapped__'):
            todo.append(v.__wrapped__)
        elif isinstance(v, types.CodeType) and v.co_filename.startswith(prefix):
            seen.add(v)
            todo += [c for c in v.co_consts if isinstance(c, types.CodeType)]
    return seen


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


_starts = {}
_keep = []
_all = False


def _event(code, where):
    # LINE events of very long functions are slow (the interpreter searches the
    # line table), so lines are observed as the byte codes that start them
    if not _all:
        st = _starts.get(id(code))       # hashing a code object hashes all of it
        if st is None:
            st = frozenset(o for o, _ in dis.findlinestarts(code))
            _starts[id(code)] = st
            _keep.append(code)
        if where not in st:
            return DISABLE
    run = _current
    if run is None:
        return
    t = getattr(_me, 't', None)
    if t is not None and getattr(_me, 'run', None) is run:
        run.step(t, code, where)


def install(prefix, opcodes):
    global _tool, _all
    mon = sys.monitoring
    if _tool is None:
        _tool = 3
        mon.use_tool_id(_tool, 'mc-sched')
        mon.register_callback(_tool, mon.events.INSTRUCTION, _event)
        for c in _codes(prefix):
            mon.set_local_events(_tool, c, mon.events.INSTRUCTION)
    if _all != opcodes:
        _all = opcodes
        mon.restart_events()


class Run(object):
    def __init__(self, bodies, schedule, prefix, opcodes=False, record=False):
        self.bodies, self.prefix, self.opcodes = bodies, prefix, opcodes
        self.segs = list(schedule)
        self.cv = threading.Condition()
        self.active = None
        self.left = None
        self.done = [False]*len(bodies)
        self.results = [None]*len(bodies)
        self.steps = [0]*len(bodies)
        self.trail = [[] for _ in bodies] if record else None
        self.free = False           # a thread was blocked: no more control
        self.switches = 0

    # -- called with the lock held
    def next_segment(self):
        while self.segs:
            t, k = self.segs.pop(0)
            if not self.done[t]:
                self.active, self.left = t, k
                self.cv.notify_all()
                return
        for t in range(len(self.bodies)):
            if not self.done[t]:
                self.active, self.left = t, None
                self.cv.notify_all()
                return
        self.active = None
        self.cv.notify_all()

    def step(self, t, code, where):
        """One step of thread t is about to happen."""
        if self.trail is not None:
            self.trail[t].append((code.co_filename, code.co_name, where))
        self.steps[t] += 1
        if self.active == t:            # fast path: nobody else runs
            left = self.left
            if left is None:
                return
            if left > 0:
                self.left = left - 1
                return
        with self.cv:
            while not self.free:
                if self.active != t:
                    self.wait_turn(t)
                elif self.left is None:
                    break
                elif self.left == 0:
                    self.switches += 1
                    self.next_segment()
                else:
                    self.left -= 1
                    break

    def wait_turn(self, t):
        while self.active != t and not self.free:
            mark = self.steps[:], self.done[:]
            self.cv.wait(BLOCKED_S)
            if self.active != t and not self.free and mark == (self.steps, self.done):
                self.free = True
                self.cv.notify_all()

    def body(self, t):
        with self.cv:
            self.wait_turn(t)
        try:
            _me.t, _me.run = t, self
            try:
                res = (True, self.bodies[t]())
            finally:
                _me.t = _me.run = None
        except BaseException as e:
            res = (False, '%s: %s' % (type(e).__name__, e))
        with self.cv:
            self.results[t] = res
            self.done[t] = True
            if self.active == t or self.active is None:
                self.next_segment()
            self.cv.notify_all()

    def go(self):
        global _current
        install(self.prefix, self.opcodes)
        _current = self
        try:
            with self.cv:
                self.next_segment()
            ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.bodies))]
            for th in ths:
                th.start()
            for th in ths:
                th.join(50)
        finally:
            _current = None
        return self
