"""Controlled scheduler: real threads executing calls of the implementation, preempted at chosen points.

Scheduling points are the executions, in frames of /repo, of byte-code instructions that can touch memory shared with another
thread (everything except moves between a frame's own locals and its stack, which commute with every step of another thread:
a partial-order reduction), or, in `lines` mode, the beginnings of source lines.  Compiled kernels, numpy and other libraries are executed
between two points.  A preempted thread is suspended inside its trace function; the other thread then runs until it is done or
preempted itself.  A thread that cannot go on (it waits for a lock of a suspended one) is detected by a time-out, and the
suspended thread is resumed: that is again a legal schedule, so a slow machine cannot cause an alarm.
"""
import dis
import sys
import _thread

REPO = "/repo/"
sys._getframe().f_trace_opcodes = True      # (CPython 3.12 delivers opcode events only if this was set before sys.settrace)
LOCAL_ONLY = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "LOAD_FAST_LOAD_FAST", "STORE_FAST_LOAD_FAST", "STORE_FAST_STORE_FAST",
              "RETURN_CONST", "POP_TOP", "COPY", "SWAP", "PUSH_NULL", "NOP", "RESUME", "CACHE", "EXTENDED_ARG", "KW_NAMES", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE",
              "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "IS_OP", "BUILD_TUPLE", "BUILD_LIST", "BUILD_SLICE", "BUILD_STRING", "BUILD_MAP", "BUILD_CONST_KEY_MAP", "MAKE_FUNCTION", "MAKE_CELL", "COPY_FREE_VARS", "PUSH_EXC_INFO", "POP_EXCEPT",
              "END_FOR", "END_SEND", "RERAISE", "LOAD_CLOSURE", "LOAD_ASSERTION_ERROR"}
SHARED = bytes(0 if dis.opname[i] in LOCAL_ONLY else 1 for i in range(256))
BLOCKED_S = 1.0      # a thread that makes no progress for so long is taken to be blocked


class Deadlock(Exception):
    pass


class Tracer:
    """counts the points of the current thread; calls action(n) at every point number in `targets`"""

    def __init__(self, targets, action, lines=False):
        self.n, self.action, self.lines = 0, action, lines
        self.targets = frozenset(targets)
        self.left = len(self.targets)

    def glob(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(REPO):
            if self.lines:
                return self.local_line
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "opcode" and SHARED[frame.f_code.co_code[frame.f_lasti]]:
            n = self.n
            self.n = n + 1
            if n in self.targets:
                self.arrive(n)
        return self.local

    def local_line(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if n in self.targets:
                self.arrive(n)
        return self.local_line

    def arrive(self, n):
        self.left -= 1
        if not self.left:
            sys.settrace(None)      # no further point matters
        self.action(n)

    def run(self, fn):
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


def count(fn, lines=False):
    """(number of scheduling points of fn(), its value)"""
    t = Tracer((), None, lines)
    v = t.run(fn)
    return t.n, v


class _Thread:
    """one suspended or running thread; `go` and `arrived` are locks used as binary semaphores"""

    def __init__(self, fn, points, lines):
        self.fn, self.lines, self.points = fn, lines, points
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.arrived = _thread.allocate_lock()
        self.arrived.acquire()
        self.out = None
        self.done = False
        _thread.start_new_thread(self.body, ())

    def body(self):
        self.go.acquire()

        def pause(n):
            self.arrived.release()
            self.go.acquire()
        try:
            if self.points:
                self.out = ("value", Tracer(self.points, pause, self.lines).run(self.fn))
            else:
                self.out = ("value", self.fn())
        except BaseException as e:
            self.out = ("exception", e)
        self.done = True
        self.arrived.release()


def execute(fns, program, lines=False):
    """Run the calls fns[i] in threads.  program: list of (thread, point or None): run that thread until it is about to execute
    its scheduling point number `point`, or (None) until it is done; afterwards every thread is run to its end.
    Returns (list of ("value", v) or ("exception", e), number of blocked steps); raises Deadlock."""
    th = [_Thread(f, [p for t, p in program if t == i and p is not None], lines) for i, f in enumerate(fns)]
    running = set()          # resumed, has not arrived anywhere yet (blocked)
    blocked = 0

    def step(i, timeout):
        nonlocal blocked
        t = th[i]
        if i not in running:
            if t.done:
                return
            t.go.release()
        if t.arrived.acquire(timeout=timeout):
            running.discard(i)
        else:
            running.add(i)
            blocked += 1
    for i, p in program:
        step(i, BLOCKED_S)
    rounds = 0
    while not all(t.done for t in th):
        for i, t in enumerate(th):
            if not t.done or i in running:
                step(i, BLOCKED_S)
        rounds += 1
        if rounds > 40:
            raise Deadlock("threads " + ", ".join(str(i) for i, t in enumerate(th) if not t.done) + " never return")
    return [t.out for t in th], blocked
