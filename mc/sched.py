"""A controlled scheduler for real threads: stateless exploration of their interleavings.

Exactly one of the threads runs at a time. At every line (or every bytecode) of the library that a
thread executes, it may be preempted in favour of any other thread that is able to run; whether it is
decides the schedule, a list of (decision number, option) for the decisions that do not take the
default. `explore` enumerates all schedules with at most `bound` preemptions (switches that a blocked
or finished thread forces are free, and all their options are explored).

Locks that the library creates at import are cooperative ones, so that a thread waiting for one is
known to be blocked. A thread that blocks in some other way is noticed by lack of progress.
"""

from __future__ import annotations

import os
import sys
import threading
import _thread

from .engine import repo_root

ROOT = os.path.join(repo_root(), "slate") + os.sep
CURRENT = None  # the scheduler of the running exploration


class Abort(BaseException):
    """Unwinds the threads of an execution that cannot go on."""


class CoLock:
    """A lock that tells the scheduler when a thread has to wait for it."""

    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        sched = CURRENT
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            if sched is None or me not in sched.by_ident:
                raise RuntimeError("waiting for a lock outside the exploration")
            sched.wait_for(self)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release of an unowned lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class CoRLock(CoLock):
    reentrant = True


class cooperative_locks:
    """While active, locks made by threading.Lock / RLock are cooperative."""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = CoLock, CoRLock

    def __exit__(self, *_):
        threading.Lock, threading.RLock = self.saved


class Task:
    def __init__(self, name, body):
        self.name, self.body = name, body
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.finished = False
        self.waiting = None  # the lock it waits for
        self.parked = True   # waits for its turn
        self.error = None


class Sched:
    def __init__(self, bodies, schedule, bound, opcodes=False):
        self.tasks = [Task(name, body) for name, body in bodies]
        self.by_ident = {}
        self.schedule = dict(schedule)
        self.bound, self.opcodes = bound, opcodes
        self.preemptions = 0
        self.options = []    # number of options at each decision
        self.points = 0
        self.clock = 0
        self.aborted = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.current = None
        self.native = 0

    # -- called by the threads ------------------------------------------------------------------

    def tick(self):
        self.clock += 1
        return self.clock

    def _enabled(self, task):
        return not task.finished and task.parked and (task.waiting is None or task.waiting.owner is None)

    def _decide(self, count):
        number = len(self.options)
        self.options.append(count)
        choice = self.schedule.get(number, 0)
        return choice if choice < count else 0

    def point(self):
        """The running thread may be preempted here."""

        me = self.by_ident[threading.get_ident()]
        if self.aborted:
            raise Abort
        self.points += 1
        if me is not self.current:
            self._park(me)
            return
        others = [t for t in self.tasks if t is not me and self._enabled(t)]
        if not others:
            return
        if self.preemptions >= self.bound:
            return
        choice = self._decide(1 + len(others))
        if choice:
            self.preemptions += 1
            self._switch(me, others[choice - 1])

    def wait_for(self, lock):
        me = self.by_ident[threading.get_ident()]
        while lock.owner is not None:
            others = [t for t in self.tasks if t is not me and self._enabled(t)]
            if not others:
                if any(not t.parked and not t.finished and t is not me for t in self.tasks):
                    me.waiting = lock
                    self._park(me)
                    me.waiting = None
                    continue
                self.aborted = "the threads are deadlocked"
                self._release_all()
                raise Abort
            me.waiting = lock
            self._switch(me, others[self._decide(len(others))])
            me.waiting = None

    def _switch(self, me, other):
        self.current = other
        me.parked = True
        other.parked = False
        other.go.release()
        self._sleep(me)

    def _park(self, me):
        me.parked = True
        self._sleep(me)

    def _sleep(self, me):
        me.go.acquire()
        me.parked = False
        if self.aborted:
            raise Abort

    def _release_all(self):
        for task in self.tasks:
            if task.parked and not task.finished:
                task.parked = False
                task.go.release()

    def _main(self, task):
        self.by_ident[threading.get_ident()] = task
        self.started.release()
        task.go.acquire()
        task.parked = False
        try:
            if not self.aborted:
                sys.settrace(self._trace)
                task.body(self)
        except Abort:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            task.error = exc
        finally:
            sys.settrace(None)
            task.finished = True
            if all(t.finished for t in self.tasks):
                self.done.release()
            elif self.current is task and not self.aborted:
                ready = [t for t in self.tasks if self._enabled(t)]
                if ready:
                    other = ready[self._decide(len(ready))]
                    self.current = other
                    other.parked = False
                    other.go.release()
                elif all(t.finished or t.parked for t in self.tasks):
                    self.aborted = "the threads are deadlocked"
                    self._release_all()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point()
        return self._local

    # -- called by the explorer -----------------------------------------------------------------

    def run(self):
        global CURRENT
        CURRENT = self
        self.started = threading.Semaphore(0)
        for task in self.tasks:
            _thread.start_new_thread(self._main, (task,))
        for _ in self.tasks:
            self.started.acquire()
        first = self.tasks[self._decide(len(self.tasks))]
        self.current = first
        first.parked = False
        first.go.release()
        seen, stuck = -1, 0
        while not self.done.acquire(timeout=0.3):
            now = (self.points, sum(t.finished for t in self.tasks))
            if now != seen:
                seen, stuck = now, 0
                continue
            # the running thread is blocked outside the scheduler's knowledge: let another one run
            ready = [t for t in self.tasks if t is not self.current and self._enabled(t)]
            stuck += 1
            if ready:
                self.native += 1
                other = ready[0]
                self.current = other
                other.parked = False
                other.go.release()
            elif stuck > 30:
                self.aborted = self.aborted or "the threads are blocked forever"
                break
        CURRENT = None
        return self


def explore(make, bound, opcodes=False, part=None, visit=None):
    """Runs every schedule (of partition `part` = (k, n) of the first deviations)."""

    stack = [()]
    while stack:
        schedule = stack.pop()
        sched = Sched(make(), schedule, bound, opcodes).run()
        if schedule or part is None or part[0] == 0:
            visit(sched, schedule)
        start = schedule[-1][0] + 1 if schedule else 0
        children = []
        for number in range(start, len(sched.options)):
            if not schedule and part is not None and number % part[1] != part[0]:
                continue
            for option in range(1, sched.options[number]):
                children.append((*schedule, (number, option)))
        stack.extend(reversed(children))
