"""A pseudo-terminal as the process's standard input, with controlled arrival of its input.

`Pty.schedule` puts chunks of input in a queue. A chunk is delivered when the code under test is
about to block for input with nothing left to read. That moment is recognised by standing in front of
os.read (exact and quick) and, for code that waits in some other way, by a watcher that looks for a
thread of this process sleeping in a read/poll/select system call while the terminal's input queue is
empty. With no chunk left, a read would block forever: the stand-in raises Starved (unless real
blocking is asked for, to let a timeout strike).

`at` in addition allows delivering a chunk at a chosen call of os.read/select (just before it, or just
after it has looked: `after`), and `fault` raising an exception at one.
"""

from __future__ import annotations

import fcntl
import os
import pty
import select
import signal
import struct
import sys
import termios
import threading
import time
import tty

BLOCKING = {0, 7, 19, 23, 232, 270, 271, 281}  # read poll readv select epoll_wait pselect6 ppoll epoll_pwait

REAL_READ = os.read
REAL_SELECT = select.select


class Starved(BaseException):
    """The code waits for input that will never come: input was lost or the read never ends."""


class Pty:
    def __init__(self):
        self.master, slave = pty.openpty()
        os.dup2(slave, 0)
        os.close(slave)
        os.set_blocking(self.master, False)
        self.plain = termios.tcgetattr(0)
        self.epoch = 0
        self.reset()
        os.read = self._read
        self._patch_select()
        signal.signal(signal.SIGUSR1, self._starve)
        self.watcher = threading.Thread(target=self._watch, daemon=True)
        self.watcher.start()

    # -- control --------------------------------------------------------------------------------

    def reset(self, attrs=None):
        self.active = False
        self.chunks = []
        self.sent = 0           # chunks delivered so far
        self.block = False      # really block when there is nothing left
        self.at = {}            # call number -> chunk to deliver just before
        self.after = {}         # call number -> chunk to deliver just after
        self.fault = None       # (call number, exception, or something to call)
        self.left = 0           # bytes not yet read when the fault struck
        self.struck = False
        self.calls = 0          # os.read / select calls made by the code under test
        self.on_block = None    # called instead of Starved
        self.inside = 0         # nonzero while a stand-in decides what to deliver
        termios.tcsetattr(0, termios.TCSANOW, attrs or self.plain)
        termios.tcflush(0, termios.TCIOFLUSH)
        self.drain()

    def drain(self):
        """What the terminal would have displayed (echo)."""

        out = b""
        while True:
            try:
                data = REAL_READ(self.master, 65536)
            except BlockingIOError:
                return out
            except OSError:
                return out
            if not data:
                return out
            out += data

    def pending(self):
        return struct.unpack("i", fcntl.ioctl(0, termios.FIONREAD, b"\0" * 4))[0]

    def readable(self):
        return bool(REAL_SELECT([0], [], [], 0)[0])

    def type(self, data: bytes, wait=True):
        """Delivers input to the terminal and waits until the terminal has taken it."""

        if not data:
            return
        os.write(self.master, data)
        if not wait:
            return
        attrs = termios.tcgetattr(0)
        if attrs[3] & termios.ICANON:
            # Complete lines only are visible; the line discipline runs asynchronously, so wait for its worker
            # (with echo on, the echo tells)
            end = time.monotonic() + 0.05
            if attrs[3] & termios.ECHO:
                seen = b""
                while len(seen) < len(data) and time.monotonic() < end:
                    seen += self.drain()
            else:
                time.sleep(0.002)
            return
        end = time.monotonic() + 1.0
        while self.pending() < len(data) and time.monotonic() < end:
            time.sleep(0)

    def schedule(self, chunks):
        self.chunks = list(chunks)
        self.sent = 0
        self.calls = 0

    def _next(self, wait=True):
        """Delivers the next chunk; False if there is none."""

        if self.at or self.after:
            first = min([(n, 0) for n in self.at] + [(n, 1) for n in self.after])
            self.type((self.after if first[1] else self.at).pop(first[0]), wait)
            return True
        if self.sent >= len(self.chunks):
            return False
        chunk = self.chunks[self.sent]
        self.sent += 1
        self.type(chunk, wait)
        return True

    # -- the stand-ins --------------------------------------------------------------------------

    def _enter(self):
        number = self.calls
        self.calls += 1
        if number in self.at:
            self.type(self.at.pop(number))
        if self.fault is not None and self.fault[0] == number:
            self.left = self.pending()
            if isinstance(self.fault[1], BaseException):
                self.struck = True
                raise self.fault[1]
            self.fault[1]()
        return number

    def _read(self, fd, count):
        if not self.active or fd != 0:
            return REAL_READ(fd, count)
        number = self._enter()
        self._wait()
        data = REAL_READ(fd, count)
        self._leave(number)
        return data

    def _leave(self, number):
        if number in self.after:
            self.type(self.after.pop(number))

    def _wait(self):
        """The code under test is about to wait for input."""

        self.inside += 1
        try:
            if not self.readable() and not self._next() and not self.block:
                if self.on_block is not None:
                    self.on_block()
                else:
                    raise Starved("a read waits for input that never comes")
        finally:
            self.inside -= 1

    def _select(self, rlist, wlist, xlist, timeout=None):
        if self.active and any(getattr(f, "fileno", lambda f=f: f)() == 0 for f in rlist):
            number = self._enter()
            if timeout is None:
                self._wait()
            result = REAL_SELECT(rlist, wlist, xlist, timeout)
            self._leave(number)
            return result
        return REAL_SELECT(rlist, wlist, xlist, timeout)

    def _patch_select(self):
        import slate.core

        select.select = self._select
        if getattr(slate.core, "select", None) is REAL_SELECT:
            slate.core.select = self._select

    def _watch(self):
        me = threading.get_native_id()
        idle, key = 0, None
        while True:
            time.sleep(0.003)
            now = (self.epoch, self.calls, self.sent)
            if not self.active or self.inside or now != key:
                idle, key = 0, now
                continue
            try:
                blocked = self._sleeping(me) and not self.readable()
            except OSError:
                blocked = False
            idle = idle + 1 if blocked else 0
            if idle >= 3 and not self.inside and self._next(wait=False):
                idle = 0
            elif idle >= 30 and not self.block:
                idle = 0
                signal.pthread_kill(threading.main_thread().ident, signal.SIGUSR1)

    def _starve(self, *_):
        if self.active and not self.block and not self.readable():
            self._wait()

    @staticmethod
    def _sleeping(me):
        for name in os.listdir("/proc/self/task"):
            if int(name) == me:
                continue
            try:
                with open(f"/proc/self/task/{name}/syscall", encoding="ascii") as file:
                    first = file.read().split()[0]
            except (OSError, IndexError):
                continue
            if first.isdigit() and int(first) in BLOCKING:
                return True
        return False

    def strike(self):
        """A fault: the time is up now (if the code under test works with an alarm at all)."""

        handler = signal.getsignal(signal.SIGALRM)
        if callable(handler) and signal.getitimer(signal.ITIMER_REAL)[0] and threading.current_thread() is threading.main_thread():
            self.struck = True
            signal.raise_signal(signal.SIGALRM)

    # -- running --------------------------------------------------------------------------------

    def __enter__(self):
        self.epoch += 1
        self.active = True
        return self

    def __exit__(self, *_):
        self.active = False


def attrs_of(base, *, canon=True, echo=True, signals=False):
    """Terminal attributes with input passed on unchanged: control keys are ordinary characters."""

    attrs = [list(part) if isinstance(part, list) else part for part in base]
    attrs[0] &= ~(termios.IXON | termios.ICRNL | termios.INLCR | termios.IGNCR | termios.ISTRIP)
    for flag, on in ((termios.ICANON, canon), (termios.ECHO, echo), (termios.ISIG, signals), (termios.IEXTEN, False)):
        attrs[3] = attrs[3] | flag if on else attrs[3] & ~flag
    if not canon:
        attrs[6][termios.VMIN], attrs[6][termios.VTIME] = b"\x01", b"\x00"
    return attrs
