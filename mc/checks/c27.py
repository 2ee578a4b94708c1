"""C27: a terminal resize is announced once and applied before use."""

import itertools

from slate import Span, Terminal

from mc.lab import Cache, Lab, Stream, TermLab, set_size, sp
from mc.screens import ASSUMPTIONS, BLUE, GREEN, RED

ID = "C27"
DEPTH = {"quick": 4, "thorough": 5}
BOUNDS = {t: f"every history of <={d} operations over 13 operations (five window sizes, four ways to query, writes, draws, "
             f"clears) x 11 mixes of up to 3 initial listeners (one raising, one on a second terminal object); every sequence of <=6 of 3 windows, each noticed; 30 rounds of any two of 5 windows; <=2 over 11 with windows of up to 1100 columns or 600 rows" for t, d in DEPTH.items()}
WINDOWS = [(3, 2), (3, 3), (4, 2), (2, 1), (2, 3)]  # taller, wider, smaller, turned; some differ in one dimension only
OPS = ["win0", "win1", "win2", "win3", "win4", "size", "width", "height", "export", "write", "draw", "redraw", "clear"]
MIXES = [[], ["rec"], ["rec", "query"], ["query", "rec"], ["write", "rec"], ["draw"], ["rec", "query", "write"], ["rec", "rec"],
         ["write", "draw", "rec"], ["rec", "raise"], ["rec", "twin"]]


BIG_OPS = ["win0", "win5", "win6", "win7", "win8", "win9", "size", "export", "write", "draw", "redraw"]


class Boom(Exception):
    """Raised by a listener."""


def cases(tier):
    for n in range(0, DEPTH[tier] + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            # without two different windows nothing is announced; keep the short ones as the quiet cases
            if n > 2 and not any(op in (1, 2, 3, 4) for op in ops):
                continue
            for mix in range(len(MIXES)):
                if n > 3 and mix not in (2, 4, 8, 10):
                    continue
                yield [list(ops), mix]
    # back and forth between windows, noticed each time
    for n in range(3, 7):
        for wins in itertools.product(range(3), repeat=n):
            for mix in (1, 2, 10):
                yield [[name for k, win in enumerate(wins) for name in (f"win{win}", ("size", "width", "height", "export")[k % 4 if mix == 2 else 0])], mix]
    for wins in itertools.product(range(5), repeat=2):
        for more in (["size"], ["size", "write", "draw"], ["size", "clear", "size"]):
            for mix in (1, 4, 10):
                yield [["size", "write", "draw"] + [f"win{wins[0]}", *more, f"win{wins[1]}", *more] * 30, mix]
    for n in (1, 2):
        for ops in itertools.product(BIG_OPS, repeat=n):
            for mix in (1, 2, 4, 10):
                yield [["size", "write", *ops, "size", "draw"], mix]


BIG = [(600, 2), (2, 600), (1100, 1), (256, 3), (40, 300)]


class ResizeLab(TermLab):
    def __init__(self, ctx, mix):
        super().__init__(ctx, 3, 2, checks="c")
        self.window = (3, 2)
        self.log = []
        self.expected = []
        self.kinds = mix
        self.twin = None
        for k, kind in enumerate(mix):
            if kind == "twin":  # another terminal object on the same window
                self.twin = Terminal(stream=Stream())
                self.twin_size, self.twin_log = (3, 2), []
                self.twin.on_resize += self.twin_log.append
                self.kinds = mix[:k]
                continue
            self.term.on_resize += self.listener(k, kind)

    def listener(self, k, kind):
        def call(size):
            self.log.append((k, tuple(size)))
            if kind == "query":
                self.ctx.eq((tuple(self.term.size), self.term.width, self.term.height), (self.window, *self.window),
                            "size queried by a listener")
            elif kind == "write":
                self.ctx.step()
                self.term.write(self.cache.spans_of([sp("LMNOPQRS", ["bold"], RED)]), cursor=(1, 0))
                self.announced()
                self.model.write(self.cache.specs_of([sp("LMNOPQRS", ["bold"], RED)]), (1, 0), self.background)
            elif kind == "draw":
                self.announced()
                self.draw()
            elif kind == "raise":
                raise Boom()
            return False

        return call

    def announced(self):
        """The model follows as soon as the resize is under way."""

        if (self.model.width, self.model.height) != self.window:
            self.model.resize(*self.window)
            vt = self.new_vt()
            self.vt.resize(vt.width, vt.height)

    def query(self, how):
        pending = self.window != (self.model.width, self.model.height)
        want = [(k, self.window) for k in range(len(self.kinds))] if pending else []
        del self.log[:]
        try:
            if how == "export":
                self.term.export_svg()
            elif how == "size":
                self.ctx.eq(tuple(self.term.size), self.window, "size")
            elif how == "width":
                self.ctx.eq(self.term.width, self.window[0], "width")
            else:
                self.ctx.eq(self.term.height, self.window[1], "height")
        except Boom:
            pass
        else:
            if pending and "raise" in self.kinds:
                self.ctx.fail(f"querying {how}: a listener's exception did not propagate")
        self.announced()
        self.ctx.eq(self.log, want, f"announcements when querying {how}")
        if self.twin is not None and how != "height":
            del self.twin_log[:]
            self.ctx.eq(tuple(self.twin.size), self.window, "size of another terminal object")
            self.ctx.eq(self.twin_log, [self.window] * (self.twin_size != self.window), "announcements of another terminal object")
            self.twin_size = self.window


def run_case(case, ctx):
    ops, mix = case
    names = [i if isinstance(i, str) else OPS[i] for i in ops]
    ctx.sample({"history": names, "listeners": MIXES[mix]})
    lab = ResizeLab(ctx, MIXES[mix])
    for k, op in enumerate(names):
        ctx.step()
        if op.startswith("win"):
            lab.window = (WINDOWS + BIG)[int(op[3:])]
            set_size(*lab.window)
            continue
        if op in ("size", "width", "height", "export"):
            lab.query(op)
        elif op == "write":
            text = sp("abcd" if k % 2 else "xyz", [], BLUE if k % 2 else None, GREEN)
            lab.term.write(lab.cache.spans_of([text]), cursor=(k % 2, 0))
            lab.model.write(lab.cache.specs_of([text]), (k % 2, 0), lab.background)
        elif op == "clear":
            lab.term.clear()
            lab.model.clear()
        elif lab.window == (lab.model.width, lab.model.height):
            lab.apply([op])
        else:
            lab.stream.take()  # drawing without having noticed the new window: no promise
            lab.query("size")
            lab.apply([op])
        ctx.state((lab.model.key(), lab.window, mix))
    lab.query("size")
    lab.final()
    lab.query("size")
    ctx.eq(lab.stream.take(), "", "output of an unchanged size query")
