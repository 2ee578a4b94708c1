"""C25: the window title is stored once and always restored."""

import itertools

from slate import Terminal

from mc.emu import VT
from mc.lab import Stream, set_size

ID = "C25"
DEPTH = {"quick": 6, "thorough": 8}
BOUNDS = {t: f"every history of <={d} operations over 8 operations (three titles, the empty one, reset, entering and leaving the "
             f"alternate buffer normally or by an exception), <=3 over 11 with long and unusual titles and up to 800 operations in a row from two initial title stacks; <=4 over 8 with titles set by something else or another terminal object in between" for t, d in DEPTH.items()}
FOREIGN = ["set:one", "set:two", "reset", "enter", "leave", "foreign", "other:one", "other:"]
OPS = ["set:one", "set: two;  [x] ", "set:", "reset", "enter", "leave", "leave!", "draw"]


class Boom(Exception):
    pass


LONG = ["set:" + "x" * 63, "set:" + "long title " * 30, "set:" + "y" * 5000, "set:\u6f22\u5b57 \u00e9", "set:one", "reset", "enter", "leave", "set:{title}", "set:%s \\", "set:100%% {{}} {0} %d $1 &amp; <b>"]


def cases(tier):
    for n in (1, 2, 3):
        for ops in itertools.product(range(len(LONG)), repeat=n):
            if all(sum((op == 6) - (op == 7) for op in ops[:k]) >= 0 for k in range(n + 1)):
                yield ["long", *ops]
    # something else (a child process, another terminal object) sets the title in between
    for n in (2, 3, 4):
        for ops in itertools.product(range(len(FOREIGN)), repeat=n):
            if any(op >= 5 for op in ops) and all(sum((op == 3) - (op == 4) for op in ops[:k]) >= 0 for k in range(n + 1)):
                yield ["foreign", *ops]
    for rounds in (10, 50, 200):
        for body in ([0, 3], [0, 1, 3], [4, 0, 5], [4, 0, 6], [0, 4, 5, 3]):
            yield body * rounds
    for n in range(0, DEPTH[tier] + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            # leaving needs entering first; plain draws only matter in short histories
            depth = 0
            for op in ops:
                depth += (op == 4) - (op in (5, 6))
                if depth < 0:
                    break
            if depth < 0 or (n > 4 and 7 in ops):
                continue
            yield list(ops)


def run_case(case, ctx):
    tables = {"long": LONG, "foreign": FOREIGN}
    names = [tables[case[0]][i] for i in case[1:]] if case[:1] and case[0] in tables else [OPS[i] for i in case]
    if case[:1] == ["foreign"]:
        return run_foreign(names, ctx)
    ctx.sample(names)
    set_size(3, 2)
    for stack in ([], ["outer", "middle"]):
        stream = Stream()
        term = Terminal(stream=stream)
        vt = VT(3, 2)
        vt.title_stack = list(stack)
        vt.feed(stream.take())
        title = None
        open_buffers = []
        for k, op in enumerate(names):
            ctx.step()
            if op.startswith("set:"):
                title = op[4:]
                term.set_title(title)
            elif op == "reset":
                title = None
                term.set_title(None)
            elif op == "enter":
                manager = term.alt_buffer(hide_cursor=bool(k % 2))
                manager.__enter__()
                open_buffers.append(manager)
            elif op == "leave":
                title = None
                open_buffers.pop().__exit__(None, None, None)
            elif op == "leave!":
                title = None
                exc = Boom()
                try:
                    open_buffers.pop().__exit__(Boom, exc, None)
                except Boom:
                    pass
            else:
                term.draw()
            check(vt, stream, stack, title, ctx, f"{names[: k + 1]}")
        while open_buffers:
            open_buffers.pop().__exit__(None, None, None)
            title = None
            check(vt, stream, stack, title, ctx, f"{names} and leaving all buffers")
        term.set_title(None)
        check(vt, stream, stack, None, ctx, f"{names} and resetting")
        ctx.trace()
        ctx.outcome((title, len(stack), tuple(names)))
        ctx.state((tuple(names), len(stack)))


def run_foreign(names, ctx):
    """Two terminal objects on one terminal, and titles set by others: setting a title always shows it."""

    ctx.sample(names)
    set_size(3, 2)
    vt = VT(3, 2)
    vt.title_stack = []
    stream = Stream()
    term, other = Terminal(stream=stream), Terminal(stream=stream)
    stream.take()
    # the title each object has in effect, and the stack it should lead to
    shown, stack, mine, theirs = "shell", [], None, None
    buffers = []
    for k, op in enumerate(names):
        ctx.step()
        if op == "foreign":
            vt.feed("\x1b]0;else\a")
            shown = "else"
        elif op.startswith("set:"):
            if mine is None:
                stack.append(shown)
            shown = mine = op[4:]
            term.set_title(mine)
        elif op.startswith("other:"):
            if theirs is None:
                stack.append(shown)
            shown = theirs = op[6:]
            other.set_title(theirs)
        else:
            if op == "enter":
                manager = term.alt_buffer()
                manager.__enter__()
                buffers.append(manager)
            else:
                if mine is not None:
                    shown, mine = stack.pop(), None
                if op == "reset":
                    term.set_title(None)
                else:
                    buffers.pop().__exit__(None, None, None)
        vt.feed(stream.take())
        what = f"{names[: k + 1]} (foreign: set by something else, other: by another terminal object)"
        if vt.errors:
            ctx.fail(f"{what}: {vt.errors[0]}")
        ctx.eq(vt.title, shown, f"{what}: title")
        ctx.eq(vt.title_stack, stack, f"{what}: title stack")
    while buffers:
        buffers.pop().__exit__(None, None, None)
    for each in (term, other):
        each.set_title(None)
    vt.feed(stream.take())
    ctx.eq(vt.title_stack, [], f"{names} and resetting: title stack")
    ctx.trace()
    ctx.outcome((shown, len(stack), tuple(names)))
    ctx.state(tuple(names))


def check(vt, stream, stack, title, ctx, what):
    data = stream.take()
    vt.feed(data)
    if vt.errors:
        ctx.fail(f"{what}: {vt.errors[0]}")
    if title is None:
        ctx.eq(vt.title, "shell", f"{what}: title")
        ctx.eq(vt.title_stack, stack, f"{what}: title stack")
    else:
        ctx.eq(vt.title, title, f"{what}: title")
        ctx.eq(vt.title_stack, [*stack, "shell"], f"{what}: title stack")
