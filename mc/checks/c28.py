"""C28: drawing touches nothing but the terminal's stream."""

import functools
import io
import itertools
import os
import sys

from mc.engine import Ctx
from mc.lab import TermLab, set_size, sp
from mc.screens import BLUE, GREEN, RED, b, w

ID = "C28"
DEPTH = {"quick": 4, "thorough": 5}
BOUNDS = {t: f"every history of <={d} operations over 10 operations on two terminal objects (20 symbols, the first on terminal A), <=3 with both on one stream, "
             f"<=2 over all 18 operations; file, process and network activity audited in every step" for t, d in DEPTH.items()}
ASSUMPTIONS = ["file, process and socket use of Python code raises the interpreter's audit events (PEP 578)"]

CORE = ["write", "bulk", "draw", "redraw", "clear", "control", "control-noflush", "scroll", "title", "forced"]
OPS = [*CORE, "bell", "export", "cursor", "mouse", "untitle", "string", "size", "setcur"]

AUDIT = {"armed": False, "events": []}
WATCHED = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
           "subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile", "os.putenv",
           "os.unsetenv", "os.utime", "os.kill", "os.chdir", "webbrowser.open", "pty.spawn", "ctypes.dlopen", "signal.pthread_kill")
SCRATCH = None


def hook(event, args):
    if not AUDIT["armed"]:
        return
    if event == "open":
        path, mode, flags = args
        writing = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
        if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & writing):
            AUDIT["events"].append(f"open {path!r} {mode!r}")
    elif event in WATCHED or event.startswith(("socket.", "shutil.", "tempfile.", "os.spawn")):
        AUDIT["events"].append(f"{event} {args!r}")


def worker_setup():
    os.chdir(SCRATCH)
    sys.addaudithook(hook)


def cases(tier):
    for n in (1, 2):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            for who in itertools.product((0, 1), repeat=n - 1):
                yield [list(ops), [0, *who]]
    # two terminal objects that share one stream
    for n in (1, 2, 3):
        for ops in itertools.product(range(len(CORE)), repeat=n):
            for who in itertools.product((0, 1), repeat=n - 1):
                yield [list(ops), [0, *who], "same"]
    for n in range(3, DEPTH[tier] + 1):
        for ops in itertools.product(range(len(CORE)), repeat=n):
            for who in itertools.product((0, 1), repeat=n - 1):
                if n > 4 and sum(who) not in (1, 2):
                    continue
                yield [list(ops), [0, *who]]


class Both(TermLab):
    """A terminal whose every stream call is checked."""

    def __init__(self, ctx, width, height, stream=None):
        super().__init__(ctx, width, height, checks="", stream=stream)
        del self.stream.log[:]

    def do(self, name, k, ctx):
        term, log = self.term, self.stream.log
        expect = None  # the text expected on the stream, None for anything
        flushed = True
        if name == "write":
            self.apply(w([sp("ab", ["bold"], RED), sp("c", [], None, GREEN)], (k % 2, 0)))
            expect = ""
        elif name == "forced":
            self.apply(w([sp("abc")], (0, 0), True))
            expect = ""
        elif name == "string":
            self.apply(["str", "\x1b[1mq", [sp("q", ["bold"])], [0, 1]])
            expect = ""
        elif name == "bulk":
            self.apply(b(((0, 0), [sp("xy", [], RED)]), ((1, 0), [sp(" ", [], None, (*BLUE, 0.5))])))
            expect = ""
        elif name == "scroll":
            self.apply(w([sp("s")], (0, 2 + k)))
            expect = ""
        elif name == "clear":
            self.apply(["clear"])
            expect = ""
        elif name == "setcur":
            self.apply(["cur", 1, 1])
            expect = ""
        elif name == "size":
            ctx.eq(tuple(term.size), (3, 2), "size")
            expect = ""
        elif name == "export":
            term.export_svg()
            expect = ""
        elif name == "draw":
            term.draw()
            self.model.draw()
        elif name == "redraw":
            term.draw(redraw=True)
            self.model.draw()
        elif name == "control":
            expect = f"\x1b[?25{'hl'[k % 2]}" * (1 if k < 2 else 50 ** (k - 1))
            term.write_control(expect)
        elif name == "control-noflush":
            expect = "\x1b[0m"
            term.write_control(expect, flush=False)
            flushed = False
        elif name == "title":
            term.set_title(f"t{k}")
        elif name == "untitle":
            term.set_title(None)
        elif name == "bell":
            expect = "\a"
            term.bell()
        elif name == "cursor":
            term.show_cursor(bool(k % 2))
            expect = f"\x1b[?25{'lh'[k % 2]}"
        elif name == "mouse":
            term.set_report_mouse(bool(k % 2))
        else:
            raise AssertionError(name)
        text = "".join(entry[1] for entry in log if entry[0] == "write")
        if expect is not None:
            ctx.eq(text, expect, f"output of {name}")
        waiting = getattr(self.stream, "waiting", False)  # something was sent before without flushing it
        if flushed and (text or waiting and name in ("draw", "redraw")) and log[-1:] != [("flush",)]:
            ctx.fail(f"{name} returned without flushing " + ("its output" if text else "what was sent before it"))
        if text or log:
            self.stream.waiting = log[-1:] != [("flush",)]
        del log[:]
        return text


def run_case(case, ctx):
    ops, who, *same = case
    ctx.sample([[OPS[i], "AB"[k]] for i, k in zip(ops, who)])
    ctx.trace()
    out, err = io.StringIO(), io.StringIO()
    saved = sys.stdout, sys.stderr
    cwd = sorted(os.listdir("."))
    AUDIT["events"].clear()
    set_size(3, 2)
    terms = [Both(ctx, 3, 2)]
    terms.append(Both(ctx, 3, 2, terms[0].stream if same else None))
    sent = ["", ""]
    sys.stdout, sys.stderr = out, err
    AUDIT["armed"] = True
    try:
        for k, (i, which) in enumerate(zip(ops, who)):
            ctx.step()
            name = OPS[i]
            other = terms[1 - which]
            cursor = tuple(other.term.cursor)
            before = other.stream.getvalue(), list(other.stream.log)
            sent[which] += terms[which].do(name, k, ctx)
            if AUDIT["events"]:
                ctx.fail(f"{name} caused {AUDIT['events'][0]}")
            if same:
                ctx.eq(tuple(other.term.cursor), cursor, f"other terminal's cursor after {name}")
                continue
            ctx.eq((other.stream.getvalue(), list(other.stream.log)), before, f"other terminal's stream after {name}")
            ctx.eq(tuple(other.term.cursor), cursor, f"other terminal's cursor after {name}")
    finally:
        AUDIT["armed"] = False
        sys.stdout, sys.stderr = saved
    ctx.eq(out.getvalue() + err.getvalue(), "", "text on the standard streams")
    ctx.eq(sorted(os.listdir(".")), cwd, "files in the working directory")
    for which, lab in enumerate(terms):
        if not same:
            ctx.eq(lab.stream.getvalue(), sent[which], "order of the output")
        own = tuple((OPS[i], k) for k, (i, w_) in enumerate(zip(ops, who)) if w_ == which)
        ctx.eq(final(lab), alone(own), "content of a terminal, compared to the same operations without the other terminal")
        ctx.state(lab.model.key())
        ctx.outcome(sent[which])


def final(lab):
    """What the terminal has yet to draw, what it shows and where it would go on writing."""

    lab.stream.take()
    cursor = tuple(lab.term.cursor)
    lab.term.draw()
    pending = lab.stream.take()
    lab.term.draw(redraw=True)
    return pending, lab.stream.take(), cursor


@functools.lru_cache(maxsize=None)
def alone(own):
    ctx = Ctx("quick")
    lab = Both(ctx, 3, 2)
    for name, k in own:
        lab.do(name, k, ctx)
    return final(lab)
