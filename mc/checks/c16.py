"""C16: colour space detection follows the environment's precedence."""

import itertools
import os

from slate import ColorSpace, Terminal, get_color_space
from slate import terminal as MAIN

from mc.lab import Stream

ID = "C16"
OVERRIDE = [None, "no_color", "standard", "eight_bit", "true_color", "TRUE_COLOR", "Standard", "No_Color", "EIGHT_bit"]
NOCOLOR = [None, "", "0", "1", "false"]
COLORTERM = [None, "", "  ", "truecolor", "24bit", "TrueColor", "24BIT", "256color", "256COLOR", "yes", " truecolor ", "8bit"]
TERM = [None, "", "dumb", "xterm", "xterm-256color", "xterm-truecolor", "xterm-24bit", "xterm-16color", "screen-256color",
        "256color", "truecolor", "xterm-xterm-256color", "linux", "xterm-direct", "screen.xterm-256color"]
KEYS = ("SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM")
ORDER = ["standard", "no_color", "eight_bit", "true_color"]


# Variables that other programs look at: they do not matter
OTHERS = {"FORCE_COLOR": ["", "0", "1", "3"], "CLICOLOR": ["0", "1"], "CLICOLOR_FORCE": ["0", "1"], "TERM_PROGRAM": ["Apple_Terminal", "iTerm.app", "vscode", "WezTerm", "tmux"],
          "TERM_PROGRAM_VERSION": ["3.4"], "COLORFGBG": ["15;0", "0;15"], "WT_SESSION": ["1"], "ConEmuANSI": ["ON"], "ANSICON": ["1"], "TMUX": ["/tmp/x,1,0"],
          "STY": ["1.x"], "KONSOLE_VERSION": ["210400"], "VTE_VERSION": ["6003"], "KITTY_WINDOW_ID": ["1"], "CI": ["true"], "GITHUB_ACTIONS": ["true"],
          "COLUMNS": ["1"], "LINES": ["1"], "LANG": ["C"], "LC_ALL": ["C"], "PYTEST_CURRENT_TEST": ["x"], "PYTHONIOENCODING": ["ascii"], "SSH_TTY": ["/dev/pts/1"],
          "COLORSYS": ["standard", "true_color"], "SLATE_COLOR": ["standard"], "no_color": ["1"], "NOCOLOR": ["1"], "NO_COLOUR": ["1"], "TERMINFO": ["/"], "TERMCAP": [""],
          "SLATE_COLOR_SPACE": ["standard"], "SLATE_NO_COLOR": ["1"], "OS": ["Windows_NT"], "DISPLAY": [":0"], "INSIDE_EMACS": ["1"], "NODE_DISABLE_COLORS": ["1"],
          "PY_COLORS": ["0", "1"], "SLATE_FORCE_COLOR": ["1"], "TERM_FEATURES": ["T2"], "LC_TERMINAL": ["iTerm2"], "XTERM_VERSION": ["XTerm(379)"]}
FEW = [(None, None, None, "xterm"), (None, None, None, "xterm-256color"), (None, None, "truecolor", "xterm"), (None, "1", "truecolor", None), ("standard", "1", "24bit", None),
       ("true_color", None, None, None), (None, None, None, None)]

BOUNDS = {t: f"all {len(OVERRIDE)}x{len(NOCOLOR)}x{len(COLORTERM)}x{len(TERM)} combinations of the four environment variables; "
             f"all transitions between neighbouring environments; all pairs of colour spaces and names; {sum(map(len, OTHERS.values()))} settings of other variables in 7 environments, and 6 values of every other variable the code asks for" for t in ("quick", "thorough")}


class Spy(dict):
    """An environment that remembers which variables were asked for."""

    def __init__(self, data):
        super().__init__(data)
        self.asked = set()

    def get(self, key, default=None):
        self.asked.add(key)
        return super().get(key, default)

    def __getitem__(self, key):
        self.asked.add(key)
        return super().__getitem__(key)

    def __contains__(self, key):
        self.asked.add(key)
        return super().__contains__(key)


def cases(tier):
    for key, values in OTHERS.items():
        for value in values:
            for combo in FEW:
                yield ["other", [key, value, *combo]]
    for combo in FEW:
        yield ["asked", list(combo)]
    for combo in itertools.product(OVERRIDE, NOCOLOR, COLORTERM, TERM):
        yield ["env", list(combo)]
    for a in ORDER:
        for b in ORDER:
            yield ["order", [a, b]]
    yield ["bad", []]


NO_NAMES = ["", "s", "standard ", "true", "color", "no", "_", "true_color,standard", "eight", "bit", "256color", "truecolor", "None", "all", "standard\n"]


def expect(override, nocolor, colorterm, term):
    if override is not None:
        return override.lower()
    if nocolor is not None:
        return "no_color"
    depth = (colorterm or "").strip().lower()
    if not depth:
        # the terminal name's suffix
        depth = (term or "").split("xterm-")[-1]
    if depth in ("24bit", "truecolor"):
        return "true_color"
    if depth == "256color":
        return "eight_bit"
    return "standard"


TERMINALS = []


def worker_setup():
    TERMINALS.append(Terminal(stream=Stream()))


def run_case(case, ctx):
    kind, data = case
    ctx.sample(case)
    ctx.trace()
    ctx.step()
    ctx.state((kind, tuple(data)))
    if kind == "asked":
        return run_asked(data, ctx)
    extra = ()
    if kind == "other":
        extra, data, kind = [(data[0], data[1])], data[2:], "env"
    saved = {k: os.environ.get(k) for k in (*KEYS, *dict(extra))}
    try:
        os.environ.update(extra)
        if kind == "env":
            for key, value in zip(KEYS, data):
                if value is None:
                    os.environ.pop(key, None)
                else:
                    os.environ[key] = value
            want = expect(*data)
            ctx.outcome(want)
            what = f"colour space in {dict([*zip(KEYS, data), *extra])}"
            ctx.eq(get_color_space().value, want, what)
            for term in (MAIN, *TERMINALS):
                ctx.eq(term.color_space.value, want, "terminal's " + what)
        elif kind == "order":
            a, b = data
            x, y = ColorSpace(a), ColorSpace(b)
            i, j = ORDER.index(a), ORDER.index(b)
            for other in (y, b):
                ctx.eq(x > other, i > j, f"{a} > {other!r}")
                ctx.eq(x >= other, i >= j, f"{a} >= {other!r}")
                ctx.eq(x == other, i == j, f"{a} == {other!r}")
                ctx.eq(x != other, i != j, f"{a} != {other!r}")
            for other in NO_NAMES:
                try:
                    same = x == other
                except ValueError:
                    continue
                ctx.eq(same, False, f"{a} == {other!r}")
            ctx.eq(y < x, j < i, f"{b} < {a}")
            ctx.eq(y <= x, j <= i, f"{b} <= {a}")
        else:
            os.environ["SLATE_COLORSYS"] = "rainbow"
            try:
                space = get_color_space()
            except ValueError:
                return
            ctx.fail(f"unknown override accepted as {space}")
    finally:
        for key, value in saved.items():
            if value is None:
                os.environ.pop(key, None)
            else:
                os.environ[key] = value


def run_asked(data, ctx):
    """Whatever else is asked for does not matter."""

    base = {k: v for k, v in os.environ.items() if k not in KEYS}
    base.update({k: v for k, v in zip(KEYS, data) if v is not None})
    real, want = os.environ, expect(*data)
    spy = Spy(base)
    os.environ = spy
    try:
        get_color_space()
        for key in sorted(spy.asked - set(KEYS)):
            for value in ("", "0", "1", "standard", "true_color", "xterm-256color"):
                os.environ = Spy({**base, key: value})
                ctx.step()
                ctx.eq(get_color_space().value, want, f"colour space in {dict(zip(KEYS, data))} with {key}={value!r}")
    finally:
        os.environ = real
