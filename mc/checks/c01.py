"""C01: after a draw the terminal shows exactly the screen's content."""

from mc.screens import ASSUMPTIONS, BOUNDS_HISTORIES, CLOSURES, closures, execute, histories, terminal_histories

ID = "C01"
TERM = "; all histories of <={} operations over 21 operations through Terminal (3x2 window)"
BOUNDS = {"quick": BOUNDS_HISTORIES["quick"] + TERM.format(3) + CLOSURES.format(3, 15),
          "thorough": BOUNDS_HISTORIES["thorough"] + TERM.format(4) + CLOSURES.format(4, 15)}


def cases(tier):
    yield from terminal_histories(2)
    yield from histories(tier)
    yield from terminal_histories(3 if tier == "quick" else 4)
    yield from closures(tier)


def run_case(case, ctx):
    execute(case, ctx, "c")
