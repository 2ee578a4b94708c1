"""C02: draws paint only changed cells, and change counts are exact."""

from mc.screens import ASSUMPTIONS, execute, histories, terminal_histories
from mc.checks.c01 import BOUNDS, cases

ID = "C02"


def run_case(case, ctx):
    execute(case, ctx, "pn")
