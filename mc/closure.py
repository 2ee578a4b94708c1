"""Explicit-state exploration: every state of the real screen reachable over an alphabet, to a fixpoint.

A state is the whole content of the real Screen (with the sharing of its containers), of the model and of the
emulated terminal. A state is reached again by replaying its shortest history on a fresh screen, never by copying
objects, so the exploration asks nothing of how the screen is written; a part that cannot be encoded just keeps
states apart. Every transition is followed by the checks of Lab and by a final draw and redraw. When the closure
ends before its limit, the check has covered every history over that alphabet, of any length (as far as the encoded
content decides what happens next).
"""

from __future__ import annotations

import enum
import io
import types

from .engine import Violation
from .lab import Lab, TermLab

ATOMS = (str, int, float, bool, bytes, type(None))


def encode(obj, seen):
    """A hashable description of an object's content; containers also by which of them are one object."""

    if isinstance(obj, ATOMS):
        return obj
    kind = type(obj)
    if kind is tuple:
        return tuple([encode(item, seen) for item in obj])
    if kind.__name__ == "Color":
        return ("Color", *(encode(v, seen) for v in vars(obj).values())) if hasattr(obj, "__dict__") else repr(obj)
    if callable(obj) or isinstance(obj, (io.IOBase, types.ModuleType)):
        return (kind.__name__, getattr(obj, "__qualname__", None))
    number = seen.get(id(obj))
    if number is not None:
        return ("same", number)
    seen[id(obj)] = len(seen)
    if isinstance(obj, (list, tuple)):
        return (kind.__name__, *[encode(item, seen) for item in obj])
    if isinstance(obj, dict):
        return ("dict", frozenset((encode(k, seen), encode(v, seen)) for k, v in obj.items()))
    if isinstance(obj, (set, frozenset)):
        return ("set", frozenset(encode(item, seen) for item in obj))
    if isinstance(obj, (bytearray, memoryview)):
        return bytes(obj)
    content = getattr(obj, "__dict__", None)
    slots = [(name, encode(getattr(obj, name), seen)) for cls in kind.__mro__
             for name in getattr(cls, "__slots__", ()) if isinstance(name, str) and hasattr(obj, name)]
    if content is None and not slots:
        return (kind.__name__, getattr(obj, "value", None) if isinstance(obj, enum.Enum) else None)
    return (kind.__name__, tuple(slots), encode(content or {}, seen))


def key(lab):
    model, vt = lab.model, lab.vt
    return hash((encode(lab.term if lab.screen is None else lab.screen, {}), model.key(), frozenset(model.may), tuple(map(tuple, model.tails)),
                 tuple(map(tuple, vt.grid)), vt.x, vt.y, vt.wrap, vt.attr))


def explore(ctx, setup, ops, checks, work=100000, rows=2):
    """Breadth-first closure. `work`: how many operations to execute at most; `rows`: states that have scrolled
    further are not expanded."""

    seen = set()
    frontier = [()]
    spent = 0
    setup = dict(setup)
    make = TermLab if setup.pop("terminal", False) else Lab
    if ctx.extra.get("closures_cut_off", 0) >= 2:  # a screen that counts, say: its states never repeat
        work = min(work, 15000)
    while frontier:
        following = []
        for path in frontier:
            for i, op in enumerate(ops):
                spent += len(path) + 1
                if spent > work:
                    ctx.add("closures_cut_off")
                    return
                lab = make(ctx, checks=checks, **setup)
                try:
                    for j in path:
                        lab.apply(ops[j])
                    lab.apply(op)
                    mark = key(lab)
                    if mark in seen:
                        continue
                    seen.add(mark)
                    if lab.model.offset <= rows:
                        following.append((*path, i))
                    lab.final()
                except Violation as exc:
                    raise Violation(f"{exc}, after {[ops[j] for j in path] + [op]}") from exc
        frontier = following
    ctx.add("closures_complete")
    ctx.add("closure_states", len(seen))
