"""C26: events call every listener once, in order, and report handling."""

import functools
import itertools

from slate import Event

ID = "C26"
DEPTH = {"quick": 5, "thorough": 6}
BOUNDS = {t: f"every history of <={d} operations over 13 operations (registration of 5 kinds of listeners by operator and method, "
             f"non-callables, clears, emissions of 3 values) on two events; histories of <=3 over all 20, and over 5 of them with 24 more (11 kinds of exceptions, methods, partials, listeners that emit themselves, that are events or false, other values)" for t, d in DEPTH.items()}

# listener kinds and what they return
RETURNS = {"true": True, "false": False, "none": None, "one": 1, "text": "x", "zero": 0}
OPS = [
    ["add", 0, "true"], ["add", 0, "false"], ["add", 1, "none"], ["append", 0, "none"], ["append", 1, "true"],
    ["emit", 0, 1], ["emit", 1, 2], ["clear", 0], ["bad", 0], ["add", 0, "raise"], ["add", 0, "same"], ["append", 0, "one"],
    ["emit", 0, None],
]
MORE = OPS + [["add", 1, "false"], ["clear", 1], ["append", 0, "raise"], ["add", 0, "one"], ["add", 1, "same"], ["emit", 1, (3, 4)],
              ["add", 0, "zero"]]
BASE = len(MORE)


# exceptions of several kinds reach the emitter: (the kind of listener, what it raises)
RAISES = {"raise": Exception, "raise-runtime": RuntimeError, "raise-value": ValueError, "raise-type": TypeError, "raise-key": KeyError,
          "raise-attribute": AttributeError, "raise-stop": StopIteration, "raise-interrupt": KeyboardInterrupt, "raise-exit": SystemExit,
          "raise-assert": AssertionError, "raise-os": OSError}
EXTRA = [["add", 0, kind] for kind in RAISES] + [["append", 0, "raise-runtime"], ["emit", 0, "text"], ["emit", 0, 0], ["emit", 0, ""],
                                                ["emit", 0, [1]], ["add", 0, "empty"], ["add", 0, "method"],
                                                ["add", 0, "partial"], ["bad", 1], ["add", 0, "again"], ["append", 0, "other"],
                                                ["add", 0, "falsy"], ["append", 1, "falsy"], ["add", 0, "event"], ["append", 0, "event"]]
# "again" emits another value on the same event, "other" on the other one, while they are being called
RETURNS.update({"empty": "", "method": True, "partial": 2, "again": False, "other": None, "falsy": True, "event": False})
NESTED = {"again": (0, "nested"), "other": (1, "nested")}


class Falsy:
    """A callable that is false, as an event without listeners is."""

    def __init__(self, function):
        self.function = function

    def __call__(self, value):
        return self.function(value)

    def __bool__(self):
        return False


class Owner:
    def __init__(self, function):
        self.function = function

    def method(self, value):
        return self.function(value)


MORE += EXTRA


def cases(tier):
    for count in (17, 70, 300):  # many listeners, many emissions
        for i, j in itertools.product(range(BASE), repeat=2):
            if MORE[i][0] in ("add", "append"):
                yield [*[i] * count, j, 5, 5]
                if MORE[j][0] == "emit":
                    yield [i, *[j] * count, 5]
    # every extra operation in every place of a short history
    few = [0, 1, 5, 7, 10, *range(BASE, len(MORE))]
    for n in (1, 2, 3):
        for ops in itertools.product(few, repeat=n):
            if any(op >= BASE for op in ops):
                yield [*ops, 5]
    for n in range(0, 4):
        for ops in itertools.product(range(BASE), repeat=n):
            yield list(ops)
    for n in range(4, DEPTH[tier] + 1):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield list(ops)


def predict(model, which, value, want):
    """What an emission calls, whether it is handled, and what it raises."""

    handled = False
    for tag, kind in model[which]:
        if kind == "event":
            result, boom = predict(model, 1, value, want)
            if boom:
                return handled, boom
            handled = handled or result
            continue
        want.append((tag, value))
        if kind in RAISES:
            return handled, (RAISES[kind], tag)
        result = bool(RETURNS.get(kind, False))
        if kind in NESTED and value != "nested":
            result, boom = predict(model, *NESTED[kind], want)
            if boom:
                return handled, boom
        handled = handled or result
    return handled, None


def run_case(case, ctx):
    ctx.sample([MORE[i] for i in case])
    log = []
    events = [Event("first"), Event("second")]
    model = [[], []]

    def shared(value):
        log.append(("same", value))
        return False

    def make(kind, tag):
        def listener(value):
            log.append((tag, value))
            if kind in RAISES:
                raise RAISES[kind](tag)
            if kind in NESTED and value != "nested":
                return events[NESTED[kind][0]]("nested")
            return RETURNS[kind]

        if kind == "event":  # the other event itself: what is emitted here is emitted there
            return events[1]
        if kind == "falsy":
            return Falsy(listener)
        if kind == "method":
            return Owner(listener).method
        if kind == "partial":
            return functools.partial(listener)
        return listener

    for step, index in enumerate(case):
        op, which, *rest = MORE[index]
        event = events[which]
        ctx.step()
        what = f"step {step} of {[MORE[i] for i in case]}"
        if op in ("add", "append"):
            kind = rest[0]
            tag = "same" if kind == "same" else f"{kind}{step}"
            listener = shared if kind == "same" else make(kind, tag)
            if op == "add":
                before = event
                event += listener
                if event is not before:
                    ctx.fail(f"{what}: += gave another event")
                events[which] = event
            else:
                if event.append(listener) is not listener:
                    ctx.fail(f"{what}: append did not return the listener")
            model[which].append((tag, kind))
        elif op == "bad":
            for value in (None, 5, "text"):
                try:
                    event += value
                except ValueError:
                    pass
                else:
                    ctx.fail(f"{what}: {value!r} was accepted as a listener")
        elif op == "clear":
            event.clear()
            model[which].clear()
        else:
            value = tuple(rest[0]) if isinstance(rest[0], list) else rest[0]
            del log[:]
            want, handled, boom = [], False, None
            handled, boom = predict(model, which, value, want)
            try:
                got = event(value)
            except BaseException as exc:  # pylint: disable=broad-except
                if (type(exc), exc.args) != (boom[0] if boom else None, boom[1:] if boom else None):
                    ctx.fail(f"{what}: unexpected {exc!r}")
            else:
                if boom is not None:
                    ctx.fail(f"{what}: the listener's exception did not reach the emitter")
                if bool(got) != handled:
                    ctx.fail(f"{what}: returned {got!r}, expected {handled}")
            ctx.eq(log, want, f"{what}: calls")
            ctx.outcome((tuple(want), handled, boom))
        for k in (0, 1):
            ctx.eq(bool(events[k]), bool(model[k]), f"{what}: truth value of event {k}")
        ctx.state(repr(model))
    ctx.trace()
