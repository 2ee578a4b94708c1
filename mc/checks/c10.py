"""C10: spans are immutable values; derived spans keep text and all styling."""

import itertools

from slate import Color, Span

from mc.emu import VT, interpret_line
from mc.refscreen import STYLE_CODE

ID = "C10"
BOUNDS = {
    "quick": "384 attribute combinations (each style alone, none, all; both colours absent/opaque/translucent; hyperlink, "
             "opaque, reset_after) x 10 texts x ~64 derivations; all chains of two derivations from 12 spans; equality and hashes of all pairs of 300 spans; all 512 style "
             "subsets for rendering",
    "thorough": "as quick with all 512 style subsets for every derivation and all chains of three derivations from 6 spans",
}
STYLES = list(STYLE_CODE)
FIELDS = ["text", "foreground", "background", "hyperlink", *STYLES, "opaque", "reset_after"]
FG, BG, TR = Color((1, 2, 3)), Color((200, 100, 0), is_background=True), Color((9, 9, 9), alpha=0.5)
FG2, BG2 = Color((7, 7, 70)), Color((0, 80, 8), is_background=True)
TEXTS = ["abc", "", "a", "a b", " x  y", "é\n漢e\u0301\u200b", "a\r\tb", "a b c d e  f g", "bxbbxb", "a.b||c.*b ca+b"]
STYLE_SETS = [(), *((s,) for s in STYLES), tuple(STYLES), ("bold", "italic", "strike")]
COLORS = [(None, None), (FG, None), (None, BG), (TR, BG)]


def config(text, styles, colors, link, opaque, reset):
    fg, bg = COLORS[colors]
    out = {"text": text, "foreground": fg, "background": bg, "hyperlink": "http://x/" if link else "",
           "opaque": bool(opaque), "reset_after": bool(reset)}
    out.update({s: s in styles for s in STYLES})
    return out


def derivations():
    """(name, function of a span, function of (config) -> list of expected configs)."""

    out = []

    def one(name, fn, change):
        out.append((name, lambda s: [fn(s)], lambda c: [{**c, **change(c)}]))

    for sl in (slice(None), slice(1, None), slice(None, 1), slice(0, 0), slice(None, None, -1), slice(-1, None), slice(1, 2),
               slice(None, -1), slice(-2, None), slice(None, None, 2), slice(None, None, -2), slice(None, None, 3), slice(-2, 0, -3), slice(5, None), slice(None, 5), slice(2, 1), slice(-9, 9)):
        one(f"[{sl}]", lambda s, sl=sl: s[sl], lambda c, sl=sl: {"text": c["text"][sl]})
    for style in STYLES:
        for value in (True, False):
            one(f"as_{style}({value})", lambda s, style=style, value=value: getattr(s, "as_" + style)(value),
                lambda c, style=style, value=value: {style: value})
    one("as_bold()", lambda s: s.as_bold(), lambda c: {"bold": True})
    one("as_hyperlink", lambda s: s.as_hyperlink("u"), lambda c: {"hyperlink": "u"})
    one("as_hyperlink()", lambda s: s.as_hyperlink(), lambda c: {"hyperlink": ""})
    one("as_color(fg)", lambda s: s.as_color(FG2), lambda c: {"foreground": FG2})
    one("as_color(bg)", lambda s: s.as_color(BG2), lambda c: {"background": BG2})
    # equal colours on the other layers
    one("as_color(fg as bg)", lambda s: s.as_color(FG2.as_background()), lambda c: {"background": FG2.as_background()})
    one("as_color(bg as fg)", lambda s: s.as_color(BG2.as_background(False)), lambda c: {"foreground": BG2.as_background(False)})
    one("as_color(hex)", lambda s: s.as_color("#070746"), lambda c: {"foreground": FG2})
    one("as_color(tuple)", lambda s: s.as_color((7, 7, 70)), lambda c: {"foreground": FG2})
    one("as_color(48)", lambda s: s.as_color("48;2;0;80;8"), lambda c: {"background": BG2})
    one("mutate()", lambda s: s.mutate(), lambda c: {})
    one("mutate(text)", lambda s: s.mutate(text="new"), lambda c: {"text": "new"})
    one("mutate(opaque)", lambda s: s.mutate(opaque=True), lambda c: {"opaque": True})
    one("mutate(reset)", lambda s: s.mutate(reset_after=False), lambda c: {"reset_after": False})
    one("mutate(colors)", lambda s: s.mutate(foreground=None, background=None),
        lambda c: {"foreground": None, "background": None})
    one("as_color(4-tuple)", lambda s: s.as_color((7, 7, 70, 0.5)), lambda c: {"foreground": FG2.as_alpha(0.5)})
    one("as_color(hex with alpha)", lambda s: s.as_color("#07074600"), lambda c: {"foreground": FG2.as_alpha(0.0)})
    for char in (" ", "b", "x", ".", "||", ".*", "a+", "b c"):
        out.append((f"split({char!r})", (lambda s: s.split()) if char == " " else (lambda s, char=char: s.split(char)),
                    lambda c, char=char: [{**c, "text": part} for part in c["text"].split(char)]))
    out.append(("index", lambda s: [s[i] for i in range(len(s))], lambda c: [{**c, "text": ch} for ch in c["text"]]))
    out.append(("negative index", lambda s: [s[-i] for i in range(1, len(s) + 1)],
                lambda c: [{**c, "text": ch} for ch in reversed(c["text"])]))
    out.append(("iteration", list, lambda c: [{**c, "text": ch} for ch in c["text"]]))
    return out


DERIVATIONS = derivations()


def pool():
    """Attributes of spans that differ from each other in few respects."""

    base = config("ab", ["bold"], 0, 0, 0, 1)
    changes = [{}, {"text": "a"}, {"text": "ba"}, {"text": ""}, {"hyperlink": "u"}, {"hyperlink": "v"}, {"opaque": True},
               {"reset_after": False}, {"foreground": FG}, {"foreground": Color((1, 2, 3), alpha=0.5)}, {"foreground": Color((1, 2, 3))},
               {"foreground": Color((1, 2, 4))}, {"background": BG}, {"background": Color((200, 100, 0), is_background=True, alpha=0.5)},
               {"background": Color((200, 100, 1), is_background=True)}, *({s: s != "bold"} for s in STYLES)]
    return [{**base, **a, **b} for a, b in itertools.combinations_with_replacement(changes, 2)]


POOL = pool()


def configs(style_sets):
    return itertools.product(style_sets, range(len(COLORS)), (0, 1), (0, 1), (1, 0))


def cases(tier):
    sets = STYLE_SETS
    if tier == "thorough":
        sets = [tuple(s for k, s in enumerate(STYLES) if mask >> k & 1) for mask in range(512)]
    for k, text in enumerate(TEXTS):
        for styles, *rest in configs(STYLE_SETS):
            yield ["one", text, list(styles), rest]
    for text in ("b " * 70, "x" * 130, "a\u3000b " * 30):
        for styles in ((), ("bold", "conceal")):
            yield ["one", text, list(styles), [3, 1, 0, 1]]
    for mask in range(512):
        for colors in range(len(COLORS)):
            yield ["show", "ab", [s for k, s in enumerate(STYLES) if mask >> k & 1], [colors, 0, 0, 1]]
    if tier == "thorough":
        for styles, *rest in configs(sets):
            yield ["one", "a b", list(styles), rest]
    for i in range(len(POOL)):
        yield ["pair", "", [], [0, 0, 0, 1], i]
    starts = [(s, c, l, o, r) for s in ((), ("bold", "underline"), ("conceal",)) for c, l, o, r in
              ((0, 0, 0, 1), (3, 1, 0, 1), (1, 0, 1, 0), (2, 1, 1, 0))]
    for start in starts:
        for text in ("a b", "xy"):
            for chain in itertools.product(range(len(DERIVATIONS)), repeat=2):
                yield ["chain", text, list(start[0]), list(start[1:]), list(chain)]
    if tier == "thorough":
        for start in starts[1::2]:
            for chain in itertools.product(range(len(DERIVATIONS)), repeat=3):
                yield ["chain", "a b", list(start[0]), list(start[1:]), list(chain)]


def make(conf):
    return Span(**conf)


def values(span):
    return {name: getattr(span, name) for name in FIELDS}


def check_is(span, conf, ctx, what):
    got = values(span)
    for name in FIELDS:
        if got[name] != conf[name] or type(got[name]) is not type(conf[name]):
            ctx.fail(f"{what}: {name} is {got[name]!r}, expected {conf[name]!r}")
        if isinstance(conf[name], Color) and got[name].is_background != conf[name].is_background:
            ctx.fail(f"{what}: {name} is on the wrong layer")
    fresh = make(conf)
    if span != fresh or hash(span) != hash(fresh):
        ctx.fail(f"{what}: not equal to (or hashing unlike) the same span made directly")
    ctx.eq(str(span), str(fresh), f"{what}: rendered form")
    ctx.eq(len(span), len(conf["text"]), f"{what}: length")


def cells_of(conf, colors=True):
    styles = frozenset(STYLE_CODE[s] for s in STYLES if conf[s])
    fg = bg = None
    if colors:
        fg = (38, 2, *conf["foreground"].rgb) if conf["foreground"] is not None else None
        bg = (48, 2, *conf["background"].rgb) if conf["background"] is not None else None
    return [(ch, styles, fg, bg) for ch in conf["text"]]


def visible(text, ctx, what):
    """Cells displayed by `text`, with newlines kept as cells, plus a sentinel that shows what stays active."""

    out = []
    from mc.emu import TOKEN, parse_sgr

    state, link, links = (frozenset(), None, None), "", []
    for m in TOKEN.finditer(text + "~"):
        if m["text"] is not None:
            for ch in m["text"]:
                out.append((ch, *state))
                links.append(link)
        elif m["ctl"] in ("\n", "\r", "\t"):
            out.append((m["ctl"], *state))
            links.append(link)
        elif m["final"] == "m":
            state, err = parse_sgr(m["csi"], state)
            if err:
                ctx.fail(f"{what}: {err} in {text!r}")
        elif m["osc"] is not None and m["osc"].startswith("8;"):
            link = m["osc"].split(";", 2)[2]
        else:
            ctx.fail(f"{what}: unexpected {m[0]!r} in {text!r}")
    return out, links


def check_shown(span, conf, ctx):
    plain = frozenset(), None, None
    body = cells_of(conf)
    has_style = any(conf[s] for s in STYLES) or conf["opaque"] or conf["foreground"] or conf["background"]
    got, links = visible(str(span), ctx, "rendered span")
    ctx.eq(got[:-1], body, "cells displayed by the rendered span")
    ctx.eq(set(links[:-1]) | {conf["hyperlink"]}, {conf["hyperlink"]}, "hyperlink of the displayed cells")
    ctx.eq(links[-1], "", "hyperlink after the span")
    if conf["reset_after"]:
        ctx.eq(got[-1][1:], plain, "style left after a span that resets")
    elif has_style and conf["text"]:
        ctx.eq(got[-1][1:], body[-1][1:], "style left after a span that does not reset")
    for exclude in (False, True):
        for always in (False, True):
            chars = span.get_characters(exclude_color=exclude, always_include_sequence=always)
            ctx.step()
            ctx.eq(len(chars), len(conf["text"]), "number of characters")
            want = cells_of(conf, not exclude)
            got, _ = visible("".join(chars), ctx, "characters")
            what = f"characters (exclude_color={exclude}, always_include_sequence={always}) of {span!r}"
            ctx.eq(got[:-1], want, what)
            if conf["reset_after"]:
                ctx.eq(got[-1][1:], plain, what + ", style left after them")
            elif want:
                ctx.eq(got[-1][1:], want[-1][1:], what + ", style left after them")
            if always:
                for ch, cell in zip(chars, want):
                    ctx.eq(visible(ch, ctx, what)[0][0], cell, what + ", one alone")
            ctx.eq(list(span.get_characters(exclude, always)), list(chars), what + ", by position")
            # what callers do with the result must not matter
            copy = list(chars)
            chars.append("junk")
            chars[0] = "junk"
            del chars[1:]
            ctx.eq(list(span.get_characters(exclude_color=exclude, always_include_sequence=always)), copy,
                   what + ", asked again")
    ctx.eq(list(span.get_characters()), list(span.get_characters(exclude_color=False, always_include_sequence=False)),
           "default arguments of get_characters")


def run_case(case, ctx):
    kind, text, styles, rest, *more = case
    ctx.sample(case)
    conf = config(text, styles, *rest)
    span = make(conf)
    before = repr(values(span)), str(span), hash(span)
    ctx.trace()
    if kind in ("one", "show"):
        check_is(span, conf, ctx, "constructed")
        check_shown(span, conf, ctx)
        attrs = span.attrs
        for name in FIELDS[:-1]:
            ctx.eq(attrs[name], conf[name], f"attrs[{name}]")
        attrs["text"] = "changed"
        for probe in ("", "a", "b", "zz", "a b", "m", "[", "1", "0m", "\x1b", ";", "http"):
            ctx.eq(probe in span, probe in conf["text"], f"{probe!r} in span")
        for index in (len(text), len(text) + 1, -len(text) - 1, -len(text) - 2):
            try:
                got = span[index]
            except IndexError:
                continue
            ctx.fail(f"[{index}] of {span!r} gives {got!r}, but its text has no such character")
    if kind == "one":
        for name, fn, expect in DERIVATIONS:
            got = fn(span)
            want = expect(conf)
            ctx.step()
            ctx.eq(len(got), len(want), f"number of spans from {name}")
            for g, c in zip(got, want):
                check_is(g, c, ctx, f"{name} of {span!r}")
                ctx.state(repr(c))
    if kind == "pair":
        first = make(POOL[more[0]])
        for other in POOL:
            second = make(other)
            ctx.step()
            same = all(POOL[more[0]][name] == other[name] for name in FIELDS)
            ctx.eq(first == second, same, f"{first!r} == {second!r}")
            ctx.eq(first != second, not same, f"{first!r} != {second!r}")
            if same:
                ctx.eq(hash(first), hash(second), f"hashes of equal spans {first!r}")
        ctx.state(more[0])
    if kind == "chain":
        current = [(span, conf)]
        names = []
        for i in more[0]:
            name, fn, expect = DERIVATIONS[i]
            names.append(name)
            nxt = []
            for s, c in current:
                got, want = fn(s), expect(c)
                ctx.step()
                ctx.eq(len(got), len(want), f"number of spans from {names}")
                nxt += zip(got, want)
            current = nxt
        for s, c in current:
            check_is(s, c, ctx, f"{names} of {span!r}")
            ctx.state(repr(c))
        ctx.outcome(repr([c for _, c in current]))
    ctx.eq((repr(values(span)), str(span), hash(span)), before, "the original span after deriving others")
    try:
        span.text = "changed"
    except Exception:  # pylint: disable=broad-except
        pass
    else:
        ctx.fail("a span's text can be assigned")
