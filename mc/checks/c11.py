"""C11: visible width counts exactly the visible characters."""

import itertools

from slate import Color, Span, width

ID = "C11"
TOKENS = [  # (string, visible characters)
    ("a", 1), ("mH", 2), (" ", 1), ("[1m", 3), ("é漢", 2), ("\\]8;;", 5), ("\n", 1), ("", 0),
    ("\x1b[0m", 0), ("\x1b[m", 0), ("\x1b[1;38;2;1;2;3m", 0), ("\x1b[48;5;200m", 0), ("\x1b[H", 0), ("\x1b[12;40H", 0),
    ("\x1b]8;;http://example.com/mH?a=1;b\x1b\\", 0), ("\x1b]8;;\x1b\\", 0), ("\x1b_Ga=T,f=100;AAAA\x1b\\", 0),
    ("\x1b]0;title\x1b\\", 0),
    ("\x1b[38;2;1;2;3;0.5m", 0), ("\r\t\u2028", 3), ("\x1b[4:3m", 0),
]
DEPTH = {"quick": 5, "thorough": 6}
BOUNDS = {t: f"every concatenation of <={d} of {len(TOKENS)} tokens; every span over 9 texts x 32 stylings and every pair of them "
             f"rendered one after another; every pair of 21 unusual texts (combining, wide, invisible characters)" for t, d in DEPTH.items()}
TEXTS = ["", "a", "a b", "mH[", "漢字é", "x" * 120, "a\n", "\n", "a\nb\r\n\t"]


# What a terminal may show in no, one or two columns still counts as the characters it has
ODD = ["e\u0301", "\u0301", "\u200b", "\u200d", "\ufe0f", "\u6f22", "\uff21", "\U0001f468\u200d\U0001f469", "\U0001f1ed\U0001f1fa", "\u00ad", "\u0000", "\x7f", "\x9b",
       "\x07", "\x08", "\u202e", "\ud55c", "\u1112\u1161", "\ufb01", "\u00c5", "A\u030a"]


def stylings():
    fg, bg = Color((1, 2, 3)), Color((4, 5, 6), is_background=True)
    for bold, f, b, link, reset in itertools.product((0, 1), repeat=5):
        yield {"bold": bool(bold), "foreground": fg if f else None, "background": bg if b else None,
               "hyperlink": "http://m.H/" if link else "", "reset_after": bool(reset)}


SPANS = [Span(text, **style) for text in TEXTS for style in stylings()]


def cases(tier):
    for n in range(DEPTH[tier] + 1):
        for combo in itertools.product(range(len(TOKENS)), repeat=n):
            yield ["tokens", list(combo)]
    for count in (10, 100, 1000):
        for i, j in itertools.product(range(len(TOKENS)), repeat=2):
            yield ["tokens", [i, j] * count]
    for i in range(len(SPANS)):
        yield ["span", i]
    for i, j in itertools.product(range(len(ODD)), repeat=2):
        yield ["odd", [i, j]]


def run_case(case, ctx):
    kind, data = case
    ctx.sample(case)
    ctx.trace()
    if kind == "tokens":
        text = "".join(TOKENS[i][0] for i in data)
        want = sum(TOKENS[i][1] for i in data)
        ctx.step()
        ctx.state(text)
        ctx.outcome(want)
        ctx.eq(width(text), want, f"width({text!r})")
        return
    if kind == "odd":
        for middle, extra in (("", 0), ("x", 1), ("\x1b[1m", 0), ("\x1b]8;;a\x1b\\", 0)):
            text = ODD[data[0]] + middle + ODD[data[1]]
            want = len(ODD[data[0]]) + extra + len(ODD[data[1]])
            ctx.step()
            ctx.eq(width(text), want, f"width({text!r})")
            if not middle.startswith("\x1b"):
                ctx.eq(width(Span(text)), want, f"width of the span {text!r}")
        return
    span = SPANS[data]
    ctx.eq(width(span), len(span.text), f"width of {span!r}")
    ctx.eq(width(str(span)), len(span.text), f"width of rendered {span!r}")
    for other in SPANS[:: 5]:
        ctx.step()
        ctx.eq(width(str(span) + str(other)), len(span.text) + len(other.text), f"width of {str(span) + str(other)!r}")
    ctx.state(("span", data))
