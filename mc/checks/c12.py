"""C12: the SVG export shows every cell with its text, colours and styles."""

import itertools
import re
import xml.etree.ElementTree as ET

from slate import Color, Screen, Span, Terminal

from mc.emu import VT
from mc.lab import Cache, answered_terminal, Lab, Stream, TermLab, set_size, sp, spec, to_span
from mc.refscreen import STYLE_CODE
from mc.screens import BLUE, DARK, GREEN, PALE, RED, b, w

ID = "C12"
BOUNDS = {
    "quick": "every row of 3 cells over 15 looks, every row of 2 over 46 looks, every 2x2 screen over 6 looks, three font sizes "
             "and two origins; after every history of <=3 operations over 15, exported only then or before each of them, too (documents through Terminal: <=2); every single span with and without inline "
             "styles; rows of 40, 120 and 300 columns; every text of <=3 block and other characters; whole documents through Terminal for all rows of 2, with given, fallback and replied default colours",
    "thorough": "every row of 4 cells over 15 looks, every history of <=4 operations; otherwise as quick",
}
ASSUMPTIONS = ["a CSS class rule overrides presentation attributes; the last rule of a class wins"]

CHAR_WIDTH, CHAR_HEIGHT = 0.60167, 1.265
LOOKS = [
    sp("a"),
    sp(" "),
    sp("b", ["bold"]),
    sp("c", [], RED),
    sp("d", [], RED, GREEN),
    sp("<", [], None, GREEN),
    sp("e", ["invert"], RED, BLUE),
    sp("&", ["underline", "strike"]),
    sp("f", [], GREEN),
    sp("'", ["bold"], RED),
    sp(" ", [], None, RED),
    sp("█", [], PALE),
    sp("g", ["dim", "italic"]),
    sp("h", ["invert"]),
    sp("a", [], DARK),
]
WIDE = LOOKS + [sp("s", [name]) for name in STYLE_CODE] + [sp("s", [name], RED, BLUE) for name in STYLE_CODE] + [
    sp('"'), sp(">"), sp("é"), sp("漢"), sp("\\"), sp("]"), sp("{"), sp("}"), sp("%"),
    sp("u", list(STYLE_CODE), RED, GREEN), sp("t", [], (*RED, 0.5)), sp("t", [], None, (*BLUE, 0.5)), sp("t", ["invert"], (*RED, 0.75), (*BLUE, 0.25)),
]
UNWRITTEN = None
TEMPLATES = ["other-{i}", "a{i}b", "x_{i}_y", "screen__span{i}"]

DEFAULTS = [((221, 221, 221), (33, 33, 33)), ((1, 1, 1), (254, 254, 254))]
ANSWERED = [[[16, 32, 48], [250, 240, 230]], [[255, 255, 255], [0, 0, 0]]]
SETTINGS = [(15, (0, 0), 0), (10, (7, 3.5), 1), (24, (0, 100), 0)]

OPS = [
    w([sp("ab", ["bold"], RED), sp("c", [], None, GREEN)], (0, 0)),
    w([sp("abcdef", ["underline"])], (1, 0)),
    w([sp("x")]),
    w([sp("s<", [], BLUE)], (0, 2)),
    w([sp("   ", [], None, PALE)], (0, 1)),
    w([sp("x\ny", ["invert"], RED)], (2, 0)),
    b(((0, 0), [sp("xyz", [], RED)]), ((1, 0), [sp(" ", [], None, (*BLUE, 0.5))])),
    ["clear"],
    ["clear", "#"],
    ["resize", 2, 3],
    ["resize", 4, 2],
    ["draw"],
    ["redraw"],
    w([sp("a", ["bold"], RED, reset=False), sp("a")], (0, 0)),
    w([sp("")], (0, 3)),  # scrolls and writes nothing
]


def cases(tier):
    for i in range(len(WIDE)):
        yield ["span", [i]]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for row in itertools.product(range(len(LOOKS)), repeat=n):
            yield ["row", sum(row) % 3, list(row)]
    for row in itertools.product(range(len(WIDE)), repeat=2):
        yield ["row", 0, list(row)]
        yield ["doc", row[0] % 2, list(row)]
    for fill in ("#", " ", ".", "<"):
        for d in (0, 1):
            for i in range(len(LOOKS)):
                yield ["doc", d, [i], fill]
                yield ["doc", d, [i], fill, (9, 20, 12.5)[i % 3]]
    yield from long_cases()
    yield from block_cases()
    yield from many_cases()
    for cells in itertools.product(range(6), repeat=4):
        yield ["grid", 0, list(cells)]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield ["ops", n % 3, list(ops)]
            yield ["ops", n % 3, list(ops), True]
            if n <= 2:
                yield ["terminal", n % 2, list(ops)]


def long_cases():
    for width in (40, 120, 300):
        for setting in range(3):
            for at in (1, 7, width // 2, width - 2):
                yield ["long", setting, [width, at]]


def many_cases():
    """More styles than one has fingers: each needs its own class."""

    for count in (30, 150, 400, 1100, 3000):
        for setting in range(3 if count < 1000 else 1):
            for kind in range(3):
                yield ["many", setting, [count, kind]]
    for width, height in ((5, 1), (1, 4), (2, 7), (80, 24), (200, 3)):
        for d in (0, 1):
            for font in (9, 15, 20):
                yield ["doc", d, [0, 3, 5], " ", font, [width, height]]
    # terminals that told their default colours
    for answered in ANSWERED:
        for d in (0, 1):
            for i in range(len(WIDE)):
                yield ["doc", d, [i, 0], None, 15, [2, 2], answered]


def block_cases():
    chars = ["\u2580", "\u259f", "\u2588", "\u257f", "\u25a0", "a", " "]
    for n in (1, 2, 3):
        for text in itertools.product(chars, repeat=n):
            yield ["text", 0, ["".join(text)]]


def parse_css(text, ctx):
    rules = {}
    rest = text
    for m in re.finditer(r"\.([\w-]+)\s*\{([^{}]*)\}", text):
        props = {}
        for item in m[2].split(";"):
            if not item.strip():
                continue
            key, sep, value = item.partition(":")
            if not sep:
                ctx.fail(f"bad CSS declaration {item!r}")
            props[key.strip()] = value.strip()
        rules[m[1]] = props
    left = re.sub(r"\.([\w-]+)\s*\{([^{}]*)\}", "", rest).strip()
    if left:
        ctx.fail(f"bad stylesheet: {left!r}")
    return rules


def hexed(rgb):
    return "#%02X%02X%02X" % tuple(rgb)


def styles_of(props, ctx, what):
    """The text styles a set of CSS properties gives."""

    out = set()
    props = dict(props)
    props.pop("fill", None)
    if props.pop("font-weight", None) == "bold":
        out.add(1)
    if props.pop("font-style", None) == "italic":
        out.add(3)
    opacity = props.pop("opacity", None)
    if opacity is not None:
        if not 0.3 <= float(opacity) < 1:
            ctx.fail(f"{what}: opacity {opacity}")
        out.add(2)
    for value in (props.pop("text-decoration", "") or "").split():
        code = {"underline": 4, "line-through": 9}.get(value)
        if code is None:
            ctx.fail(f"{what}: unknown text-decoration {value!r}")
        out.add(code)
    if props:
        ctx.fail(f"{what}: unknown CSS {props}")
    return out


def expected(cell, defaults):
    """What has to be visible for a model cell: (char, styles, text fill, rect fill)."""

    char, styles, fg, bg = cell
    text = fg[2:] if fg else defaults[0]
    back = bg[2:] if bg else defaults[1]
    if 7 in styles:
        text, back = back, text
    return char, set(styles) & {1, 2, 3, 4, 9}, hexed(text), hexed(back)


def displayed(e):
    """The characters a viewer shows for a text element: ordinary blanks collapse unless preserved."""

    text = e.text or ""
    if e.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve" or "white-space" in (e.get("style") or ""):
        return text
    return re.sub("[ \t\n]+", " ", text).strip(" ")


def check_svg(body, css, cells, font, origin, defaults, ctx, what):
    try:
        root = ET.fromstring(f"<svg>{body}</svg>") if isinstance(body, str) else body
    except ET.ParseError as exc:
        ctx.fail(f"{what}: not well-formed: {exc}: {body!r}")
    rules = parse_css(css, ctx)
    width = font * CHAR_WIDTH
    height = font * CHAR_HEIGHT
    seen = {}
    rects = {}
    offsets = {}
    usual = float(next(e for e in ET.fromstring(f"<svg>{Span('a').as_svg(font_size=font)}</svg>") if e.tag == "rect").get("y"))
    elements = [e for e in root]
    for e in elements:
        tag = e.tag.rpartition("}")[2]
        if tag == "rect":
            fill = e.get("fill") or ""
            if not re.fullmatch(r"#[0-9a-fA-F]{6}", fill):
                ctx.fail(f"{what}: rect fill {fill!r} is not a colour")
            x, y = float(e.get("x")) - origin[0], float(e.get("y")) - origin[1]
            rw, rh = float(e.get("width")), float(e.get("height"))
            row = round((y + 0.1 * font) / height)
            first = round(x / width)
            count = round((rw - 0.5) / width)
            if abs(x - first * width) > 0.02 * font + 0.01:
                ctx.fail(f"{what}: rect at x={x} is not on a cell boundary")
            # the rectangle covers its cells (it may be shifted up a little to match the baseline)
            if rh < height - 0.01 or abs(y - row * height) > 0.2 * font + 0.02:
                ctx.fail(f"{what}: rect at y={y} with height {rh} does not cover its row")
            if rw < count * width - 0.02:
                ctx.fail(f"{what}: rect of width {rw} does not cover its {count} cells")
            offsets[first, row] = y - row * height
            for k in range(count):
                rects[first + k, row] = fill.upper()
        elif tag == "text":
            fill = e.get("fill") or ""
            cls = e.get("class")
            props = rules.get(cls)
            if props is None:
                ctx.fail(f"{what}: class {cls!r} is not in the stylesheet")
            fill = props.get("fill", fill)
            if not re.fullmatch(r"#[0-9a-fA-F]{6}", fill):
                ctx.fail(f"{what}: text fill {fill!r} is not a colour")
            x, y = float(e.get("x")) - origin[0], float(e.get("y")) - origin[1] - font
            first, row = round(x / width), round(y / height)
            if abs(x - first * width) > 0.02 * font + 0.01 or abs(y - row * height) > 0.02 * font + 0.01:
                ctx.fail(f"{what}: text at {x},{y} is not on a cell boundary")
            styles = styles_of(props, ctx, what)
            shown = displayed(e)
            if (first, row) in offsets:
                # block characters are drawn from the very top of their cell, other text from a fixed offset
                want = 0 if all("\u2580" <= ch <= "\u259f" for ch in shown) else usual
                if abs(offsets[first, row] - want) > 0.03:
                    ctx.fail(f"{what}: rect of {shown!r} is shifted by {offsets[first, row]}, expected {want}")
            for k, ch in enumerate(shown):
                if (first + k, row) in seen:
                    ctx.fail(f"{what}: cell {(first + k, row)} has text twice")
                seen[first + k, row] = (ch.replace("\xa0", " "), styles, fill.upper())
        else:
            ctx.fail(f"{what}: unexpected element {tag}")
    for y, line in enumerate(cells):
        for x, cell in enumerate(line):
            char, styles, text, back = expected(cell, defaults)
            got = seen.pop((x, y), None)
            if got is None or got[0] != char:
                ctx.fail(f"{what}: cell {(x, y)} shows {got and got[0]!r}, expected {char!r}")
            if char != " " or styles & {4, 9}:
                if got[1] != styles:
                    ctx.fail(f"{what}: cell {(x, y)} ({char!r}) has styles {got[1]}, expected {styles}")
                if got[2] != text:
                    ctx.fail(f"{what}: cell {(x, y)} ({char!r}) has colour {got[2]}, expected {text}")
            if rects.get((x, y)) != back:
                ctx.fail(f"{what}: cell {(x, y)} ({char!r}) has background {rects.get((x, y))}, expected {back}")
    if seen:
        ctx.fail(f"{what}: text outside the screen: {seen}")


def export(screen, cells, setting, ctx, template=None):
    font, origin, d = SETTINGS[setting]
    defaults = DEFAULTS[d]
    kwargs = {"style_class_template": template} if template else {}
    body, css = screen.export_svg_with_styles(
        font_size=font, origin=origin, default_foreground=Color(defaults[0]),
        default_background=Color(defaults[1]), **kwargs)
    check_svg(body, css, cells, font, origin, defaults, ctx, "svg")
    if template:
        pattern = ".+".join(map(re.escape, template.split("{i}")))
        for name in re.findall(r"class='([^']*)'", body) + re.findall(r'class="([^"]*)"', body) + list(parse_css(css, ctx)):
            if not re.fullmatch(pattern, name):
                ctx.fail(f"class {name!r} does not follow the template {template!r}")


def run_case(case, ctx):
    kind, *rest = case
    ctx.sample(case)
    ctx.trace()
    if kind == "span":
        return run_span(WIDE[rest[0][0]], ctx)
    setting, data, *more = rest
    ctx.step(len(data) + 1)
    if kind == "ops":
        lab = Lab(ctx, 3, 2, checks="")
        for i in data:
            if more:  # exported in between, too
                export(lab.screen, lab.model.cells, setting, ctx)
            lab.apply(OPS[i])
        export(lab.screen, lab.model.cells, setting, ctx)
        lab.final()
        export(lab.screen, lab.model.cells, setting, ctx, TEMPLATES[sum(data) % len(TEMPLATES)])
        return None
    if kind == "terminal":
        lab = TermLab(ctx, 3, 2, checks="")
        for i in [None, *data]:
            if i is not None:
                lab.apply(OPS[i])
            lab.stream.take()
            document(lab.term, lab.model, setting, ctx)
        return None
    if kind == "many":
        count, look = data
        lab = Lab(ctx, 20, count // 20 + 1, checks="")
        spans = []
        for i in range(count):
            styles = [name for k, name in enumerate(("bold", "italic", "underline", "strike", "dim", "invert")) if i >> k & 1]
            spans.append((sp("x", styles), sp("x", styles, (i % 256, i // 256, 9)), sp(" x"[i % 2], styles[:1], None, (9, i % 256, i // 256)))[look])
        lab.apply(w(spans, (0, 0)))
        return export(lab.screen, lab.model.cells, setting, ctx)
    if kind == "long":
        width, at = data
        lab = Lab(ctx, width, 2, checks="")
        lab.apply(w([sp("x" * at, ["bold"], RED), sp("y" * (width - at), [], None, GREEN), sp("z" * (width - 1), ["italic"]), sp("e", [], BLUE, RED)], (0, 0)))
        return export(lab.screen, lab.model.cells, setting, ctx)
    if kind == "text":
        for styles in ([], ["bold"], ["invert"]):
            run_span(sp(data[0], styles, RED, GREEN), ctx)
        lab = Lab(ctx, 4, 1, checks="")
        lab.apply(w([sp(data[0], ["bold"])], (0, 0)))
        return export(lab.screen, lab.model.cells, setting, ctx)
    looks = LOOKS if kind != "doc" and max(data) < len(LOOKS) else WIDE
    if kind == "doc":
        return run_doc(setting, [WIDE[i] for i in data], ctx, *more)
    if kind == "row":
        lab = Lab(ctx, len(data) + 1, 1, checks="")
        lab.apply(w([looks[i] for i in data], (0, 0)))
    else:
        lab = Lab(ctx, 2, 2, checks="")
        lab.apply(w([looks[i] for i in data], (0, 0)))
    ctx.outcome(repr(lab.model.cells))
    export(lab.screen, lab.model.cells, setting, ctx)
    return None


def run_doc(d, looks, ctx, fill=None, font=15, size=(2, 2), answered=None):
    width, height = size
    set_size(width, height)
    term = answered_terminal(*answered) if answered else Terminal(stream=Stream())
    stream = term.stream
    background = tuple(answered[1]) if answered else (0x14, 0x14, 0x14)
    lab = Lab(ctx, width, height, checks="", background=background)
    spans = lab.cache.spans_of(looks)
    if fill is not None:
        term.clear(fill)
        lab.model.clear(fill)
    term.write(spans, cursor=(0, 0))
    lab.model.write(lab.cache.specs_of(looks), (0, 0), background)
    stream.take()
    document(term, lab.model, d, ctx, font, answered)


def document(term, model, d, ctx, font=15, answered=None):
    width, height = model.width, model.height
    defaults = DEFAULTS[d]
    if d:
        doc = term.export_svg(default_foreground=Color(defaults[0]), default_background=Color(defaults[1]), **({"font_size": font} if font != 15 else {}))
    else:
        defaults = tuple(map(tuple, answered)) if answered else (tuple(term.foreground_color.rgb), tuple(term.background_color.rgb))
        doc = term.export_svg(font_size=font)
    ctx.eq(term.stream.take(), "", "output of export_svg")
    try:
        root = ET.fromstring(doc)
    except ET.ParseError as exc:
        ctx.fail(f"document is not well-formed: {exc}")
    ns = "{http://www.w3.org/2000/svg}"
    if root.tag != ns + "svg":
        ctx.fail(f"root element is {root.tag}")
    style = root.find(ns + "style")
    group = root.find(ns + "g")
    rect = root.find(ns + "rect")
    if style is None or group is None or rect is None:
        ctx.fail("document lacks its stylesheet, background or screen")
    ctx.eq((rect.get("fill") or "").upper(), hexed(defaults[1]), "document background")
    shift = [float(v) for v in re.findall(r"[\d.]+", group.get("transform"))]
    for key, cells, unit in (("width", width, CHAR_WIDTH), ("height", height, CHAR_HEIGHT)):
        if float(root.get(key)) < cells * unit * font + shift[key == "height"]:
            ctx.fail(f"document {key} {root.get(key)} does not fit the screen")
        if float(rect.get(key)) < float(root.get(key)):
            ctx.fail(f"the document's background does not cover it: {key} {rect.get(key)} of {root.get(key)}")
    css = style.text
    start = css.index("}") + 1
    check_svg(group, css[start:], model.cells, font, (0, 0), defaults, ctx, "document")


def run_span(look, ctx):
    data = list(look)
    for text in (data[0], data[0] + "x y", "<" + data[0]):
        one = [text, *data[1:]]
        s = spec(one)
        span = to_span(s)
        for d, (fg, bg) in enumerate(DEFAULTS):
            for inline in (False, True):
                for origin in ((0, 0), (3.25, 8)):
                    ctx.step()
                    svg = span.as_svg(font_size=15, origin=origin, default_foreground=Color(fg),
                                      default_background=Color(bg), inline_styles=inline, cls="k")
                    if inline:
                        props = re.search(r"style='([^']*)'", svg)
                        if props is None:
                            ctx.fail(f"no inline style in {svg!r}")
                        css = ".k {" + props[1] + "}"
                    else:
                        css = ".k {" + ";".join(f"{k}:{v}" for k, v in span.get_svg_styles().items()) + "}"
                    cells = [[(ch, s.codes, (38, 2, *s.fg[:3]) if s.fg else None, (48, 2, *s.bg[:3]) if s.bg else None)
                              for ch in text]]
                    check_svg(svg, css, cells, 15, origin, (fg, bg), ctx, f"as_svg of {span!r}")
                    ctx.state((text, repr(look), d, inline, origin))
        bare = span.as_svg()
        try:
            ET.fromstring(f"<svg>{bare}</svg>")
        except ET.ParseError as exc:
            ctx.fail(f"as_svg of {span!r} is not well-formed: {exc}")
        if "class=" in bare or "style=" in bare:
            ctx.fail(f"as_svg of {span!r} has a class or style it was not given")
