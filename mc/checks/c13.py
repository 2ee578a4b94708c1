"""C13: every way of describing a colour yields the same colour, and round-trips."""

import itertools

from slate import Color, color

from mc.css import CSS, EXTRA, PALETTE, sgr_is_background, sgr_rgb
from mc.emu import parse_sgr

ID = "C13"
BOUNDS = {
    "quick": "all 256 palette indices and all 32 standard codes on both layers, all CSS names, every value of every channel "
             "in every notation, a 17^3 lattice of RGB values in all notations, every two-digit hex opacity and 12 decimal "
             "ones; all pairs of ~150 colours, neighbouring ones included, for equality and hashing; out-of-range values around every bound",
    "thorough": "as quick with a 41^3 lattice",
}
ALPHAS = ["0.0", "0.1", "0.25", "0.5", "0.75", "0.9", "1.0", "0.05", ".5", "0.333", "0.99", "0.6"]
VALUES = sorted({0, 1, 9, 10, 16, 35, 95, 99, 100, 127, 128, 170, 200, 245, 254, 255})


def lattice(n):
    steps = [round(i * 255 / (n - 1)) for i in range(n)]
    return itertools.product(steps, repeat=3)


def cases(tier):
    for i in range(256):
        yield ["index", i]
    for code in [*range(30, 38), *range(40, 48), *range(90, 98), *range(100, 108)]:
        yield ["standard", code]
    for name in [*CSS, *EXTRA]:
        yield ["name", name]
    for k in range(3):
        for v in range(256):
            rgb = [17, 34, 200]
            rgb[k] = v
            yield ["rgb", rgb]
    for v in range(256):
        yield ["hexalpha", v]
    for a in ALPHAS:
        yield ["alpha", a]
    for i in range(len(pool())):
        yield ["pair", i]
    for bad in BAD:
        yield ["bad", bad]
    for rgb in lattice(17 if tier == "quick" else 41):
        yield ["rgb", list(rgb)]


BAD = []
for value in (-1, 256, 300, 1000):
    for position in range(3):
        triple = [5, 6, 7]
        triple[position] = value
        BAD += [["tuple", triple], ["tuple4", triple]]
        if value > 0:
            BAD += [["str", f"38;2;{triple[0]};{triple[1]};{triple[2]}"], ["str", f"48;2;{triple[0]};{triple[1]};{triple[2]}"]]
for value in (256, 257, 999):
    BAD += [["str", f"38;5;{value}"], ["str", f"48;5;{value}"], ["str", str(value)]]
BAD += [["str", "39;2;1;2;3"], ["str", "38;3;1;2;3"], ["str", "49;2;1;2;3"], ["str", "notacolor"], ["str", "#gg0000"], ["str", ""]]
BAD += [["str", text] for text in ("#1122333", "#1122334455", "#112", "#", "#112233445", "#11223g", "#1122gg", "38;5;-1", "38;2;-1;2;3", "-1", "RED", "x;0.5", "#112233#")]


def check(c, rgb, alpha, background, ctx, what, exact=True):
    """The colour is what its description denotes, and its own forms describe it again."""

    rgb = tuple(rgb)
    ctx.step()
    ctx.state((rgb, alpha, background))
    ctx.eq(tuple(c.rgb), rgb, f"{what}: rgb")
    if abs(c.alpha - alpha) > 1e-9:
        ctx.fail(f"{what}: alpha {c.alpha}, expected {alpha}")
    ctx.eq(bool(c.is_background), background, f"{what}: background")
    ctx.eq(c.hex.upper(), "#%02X%02X%02X" % rgb, f"{what}: hex")
    again = color(c.hex)
    ctx.eq(tuple(again.rgb), rgb, f"{what}: rgb of its hex form")
    check_ansi(c, rgb, background, ctx, what)


def check_ansi(c, rgb, background, ctx, what):
    (_, fg, bg), err = parse_sgr(c.ansi, (frozenset(), None, None))
    code = bg if background else fg
    if err or code is None or (fg if background else bg) is not None:
        ctx.fail(f"{what}: emits {c.ansi!r}, which is not one colour of its layer")
    ctx.eq(tuple(sgr_rgb(code)), tuple(rgb), f"{what}: colour denoted by emitted {c.ansi!r}")
    back = color(c.ansi)
    ctx.eq((tuple(back.rgb), bool(back.is_background)), (tuple(rgb), background), f"{what}: its emitted code read again")


def derived(c, rgb, alpha, background, ctx, what):
    for layer in (True, False):
        check(c.as_background(layer), rgb, alpha, layer, ctx, f"{what}.as_background({layer})")
    check(c.as_background(), rgb, alpha, True, ctx, f"{what}.as_background()")
    for a in (0.0, 0.5, 1.0):
        check(c.as_alpha(a), rgb, a, background, ctx, f"{what}.as_alpha({a})")
        for layer in (True, False):
            check(c.as_background(layer, a), rgb, a, layer, ctx, f"{what}.as_background({layer}, {a})")
        check(c.as_alpha(a).as_background(not background), rgb, a, not background, ctx, f"{what}.as_alpha({a}).as_background")
    if alpha:
        for a in (alpha - 0.001, alpha - 0.004, alpha - 1e-6, alpha):
            check(c.as_alpha(a), rgb, a, background, ctx, f"{what}.as_alpha({a})")
            check(c.as_background(background, a), rgb, a, background, ctx, f"{what}.as_background({background}, {a})")
            check(c.as_alpha(a).as_alpha(alpha), rgb, alpha, background, ctx, f"{what}.as_alpha({a}).as_alpha({alpha})")
    for name, value in (("rgb", (1, 2, 3)), ("alpha", 0.25), ("is_background", not background), ("hex", "#010203")):
        try:
            setattr(c, name, value)
        except (AttributeError, TypeError):
            continue
        ctx.fail(f"{what}: its {name} can be changed")
    check(c, rgb, alpha, background, ctx, what + " after deriving")


def pool():
    rgbs = [(0, 0, 0), (255, 255, 255), (1, 2, 3), (1, 2, 4), (3, 2, 1), (170, 0, 0), (95, 95, 95), (0, 255, 0), (255, 0, 0)]
    out = []
    for rgb in rgbs:
        for layer in (False, True):
            for alpha in (1.0, 0.5, 0.0):
                out.append((rgb, alpha, lambda rgb=rgb, layer=layer, alpha=alpha: Color(rgb, is_background=layer, alpha=alpha)))
        out.append((rgb, 1.0, lambda rgb=rgb: color("#%02x%02x%02x" % rgb)))
        out.append((rgb, 1.0, lambda rgb=rgb: color("#%02X%02X%02XFF" % rgb)))
        out.append((rgb, 1.0, lambda rgb=rgb: color("38;2;%d;%d;%d" % rgb)))
        out.append((rgb, 0.5, lambda rgb=rgb: color((*rgb, 0.5))))
        out.append((rgb, 0.5, lambda rgb=rgb: color("48;2;%d;%d;%d;0.5" % rgb)))
        if rgb in PALETTE:
            n = PALETTE.index(rgb)
            m = len(PALETTE) - 1 - PALETTE[::-1].index(rgb)
            out.append((rgb, 1.0, lambda m=m: color(f"38;5;{m}")))
            out.append((rgb, 1.0, lambda m=m: color(str(m) if m > 107 else f"48;5;{m}")))
            if n < 8:
                out.append((rgb, 1.0, lambda n=n: color(str(30 + n))))
    # neighbours: colours that differ by as little as their description can express
    for k in range(3):
        for d in (1, -1):
            rgb = tuple(v + d * (i == k) for i, v in enumerate((95, 95, 95)))
            out.append((rgb, 1.0, lambda rgb=rgb: Color(rgb)))
            out.append((rgb, 0.5, lambda rgb=rgb: Color(rgb, is_background=True, alpha=0.5)))
    for alpha in (0.499, 0.501, 0.505, 0.51, 0.999, 0.9999999, 0.001, 0.0000001, 127 / 255, 128 / 255, 254 / 255, 1 / 255):
        for rgb in ((95, 95, 95), (0, 0, 0)):
            out.append((rgb, alpha, lambda rgb=rgb, alpha=alpha: Color(rgb, alpha=alpha)))
    out.append(((95, 95, 95), 127 / 255, lambda: color("#5f5f5f7f")))
    out.append(((95, 95, 95), 128 / 255, lambda: color("#5f5f5f80")))
    out.append(((95, 95, 95), 0.0, lambda: color("#5f5f5f00")))
    out.append(((0, 0, 0), 1.0, lambda: color("black")))
    out.append(((0, 255, 0), 1.0, lambda: color("lime")))
    out.append(((255, 255, 255), 1.0, Color.white))
    out.append(((255, 255, 255), 1.0, lambda: Color.white(True)))
    out.append(((0, 0, 0), 1.0, lambda: Color.black(is_background=True)))
    return out


def run_case(case, ctx):
    kind, data = case
    ctx.sample(case)
    ctx.trace()
    if kind == "index":
        rgb = PALETTE[data]
        for lead, background in (("38", False), ("48", True)):
            c = color(f"{lead};5;{data}")
            check(c, rgb, 1.0, background, ctx, f"{lead};5;{data}")
            derived(c, rgb, 1.0, background, ctx, f"{lead};5;{data}")
            check(color(f"{lead};5;{data};0.5"), rgb, 0.5, background, ctx, f"{lead};5;{data};0.5")
            check(Color.from_ansi(f"{lead};5;{data}"), rgb, 1.0, background, ctx, f"from_ansi {lead};5;{data}")
        if not (30 <= data < 38 or 40 <= data < 48 or 90 <= data < 98 or 100 <= data < 108):
            check(color(str(data)), rgb, 1.0, False, ctx, f"bare {data}")
    elif kind == "standard":
        background = sgr_is_background((data,))
        rgb = sgr_rgb((data,))
        c = color(str(data))
        check(c, rgb, 1.0, background, ctx, f"standard {data}")
        derived(c, rgb, 1.0, background, ctx, f"standard {data}")
        check(color(f"{data};0.25"), rgb, 0.25, background, ctx, f"standard {data};0.25")
    elif kind == "name":
        rgb = CSS.get(data) or EXTRA[data]
        check(color(data), rgb, 1.0, False, ctx, data)
        check(color(data + ";0.5"), rgb, 0.5, False, ctx, data + ";0.5")
    elif kind == "rgb":
        rgb = tuple(data)
        check(color(rgb), rgb, 1.0, False, ctx, f"{rgb}")
        check(Color(rgb), rgb, 1.0, False, ctx, f"Color{rgb}")
        check(Color(rgb, is_background=True), rgb, 1.0, True, ctx, f"Color{rgb} background")
        check(color((*rgb, 0.5)), rgb, 0.5, False, ctx, f"{rgb} with alpha")
        for form in ("#%02x%02x%02x", "#%02X%02X%02X"):
            check(color(form % rgb), rgb, 1.0, False, ctx, form % rgb)
            check(color(form % rgb + "80"), rgb, 128 / 255, False, ctx, form % rgb + "80")
            check(Color.from_hex(form % rgb), rgb, 1.0, False, ctx, "from_hex " + form % rgb)
        check(Color.from_hex("%02x%02x%02x" % rgb), rgb, 1.0, False, ctx, "from_hex without #")
        check(Color.from_hex("#%02x%02x%02x" % rgb, alpha=0.5), rgb, 0.5, False, ctx, "from_hex with alpha")
        for lead, background in (("38", False), ("48", True)):
            body = f"{lead};2;" + ";".join(map(str, rgb))
            check(color(body), rgb, 1.0, background, ctx, body)
            check(color(body + ";0.5"), rgb, 0.5, background, ctx, body + ";0.5")
            check(Color.from_ansi(body, alpha=0.5), rgb, 0.5, background, ctx, f"from_ansi {body} alpha")
            for alpha in ("0.0", "0.25", "1.0"):
                check(Color.from_ansi(f"{body};{alpha}"), rgb, float(alpha), background, ctx, f"from_ansi {body};{alpha}")
        derived(color(rgb), rgb, 1.0, False, ctx, f"{rgb}")
    elif kind == "hexalpha":
        for form in ("#0a141E%02x", "#0A141e%02X"):
            check(color(form % data), (10, 20, 30), data / 255, False, ctx, form % data)
    elif kind == "alpha":
        value = float(data)
        for body, rgb, background in (("red", (255, 0, 0), False), ("38;2;1;2;3", (1, 2, 3), False), ("48;5;9", PALETTE[9], True),
                                      ("97", PALETTE[15], False), ("104", PALETTE[12], True)):
            check(color(f"{body};{data}"), rgb, value, background, ctx, f"{body};{data}")
        check(color((4, 5, 6, value)), (4, 5, 6), value, False, ctx, f"tuple alpha {data}")
    elif kind == "pair":
        entries = pool()
        rgb, alpha, make = entries[data]
        first = make()
        for rgb2, alpha2, make2 in entries:
            second = make2()
            ctx.step()
            same = (rgb, alpha) == (rgb2, alpha2)
            ctx.outcome((rgb, alpha, rgb2, alpha2))
            ctx.eq(first == second, same, f"{first!r} == {second!r}")
            ctx.eq(first != second, not same, f"{first!r} != {second!r}")
            if same:
                ctx.eq(hash(first), hash(second), f"hashes of equal {first!r}")
                ctx.eq(len({first, second}), 1, f"set of equal {first!r}")
        for other in (None, rgb, 5, "x"):
            ctx.eq(first == other, False, f"{first!r} == {other!r}")
    elif kind == "bad":
        how, value = data
        ctx.step()
        try:
            if how == "tuple":
                c = color(tuple(value))
            elif how == "tuple4":
                c = color((*value, 0.5))
            else:
                c = color(value)
        except ValueError:
            return
        ctx.fail(f"{value!r} was accepted as a colour: {c!r}")
