"""C17: colour arithmetic stays in range and does what it says."""

import itertools
from colorsys import hls_to_rgb, rgb_to_hls
from fractions import Fraction

from slate import Color, color

ID = "C17"
BOUNDS = {
    "quick": "all ordered pairs of a 5^3 lattice x 20 fractions x both layers of both operands; lighten/darken by -4..12 steps of "
             "3 sizes on a 9^3 lattice; hue shifts by 22 amounts, complement and groups on an 11^3 lattice and on all colours one step away from grey, both layers; all "
             "orders of evaluation of the cached attributes of 14 colours",
    "thorough": "all ordered pairs of a 7^3 lattice; hue shifts on a 33^3 lattice; otherwise as quick",
}
ALPHAS = [0, 1, 0.5, 0.25, 0.1, 0.9, 0.75, 0.3333, 0.999, 0.01, 0.6, 0.0, 1.0, 1.5, 2, -0.5, 0.4999, 0.2499, 0.5001, 0.99999]
SHIFTS = [0, 0.5, 1 / 3, 2 / 3, 1 / 12, 1 / 6, 0.25, 0.75, 1, 1.5, -0.25, -1 / 3, 0.9, 0.01, 2, 0.1, -1, -1.25, -7.5, 3.75, 100.25, -0.001]


def steps(n):
    return [round(i * 255 / (n - 1)) for i in range(n)]


def lattice(n):
    return list(itertools.product(steps(n), repeat=3))


def cases(tier):
    n = 5 if tier == "quick" else 7
    for i in range(n ** 3):
        yield ["blend", n, i]
    for rgb in lattice(9):
        yield ["shade", list(rgb)]
    for rgb in lattice(11 if tier == "quick" else 33):
        yield ["hue", list(rgb)]
    for v in range(256):
        for rgb in ((v, v, v), (v, 0, 0), (0, v, 0), (0, 0, v), (255, v, v), (v, 255, v), (v, v, 255), (v, v, 0)):
            yield ["hue", list(rgb)]
    for v in range(1, 255):  # barely coloured
        for delta in itertools.product((-1, 0, 1), repeat=3):
            if len(set(delta)) > 1 and max(delta) == 1:
                yield ["hue", [v + d for d in delta]]
    for i in range(len(BASES)):
        for order in itertools.permutations(range(5)):
            yield ["order", i, list(order)]


def mix(a, b, alpha):
    """Channel of a blend: (least, most), as truncation of a value computed in floating point."""

    exact = Fraction(a) + Fraction(b - a) * Fraction(alpha)
    low = exact - Fraction(1, 10 ** 9)
    high = exact + Fraction(1, 10 ** 9)
    # truncation
    return tuple(min(max(int(v), 0), 255) for v in (low, high))


def check_blend(c, a, b, alpha, background, ctx, what):
    for got, x, y in zip(c.rgb, a, b):
        low, high = mix(x, y, alpha)
        if not (isinstance(got, int) and low <= got <= high):
            ctx.fail(f"{what}: got {c.rgb}")
        if 0 <= alpha <= 1 and not min(x, y) <= got <= max(x, y):
            ctx.fail(f"{what}: {c.rgb} is not between {a} and {b}")
    ctx.eq(bool(c.is_background), background, f"{what}: background")
    ctx.eq(c.alpha, 1.0, f"{what}: alpha")


def run_case(case, ctx):
    kind, *rest = case
    ctx.sample(case)
    ctx.trace()
    if kind == "blend":
        n, i = rest
        points = lattice(n)
        a = points[i]
        for j, b in enumerate(points):
            first_bg, second_bg = bool((i + j) % 2), bool((i // 2 + j) % 2)
            first, second = Color(a, is_background=first_bg), Color(b, is_background=second_bg)
            for alpha in ALPHAS:
                ctx.step()
                what = f"{a} blended with {b} by {alpha}"
                check_blend(first.blend(second, alpha), a, b, alpha, first_bg, ctx, what)
            check_blend(first.blend(second, 0.5, is_background=not first_bg), a, b, 0.5, not first_bg, ctx, f"{a} blend {b} layer given")
            check_blend(first.blend(second, alpha=0.5, is_background=first_bg), a, b, 0.5, first_bg, ctx, f"{a} blend {b} layer given")
            # the same blend on the other layers, in this order
            other = Color(a, is_background=not first_bg)
            check_blend(other.blend(second, 0.5), a, b, 0.5, not first_bg, ctx, f"{a} blended with {b} on the other layer")
            check_blend(first.blend(second, 0.5), a, b, 0.5, first_bg, ctx, f"{a} blended with {b} again")
            ctx.eq((tuple(first.rgb), first.is_background, tuple(second.rgb), second.is_background),
                   (a, first_bg, b, second_bg), "operands after a blend")
            ctx.state((a, b))
    elif kind == "shade":
        rgb = tuple(rest[0])
        for layer in (False, True):
            c = Color(rgb, is_background=layer)
            for count in range(-4, 13):
                for size in (None, 0.05, 0.2):
                    args = () if size is None else (size,)
                    amount = count * (0.1 if size is None else size)
                    ctx.step(2)
                    for name, target in (("lighten", (255,) * 3), ("darken", (0,) * 3)):
                        got = getattr(c, name)(count, *args)
                        what = f"{rgb}.{name}{(count, *args)}"
                        for g, x, y in zip(got.rgb, rgb, target):
                            low, high = mix(x, y, amount)
                            if not min(low, high) <= g <= max(low, high):
                                ctx.fail(f"{what}: {got.rgb}")
                        ctx.eq(bool(got.is_background), layer, what + ": background")
            ctx.eq(tuple(c.rgb), rgb, "operand after shading")
        ctx.state(rgb)
    elif kind == "hue":
        hue(tuple(rest[0]), ctx)
    else:
        order(rest[0], rest[1], ctx)


def shifted_ok(got, rgb, amount, ctx, what, background):
    """`got` is `rgb` with its hue turned, up to rounding of one step per channel (plus the scale)."""

    h, l, s = rgb_to_hls(*(v / 255 for v in rgb))
    want = hls_to_rgb((h + amount) % 1, l, s)
    for g, v in zip(got.rgb, want):
        if not isinstance(g, int) or abs(g - 255 * v) > 2.5:
            ctx.fail(f"{what}: got {got.rgb}, expected about {tuple(round(255 * x, 1) for x in want)}")
    ctx.eq(bool(got.is_background), background, f"{what}: background")
    ctx.eq(got.alpha, 1.0, f"{what}: alpha")


def hue(rgb, ctx):
    grey = len(set(rgb)) == 1
    ctx.state(rgb)
    for layer in (False, True):
        c = Color(rgb, is_background=layer)
        for amount in SHIFTS:
            ctx.step()
            shifted_ok(c.hue_shift(amount), rgb, amount, ctx, f"{rgb}.hue_shift({amount})", layer)
        comp = c.complement
        if grey:
            ctx.eq(tuple(comp.rgb), (255,) * 3 if rgb == (0, 0, 0) else (0,) * 3, f"complement of {rgb}")
            ctx.eq(bool(comp.is_background), layer, f"complement of {rgb}: background")
        else:
            shifted_ok(comp, rgb, 0.5, ctx, f"complement of {rgb}", layer)
        groups = {"triadic_group": (1 / 3, 2 / 3), "analogous_group": (1 / 12, 2 / 12), "tetradic_group": (1 / 4, None, 3 / 4)}
        for name, amounts in groups.items():
            group = getattr(c, name)
            ctx.eq(len(group), 1 + len(amounts), f"{name} of {rgb}")
            if group[0] != c or group[0].is_background != layer:
                ctx.fail(f"{name} of {rgb} does not start with it")
            for member, amount in zip(group[1:], amounts):
                if amount is None:
                    ctx.eq((tuple(member.rgb), member.is_background), (tuple(comp.rgb), comp.is_background), f"{name} of {rgb}: complement")
                else:
                    shifted_ok(member, rgb, amount, ctx, f"{name} of {rgb} by {amount}", layer)
        for alpha in (0, 0.3, 0.5, 0.7, 1):
            check_blend(c.blend_complement(alpha), rgb, tuple(comp.rgb), alpha, layer, ctx, f"{rgb}.blend_complement({alpha})")
        ctx.eq((tuple(c.rgb), c.is_background, c.alpha), (rgb, layer, 1.0), "operand afterwards")
        ctx.outcome(tuple(comp.rgb))


BASES = [lambda: Color((200, 30, 90)), lambda: Color((200, 30, 90), is_background=True), lambda: color("tomato"),
         lambda: color("48;5;99"), lambda: color("31"), lambda: Color((128, 128, 128)), lambda: Color((0, 0, 0)),
         lambda: Color((255, 0, 0), is_background=True), lambda: color((10, 20, 30, 0.5)), lambda: color("#0000ff"),
         lambda: Color.white(), lambda: color("44"), lambda: Color((1, 0, 0)), lambda: Color((0, 255, 254))]


def order(i, sequence, ctx):
    """Evaluating the derived attributes in any order, twice, on an equal colour of the other layer too."""

    names = ["complement", "triadic_group", "analogous_group", "tetradic_group", "contrast"]

    def plain(value):
        return [(tuple(v.rgb), bool(v.is_background), v.alpha) for v in (value if isinstance(value, tuple) else (value,))]

    reference = {name: plain(getattr(BASES[i](), name)) for name in names}
    c = BASES[i]()
    twin = c.as_background(not c.is_background)
    for _ in range(2):
        for k in sequence:
            ctx.step()
            ctx.eq(plain(getattr(c, names[k])), reference[names[k]], f"{names[k]} of {c!r}")
            got = plain(getattr(twin, names[k]))
            ctx.eq({layer for _, layer, _ in got}, {bool(twin.is_background)}, f"layer of {names[k]} of {twin!r}")
