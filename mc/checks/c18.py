"""C18: the contrast colour is readable on every base colour."""

import itertools

from slate import Color
from slate.color import calculate_contrast

ID = "C18"
BOUNDS = {
    "quick": "a 48^3 lattice of RGB values, all greys and pure ramps, both layers, default and custom dark/light colours",
    "thorough": "all 2^24 RGB values (default colours), otherwise as quick",
}
N = 48
STEPS = [round(i * 255 / (N - 1)) for i in range(N)]
LIN = [(v / 255) / 12.92 if v / 255 <= 0.04045 else ((v / 255 + 0.055) / 1.055) ** 2.4 for v in range(256)]
DARK, LIGHT = (35, 35, 35), (245, 245, 245)


def lum(rgb):
    return 0.2126 * LIN[rgb[0]] + 0.7152 * LIN[rgb[1]] + 0.0722 * LIN[rgb[2]]


LUM_DARK, LUM_LIGHT = lum(DARK), lum(LIGHT)


def cases(tier):
    yield ["ramps"]
    for r in STEPS:
        for half in (0, 1):
            yield ["lattice", r, half]
    if tier == "thorough":
        for r in range(256):
            for g in range(0, 256, 4):
                yield ["full", r, g]


def check(rgb, background, ctx, custom, alpha=1.0):
    c = Color(rgb, is_background=background, alpha=alpha)
    value = lum(rgb)
    if abs(c.luminance - value) > 1e-9:
        ctx.fail(f"luminance of {rgb} is {c.luminance}, expected {value}")
    got = c.contrast
    result = tuple(got.rgb)
    if abs(value - 0.179) > 1e-9 and result != (DARK if value > 0.179 else LIGHT):
        ctx.fail(f"contrast of {rgb} (luminance {value:.4f}) is {result}")
    other = lum(result)
    ratio = (max(value, other) + 0.05) / (min(value, other) + 0.05)
    if ratio < 3:
        ctx.fail(f"contrast of {rgb} is {result} with a ratio of {ratio:.2f}")
    if got.is_background != background or got.alpha != 1.0:
        ctx.fail(f"contrast of {rgb} is on the wrong layer or translucent")
    if custom:
        white, black = Color((250, 240, 230)), Color((3, 4, 5), is_background=True)
        grey = Color((128, 128, 128), alpha=0.5)
        for kwargs in ({"white": white}, {"black": black}, {"white": white, "black": black}, {"white": black}, {"black": white}, {"white": black, "black": white},
                       {"white": grey}, {"black": grey}, {"white": c}, {"black": c}, {"white": c, "black": c}):
            if len(kwargs) == 2:
                ctx.eq(tuple(calculate_contrast(c, kwargs["white"], kwargs["black"]).rgb), tuple(calculate_contrast(c, **kwargs).rgb), "contrast by position")
            got = calculate_contrast(c, **kwargs)
            if value > 0.179:
                want = tuple(kwargs["black"].rgb) if "black" in kwargs else DARK
            else:
                want = tuple(kwargs["white"].rgb) if "white" in kwargs else LIGHT
            if abs(value - 0.179) > 1e-9 and tuple(got.rgb) != want:
                ctx.fail(f"contrast of {rgb} with {kwargs} is {got.rgb}, expected {want}")
            if got.is_background != background:
                ctx.fail(f"contrast of {rgb} with {kwargs} is on the wrong layer")
    ctx.step()
    ctx.trace()
    ctx.outcome(result)
    if len(ctx.states) < 300000:
        ctx.state((rgb, background))


def run_case(case, ctx):
    kind, *rest = case
    ctx.sample(case)
    if kind == "ramps":
        for v in range(256):
            for mask in itertools.product((0, 1), repeat=3):
                rgb = tuple(v * m for m in mask)
                for layer in (False, True):
                    check(rgb, layer, ctx, True)
                    check(rgb, layer, ctx, True, 0.5)
                check(tuple(255 - x for x in rgb), False, ctx, True)
    elif kind == "lattice":
        r, half = rest
        for g in STEPS[half::2]:
            for b in STEPS:
                check((r, g, b), bool((g + b) % 2), ctx, (g ^ b) % 8 == 0)
    else:
        for g in range(rest[1], rest[1] + 4):
            for b in range(256):
                check((rest[0], g, b), False, ctx, False)
