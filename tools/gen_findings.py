"""Writes /verif/known_findings.txt. Run by hand; the checks only read the file."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # (property, beginning of the commit's subject, what failed)
 ("C28", "stop Terminal.draw writing", "every draw created screen.txt in the working directory"),
 ("C02", "honour force_overwrite", "force_overwrite was ignored: a forced identical write repainted and counted nothing"),
 ("C08", "accept strings in Terminal.write_bulk", "write_bulk with a string entry raised AttributeError"),
 ("C01", "keep colours and reset styles", "a full redraw lost colours and leaked styles into the following cells"),
 ("C01", "draw the kept content after Screen.resize", "content kept by a resize was not drawn by the next draw"),
 ("C04", "write at the cursor when no position", "a write without a position went to (0, 0) and the cursor never moved"),
 ("C03", "recognise newlines in styled spans", "a newline inside a styled span took a cell"),
 ("C05", "scroll correctly when writing below", "writing below the last row lost rows, crashed or scrolled the wrong distance"),
 ("C07", "drop translucent layers that are later", "a translucent layer overwritten by an opaque entry still tinted the cell"),
 ("C07", "use a background color as the default", "cells over the default terminal background were tinted with a foreground colour"),
 ("C07", "blend translucent layers onto the terminal", "the lowest translucent layer was taken as opaque"),
 ("C07", "blend translucent foregrounds", "a translucent foreground was drawn opaque"),
 ("C07", "only tint text by the layers", "text was tinted by layers painted below it"),
 ("C27", "allow resize listeners to query", "a resize listener that queried the size recursed without end"),
 ("C23", "put back the previous echo setting", "querying the default colours (or leaving no_echo) turned echoing on when it was off before"),
 ("C25", "restore the terminal's title exactly", "resetting the title popped a title that was never pushed; the empty title was pushed twice"),
 ("C24", "use the right sequences to begin and end", "batch() sent sequences no terminal knows"),
 ("C09", "parse whole strings in Span.yield_from", "text before the first sequence was dropped and resets were not seen"),
 ("C09", "parse the codes that unset conceal", "SGR 28/29/26 raised ValueError"),
 ("C09", "parse the opaque style", "the rendered form of an opaque span could not be parsed"),
 ("C09", "parse the alpha value of colors in", "rendered translucent colours could not be parsed"),
 ("C09", "parse the alpha value of standard colors", "rendered translucent standard colours could not be parsed"),
 ("C09", "unset fast blink along with blink", "SGR 25 left fast blink on"),
 ("C10", "keep the style of the last character", "without reset_after the last of get_characters lost its style"),
 ("C10", "keep reset_after in spans derived", "derived spans lost reset_after=False"),
 ("C10", "return a new list from Span.get_characters", "changing the returned list changed later results"),
 ("C12", "compare colors when grouping", "neighbouring cells of different colours were merged"),
 ("C12", "export valid background, inline style", "invalid background fill, style attribute and strike in SVGs"),
 ("C12", "export all text decorations", "underline was lost on struck text in SVGs"),
 ("C13", "emit a color sequence for colors made from a bare", "a colour made from a palette index emitted no colour sequence"),
 ("C13", "make a foreground color from the bare palette index 48", "palette index 48 gave a background colour"),
 ("C13", "hash equal colors equally", "equal colours had different hashes"),
 ("C14", "convert the standard colors to greyscale", "standard colours were emitted in colour under NO_COLOR"),
 ("C14", "emit colors in the color space that is currently", "a colour kept the code of the colour space it was first used in"),
 ("C14", "draw changes in the color space", "pending changes were drawn in the colour space they were written in"),
 ("C17", "calculate the complement of reds", "the complement of red raised ZeroDivisionError or was white"),
 ("C19", "only parse mouse events as such", "query replies and text with semicolons were reported as mouse events or raised"),
 ("C20", "swap the names of the home and end", "home was called end and the other way round"),
 ("C13", "honour the alpha given to Color.as_background", "the alpha given to as_background was ignored if 0 or if the layer was the same"),
 ("C21", "make very short timeouts time out", "a timed read of 0 s never ended; one of a few microseconds raised an internal exception"),
 ("C20", "keep an incomplete character from garbling", "an incomplete character made of everything typed after it unreadable text"),
 ("C20", "keep input that arrives between getch", "input typed between two reads was discarded"),
 ("C22", "keep all text given to feed", "a second feed before a read overwrote the first; feeding while reading lost text"),
 ("C21", "put back the previous SIGALRM handler", "the application's SIGALRM handler was replaced for good by a timed read"),
 ("C23", "keep replies to terminal queries from being displayed", "a reply to the pixel size or synchronized-update query that came before reading began was echoed to the screen"),
 ("C09", "accept leading zeroes in styling", "sequences with leading zeroes (01;34 as printed by GNU ls) raised ValueError, coloured the wrong layer or nothing"),
]
MIXED = [("a\x1b[<0;1;1M", "mouse:left_click@1;1"), ("ab\x1b[<35;7;8M", "mouse:hover@7;8"), ("\x1b[A\x1b[<0;1;1M", "mouse:left_click@1;1"),
         ("é\x1b[<64;5;5M", "mouse:scroll_up@5;5"), ("\x1b[<0;1;1M\x1b[<0;1;1m", "mouse:left_release@1;1"),
         ("\x1b[<35;1;1M\x1b[<35;2;1M", "mouse:hover@2;1")]

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixes = [line.partition(" ") for line in log if " fix: " in line]
lines = ["# Genuine defects of shade40/Slate. 'finding:' lines are recorded, not repaired; the check prints them and goes on.",
         "# 'fixed:' lines are repaired in /repo and suppress nothing."]
for text, event in MIXED:
    lines.append("finding: " + json.dumps({
        "property": "C20",
        "message": f"typing {text!r} at once, named reads returned {[event]!r}",
        "what": f"input before a mouse report in the same read is dropped: typing {text!r} at once returns only {event!r}"}, ensure_ascii=True))
for layer in ("10", "11"):
    lines.append("finding: " + json.dumps({
        "property": "C23",
        "message": f"no reply to the default colour query {layer}: the query never returns",
        "what": f"get_default_color({layer!r}) has no time limit: on a terminal that does not reply it waits until a key is pressed"}))
used = set()
for pid, subject, what in FIXED:
    found = [f for f in fixes if f[2].startswith("fix: " + subject)]
    assert len(found) == 1, (subject, found)
    used.add(found[0][0])
    lines.append(f"fixed: property={pid} {found[0][0]} {what}")
assert len(used) == len(fixes), [f for f in fixes if f[0] not in used]
with open(os.path.join(HERE, "known_findings.txt"), "w", encoding="utf-8") as f:
    f.write("\n".join(lines) + "\n")
