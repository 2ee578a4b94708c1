"""Writes /verif/properties.jsonl (one property per line). Run by hand after editing."""
import json, os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


SCR, SPN, TRM, COR, COL, EVT, KEY = (f"slate/{n}.py" for n in
    ("screen", "span", "terminal", "core", "color", "event", "key_names"))

prop("C01", "After a draw the terminal shows exactly the screen's content",
 "After any history of writes, bulk writes, clears, resizes and scrolling, every draw (incremental or full redraw, at any origin) leaves a terminal that interprets the emitted bytes showing, in every cell of the screen, exactly the character, foreground, background and text styles that the history put there. Nothing outside the screen's area is painted, no style leaks from one cell into another, and the result does not depend on how many draws happened in between or on which of them were full redraws.",
 ["histories", "inputs"], "every interleaving of write / bulk write / clear / resize / draw / redraw, on every screen geometry",
 "The tests make one render of a fresh screen and one redraw; desynchronisation between the diff buffer and the cells needs a particular sequence (write, resize, draw).",
 [SCR, TRM], [("ChangeBuffer diffing", SCR), ("Screen.render", SCR), ("Screen.resize", SCR), ("Terminal.draw", TRM)],
 [("_cells", "logical content", SCR), ("_change_buffer", "cells to paint at the next draw", SCR)],
 ["the byte stream written by Terminal.draw / returned by Screen.render"])

prop("C02", "Draws paint only changed cells and change counts are exact",
 "An incremental draw paints each cell at most once, and paints a cell only if a write changed it (or was forced) since the previous draw, or a clear or resize invalidated the screen; a draw with nothing pending paints nothing. A write returns exactly the number of cells whose content it changed, so repeating an identical write returns 0 and paints nothing, while a forced write returns and repaints every cell it touched.",
 ["histories", "inputs"], "every history of writes, forced writes, bulk writes, clears, resizes and draws",
 "One test counts changes for three writes; the minimality of every later draw after every history is not sampled.",
 [SCR, TRM], [("cell comparison in write_bulk", SCR), ("ChangeBuffer.clear on render", SCR)],
 [("_change_buffer", "cells to paint at the next draw", SCR)], ["return value of write / write_bulk", "byte stream of draw"])

prop("C03", "Written text lands in exactly the right cells (wrap, newline, clip)",
 "Text written at a position fills consecutive cells of that row left to right across all of its spans, continues at column 0 of the next row after the last column, moves one row down in the same column without using a cell at a newline, and is cut off after the last row; a write that starts left, right or above the screen changes nothing. Every cell the text does not reach keeps its previous content, and each reached cell carries the style and colours of the span its character came from (white where no foreground was given).",
 ["inputs", "histories"], "every start position in and around the screen, every text length and newline position, every split into spans, over every previous content",
 "The wrap/clip tests that exist fail at this commit, and would sample three positions on one geometry.",
 [SCR, SPN, TRM], [("placement loop in Screen.write_bulk", SCR), ("Span.get_characters", SPN)],
 [("_cells", "logical content", SCR)], ["screen content after each write"])

prop("C04", "The cursor follows every write and is where the next write goes",
 "A write without an explicit position starts at the cursor, and every write (explicit or not, wrapped, clipped, multi-span, bulk) leaves the cursor just after the last character placed, i.e. where the following character would have gone. Assigning the cursor moves it exactly there, clearing moves it to the top-left corner, and drawing or resizing never moves it.",
 ["histories", "inputs"], "every sequence of positioned and unpositioned writes, cursor assignments, clears, draws and resizes",
 "The existing cursor tests fail at this commit and cover two steps.",
 [SCR, TRM], [("Screen.write default position", SCR), ("cursor update in write_bulk", SCR), ("Terminal.cursor", TRM)],
 [("cursor", "next write position", SCR)], ["Terminal.cursor / Screen.cursor", "where unpositioned text appears"])

prop("C05", "Writing below the last row scrolls exactly as far as needed",
 "A write that starts below the last visible row first scrolls the content up by exactly as many rows as are needed for that row to become the last one, filling with blank rows; rows scrolled off are gone and all others keep their content. From then on positions keep counting from the first row since the last clear, for writes inside the same bulk as well as later ones, and the next draw shows the scrolled screen. Writing never changes the spans that were written: the same span written again behaves identically.",
 ["histories", "inputs"], "every sequence of writes at rows on, above and below the visible area, single and multi span, alone and in bulks",
 "No test scrolls at all.",
 [SCR], [("scroll handling in write_bulk", SCR), ("Screen.render", SCR)],
 [("_scrollback_offset", "rows scrolled off since the last clear", SCR)], ["screen content and byte stream after each write/draw"])

prop("C06", "Resizing keeps the overlapping content; clearing erases everything",
 "After any resize every cell inside both the old and the new area keeps its character, style and colours, every other cell of the new area is blank, and writes use the new dimensions. After a clear every cell is exactly the fill character with no style or colour, and content from before a clear or outside a shrunk screen never reappears.",
 ["histories", "inputs"], "every sequence of writes, clears and resizes over all small sizes",
 "The only passing test checks a clear of a fresh screen.",
 [SCR], [("Screen.resize", SCR), ("Screen.clear", SCR)], [("_cells", "logical content", SCR), ("width/height", "screen size", SCR)],
 ["screen content after each operation"])

prop("C07", "Translucent layers in a bulk composite in paint order",
 "Within one bulk write, a span with a translucent background tints what the earlier entries left in that cell towards its colour by its opacity plus a 0.1 boost (at most 1), starting from the terminal background where nothing opaque lies beneath, in paint order, consecutive identical layers counting once; its blanks let the character, style and (tinted) foreground below show through unless the span is marked opaque. An opaque or background-less write replaces the cell completely, leaving no trace of earlier layers. A translucent foreground is mixed over its own background by its opacity, and backgrounds always come out as backgrounds, foregrounds as foregrounds.",
 ["inputs", "histories"], "every stack of up to N layers of blank/text spans with absent, opaque and translucent colours",
 "The one opacity test fails at this commit; compositing order and stale layers need specific stacks.",
 [SCR, COL], [("alpha stack in write_bulk", SCR), ("_get_blended", SCR), ("Color.blend", COL)], [],
 ["colours of each cell in the emitted byte stream"])

prop("C08", "A bulk write equals the same writes done one by one",
 "For entries without translucent colours, one bulk write leaves the same screen content, cursor and scroll position as writing its entries one after another in order, later entries winning where they overlap. Its return value counts each cell that ends up different at most once, and entries given as styled strings equal the same entries given as spans.",
 ["inputs", "histories"], "every list of up to N overlapping, wrapping, clipped or scrolling entries over every previous content",
 "No test calls the bulk API.",
 [SCR, TRM], [("write_matrix culling", SCR), ("Terminal.write_bulk", TRM)], [], ["screen content, cursor and return value"])

prop("C09", "Parsing a styled string agrees with how a terminal displays it",
 "Splitting any string of text and SGR styling sequences into spans yields all of its visible text in order, each character carrying exactly the styles, foreground and background a terminal would show for it, including resets (explicit or empty), attribute-off codes, colour-off codes, several sequences in a row, text before the first sequence and styles carried over. In particular rendering spans (without hyperlinks) to a string and parsing it back preserves every character and its styling, the opaque mark included; leading zeroes in codes change nothing; a colour followed by a fractional parameter (0.5) has that opacity; an unknown code raises ValueError.",
 ["inputs", "programs"], "every string over the alphabet of text and SGR sequences up to the bound, and every rendered list of spans",
 "The tests parse eight hand-written strings, none with a reset or with leading plain text.",
 [SPN, COL], [("Span.yield_from", SPN), ("_parse_sequence", SPN), ("Color.from_ansi", COL)], [],
 ["spans produced by Span.yield_from", "content of terminal.write(str)"])

prop("C10", "Spans are immutable values: derived spans keep text and all styling",
 "Slicing, indexing, splitting, restyling and copying a span give new spans with exactly the corresponding text and every other attribute (all styles, both colours, hyperlink, reset behaviour) unchanged, never alter the original, and equal spans hash equally. Splitting a span into its characters gives one entry per character which, printed in order, displays like the span (without colours when those are excluded), every time it is asked, whatever callers did with earlier results.",
 ["inputs", "histories"], "every combination of styles, colours, flags and texts, and every chain of derivations",
 "Tests cover one style at a time and one slice; attribute loss needs particular attribute combinations.",
 [SPN], [("Span.mutate", SPN), ("Span.__getitem__", SPN), ("Span.get_characters", SPN), ("Span.attrs", SPN)], [],
 ["attributes, str() and characters of derived spans"])

prop("C11", "Visible width counts exactly the visible characters",
 "The reported width of a span is the length of its text, and the reported width of any string made of text, styling and cursor-position sequences, hyperlinks and graphics sequences is the number of characters outside those sequences. Hence the width of a rendered span equals the width of the span, and widths add up under concatenation.",
 ["inputs"], "every concatenation of text and sequences up to the bound",
 "One styled string is measured.", [COR, SPN], [("width", COR), ("RE_ANSI", COR), ("Span.__len__", SPN)], [],
 ["return value of width()"])

prop("C12", "SVG export shows every cell with its text, colours and styles",
 "The exported SVG is well-formed and contains, for every cell of the screen, its character at that cell's position over a background rectangle, with the cell's colours (or the given defaults, swapped for inverted text) as valid fill colours and its bold/italic/underline/strike/dim styling through a class (named after the template, if one is given) defined in the stylesheet. A whole document uses the given default colours or else those of the terminal. Neighbouring cells are merged only when their styling and colours are identical, so no cell takes on another cell's look.",
 ["histories", "inputs"], "every row content over an alphabet of characters (including markup-significant ones), styles and colours, on fresh, written, cleared and scrolled screens",
 "Nothing tests the SVG export.",
 [SCR, SPN, TRM], [("Span.group", SPN), ("Span.as_svg", SPN), ("Screen.export_svg_with_styles", SCR), ("Terminal.export_svg", TRM)], [],
 ["parsed SVG document"])

prop("C13", "Every way of describing a colour yields the same colour, and round-trips",
 "A colour described as a tuple, hex string, CSS name, true-colour, 256-colour or 16-colour code has exactly the RGB value, opacity and layer that description denotes, its hex form describes it again, and on a true-colour terminal its emitted code is a valid colour code for its layer that denotes the same colour. Colours cannot be changed; asking for another layer or opacity gives a colour that differs in just that. Two colours are equal exactly when RGB and opacity agree and equal colours hash equally; components outside 0-255 and indices outside the palette are rejected with ValueError.",
 ["inputs"], "all palette indices and 16-colour codes, all CSS names, all channel values, all opacity spellings",
 "Four codes are sampled.", [COL, "slate/color_info.py"], [("Color.from_ansi", COL), ("Color.from_hex", COL), ("color()", COL), ("Color.__eq__", COL)], [],
 ["rgb/alpha/hex/ansi of colours"])

prop("C14", "Emitted colours always fit the colour space in force",
 "Whatever colours exist and however the colour space of the library's terminal (`slate.terminal`) was changed before, the code emitted for a colour (alone, in a newly created span, or drawn by the screen) is legal in the colour space in force at that moment: grey ramp only under no-colour, the 16 standard codes under standard, palette or standard codes under eight-bit, anything under true-colour. A colour given as a palette code is emitted as that same palette entry wherever the colour space has it. The code addresses the colour's own layer and is the same as for a freshly made equal colour; changing the colour space notifies every listener with the new value (in force by then), and removing the override returns to the detected one.",
 ["histories", "configurations", "inputs"], "every sequence of colour-space changes interleaved with colour creation, reuse and drawing",
 "One test sets the colour space once and never emits a colour.",
 [COL, TRM, COR], [("Color.ansi", COL), ("Terminal.color_space", TRM), ("ColorSpace ordering", COR)],
 [("_forced_color_space", "override", TRM)], ["Color.ansi", "byte stream of draw"])

prop("C15", "Downgraded colours are the right approximation",
 "For every RGB colour, the 16-colour code emitted on a standard terminal is the palette entry closest to it under the red-mean colour distance, the 256-colour code is the colour-cube entry whose channels are each the nearest of six even steps, and the no-colour code is the grey-ramp step matching the colour's perceived (CIE) lightness. Consequently black and white map to the extremes, brighter greys never get a darker step, and palette colours map to themselves on a standard terminal.",
 ["inputs"], "all RGB values (a dense lattice in quick runs, all 2^24 in the thorough run)",
 "No test downgrades a colour.", [COL, "slate/color_info.py"], [("Color.ansi", COL), ("geometric_difference", COL), ("calculate_luminance / calculate_brightness", COL)], [],
 ["Color.ansi in each colour space"])

prop("C16", "Colour space detection follows the environment's precedence",
 "The detected colour space depends only on the environment: an explicit override variable wins (any letter case), then the no-colour variable being set at all, then the advertised colour depth (true colour for 24bit/truecolor, eight-bit for 256color) with the terminal name's suffix used only when no depth is advertised, else standard. Colour spaces are totally ordered standard < no-colour < eight-bit < true-colour and compare equal to their names.",
 ["configurations"], "every combination of values of the four environment variables",
 "Four combinations are sampled.", [COR], [("get_color_space", COR), ("ColorSpace.__gt__/__ge__/__eq__", COR)], [],
 ["get_color_space() / Terminal.color_space"])

prop("C17", "Colour arithmetic stays in range and does what it says",
 "Blending moves each channel from the first colour towards the second by the given fraction (truncated to an integer, clamped to 0-255): fraction 0 is the first colour, 1 the second, anything between lies between them; lightening and darkening are blends towards white and black. Hue shifting rotates the hue by the given turn fraction modulo one, keeping lightness and saturation up to rounding; the complement is the half turn (greys: white for black, black otherwise) and the colour groups are the base followed by the documented rotations. All of these keep the colour's layer and never alter their operands.",
 ["inputs"], "all pairs from a lattice of colours x all fractions on a grid x both layers, in every order of evaluation",
 "Two lighten/darken values are sampled.", [COL], [("Color.blend", COL), ("Color.hue_shift", COL), ("Color.complement", COL), ("groups", COL)], [],
 ["rgb and layer of results"])

prop("C18", "The contrast colour is readable on every base colour",
 "For every colour, its contrast colour is the near-black on bases whose W3C relative luminance exceeds 0.179 and the near-white otherwise, on the base's layer, and its W3C contrast ratio against the base is at least 3:1. Custom dark/light colours, when supplied, are used in the same way.",
 ["inputs"], "all RGB values (lattice in quick runs, all 2^24 in the thorough run)",
 "Two colours are sampled.", [COL], [("calculate_contrast", COL), ("calculate_luminance", COL)], [], ["contrast / luminance of colours"])

prop("C19", "Mouse reports decode exactly; anything else is never a mouse event",
 "Every SGR (1006) mouse report for left/right click, release, drag, hover and the four scroll directions, with every combination of shift, option and ctrl, decodes to that event name with modifiers in the documented order and to exactly the reported coordinates. Every other input (unknown buttons, other control sequences, replies to queries, plain text with semicolons, truncated reports) is reported as not a mouse event, without raising.",
 ["inputs"], "all button codes 0-255 x press/release x coordinates, all strings over the report alphabet up to the bound",
 "Two reports are sampled.", [COR], [("parse_mouse_event", COR), ("MOUSE_EVENTS", COR)], [], ["parse_mouse_event() / getch()"])

prop("C20", "Keyboard input is decoded to its names and never lost",
 "Whatever is typed, before or during a read, in whatever chunks it arrives, is returned by successive reads in order, complete and exactly once; a read returns everything available, decoded as the stream's encoding even when a character's bytes arrive separately (bytes that are no character leave the characters around them intact), and a lone mouse report as its event. Each known key sequence is returned under its conventional name(s) (arrows, home, end, function keys, ctrl/alt/shift combinations, all aliases comparing equal, the first one being its string form), unknown input and raw reads return the text itself.",
 ["histories", "schedules", "inputs"], "every sequence of keys and every splitting of the byte stream into arrivals",
 "Nothing tests reading input.", [COR, KEY], [("_getch_posix", COR), ("getch", COR), ("POSIX_KEY_NAMES", KEY), ("Key", COR)], [],
 ["values returned by getch on a pseudo-terminal"])

prop("C21", "Reading input always restores the terminal and the timer",
 "However a read ends (key, timeout, interrupt or read error, at any point of waiting), the terminal's mode is afterwards exactly what it was before, an interrupt is reported as ctrl-c rather than raised, and other errors propagate. A timed read returns the input if there is some and the given default otherwise (once its time is up), and leaves no alarm armed and the previous alarm handler in place (which its alarm can never reach); so does the timeout context by itself, which ends its body when the time is up and lets everything else through.",
 ["fault_sequences", "histories"], "every initial terminal mode x every point at which an interrupt, error or timeout hits x every sequence of reads",
 "Nothing tests reading input.", [COR], [("try/finally in _getch_posix", COR), ("timeout", COR), ("getch_timeout", COR)], [],
 ["termios attributes, interval timer and signal handler after each read"])

prop("C22", "Injected input is delivered exactly once, in order, from any thread",
 "Text injected by any number of threads, at any moment relative to readers, is returned by reads exactly once: nothing lost, duplicated or mixed, each injected piece whole and contiguous and in the order of the injections; a read that starts after an injection returns it ahead of terminal input. Several injections before a read are returned together by that read, and a read that returned injected text leaves nothing of it behind.",
 ["schedules", "histories"], "every interleaving of feeding and reading threads (preemption bounded) and every sequential history",
 "Nothing tests feeding; two feeds before a read already corrupt each other at the base commit.",
 [COR], [("feed", COR), ("feeder_stream handling in _getch_posix", COR)], [("feeder_stream", "pending injected text", COR)],
 ["values returned by getch"])

prop("C23", "Terminal queries return the reported value or the documented fallback",
 "Asking the terminal for its default colours, pixel resolution or synchronized-update support returns exactly what a well-formed reply reports (8 bits per channel; width before height) and otherwise the documented fallback or 'unsupported', never raising and never leaving the terminal's echo or input mode changed; replies are never displayed, even when they come before the code has begun to read. When input is not a terminal no colour query is sent and the defaults are returned, and no pixel size is asked of an output that is none; each colour is queried once per terminal object.",
 ["fault_sequences", "inputs"], "every reply value on a lattice, every missing or malformed reply, every order of queries",
 "Tests run without a terminal and only see the fallbacks.", [TRM, COR], [("get_default_color", COR), ("Terminal.resolution", TRM), ("Terminal.supports_synchronized_update", TRM)], [],
 ["returned values", "bytes written to the stream", "termios attributes"])

prop("C24", "Terminal mode contexts are undone however they are left",
 "Inside the alternate-buffer, mouse-reporting, synchronized-update and no-echo contexts the corresponding terminal mode is in effect (and the cursor hidden in the alternate buffer when asked), also with contexts of different kinds nested, using the standard mode sequences; once all contexts are left, in any nesting and by any exit (normal, exception, interrupt, failing output on entry or inside the body), every such mode is back to what it was (echo) or to normal (the others); a context changes no other mode (a cursor hidden beforehand stays hidden unless the alternate buffer was asked to hide it). Showing and hiding the cursor and switching mouse reporting directly do just that. Exceptions raised inside always propagate.",
 ["histories", "fault_sequences"], "every nesting of contexts up to the bound x every exit kind x every failure point",
 "No test enters a context.", [TRM, COR], [("alt_buffer", TRM), ("report_mouse", TRM), ("batch", TRM), ("no_echo", TRM)], [],
 ["mode state of a terminal interpreting the byte stream"])

prop("C25", "The window title is stored once and always restored",
 "However often the title is set, it shows the last value set, and resetting it or leaving the alternate buffer restores the title the window had before the application first set it. The terminal's title stack is pushed only for the first set, popped only if this terminal pushed it, and therefore balanced afterwards, over any number of set/reset/alternate-buffer rounds and for any title including the empty one.",
 ["histories"], "every sequence of title sets, resets and alternate-buffer entries/exits up to the bound",
 "No test sets a title.", [TRM], [("set_title", TRM), ("alt_buffer", TRM)], [("_custom_title", "title currently set by the application", TRM)],
 ["title and title stack of a terminal interpreting the byte stream"])

prop("C26", "Events call every listener once, in order, and report handling",
 "Emitting an event calls each registered listener exactly once per registration, in registration order, with the emitted value, and returns whether any of them returned a true value, without skipping later listeners. Registration of non-callables with += is refused with ValueError and changes nothing, clearing removes all listeners, truthiness tells whether there are any, a listener's exception propagates to the emitter, and separate events never share listeners.",
 ["histories"], "every sequence of registrations (by operator and by method), clears, failures and emissions on several events",
 "Tests emit once with one listener.", [EVT], [("Event.__call__", EVT), ("Event.append / __iadd__ / clear", EVT)], [("_listeners", "registered callbacks", EVT)],
 ["calls observed by listeners, return values"])

prop("C27", "A terminal resize is announced once and applied before use",
 "Whenever the terminal's size is queried (also through width, height or an export), a changed size is announced to every resize listener exactly once with the new size, the screen already has or gets that size with its overlapping content kept, and an unchanged size is never announced (not even after a listener raised); each terminal object does so for itself. Listeners may themselves query the size, write and draw without triggering further announcements, and the next draw shows the whole resized screen.",
 ["histories", "configurations"], "every sequence of size changes, queries, writes and draws, with every mix of listeners",
 "One test changes a private field and checks width/height.", [TRM, SCR], [("Terminal.size", TRM), ("on_resize handler", TRM)], [("_previous_size", "last announced size", TRM)],
 ["listener calls, screen size, byte stream"])

prop("C28", "Drawing touches nothing but the terminal's stream",
 "Writing, clearing, drawing, exporting and sending control sequences affect only the terminal's own output stream: no file is created or modified, no process started, and no other terminal object's screen or stream changes. Drawn bytes and control sequences reach the stream in call order and have been flushed when the call returns (a draw flushes what was sent before it, too).",
 ["histories"], "every sequence of output operations on two terminal objects",
 "Tests never look outside the stream (and at the base commit every draw writes a file into the working directory).",
 [TRM, SCR], [("Terminal.draw", TRM), ("Terminal.write_control", TRM)], [], ["audited file/process operations, stream write/flush order"])

prop("C29", "The command line tools report what the library sees",
 "On any terminal and in any environment, `slate size` prints its size as columns x rows, `slate getch` waits for one input and prints all its names (or, for --raw and single characters, its quoted text), and `slate debug` lists the environment variables that matter ('-' if unset or empty), size, colour space, synchronized-update support and default colours, the latter shown in themselves. The table is aligned and nothing is wider than it; the terminal's mode is the same afterwards, query replies are not displayed, and a wrong command line is refused with exit status 2.",
 ["inputs", "configurations"], "every key, environment, terminal size, default colour and reply",
 "Nothing tests the command line tools or the import-time terminal object on a real terminal.",
 ["slate/__main__.py", TRM, COR], [("main", "slate/__main__.py"), ("run_debug", "slate/__main__.py"), ("run_getch", "slate/__main__.py"), ("run_size", "slate/__main__.py")], [],
 ["output, exit status and terminal mode of real processes on a pseudo-terminal"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
