From f093f02fda714d245351e35bb736f49ce093ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:27 +0000
Subject: [PATCH 01/46] fix: stop Terminal.draw writing a debug file into the
 working directory

Every draw overwrote ./screen.txt (and failed outright when the directory
was not writable).
---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..ed63e8b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -406,9 +406,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From 09f3d97c897208080f215f356633422cbe7a70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:29 +0000
Subject: [PATCH 02/46] fix: honour force_overwrite in Screen.write and
 write_bulk

The flag is documented to register every written character as a change,
but was ignored.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..03679d3 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -284,7 +284,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From ca7891fb66e29fce68185be8022f79a8319f1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 03/46] fix: accept strings in Terminal.write_bulk

The signature and Terminal.write allow them, but they were passed to the
screen as-is and failed with an AttributeError.
---
 slate/terminal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ed63e8b..f705faa 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -373,8 +373,12 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         Returns:
             The number of cells that have been updated as a result of the write.
         """
+
         changes = self._screen.write_bulk(
-            data,
+            [
+                (pos, Span.yield_from(line) if isinstance(line, str) else line)
+                for pos, line in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From 68f910eeeacef6a450482ded630bb5cfb9d1b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:52 +0000
Subject: [PATCH 04/46] fix: keep colours and reset styles in a full redraw

render(redraw=True) printed only the characters: every colour was lost,
and a style bled from its cell into all following ones.
---
 slate/screen.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 03679d3..942c868 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,18 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _get_cell_ansi(cell: tuple[str, Color | None, Color | None]) -> str:
+    """Returns the string that displays `cell`, leaving no style active after it."""
+
+    char, fg, bg = cell
+    color = ";".join(item.ansi for item in (fg, bg) if item is not None)
+
+    if color:
+        return f"\x1b[{color}m{char}\x1b[0m"
+
+    return char
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -287,17 +299,9 @@ class Screen:
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    colors = []
-                    if fg is not None:
-                        colors.append(fg.ansi)
-                    if bg is not None:
-                        colors.append(bg.ansi)
-                    color = ";".join(colors)
-
-                    if color:
-                        char = f"\x1b[{color}m{char}\x1b[0m"
-
-                    self._change_buffer[x, y] = char + ("\n" if has_newline else "")
+                    self._change_buffer[x, y] = _get_cell_ansi(new) + (
+                        "\n" if has_newline else ""
+                    )
 
                     changes += 1
 
@@ -317,7 +321,7 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(map(_get_cell_ansi, row))
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From 263ae387cee51787483de72fdc334a6e51461d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 05/46] fix: draw the kept content after Screen.resize

resize() keeps the overlapping cells but queued the fill character for all
of them, so the next draw blanked content the screen still had (and a
rewrite of that content was then seen as unchanged). Changes queued for
cells outside a shrunk screen were still drawn, too.
---
 slate/screen.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 942c868..4bdc9c8 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -108,14 +108,12 @@ class Screen:
 
         cells: list[list[tuple[str, Color | None, Color | None]]] = []
         cells_append = cells.append
-        change_buffer = self._change_buffer.__setitem__
 
-        for y in range(height):
+        for _ in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
 
-            for x in range(width):
+            for _ in range(width):
                 row.append((fillchar, None, None))
-                change_buffer((x, y), fillchar)
 
             cells_append(row)
 
@@ -135,6 +133,13 @@ class Screen:
 
         self._cells = cells
 
+        # The whole screen has to be drawn again, with what it now contains
+        self._change_buffer.clear()
+
+        for y, row in enumerate(cells):
+            for x, cell in enumerate(row):
+                self._change_buffer[x, y] = _get_cell_ansi(cell)
+
     def clear(self, fillchar: str = " ") -> None:
         """Clears the screen's entire matrix.
 
-- 
2.43.0


From 79df561a211b64cff79509052b103b7c0e91556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:43 +0000
Subject: [PATCH 06/46] fix: write at the cursor when no position is given, and
 track it

Screen.write without a cursor raised a TypeError instead of using the last
used cursor, and no write ever moved the cursor.
---
 slate/screen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 4bdc9c8..d51da06 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -170,6 +170,9 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
+        if cursor is None:
+            cursor = self.cursor
+
         return self.write_bulk([(cursor, spans)], force_overwrite=force_overwrite, terminal_background=terminal_background)
 
     def write_bulk(
@@ -260,6 +263,8 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            self.cursor = (x, y + self._scrollback_offset)
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 633fb9956b258d6a4ba75c991219e85c812b8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:45 +0000
Subject: [PATCH 07/46] fix: recognise newlines in styled spans

The newline of a styled span carries the span's sequences, so it was put
into a cell (and printed) instead of moving to the next row.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index d51da06..fe83d83 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -235,7 +235,7 @@ class Screen:
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if span.text[i] == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From 4b71e3f7b8a735a5e2c0dd900cbd1eea192782d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 08/46] fix: scroll correctly when writing below the last row

- only the last span of a line triggered the scroll, so the others were
  lost, and the scroll offset was subtracted again for every further span
- the screen scrolled by one row however far down the write was
- the linefeed was appended to a list owned by Span.get_characters' cache,
  so the same span made the terminal scroll whenever it was written again
- it was printed after the new text, leaving the terminal one row ahead of
  the screen
- an empty last span raised an IndexError
- clear() kept the offset, so later writes to the top rows were dropped
---
 slate/screen.py | 58 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index fe83d83..7c8cc21 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -59,6 +59,13 @@ class ChangeBuffer:
 
         self._data.clear()
 
+    def scroll(self, count: int) -> None:
+        """Moves all changes up by `count` rows, dropping the ones that scroll off."""
+
+        self._data = {
+            (x, y - count): char for (x, y), char in self._data.items() if y >= count
+        }
+
     def gather(self) -> list[tuple[tuple[int, int], str]]:
         """Gathers all changes.
 
@@ -92,6 +99,7 @@ class Screen:
 
         self.cursor: tuple[int, int] = cursor
         self._scrollback_offset = 0
+        self._pending_scroll = 0
 
         self.resize((width, height), fillchar)
 
@@ -135,6 +143,7 @@ class Screen:
 
         # The whole screen has to be drawn again, with what it now contains
         self._change_buffer.clear()
+        self._pending_scroll = 0
 
         for y, row in enumerate(cells):
             for x, cell in enumerate(row):
@@ -149,6 +158,18 @@ class Screen:
 
         self.resize((self.width, self.height), fillchar, keep_original=False)
         self.cursor = (0, 0)
+        self._scrollback_offset = 0
+
+    def _scroll(self, count: int) -> None:
+        """Scrolls the screen's content up by `count` rows."""
+
+        self._scrollback_offset += count
+        self._pending_scroll += count
+
+        self._change_buffer.scroll(count)
+        self._cells = self._cells[count:] + [
+            [(" ", None, None)] * self.width for _ in range(min(count, self.height))
+        ]
 
     def write(
         self,
@@ -212,9 +233,20 @@ class Screen:
 
         for ((x, y), line) in data:
             line = list(line)
-            last = len(line) - 1
+            y -= self._scrollback_offset
+
+            if line and (overflow := y - self.height + 1) > 0:
+                self._scroll(overflow)
+                y -= overflow
 
-            for i, span in enumerate(line):
+                # What was written by earlier items scrolls along
+                for _ in range(min(overflow, self.height)):
+                    write_matrix.append([blank] * self.width)
+                    alpha_matrix.append([[] for _ in range(self.width)])
+
+                del write_matrix[: -self.height], alpha_matrix[: -self.height]
+
+            for span in line:
                 foreground, background = span.foreground, span.background
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
@@ -222,15 +254,6 @@ class Screen:
                 chars = span.get_characters(exclude_color=True, always_include_sequence=True)
                 chars_len = len(chars)
 
-                if i == last and y - self._scrollback_offset > self.height - 1:
-                    self._scrollback_offset = y - self.height + 1
-                    chars[-1] = chars[-1] + "\n" 
-
-                    self._cells.pop(0)
-                    self._cells.append([("", None, None)] * self.width)
-
-                y -= self._scrollback_offset
-
                 for i, char in enumerate(chars):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
@@ -301,17 +324,12 @@ class Screen:
                 if fg is not None and fg.alpha != 1.0:
                     fg = _get_blended(fg, bg)
 
-                has_newline = char.endswith("\n")
-                char = char.rstrip("\n")
-
                 new = (char, fg, bg)
 
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    self._change_buffer[x, y] = _get_cell_ansi(new) + (
-                        "\n" if has_newline else ""
-                    )
+                    self._change_buffer[x, y] = _get_cell_ansi(new)
 
                     changes += 1
 
@@ -335,11 +353,17 @@ class Screen:
                 y += 1
 
             self._change_buffer.clear()
+            self._pending_scroll = 0
 
             return buffer
 
         buffer = ""
 
+        # A linefeed in the bottom row makes the terminal scroll
+        if self._pending_scroll > 0:
+            buffer += f"\x1b[{y + self.height - 1};{x}H" + "\n" * self._pending_scroll
+            self._pending_scroll = 0
+
         previous_x = None
         previous_y = None
 
-- 
2.43.0


From 2a6b9b4c92e8a25ceebe0fd192a335db8aa77583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:30 +0000
Subject: [PATCH 09/46] fix: drop translucent layers that are later overwritten
 in a bulk write

The layers painted onto a cell stayed queued when a later item replaced
the cell, so they were blended onto the replacement.
---
 slate/screen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 7c8cc21..1b8c970 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -282,6 +282,9 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    else:
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From 332e546e8e537910e8c0d9189f4af3e12f289b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:32 +0000
Subject: [PATCH 10/46] fix: use a background color as the default terminal
 background

Blending keeps the layer of the base color, so translucent backgrounds
written to a Screen without an explicit terminal_background were printed
as foreground colors.
---
 slate/screen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 1b8c970..4ada1f5 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -175,7 +175,7 @@ class Screen:
         self,
         spans: Iterable[Span],
         cursor: tuple[int, int] | None = None,
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes data to the screen at the given cursor position.
@@ -199,7 +199,7 @@ class Screen:
     def write_bulk(
         self,
         data: list[tuple[tuple[int, int], Iterable[Span]]],
-        terminal_background: Color = Color.black(),
+        terminal_background: Color = Color.black(is_background=True),
         force_overwrite: bool = False,
     ) -> int:
         """Writes bulked data to the screen. This function culls any later-overwritten
-- 
2.43.0


From 2df1bab65d1e81ca683e6075daa6c2c23142e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:34 +0000
Subject: [PATCH 11/46] fix: blend translucent layers onto the terminal
 background first

The lowest layer was treated as opaque as soon as another translucent
layer was painted over it: two almost invisible layers showed up as the
lower one's full color.
---
 slate/screen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 4ada1f5..717842f 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -307,6 +307,12 @@ class Screen:
                 fg = fg or Color.white()
                 blent = bg
 
+                if blent is None and alpha_stack:
+                    blent = terminal_background
+
+                elif blent is not None and blent.alpha != 1.0:
+                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+
                 last = bg
 
                 for i, color in enumerate(alpha_stack):
@@ -319,9 +325,6 @@ class Screen:
                     if bleedthrough:
                         fg = _get_blended(fg, color, alpha_addition=0.1)
 
-                if blent and blent.alpha != 1.0:
-                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
-
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-- 
2.43.0


From 0690b136a2387aec319c797278182555bab4f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:36 +0000
Subject: [PATCH 12/46] fix: blend translucent foregrounds into their
 background

The arguments were swapped: text with a translucent foreground took on
its background's color, and so became invisible.
---
 slate/screen.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 717842f..c41a3b9 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -315,6 +315,12 @@ class Screen:
 
                 last = bg
 
+                # Text that shows through was blended before the layers above it
+                if bleedthrough and fg.alpha != 1.0:
+                    fg = _get_blended(
+                        blent or terminal_background, fg, is_background=False
+                    )
+
                 for i, color in enumerate(alpha_stack):
                     if color == last:
                         continue
@@ -327,8 +333,8 @@ class Screen:
 
                 bg = blent
 
-                if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                if fg.alpha != 1.0:
+                    fg = _get_blended(bg or terminal_background, fg, is_background=False)
 
                 new = (char, fg, bg)
 
-- 
2.43.0


From b37d7d943b15504e82c6dd7ab462acbed6bbcf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 13/46] fix: allow resize listeners to query the terminal's
 size

The size was only remembered after the listeners had run, so a listener
reading size, width or height emitted the event again, without end.
---
 slate/terminal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index f705faa..fda156f 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -143,12 +143,11 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """Returns the size (width, height) of the terminal."""
 
         size = get_terminal_size()
+        previous, self._previous_size = self._previous_size, size
 
-        if self._previous_size is not None and size != self._previous_size:
+        if previous is not None and size != previous:
             self.on_resize(size)
 
-        self._previous_size = size
-
         return size
 
     @property
-- 
2.43.0


From 81e9e691ed6994f045ea9d440bbe13e6ea114ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:53 +0000
Subject: [PATCH 14/46] fix: restore the terminal's title exactly when it was
 stored

- leaving alt_buffer restored the title but did not forget the custom one,
  so a title set afterwards was never stored, and stayed for good
- it also popped the terminal's title stack when no title was set, as did
  set_title(None)
- every title set after an empty one was stored again
---
 slate/terminal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index fda156f..d5ab8d4 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -233,7 +233,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -286,11 +286,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
-            self._custom_title = None
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+                self._custom_title = None
+
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From c0b0820faf8e5f8efb0cea1139e27570c448c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:55 +0000
Subject: [PATCH 15/46] fix: use the right sequences to begin and end
 synchronized updates

CSI ? 2026 $ p is the query; the mode itself is set and reset by
CSI ? 2026 h and CSI ? 2026 l.
---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..b7fcdc6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From cb7a702c56d39c3d08873cb87cf1e41f8cd9ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:25 +0000
Subject: [PATCH 16/46] fix: parse whole strings in Span.yield_from

- text before the first sequence was dropped
- a reset raised a ValueError, or at the end of the string (where every
  printed Span has one) became visible text
- two sequences in a row raised a ValueError
---
 slate/span.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..5d753dc 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -43,7 +43,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[([^\x1b]*?)[mH]")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -189,6 +189,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ("", "0"):
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -344,26 +348,22 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if index < mtch.start():
+                yield Span(line[index : mtch.start()], **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
 
-            if (error_part := _parse_sequence(sequence, options)) is not None:
+            if (error_part := _parse_sequence(mtch[1], options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
-
-        line = line.rstrip("\x1b")
-
         if index < len(line):
-            yield Span(line[index:])
+            yield Span(line[index:], **options)  # type: ignore
 
     @classmethod
     def first_from(cls, line: str) -> Span | None:
-- 
2.43.0


From 9aaa78142173e2bc1c9f62a1cd026b188193f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:27 +0000
Subject: [PATCH 17/46] fix: parse the codes that unset conceal, strike and
 fast blink

Their names are not Span attributes, so parsing them raised a TypeError.
The code for overline, which spans do not support, now raises the usual
ValueError instead.
---
 slate/span.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 5d753dc..f0abb24 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -41,7 +41,16 @@ UNSETTERS = {
     "overline": "54",
 }
 
-UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
+UNSETTERS_TO_STYLES = {
+    **{value: key for key, value in UNSETTERS.items()},
+    # These go by another name as a Span attribute
+    "26": "fast_blink",
+    "28": "conceal",
+    "29": "strike",
+}
+
+# Span has no overline attribute to unset
+del UNSETTERS_TO_STYLES[UNSETTERS["overline"]]
 
 RE_ANSI_STYLES = re.compile(r"\x1b\[([^\x1b]*?)[mH]")
 
-- 
2.43.0


From 19654d7ce4b884e192f1a02dd65c3bacfe99ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 18/46] fix: parse the opaque style

Its code (99) was taken for the start of a color, which also swallowed
the rest of the sequence.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index f0abb24..ddc60fa 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -173,7 +173,7 @@ def _parse_sequence(
     for i, part in enumerate(parts):
         if (
             part.isdigit()
-            and int(part) in chain(range(30, 49), range(90, 108))
+            and int(part) in chain(range(30, 49), range(90, 98), range(100, 108))
             and part not in ["39", "49"]
         ):
             in_color = True
-- 
2.43.0


From e265d592ad12bda9ca66397935d0865225b29e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:31 +0000
Subject: [PATCH 19/46] fix: parse the alpha value of colors in sequences

The lookahead for it never ran, so it was reported as an unknown code;
and from_ansi kept it in the sequence it emits for indexed colors.
---
 slate/color.py | 2 +-
 slate/span.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..a7fc123 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -228,7 +228,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=";".join(parts),
         )
 
     @classmethod
diff --git a/slate/span.py b/slate/span.py
index ddc60fa..2efa20d 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -182,7 +182,7 @@ def _parse_sequence(
             color_buffer += part
 
             if _is_valid_color(color_buffer) and (
-                len(parts) >= i or "." not in parts[i + 1]
+                i + 1 >= len(parts) or "." not in parts[i + 1]
             ):
                 key = (
                     "back" if _is_background_color(color_buffer) else "fore"
-- 
2.43.0


From 518c92618cd0548636a3020b967b9ef2a69dc0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:33 +0000
Subject: [PATCH 20/46] fix: keep the style of the last character without
 reset_after

get_characters only included the sequences in a span's last character
along with the reset.
---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 2efa20d..2279ca6 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -450,10 +450,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From 2bf0d1e77f0a7b7b6e0aa3e018cf47a968fad1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 21/46] fix: keep reset_after in spans derived from another

mutate, and so slicing, splitting and the as_* methods, set it back to
True.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 2279ca6..0bbdef8 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -560,7 +560,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def mutate(self, **options: Any) -> Span:
         """Creates a new Span object, mutated with the given options."""
 
-        config = self.attrs
+        config = {**self.attrs, "reset_after": self.reset_after}
         config.update(**options)  # type: ignore
 
         return self.__class__(**config)
-- 
2.43.0


From 28d10ab15f0c52c787fa441d49fe7995239c4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:37 +0000
Subject: [PATCH 22/46] fix: return a new list from Span.get_characters

The cached list was handed out, so modifying it changed the characters of
every equal span.
---
 slate/span.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 0bbdef8..dee5756 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -424,7 +424,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if group is not None:
             yield group
 
-    @lru_cache
     def get_characters(
         self, exclude_color: bool = False, always_include_sequence: bool = False
     ) -> list[str]:
@@ -438,6 +437,15 @@ class Span:  # pylint: disable=too-many-instance-attributes
             A list of strings with the format `{sequences}{plain_character}`.
         """
 
+        # The cached value must not be shared, as callers may modify the list
+        return [*self._get_characters(exclude_color, always_include_sequence)]
+
+    @lru_cache
+    def _get_characters(
+        self, exclude_color: bool, always_include_sequence: bool
+    ) -> list[str]:
+        """Calculates the value of `get_characters`."""
+
         sequences = self._colorless_sequences if exclude_color else self._sequences
         remaining_sequences = sequences
 
-- 
2.43.0


From f6c52d2f69a790bd17db2f72f0091f23dc6ecc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:02 +0000
Subject: [PATCH 23/46] fix: parse the alpha value of standard colors in
 sequences

As for the other colors, it may follow the code.
---
 slate/span.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index dee5756..e838132 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -142,9 +142,12 @@ def _is_valid_color(body: str) -> bool:
 
         return False
 
-    # Body will always start with 38 or 48, since it is guaranteed by the caller
+    # Body will always start with a color, since it is guaranteed by the caller
     parts = body.split(";")
 
+    if "." in parts[1]:
+        return len(parts) == 2 and _is_valid_color(parts[0])
+
     if parts[1] == "2":
         return len(parts) in [5, 6]
 
-- 
2.43.0


From daba8746159a36e131f33fde6ce874c4c47af6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:04 +0000
Subject: [PATCH 24/46] fix: compare colors when grouping cells into spans

The shortcut for repeated characters ignored them: a blank cell with a
background next to one without took on the other's colors in an SVG.
It also raised an IndexError for empty cells.
---
 slate/span.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index e838132..0dd901e 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -395,14 +395,8 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         group = EMPTY_SPAN
         attrs = EMPTY_SPAN.attrs | {"text": ""}
-        prev_str = ""
 
         for char, fg, bg in line:
-            # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
-                group = group.mutate(text=group.text + char[-1])
-                continue
-
             span = cls.first_from(char)
 
             if span is None:
@@ -421,7 +415,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 yield group
 
             group = span
-            prev_str = str(group.mutate(reset_after=False))
             attrs = new_attrs
 
         if group is not None:
-- 
2.43.0


From 348a404dda03a7f9e851898c288cf5cf3b6a3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 25/46] fix: export valid background, inline style and strike
 in SVGs

- the background's fill had two leading hashes
- the attribute for inline styles is called `style`
- the strike style was looked up by another name, and so never exported
---
 slate/span.py     | 4 ++--
 slate/terminal.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 0dd901e..68e7276 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -71,7 +71,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -554,7 +554,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
diff --git a/slate/terminal.py b/slate/terminal.py
index d5ab8d4..47d79f5 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -455,7 +455,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From a751aae5b6b43b07992a26c0c3f36c91e2c4730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:52 +0000
Subject: [PATCH 26/46] fix: export all text decorations of a span in SVGs

Underline was overwritten by strike, as both set the same property.
---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 68e7276..6b0f3dd 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -480,7 +480,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             elif key in STYLE_TO_CSS and value:
                 key, value = STYLE_TO_CSS[key]
-                css[key] = value
+                css[key] = f"{css[key]} {value}" if key in css else value
 
         return css
 
-- 
2.43.0


From 95b5cb2d06a8735389316d8e68c84cde4cd24edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 27/46] fix: emit a color sequence for colors made from a bare
 palette index

The index itself was emitted, which is another code altogether: index 9
gave strikethrough, 141 nothing. The indices 4 and 48-49 were taken for
background colors because they start with a 4.
---
 slate/color.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index a7fc123..7bd8d93 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -177,7 +177,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             alpha = float(parts[-1])
             parts.pop()
 
-        is_background = parts[0].startswith("4")
+        is_background = parts[0] == "48"
 
         if len(parts) > 3:
             if parts[:2] not in [["38", "2"], ["48", "2"]]:
@@ -210,13 +210,18 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 40
                 is_background = True
 
-            if 90 <= index < 98:
+            elif 90 <= index < 98:
                 index -= 82
 
             elif 100 <= index < 108:
                 index -= 92
                 is_background = True
 
+            # Anything else is an index into the 256 colors
+            else:
+                color_space = "eight_bit"
+                parts = ["38", "5", end]
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
-- 
2.43.0


From ccfcca99e85156a65923a69e21e90707b1a840b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 28/46] fix: convert the standard colors to greyscale under
 NO_COLOR

They were emitted unchanged, while all other colors are converted.
---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7bd8d93..c0cbd52 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -285,8 +285,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
-            self._constructor is not None and not self._constructor.startswith("#")
+        if (
+            terminal.color_space is not ColorSpace.NO_COLOR
+            and terminal.color_space >= origin
+            and self._constructor is not None
+            and not self._constructor.startswith("#")
         ):
             return self._constructor
 
-- 
2.43.0


From 1014c1ae3fc963924d105179a0c594dd8066f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:59 +0000
Subject: [PATCH 29/46] fix: emit colors in the color space that is currently
 set

The code of a color was kept from its first use on, so changing the
terminal's color space had no effect on colors already in use (amongst
them the module's black and white).
---
 slate/color.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index c0cbd52..4f8b958 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -271,12 +271,29 @@ class Color:  # pylint: disable = too-many-instance-attributes
         return WHITE
 
     @cached_property
+    def _ansi_by_space(self) -> dict[str, str]:
+        """The already calculated ANSI codes, by the color space they are for."""
+
+        return {}
+
+    @property
     def ansi(self) -> str:
         """Returns the ANSI code that represents this color."""
 
         from .terminal import (  # pylint: disable=import-outside-toplevel, cyclic-import
             terminal,
         )
+
+        color_space = terminal.color_space
+
+        if color_space.value not in self._ansi_by_space:
+            self._ansi_by_space[color_space.value] = self._get_ansi(color_space)
+
+        return self._ansi_by_space[color_space.value]
+
+    def _get_ansi(self, color_space: ColorSpace) -> str:
+        """Calculates the ANSI code of this color in the given color space."""
+
         from .core import (  # pylint: disable=import-outside-toplevel, cyclic-import
             ColorSpace,
         )
@@ -286,20 +303,20 @@ class Color:  # pylint: disable = too-many-instance-attributes
         origin = ColorSpace(self._origin_colorspace)
 
         if (
-            terminal.color_space is not ColorSpace.NO_COLOR
-            and terminal.color_space >= origin
+            color_space is not ColorSpace.NO_COLOR
+            and color_space >= origin
             and self._constructor is not None
             and not self._constructor.startswith("#")
         ):
             return self._constructor
 
-        if terminal.color_space is ColorSpace.TRUE_COLOR:
+        if color_space is ColorSpace.TRUE_COLOR:
             return f"{lead};2;{';'.join(map(str, self.rgb))}"
 
-        if terminal.color_space is ColorSpace.NO_COLOR:
+        if color_space is ColorSpace.NO_COLOR:
             return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
 
-        if terminal.color_space is ColorSpace.EIGHT_BIT:
+        if color_space is ColorSpace.EIGHT_BIT:
             # Normalize the color values
             red, green, blue = (x / 255 for x in self.rgb)
 
@@ -311,7 +328,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
             return f"{lead};5;{index}"
 
-        if terminal.color_space is ColorSpace.STANDARD:
+        if color_space is ColorSpace.STANDARD:
             rgb = self.rgb
 
             index = min(
-- 
2.43.0


From 30170711cf9fa9ec01acd51a0fc7c46b9ffc4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:01 +0000
Subject: [PATCH 30/46] fix: hash equal colors equally

The generated hash included fields that equality ignores, so equal colors
could be separate keys in dictionaries and sets. As the cache of blend
relied on that to tell the layers apart, its key now has the layer.
---
 slate/color.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 4f8b958..e8328ff 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -167,6 +167,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return self.rgb == other.rgb and self.alpha == other.alpha
 
+    def __hash__(self) -> int:
+        return hash((self.rgb, self.alpha))
+
     @classmethod
     def from_ansi(cls, ansi: str, alpha: float = 1.0) -> Color:
         """Creates a color instance from an ANSI sequence's body."""
@@ -431,7 +434,6 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=self.is_background,
         )
 
-    @lru_cache
     def blend(
         self, other: Color, alpha: float, is_background: bool | None = None
     ) -> Color:
@@ -449,6 +451,12 @@ class Color:  # pylint: disable = too-many-instance-attributes
         if is_background is None:
             is_background = self.is_background
 
+        return self._blend(other, alpha, is_background)
+
+    @lru_cache
+    def _blend(self, other: Color, alpha: float, is_background: bool) -> Color:
+        """Calculates the value of `blend`."""
+
         red1, green1, blue1 = self.rgb
         red2, green2, blue2 = other.rgb
 
-- 
2.43.0


From f92e450f461fc2d4e1713876e27d7933fc32fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 31/46] fix: calculate the complement of reds

A hue of 0 was taken to mean the color is grey, so the complement of pure
red was black. The complements of greys also were foregrounds always.
---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index e8328ff..0ec5fe1 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -360,8 +360,11 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def complement(self) -> Color:
         """Returns the complement of this color."""
 
-        if self.hls[0] == 0.0:
-            return Color((255, 255, 255)) if self.hls[1] == 0.0 else Color((0, 0, 0))
+        # Greys have no hue to shift
+        if self.hls[2] == 0.0:
+            grey = Color.white if self.hls[1] == 0.0 else Color.black
+
+            return grey(self.is_background)
 
         return self.hue_shift(0.5)
 
-- 
2.43.0


From 16de16bb02a929e5bf4a29b48f44127b7d6191f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:10 +0000
Subject: [PATCH 32/46] fix: only parse mouse events as such

Anything with two semicolons was taken for one. A button without a name
(e.g. the middle one) or pasted text made getch raise a KeyError or
IndexError, and the reply to the pixel size query was reported as a mouse
event, so Terminal.resolution always returned its fallback.
---
 slate/core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index b7fcdc6..7e183f6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -159,6 +159,8 @@ RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
+
 RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
@@ -315,16 +317,16 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
-        return None
+    mtch = RE_MOUSE_EVENT.fullmatch(code)
 
-    sequence = code.lstrip("\x1b[<")
-    event, posx, posy_pressed = sequence.split(";")
+    if mtch is None:
+        return None
 
-    posy = posy_pressed[:-1]
-    pressed = posy_pressed[-1] == "M"
+    event, posx, posy, suffix = mtch.groups()
+    pressed = suffix == "M"
 
-    event_name = MOUSE_EVENTS[event]
+    if (event_name := MOUSE_EVENTS.get(event)) is None:
+        return None
 
     if not pressed:
         event_name = event_name.replace("click", "release")
@@ -521,7 +523,9 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     if raw:
         return Key((key,))
 
-    if event := parse_mouse_event("\x1b" + key.split("\x1b")[-1]):
+    _, escape, sequence = key.rpartition("\x1b")
+
+    if event := parse_mouse_event(escape + sequence):
         return Key((event,))
 
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
-- 
2.43.0


From b99dced0c7519777c7993e6efd945befc41259b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:13 +0000
Subject: [PATCH 33/46] fix: swap the names of the home and end keys

Terminals send CSI H for home and CSI F for end.
---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From b16c73318379ab24cef7df113bd00fd5d8779039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:15 +0000
Subject: [PATCH 34/46] fix: keep all text given to feed until it is read

Text fed before the previous one was read overwrote its start, and text
fed by another thread while getch took it was lost.
---
 slate/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e183f6..34032c5 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -166,6 +166,7 @@ RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
 feeder_stream = StringIO()
+feeder_lock = threading.RLock()
 
 
 def width(text: str | Span) -> int:
@@ -383,8 +384,9 @@ def feed(text: str) -> None:
     This can be used to manually "interrupt" an ongoing getch call.
     """
 
-    feeder_stream.write(text)
-    feeder_stream.seek(0)
+    with feeder_lock:
+        feeder_stream.seek(0, os.SEEK_END)
+        feeder_stream.write(text)
 
 
 def _getch_posix(  # pylint: disable=used-before-assignment
@@ -424,11 +426,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         return buff
 
-    if fed_content := feeder_stream.getvalue():
-        feeder_stream.truncate(0)
-        feeder_stream.seek(0)
+    with feeder_lock:
+        if fed_content := feeder_stream.getvalue():
+            feeder_stream.truncate(0)
+            feeder_stream.seek(0)
 
-        return fed_content
+            return fed_content
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-- 
2.43.0


From 22f3d90ffc9a668905219d9822bc312e3a7a6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:18 +0000
Subject: [PATCH 35/46] fix: keep input that arrives between getch calls

Entering cbreak mode flushed it, so keys typed while the application was
busy were lost; a reply to a query that arrived early enough left
get_default_color waiting forever. The mode is now also restored when an
interrupt or timeout hits right after it was entered.
---
 slate/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 34032c5..c57008c 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -435,11 +435,13 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-    tty.setcbreak(descriptor)
 
     buff = ""
 
     try:
+        # By default, this discards the input that has not been read yet
+        tty.setcbreak(descriptor, termios.TCSADRAIN)
+
         buff += _read(1)
 
         while _is_ready(stream):
-- 
2.43.0


From 732e6205b39a39336ab61c8d7d2cc0f3d29395eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:20 +0000
Subject: [PATCH 36/46] fix: put back the previous SIGALRM handler after a
 timeout

An application's own handler was replaced for good by the first call.
---
 slate/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index c57008c..28e8af4 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -365,9 +365,10 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     def _raise_timeout(sig: int, frame: Any) -> None:
         raise TimeoutException("The action has timed out.")
 
+    # set the timeout handler
+    previous_handler = signal.signal(signal.SIGALRM, _raise_timeout)
+
     try:
-        # set the timeout handler
-        signal.signal(signal.SIGALRM, _raise_timeout)
         signal.setitimer(signal.ITIMER_REAL, duration)
         yield
 
@@ -376,6 +377,7 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
 
     finally:
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, previous_handler)
 
 
 def feed(text: str) -> None:
-- 
2.43.0


From 1dd93be56783c825d8a504d617ece7200b1f138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:19 +0000
Subject: [PATCH 37/46] fix: only tint text by the layers painted above it

---
 slate/screen.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index c41a3b9..dd16094 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -215,7 +215,7 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
-        blank = (" ", None, terminal_background, False, False)
+        blank = (" ", None, terminal_background, False, 0)
         write_matrix = [
             [blank] * self.width
             for _ in range(self.height)
@@ -274,6 +274,9 @@ class Screen:
                     final_bg = background
                     final_char = char
 
+                    # The number of layers below the text
+                    text_layer = 0
+
                     if write_matrix[y][x] is not blank and bg_has_alpha:
                         alpha_matrix[y][x].append(background)
                         empty = RE_ANSI.sub("", char).strip() == "" and not span.opaque
@@ -281,11 +284,14 @@ class Screen:
                         final_fg = foreground if not empty else write_matrix[y][x][1]
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
+                        text_layer = (
+                            len(alpha_matrix[y][x]) if not empty else write_matrix[y][x][4]
+                        )
 
                     else:
                         alpha_matrix[y][x].clear()
 
-                    write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
+                    write_matrix[y][x] = (final_char, final_fg, final_bg, last, text_layer)
 
                     x, y = next_x, next_y
 
@@ -303,7 +309,7 @@ class Screen:
                 except:
                     alpha_stack = {}
 
-                char, fg, bg, last, bleedthrough = cell
+                char, fg, bg, last, text_layer = cell
                 fg = fg or Color.white()
                 blent = bg
 
@@ -315,20 +321,20 @@ class Screen:
 
                 last = bg
 
-                # Text that shows through was blended before the layers above it
-                if bleedthrough and fg.alpha != 1.0:
-                    fg = _get_blended(
-                        blent or terminal_background, fg, is_background=False
-                    )
-
                 for i, color in enumerate(alpha_stack):
+                    # Text that shows through was blended before the layers above it
+                    if i == text_layer and fg.alpha != 1.0:
+                        fg = _get_blended(
+                            blent or terminal_background, fg, is_background=False
+                        )
+
                     if color == last:
                         continue
 
                     last = color
 
                     blent = _get_blended(blent, color, alpha_addition=0.1)
-                    if bleedthrough:
+                    if i >= text_layer:
                         fg = _get_blended(fg, color, alpha_addition=0.1)
 
                 bg = blent
-- 
2.43.0


From 65f2afb726bb978ecda6266675c1881b6beb89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 38/46] fix: draw changes in the color space that is currently
 set

---
 slate/screen.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index dd16094..bb8c389 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -49,9 +49,11 @@ class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
     def __init__(self) -> None:
-        self._data: dict[tuple[int, int], str] = {}
+        self._data: dict[tuple[int, int], tuple[str, Color | None, Color | None]] = {}
 
-    def __setitem__(self, indices: tuple[int, int], value: str) -> None:
+    def __setitem__(
+        self, indices: tuple[int, int], value: tuple[str, Color | None, Color | None]
+    ) -> None:
         self._data[indices] = value
 
     def clear(self) -> None:
@@ -63,20 +65,22 @@ class ChangeBuffer:
         """Moves all changes up by `count` rows, dropping the ones that scroll off."""
 
         self._data = {
-            (x, y - count): char for (x, y), char in self._data.items() if y >= count
+            (x, y - count): cell for (x, y), cell in self._data.items() if y >= count
         }
 
-    def gather(self) -> list[tuple[tuple[int, int], str]]:
+    def gather(
+        self,
+    ) -> list[tuple[tuple[int, int], tuple[str, Color | None, Color | None]]]:
         """Gathers all changes.
 
         Returns:
             A list of items in the format:
 
-                (x, y), changed_str
+                (x, y), changed_cell
 
         """
 
-        items: list[tuple[tuple[int, int], str]] = [*self._data.items()]
+        items = [*self._data.items()]
         return sorted(items, key=lambda item: (item[0][1], item[0][0]))
 
 
@@ -147,7 +151,7 @@ class Screen:
 
         for y, row in enumerate(cells):
             for x, cell in enumerate(row):
-                self._change_buffer[x, y] = _get_cell_ansi(cell)
+                self._change_buffer[x, y] = cell
 
     def clear(self, fillchar: str = " ") -> None:
         """Clears the screen's entire matrix.
@@ -347,7 +351,7 @@ class Screen:
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    self._change_buffer[x, y] = _get_cell_ansi(new)
+                    self._change_buffer[x, y] = new
 
                     changes += 1
 
@@ -385,10 +389,13 @@ class Screen:
         previous_x = None
         previous_y = None
 
-        for ((x, y), char) in self._change_buffer.gather():
+        for ((x, y), cell) in self._change_buffer.gather():
             x += origin[0]
             y += origin[1]
 
+            # The color space may have changed since this was written
+            char = _get_cell_ansi(cell)
+
             if previous_x is not None and (x == previous_x + 1 and y == previous_y):
                 buffer += char
             else:
-- 
2.43.0


From d242e33ce775e01c4418a0232a3f89b20138cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 39/46] fix: unset fast blink along with blink

---
 slate/span.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slate/span.py b/slate/span.py
index 6b0f3dd..12f3f7c 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -222,6 +222,9 @@ def _parse_sequence(
                 if key == "bold":  # no-cov
                     options["dim"] = False
 
+                if key == "blink":
+                    options["fast_blink"] = False
+
             continue
 
         return part
-- 
2.43.0


From 6792b70d74703375b35636398e48e3f568b088b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:48 +0000
Subject: [PATCH 40/46] fix: make a foreground color from the bare palette
 index 48

---
 slate/color.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slate/color.py b/slate/color.py
index 0ec5fe1..fd5a3c0 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -223,6 +223,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             # Anything else is an index into the 256 colors
             else:
                 color_space = "eight_bit"
+                is_background = False
                 parts = ["38", "5", end]
 
         if not 0 <= index < 256:
-- 
2.43.0


From c2e03af2ef361ea3e3a77440ee899169db86f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:49 +0000
Subject: [PATCH 41/46] fix: put back the previous echo setting after no_echo

Leaving the context, and thus querying the default colors, turned echoing on
even when it was off before.
---
 slate/core.py     | 13 +++++++++++++
 slate/terminal.py |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 28e8af4..72ca4ed 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -41,6 +41,7 @@ __all__ = [
     "getch_timeout",
     "get_default_color",
     "get_color_space",
+    "get_echo",
     "feed",
     "Key",
     "set_echo",
@@ -573,6 +574,18 @@ def getch_timeout(
     return default
 
 
+def get_echo() -> bool:  # no-cov
+    """Returns whether the terminal's ECHO flag is set.
+
+    Currently not supported on windows.
+    """
+
+    if not sys.stdin.isatty() or os.name == "nt":
+        return True
+
+    return bool(termios.tcgetattr(sys.stdin.fileno())[3] & termios.ECHO)
+
+
 def set_echo(value: bool = True) -> None:  # no-cov
     """Sets the terminal's ECHO flag to the given value.
 
diff --git a/slate/terminal.py b/slate/terminal.py
index 47d79f5..ff4ff5f 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -24,6 +24,7 @@ from .core import (
     ColorSpace,
     get_color_space,
     get_default_color,
+    get_echo,
     getch_timeout,
     set_echo,
 )
@@ -242,12 +243,14 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
     def no_echo(self) -> Generator[None, None, None]:  # no-cov
         """Temporarily disables echoing in the terminal."""
 
+        previous = get_echo()
+
         try:
             set_echo(False)
             yield
 
         finally:
-            set_echo(True)
+            set_echo(previous)
 
     @contextmanager
     def report_mouse(self) -> Generator[None, None, None]:  # no-cov
-- 
2.43.0


From 1aa7020b4fa0253db584093b7eb9ea87238f6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:48 +0000
Subject: [PATCH 42/46] fix: keep an incomplete character from garbling the
 input after it

---
 slate/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 72ca4ed..1ec221c 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -407,7 +407,17 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     # TODO: Both of these should be proper module-level functions to aviod
     #       constant redefiniton.
     if stream.encoding is not None:
-        decode = getincrementaldecoder(stream.encoding)().decode
+        decoder = getincrementaldecoder(stream.encoding)()
+
+        def decode(item: bytes) -> str:
+            try:
+                return decoder.decode(item)
+            except UnicodeDecodeError:
+                invalid, _ = decoder.getstate()
+                decoder.reset()
+
+                # `item` might not be at fault, only what came before it
+                return str(invalid) + decode(item) if invalid else str(item)
 
     else:
 
@@ -420,12 +430,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         buff = ""
 
         while len(buff) < count:
-            char = os.read(stream.fileno(), 1)
-
-            try:
-                buff += decode(char)
-            except UnicodeDecodeError:
-                buff += str(char)
+            buff += decode(os.read(stream.fileno(), 1))
 
         return buff
 
-- 
2.43.0


From 54d37d5cf9ce4d31d244ee88629b9c7bab70dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:13 +0000
Subject: [PATCH 43/46] fix: honour the alpha given to Color.as_background

It was ignored for colors already of that layer, and when it was 0.
---
 slate/color.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index fd5a3c0..9f760fc 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -415,10 +415,13 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def as_background(self, setting: bool = True, alpha: int | None = None) -> Color:
         """Returns this color, with the given background setting."""
 
-        if self.is_background == setting:
+        if alpha is None:
+            alpha = self.alpha
+
+        if self.is_background == setting and self.alpha == alpha:
             return self
 
-        return Color(self.rgb, is_background=setting, alpha=alpha or self.alpha)
+        return Color(self.rgb, is_background=setting, alpha=alpha)
 
     def hue_shift(self, amount: float) -> Color:
         """Returns a color with a hue offset of the given amount.
-- 
2.43.0


From e2872be38e39d38182d9e54957cfeeb12d99e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:31 +0000
Subject: [PATCH 44/46] fix: make very short timeouts time out

A timeout of 0 never ended, and one of a few microseconds raised RuntimeError or the
internal exception instead of timing out.
---
 slate/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 1ec221c..8485088 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -166,6 +166,8 @@ RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
+MIN_TIMEOUT = 0.001
+
 feeder_stream = StringIO()
 feeder_lock = threading.RLock()
 
@@ -370,7 +372,9 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     previous_handler = signal.signal(signal.SIGALRM, _raise_timeout)
 
     try:
-        signal.setitimer(signal.ITIMER_REAL, duration)
+        # 0 would mean no timeout at all, and anything too short might already be over
+        # before the context is entered
+        signal.setitimer(signal.ITIMER_REAL, max(duration, MIN_TIMEOUT))
         yield
 
     except TimeoutException:
-- 
2.43.0


From 107e5da1432c37540139cdd186fd3b92a31e9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:07 +0000
Subject: [PATCH 45/46] fix: keep replies to terminal queries from being
 displayed

The resolution and synchronized update queries left echo on, so a reply that
came before the read had begun was shown on the screen.
---
 slate/terminal.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ff4ff5f..718ceed 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -118,9 +118,12 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         https://gist.github.com/christianparpart/d8a62cc1ab659194337d73e399004036
         """
 
-        self.write_control(QUERY_SYNCHRONIZED_UPDATE)
+        # Don't let the reply be displayed if it comes before we started to read it
+        with self.no_echo():
+            self.write_control(QUERY_SYNCHRONIZED_UPDATE)
+            response = str(getch_timeout(0.05))
 
-        if not (response := str(getch_timeout(0.05))):
+        if not response:
             return False
 
         return response in ["\x1b[?2026;1$y", "\x1b[?2026;2$y"]
@@ -189,16 +192,19 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         if not self.isatty:
             return self.resolution_fallback
 
-        self.write_control("\x1b[14t")
-
-        # Some terminals may not respond to a pixel size query, so we send
-        # a timed-out getch call with a fallback
-        output = str(
-            getch_timeout(
-                0.05,
-                default=f"\x1b[4;{';'.join(map(str, reversed(self.resolution_fallback)))}t",
+        # Don't let the reply be displayed if it comes before we started to read it
+        with self.no_echo():
+            self.write_control("\x1b[14t")
+
+            # Some terminals may not respond to a pixel size query, so we send
+            # a timed-out getch call with a fallback
+            output = str(
+                getch_timeout(
+                    0.05,
+                    default=f"\x1b[4;{';'.join(map(str, reversed(self.resolution_fallback)))}t",
+                )
             )
-        )
+
         mtch = RE_PIXEL_SIZE.match(output)
 
         if mtch is not None:
-- 
2.43.0


From f1cf2c3180c95b439ff1da0ab1ca8a1bf6ccb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:17 +0000
Subject: [PATCH 46/46] fix: accept leading zeroes in styling sequences

Terminals don't care about them, and many programs (GNU ls, grep, ...) print
sequences such as `01;34`, which raised ValueError; a color like `048;5;4` even
ended up on the wrong layer.
---
 slate/span.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 12f3f7c..8e66b97 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -171,7 +171,10 @@ def _parse_sequence(
     in_color = False
     color_buffer = ""
 
-    parts = seq.split(";")
+    # Leading zeroes mean nothing, and some programs like to print them (`01;34`)
+    parts = [
+        part.lstrip("0") or "0" if part.isdigit() else part for part in seq.split(";")
+    ]
 
     for i, part in enumerate(parts):
         if (
-- 
2.43.0

