#!/usr/bin/env python3
"""Writes /verif/properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

prop("C01", "Wrapped text never exceeds the requested width",
 "A markdown (or raw) text formatted for a width of at least 3 prints no line wider, in terminal columns, than that width, whatever its mix of paragraphs, headers, lists, quotes, code blocks, rules and tables, and whatever the alignments and margins of the skin. The only exception is when the width doesn't leave a column (two for a double-width character) beside a list or quote mark.",
 ["inputs", "configurations"], "every markdown text (wide and combining chars included), every skin, every width >= 3",
 "The tests wrap one four-line ASCII text with the default skin and recompute the stored length rather than measuring the printed output; overflow depends on text x width x margins x line kind x characters.",
 ["src/fit/wrap.rs", "src/tokens.rs", "src/text.rs", "src/skin.rs", "src/code.rs", "src/tbl.rs", "src/fit/tbl_fit.rs"],
 [("hard wrapping", "src/fit/wrap.rs hard_wrap_lines, hard_wrap_composite"), ("tokenization", "src/tokens.rs"), ("margins dropped when too narrow", "src/line_style.rs margins_in"), ("code justification", "src/code.rs")],
 ["Display of FmtText"])

prop("C02", "Wrapping keeps all the content, in order, with its style",
 "Wrapping a text only inserts line breaks: every non-blank character of the source is printed exactly once, in order, with its style, and the only characters dropped are blanks at a line break, so words separated in the source are still separated (the blanks of an inline code being part of its text, they are kept and the code is only cut when it is wider than a line). A line which fits isn't broken, and a word which would fit on a line of its own isn't cut.",
 ["inputs", "configurations"], "every text without table, every skin, every width >= 3",
 "Tests check line counts and lengths on a few strings; loss, duplication, reordering, joining or restyling of characters depends on where breaks fall among spaces and style changes.",
 ["src/fit/wrap.rs", "src/tokens.rs", "src/text.rs"],
 [("tokens", "src/tokens.rs tokenize"), ("line building", "src/fit/wrap.rs hard_wrap_composite"), ("raw texts", "src/text.rs raw_str")],
 ["Display of FmtText"])

prop("C03", "A rendered table is a regular grid holding all its content",
 "All printed lines of a table have the same width, with vertical borders on the same columns, matching junctions, and a total not exceeding the available width. Each cell's content is printed in its own column, in order, with its style and the alignment given by the last alignment rule above it; only when the width can't hold all columns (3 wide each) are the rightmost columns removed. Columns are narrowed only when their natural widths don't fit, and in a balanced way: then the whole available width is used and, but for rounding, no column gets less than its average content width reduced in the proportion of the whole table.",
 ["inputs", "configurations"], "every table (ragged rows, empty, styled, list or quote cells, wide chars), every skin, every width",
 "Tests never render a table; regularity depends on the distribution of cell widths, on wrapping inside cells and on missing cells.",
 ["src/tbl.rs", "src/fit/tbl_fit.rs", "src/fit/wrap.rs", "src/skin.rs", "src/table_border_chars.rs"],
 [("column widths", "src/fit/tbl_fit.rs"), ("cell wrapping and row insertion", "src/tbl.rs fix_columns"), ("border printing", "src/skin.rs write_fmt_line")],
 ["Display of FmtText", "TblFit results"])

prop("C04", "Unwrapped rendering prints exactly the parsed markdown, styled",
 "Rendering a snippet or a text without wrapping prints each source line as one line with exactly the characters of the parsed markdown, in order, with the bullet, quote mark or indent of its kind. The style of each character is the one of its line kind overlaid by the italic, strikeout, bold and inline code styles which apply, each overlay replacing only what it defines and adding its attributes, and no style leaks after the end of a line.",
 ["inputs", "configurations"], "every snippet or text without table, every skin, through every writing function",
 "Tests only check parsing of skins; the style composition has 16 combinations per line kind times arbitrary skins.",
 ["src/skin.rs", "src/composite.rs", "src/compound_style.rs", "src/styled_char.rs", "src/inline.rs"],
 [("style composition", "src/skin.rs compound_style"), ("overlay", "src/compound_style.rs overwrite_with"), ("writing", "src/skin.rs write_fmt_composite")],
 ["Display of FmtInline and FmtText", "write_inline_on", "write_composite"])

prop("C05", "Alignments, margins and code block padding are exact",
 "In a text formatted for a width, each line is placed according to the alignment and margins of its line style (margins being ignored when they wouldn't leave 3 columns): left, right or centered with the odd column at right. All the lines of a code block are padded to the width of the widest, and when right completion is requested each line has exactly the requested width.",
 ["inputs", "configurations"], "every text without table, every combination of alignments and margins, every width >= 3",
 "No test looks at the position of the content in the line.",
 ["src/skin.rs", "src/spacing.rs", "src/line_style.rs", "src/code.rs", "src/displayable_line.rs"],
 [("completions", "src/spacing.rs"), ("margins", "src/line_style.rs margins_in"), ("block justification", "src/code.rs")],
 ["Display of FmtText and DisplayableLine"])

prop("C06", "Fitting a composite in a width shortens it honestly",
 "Fitting a composite to a width leaves it untouched when it's not too wide; otherwise the result isn't wider than the width, and is the original with some parts replaced by an ellipsis, the rest being kept in order with its style. Without internal ellision (an alignment being specified) only the side opposed to the alignment, or both sides when centered, is cut; filling to a width gives exactly that width, padded according to the alignment.",
 ["inputs", "configurations"], "every styled composite (wide and combining chars included), every width, every alignment",
 "Tests check the width for 3 strings and 5 widths and never check what is kept.",
 ["src/fit/composite_fit.rs", "src/composite.rs", "src/skin.rs", "src/spacing.rs"],
 [("zone cutting", "src/fit/composite_fit.rs Zone::cut"), ("side truncation", "src/fit/composite_fit.rs Fitter::fit"), ("extension", "src/composite.rs extend_width")],
 ["FmtComposite::fit_width, fill_width", "MadSkin::write_composite_fill"])

prop("C07", "Cropped and counted writing keeps exact column accounts",
 "Cropping a string to a number of columns keeps its longest prefix which fits (tabs being replaced), and reports the columns used; a crop writer never prints more columns than allowed and what remains allowed plus what was printed is always the initial allowance. Fillings (of single-column characters) and counted strings print exactly the requested number of columns.",
 ["inputs", "histories"], "every string and limit; every sequence of writing operations on a crop writer",
 "Tests check 4 strings; no test checks the crop writer.",
 ["src/fit/str_fit.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs", "src/spacing.rs"],
 [("prefix computation", "src/fit/str_fit.rs"), ("allowance", "src/fit/crop_writer.rs"), ("filling", "src/fit/filling.rs")],
 ["StrFit, CropWriter, Filling, Spacing results and output"])

prop("C08", "A text view paints its area and nothing else",
 "Drawing a text or markdown view, or writing markdown in an area, writes each row of the area, from left to right, with the text line at that row plus the scroll (completed to the width, or blank after the end of the text) and never changes anything outside of the area (of at least 4 columns, with room beside list and quote marks). The scrollbar is in the last column, only when the text doesn't fit and the scrollbar isn't disabled, and its thumb covers the rows given by the scrollbar computation.",
 ["inputs", "histories", "configurations"], "every text, skin, area position and size, and scroll",
 "Nothing is tested about drawing: it's visible only in a terminal.",
 ["src/views/text_view.rs", "src/views/mad_view.rs", "src/displayable_line.rs", "src/skin.rs", "src/area.rs"],
 [("row loop", "src/views/text_view.rs write_on"), ("line completion", "src/displayable_line.rs")],
 ["bytes written by TextView::write_on, MadView::write_on, MadSkin::write_in_area_on, interpreted by a terminal emulator"])

prop("C09", "Scrolling a text view is bounded and exact",
 "After any sequence of line, page or absolute scrollings, resizes and key events, the scroll of a text or markdown view is between 0 and the number of lines exceeding the height, moves by exactly the requested amount unless stopped by these bounds, and the returned or stored value is the one used for drawing. No scroll amount, however large, makes it fail.",
 ["histories", "inputs"], "every sequence of operations with any amounts (extreme integers and floats included), every text and area",
 "No test scrolls anything.",
 ["src/views/text_view.rs", "src/views/mad_view.rs"],
 [("clamping", "src/views/text_view.rs set_scroll, try_scroll_lines, try_scroll_pages"), ("resize", "src/views/mad_view.rs resize")],
 ["public scroll field", "drawn window"])

prop("C10", "Scrollbar geometry is inside the area and monotone",
 "For a non empty area, the computed scrollbar exists if and only if the content is longer than the area, is not empty, lies inside the rows of the area, has a size proportional to the visible part (within two rows), and moves down (never up) when the scroll increases. In areas of at least two rows it touches the top if and only if the scroll is null, and it touches the bottom when the scroll is maximal (and only then in areas of more than 3 rows and at least one row of thumb).",
 ["inputs"], "every scroll, content height, area height and area top",
 "The existing test checks a few values.",
 ["src/area.rs"],
 [("computation", "src/area.rs compute_scrollbar")],
 ["compute_scrollbar, Area::scrollbar, TextView::scrollbar"])

prop("C11", "A list view draws its rows in its area",
 "Drawing a list view in an area of at least 3 rows writes only inside this area: a title row (a title being common to successive columns sharing it), a separator and then, row by row, the displayed (unfiltered) rows starting from the scroll, each value in its column, fitted to the column width and aligned, with the selected row marked by the selected background. When there's room for the minimal widths, each column is between its minimal and maximal widths and together they fill the available width unless all are at their maximum. The scrollbar is on the last column of the area. Rows are drawn over the whole width of the area, so that nothing remains there of a previous drawing.",
 ["inputs", "histories", "configurations"], "every set of columns, rows, filter, scroll, selection, and area",
 "No test draws a list view.",
 ["src/views/list_view.rs"],
 [("column widths", "src/views/list_view.rs update_dimensions"), ("drawing", "src/views/list_view.rs write_on")],
 ["bytes written by ListView::write_on, interpreted by a terminal emulator"])

prop("C12", "List view selection, scroll, filter and sort stay coherent",
 "After any sequence of row additions and removals, filter and sort changes, selection moves and scrollings, the displayed rows are exactly those passing the filter, in order (a sort order being applied from the next addition); the selection, if any, designates the same row until moved or removed (even when filtered out), moves by one displayed row, cycling at the ends when asked, and is visible after a move. The scroll is always in bounds (leaving at most one blank row), is changed by additions only to keep showing the last row of an unsorted list, and no operation fails.",
 ["histories"], "every sequence of operations, with any amounts and filters",
 "No test exists for the list view.",
 ["src/views/list_view.rs"],
 [("selection", "src/views/list_view.rs try_select_next, select_first_line, make_selection_visible"), ("filter", "src/views/list_view.rs set_filter"), ("scroll", "src/views/list_view.rs try_scroll_lines")],
 ["get_selection, displayed_rows_count, drawn rows"])

prop("C13", "Input content edition behaves as a text editor",
 "After any sequence of edition and movement operations, the content, cursor and selection of an input are those of a plain text editor: characters are inserted and removed where the cursor is, moves stop at the bounds of the text, the selected text (which includes the character, or line end, at both its ends) is what is deleted or copied, and the cursor and the selection are always valid positions. Nothing else of the content ever changes, and no operation fails.",
 ["histories"], "every sequence of operations on any content (multi-line, wide chars)",
 "Tests check some operations alone on short contents; interactions between moves, selection, joins and splits of lines aren't sampled.",
 ["src/views/input_field_content.rs", "src/views/pos.rs"],
 [("edition", "src/views/input_field_content.rs"), ("positions", "src/views/pos.rs")],
 ["InputFieldContent public API"])

prop("C14", "Input fields show their content, inside their area, safely",
 "Drawing an input field writes only in its area, shows a window of its content at the right place with selected text marked, and when focused the cursor's character is always in the window (if it has at least 3 columns of text) after any edition, move, or resize, only mouse wheel scrolling being able to hide it. Wide characters and tabs are shown consistently. In password mode no character of the content is ever written.",
 ["histories", "inputs", "configurations"], "every content, area and sequence of events",
 "No test draws an input field.",
 ["src/views/input_field.rs"],
 [("scroll following the cursor", "src/views/input_field.rs fix_scroll"), ("drawing", "src/views/input_field.rs display_on"), ("password mode", "src/views/input_field.rs password_mode")],
 ["bytes written by InputField::display_on, interpreted by a terminal emulator"])

prop("C15", "Events act on input fields as documented, mouse included",
 "An input field ignores the events it doesn't handle (returning false and keeping its state), applies each handled key as the matching edition, and reacts to mouse events only when in its area: a click gives the focus and puts the cursor on the clicked character, a drag selects what lies between the two positions, a double click selects a word, the wheel scrolls; what happens outside is ignored. Without focus no key changes the content, and no event makes several lines in a single line field.",
 ["histories", "inputs"], "every sequence of key and mouse events, every content, scroll and area",
 "No test sends an event to a field.",
 ["src/views/input_field.rs", "src/events/timed_event.rs"],
 [("key dispatch", "src/views/input_field.rs apply_keycode_event"), ("mouse", "src/views/input_field.rs apply_mouse_event, apply_click_event")],
 ["InputField::apply_timed_event, apply_event, content and cursor"])

prop("C16", "A skin saved and reloaded renders identically",
 "Serializing any skin made of expressible styles (colors, alignments, margins, usual attributes; marker characters other than digits, spaces and parentheses; one of the predefined table borders) and deserializing it gives a skin with the same rendering of every text. Deserializing a partial skin keeps the defaults for what isn't specified (a styled character given without its character being '*'), and a wrong value is an error, not a silently different skin.",
 ["configurations", "inputs"], "every skin, through any self-describing serde format",
 "The test checks a single skin.",
 ["src/serde/serde_skin.rs", "src/serde/serde_line_style.rs", "src/serde/serde_compound_style.rs", "src/serde/serde_styled_char.rs", "src/serde/serde_scrollbar_style.rs", "src/parse/mod.rs"],
 [("serialization", "src/serde"), ("tokens", "src/parse")],
 ["serde_json text", "Display of texts with both skins"])

prop("C17", "Style definitions are parsed exactly, or refused",
 "Each documented way of defining a color, attribute, alignment, margin or character gives exactly that style, in any order and case (at most a foreground then a background color, an alignment, two margins and a character), and the textual form written for a style is parsed back to the same style. A token which isn't a documented definition is refused with an error.",
 ["inputs"], "every token sequence, every style",
 "Tests parse a handful of strings and none with names sharing a part.",
 ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs"],
 [("token parsing", "src/parse")],
 ["parse_* functions", "PushStyleTokens / write_style_tokens through serde"])

prop("C18", "Changing a style changes what is rendered, and only that",
 "Setting or blending a color, an attribute or a char of a style, styled char or skin is reflected in everything rendered with it afterwards, through every writing way, and leaves the other characteristics unchanged. Blending moves the foreground and background colors toward the target proportionally to the weight (within the rounding of color conversions), weight 0 keeping the colors and weight 1 giving the target.",
 ["histories", "inputs"], "every sequence of mutations on any skin or style",
 "No test mutates a style then renders.",
 ["src/styled_char.rs", "src/compound_style.rs", "src/line_style.rs", "src/skin.rs", "src/scrollbar_style.rs"],
 [("cached styled char", "src/styled_char.rs"), ("blending", "src/compound_style.rs blend_with"), ("skin wide setters", "src/skin.rs set_fg, set_bg, set_headers_fg")],
 ["Display and queue outputs"])

prop("C19", "No-style and ASCII skins keep their promise",
 "With the no-style skin, rendering any text emits no escape sequence at all. With a skin limited to ASCII, rendering any ASCII text (tables, lists, quotes, rules included) emits only ASCII characters, unless an ellipsis is needed.",
 ["inputs"], "every text, at every width",
 "No test renders with these skins.",
 ["src/skin.rs", "src/table_border_chars.rs", "src/compound_style.rs"],
 [("no_style", "src/skin.rs no_style"), ("limit_to_ascii", "src/skin.rs limit_to_ascii")],
 ["Display of FmtText and FmtInline"])

prop("C20", "Template values are inserted verbatim, never interpreted",
 "Writing a template or expander prints the template's markdown with each placeholder replaced by its value, where values given as text are shown verbatim, whatever markdown or placeholder syntax they contain, with the style of the place they're inserted in. Markdown values are interpreted, repeated parts are repeated in order, and the direct macros give the same output as rendering the expanded text. Expanders are printed wrapped for the terminal's width.",
 ["inputs"], "every template and every value",
 "Tests don't render templates.",
 ["src/macros.rs", "src/skin.rs"],
 [("macros", "src/macros.rs"), ("expanders", "src/skin.rs print_expander; minimad templates")],
 ["bytes written by mad_write_inline!, Display of expanded FmtText"])

prop("C21", "A question returns only a proposed or default answer",
 "Asking a question prints the question and its choices then reads lines until one is the key of a choice (or empty when there's a default), ignoring only trailing white space, and returns it; other lines are refused and asked again. When the input ends, asking ends, with the default answer if there's one, with an error if not.",
 ["inputs", "fault_sequences"], "every question, every sequence of input lines, including the end of input at any point",
 "Nothing is tested, as asking needs an interactive stdin.",
 ["src/ask.rs", "src/macros.rs"],
 [("loop", "src/ask.rs ask")],
 ["child process fed on its stdin"])

prop("C22", "The event source delivers input events in order, exactly once",
 "Events typed in the terminal are received once each, in order, decorated with a non decreasing time and their key combination, the next one being sent only after the consumer unblocks, and nothing is received after the consumer asked to quit, which ends the thread. Raw key releases, mouse moves and drags are discarded when so configured, and only then. Mouse clicks are flagged double only when a left button release at the same place came shortly before; complete escape sequences are delivered apart (the ten first unread ones being kept), while the keys of interrupted ones are delivered as normal keys, in order. The terminal's raw mode and keyboard flags are restored at the end, or if the source can't be built. Waiting, for input or for the consumer, uses no CPU.",
 ["histories", "schedules"], "every byte stream from the terminal, every consumer timing and unblocking order",
 "The event source needs a terminal and threads; nothing is tested.",
 ["src/events/event_source.rs", "src/events/timed_event.rs", "src/events/escape_sequence.rs"],
 [("unblock channel", "src/events/event_source.rs"), ("double click detection", "src/events/event_source.rs"), ("escape sequence grouping", "src/events/event_source.rs")],
 ["events received by a child process connected to a pseudo terminal"])

prop("C23", "Ticks come on time, as many as asked, until stopped",
 "A tick beam sends exactly the number of ticks it was started for (or an infinity), carrying its payload, never before its period has elapsed since the previous one nor notably after, and none once it has been stopped (but one possibly already being sent). Stopping a beam, or all of them, doesn't affect the other ones, beam identifiers are unique, and dropping the ticker stops its beams and closes its channel at once, however long the periods. Waiting for the next tick uses no CPU.",
 ["schedules", "histories"], "every sequence of starts and stops, every interleaving of the ticker threads",
 "No test: it's about threads and time.",
 ["src/events/tick_beam.rs"],
 [("tick thread", "src/events/tick_beam.rs start_beam"), ("stop", "src/events/tick_beam.rs stop_beam, stop_all_beams")],
 ["tick_receiver", "thread sanitizer"])

prop("C24", "Rectangles and area operations stay in their area",
 "Drawing a filled or bordered rectangle (of at least 2 columns and rows) paints every cell of its area (or only its border when not filled), with the right border chars at the right places, and nothing outside. Area containment, bottom and right, padding for width or height and centering are consistent with each other.",
 ["inputs", "configurations"], "every area and size, every border and style",
 "No test draws a rectangle.",
 ["src/rect.rs", "src/area.rs"],
 [("drawing", "src/rect.rs"), ("areas", "src/area.rs")],
 ["bytes written by Rect::draw, interpreted by a terminal emulator"])

prop("C25", "A progress bar shows its ratio on exactly its width",
 "A progress bar prints its width in columns (padded to a requested format width), filled from the left proportionally to the ratio (within an eighth of a column), empty for 0, full for 1, and never less filled for a greater ratio.",
 ["inputs"], "every width and ratio",
 "Tests check a few values.",
 ["src/views/progress.rs"],
 [("computation", "src/views/progress.rs")],
 ["Display of ProgressBar"])

prop("C26", "Rendering never panics and always ends",
 "Whatever the text (control chars, broken markdown, malformed tables, emoji sequences, huge lines), width, skin, area (on a terminal of at most 65535 columns and rows), scroll and alignment, and whatever the operations on views, formatting, fitting, wrapping and drawing end without panicking, and what they write is well-formed: valid text and complete escape sequences, with the style reset at the end.",
 ["inputs", "configurations"], "every string, width (0 and huge included), skin and area",
 "Fuzzing of arbitrary input is beyond unit tests.",
 ["src/skin.rs", "src/text.rs", "src/fit/wrap.rs", "src/fit/composite_fit.rs", "src/tbl.rs", "src/fit/tbl_fit.rs", "src/views/text_view.rs"],
 [("arithmetic on widths", "everywhere"), ("byte slicing", "src/tokens.rs, src/fit")],
 ["panics, aborts, hangs, written bytes"])

prop("C27", "Rendering is pure: shared skins can be used from all threads",
 "Rendering a text gives the same output every time, whatever was rendered before and whatever is being rendered by other threads with the same skin (default global skin included), and rendering doesn't change the skin. No data race exists.",
 ["schedules", "histories"], "every set of threads rendering with shared skins, including the first use of the global skin",
 "Tests are sequential.",
 ["src/lib.rs", "src/skin.rs", "src/fit/mod.rs", "src/parse/parse_color.rs"],
 [("lazy statics", "src/lib.rs get_default_skin, src/fit/mod.rs SPACE_FILLING")],
 ["outputs of concurrent renderings", "ThreadSanitizer reports"])

prop("C28", "The dimensions announced by a formatted text are the real ones",
 "The number of lines of a formatted text is the number of rows it prints, the visible length of a line (rules excepted) is its printed width without margins and alignment padding, and the content width of the text is the width of its widest line. Rendering it to a width at least equal to its content width only moves its lines, without loss, in that width.",
 ["inputs", "configurations"], "every text and skin, wrapped or not, every rendering width",
 "No test compares these numbers with the printed text.",
 ["src/text.rs", "src/line.rs", "src/composite.rs", "src/tbl.rs"],
 [("content width", "src/text.rs content_width, src/line.rs visible_length"), ("rendering width", "src/text.rs set_rendering_width")],
 ["FmtText::lines, content_width, Display"])

prop("C29", "Functions printing to stdout print what the objects display",
 "All the functions printing directly to the standard output (print_inline, print_text, write_text, write_inline, write_in_area, term_text, print_composite, the global functions, the write methods of views, input field display) print exactly what the corresponding formatted objects and writer-taking functions produce, with the same skin, at the width (or area) of the real terminal, whatever its size.",
 ["inputs", "configurations"], "every text, skin and terminal size",
 "Tests have no terminal.",
 ["src/skin.rs", "src/lib.rs", "src/area.rs", "src/views/text_view.rs", "src/views/mad_view.rs", "src/views/list_view.rs", "src/views/input_field.rs"],
 [("terminal size", "src/area.rs terminal_size, full_screen"), ("stdout writers", "src/skin.rs")],
 ["stdout of a child process on a pseudo terminal"])

prop("C30", "Output failures are reported, and partial writes change nothing",
 "A function given a writer (text, inline, composite, template, area and view writing, rectangles, cropped writing, fillings, styled chars, spacings, style tokens) writes the same bytes whatever the number of bytes the writer accepts per call and whether it's interrupted, and doesn't flush when documented so. When the writer fails, the function returns the writer's error (it neither panics nor returns Ok), having written exactly the beginning of its normal output, and a later drawing of the same object is complete. Functions writing on stdout and returning a result have flushed everything when they return Ok, and return an error when stdout refuses what they write.",
 ["fault_sequences", "inputs"], "every drawing, every point of failure and kind of failure of the writer",
 "Tests only write in memory, where nothing fails.",
 ["src/skin.rs", "src/macros.rs", "src/rect.rs", "src/compound_style.rs", "src/styled_char.rs", "src/spacing.rs", "src/fit/crop_writer.rs", "src/fit/filling.rs", "src/parse/mod.rs", "src/views/text_view.rs", "src/views/mad_view.rs", "src/views/list_view.rs", "src/views/input_field.rs"],
 [("writer-taking functions", "src/views/*.rs write_on, display_on; src/skin.rs write_*_on"), ("stdout writers", "src/skin.rs write_text, write_inline, write_in_area; views write")],
 ["result of the drawing functions", "bytes accepted by fault-injecting writers", "content of the file behind stdout"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
