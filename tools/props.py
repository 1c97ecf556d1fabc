AI = "abstract interpretation of the SSA (typestate monitor)"
PROPS = []
def P(id, title, statement, over, quant, tests, files, mech, tech=AI, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, tech=tech, note=note, na=na))

P("C01", "Running with a terminal always restores it",
  "Running a function with an inactive terminal enters the terminal's context exactly once, runs the function only if entering succeeded, and exits the context exactly once on every way out (normal return, error, panic of the function, failed enter), closing a closable context only after exiting it; the first error (enter, function, exit, close, in that order) is the one returned. "
  "Running with a terminal that is already active runs the function directly and leaves the terminal active; running without an active terminal exits the context first and enters it again only if the function returned no error. "
  "Adding context to an already active terminal panics rather than being silently ignored.",
  ["inputs", "fault_sequences", "histories"], "every combination of errors and panics from enter, the function, exit and close, and every nesting",
  "tests run on a pty-less CI and never fail an enter or exit, nor panic inside the function",
  ["term.go", "context.go"], [("RunWith/RunWithout", "term.go"), ("deferred exit/close", "term.go")])
P("C02", "Composed contexts enter in order and always unwind fully",
  "Entering a composition enters its members in order and stops at the first failure, returning that error; exiting and closing visit every member in reverse order even after failures, and return the first error encountered. "
  "Composing drops nil contexts, flattens nested compositions, keeps order, and never changes or shares storage with a composition built earlier. "
  "A terminal's own input, output, attribute and mode handling is entered before any context given by the user.",
  ["inputs", "fault_sequences"], "any list of contexts, any pattern of failures, any sequence of compositions",
  "tests compose a handful of contexts that never fail, and never build two compositions from one",
  ["context.go", "term.go"], [("Contexts", "context.go"), ("contexts.Enter/Exit/Close", "context.go")])
P("C05", "Terminal modes are set on entry and reset on exit, exactly",
  "Entering mode handling writes exactly the accumulated set sequences and exiting writes exactly the accumulated reset sequences, a failed write being reported to the caller. "
  "Adding a mode appends its set sequence and prepends its reset sequence, so that modes are reset in the reverse of the order they were set and none is left behind. "
  "Setting and resetting any one mode are the set-mode and reset-mode sequences (private where the mode is private) of that same mode number.",
  ["inputs", "fault_sequences"], "every mode value and every sequence of added modes, every write failure",
  "tests cover a few concrete modes on a happy path",
  ["mode.go", "ansi/modes.go"], [("Mode.AddMode/Enter/Exit", "mode.go"), ("Mode.Set/Reset", "ansi/modes.go")])
P("C06", "Decoding terminal bytes is total and follows the ECMA-48 grammar",
  "For every byte sequence, decoding an escape sequence, rune, number, point, attribute, mode or mouse report returns without panicking or reading outside the given bytes, and reports a consumed length between zero and the input length. "
  "A decoded escape consumes at least one byte, is either a string control or in U+EF00 to U+EFFF, is named by the final byte of its sequence (the intermediate byte for character set selections), and its argument is exactly the parameter and intermediate bytes before the terminator; an incomplete sequence decodes as nothing. "
  "A decoded number never exceeds 32 bits in magnitude; a number out of range or input without any number is reported as an error.",
  ["inputs"], "every finite byte sequence",
  "tests decode a few dozen well formed samples; malformed, truncated and adversarial bytes are unbounded",
  ["ansi/decode.go", "ansi/mouse.go", "ansi/escape.go"], [("DecodeEscape, DecodeSGR, DecodeNumber, ...", "ansi/decode.go")],
  tech="abstract interpretation of the SSA (bounds, ranges and grammar)",
  note="The grammar rule is decided for all byte values of an introducer followed by up to 3 (thorough: 5) bytes; the other rules for inputs of any length.")
P("C07", "Input decoding loops always make progress",
  "Every loop that decodes input (escape sequences, strings, numbers, attribute lists, mode lists, byte streams handed to a processor or to the event queue) advances a bounded position over its input, so decoding any input ends. "
  "Every rune or escape delivered stands for at least one newly consumed byte: nothing is delivered twice or invented. "
  "The number of bytes reported as processed lies between zero and the number given.",
  ["inputs"], "every finite byte sequence, however malformed",
  "a hang needs one particular malformed sequence; tests hold only well formed ones",
  ["ansi/decode.go", "buffer.go", "x/platform/event.go", "state.go", "cmd/to24bit/main.go"], [("Process", "buffer.go"), ("Events.DecodeBytes", "x/platform/event.go")],
  tech="abstract interpretation of the SSA (loop ranking measures, ghost counters)")
P("C03", "Terminal attributes are restored exactly as they were found",
  "Entering terminal attributes on a terminal records its settings and applies exactly the raw and echo changes asked for; leaving writes back exactly the settings recorded, whatever raw and echo changes were made in between. "
  "Choosing raw or echo before entering touches no device; after entering each change is applied at once; every failed device call is reported to the caller, and an enter that failed to record the settings never causes any to be written. "
  "The size query reports columns and rows the right way round, and a file whose attributes cannot be read is not a terminal.",
  ["inputs", "fault_sequences", "histories"], "every order of enter, exit, raw and echo calls, every initial terminal setting, every failure of a device call",
  "tests run without a terminal device: no attribute call succeeds there, none fails half way",
  ["attr.go", "attr_linux.go"], [("Attr.Enter/Exit/SetRaw/SetEcho", "attr.go")],
  note="Termios contents are tracked per flag word as symbolic initial bits; the linux build is the one analysed.")
P("C04", "Input and output files get their original flags back",
  "Leaving an input after entering it restores exactly the file flags found on entering, and switching non-blocking reads or notification on or off changes exactly that flag and no other. "
  "An output flush that would block clears only the non-blocking flag, writes again, and restores the flags whatever the second write does; a flush reports as written exactly the bytes written and returns the first error. "
  "A read asked to wait for input that would block clears only the non-blocking flag and reads again.",
  ["inputs", "fault_sequences", "histories"], "every order of operations, every initial flag word, every failure of a flag call, read or write",
  "EWOULDBLOCK in the middle of a flush, and failing flag calls, do not happen on the pipes and buffers tests use",
  ["input.go", "output.go"], [("Input.Enter/Exit/SetAsync/SetNonblock", "input.go"), ("Output.Flush", "output.go")])
P("C08", "Every escape identifier encodes to the standard's bytes",
  "A C0 control encodes as itself, a C1 control as ESC and its 7-bit byte, a control sequence as ESC [ arguments final byte, an escape sequence as ESC arguments final byte, a character set selection as ESC, set byte, arguments, and a string control that has an argument as its introducer, the argument and the string terminator; the bytes are appended after what the caller has, and what is no escape encodes to nothing. "
  "The size of an identifier is its exact encoded length, and the size given for a sequence is never less than what it encodes to. "
  "The ESC and CSI constructors, the final byte and name of an identifier, and the is-escape test agree with each other over their whole code ranges.",
  ["inputs"], "every identifier, every argument byte sequence and integer, every caller buffer",
  "tests encode a few named sequences; the identifier space has hundreds of members and sizes only matter at buffer edges",
  ["ansi/escape.go", "ansi/control.go"], [("Escape.AppendTo/AppendWith/Size", "ansi/control.go"), ("Seq.AppendTo/Size", "ansi/control.go")],
  tech="abstract interpretation of the SSA (symbolic byte contents)",
  note="The bound on sequence sizes is decided for up to 4 integer arguments of at most 9 digits.")
P("C09", "Attributes survive encoding, and merging and differencing agree",
  "Decoding the graphic rendition codes an attribute encodes as gives that attribute back, its size is its exact encoded length, and its foreground and background colours are kept apart and read back unchanged. "
  "Merging adds the flags and takes the colours set by the second attribute, or all of it when it clears; merging the difference between two attributes into the first gives the second (but for the clear marker). "
  "A 24-bit colour keeps its components, and every palette colour has its standard xterm definition.",
  ["inputs"], "every attribute: all flag sets, palette and 24-bit colours in both positions, and all pairs of them",
  "the space of attributes and of pairs is far beyond the samples in tests, and wrong differences only show for pairs that drop flags or colours",
  ["ansi/sgr.go"], [("SGRAttr.AppendTo/Size/Merge/Diff", "ansi/sgr.go"), ("DecodeSGR", "ansi/decode.go")],
  tech="abstract interpretation of the SSA (bit-level values)",
  note="Merging and differencing are decided for symbolic flags and colours; encoding for all flag sets, all palette colours and enumerated 24-bit components.")
P("C10", "Building on a sequence never changes another sequence",
  "A sequence encodes the argument bytes it was given in order, then its integers separated by semicolons; a point argument is encoded as row then column. "
  "Deriving a sequence from another one leaves the original, every sequence derived from it earlier, and any slice passed in by the caller, unchanged and unshared. "
  "What a sequence encodes therefore depends only on how it was built, whatever else is built from its parents.",
  ["inputs", "histories"], "every tree of derivations, argument lists up to the inline capacity and beyond",
  "aliasing only shows when two sequences are derived from one parent and the argument list just crosses a capacity boundary",
  ["ansi/control.go"], [("Seq.With/WithInts/WithPoint", "ansi/control.go")],
  tech="abstract interpretation of the SSA (heap aliasing)",
  note="Derivations are decided for all combinations of up to 2 (thorough: 3) arguments per step at each length class, with symbolic contents and slice capacities.")
P("C11", "Named controls, modes, and colours match the standards",
  "Every named control function has the code that ECMA-48 or DEC give it: control sequences, escape sequences, C1 controls and character set selections. "
  "Every named terminal mode has its standard number and its public or private introducer. "
  "Every named attribute and colour encodes as its standard graphic rendition code.",
  ["inputs"], "every exported name in the tables",
  "tests check a handful of the several hundred constants; a wrong one only shows on a real terminal",
  ["ansi/escape.go", "ansi/modes.go", "ansi/sgr.go", "ansi/funcs.go"], [("function table", "ansi/funcs.go"), ("mode table", "ansi/modes.go")],
  tech="constant evaluation of the type-checked program against the standards' tables")
P("C12", "Screen geometry is one-based and follows point-set algebra",
  "Constructing a point or rectangle with a coordinate below one, or converting one out of range to or from zero-based coordinates, panics; in range, rectangles come out ordered and conversion moves each coordinate by exactly one and back again. "
  "Membership, emptiness, equality, containment, overlap, intersection and union of rectangles agree with the sets of points they hold, for empty and reversed rectangles too. "
  "Translation, difference, scaling, size, inset and canonicalisation act component-wise and exactly.",
  ["inputs"], "all points and rectangles, including empty and reversed ones",
  "coordinates are unbounded and the interesting cases are boundaries (touching, empty, reversed) that samples miss",
  ["ansi/geom.go"], [("Point and Rectangle methods", "ansi/geom.go")],
  tech="abstract interpretation of the SSA (linear arithmetic case analysis)")
P("C13", "Mouse reports mean what the terminal sent",
  "An extended mouse report decodes to exactly its state bits, its column and its row, with a final m marking a release; a malformed report or a state over 255 is an error and yields no state; anything else is neither a report nor an error. "
  "Button number, modifiers, and the press, drag, motion and release tests follow the state bits for every state a terminal can report.",
  ["inputs"], "every report of the 256 states, and every other identifier and argument",
  "there is no test of mouse decoding beyond a few samples; wrong bits only show on some button and modifier combinations",
  ["ansi/mouse.go"], [("DecodeXtermExtendedMouse", "ansi/mouse.go"), ("MouseState methods", "ansi/mouse.go")],
  tech="abstract interpretation of the SSA (symbolic byte contents)",
  note="Reports are decided for every state byte with sample coordinates; the number decoder itself is covered by C06.")
P("C14", "The tracked cursor is where the terminal's cursor is",
  "Moving a cursor, showing or hiding it, merging an attribute, or applying a whole cursor state emits output that brings a terminal from any state consistent with what is tracked to exactly the tracked result, and nothing when it is already there. "
  "What is not known of the terminal (position, attribute, visibility) is set absolutely. "
  "Processing output moves the tracked position by exactly the motions, absolute positions, line ends and graphic runes in it, merges attributes, follows cursor visibility, and ignores what is malformed or is none of these.",
  ["inputs", "histories"], "every position, target, attribute pair and visibility history, and every combination of what is known",
  "tests move a cursor between a few points; vertical moves, unknown starts and attribute removals are combinations they do not reach",
  ["state.go"], [("Cursor.To/Show/Hide/MergeSGR/ApplyTo", "state.go"), ("Cursor.ProcessANSI", "state.go")],
  tech="abstract interpretation of the SSA (output played on a model terminal, symbolic positions)",
  note="Targets are within the screen: a line feed on the last row, and the pending wrap after its last column, are not modelled.")
P("C15", "Buffered output is accounted exactly once and written out unchanged",
  "Every byte written to a buffer, a virtual cursor or a virtual screen is handed to its tracked state exactly once and in order, by processing it or by the operation that wrote it; an incomplete tail is handed over again with what follows, and exactly the bytes written come out. "
  "After a complete write the real cursor is the tracked one; after one that would block only the rest remains to be written and the real cursor is unknown; after any other failure the rest is dropped and both are unknown. "
  "A reset drops what is unwritten and returns to the real cursor; discarding drops exactly what was processed.",
  ["histories", "inputs", "fault_sequences"], "every pair of operations from the start, written in full, in part, or not at all",
  "a byte counted twice or not at all only shows in later output, and partial writes do not happen to the in-memory writers of tests",
  ["buffer.go", "cursor.go", "screen.go"], [("VirtualCursor.Write*/To/Apply/WriteTo/Reset", "cursor.go"), ("Buffer.Process/Skip/Discard/WriteTo", "buffer.go"), ("VirtualScreen.Write*", "screen.go")],
  tech="abstract interpretation of the SSA (symbolic buffer contents, modelled bytes.Buffer)",
  note="Histories of up to three operations with a write, reset or failure after each; decoding itself is C06 and C07.")
P("C16", "Processing output on a screen does what a terminal would",
  "A graphic rune is put, with the current attribute, in exactly the cursor's cell, and the cursor moves on to the next cell, never off the screen. "
  "Cursor motions and positions move by what was asked, kept within the screen; erasing clears exactly the region before, from or around the cursor, its cell included; a line feed on the last row scrolls every row up by one; graphic rendition and cursor visibility are followed. "
  "Every other cell, and whatever is malformed or not supported, is left alone; clearing, moving and resizing a screen give the documented state.",
  ["inputs", "histories"], "every cursor position and all cell contents on screens of several shapes, for each supported control with and without argument",
  "tests draw a few strings in the middle of a screen; the last column, the last row, omitted arguments and oversized motions are where emulation goes wrong",
  ["screen.go", "grid.go"], [("Screen.ProcessANSI", "screen.go"), ("Screen.To/Clear/Resize", "screen.go")],
  tech="abstract interpretation of the SSA (symbolic cells on screens of known size)",
  note="Screens of a few concrete sizes (thorough: more), every cursor position, symbolic contents; full screens only. Filling the last cell does not scroll.")
P("C17", "Sub-grids share exactly their part of a grid",
  "A sub-grid or sub-screen covers the part of the rectangle asked for that is within the grid and shares its storage (the zero grid if it starts outside); the full grid is recovered from any sub-grid, and a sub-screen's cursor is kept inside its bounds. "
  "Exactly the points within bounds have an offset, each its own; clearing zeroes, and equality compares, exactly the cells within bounds. "
  "Resizing, in any order of sizes, leaves a grid of the size asked for with room for every cell, keeps a sub-grid within its storage, and reports whether the size changed.",
  ["inputs", "histories"], "all rectangles and points against grids, every sub-grid of several shapes, sequences of resizes",
  "tests use one grid size with a few sub-grids; bands, corners and nested sub-grids have different arithmetic",
  ["grid.go", "state.go"], [("Grid methods", "grid.go"), ("Screen.SubRect", "state.go")],
  tech="abstract interpretation of the SSA (symbolic rectangles and cells)",
  note="SubRect, SubAt and SubSize are decided for all rectangles, the rest on grids of a few concrete sizes with symbolic contents; reversed rectangles are only clamped.")
P("C18", "Drawing changes exactly the common cells, as the styles say",
  "Drawing a grid or a bitmap into a grid changes only the cells in the part they have in common; without a style each becomes the source's cell or braille rune, with styles what these make of it given its place and its own prior and source contents, and a zero rune leaves it alone. "
  "A combination of styles applies each of them once and in order, and making it changes no other combination nor the caller's list. "
  "Each of the package's styles replaces, fills or keeps runes and attributes as it documents.",
  ["inputs", "histories"], "every pair of sub-grids of several grids, all cell contents and all styles; every nesting of combinations",
  "tests draw one or two shapes; row strides, clipping on either side and shared combinations go wrong only for some pairs",
  ["draw.go", "style.go"], [("DrawGrid/DrawBitmap", "draw.go"), ("Styles and the styles", "style.go")],
  tech="abstract interpretation of the SSA (symbolic cells, opaque styles, heap aliasing)",
  note="Grids of a few concrete shapes with all their sub-grids and symbolic cells; source and destination are different grids.")
P("C19", "A bitmap's runes have exactly the dots of its bits",
  "The braille rune at a point has exactly the dots of the bits that are set and within bounds, for sub-bitmaps too; each point within bounds has a bit of its own, and elsewhere bits read as unset and setting changes nothing. "
  "Loading, resizing and parsing give a bitmap of exactly the bits given, and refuse what is uneven or not a usable pattern; what the caller holds beyond its data is left alone. "
  "Writing a bitmap prints each of its runes once, in its row and column, with the rune and attribute its styles make of it.",
  ["inputs"], "all bit contents of bitmaps of several shapes with all their sub-bitmaps, every point, and every style",
  "tests parse and write one or two even bitmaps; partial cells at edges, sub-bitmaps and attributes that end are what they miss",
  ["bitmap.go", "render.go"], [("Bitmap methods and ParseBitmap", "bitmap.go"), ("WriteBitmap", "render.go")],
  tech="abstract interpretation of the SSA (symbolic bits, output played on a model terminal)",
  note="Bitmaps of a few concrete shapes with symbolic bits; parsing on sample patterns and lines.")
P("C20", "Screen updates leave the terminal showing exactly the new screen",
  "After an update, or a grid written over a prior screen, the terminal displays exactly the cells of the new one whatever it displayed before, the cursor is hidden or where and as asked, and the state returned is the terminal's and its own. "
  "A deferred screen that was written is displayed, after earlier writes that blocked or failed too: what blocked is resumed once and in order, and what failed, was invalidated or resized is drawn in full. "
  "Entering a terminal sizes and redraws the screen; exiting leaves the terminal with a visible cursor and without attributes, and the screen blank.",
  ["inputs", "histories", "fault_sequences"], "contents combining cells of every kind, what is known of the terminal before, sequences of draws, writes, partial and failed writes, resets and resizes",
  "tests compare a few outputs; a cell or cursor tracked wrongly shows only in a later update, and partial writes do not happen in tests",
  ["render.go", "screen.go", "state.go"], [("WriteGrid", "render.go"), ("Screen.Update", "state.go"), ("ScreenDiffer.WriteTo, TermScreen.Enter/Exit", "screen.go")],
  tech="abstract interpretation of the SSA (output played on a model terminal with pending wrap)",
  note="Screens of a few concrete sizes over every kind of cell before and after; erasing is taken to give cells without attribute, and cells hold graphic runes.")
P("C21", "Decoding does not depend on how the bytes arrive",
  "Splitting a stream anywhere between two writes to a buffer, or two reads of an input, delivers the same escapes, arguments, runes and order as the whole stream at once: an incomplete escape sequence or rune is kept, unchanged, until the rest of it comes. "
  "A buffer still writes out exactly the bytes it was given, and nothing is delivered twice or lost; when no more can come, what is left is delivered as it stands. "
  "Except that a lone ESC which ends a read may be taken as the escape key, and that a string control must come in one piece when processing output.",
  ["inputs", "histories"], "every point of splitting streams of every kind of control, rune, string, and malformed or cancelled sequence, for every byte of each class",
  "tests feed whole sequences; a terminal or pipe may cut one at any byte, which in-memory tests do not do",
  ["buffer.go", "input.go", "ansi/decode.go"], [("Buffer.Process", "buffer.go"), ("Input.Decode", "input.go"), ("DecodeEscape", "ansi/decode.go")],
  tech="abstract interpretation of the SSA (symbolic bytes, whole and split histories compared)",
  note="Streams are of known length with symbolic bytes of each class, split once (thorough: longer streams).")
P("C22", "Every byte read is taken, and recorded, exactly once",
  "Reading input appends every byte the file gives, once and in order, to what was left unread, and returns their count; end of input and failures are reported and tracked, while a read that would block is no failure and, when asked for more, is waited for. "
  "While recording, each read writes its time, its failure if any, and exactly the bytes it read; a recording that fails is reported. "
  "Replaying a recording gives back the reads one by one with their times, failures and bytes, whatever those bytes are, and passes other messages through in order.",
  ["inputs", "histories", "fault_sequences"], "histories of blocking and non-blocking reads that give any bytes, would block, end or fail, with and without recording",
  "tests read from pipes that give all at once and neither block nor fail; recording and replay are not tested at all",
  ["input.go"], [("Input.ReadMore/ReadAny", "input.go"), ("Input.SetRecording", "input.go"), ("ReadInputReplay", "input.go")],
  tech="abstract interpretation of the SSA (symbolic bytes, modelled file and buffer)",
  note="Histories of up to five reads; the bytes read contain no complete application program command themselves.")
P("C23", "The filters lose nothing of what passes through them",
  "The to24bit program writes out everything it reads, in order and as it was (but for equivalent encodings of C1 controls), however its input is cut into reads, except that each legacy foreground or background color becomes the same color in 24 bits, its other attributes kept. "
  "The decode program, when not on a terminal, writes each rune as it is and shows each escape with its argument (or drops it, if stripping), once and in order. "
  "Both end without failure at the end of input with all their output flushed, and report any other failure.",
  ["inputs", "histories", "fault_sequences"], "streams of every kind of control, rune and string, split at any byte; every palette color in both positions",
  "the programs have no tests, and losses show only where a read happens to end within a sequence",
  ["cmd/to24bit/main.go", "cmd/decode/main.go"], [("to24bit main", "cmd/to24bit/main.go"), ("decode runBatch", "cmd/decode/main.go")],
  tech="abstract interpretation of the SSA (symbolic bytes, modelled files)",
  note="Streams of known length with symbolic bytes of each class, split once; strings that end with BEL are not recognised.")
P("C24", "Color models convert as they say and compose in order",
  "A combination of color models passes every color through each of its non-nil models, in order and once, and making one changes neither another combination nor the caller's list. "
  "A color map gives what it maps or else the color itself (the canonical one: a palette color of just that definition), and a theme its own colors, then those of the 8-bit palette, leaving 24-bit colors alone. "
  "Limiting to a palette gives, for any color, the palette's color closest to it in RGB space, the first of those equally close, and black when the palette is empty.",
  ["inputs", "histories"], "every color, any models (as unknown functions) combined in any shape, palettes of any colors",
  "tests convert a few colors by a few models; aliasing between combinations and near ties do not arise there",
  ["ansi/colors.go", "ansi/sgr.go"], [("ColorModels", "ansi/colors.go"), ("SGRColorMap/ColorTheme/Palette.Convert", "ansi/colors.go"), ("Palette.Index", "ansi/colors.go"), ("RGBA", "ansi/sgr.go")],
  tech="abstract interpretation of the SSA (symbolic colors; opaque models; polynomial distances compared by linear entailment)",
  note="Palettes of up to three unknown colors, three in one component (thorough: two).")
P("C25", "Input events are queued once and answered once",
  "Decoding input or bytes puts each rune, escape sequence and mouse report in the event queue once, in order and as what it is (a mouse report with its state and position), keeping its own copy of any argument; clearing leaves none. "
  "Each query (terminal rune, runes, presses within or outside a rectangle, scrolling, cursor movement, last mouse event, emptiness) counts each event that matches it once and no other, strikes out just the events it says it strikes, and never counts what was struck out before.",
  ["inputs", "histories"], "queues of every kind of event, mouse reports on and around the edges of a rectangle, and queries one after another",
  "the queue is only tested through a few keys of the line editor; aliasing with the input buffer and repeated queries do not arise there",
  ["x/platform/event.go"], [("Events.DecodeInput/DecodeBytes", "x/platform/event.go"), ("Events.CountRune...", "x/platform/event.go")],
  tech="abstract interpretation of the SSA (event alphabets, reference answers)",
  note="Queues of up to three events; a C1 control may be queued as a rune or as an escape.")
P("C26", "Line editing does what the keys say",
  "For any text and cursor, a graphic rune is inserted at the cursor, delete removes the rune before it, left and right move it within the text, enter submits and escape cancels; only such keys are struck out, and none is taken once the line is submitted or canceled. "
  "While editing, the part of the text around the cursor (all of it if it fits) is drawn from the left of the box, the terminal's cursor is shown at the cursor, and nothing else is drawn over. "
  "Reset makes the line empty and ready.",
  ["inputs", "histories"], "texts of runes of every size, the cursor anywhere, every key and pair of keys, any view and width of the box",
  "tests type and delete at the end of ASCII text; nothing is edited within multi-byte text",
  ["x/platform/editline.go"], [("EditLine.Update", "x/platform/editline.go"), ("EditLine.handleGraphicRune/handleControlRune/handleArrowKeys", "x/platform/editline.go")],
  tech="abstract interpretation of the SSA (all texts and cursors up to a bound, inductive over one or two keys)",
  note="Texts of up to three runes when editing (thorough: four) and six when drawing, of the four UTF-8 sizes; no wide or combining runes.")

P("C27", "Frames of a platform run",
  "Each frame gives the client, once, exactly the input that arrived since the last frame, the frame's time, and a blank screen of the terminal's size, and tells it of a redraw in the first frame, after a resize or Ctrl-L; when the frame succeeds the terminal shows what the client drew, in full if others have drawn over the terminal before such a redraw, a reported resize or a suspension. "
  "The first failure (a stop signal, reading input, the client, showing the frame, a background worker) ends the run and is what Run returns, and nothing of a frame that failed earlier is shown. "
  "Whenever Run returns, or the process is suspended, the terminal's attributes, file flags, modes and cursor are as they were found, and no signal a run waits for is lost.",
  ["inputs", "histories", "faults"], "scripts of frames with input in parts, resizes, signals, failures and suspensions in any order",
  "the frame loop is not tested at all: tests cannot easily deliver signals, failing reads and writes, and resizes at chosen frames",
  ["x/platform/platform.go", "term.go", "input.go", "screen.go"], [("Run/Platform.Run/Context.Update", "x/platform/platform.go"), ("Term.RunWith/Suspend", "term.go"), ("Input.Notify/ReadAny", "input.go"), ("ScreenDiffer.WriteTo", "screen.go")],
  tech="abstract interpretation of the SSA from platform.Run (modelled operating system, reference terminal)",
  note="Scripts of up to five frames on terminals of up to 15 cells; a client clears its screen before it draws. No replay, recording, pausing or overlay.")
P("C28", "Background workers and the log",
  "Background goroutines of the platform share no memory with the frame loop that either writes without a common lock, wait for nobody while they hold one, and never make Start, Notify, Stop or SetFile wait for ever; a worker has ended by the time Stop returns. "
  "What is logged while a log file is set is written to that file once and in order, what was logged before a Notify after the worker's next turn and all of it by the time Stop returns or the file is replaced (and closed, once); telemetry data is written likewise as JSON lines, a failure to write is reported by a later Notify, Stop or SetFile, and all workers are stopped whichever fails. "
  "The log in memory is what was logged and not yet read, with the place of the end of each of its lines.",
  ["schedules", "histories", "faults"], "every pair of accesses by two goroutines; histories of logging, notifying, starting, stopping and changing files, with the worker's turns and failing writes at any point",
  "no test starts a background worker, sets a log file or runs with the race detector",
  ["x/platform/log.go", "x/platform/bg.go", "x/platform/diag.go"], [("LogSink.Write/Read/Contents/SetFile/Start/Stop", "x/platform/log.go"), ("bgWorkerCore/BackgroundWorkers", "x/platform/bg.go"), ("telemetryCollector", "x/platform/diag.go")],
  tech="lockset and lock-order analysis over the call graph, and abstract interpretation of the SSA of histories of two goroutines",
  note="Histories of up to about a dozen operations; telemetry resource usage is checked for being well formed only.")

P("C29", "Sessions are recorded and replayed",
  "Ctrl-R starts a recording of a session, and the next one ends it and the run, as replay done; each run from then on starts with the platform's and the client's state of when the recording started, and gives the client the recorded input read by read, with its times, on a screen of the size the terminal had, and no live input, until it ends as replay done. "
  "A space holds a replay, in which nothing more of it passes but by single steps, and the next lets it go on; Ctrl-C stops it, and the frame and those after it are live again on the terminal as it is; stop signals end the run at any time. "
  "A recording that cannot be started is logged, closed and removed, and the run goes on, while failing to add to one or to read it back ends the run with that error; no file is left open.",
  ["inputs", "histories", "faults"], "sessions of frames with any input, resizes, pauses, recordings and replays, and failures of any operation on the recording",
  "recording and replaying sessions is not tested at all but for one round trip of the state",
  ["x/platform/replay.go", "x/platform/state.go", "x/platform/platform.go", "input.go"], [("replay.update", "x/platform/replay.go"), ("Platform.toggleRecRep/setRecording/loadReplay", "x/platform/replay.go"), ("Context.Update", "x/platform/platform.go"), ("Platform.readState/writeState", "x/platform/state.go"), ("ReadInputReplay", "input.go")],
  tech="abstract interpretation of the SSA from platform.Run (modelled operating system, files and encoding, reference terminal)",
  note="Sessions of up to twelve frames; input sequences that arrive in one read; encoding/gob is taken to give back what it was given (a client should start from its zero value, which gob does not transmit). A size changes with the first frame after the input of the frame it changed in.")

P("C30", "Descriptions of terminals",
  "Reading a compiled terminfo entry gives each key and function the string that the entry holds for the capability of that name, whatever its length and the sizes of the entry's sections, and nothing for one the entry does not have; what is no entry, or is cut short, is an error. "
  "Loading a terminal takes the first entry that can be read in the search path of terminfo(5), or else a builtin description of that or a compatible terminal, gives the same again the next time, and fails for a name that is empty or known nowhere. "
  "Each builtin has the keys and functions of its terminal, and the maps of keys and functions have each under its own name.",
  ["inputs", "faults"], "entries with sections of any size, strings of any length, reads of any size and failing ones; environments and files found in the search path",
  "no test reads an entry or a search path; the builtins are only tested for being decodable",
  ["terminfo/read.go", "terminfo/terminfo.go", "terminfo/builtin.go"], [("Terminfo.ReadFrom", "terminfo/read.go"), ("Load/SearchPath", "terminfo/terminfo.go"), ("GetBuiltin", "terminfo/builtin.go"), ("KeyMap/FuncMap", "terminfo/terminfo.go")],
  note="Entries with 16-bit numbers and of up to a few KiB, as terminfo(5) describes; builtins against ncurses' database; the name of an entry is not claimed.")
P("C31", "Platform configuration, profiles and ticker",
  "A platform is made with what its options and command line flags configure (a name given earlier wins, timing is on if any says so; flags are parsed once, when they were not and no configuration was given), with each named file created and used for what it is named for, frames at the rate asked for, and timing measured and logged as configured; when that fails New and Run return an error and nothing runs. "
  "Entering starts the configured profiles into emptied files, leaving ends all of them and writes them out whatever else fails, and returns the first error; a profile may be started, stopped and given another file at any time in between, and no file is used once it is closed. "
  "A ticker ticks while it is entered; waiting on one that is not, or that is exited meanwhile, ends.",
  ["inputs", "histories", "faults"], "configurations, command lines and failing operations; histories of entering, leaving, starting, stopping and creating with each operation failing in turn",
  "tests never configure a file, run no profile and no operation on one fails",
  ["x/platform/config.go", "x/platform/options.go", "x/platform/tick.go", "x/platform/platform.go"], [("Config.AddFlags/Merge/setup", "x/platform/config.go"), ("Config.Enter/Exit", "x/platform/config.go"), ("New", "x/platform/platform.go"), ("Ticker", "x/platform/tick.go")],
  note="What profiles contain, and messages logged about them, are not claimed.")
P("C33", "The log view",
  "The log view shows the log's last lines, or the ones it was scrolled to, each in a row of its own at the bottom of the screen and cut to its width: one line, or under a heading as many as there are, were asked for and fit when it is expanded, and draws over nothing else. "
  "It takes presses of its top row, each of which expands or collapses it, and turns of the wheel over it, each of which scrolls it a line, not past either end of the log, and no other input. "
  "As more is logged, a view at the end of the log follows it, and one that was scrolled away stays where it is.",
  ["inputs", "histories"], "logs of any lines, screens, view states and mouse input",
  "no test draws the log view",
  ["x/platform/hud.go", "x/platform/log.go"], [("LogView.Update", "x/platform/hud.go"), ("LogView.viewWindow/scrollBy", "x/platform/hud.go"), ("writeTruncated", "x/platform/hud.go"), ("LogSink.Contents", "x/platform/log.go")],
  note="Logs of up to 28 lines without control characters, on screens of up to 15 rows that are as wide as the heading; an expanded view on a single row is not claimed.")
P("C32", "The debug overlay",
  "Whatever the overlay shows and however small the screen, drawing it ends and never panics; the client is updated exactly once a frame, before the overlay is drawn, with all input but Ctrl-K, and its failure is returned. "
  "Ctrl-K shows and hides the overlay; while it is hidden it draws nothing and takes no other input. "
  "Pressing a control does what it is labelled with and nothing else: the clock, the frame rate and the profile indicator show and hide their details, and these pause and resume, switch what is measured and logged, start, stop and add profiles, and name the file that telemetry goes to; such presses are struck out.",
  ["inputs", "histories"], "screens of any size, settings of the overlay and sequences of frames with keys and presses of its controls",
  "no test draws the overlay",
  ["x/platform/hud.go", "x/platform/diag.go", "x/platform/config.go"], [("HUD.Update", "x/platform/hud.go"), ("HUD.drawTimingDetail/drawProfDetail/drawFPSDetail/drawTelemetry", "x/platform/hud.go"), ("HUD.drawPProfSelector/drawFileEditRow/drawButton", "x/platform/hud.go")],
  note="Screens of 1-60 columns and 1-34 rows; what figures are shown, and colors, are not claimed; that the client is given presses of the overlay's controls as well is not judged.")
P("C34", "Signals reach those that wait for them",
  "A signal once opened or entered has a channel, notified of exactly the signals it is for (none, if it is for none) until it is closed, also while the terminal is left; it holds the first signal that arrives, or is sent by hand, whether or not it was open, until it is asked for, which gives that signal, and neither sending nor asking ever waits. "
  "Input notification goes to the channel last given to the input, and to no other, until that is replaced or closed, whatever changing file flags gives. "
  "Suspending without the terminal stops the process only when it can hear of being continued, returns after that or with the failure, and leaves no notification behind; a signal as an error is that signal, and exits with minus its number (1 if it has none).",
  ["inputs", "histories", "faults"], "histories of opening, entering, leaving, closing, sending, arriving signals and asking; histories of notification with failing flag changes",
  "tests open one signal once; no test replaces or closes an input's notification, or suspends",
  ["signal.go", "input.go", "term.go"], [("Signal.Open/Close/Send/AsErr", "signal.go"), ("Input.Notify/Close", "input.go"), ("Term.Suspend", "term.go"), ("SignalError.ExitCode", "signal.go")],
  note="Histories of up to 4 (thorough: 5) steps, one signal or input at a time, used by one goroutine; MustRun, which ends the process, is not claimed.")
