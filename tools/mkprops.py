#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
UT="src/unix/terminal.rs"; US="src/unix/screen.rs"; B="src/buffer.rs"; T="src/terminal.rs"; S="src/screen.rs"

p("C01","Accepted output reaches the device exactly once, in order",
"For any sequence of output operations and flushes on a terminal, and any pattern of short or interrupted device writes, the bytes the device receives are exactly the bytes of the successful operations, in program order, none lost, repeated or altered, and a successful flush (or releasing the write guard) leaves none undelivered. When a device error is reported, output accepted before it and not yet delivered is kept and is delivered, once and in order, by a later successful flush.",
["inputs","fault_sequences","histories"],
"every sequence of writes of any sizes (around and above the internal buffering), every pattern of short writes, EINTR and transient errors returned by the device",
"No existing test writes to a device at all; short writes and EINTR never occur in a test run.",
[UT],[("buffered writes and flush","%s: write_bytes, flush, write_data"%UT)],
[("out_buffer","accepted, undelivered output","%s: Writer"%UT)],["bytes received by the device","results of write/flush calls"])

p("C02","After a refresh the terminal shows exactly the screen buffer",
"After a successful screen refresh (explicit, or on release of a screen write guard), whatever history of writes, clears, attribute changes, resizes and earlier refreshes came before, every cell of the terminal shows the character, combining marks, colors and style held by the screen buffer, including wide characters and their replacement by other text. The terminal's cursor is then at the screen's cursor position, or at the last cell when that position is outside the screen. This also holds for a refresh that succeeds after an earlier one failed with a device error or was slowed by short or interrupted writes.",
["histories","inputs","fault_sequences"],
"every history of buffer operations, resizes and (possibly failing) refreshes, for every screen size (also without lines or columns, where nothing is shown and nothing fails); combining marks have zero display width",
"Tests check only the in-memory buffer after one or two writes; nothing compares a terminal's display with the buffer, and the incremental redraw depends on the whole history.",
[US,B],[("incremental refresh","%s: ScreenWriteGuard::refresh"%US),("changed-cell iteration","%s: next_cell"%B)],
[("back_buffer","cells believed to be on the terminal","%s: ScreenBuffer"%B),("real_cursor","believed terminal cursor","%s: Writer"%US)],
["bytes received by the device, interpreted by a terminal model"])

p("C03","Screen text is laid out by the grid rules and clipped to the screen",
"Writing text places each printable character in the cell at the cursor with the current attributes and advances the cursor by the character's width, continuing on the next line at the right edge; a tab fills with spaces to the next multiple of 8 or the edge, CR and LF move the cursor, combining marks join the preceding character, control and zero-width characters are ignored, and a wide character is never split over two lines nor left half overwritten. Text beyond the last cell, or positioned outside the screen, is dropped without changing any other cell and without panicking. A styled write leaves no attributes in force afterwards, clipped or not, unless its position was outside the screen and it was ignored.",
["inputs","histories"],
"all texts, positions, attributes and histories on all screen sizes, including none at all",
"Four unit tests check a handful of strings at fixed sizes; interactions of width, position, edge and previous contents are combinatorial.",
[B,S],[("cell writing","%s: write_char, write_styled, write_at"%B)],
[("cursor","next write position","%s: ScreenBuffer"%B)],["Screen::cursor()","display after refresh"])

p("C04","A resize event resizes the screen, keeps what fits, and forces a full repaint",
"When a resize event is read through a screen, the event and the screen's size both equal the device's size at that time; every cell inside both the old and the new size keeps its content and attributes (a wide character cut by the new right edge becomes blank) and all other cells are blank. The cursor position and attributes are unchanged, and the next refresh repaints the whole terminal so that nothing of the old display remains. A change that happens while the screen is being opened, or while an earlier one is being read, is reported as well.",
["histories","inputs"],
"every history of writes, refreshes and resizes between any two sizes, including none at all",
"Resizing needs a device and a signal; no existing test performs one.",
[B,US,UT],[("resize","%s: resize, resize_buffer; %s: update_size"%(B,US))],
[("size","current grid size","%s: ScreenBuffer"%B)],["Screen::size()","events","display after refresh"])

p("C05","Text on a terminal carries exactly the attributes in force when it was written",
"For any sequence of attribute operations (setting or removing foreground and background colors, adding, removing and setting styles, themes, clearing, styled writes), issued through the terminal or a write guard, text written afterwards is displayed with exactly the foreground, background and styles then in force, as far as the terminal type supports them; changing or removing one attribute never disturbs another. A styled write leaves no attributes in force.",
["histories","configurations"],
"every sequence of attribute operations and writes; every ANSI-compatible terminal type, including those whose exit-underline or exit-italics capability resets all attributes",
"Attribute tracking is incremental over the whole history; no test drives the terminal writer.",
[UT,T],[("attribute tracking","%s: set_fg, set_bg, add_style, remove_style, set_style, set_attrs, clear_attributes"%UT)],
[("fg/bg/cur_style","attributes believed in force on the device","%s: Writer"%UT)],["bytes received by the device, interpreted by a terminal model"])

p("C06","Cursor and erase commands have exactly the requested effect on the terminal",
"Moving up, down, left or right by n moves the terminal's cursor exactly n cells in that direction (stopping at the edge, not at all for n = 0), for every n however large; moving to the first column, clearing the screen, clearing to the end of the line or of the screen, setting the cursor mode, and writing text or formatted text have exactly their documented effect on the display and cursor, in program order with everything else written, whether issued through the terminal or a write guard.",
["histories","inputs"],
"every sequence of terminal operations with every count, on any terminal size",
"No test observes terminal output.",
[UT,T],[("cursor and erase output","%s: move_*, clear_*, move_to_first_column, set_cursor_mode"%UT)],
[],["bytes received by the device, interpreted by a terminal model"])

p("C07","Input bytes become events without loss, duplication or invention",
"For any input bytes, however they are split over device reads, reading events consumes the bytes in order, each byte in exactly one event: the longest known key sequence present becomes that key, any other character becomes the key for that character, and a character split over reads is reassembled. Malformed UTF-8 is reported as an error, consumed, and does not prevent the following input from being read; no input causes a panic.",
["inputs","histories"],
"all byte strings and all ways of splitting them over reads",
"No test feeds input to the decoder; the decoder is a function of arbitrary byte streams and their chunking.",
[UT,"src/sequence.rs"],[("event decoding","%s: peek_event, utf8_prefix, try_read, read_into_buffer"%UT)],
[("in_buffer","input read but not yet consumed","%s: Reader"%UT)],["results of read_event"])

p("C08","Mouse reports decode to the event they encode",
"On xterm-like terminals, a complete mouse report decodes to one mouse event with the position counted from zero, the modifiers, and the button press, button release, wheel or motion that it encodes, for every button code, position and terminator, consuming exactly the report. Malformed reports (missing, zero or too large numbers, wrong separators or terminator) never yield a mouse event and never panic.",
["inputs"],
"all reports: all button codes, coordinates, separators and terminators, well-formed or not",
"No test decodes mouse input.",
[UT],[("mouse decoding","%s: parse_mouse_data, parse_integer, mouse_button_event"%UT)],[],["results of read_event"])

p("C09","Raw reads, event reads and waits share one ordered input stream",
"Mixing raw reads (of any buffer size), event reads and waits in any order never loses, repeats or reorders input: a raw read first returns bytes already read but not yet consumed by events, bytes it does not return stay available, and a wait consumes nothing. A raw read returns at most as many bytes as the caller's buffer holds and reports exactly how many.",
["histories","inputs"],
"all interleavings of raw reads, event reads and waits over all inputs and chunkings",
"No test performs input; the interplay depends on leftover bytes of earlier reads.",
[UT],[("raw reading","%s: read_raw, read_input, wait_event"%UT)],
[("in_buffer","input read but not yet consumed","%s: Reader"%UT)],["results of read_raw/read_event/wait_event"])

p("C10","Restoring returns the terminal to its state before the matching prepare",
"For any nesting of prepare calls with any configurations, restoring with the most recent state returns everything the prepare changed to what it was before that prepare: the terminal attributes of the device, the process's signal dispositions, keypad and mouse reporting modes of the terminal, and the set of signals reported as events. When the outermost state has been restored nothing of the preparation remains.",
["histories","configurations"],
"every nesting of prepare/restore, every configuration, every initial device state and signal disposition",
"No test calls prepare or restore; nesting and configuration combinations are unbounded.",
[UT],[("prepare/restore","%s: prepare_with_lock, restore_with_lock"%UT)],
[("PrepareState","saved state","%s: PrepareState"%UT)],["tcgetattr of the device","sigaction","device modes","events"])

p("C11","A prepared terminal is in the requested input mode, also after being continued",
"While a preparation is in effect, the device is in unbuffered, unechoed mode without CR/LF translation; generates signals from input exactly if they are not blocked; uses flow control exactly if enabled; and keypad and (on xterm-like terminals) mouse and motion reporting are enabled if requested (motion is not reported if it is not); input can be read as soon as it is there. When the process is continued after a stop and input is next read, the innermost preparation in effect is applied again in full, whatever happened to the device meanwhile, and a preparation that has been restored is never re-applied.",
["configurations","histories"],
"every configuration, initial device state, nesting depth and point at which the continue signal is read",
"No test calls prepare; continue handling needs a signal and a device.",
[UT],[("prepare","%s: prepare_with_lock"%UT),("resume","%s: resume, handle_signal"%UT)],
[("resume","configuration to re-apply","%s: Reader"%UT)],["tcgetattr of the device","device modes"])

p("C12","Signals are reported exactly as configured and none is lost",
"While a terminal is prepared, each signal in the configured set that arrives is returned by a later read as that signal event, a window-size change is always returned as a resize event carrying the current size, and signals outside the set are never reported; several different pending signals are all reported, whatever their arrival order, and input bytes are unaffected. A signal that arrives while a read or wait is blocked ends the blocking.",
["schedules","histories","configurations"],
"every set of reported signals and every arrival pattern relative to the reading calls and their system calls",
"No test raises a signal; arrival points inside a call are a matter of scheduling.",
[UT],[("signal slot","%s: handle_signal, get_signal, take_signal, read_input, wait_event"%UT)],
[("LAST_SIGNAL","pending signals","%s"%UT)],["results of read_event/read_raw/wait_event"])

p("C13","Waits respect their timeout",
"A wait or read with a timeout returns as soon as input or a reportable signal is available, and otherwise reports a timeout, not before the given time (to the millisecond) has elapsed and not after it, even when unrelated signals interrupt it repeatedly; without a timeout it never reports one while nothing happens. Every duration is accepted, from zero to the largest representable one.",
["inputs","schedules"],
"every duration, every pattern of interruptions and arrival times",
"No test waits; interruption timing and extreme durations are not sampled.",
[UT],[("waiting","%s: wait_event, to_timeval"%UT)],[],["results and virtual elapsed time of wait_event/read_event/read_raw"])

p("C14","A held lock guard gives exclusive, unbroken access",
"While a thread holds a write guard of a terminal or screen, or executes one output macro or one output call, no output and no buffer change of another thread takes effect: its output is contiguous at the device and its buffer changes are atomic. At most one read guard and one write guard exist at a time per terminal; a try-lock never blocks, fails exactly when the lock is held, and leaves nothing locked when it fails. After a thread has panicked while it held a guard, acquiring that lock, waiting or trying, reports it as poisoned and still gives a working guard.",
["schedules"],
"all interleavings of any number of threads using the terminal or screen",
"Single-threaded tests cannot interleave; even threaded tests sample few schedules.",
[UT,US,"src/macros.rs","src/priv_util.rs"],[("locks","%s: lock_read, lock_write, try_lock_*; %s: lock_write, try_lock_write"%(UT,US))],
[("reader/writer","mutexes","%s: Terminal; %s: Screen"%(UT,US))],["device output","lock results"],
"mortal_verif cfg: mutex acquire/release events")

p("C15","Using locks in the documented order never deadlocks",
"Any number of threads that call the operations of a terminal or screen, or hold its guards and use them, acquiring the read lock before the write lock whenever they hold both, never deadlock: every operation eventually completes once the guards it waits for are released.",
["schedules","programs"],
"all interleavings of all operations by any threads obeying the documented lock order",
"Deadlocks need particular interleavings of several threads; the tests are single-threaded.",
[UT,US],[("lock order","%s: prepare, restore, handle_signal; %s: lock_write, read_event"%(UT,US))],
[("reader/writer","mutexes","%s: Terminal; %s: Screen"%(UT,US))],["lock acquisitions"],
"mortal_verif cfg: mutex acquire/release events")

p("C16","Dropping a screen or terminal restores the device, even after failures",
"When a screen is dropped, the device leaves screen mode and returns to the terminal attributes, signal dispositions and modes it had before the screen was opened, with a visible cursor; when a terminal is dropped the cursor is visible and a device it opened itself is closed. This also holds when opening the screen failed half-way, when a thread panicked while holding a guard, and when some of the device operations fail: every other restoring step is still carried out.",
["crash_points","fault_sequences","histories"],
"every point of panic while holding guards, every single failing device operation during open, prepare, restore or drop",
"No test opens a device or fails an operation.",
[US,UT],[("drop","%s: impl Drop for Screen; %s: impl Drop for Terminal"%(US,UT))],
[("state","saved PrepareState","%s: Screen"%US)],["tcgetattr","sigaction","device modes","open file descriptors"])

p("C17","The sequence map is a sorted map with exact prefix classification",
"For every history of insertions, removals, entry operations and bulk constructions, the map contains exactly one value per key, as a mapping would (insertion and collecting keep the last value, conversion from a vector keeps the first), listed in key order, and every operation returns the corresponding old or current value. A lookup by partial input reports not-found, incomplete, undecided or found exactly according to whether the input is a key and whether it is a proper prefix of some key.",
["histories","inputs"],
"all operation histories and all keys, including empty, nested-prefix and non-ASCII keys",
"Unit tests use a few fixed keys in one order.",
["src/sequence.rs"],[("map operations","src/sequence.rs: find, insert, remove, entry, from, from_iter")],
[("sequences","sorted key-value vector","src/sequence.rs: SequenceMap")],["return values","sequences()"])

p("C18","Signal sets behave as mathematical sets",
"For all signal sets and signals, every set operation (construction, insertion, removal, membership, inclusion, intersection tests, union, intersection, difference, symmetric difference, complement, their operators and in-place forms, and textual formatting) gives exactly the result of the same operation on the mathematical set of signals, and equality coincides with having the same members.",
["inputs","histories"],
"all 64 sets, all pairs of sets, all signals, all operations",
"Unit tests walk through one sequence of operations.",
["src/signal.rs"],[("set operations","src/signal.rs: SignalSet")],[],["return values"])

p("C19","Key, control-character, cursor, size and prefix helpers match their definitions",
"For every character, conversion to a key maps escape, delete, tab, CR/LF and control characters to their special keys with lowercase control letters and everything else to the character itself; control-character conversion, its inverses and the control test agree with each other; a character's width is the number of columns a terminal uses for it, zero for control characters and combining marks, which the combining-mark test tells from all others. For every size and cursor inside it, next and previous position are inverse row-major steps ending at the first and last cell, the bounds test and area are exact (area reports overflow), and the prefix iterator yields exactly the non-empty prefixes in increasing length.",
["inputs"],
"all characters, all sizes and cursor positions, all strings",
"Unit tests check round trips for some control characters and three strings.",
[T,"src/util.rs"],[("helpers","%s: impl From<char> for Key, Cursor, Size; src/util.rs: ctrl, is_ctrl, unctrl_*, char_width, is_combining_mark, prefixes"%T)],[],["return values"])

p("C20","Output macros equal the sequence of calls they stand for",
"Each element of the output macros has exactly the effect of the method call documented for it, elements take effect in the order written, the newline form adds exactly one newline at the end, and this holds alike for terminals, screens and their write guards. For terminals the macro stops at and returns the first error, and no later element is evaluated.",
["programs","histories","fault_sequences"],
"all macro element forms and sequences of them, on all four receivers, from any attribute state, with any failing output",
"The doc test only compiles the macros.",
["src/macros.rs"],[("macro expansion","src/macros.rs: term_write, term_writeln, Chain")],[],["device display","result of the macro"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
