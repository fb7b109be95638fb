HOOK_COMMITS = ['8d2f069', 'b4f8985']
N['C02'] = (None, 'Bounded-exhaustive on the design (every history of ScreenImpl.tla to the given depth on small screens, with failing refreshes and resizes); on the code: TLC-covered and seeded random histories, each display compared with the buffer after every refresh. Trusts the terminal model Device.tla, the tokenizer of the harness, and the pty.')
N['C03'] = (None, 'Bounded-exhaustive on the specification of the grid (ScreenText.tla); on the code: TLC-covered and seeded random histories, cursor and whole grid (as displayed by a refresh) compared with the specification. Trusts Device.tla and the tokenizer; widths are checked for representative characters of every class.')
N['C04'] = (None, 'As C02, with resizes: sizes reported by a real pty, the old display treated as unspecified until repainted, failing refreshes included; sizes also change while they are asked for, while a read waits and between its steps.')
N['C01'] = (None, 'Bounded-exhaustive on the design (Output.tla: every pattern of short writes, interruptions and errors over short histories with a small buffer); on the code: TLC-covered and seeded random histories with the write system call replaced at link level, bytes at the device compared byte for byte with the accepted ones. Large writes are checked by pattern segments.')
N['C05'] = (None, 'Bounded-exhaustive on the design (Line.tla: every attribute history to the given depth); on the code: TLC-covered and seeded random histories on several terminal types, every cell compared with the attributes then in force. Trusts Device.tla and the tokenizer; terminal types whose exit-italics is a full reset are outside the property.')
N['C06'] = (None, 'Bounded-exhaustive on the design (Line.tla: every cursor history on small displays); on the code: TLC-covered and seeded random histories including counts up to usize::MAX. Trusts Device.tla and the tokenizer.')
N['C07'] = (None, 'Bounded-exhaustive on the design (Input.tla: every short history of arrivals and reads over an alphabet of partial characters, partial keys and malformed bytes); on the code: TLC-covered histories, every key of six terminal types at every split, characters and malformed sequences at every class boundary, seeded random histories with the read system call replaced at link level. Key tables come from curses, independently of the crate.')
N['C08'] = (None, 'Bounded-exhaustive on the specification of reports (Mouse.tla: all strings to the given length over an alphabet of relevant bytes); on the code: strings emitted by TLC, every button code 0..255 and numbers around every limit, all terminators and separators, truncations, seeded random reports at random splits.')
N['C09'] = (None, 'As C07, with raw reads of several sizes and waits mixed in; bytes read from the device and bytes returned are compared with the stream that arrived.')
N['C12'] = (None, 'Bounded-exhaustive on the design (Input.tla, family sig: every short history of signals, preparations and reads, including a signal arriving just before the wait; Wakeup.tla: a call in its single steps with up to two signals arriving between any of them, safety and liveness, four broken variants refuted); on the code: real signals raised at the planned moment inside the interposed system calls. The kernel choosing another thread for the signal is a known finding.')
N['C13'] = (None, 'Bounded-exhaustive on the design (Input.tla, family time); on the code: a virtual clock, arrival, signal and interruption times around the deadline, timeouts from zero to the largest duration. Waits longer than 2,000,000 s are not waited for but must not end early.')
N['C17'] = (None, 'Bounded-exhaustive on the specification (SeqMap.tla: every history of operations to the given depth over short keys, prefix classification compared with its definition); on the code: those histories over several alphabets and long seeded random ones with bulk constructions of up to 90 pairs, every returned value and the listing compared.')
N['C18'] = (None, 'All 64 x 64 pairs of sets for every binary operation, all 64 x 6 for the others, on the code; histories of in-place operations from TLC and seeded random ones. The universe (six signals) is finite and fully enumerated for single operations.')
N['C19'] = (None, 'Characters: every Unicode scalar value on the code for the character helpers; sizes and cursors: enumerated to the bound plus values at the limits of usize; prefixes: TLC-enumerated strings over characters of every encoded length.')
N['C10'] = (None, 'Bounded-exhaustive on the design (Session.tla: every nesting of preparations from a set of configurations with every single failing step); on the code: those histories and long seeded random ones on a real pty, comparing terminal attributes, signal dispositions and the modes of the device (Device.tla) after every operation.')
N['C11'] = (None, 'As C10, with stops, continuation signals and interference (attributes and modes reset by others). The moment a continuation is noticed is the next read.')
N['C16'] = (None, 'Session.tla on the design; on the code: seeded random sessions of screens and terminals with failing tcgetattr, tcsetattr, window-size and write calls at every point, panics while guards are held, unusable terminal types. What the device shows is judged only if the last output was accepted.')
N['C20'] = (None, 'Every element form alone and in fixed seeded sequences (the invocations are compiled into the harness), values varied at run time; each invocation is checked against the fold of the specified calls (LineOps.tla, ScreenBuf.tla), evaluated elements and order included. Element expressions that use the terminal themselves are outside the property.')
N['C14'] = (None, 'Bounded-exhaustive on the design (Excl.tla: all interleavings of small programs of output calls, guards, macros and try-locks; three broken variants of the locking are refuted). On the code: schedules covering those behaviours forced on real threads by a cooperative scheduler hooked into the mutexes and the system calls, plus seeded random programs and schedules; each recorded trace is checked by a set-of-states linearizability check (ConcRules.tla) whose calls are the operations of the other specifications.')
N['C15'] = (None, 'Lock uses recorded from the real code for every operation under every guard held (and under signals, continuations and resizes) are composed by TLC for two and three threads in every interleaving (Locks.tla), searching for a state in which no thread can go on; any found is replayed on the real code. Schedules over the calls that wait for input are run as well. Two known findings are recorded. Writer-starvation and fairness of the operating system\'s mutex are not considered.')
