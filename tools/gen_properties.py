#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
W="src/worker.rs"; L="src/lib.rs"; C="src/term/cross.rs"; V="src/term/vt52.rs"; H="src/history.rs"
p("P01","Every output line reaches the terminal whole, once and in order",
 "In terminal mode, every line given to `println`, `wrapln` or `echoln` by any number of threads while Liso is alive appears on the terminal exactly once, complete and contiguous (wrapped to the terminal width, never interleaved with another line, the status line, the prompt or the input in progress), above the live area. Lines sent by one thread appear in the order it sent them, and a line sent after another thread's send returned appears after that other line. Control characters in the text never reach the terminal raw.",
 ["schedules","inputs","histories","fault_sequences"],
 "All interleavings of the callers' threads and Liso's own threads, all texts (multi-byte, wide, zero-width, control, multi-line, styled), all terminal widths, short and slow terminal writes, and all histories of other requests and keystrokes in between.",
 "No test ever starts Liso in terminal mode: the unit tests cover Line construction and wrapping of a few fixed ASCII strings on one thread.",
 [W,L,"src/line.rs",C,V],[("request channel + single output thread","worker.rs tty_worker"),("rollin before output, rollout after","worker.rs TtyState::rollin/rollout"),("output_line","worker.rs TtyState::output_line"),("wrap_to_width","line.rs Line::wrap_to_width")],
 observe=["bytes written to stdout, interpreted by a terminal model"])
p("P02","When idle, the live area shows exactly status, prompt, input and cursor",
 "In terminal mode, whenever Liso has processed everything sent to it, the rows directly below the printed output show exactly the current status line (if any), then the current prompt followed by the input in progress (or the active notice instead of both), wrapped at the terminal width, with nothing stale left on screen. The terminal cursor is at the input position and visible when input is allowed and no notice is shown, and hidden while a notice is shown or input is not allowed.",
 ["histories","inputs","schedules","fault_sequences"],
 "All histories of status, prompt, notice, output and clear requests and keystrokes, all texts and styles, all terminal sizes tall enough for the live area, and all thread interleavings.",
 "The differential redraw (output_line_changes) is never executed by any test; its correctness depends on every earlier redraw, not on one sampled state.",
 [W,"src/line.rs",C,V],[("differential redraw","worker.rs TtyState::output_line_changes"),("cursor reconciliation","worker.rs reconcile_cursors/maybe_report"),("rollin/rollout","worker.rs")],
 [("remembered_output","what is believed to be on screen and where the cursor is","worker.rs TtyState")],
 ["bytes written to stdout, interpreted by a terminal model"])
p("P03","Visible text carries exactly its own style and colors, nothing bleeds",
 "In terminal mode, every visible character of an output line, status line, prompt, notice and the input is displayed with exactly the style (bold, dim, underline, inverse, italic) and foreground/background color its Line assigns to it, with the input inheriting the style active at the end of the prompt. Style and color never bleed from one line into later lines, into blank space that belongs to no styled line, or into what is printed after Liso has shut down.",
 ["histories","inputs","schedules"],
 "All sequences of style and color transitions within and across lines, in every order of output and live-area redraws.",
 "Attribute state is cached across requests and updated incrementally; no test drives a terminal, so no sequence of attribute transitions is exercised.",
 [C,V,W,"src/line.rs"],[("attribute cache","cross.rs/vt52.rs set_attrs, reset_attrs"),("per-element and per-char attribute output","worker.rs output_line/output_char")],
 observe=["cell attributes in a terminal model fed with stdout"])
p("P04","Line editing follows the documented key bindings for every key sequence",
 "In terminal mode with input allowed, any sequence of the documented editing keys and printable characters yields exactly the responses the documented bindings prescribe: insertion and deletion happen at the cursor without ever splitting or losing a character, kill keys put the removed text on a clipboard that Control-Y inserts, Return delivers the whole line and starts an empty one, Control-D and Control-G discard, and the signalling keys deliver their response. Concurrent output never changes the edited text or the responses.",
 ["histories","inputs","schedules"],
 "All key sequences over ASCII, multi-byte, wide and combining characters and all documented bindings, with output arriving at any point.",
 "No test feeds a key to the worker; cursor arithmetic over byte offsets must hold for every sequence of edits.",
 [W,C],[("editing handlers","worker.rs handle_* methods"),("key dispatch","worker.rs handle_input/handle_event")],
 [("input/input_cursor","text being edited and byte offset of the cursor","worker.rs TtyState"),("clipboard","last killed text","worker.rs TtyState")],
 ["Response values","input text and cursor shown on the terminal"])
p("P05","Input bytes decode the same however they are split, delayed or malformed",
 "In terminal mode the keys recognised depend only on the byte stream, not on how the terminal splits it into reads (as long as the bytes of one escape sequence arrive within the escape delay) nor on interrupted reads. A lone Escape is reported as `Escape` once the escape delay passes, complete unknown escape sequences are ignored, each invalid UTF-8 sequence becomes a replacement character, and no byte sequence ever stops later input from being recognised.",
 ["inputs","schedules","fault_sequences"],
 "All byte strings, all ways of cutting them into reads, all inter-byte delays, interrupted reads, on ANSI and VT52 terminals.",
 "No test reads a byte from a terminal; the decoder's state across reads, timeouts and malformed bytes is untested.",
 [C,V],[("byte decoder","cross.rs/vt52.rs input_thread, parse_csi_sequence"),("escape timeout","lib.rs ESCAPE_DELAY")],
 observe=["Response values and input shown on the terminal"])
p("P06","Every response is delivered exactly once and in order",
 "Every key-generated response and every value passed to `send_custom` or `send_custom_box` while Liso is alive is returned by exactly one read call, in the order it was generated (per sending thread and for the keyboard), whichever mix of `read_async`, `read_blocking`, `read_timeout`, `read_deadline` and `try_read` is used. A read that times out, or an asynchronous read that is cancelled, loses nothing, and a blocked read wakes up when a response arrives.",
 ["schedules","histories"],
 "All interleavings of senders, the keyboard and one reader using any mix of read methods with any timeouts and cancellations.",
 "Tests never send or read a response concurrently.",
 [L,W],[("response channel","lib.rs InputOutput::read_*"),("request forwarding","worker.rs Request::Custom")],
 observe=["return values of the read methods"])
p("P07","Timed and polling reads return on time",
 "`read_timeout` and `read_deadline` return as soon as a response is available, and otherwise return `None` no earlier than the requested time and promptly after it; `try_read` never blocks and returns `None` only if no response was available. This holds for any timeout, including zero and deadlines already in the past.",
 ["schedules","histories"],
 "All timeouts and arrival times of responses relative to them, including simultaneous arrival, under all thread interleavings.",
 "No test calls a timed read; wall-clock tests cannot place an arrival exactly at the deadline.",
 [L],[("temporary tokio runtime with timeout","lib.rs read_timeout/read_deadline")],
 observe=["return value and simulated time of each read call"])
p("P08","A notice vanishes at its time, on a key press, or when replaced",
 "In terminal mode with input allowed, a notice replaces prompt and input until the first of: its duration elapses, the user presses any key, or another notice is shown, and then it disappears promptly, without any other event being needed. This holds for any number and order of notices with any durations, and none of them stops Liso from working.",
 ["histories","schedules","inputs"],
 "All sequences of notices with arbitrary durations (including zero, very long and shorter ones after longer ones), key presses and other requests at arbitrary times.",
 "Requires a terminal, a clock and several notices; no test shows a notice.",
 [W],[("heartbeat thread and deadlines","worker.rs tty_worker"),("dismiss on key","worker.rs dismiss_notice"),("expiry","worker.rs Request::Heartbeat")],
 [("notice","current notice and deadline","worker.rs TtyState")],["terminal screen over simulated time"])
p("P09","Shutting down always completes, flushes output and restores the terminal",
 "Dropping the `InputOutput`, `blocking_die` and awaiting `die` all return in bounded time from any state (idle, mid-input, input pending, output pending, notice shown, any number of output handles alive), after everything the same thread sent before has been output. On return the live area is erased, the terminal is in its original mode with cursor and line wrap on and attributes reset, the process panic hook is the one installed before, no Liso thread consumes stdin any more and stdin is readable again, and a new `InputOutput` works normally, while any handle of the ended instance panics when it is used.",
 ["schedules","histories","crash_points","configurations"],
 "All points of the history at which shutdown starts, all interleavings of the shutting-down thread with the output, heartbeat and input threads, repeated create/shutdown cycles, ANSI, VT52 and pipe mode.",
 "The only tests that create an InputOutput hang on the original code; thread and signal races at shutdown cannot be scheduled by a test.",
 [L,W,"src/unix_util.rs",C,V],[("Die request and drain","lib.rs actually_blocking_die, die; worker.rs tty_worker/pipe_worker"),("stdin thread interruption","unix_util.rs InterruptibleStdinThread::interrupt"),("terminal suspend/cleanup","cross.rs/vt52.rs suspend, cleanup")],
 observe=["simulated termios, fd table, signal dispositions, terminal model, return of the calls"])
p("P10","If the terminal or its worker fails, the reader gets Dead and nobody hangs",
 "If writing to stdout fails, the terminal hangs up, the terminal cannot be set up, or a thread cannot be started, every response generated before is still delivered, after which every read returns `Dead`, permanently; no Liso thread panics, a reader blocked in a read is woken, and dropping the `InputOutput` completes. Reading `Dead` again and again panics only after it was reported many times.",
 ["fault_sequences","schedules","crash_points"],
 "Write errors, hangups, failing thread creation and terminal-setup failures at any system call, with readers and writers in any state, in terminal and pipe mode.",
 "Needs I/O faults at chosen points; tests inject none.",
 [L,W,C],[("LifeOrDeath error propagation","lib.rs DummyError; worker.rs"),("death reporting","lib.rs report_death, read_*")],
 observe=["return values of reads; panics; liveness of threads"])
p("P11","Pipe mode passes every input and output line through unchanged",
 "In pipe mode (stdin or stdout not a terminal, or TERM is `dumb` or `pipe`) every line of valid UTF-8 standard input is delivered exactly once, in order, unmodified except for its line terminator (a line feed, with the carriage returns before it), whatever the sizes and timing of the reads, including a last line without terminator; end of input (or an error reading it) produces exactly one `Finish` after the last line, and neither made-up lines nor the end of Liso: printing goes on working. Standard output consists of exactly the unstyled text of each `println`/`wrapln` line followed by a newline, whole and in order: no prompt, status, notice, echo, escape sequence or wrapping ever appears.",
 ["inputs","schedules","configurations","fault_sequences"],
 "All line contents, all chunkings of the input pipe, end of input at any byte, short writes, any number of output threads, and all stdin/stdout/TERM combinations that select pipe mode.",
 "Tests never supply standard input; chunking, EOF and concurrency are outside their reach.",
 [W],[("pipe_worker","worker.rs pipe_worker"),("mode selection","worker.rs worker, is_pipe_term")],
 observe=["Response::Input values; bytes on stdout"])
p("P12","History recording, navigation and swapping are exact and race-free",
 "Each line entered in terminal mode is recorded in the current `History` exactly once (subject to its limit and duplicate settings) by the time its `Input` response is readable. Control-P/N and Up/Down show exactly the recorded lines in order and return to the line being edited, and `swap_history` at any moment, from any thread interleaving, returns the previous `History` intact, makes the new one effective for later keys, and never disturbs the input in progress or stops Liso.",
 ["histories","schedules"],
 "All sequences of entered lines, navigation keys, edits and history swaps between histories of any lengths, in all interleavings of the swapping thread and the output thread.",
 "No test adds a history line or presses a navigation key; the swap race needs a controlled schedule.",
 [W,L,H],[("navigation","worker.rs history_prev/history_next"),("swap and BumpHistory","lib.rs swap_history; worker.rs BumpHistory"),("add_line","history.rs")],
 [("cur_history_index","which history entry is being edited","worker.rs TtyState"),("orphaned_new_input","the new line set aside while browsing","worker.rs TtyState")],
 ["get_lines of read_history and of returned histories; input shown; Response::Input"])
p("P13","A file-backed history survives crashes and I/O errors during saving",
 "With `History::from_file`, if the process dies or any file operation fails at any point while saving, loading the same path again yields exactly the lines (entered lines, which contain no line breaks) of either the last completed save or a save that was begun after it, never fewer, truncated or garbled lines, and a later save succeeds again. If un-synced data is lost as well (power failure), loading yields exactly the lines of one of the last two completed saves or of the save in progress. A save that failed is reported as an error by `add_line` when it happens there, saves happen every N lines as configured and when a changed `History` is dropped, and a history file that does not exist yet is created by the first save.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point between and inside file operations (with un-synced data lost or torn), every failing operation (open, write, short write, disk full, flush, rename, remove), over sequences of saves, crashes and reloads.",
 "No test touches the file system; crash points and disk faults need a simulated disk.",
 [H],[("autosave handler with build and backup files","history.rs from_file"),("load with fallback","history.rs from_file, read_history_from"),("write_history_to","history.rs")],
 observe=["simulated disk contents after crash; lines returned by from_file; result of add_line"])
p("P14","Prompt changes take full effect: input permission and clearing",
 "In terminal mode each `prompt` call takes full effect even if only some of its arguments differ from the current state: keys are acted upon exactly while the most recent prompt allows input, with `clear_input` the input in progress becomes empty with the cursor at its start and without it the input is kept, and editing continues to work normally afterwards.",
 ["histories","schedules"],
 "All sequences of prompt calls with all combinations of text, permission and clearing, between arbitrary edits, under all orders of keys and prompt calls.",
 "No test calls prompt in terminal mode and then types.",
 [W,L],[("Prompt request","worker.rs handle Request::Prompt"),("permission gate","worker.rs handle_input/handle_event")],
 [("input_allowed","whether keys are acted upon","worker.rs TtyState")],["Responses and the input shown"])
p("P15","Tab completion sees the exact line and its answer is applied exactly",
 "In terminal mode each Tab press calls the most recently set completor exactly once with the current input, the cursor's byte position and the number of consecutive Tab presses (1 for the first, restarting after any other key); the returned completion is applied exactly and atomically with respect to other keys, and what the completor outputs through the handle it is given appears like any other output. Without a completor Tab changes nothing.",
 ["histories","schedules","inputs"],
 "All sequences of Tabs, other keys and completor changes, all completion answers, and concurrent output.",
 "No test installs a completor.",
 [W,"src/completion.rs"],[("handle_completion","worker.rs"),("press counting","worker.rs handle_input/handle_event")],
 [("consecutive_completion_presses","Tab presses since another key","worker.rs TtyState")],["arguments seen by the completor; input shown; Responses"])
p("P16","Suspended code runs once, in order, with the terminal handed back",
 "Each closure given to `suspend_and_run` runs exactly once while Liso lives, in order with respect to the same thread's other output; in terminal mode, while it runs (and while the process is stopped by Control-Z) the live area is out of the way, the terminal is in its original mode with cursor and wrap on and attributes reset, and the caller's panic hook is back. Afterwards Liso restores its own mode, redraws the live area below whatever was printed and works normally; in pipe mode the closure simply runs.",
 ["histories","schedules","configurations"],
 "All positions of suspensions in histories of other requests and keys, with concurrent output and input, terminal and pipe mode.",
 "No test suspends; terminal state during the closure is not observable in tests.",
 [W,C,V,"src/unix_util.rs"],[("SuspendAndRun","worker.rs handle"),("suspend/unsuspend","cross.rs, vt52.rs"),("sigstop","unix_util.rs sigstop_ourselves; worker.rs handle_suspend")],
 observe=["simulated termios and terminal model when the closure runs and after"])
p("P17","At most one instance lives at a time and output() follows its lifetime",
 "At most one `InputOutput` is active at any time: while one is alive or still shutting down, `InputOutput::new` in any thread panics and the live instance stays usable, and once it has been shut down a new one can be created, also if an attempt failed because its thread could not be started. `liso::output()` and the global `println!`/`wrapln!` macros reach the live instance from any thread, and panic when there is none.",
 ["schedules","histories"],
 "All interleavings of creating, using, shutting down and re-creating instances and global output from several threads.",
 "Tests create one instance at a time on one thread.",
 [L],[("LISO_OUTPUT_TX / LISO_IS_ACTIVE guard","lib.rs InputOutput::new, Drop")],
 [("LISO_OUTPUT_TX","sender of the live instance","lib.rs")],["panics and output of concurrent callers"])
p("P18","Captured stderr lines appear once, in order, and stderr is given back",
 "With the `capture-stderr` feature, in terminal mode with stderr on the terminal, every line the program writes to stderr while Liso is alive appears exactly once, unaltered (apart from its terminator, control characters and invalid UTF-8) and in order as an output line above the live area, however the writes are split; writing to stderr never fails because of Liso; after shutdown stderr is the original terminal again, and what was written before, while and after it happened appears exactly once, as a line of Liso's or directly. If stderr cannot be captured it is left alone.",
 ["schedules","inputs","histories"],
 "All splits of stderr writes, line lengths, interleavings of writers with capture and shutdown, and repeated instances.",
 "The feature is compiled but never run by any test.",
 ["src/stderr_capture.rs",W,L],[("capture thread","stderr_capture.rs attempt_stderr_capture"),("restoration","stderr_capture.rs wait_until_not_captured")],
 observe=["terminal model; fd table after shutdown"])
p("P19","Every request takes visible effect without needing another event",
 "In terminal mode each request (printing, status, prompt, notice, bell, and each key, including keys answered only by a bell) has its complete effect on the terminal once Liso's threads have run, even if nothing else ever happens; each `bell` rings exactly once. In pipe mode each output line is written out as soon as Liso's thread has run.",
 ["schedules","histories"],
 "All single requests and keys after all histories, followed by silence.",
 "Needs an idle system and a terminal; buffering at the end of a history is invisible to tests.",
 [W,C],[("rollout and flush after draining the request queue","worker.rs tty_worker, rollout"),("bell","worker.rs, cross.rs")],
 observe=["bytes that reached stdout when all threads are blocked"])
p("P20","Output calls never block or lose data however slow the terminal is",
 "While Liso is alive, calls that send output or change the prompt, status or notice return without waiting for the terminal, however slow or stalled it is and however much output is queued, and so does reading already available responses. Once the terminal accepts data again, all queued effects appear in order and input typed meanwhile is handled.",
 ["fault_sequences","schedules"],
 "All stall points and durations of terminal writes and all loads queued meanwhile.",
 "Needs a terminal that stalls at a chosen write.",
 [L,W],[("unbounded request channel","lib.rs Output::send, InputOutput::new")],
 observe=["simulated time at which each call returns; terminal model afterwards"])
p("P21","VT52 terminals get the same guarantees",
 "When TERM selects a VT52-compatible terminal, output lines, live area, cursor position, colors (as far as the terminal has them, including inverse video), editing, suspension and shutdown behave as on ANSI terminals, using only VT52 control sequences; characters outside ASCII are shown as placeholder cells of the same width, input bytes the terminal cannot produce are ignored, and shutdown needs no further key press.",
 ["histories","inputs","schedules","configurations"],
 "All histories of requests and keys on every supported VT52 variant (monochrome, 4 and 16 colors, black-on-white and white-on-black).",
 "The VT52 back end is never executed by any test.",
 [V,"src/term.rs",W],[("Vt52 terminal","vt52.rs"),("terminal selection","term.rs new_term")],
 observe=["bytes written to stdout, interpreted by a VT52 model"])
p("P22","A panic leaves the terminal usable and its message readable",
 "If the program panics while Liso is active (in a thread of its own, in the thread that owns the `InputOutput`, or in code Liso runs on its own thread: a suspended closure, a completor, an autosave handler), the panic is reported exactly once, and by the time its message is printed nothing hides it: the terminal is in its original mode, the cursor visible, line wrap on, attributes reset, and nothing of Liso's stands where the message goes (as far as Liso is idle at that moment, or the panic is on its own thread). If it was on Liso's own thread, the earlier responses are still read in order and then `Dead`, handles panic from then on, and dropping the `InputOutput` completes; otherwise Liso goes on and shuts down as usual, also when the unwinding itself drops the `InputOutput`, and the program's panic hook is then in effect again.",
 ["histories","schedules","faults"],
 "All panic sites, all histories before, all kinds of reads waiting at that time, several instances in one process.",
 "No test panics while the terminal is in use.",
 ["src/term/cross.rs",V,W,L],[("panic hook installed by unsuspend","cross.rs, vt52.rs unsuspend"),("restored by suspend/cleanup","cross.rs, vt52.rs suspend, cleanup"),("response channel closed by unwinding","worker.rs worker")],
 observe=["terminal state when the message is written to standard error or the program's panic hook runs","responses read afterwards"])
p("N01","Line values built from text, styles and ANSI escapes are well formed",
 "Building a `Line` by any sequence of text, style, color, macro and ANSI-text additions yields exactly the given text (with control characters made visible) and attributes, and iterating over it yields every character once with its attributes.",
 ["inputs","programs"],"All texts and sequences of builder calls.",
 "Tests sample a handful of builder sequences.",
 ["src/line.rs","src/line/add_ansi.rs"],[("add_text, set_*, append_line","line.rs"),("add_ansi_text","add_ansi.rs"),("LineCharIterator","line.rs")])
p("N02","Lines and styles survive serialization",
 "With the `serde` feature, deserializing a serialized Line, Style or Color yields an equal value.",
 ["inputs","configurations"],"All Lines, Styles and Colors.",
 "No test serializes anything.",
 ["src/line.rs",L],[("serde derives","line.rs, lib.rs")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
