"Writes /verif/properties.jsonl from the table below."
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


prop(
    "P01",
    "Child reads exactly the bytes given as standard input",
    "Whatever object is given as standard input (str, bytes, bytearray, path, open file, descriptor, StringIO, BytesIO, stream reader, DEVNULL, nothing, or a captured stream the caller writes), the child reads exactly those bytes, encoded with the command's encoding, in order and followed by end-of-file. This holds for every size, chunking, encoding, run style and speed of the reader, and a run whose child reads everything never fails or hangs because of its input.",
    ["inputs", "schedules", "configurations"],
    "every input kind x size x chunking x encoding x consumer speed x way of running the command",
    "Tests feed a handful of short strings; sizes around the 8 KiB copy chunk and the 64 KiB pipe, slow or partial readers, non-UTF-8 encodings and seek positions are not sampled.",
    ["shellous/runner.py", "shellous/redirect.py", "shellous/util.py"],
    [("_RunOptions._setup_input", "runner.py"), ("Runner._setup_input_source", "runner.py"), ("write_stream/write_reader", "redirect.py")],
    ["what the child read (length and hash it reports)", "exceptions of the run"],
)
prop(
    "P02",
    "Every output sink receives exactly the bytes the child wrote",
    "For standard output and standard error alike, each sink (result buffer, bytearray, BytesIO, StringIO, path, open file, descriptor, stream writer, logger, captured stream, merged STDOUT) receives exactly the bytes the child wrote to that stream, once and in order; `|` replaces a sink's previous contents and `>>`/append keeps them as a prefix. Bytes of one stream never appear in the other's sink unless merged, and streams sent to DEVNULL appear nowhere.",
    ["inputs", "schedules", "configurations"],
    "every pair of (stdout sink, stderr sink) x sizes x chunk patterns x append/replace x prior contents",
    "Tests try each sink alone with a few bytes; combinations of two sinks, large interleaved output, appends to non-empty sinks and repeated use of one sink are not covered.",
    ["shellous/runner.py", "shellous/redirect.py", "shellous/command.py"],
    [("_RunOptions._setup_output/_set_position", "runner.py"), ("Runner._setup_output_sink", "runner.py"), ("copy_* functions", "redirect.py")],
    ["contents of the sinks after the run"],
)
prop(
    "P03",
    "Buffered stderr keeps exactly the first error_limit bytes and never blocks",
    "When standard error is buffered, the result's error bytes are exactly the first error_limit bytes the child wrote to standard error (all of them if the limit is None), for any limit and any amount and timing of output. The excess is read and discarded, so the child never blocks on it and the run always completes; the limit affects no other sink and no other stream.",
    ["inputs", "schedules"],
    "every error_limit x amount of stderr x write chunking x interleaving with stdout",
    "Tests use the default limit and one or two sizes; off-by-one at the limit, limit 0, chunk boundaries and output far beyond the pipe capacity after the limit are not covered.",
    ["shellous/redirect.py", "shellous/runner.py"],
    [("copy_bytearray_limit", "redirect.py"), ("error_limit selection", "runner.py Runner._start")],
    ["Result.error_bytes", "completion of the run"],
)
prop(
    "P04",
    "Text is the decoding of the whole stream, independent of chunking",
    "Decoded output (awaited text, Result.output/error, StringIO sinks) equals decoding the child's complete byte stream with the configured encoding and error handler, however the bytes were split by writes and reads. Iterating lines with `async for` yields, in order, the newline-terminated lines of the output plus a final unterminated line if any, so their concatenation is the whole output; a logger sink gets one record per line.",
    ["inputs", "schedules"],
    "every byte string x encoding/error handler x split of the stream into writes x line structure",
    "Tests decode short ASCII; multi-byte characters split across read chunks, CR/LF mixes, empty lines, missing final newline and multi-byte encodings at chunk edges are not covered.",
    ["shellous/redirect.py", "shellous/result.py", "shellous/util.py", "shellous/runner.py"],
    [("copy_stringio", "redirect.py"), ("read_lines/copy_logger", "redirect.py"), ("decode_bytes", "util.py")],
    ["returned text", "yielded lines", "log records"],
)
prop(
    "P05",
    "Exit status is reported exactly and ResultError raised exactly when due",
    "The result's exit_code is the child's real exit status, or the negated signal number if a signal killed it. Running a command raises ResultError, carrying the complete Result, if and only if that code is not in the allowed exit codes (only 0 when unset); with the `.result` modifier nothing is raised and the Result is returned; truthiness, exit_signal and output/error text of the Result agree with its fields.",
    ["inputs", "configurations"],
    "every exit status 0..255 and fatal signal x allowed exit-code container x run style x redirections",
    "Tests check a few codes; they cannot cover all statuses, signals, container kinds (sets, ranges, empty) and run styles.",
    ["shellous/result.py", "shellous/runner.py", "shellous/command.py"],
    [("check_result", "result.py"), ("Runner.result/returncode", "runner.py")],
    ["return value or exception of the run"],
)
prop(
    "P06",
    "A pipeline composes its commands byte-exactly with pipefail reporting",
    "A pipeline's output is the last command's output, with each command reading exactly what the previous one wrote; first-command input, last-command output/error/options apply, and grouping of `|` does not matter. Its result reports the exit code and error bytes of the command that failed (when several fail, the earliest in the pipeline among those not ended early because of another's failure), or success if none failed, and a raising pipeline carries that same Result; all commands run concurrently, so data of any size flows without deadlock.",
    ["inputs", "schedules", "programs"],
    "every pipeline length x transformation x data size x set of failing positions x sources/sinks x run style",
    "Tests use two or three commands with small data and one failing position.",
    ["shellous/pipeline.py", "shellous/runner.py", "shellous/result.py"],
    [("PipeRunner._setup_pipeline", "runner.py"), ("convert_result_list/_find_key_result", "result.py"), ("Pipeline operators", "pipeline.py")],
    ["final output", "Result / ResultError"],
)
prop(
    "P07",
    "Running a command leaves the parent's file descriptors as they were",
    "Once a run has ended, in whatever way (success, failure, failed launch of any part, cancellation or timeout at any moment, descriptor exhaustion), every descriptor it opened is closed and every descriptor the caller owns is still open and untouched. Descriptors handed over with close=True (or pass_fds_close) are closed too, exactly once, even if the command never got to launch.",
    ["fault_sequences", "crash_points", "schedules", "configurations"],
    "every command shape x redirection x point of cancellation x failing resource allocation",
    "Tests check for leaks after the few outcomes they exercise; they do not inject a failure or cancellation at each step of setup and teardown.",
    ["shellous/runner.py", "shellous/util.py", "shellous/pty_util.py", "shellous/command.py"],
    [("_RunOptions.__enter__/__exit__/open_fds", "runner.py"), ("_cleanup", "runner.py"), ("close_fds", "util.py"), ("PtyFds/ChildFd.close", "pty_util.py")],
    ["/proc/self/fd before and after", "calls to os.close"],
    state=[("open_fds", "descriptors to close after launch", "runner.py _RunOptions")],
)
prop(
    "P08",
    "No child process outlives its run",
    "When awaiting a command or pipeline returns or raises, or when its async-with, async-for or prompt block has been left, every process it launched (including pipeline members and process substitutions) has exited and been reaped. This holds for success, error, failed launch of a sibling, exceptions in the block, cancellation and timeout at any moment, and for children that ignore the cancel signal.",
    ["fault_sequences", "crash_points", "schedules"],
    "every command shape x child behaviour x outcome x point of cancellation or exception",
    "Tests check orphans after a few scenarios, not after cancellation or failure at every step.",
    ["shellous/runner.py", "shellous/harvest.py", "shellous/util.py"],
    [("Runner._finish/_kill/_kill_wait", "runner.py"), ("PipeRunner._wait", "runner.py"), ("uninterrupted", "util.py")],
    ["children of the process (/proc) when the run ends"],
)
prop(
    "P09",
    "A finished run leaves no task, timer, warning or stray cancellation behind",
    "When a run has ended in any way, no asyncio task or timer created for it is left, nothing it did reports an unretrieved exception, un-awaited coroutine or unclosed transport, and the caller's task is never cancelled later because of it. The loop can immediately run other commands with correct results.",
    ["fault_sequences", "crash_points", "schedules"],
    "every command shape x outcome x point of cancellation, timeout or injected failure",
    "Tests assert no orphan tasks at the end of each test only; pending timers, stray cancellation requests and warnings are not observed.",
    ["shellous/runner.py", "shellous/harvest.py", "shellous/prompt.py", "shellous/util.py"],
    [("Runner._stop_timer", "runner.py"), ("harvest*", "harvest.py"), ("Prompt._drain", "prompt.py")],
    ["asyncio.all_tasks, loop timers, exception handler, warnings, Task.cancelling()"],
)
prop(
    "P10",
    "Cancellation stops the command and always surfaces to the caller",
    "Cancelling a task that awaits (or iterates) a command or pipeline at any moment makes it raise CancelledError after all its processes have been terminated, unless the run had already completed; it never returns a value computed from a killed process, never hangs and never swallows the request; the result of a cancelled block says that it was cancelled. A running child first gets the configured cancel_signal, and SIGKILL only if it is still alive after cancel_timeout (or immediately when cancel_signal is None, or when the caller is cancelled again meanwhile).",
    ["schedules", "crash_points", "histories"],
    "every point of cancellation (including repeated cancellation) x command shape x child's reaction to the signal",
    "Tests cancel after a fixed sleep; they do not cancel at each suspension point of launch, I/O and teardown, or twice.",
    ["shellous/runner.py", "shellous/harvest.py", "shellous/util.py"],
    [("Runner._kill/_kill_wait/_signal", "runner.py"), ("harvest", "harvest.py"), ("uninterrupted", "util.py"), ("PipeRunner._finish", "runner.py")],
    ["outcome of the cancelled task", "signals the child logged", "liveness of children"],
)
prop(
    "P11",
    "The timeout option fires exactly when the process outlives it",
    "With the timeout option set, a run of a command raises TimeoutError if its process is still running when the timeout expires, after that process has been terminated by the cancel protocol; if the process has exited and its output has ended before, the run behaves exactly as without the option, however long the caller's block goes on. A timeout never cancels anything after the run is over, and catching the TimeoutError leaves the caller's task usable and not marked as being cancelled.",
    ["schedules", "configurations", "histories"],
    "every relation between process lifetime, timeout, output draining and block duration x run style",
    "Tests use a process far longer or far shorter than the timeout.",
    ["shellous/runner.py"],
    [("Runner._start_timer/_set_timer_expired/_stop_timer", "runner.py"), ("Runner.__aexit__", "runner.py")],
    ["outcome of the run, signals received, Task.cancelling()"],
)
prop(
    "P12",
    "Audit callback sees a well-formed lifecycle for every run",
    "For every run of a command with an audit_callback, the callback sees exactly one 'start' first and exactly one 'stop' last, with any 'signal' events in between naming each signal actually sent by the runner; this holds for every outcome. At 'stop' of a launched command the process has exited and the runner reports its exit code; if the launch failed or was cancelled, 'failure' names the exception type, and otherwise it is empty.",
    ["histories", "fault_sequences", "crash_points"],
    "every command shape x outcome x point of cancellation or injected failure, including pipelines sharing one callback",
    "Tests check the sequence in a few scenarios only.",
    ["shellous/runner.py", "shellous/command.py"],
    [("Runner._audit_callback", "runner.py"), ("Runner.__aenter__/__aexit__", "runner.py")],
    ["the recorded sequence of callback events, checked by an automaton per runner"],
)
prop(
    "P13",
    "Prompt output is conserved: nothing lost, duplicated or reordered",
    "In a prompt session, concatenating in order what expect, command, read_all and read_pending handed out (including matched text) and what is still pending equals a prefix of the decoded (optionally newline-normalised) output of the child, and the whole of it once EOF is reached, however the output was chunked and whatever timed out or was cancelled in between. expect returns the text before the earliest match of its pattern in the unread text, searches already-read text first, raises EOFError only when the output has ended without a match, and TimeoutError only without consuming text.",
    ["inputs", "schedules", "histories"],
    "every output stream x chunking x sequence of prompt operations with timeouts and cancellations x encoding",
    "Tests run scripted dialogues with one chunking and no timeouts that race data.",
    ["shellous/prompt.py", "shellous/command.py", "shellous/pipeline.py"],
    [("Prompt.expect/_read_to_pattern/_search_pending", "prompt.py"), ("Prompt._read_some", "prompt.py"), ("_make_decoder", "prompt.py")],
    ["values returned by prompt operations versus the known child output"],
)
prop(
    "P14",
    "Prompt.send delivers exact bytes without deadlock",
    "Prompt.send writes exactly the text (or raw bytes) plus the chosen line ending, in call order, for any size; while it waits for the child to accept data it keeps reading the child's output, so two-way traffic of any volume cannot deadlock and no output is lost. With no_echo it sends only once terminal echo is off and the text never appears in the log; closing the session delivers end-of-file after everything sent.",
    ["inputs", "schedules", "histories"],
    "every sequence of sends (sizes, endings, str/bytes, encodings) x child that echoes, delays or floods",
    "Tests send short lines and one bulk case.",
    ["shellous/prompt.py"],
    [("Prompt.send/_drain/_read_some", "prompt.py"), ("Prompt._wait_no_echo/_log_send", "prompt.py"), ("Prompt.close", "prompt.py")],
    ["what the child received", "log records", "returned output"],
)
prop(
    "P15",
    "Commands, contexts and pipelines are immutable values",
    "Applying any modifier, operator or call to a context, command or pipeline returns a new object and leaves the original's arguments and options unchanged, and a chain of modifiers behaves like setting those options in order (later wins, others kept). Equal objects hash equally, and running a command any number of times, sequentially or concurrently, gives each run the same behaviour and changes nothing in the object.",
    ["programs", "histories"],
    "every sequence of modifiers and operators, on shared intermediate objects, and every interleaving of runs",
    "Tests compare a few hand-written expressions.",
    ["shellous/command.py", "shellous/pipeline.py", "shellous/util.py"],
    [("frozen dataclasses, Options.set*", "command.py"), ("EnvironmentDict", "util.py"), ("Pipeline operators", "pipeline.py")],
    ["options/args of every object before and after; equality and hash"],
)
prop(
    "P16",
    "The child's argv is exactly the flattened, coerced argument list",
    "The program receives exactly the arguments given: sequences (list, tuple and reversed/enumerate/zip of them, nested) flattened in order, str/bytes/path passed verbatim, buffers by content, other scalars as str(); no shell interpretation, splitting or dropping of empty strings, and further calls append. Unsupported types (None, mappings, sets, generators, ranges, ellipsis) raise TypeError when the command is built, unless the context's coerce_arg converts them.",
    ["inputs"],
    "every nesting of supported and unsupported argument values, including empty, non-ASCII, surrogate and metacharacter strings",
    "Tests cover each type once; combinations, nesting and what the process actually receives are not sampled.",
    ["shellous/command.py"],
    [("coerce", "command.py"), ("Command.__call__/CmdContext.__call__", "command.py")],
    ["argv dumped by the child versus an independent reference"],
)
prop(
    "P17",
    "The child's environment is exactly the configured one",
    "The child's environment equals the parent's (as of launch) overlaid with the command's env settings when inherit_env is true, and only those settings when false; later env() calls override earlier keys, set(env=...) replaces the settings, values are converted with str(). The parent's environment is never modified.",
    ["inputs", "programs", "histories"],
    "every sequence of env/set(env)/inherit_env modifiers on contexts, commands and pipelines",
    "Tests check a few variables.",
    ["shellous/command.py", "shellous/util.py", "shellous/runner.py"],
    [("Options.runtime_env/add_env/set", "command.py"), ("EnvironmentDict", "util.py")],
    ["environment dumped by the child versus a reference merge; os.environ"],
)
prop(
    "P18",
    "Process substitution connects sub-commands byte-exactly",
    "A command or pipeline given as an argument appears to the program as a path whose contents are exactly that sub-command's output or, with `.writable`, whose written bytes are exactly the sub-command's input; any number may be mixed with ordinary arguments, in order. The run completes only when sub-commands have completed, whatever they did, and a failing sub-command makes the run fail with its error.",
    ["inputs", "programs", "schedules"],
    "every list of readable/writable sub-commands x sizes x sub-pipeline shapes x failing parts",
    "Tests use one or two short sub-commands.",
    ["shellous/runner.py", "shellous/command.py"],
    [("_RunOptions._setup_process_substitution", "runner.py"), ("Runner._subprocess_spawn", "runner.py")],
    ["what the program and the sub-commands read (hashes)", "outcome of the run"],
)
prop(
    "P19",
    "A pty command runs on its own controlling terminal with exact data",
    "With the pty option the child's stdin, stdout and (by default) stderr are a terminal that is its controlling terminal in a new session, configured as requested (cooked, raw, cbreak, echo, size). Input given to the command reaches the child exactly (followed by end-of-file in canonical mode), everything the child writes is captured exactly up to the terminal's own output processing, and explicit redirections still take effect.",
    ["inputs", "configurations", "schedules"],
    "every pty mode x size x echo x input kind/size/line structure x output size x redirection",
    "Tests check one or two short inputs per mode.",
    ["shellous/pty_util.py", "shellous/runner.py", "shellous/redirect.py"],
    [("open_pty/cooked/raw/cbreak", "pty_util.py"), ("_RunOptions._setup_pty1", "runner.py"), ("write_stream eof handling", "redirect.py")],
    ["terminal state reported by the child; bytes read and captured"],
)
prop(
    "P20",
    "harvest waits for everything and reports the right outcome",
    "When harvest or harvest_results ends, by result, error, timeout or cancellation, every awaitable passed in is done. On the first exception the others are cancelled; harvest raises an exception of one of them and harvest_results returns all outcomes in argument order; on timeout both raise TimeoutError if and only if something was unfinished and nothing had failed; on cancellation harvest raises CancelledError and harvest_results reports cancelled=True, with cancel_finish letting the awaitables finish. No exception of an awaitable is reported as never retrieved.",
    ["schedules", "histories", "programs"],
    "every set of awaitables with arbitrary completion times, results, errors, cancellation reactions x timeout x time of outer cancellation",
    "Tests use a few fixed sets of sleeps.",
    ["shellous/harvest.py"],
    [("harvest/harvest_results/harvest_wait/_cancel_wait", "harvest.py")],
    ["outcome and state of each awaitable in virtual time versus a reference model"],
)
prop(
    "P21",
    "Concurrent runs are isolated from each other",
    "Any number of commands and pipelines running concurrently in one event loop (including the very same object entered many times, nested in one task or in many tasks) each get exactly their own input, output, errors, exit status and block; cancelling or failing one changes nothing for the others. Leaving nested blocks of one object ends the runs in reverse order of entering.",
    ["schedules", "histories", "programs"],
    "every interleaving of starting, reading, leaving, failing and cancelling many runs of shared objects",
    "Tests run a few identical commands with gather.",
    ["shellous/util.py", "shellous/runner.py", "shellous/command.py"],
    [("context_aenter/context_aexit", "util.py"), ("Runner/PipeRunner per-run state", "runner.py")],
    ["per-run tagged data versus expectations"],
    state=[("context stacks", "stack of entered runs per (object, task)", "util.py")],
)
prop(
    "P22",
    "The child watcher reports every exit exactly once with the right status",
    "With shellous's DefaultChildWatcher (either strategy) every registered child leads to exactly one callback with its pid, its true exit status and the registered arguments, whatever the number of children, order and timing of exits, or descriptor exhaustion. Closing the watcher ends its thread, releases its descriptors, and it can be closed twice or used again.",
    ["schedules", "fault_sequences", "histories"],
    "every number of children x exit timing relative to registration x close/reopen x exhaustion of descriptors",
    "Tests start one or a few children.",
    ["shellous/watcher.py", "shellous/util.py"],
    [("EPollStrategy/ThreadStrategy", "watcher.py"), ("wait_pid", "util.py")],
    ["callbacks received, threads and descriptors after close"],
)
prop(
    "P23",
    "A child inherits only the descriptors it should",
    "By default a launched process has exactly descriptors 0, 1, 2 connected as configured plus those named in pass_fds and its own process-substitution pipes; no other parent descriptor leaks in, however many commands and pipelines are being launched concurrently. In particular every pipe end is held only by its two parties, so end-of-file always propagates.",
    ["schedules", "configurations", "programs"],
    "every command shape x set of inheritable descriptors in the parent x concurrency",
    "Tests check one command with one pass_fds list.",
    ["shellous/runner.py"],
    [("_RunOptions._setup_pass_fds/close_fds", "runner.py"), ("process substitution pass_fds", "runner.py")],
    ["descriptor table reported by the child"],
)
prop(
    "P24",
    "A failed launch surfaces as its exception, promptly and everywhere",
    "If any part of a command or pipeline cannot be started (missing or non-executable program, missing input file, unwritable output path, invalid redirection, failing pty setup, failing process substitution, out of descriptors), the run raises that error instead of hanging, in every position and every run style (await, result, async with, async for, prompt); inside a block, the failure of an inner part surfaces when the block is left or its result is taken. A later run of the same or another command works normally.",
    ["fault_sequences", "configurations", "programs"],
    "every failing part x position in the pipeline x run style x failing resource allocation",
    "Tests cover await of a missing command and a few bad paths.",
    ["shellous/runner.py", "shellous/pipeline.py", "shellous/command.py"],
    [("_RunOptions.__enter__", "runner.py"), ("PipeRunner._setup_capturing", "runner.py"), ("Options.which", "command.py")],
    ["exception raised; completion of the run; outcome of the next run"],
)
prop(
    "P25",
    "Tracing and auditing never change behaviour",
    "With SHELLOUS_TRACE set to any value, with any logging level, or with an audit callback installed, every run produces the same outputs, results and exceptions as without, and secrets sent with no_echo are not logged.",
    ["configurations", "programs"],
    "every trace setting x command shape x outcome",
    "Tests run with one trace setting.",
    ["shellous/log.py", "shellous/prompt.py", "shellous/runner.py"],
    [("log_method/log_timer/log_thread", "log.py"), ("Prompt logging", "prompt.py")],
    ["outcome table of a fixed workload under each setting"],
)
prop(
    "P26",
    "Programs are found by the documented search rule",
    "A program name without a directory is looked up in the command's path option if set, otherwise in the PATH environment variable, first match that is an executable file; a name with a directory is used as is. find_command reports the program that running would execute, or None when running would fail because no such executable file exists (FileNotFoundError, or PermissionError for a name with a directory that is not executable).",
    ["inputs", "configurations"],
    "every layout of search directories (shadowing, non-executable entries, directories, missing dirs) x name form x path option",
    "Tests look up one existing and one missing command.",
    ["shellous/command.py", "shellous/runner.py"],
    [("Options.which/find_command", "command.py"), ("_RunOptions.__enter__", "runner.py")],
    ["which program actually ran"],
)

prop(
    "P27",
    "An exception raised in a block stops the run and propagates unchanged",
    "If the body of an async-with or prompt block of a command or pipeline raises an exception, the run is stopped like a cancelled one (cancel_signal first, SIGKILL only if it is still alive after cancel_timeout), and that very exception leaves the block once every process has exited. Consequences of stopping the run (broken pipes, input that could not be sent, truncated text, exit status, failed process substitutions) never replace or suppress it, and the caller's task is not left cancelled.",
    ["schedules", "configurations", "fault_sequences"],
    "every block style x redirections and pending I/O x exception type x moment at which it is raised x child's reaction",
    "Tests raise one exception in a block of a simple command; they do not combine it with unsent input, unread output or sub-commands that fail in consequence.",
    ["shellous/runner.py", "shellous/util.py", "shellous/command.py"],
    [("Runner.__aexit__/_finish/_ignore_error", "runner.py"), ("PipeRunner.__aexit__", "runner.py"), ("context_aexit", "util.py")],
    ["exception that leaves the block; processes alive at that moment; audit events"],
)

prop(
    "P28",
    "The event loop keeps running whatever children do",
    "Starting, feeding, reading, prompting, timing out, cancelling, killing or waiting for a command, pipeline, pty or process substitution never blocks the event loop: however slowly the children read, write, react to signals or exit, and whichever child watcher is in use, other tasks of the loop go on being served without interruption.",
    ["inputs", "schedules", "configurations"],
    "every kind of run x redirections x child that delays reading, writing, exiting or dying x cancellation, timeout and failure x loop and child watcher",
    "A blocked loop still produces the right result; tests compare results and do not watch other tasks.",
    ["shellous/runner.py", "shellous/util.py", "shellous/pty_util.py", "shellous/prompt.py", "shellous/watcher.py", "shellous/redirect.py"],
    [("Runner._kill/_kill_wait/_wait_pid", "runner.py"), ("wait_pid/poll_wait_pid", "util.py"), ("open_pty/open_pty streams", "pty_util.py"), ("Prompt._wait_no_echo", "prompt.py")],
    ["heartbeat of the loop; CPU and scheduling time of the loop's thread"],
)

prop(
    "P29",
    "Data that nobody has taken yet is held back, not accumulated",
    "Streaming applies backpressure. When output is iterated, read from a captured stream, searched by a prompt or copied to a stream writer, or when input comes from a stream reader or from prompt sends, a consumer that stalls stops the producer: what is in flight stays bounded (pipe, transport and reader buffers, under 2 MiB in all) however much the producer still has. When the consumer goes on, the whole data arrives unchanged and in order.",
    ["inputs", "schedules", "configurations"],
    "every streaming consumer and source x total size x moments and number of stalls x write sizes x loop",
    "Tests stream little data and never stall; unlimited buffering gives the same bytes.",
    ["shellous/redirect.py", "shellous/runner.py", "shellous/prompt.py", "shellous/pty_util.py"],
    [("write_reader/copy_streamwriter/_drain", "redirect.py"), ("Prompt.send/_drain", "prompt.py"), ("Runner._readlines", "runner.py"), ("open_pty streams", "pty_util.py")],
    ["bytes written by the producing process (kernel counters) or taken from the source, against bytes taken by the consumer"],
)

prop(
    "P30",
    "Data is passed on while its producer still runs",
    "Everything a child has written reaches its consumer while the child is still running, without waiting for more data, for the end of a line (except where lines are the unit: iteration and loggers) or for the end of the stream: sinks (bytearray, BytesIO, logger, file, stream writer), captured streams, async iteration and prompts, on standard output and error, through pipelines, ptys and process substitutions. Likewise what is written to a captured standard input, fed to a stream reader source or sent by a prompt reaches the child at once. (StringIO sinks, decoded as a whole, are filled at the end.)",
    ["inputs", "schedules", "configurations"],
    "every streaming sink and source x sizes and contents of the pieces x pauses between them x loop",
    "Tests look at a sink after the child has ended; the few interactive ones use short lines.",
    ["shellous/redirect.py", "shellous/runner.py", "shellous/prompt.py", "shellous/pty_util.py"],
    [("copy_bytearray/copy_bytesio/copy_logger/copy_streamwriter/read_lines/write_reader", "redirect.py"), ("Prompt._read_some", "prompt.py")],
    ["content of the sink, or data received, at each moment at which the producer stands at a gate"],
)

prop(
    "P31",
    "A run handle describes and controls exactly its own process",
    "The object bound by `async with` (the same one that an audit callback is given) tells the truth about the process it stands for at every moment: pid is that process (the first one of a captured pipeline), returncode is None while it runs and its exit status afterwards, name is the command's name, stdin/stdout/stderr are streams exactly for what is captured, pty_fd and pty_eof (and a prompt's echo, at_eof, pending) describe its own terminal; result() refuses while the process runs, and afterwards always gives the same Result. Each send_signal(n) delivers exactly signal n, and each cancel() the cancel signal, to that process and to no other, in the order of the calls; nothing is sent once the process has ended and been collected.",
    ["histories", "schedules", "configurations"],
    "every history of signals, questions and endings over several handles at once x kind of handle x redirections x loop",
    "Tests look at one handle after it has ended, or check that pid is not None; a handle mixed up with a sibling passes.",
    ["shellous/runner.py", "shellous/prompt.py"],
    [("Runner.pid/returncode/result/send_signal/cancel/_signal/pty_fd/pty_eof", "runner.py"), ("PipeRunner.pid/_setup_capturing", "runner.py"), ("Prompt.echo/at_eof/result", "prompt.py")],
    ["attributes of the handle against what the process reports of itself and /proc", "signal log of every process", "calls of os.kill"],
)

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
