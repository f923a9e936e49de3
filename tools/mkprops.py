#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LEX, PAR, EVA, VAL, NAT, SYN, CTX = ["lib/src/%s.rs" % f for f in "lexer parser evaluator value native syntax context".split()]
CLI, SRV, REQ, RES, URL, STR, TIM, CON = ["lib/src/http/%s.rs" % f for f in "client mod request response url stream time content".split()]
WRI, STA, CMD, MAIN = "lib/src/writer.rs", "lib/src/stat.rs", "cmd/src/command.rs", "cmd/src/main.rs"

p("C01", "Parsing is total: any text gives a program or an error",
  "Every text - a script, a REPL line, or the body of a response received from a server - is turned into a program or a parse error in time bounded by its size; parsing never hangs, panics, or exhausts the stack. Nesting beyond an implementation limit is an ordinary parse error, and ordinary nesting (dozens of levels) is accepted.",
  ["inputs"], "all Unicode texts up to ~1 MB, including random bytes, token soup, mutated programs, arbitrarily deep nesting and long operator chains",
  "The parser tests feed about 60 well-formed snippets; none is malformed, deep or long, so a non-terminating or stack-exhausting input is never reached.",
  [LEX, PAR, RES], [("segment always consumes a char per token", LEX), ("every parser loop advances or returns; nesting limit", PAR)], ["Parser::parse result", "process CPU time and exit status"])
p("C02", "Evaluation is total: any program gives a value or an error",
  "Evaluating any parsed program whose data fits into memory ends with a value or an error message: no operator, operand value, index, call or argument list makes the process panic, abort or hang, and neither do values that nest deeper with every line or iteration. In particular integer overflow, division by zero and out-of-range shifts or indexes are ordinary results or errors.",
  ["programs", "inputs"], "all programs over all value types with extreme operands (i64 limits, zero, NaN/infinite floats, empty and large containers)",
  "The evaluator tests only use small, well-typed operands that succeed; no test has an operand pair outside the range of an operation.",
  [EVA, VAL, NAT], [("checked integer operations and typed error arms", VAL), ("index bounds test", EVA)], ["eval_block result", "process exit status"])
p("C03", "Operators compute the documented values for every operand pair",
  "For every pair of values, + - * / % ^ | & << >> < > <= >= == != and unary - and ! give the mathematically expected result: exact 64-bit integer arithmetic (an unrepresentable result is an error, never a wrapped value), IEEE double arithmetic with integers promoted when mixed, string concatenation and lexicographic order, structural type-strict equality. Operands of unsupported types are an error for arithmetic and bit operators, and compare as false for the order operators. An array indexed by an integer gives the item of that position, counted from zero, and null for any other integer; a map gives the value of the key whose text it is, or null.",
  ["inputs"], "all operand pairs over null, booleans, integers, floats, strings, arrays and maps, boundary values included",
  "Tests sample about 70 fixed operand pairs, mostly small integers of one type.",
  [VAL, EVA], [("operator impls on values", VAL), ("PartialOrd/PartialEq of values", VAL), ("unary and binary dispatch", EVA)], ["value returned by eval_block and by indexing/binding it afterwards"])
p("C04", "Expression structure follows precedence, whatever the layout",
  "An expression groups by the documented precedence (|| < && < | < ^ < & < ==,!= < orderings < shifts < +,- < *,/,% < unary < call < index,field), left-associatively, so writing the implied parentheses explicitly never changes what a program evaluates to or prints. Nor does whitespace or line breaks between tokens, or redundant parentheses.",
  ["programs"], "all expression trees over all operators and postfix forms, rendered with minimal, random or full parentheses and arbitrary Unicode whitespace",
  "test_parse_operator_precedence lists 39 fixed shapes and compares a debug print; most operator pairs and all nesting combinations are untested.",
  [PAR, "lib/src/token.rs", LEX], [("precedence climbing", PAR), ("precedence table", "lib/src/token.rs"), ("maximal munch of operators", LEX)], ["values and output of equivalent renderings of one tree"])
p("C05", "Evaluation order, binding and control flow",
  "A program's expressions are evaluated in order and each operand, element, argument and map entry left to right exactly once; || and && evaluate the right side only when the left does not decide, if evaluates only the chosen branch (false and null choose the alternative, everything else the consequence), and a block's value is its last expression's, or null. let binds its value for everything evaluated later and yields it; the first error stops the program, keeping effects made before it and making none after.",
  ["programs"], "all programs mixing side effects (prints, bindings), short-circuit, conditionals, nested lets and failing sub-expressions",
  "Tests check final values of tiny programs without side effects, so order, exactly-once and error-stop are unobserved.",
  [EVA, CTX], [("recursive evaluation with ? propagation", EVA), ("variable map", CTX)], ["sequence of printed lines", "final value", "variables afterwards"])
p("C06", "Native functions format, print, length and append",
  "format replaces the placeholders {name} of its first argument, in order, by its remaining arguments' text, leaves every other character (other braces included) unchanged, never re-expands inserted text, and fails unless counts match; print and println write exactly that text and yield null. length gives the number of UTF-8 bytes, elements or entries, and append gives a new array extended by its arguments in order without changing the original; wrong argument counts or types are errors.",
  ["inputs"], "all argument lists, template strings with arbitrary brace and Unicode content, inserted text that itself looks like a placeholder",
  "Three format, three append and five length examples exist; none has nested placeholders, Unicode, wrong counts or more than two placeholders.",
  [NAT], [("placeholder regex and reverse replacement", NAT)], ["returned value", "bytes written to stdout"])
p("C07", "A REPL session equals one program fed line by line",
  "Bindings and requests made on one REPL line are visible on all later ones, a line that fails to parse or evaluate reports an error and loses nothing established before (including by its own completed part), and every non-blank line produces exactly its prints and then its value or error. The session ends, with success, at a line `exit`, at the end of input or once its input cannot be read any more, and no line after that is evaluated.",
  ["histories"], "all sequences of lines: valid, failing, blank, redefining, invalid UTF-8, with or without a final exit or newline",
  "The one REPL test sends a single line and exit.",
  [CMD, CTX, MAIN], [("context threaded through eval", CMD), ("end-of-input and exit handling", CMD)], ["stdout of the basjoofan process", "exit status"])
p("C08", "A request goes out on the wire exactly as declared",
  "Calling a declared request opens one connection and sends exactly one HTTP message: the declared method, the path with query of its URL (without its fragment), the declared version (HTTP/1.1 by default), and the declared headers with their values, in order and repeated when declared repeatedly, then the body. Nothing is dropped, duplicated, reordered or added except framing information for the body.",
  ["inputs"], "all messages over the supported methods and versions, any number of headers, any header/URL/body text and size, any indentation",
  "No offline test sends a request; the parsing unit test checks one GET's method.",
  [REQ, EVA, SRV], [("message line parsing", REQ), ("request serialization", REQ)], ["raw bytes received by a recording server"])
p("C09", "Variables in a request message are substituted once and exactly",
  "Every {name} in a request's message - URL, headers and body alike, surrounding spaces allowed - is replaced by the text of the variable's value at the time of the call (null when unbound), every occurrence and nothing else; substituted text is never expanded again and other braces are left alone. The request definition itself is not altered, so later calls see the then-current values.",
  ["inputs", "histories"], "all messages with any number and position of placeholders, all variable values (including brace-like, empty and multi-byte text), repeated calls with rebinding between",
  "Only online tests substitute, with one variable in two places.",
  [EVA], [("placeholder regex and reverse replacement", EVA)], ["raw bytes received by a recording server"])
p("C10", "Bodies are encoded for their content type and framed",
  "A body is delivered so that an HTTP server decodes precisely the declared data: raw bodies keep their lines, urlencoded forms decode to the declared name/value pairs in order, multipart forms decode (by the boundary announced in the header) to the declared text fields and to the exact bytes of the named files. A declared body is always framed - its length is announced unless the script announces a framing itself - and a file that cannot be read makes the request fail instead of going out incomplete.",
  ["inputs"], "all raw, urlencoded and multipart bodies over any text and any file content and size",
  "The tests that post bodies need the internet and only look at the status.",
  [REQ, CON], [("content preparation per content type", REQ), ("framing headers", REQ)], ["request as decoded by an independent server-side decoder"])
p("C11", "The response seen by the script is the one the server sent",
  "For every response ended by closing the connection, the script sees the sent version, status code, reason phrase, header values (all values of a repeated header, in order) and body text, whatever the sizes and however the network splits or delays the bytes. The value returned by the call, the fields the assertions see and the record agree with one another.",
  ["inputs", "schedules"], "all response messages (any status, headers, UTF-8 body up to MBs) under all segmentations and delays of the byte stream",
  "The single response test parses one fixed in-memory message in one piece.",
  [RES, STR, EVA], [("status line, header and body reading over a buffered stream", RES), ("response map", RES)], ["call result, assertion texts and record fields versus bytes sent by the server"])
p("C12", "A JSON body is available as the equal value under json",
  "When a response body is a JSON document, json gives the equal value: objects, arrays, strings, integers, decimals, negative numbers, booleans and null, nested as deeply as the parser allows. When it is not parseable json is absent and all other fields are unaffected.",
  ["inputs"], "all JSON documents up to the nesting limit and all non-JSON bodies",
  "One JSON body with one string member is tested.",
  [RES, SYN, PAR], [("literal evaluation of the parsed body", SYN), ("json key of the response map", RES)], ["value of response.json and of its members"])
p("C13", "A request goes to the host and port its URL names",
  "A request with an absolute http(s) URL connects to exactly the host and port the URL names (default 80/443), for names, IPv4 and bracketed IPv6 hosts, whatever its path, query or fragment contain, and contacts nothing else; one whose port is no port number contacts nothing and is an error. The recorded URL names that same scheme, host, port and path.",
  ["inputs"], "all absolute URLs: scheme spelling, host forms, port present or not, paths and queries containing ':', '/', '?', '://', '@', brackets",
  "Eight URL unit tests use one host and paths without special characters, and nothing observes the connection made.",
  [URL, STR], [("URL splitting", URL), ("address resolution and connect", STR)], ["resolver and connect calls of the process", "listening servers", "request_url in the record file"])
p("C14", "Connecting succeeds if any resolved address does",
  "When a host resolves to several addresses and at least one accepts connections, the request is delivered, exactly once and over one connection, however the other addresses behave (refuse, fail late, never answer), in any order and mix of IPv4 and IPv6. When all fail the request ends with an error and nothing is sent.",
  ["fault_sequences", "schedules"], "all address lists of up to 8 IPv4/IPv6 addresses with per-address behaviour accept/refuse/late-fail/slow/black-hole and all orders",
  "Only the address interleaving helper is unit tested; connection racing is never run.",
  [STR], [("happy-eyeballs race", STR), ("address interleaving", STR)], ["resolver answers injected, connect attempts logged, servers' request logs"])
p("C15", "https is authenticated and encrypted before anything is sent",
  "Over https nothing of the request is sent, and no response is accepted, unless the server proved with a currently valid certificate chained to a trusted root that it is the named host; otherwise the request ends with an error and is not reported as PASS. What is sent never appears in clear on the connection, and with a valid server request and response are delivered unchanged.",
  ["configurations", "fault_sequences"], "server certificates valid / expired / not yet valid / wrong name / self-signed / unknown CA / wrong key usage, plaintext or garbage servers, TLS 1.2 and 1.3, any request and response size",
  "No offline test makes a TLS connection.",
  [STR], [("rustls client with platform verifier", STR), ("server name from the URL host", STR)], ["bytes on the raw socket", "application data at the TLS server", "record verdict and error"])
p("C16", "A failing exchange is contained and reported",
  "Whatever a server does - refuse, reset, close at any byte, send garbage, oversized or non-UTF-8 data, or never read - the call ends once the server ends the connection, without panic, yields a response value holding only data that was received, and is reported exactly once; if the exchange failed the report is FAIL. Later requests of the same test, and other tests, are unaffected.",
  ["fault_sequences", "inputs"], "all server misbehaviours: close or reset after every byte offset of a response and at every stage of the request, malformed status lines and headers, arbitrary bytes",
  "No test has a misbehaving server.",
  [CLI, RES, STR, CTX], [("errors returned as record error with default response", CLI), ("lenient response parsing", RES)], ["report blocks, record error, follow-up requests, process exit status"])
p("C17", "Recorded times add up and match what happened",
  "For every completed exchange the recorded total equals resolve + connect + write + delay + read exactly, start is not after end, and the interval lies within the run. Delay covers the server's time to its first byte and read its time from then to the end of the response, in nanoseconds.",
  ["schedules"], "all exchanges under arbitrary server delays before and within the response",
  "The identity is asserted only by tests that need the internet, for one exchange each.",
  [CLI, TIM, WRI], [("phase timestamps", CLI)], ["time fields of the record file", "server-side timestamps"])
p("C18", "PASS exactly when every assertion holds",
  "A request is reported PASS exactly when its exchange did not fail and every assertion declared for it is true of its own response; each comparison is reported once, in order, with its text, the actual operand values and its own result. Assertions see the fields of the response and nothing of the calling code, and an operand that cannot be evaluated counts as null.",
  ["inputs", "programs"], "all assertion lists (any length, operators, operand expressions) against all responses, including failing exchanges",
  "Verdict printing is only touched by tests needing the internet, with one assertion.",
  [EVA, CTX], [("assertion evaluation in a response-only scope", EVA), ("verdict fold and report format", CTX)], ["report blocks on stdout", "asserts in the record file"])
p("C19", "A run performs exactly the requested iterations",
  "test NAME --threads T --number N runs the named test exactly N times in total for every T >= 1 and N (T may be far above N), split evenly (any two threads differ by at most one) and numbered 0,1,2,... per thread without gaps; an iteration that ends in an error ends only its own thread's share. Running without a name runs every test exactly once.",
  ["configurations", "schedules"], "all (T, N) pairs, any server latency and interleaving",
  "No test passes --threads or --number.",
  [CMD], [("per-thread quota", CMD), ("worker loop", CMD)], ["requests counted at the server", "iteration numbers in the record files"])
p("C20", "Every request is reported exactly once, everywhere, intact",
  "Under any concurrency every request of a test, whether it was answered or its exchange failed, appears exactly once as a report block on stdout, exactly once in the record files when recording, and exactly once in the statistics when requested, with agreeing name, verdict, values and times. Report blocks are never interleaved with one another.",
  ["schedules", "histories"], "all runs over threads, tests, requests per iteration, failing assertions, conditional requests, iterations ending in errors, recording and statistics on or off",
  "No offline test makes a request, and none uses threads, recording or statistics.",
  [CMD, CTX, WRI, STA], [("records drained per iteration and printed/written/sent", CMD), ("one println per record", CMD), ("channel to the statistics thread", CMD)], ["server log of unique response ids", "stdout blocks", "record files", "statistics lines"],
  [("records", "requests performed and not yet reported", "Context.records")])
p("C21", "Threads and tests are isolated from one another",
  "Every thread and every test starts from the bindings of the top-level code and sees no binding made by another thread or test, while a thread's own bindings carry over from one of its iterations to the next. A request's response fields and names used in its assertions do not leak into the calling test's variables.",
  ["schedules"], "all interleavings of threads and tests writing and reading the same names",
  "No test runs two threads or two tests.",
  [CMD, CTX, EVA], [("context cloned per thread/test", CMD), ("separate scope for assertions", EVA)], ["values each iteration sends to the server or prints"])
p("C22", "Interrupt and duration stop a run gracefully",
  "After SIGINT, or once the duration has passed, a named run starts no further iterations, completes the ones in progress, reports all of their requests (stdout, record files, statistics) and exits successfully; it does not stop before the duration has passed. Nothing performed is lost.",
  ["fault_sequences", "schedules"], "all moments of interruption and durations, threads, latencies, with and without recording and statistics",
  "No test sends a signal or uses --duration.",
  [CMD, MAIN], [("shared stop flag checked per iteration", CMD), ("ctrlc handler and timer thread", CMD)], ["server log before/after the signal", "stdout, record files, statistics, exit status"])
p("C23", "Record files are valid Avro holding exactly what happened",
  "Every record file is a valid Avro object container whose embedded schema decodes it completely, and decoding gives for each request, in order, the same test name, thread, iteration number, order, times, request (as declared, a form with its pairs), response, assertions and error as the run produced. This holds for all sizes and texts, including empty ones.",
  ["inputs"], "all records: any number per block (also none), headers, assertions, empty to MB bodies, all Unicode, extreme numbers, statuses",
  "test_writer decodes one record with no headers, no assertions and empty strings.",
  [WRI], [("Avro header, block and array encoding", WRI), ("zig-zag varints", WRI)], ["file bytes decoded by an independent decoder versus the in-memory records"])
p("C24", "Recorded iterations survive a crash or a failing disk",
  "Killing a run at any moment leaves record files in which every iteration that had been followed by another one of its thread is complete and decodable, with at most the last block cut. If the sink accepts only part of a write or is interrupted, nothing is lost or corrupted; if it fails, what was written before stays a decodable prefix and the run is not brought down.",
  ["crash_points", "fault_sequences"], "all kill moments and all sequences of short writes, interruptions and errors of the sink",
  "No test kills a run or uses a sink that is not a vector.",
  [WRI, CMD], [("one unbuffered whole-block write per iteration", WRI)], ["record files after SIGKILL versus server log", "bytes reaching a fault-injecting sink"])
p("C25", "Statistics are exact for every sequence of samples",
  "For every sequence of (name, milliseconds) samples the statistics show one line per distinct name with the exact count, sum, maximum, minimum and integer average of that name's samples, independent of order and of other names.",
  ["inputs", "histories"], "all sample sequences, including zero, very large values, single samples and many names",
  "Statistics have no test.",
  [STA], [("running aggregate per name", STA)], ["printed statistics"])
p("C26", "Source loading: every .fan file once, in path order",
  "The program of a run is every .fan file below the given path (default: the current directory), at any depth, each once (also where links lead back up), in the sorted order of their paths, no token of one file running into the next file's; other files are ignored. A named run executes that test and no other (an unknown name is reported and runs none), and where a name is defined twice the later definition counts.",
  ["configurations", "inputs"], "all directory trees and file names, files with or without final newline, any division of a program into files",
  "The one test that loads a file has a single file in a flat directory.",
  [CMD], [("recursive sorted read", CMD), ("test table keyed by name", PAR)], ["order of printed markers", "tests executed"])
p("C27", "Command-line durations and counts are read exactly",
  "A duration is a whole number followed by s, m or h and means exactly that many seconds, minutes or hours; every other text, including too large a value, is rejected with an error before any source is read or request sent. The same goes for invalid thread and iteration counts.",
  ["inputs"], "all argument strings",
  "No test passes a duration or an invalid option.",
  [MAIN], [("parse_duration", MAIN), ("clap value parsers", MAIN)], ["exit status and output of the process", "requested sleep", "elapsed time bounds"])
p("C28", "No data race, memory error or leak of threads in concurrent runs",
  "Concurrent runs - many threads, recording, statistics, interrupts, multi-address connects, TLS, large and malformed responses - execute without data races, invalid memory accesses or undefined behaviour, threads do not pile up from one request or iteration to the next, and the process always terminates.",
  ["schedules"], "all schedules of the worker, timer, signal, statistics and connect threads",
  "The tests are single-threaded and run without sanitizers.",
  [CMD, STR, CLI, WRI], [("Arc/AtomicBool/mpsc sharing", CMD), ("connect threads", STR)], ["ThreadSanitizer and AddressSanitizer reports of instrumented builds"])
p("C29", "The text shown for an assertion means the assertion",
  "The text under which an assertion is reported reads back as the same expression: it evaluates to the same value as the assertion as written, for every operand form.",
  ["programs"], "all assertion expressions over all expression forms",
  "Tests compare the printed form of a few dozen fixed expressions.",
  [SYN], [("expression display", SYN)], ["assertion text in reports and records, re-parsed"])
p("C30", "A literal denotes exactly what is written",
  "A whole number literal is its decimal value and is refused when it exceeds 2^63-1; a fractional literal is the double nearest to its decimal value and is refused when that is beyond all doubles; a string literal is exactly the characters between its quotes, blanks, line breaks, backslashes and braces included, with nothing unescaped or trimmed. This holds wherever the literal stands, whatever stands next to it, and the text shown for a number reads back as that number.",
  ["inputs"], "all digit strings and fractions of any length, all strings over Unicode without the quote, in every syntactic place",
  "About a dozen literals appear in the tests, none at a limit, long, badly rounded or with unusual characters.",
  [LEX, PAR, VAL, EVA], [("literal scanning", LEX), ("integer and float literals", PAR), ("text of values", VAL)], ["value and shown text of eval_block", "parse errors"])
p("C31", "Nothing written in an accepted source is ignored",
  "When a source is accepted, every word of it - except separators - is part of exactly one of its expressions, request messages, assertions or tests, in the order and place it was written: nothing is skipped, doubled or attached to another part. A text with a word that has no place in the language is refused as a whole.",
  ["programs", "inputs"], "all valid programs and all mutants of them: words removed, doubled, exchanged, inserted, cut off, foreign characters, with any layout",
  "The parser tests are about 60 well-formed snippets compared with a printed form; no test looks at what follows an unexpected word.",
  [LEX, PAR, SYN], [("every token consumed by one production", PAR), ("illegal characters kept as tokens", LEX)], ["expressions, requests, assertions and tests of the parsed source versus its text"])
p("C32", "A source that is refused or fails at its top level runs no test",
  "When a project cannot be read or parsed (whatever the flaw, in any file, test or assertion), nothing of it runs: nothing is printed but a message, no request is sent, no record file is written. When its top-level code ends in an error, the effects before the error are made, a message is given, and no test runs; an unknown test name is reported and runs none. The same holds for the text of eval and a line of the REPL. In all cases the process ends by itself, whatever the options.",
  ["inputs", "configurations"], "all flaws, their places among the files of a project, and all options (threads, counts, durations, recording, statistics)",
  "No test gives the command a flawed project.",
  [CMD, PAR, MAIN], [("parse and top-level evaluation before any thread is started", CMD)], ["stdout and stderr of the process", "connections at a server", "record directory", "exit status"])
p("C33", "The threads of a run and the tests of a file run at the same time",
  "The T threads of a named run, and all tests of an unnamed run, are at work at once: T requests can be in flight simultaneously, in every round, and a thread that waits for its server keeps no other thread from doing, reporting and recording its whole share. So the load a run produces is the one that was asked for.",
  ["schedules", "configurations"], "all thread and test counts, iteration counts, and choices of threads that are kept waiting, with and without recording and statistics",
  "No test runs more than one thread against a server.",
  [CMD, CLI], [("one thread per share or test, no lock held during an exchange", CMD)], ["number of requests waiting at a server that answers nobody until all have come"])
p("C34", "A run's resources do not grow with its length",
  "However many requests and iterations a run makes, or a REPL session asks for, and however they end, each exchange's connection is closed before the same thread makes its next one, and open files, threads and memory do not grow with what was done before (beyond the values that variables hold). So a run or a session can last for hours.",
  ["histories"], "all sequences of exchanges (answered, reset, cut, garbage, refused, unresolved, failed TLS, large) over long runs, with recording and statistics, and over the lines of a session",
  "No test makes more than one exchange.",
  [CLI, STR, CMD, CTX], [("stream dropped with the response", CLI), ("records drained per iteration", CTX), ("channel consumed while running", CMD)], ["/proc of the process at each request", "connections the client has not closed"])
p("C35", "What a run has done is visible while it runs",
  "A printed line is on standard output before anything after it happens, the reports (and, when recording, the records) of an iteration are out before the same thread's next iteration makes a request, and the answer to a REPL line is out before the next line is read, whether standard output is a file or a pipe. So a run that is watched or killed shows everything up to that moment.",
  ["histories", "crash_points"], "all runs, moments, thread counts, outputs to files and pipes",
  "Tests look at output only after the process has ended.",
  [CMD, NAT, WRI], [("line-wise output", NAT), ("report and write at the end of every iteration", CMD)], ["standard output and record files read while a server holds a request"])
p("C36", "A command touches nothing but what it was told to",
  "A command creates or changes no file except the record files of its own threads in the directory given with --record, and those it replaces completely, whatever they held before; it contacts no server except those named by the requests it calls - no proxy, redirect target, or host of a request that is declared but not called.",
  ["configurations", "inputs"], "all commands, worlds of existing files (foreign, old records, uploaded files), environments and server answers",
  "Tests neither record over existing files nor look at anything besides the result.",
  [CMD, CLI, "lib/src/http/content.rs"], [("record file creation", CMD), ("one exchange per call", CLI)], ["all files of a scratch world before and after", "connections at the called, redirected and decoy servers"])
p("C37", "What a server sends is data, never code",
  "Nothing a server sends - body, headers or reason, whatever it resembles: calls, bindings, placeholders, definitions, redirects - is evaluated: it makes no request, prints nothing, computes nothing, and changes no binding, request or test of the script. json contains values that are literally in the body, and nothing looked up or computed.",
  ["inputs", "histories"], "all response texts made of the language's own constructs, alone, combined, nested in JSON, in headers and reasons",
  "The bodies in the tests are one JSON object; none contains code.",
  ["lib/src/http/response.rs", SYN, EVA], [("literal evaluation of the parsed body", "lib/src/http/response.rs"), ("Expr::eval", SYN)], ["connections at the named and at a trap server", "printed lines", "bindings and requests afterwards", "json of the response value"])
p("C38", "The same code does the same, however it is run",
  "A program's printed lines, requests, reports, results and error message are the same whether it is given to eval, typed line by line into the REPL, stands at the top level of a project (in one file or divided over several), in a test (named or not, once or repeated, with or without statistics and recording), or in a block; a test that a thread runs again goes on with the bindings its last run left.",
  ["programs", "configurations"], "all programs with bindings, control flow, prints, native and request calls and errors; all ways to run them",
  "Each test of the repository runs one snippet in one way.",
  [CMD, MAIN, CTX, EVA], [("eval_block shared by all ways", EVA), ("one context per thread and iteration", CMD)], ["whole standard output of each way", "requests at the server"])
p("C39", "A call reaches the request of its name, else the native, else is an error",
  "A call by name performs the request last declared under exactly that name, with the bindings at the time of the call; where no such request is declared it runs the native of that name, and where there is none it is an error that names it and nothing is sent. Variables and tests of the same name do not come into it, and a declaration neither changes the bindings nor runs anything.",
  ["histories", "inputs"], "all histories of declarations, redeclarations, bindings and calls; names equal or near to natives, variables and tests; REPL lines and projects of several files",
  "The tests declare one or two requests under distinct names and call each once.",
  [EVA, CTX, CMD], [("call resolution", EVA), ("requests by name", CTX)], ["path of each request at the server", "printed values", "error messages"])
p("C40", "What concurrent threads print comes out whole, in order, once",
  "Every text printed by a test, and every report block, appears on standard output as one uninterrupted piece, exactly once, and the pieces of each thread in the order it produced them, however many threads print at the same moment and however slowly the output is taken.",
  ["schedules", "inputs"], "all interleavings of threads printing pieces of 0 to 200 kB with and without line breaks, between requests and reports; files, pipes, slow readers",
  "No test runs two threads that print.",
  [NAT, CMD, CTX], [("one write of the whole text", NAT), ("reports as one piece", CMD)], ["standard output parsed into pieces framed by thread and number"])
p("C41", "Addresses are tried in turn, each only when it is needed",
  "Of the addresses a name resolves to each is tried at most once, in the resolver's order within its family and with the families taking turns; another one is tried only when the one before it has failed or has had a moment to answer, and none once one has answered, while an address that does not answer never keeps the others from being tried. If nothing answers, all were tried. Connections that were opened in vain are closed without a byte.",
  ["inputs", "schedules"], "all lists of IPv4 and IPv6 addresses that accept, accept late, refuse, fail late or do not answer, in all orders",
  "The tests connect to one address of localhost.",
  [STR], [("rotate and the racing connects", STR)], ["order of connect calls and their ends at the C library", "connections at the server"])
p("C42", "An error says what failed",
  "The message of an evaluation error names the first operation that failed: an operator with the text of its two values (or its one) in their order, and division by zero, overflow and operands of the wrong type told apart; an unbound name or an unknown function by its name; a call with the wrong number of arguments by the number given and the number wanted; an index or field by the value that has none. The error recorded for an exchange is empty exactly when it completed, and otherwise tells a host that does not exist, a connection that failed, an unreadable file and an answer that is not HTTP apart, and blames none of the first three for a failed TLS handshake.",
  ["inputs", "programs"], "all operators and operand pairs they refuse, names, argument lists, alone and inside any program with several operations that would fail; all ways an exchange fails",
  "No test looks at an error message.",
  [VAL, EVA, NAT, "lib/src/http/error.rs", STR, CLI], [("error texts of operators", VAL), ("error texts of names, calls, indexes", EVA), ("error texts of natives", NAT), ("kinds of exchange errors", "lib/src/http/error.rs")], ["error of eval_block", "output of eval, REPL and test", "error of the record"])
p("C43", "A run whose output breaks still ends, with its records intact",
  "When standard output cannot be written any more - its reader went away, the device is full - eval, the REPL and a test run still end, a run makes no iteration beyond those asked for, what was delivered before is whole reports, and its record files are decodable and hold every iteration that was followed by another. When the reader merely stops reading for a while nothing is lost: the run waits and goes on, and an interrupt given meanwhile still ends it gracefully.",
  ["fault_sequences", "schedules"], "all moments at which the output breaks or stalls, thread counts, counts and durations, named and unnamed runs, with and without statistics",
  "The tests read the whole output of one short run.",
  [CMD, WRI, NAT], [("reports printed by the threads of a run", CMD), ("record before the next iteration", CMD)], ["process exit", "connections at the server", "bytes delivered", "record files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
