#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["dataplicity/" + f for f in files],
            "mechanism": [{"name": n, "where": "dataplicity/" + w} for n, w in mechanism],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": "dataplicity/" + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


prop("C01", "Decoding arbitrary bytes always ends, in a value or a decode error",
     "Decoding any byte string as an M2M message terminates, and either yields a value or raises the codec's decode error; no other exception escapes. "
     "Input that ends in the middle of a value, a string shorter than its declared length, and a dictionary with an unusable key or without a value for a key are decode errors, never waited for and never returned as a shortened value.",
     ["inputs"], "every byte string, of any length, truncated or corrupted anywhere",
     "The tests decode seven well-formed strings and two malformed ones; truncation and corruption points are unbounded.",
     ["m2m/bencode.py"], [("recursive decoder over a read callable", "m2m/bencode.py")],
     observe=["return value or exception of decode"])

prop("C02", "Encoded messages are self-delimiting, canonical and decodable",
     "Every supported value (bytes, text, integer, list, tuple, dictionary with byte-string keys) is encoded with the tag the decoder maps back to the same kind of value: strings are prefixed with the exact number of bytes that follow, containers are opened and closed around their items in order, and dictionaries are written in sorted key order. "
     "A value of any other kind, or a dictionary key that is not a byte string, is rejected with the codec's encoding error.",
     ["inputs"], "every value of the supported kinds, nested to any depth, and every unsupported kind",
     "The tests encode eleven literals whose dictionaries happen to be sorted already; values and nestings are unbounded.",
     ["m2m/bencode.py"], [("type-directed encoder", "m2m/bencode.py")])

prop("C03", "Wire layout of packets stays compatible with the M2M server",
     "Every M2M packet type keeps its published number and the published number, order and type of its fields, every packet type the server sends to the agent has a handler, and each handler receives all fields of its packet in wire order. "
     "The packets the agent sends carry each value in the field position the protocol assigns to it.",
     ["inputs", "programs"], "every packet type, every field position, every handler",
     "Tests construct two of 49 packet types; a renumbered, reordered or unhandled packet type shows up only against a real server.",
     ["m2m/packets.py", "m2m/packetbase.py", "m2m/dispatcher.py", "m2m/wsclient.py"],
     [("packet class table and PacketType enumeration", "m2m/packets.py"), ("handler table built from exposed methods", "m2m/dispatcher.py")])

prop("C04", "Only well-formed packets reach a handler",
     "A packet object never comes into existence with a declared field missing or of the wrong type, whether its fields are given by position or by name. "
     "An incoming message is acted on only after its packet type is recognised and its packet object has been validated; otherwise no handler runs.",
     ["inputs"], "every decoded message body, every packet type, positional and named fields",
     "Tests try one missing and one mistyped field of one packet type.",
     ["m2m/packetbase.py", "m2m/dispatcher.py", "m2m/wsclient.py"],
     [("field presence and type validation", "m2m/packetbase.py"), ("dispatch through create", "m2m/dispatcher.py")])

prop("C05", "No message or handler failure ends the server connection loop",
     "Whatever a websocket event contains and however its handling fails, the agent goes on to the next event; only an exit request or the end of the event stream ends the connection loop. "
     "An undecodable message, a message that is not a list, an unknown packet type and a failing instruction have no effect beyond a log entry.",
     ["inputs", "fault_sequences"], "every event content, every exception raised while handling it",
     "No test runs the event loop at all.",
     ["m2m/wsclient.py"], [("exception barriers around event, packet and instruction handling", "m2m/wsclient.py")])

prop("C06", "A lost connection leaves no stale session state behind",
     "When the server connection is lost, every open channel is told it has closed, waiting command callbacks are released, and the old identity is forgotten; a channel number used again afterwards, or after the server closed it, always means a new open channel. "
     "On every (re)connection the agent introduces itself: with its identity if it has one, otherwise with a request to join.",
     ["histories", "schedules"], "every sequence of opens, closes, disconnects and reconnects",
     "No test disconnects or reconnects.",
     ["m2m/wsclient.py"], [("disconnect handling", "m2m/wsclient.py"), ("channel table", "m2m/wsclient.py")],
     state=[("channels", "number to channel table", "m2m/wsclient.py"), ("identity", "m2m identity given by the server", "m2m/wsclient.py")])

prop("C07", "Identity, metadata and tags are resent until the API acknowledges them",
     "Device metadata, changed machine tags and a new M2M identity are treated as delivered only after the API has acknowledged every one of the calls that carry them; after any failure (unreachable server, error response, missing answer) they are sent again on the next opportunity. "
     "Once acknowledged, unchanged values are not sent again.",
     ["histories", "fault_sequences"], "every sequence of polls and identity notifications, every failing API call",
     "One test syncs once against a server that fails; no test looks at a second attempt.",
     ["client.py", "m2mmanager.py"], [("delivered flags set after checking results", "client.py"), ("identity notification", "m2mmanager.py")],
     state=[("_sent_meta", "metadata acknowledged", "client.py"), ("_tag_list", "last acknowledged tags", "client.py"), ("notified_identity", "last acknowledged identity", "m2mmanager.py")])

prop("C08", "Every API batch authenticates first, with the device's own credentials",
     "Every batch of API calls the agent sends starts with the device authentication call, carrying this device's serial and auth token, before any call that reports or changes device data. "
     "Nothing is sent to the API outside such a batch.",
     ["histories", "inputs"], "every batch sent by any code path",
     "No test inspects what the agent sends to the API.",
     ["client.py", "m2mmanager.py", "jsonrpc.py"], [("batches built in polling, syncing and identity association", "client.py")])

prop("C09", "A remote call returns only a matching, successful response",
     "A single API call returns a result only if the response declares protocol version 2.0, carries the id of this very request and contains no error; an error in the response is always raised, as the generic kind for reserved codes and the method kind otherwise. "
     "Failing to reach the server or read its answer is always reported as server-unreachable, and the connection is released on every path.",
     ["inputs", "fault_sequences"], "every response body and every failure while sending or reading",
     "Tests serve five response bodies and never fail the transport.",
     ["jsonrpc.py"], [("response validation", "jsonrpc.py"), ("error mapping", "jsonrpc.py")])

prop("C10", "A batch is sent exactly once and never reports a false success",
     "A batch used as a context is sent exactly once when its block completes, and not at all if the block raised or the batch was abandoned; its calls go out in the order they were added, each under a distinct id. "
     "Looking up a call's outcome succeeds only if the response holds a non-error answer for that id, raises the remote error if it holds an error, and fails if it holds neither.",
     ["inputs", "histories"], "every sequence of added calls, every response list",
     "Tests send two batches with well-behaved responses.",
     ["jsonrpc.py"], [("batch context manager and result lookup", "jsonrpc.py")])

prop("C11", "The device auth token is disclosed to the API only",
     "The device's auth token, whether configured on the command line or read from its file, is passed to nothing but the authentication call to the API: it never appears in log records, in output on stdout or stderr, in M2M packets, in files, or in the arguments or environment of a process the agent starts.",
     ["inputs", "configurations", "fault_sequences"], "every code path, including all error reporting",
     "No test looks for the token in output; error paths that print are not exercised.",
     ["app.py", "client.py", "jsonrpc.py"], [("token handling", "client.py"), ("error report on the command line", "app.py")])

prop("C12", "Polling survives every failure and shutdown is orderly",
     "The periodic poll attempts disk reporting, tag reporting and syncing each time, and no failure of one of them prevents the others or the next poll. "
     "The polling loop ends only on an exit request, a system exit or an interrupt, and however it ends the clock watcher is told to stop and the client is closed.",
     ["fault_sequences", "histories"], "every failure of any part of a poll, at any poll",
     "One test ends the loop by raising from a replaced poll; no part of a poll is ever made to fail there.",
     ["client.py"], [("exception barriers in poll", "client.py"), ("finally clause of the run loop", "client.py")])

prop("C13", "Network waits of the agent are bounded",
     "Every API request, every attempt to connect to a local service, and every wait for data from a local service or command has a finite time limit, and a server that stops answering keep-alive pings is given up, so the agent reconnects. "
     "No silent peer can block an agent thread for ever.",
     ["schedules", "fault_sequences"], "every peer that accepts a connection and then stays silent",
     "Tests use only local servers that answer at once.",
     ["jsonrpc.py", "portforward.py", "m2m/wsclient.py", "m2m/commandservice.py", "m2m/proxy.py", "client.py"],
     [("timeouts on connect and poll", "portforward.py"), ("websocket keep-alive", "m2m/wsclient.py")])

prop("C14", "Connections to the service are encrypted by default and go nowhere else",
     "Without explicit configuration both the API address and the M2M address use TLS, and certificate verification is never weakened. "
     "The only remote endpoints the agent contacts are the configured API address and the configured M2M address.",
     ["configurations", "programs"], "every code path that opens a network connection",
     "Tests override both addresses with local plain-text ones.",
     ["constants.py", "jsonrpc.py", "client.py", "m2m/wsclient.py", "m2mmanager.py"],
     [("default addresses", "constants.py"), ("single HTTP and single websocket call", "jsonrpc.py")])

prop("C15", "Port forwarding reaches loopback services only",
     "A connection opened for port forwarding or port redirection goes to the loopback address of the device and to the port that was asked for (a named service's own port, or the redirected device port), whatever the instruction from the server contains. "
     "An unknown service name opens no connection.",
     ["inputs"], "every instruction content and every service",
     "Tests check that one named service and one redirect start, with the connection itself replaced.",
     ["portforward.py", "m2mmanager.py"], [("service table", "portforward.py"), ("connection target", "portforward.py")])

prop("C16", "A forwarded connection ends with its peer and affects no other connection",
     "A forwarded connection stops, and asks for its channel to be closed, as soon as the local service has closed its side, the socket fails or hangs up, or its channel is closed; it never polls on after that. "
     "The end of one forwarded connection, however it comes about, leaves all other current and future connections working.",
     ["schedules", "fault_sequences", "histories"], "every order of data, end of stream, reset and channel close",
     "Tests replace the connection thread's start; no byte is ever forwarded.",
     ["portforward.py"], [("read loop", "portforward.py")],
     state=[("close event", "shared by all connections of the manager", "portforward.py")])

prop("C17", "Bytes for a forwarded service are delivered in order, without loss",
     "Bytes that arrive for a forwarded service before or after its socket is connected are all written to the socket, completely, once, and in arrival order; bytes that arrived before the channel closed are written before the socket is shut down. "
     "If bytes cannot be written the connection is ended, so that later bytes never follow a gap.",
     ["schedules", "fault_sequences"], "every interleaving of arrivals, connect and close; every failing write",
     "No test sends a byte through a forwarded connection.",
     ["portforward.py"], [("buffer until connected, flush under lock", "portforward.py")],
     state=[("read_buffer", "bytes received before connect", "portforward.py")])

prop("C18", "Service slots are taken once, released once, and never exceed the limit",
     "Every file, command, port-forward or terminal service that starts holds exactly one slot of its pool until its thread ends, and gives it back exactly once however it ends; a start that fails holds none. "
     "The count in use never exceeds the limit and never falls below zero, whatever threads do concurrently.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of starts and ends, every failure while starting or running",
     "No test exhausts a limit or fails a service thread.",
     ["limiter.py", "portforward.py", "m2mmanager.py", "m2m/fileservice.py", "m2m/commandservice.py", "m2m/remoteprocess.py"],
     [("limiter and its start-up context", "limiter.py"), ("release in finally of each service thread", "m2m/fileservice.py")])

prop("C19", "A service that cannot start says so and closes its channel",
     "When a terminal, file, command, named forward or redirect cannot be started because the device is at its limit or out of threads, the remote end gets an explanatory message on the channel, the channel is closed, and the failure goes no further. "
     "A started service is not reported as failed.",
     ["fault_sequences"], "every start failure of every kind of service",
     "No test fails a service start.",
     ["m2mmanager.py", "portforward.py", "m2m/fileservice.py", "m2m/commandservice.py"],
     [("exception handlers around service start", "portforward.py")])

prop("C20", "When a service ends its channel is closed",
     "When a file transfer, a command, a forwarded connection or a terminal ends, for whatever reason (finished, failed to begin, error, exception), the agent asks for its channel to be closed, so the remote end never waits on a dead service.",
     ["fault_sequences", "schedules"], "every way a service thread can end",
     "No test runs a service to its end.",
     ["m2m/fileservice.py", "m2m/commandservice.py", "portforward.py", "m2m/remoteprocess.py"],
     [("close in finally", "m2m/fileservice.py")])

prop("C21", "A remote command's output is relayed to its end and nothing is left running",
     "A remote command's standard output, and nothing else, is written to its channel in order until end of output or until the channel is closed; then the service stops, without polling on, sends its completion notice before closing the channel, and kills the command if it is still running. "
     "A hang-up of either output pipe never leaves the service looping.",
     ["schedules", "fault_sequences"], "every order of output, end of output, pipe hang-up and channel close",
     "No test runs a command.",
     ["m2m/commandservice.py"], [("poll loop and finally clause", "m2m/commandservice.py")])

prop("C22", "Terminal processes are hung up and reaped, and nothing else is signalled",
     "When its channel closes, a terminal's process is sent a hang-up exactly once, even if the close comes before the process has started, and is then waited for, with a kill if it lingers; once it has been reaped it is never signalled or waited for again. "
     "The agent never signals any process but a terminal it started, a command it started, or itself.",
     ["schedules", "histories"], "every order of start, output, close and exit",
     "No test starts a terminal.",
     ["m2m/remoteprocess.py", "m2m/proxy.py", "clockcheck.py", "m2m/commandservice.py"],
     [("close and wait thread", "m2m/remoteprocess.py")],
     state=[("_closed", "hang-up already sent or not needed", "m2m/remoteprocess.py"), ("pid", "terminal process", "m2m/proxy.py")])

prop("C23", "A terminal's child process runs its command or dies, with no extra privilege",
     "The child process created for a terminal never continues running agent code: it either becomes the terminal's command or exits. "
     "If the terminal is configured with a user or group, the command runs only after the process has switched to that group and then to that user, and not at all if either does not exist or cannot be switched to.",
     ["fault_sequences", "configurations"], "every failure between fork and exec, every user and group setting",
     "No test forks a terminal.",
     ["m2m/proxy.py"], [("code between fork and exec", "m2m/proxy.py")])

prop("C24", "Only instructed programs are run, and only commands go through a shell",
     "The agent starts only the terminal's configured command, the command given in a run-command instruction, the reboot command (on a reboot instruction only) and the tag script. "
     "Only the run-command instruction's text is ever interpreted by a shell, and no data from the server ends up in the arguments of any other program.",
     ["inputs", "programs"], "every instruction and packet content, every code path that starts a program",
     "No test starts a program.",
     ["m2mmanager.py", "m2m/commandservice.py", "m2m/proxy.py", "m2m/remoteprocess.py", "tags.py"],
     [("process creation sites", "m2mmanager.py")])

prop("C25", "Remote file access cannot leave the remote directory",
     "Whatever path or id the server sends, opening a remote file reads only files below the remote directory (or the directory scan), storing an uploaded file creates files only below the remote directory, and snapshots and partial uploads are created, read, written and removed only inside the agent's own temporary folders (paths are judged as written; symbolic links are not followed up). "
     "A path or id that would lead elsewhere is refused with a failure answer and without touching the file system.",
     ["inputs"], "every path, upload id, download id and device path, including absolute paths, parent references and embedded separators",
     "No test exercises the remote directory at all.",
     ["remote_directory.py"], [("path validation", "remote_directory.py"), ("snapshot and download paths", "remote_directory.py")])

prop("C26", "Every remote file request gets exactly one truthful answer",
     "Every request to open, read or write a remote file is answered by exactly one result packet of the matching type carrying the request's own id, whatever fails on the way; it says success only if the operation was carried out, and failure otherwise. "
     "A successful answer carries the size, data or position actually obtained and, for a write, where the upload is kept; a failure answer repeats the offset and size asked for and gives a reason. The text in a request is UTF-8.",
     ["inputs", "fault_sequences"], "every request content, every failing file operation",
     "No test exercises the remote directory at all.",
     ["remote_directory.py", "m2m/wsclient.py"], [("request handlers", "remote_directory.py")])

prop("C27", "A stored upload never overwrites a file and is not lost silently",
     "An uploaded file is moved into the remote directory only under a name that was not in use, trying numbered names a bounded number of times; if its folder does not exist it is stored in the remote directory itself. "
     "An upload is reported complete only after it has been moved into place, and partial data is written at exactly the offset the server gave. A new upload starts out empty, and nothing of it stays behind once it is stored.",
     ["inputs", "fault_sequences"], "every destination name and state of the remote directory, every failing operation",
     "No test exercises the remote directory at all.",
     ["remote_directory.py"], [("choice of destination name", "remote_directory.py")])

prop("C28", "A snapshot never fills the disk and does not outlive its transfer",
     "A snapshot of a file to be transferred is made only if, by the disk usage measured, the space used plus the file's size stays within the disk's total minus the safety margin; otherwise the request is refused as low disk space. "
     "Reads are served from the snapshot taken at open, and closing the transfer removes it.",
     ["inputs", "histories"], "every file size and disk state that can be measured",
     "No test exercises the remote directory at all.",
     ["remote_directory.py"], [("space check before copy", "remote_directory.py")])

prop("C29", "A directory scan is complete to its depth, hides hidden entries and terminates",
     "A scan lists every visible file and directory it can reach, each under its own directory, never lists or enters hidden entries, and never goes deeper than its limit; the result names its root by absolute path. "
     "It tells directories apart by the inode of their entry and enters none that it has entered before, so it ends even where links form cycles; an entry or directory that cannot be examined is skipped without failing the scan (only a root that is no directory fails it), and sizes are -1 exactly when not wanted or not available.",
     ["inputs", "fault_sequences"], "every directory tree, including link cycles and unreadable entries",
     "No test scans a directory.",
     ["scan_directory.py"], [("explicit stack, visited set and depth bound", "scan_directory.py")])

prop("C30", "Scan results are published whole, and reported only once published",
     "The scan result file is only ever replaced as a whole by a complete scan, so a crash or a concurrent reader never sees a partial one. "
     "What is scanned is the remote directory, with file sizes. Success is reported to the server only after the result file is in place, a scan that fails is reported as failed, and scans never run concurrently.",
     ["crash_points", "schedules", "fault_sequences"], "every crash point while writing, every reader, every failing scan",
     "No test scans a directory.",
     ["directory_scanner.py", "m2m/wsclient.py", "remote_directory.py"], [("scan thread", "directory_scanner.py"), ("result file", "directory_scanner.py")])

prop("C31", "A closed channel is silent, and channel data stays in order",
     "After a channel has closed no data or control message is sent on it, even when it closes just as another thread is about to send, and none is delivered from it; its close notification is delivered at most once and a failing close callback does not spread. "
     "Data that arrives on an open channel is either handed to its callback at once or queued, and queued data is read back complete and in order.",
     ["histories", "schedules"], "every sequence of arrivals, reads, writes and closes",
     "Tests drive each channel method once or twice in fixed orders.",
     ["m2m/wsclient.py"], [("channel methods", "m2m/wsclient.py")],
     state=[("_closed", "closed by either side", "m2m/wsclient.py"), ("deque", "queued data", "m2m/wsclient.py")])

prop("C32", "The agent's threads cannot deadlock and shared state is accessed under its lock",
     "No thread ever waits for a lock it already holds, and all threads that hold several locks acquire them in one consistent order, so threads cannot deadlock on the agent's locks; a lock is released on every path. "
     "Slot counters, channel queues, forwarding buffers and command callbacks are read and written only under the lock that guards them.",
     ["schedules"], "every interleaving of all threads",
     "Tests are single-threaded.",
     ["limiter.py", "portforward.py", "m2m/wsclient.py", "client.py", "directory_scanner.py"],
     [("locks", "limiter.py"), ("locks", "portforward.py"), ("locks", "m2m/wsclient.py")])

prop("C33", "Each instruction starts exactly the service it names, from the right pool",
     "Each instruction (sync, open a terminal, echo, named forward, redirect, reboot, read a file, run a command, scan) has the effect it names, with the channel, path, command, port or size given in the instruction, and no other effect; an unknown instruction has none. "
     "Terminals draw on the terminal pool and all other limited services on the service pool.",
     ["inputs"], "every instruction and every parameter value",
     "One test sends one instruction.",
     ["m2mmanager.py"], [("instruction dispatch", "m2mmanager.py")])

prop("C34", "The command line reports failure by exit status and message",
     "Running the program exits with status zero only if the chosen sub-command completed; a failing sub-command, a missing sub-command and an invalid log level all give a non-zero status and a message, without a traceback unless debug output was requested. "
     "A log file, if configured, is rotated and so bounded in size.",
     ["inputs", "fault_sequences"], "every argument list, every failing sub-command",
     "Tests run two sub-commands directly, never the program.",
     ["app.py", "subcommands/run.py", "subcommands/version.py", "subcommand.py"], [("main entry point", "app.py")])

prop("C35", "Missing device information never prevents metadata from being collected",
     "On a device where the hardware description files are absent or unreadable, or whose network interfaces cannot be listed, metadata is still collected, with empty values for what is missing and the true values for the rest. "
     "The socket and files used for collecting it are closed on every path.",
     ["configurations", "fault_sequences"], "every combination of missing sources",
     "Tests run on one machine; one of them replaces one source.",
     ["device_meta.py", "rpi.py", "iptool.py"], [("error handling around each source", "device_meta.py")])

prop("C36", "Messages from concurrent threads are put on the wire one at a time",
     "However many threads send at once, each message is compressed and written to the websocket as one unit, so that the messages of different threads never interleave and the compression state stays in step with the order sent. "
     "Failure to send because the connection is unavailable never raises in the sending thread.",
     ["schedules"], "every interleaving of sending threads",
     "Tests never send, let alone concurrently.",
     ["m2m/wsclient.py"], [("the single place that sends on the websocket", "m2m/wsclient.py")],
     state=[("write_lock", "serialises sending", "m2m/wsclient.py")])

prop("C37", "The clock watcher restarts the agent on a clock jump, and only then",
     "While the agent runs, if over one check period the wall clock has moved forward further than the allowed discrepancy, the agent kills its own process so that its supervisor restarts it; otherwise it never does. "
     "The watcher never keeps the process alive and stops when told to.",
     ["histories", "schedules"], "every sequence of clock readings",
     "No test runs the watcher.",
     ["clockcheck.py", "client.py"], [("watcher thread", "clockcheck.py")])

prop("C38", "Every report to the API carries the value it names",
     "Each value reported to the API is the one measured for it, whole and under its own name: agent version, machine revision, model name, OS version, uname and IP addresses as collected, every tag, the identity the server assigned (decoded as UTF-8), and as disk capacity and use the total and used bytes of the root file system.",
     ["inputs", "configurations"], "every measured value",
     "Tests never look at what is sent; a swapped, shortened or filtered value is accepted by any server.",
     ["client.py", "disk_tools.py", "device_meta.py"], [("API calls of each report", "client.py")],
     observe=["arguments of the API calls"])

prop("C39", "Services relay what they read whole and unchanged, on their own channel",
     "What a terminal's process, a forwarded connection or a transferred file yields is written to the channel of that very service piece by piece, unchanged, in order and to the end: a service stops relaying only at the end of the data, a hang-up with nothing left to read, a failure or the close of its channel. "
     "Data for a terminal is written to its process completely and in order however little each write takes, or the channel is closed; the echo service returns what it is sent; a file transfer reads the file that was asked for, in binary.",
     ["inputs", "histories", "fault_sequences"], "every sequence of wait, read and write results, including partial writes and hang-ups with data left",
     "Tests drive no terminal and no hang-up; truncation needs a process that ends with output pending.",
     ["m2m/proxy.py", "m2m/remoteprocess.py", "portforward.py", "m2m/fileservice.py", "m2m/echoservice.py"],
     [("poll and relay loops", "m2m/proxy.py"), ("poll and relay loop", "portforward.py"), ("chunked reader", "m2m/fileservice.py")])

prop("C40", "Disk usage is computed from the file system's own figures",
     "For any path, the reported total, used and free bytes are block counts times the fragment size of its file system (used: total minus free blocks; free: blocks available to users), the percentage is used relative to used plus free, rounded to one digit and zero for an empty file system, and an error from the file system is raised, never replaced by made-up figures.",
     ["inputs"], "every possible set of figures a file system may report",
     "Tests try three pairs of numbers for the percentage and none for the sizes.",
     ["disk_tools.py"], [("arithmetic on statvfs fields", "disk_tools.py")])

prop("C41", "A waiting service never keeps the agent from answering the server",
     "The thread that handles the server's messages never waits for what it starts: handling a message does not sleep, join a thread, wait for a process, its output, an event or a queue, connect, poll, receive from a local service or list directories, and takes no lock that another thread holds while it does any of these. "
     "It waits only for the next message, the (time-limited) API, the file system, and for what it writes to be accepted.",
     ["schedules", "inputs"], "every instruction and every state of every service",
     "Tests never have a slow command, scan or local server while another message arrives.",
     ["m2m/wsclient.py", "m2mmanager.py", "portforward.py", "directory_scanner.py", "m2m/remoteprocess.py", "m2m/commandservice.py",
      "m2m/fileservice.py"],
     [("message handlers", "m2m/wsclient.py"), ("background scan", "directory_scanner.py"), ("reboot", "m2mmanager.py")])

prop("C42", "A terminal has the window size that was asked for last",
     "The pseudo terminal of an opened terminal has the size the server asked for last: the columns and lines given when it was opened (80 by 24 if none were), or those of the last resize request, also if that comes before its process exists or while the terminal starts. Control messages that cannot be decoded or ask for something else set no size.",
     ["schedules", "inputs"], "every interleaving of a resize request with the start of a terminal",
     "Tests open no terminal, and the order of a resize and the start is up to the scheduler.",
     ["m2m/proxy.py", "m2m/remoteprocess.py", "m2mmanager.py"],
     [("window size", "m2m/proxy.py"), ("control messages", "m2m/remoteprocess.py")])

prop("C43", "A terminal's descriptor is closed on every end and never used once closed",
     "However a terminal ends (its process exits, its set-up or relaying fails, its channel closes), the descriptor of its pseudo terminal is closed, once; and input, resize requests and closing never touch the descriptor after that, or while it is being closed, so nothing typed reaches another file, socket or terminal that gets the same number. No function leaves another raw descriptor open.",
     ["schedules", "fault_sequences"], "every interleaving of messages with a terminal's end, and every failing call",
     "Tests open no terminal; a leak needs many failures, and a reused number an exact interleaving.",
     ["m2m/proxy.py", "m2m/remoteprocess.py"], [("spawn, input and resize", "m2m/proxy.py")])

# ---- properties stated but not claimed
prop("C44", "What a thread uses is set up before the thread is started",
     "When a thread of the agent starts, everything its code uses has been set up: neither the construction of the agent nor its main loop nor the start of a service gives an attribute its first value, or a table an entry, after the start of a thread that reads it. "
     "So an instruction that arrives as soon as the connection is made is carried out like any other, and no thread runs into an attribute that does not exist yet.",
     ["schedules"], "every interleaving of the thread that starts another and the one started",
     "Tests patch the start of threads or never let them receive anything.",
     ["client.py", "m2mmanager.py", "portforward.py", "m2m/commandservice.py", "m2m/fileservice.py"],
     [("construction of the agent", "client.py"), ("set-up of the m2m manager", "m2mmanager.py")])

prop("C45", "The machine-defined tags are the words the tag script printed",
     "The tags collected are the words, separated by commas and any white space, of what the tag script printed just now, all of them and each cut to 25 characters, whatever bytes it prints (those that are no text are left out). "
     "If there is no script there are no tags; a script that fails is reported as an error, never as having no tags or those of an earlier run.",
     ["inputs", "fault_sequences"], "every output of the script and every way to fail",
     "No test runs a tag script; separators, lengths and undecodable bytes can be combined in any way.",
     ["tags.py"], [("get_tag_list", "tags.py")])

prop("C46", "The agent runs with the settings it is given",
     "A serial, authentication token, API URL, M2M URL or remote directory given on the command line is what the agent authenticates, calls, connects to and serves files from. "
     "What is not given comes from DATAPLICITY_API_URL and DATAPLICITY_M2M_URL, from the serial and auth files without the white space around their text, or is a built-in default. "
     "The M2M URL tells the server the features of the agent (scan and downloads) unless it has a query of its own. "
     "Services and terminals are each limited to the number in DATAPLICITY_LIMIT_SERVICES and DATAPLICITY_LIMIT_TERMINALS, or to a default if that is not set or no integer.",
     ["configurations"], "every combination of options, environment variables and files",
     "The tests construct clients with all settings given; what the options, variables and files lead to is never run.",
     ["app.py", "client.py", "constants.py", "m2mmanager.py"], [("Client.__init__", "client.py"), ("get_environ_int", "constants.py"), ("App.run", "app.py")])

prop("N01", "Decoding inverts encoding for every value",
     "For every supported value v, decoding the encoding of v yields v (with text turned into UTF-8 bytes and tuples into lists).",
     ["inputs"], "every supported value", "Tests try a handful of literals.",
     ["m2m/bencode.py"], [("codec", "m2m/bencode.py")])
prop("N02", "Data through a terminal or forward arrives byte for byte at the other end",
     "The byte stream the remote end receives equals the byte stream the local service or process produced, and vice versa, over any sequence of network events.",
     ["schedules", "fault_sequences"], "every interleaving and network failure", "No test has two ends.",
     ["portforward.py", "m2m/proxy.py", "m2m/wsclient.py"], [("relay loops", "portforward.py")])
prop("N03", "The agent reconnects within the back-off window",
     "After the server becomes reachable again the agent is connected within the maximum back-off time.",
     ["schedules"], "every outage", "No test has an outage.",
     ["m2m/wsclient.py"], [("lomond persist", "m2m/wsclient.py")])
prop("N05", "Remote file access cannot leave the remote directory through links or races",
     "Even if links below the remote directory point outside it, or are changed while a request is served, no file outside is read or written.",
     ["schedules", "configurations"], "every file system state and concurrent change", "No test exercises the remote directory.",
     ["remote_directory.py"], [("path validation", "remote_directory.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
