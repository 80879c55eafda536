#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Every interprocess lock a program takes is given back exactly once",
  "Whenever a program has taken one of the lock files shared between programs (its own program lock, the lock of the area list, the lock of a history database), every way it can finish or give up afterwards gives that lock back before the process ends. "
  "A program gives back only locks it holds, never one it failed to obtain or has already given back, and never takes the same lock a second time while holding it.",
  ["programs", "fault_sequences", "configurations"],
  "all paths of every program from start to exit, including every error return, for every combination of command line options",
  "No test runs ftntoss, ftnroute, ftnpack, ftntick, areafix or runinc; the leaks are on error paths (unreadable configuration, busy second lock, failed packet) a sampled run does not take.",
  ["src/common/lock.c", "src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/toss/runinc.c", "src/toss/ftnexpire.c",
   "src/tick/ftntick.c", "src/gate/ftn2rfc.c", "src/areafix/ftnaf.c", "src/areafix/ftnafpkt.c", "src/areafix/ftnafutil.c", "src/areafix/pkttmpl.c", "src/common/msgid.c"],
  [("lock_program / unlock_program", "src/common/lock.c"), ("lock_path / unlock_path", "src/common/lock.c"), ("main of every program", "src/*/*.c")],
  ["the lock directory after a program has ended"])

p("C02", "Without the lock, no protected work; lock files are created atomically",
  "A lock or busy file is obtained only by an operation that fails if the file already exists, so two programs can never both obtain it. "
  "A program that did not obtain its own program lock or the lock of the area list does none of the work: it neither changes, removes or creates any mail, packet or area file afterwards. "
  "The message history is written only while its lock is held, and the area list is rewritten only while its lock is held and from a copy read under that same lock.",
  ["schedules", "programs", "fault_sequences"],
  "all interleavings of concurrently started programs, all outcomes of every attempt to lock",
  "Needs two programs interleaving at the instant between looking for a lock and making it; tests start one program at a time and never one that finds a lock taken.",
  ["src/common/lock.c", "src/common/binkley.c", "src/toss/ftntoss.c", "src/tick/ftntick.c", "src/toss/ftnexpire.c", "src/common/msgid.c", "src/areafix/ftnaf.c", "src/areafix/ftnafutil.c"],
  [("lock_lockfile, bink_bsy_create", "src/common/lock.c, src/common/binkley.c"), ("callers of lock_program / lock_path", "src/*/*.c"), ("hi_write, areasbbs_rewrite", "src/common/histdb.c, src/common/areasbbs.c")],
  ["files changed by a program that reported it could not lock"])

p("C03", "A node's busy flag is held while its outbound changes and always released",
  "Every program that changes the outbound of a node (flow file, archive, outbound packet) first creates that node's busy flag, and if it cannot, leaves that node's outbound alone. "
  "Whoever created a busy flag removes it on every path, success or failure, and nobody removes a busy flag it did not create.",
  ["schedules", "fault_sequences", "programs"],
  "all paths through the functions that create busy flags, with every call between creation and removal failing in every possible way",
  "No test touches the outbound; a busy flag left behind or stolen needs a failing open, seek or attach at one point in the middle.",
  ["src/common/binkley.c", "src/common/flo.c", "src/common/packet.c", "src/toss/ftnpack.c", "src/toss/ftn2ftn.c", "src/gate/ftnin.c"],
  [("bink_bsy_create / bink_bsy_delete", "src/common/binkley.c"), ("flo_open / flo_close", "src/common/flo.c"), ("do_packet, do_file in ftnpack", "src/toss/ftnpack.c")],
  [".bsy files in the outbound after each program run"])

p("C04", "Sequence numbers are handed out once, under an exclusive lock",
  "A sequence number is read, incremented and written back while an exclusive lock on its file is held from before the read until after the write, and an existing counter file is never emptied or recreated on the way. "
  "If the counter cannot be locked, read or written, no number is handed out.",
  ["schedules", "fault_sequences"],
  "all interleavings of any number of programs asking for numbers of the same kind, all failures of the file operations involved",
  "Uniqueness is a statement about all interleavings; the tests ask for numbers from one process and never fail a write.",
  ["src/common/sequencer.c", "src/common/lock.c"],
  [("sequencer_nx", "src/common/sequencer.c"), ("lock_file / unlock_file", "src/common/lock.c")],
  ["names of packets, mails and TIC files; the counter file"])

p("C05", "A finished file appears under its final name only when completely written",
  "Packets, mails, news batches, the area list and the history files are built under a temporary name and renamed to the name other programs look for only after every byte has been written and the stream has been closed, both without error. "
  "If a write, flush or close fails, the file does not appear under its final name, the previous version (where there is one) stays in place, and the failure is reported to the caller.",
  ["crash_points", "fault_sequences"],
  "every point at which a write, flush, close or rename can fail or the process can die",
  "Tests run on a disk that never fills up; the property is about the one run where fclose returns an error.",
  ["src/common/packet.c", "src/common/outpkt.c", "src/common/mail.c", "src/common/areasbbs.c", "src/toss/ftnexpire.c", "src/common/tick.c", "src/areafix/ftnafutil.c"],
  [("pkt_close, outpkt_close", "src/common/packet.c, src/common/outpkt.c"), ("mail_close", "src/common/mail.c"), ("areasbbs_rewrite", "src/common/areasbbs.c"), ("expire main", "src/toss/ftnexpire.c")],
  ["the spool directories after a failed write"])

p("C06", "Input is removed only after it has been processed successfully",
  "An input packet, TIC file, mail, archive or attached file is deleted only on a path on which it was read completely and everything produced from it was written and closed without error. "
  "Otherwise it is kept where it is or set aside under a name marking it as bad, so no failure can lose mail.",
  ["fault_sequences", "crash_points", "inputs"],
  "every failing read, write, parse or close while an input file is being processed",
  "The conversions under test write to a scratch directory and never fail half way through an input.",
  ["src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/gate/ftn2rfc.c", "src/tick/ftntick.c", "src/areafix/ftnafpkt.c", "src/gate/rfc2ftn.c", "src/toss/runinc.c"],
  [("unpack_file in ftntoss, ftn2rfc, ftnroute's do_file, ftnpack's do_packet, ftntick's do_tic", "src/*/*.c")],
  ["the inbound and toss directories after a failing run"])

p("C07", "A failure reported by one layer is recognised by the layer above",
  "Every test of a returned status against a particular failure value tests for a value the called operation can really return when it fails, and no failure value it can return slips through as success. "
  "In particular a read or write error while parsing or producing a packet, message, area list or flow file reaches the program as an error. "
  "No test is taken the wrong way round, success as failure and failure as success, and a command that was killed does not count as one that succeeded.",
  ["fault_sequences", "programs"],
  "every call of a status-returning function anywhere in the programs and every status it can return",
  "The failing half of these comparisons is never executed by a test: no test makes a read or write fail.",
  ["src/common/packet.c", "src/common/message.c", "src/common/areasbbs.c", "src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/gate/ftn2rfc.c", "src/areafix/ftnafpkt.c", "src/common/outpkt.c"],
  [("pkt_get_hdr, pkt_get_msg_hdr, pkt_put_hdr, pkt_get_body, areasbbs_print, flo_*", "src/common/*.c"), ("their callers", "src/*/*.c")],
  ["exit status and log of a program whose input or output fails"])

p("C08", "No copy or formatted print writes past the end of its destination",
  "Every copy, concatenation or formatted print into a fixed-size buffer names a limit no larger than the room left in that buffer, whatever the lengths of the strings coming from packets, mails, TIC files or configuration. "
  "The string primitives and line readers themselves never store past the limit they are given.",
  ["inputs", "configurations"],
  "all contents and lengths of all external strings, at every copy into a fixed-size buffer in every program",
  "Tests feed short, well-formed strings; an overflow needs a field longer than any sample, at each of several hundred copies.",
  ["src/common/misc.c", "src/common/*.c", "src/areafix/areafix.c", "src/gate/*.c", "src/tick/*.c", "src/toss/*.c"],
  [("str_copy, str_copy2..5, str_append, str_printf", "src/common/misc.c"), ("BUF_COPY / BUF_APPEND / sprintf call sites", "src/*/*.c")],
  ["memory next to the destination buffer"])

p("C09", "A missing file, field or value is never dereferenced",
  "Where an operation may have no result to give (a file that cannot be opened, a directory entry, a header field or command argument that is not there, a lookup without a match, an unset environment variable), the program establishes that there is one before using it. "
  "Absent optional input therefore never crashes a program.",
  ["inputs", "fault_sequences", "configurations"],
  "all inputs with any optional part missing, all failing opens and lookups",
  "Each missing part is a separate input; the samples are complete messages and complete configurations.",
  ["src/areafix/areafix.c", "src/gate/rfc2ftn.c", "src/gate/ftn2rfc.c", "src/tick/ftntick.c", "src/toss/runinc.c", "src/common/*.c"],
  [("results of fopen, opendir, popen, strchr, strtok, getenv, xstrtok and of the project's own lookups", "src/*/*.c")],
  ["termination of the program by a signal"])

p("C10", "Streams and directories are used only while open and are always closed",
  "Every file stream, pipe or directory a function opens is closed exactly once, with the operation belonging to its kind, on every path on which it is not handed on, error paths included. "
  "Nothing is read from, written to or closed after it has been closed.",
  ["fault_sequences", "programs", "inputs"],
  "all paths after every successful open, for every following operation failing or not",
  "A leaked or doubly closed stream shows only on paths where something fails or when thousands of files are processed by one run.",
  ["src/toss/runinc.c", "src/toss/ftnroute.c", "src/toss/ftnpack.c", "src/common/*.c", "src/areafix/areafix.c", "src/tick/*.c", "src/gate/*.c"],
  [("fopen/fclose, popen/pclose, opendir/closedir, open/close pairs and the project's wrappers", "src/*/*.c")],
  ["open descriptors of the running program"])

p("C12", "Format strings are fixed by the program and match their arguments",
  "No text from a message, mail, TIC file, request or text file is ever used as the format of a formatted print, log entry or reply. "
  "Every format is a constant of the program, except for command templates taken as a whole from the configuration or the command line, and the conversions of every constant format agree in number and kind with the arguments supplied.",
  ["inputs", "programs"],
  "every formatted output operation of every program, all texts",
  "Compilers check only functions declared as printf-like, which the project's own log, reply and string functions are not; samples contain no % characters.",
  ["src/common/log.c", "src/common/misc.c", "src/areafix/areafix.c", "src/gate/*.c", "src/toss/*.c", "src/tick/*.c"],
  [("fglog, debug, str_printf, areafix_printf, fprintf and friends", "src/*/*.c")],
  ["output produced for texts containing %"])

p("C13", "Areafix changes or reveals nothing before the sender is authorised",
  "Every areafix or filefix command that changes subscriptions, creates or deletes areas, changes a password or state, or lists areas or subscriptions is carried out only after the sending system has been authorised: it is a known node and gave its own configured password, or the operator runs the program locally. "
  "Deleting or creating areas additionally needs the corresponding privilege of that node, and a wrong or missing password authorises nothing.",
  ["inputs", "histories"],
  "all request messages: any sender, any password line, any commands in any order",
  "Areafix has no tests; the property quantifies over every command combined with every kind of failed authorisation.",
  ["src/areafix/areafix.c", "src/areafix/ftnaf.c", "src/areafix/ftnafpkt.c", "src/common/passwd.c"],
  [("areafix_auth_check, areafix_auth_cmd", "src/areafix/areafix.c"), ("cmd_* handlers, areafix_do_cmd", "src/areafix/areafix.c")],
  ["area list, password file and replies after an unauthorised request"],
  [("authorised flag", "sender gave the right password", "src/areafix/areafix.c"), ("create/delete privilege", "level from the password file", "src/areafix/areafix.c")])

p("C14", "Echomail is distributed only after passing every acceptance check",
  "An echomail message is passed on to other systems only if its area is known, its packet's password is right, it is addressed to this system, its sender is linked to that area (and, in builds with FTN_ACL, not restricted to reading), it is not a duplicate and is recorded as seen, and it did not already pass through this system, each as far as the configuration asks for the test; otherwise it is kept aside or dropped with a log entry. "
  "The duplicate check cannot be passed by a message already recorded.",
  ["inputs", "configurations"],
  "all echomail messages from all senders, all area configurations and option combinations",
  "ftntoss has no tests; the guarantee is about every path from reading a message to writing it into an outbound packet.",
  ["src/toss/ftntoss.c", "src/toss/history.c", "src/common/areasbbs.c", "src/common/acl_ftn.c"],
  [("do_echomail, toss_echomail, do_check_path", "src/toss/ftntoss.c"), ("hi_test", "src/common/histdb.c")],
  ["outbound packets written by ftntoss"])

p("C16", "Text from the network never reaches a shell",
  "No part of a command line given to the shell comes from a received packet, mail, TIC file, file name in the inbound, or areafix request, unless the program made sure first that it has no character with which a command could be added or a quotation ended. "
  "Commands run by the programs are built only from configuration, and from numbers and names the system itself made up.",
  ["inputs"],
  "all contents of received files and all file names",
  "A harmless sample name does not show that a quote or semicolon would be executed.",
  ["src/toss/runinc.c", "src/toss/ftnpack.c", "src/tick/ftntick.c", "src/areafix/areafix.c", "src/gate/ftn2rfc.c", "src/common/mail.c"],
  [("run_system, system, popen call sites", "src/*/*.c")],
  ["the command line passed to /bin/sh"])

p("C17", "Names received from the network cannot leave the directory they belong to",
  "A file or area name taken from a TIC file, message subject, packet or areafix request is used as part of a path only after a directory part in it has been removed or refused. "
  "No received name can make a program read, overwrite or delete a file outside the directory meant for it.",
  ["inputs"],
  "all received names, including those with slashes, dots and empty ones",
  "Tests contain no hostile names.",
  ["src/tick/ftntick.c", "src/common/tick.c", "src/toss/runinc.c", "src/areafix/areafix.c", "src/gate/ftn2rfc.c"],
  [("tick_get and its users", "src/common/tick.c, src/tick/ftntick.c"), ("cmd_new", "src/areafix/areafix.c")],
  ["paths given to open, rename, unlink, mkdir"])

p("C18", "What is written in a wire format is what its reader expects",
  "For packet headers, the fixed part of message headers, the address kludges INTL, FMPT and TOPT, TIC files and the area list, writer and reader agree: the same fields at the same places, in the same width and byte order, the same keywords and option letters, so whatever one program of the suite writes another reads back into the field it came from. "
  "No attribute the reader of an area list or a TIC file keeps is lost when its record is rewritten. A line of the message-id and dupe databases is found again under the key it was stored with, and expiring a database keeps the format of its lines.",
  ["inputs", "histories"],
  "all headers and records, all combinations of attributes",
  "Round trips of one or two samples do not exercise every field, keyword and option letter.",
  ["src/common/packet.c", "src/common/tick.c", "src/common/areasbbs.c"],
  [("pkt_get_hdr / pkt_put_hdr, pkt_get_msg_hdr / pkt_put_msg_hdr", "src/common/packet.c"), ("tick_get / tick_put", "src/common/tick.c"), ("areasbbs_parse_line / areasbbs_print", "src/common/areasbbs.c")],
  ["bytes of packets, TIC files and the area list"])

p("C19", "Every documented option, keyword and command has a handler",
  "Every option a program declares or documents in its usage text is acted on: its short and long spellings are the same option, both take an argument or neither does, and the handler uses the argument exactly when there is one. "
  "Every keyword the routing and packing files and the areafix commands recognise leads to code that acts on it (one per table may be the default), and no such code waits for a code no keyword yields. "
  "A setting that options or configuration switch can take a value other than its initial one, and every keyword of the sample configuration is looked up by some program.",
  ["programs", "configurations"],
  "all options of all programs, all entries of the keyword tables, all settings, all keywords of the sample configuration",
  "Tests use a handful of options of three programs.",
  ["src/*/*.c", "configs/fidogate.conf.sample.in"],
  [("getopt_long tables, usage texts and switches", "main of every program"), ("keyword tables", "src/areafix/areafix.c, src/common/routing.c, src/toss/ftnpack.c")],
  ["reaction of a program to each declared option", "effect of each keyword"])

p("C20", "A result kept in shared storage is not overwritten while still needed",
  "Functions that return text in a buffer of their own that the next call reuses are never called a second time while the earlier result is still going to be read, stored or printed. "
  "In particular two results of the same such function never appear as arguments of one call. "
  "Nothing is read from storage that was given back as a whole (temporary strings, a directory listing, the area list and the other tables) after it was given back.",
  ["programs", "inputs"],
  "every use of every function returning a pointer to storage it reuses",
  "With equal or short sample values the overwritten text is often the same text.",
  ["src/common/node.c", "src/common/address.c", "src/common/date.c", "src/common/tmps.c", "src/*/*.c"],
  [("functions returning static buffers", "src/common/*.c"), ("their callers", "src/*/*.c")],
  ["printed addresses, names and paths"])

p("C21", "Programs installed set-user-id run only fixed programs with vetted arguments",
  "A program installed with another user's rights starts other programs only by a path fixed by the installation, never looked for along the caller's search path; where it runs a configured command through the shell, no text of its caller that is put into the command holds a character the shell acts on. "
  "What it takes from its caller reaches the started program only as the value of an option or after '--', so that it cannot pass for an option; an output directory given by the caller stays below the spool directory; a list of recipients that does not fit is refused, not cut short. "
  "While real and effective user differ it opens no file the caller names, neither by an argument nor by the environment, and reads no configuration from there. "
  "ftnnews, which is built only on request for the news group and hands its batch file on, is excepted.",
  ["inputs", "configurations"],
  "all argument lists and environments a caller can supply",
  "A test shows accepted arguments work, not that every dangerous one is refused.",
  ["src/gate/ftnmail.c", "src/toss/ngoper.c", "src/areafix/ftnafmail.c"],
  [("main of ftnmail, ngoper, ftnafmail", "src/gate/ftnmail.c, src/toss/ngoper.c, src/areafix/ftnafmail.c")],
  ["arguments of the executed program"])

p("C22", "Every change to the area list is written back",
  "Whenever a subscription, area or area state kept in the area list changes in memory, the change is noted, and a program that noted a change rewrites the area list before it ends. "
  "No acknowledged areafix command or automatic area creation is lost. "
  "A program asked not to rewrite the list (--no-rewrite), one that failed before the request was disposed of, an area whose creation a configured external command takes over, and an area given up again in the run that created it are excepted.",
  ["histories", "inputs"],
  "all sequences of commands and automatic actions that alter the area list",
  "Areafix has no tests, and a lost change shows only in the next run.",
  ["src/areafix/areafix.c", "src/common/areasbbs.c", "src/areafix/ftnaf.c", "src/areafix/ftnafpkt.c", "src/areafix/ftnafutil.c", "src/toss/ftntoss.c", "src/tick/ftntick.c"],
  [("areasbbs_changed, areasbbs_rewrite", "src/common/areasbbs.c"), ("commands modifying nodes and areas", "src/areafix/areafix.c")],
  ["the area list file after the program ended"])

p("C23", "Every packet written is well formed",
  "Every message written into a packet consists of its header followed by a body ended by exactly one zero byte, and every packet is ended by the packet terminator before it is closed. "
  "A new packet begins with a packet header, and messages are added to an existing one over its terminator. "
  "This holds whichever program writes the packet and whatever it is given to write, unless a read or write error was noticed, which is dealt with elsewhere.",
  ["inputs", "programs"],
  "all messages and all sequences of messages written into packets by any program",
  "A missing terminator is silently tolerated by the lenient reader used in tests.",
  ["src/common/packet.c", "src/common/outpkt.c", "src/gate/rfc2ftn.c", "src/toss/ftntoss.c", "src/toss/ftnroute.c", "src/util/ftngenpkt.c"],
  [("pkt_put_msg_hdr, pkt_put_line, pkt_put_string, pkt_close", "src/common/packet.c"), ("message writers", "src/*/*.c")],
  ["bytes of the packets"])

p("C24", "No decision or output depends on memory that was never set",
  "Every local variable and local structure is given a value on every path before its value is used to decide anything, handed on or becomes part of any output, and a record allocated for a list has every member the programs use set by the time it is entered there. "
  "What an operation that may fail returns through a pointer is used only where it succeeded. Contents of an array beyond what was stored first, and members of records already kept in a list, are outside this property.",
  ["inputs", "programs", "fault_sequences"],
  "all paths of all functions",
  "Uninitialised stack memory usually happens to be zero in a short test run.",
  ["src/*/*.c"],
  [("local variables, structures and allocated records", "src/*/*.c")],
  ["behaviour differing between runs on the same input"])

p("C25", "No program loops forever when its input ends early or cannot be read",
  "Every loop that consumes a file, pipe, directory or packet stops when the source reports its end or an error, wherever in a record this happens. "
  "A truncated, empty or unreadable input therefore never makes a program run on forever.",
  ["inputs", "fault_sequences"],
  "every loop reading external input, with end of input at every possible position",
  "The samples end where a reader expects them to end.",
  ["src/common/packet.c", "src/common/message.c", "src/common/read.c", "src/gate/*.c", "src/toss/*.c", "src/common/*.c"],
  [("loops around getc, fgets, fread, readdir and the project's readers", "src/*/*.c")],
  ["termination of the program"])

p("C26", "The gateway lets a message through only after its access checks",
  "A message crosses the gateway, in either direction, only after the checks configured for its sender, recipient, area or group were made and allowed it: the access list, registered hosts and hosts marked down, size limit, cross-posting, insecure mail, split messages, messages without id, areas without group; a message that a check refused is not converted. "
  "An entry of the access list counts only when its direction, sender pattern, kind (netmail or echomail) and target match this message, and a message is never judged by the entry or the originator of an earlier one. "
  "From RFC to FTN a body line that reads like a tear line, an Origin line or a SEEN-BY line is altered before it is written to the packet; from FTN to RFC line breaks in names, subject and kludges are removed before they become part of the RFC header. "
  "(Kludges smuggled in by control characters in RFC text are outside this statement.)",
  ["inputs", "configurations"],
  "all messages and all access-control configurations",
  "The samples are allowed messages without hostile content.",
  ["src/gate/ftn2rfc.c", "src/gate/rfc2ftn.c", "src/common/acl.c", "src/common/acl_ftn.c"],
  [("unpack in ftn2rfc", "src/gate/ftn2rfc.c"), ("snd_mail, snd_message, print_tear_line in rfc2ftn", "src/gate/rfc2ftn.c")],
  ["mails, articles and packets written by the gateway"])

p("C27", "Allocated memory is given back once and not used afterwards",
  "Memory a program allocated is given back at most once, and neither read, written, returned nor given back again through the same pointer, a pointer into it, or the place that pointer is kept in, "
  "once it was given back, error paths included. Only allocated memory is given back: never a local variable, a static buffer, or a temporary string that is released with all others.",
  ["programs", "inputs", "fault_sequences"],
  "all paths after every release, in all programs",
  "A use after release mostly still finds the old contents; tests pass until the memory is reused in between.",
  ["src/common/*.c", "src/gate/*.c", "src/toss/*.c", "src/tick/*.c", "src/areafix/*.c"],
  [("every call of free, xfree, realloc and of the functions that give back what they are passed", "src/*/*.c")],
  ["whatever is made from the memory: messages, lists, configuration"])

p("C29", "A program that failed says so in its exit status",
  "A program that could not obtain its lock, read the data it needs or write, close or rename its output, or whose processing of an input failed, ends with a non-zero exit status. "
  "An input that is set aside under another name and logged does not by itself count as such a failure. "
  "Programs and scripts that run it, and the operator, can rely on a zero status meaning everything was done.",
  ["fault_sequences", "programs"],
  "all failures a program notices while it runs",
  "Tests check output files of successful runs, not the status of failing ones.",
  ["src/*/*.c"],
  [("main of every program", "src/*/*.c")],
  ["the exit status"])

p("C40", "Character set conversion and MIME coding preserve the text",
  "Text converted between character sets and between MIME encodings denotes the same characters after conversion, and converting back yields the original wherever both sets contain the characters.",
  ["inputs"], "all texts, all pairs of character sets", "Tests sample a few strings.",
  ["src/common/charset.c", "src/common/mime.c"], [("charset and MIME conversion", "src/common/charset.c, src/common/mime.c")], ["converted message bodies"])
p("C41", "Dates are converted without changing the instant they denote",
  "A date read from a message and written in the other network's format denotes the same instant, for all years, months and time zones representable in both formats.",
  ["inputs"], "all dates and zones", "Tests sample a few dates.",
  ["src/common/date.c", "src/common/parsedate.y"], [("date parsing and printing", "src/common/date.c")], ["Date fields"])
p("C42", "Address and wildcard matching accept exactly the intended addresses",
  "Address parsing, abbreviation and wildcard matching accept exactly the addresses the written pattern denotes, no more and no fewer.",
  ["inputs"], "all patterns and addresses", "Infinitely many pairs.",
  ["src/common/node.c", "src/common/parsenode.c", "src/common/wildmat.c"], [("node and wildcard matching", "src/common/node.c, src/common/wildmat.c")], ["routing and access decisions"])
p("C43", "A recorded message is found again in the history, an unrecorded one is not",
  "Looking up a key in a history database finds it exactly when it was recorded and has not expired since, whatever the number of entries and however often the database was expired.",
  ["histories"], "all sequences of recording, expiring and looking up", "Needs long histories and hash collisions.",
  ["src/common/histdb.c", "src/common/dbz.c"], [("history database", "src/common/histdb.c, src/common/dbz.c")], ["duplicate decisions"])
p("C44", "Waiting for a lock ends within the requested time",
  "A program told to wait at most a given time for a lock gives up after that time and waits no shorter than asked while the lock is held.",
  ["schedules"], "all timings", "Timing under all schedules.",
  ["src/common/lock.c"], [("lock wait loop", "src/common/lock.c")], ["elapsed time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
