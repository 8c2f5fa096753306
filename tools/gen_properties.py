#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

SM = "smtp-message/src/"
SS = "smtp-server/src/"
SQ = "smtp-queue/src/"

prop("C01", "Parsers are total: no input makes them panic or hang",
     "For every byte sequence, parsing it as an SMTP command, reply line, mail address or domain returns either a value or an error: it never panics, aborts, overflows or fails to terminate. The same holds for reading every accessor of, and re-serialising, whatever was successfully parsed.",
     ["inputs"], "all byte sequences given to the four public parsers (any length, any bytes, truncated anywhere)",
     "The unit tests only feed a few dozen hand-written inputs, nearly all well formed; panics and hangs hide in the malformed rest.",
     [SM+"command.rs", SM+"reply.rs", SM+"email.rs", SM+"domain.rs", SM+"byteslice.rs", SM+"parseresult.rs"],
     [("Command::parse / ReplyLine::parse / Email::parse_slice / Domain::parse_slice", SM+"command.rs, reply.rs, email.rs, domain.rs"),
      ("ByteSlice index arithmetic", SM+"byteslice.rs")],
     ["Command::parse", "ReplyLine::parse", "Email::parse_slice", "Domain (via Email/EHLO)"])

prop("C02", "A command is exactly one CRLF-terminated line with a known verb",
     "Parsing bytes as a command succeeds only if the bytes are one complete line ending in CRLF with nothing after it (no byte before the final CRLF pair completes an earlier CRLF), and the verb, compared ASCII case-insensitively, decides which command results. DATA, QUIT and RSET accept only blanks (space, tab) between the verb and CRLF; any other or unknown verb is refused.",
     ["inputs"], "all byte sequences; all upper/lower-case spellings of every verb",
     "Tests use one or two spellings per verb and never lines with trailing bytes, embedded CRLF or near-miss verbs.",
     [SM+"command.rs", SM+"parseresult.rs", SM+"data/mod.rs", SM+"quit/mod.rs", SM+"rset/mod.rs"],
     [("command (alternation over all verbs)", SM+"command.rs"), ("nom_to_result: all input must be consumed", SM+"parseresult.rs")],
     ["Command::parse"])

prop("C03", "Free-text arguments of EXPN, VRFY, HELP, NOOP arrive byte for byte",
     "For EXPN, VRFY, HELP and NOOP the argument reported is exactly the bytes between the single separating blank after the verb and the terminating CRLF, whatever those bytes are, including further blanks, lone CR or LF and non-ASCII. EXPN and VRFY require the separating blank; HELP and NOOP also accept no argument, giving an empty one.",
     ["inputs"], "all argument byte strings and all spellings of the verb",
     "Tests try three arguments per command, none with control or non-ASCII bytes.",
     [SM+"expn/mod.rs", SM+"vrfy/mod.rs", SM+"help/mod.rs", SM+"noop/mod.rs"],
     [("command_*_args take_until CRLF", SM+"{expn,vrfy,help,noop}/mod.rs")],
     ["ExpnCommand::name", "VrfyCommand::name", "HelpCommand::subject", "NoopCommand::string"])

prop("C04", "MAIL and RCPT yield exactly the mailbox the client wrote",
     "A MAIL FROM: or RCPT TO: line is accepted exactly when an optionally blank-preceded path (mailbox with or without angle brackets, optionally preceded by a source route ending in ':'; for MAIL also '<>') is followed by well-formed parameters, optional blanks and CRLF. The resulting sender or recipient is exactly that mailbox, byte for byte, with any source route dropped; '<>' gives the null sender and is accepted for MAIL only; unbalanced brackets are refused.",
     ["inputs"], "all MAIL/RCPT lines over arbitrary bytes",
     "Tests contain eight well-formed lines and two truncated ones; acceptance or mangling of other lines is never observed.",
     [SM+"mail/mod.rs", SM+"rcpt/mod.rs", SM+"email.rs"],
     [("address_in_maybe_bracketed_path", SM+"email.rs"), ("command_mail_args / command_rcpt_args", SM+"mail/mod.rs, rcpt/mod.rs")],
     ["MailCommand.from", "RcptCommand.to"])

prop("C05", "ESMTP parameters are reported exactly as given",
     "The parameters of an accepted MAIL or RCPT line are exactly the blank-separated KEY or KEY=VALUE items that follow the path: every key maps to its own value bytes or to none, no item is lost, invented, truncated or attached to another key, and the last one wins when a key repeats. Keys start with a letter or digit and continue with letters, digits or '-'; values are non-empty runs of printable non-blank bytes other than '='; a line whose items break these rules is refused.",
     ["inputs"], "all parameter lists over arbitrary bytes",
     "Tests use six lists with fixed bytes.",
     [SM+"parameters.rs", SM+"mail/mod.rs", SM+"rcpt/mod.rs"],
     [("parse_parameters", SM+"parameters.rs")],
     ["MailCommand.params", "RcptCommand.params"])

prop("C06", "Domains and address literals are recognised and valued exactly",
     "A domain (as in EHLO, HELO or after '@') is accepted exactly when it is a dot-separated list of non-empty labels of letters, digits and '-' each starting with a letter or digit, or a bracketed IPv4 address, or a bracketed IPv6 address tagged 'IPv6:'. A host name is reported byte for byte, a literal denotes exactly the address written, and EHLO/HELO allow blanks around the domain and nothing else.",
     ["inputs"], "all byte strings in domain position",
     "Tests use five valid and three invalid domains.",
     [SM+"domain.rs", SM+"ehlo/mod.rs", SM+"helo/mod.rs"],
     [("hostname", SM+"domain.rs")],
     ["EhloCommand::domain", "HeloCommand::domain", "Email::hostname"])

prop("C07", "Mail addresses are accepted and split exactly per the grammar",
     "A byte string is accepted as a mail address exactly when it is a dot-string or quoted-string local part, optionally followed by '@' and a valid domain, with nothing left over. The local part reported is exactly the bytes before that '@' (quoted '@' and escaped quotes included) and the domain exactly what follows; serialising the address gives the input back, up to the spelling of an address literal.",
     ["inputs"], "all byte strings",
     "Tests use four valid addresses and one invalid one.",
     [SM+"email.rs", SM+"domain.rs"],
     [("email, localpart, quoted_string, dot_string", SM+"email.rs")],
     ["Email::parse_slice", "Email::raw_localpart", "Email::hostname", "Email as Sendable"])

prop("C08", "Canonical local part removes quoting and nothing else",
     "For every parsed address the canonical local part equals the raw one when it is unquoted; when it is quoted, it is the bytes between the enclosing quotes with each backslash escape replaced by the byte it escapes. No other byte is dropped, added or changed, so quoted spellings of the same mailbox give the same canonical local part.",
     ["inputs"], "all addresses the parser accepts",
     "Tests use three addresses; escape runs and escapes next to the closing quote are not covered.",
     [SM+"email.rs"], [("Email::localpart", SM+"email.rs")], ["Email::localpart"])

prop("C09", "Serialising a parsed command and parsing it again gives the same command",
     "For every command the parser accepts, its serialised form is exactly one CRLF-terminated line, which parses back to a command of the same kind with the same sender, recipient, domain, parameters and text. Serialising that again gives the same bytes, up to the order of parameters.",
     ["inputs"], "all commands obtained by parsing arbitrary bytes",
     "The tests serialise a dozen fixed commands and parse one of them back (TODO in the source asks for exactly this).",
     [SM+"command.rs", SM+"mail/mod.rs", SM+"rcpt/mod.rs", SM+"parameters.rs", SM+"domain.rs", SM+"email.rs"],
     [("Command::send_to and each send_to", SM+"*/mod.rs")],
     ["Command::send_to", "Command::parse"])

prop("C10", "Commands built from valid parts mean the same to the receiver",
     "A command constructed from a valid mailbox, domain, parameters or single-line text and written out is one CRLF-terminated line in standard syntax, and the receiver's parser accepts it and recovers exactly those parts.",
     ["inputs"], "all valid mailboxes (quoted or not), domains (names, IPv4, IPv6), parameter sets and single-line texts, for every command constructor",
     "Tests build one fixed value per command, and mostly only compare bytes.",
     [SM+"*/mod.rs", SM+"sendable.rs", SM+"parameters.rs"],
     [("*Command::new + send_to", SM+"*/mod.rs")], ["*Command::new", "send_to", "Command::parse"])

prop("C11", "Reply lines: only sendable text is accepted, and it is sent exactly",
     "Building a reply line succeeds exactly when its text is at most 506 bytes, all of them tab or printable ASCII, for any code below 1000. A built line is written as three decimal digits, '-' or ' ' according to whether more lines follow, the text unchanged, and CRLF: one line of at most 512 bytes, whose length is the one the reply announces.",
     ["inputs"], "all texts (lengths around and beyond the limit included), codes 0-999, both continuation flags",
     "Tests try a 1000-byte text and one CR; boundary lengths and other bytes and codes are never tried.",
     [SM+"reply.rs"], [("ReplyLine::build, send_to, byte_len", SM+"reply.rs")],
     ["ReplyLine::build", "ReplyLine::send_to", "ReplyLine::byte_len"])

prop("C12", "Reply parsing recovers code, continuation and text, and nothing else",
     "Parsing bytes as a reply line succeeds exactly when they are three decimal digits, a '-' or ' ', text without CRLF, and CRLF with nothing after it; the result serialises back to exactly the same bytes. Hence every built reply line is recovered unchanged by the receiver.",
     ["inputs"], "all byte strings; all buildable reply lines",
     "Tests parse four fixed replies.",
     [SM+"reply.rs"], [("reply", SM+"reply.rs")], ["ReplyLine::parse", "ReplyLine::send_to"])

prop("C13", "Splitting and joining strings loses nothing",
     "Cutting a string into chunks of at most k bytes (k at least 1) yields non-empty pieces, all but the last exactly k bytes long, whose concatenation is the original; concatenating two strings gives the bytes of the first followed by those of the second. Conversions into the string type and its length, byte and iteration accessors agree with the bytes put in.",
     ["inputs"], "all strings and all chunk sizes",
     "No test exercises chunking at all, nor lengths across the small-string/heap boundary.",
     [SM+"smtpstring.rs"], [("SmtpString::byte_chunks, Add, From", SM+"smtpstring.rs")],
     ["SmtpString::byte_chunks", "SmtpString + SmtpString", "SmtpString::bytes"])

prop("C14", "Outgoing message data is dot-stuffed and terminated correctly",
     "For every message and every way of cutting it into pieces, the bytes written are the message with one '.' added before each '.' that starts a line (start of message or after CRLF), followed by CRLF if the message is non-empty and does not end in CRLF, followed by '.' CRLF. The result does not depend on how the message was cut, and the end-of-data mark occurs only at the very end. All of it has been written and flushed when the message has been ended.",
     ["inputs", "histories"], "all messages and all divisions into pieces, empty pieces included; all sinks, including ones that are not immediately ready",
     "Tests use five fixed cases; the random test only checks the round trip with short random bytes that rarely contain CRLF or dots.",
     [SM+"data/sink.rs"], [("DataSink::send, DataSink::end", SM+"data/sink.rs")],
     ["DataSink::send", "DataSink::end"],
     [{"name": "state", "meaning": "position in CRLF recognition across pieces", "where": SM+"data/sink.rs"}])

prop("C15", "Incoming message data is unstuffed exactly and ends where it ends",
     "For every input and every way it is cut into packets or delayed, the data delivered is the input up to and including the CRLF before the first end-of-data mark ('.' CRLF at the very start or after CRLF), with one '.' removed at each line start that has one. Everything after the mark, and nothing else, is left for the next reader, and the result does not depend on packet boundaries or delays.",
     ["inputs", "schedules"], "all byte streams, all packetisations (empty packets included), all patterns of not-ready polls",
     "Tests use seven fixed packetisations; the random test only checks that one pattern is absent from the output, on bytes that rarely contain CRLF or dots.",
     [SM+"data/stream.rs", SM+"streamext/prependable.rs"], [("DataStream::poll_next, complete", SM+"data/stream.rs")],
     ["DataStream as Stream", "DataStream::complete", "the underlying stream afterwards"],
     [{"name": "state, buf", "meaning": "position in CRLF.CRLF recognition at start of buf; bytes not yet delivered", "where": SM+"data/stream.rs"}])

prop("C16", "Truncated message data is always told apart from complete data",
     "If the connection ends before the end-of-data mark, finishing the data stream reports an error; if the mark was received, it reports success; the two are never confused whatever the data and packet boundaries. Data delivered before a premature end is a prefix of what the complete message would have delivered, and the stream counts as completed only after it has been finished. Once it has reported its end it stays ended, however often it is read on, and takes nothing more from the connection.",
     ["inputs", "fault_sequences"], "all byte streams cut off at any byte, all packetisations",
     "One fixed truncated session is tested, checking only that it does not crash.",
     [SM+"data/stream.rs"], [("EarlyFin handling, complete, was_completed", SM+"data/stream.rs")],
     ["DataStream::complete", "DataStream::was_completed"])

prop("C17", "A message survives the wire unchanged",
     "Any message written through the sending side and read through the receiving side, with the bytes repacketised arbitrarily in between, is received as exactly the original message (with a final CRLF added if it was non-empty and lacked one), and bytes following it on the connection are untouched.",
     ["inputs", "histories"], "all messages, all divisions into pieces on both sides",
     "The random test covers this with arbitrary bytes, among which CR, LF and '.' sequences are very rare, and keeps the sender's packet boundaries.",
     [SM+"data/sink.rs", SM+"data/stream.rs"], [("DataSink / DataStream", SM+"data/")],
     ["DataSink", "DataStream"])

prop("C18", "Putting data back in front of a stream preserves the sequence",
     "After an item is put back, the stream yields that item next and then the remaining items in order, each exactly once, however not-ready results are interleaved. A second item is refused while one is still waiting, without losing or replacing it, and a stream that has ended is never asked for more.",
     ["histories", "schedules"], "all sequences of put-back and read operations over all streams",
     "No test covers this directly; the data tests use it once per case.",
     [SM+"streamext/prependable.rs"], [("Prependable::prepend, poll_next", SM+"streamext/prependable.rs")],
     ["Prependable::prepend", "Prependable as Stream"])

prop("C19", "A session's outcome does not depend on packetisation or timing",
     "For every sequence of bytes sent by a client, the replies, the filter calls and the messages handed over are the same however the bytes are divided into packets (empty ones included) and however reads, writes and filter decisions are delayed.",
     ["inputs", "schedules"], "all client byte streams, all packetisations, all not-ready patterns of reader, writer and filters",
     "Tests fix one packetisation per session and every future is immediately ready.",
     [SS+"interact.rs", SS+"crlflines.rs", SM+"data/stream.rs", SM+"streamext/prependable.rs"],
     [("next_crlf_line", SS+"crlflines.rs"), ("interact loop", SS+"interact.rs")], ["interact"])

prop("C20", "Exactly one reply per command, in order",
     "A session starts with one 220 greeting; after it, each complete line received outside message data produces exactly one reply (possibly of several lines, only the last marked as last), in the order of the lines, except that an accepted DATA produces one 354 reply and then one more reply once the message has been handled. Nothing is sent unprompted, and every byte sent belongs to a well-formed reply line.",
     ["inputs", "histories"], "all client byte streams and all filter decisions",
     "Tests cover six fixed dialogues.",
     [SS+"interact.rs", SS+"sendreply.rs"], [("handle_line, send_reply", SS+"interact.rs, sendreply.rs")], ["interact: bytes written"])

prop("C21", "Messages are handed over only with the envelope that was accepted",
     "The message handler is called exactly once for each accepted DATA, and only within a transaction opened by an accepted MAIL with at least one accepted RCPT since; it receives the sender of that MAIL and exactly the recipients accepted since, in order, as left by the filters. Nothing of an earlier or refused transaction, command or recipient ever reaches it, and after it returns no transaction is open.",
     ["histories", "inputs"], "all command sequences, all filter decisions and address rewrites by filters",
     "Tests cover three dialogues that deliver a message, each with one transaction.",
     [SS+"interact.rs", SS+"metadata.rs", SS+"config.rs"], [("handle_line: MAIL/RCPT/DATA arms", SS+"interact.rs")],
     ["Config::handle_mail arguments"],
     [{"name": "mail_meta", "meaning": "the open transaction: sender and accepted recipients", "where": SS+"interact.rs"}])

prop("C22", "Out-of-sequence commands are refused and change nothing",
     "MAIL inside an open transaction, RCPT or DATA without one, and DATA before any accepted recipient are each answered with the configured bad-sequence reply, without consulting any filter or the message handler, and leave the session exactly as it was: every later command behaves as if the refused one had not been sent.",
     ["histories"], "all command sequences",
     "Two fixed out-of-sequence commands are tested; what they do to later commands is tested once.",
     [SS+"interact.rs"], [("handle_line guards", SS+"interact.rs")], ["interact: replies, filter calls"])

prop("C23", "Message content is handed over exactly and never interpreted as commands",
     "The handler of an accepted message reads exactly the transmitted content, unstuffed; no byte of it is treated as a command, and the commands following the end-of-data mark, even in the same packet, are all executed in order. A line equal to any command inside the content has no effect.",
     ["inputs", "histories"], "all message contents followed by all command sequences, all packetisations",
     "Tests use two fixed one-line messages.",
     [SS+"interact.rs", SM+"data/stream.rs", SS+"crlflines.rs"],
     [("DataStream over the shared reader; complete() pushes the rest back", SM+"data/stream.rs")], ["Config::handle_mail stream", "interact: replies"])

prop("C24", "Filter decisions are reported verbatim and take effect",
     "When a filter or the message handler refuses, the client receives exactly the refusal's code and text; when it accepts, the configured success reply. A refused MAIL opens no transaction, a refused RCPT adds no recipient and keeps the others, a refusal before message data keeps the transaction open and reads no data, and a refusal of the message closes the transaction.",
     ["histories", "inputs"], "all decision sequences, refusal codes 0-999 and sendable texts, including the empty one",
     "Tests use four fixed refusals, none before message data, and never an empty text.",
     [SS+"interact.rs", SS+"decision.rs", SS+"sendreply.rs"], [("Decision handling in handle_line", SS+"interact.rs")], ["interact: replies, filter calls"])

prop("C25", "Unknown and unimplemented commands are answered and have no effect",
     "A line that is not a valid command is answered with the configured 'unrecognized' reply and a valid command the server does not implement with the 'unimplemented' one; neither consults a filter, and both leave any open transaction untouched.",
     ["inputs", "histories"], "all lines, at every point of a session",
     "Tests send QUIT and HELP at the end of a session and one page of blank lines.",
     [SS+"interact.rs"], [("handle_line: last two arms", SS+"interact.rs")], ["interact: replies, filter calls"])

prop("C26", "Replies of any length reach the client complete, in lines that fit",
     "Any reply text of tab and printable ASCII bytes, of whatever length including zero, is sent as one reply: at least one line, each at most 512 bytes, all with the same code, all but the last marked as continued, and the texts of the lines concatenate to the original text.",
     ["inputs"], "all texts and codes",
     "Every text in the tests is shorter than one line and non-empty.",
     [SS+"sendreply.rs", SM+"smtpstring.rs", SM+"reply.rs"], [("send_reply", SS+"sendreply.rs")], ["interact: bytes written (greeting, refusal texts)"])

prop("C27", "A connection that ends early is wound up cleanly",
     "If the client's stream ends at any point, the session function returns success; a final line without CRLF is not executed and not answered; a message whose data was cut off is seen as incomplete by the handler, and only the handler's decision is reported for it. The incoming stream is not polled again once it has reported its end.",
     ["inputs", "fault_sequences"], "all client byte streams cut at any byte, all packetisations",
     "Two fixed truncations are tested, with a source that tolerates being polled after its end.",
     [SS+"interact.rs", SS+"crlflines.rs", SM+"data/stream.rs", SM+"streamext/prependable.rs"],
     [("next_crlf_line end of stream; EarlyFin", SS+"crlflines.rs, "+SM+"data/stream.rs")], ["interact: result, replies, polls of the incoming stream"])

prop("C28", "Replies are flushed before waiting, and write failures end the session",
     "Whenever the session waits for more input from the client, every complete line received so far has been answered, and every reply has been written and flushed. If writing or flushing fails, the session ends with that error at once: no further command is executed and no further filter or message handler is called.",
     ["fault_sequences", "schedules"], "all sessions, a failure injected at any write or flush, all not-ready patterns of the writer",
     "All tests write into a vector that is always ready and never fails.",
     [SS+"interact.rs", SS+"sendreply.rs"], [("send_all in send_reply; ? after each send_reply", SS+"sendreply.rs, interact.rs")], ["interact: writer calls, result"])

prop("C29", "No client can crash a session",
     "Whatever bytes a client sends, in whatever packets, and wherever it stops, the session function never panics and never loops without consuming input, provided the configured texts are sendable and the handler consumes and finishes the data stream as documented.",
     ["inputs", "schedules"], "all client byte streams and packetisations, from every session state",
     "Tests feed eight fixed sessions.",
     [SS+"interact.rs", SS+"crlflines.rs", SS+"sendreply.rs", SM+"command.rs", SM+"data/stream.rs"],
     [("interact", SS+"interact.rs")], ["interact"])

prop("C30", "A queued mail is marked done exactly when sent, and else put back",
     "For each queued mail the queue moves it to in-flight before handing it to the transport, hands it over unchanged (sender, recipients, metadata, data), then marks it done exactly once if the transport accepted it, and otherwise returns it to the queue. It is never marked done without having been accepted, never returned once accepted, never sent again after that, and never sent when it could not be moved to in-flight or read, whichever storage operations fail.",
     ["histories", "fault_sequences", "schedules"], "all outcomes, failures and delays of storage and transport operations, all orders of the tasks, any number of retries",
     "The queue crate has no tests at all.",
     [SQ+"send_queued_mail.rs", SQ+"run.rs"], [("send_queued_mail", SQ+"send_queued_mail.rs")], ["Storage and Transport calls"])

prop("C31", "Every mail in the queue is sent, again after each refusal, until it is accepted",
     "Every mail the storage lists at startup is started, and one the transport refused is tried again, whatever the refusal said, until it is accepted; nothing is left waiting for an event that has happened. What fails or is late for one mail does not keep any other from being sent, and startup ends successfully when both listings do.",
     ["histories", "fault_sequences", "schedules"], "all queue and in-flight listings, all outcomes, failures and delays, all orders of the tasks",
     "The queue crate has no tests at all.",
     [SQ+"run.rs", SQ+"send_queued_mail.rs"], [("run", SQ+"run.rs"), ("send_queued_mail", SQ+"send_queued_mail.rs")], ["Storage and Transport calls"])

prop("C32", "Mails found in flight are resumed once, an hour after startup, not before",
     "Every mail the storage finds in flight at startup is returned to the queue exactly once and then sent, not before one hour after startup (another instance may still be sending it) and as soon as that hour is over, however long the listings take.",
     ["histories", "schedules"], "all queue and in-flight listings, all delays, all times at which the steps happen",
     "The queue crate has no tests at all.",
     [SQ+"run.rs"], [("run", SQ+"run.rs")], ["Storage and Transport calls", "virtual time"])

prop("C33", "Filters find the connection's own data as the last one left it",
     "The value given to the session function is what its first filter sees of the connection, and each later filter or message handler call of that connection finds it exactly as the previous one left it: across transactions, refusals, other commands and messages, nothing resets, copies or loses it.",
     ["histories", "inputs"], "all command sequences, all filter decisions, all values the filters may leave",
     "The tests' filters never touch it.",
     [SS+"interact.rs", SS+"metadata.rs", SS+"config.rs"], [("conn_meta handed to each filter", SS+"interact.rs")],
     ["Config::filter_from, filter_to, filter_data, handle_mail: conn_meta"],
     [{"name": "conn_meta", "meaning": "what the user of the library keeps about the connection", "where": SS+"interact.rs"}])

prop("C34", "Message data is handed on as it arrives",
     "Whenever the reader of a message waits for more of it, it has been given everything that is certain from what was received so far: all but a '.' or a '.' CR that starts a line. Once the end-of-data mark has been received, nothing more is waited for, so that neither side of a connection waits for the other.",
     ["inputs", "schedules"], "all byte streams, all packetisations, all patterns of not-ready polls",
     "The tests' packets are all there at once, so waiting for too much is never noticed.",
     [SM+"data/stream.rs"], [("DataStream::poll_next: BufSplit::Unknown", SM+"data/stream.rs")], ["DataStream as Stream", "polls of the underlying stream"])

prop("C35", "Each situation is answered with its own configured reply, or the default",
     "A configuration that sets a reply gets exactly that code and text in the situation it is for and in no other; setting a general reply (okay, bad_sequence, banner, hostname) changes those it stands for unless they are set themselves. What is not set is as RFC 5321 has it: 220 with host name and banner, 250, 354, 500, 502, 503. A hook (new_mail, filter_data) it does not define changes nothing and lets pass.",
     ["inputs", "histories"], "all subsets of configured replies, all host names and banners, all command sequences",
     "The tests use a single configuration.",
     [SS+"config.rs", SS+"interact.rs"], [("default methods of Config", SS+"config.rs"), ("the send_reply calls", SS+"interact.rs")], ["interact: bytes written"])

prop("C36", "Whatever is written arrives whole, or the writer's failure is reported",
     "Serialising a command, reply line, address, domain or string to any writer gives that writer exactly the bytes it stands for, in order, even if it takes them piecemeal or is interrupted. If the writer fails, that is reported, what it got is a prefix of those bytes, and nothing more is written to it.",
     ["inputs", "fault_sequences"], "all values, all patterns of partial writes, interruptions and failures",
     "All tests write into a vector, which takes everything at once.",
     [SM+"sendable.rs", SM+"*/mod.rs", SM+"reply.rs", SM+"email.rs", SM+"domain.rs", SM+"parameters.rs", SM+"smtpstring.rs"],
     [("send_to of every type", SM+"*")], ["Command::send_to", "ReplyLine::send_to", "Email::send_to", "Domain::send_to", "SmtpString::send_to"])

prop("C37", "A refusal says truthfully what was wrong",
     "When parsing is refused because of trailing bytes, the reported number of them is right: without them the rest parses. When a reply line cannot be built, the error names the text's length if that exceeds 506, and otherwise the first byte that cannot be sent and its position.",
     ["inputs"], "all byte sequences given to the parsers, all reply texts",
     "No test looks at an error.",
     [SM+"parseresult.rs", SM+"builderror.rs", SM+"reply.rs"], [("nom_to_result", SM+"parseresult.rs"), ("ReplyLine::build", SM+"reply.rs")],
     ["Command::parse, ReplyLine::parse, Email::parse_slice: Err", "ReplyLine::build: Err"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
