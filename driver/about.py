"""What the evidence files and the manifest say about bounds and assumptions."""

TRUSTED = [
    "the symbolic executor (engine/): cross-checked on every run by replaying a seeded sample of the explored paths natively and comparing what they observed",
    "rustc's lowering of the sources to LLVM IR at opt-level 1 with overflow checks and debug assertions, and Z3 (every 'unsat' that prunes a path or discharges an assertion is Z3's)",
    "the reference in harness/src/ that states the property, written from the property, RFC 5321 and the crates' documentation, not from the code",
    "allocation never fails; HashMap keys are fixed and its hash function is stubbed (iteration order of parameters is not part of any property)",
]

CMD = "command lines: every line of up to 6 arbitrary bytes (8 thorough), and of up to 5 arbitrary bytes before CRLF (7); "
SESS = "whole sessions of interact() over an in-memory connection: the listed scripts with their free bytes, every decision of the filters (picks: every command at the chosen places), every way of cutting the input into the stated number of packets and of delaying reads, writes and decisions the stated number of times; "
LONG = "lengths sampled at the listed values up to 1300 (20000 for packets), 2 to 4 free bytes at the edges of the long runs"

BOUNDS = {
    "C01": CMD + "each verb's line with 1 to 4 free bytes at every position; reply lines and addresses of up to 8 free bytes (9); domains and literals of up to 5 (7); " + LONG,
    "C02": CMD + "each verb's line with every pair of neighbouring bytes free, one byte inserted anywhere, 1 to 3 bytes appended, verbs of 4 free bytes with 11 kinds of argument; blank runs at the listed lengths",
    "C03": "arguments of up to 4 free bytes (6 thorough) and those with fixed parts, after the four verbs and after any 4 bytes; argument lengths at the listed values with free first and last byte",
    "C04": "what follows MAIL FROM: and RCPT TO: up to 4 free bytes (5 thorough), with and without brackets; some 90 path shapes with 1 to 5 free bytes; up to 100 source routes; " + LONG,
    "C05": "what follows the path: up to 4 free bytes (6 thorough); 25 parameter shapes with 1 to 4 free bytes, up to 33 parameters; " + LONG,
    "C06": "domains of up to 5 free bytes (7 thorough), address literals of up to 4 (7), IPv4 literals with up to 4 free bytes, IPv6 literals with up to 3 (5), all 45 places and lengths of '::' ; through EHLO, HELO, MAIL and Email; " + LONG,
    "C07": "addresses of up to 6 free bytes (7 thorough), up to 5 after an opening quote and around '@'; 35 shapes with 1 to 5 free bytes; " + LONG,
    "C08": "as C07, and quoted strings with runs of escapes up to 200 long",
    "C09": "every accepted command among the lines of C02 to C06 with at most 5 free bytes",
    "C10": "mailboxes as C07, domains as C06, parameters as C05, texts of up to 4 free bytes (6), without CR LF; text lengths at the listed values",
    "C11": "texts of up to 5 free bytes (6 thorough), texts of the listed lengths and 501 to 513 with 2 free bytes; every code 0..65535",
    "C12": "reply lines of up to 8 free bytes (9 thorough), up to 7 before CRLF, up to 6 between a code and CRLF, up to 5 after CRLF; the listed lengths and 501 to 513",
    "C13": "strings of up to 7 free bytes in chunks of 1..7 and near 2^31, 2^32, 2^63 and 2^64; chunk sizes up to 1000 around multiples; up to 2000 chunks; joins at every cut of up to 5 free bytes and at the listed lengths",
    "C14": "messages of up to 6 free bytes cut twice anywhere (4 with as many cuts as bytes; 6 thorough), byte by byte, with up to 3 delays of the sink; runs of up to 5000 bytes with 4 free bytes behind them",
    "C15": "inputs of up to 6 free bytes (7 thorough) cut twice anywhere, 4 with as many cuts as bytes, byte by byte; around a given end mark up to 4 (6) before or after it; up to 3 delays; runs of up to 5000 bytes; packets of 1 to 16 bytes",
    "C16": "as C15, every input that ends before the mark included",
    "C17": "messages of up to 4 free bytes (5 thorough) cut once by the sender and once by the network, up to 2 bytes behind the message; runs of up to 5000 bytes; packets of 1 to 8 bytes",
    "C18": "streams of up to 4 items, up to 12 operations (poll or put back, in every order), up to 2 delays",
    "C19": "every pair of runs of a session, one with the whole input in one packet and without delays, the other with up to 2 cuts anywhere, or packets of any one size from 1 to 19, and up to 3 delays; up to 5 free bytes (6 thorough)",
    "C20": SESS + "up to 4 free bytes and up to 3 commands picked from 20 (5 thorough); up to 300 commands and 128 recipients in a row",
    "C21": SESS + "up to 4 commands picked from 20 (5 thorough); up to 256 recipients and 65 messages in a session; recipients changed by the filters; input ended anywhere",
    "C22": SESS + "up to 4 commands picked from 20 (5 thorough); each out-of-sequence command at each place of a transaction; up to 768 in a row",
    "C23": SESS + "messages of up to 4 free bytes, of every command line, of up to 5000 bytes, up to 2 cuts, packets of 1 to 29 bytes",
    "C24": SESS + "up to 5 picked commands; refusals with any of the listed codes and texts of up to 3 free bytes or of lengths 0 to 1013",
    "C25": SESS + "each other command and unknown lines of up to 4 free bytes at every place of a transaction, up to 257 in a row; line lengths at the listed values",
    "C26": "reply texts of lengths 0 to 5061 (at and around every multiple of 506), with free first, middle and last bytes, for the greeting, refusals and every configured reply",
    "C27": SESS + "the input ended after every byte of the scripts, up to 4 free bytes at the end (5 thorough)",
    "C28": SESS + "every write or flush failing (up to the 200th), up to 2 delays and 1 cut",
    "C29": SESS + "inputs of up to 6 free bytes (7 thorough) as commands, 4 (5) as message data or argument, up to 2 cuts, byte by byte, up to 2 delays; lines of up to 5000 bytes",
    "C30": "queues of up to 3 mails and 2 found in flight (24 of one kind without delays), 2 to 4 free bytes in each; up to 3 operations late ('not ready' first), up to 5 refusals (20 for one mail), up to 2 failing operations, of mails and of listings; tasks polled in any order for up to 3 mails; the clock read at 7 points from 1 second to 2 hours after startup and moved on up to 6 times while there is something to do; tokio's own timer, polls on one thread",
    "C31": "queues of up to 3 mails and 2 found in flight (24 of one kind without delays), 2 to 4 free bytes in each; up to 3 operations late ('not ready' first), up to 5 refusals (20 for one mail), up to 2 failing operations, of mails and of listings; tasks polled in any order for up to 3 mails; the clock read at 7 points from 1 second to 2 hours after startup and moved on up to 6 times while there is something to do; tokio's own timer, polls on one thread",
    "C32": "queues of up to 3 mails and 2 found in flight (24 of one kind without delays), 2 to 4 free bytes in each; up to 3 operations late ('not ready' first), up to 5 refusals (20 for one mail), up to 2 failing operations, of mails and of listings; tasks polled in any order for up to 3 mails; the clock read at 7 points from 1 second to 2 hours after startup and moved on up to 6 times while there is something to do; tokio's own timer, polls on one thread",
    "C33": SESS + "the connection's data starting as anything and left as anything by each filter (2 free bytes each), up to 4 commands picked from 6 (5 from 8 thorough), up to 16 recipients and 8 messages in a session",
    "C34": "as C15, what has been delivered compared each time more is asked for",
    "C35": SESS + "every set of the configurable replies configured or not, and the general ones; host names and greetings of the listed lengths up to 1012 with free bytes at the ends",
    "C36": "each command, reply line, address and string kind with up to 3 free bytes, or of the listed lengths up to 10000 with one; writers that are awkward (take one byte, all but one, are interrupted, fail, take nothing) at any 2 of their calls (3 for fixed lines, 4 thorough)",
    "C37": "inputs of up to 5 free bytes (6 thorough) to the command and address parsers and 7 (8) to the reply parser, up to 3 (4) behind a valid line of each kind; texts of up to 4 free bytes (5) and of the listed lengths up to 10000 for replies",
}

ABOUT = {k: {"bounds": v} for k, v in BOUNDS.items()}
for k in BOUNDS:
    if k in ("C30", "C31", "C32"):
        ABOUT[k]["assumptions"] = ["the storage, the transport, the executor and the clock are the harness's; the timer is tokio-timer's code under that clock",
                                   "tasks are interleaved at their polls: run() shares nothing between tasks but the storage and the transport"]
    elif k in ("C33", "C35") or 19 <= int(k[1:]) < 30:
        ABOUT[k]["assumptions"] = ["the filters and the message handler are the harness's: their decisions are symbolic, the handler reads the data stream to its end and calls complete(); the texts they return are made of tab and printable ASCII",
                                   "a future is polled again only after it was woken, by a single-threaded executor"]
