"""The planted bugs: what is changed, what shows it."""
SM, SS = "smtp-message/src/", "smtp-server/src/"
SESS = "mod sess;\nuse sess::*;\n"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, deps=""):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, deps=deps))


bug("b01-lf-packet", "C15",
    [(SM + "data/stream.rs", "                        (CrPassed, b'\\n') => self.state = CrLfPassed,\n\n                        // Or just continue reading stuff\n                        (_, _) => self.state = Running,\n                    }\n                } // Ignore",
      "                        (CrPassed, b'\\n') if idle => self.state = CrLfPassed,\n\n                        // Or just continue reading stuff\n                        (_, _) => self.state = Running,\n                    }\n                } // Ignore"),
     (SM + "data/stream.rs", "            let l = self.buf.len();\n", "            let l = self.buf.len();\n            // a line end counts once the line before it has been given\n            let idle = self.buf.capacity() > l;\n")],
    '''use bytes::BytesMut;
use futures::{executor::block_on, stream, StreamExt as _};
use smtp_message::{DataStream, Prependable};
fn main() {
    // the line feed comes alone, in a buffer with no room left
    let mut lf = BytesMut::from(vec![b'\\n'; 40]);
    let lf = lf.split_off(39);
    let v = vec![BytesMut::from(&b"a\\r"[..]), lf, BytesMut::from(&b".\\r\\nNOOP\\r\\n"[..])];
    let mut p = Prependable::new(stream::iter(v));
    let mut got = Vec::new();
    {
        let mut d = DataStream::new(&mut p);
        while let Some(x) = block_on(d.next()) {
            got.extend_from_slice(&x);
        }
        assert!(d.complete().is_ok());
    }
    assert_eq!(got, b"a\\r\\n");
}
''', "a packet that is a lone LF in a buffer without spare capacity, after a CR that ended the packet before",
    "the line end is not recognised, so the end-of-data mark is missed and the following commands are taken for data")

bug("b02-early-end", "C16",
    [(SM + "data/stream.rs", "                    self.state = DataStreamState::EarlyFin;\n",
      "                    self.state = if self.state == CrLfPassed && !self.buf.is_empty() {\n                        // the client only forgot the last line end\n                        self.buf.clear();\n                        Finished\n                    } else {\n                        DataStreamState::EarlyFin\n                    };\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    session(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n", b"text\\r\\n", b".\\r"], &mut c);
    assert_eq!(c.log.last().unwrap(), "mail a@b>c@d \\"text\\\\r\\\\n\\" cut");
}
''', "the connection ends inside the end-of-data mark, after its '.' or CR",
    "a message cut off inside the end mark is taken for a complete one")

bug("b03-long-item", "C14",
    [(SM + "data/sink.rs", "            for (pos, c) in item.iter().enumerate() {", "            // the rest of a long item is looked at when it is its turn\n            for (pos, c) in item.iter().enumerate().take(8192) {")],
    '''use bytes::Bytes;
use futures::executor::block_on;
use smtp_message::DataSink;
fn main() {
    let out = block_on(async {
        let mut k = DataSink::new(Vec::<Bytes>::new());
        let mut v = vec![b'a'; 8192];
        v.extend_from_slice(b"\\r\\n.b\\r\\n");
        k.send(Bytes::from(v)).await.unwrap();
        k.end().await.unwrap()
    });
    let all: Vec<u8> = out.iter().flat_map(|b| b.to_vec()).collect();
    assert!(all.ends_with(b"\\r\\n..b\\r\\n.\\r\\n"));
}
''', "a piece of more than 8192 bytes with a line starting with '.' behind them", "the dot is not stuffed, so the receiver loses it or ends the message there")

bug("b04-third-line", "C26",
    [(SS + "sendreply.rs", "                First(t) | Middle(t) => ReplyLine::build(code, IsLastLine::No, t).unwrap(),\n                Last(t) | Only(t) =>",
      "                First(t) => ReplyLine::build(code, IsLastLine::No, t).unwrap(),\n                Middle(t) | Last(t) | Only(t) =>")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    c.unrecognized = "x".repeat(1200);
    let o = session(&[b"foo\\r\\n"], &mut c);
    let l: Vec<&str> = o.lines().skip(1).collect();
    assert_eq!(l.len(), 3);
    assert!(l[0].starts_with("500-") && l[1].starts_with("500-") && l[2].starts_with("500 "));
}
''', "a reply text of more than 1012 bytes (three lines)", "the middle lines are marked as the last of the reply")

bug("b05-refused-data", "C24",
    [(SS + "interact.rs", "                        Decision::Reject(r) => {\n                            send_reply(writer, (r.code, r.msg.into())).await?;\n                            *mail_meta = Some(mail_meta_unw);\n",
      "                        Decision::Reject(r) => {\n                            let later = r.code.code() / 100 == 4;\n                            send_reply(writer, (r.code, r.msg.into())).await?;\n                            if later {\n                                *mail_meta = Some(mail_meta_unw);\n                            }\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let mut n = 0;
    c.data = Box::new(move || { n += 1; if n == 1 { Some((554, "no".into())) } else { None } });
    let o = session(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"], &mut c);
    assert_eq!(codes(&o), vec!["220", "250", "250", "554", "354", "250"]);
}
''', "the filter before message data refuses with a code other than 4xx, then the client goes on with the transaction",
    "a permanent refusal before message data closes the transaction")

bug("b06-data-no-rcpt", "C22",
    [(SS + "interact.rs", "                    send_reply(writer, cfg.data_before_rcpt()).await?;\n                    *mail_meta = Some(mail_meta_unw);\n",
      "                    send_reply(writer, cfg.data_before_rcpt()).await?;\n                    if mail_meta_unw.from.is_some() {\n                        *mail_meta = Some(mail_meta_unw);\n                    }\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<>\\r\\nDATA\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"], &mut c);
    assert_eq!(codes(&o), vec!["220", "250", "503", "250", "354", "250"]);
}
''', "MAIL FROM:<>, DATA before any RCPT, then RCPT", "an early DATA closes a transaction with the null sender")

bug("b07-same-rcpt", "C21",
    [(SS + "interact.rs", "                        mail_meta_unw.to.push(to);\n", "                        if !mail_meta_unw.to.iter().any(|x| x.localpart() == to.localpart() && x.hostname() == to.hostname()) {\n                            mail_meta_unw.to.push(to);\n                        }\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    session(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<\\"c\\"@d>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"], &mut c);
    assert_eq!(c.log.last().unwrap(), "mail a@b>c@d,\\"c\\"@d,c@d \\"x\\\\r\\\\n\\" whole");
}
''', "two accepted RCPT of one transaction name the same mailbox", "the handler gets fewer recipients than were accepted")

bug("b08-crlf-split", "C19",
    [(SS + "crlflines.rs", "        if let Some(pos) = buf.windows(2).position(|x| x == b\"\\r\\n\") {",
      "        let start = seen;\n        seen = buf.len();\n        if let Some(pos) = buf[start..].windows(2).position(|x| x == b\"\\r\\n\").map(|x| x + start) {"),
     (SS + "crlflines.rs", "    let mut buf = BytesMut::new();\n    while", "    let mut buf = BytesMut::new();\n    let mut seen = 0;\n    while")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<a@b>\\r", b"\\nRCPT TO:<c@d>\\r\\n"], &mut c);
    assert_eq!(codes(&o), vec!["220", "250", "250"]);
}
''', "a packet boundary between the CR and the LF of a command line", "the line end is missed and two lines become one")

bug("b09-last-line", "C27",
    [(SS + "crlflines.rs", "    s.prepend(buf).unwrap();\n    None\n", "    if buf.len() == 4 && buf.eq_ignore_ascii_case(b\"QUIT\") {\n        // a client in a hurry\n        buf.extend_from_slice(b\"\\r\\n\");\n        return Some(buf);\n    }\n    s.prepend(buf).unwrap();\n    None\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<a@b>\\r\\nQUIT"], &mut c);
    assert_eq!(codes(&o), vec!["220", "250"]);
}
''', "the stream ends right after QUIT, without CRLF", "a line without its line end is executed and answered")

bug("b10-first-param", "C05",
    [(SM + "parameters.rs", "    (Parameters(params.into_iter().collect()))", "    (Parameters(params.into_iter().rev().collect()))")],
    '''use bytes::Bytes;
use smtp_message::{Command, SmtpString};
fn main() {
    match Command::parse(Bytes::from_static(b"MAIL FROM:<> SIZE=1 SIZE=2\\r\\n")) {
        Ok(Command::Mail(m)) => assert_eq!(m.params.0.get(&SmtpString::from_static(b"SIZE")), Some(&Some(SmtpString::from_static(b"2")))),
        _ => panic!(),
    }
}
''', "the same parameter twice on a line", "the first value wins instead of the last")

bug("b11-last-blank", "C08",
    [(SM + "email.rs", "            assert_eq!(res.pop().unwrap(), b'\"');\n", "            assert_eq!(res.pop().unwrap(), b'\"');\n            if res.len() > 1 && res[res.len() - 1] == b' ' {\n                // blanks at the end mean nothing\n                res.pop();\n            }\n")],
    '''use smtp_message::Email;
fn main() {
    let e = Email::parse_slice(b"\\"a \\"@c").unwrap();
    assert_eq!(&e.localpart().bytes()[..], b"a ");
}
''', "a quoted local part that ends in a blank", "the blank is dropped from the canonical local part, so two mailboxes become one")

bug("b12-mapped-v6", "C09",
    [(SM + "domain.rs", "            Addr(V6(a)) => write!(w, \"[IPv6:{}]\", a),", "            Addr(V6(a)) => match (a.to_ipv4(), a.segments()[5]) {\n                (Some(b), 0xffff) => write!(w, \"[{}]\", b),\n                _ => write!(w, \"[IPv6:{}]\", a),\n            },")],
    '''use bytes::Bytes;
use smtp_message::{Command, Email, SmtpString};
fn main() {
    let line = b"EHLO [IPv6:::ffff:1.2.3.4]\\r\\n";
    match Command::parse(Bytes::from_static(line)) {
        Ok(Command::Ehlo(e)) => {
            let t = SmtpString::from_sendable(e.domain()).unwrap();
            let again = Email::parse_slice(&[b"a@", &t.bytes()[..]].concat()).unwrap();
            assert_eq!(again.hostname().as_ref(), Some(e.domain()));
        }
        _ => panic!(),
    }
}
''', "an IPv6 literal of the form ::ffff:a.b.c.d", "it is sent as an IPv4 literal, another domain")

bug("b13-quoted-tilde", "C07",
    [(SM + "email.rs", "32 <= x[0] && x[0] != 34 && x[0] != 92 && x[0] <= 126)", "32 <= x[0] && x[0] != 34 && x[0] != 92 && x[0] < 126)")],
    '''use smtp_message::Email;
fn main() {
    assert!(Email::parse_slice(b"\\"a~b\\"@c").is_ok());
}
''', "an unescaped '~' in a quoted local part", "a valid address is refused")

bug("b14-last-byte", "C11",
    [(SM + "reply.rs", "            .iter_bytes()\n            .position(", "            .iter_bytes()\n            .take(Self::MAX_LEN - 1)\n            .position(")],
    '''use smtp_message::{IsLastLine, ReplyCode, ReplyLine};
fn main() {
    let mut v = vec![b'a'; 505];
    v.push(b'\\n');
    assert!(ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, v.into()).is_err());
}
''', "a reply text of exactly 506 bytes whose last byte is not allowed", "a line with an unsendable byte is built")

bug("b15-second-item", "C18",
    [(SM + "streamext/prependable.rs", "        if self.prepended.is_some() {\n            Err(())\n        } else {\n            self.prepended = Some(item);\n            Ok(())\n        }",
      "        match self.prepended.replace(item) {\n            Some(_) => Err(()),\n            None => Ok(()),\n        }")],
    '''use futures::{executor::block_on, stream, StreamExt as _};
use smtp_message::Prependable;
fn main() {
    let mut p = Prependable::new(stream::iter(vec![1, 2]));
    assert_eq!(p.prepend(7), Ok(()));
    assert_eq!(p.prepend(8), Err(()));
    assert_eq!(block_on(p.next()), Some(7));
    assert_eq!(block_on(p.next()), Some(1));
}
''', "a second item is put back while one is waiting", "the refused item replaces the one waiting")

bug("b16-find-crlf", "C03",
    [(SM + "expn/mod.rs", "    res: take_until!(\"\\r\\n\") >>", "    res: recognize!(opt!(is_not!(\"\\r\\n\"))) >>")],
    '''use bytes::Bytes;
use smtp_message::Command;
fn main() {
    match Command::parse(Bytes::from_static(b"EXPN a\\rb\\r\\n")) {
        Ok(Command::Expn(n)) => assert_eq!(&n.name().bytes()[..], b"a\\rb"),
        _ => panic!(),
    }
}
''', "a lone CR or LF in the argument of EXPN", "the line is refused")

bug("b17-unheard", "C28",
    [(SS + "interact.rs", "            send_reply(writer, cfg.command_unrecognized()).await?;", "            // nobody waits for this one\n            let _ = send_reply(writer, cfg.command_unrecognized()).await;")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let (_, ok) = session_failing(&[b"foo\\r\\nMAIL FROM:<a@b>\\r\\n"], &mut c, 1);
    assert!(!ok && c.log.is_empty());
}
''', "writing the reply to an unknown command fails", "the session goes on after a failed write and consults a filter")

bug("b18-literal-bytes", "C01",
    [(SM + "domain.rs", "        map_res!(map_res!(preceded!(tag!(\"[\"), take_until_and_consume!(\"]\")),\n                          ByteSlice::into_utf8),",
      "        map_res!(map!(preceded!(tag!(\"[\"), take_until_and_consume!(\"]\")),\n                          |x: ByteSlice| x.into_utf8().expect(\"addresses are ASCII\")),")],
    '''use bytes::Bytes;
use smtp_message::Command;
fn main() {
    assert!(Command::parse(Bytes::from_static(b"EHLO [\\xff]\\r\\n")).is_err());
}
''', "an address literal with bytes that are not UTF-8", "the parser panics")

bug("b19-rset", "C25",
    [(SS + "interact.rs", "        // TODO: (B) implement all the parsed commands and remove this case\n        Ok(_) => {\n",
      "        // TODO: (B) implement all the parsed commands and remove this case\n        Ok(other) => {\n            if let Command::Ehlo(_) = other {\n                // a client starting over\n                if mail_meta.as_ref().map_or(false, |m| m.to.is_empty()) {\n                    *mail_meta = None;\n                }\n            }\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<a@b>\\r\\nEHLO x\\r\\nRCPT TO:<c@d>\\r\\n"], &mut c);
    assert_eq!(codes(&o), vec!["220", "250", "502", "250"]);
}
''', "EHLO after MAIL and before any accepted RCPT", "an unimplemented command closes the transaction")

bug("b20-dot-state", "C17",
    [(SM + "data/stream.rs", "                        (CrLfPassed, b'.', _) => split = BufSplit::Escape(l - 2),", "                        (CrLfPassed, b'.', c) if c != b'.' => split = BufSplit::Escape(l - 2),")],
    '''use bytes::BytesMut;
use futures::{executor::block_on, stream, StreamExt as _};
use smtp_message::{DataStream, Prependable};
fn main() {
    // the message is ".\\r\\n": on the wire "..", then its line end
    let v: Vec<BytesMut> = [&b".."[..], b"\\r\\n.\\r\\n"].iter().map(|b| BytesMut::from(*b)).collect();
    let mut p = Prependable::new(stream::iter(v));
    let mut d = DataStream::new(&mut p);
    let mut got = Vec::new();
    while let Some(x) = block_on(d.next()) {
        got.extend_from_slice(&x);
    }
    assert_eq!(got, b".\\r\\n");
}
''', "a line starting with '.' whose stuffed '..' ends a packet", "the message arrives with the dot doubled")

bug("b21-join-long", "C13",
    [(SM + "smtpstring.rs", "        self.0.extend_from_slice(&rhs.0);\n        self\n", "        // no longer than a line of text\n        let room = 998 - min(self.0.len(), 998);\n        self.0.extend_from_slice(&rhs.0[..min(rhs.0.len(), room)]);\n        self\n")],
    '''use smtp_message::SmtpString;
fn main() {
    let a = SmtpString::from(vec![b'a'; 990]) + SmtpString::from_static(b"123456789");
    assert_eq!(a.byte_len(), 999);
}
''', "joining strings of more than 998 bytes together", "the end of the second string is lost")

bug("b22-blank-route", "C04",
    [(SM + "email.rs", "        tag!(\":\") >>\n        ()\n    )),\n    email", "        tag!(\":\") >> opt!(tag!(\" \")) >>\n        ()\n    )),\n    email")],
    '''use bytes::Bytes;
use smtp_message::Command;
fn main() {
    assert!(Command::parse(Bytes::from_static(b"RCPT TO:<@x,@y: a@b>\\r\\n")).is_err());
    assert!(Command::parse(Bytes::from_static(b"RCPT TO:<@x,@y:a@b>\\r\\n")).is_ok());
}
''', "a blank after the ':' of a source route", "a malformed path is accepted")


# ------------------------------------------------------------ second batch

SQ = "smtp-queue/src/"
QU = "mod qu;\nuse qu::*;\n"

bug("b23-crlf-behind", "C02",
    [(SM + "parseresult.rs", "            if rem.len() == 0 {\n", "            // line ends at the end of a packet are harmless\n            if rem.iter().all(|&b| b == b'\\r' || b == b'\\n') {\n")],
    '''use bytes::Bytes;
use smtp_message::Command;
fn main() {
    assert!(Command::parse(Bytes::from_static(b"NOOP\\r\\n")).is_ok());
    assert!(Command::parse(Bytes::from_static(b"NOOP\\r\\n\\n")).is_err());
}
''', "a command line followed by nothing but further CR and LF bytes", "something that is not one line is accepted as a command")

bug("b24-spaced-literal", "C06",
    [(SM + "domain.rs", "Ok(Domain::Addr(Ipv4Addr::from_str(x)?.into()))", "Ok(Domain::Addr(Ipv4Addr::from_str(str::trim_end(x))?.into()))")],
    '''use smtp_message::Email;
fn main() {
    assert!(Email::parse_slice(b"a@[1.2.3.4]").is_ok());
    assert!(Email::parse_slice(b"a@[1.2.3.4 ]").is_err());
}
''', "an IPv4 address literal with white space in front of the bracket", "an invalid address literal is accepted")

bug("b25-long-vrfy", "C10",
    [(SM + "vrfy/mod.rs", "        w.write_all(&self.name.bytes()[..])?;\n", "        // a command line has at most 512 bytes\n        let name = &self.name.bytes()[..];\n        w.write_all(&name[..name.len().min(505)])?;\n")],
    '''use bytes::Bytes;
use smtp_message::{Command, SmtpString, VrfyCommand};
fn main() {
    for n in &[1, 505, 506, 600] {
        let mut v = Vec::new();
        VrfyCommand::new(SmtpString::from(vec![b'a'; *n])).send_to(&mut v).unwrap();
        match Command::parse(Bytes::from(v)) {
            Ok(Command::Vrfy(c)) => assert_eq!(c.name().byte_len(), *n),
            _ => panic!(),
        }
    }
}
''', "a name of more than 505 bytes", "the receiver is asked about another name")

bug("b26-lone-cr", "C12",
    [(SM + "reply.rs", "    line: take_until_and_consume!(\"\\r\\n\") >>\n", "    line: take_until!(\"\\r\") >> tag!(\"\\r\\n\") >>\n")],
    '''use bytes::Bytes;
use smtp_message::ReplyLine;
fn main() {
    assert!(ReplyLine::parse(Bytes::from_static(b"250 ab\\r\\n")).is_ok());
    assert!(ReplyLine::parse(Bytes::from_static(b"250 a\\rb\\r\\n")).is_ok());
}
''', "a reply text with a CR that is not part of CRLF", "a reply line is refused")

bug("b27-blank-after-message", "C20",
    [(SS + "interact.rs", "    while let Some(line) = next_crlf_line(&mut reader).await {\n        handle_line(",
      "    let mut in_mail = false;\n    while let Some(line) = next_crlf_line(&mut reader).await {\n        // some clients send one line end too many behind a message\n        if in_mail && mail_meta.is_none() && line.len() == 2 {\n            continue;\n        }\n        in_mail = mail_meta.is_some();\n        handle_line(")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<a>\\r\\nRCPT TO:<b>\\r\\nDATA\\r\\n.\\r\\n\\r\\nNOOP\\r\\n"], &mut c);
    assert_eq!(codes(&o), ["220", "250", "250", "354", "250", "500", "502"]);
}
''', "an empty line right after a message", "that line is not answered, so client and server disagree on which reply is whose")

bug("b28-two-dots", "C23",
    [(SM + "data/stream.rs", "                    self.buf.advance(1);\n                    self.state = Running;\n", "                    self.buf.advance(1);\n                    // still at the start of the line while nothing of it is there\n                    self.state = if self.buf.len() > 1 { Running } else { CrLfPassed };\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    let o = session(&[b"MAIL FROM:<a>\\r\\nRCPT TO:<b>\\r\\nDATA\\r\\nx\\r\\n..", b"\\r\\nMAIL FROM:<evil>\\r\\n.\\r\\n"], &mut c);
    assert_eq!(codes(&o), ["220", "250", "250", "354", "250"]);
    assert_eq!(c.log.last().unwrap(), "mail a>b \\"x\\\\r\\\\n.\\\\r\\\\nMAIL FROM:<evil>\\\\r\\\\n\\" whole");
}
''', "a line of the message that is '.' (stuffed: '..'), whose dots end a packet", "the message ends there, and the rest of it is executed as commands")

bug("b29-empty-packet", "C29",
    [(SS + "crlflines.rs", "        if let Some(pos) = buf.windows(2).position(|x| x == b\"\\r\\n\") {\n", "        // all but the last byte has been searched already\n        let first = searched;\n        searched = if buf.len() == 0 { 0 } else { buf.len() - 1 };\n        if let Some(pos) = buf[first..].windows(2).position(|x| x == b\"\\r\\n\").map(|p| p + first) {\n"),
     (SS + "crlflines.rs", "    while let Some(pkt) = s.next().await {\n", "    let mut searched = 0;\n    while let Some(pkt) = s.next().await {\n        if pkt.is_empty() && searched > 0 {\n            // nothing new: wait for the rest of the line\n            searched += 1;\n            continue;\n        }\n")],
    SESS + '''fn main() {
    let mut c = Cfg::new();
    // empty packets in the middle of a line
    let o = session(&[b"NO", b"", b"", b"", b"", b"\\r\\nNOOP\\r\\n"], &mut c);
    assert_eq!(codes(&o), ["220", "500", "502"]);
}
''', "several empty packets in the middle of a line", "the line end is searched for behind its place: it is missed, or the search starts beyond the end and panics")

bug("b30-permanent", "C30",
    [(SQ + "send_queued_mail.rs", "                        Err((_code, _msg)) => {\n", "                        // refused for good: there is nothing more to try\n                        Err((ref code, _)) if code.code() / 10 == 55 => {\n                            future::Either::A(storage.send_done(im))\n                        }\n                        Err((_code, _msg)) => {\n")],
    QU + '''fn main() {
    let (l, _) = queue(1, 0, |what, _, n| if what == "send" && n < 1 { Do::Refuse(550) } else { Do::Now });
    assert_eq!(l, ["0 start 0", "0 get 0", "0 send 0 refused 550", "0 cancel 0", "0 start 0", "0 get 0", "0 send 0", "0 done 0"]);
}
''', "the transport refuses a mail with a code from 550 to 559", "a mail nobody accepted is marked done and lost")

bug("b31-one-by-one", "C31",
    [(SQ + "run.rs", "            tokio::spawn(send_queued_mail(\n                storage_copy.clone(),\n                transport_copy.clone(),\n                qm,\n            ))\n",
      "            // not all at once\n            send_queued_mail(storage_copy.clone(), transport_copy.clone(), qm).or_else(|()| Ok(()))\n")],
    QU + '''fn main() {
    // the first mail's transport is slow
    let (l, r) = queue(2, 0, |what, i, _| if what == "send" && i == 0 { Do::At(2000) } else { Do::Now });
    assert_eq!(r, Some(true));
    assert!(l.contains(&"0 done 1".to_string()), "{:?}", l);
}
''', "sending one mail takes long", "the mails after it, and those found in flight, wait for it")

bug("b32-late-listing", "C32",
    [(SQ + "run.rs", "    let startup = Instant::now();\n", ""),
     (SQ + "run.rs", "                    Delay::new(startup.clone() + Duration::from_secs(3600))\n", "                    Delay::new(Instant::now() + Duration::from_secs(3600))\n")],
    QU + '''fn main() {
    let (l, _) = queue(0, 1, |what, _, _| if what == "find" { Do::At(1800) } else { Do::Now });
    assert_eq!(l, ["3600 cancel_found 0", "3600 start 0", "3600 get 0", "3600 send 0", "3600 done 0"], "{:?}", l);
}
''', "listing what is in flight takes long", "those mails are resumed that much later")

bug("b33-own-copy", "C33",
    [(SS + "metadata.rs", "pub struct ConnectionMetadata<U> {", "#[derive(Clone)]\npub struct ConnectionMetadata<U> {"),
     (SS + "interact.rs", "    mail_meta: &'a mut Option<MailMetadata>,\n) -> Result<(), W::Error>\nwhere\n", "    mail_meta: &'a mut Option<MailMetadata>,\n) -> Result<(), W::Error>\nwhere\n    U: Clone,\n"),
     (SS + "interact.rs", "    Reader: 'a + Send + Unpin + Stream<Item = BytesMut>,\n    Writer", "    UserProvidedMetadata: Clone,\n    Reader: 'a + Send + Unpin + Stream<Item = BytesMut>,\n    Writer"),
     (SS + "interact.rs", "                match cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await {\n                    Decision::Accept => {\n",
      "                // what a refused recipient's filter did does not count\n                let mut seen = conn_meta.clone();\n                match cfg.filter_to(&mut to, mail_meta_unw, &mut seen).await {\n                    Decision::Accept => {\n                        *conn_meta = seen;\n")],
    '''use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, future, stream, Future, Stream, StreamExt};
use smtp_message::*;
use smtp_server::*;
use std::pin::Pin;
struct C;
impl Config<u32> for C {
    fn hostname(&self) -> SmtpString {
        "h".into()
    }
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<u32>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    // three wrong recipients are enough
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<u32>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        c.user += 1;
        let code = if c.user > 3 { 421 } else { 550 };
        Box::pin(future::ready(Decision::Reject(Refusal { code: ReplyCode::custom(code), msg: "no".into() })))
    }
    fn handle_mail<'a, S>(&'a mut self, st: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<u32>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            while let Some(_) = st.next().await {}
            let _ = st.complete();
            Decision::Accept
        })
    }
}
struct Out(Vec<u8>);
impl futures::Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.0.extend_from_slice(&b);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), ()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
fn main() {
    let mut out = Out(vec![]);
    let l = BytesMut::from(&b"MAIL FROM:<a>\\r\\nRCPT TO:<b>\\r\\nRCPT TO:<b>\\r\\nRCPT TO:<b>\\r\\nRCPT TO:<b>\\r\\n"[..]);
    block_on(interact(stream::iter(vec![l]), Pin::new(&mut out), 0, &mut C)).unwrap();
    assert!(String::from_utf8(out.0).unwrap().ends_with("421 no\\r\\n"));
}
''', "a recipient filter that changes the connection's data and refuses", "what it noted about the connection is lost")

bug("b34-whole-lines", "C34",
    [(SM + "data/stream.rs", "                BufSplit::Nowhere if self.buf.len() > 0 => return Ready(Some(self.buf.take())),\n",
      "                // a line end is given together with what follows it\n                BufSplit::Nowhere if l > 2 && self.state == CrLfPassed => {\n                    self.state = Running;\n                    return Ready(Some(self.buf.split_to(l - 2)));\n                }\n                BufSplit::Nowhere if self.buf.len() > 0 && self.state != CrLfPassed => {\n                    return Ready(Some(self.buf.take()))\n                }\n"),
     (SM + "data/stream.rs", "                BufSplit::Nowhere => (), // Continue to read more data if nothing to send\n", "                BufSplit::Nowhere => {\n                    if l > 0 {\n                        self.state = if l == 1 { CrPassed } else { Running };\n                    }\n                }\n")],
    '''use bytes::BytesMut;
use futures::{executor::block_on, future, stream, FutureExt, StreamExt as _};
use smtp_message::{DataStream, Prependable};
fn main() {
    // one line has arrived, and nothing more for now
    let mut p = Prependable::new(stream::iter(vec![BytesMut::from(&b"a line\\r\\n"[..])]).chain(stream::pending()));
    let mut d = DataStream::new(&mut p);
    let mut got = Vec::new();
    block_on(future::lazy(|_| {
        while let Some(Some(x)) = d.next().now_or_never() {
            got.extend_from_slice(&x);
        }
    }));
    assert_eq!(got, b"a line\\r\\n");
}
''', "a packet that ends with a line end", "the line end is held back until more arrives")

bug("b35-no-recipient", "C35",
    [(SS + "config.rs", "    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {\n        self.bad_sequence()\n    }\n", "    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {\n        // a transaction without recipients is none\n        self.data_before_mail()\n    }\n")],
    '''mod sess;
use sess::*;
use bytes::BytesMut;
use futures::{executor::block_on, future, stream, Future, Stream};
use smtp_message::*;
use smtp_server::*;
use std::pin::Pin;
/// sets one reply
struct C(Cfg);
impl Config<()> for C {
    fn hostname(&self) -> SmtpString {
        "h".into()
    }
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, st: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        self.0.handle_mail(st, m, c)
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::custom(598), "MAIL first".into())
    }
}
fn main() {
    let mut out = Out { bytes: vec![], writes: 0, fail: 100 };
    let mut c = C(Cfg::new());
    let l = BytesMut::from(&b"DATA\\r\\nMAIL FROM:<a>\\r\\nDATA\\r\\n"[..]);
    block_on(interact(stream::iter(vec![l]), Pin::new(&mut out), (), &mut c)).unwrap();
    assert_eq!(codes(std::str::from_utf8(&out.bytes).unwrap()), ["220", "598", "250", "503"]);
}
''', "a configuration that sets the reply to DATA before MAIL and not the one to DATA before RCPT", "DATA before RCPT is answered with the reply set for another situation")

bug("b36-one-write", "C36",
    [(SM + "reply.rs", "        w.write_all(&self.line.bytes()[..])?;\n", "        let mut line = &self.line.bytes()[..];\n        while line.len() > 256 {\n            // in blocks\n            let n = w.write(&line[..256])?;\n            line = &line[n.max(1)..];\n        }\n        w.write_all(line)?;\n")],
    '''use smtp_message::{IsLastLine, ReplyCode, ReplyLine, SmtpString};
use std::io::{self, Write};
/// interrupted once
struct W(Vec<u8>, bool);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() == 256 && !self.1 {
            self.1 = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let r = ReplyLine::build(ReplyCode::custom(250), IsLastLine::Yes, SmtpString::from(vec![b'a'; 300])).unwrap();
    let mut w = W(vec![], false);
    r.send_to(&mut w).unwrap();
    assert_eq!(w.0.len(), 306);
}
''', "a writer that is interrupted, or takes nothing, in the middle of a text of more than 256 bytes", "half a reply line is sent and an error returned though the writer would have taken the rest, or a byte is left out")

bug("b37-last-offender", "C37",
    [(SM + "reply.rs", "            .position(|&x| !(x == 9 || (x >= 32 && x <= 126)))\n", "            .enumerate()\n            .filter(|&(_, &x)| !(x == 9 || (x >= 32 && x <= 126)))\n            .map(|(p, _)| p)\n            .last()\n")],
    '''use smtp_message::{IsLastLine, ReplyCode, ReplyLine, SmtpString};
fn main() {
    let e = ReplyLine::build(ReplyCode::custom(250), IsLastLine::Yes, SmtpString::from(&b"ab\\x00c\\r"[..])).err().unwrap();
    assert_eq!(e.to_string(), "Disallowed byte found at position 2: 0");
}
''', "a text with two bytes that cannot be sent", "the last of them is named instead of the first")

bug("b38-trailing-count", "C37",
    [(SM + "parseresult.rs", "                Err(ParseError::DidNotConsumeEverything(rem.len()))\n", "                // white space does not count\n                let n = rem.iter().filter(|b| !b.is_ascii_whitespace()).count();\n                Err(ParseError::DidNotConsumeEverything(n))\n")],
    '''use bytes::Bytes;
use smtp_message::{Command, ParseError};
fn main() {
    match Command::parse(Bytes::from_static(b"NOOP\\r\\nQUIT\\r\\n")) {
        Err(ParseError::DidNotConsumeEverything(n)) => assert_eq!(n, 6),
        _ => panic!(),
    }
}
''', "trailing bytes with white space among them", "the number of trailing bytes is too small, so a caller that cuts them off cuts wrongly")

bug("b39-retry-limit", "C31",
    [(SQ + "send_queued_mail.rs", "                            future::Either::B(storage.send_cancel(im).and_then(|qm| {\n                                tokio::spawn(send_queued_mail(storage, transport, qm))\n                            }))\n",
      "                            let busy = _code.code() == 421;\n                            future::Either::B(storage.send_cancel(im).and_then(move |qm| {\n                                // when it is busy, the next run sees to it\n                                if !busy {\n                                    tokio::spawn(send_queued_mail(storage, transport, qm));\n                                }\n                                future::ok(())\n                            }))\n")],
    QU + '''fn main() {
    let (l, _) = queue(1, 0, |what, _, n| if what == "send" && n == 1 { Do::Refuse(421) } else if what == "send" && n == 0 { Do::Refuse(450) } else { Do::Now });
    assert_eq!(l.last().unwrap(), "0 done 0", "{:?}", l);
}
''', "a refusal with code 421", "the mail stays in the queue and is not tried again")

