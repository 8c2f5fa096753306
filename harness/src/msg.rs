//! Properties of the message library: parsers, serialisers, strings (C01 - C13).
use crate::refs::{self, Kind, RDom};
use crate::sx;
use bytes::Bytes;
use smtp_message::*;

/// An input whose shape the driver chooses: params[p] is its length, the
/// following words hold the bytes, eight to a word.  Some stand for others:
/// 0x01 any byte, 0x02 any letter or digit, 0x03 any that is printed in ASCII,
/// 0x04 those and the space, 0x05 any digit, 0x06 any but CR and LF,
/// 0x07 any an atom is made of, 0x08 any letter, digit or '-',
/// 0x0b any that stands for itself in a quoted string, 0x0c any hexadecimal digit,
/// 0x0e any printed but '=' and brackets, 0x0f any but CR, LF and '.'.
pub fn tpl(p: u64) -> Vec<u8> {
    let n = sx::param(p) as usize;
    let mut v = Vec::with_capacity(n);
    let mut k = 0;
    let stands = |c: u8| (c > 0 && c < 9) || c == 11 || c == 12 || c == 14 || c == 15;
    for i in 0..n {
        let w = sx::param(p + 1 + (i as u64) / 8);
        let c = (w >> (8 * (i % 8))) as u8;
        if stands(c) {
            k += 1;
        }
        v.push(c);
    }
    if k > 0 {
        let s = sx::vec(k);
        let mut j = 0;
        for i in 0..n {
            let c = v[i];
            if !stands(c) {
                continue;
            }
            let b = s[j];
            let among = |lo: u8, hi: u8| (b >= lo) & (b <= hi);
            let alnum = among(b'0', b'9') | among(b'A', b'Z') | among(b'a', b'z');
            match c {
                1 => (),
                2 => sx::assume(alnum),
                3 => sx::assume(among(33, 126)),
                4 => sx::assume(among(32, 126)),
                5 => sx::assume(among(b'0', b'9')),
                6 => sx::assume((b != 13) & (b != 10)),
                7 => {
                    let mut ok = alnum;
                    for x in b"!#$%&'*+-/=?^_`{|}~" {
                        ok |= b == *x;
                    }
                    sx::assume(ok)
                }
                8 => sx::assume(alnum | (b == b'-')),
                11 => sx::assume(among(32, 126) & (b != b'"') & (b != b'\\')),
                12 => sx::assume(among(b'0', b'9') | among(b'A', b'F') | among(b'a', b'f')),
                15 => sx::assume((b != 13) & (b != 10) & (b != b'.')),
                _ => sx::assume(among(33, 126) & (b != b'=') & (b != b'<') & (b != b'>')),
            }
            v[i] = b;
            j += 1;
        }
    }
    v
}

fn sent<F: FnOnce(&mut dyn std::io::Write) -> std::io::Result<()>>(f: F) -> Vec<u8> {
    let mut v = Vec::new();
    let r = f(&mut v);
    sx::check(r.is_ok(), 90);
    v
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

fn kind(c: &Command) -> Kind {
    match c {
        Command::Data(_) => Kind::Data,
        Command::Ehlo(_) => Kind::Ehlo,
        Command::Expn(_) => Kind::Expn,
        Command::Helo(_) => Kind::Helo,
        Command::Help(_) => Kind::Help,
        Command::Mail(_) => Kind::Mail,
        Command::Noop(_) => Kind::Noop,
        Command::Quit(_) => Kind::Quit,
        Command::Rcpt(_) => Kind::Rcpt,
        Command::Rset(_) => Kind::Rset,
        Command::Vrfy(_) => Kind::Vrfy,
    }
}

fn text(c: &Command) -> Option<&SmtpString> {
    match c {
        Command::Expn(c) => Some(c.name()),
        Command::Vrfy(c) => Some(c.name()),
        Command::Help(c) => Some(c.subject()),
        Command::Noop(c) => Some(c.string()),
        _ => None,
    }
}

/// does the serialised domain denote this one?
fn same_domain(ser: &[u8], b: &[u8], d: &RDom) -> bool {
    match d {
        RDom::Host(s, e) => eq(ser, &b[*s..*e]),
        RDom::V4(a) => {
            // [d.d.d.d]
            ser.len() > 2 && ser[0] == b'[' && ser[ser.len() - 1] == b']' && match refs::ipv4(&ser[1..ser.len() - 1]) {
                Some(x) => eq(&x, a),
                None => false,
            }
        }
        RDom::V6(a) => {
            ser.len() > 7 && eq(&ser[..6], b"[IPv6:") && ser[ser.len() - 1] == b']' && match refs::ipv6(&ser[6..ser.len() - 1]) {
                Some(x) => {
                    let mut r = true;
                    for i in 0..8 {
                        r &= x[i] == a[i];
                    }
                    r
                }
                None => false,
            }
        }
    }
}

fn same_mailbox(m: &Email, b: &[u8], r: &refs::RMail) -> bool {
    if !eq(&m.raw_localpart().bytes()[..], &b[r.local.0..r.local.1]) {
        return false;
    }
    match (m.hostname(), &r.dom) {
        (None, None) => true,
        (Some(h), Some((_, _, d))) => same_domain(&sent(|w| h.send_to(w)), b, d),
        _ => false,
    }
}

/// an address of the other family may look the same when sent
macro_rules! same_held {
    ($x:expr, $y:expr) => {
        $x == $y && eq(&sent(|w| $x.send_to(w)), &sent(|w| $y.send_to(w)))
    };
}

/// Two mailboxes the library holds are the same, part by part
fn same_email(a: &Email, b: &Email) -> bool {
    eq(&a.raw_localpart().bytes()[..], &b.raw_localpart().bytes()[..])
        && match (a.hostname(), b.hostname()) {
            (None, None) => true,
            (Some(x), Some(y)) => same_held!(x, y),
            _ => false,
        }
}


macro_rules! params_of {
    ($c:expr) => {
        match $c {
            Command::Mail(c) => Some(&c.params.0),
            Command::Rcpt(c) => Some(&c.params.0),
            _ => None,
        }
    };
}

/// last one wins
fn same_params(c: &Command, b: &[u8], want: &[refs::RParam]) -> bool {
    let have = match params_of!(c) {
        Some(p) => p,
        None => return false,
    };
    let mut distinct = 0;
    for (i, w) in want.iter().enumerate() {
        let key = &b[w.key.0..w.key.1];
        let later = want[i + 1..].iter().any(|x| eq(&b[x.key.0..x.key.1], key));
        if later {
            continue;
        }
        distinct += 1;
        let mut found = false;
        for (k, v) in have.iter() {
            if eq(&k.bytes()[..], key) {
                found = match (v, w.val) {
                    (None, None) => true,
                    (Some(v), Some((s, e))) => eq(&v.bytes()[..], &b[s..e]),
                    _ => false,
                };
            }
        }
        if !found {
            return false;
        }
    }
    have.len() == distinct
}

fn observe_cmd(c: &Command) {
    sx::observe(kind(c) as u64);
    if let Some(t) = text(c) {
        sx::observe_bytes(&t.bytes()[..]);
    }
    match c {
        Command::Mail(m) => match &m.from {
            Some(e) => sx::observe_bytes(&sent(|w| e.send_to(w))),
            None => sx::observe(7),
        },
        Command::Rcpt(m) => sx::observe_bytes(&sent(|w| m.to.send_to(w))),
        _ => (),
    }
    if let Some(p) = params_of!(c) {
        sx::observe(p.len() as u64);
    }
}

// ---------------------------------------------------------------- C01

/// whatever the bytes, parsing, reading and writing back neither panics nor hangs
pub fn total_command() {
    let b = tpl(0);
    let r = Command::parse(Bytes::from(b));
    sx::observe(r.is_ok() as u64);
    match &r {
        Ok(c) => {
            sx::cover(0);
            observe_cmd(c);
            let s = sent(|w| c.send_to(w));
            sx::observe((s.len() > 0) as u64);
            match c {
                Command::Mail(m) => {
                    if let Some(e) = &m.from {
                        sx::cover(2);
                        sx::observe_bytes(&e.localpart().bytes()[..]);
                    }
                }
                Command::Rcpt(m) => {
                    sx::observe_bytes(&m.to.localpart().bytes()[..]);
                }
                Command::Ehlo(m) => {
                    sx::observe_bytes(&sent(|w| m.domain().send_to(w)));
                }
                Command::Helo(m) => {
                    sx::observe_bytes(&sent(|w| m.domain().send_to(w)));
                }
                _ => (),
            }
        }
        Err(_) => sx::cover(1),
    }
}

pub fn total_reply() {
    let b = tpl(0);
    match ReplyLine::parse(Bytes::from(b)) {
        Ok(r) => {
            sx::cover(3);
            sx::observe(r.byte_len() as u64);
            sx::observe_bytes(&sent(|w| r.send_to(w)));
        }
        Err(_) => sx::cover(4),
    }
}

pub fn total_email() {
    let b = tpl(0);
    match Email::parse_slice(&b) {
        Ok(e) => {
            sx::cover(5);
            sx::observe_bytes(&e.raw_localpart().bytes()[..]);
            sx::observe_bytes(&e.localpart().bytes()[..]);
            if let Some(h) = e.hostname() {
                sx::observe_bytes(&sent(|w| h.send_to(w)));
            }
            sx::observe_bytes(&sent(|w| e.send_to(w)));
        }
        Err(_) => sx::cover(6),
    }
}

// ---------------------------------------------------------------- C02 - C06

/// Which of the command properties to check: the parameter before the input.
pub fn command_diff() {
    let prop = sx::param(0);
    let b = tpl(1);
    let want = refs::command(&b);
    let verb = refs::verb(&b);
    let have = Command::parse(Bytes::from(&b[..]));
    sx::observe(have.is_ok() as u64);
    if let Ok(c) = &have {
        observe_cmd(c);
    }
    // whatever is accepted is one line, with the right verb
    match verb {
        Some(k) => {
            sx::cover(k as u64);
            if let Ok(c) = &have {
                sx::check(kind(c) == k, 3);
            }
        }
        None => {
            sx::cover(11);
            sx::check(have.is_err(), 4);
        }
    }
    if !refs::one_line(&b) {
        sx::cover(12);
        sx::check(have.is_err(), 5);
    }
    let own = match (prop, verb) {
        (2, Some(Kind::Data)) | (2, Some(Kind::Quit)) | (2, Some(Kind::Rset)) => true,
        (3, Some(Kind::Expn)) | (3, Some(Kind::Vrfy)) | (3, Some(Kind::Help)) | (3, Some(Kind::Noop)) => true,
        (4, Some(Kind::Mail)) | (4, Some(Kind::Rcpt)) => true,
        (5, Some(Kind::Mail)) | (5, Some(Kind::Rcpt)) => true,
        (6, Some(Kind::Ehlo)) | (6, Some(Kind::Helo)) => true,
        _ => false,
    };
    if !own {
        return;
    }
    match (&want, &have) {
        (None, Err(_)) => sx::cover(13),
        (None, Ok(_)) => sx::check(false, 1),
        (Some(_), Err(_)) => sx::check(false, 2),
        (Some(w), Ok(h)) => {
            sx::cover(14);
            if kind(h) != w.kind {
                sx::check(false, 3);
                return;
            }
            if let Some((s, e)) = w.text {
                match text(h) {
                    Some(t) => sx::check(eq(&t.bytes()[..], &b[s..e]), 6),
                    None => sx::check(false, 6),
                }
                if e == s {
                    sx::cover(15);
                }
            }
            if let Some((_, _, d)) = &w.dom {
                match d {
                    RDom::Host(..) => sx::cover(16),
                    RDom::V4(_) => sx::cover(17),
                    RDom::V6(_) => sx::cover(18),
                }
                let s = match h {
                    Command::Ehlo(m) => sent(|w| m.domain().send_to(w)),
                    Command::Helo(m) => sent(|w| m.domain().send_to(w)),
                    _ => Vec::new(),
                };
                sx::check(same_domain(&s, &b, d), 7);
            }
            if prop == 4 {
                match h {
                    Command::Mail(m) => match (&m.from, &w.mail) {
                        (None, None) => sx::cover(19),
                        (Some(e), Some(r)) => {
                            cover_mail(&b, r);
                            sx::check(same_mailbox(e, &b, r), 8);
                        }
                        _ => sx::check(false, 9),
                    },
                    Command::Rcpt(m) => match &w.mail {
                        Some(r) => {
                            cover_mail(&b, r);
                            sx::check(same_mailbox(&m.to, &b, r), 8);
                        }
                        None => sx::check(false, 9),
                    },
                    _ => (),
                }
            }
            if prop == 5 {
                match w.params.len() {
                    0 => sx::cover(24),
                    1 => sx::cover(25),
                    _ => sx::cover(26),
                }
                if w.params.iter().any(|p| p.val.is_some()) {
                    sx::cover(27);
                }
                sx::check(same_params(h, &b, &w.params), 10);
            }
        }
    }
}

fn cover_mail(b: &[u8], r: &refs::RMail) {
    if b[r.local.0] == b'"' {
        sx::cover(20);
    }
    match &r.dom {
        None => sx::cover(21),
        Some((_, _, RDom::Host(..))) => sx::cover(22),
        Some(_) => sx::cover(23),
    }
}

// ---------------------------------------------------------------- C06 - C08: addresses

pub fn email_diff() {
    let b = tpl(0);
    let want = match refs::email(&b, 0) {
        Some(m) if m.end == b.len() => Some(m),
        _ => None,
    };
    let have = Email::parse_slice(&b);
    sx::observe(have.is_ok() as u64);
    match (&want, &have) {
        (None, Err(_)) => sx::cover(0),
        (None, Ok(_)) => sx::check(false, 1),
        (Some(_), Err(_)) => sx::check(false, 2),
        (Some(w), Ok(h)) => {
            if b[0] == b'"' {
                sx::cover(1);
            } else {
                sx::cover(2);
            }
            match (h.hostname(), &w.dom) {
                (None, None) => sx::cover(3),
                (Some(s), Some((_, _, d))) => {
                    match d {
                        RDom::Host(..) => sx::cover(4),
                        RDom::V4(_) => sx::cover(5),
                        RDom::V6(_) => sx::cover(6),
                    }
                    let s = sent(|x| s.send_to(x));
                    sx::observe_bytes(&s);
                    sx::check(same_domain(&s, &b, d), 7);
                }
                _ => sx::check(false, 7),
            }
            sx::check(eq(&h.raw_localpart().bytes()[..], &b[w.local.0..w.local.1]), 8);
            let s = sent(|x| h.send_to(x));
            sx::observe_bytes(&s);
            match &w.dom {
                None | Some((_, _, RDom::Host(..))) => sx::check(eq(&s, &b), 11),
                Some((st, _, d)) => {
                    // a literal may be respelled, nothing else
                    let st = *st;
                    sx::check(s.len() > st && eq(&s[..st], &b[..st]) && same_domain(&s[st..], &b, d), 11)
                }
            }
        }
    }
}

pub fn canonical_localpart() {
    let b = tpl(0);
    if let Ok(e) = Email::parse_slice(&b) {
        let raw = e.raw_localpart().bytes().to_vec();
        if raw.len() == 0 {
            // not an address (C07 reports it)
            return;
        }
        let want = refs::canonical(&raw);
        let have = e.localpart();
        sx::observe_bytes(&have.bytes()[..]);
        if raw[0] == b'"' {
            sx::cover(0);
            if want.len() + 2 < raw.len() {
                sx::cover(1);
            }
        } else {
            sx::cover(2);
        }
        sx::check(eq(&have.bytes()[..], &want), 1);
    } else {
        sx::cover(3);
    }
}

// ---------------------------------------------------------------- C09

fn same_command(a: &Command, b: &Command) -> bool {
    match (a, b) {
        (Command::Mail(x), Command::Mail(y)) => {
            let m = match (&x.from, &y.from) {
                (None, None) => true,
                (Some(p), Some(q)) => same_email(p, q),
                _ => false,
            };
            m && x.params.0.len() == y.params.0.len() && x.params.0.iter().all(|(k, v)| y.params.0.iter().any(|(k2, v2)| k == k2 && v == v2))
        }
        (Command::Rcpt(x), Command::Rcpt(y)) => {
            same_email(&x.to, &y.to)
                && x.params.0.len() == y.params.0.len()
                && x.params.0.iter().all(|(k, v)| y.params.0.iter().any(|(k2, v2)| k == k2 && v == v2))
        }
        (Command::Ehlo(x), Command::Ehlo(y)) => same_held!(x.domain(), y.domain()),
        (Command::Helo(x), Command::Helo(y)) => same_held!(x.domain(), y.domain()),
        _ => {
            kind(a) == kind(b)
                && match (text(a), text(b)) {
                    (None, None) => true,
                    (Some(x), Some(y)) => eq(&x.bytes()[..], &y.bytes()[..]),
                    _ => false,
                }
        }
    }
}

pub fn round_trip() {
    let b = tpl(0);
    let c = match Command::parse(Bytes::from(b)) {
        Ok(c) => c,
        Err(_) => {
            sx::cover(11);
            return;
        }
    };
    sx::cover(kind(&c) as u64);
    let s1 = sent(|w| c.send_to(w));
    sx::check(refs::one_line(&s1), 1);
    let c2 = match Command::parse(Bytes::from(&s1[..])) {
        Ok(c2) => c2,
        Err(_) => {
            sx::check(false, 2);
            return;
        }
    };
    sx::check(same_command(&c, &c2), 3);
    let s2 = sent(|w| c2.send_to(w));
    let np = params_of!(&c).map_or(0, |p| p.len());
    if np > 1 {
        // in any order
        sx::cover(12);
        sx::check(s1.len() == s2.len(), 4);
    } else {
        sx::check(eq(&s1, &s2), 4);
    }
}

// ---------------------------------------------------------------- C10

/// The parts come from: a mailbox spelled by the input, or text spelled by the input.
/// params: which command, then the input.
pub fn build_command() {
    let which = sx::param(0);
    let b = tpl(1);
    // the standard spelling the line must have, and what was put in
    match which {
        // 0/1: MAIL / RCPT with a valid mailbox; 2/3: EHLO / HELO with its domain
        0 | 1 | 2 | 3 => {
            let m = match refs::email(&b, 0) {
                Some(m) if m.end == b.len() => m,
                _ => {
                    sx::cover(0);
                    return;
                }
            };
            let e = match Email::parse_slice(&b) {
                Ok(e) => e,
                Err(_) => return, // C07 reports it
            };
            // the same mailbox from its parts
            let d = e.hostname().clone();
            let e = Email::new(SmtpString::from(&b[m.local.0..m.local.1]), e.hostname().clone());
            if which < 2 {
                let s = sent(|w| e.send_to(w));
                let mut want = if which == 0 { b"MAIL FROM:<".to_vec() } else { b"RCPT TO:<".to_vec() };
                want.extend_from_slice(&s);
                want.extend_from_slice(b">\r\n");
                let null = match Command::parse(Bytes::from_static(b"MAIL FROM:<>\r\n")) {
                    Ok(Command::Mail(c)) => c,
                    _ => {
                        sx::check(false, 2);
                        return;
                    }
                };
                let c = if which == 0 {
                    Command::Mail(MailCommand::new(Some(e), null.params))
                } else {
                    Command::Rcpt(RcptCommand::new(e, null.params))
                };
                let s = sent(|w| c.send_to(w));
                sx::observe_bytes(&s);
                sx::check(eq(&s, &want), 1);
                match Command::parse(Bytes::from(s)) {
                    Ok(Command::Mail(c)) if which == 0 => {
                        sx::cover(1);
                        match &c.from {
                            Some(f) => sx::check(same_mailbox(f, &b, &m), 3),
                            None => sx::check(false, 3),
                        }
                        sx::check(c.params.0.is_empty(), 3);
                    }
                    Ok(Command::Rcpt(c)) if which == 1 => {
                        sx::cover(2);
                        sx::check(same_mailbox(&c.to, &b, &m), 3);
                        sx::check(c.params.0.is_empty(), 3);
                    }
                    _ => sx::check(false, 2),
                }
            } else if let (Some(d), Some((_, _, rd))) = (d, &m.dom) {
                let c = if which == 2 { Command::Ehlo(EhloCommand::new(d)) } else { Command::Helo(HeloCommand::new(d)) };
                let s = sent(|w| c.send_to(w));
                sx::observe_bytes(&s);
                sx::check(eq(&s[..5], if which == 2 { b"EHLO " } else { b"HELO " }), 1);
                sx::check(refs::one_line(&s), 1);
                sx::check(same_domain(&s[5..s.len() - 2], &b, rd), 1);
                match Command::parse(Bytes::from(s)) {
                    Ok(Command::Ehlo(c)) if which == 2 => {
                        sx::cover(3);
                        sx::check(same_domain(&sent(|w| c.domain().send_to(w)), &b, rd), 3);
                    }
                    Ok(Command::Helo(c)) if which == 3 => {
                        sx::cover(4);
                        sx::check(same_domain(&sent(|w| c.domain().send_to(w)), &b, rd), 3);
                    }
                    _ => sx::check(false, 2),
                }
            }
        }
        // 4..8: free text without a CRLF in it, or crossing into the line's own
        4 | 5 | 6 | 7 => {
            let mut line = b.clone();
            line.extend_from_slice(b"\r\n");
            if !refs::one_line(&line) {
                sx::cover(5);
                return;
            }
            let t = SmtpString::from(&b[..]);
            let c = match which {
                4 => Command::Expn(ExpnCommand::new(t)),
                5 => Command::Vrfy(VrfyCommand::new(t)),
                6 => Command::Help(HelpCommand::new(t)),
                _ => Command::Noop(NoopCommand::new(t)),
            };
            let k = kind(&c);
            let s = sent(|w| c.send_to(w));
            sx::observe_bytes(&s);
            let mut want: Vec<u8> = match which {
                4 => b"EXPN ",
                5 => b"VRFY ",
                6 => b"HELP ",
                _ => b"NOOP ",
            }
            .to_vec();
            want.extend_from_slice(&line);
            // an empty optional argument may leave out the blank
            if b.is_empty() && which >= 6 && s.len() == 6 {
                want.remove(4);
            }
            sx::check(eq(&s, &want), 1);
            match Command::parse(Bytes::from(s)) {
                Ok(c) if kind(&c) == k => {
                    sx::cover(6);
                    match text(&c) {
                        Some(x) => sx::check(eq(&x.bytes()[..], &b), 3),
                        None => sx::check(false, 3),
                    }
                }
                _ => sx::check(false, 2),
            }
        }
        // 8: the commands without argument
        8 => {
            for i in 0..3 {
                let (c, w): (Command, &[u8]) = match i {
                    0 => (Command::Data(DataCommand::new()), b"DATA\r\n"),
                    1 => (Command::Quit(QuitCommand::new()), b"QUIT\r\n"),
                    _ => (Command::Rset(RsetCommand::new()), b"RSET\r\n"),
                };
                let k = kind(&c);
                let s = sent(|w| c.send_to(w));
                sx::check(eq(&s, w), 1);
                match Command::parse(Bytes::from(s)) {
                    Ok(c) => sx::check(kind(&c) == k, 2),
                    Err(_) => sx::check(false, 2),
                }
            }
            // the null sender
            if let Ok(Command::Mail(p)) = Command::parse(Bytes::from_static(b"MAIL FROM:<>\r\n")) {
                let c = Command::Mail(MailCommand::new(None, p.params));
                let s = sent(|w| c.send_to(w));
                sx::check(eq(&s, b"MAIL FROM:<>\r\n"), 1);
                match Command::parse(Bytes::from(s)) {
                    Ok(Command::Mail(c)) => sx::check(c.from.is_none() && c.params.0.is_empty(), 3),
                    _ => sx::check(false, 2),
                }
            } else {
                sx::check(false, 2);
            }
            sx::cover(7);
        }
        // 9 / 10: MAIL / RCPT with parameters; the input is  key [=value] separated by one blank
        _ => {
            let mut line = b.clone();
            line.extend_from_slice(b"\r\n");
            let ps = match refs::params(&line, 0, b.len()) {
                Some(p) => p,
                None => {
                    sx::cover(0);
                    return;
                }
            };
            let null = Command::parse(Bytes::from_static(b"MAIL FROM:<>\r\n"));
            let mut params = match null {
                Ok(Command::Mail(c)) => c.params,
                _ => {
                    sx::check(false, 2);
                    return;
                }
            };
            for p in &ps {
                params.0.insert(SmtpString::from(&b[p.key.0..p.key.1]), p.val.map(|(s, e)| SmtpString::from(&b[s..e])));
            }
            let to = match Email::parse_slice(b"a@b") {
                Ok(e) => e,
                Err(_) => return,
            };
            let c = if which == 9 { Command::Mail(MailCommand::new(None, params)) } else { Command::Rcpt(RcptCommand::new(to, params)) };
            let s = sent(|w| c.send_to(w));
            sx::check(refs::one_line(&s), 1);
            match Command::parse(Bytes::from(s)) {
                Ok(c) => {
                    sx::cover(8);
                    if ps.len() > 1 {
                        sx::cover(9);
                    }
                    sx::check(same_params(&c, &b, &ps), 3);
                    match (&c, which) {
                        (Command::Mail(c), 9) => sx::check(c.from.is_none(), 3),
                        (Command::Rcpt(c), 10) => sx::check(eq(&sent(|w| c.to.send_to(w)), b"a@b"), 3),
                        _ => sx::check(false, 2),
                    }
                }
                _ => sx::check(false, 2),
            }
        }
    }
}

// ---------------------------------------------------------------- C11, C12

pub fn reply_build() {
    let t = tpl(0);
    let cb = sx::bytes::<2>();
    let code = cb[0] as u16 | (cb[1] as u16) << 8;
    sx::assume(code < 1000);
    let last = sx::choose(2) == 1;
    let mut ok = t.len() <= 506;
    for c in &t {
        ok &= (*c == 9) | ((*c >= 32) & (*c <= 126));
    }
    let rc = ReplyCode::custom(code);
    sx::check(rc.code() == code, 1);
    let r = ReplyLine::build(rc, if last { IsLastLine::Yes } else { IsLastLine::No }, SmtpString::from(&t[..]));
    sx::observe(r.is_ok() as u64);
    match r {
        Err(_) => {
            sx::cover(0);
            sx::check(!ok, 2);
        }
        Ok(r) => {
            sx::cover(1);
            sx::check(ok, 3);
            let s = sent(|w| r.send_to(w));
            sx::observe_bytes(&s);
            let mut want = vec![
                b'0' + (code / 100) as u8,
                b'0' + (code / 10 % 10) as u8,
                b'0' + (code % 10) as u8,
                if last { b' ' } else { b'-' },
            ];
            want.extend_from_slice(&t);
            want.extend_from_slice(b"\r\n");
            sx::check(eq(&s, &want), 4);
            sx::check(r.byte_len() == s.len() && s.len() <= 512, 5);
            // and the receiver recovers it
            match ReplyLine::parse(Bytes::from(&s[..])) {
                Ok(p) => sx::check(eq(&sent(|w| p.send_to(w)), &s) && p.byte_len() == s.len(), 6),
                Err(_) => sx::check(false, 6),
            }
        }
    }
}

pub fn reply_code_limit() {
    let cb = sx::bytes::<2>();
    let code = cb[0] as u16 | (cb[1] as u16) << 8;
    if code < 1000 {
        sx::cover(2);
        sx::check(ReplyCode::custom(code).code() == code, 1);
    } else {
        sx::cover(3);
        sx::expect_panic(true);
        ReplyCode::custom(code);
    }
}

pub fn reply_parse() {
    let b = tpl(0);
    let want = refs::reply(&b);
    let have = ReplyLine::parse(Bytes::from(&b[..]));
    sx::observe(have.is_ok() as u64);
    match (want, have) {
        (None, Err(_)) => sx::cover(0),
        (None, Ok(_)) => sx::check(false, 1),
        (Some(_), Err(_)) => sx::check(false, 2),
        (Some((_, last, _)), Ok(r)) => {
            sx::cover(1 + last as u64);
            let s = sent(|w| r.send_to(w));
            sx::check(eq(&s, &b), 3);
            sx::check(r.byte_len() == b.len(), 4);
        }
    }
}

// ---------------------------------------------------------------- C13

pub fn string_chunks() {
    // params: chunk size, then the string
    let k = sx::param(0) as usize;
    let b = tpl(1);
    let s = SmtpString::from(&b[..]);
    let mut at = 0;
    let mut n = 0;
    for c in s.byte_chunks(k) {
        let l = c.byte_len();
        sx::observe(l as u64);
        sx::check(l >= 1 && l <= k && at + l <= b.len(), 1);
        sx::check(eq(&c.bytes()[..], &b[at..at + l]), 2);
        at += l;
        n += 1;
        // only the last one may be short
        sx::check(l == k || at == b.len(), 3);
        if l < k {
            sx::cover(0);
        }
    }
    sx::check(at == b.len(), 4);
    if n > 1 {
        sx::cover(1);
    }
    sx::check(eq(&s.bytes()[..], &b), 5);
}

pub fn string_join() {
    let n = sx::param(0) as usize;
    let b = tpl(1);
    let n = n.min(b.len());
    let (x, y) = b.split_at(n);
    // different ways of making the parts
    let mk = |w: u64, v: &[u8]| match w {
        0 => SmtpString::from(v),
        1 => SmtpString::from(v.to_vec()),
        2 => SmtpString::from(Bytes::from(v)),
        // a slice of something longer
        _ => {
            let mut l = b"....".to_vec();
            l.extend_from_slice(v);
            l.extend_from_slice(b"////////////////////////////////////////");
            SmtpString::from(Bytes::from(l).slice(4, 4 + v.len()))
        }
    };
    let a = mk(sx::choose(4), x);
    let c = mk(sx::choose(4), y);
    let keep = if sx::choose(2) == 1 { Some(a.clone()) } else { None };
    let j = a + c;
    sx::observe_bytes(&j.bytes()[..]);
    sx::check(eq(&j.bytes()[..], &b), 1);
    sx::check(j.byte_len() == b.len(), 2);
    let mut k = 0;
    for q in j.iter_bytes() {
        sx::check(k < b.len() && *q == b[k] && j.byte(k) == b[k], 3);
        k += 1;
    }
    sx::check(k == b.len(), 3);
    if let Some(k) = keep {
        sx::cover(0);
        sx::check(eq(&k.bytes()[..], x), 4);
    }
    let s = sent(|w| j.send_to(w));
    sx::check(eq(&s, &b), 5);
    match SmtpString::from_sendable(&j) {
        Ok(z) => sx::check(z == j && eq(&z.bytes()[..], &b), 6),
        Err(_) => sx::check(false, 6),
    }
    if let Ok(st) = std::str::from_utf8(&b) {
        sx::cover(1);
        sx::check(eq(&SmtpString::from(st).bytes()[..], &b), 7);
    }
}

// ---------------------------------------------------------------- C36

/// Takes only part of what it is given, is interrupted, or fails, a bounded number of times
struct Awkward {
    got: Vec<u8>,
    odd: u64,
    broken: bool,
    after: bool,
}
impl std::io::Write for Awkward {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        if self.broken {
            self.after = true;
        }
        let mut n = b.len();
        if self.odd > 0 && n > 0 {
            match sx::choose(6) {
                0 => (),
                k => {
                    self.odd -= 1;
                    match k {
                        1 => n = 1,
                        2 => n -= 1,
                        3 => return Err(Error::from(ErrorKind::Interrupted)),
                        4 => {
                            self.broken = true;
                            return Err(Error::from(ErrorKind::BrokenPipe));
                        }
                        _ => {
                            self.broken = true;
                            return Ok(0);
                        }
                    }
                    // taking nothing is the last case only
                    n = n.max(1);
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn awkward<F: Fn(&mut dyn std::io::Write) -> std::io::Result<()>>(odd: u64, f: F) {
    let whole = sent(&f);
    let mut w = Awkward {
        got: Vec::new(),
        odd,
        broken: false,
        after: false,
    };
    let r = f(&mut w);
    sx::observe(r.is_ok() as u64);
    sx::observe_bytes(&w.got);
    sx::check(!w.after, 1);
    if w.broken {
        sx::cover(0);
        sx::check(r.is_err(), 2);
        sx::check(w.got.len() <= whole.len() && eq(&w.got, &whole[..w.got.len().min(whole.len())]), 3);
    } else {
        sx::cover(1);
        if w.odd < odd {
            sx::cover(2);
        }
        sx::check(r.is_ok(), 4);
        sx::check(eq(&w.got, &whole), 5);
    }
}

/// params: what is written (0 command, 1 reply line, 2 address, 3 string), how often
/// the writer is awkward, then the input
pub fn writers() {
    let odd = sx::param(1);
    let b = tpl(2);
    match sx::param(0) {
        0 => {
            if let Ok(c) = Command::parse(Bytes::from(b)) {
                sx::cover(3 + kind(&c) as u64);
                match &c {
                    Command::Ehlo(e) if sx::choose(2) == 1 => awkward(odd, |w| e.domain().send_to(w)),
                    _ => awkward(odd, |w| c.send_to(w)),
                }
            }
        }
        1 => {
            if let Ok(r) = ReplyLine::parse(Bytes::from(b)) {
                awkward(odd, |w| r.send_to(w));
            }
        }
        2 => {
            if let Ok(e) = Email::parse_slice(&b) {
                awkward(odd, |w| e.send_to(w));
            }
        }
        _ => {
            let s = SmtpString::from(b);
            awkward(odd, |w| s.send_to(w));
        }
    }
}

// ---------------------------------------------------------------- C37

fn trailing<T>(b: &[u8], r: Result<T, ParseError>, parses: fn(&[u8]) -> bool) {
    sx::observe(r.is_ok() as u64);
    match r {
        Ok(_) => sx::cover(0),
        Err(ParseError::DidNotConsumeEverything(n)) => {
            sx::cover(1);
            sx::observe(n as u64);
            sx::check(n > 0 && n <= b.len(), 1);
            sx::check(parses(&b[..b.len() - n]), 2);
        }
        Err(_) => {
            sx::cover(2);
            // the rest of the message is about bytes behind something valid
        }
    }
}

/// params: which parser, then the input
pub fn parse_errors() {
    let b = tpl(1);
    match sx::param(0) {
        0 => trailing(&b, Command::parse(Bytes::from(&b[..])), |b| Command::parse(Bytes::from(b)).is_ok()),
        1 => trailing(&b, ReplyLine::parse(Bytes::from(&b[..])), |b| ReplyLine::parse(Bytes::from(b)).is_ok()),
        _ => trailing(&b, Email::parse_slice(&b), |b| Email::parse_slice(b).is_ok()),
    }
}

/// which byte of a text cannot be sent, or how much too long it is
pub fn build_errors() {
    let t = tpl(0);
    let cb = sx::bytes::<2>();
    let code = cb[0] as u16 | (cb[1] as u16) << 8;
    sx::assume(code < 1000);
    let r = ReplyLine::build(ReplyCode::custom(code), IsLastLine::Yes, SmtpString::from(&t[..]));
    let e = match r {
        Ok(_) => {
            sx::cover(3);
            return;
        }
        Err(e) => e,
    };
    let have = e.to_string();
    sx::observe_bytes(have.as_bytes());
    if t.len() > 506 {
        sx::cover(4);
        let want = format!("Line is too long: {} (max: 506)", t.len());
        sx::check(eq(have.as_bytes(), want.as_bytes()), 3);
    } else {
        sx::cover(5);
        let mut p = 0;
        while p < t.len() && ((t[p] == 9) | ((t[p] >= 32) & (t[p] <= 126))) {
            p += 1;
        }
        sx::check(p < t.len(), 4);
        let c = t[p];
        // the byte, in decimal
        let mut d = Vec::new();
        if c >= 100 {
            d.push(b'0' + c / 100);
        }
        if c >= 10 {
            d.push(b'0' + c / 10 % 10);
        }
        d.push(b'0' + c % 10);
        let mut want = format!("Disallowed byte found at position {}: ", p).into_bytes();
        want.extend_from_slice(&d);
        sx::check(eq(have.as_bytes(), &want), 5);
    }
}
