//! Reference grammar and values, written from the properties (RFC 5321 plus the
//! leniencies the properties grant), independent of the code under test.

pub fn alnum(c: u8) -> bool {
    (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z') | (c >= b'0' && c <= b'9')
}
pub fn atext(c: u8) -> bool {
    // printable, not blank, not one of the RFC 5322 specials
    (c > 32)
        & (c < 127)
        & (c != b'(')
        & (c != b')')
        & (c != b'<')
        & (c != b'>')
        & (c != b'[')
        & (c != b']')
        & (c != b':')
        & (c != b';')
        & (c != b'@')
        & (c != b'\\')
        & (c != b',')
        & (c != b'.')
        & (c != b'"')
}
pub fn blank(c: u8) -> bool {
    (c == b' ') | (c == b'\t')
}
pub fn lower(c: u8) -> u8 {
    if (c >= b'A') & (c <= b'Z') {
        c + 32
    } else {
        c
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RDom {
    Host(usize, usize),
    V4([u8; 4]),
    V6([u16; 8]),
}

#[derive(Clone, Debug)]
pub struct RMail {
    pub local: (usize, usize),
    pub dom: Option<(usize, usize, RDom)>,
    pub end: usize,
}

/// host name at i: end
pub fn host(b: &[u8], i: usize) -> Option<usize> {
    let mut i = label(b, i)?;
    while i < b.len() && b[i] == b'.' {
        match label(b, i + 1) {
            Some(j) => i = j,
            None => break,
        }
    }
    Some(i)
}
fn label(b: &[u8], i: usize) -> Option<usize> {
    if i >= b.len() || !alnum(b[i]) {
        return None;
    }
    let mut j = i + 1;
    while j < b.len() && (alnum(b[j]) | (b[j] == b'-')) {
        j += 1;
    }
    Some(j)
}

pub fn ipv4(b: &[u8]) -> Option<[u8; 4]> {
    let mut r = [0u8; 4];
    let mut i = 0;
    for k in 0..4 {
        if k > 0 {
            if i >= b.len() || b[i] != b'.' {
                return None;
            }
            i += 1;
        }
        let st = i;
        let mut v: u32 = 0;
        while i < b.len() && i - st < 3 && (b[i] >= b'0') & (b[i] <= b'9') {
            v = v * 10 + (b[i] - b'0') as u32;
            i += 1;
        }
        let n = i - st;
        if n == 0 || v > 255 {
            return None;
        }
        // no leading zero
        if n > 1 && b[st] == b'0' {
            return None;
        }
        r[k] = v as u8;
    }
    if i == b.len() {
        Some(r)
    } else {
        None
    }
}

fn hexval(c: u8) -> Option<u16> {
    if (c >= b'0') & (c <= b'9') {
        Some((c - b'0') as u16)
    } else if (c >= b'a') & (c <= b'f') {
        Some((c - b'a') as u16 + 10)
    } else if (c >= b'A') & (c <= b'F') {
        Some((c - b'A') as u16 + 10)
    } else {
        None
    }
}

/// colon-separated 16-bit groups, the last two possibly written as IPv4; None if malformed
fn groups(b: &[u8], v4_allowed: bool) -> Option<Vec<u16>> {
    let mut out = Vec::new();
    if b.is_empty() {
        return Some(out);
    }
    let mut i = 0;
    loop {
        // one group
        let st = i;
        let mut v = 0u16;
        while i < b.len() && i - st < 4 {
            match hexval(b[i]) {
                Some(h) => v = (v << 4) | h,
                None => break,
            }
            i += 1;
        }
        if i < b.len() && b[i] == b'.' && v4_allowed {
            let a = ipv4(&b[st..])?;
            out.push((a[0] as u16) << 8 | a[1] as u16);
            out.push((a[2] as u16) << 8 | a[3] as u16);
            return Some(out);
        }
        if i == st {
            return None;
        }
        out.push(v);
        if i == b.len() {
            return Some(out);
        }
        if b[i] != b':' {
            return None;
        }
        i += 1;
        if out.len() > 8 {
            return None;
        }
    }
}

pub fn ipv6(b: &[u8]) -> Option<[u16; 8]> {
    let mut pos = None;
    for i in 0..b.len().saturating_sub(1) {
        if b[i] == b':' && b[i + 1] == b':' {
            pos = Some(i);
            break;
        }
    }
    let mut r = [0u16; 8];
    match pos {
        None => {
            let g = groups(b, true)?;
            if g.len() != 8 {
                return None;
            }
            for i in 0..8 {
                r[i] = g[i];
            }
        }
        Some(p) => {
            // the part before "::" may not end in an IPv4 address
            let h = groups(&b[..p], false)?;
            let t = groups(&b[p + 2..], true)?;
            if h.len() + t.len() > 7 {
                return None;
            }
            for i in 0..h.len() {
                r[i] = h[i];
            }
            for i in 0..t.len() {
                r[8 - t.len() + i] = t[i];
            }
        }
    }
    Some(r)
}

fn starts(b: &[u8], i: usize, p: &[u8]) -> bool {
    b.len() >= i + p.len() && &b[i..i + p.len()] == p
}
fn starts_nocase(b: &[u8], i: usize, p: &[u8]) -> bool {
    if b.len() < i + p.len() {
        return false;
    }
    let mut ok = true;
    for k in 0..p.len() {
        ok &= lower(b[i + k]) == lower(p[k]);
    }
    ok
}
fn find(b: &[u8], i: usize, c: u8) -> Option<usize> {
    let mut j = i;
    while j < b.len() {
        if b[j] == c {
            return Some(j);
        }
        j += 1;
    }
    None
}

/// domain at i: (end, value)
pub fn domain(b: &[u8], i: usize) -> Option<(usize, RDom)> {
    if i < b.len() && b[i] == b'[' {
        if starts(b, i, b"[IPv6:") {
            let e = find(b, i, b']')?;
            let a = ipv6(&b[i + 6..e])?;
            return Some((e + 1, RDom::V6(a)));
        }
        let e = find(b, i, b']')?;
        let a = ipv4(&b[i + 1..e])?;
        return Some((e + 1, RDom::V4(a)));
    }
    let e = host(b, i)?;
    Some((e, RDom::Host(i, e)))
}

pub fn localpart(b: &[u8], i: usize) -> Option<usize> {
    if i < b.len() && b[i] == b'"' {
        let mut j = i + 1;
        loop {
            if j >= b.len() {
                return None;
            }
            let c = b[j];
            if c == b'"' {
                return Some(j + 1);
            }
            if c == b'\\' {
                if j + 1 >= b.len() || (b[j + 1] < 32) | (b[j + 1] > 126) {
                    return None;
                }
                j += 2;
            } else if (c < 32) | (c > 126) {
                return None;
            } else {
                j += 1;
            }
        }
    }
    let mut j = i;
    loop {
        let st = j;
        while j < b.len() && atext(b[j]) {
            j += 1;
        }
        if j == st {
            // an atom is missing: the dot before it is not part of the local part
            return if st == i { None } else { Some(st - 1) };
        }
        if j < b.len() && b[j] == b'.' {
            j += 1;
        } else {
            return Some(j);
        }
    }
}

pub fn email(b: &[u8], i: usize) -> Option<RMail> {
    let l = localpart(b, i)?;
    if l < b.len() && b[l] == b'@' {
        if let Some((e, d)) = domain(b, l + 1) {
            return Some(RMail {
                local: (i, l),
                dom: Some((l + 1, e, d)),
                end: e,
            });
        }
    }
    Some(RMail {
        local: (i, l),
        dom: None,
        end: l,
    })
}

/// optional source route ending in ':'
fn route(b: &[u8], i: usize) -> usize {
    let mut j = i;
    if j < b.len() && b[j] == b'@' {
        loop {
            // at '@'
            match domain(b, j + 1) {
                None => return i,
                Some((e, _)) => j = e,
            }
            if j + 1 < b.len() && b[j] == b',' && b[j + 1] == b'@' {
                j += 1;
            } else {
                break;
            }
        }
    }
    if j < b.len() && b[j] == b':' {
        j + 1
    } else {
        i
    }
}

pub fn path(b: &[u8], i: usize) -> Option<RMail> {
    if i < b.len() && b[i] == b'<' {
        let mut m = email(b, route(b, i + 1))?;
        if m.end < b.len() && b[m.end] == b'>' {
            m.end += 1;
            return Some(m);
        }
        return None;
    }
    email(b, route(b, i))
}

#[derive(Clone, Debug)]
pub struct RParam {
    pub key: (usize, usize),
    pub val: Option<(usize, usize)>,
}

/// parameters from i up to the end of line: the line is b[..n] with b[n..] the CRLF
pub fn params(b: &[u8], i: usize, n: usize) -> Option<Vec<RParam>> {
    let mut out = Vec::new();
    let mut j = i;
    loop {
        if j == n {
            return Some(out);
        }
        // at least one blank
        if !blank(b[j]) {
            return None;
        }
        while j < n && blank(b[j]) {
            j += 1;
        }
        if j == n {
            return Some(out);
        }
        if !alnum(b[j]) {
            return None;
        }
        let ks = j;
        while j < n && (alnum(b[j]) | (b[j] == b'-')) {
            j += 1;
        }
        let ke = j;
        let mut val = None;
        if j < n && b[j] == b'=' {
            j += 1;
            let vs = j;
            while j < n && (b[j] > 32) & (b[j] < 127) & (b[j] != b'=') {
                j += 1;
            }
            if j == vs {
                return None;
            }
            val = Some((vs, j));
        }
        out.push(RParam {
            key: (ks, ke),
            val,
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Data,
    Ehlo,
    Expn,
    Helo,
    Help,
    Mail,
    Noop,
    Quit,
    Rcpt,
    Rset,
    Vrfy,
}

#[derive(Clone, Debug)]
pub struct RCmd {
    pub kind: Kind,
    pub text: Option<(usize, usize)>,
    pub dom: Option<(usize, usize, RDom)>,
    pub mail: Option<RMail>,
    pub params: Vec<RParam>,
}

/// exactly one CRLF, at the very end
pub fn one_line(b: &[u8]) -> bool {
    let mut k = 0;
    while k + 1 < b.len() {
        if b[k] == b'\r' && b[k + 1] == b'\n' {
            return k + 2 == b.len();
        }
        k += 1;
    }
    false
}

/// the verb the bytes start with (blanks before EHLO and HELO are tolerated)
pub fn verb(b: &[u8]) -> Option<Kind> {
    let mut lead = 0;
    while lead < b.len() && blank(b[lead]) {
        lead += 1;
    }
    for (v, kind) in &[(&b"EHLO"[..], Kind::Ehlo), (b"HELO", Kind::Helo)] {
        if starts_nocase(b, lead, v) {
            return Some(*kind);
        }
    }
    if lead > 0 {
        return None;
    }
    for (v, kind) in &[
        (&b"DATA"[..], Kind::Data),
        (b"QUIT", Kind::Quit),
        (b"RSET", Kind::Rset),
        (b"EXPN", Kind::Expn),
        (b"VRFY", Kind::Vrfy),
        (b"HELP", Kind::Help),
        (b"NOOP", Kind::Noop),
        (b"MAIL FROM:", Kind::Mail),
        (b"RCPT TO:", Kind::Rcpt),
    ] {
        if starts_nocase(b, 0, v) {
            return Some(*kind);
        }
    }
    None
}

/// The command a line denotes, or None if the bytes are not a valid command.
pub fn command(b: &[u8]) -> Option<RCmd> {
    let total = b.len();
    if total < 2 {
        return None;
    }
    if !one_line(b) {
        return None;
    }
    let n = total - 2;
    let simple = |kind| RCmd {
        kind,
        text: None,
        dom: None,
        mail: None,
        params: Vec::new(),
    };
    // blanks before EHLO / HELO are tolerated
    let mut lead = 0;
    while lead < n && blank(b[lead]) {
        lead += 1;
    }
    for (v, kind) in &[(&b"EHLO"[..], Kind::Ehlo), (b"HELO", Kind::Helo)] {
        if starts_nocase(&b[..n], lead, v) {
            let mut j = lead + 4;
            while j < n && blank(b[j]) {
                j += 1;
            }
            let (e, d) = domain(&b[..n], j)?;
            let mut t = e;
            while t < n && blank(b[t]) {
                t += 1;
            }
            if t != n {
                return None;
            }
            let mut c = simple(*kind);
            c.dom = Some((j, e, d));
            return Some(c);
        }
    }
    if lead > 0 {
        return None;
    }
    for (v, kind) in &[(&b"DATA"[..], Kind::Data), (b"QUIT", Kind::Quit), (b"RSET", Kind::Rset)] {
        if starts_nocase(&b[..n], 0, v) {
            for j in 4..n {
                if !blank(b[j]) {
                    return None;
                }
            }
            return Some(simple(*kind));
        }
    }
    for (v, kind) in &[(&b"EXPN"[..], Kind::Expn), (b"VRFY", Kind::Vrfy)] {
        if starts_nocase(&b[..n], 0, v) {
            if n > 4 && blank(b[4]) {
                let mut c = simple(*kind);
                c.text = Some((5, n));
                return Some(c);
            }
            return None;
        }
    }
    for (v, kind) in &[(&b"HELP"[..], Kind::Help), (b"NOOP", Kind::Noop)] {
        if starts_nocase(&b[..n], 0, v) {
            let mut c = simple(*kind);
            // HELPfoo is tolerated
            let s = if n > 4 && blank(b[4]) { 5 } else { 4 };
            c.text = Some((s, n));
            return Some(c);
        }
    }
    for (v, kind) in &[(&b"MAIL FROM:"[..], Kind::Mail), (b"RCPT TO:", Kind::Rcpt)] {
        if starts_nocase(&b[..n], 0, v) {
            let mut j = v.len();
            while j < n && blank(b[j]) {
                j += 1;
            }
            let mut c = simple(*kind);
            let e;
            if *kind == Kind::Mail && starts(&b[..n], j, b"<>") {
                e = j + 2;
            } else {
                let m = path(&b[..n], j)?;
                e = m.end;
                c.mail = Some(m);
            }
            c.params = params(b, e, n)?;
            return Some(c);
        }
    }
    None
}

/// bytes between the quotes, escapes replaced
pub fn canonical(local: &[u8]) -> Vec<u8> {
    if local[0] != b'"' {
        return local.to_vec();
    }
    let mut out = Vec::new();
    let mut i = 1;
    while i + 1 < local.len() {
        if local[i] == b'\\' {
            i += 1;
        }
        out.push(local[i]);
        i += 1;
    }
    out
}

/// (code, last, text range)
pub fn reply(b: &[u8]) -> Option<(u16, bool, (usize, usize))> {
    if b.len() < 6 {
        return None;
    }
    let mut code = 0u16;
    for k in 0..3 {
        if (b[k] < b'0') | (b[k] > b'9') {
            return None;
        }
        code = code * 10 + (b[k] - b'0') as u16;
    }
    if (b[3] != b' ') & (b[3] != b'-') {
        return None;
    }
    let last = b[3] == b' ';
    let mut k = 4;
    while k + 1 < b.len() {
        if b[k] == b'\r' && b[k + 1] == b'\n' {
            if k + 2 == b.len() {
                return Some((code, last, (4, k)));
            }
            return None;
        }
        k += 1;
    }
    None
}

/// dot-stuffed form of a message, with the terminator
pub fn stuff(m: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for i in 0..m.len() {
        if m[i] == b'.' && (i == 0 || (i >= 2 && m[i - 2] == b'\r' && m[i - 1] == b'\n')) {
            o.push(b'.');
        }
        o.push(m[i]);
    }
    if !m.is_empty() && !(m.len() >= 2 && m[m.len() - 2] == b'\r' && m[m.len() - 1] == b'\n') {
        o.extend_from_slice(b"\r\n");
    }
    o.extend_from_slice(b".\r\n");
    o
}

/// (delivered data, Some(bytes consumed including the mark) if the mark occurs)
pub fn unstuff(s: &[u8]) -> (Vec<u8>, Option<usize>) {
    let mut o = Vec::new();
    let mut i = 0;
    let mut start = true; // at the start of a line
    while i < s.len() {
        if start && s[i] == b'.' {
            if i + 2 < s.len() && s[i + 1] == b'\r' && s[i + 2] == b'\n' {
                return (o, Some(i + 3));
            }
            // the dot is dropped
            i += 1;
            start = false;
            continue;
        }
        o.push(s[i]);
        start = i >= 1 && s[i] == b'\n' && s[i - 1] == b'\r';
        i += 1;
    }
    (o, None)
}

/// What has certainly been delivered by an unfinished message, whatever follows:
/// a dot that starts a line may still turn out to be part of the mark.
pub fn unstuff_sure(s: &[u8]) -> Vec<u8> {
    let (mut o, _) = unstuff(s);
    let n = s.len();
    let starts = |i: usize| i == 0 || (i >= 2 && s[i - 2] == b'\r' && s[i - 1] == b'\n');
    if n >= 2 && s[n - 1] == b'\r' && s[n - 2] == b'.' && starts(n - 2) {
        o.pop();
    }
    o
}
