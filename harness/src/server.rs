//! Whole sessions of the server against a reference session (C19 - C29).
//!
//! The client's bytes, how they are cut, when anything is "not ready", what the
//! filters decide and where writing fails are all inputs.  The real session
//! function runs first; the reference session, which sees only the client's bytes
//! and the decisions taken, then says what had to happen.
use crate::io::*;
use crate::msg::eq;
use crate::refs::{self, Kind};
use crate::sx;
use bytes::BytesMut;
use futures::StreamExt as _;
use futures::{Future, Stream};
use smtp_message::*;
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;

const LOST: u32 = 99;
type Bin = Vec<u8>;

#[derive(Clone)]
pub enum Verdict {
    Accept,
    Reject(u16, Bin),
}

#[derive(Clone)]
pub struct Event {
    pub what: What,
    pub verdict: Verdict,
    /// what the filter changed
    pub change: u64,
    /// the connection's own data: as the filter found it and as it left it
    pub user: (u32, u32),
}

#[derive(Clone)]
pub enum What {
    New,
    From(Option<Bin>),
    To(Bin, Option<Bin>, Vec<Bin>),
    Data(Option<Bin>, Vec<Bin>),
    Mail(Option<Bin>, Vec<Bin>, Bin, bool),
}

fn same_mails(a: &[Bin], b: &[Bin]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y))
}
fn same_from(a: &Option<Bin>, b: &Option<Bin>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}

/// what the driver fixes for a run
#[derive(Clone, Copy)]
pub struct Setup {
    pub prop: u64,
    pub cuts: u64,
    pub lo: usize,
    pub hi: usize,
    pub delays: u64,
    /// 0: every reply text configured on its own, 1: only the general ones, 2: all defaults
    pub texts: u64,
    /// 0: accept everything, 1: any decision, 2: any decision with any code and text
    pub decisions: u64,
    /// length of refusal texts when decisions is 2, or of the configured texts for C26
    pub tlen: usize,
    /// filters may change what they are given
    pub changes: u64,
    /// writing may fail, at any of this many first operations
    pub fail: u64,
    /// the client's stream may end this many bytes early (any number up to it)
    pub trunc: u64,
    /// number of lines picked from the list that follows; 0: the list in order
    pub picks: u64,
}
pub const SETUP_WORDS: u64 = 12;

fn setup() -> Setup {
    Setup {
        prop: sx::param(0),
        cuts: sx::param(1),
        lo: sx::param(2) as usize,
        hi: sx::param(3) as usize,
        delays: sx::param(4),
        texts: sx::param(5),
        decisions: sx::param(6),
        tlen: sx::param(7) as usize,
        changes: sx::param(8),
        fail: sx::param(9),
        trunc: sx::param(10),
        picks: sx::param(11),
    }
}

/// the client's bytes
fn script(s: &Setup) -> Bin {
    let n = sx::param(SETUP_WORDS);
    let mut at = Vec::new();
    let mut p = SETUP_WORDS + 1;
    for _ in 0..n {
        at.push(p);
        p += 1 + (sx::param(p) + 7) / 8;
    }
    let mut b = Vec::new();
    if s.picks == 0 {
        for p in at {
            b.extend_from_slice(&crate::msg::tpl(p));
        }
    } else {
        for _ in 0..s.picks {
            let c = sx::choose(n) as usize;
            b.extend_from_slice(&crate::msg::tpl(at[c]));
        }
    }
    if s.trunc > 0 {
        let m = s.trunc.min(b.len() as u64);
        let t = sx::choose(m + 1) as usize;
        let l = b.len() - t;
        b.truncate(l);
    }
    b
}

// ------------------------------------------------------------ configuration

fn ser(e: &Email) -> Bin {
    let mut v = Vec::new();
    let r = e.send_to(&mut v);
    sx::check(r.is_ok(), 90);
    v
}
fn ser_from(e: &Option<Email>) -> Option<Bin> {
    e.as_ref().map(ser)
}

pub struct Log {
    pub events: Vec<Event>,
}

pub struct Cfg {
    pub s: Setup,
    pub log: Rc<RefCell<Log>>,
    pub delays: Delays,
    /// decisions to repeat instead of choosing
    pub repeat: Option<Vec<Event>>,
    pub text: Texts,
}
unsafe impl Send for Cfg {}

/// a future that is allowed to be sent: nothing here crosses a thread
struct Anyway<F>(F);
unsafe impl<F> Send for Anyway<F> {}
impl<F: Future> Future for Anyway<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

fn printable(n: usize) -> Bin {
    let v = sx::vec(n);
    for c in &v {
        sx::assume((*c == 9) | ((*c >= 32) & (*c <= 126)));
    }
    v
}

/// `n` free bytes; where there are more than `free`, just the first, the last and those
/// around the 506 limits are
pub fn long_text(n: usize, free: usize) -> Bin {
    if n <= free {
        return printable(n);
    }
    let mut v = vec![b'x'; n];
    let mut at = vec![0, n - 1];
    for m in 1..=n / 506 {
        for d in 0..2 {
            let p = m * 506 + d;
            if p >= 1 && p - 1 < n - 1 && p - 1 > 0 {
                at.push(p - 1);
            }
        }
    }
    at.sort();
    at.dedup();
    let f = printable(at.len());
    for i in 0..at.len() {
        v[at[i]] = f[i];
    }
    v
}

impl Cfg {
    fn decide(&mut self, what: What, nchanges: u64, user: &mut u32) -> (Verdict, u64) {
        let i = self.log.borrow().events.len();
        let found = *user;
        if self.s.prop == 33 {
            // anything at all, what it was included
            let b = sx::bytes::<2>();
            *user = b[0] as u32 | (b[1] as u32) << 8;
        } else {
            *user += 1 + i as u32;
        }
        let (verdict, change) = match &self.repeat {
            Some(r) => match r.get(i) {
                Some(e) => (e.verdict.clone(), e.change),
                None => (Verdict::Accept, 0),
            },
            None => {
                let v = match self.s.decisions {
                    0 => Verdict::Accept,
                    d => {
                        if sx::choose(2) == 0 {
                            Verdict::Accept
                        } else if d == 1 {
                            Verdict::Reject(550 + (i % 40) as u16, vec![b'n', b'o', b'0' + i as u8])
                        } else {
                            let b = sx::bytes::<2>();
                            let code = b[0] as u16 | (b[1] as u16) << 8;
                            sx::assume(code < 1000);
                            Verdict::Reject(code, long_text(self.s.tlen, 250))
                        }
                    }
                };
                let c = if self.s.changes > 0 && nchanges > 1 { sx::choose(nchanges) } else { 0 };
                (v, c)
            }
        };
        self.log.borrow_mut().events.push(Event {
            what,
            verdict: verdict.clone(),
            change,
            user: (found, *user),
        });
        (verdict, change)
    }
}

fn decision(v: Verdict) -> Decision {
    match v {
        Verdict::Accept => Decision::Accept,
        Verdict::Reject(c, t) => Decision::Reject(Refusal {
            code: ReplyCode::custom(c),
            msg: SmtpString::from(t),
        }),
    }
}

fn mailbox(b: &[u8]) -> Email {
    Email::new(SmtpString::from(b), None)
}

/// what the replies of a run are made of
#[derive(Clone)]
pub struct Texts {
    pub long: Bin,
    pub host: Bin,
    pub banner: Bin,
    /// which replies are configured (texts 4): 0 not decided, 1 not, 2 on its own
    pub mix: Rc<RefCell<[u8; 16]>>,
}
impl Texts {
    fn new() -> Texts {
        Texts {
            long: Vec::new(),
            host: b"h".to_vec(),
            banner: b"w".to_vec(),
            mix: Rc::new(RefCell::new([0; 16])),
        }
    }
    /// whether reply (or group of replies) `i` is configured
    fn has(&self, i: usize) -> bool {
        let mut m = self.mix.borrow_mut();
        if m[i] == 0 {
            m[i] = 1 + sx::choose(2) as u8;
        }
        m[i] == 2
    }
}

/// which of the ways of configuring (0 to 2) counts for this reply
fn way(s: &Setup, t: &Texts, what: Reply) -> u64 {
    if s.texts != 4 {
        return s.texts.min(2);
    }
    let group = match what {
        Reply::MailOkay | Reply::RcptOkay | Reply::Accepted => 11,
        Reply::AlreadyInMail | Reply::RcptBeforeMail | Reply::DataBeforeRcpt | Reply::DataBeforeMail => 12,
        _ => 13,
    };
    if t.has(what as usize) {
        0
    } else if group < 13 && t.has(group) {
        1
    } else {
        2
    }
}

/// the configured replies: (code, text)
fn text_of(s: &Setup, t: &Texts, what: Reply) -> (u16, Bin) {
    if s.prop == 26 {
        // every reply has the long text
        let code = match what {
            Reply::Greeting => 220,
            Reply::DataOkay => 354,
            Reply::MailOkay | Reply::RcptOkay | Reply::Accepted => 250,
            Reply::Unimplemented => 502,
            Reply::Unrecognized => 500,
            _ => 503,
        };
        return (code, t.long.clone());
    }
    let w = way(s, t, what);
    let own: (u16, &[u8]) = match what {
        Reply::Greeting => {
            if w == 0 {
                return (220, b"h w".to_vec());
            }
            let mut v = t.host.clone();
            v.push(b' ');
            if s.texts == 1 || s.texts == 3 || (s.texts == 4 && t.has(13)) {
                v.extend_from_slice(&t.banner);
            } else {
                v.extend_from_slice(b"Service ready");
            }
            return (220, v);
        }
        Reply::MailOkay => (251, b"mo"),
        Reply::RcptOkay => (252, b"ro"),
        Reply::DataOkay => (354, b"do"),
        Reply::Accepted => (253, b"ac"),
        Reply::AlreadyInMail => (431, b"am"),
        Reply::RcptBeforeMail => (432, b"rm"),
        Reply::DataBeforeRcpt => (433, b"dr"),
        Reply::DataBeforeMail => (434, b"dm"),
        Reply::Unimplemented => (435, b"un"),
        Reply::Unrecognized => (436, b"ur"),
    };
    let (c, x): (u16, &[u8]) = match w {
        0 => own,
        1 => match what {
            Reply::MailOkay | Reply::RcptOkay | Reply::Accepted => (254, b"ok"),
            Reply::AlreadyInMail | Reply::RcptBeforeMail | Reply::DataBeforeRcpt | Reply::DataBeforeMail => (437, b"bs"),
            _ => own,
        },
        _ => match what {
            Reply::MailOkay | Reply::RcptOkay | Reply::Accepted => (250, b"Okay"),
            Reply::AlreadyInMail | Reply::RcptBeforeMail | Reply::DataBeforeRcpt | Reply::DataBeforeMail => {
                (503, b"Bad sequence of commands")
            }
            Reply::DataOkay => (354, b"Start mail input; end with <CRLF>.<CRLF>"),
            Reply::Unimplemented => (502, b"Command not implemented"),
            Reply::Unrecognized => (500, b"Command not recognized"),
            Reply::Greeting => own,
        },
    };
    (c, x.to_vec())
}

#[derive(Clone, Copy, PartialEq)]
enum Reply {
    Greeting,
    MailOkay,
    RcptOkay,
    DataOkay,
    Accepted,
    AlreadyInMail,
    RcptBeforeMail,
    DataBeforeRcpt,
    DataBeforeMail,
    Unimplemented,
    Unrecognized,
}

impl Cfg {
    /// what happens at DATA if the configuration says nothing about it
    async fn no_hook(&mut self, meta: &mut MailMetadata, conn: &mut ConnectionMetadata<u32>) -> Decision {
        let (from, to, user) = (ser_from(&meta.from), meta.to.iter().map(ser).collect::<Vec<_>>(), conn.user);
        let d = NoHooks.filter_data(meta, conn).await;
        let accepted = match d {
            Decision::Accept => true,
            Decision::Reject(_) => false,
        };
        sx::check(accepted, 60);
        sx::check(from == ser_from(&meta.from) && to == meta.to.iter().map(ser).collect::<Vec<_>>() && user == conn.user, 61);
        self.log.borrow_mut().events.push(Event {
            what: What::Data(from, to),
            verdict: Verdict::Accept,
            change: 0,
            user: (user, user),
        });
        d
    }
}

macro_rules! filters {
    () => {
        fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> {
            Box::pin(Anyway(async move {
                if self.s.texts == 5 {
                    NoHooks.new_mail().await;
                }
                Pause(self.delays.clone()).await;
                self.log.borrow_mut().events.push(Event {
                    what: What::New,
                    verdict: Verdict::Accept,
                    change: 0,
                    user: (0, 0),
                });
            }))
        }

        fn filter_from<'a>(
            &'a mut self,
            from: &'a mut Option<Email>,
            conn: &'a mut ConnectionMetadata<u32>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(Anyway(async move {
                Pause(self.delays.clone()).await;
                let (v, c) = self.decide(What::From(ser_from(from)), 3, &mut conn.user);
                match c {
                    1 => *from = None,
                    2 => *from = Some(mailbox(b"zf")),
                    _ => (),
                }
                decision(v)
            }))
        }

        fn filter_to<'a>(
            &'a mut self,
            to: &'a mut Email,
            meta: &'a mut MailMetadata,
            conn: &'a mut ConnectionMetadata<u32>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(Anyway(async move {
                Pause(self.delays.clone()).await;
                let (v, c) = self.decide(
                    What::To(ser(to), ser_from(&meta.from), meta.to.iter().map(ser).collect()),
                    3,
                    &mut conn.user,
                );
                match c {
                    1 => *to = mailbox(b"zt"),
                    2 => meta.to.push(mailbox(b"zu")),
                    _ => (),
                }
                decision(v)
            }))
        }

        fn filter_data<'a>(
            &'a mut self,
            meta: &'a mut MailMetadata,
            conn: &'a mut ConnectionMetadata<u32>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            Box::pin(Anyway(async move {
                if self.s.texts == 5 {
                    return self.no_hook(meta, conn).await;
                }
                Pause(self.delays.clone()).await;
                let (v, c) = self.decide(
                    What::Data(ser_from(&meta.from), meta.to.iter().map(ser).collect()),
                    3,
                    &mut conn.user,
                );
                match c {
                    1 => meta.from = Some(mailbox(b"zg")),
                    2 => meta.to.push(mailbox(b"zd")),
                    _ => (),
                }
                decision(v)
            }))
        }

        fn handle_mail<'a, S>(
            &'a mut self,
            stream: &'a mut DataStream<S>,
            meta: MailMetadata,
            conn: &'a mut ConnectionMetadata<u32>,
        ) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            Box::pin(async move {
                Pause(self.delays.clone()).await;
                let mut got = Vec::new();
                while let Some(p) = stream.next().await {
                    got.extend_from_slice(&p);
                }
                let ok = stream.complete().is_ok();
                Pause(self.delays.clone()).await;
                let (v, _) = self.decide(
                    What::Mail(ser_from(&meta.from), meta.to.iter().map(ser).collect(), got, ok),
                    1,
                    &mut conn.user,
                );
                decision(v)
            })
        }

        fn hostname(&self) -> SmtpString {
            SmtpString::from(&self.text.host[..])
        }
    };
}

fn conf(c: &Cfg, r: Reply) -> (ReplyCode, SmtpString) {
    let (c, t) = text_of(&c.s, &c.text, r);
    (ReplyCode::custom(c), SmtpString::from(t))
}

/// every reply configured on its own
pub struct Own(Cfg);
/// only the general replies configured
pub struct General(Cfg);
/// nothing configured
pub struct Defaults(Cfg);
/// only the second half of the greeting configured
pub struct Named(Cfg);
/// each of them configured or not
pub struct Mixed(Cfg);
macro_rules! deref {
    ($t:ident) => {
        impl std::ops::Deref for $t {
            type Target = Cfg;
            fn deref(&self) -> &Cfg {
                &self.0
            }
        }
        impl std::ops::DerefMut for $t {
            fn deref_mut(&mut self) -> &mut Cfg {
                &mut self.0
            }
        }
    };
}
deref!(Own);
deref!(General);
deref!(Defaults);
deref!(Named);
deref!(Mixed);

impl Config<u32> for Own {
    filters!();
    fn banner(&self) -> SmtpString {
        SmtpString::from_static(b"w")
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Greeting)
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::MailOkay)
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::RcptOkay)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::DataOkay)
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Accepted)
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::AlreadyInMail)
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::RcptBeforeMail)
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::DataBeforeRcpt)
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::DataBeforeMail)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Unimplemented)
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Unrecognized)
    }
}

impl Config<u32> for General {
    filters!();
    fn banner(&self) -> SmtpString {
        SmtpString::from(&self.text.banner[..])
    }
    fn okay(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::MailOkay)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::DataOkay)
    }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::AlreadyInMail)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Unimplemented)
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        conf(self, Reply::Unrecognized)
    }
}

impl Config<u32> for Defaults {
    filters!();
}

impl Config<u32> for Named {
    filters!();
    fn banner(&self) -> SmtpString {
        SmtpString::from(&self.text.banner[..])
    }
}

macro_rules! nofilters {
    (@) => {
        fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<u32>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            panic!("not the filter of the configuration")
        }
        fn filter_to<'a>(
            &'a mut self,
            _: &'a mut Email,
            _: &'a mut MailMetadata,
            _: &'a mut ConnectionMetadata<u32>,
        ) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
            panic!("not the filter of the configuration")
        }
        fn handle_mail<'a, S>(&'a mut self, _: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<u32>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            panic!("not the handler of the configuration")
        }
    };
    () => {
        nofilters!(@);
        fn hostname(&self) -> SmtpString {
            self.0.hostname()
        }
    };
    ($h:expr) => {
        nofilters!(@);
        fn hostname(&self) -> SmtpString {
            SmtpString::from_static($h)
        }
    };
}
/// no more defined than must be
struct NoHooks;
impl Config<u32> for NoHooks {
    nofilters!(b"");
}
macro_rules! with_banner {
    () => {
        fn banner(&self) -> SmtpString {
            self.0.banner()
        }
    };
}
macro_rules! no_banner {
    () => {};
}
/// a configuration that sets everything as `Mixed` has it, but one thing
macro_rules! shim {
    ($n:ident, $banner:ident: $($f:ident)*) => {
        struct $n<'a>(&'a Mixed);
        impl<'b> Config<u32> for $n<'b> {
            nofilters!();
            $banner!();
            $(fn $f(&self) -> (ReplyCode, SmtpString) {
                self.0.$f()
            })*
        }
    };
}
shim!(NoWelcomeBanner, with_banner: okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoOkay, with_banner: welcome_banner mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoMailOkay, with_banner: welcome_banner okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoRcptOkay, with_banner: welcome_banner okay mail_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoDataOkay, with_banner: welcome_banner okay mail_okay rcpt_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoMailAccepted, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoBadSequence, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoAlreadyInMail, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoRcptBeforeMail, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
shim!(NoDataBeforeRcpt, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_mail command_unimplemented command_unrecognized);
shim!(NoDataBeforeMail, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt command_unimplemented command_unrecognized);
shim!(NoCommandUnimplemented, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unrecognized);
shim!(NoCommandUnrecognized, with_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented);
shim!(NoBanner, no_banner: welcome_banner okay mail_okay rcpt_okay data_okay mail_accepted bad_sequence already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized);
macro_rules! mixed {
    ($($f:ident $i:expr, $o:expr, $n:ident;)*) => {
        impl Config<u32> for Mixed {
            filters!();
            fn banner(&self) -> SmtpString {
                if self.text.has(13) {
                    SmtpString::from(&self.text.banner[..])
                } else {
                    NoBanner(self).banner()
                }
            }
            $(fn $f(&self) -> (ReplyCode, SmtpString) {
                if self.text.has($i as usize) {
                    let (c, t) = $o(self);
                    (ReplyCode::custom(c), SmtpString::from(t))
                } else {
                    $n(self).$f()
                }
            })*
        }
    };
}
fn own(r: Reply) -> impl Fn(&Mixed) -> (u16, Bin) {
    move |m| text_of(&Setup { texts: 0, ..m.s }, &m.text, r)
}
fn general(r: Reply) -> impl Fn(&Mixed) -> (u16, Bin) {
    move |m| text_of(&Setup { texts: 1, ..m.s }, &m.text, r)
}
mixed! {
    welcome_banner Reply::Greeting, own(Reply::Greeting), NoWelcomeBanner;
    okay 11, general(Reply::MailOkay), NoOkay;
    mail_okay Reply::MailOkay, own(Reply::MailOkay), NoMailOkay;
    rcpt_okay Reply::RcptOkay, own(Reply::RcptOkay), NoRcptOkay;
    data_okay Reply::DataOkay, own(Reply::DataOkay), NoDataOkay;
    mail_accepted Reply::Accepted, own(Reply::Accepted), NoMailAccepted;
    bad_sequence 12, general(Reply::AlreadyInMail), NoBadSequence;
    already_in_mail Reply::AlreadyInMail, own(Reply::AlreadyInMail), NoAlreadyInMail;
    rcpt_before_mail Reply::RcptBeforeMail, own(Reply::RcptBeforeMail), NoRcptBeforeMail;
    data_before_rcpt Reply::DataBeforeRcpt, own(Reply::DataBeforeRcpt), NoDataBeforeRcpt;
    data_before_mail Reply::DataBeforeMail, own(Reply::DataBeforeMail), NoDataBeforeMail;
    command_unimplemented Reply::Unimplemented, own(Reply::Unimplemented), NoCommandUnimplemented;
    command_unrecognized Reply::Unrecognized, own(Reply::Unrecognized), NoCommandUnrecognized;
}

// ------------------------------------------------------------ running the real thing

/// (bytes delivered to the session, bytes it had written, all of them flushed)
type Wait = (usize, usize, bool);

pub struct Run {
    pub result: Result<(), ()>,
    pub written: Bin,
    pub unflushed: bool,
    pub broken_protocol: bool,
    pub events: Vec<Event>,
    /// what the connection's own data started as
    pub start: u32,
    pub ended: u64,
    pub waits: Vec<Wait>,
    pub failed: bool,
    /// events and bytes when writing failed
    pub at_failure: (usize, usize),
}

struct Client {
    items: std::collections::VecDeque<BytesMut>,
    delivered: usize,
    delays: Delays,
    ended: Rc<Cell<u64>>,
    w: Rc<RefCell<Written>>,
    waits: Rc<RefCell<Vec<Wait>>>,
}
unsafe impl Send for Client {}
impl Stream for Client {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<BytesMut>> {
        use std::task::Poll;
        if self.delays.now(cx) {
            let w = self.w.borrow();
            self.waits.borrow_mut().push((self.delivered, w.bytes.len(), !w.unflushed));
            return Poll::Pending;
        }
        match self.items.pop_front() {
            Some(p) => {
                self.delivered += p.len();
                Poll::Ready(Some(p))
            }
            None => {
                self.ended.set(self.ended.get() + 1);
                Poll::Ready(None)
            }
        }
    }
}

/// notes how far things had come when writing failed
struct Watched {
    out: Out,
    log: Rc<RefCell<Log>>,
    at: Rc<Cell<(usize, usize)>>,
}
impl Watched {
    fn note<T>(&self, r: &std::task::Poll<Result<T, ()>>) {
        if let std::task::Poll::Ready(Err(_)) = r {
            self.at.set((self.log.borrow().events.len(), self.out.w.borrow().bytes.len()));
        }
    }
}
impl futures::Sink<bytes::Bytes> for Watched {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Result<(), ()>> {
        let r = Pin::new(&mut self.out).poll_ready(cx);
        self.note(&r);
        r
    }
    fn start_send(mut self: Pin<&mut Self>, item: bytes::Bytes) -> Result<(), ()> {
        let r = Pin::new(&mut self.out).start_send(item);
        self.note(&std::task::Poll::Ready(r));
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Result<(), ()>> {
        let r = Pin::new(&mut self.out).poll_flush(cx);
        self.note(&r);
        r
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Result<(), ()>> {
        let r = Pin::new(&mut self.out).poll_close(cx);
        self.note(&r);
        r
    }
}

pub fn run(s: &Setup, packets: Vec<BytesMut>, delays: u64, repeat: Option<Vec<Event>>, text: &Texts) -> Run {
    let d = Delays::new(delays);
    let out = Out::new(&d);
    let w = out.w.clone();
    let ended = Rc::new(Cell::new(0));
    let waits = Rc::new(RefCell::new(Vec::new()));
    let log = Rc::new(RefCell::new(Log { events: Vec::new() }));
    let at = Rc::new(Cell::new((0, 0)));
    if s.fail > 0 {
        let f = sx::choose(s.fail + 1);
        if f > 0 {
            w.borrow_mut().fail_at = Some(f - 1);
        }
    }
    let client = Client {
        items: packets.into(),
        delivered: 0,
        delays: d.clone(),
        ended: ended.clone(),
        w: w.clone(),
        waits: waits.clone(),
    };
    let mut sink = Watched {
        out,
        log: log.clone(),
        at: at.clone(),
    };
    let cfg = Cfg {
        s: *s,
        log: log.clone(),
        delays: d.clone(),
        repeat,
        text: text.clone(),
    };
    let start = if s.prop == 33 {
        let b = sx::bytes::<2>();
        b[0] as u32 | (b[1] as u32) << 8
    } else {
        77
    };
    let result = match s.texts {
        0 => {
            let mut c = Own(cfg);
            block_on(interact(client, Pin::new(&mut sink), start, &mut c), LOST)
        }
        1 => {
            let mut c = General(cfg);
            block_on(interact(client, Pin::new(&mut sink), start, &mut c), LOST)
        }
        3 => {
            let mut c = Named(cfg);
            block_on(interact(client, Pin::new(&mut sink), start, &mut c), LOST)
        }
        4 => {
            let mut c = Mixed(cfg);
            block_on(interact(client, Pin::new(&mut sink), start, &mut c), LOST)
        }
        _ => {
            let mut c = Defaults(cfg);
            block_on(interact(client, Pin::new(&mut sink), start, &mut c), LOST)
        }
    };
    let events = std::mem::replace(&mut log.borrow_mut().events, Vec::new());
    let waits = std::mem::replace(&mut *waits.borrow_mut(), Vec::new());
    let mut w = w.borrow_mut();
    Run {
        result,
        written: std::mem::replace(&mut w.bytes, Vec::new()),
        unflushed: w.unflushed,
        broken_protocol: w.broken_protocol,
        events,
        start,
        ended: ended.get(),
        waits,
        failed: w.failed,
        at_failure: at.get(),
    }
}

// ------------------------------------------------------------ the reference session

#[derive(Clone, Copy, PartialEq)]
pub enum Diff {
    None,
    /// an event is missing, extra or of another kind
    Events,
    /// an event had other arguments
    Args,
}

pub struct Expect {
    /// (code, text, input consumed when it is due)
    pub replies: Vec<(u16, Bin, usize)>,
    pub diff: Diff,
    pub oos: u64,
    pub unknown: u64,
    pub unimplemented: u64,
    pub accepted_data: u64,
    pub rejected: u64,
    pub cut_off: bool,
    pub leftover: bool,
    /// a message handler call differs
    pub handler_diff: bool,
}

fn mail_text(b: &[u8], m: &refs::RMail) -> Bin {
    let mut v = b[m.local.0..m.local.1].to_vec();
    if let Some((s, e, _)) = &m.dom {
        v.push(b'@');
        v.extend_from_slice(&b[*s..*e]);
    }
    v
}

pub fn expect(s: &Setup, b: &[u8], events: &[Event], text: &Texts) -> Expect {
    let mut x = Expect {
        replies: Vec::new(),
        diff: Diff::None,
        oos: 0,
        unknown: 0,
        unimplemented: 0,
        accepted_data: 0,
        rejected: 0,
        cut_off: false,
        leftover: false,
        handler_diff: false,
    };
    let conf = |r: Reply, at: usize| {
        let (c, t) = text_of(s, text, r);
        (c, t, at)
    };
    x.replies.push(conf(Reply::Greeting, 0));
    let mut open: Option<(Option<Bin>, Vec<Bin>)> = None;
    let mut ev = events.iter();
    let mut pos = 0;
    macro_rules! next {
        ($at:expr) => {
            match ev.next() {
                Some(e) => e,
                None => {
                    x.diff = Diff::Events;
                    x.handler_diff = true;
                    return x;
                }
            }
        };
    }
    // other arguments: go on, to see what becomes of them; another kind: give up
    macro_rules! must {
        ($c:expr, Diff::Args) => {
            if !$c {
                x.diff = Diff::Args;
            }
        };
        ($c:expr, $d:expr) => {
            if !$c {
                x.diff = $d;
                return x;
            }
        };
    }
    loop {
        // the next line
        let mut e = pos;
        while e + 1 < b.len() && !(b[e] == b'\r' && b[e + 1] == b'\n') {
            e += 1;
        }
        if e + 1 >= b.len() {
            x.leftover = pos < b.len();
            break;
        }
        let line = &b[pos..e + 2];
        pos = e + 2;
        let c = match refs::command(line) {
            None => {
                x.unknown += 1;
                x.replies.push(conf(Reply::Unrecognized, pos));
                continue;
            }
            Some(c) => c,
        };
        match c.kind {
            Kind::Mail => {
                if open.is_some() {
                    x.oos += 1;
                    x.replies.push(conf(Reply::AlreadyInMail, pos));
                    continue;
                }
                let from = c.mail.map(|m| mail_text(line, &m));
                let e = next!(pos);
                must!(matches!(e.what, What::New), Diff::Events);
                let e = next!(pos);
                match &e.what {
                    What::From(f) => must!(same_from(f, &from), Diff::Args),
                    _ => must!(false, Diff::Events),
                }
                let from = match e.change {
                    1 => None,
                    2 => Some(b"zf".to_vec()),
                    _ => from,
                };
                match &e.verdict {
                    Verdict::Accept => {
                        x.replies.push(conf(Reply::MailOkay, pos));
                        open = Some((from, Vec::new()));
                    }
                    Verdict::Reject(c, t) => {
                        x.rejected += 1;
                        x.replies.push((*c, t.clone(), pos));
                    }
                }
            }
            Kind::Rcpt => {
                let (from, to) = match &mut open {
                    None => {
                        x.oos += 1;
                        x.replies.push(conf(Reply::RcptBeforeMail, pos));
                        continue;
                    }
                    Some(o) => (&o.0, &mut o.1),
                };
                let mut rcpt = match c.mail {
                    Some(m) => mail_text(line, &m),
                    None => Vec::new(),
                };
                let e = next!(pos);
                match &e.what {
                    What::To(r, f, t) => must!(eq(r, &rcpt) && same_from(f, from) && same_mails(t, to), Diff::Args),
                    _ => must!(false, Diff::Events),
                }
                match e.change {
                    1 => rcpt = b"zt".to_vec(),
                    2 => to.push(b"zu".to_vec()),
                    _ => (),
                }
                match &e.verdict {
                    Verdict::Accept => {
                        x.replies.push(conf(Reply::RcptOkay, pos));
                        to.push(rcpt);
                    }
                    Verdict::Reject(c, t) => {
                        x.rejected += 1;
                        x.replies.push((*c, t.clone(), pos));
                    }
                }
            }
            Kind::Data => {
                let (from, to) = match &mut open {
                    None => {
                        x.oos += 1;
                        x.replies.push(conf(Reply::DataBeforeMail, pos));
                        continue;
                    }
                    Some(o) => (&mut o.0, &mut o.1),
                };
                if to.is_empty() {
                    x.oos += 1;
                    x.replies.push(conf(Reply::DataBeforeRcpt, pos));
                    continue;
                }
                let e = next!(pos);
                match &e.what {
                    What::Data(f, t) => must!(same_from(f, from) && same_mails(t, to), Diff::Args),
                    _ => must!(false, Diff::Events),
                }
                match e.change {
                    1 => *from = Some(b"zg".to_vec()),
                    2 => to.push(b"zd".to_vec()),
                    _ => (),
                }
                match &e.verdict {
                    Verdict::Reject(c, t) => {
                        x.rejected += 1;
                        x.replies.push((*c, t.clone(), pos));
                        continue;
                    }
                    Verdict::Accept => (),
                }
                x.accepted_data += 1;
                x.replies.push(conf(Reply::DataOkay, pos));
                let (want, end) = refs::unstuff(&b[pos..]);
                let e = next!(pos);
                match &e.what {
                    What::Mail(f, t, got, ok) => {
                        let same = same_from(f, from)
                            && same_mails(t, to)
                            && *ok == end.is_some()
                            && match end {
                                Some(_) => eq(got, &want),
                                None => {
                                    let sure = refs::unstuff_sure(&b[pos..]);
                                    got.len() <= sure.len() && eq(got, &sure[..got.len()])
                                }
                            };
                        if !same {
                            x.handler_diff = true;
                        }
                        must!(same, Diff::Args)
                    }
                    _ => {
                        x.handler_diff = true;
                        must!(false, Diff::Events)
                    }
                }
                pos = match end {
                    Some(n) => pos + n,
                    None => {
                        x.cut_off = true;
                        b.len()
                    }
                };
                open = None;
                // a message that is cut off is decided when the stream has ended
                let due = if x.cut_off { b.len() + 1 } else { pos };
                match &e.verdict {
                    Verdict::Accept => x.replies.push(conf(Reply::Accepted, due)),
                    Verdict::Reject(c, t) => {
                        x.rejected += 1;
                        x.replies.push((*c, t.clone(), due));
                    }
                }
            }
            _ => {
                x.unimplemented += 1;
                x.replies.push(conf(Reply::Unimplemented, pos));
            }
        }
    }
    if ev.next().is_some() {
        x.diff = Diff::Events;
        x.handler_diff = true;
    }
    x
}

/// What reaches the message handler, judged by the calls alone: within a transaction
/// opened by an accepted sender, after an accepted DATA, with the recipients accepted since
fn envelopes(events: &[Event]) -> bool {
    let mut open: Option<(Option<Bin>, Vec<Bin>)> = None;
    let mut data = false;
    for e in events {
        let accepted = matches!(e.verdict, Verdict::Accept);
        let was_data = std::mem::replace(&mut data, false);
        match &e.what {
            What::New => (),
            What::From(f) => {
                if accepted {
                    let f = match e.change {
                        1 => None,
                        2 => Some(b"zf".to_vec()),
                        _ => f.clone(),
                    };
                    open = Some((f, Vec::new()));
                }
            }
            What::To(t, _, _) => {
                if let Some(o) = &mut open {
                    if e.change == 2 {
                        o.1.push(b"zu".to_vec());
                    }
                    if accepted {
                        o.1.push(if e.change == 1 { b"zt".to_vec() } else { t.clone() });
                    }
                }
            }
            What::Data(_, _) => {
                if let Some(o) = &mut open {
                    match e.change {
                        1 => o.0 = Some(b"zg".to_vec()),
                        2 => o.1.push(b"zd".to_vec()),
                        _ => (),
                    }
                }
                data = accepted;
            }
            What::Mail(f, t, _, _) => {
                let ok = was_data
                    && match open.take() {
                        Some((g, u)) => !u.is_empty() && same_from(f, &g) && same_mails(t, &u),
                        None => false,
                    };
                if !ok {
                    return false;
                }
            }
        }
    }
    true
}

/// Splits what was written into replies: (code digits, text, end); None if malformed
fn replies(w: &[u8]) -> Option<Vec<([u8; 3], Bin, usize)>> {
    let mut out = Vec::new();
    let mut i = 0;
    let mut cur: Option<([u8; 3], Bin)> = None;
    while i < w.len() {
        if i + 6 > w.len() {
            return None;
        }
        let code = [w[i], w[i + 1], w[i + 2]];
        for c in &code {
            if (*c < b'0') | (*c > b'9') {
                return None;
            }
        }
        let last = if w[i + 3] == b' ' {
            true
        } else if w[i + 3] == b'-' {
            false
        } else {
            return None;
        };
        let st = i + 4;
        let mut e = st;
        while e + 1 < w.len() && w[e] != b'\r' {
            if !((w[e] == 9) | ((w[e] >= 32) & (w[e] <= 126))) {
                return None;
            }
            e += 1;
        }
        if e + 1 >= w.len() || w[e + 1] != b'\n' || e + 2 - i > 512 {
            return None;
        }
        let mut c = match cur.take() {
            Some(c) => {
                if !eq(&c.0, &code) {
                    return None;
                }
                c
            }
            None => (code, Vec::new()),
        };
        c.1.extend_from_slice(&w[st..e]);
        i = e + 2;
        if last {
            out.push((c.0, c.1, i));
        } else {
            cur = Some(c);
        }
    }
    if cur.is_some() {
        return None;
    }
    Some(out)
}

fn digits(c: u16) -> [u8; 3] {
    [b'0' + (c / 100) as u8, b'0' + (c / 10 % 10) as u8, b'0' + (c % 10) as u8]
}

fn observe(r: &Run) {
    sx::observe(r.result.is_ok() as u64);
    sx::observe_bytes(&r.written);
    for e in &r.events {
        match &e.what {
            What::New => sx::observe(1),
            What::From(f) => {
                sx::observe(2);
                if let Some(f) = f {
                    sx::observe_bytes(f);
                }
            }
            What::To(t, _, l) => {
                sx::observe(3 + 16 * l.len() as u64);
                sx::observe_bytes(t);
            }
            What::Data(_, l) => sx::observe(4 + 16 * l.len() as u64),
            What::Mail(_, l, b, ok) => {
                sx::observe(5 + 16 * l.len() as u64 + *ok as u64 * 8);
                sx::observe_bytes(b);
            }
        }
    }
}

/// all of it: events and replies as the reference session has them
fn full(x: &Expect, r: &Run) {
    sx::check(r.result.is_ok(), 1);
    sx::check(x.diff != Diff::Events, 2);
    sx::check(x.diff != Diff::Args, 3);
    match replies(&r.written) {
        None => sx::check(false, 4),
        Some(have) => {
            sx::check(have.len() == x.replies.len(), 5);
            for (h, w) in have.iter().zip(&x.replies) {
                sx::check(eq(&h.0, &digits(w.0)), 6);
                sx::check(eq(&h.1, &w.1), 7);
            }
        }
    }
}

pub fn session() {
    let s = setup();
    let b = script(&s);
    let mut text = Texts::new();
    if s.prop == 26 {
        text.long = long_text(s.tlen, 1600);
    }
    if s.prop == 35 {
        text.host = long_text(s.tlen, 1600);
        text.banner = printable(1);
    }
    let packets = cut(&b, s.cuts, s.lo, s.hi);
    let r = run(&s, packets, s.delays, None, &text);
    observe(&r);
    if s.prop == 29 {
        // it came to an end
        sx::cover(0);
        sx::check(r.result.is_ok(), 1);
        return;
    }
    if s.prop == 28 && r.failed {
        sx::cover(1);
        sx::check(r.result.is_err(), 10);
        sx::check(r.events.len() == r.at_failure.0, 11);
        sx::check(r.written.len() == r.at_failure.1, 12);
        return;
    }
    let x = expect(&s, &b, &r.events, &text);
    if x.oos > 0 {
        sx::cover(2);
    }
    if x.unknown > 0 {
        sx::cover(3);
    }
    if x.unimplemented > 0 {
        sx::cover(4);
    }
    if x.accepted_data > 0 {
        sx::cover(5);
    }
    if x.accepted_data > 1 {
        sx::cover(6);
    }
    if x.rejected > 0 {
        sx::cover(7);
    }
    if x.cut_off {
        sx::cover(8);
    }
    if x.leftover {
        sx::cover(9);
    }
    if x.replies.len() > 1 {
        sx::cover(10);
    }
    match s.prop {
        20 => {
            sx::check(r.result.is_ok(), 1);
            match replies(&r.written) {
                None => sx::check(false, 4),
                Some(have) => {
                    sx::check(have.len() >= 1 && eq(&have[0].0, b"220"), 6);
                    if x.diff == Diff::None {
                        sx::check(have.len() == x.replies.len(), 5);
                        // the same replies in another order?
                        let mut h: Vec<[u8; 3]> = have.iter().map(|r| r.0).collect();
                        let mut w: Vec<[u8; 3]> = x.replies.iter().map(|r| digits(r.0)).collect();
                        let same = h == w;
                        h.sort();
                        w.sort();
                        sx::check(same || h != w, 8);
                        for (h, w) in have.iter().zip(&x.replies) {
                            if w.0 == 354 {
                                sx::check(eq(&h.0, b"354"), 6);
                            }
                        }
                    } else if x.diff == Diff::Events {
                        // the sessions took different ways: count at least the lines
                        sx::check(have.len() >= x.replies.len(), 5);
                    }
                }
            }
        }
        21 => {
            sx::check(envelopes(&r.events), 17);
            sx::check(!x.handler_diff && x.diff != Diff::Events, 2)
        }
        22 => {
            if x.oos > 0 {
                full(&x, &r)
            }
        }
        23 => {
            if x.accepted_data > 0 {
                full(&x, &r)
            }
        }
        24 => {
            if !r.events.is_empty() {
                full(&x, &r)
            }
        }
        25 => {
            if x.unknown + x.unimplemented > 0 {
                full(&x, &r)
            }
        }
        26 | 35 => full(&x, &r),
        33 => {
            let mut user = r.start;
            for e in &r.events {
                if let What::New = e.what {
                    continue;
                }
                sx::cover(12);
                sx::check(e.user.0 == user, 18);
                user = e.user.1;
            }
            sx::check(x.diff != Diff::Events, 2);
        }
        27 => {
            full(&x, &r);
            sx::check(r.ended <= 1, 13);
        }
        28 => {
            sx::check(r.result.is_ok(), 1);
            sx::check(!r.broken_protocol, 14);
            sx::check(!r.unflushed, 15);
            match replies(&r.written) {
                None => sx::check(false, 4),
                Some(have) => {
                    for (delivered, written, flushed) in &r.waits {
                        sx::cover(11);
                        sx::check(*flushed, 15);
                        if x.diff == Diff::None && have.len() == x.replies.len() {
                            let due = x.replies.iter().filter(|r| r.2 <= *delivered).count();
                            let len = if due == 0 { 0 } else { have[due - 1].2 };
                            sx::check(*written >= len, 16);
                        }
                    }
                }
            }
        }
        _ => (),
    }
}

/// C19: the same bytes and decisions, in one packet and without delay, and otherwise
pub fn twice() {
    let s = setup();
    let b = script(&s);
    let r1 = run(&s, vec![BytesMut::from(&b[..])], 0, None, &Texts::new());
    let packets = cut(&b, s.cuts, s.lo, s.hi);
    if packets.len() > 1 {
        sx::cover(0);
    }
    let r2 = run(&s, packets, s.delays, Some(r1.events.clone()), &Texts::new());
    observe(&r2);
    sx::check(r1.result.is_ok() == r2.result.is_ok(), 1);
    sx::check(eq(&r1.written, &r2.written), 2);
    sx::check(r1.events.len() == r2.events.len(), 3);
    for (a, b) in r1.events.iter().zip(&r2.events) {
        let same = match (&a.what, &b.what) {
            (What::New, What::New) => true,
            (What::From(a), What::From(b)) => same_from(a, b),
            (What::To(a, f, l), What::To(b, g, m)) => eq(a, b) && same_from(f, g) && same_mails(l, m),
            (What::Data(f, l), What::Data(g, m)) => same_from(f, g) && same_mails(l, m),
            (What::Mail(f, l, a, o), What::Mail(g, m, b, p)) => {
                sx::cover(1);
                // of a message that was cut off, how much arrived is not determined
                same_from(f, g) && same_mails(l, m) && o == p && (!*o || eq(a, b))
            }
            _ => false,
        };
        sx::check(same, 4);
    }
}
