//! smtp_queue::run against a storage, a transport, an executor and a clock of the
//! harness's (C30 - C32).
use crate::sx;
use bytes::BytesMut;
use futures::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{run, FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

const SEC: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;
const BASE: u64 = 5000 * SEC;
const HOUR: u64 = 3600 * SEC;
/// points in time after startup at which things are looked at
const LADDER: [u64; 7] = [SEC, 1800 * SEC, HOUR - SEC, HOUR - 2 * MS, HOUR + 2 * MS, HOUR + SEC, 2 * HOUR];

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    /// listed or taken back: someone holds its QueuedMail, or will
    Queued,
    Starting,
    Inflight,
    Sending,
    Accepted,
    Refused,
    Cancelling,
    Finishing,
    Done,
    /// left in flight by an earlier run
    Found,
    Recovering,
}

struct M {
    st: S,
    listed: bool,
    found: bool,
    attempts: u64,
    refusals: u64,
    accepted: u64,
    starts: u64,
    done: u64,
    taken_back: u64,
    /// a storage operation on it failed
    broken: bool,
    tag: [u8; 2],
    data: Vec<Vec<u8>>,
    null_from: bool,
    rcpts: usize,
}

struct World {
    mails: Vec<M>,
    nq: usize,
    delays: u64,
    hangs: u64,
    refusals: u64,
    failures: u64,
    listing_failures: bool,
    now: u64,
    listing_failed: bool,
    lists: u64,
    finds: u64,
    queue_listed: bool,
    found_listed: bool,
}

/// nothing here leaves the thread
#[derive(Clone)]
struct W(Rc<RefCell<World>>);
unsafe impl Send for W {}
unsafe impl Sync for W {}

impl W {
    fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        f(&mut self.0.borrow_mut())
    }
    fn late(&self) -> bool {
        let left = self.with(|w| w.delays);
        if left > 0 && sx::choose(2) == 1 {
            self.with(|w| w.delays -= 1);
            futures::task::current().notify();
            return true;
        }
        false
    }
    fn fails(&self) -> bool {
        let left = self.with(|w| w.failures);
        if left > 0 && sx::choose(2) == 1 {
            self.with(|w| w.failures -= 1);
            return true;
        }
        false
    }
    /// never ready again
    fn hangs(&self, i: usize) -> bool {
        let left = self.with(|w| w.hangs);
        if left > 0 && sx::choose(2) == 1 {
            sx::cover(8);
            self.with(|w| {
                w.hangs -= 1;
                w.mails[i].broken = true;
            });
            return true;
        }
        false
    }
    fn st(&self, i: usize) -> S {
        self.with(|w| w.mails[i].st)
    }
    fn go(&self, i: usize, s: S) {
        self.with(|w| w.mails[i].st = s)
    }
}

struct Qm(usize);
struct Im(usize, W);
struct Fim(usize);
impl QueuedMail<u64> for Qm {}
impl FoundInflightMail<u64> for Fim {}

/// an operation that may be late, may fail, and otherwise does `f`
struct Op<T, F: FnMut() -> T> {
    w: W,
    id: usize,
    f: F,
    over: bool,
    hung: bool,
}
unsafe impl<T, F: FnMut() -> T> Send for Op<T, F> {}
impl<T, F: FnMut() -> T> Future for Op<T, F> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<T, ()> {
        sx::check(!self.over, 20);
        if self.hung || self.w.late() {
            return Ok(Async::NotReady);
        }
        if self.w.hangs(self.id) {
            self.hung = true;
            return Ok(Async::NotReady);
        }
        self.over = true;
        if self.w.fails() {
            sx::cover(4);
            self.w.with(|w| w.mails[self.id].broken = true);
            return Err(());
        }
        Ok(Async::Ready((self.f)()))
    }
}
fn op<T: 'static, F: FnMut() -> T + 'static>(w: &W, id: usize, f: F) -> Box<dyn Future<Item = T, Error = ()> + Send> {
    Box::new(Op { w: w.clone(), id, f, over: false, hung: false })
}

struct List<T> {
    w: W,
    left: VecDeque<usize>,
    make: fn(usize) -> T,
    found: bool,
    over: bool,
}
impl<T> Stream for List<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        sx::check(!self.over, 20);
        if self.w.late() {
            return Ok(Async::NotReady);
        }
        if self.w.with(|w| w.listing_failures) && self.w.fails() {
            sx::cover(5);
            self.over = true;
            self.w.with(|w| w.listing_failed = true);
            return Err(());
        }
        match self.left.pop_front() {
            Some(i) => {
                self.w.with(|w| w.mails[i].listed = true);
                Ok(Async::Ready(Some((self.make)(i))))
            }
            None => {
                self.over = true;
                self.w.with(|w| if self.found { w.found_listed = true } else { w.queue_listed = true });
                Ok(Async::Ready(None))
            }
        }
    }
}

fn content(m: &M, i: usize) -> (Option<Email>, Vec<Email>) {
    let l = [b'a' + (m.tag[0] & 15), b'0' + i as u8];
    let from = if m.null_from { None } else { Email::parse_slice(&l[..]).ok() };
    let to = (0..m.rcpts).map(|k| Email::parse_slice(&[b'r', b'0' + k as u8, b'a' + (m.tag[1] & 15)][..]).unwrap()).collect();
    (from, to)
}

fn same(a: &Email, b: &Email) -> bool {
    let (x, y) = (a.raw_localpart().bytes(), b.raw_localpart().bytes());
    let mut d = x.len() ^ y.len();
    for (p, q) in x.iter().zip(y.iter()) {
        d |= (p ^ q) as usize;
    }
    d == 0
}

impl InflightMail<u64> for Im {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, u64>, Error = ()> + Send> {
        let (i, w) = (self.0, self.1.clone());
        sx::check(w.st(i) == S::Inflight, 1);
        op(&self.1, i, move || {
            let (from, to, items, metadata) = w.with(|x| {
                let m = &x.mails[i];
                let (f, t) = content(m, i);
                (f, t, m.data.clone(), (m.tag[0] as u64) << 16 | i as u64)
            });
            let s: Box<dyn Stream<Item = BytesMut, Error = ()>> = Box::new(Data { w: w.clone(), items: items.into() });
            Mail { from, to, data: s, metadata }
        })
    }
}

struct Data {
    w: W,
    items: VecDeque<Vec<u8>>,
}
impl Stream for Data {
    type Item = BytesMut;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<BytesMut>, ()> {
        if self.w.late() {
            return Ok(Async::NotReady);
        }
        Ok(Async::Ready(self.items.pop_front().map(BytesMut::from)))
    }
}

struct Sto(W);
impl Storage<u64, Qm, Im, Fim> for Sto {
    fn list_queue(&self) -> Box<dyn Stream<Item = Qm, Error = ()>> {
        let n = self.0.with(|w| {
            w.lists += 1;
            w.nq
        });
        Box::new(List { w: self.0.clone(), left: (0..n).collect(), make: Qm, found: false, over: false })
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = Fim, Error = ()>> {
        let r = self.0.with(|w| {
            w.finds += 1;
            w.nq..w.mails.len()
        });
        Box::new(List { w: self.0.clone(), left: r.collect(), make: Fim, found: true, over: false })
    }
    fn cancel_found_inflight(&self, mail: Fim) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        let (i, w) = (mail.0, self.0.clone());
        sx::check(w.st(i) == S::Found, 2);
        // someone may still be at it
        sx::check(w.with(|x| x.now >= BASE + HOUR), 3);
        w.go(i, S::Recovering);
        op(&self.0, i, move || {
            w.with(|x| x.mails[i].taken_back += 1);
            w.go(i, S::Queued);
            Qm(i)
        })
    }
    fn enqueue<X>(&self, _: Mail<X, u64>) -> Box<dyn Future<Item = Qm, Error = ()>>
    where
        X: Stream<Item = BytesMut, Error = ()>,
    {
        sx::check(false, 4);
        Box::new(futures::future::err(()))
    }
    fn send_start(&self, mail: Qm) -> Box<dyn Future<Item = Im, Error = ()> + Send> {
        let (i, w) = (mail.0, self.0.clone());
        sx::check(w.st(i) == S::Queued, 5);
        w.with(|x| x.mails[i].starts += 1);
        w.go(i, S::Starting);
        op(&self.0, i, move || {
            w.go(i, S::Inflight);
            Im(i, w.clone())
        })
    }
    fn send_done(&self, mail: Im) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        let (i, w) = (mail.0, self.0.clone());
        sx::check(w.st(i) == S::Accepted, 6);
        w.go(i, S::Finishing);
        op(&self.0, i, move || {
            w.with(|x| x.mails[i].done += 1);
            w.go(i, S::Done)
        })
    }
    fn send_cancel(&self, mail: Im) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        let (i, w) = (mail.0, self.0.clone());
        sx::check(w.st(i) == S::Refused, 7);
        w.go(i, S::Cancelling);
        op(&self.0, i, move || {
            w.go(i, S::Queued);
            Qm(i)
        })
    }
}

struct Tra(W);
struct Sending<X> {
    w: W,
    id: usize,
    data: X,
    got: Vec<u8>,
    read: bool,
    over: bool,
    hung: bool,
}
unsafe impl<X> Send for Sending<X> {}
impl<X: Stream<Item = BytesMut, Error = ()>> Future for Sending<X> {
    type Item = ();
    type Error = (ReplyCode, SmtpString);
    fn poll(&mut self) -> Poll<(), (ReplyCode, SmtpString)> {
        sx::check(!self.over, 20);
        if self.hung {
            return Ok(Async::NotReady);
        }
        while !self.read {
            match self.data.poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(Some(p))) => self.got.extend_from_slice(&p),
                Ok(Async::Ready(None)) => self.read = true,
                Err(()) => sx::check(false, 8),
            }
        }
        if self.w.late() {
            return Ok(Async::NotReady);
        }
        if self.w.hangs(self.id) {
            self.hung = true;
            return Ok(Async::NotReady);
        }
        self.over = true;
        let i = self.id;
        let want: Vec<u8> = self.w.with(|w| w.mails[i].data.concat());
        let mut d = want.len() ^ self.got.len();
        for (a, b) in want.iter().zip(self.got.iter()) {
            d |= (a ^ b) as usize;
        }
        sx::check(d == 0, 9);
        if self.w.with(|w| w.refusals) > 0 && sx::choose(2) == 1 {
            sx::cover(1);
            self.w.with(|w| {
                w.refusals -= 1;
                w.mails[i].refusals += 1;
            });
            self.w.go(i, S::Refused);
            // whatever the refusal says: 200 to 582
            let c = sx::bytes::<2>();
            let code = 200 + c[0] as u16 + (c[1] & 0x7f) as u16;
            return Err((ReplyCode::custom(code), SmtpString::from_static(b"no")));
        }
        self.w.with(|w| w.mails[i].accepted += 1);
        self.w.go(i, S::Accepted);
        Ok(Async::Ready(()))
    }
}
impl Transport<u64> for Tra {
    fn send<X: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<X, u64>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let i = (mail.metadata & 0xffff) as usize;
        sx::check(i < self.0.with(|w| w.mails.len()), 10);
        sx::check(self.0.st(i) == S::Inflight, 11);
        self.0.with(|w| {
            let m = &mut w.mails[i];
            m.attempts += 1;
            let (from, to) = content(m, i);
            sx::check(mail.metadata == ((m.tag[0] as u64) << 16 | i as u64), 12);
            sx::check(
                match (&from, &mail.from) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same(a, b),
                    _ => false,
                },
                12,
            );
            sx::check(to.len() == mail.to.len() && to.iter().zip(mail.to.iter()).all(|(a, b)| same(a, b)), 12);
        });
        self.0.go(i, S::Sending);
        let s = Sending { w: self.0.clone(), id: i, data: mail.data, got: Vec::new(), read: false, over: false, hung: false };
        // a future of this crate's is 'static; the stream it came with need not be
        let b: Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send + '_> = Box::new(s);
        unsafe { std::mem::transmute(b) }
    }
}

// ------------------------------------------------------------ executor and clock

struct Woken(AtomicU64);
impl Notify for Woken {
    fn notify(&self, id: usize) {
        self.0.fetch_or(1 << id, Ordering::SeqCst);
    }
}

#[derive(Clone)]
struct Exec(Rc<RefCell<VecDeque<Box<dyn Future<Item = (), Error = ()> + Send>>>>);
impl tokio_executor::Executor for Exec {
    fn spawn(&mut self, f: Box<dyn Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
        self.0.borrow_mut().push_back(f);
        Ok(())
    }
}

struct NoPark;
struct NoUnpark;
impl tokio_executor::park::Unpark for NoUnpark {
    fn unpark(&self) {}
}
impl tokio_executor::park::Park for NoPark {
    type Unpark = NoUnpark;
    type Error = ();
    fn unpark(&self) -> NoUnpark {
        NoUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn park_timeout(&mut self, _: Duration) -> Result<(), ()> {
        Ok(())
    }
}

/// params: property, mails in the queue, mails found in flight, delays (+100 for each
/// operation that never ends), refusals,
/// failures (+100: listings fail as well), order (0 oldest first, 1 any), clock (how
/// many times it may go forward while there is something to do), free bytes of data
pub fn queue() {
    let p = |i| sx::param(i);
    let (prop, nq, nf) = (p(0), p(1) as usize, p(2) as usize);
    let any = p(6) == 1;
    let mut clock = p(7);
    let mut mails = Vec::new();
    for i in 0..nq + nf {
        let tag = sx::bytes::<2>();
        let data = match i % 3 {
            0 => vec![sx::vec(p(8) as usize), b"x".to_vec()],
            1 => vec![sx::vec(p(8) as usize)],
            _ => vec![],
        };
        let found = i >= nq;
        mails.push(M {
            st: if found { S::Found } else { S::Queued },
            listed: false,
            found,
            attempts: 0,
            refusals: 0,
            accepted: 0,
            starts: 0,
            done: 0,
            taken_back: 0,
            broken: false,
            tag,
            data,
            null_from: i % 2 == 1,
            rcpts: 1 + i % 2,
        });
    }
    let w = W(Rc::new(RefCell::new(World {
        mails,
        nq,
        delays: p(3) % 100,
        hangs: p(3) / 100,
        refusals: p(4),
        failures: p(5) % 100,
        listing_failures: p(5) >= 100,
        now: BASE,
        listing_failed: false,
        lists: 0,
        finds: 0,
        queue_listed: false,
        found_listed: false,
    })));
    sx::set_time(BASE);
    let mut timer = tokio_timer::Timer::new(NoPark);
    let handle = timer.handle();
    let exec = Exec(Rc::new(RefCell::new(VecDeque::new())));
    let mut enter = match tokio_executor::enter() {
        Ok(e) => e,
        Err(_) => panic!("nested"),
    };
    let woken = Arc::new(Woken(AtomicU64::new(0)));
    let mut result = None;
    let mut ex = exec.clone();
    tokio_timer::with_default(&handle, &mut enter, |enter| {
        tokio_executor::with_default(&mut ex, enter, |_| {
            let root: Box<dyn Future<Item = (), Error = ()>> = Box::new(run(Arc::new(Sto(w.clone())), Arc::new(Tra(w.clone()))));
            let mut tasks: Vec<Option<Spawn<Box<dyn Future<Item = (), Error = ()>>>>> = vec![Some(spawn(root))];
            woken.0.store(1, Ordering::SeqCst);
            let mut next = 0;
            loop {
                // what there is to do
                while let Some(f) = exec.0.borrow_mut().pop_front() {
                    let f: Box<dyn Future<Item = (), Error = ()>> = f;
                    sx::check(tasks.len() < 64, 21);
                    woken.0.fetch_or(1 << tasks.len(), Ordering::SeqCst);
                    tasks.push(Some(spawn(f)));
                }
                let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some() && woken.0.load(Ordering::SeqCst) >> i & 1 == 1).collect();
                let forward = if ready.is_empty() {
                    quiet(&w, prop, &result);
                    true
                } else if clock > 0 && next < LADDER.len() && sx::choose(2) == 1 {
                    clock -= 1;
                    sx::cover(6);
                    true
                } else {
                    false
                };
                if forward {
                    if next == LADDER.len() {
                        break;
                    }
                    let t = BASE + LADDER[next];
                    next += 1;
                    w.with(|w| w.now = t);
                    sx::set_time(t);
                    sx::check(timer.turn(Some(Duration::from_secs(0))).is_ok(), 22);
                    continue;
                }
                let k = ready[if any && ready.len() > 1 { sx::choose(ready.len() as u64) as usize } else { 0 }];
                woken.0.fetch_and(!(1 << k), Ordering::SeqCst);
                let h: NotifyHandle = woken.clone().into();
                let r = tasks[k].as_mut().unwrap().poll_future_notify(&h, k);
                match r {
                    Ok(Async::NotReady) => {}
                    Ok(Async::Ready(())) => {
                        tasks[k] = None;
                        if k == 0 {
                            result = Some(true);
                        }
                    }
                    Err(()) => {
                        tasks[k] = None;
                        if k == 0 {
                            result = Some(false);
                        }
                    }
                }
            }
        })
    });
    finish(&w, prop, &result);
}

/// nothing to do until time passes
fn quiet(w: &W, prop: u64, result: &Option<bool>) {
    w.with(|w| {
        if prop == 32 && w.now >= BASE + HOUR + 2 * MS {
            for m in w.mails.iter().filter(|m| m.found && m.listed && !m.broken) {
                sx::check(m.taken_back == 1, 40);
            }
        }
        if prop == 31 {
            // whatever is in the queue has been sent by now, and the listings are over
            sx::check(result.is_some(), 41);
            for m in w.mails.iter().filter(|m| m.listed && !m.broken) {
                sx::check(m.st == S::Done || m.st == S::Found, 42);
            }
        }
    })
}

fn finish(w: &W, prop: u64, result: &Option<bool>) {
    w.with(|w| {
        if *result == Some(true) {
            sx::cover(0);
        } else {
            sx::cover(7);
        }
        for m in &w.mails {
            sx::observe(m.st as u64 * 1000 + m.attempts * 100 + m.accepted * 10 + m.done);
            if m.st == S::Done {
                sx::cover(2);
            }
            if m.found && m.done == 1 {
                sx::cover(3);
            }
            // every property: never off the queue unless accepted, and once
            sx::check(m.accepted <= 1 && m.done <= m.accepted, 50);
            sx::check(m.attempts == m.refusals + m.accepted || m.broken && m.attempts == m.refusals + m.accepted + 1, 51);
            if prop == 31 && m.listed && !m.broken {
                sx::check(m.st == S::Done, 52);
            }
            if prop == 32 && m.found {
                sx::check(m.taken_back <= 1, 53);
                if m.listed && !m.broken {
                    sx::check(m.taken_back == 1 && m.done == 1, 54);
                }
            }
        }
        sx::check(*result == Some(!w.listing_failed), 55);
        if prop != 30 && !w.listing_failed {
            sx::check(w.lists == 1 && w.finds == 1 && w.queue_listed && w.found_listed, 56);
        }
    })
}
