// The queue with a storage, a transport, an executor and a clock in memory, for the
// demonstrations.
#![allow(dead_code)]
use bytes::BytesMut;
use futures01::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures01::{Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use std::time::Duration;

static NOW: AtomicI64 = AtomicI64::new(5000);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
    *t = [NOW.load(Ordering::SeqCst), 0];
    0
}
fn now() -> i64 {
    NOW.load(Ordering::SeqCst) - 5000
}

/// what to do with an operation ("list", "find", "cancel_found", "start", "get", "send",
/// "done", "cancel") on a mail, the n-th time
pub enum Do {
    Now,
    At(i64),
    Fail,
    Never,
    Refuse(u16),
}

#[derive(Clone)]
pub struct W(Rc<RefCell<Vec<String>>>, Rc<dyn Fn(&str, usize, usize) -> Do>, Rc<RefCell<Vec<(String, usize)>>>);
unsafe impl Send for W {}
unsafe impl Sync for W {}
impl W {
    fn plan(&self, what: &str, i: usize) -> Do {
        let k = (what.to_string(), i);
        let n = self.2.borrow().iter().filter(|x| **x == k).count();
        self.2.borrow_mut().push(k);
        (self.1)(what, i, n)
    }
}

struct Op<T, F: FnMut() -> T>(W, String, Do, F);
unsafe impl<T, F: FnMut() -> T> Send for Op<T, F> {}
impl<T, F: FnMut() -> T> Future for Op<T, F> {
    type Item = T;
    type Error = u16;
    fn poll(&mut self) -> Poll<T, u16> {
        let r = match self.2 {
            Do::Never => return Ok(Async::NotReady),
            Do::At(t) if now() < t => return Ok(Async::NotReady),
            Do::Fail => Err(0),
            Do::Refuse(c) => Err(c),
            _ => Ok(Async::Ready((self.3)())),
        };
        let x = match r {
            Ok(_) => String::new(),
            Err(0) => " failed".into(),
            Err(c) => format!(" refused {}", c),
        };
        (self.0).0.borrow_mut().push(format!("{} {}{}", now(), self.1, x));
        r
    }
}
fn op<T: 'static>(w: &W, what: &str, i: usize, f: impl FnMut() -> T + 'static) -> Op<T, impl FnMut() -> T> {
    Op(w.clone(), format!("{} {}", what, i), w.plan(what, i), f)
}

struct List<T>(W, &'static str, VecDeque<usize>, fn(usize) -> T);
impl<T> Stream for List<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        let i = match self.2.front() {
            None => return Ok(Async::Ready(None)),
            Some(i) => *i,
        };
        match (self.0).1(self.1, i, 0) {
            Do::Never => return Ok(Async::NotReady),
            Do::At(t) if now() < t => return Ok(Async::NotReady),
            Do::Fail => return Err(()),
            _ => (),
        }
        self.2.pop_front();
        Ok(Async::Ready(Some((self.3)(i))))
    }
}

pub struct Qm(usize);
pub struct Im(usize, W);
pub struct Fim(usize);
impl QueuedMail<usize> for Qm {}
impl FoundInflightMail<usize> for Fim {}
impl InflightMail<usize> for Im {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, usize>, Error = ()> + Send> {
        let i = self.0;
        Box::new(Anyway(op(&self.1, "get", i, move || Mail {
            from: Email::parse_slice(b"a@b").ok(),
            to: vec![Email::parse_slice(format!("u{}", i).as_bytes()).unwrap()],
            data: Box::new(futures01::stream::once(Ok(BytesMut::from(&b"x\r\n"[..])))) as Box<dyn Stream<Item = BytesMut, Error = ()>>,
            metadata: i,
        })))
    }
}
struct Anyway<F>(F);
unsafe impl<F> Send for Anyway<F> {}
impl<F: Future> Future for Anyway<F> {
    type Item = F::Item;
    type Error = ();
    fn poll(&mut self) -> Poll<F::Item, ()> {
        self.0.poll().map_err(|_| ())
    }
}

struct Sto(W, usize, usize);
impl Storage<usize, Qm, Im, Fim> for Sto {
    fn list_queue(&self) -> Box<dyn Stream<Item = Qm, Error = ()>> {
        Box::new(List(self.0.clone(), "list", (0..self.1).collect(), Qm))
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = Fim, Error = ()>> {
        Box::new(List(self.0.clone(), "find", (self.1..self.1 + self.2).collect(), Fim))
    }
    fn cancel_found_inflight(&self, m: Fim) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        Box::new(Anyway(op(&self.0, "cancel_found", m.0, move || Qm(m.0))))
    }
    fn enqueue<X: Stream<Item = BytesMut, Error = ()>>(&self, _: Mail<X, usize>) -> Box<dyn Future<Item = Qm, Error = ()>> {
        panic!("enqueued")
    }
    fn send_start(&self, m: Qm) -> Box<dyn Future<Item = Im, Error = ()> + Send> {
        let w = self.0.clone();
        Box::new(Anyway(op(&self.0, "start", m.0, move || Im(m.0, w.clone()))))
    }
    fn send_done(&self, m: Im) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        Box::new(Anyway(op(&self.0, "done", m.0, || ())))
    }
    fn send_cancel(&self, m: Im) -> Box<dyn Future<Item = Qm, Error = ()> + Send> {
        Box::new(Anyway(op(&self.0, "cancel", m.0, move || Qm(m.0))))
    }
}
struct Tra(W);
impl Transport<usize> for Tra {
    fn send<X: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<X, usize>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        Box::new(op(&self.0, "send", mail.metadata, || ()).map_err(|c| (ReplyCode::custom(c), SmtpString::from_static(b"no"))))
    }
}

struct Nobody;
impl Notify for Nobody {
    fn notify(&self, _: usize) {}
}
#[derive(Clone)]
struct Exec(Rc<RefCell<VecDeque<Box<dyn Future<Item = (), Error = ()> + Send>>>>);
impl tokio_executor::Executor for Exec {
    fn spawn(&mut self, f: Box<dyn Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
        self.0.borrow_mut().push_back(f);
        Ok(())
    }
}
struct Park;
impl tokio_executor::park::Unpark for Park {
    fn unpark(&self) {}
}
impl tokio_executor::park::Park for Park {
    type Unpark = Park;
    type Error = ();
    fn unpark(&self) -> Park {
        Park
    }
    fn park(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn park_timeout(&mut self, _: Duration) -> Result<(), ()> {
        Ok(())
    }
}

/// `queued` mails in the queue, `found` in flight (numbered on); looked at every 10
/// seconds for two and a half hours.  What was done, when; and how run() ended.
pub fn queue(queued: usize, found: usize, plan: impl Fn(&str, usize, usize) -> Do + 'static) -> (Vec<String>, Option<bool>) {
    let w = W(Rc::new(RefCell::new(vec![])), Rc::new(plan), Rc::new(RefCell::new(vec![])));
    let mut timer = tokio_timer::Timer::new(Park);
    let handle = timer.handle();
    let exec = Exec(Rc::new(RefCell::new(VecDeque::new())));
    let mut enter = tokio_executor::enter().unwrap();
    let mut ex = exec.clone();
    let mut result = None;
    tokio_timer::with_default(&handle, &mut enter, |enter| {
        tokio_executor::with_default(&mut ex, enter, |_| {
            let root: Box<dyn Future<Item = (), Error = ()>> = Box::new(run(Arc::new(Sto(w.clone(), queued, found)), Arc::new(Tra(w.clone()))));
            let mut tasks: Vec<Option<Spawn<Box<dyn Future<Item = (), Error = ()>>>>> = vec![Some(spawn(root))];
            while now() < 9000 {
                for _ in 0..20 {
                    for k in 0..tasks.len() {
                        let h: NotifyHandle = Arc::new(Nobody).into();
                        let r = match &mut tasks[k] {
                            None => continue,
                            Some(t) => t.poll_future_notify(&h, k),
                        };
                        if let Ok(Async::NotReady) = r {
                            continue;
                        }
                        if k == 0 {
                            result = Some(r.is_ok());
                        }
                        tasks[k] = None;
                    }
                    while let Some(f) = exec.0.borrow_mut().pop_front() {
                        tasks.push(Some(spawn(f)));
                    }
                }
                NOW.fetch_add(10, Ordering::SeqCst);
                timer.turn(Some(Duration::from_secs(0))).unwrap();
            }
        })
    });
    let l = w.0.borrow().clone();
    (l, result)
}
