//! Streams, sinks and an executor under the harness's control.
use crate::sx;
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

// ------------------------------------------------------------ executor

fn rw(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn v_clone(p: *const ()) -> RawWaker {
    rw(p)
}
unsafe fn v_wake(p: *const ()) {
    (*(p as *const Cell<bool>)).set(true)
}
unsafe fn v_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(v_clone, v_wake, v_wake, v_drop);

/// Polls `f` to the end, only when something has woken it: code that says "not
/// ready" without having been told so by what it waits for would sleep forever.
pub fn block_on<F: Future>(f: F, lost: u32) -> F::Output {
    let woken = Box::leak(Box::new(Cell::new(true)));
    let w = unsafe { Waker::from_raw(rw(woken as *const Cell<bool> as *const ())) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        sx::check(woken.replace(false), lost);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

/// "not ready" answers that may still be given, shared by everything in a run
#[derive(Clone)]
pub struct Delays(pub Rc<Cell<u64>>);
impl Delays {
    pub fn new(n: u64) -> Delays {
        Delays(Rc::new(Cell::new(n)))
    }
    pub fn now(&self, cx: &mut Context) -> bool {
        if self.0.get() > 0 && sx::choose(2) == 1 {
            self.0.set(self.0.get() - 1);
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}

/// one await that may be "not ready" first
pub struct Pause(pub Delays);
impl Future for Pause {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0.now(cx) {
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

// ------------------------------------------------------------ packets

/// A buffer holding `b`, the rest of `whole` if it was cut off the front of that.
/// How a packet came to be must not matter: 0 in place or a fresh copy (some room
/// is left in place), 1 a buffer filled to the last byte, 2 part of the buffer the
/// other packets are in, 3 a buffer with room behind, 4 one with used-up room before,
/// 5 any of 1 to 4.
fn packet(b: &[u8], shape: u64, whole: &mut BytesMut) -> BytesMut {
    let shape = if shape == 5 { 1 + sx::choose(4) } else { shape };
    let part = whole.split_to(b.len());
    match shape {
        0 | 6 => BytesMut::from(b),
        1 => BytesMut::from(b.to_vec()),
        2 => part,
        3 => {
            let mut x = BytesMut::with_capacity(b.len() + 64);
            x.extend_from_slice(b);
            x
        }
        _ => {
            let mut v = vec![b'.'; 40];
            v.extend_from_slice(b);
            let mut x = BytesMut::from(v);
            x.advance(40);
            x
        }
    }
}

/// Cuts `b` into packets at up to `m` positions between lo and hi; positions
/// may coincide (empty packets).  From 1000 on, m - 1000 is the size of all packets.
/// 10000 times the kind of buffer is added to m; 6 stands for kind 0 with empty packets
/// before each but the first: one or five, or none, and two where all are of one size.
pub fn cut(b: &[u8], m: u64, lo: usize, hi: usize) -> Vec<BytesMut> {
    let mut out = Vec::new();
    let (shape, m) = (m / 10000, m % 10000);
    let mut whole = BytesMut::from(b.to_vec());
    if m > 1000 {
        for x in b.chunks(m as usize - 1000) {
            if shape == 6 && !out.is_empty() {
                out.push(BytesMut::new());
                out.push(BytesMut::from(&b[..0]));
            }
            out.push(packet(x, shape, &mut whole));
        }
        return out;
    }
    let hi = hi.min(b.len());
    let lo = lo.min(hi);
    let mut at = 0;
    let mut min = lo;
    for _ in 0..m {
        // hi + 1 - min positions, or no more cuts
        let c = sx::choose((hi - min + 2) as u64) as usize;
        if c == 0 {
            break;
        }
        let p = min + c - 1;
        out.push(packet(&b[at..p], shape, &mut whole));
        if shape == 6 {
            for _ in 0..[0, 1, 5][sx::choose(3) as usize] {
                out.push(BytesMut::new());
            }
        }
        at = p;
        min = p;
    }
    if at < b.len() || out.is_empty() {
        out.push(packet(&b[at..], shape, &mut whole));
    }
    out
}

/// The client's side: gives the packets in order, then ends.
pub struct Packets {
    pub items: std::collections::VecDeque<BytesMut>,
    pub delays: Delays,
    pub ended: Rc<Cell<u64>>,
    pub polls: Rc<Cell<u64>>,
    /// called before each poll, and what has been given so far then
    pub waited: Option<Rc<dyn Fn()>>,
    pub taken: Rc<RefCell<Vec<u8>>>,
}
impl Packets {
    pub fn new(v: Vec<BytesMut>, d: &Delays) -> Packets {
        Packets {
            items: v.into(),
            delays: d.clone(),
            ended: Rc::new(Cell::new(0)),
            polls: Rc::new(Cell::new(0)),
            waited: None,
            taken: Rc::new(RefCell::new(Vec::new())),
        }
    }
}
// the session function wants Send; nothing here crosses a thread
unsafe impl Send for Packets {}

impl Stream for Packets {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        self.polls.set(self.polls.get() + 1);
        if let Some(w) = &self.waited {
            w();
        }
        if self.delays.now(cx) {
            return Poll::Pending;
        }
        match self.items.pop_front() {
            Some(p) => {
                if self.waited.is_some() {
                    self.taken.borrow_mut().extend_from_slice(&p);
                }
                Poll::Ready(Some(p))
            }
            None => {
                self.ended.set(self.ended.get() + 1);
                Poll::Ready(None)
            }
        }
    }
}

// ------------------------------------------------------------ sinks

#[derive(Default)]
pub struct Written {
    pub bytes: Vec<u8>,
    pub unflushed: bool,
    /// a sink must be asked whether it is ready before each item
    pub ready: bool,
    pub broken_protocol: bool,
    pub fail_at: Option<u64>,
    pub ops: u64,
    pub failed: bool,
    pub after_failure: bool,
}

/// Collects what is written; may be "not ready"; may fail at a chosen operation.
pub struct Out {
    pub w: Rc<RefCell<Written>>,
    pub delays: Delays,
}
impl Out {
    pub fn new(d: &Delays) -> Out {
        Out {
            w: Rc::new(RefCell::new(Written::default())),
            delays: d.clone(),
        }
    }
    fn op(&self) -> Result<(), ()> {
        let mut w = self.w.borrow_mut();
        if w.failed {
            w.after_failure = true;
        }
        let n = w.ops;
        w.ops += 1;
        if w.fail_at == Some(n) {
            w.failed = true;
            return Err(());
        }
        Ok(())
    }
}
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.delays.now(cx) {
            return Poll::Pending;
        }
        self.op()?;
        self.w.borrow_mut().ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        self.op()?;
        let mut w = self.w.borrow_mut();
        if !w.ready {
            w.broken_protocol = true;
        }
        w.ready = false;
        w.unflushed = true;
        w.bytes.extend_from_slice(&item);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.delays.now(cx) {
            return Poll::Pending;
        }
        self.op()?;
        self.w.borrow_mut().unflushed = false;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}
