//! Message data on the wire, and the stream that can take items back (C14 - C18).
use crate::io::*;
use crate::msg::{eq, tpl};
use crate::refs;
use crate::sx;
use bytes::{Bytes, BytesMut};
use futures::StreamExt as _;
use smtp_message::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const LOST: u32 = 99;

/// params: cuts, window lo, window hi, delays, then the message
pub fn sink() {
    let (m, lo, hi, dl) = (sx::param(0), sx::param(1) as usize, sx::param(2) as usize, sx::param(3));
    let b = tpl(4);
    let want = refs::stuff(&b);
    let pieces = cut(&b, m, lo, hi);
    let d = Delays::new(dl);
    let out = Out::new(&d);
    let w = out.w.clone();
    let r = block_on(
        async move {
            let mut s = DataSink::new(out);
            for p in pieces {
                s.send(p.freeze()).await?;
            }
            s.end().await.map(|_| ())
        },
        LOST,
    );
    sx::check(r.is_ok(), 1);
    let w = w.borrow();
    sx::observe_bytes(&w.bytes);
    classify(&b, want.len());
    sx::check(eq(&w.bytes, &want), 2);
    sx::check(!w.broken_protocol, 3);
    sx::check(!w.unflushed, 5);
    // the mark occurs only at the end (of what was written, not of the reference)
    match refs::unstuff(&w.bytes).1 {
        Some(e) => sx::check(e == w.bytes.len(), 4),
        None => sx::check(false, 4),
    }
}

/// what kind of message this was
fn classify(b: &[u8], wire: usize) {
    let extra = wire - b.len();
    if b.is_empty() {
        sx::cover(0);
    } else if extra == 3 {
        sx::cover(1); // no dot, ended in CRLF
    } else if extra == 5 {
        sx::cover(2); // no dot, CRLF added (or two dots)
    } else {
        sx::cover(3);
    }
}

/// Reads message data from packets: (delivered, complete, rest), and that the
/// stream is used as it may be.
///
/// With `prompt`, whenever more is asked for, all that is certain of what came so far
/// has been delivered, and nothing is asked for once the mark has come (C34).  With
/// `again`, the data stream may be read on after its end, before and after it has been
/// finished: it stays ended, and takes nothing.
fn receive(packets: Vec<BytesMut>, first_back: bool, d: &Delays, prompt: bool, again: bool) -> (Vec<u8>, bool, Vec<u8>) {
    let mut packets: VecDeque<BytesMut> = packets.into();
    let back = if first_back { packets.pop_front() } else { None };
    let mut src = Packets::new(packets.into_iter().collect(), d);
    let ended = src.ended.clone();
    let got = Rc::new(RefCell::new(Vec::new()));
    let over = Rc::new(Cell::new(false));
    if prompt {
        let so_far = src.taken.clone();
        if let Some(p) = &back {
            so_far.borrow_mut().extend_from_slice(p);
        }
        let (got, over) = (got.clone(), over.clone());
        src.waited = Some(Rc::new(move || {
            if over.get() {
                return;
            }
            let came = so_far.borrow();
            let got = got.borrow();
            if refs::unstuff(&came).1.is_some() {
                sx::check(false, 15);
            } else {
                let sure = refs::unstuff_sure(&came);
                if sure.len() > 0 {
                    sx::cover(4);
                }
                if sure.len() + 1 < came.len() {
                    sx::cover(5);
                }
                sx::check(eq(&got, &sure), 16);
            }
        }));
    }
    let mut src = Prependable::new(src);
    if let Some(p) = back {
        // as the session does with what followed the DATA line
        sx::check(src.prepend(p).is_ok(), 10);
    }
    let ok;
    {
        let mut s = DataStream::new(&mut src);
        sx::check(!s.was_completed(), 11);
        block_on(
            async {
                while let Some(p) = s.next().await {
                    got.borrow_mut().extend_from_slice(&p);
                }
            },
            LOST,
        );
        sx::check(!s.was_completed(), 11);
        if again {
            for _ in 0..2 * sx::choose(2) {
                sx::check(block_on(s.next(), LOST).is_none(), 14);
            }
        }
        ok = s.complete().is_ok();
        sx::check(s.was_completed(), 12);
        if again && sx::choose(2) == 1 {
            sx::check(block_on(s.next(), LOST).is_none(), 14);
            sx::check(s.was_completed(), 12);
        }
    }
    // nobody minds any more when more is asked for
    over.set(true);
    // what is left for the next reader
    let mut rest = Vec::new();
    if ok {
        block_on(
            async {
                while let Some(p) = src.next().await {
                    rest.extend_from_slice(&p);
                }
            },
            LOST,
        );
    }
    sx::check(ended.get() <= 1, 13);
    let got = got.borrow().clone();
    (got, ok, rest)
}

/// params: property, cuts, window lo, window hi, delays, then what the client sends
pub fn stream() {
    let prop = sx::param(0);
    let (m, lo, hi, dl) = (sx::param(1), sx::param(2) as usize, sx::param(3) as usize, sx::param(4));
    let b = tpl(5);
    let (want, end) = refs::unstuff(&b);
    let packets = cut(&b, m, lo, hi);
    let d = Delays::new(dl);
    let back = sx::choose(2) == 1;
    let (got, ok, rest) = receive(packets, back, &d, prop == 34, prop == 16 && m < 10000 && dl == 0);
    sx::observe_bytes(&got);
    sx::observe(ok as u64);
    match end {
        Some(e) => {
            sx::cover(0);
            if e < b.len() {
                sx::cover(1);
            }
            sx::check(ok, 1);
            if prop == 15 || prop == 34 {
                if want.len() + 3 < e {
                    sx::cover(2);
                }
                sx::check(eq(&got, &want), 2);
                sx::check(eq(&rest, &b[e..]), 3);
            }
        }
        None => {
            sx::cover(3);
            sx::check(!ok, 4);
            // whatever may follow
            let sure = refs::unstuff_sure(&b);
            sx::check(got.len() <= sure.len() && eq(&got, &sure[..got.len().min(sure.len())]), 5);
        }
    }
}

/// params: cuts of the message, cuts of the wire, delays, trailing length, then message and trail
pub fn wire() {
    let (m1, m2, dl, tr) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3) as usize);
    let b = tpl(4);
    let n = b.len() - tr.min(b.len());
    let (msg, trail) = b.split_at(n);
    let pieces = cut(msg, m1, 0, msg.len());
    let d = Delays::new(dl);
    let out = Out::new(&d);
    let w = out.w.clone();
    let r = block_on(
        async move {
            let mut s = DataSink::new(out);
            for p in pieces {
                s.send(p.freeze()).await?;
            }
            s.end().await.map(|_| ())
        },
        LOST,
    );
    sx::check(r.is_ok(), 1);
    let mut wire = w.borrow().bytes.clone();
    let end = wire.len();
    wire.extend_from_slice(trail);
    let packets = cut(&wire, m2, 0, end);
    let (got, ok, rest) = receive(packets, false, &d, false, false);
    let mut want = msg.to_vec();
    if !msg.is_empty() && !(n >= 2 && msg[n - 2] == b'\r' && msg[n - 1] == b'\n') {
        sx::cover(0);
        want.extend_from_slice(b"\r\n");
    } else {
        sx::cover(1);
    }
    sx::observe_bytes(&got);
    sx::check(ok, 2);
    sx::check(eq(&got, &want), 3);
    sx::check(eq(&rest, trail), 4);
}

/// Prependable against a queue.  params: number of items, operations, delays
pub fn prependable() {
    let (n, ops, dl) = (sx::param(0), sx::param(1), sx::param(2));
    let mut v = Vec::new();
    for i in 0..n {
        let t = sx::bytes::<1>();
        v.push(BytesMut::from(&[t[0], i as u8][..]));
    }
    let mut model: VecDeque<Vec<u8>> = v.iter().map(|p| p.to_vec()).collect();
    let d = Delays::new(dl);
    let src = Packets::new(v, &d);
    let ended = src.ended.clone();
    let mut p = Prependable::new(src);
    let mut waiting = false;
    let mut over = false;
    let mut delayed = 0;
    for i in 0..ops {
        if sx::choose(2) == 1 {
            let t = [sx::bytes::<1>()[0], 100 + i as u8];
            let r = p.prepend(BytesMut::from(&t[..]));
            sx::observe(r.is_ok() as u64);
            sx::check(r.is_ok() == !waiting, 1);
            if !waiting {
                model.push_front(t.to_vec());
                waiting = true;
            } else {
                sx::cover(0);
            }
        } else {
            // one poll
            let before = d.0.get();
            let r = block_on(PollOnce(&mut p), LOST);
            match r {
                None => {
                    delayed += 1;
                    // an item put back is there; only the source may be late
                    sx::check(!waiting && d.0.get() < before, 2);
                }
                Some(None) => {
                    sx::cover(1);
                    sx::check(model.is_empty(), 3);
                    over = true;
                }
                Some(Some(x)) => {
                    sx::observe_bytes(&x);
                    match model.pop_front() {
                        Some(y) => sx::check(eq(&x, &y), 4),
                        None => sx::check(false, 4),
                    }
                    waiting = false;
                }
            }
        }
    }
    if over {
        sx::cover(2);
    }
    if delayed > 0 {
        sx::cover(3);
    }
    sx::check(ended.get() <= 1, 5);
}

struct PollOnce<'a, S: futures::Stream>(&'a mut Prependable<S>);
impl<'a, S: futures::Stream<Item = BytesMut> + Unpin> Future for PollOnce<'a, S> {
    type Output = Option<Option<BytesMut>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        use futures::Stream;
        match Pin::new(&mut *self.0).poll_next(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => Poll::Ready(None),
        }
    }
}

#[allow(dead_code)]
fn unused(_: Bytes) {}
