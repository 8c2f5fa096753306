// A session with an in-memory client, for the demonstrations.
#![allow(dead_code)]
use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, future, stream, Future, Sink, Stream, StreamExt};
use smtp_message::{DataStream, Email, ReplyCode, SmtpString};
use smtp_server::*;
use std::pin::Pin;
use std::task::{Context, Poll};

pub type Verdict = Option<(u16, String)>;

pub struct Cfg {
    pub log: Vec<String>,
    pub from: Box<dyn FnMut(&str) -> Verdict>,
    pub to: Box<dyn FnMut(&str) -> Verdict>,
    pub data: Box<dyn FnMut() -> Verdict>,
    pub mail: Box<dyn FnMut(&[u8], bool) -> Verdict>,
    pub unrecognized: String,
}

impl Cfg {
    pub fn new() -> Cfg {
        Cfg {
            log: vec![],
            from: Box::new(|_| None),
            to: Box::new(|_| None),
            data: Box::new(|| None),
            mail: Box::new(|_, _| None),
            unrecognized: "what?".into(),
        }
    }
}

pub fn s<T: smtp_message::Sendable>(t: &T) -> String {
    String::from_utf8_lossy(SmtpString::from_sendable(t).unwrap().bytes()).into()
}

fn d(v: Verdict) -> Decision {
    match v {
        None => Decision::Accept,
        Some((c, t)) => Decision::Reject(Refusal { code: ReplyCode::custom(c), msg: t.as_str().into() }),
    }
}

impl Config<()> for Cfg {
    fn hostname(&self) -> SmtpString {
        "h".into()
    }
    fn filter_from<'a>(&'a mut self, a: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let t = s(a);
        self.log.push(format!("from {}", t));
        let r = (self.from)(&t);
        Box::pin(future::ready(d(r)))
    }
    fn filter_to<'a>(&'a mut self, a: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let t = s(a);
        self.log.push(format!("to {}", t));
        let r = (self.to)(&t);
        Box::pin(future::ready(d(r)))
    }
    fn filter_data<'a>(&'a mut self, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        self.log.push("data".into());
        let r = (self.data)();
        Box::pin(future::ready(d(r)))
    }
    fn handle_mail<'a, S>(&'a mut self, st: &'a mut DataStream<S>, meta: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            let mut b = Vec::new();
            while let Some(p) = st.next().await {
                b.extend_from_slice(&p);
            }
            let whole = st.complete().is_ok();
            let to: Vec<String> = meta.to.iter().map(s).collect();
            self.log.push(format!("mail {}>{} {:?} {}", s(&meta.from), to.join(","), String::from_utf8_lossy(&b), if whole { "whole" } else { "cut" }));
            d((self.mail)(&b, whole))
        })
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::COMMAND_UNRECOGNIZED, self.unrecognized.as_str().into())
    }
}

/// collects what is written; fails from the `fail`th write on
pub struct Out {
    pub bytes: Vec<u8>,
    pub writes: usize,
    pub fail: usize,
}
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.writes += 1;
        if self.writes > self.fail {
            return Err(());
        }
        self.bytes.extend_from_slice(&b);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}

/// (what the client was sent, whether the session succeeded)
pub fn session_failing(packets: &[&[u8]], cfg: &mut Cfg, fail: usize) -> (String, bool) {
    let mut out = Out { bytes: vec![], writes: 0, fail };
    let v: Vec<BytesMut> = packets.iter().map(|p| BytesMut::from(*p)).collect();
    let r = block_on(interact(stream::iter(v), Pin::new(&mut out), (), cfg));
    (String::from_utf8(out.bytes).unwrap(), r.is_ok())
}
pub fn session(packets: &[&[u8]], cfg: &mut Cfg) -> String {
    let (o, ok) = session_failing(packets, cfg, usize::max_value());
    assert!(ok);
    o
}
pub fn codes(out: &str) -> Vec<&str> {
    out.lines().map(|l| &l[..3]).collect()
}
