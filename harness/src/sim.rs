//! A simulated connection in virtual time, for the blocking and the asynchronous client alike.
//!
//! What the server does is a list of timed events; what happens to writes is a list of outcomes.
//! Times are whole milliseconds since the virtual clock started.

use crate::clock;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{BufRead, ErrorKind, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use vinezombie::client::conn::{Connection, ConnectionTokio, ReadTimeout, WriteTimeout};

pub fn now_ms() -> u64 {
    clock::now() / 1_000_000
}

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Data(Vec<u8>),
    Err(ErrorKind),
    /// Only for blocking readers; others do not notice.
    Interrupted,
    Eof,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Ends a write here, short of what was asked if there was more.
    Short,
    Interrupted,
    Err(ErrorKind),
    /// Accepts nothing, and says so.
    Zero,
    /// Accepts nothing until this much later.
    Block(u64),
}

/// What happens to a flush that has something to flush.
#[derive(Clone, Debug, PartialEq)]
pub enum Flush {
    Done,
    Err(ErrorKind),
    /// Is not done until this much later.
    Block(u64),
}

#[derive(Default, Debug)]
pub struct Wire {
    pub inbox: VecDeque<(u64, In)>,
    /// What happens to writes once this many bytes have been accepted.
    pub outs: VecDeque<(usize, Out)>,
    pub flushes: VecDeque<Flush>,
    /// Every byte accepted, and when.
    pub sent: Vec<(u64, u8)>,
    dirty: bool,
    blocked_until: Option<u64>,
    flush_until: Option<u64>,
    rto: Option<Duration>,
    wto: Option<Duration>,
    /// What a blocking read reports when it times out.
    pub would_block: bool,
    /// Set if a zero timeout was requested.
    pub misuse: Option<&'static str>,
}

impl Wire {
    pub fn unblock(&mut self) {
        self.blocked_until = None;
    }
    pub fn unstall(&mut self) {
        self.flush_until = None;
    }
}

type Sleep = Option<Pin<Box<tokio::time::Sleep>>>;

pub struct Conn {
    cur: Vec<u8>,
    pos: usize,
    pub w: Rc<RefCell<Wire>>,
    rsleep: Sleep,
    wsleep: Sleep,
}
impl Conn {
    pub fn new() -> (Conn, Rc<RefCell<Wire>>) {
        let w = Rc::new(RefCell::new(Wire::default()));
        (Conn { cur: Vec::new(), pos: 0, w: w.clone(), rsleep: None, wsleep: None }, w)
    }
    /// The next event, if it is due.
    fn due(&mut self) -> Option<std::io::Result<()>> {
        let mut w = self.w.borrow_mut();
        let (t, _) = w.inbox.front()?;
        if *t > now_ms() {
            return None;
        }
        match w.inbox.pop_front().unwrap().1 {
            In::Data(d) => {
                self.cur = d;
                self.pos = 0;
                Some(Ok(()))
            }
            In::Err(k) => Some(Err(k.into())),
            In::Interrupted => Some(Err(ErrorKind::Interrupted.into())),
            In::Eof => {
                self.cur.clear();
                self.pos = 0;
                Some(Ok(()))
            }
        }
    }
    fn next_time(&self) -> Option<u64> {
        self.w.borrow().inbox.front().map(|(t, _)| *t)
    }
}

impl Read for Conn {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(out.len());
        out[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Conn {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        while self.pos >= self.cur.len() {
            match self.due() {
                Some(r) => {
                    r?;
                    // An end of stream, or data (possibly none, which reads as an end of stream).
                    break;
                }
                None => {
                    let rto = self.w.borrow().rto;
                    let now = now_ms();
                    let t = self.next_time().expect("a blocking read with no event to come");
                    match rto {
                        Some(r) if Duration::from_millis(t - now) > r => {
                            clock::advance(r);
                            let k = if self.w.borrow().would_block { ErrorKind::WouldBlock } else { ErrorKind::TimedOut };
                            return Err(k.into());
                        }
                        _ => clock::advance(Duration::from_millis(t - now)),
                    }
                }
            }
        }
        Ok(&self.cur[self.pos..])
    }
    fn consume(&mut self, n: usize) {
        assert!(self.pos + n <= self.cur.len(), "consumed more than was offered");
        self.pos += n;
    }
}
impl Write for Conn {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut w = self.w.borrow_mut();
        loop {
            let at = w.sent.len();
            let room = match w.outs.front() {
                Some((n, _)) if *n > at => *n - at,
                Some(_) => 0,
                None => usize::MAX,
            };
            if room > 0 {
                let n = room.min(buf.len());
                w.sent.extend(buf[..n].iter().map(|b| (now_ms(), *b)));
                w.dirty = true;
                return Ok(n);
            }
            if let Some((_, Out::Block(d))) = w.outs.front() {
                let until = now_ms() + *d;
                let until = *w.blocked_until.get_or_insert(until);
                let left = Duration::from_millis(until.saturating_sub(now_ms()));
                if let Some(t) = w.wto.filter(|t| *t < left) {
                    clock::advance(t);
                    return Err(ErrorKind::TimedOut.into());
                }
                clock::advance(left);
                w.blocked_until = None;
                w.outs.pop_front();
                continue;
            }
            match w.outs.pop_front().unwrap().1 {
                Out::Interrupted => return Err(ErrorKind::Interrupted.into()),
                Out::Err(k) => return Err(k.into()),
                Out::Zero => return Ok(0),
                _ => (),
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut w = self.w.borrow_mut();
        if !w.dirty {
            return Ok(());
        }
        if let Some(Flush::Block(d)) = w.flushes.front() {
            let until = now_ms() + *d;
            let until = *w.flush_until.get_or_insert(until);
            let left = Duration::from_millis(until.saturating_sub(now_ms()));
            if let Some(t) = w.wto.filter(|t| *t < left) {
                clock::advance(t);
                return Err(ErrorKind::TimedOut.into());
            }
            clock::advance(left);
            w.flush_until = None;
        }
        w.dirty = false;
        match w.flushes.pop_front() {
            Some(Flush::Err(k)) => Err(k.into()),
            _ => Ok(()),
        }
    }
}
impl ReadTimeout for Conn {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            self.w.borrow_mut().misuse = Some("a zero read timeout was set");
            return Err(ErrorKind::InvalidInput.into());
        }
        self.w.borrow_mut().rto = t;
        Ok(())
    }
}
impl WriteTimeout for Conn {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        if t == Some(Duration::ZERO) {
            self.w.borrow_mut().misuse = Some("a zero write timeout was set");
            return Err(ErrorKind::InvalidInput.into());
        }
        self.w.borrow_mut().wto = t;
        Ok(())
    }
}
impl Connection for Conn {
    type BufRead = Self;
    type Write = Self;
    fn as_bufread(&mut self) -> &mut Self {
        self
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}

fn sleep_until(slot: &mut Sleep, t: u64, cx: &mut Context<'_>) -> Poll<()> {
    let mut s = Box::pin(tokio::time::sleep(Duration::from_millis(t - now_ms())));
    let p = s.as_mut().poll(cx);
    *slot = if p.is_pending() { Some(s) } else { None };
    p
}

impl tokio::io::AsyncBufRead for Conn {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let me = self.get_mut();
        me.rsleep = None;
        while me.pos >= me.cur.len() {
            if matches!(me.w.borrow().inbox.front(), Some((_, In::Interrupted))) {
                me.w.borrow_mut().inbox.pop_front();
                continue;
            }
            match me.due() {
                Some(Err(e)) => return Poll::Ready(Err(e)),
                Some(Ok(())) => break,
                None => {
                    let t = me.next_time().expect("a read with no event to come");
                    if sleep_until(&mut me.rsleep, t, cx).is_pending() {
                        return Poll::Pending;
                    }
                }
            }
        }
        Poll::Ready(Ok(&me.cur[me.pos..]))
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        BufRead::consume(self.get_mut(), n)
    }
}
impl tokio::io::AsyncRead for Conn {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        let n = match tokio::io::AsyncBufRead::poll_fill_buf(self.as_mut(), cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.remaining());
                buf.put_slice(&b[..n]);
                n
            }
        };
        BufRead::consume(&mut *self, n);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let me = self.get_mut();
        me.wsleep = None;
        loop {
            {
                let mut w = me.w.borrow_mut();
                let at = w.sent.len();
                if matches!(w.outs.front(), Some((n, Out::Interrupted | Out::Short)) if *n <= at) {
                    w.outs.pop_front();
                    continue;
                }
            }
            let block = {
                let w = me.w.borrow();
                match w.outs.front() {
                    Some((n, Out::Block(d))) if *n <= w.sent.len() && !buf.is_empty() => Some(*d),
                    _ => None,
                }
            };
            let Some(d) = block else {
                return Poll::Ready(Write::write(me, buf));
            };
            let until = *me.w.borrow_mut().blocked_until.get_or_insert(now_ms() + d);
            if until > now_ms() {
                if sleep_until(&mut me.wsleep, until, cx).is_pending() {
                    return Poll::Pending;
                }
            } else {
                let mut w = me.w.borrow_mut();
                w.blocked_until = None;
                w.outs.pop_front();
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let me = self.get_mut();
        me.wsleep = None;
        let block = {
            let w = me.w.borrow();
            match w.flushes.front() {
                Some(Flush::Block(d)) if w.dirty => Some(*d),
                _ => None,
            }
        };
        if let Some(d) = block {
            let until = *me.w.borrow_mut().flush_until.get_or_insert(now_ms() + d);
            while until > now_ms() {
                if sleep_until(&mut me.wsleep, until, cx).is_pending() {
                    return Poll::Pending;
                }
            }
        }
        Poll::Ready(Write::flush(me))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl ConnectionTokio for Conn {
    type AsyncBufRead = Self;
    type AsyncWrite = Self;
    fn as_bufread(&mut self) -> Pin<&mut Self> {
        Pin::new(self)
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}

/// Runs futures on tokio's paused clock, which moves on when nothing else can, and keeps the
/// virtual clock of the standard library in step with it.
pub struct Tokio {
    rt: tokio::runtime::Runtime,
    t0: tokio::time::Instant,
}
impl Tokio {
    pub fn new() -> Tokio {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let now = clock::now();
        let t0 = {
            let _g = rt.enter();
            tokio::time::Instant::now() - Duration::from_nanos(now)
        };
        Tokio { rt, t0 }
    }
    pub fn run<F: Future>(&self, f: F) -> F::Output {
        let t0 = self.t0;
        let mut f = std::pin::pin!(f);
        self.rt.block_on(std::future::poll_fn(move |cx| {
            clock::set((tokio::time::Instant::now() - t0).as_nanos() as u64);
            f.as_mut().poll(cx)
        }))
    }
    pub fn advance(&self, d: Duration) {
        self.run(tokio::time::advance(d));
        self.run(async {});
    }
}
