//! C10: from byte streams to messages.

#![allow(deprecated)]

use super::facet;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use std::io::{BufRead, ErrorKind, Read};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio_util::codec::Decoder;
use vinezombie::error::ParseError;
use vinezombie::ircmsg::*;

/// Tags (8191 from a server, 4096 from a client) and 512 bytes of message.
const SERVER_MAX: usize = 8191 + 512;
const CLIENT_MAX: usize = 4096 + 512;

#[derive(Clone, Debug)]
pub enum Ev {
    Data(Vec<u8>),
    WouldBlock,
    Interrupted,
    Reset,
    Eof,
}

/// Plays a script of reads. Data is handed out chunk by chunk; the other events happen once each.
/// When the script is over, every read is an end of stream.
pub struct Script {
    evs: std::collections::VecDeque<Ev>,
    pub consumed: usize,
    /// How many events other than data have been delivered.
    pub faults: usize,
}
impl Script {
    pub fn new(evs: &[Ev]) -> Self {
        Script { evs: evs.iter().cloned().collect(), consumed: 0, faults: 0 }
    }
    pub fn over(&self) -> bool {
        self.evs.is_empty()
    }
}
impl Read for Script {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Script {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        while matches!(self.evs.front(), Some(Ev::Data(d)) if d.is_empty()) {
            self.evs.pop_front();
        }
        let fault = match self.evs.front() {
            None => return Ok(&[]),
            Some(Ev::Data(_)) => None,
            Some(Ev::WouldBlock) => Some(Err(ErrorKind::WouldBlock.into())),
            Some(Ev::Interrupted) => Some(Err(ErrorKind::Interrupted.into())),
            Some(Ev::Reset) => Some(Err(ErrorKind::ConnectionReset.into())),
            Some(Ev::Eof) => Some(Ok(&[][..])),
        };
        if let Some(f) = fault {
            self.evs.pop_front();
            self.faults += 1;
            return f;
        }
        match self.evs.front() {
            Some(Ev::Data(d)) => Ok(d),
            _ => unreachable!(),
        }
    }
    fn consume(&mut self, n: usize) {
        if n == 0 {
            return;
        }
        match self.evs.front_mut() {
            Some(Ev::Data(d)) => {
                assert!(n <= d.len(), "consumed more than was offered");
                d.drain(..n);
                self.consumed += n;
            }
            _ => panic!("consumed without data"),
        }
    }
}
/// The same script for asynchronous readers: would-block becomes pending.
impl tokio::io::AsyncRead for Script {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        let n = match self.as_mut().poll_fill(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.remaining());
                buf.put_slice(&b[..n]);
                n
            }
        };
        BufRead::consume(&mut *self, n);
        Poll::Ready(Ok(()))
    }
}
impl Script {
    fn poll_fill(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let me = self.get_mut();
        while matches!(me.evs.front(), Some(Ev::Data(d)) if d.is_empty()) {
            me.evs.pop_front();
        }
        if matches!(me.evs.front(), Some(Ev::WouldBlock | Ev::Interrupted)) {
            me.evs.pop_front();
            me.faults += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(me.fill_buf())
    }
}
impl tokio::io::AsyncBufRead for Script {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        self.poll_fill(cx)
    }
    fn consume(self: Pin<&mut Self>, n: usize) {
        BufRead::consume(self.get_mut(), n)
    }
}

pub struct Stream {
    pub bytes: Vec<u8>,
    pub limit: usize,
}

fn line_content(src: &mut Src, ar: &Arena, server: bool) -> Vec<u8> {
    match src.weighted(&[6, 3, 2, 1, 1]) {
        0 => {
            let mut v = Vec::new();
            if server {
                let _ = ServerCodec::write_to(&mk_server(src, ar), &mut v);
            } else {
                let _ = ClientCodec::write_to(&mk_client(src, ar), &mut v);
            }
            v
        }
        1 => src.pick(&[&b"PING x"[..], b"A", b":s 001 n :hi", b"@a=b C", b"NOTICE * :a b", b"X\r", b"\xff"]).to_vec(),
        2 => {
            let mut v = raw(src, 20);
            v.retain(|b| *b != b'\n');
            v
        }
        3 => Vec::new(),
        _ => src.pick(&[&b" "[..], b"\t", b" A", b"\0", b"A\0", b"A\0B", b"A\rB", b"\rA", b"\r\r"]).to_vec(),
    }
}

fn gen_stream(src: &mut Src, ar: &Arena, server: bool, limit: usize) -> Stream {
    let n = src.range(1, 6);
    let mut bytes = Vec::new();
    for _ in 0..n {
        let nl: &[u8] = *src.pick(&[&b"\r\n"[..], b"\n", b"\r\n", b"\r\r\n"]);
        if src.chance(1, 40) {
            // Around the limit.
            let want = limit - 3 + src.usize_below(7);
            let mut v = b"PRIVMSG x :".to_vec();
            v.resize(want - nl.len(), b'y');
            if src.chance(1, 6) {
                let i = src.usize_below(v.len());
                v[i] = 0;
            }
            bytes.extend_from_slice(&v);
            bytes.extend_from_slice(nl);
        } else if src.chance(1, 60) {
            let k = src.range(1, 3);
            bytes.extend(std::iter::repeat(b'z').take(limit * k));
            bytes.extend_from_slice(nl);
        } else {
            bytes.extend_from_slice(&line_content(src, ar, server));
            bytes.extend_from_slice(nl);
        }
    }
    if src.chance(1, 3) {
        // Ends inside of a line.
        bytes.extend_from_slice(&line_content(src, ar, server));
    }
    Stream { bytes, limit }
}

/// One line's worth of expectation.
#[derive(Clone, Debug)]
enum Item {
    /// A line that may be a message: its contents without the newline, and the stream position after it.
    Line(Vec<u8>, usize),
    /// A line that cannot be valid.
    Bad(usize),
    /// Over the limit.
    TooLong,
    /// The stream ends with this partial line.
    End(Vec<u8>),
}

fn reference(s: &Stream) -> Vec<Item> {
    let mut out = Vec::new();
    let mut pos = 0;
    loop {
        let rest = &s.bytes[pos..];
        match rest.iter().position(|b| *b == b'\n') {
            Some(i) if i < s.limit => {
                pos += i + 1;
                let mut l = &rest[..i];
                while let Some((b'\r', r)) = l.split_last() {
                    l = r;
                }
                if l.is_empty() {
                    continue;
                }
                if l.iter().any(|b| matches!(b, 0 | b'\r')) {
                    out.push(Item::Bad(pos));
                } else {
                    out.push(Item::Line(l.to_vec(), pos));
                }
            }
            None if rest.len() < s.limit => {
                out.push(Item::End(rest.to_vec()));
                return out;
            }
            _ => {
                out.push(Item::TooLong);
                return out;
            }
        }
    }
}

fn gen_script(src: &mut Src, s: &Stream, faults: bool) -> Vec<Ev> {
    let mut evs = Vec::new();
    let mut pos = 0;
    let big = src.chance(1, 3);
    while pos < s.bytes.len() {
        let left = s.bytes.len() - pos;
        let max = if big || s.bytes.len() > 4000 { 4096 } else { 12 };
        let mut n = match src.below(4) {
            0 => 1,
            1 => src.range(1, 4),
            // Up to or just around the next newline.
            2 => {
                let nl = s.bytes[pos..].iter().position(|b| *b == b'\n').unwrap_or(left);
                (nl + src.usize_below(3)).max(1)
            }
            _ => src.range(1, max),
        }
        .min(left);
        if s.bytes.len() > 4000 {
            n = n.max(left.min(200));
        }
        evs.push(Ev::Data(s.bytes[pos..pos + n].to_vec()));
        pos += n;
        if faults && src.chance(1, 4) {
            let k = src.range(1, 2);
            for _ in 0..k {
                evs.push(match src.below(3) {
                    0 => Ev::WouldBlock,
                    1 => Ev::Interrupted,
                    _ => Ev::Eof,
                });
            }
        }
    }
    evs
}

fn parse_err(e: &std::io::Error) -> Option<&ParseError> {
    e.get_ref().and_then(|e| e.downcast_ref::<ParseError>())
}

/// Bytes of the line under way: everything consumed since the last line ended, blank lines aside.
fn partial(s: &Stream, from: usize, upto: usize) -> Vec<u8> {
    let part = &s.bytes[from..upto];
    match part.iter().rposition(|b| *b == b'\n') {
        Some(i) => part[i + 1..].to_vec(),
        None => part.to_vec(),
    }
}

macro_rules! readers {
    ($name:ident, $async_name:ident, $codec:ident, $msg:ident) => {
        /// Blocking readers.
        fn $name(s: &Stream, evs: &[Ev], owning: bool) -> Result<usize, String> {
            let items = reference(s);
            let mut rd = Script::new(evs);
            let mut buf = Vec::new();
            let mut from = 0;
            let mut msgs = 0;
            let total_ev = evs.len();
            for it in items {
                let mut guard = 0;
                let res: Result<$msg<'static>, std::io::Error> = loop {
                    guard += 1;
                    ensure!(guard < 3 * total_ev + 10, "no progress at {}", rd.consumed);
                    let faults = rd.faults;
                    let over = rd.over();
                    // The methods that codecs replace do the same.
                    let old = (msgs + guard) % 5 == 4;
                    let r: Result<$msg<'static>, _> = if owning && old {
                        $msg::read_owning_from(&mut rd, &mut buf)
                    } else if owning {
                        $codec::read_owning_from(&mut rd, &mut buf)
                    } else if old {
                        use vinezombie::owning::MakeOwning;
                        $msg::read_borrowing_from(&mut rd, &mut buf).map(|m| m.owning())
                    } else {
                        use vinezombie::owning::MakeOwning;
                        $codec::read_borrowing_from(&mut rd, &mut buf).map(|m| m.owning())
                    };
                    match r {
                        Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::UnexpectedEof) => {
                            ensure!(
                                over || rd.faults > faults || rd.over(),
                                "{:?} although data was available at {}",
                                e.kind(),
                                rd.consumed
                            );
                            let want = partial(s, from, rd.consumed);
                            ensure!(buf == want, "after {:?} the buffer holds {}, received {}", e.kind(), show(&buf), show(&want));
                            if over {
                                ensure!(e.kind() == ErrorKind::UnexpectedEof, "at the end: {:?}", e.kind());
                                break Err(e);
                            }
                        }
                        r => break r,
                    }
                };
                match (&it, res) {
                    (Item::Line(l, end), r) => {
                        let want = $msg::parse(l.clone());
                        ensure!(rd.consumed == *end, "after {} the reader is at {}, not {end}", show(l), rd.consumed);
                        match (r, want) {
                            (Ok(m), Ok(w)) => {
                                msgs += 1;
                                ensure!(m == w, "line {} read as {m:?}", show(l));
                                if owning {
                                    ensure!(buf.is_empty(), "buffer not empty after an owning read: {}", show(&buf));
                                }
                            }
                            (Err(e), Err(w)) => {
                                let p = parse_err(&e);
                                ensure!(
                                    p.is_some_and(|p| p.to_string() == w.to_string()),
                                    "line {}: error {e:?}, expected {w:?}",
                                    show(l)
                                );
                            }
                            (r, w) => return Err(format!("line {}: read {r:?}, expected {w:?}", show(l))),
                        }
                        from = *end;
                    }
                    (Item::Bad(end), r) => {
                        match r {
                            Err(e) if matches!(parse_err(&e), Some(ParseError::InvalidLine(_))) => {}
                            r => return Err(format!("invalid line up to {end} gives {r:?}")),
                        }
                        ensure!(rd.consumed == *end, "after an invalid line the reader is at {}, not {end}", rd.consumed);
                        from = *end;
                    }
                    (Item::TooLong, r) => {
                        match r {
                            Err(e) if parse_err(&e).is_some() => {}
                            r => return Err(format!("overlong line gives {r:?}")),
                        }
                        ensure!(rd.consumed <= from_line(s, from) + s.limit, "read {} bytes into an overlong line", rd.consumed - from);
                        return Ok(msgs);
                    }
                    (Item::End(p), r) => match r {
                        Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                            ensure!(buf == *p, "at the end the buffer holds {}, not {}", show(&buf), show(p));
                            ensure!(rd.consumed == s.bytes.len(), "unread data at the end");
                        }
                        r => return Err(format!("stream ending in {} gives {r:?}", show(p))),
                    },
                }
                if !matches!(it, Item::End(_)) {
                    buf.clear();
                }
            }
            Ok(msgs)
        }

        /// Asynchronous readers; a pending read may be abandoned and started over.
        fn $async_name(src: &mut Src, s: &Stream, evs: &[Ev], owning: bool) -> Result<usize, String> {
            let items = reference(s);
            let mut rd = Script::new(evs);
            let mut buf = Vec::new();
            let mut from = 0;
            let mut msgs = 0;
            let total_ev = evs.len();
            for it in items {
                let mut guard = 0;
                let res: Result<$msg<'static>, std::io::Error> = 'item: loop {
                    guard += 1;
                    ensure!(guard < 3 * total_ev + 10, "no progress at {}", rd.consumed);
                    let over = rd.over();
                    let mut cx = Context::from_waker(Waker::noop());
                    let r: Option<Result<$msg<'static>, std::io::Error>> = {
                        macro_rules! drive {
                            ($fut:expr) => {{
                                let mut f = std::pin::pin!($fut);
                                let mut spins = 0;
                                loop {
                                    spins += 1;
                                    ensure!(spins < 3 * total_ev + 10, "asynchronous read does not finish");
                                    match f.as_mut().poll(&mut cx) {
                                        Poll::Ready(r) => break Some(r),
                                        Poll::Pending if src.chance(1, 3) => break None,
                                        Poll::Pending => {}
                                    }
                                }
                            }};
                        }
                        use std::future::Future;
                        use vinezombie::owning::MakeOwning;
                        let old = (msgs + guard) % 5 == 4;
                        if owning && old {
                            drive!($msg::read_owning_from_tokio(&mut rd, &mut buf))
                        } else if owning {
                            drive!($codec::read_owning_from_tokio(&mut rd, &mut buf))
                        } else if old {
                            drive!($msg::read_borrowing_from_tokio(&mut rd, &mut buf)).map(|r| r.map(|m| m.owning()))
                        } else {
                            drive!($codec::read_borrowing_from_tokio(&mut rd, &mut buf)).map(|r| r.map(|m| m.owning()))
                        }
                    };
                    let Some(r) = r else {
                        let want = partial(s, from, rd.consumed);
                        ensure!(buf == want, "after a cancelled read the buffer holds {}, received {}", show(&buf), show(&want));
                        continue;
                    };
                    match r {
                        Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                            let want = partial(s, from, rd.consumed);
                            ensure!(buf == want, "after {:?} the buffer holds {}, received {}", e.kind(), show(&buf), show(&want));
                            if over {
                                break 'item Err(e);
                            }
                        }
                        r => break 'item r,
                    }
                };
                match (&it, res) {
                    (Item::Line(l, end), r) => {
                        let want = $msg::parse(l.clone());
                        ensure!(rd.consumed == *end, "after {} the reader is at {}, not {end}", show(l), rd.consumed);
                        match (r, want) {
                            (Ok(m), Ok(w)) => {
                                msgs += 1;
                                ensure!(m == w, "line {} read as {m:?}", show(l));
                            }
                            (Err(e), Err(w)) => ensure!(
                                parse_err(&e).is_some_and(|p| p.to_string() == w.to_string()),
                                "line {}: error {e:?}, expected {w:?}",
                                show(l)
                            ),
                            (r, w) => return Err(format!("line {}: read {r:?}, expected {w:?}", show(l))),
                        }
                        from = *end;
                    }
                    (Item::Bad(end), r) => {
                        match r {
                            Err(e) if matches!(parse_err(&e), Some(ParseError::InvalidLine(_))) => {}
                            r => return Err(format!("invalid line up to {end} gives {r:?}")),
                        }
                        from = *end;
                    }
                    (Item::TooLong, r) => {
                        match r {
                            Err(e) if parse_err(&e).is_some() => {}
                            r => return Err(format!("overlong line gives {r:?}")),
                        }
                        return Ok(msgs);
                    }
                    (Item::End(p), r) => match r {
                        Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                            ensure!(buf == *p, "at the end the buffer holds {}, not {}", show(&buf), show(p));
                        }
                        r => return Err(format!("stream ending in {} gives {r:?}", show(p))),
                    },
                }
                if !matches!(it, Item::End(_)) {
                    buf.clear();
                }
            }
            Ok(msgs)
        }
    };
}

/// Where the line that contains or follows position `from` begins, blank lines skipped.
fn from_line(s: &Stream, from: usize) -> usize {
    let mut at = from;
    loop {
        let rest = &s.bytes[at..];
        match rest.iter().position(|b| *b == b'\n') {
            Some(i) if i < s.limit && rest[..i].iter().all(|b| *b == b'\r') => at += i + 1,
            _ => return at,
        }
    }
}

readers!(sync_server, async_server, ClientCodec, ServerMsg);
readers!(sync_client, async_client, ServerCodec, ClientMsg);

/// The stream decoder, fed the same chunks.
fn decoder<C, M>(mut c: C, s: &Stream, evs: &[Ev], parse: fn(Vec<u8>) -> Result<M, ParseError>) -> Result<Option<usize>, String>
where
    C: Decoder<Item = M, Error = std::io::Error>,
    M: PartialEq + std::fmt::Debug,
{
    // Unlike the readers it also skips white space at the start of a line.
    let mut items = Vec::new();
    for it in reference(s) {
        if let Item::Line(l, _) = &it {
            if l[0].is_ascii_whitespace() {
                return Ok(None);
            }
        }
        items.push(it);
    }
    if s.bytes.split(|b| *b == b'\n').any(|l| {
        l.first().is_some_and(|b| b.is_ascii_whitespace()) && !l.iter().all(|b| *b == b'\r')
    }) {
        return Ok(None);
    }
    let mut items = items.into_iter();
    let mut buf = bytes::BytesMut::new();
    let mut msgs = 0;
    for ev in evs {
        let Ev::Data(d) = ev else { continue };
        buf.extend_from_slice(d);
        loop {
            let r = match c.decode(&mut buf) {
                Ok(None) => break,
                Ok(Some(m)) => Ok(m),
                Err(e) => Err(e),
            };
            match (items.next(), r) {
                (Some(Item::Line(l, _)), r) => match (r, parse(l.clone())) {
                    (Ok(m), Ok(w)) => {
                        msgs += 1;
                        ensure!(m == w, "decoder: line {} gives {m:?}", show(&l));
                    }
                    (Err(e), Err(w)) => {
                        ensure!(
                            parse_err(&e).is_some_and(|p| p.to_string() == w.to_string()),
                            "decoder: line {}: error {e:?}, expected {w:?}",
                            show(&l)
                        )
                    }
                    (r, w) => return Err(format!("decoder: line {}: {r:?}, expected {w:?}", show(&l))),
                },
                // What follows the error is not specified.
                (Some(Item::Bad(_) | Item::TooLong), Err(_)) => return Ok(Some(msgs)),
                (it, r) => return Err(format!("decoder: {r:?} where {it:?} was expected")),
            }
        }
    }
    match items.next() {
        Some(Item::End(p)) => {
            let r = c.decode_eof(&mut buf);
            let blank = p.iter().all(|b| b.is_ascii_whitespace());
            if p.contains(&0) {
                ensure!(r.is_err(), "decoder: partial line {} with a NUL gives {r:?}", show(&p));
            } else {
                ensure!(
                    matches!((&r, blank), (Ok(None), true) | (Err(_), false)),
                    "decoder: partial line {} gives {r:?}",
                    show(&p)
                );
            }
        }
        // A partial line with a NUL is an error already.
        it => return Err(format!("decoder: stream over, expected {it:?}")),
    }
    Ok(Some(msgs))
}

pub fn c10_streams(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let server = src.bool();
    let limit = if server { SERVER_MAX } else { CLIENT_MAX };
    let s = gen_stream(src, &ar, server, limit);
    let evs = gen_script(src, &s, true);
    let owning = src.bool();
    ctx.sample(|| format!("{evs:?}"));
    let n = if server { sync_server(&s, &evs, owning)? } else { sync_client(&s, &evs, owning)? };
    let m = if server { async_server(src, &s, &evs, owning)? } else { async_client(src, &s, &evs, owning)? };
    ensure!(n == m, "{n} messages blocking, {m} asynchronous");
    if n >= 2 && evs.len() > 3 {
        ctx.nontrivial();
    }
    if s.bytes.len() > limit {
        ctx.label("longer than the limit");
    }
    if evs.iter().any(|e| !matches!(e, Ev::Data(_))) {
        ctx.label("faults");
    }
    Ok(())
}

pub fn c10_decoder(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let server = src.bool();
    let limit = if server { SERVER_MAX } else { CLIENT_MAX };
    let s = gen_stream(src, &ar, server, limit);
    // A NUL ends the decoder's line early: where it is in the partial line at the end does not matter.
    let evs = gen_script(src, &s, false);
    ctx.sample(|| format!("{evs:?}"));
    let tail_nul = s.bytes.rsplit(|b| *b == b'\n').next().is_some_and(|t| t.contains(&0));
    if tail_nul {
        return Ok(());
    }
    let n = if server {
        decoder(ClientCodec, &s, &evs, |v| ServerMsg::parse(v))?
    } else {
        decoder(ServerCodec, &s, &evs, |v| ClientMsg::parse(v))?
    };
    match n {
        Some(n) if n >= 2 => ctx.nontrivial(),
        Some(_) => {}
        None => ctx.label("skipped: white space before a line"),
    }
    Ok(())
}

/// Every fault at every position of a short stream.
fn c10_positions(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let server = src.bool();
    let limit = if server { SERVER_MAX } else { CLIENT_MAX };
    let mut bytes = Vec::new();
    for _ in 0..src.range(1, 3) {
        let l = line_content(src, &ar, server);
        bytes.extend_from_slice(&l[..l.len().min(30)]);
        bytes.extend_from_slice(src.pick(&[&b"\r\n"[..], b"\n"]));
    }
    if src.bool() {
        bytes.extend_from_slice(b"PI");
    }
    let s = Stream { bytes, limit };
    ctx.sample(|| show(&s.bytes));
    ctx.nontrivial();
    let mut all = None;
    for at in 0..=s.bytes.len() {
        for ev in [Ev::WouldBlock, Ev::Interrupted, Ev::Eof] {
            let evs = [Ev::Data(s.bytes[..at].to_vec()), ev.clone(), Ev::Data(s.bytes[at..].to_vec())];
            for owning in [false, true] {
                let n = if server { sync_server(&s, &evs, owning) } else { sync_client(&s, &evs, owning) };
                let n = n.map_err(|e| format!("{ev:?} at {at} of {}: {e}", show(&s.bytes)))?;
                let m = if server { async_server(src, &s, &evs, owning) } else { async_client(src, &s, &evs, owning) };
                let m = m.map_err(|e| format!("{ev:?} at {at} of {}: {e}", show(&s.bytes)))?;
                ensure!(n == m && *all.get_or_insert(n) == n, "message count depends on {ev:?} at {at} of {}", show(&s.bytes));
            }
        }
        // Any other failure is passed on and loses nothing that was delivered before it.
        if server {
            let evs = [Ev::Data(s.bytes[..at].to_vec()), Ev::Reset];
            let mut rd = Script::new(&evs);
            let mut buf = Vec::new();
            loop {
                match ClientCodec::read_owning_from(&mut rd, &mut buf) {
                    Ok(_) => buf.clear(),
                    Err(e) if e.kind() == ErrorKind::ConnectionReset => {
                        let want = partial(&s, 0, at);
                        ensure!(buf == want, "after a reset at {at} the buffer holds {}, not {}", show(&buf), show(&want));
                        break;
                    }
                    Err(e) if parse_err(&e).is_some() => buf.clear(),
                    Err(e) => return Err(format!("a reset at {at} is reported as {e:?}")),
                }
            }
        }
    }
    Ok(())
}

pub fn c10() -> Vec<Facet> {
    vec![
        facet("streams", 400_000, 20_000_000, c10_streams, "at least two messages arrive in more than three reads or faults"),
        facet("decoder", 400_000, 20_000_000, c10_decoder, "at least two messages decoded"),
        facet("positions", 8_000, 400_000, c10_positions, "a would-block, interruption, end of stream and failure at every position"),
    ]
}
