//! C01-C03: messages on the wire.

#![allow(deprecated)]

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::io::Write;
use tokio_util::codec::Encoder;
use vinezombie::error::ParseError;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

/// A writer that accepts a few bytes at a time and is interrupted now and then.
pub struct Dribble<'s> {
    pub out: Vec<u8>,
    pub src: &'s mut Src,
}
impl Write for Dribble<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.src.chance(1, 8) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = self.src.range(1, 9).min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Asynchronous sink accepting a few bytes at a time, sometimes pending.
pub struct AsyncDribble {
    pub out: Vec<u8>,
    pub plan: Vec<u8>,
    pub pos: usize,
}
impl tokio::io::AsyncWrite for AsyncDribble {
    fn poll_write(
        mut self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
        b: &[u8],
    ) -> std::task::Poll<std::io::Result<usize>> {
        let p = if self.plan.is_empty() { 255 } else { self.plan[self.pos % self.plan.len()] };
        self.pos += 1;
        if p == 0 && self.pos % 3 != 0 {
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        let n = (p.max(1) as usize).min(b.len());
        self.out.extend_from_slice(&b[..n]);
        std::task::Poll::Ready(Ok(n))
    }
    fn poll_flush(
        self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
    ) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_shutdown(
        self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
    ) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime =
            tokio::runtime::Builder::new_current_thread().build().unwrap();
    }
    RT.with(|rt| rt.block_on(f))
}

fn check_wire(wire: &[u8]) -> Result<(), String> {
    ensure!(
        !wire.iter().any(|b| matches!(b, 0 | 10 | 13)),
        "written line contains NUL, CR or LF: {}",
        show(wire)
    );
    Ok(())
}

/// The codecs, or the methods they replace.
macro_rules! writers {
    ($codec:ident, $m:expr, $src:expr, $wire:expr) => {{
        let (m, src, wire) = (&$m, $src, &$wire);
        let mut crlf = wire.clone();
        crlf.extend_from_slice(b"\r\n");
        let pre = if src.bool() { raw(src, 12) } else { Vec::new() };
        let mut expect = pre.clone();
        expect.extend_from_slice(&crlf);
        // Plain writer through a dribbling sink.
        let mut d = Dribble { out: Vec::new(), src };
        let old = d.src.chance(1, 4);
        if old { m.write_to(&mut d) } else { $codec::write_to(m, &mut d) }.map_err(|e| format!("write_to: {e}"))?;
        ensure!(d.out == *wire, "dribbled write differs: {} vs {}", show(&d.out), show(wire));
        // Buffered send.
        d.out.clear();
        let mut buf = pre.clone();
        if old { m.send_to(&mut d, &mut buf) } else { $codec::send_to(m, &mut d, &mut buf) }
            .map_err(|e| format!("send_to: {e}"))?;
        ensure!(d.out == expect, "send_to wrote {}, expected {}", show(&d.out), show(&expect));
        ensure!(buf.is_empty(), "send_to left {} in the buffer", show(&buf));
        let src = d.src;
        // Asynchronous send.
        let plan: Vec<u8> = (0..src.range(0, 4)).map(|_| src.below(7) as u8).collect();
        let mut a = AsyncDribble { out: Vec::new(), plan, pos: 0 };
        let mut buf = pre.clone();
        if old { block_on(m.send_to_tokio(&mut a, &mut buf)) } else { block_on($codec::send_to_tokio(m, &mut a, &mut buf)) }
            .map_err(|e| format!("tokio: {e}"))?;
        ensure!(a.out == expect, "send_to_tokio wrote {}, expected {}", show(&a.out), show(&expect));
        ensure!(buf.is_empty(), "send_to_tokio left {} in the buffer", show(&buf));
        // Stream encoder.
        let mut dst = bytes::BytesMut::from(pre.as_slice());
        $codec.encode(m.clone(), &mut dst).map_err(|e| format!("encode: {e}"))?;
        ensure!(dst.as_ref() == expect, "encoder wrote {}, expected {}", show(&dst), show(&expect));
    }};
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn tags_of(t: &Tags) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    // The only iteration the public interface offers is the serialised form.
    let mut w = Vec::new();
    t.write_to(&mut w).map_err(|e| e.to_string())?;
    if w.is_empty() {
        return Ok(Vec::new());
    }
    ensure!(w[0] == b'@', "tags start with {}", show(&w));
    let mut out = Vec::new();
    for e in w[1..].split(|b| *b == b';') {
        let mut it = e.splitn(2, |b| *b == b'=');
        let k = it.next().unwrap().to_vec();
        let v = ref_unescape(it.next().unwrap_or(b""));
        out.push((k, v));
    }
    out.sort();
    Ok(out)
}

/// What was put into a message, kept apart from the message.
struct Parts {
    tags: std::collections::BTreeMap<Vec<u8>, Vec<u8>>,
    source: Option<RefSource>,
    kind: Vec<u8>,
    args: Vec<Vec<u8>>,
}

fn gen_parts(src: &mut Src, server: bool) -> Parts {
    let mut tags = std::collections::BTreeMap::new();
    let n = many(src, 7);
    let plain = n > 7 && src.bool();
    for _ in 0..n {
        let k = if plain { format!("k{}", src.below(200)).into_bytes() } else { of_kind(src, Kind::Key, 10) };
        let v = match src.chance(1, 4) {
            true => Vec::new(),
            false if plain => format!("v;{}", src.below(200)).into_bytes(),
            false => of_kind(src, Kind::NoNul, 24),
        };
        tags.insert(k, v);
    }
    let source = (server && src.bool()).then(|| {
        let nick = of_kind(src, Kind::Nick, 12);
        let mut s = RefSource { nick, user: None, host: None };
        let shape = src.below(4);
        if shape > 0 {
            let mut h = of_kind(src, Kind::Word, 16);
            if h.is_empty() {
                h = b"h".to_vec();
            }
            s.host = Some(h);
        }
        if shape > 1 {
            s.user = Some(of_kind(src, Kind::User, 10));
        }
        s
    });
    let kind = if server && src.bool() {
        format!("{:03}", src.below(1000)).into_bytes()
    } else {
        of_kind(src, Kind::Cmd, 9)
    };
    let n = if src.chance(1, 10) { src.range(0, 20) } else { src.range(0, 4) };
    let mut args: Vec<Vec<u8>> = (0..n).map(|_| of_kind(src, Kind::Arg, 16)).collect();
    if src.bool() {
        args.push(of_kind(src, Kind::Line, 40));
    }
    Parts { tags, source, kind, args }
}

fn build_tags(src: &mut Src, ar: &Arena, p: &Parts) -> Tags<'static> {
    let mut pairs: Vec<_> = p.tags.iter().collect();
    src.shuffle(&mut pairs);
    let pairs: Vec<(Key<'static>, NoNul<'static>)> = pairs
        .into_iter()
        .map(|(k, v)| {
            (
                Key::from_bytes(mk(src, ar, k)).expect("valid key"),
                NoNul::from_bytes(mk(src, ar, v)).expect("valid value"),
            )
        })
        .collect();
    if src.bool() {
        pairs.into_iter().collect()
    } else {
        let mut t = Tags::new();
        let mut e = t.edit();
        for (k, v) in pairs {
            if v.is_empty() && src.bool() {
                e.insert_key(k);
            } else {
                e.insert_pair(k, v);
            }
        }
        drop(e);
        t
    }
}
fn arg_parts(src: &mut Src, ar: &Arena, p: &Parts) -> (Vec<Arg<'static>>, Option<Line<'static>>) {
    let Some((last, init)) = p.args.split_last() else { return (Vec::new(), None) };
    let mut words: Vec<Arg> = init.iter().map(|a| Arg::from_bytes(mk(src, ar, a)).expect("valid arg")).collect();
    match Arg::from_bytes(last.clone()) {
        Ok(w) if src.bool() => {
            words.push(w);
            (words, None)
        }
        _ => (words, Some(Line::from_bytes(mk(src, ar, last)).expect("valid line"))),
    }
}
fn build_args(src: &mut Src, ar: &Arena, p: &Parts) -> Args<'static> {
    let Some((last, init)) = p.args.split_last() else { return Args::empty() };
    let words: Vec<Arg> =
        init.iter().map(|a| Arg::from_bytes(mk(src, ar, a)).expect("valid arg")).collect();
    let last = Line::from_bytes(mk(src, ar, last)).expect("valid line");
    let mut a = Args::empty();
    match src.below(3) {
        0 => Args::new(words, Some(last)),
        1 => {
            a.set(words, Some(last));
            a
        }
        _ => {
            let mut e = a.edit();
            for w in words {
                if src.bool() {
                    e.add_word(w)
                } else {
                    e.add(w);
                }
            }
            e.add(last);
            drop(e);
            a
        }
    }
}
fn build_source(src: &mut Src, ar: &Arena, s: &RefSource) -> Source<'static> {
    let nick = Nick::from_bytes(mk(src, ar, &s.nick)).expect("valid nick");
    let userhost = s.host.as_ref().map(|h| UserHost {
        user: s.user.as_ref().map(|u| User::from_bytes(mk(src, ar, u)).expect("valid user")),
        host: Word::from_bytes(mk(src, ar, h)).expect("valid host"),
    });
    Source { nick, userhost }
}

fn cmp_parts(
    p: &Parts,
    tags: &Tags,
    source: Option<&Source>,
    kind: &[u8],
    args: &Args,
    what: &str,
) -> Result<(), String> {
    ensure_eq!(tags.len(), p.tags.len(), "{what}: number of tags");
    for (k, v) in &p.tags {
        let key = Key::from_bytes(k.clone()).map_err(|e| e.to_string())?;
        let Some(got) = tags.get(key) else {
            return Err(format!("{what}: tag {} missing", show(k)));
        };
        ensure!(got.as_bytes() == v, "{what}: tag {} is {}, expected {}", show(k), show(got), show(v));
    }
    ensure_eq!(source.map(src_of), p.source, "{what}: source");
    ensure!(kind == p.kind, "{what}: kind {}, expected {}", show(kind), show(&p.kind));
    ensure!(
        args_of(args) == p.args,
        "{what}: args {:?}, expected {:?}",
        args_of(args).iter().map(|a| show(a)).collect::<Vec<_>>(),
        p.args.iter().map(|a| show(a)).collect::<Vec<_>>()
    );
    let long = p.args.last().is_some_and(|l| !valid(Kind::Arg, l));
    ensure_eq!(args.is_last_long(), long, "{what}: is_last_long");
    Ok(())
}

fn c01_client(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let p = gen_parts(src, false);
    let cmd = Cmd::from_bytes(mk(src, &ar, &p.kind)).expect("valid cmd");
    let mut m = ClientMsg::new_cmd(cmd);
    m.tags = build_tags(src, &ar, &p);
    if src.chance(1, 3) {
        let (words, last) = arg_parts(src, &ar, &p);
        m = m.with_args(words, last);
    } else {
        m.args = build_args(src, &ar, &p);
    }
    if src.chance(1, 4) {
        m = m.owning();
    }
    cmp_parts(&p, &m.tags, None, &m.cmd, &m.args, "built")?;
    let mut wire = Vec::new();
    ClientCodec::write_to(&m, &mut wire).map_err(|e| e.to_string())?;
    ctx.sample(|| show(&wire));
    if !p.tags.is_empty() || p.args.len() > 1 {
        ctx.nontrivial();
    }
    check_wire(&wire)?;
    if let Ok(text) = std::str::from_utf8(&wire) {
        // Secrets are another matter (C07).
        let shown = m.to_string();
        ensure!(shown == text || shown.contains("<?>"), "a message reads {shown:?}, not {text:?}");
    }
    if p.args.last().is_some_and(|l| !valid(Kind::Arg, l)) {
        ctx.label("long last argument");
    }
    if !p.tags.is_empty() {
        ctx.label("tags");
    }
    writers!(ClientCodec, m, src, wire);
    let back = ClientMsg::parse(ar.bytes(&wire)).map_err(|e| format!("does not parse: {e}: {}", show(&wire)))?;
    ensure!(back == m, "parsed back {back:?}\nfrom {}\nexpected {m:?}", show(&wire));
    ensure!(hash_of(&back) == hash_of(&m), "equal messages hash differently");
    cmp_parts(&p, &back.tags, None, &back.cmd, &back.args, "parsed back")?;
    let own = ClientMsg::parse(wire.clone()).map_err(|e| format!("owned: does not parse: {e}"))?.owning();
    ensure!(own == m, "owned parse {own:?} differs from {m:?}");
    Ok(())
}

pub fn c01_server(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let p = gen_parts(src, true);
    let mut m = match Numeric::from_bytes(&p.kind) {
        Some(n) => {
            ensure_eq!(n.as_bytes().as_slice(), p.kind.as_slice(), "numeric digits");
            let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
            m.kind = n.into();
            m
        }
        None => ServerMsg::new_cmd(Cmd::from_bytes(mk(src, &ar, &p.kind)).expect("valid cmd")),
    };
    m.tags = build_tags(src, &ar, &p);
    m.source = p.source.as_ref().map(|s| {
        let s = build_source(src, &ar, s);
        SharedSource::new(match src.below(3) {
            0 => s.owning(),
            1 => s.owning_merged(),
            _ => s,
        })
    });
    if src.chance(1, 3) {
        let (words, last) = arg_parts(src, &ar, &p);
        m = m.with_args(words, last);
    } else {
        m.args = build_args(src, &ar, &p);
    }
    if src.chance(1, 16) {
        // The ways of starting a message.
        let s = SharedSource::new(build_source(src, &ar, &RefSource { nick: vec![b'n'], user: None, host: None }));
        let target = of_kind(src, Kind::Nick, 5);
        let target = Nick::from_bytes(mk(src, &ar, &target)).expect("valid nick");
        let n = Numeric::from_int(src.below(1000) as u16).unwrap();
        let a = ServerMsg::new_num(n, s.clone(), target.clone());
        ensure!(
            a.tags.is_empty() && a.source.as_ref() == Some(&s) && a.kind == ServerMsgKindRaw::Numeric(n),
            "a numeric reply is made as {a:?}"
        );
        ensure_eq!(args_of(&a.args), vec![target.to_vec()], "arguments of a numeric reply made for {target:?}");
        ensure_eq!((a.args.words().len(), a.args.is_last_long()), (1, false), "arguments of a numeric reply made for {target:?}");
        let b = ServerMsg::new(vinezombie::names::cmd::PRIVMSG, s.clone());
        ensure!(
            b.tags.is_empty() && b.source.as_ref() == Some(&s) && b.kind.as_str() == "PRIVMSG" && b.args.is_empty(),
            "a PRIVMSG is made as {b:?}"
        );
        let c = ClientMsg::new(vinezombie::names::cmd::PRIVMSG);
        ensure!(c.tags.is_empty() && c.cmd == "PRIVMSG" && c.args.is_empty(), "a PRIVMSG is made as {c:?}");
    }
    if src.chance(1, 4) {
        m = m.owning();
    }
    cmp_parts(&p, &m.tags, m.source.as_deref(), m.kind.as_str().as_bytes(), &m.args, "built")?;
    let mut wire = Vec::new();
    ServerCodec::write_to(&m, &mut wire).map_err(|e| e.to_string())?;
    ctx.sample(|| show(&wire));
    if p.source.is_some() && (!p.tags.is_empty() || p.args.len() > 1) {
        ctx.nontrivial();
    }
    if let Some(s) = &p.source {
        ctx.label(match (&s.user, &s.host) {
            (Some(_), _) => "nick!user@host",
            (None, Some(_)) => "nick@host",
            _ => "server name",
        });
    }
    check_wire(&wire)?;
    if let Ok(text) = std::str::from_utf8(&wire) {
        // Secrets are another matter (C07).
        let shown = m.to_string();
        ensure!(shown == text || shown.contains("<?>"), "a message reads {shown:?}, not {text:?}");
    }
    writers!(ServerCodec, m, src, wire);
    let back = ServerMsg::parse(ar.bytes(&wire)).map_err(|e| format!("does not parse: {e}: {}", show(&wire)))?;
    ensure!(back == m, "parsed back {back:?}\nfrom {}\nexpected {m:?}", show(&wire));
    ensure!(hash_of(&back) == hash_of(&m), "equal messages hash differently");
    cmp_parts(&p, &back.tags, back.source.as_deref(), back.kind.as_str().as_bytes(), &back.args, "parsed back")?;
    let own = ServerMsg::parse(wire.clone()).map_err(|e| format!("owned: does not parse: {e}"))?.owning();
    ensure!(own == m, "owned parse {own:?} differs from {m:?}");
    Ok(())
}

/// Parts on their own: tags, source, args, numerics.
fn c01_parts(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let p = gen_parts(src, true);
    let t = build_tags(src, &ar, &p);
    let mut w = Vec::new();
    t.write_to(&mut w).map_err(|e| e.to_string())?;
    ctx.sample(|| show(&w));
    if p.tags.len() > 1 || p.source.is_some() {
        ctx.nontrivial();
    }
    let word = match w.split_first() {
        None => Word::empty(),
        Some((b'@', rest)) => Word::from_bytes(ar.bytes(rest)).map_err(|e| format!("tags not a word: {e}"))?,
        Some(_) => return Err(format!("tags written as {}", show(&w))),
    };
    let back = Tags::parse(word);
    ensure!(back == t, "tags {t:?} came back as {back:?}");
    if let Some(s) = &p.source {
        let s0 = build_source(src, &ar, s);
        let mut w = Vec::new();
        s0.write_to(&mut w).map_err(|e| e.to_string())?;
        ensure_eq!(w.len(), s0.len(), "source length of {}", show(&w));
        ensure_eq!(s0.len_nonzero().get(), s0.len(), "source len_nonzero");
        let b = Source::parse(Word::from_bytes(ar.bytes(&w)).map_err(|e| e.to_string())?)
            .map_err(|e| format!("source {} does not parse: {e}", show(&w)))?;
        ensure!(b == s0, "source {} came back as {b:?}", show(&w));
        ensure!(src_of(&b) == *s, "source {} read as {b:?}", show(&w));
        ensure!(s0.clone().owning() == s0 && s0.clone().owning_merged() == s0, "owning source differs");
        if let Some(uh) = &s0.userhost {
            let ul = uh.user.as_ref().map(|u| u.len() + 1).unwrap_or(0) + uh.host.len();
            ensure_eq!(uh.len(), ul, "userhost length");
        }
    }
    let n = src.below(1100) as u16;
    match (Numeric::from_int(n), n < 1000) {
        (Some(v), true) => {
            ensure_eq!(v.into_int(), n, "numeric value");
            ensure_eq!(v.as_str(), format!("{n:03}"), "numeric text");
            ensure_eq!(Numeric::from_bytes(format!("{n:03}").as_bytes()), Some(v), "numeric reparse");
            let mut w = Vec::new();
            v.write_to(&mut w).map_err(|e| e.to_string())?;
            ensure_eq!(w, format!("{n:03}").into_bytes(), "numeric written");
        }
        (None, false) => {}
        (r, _) => return Err(format!("Numeric::from_int({n}) = {r:?}")),
    }
    Ok(())
}

/// Accepts `left` bytes, a few at a time, then refuses.
struct Refusing {
    out: Vec<u8>,
    left: usize,
    step: usize,
    /// Refuse with an error, or by accepting nothing.
    zero: bool,
    /// Refuse once, and accept everything from then on.
    once: bool,
}
impl std::io::Write for Refusing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left).min(self.step);
        if n == 0 && !b.is_empty() {
            if self.once {
                self.left = usize::MAX;
            }
            return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::BrokenPipe.into()) };
        }
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl tokio::io::AsyncWrite for Refusing {
    fn poll_write(
        mut self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
        b: &[u8],
    ) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(std::io::Write::write(&mut *self, b))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}

/// A sink that stops accepting: every writer reports success exactly when everything was taken, and
/// what was taken is the beginning of the message.
fn c01_refused(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let server = src.bool();
    let p = gen_parts(src, server);
    let tags = build_tags(src, &ar, &p);
    let args = build_args(src, &ar, &p);
    let source = p.source.as_ref().map(|s| build_source(src, &ar, s));
    let step = src.range(1, 40);
    let zero = src.bool();
    let once = src.bool();
    let judge = |what: &str, full: &[u8], write: &mut dyn FnMut(&mut Refusing) -> std::io::Result<()>| -> Result<(), String> {
        for left in 0..=full.len() {
            let mut w = Refusing { out: Vec::new(), left, step, zero, once };
            let r = write(&mut w);
            ensure!(
                r.is_ok() == (left == full.len()),
                "{what} of {} to a sink that takes {left} bytes of {}: {r:?}",
                show(full),
                full.len()
            );
            ensure!(full.starts_with(&w.out), "{what} of {} to a sink that takes {left} bytes wrote {}", show(full), show(&w.out));
            ensure!(r.is_err() || w.out == full, "{what} of {} succeeded having written {}", show(full), show(&w.out));
        }
        Ok(())
    };
    macro_rules! all {
        ($codec:ident, $m:expr) => {{
            let m = $m;
            let mut wire = Vec::new();
            $codec::write_to(&m, &mut wire).map_err(|e| e.to_string())?;
            judge("write_to", &wire, &mut |w| $codec::write_to(&m, w))?;
            wire.extend_from_slice(b"\r\n");
            judge("send_to", &wire, &mut |w| $codec::send_to(&m, w, &mut Vec::new()))?;
            judge("send_to_tokio", &wire, &mut |w| block_on($codec::send_to_tokio(&m, w, &mut Vec::new())))?;
            wire
        }};
    }
    let wire = if server {
        let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
        m.kind = match Numeric::from_bytes(&p.kind) {
            Some(n) => n.into(),
            None => Cmd::from_bytes(mk(src, &ar, &p.kind)).expect("valid cmd").into(),
        };
        m.tags = tags.clone();
        m.args = args;
        m.source = source.clone().map(SharedSource::new);
        all!(ServerCodec, m)
    } else {
        let mut m = ClientMsg::new_cmd(Cmd::from_bytes(mk(src, &ar, &p.kind)).expect("valid cmd"));
        m.tags = tags.clone();
        m.args = args;
        all!(ClientCodec, m)
    };
    ctx.sample(|| show(&wire));
    if wire.len() > 8 {
        ctx.nontrivial();
    }
    let mut w = Vec::new();
    tags.write_to(&mut w).map_err(|e| e.to_string())?;
    judge("Tags::write_to", &w, &mut |w| tags.write_to(w))?;
    if let Some(s) = source {
        let mut w = Vec::new();
        s.write_to(&mut w).map_err(|e| e.to_string())?;
        judge("Source::write_to", &w, &mut |w| s.write_to(w))?;
        if let Some(uh) = &s.userhost {
            let mut w = Vec::new();
            uh.write_to(&mut w).map_err(|e| e.to_string())?;
            judge("UserHost::write_to", &w, &mut |w| uh.write_to(w))?;
        }
    }
    if let Some(n) = Numeric::from_bytes(&p.kind) {
        judge("Numeric::write_to", &p.kind, &mut |w| n.write_to(w))?;
    }
    Ok(())
}

pub fn c01() -> Vec<Facet> {
    vec![
        facet("refused", 40_000, 400_000, c01_refused, "a message of more than eight bytes"),
        facet("client", 1_000_000, 4_000_000, c01_client, "message has a tag or at least two arguments"),
        facet("server", 1_000_000, 4_000_000, c01_server, "message has a source and a tag or two arguments"),
        facet("parts", 400_000, 2_000_000, c01_parts, "two or more tags, or a source"),
    ]
}

// ---------------------------------------------------------------------------------------------

/// A line near the grammar: fields in order, with deviations.
pub fn near_line(src: &mut Src, max_tags: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let sp = |src: &mut Src, v: &mut Vec<u8>| match src.below(12) {
        0 => v.extend_from_slice(b"  "),
        1 => v.extend_from_slice(b"   "),
        2 if src.chance(1, 4) => v.extend_from_slice(b" \t"),
        _ => v.push(b' '),
    };
    if src.chance(1, 12) {
        sp(src, &mut v);
    }
    if src.chance(1, 2) {
        v.push(b'@');
        let n = src.len(max_tags);
        for i in 0..n {
            if i > 0 {
                v.push(b';');
            }
            match src.below(10) {
                0 => {}
                1 => v.extend_from_slice(&of_kind(src, Kind::Word, 6)),
                2 => {
                    v.extend_from_slice(src.pick(&[b"a".as_slice(), b"+a", b"b", b"label", b"time"]));
                }
                _ => {
                    if src.bool() {
                        v.extend_from_slice(src.pick(&[b"a".as_slice(), b"+a", b"b", b"label", b"time"]));
                    } else {
                        v.extend_from_slice(&of_kind(src, Kind::Key, 8));
                    }
                    v.push(b'=');
                    if src.bool() {
                        let x = of_kind(src, Kind::NoNul, 12);
                        v.extend_from_slice(&ref_escape(&x));
                    } else {
                        let mut x = of_kind(src, Kind::Word, 12);
                        x.retain(|b| *b != b';');
                        v.extend_from_slice(&x);
                    }
                }
            }
        }
        if src.chance(1, 8) {
            v.push(b';');
        }
        sp(src, &mut v);
    }
    if src.chance(1, 2) {
        v.push(b':');
        match src.below(6) {
            0 => v.extend_from_slice(&of_kind(src, Kind::Word, 14)),
            1 => v.extend_from_slice(&of_kind(src, Kind::Nick, 8)),
            2 => {
                v.extend_from_slice(&of_kind(src, Kind::Nick, 8));
                v.push(b'@');
                v.extend_from_slice(&of_kind(src, Kind::Word, 10));
            }
            3 => {
                v.extend_from_slice(&of_kind(src, Kind::Word, 6));
                v.push(b'!');
                v.extend_from_slice(&of_kind(src, Kind::Word, 6));
                v.push(b'@');
                v.extend_from_slice(&of_kind(src, Kind::Word, 6));
            }
            _ => {
                v.extend_from_slice(&of_kind(src, Kind::Nick, 8));
                v.push(b'!');
                v.extend_from_slice(&of_kind(src, Kind::User, 8));
                v.push(b'@');
                v.extend_from_slice(&of_kind(src, Kind::Word, 10));
            }
        }
        sp(src, &mut v);
    }
    match src.below(8) {
        0 => v.extend_from_slice(&of_kind(src, Kind::Word, 5)),
        1 => v.extend_from_slice(format!("{:03}", src.below(1000)).as_bytes()),
        2 => v.extend_from_slice(src.pick(&[b"Ping".as_slice(), b"privmsg", b"12", b"1234", b"01a", b"A1"])),
        _ => v.extend_from_slice(&of_kind(src, Kind::Cmd, 6)),
    }
    for _ in 0..src.len(6) {
        sp(src, &mut v);
        match src.below(5) {
            0 => v.extend_from_slice(&of_kind(src, Kind::Word, 8)),
            _ => v.extend_from_slice(&of_kind(src, Kind::Arg, 8)),
        }
    }
    if src.bool() {
        sp(src, &mut v);
        v.push(b':');
        v.extend_from_slice(&of_kind(src, Kind::Line, 24));
    }
    if src.chance(1, 8) {
        sp(src, &mut v);
    }
    // Mutations.
    if src.chance(1, 6) && !v.is_empty() {
        for _ in 0..src.range(1, 3) {
            let i = src.usize_below(v.len());
            match src.below(3) {
                0 => v[i] = *src.pick(b" :;=,!@%\\\t\x0cA0\xff"),
                1 => v.insert(i, *src.pick(b" :;=,!@%\\\t\x0cA0\xff")),
                _ => {
                    v.remove(i);
                    if v.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    v
}

fn any_line(src: &mut Src, big: bool) -> Vec<u8> {
    match src.below(8) {
        0 => raw(src, 60),
        1 => {
            let mut v = raw(src, 60);
            v.retain(|b| !matches!(b, 0 | 10 | 13));
            v
        }
        2 if big => {
            // Long lines out of repeated pieces.
            let piece = near_line(src, 40);
            let n = src.range(1, 40);
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend_from_slice(&piece);
                v.push(*src.pick(b" ;:@,=\\"));
            }
            v
        }
        _ => near_line(src, if big { 12 } else { 5 }),
    }
}

fn check_strings(tags: &Tags, source: Option<&Source>, kind: &[u8], args: &Args) -> Result<(), String> {
    for (k, v) in tags_of(tags)? {
        ensure!(valid(Kind::Key, &k), "parsed tag key {} is not a key", show(&k));
        ensure!(valid(Kind::NoNul, &v), "parsed tag value contains NUL");
        let kk = Key::from_bytes(k.clone()).map_err(|e| e.to_string())?;
        let got = tags.get(kk).ok_or_else(|| format!("listed tag {} cannot be looked up", show(&k)))?;
        ensure!(got.as_bytes() == v, "tag {}: lookup {} listing {}", show(&k), show(got), show(&v));
        utf8_ok(got)?;
    }
    if let Some(s) = source {
        ensure!(valid(Kind::Nick, &s.nick), "parsed nick {} invalid", show(&s.nick));
        utf8_ok(&s.nick)?;
        if let Some(u) = s.user() {
            ensure!(valid(Kind::User, u), "parsed user {} invalid", show(u));
            utf8_ok(u)?;
        }
        if let Some(h) = s.host() {
            ensure!(valid(Kind::Word, h), "parsed host {} invalid", show(h));
            utf8_ok(h)?;
        }
    }
    ensure!(
        valid(Kind::Cmd, kind) || (kind.len() == 3 && kind.iter().all(|b| b.is_ascii_digit())),
        "parsed kind {} invalid",
        show(kind)
    );
    for w in args.words() {
        ensure!(valid(Kind::Arg, w), "parsed argument {} invalid", show(w));
        utf8_ok(w)?;
    }
    if let (_, Some(l)) = args.split_last() {
        ensure!(valid(Kind::Line, l), "parsed last argument {} invalid", show(l));
        utf8_ok(l)?;
    }
    Ok(())
}

pub fn utf8_ok(b: &Bytes) -> Result<(), String> {
    let truth = std::str::from_utf8(b.as_bytes()).is_ok();
    if let Some(l) = b.is_utf8_lazy() {
        ensure!(l == truth, "{} believed utf8={l}", show(b));
    }
    ensure!(b.to_utf8().is_some() == truth, "{} to_utf8 is wrong", show(b));
    Ok(())
}

pub fn c02_messages(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let v = any_line(src, true);
    ctx.sample(|| show(&v));
    if v.len() > 3 {
        ctx.nontrivial();
    }
    let s1 = ServerMsg::parse(ar.bytes(&v));
    let s2 = ServerMsg::parse(v.clone());
    let s3 = Line::from_bytes(v.clone()).ok().map(|l| ServerMsg::parse(l.secret()));
    match (&s1, &s2) {
        (Ok(a), Ok(b)) => {
            ctx.label("server message accepted");
            ensure!(a == b, "borrowed {a:?} and owned {b:?} parses differ");
            ensure!(matches!(&s3, Some(Ok(c)) if c == a), "secret parse differs for {}", show(&v));
            check_strings(&a.tags, a.source.as_deref(), a.kind.as_str().as_bytes(), &a.args)?;
            let mut w = Vec::new();
            ServerCodec::write_to(a, &mut w).map_err(|e| e.to_string())?;
            check_wire(&w)?;
            let c = ServerMsg::parse(ar.bytes(&w))
                .map_err(|e| format!("{} -> {} does not parse: {e}", show(&v), show(&w)))?;
            ensure!(c == *a, "{} -> {a:?} -> {} -> {c:?}", show(&v), show(&w));
            let o = a.clone().owning();
            ensure!(o == *a, "owning {o:?} differs from {a:?}");
        }
        (Err(a), Err(b)) => {
            ensure_eq!(format!("{a:?}"), format!("{b:?}"), "errors of borrowed and owned parse");
        }
        _ => return Err(format!("borrowed {s1:?} vs owned {s2:?}")),
    }
    let c1 = ClientMsg::parse(ar.bytes(&v));
    let c2 = ClientMsg::parse(v.clone());
    match (&c1, &c2) {
        (Ok(a), Ok(b)) => {
            ctx.label("client message accepted");
            ensure!(a == b, "borrowed {a:?} and owned {b:?} parses differ");
            check_strings(&a.tags, None, &a.cmd, &a.args)?;
            let mut w = Vec::new();
            ClientCodec::write_to(a, &mut w).map_err(|e| e.to_string())?;
            check_wire(&w)?;
            let c = ClientMsg::parse(ar.bytes(&w))
                .map_err(|e| format!("{} -> {} does not parse: {e}", show(&v), show(&w)))?;
            ensure!(c == *a, "{} -> {a:?} -> {} -> {c:?}", show(&v), show(&w));
        }
        (Err(a), Err(b)) => {
            ensure_eq!(format!("{a:?}"), format!("{b:?}"), "errors of borrowed and owned parse");
        }
        _ => return Err(format!("borrowed {c1:?} vs owned {c2:?}")),
    }
    Ok(())
}

pub fn c02_parts(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut v = match src.below(3) {
        0 => raw(src, 80),
        1 => near_line(src, 20),
        _ => {
            let mut v = Vec::new();
            for _ in 0..src.len(30) {
                v.extend_from_slice(src.pick(&[b"a".as_slice(), b";", b"=", b":", b"\\", b"\\s", b"b", b"@", b"!", b",", b"+x", b"\xc3", b"\xa9"]));
            }
            v
        }
    };
    v.retain(|b| !matches!(b, 0 | 10 | 13));
    let l = Line::from_bytes(mk(src, &ar, &v)).map_err(|e| e.to_string())?;
    let a = Args::parse(l);
    check_strings(&Tags::new(), None, b"X", &a)?;
    let mut w = v.clone();
    w.retain(|b| *b != b' ');
    ctx.sample(|| show(&w));
    if w.len() > 2 {
        ctx.nontrivial();
    }
    let wd = Word::from_bytes(mk(src, &ar, &w)).map_err(|e| e.to_string())?;
    let t = Tags::parse(wd.clone());
    check_strings(&t, None, b"X", &Args::empty())?;
    let mut out = Vec::new();
    t.write_to(&mut out).map_err(|e| e.to_string())?;
    let t2 = match out.split_first() {
        None => Tags::new(),
        Some((_, r)) => Tags::parse(Word::from_bytes(ar.bytes(r)).map_err(|e| format!("written tags: {e}"))?),
    };
    ensure!(t == t2, "tags of {} are {t:?}, after a rewrite {t2:?}", show(&w));
    ensure_eq!(t.len(), tags_of(&t)?.len(), "tag count");
    ensure_eq!(t.is_empty(), t.len() == 0, "tags is_empty");
    if let Ok(s) = Source::parse(wd.clone()) {
        ctx.label("source accepted");
        check_strings(&Tags::new(), Some(&s), b"X", &Args::empty())?;
        let mut o = Vec::new();
        s.write_to(&mut o).map_err(|e| e.to_string())?;
        ensure!(o == w, "source {} rewritten as {}", show(&w), show(&o));
    }
    if let Ok(uh) = UserHost::parse(wd) {
        let mut o = uh.user.as_ref().map(|u| u.to_vec()).unwrap_or_default();
        o.push(b'@');
        o.extend_from_slice(&uh.host);
        ensure!(o == w, "userhost {} read as {}", show(&w), show(&o));
    }
    let _ = MaybeCtcp::parse(Line::from_bytes(v.as_slice()).map_err(|e| e.to_string())?);
    Ok(())
}

pub fn c02() -> Vec<Facet> {
    vec![
        facet("messages", 2_000_000, 8_000_000, c02_messages, "input longer than three bytes"),
        facet("parts", 1_200_000, 6_000_000, c02_parts, "input longer than two bytes"),
    ]
}

// ---------------------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum RefErr {
    Line,
    Nick,
    User,
    Host,
    Kind,
}
enum RefOut {
    Ok(RefMsg),
    Err(RefErr),
    /// The grammar does not say (tab used as a separator, tag with a malformed key).
    Unspecified,
}

fn ref_source(w: &[u8]) -> Result<RefSource, RefErr> {
    let end = w.iter().position(|b| *b == b'!' || *b == b'@').unwrap_or(w.len());
    let nick = w[..end].to_vec();
    if !valid(Kind::Nick, &nick) {
        return Err(RefErr::Nick);
    }
    if end == w.len() {
        return Ok(RefSource { nick, user: None, host: None });
    }
    let rest = &w[end + 1..];
    if w[end] == b'@' {
        return if rest.is_empty() {
            Err(RefErr::Host)
        } else {
            Ok(RefSource { nick, user: None, host: Some(rest.to_vec()) })
        };
    }
    let at = rest.iter().position(|b| *b == b'@');
    let user = &rest[..at.unwrap_or(rest.len())];
    if !valid(Kind::User, user) {
        return Err(RefErr::User);
    }
    match at {
        Some(i) if i + 1 < rest.len() => {
            Ok(RefSource { nick, user: Some(user.to_vec()), host: Some(rest[i + 1..].to_vec()) })
        }
        _ => Err(RefErr::Host),
    }
}

fn ref_parse(line: &[u8], server: bool) -> RefOut {
    if line.iter().any(|b| matches!(b, 0 | 10 | 13)) {
        return RefOut::Err(RefErr::Line);
    }
    let mut rest = line;
    let mut tags = Vec::new();
    let mut source = None;
    let (mut want_tags, mut want_source) = (true, true);
    let kind = loop {
        while let Some((b' ', r)) = rest.split_first() {
            rest = r;
        }
        if rest.first().is_some_and(|b| *b == 9 || *b == 12) {
            return RefOut::Unspecified;
        }
        let end = rest.iter().position(|b| *b == b' ').unwrap_or(rest.len());
        let word = &rest[..end];
        rest = &rest[end..];
        match word.first() {
            None => return RefOut::Err(RefErr::Kind),
            Some(b'@') if want_tags => {
                want_tags = false;
                for e in word[1..].split(|b| *b == b';') {
                    if e.is_empty() {
                        continue;
                    }
                    let eq = e.iter().position(|b| *b == b'=');
                    let k = &e[..eq.unwrap_or(e.len())];
                    if !valid(Kind::Key, k) {
                        return RefOut::Unspecified;
                    }
                    let v = eq.map(|i| ref_unescape(&e[i + 1..])).unwrap_or_default();
                    tags.retain(|(kk, _): &(Vec<u8>, Vec<u8>)| kk != k);
                    tags.push((k.to_vec(), v));
                }
            }
            Some(b':') if want_source => {
                want_tags = false;
                want_source = false;
                if server {
                    match ref_source(&word[1..]) {
                        Ok(s) => source = Some(s),
                        Err(e) => return RefOut::Err(e),
                    }
                }
            }
            Some(_) => break word,
        }
    };
    let num = server && kind.len() == 3 && kind.iter().all(|b| b.is_ascii_digit());
    if !num && !kind.iter().all(|b| b.is_ascii_alphabetic()) {
        return RefOut::Err(RefErr::Kind);
    }
    let mut args = Vec::new();
    loop {
        while let Some((b' ', r)) = rest.split_first() {
            rest = r;
        }
        match rest.first() {
            None => break,
            Some(b':') => {
                args.push(rest[1..].to_vec());
                break;
            }
            Some(_) => {
                let end = rest.iter().position(|b| *b == b' ').unwrap_or(rest.len());
                args.push(rest[..end].to_vec());
                rest = &rest[end..];
            }
        }
    }
    tags.sort();
    RefOut::Ok(RefMsg { tags, source, kind: kind.to_ascii_uppercase(), args })
}

fn err_class(e: &ParseError) -> Option<RefErr> {
    Some(match e {
        ParseError::InvalidLine(_) => RefErr::Line,
        ParseError::InvalidNick(_) => RefErr::Nick,
        ParseError::InvalidUser(_) => RefErr::User,
        ParseError::InvalidHost(_) => RefErr::Host,
        ParseError::InvalidKind(_) => RefErr::Kind,
        _ => return None,
    })
}

fn compare(
    v: &[u8],
    r: RefOut,
    got: Result<(&Tags, Option<&Source>, &[u8], &Args), &ParseError>,
    ctx: &mut Ctx,
) -> Result<(), String> {
    match (r, got) {
        (RefOut::Unspecified, _) => {
            ctx.label("unspecified by the grammar");
            Ok(())
        }
        (RefOut::Err(e), Err(g)) => {
            ctx.nontrivial();
            ctx.label("rejected");
            ensure!(err_class(g).as_ref() == Some(&e), "{}: rejected with {g:?}, at fault is the {e:?}", show(v));
            Ok(())
        }
        (RefOut::Err(e), Ok(g)) => Err(format!("{} accepted as {g:?}, but its {e:?} is invalid", show(v))),
        (RefOut::Ok(_), Err(g)) => Err(format!("{} is well-formed but was rejected: {g:?}", show(v))),
        (RefOut::Ok(r), Ok((tags, source, kind, args))) => {
            ctx.nontrivial();
            ctx.label("accepted");
            let t = tags_of(tags)?;
            ensure!(t == r.tags, "{}: tags {t:?}, expected {:?}", show(v), r.tags);
            for (k, val) in &r.tags {
                let g = tags.get(Key::from_bytes(k.clone()).map_err(|e| e.to_string())?);
                ensure!(g.is_some_and(|g| g.as_bytes() == val), "{}: lookup of tag {}", show(v), show(k));
            }
            ensure!(source.map(src_of) == r.source, "{}: source {source:?}, expected {:?}", show(v), r.source);
            ensure!(kind == r.kind, "{}: kind {}, expected {}", show(v), show(kind), show(&r.kind));
            let a = args_of(args);
            ensure!(a == r.args, "{}: args {a:?}, expected {:?}", show(v), r.args);
            ensure_eq!(args.len(), r.args.len(), "{}: number of args", show(v));
            let long = r.args.last().is_some_and(|l| !valid(Kind::Arg, l));
            ensure_eq!(args.is_last_long(), long, "{}: last argument long", show(v));
            Ok(())
        }
    }
}

fn c03_lines(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let v = any_line(src, false);
    ctx.sample(|| show(&v));
    let s = ServerMsg::parse(ar.bytes(&v));
    let g = s.as_ref().map(|m| (&m.tags, m.source.as_deref(), m.kind.as_str().as_bytes(), &m.args));
    compare(&v, ref_parse(&v, true), g, ctx)?;
    if let Ok(m) = &s {
        let is_num = matches!(m.kind, ServerMsgKindRaw::Numeric(_));
        ensure_eq!(is_num, m.kind.as_str().as_bytes()[0].is_ascii_digit(), "numeric variant");
    }
    let c = ClientMsg::parse(ar.bytes(&v));
    let g = c.as_ref().map(|m| (&m.tags, None, m.cmd.as_bytes(), &m.args));
    compare(&v, ref_parse(&v, false), g, ctx)
}

fn c03_tags(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // Tag lists with many duplicates, odd escapes and empty entries.
    let mut v = Vec::new();
    let n = src.range(1, 9);
    for i in 0..n {
        if i > 0 {
            v.push(b';');
        }
        if src.chance(1, 6) {
            continue;
        }
        v.extend_from_slice(src.pick(&[b"a".as_slice(), b"b", b"aa", b"ab", b"+c/d", b"B", b"z=", b"\xff"]));
        if src.bool() {
            v.push(b'=');
            for _ in 0..src.range(0, 5) {
                v.extend_from_slice(src.pick(&[b"\\".as_slice(), b":", b"s", b"r", b"n", b"x", b"\\\\", b"=", b"\\:", b"\xc3\xa9", b"\xc3", b","]));
            }
        }
    }
    let mut line = b"@".to_vec();
    line.extend_from_slice(&v);
    line.extend_from_slice(b" CMD");
    ctx.sample(|| show(&line));
    let m = ClientMsg::parse(line.as_slice());
    let g = m.as_ref().map(|m| (&m.tags, None, m.cmd.as_bytes(), &m.args));
    compare(&line, ref_parse(&line, false), g, ctx)
}

/// Long tag lists over a pool of keys: sorting and merging at sizes a short list never reaches.
fn c03_many_tags(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.range(2, 120);
    let pool = src.range(1, n + 10) as u32;
    let mut line = b"@".to_vec();
    for i in 0..n {
        let k = src.below(pool);
        line.extend_from_slice(format!("k{k}").as_bytes());
        if src.chance(7, 8) {
            line.extend_from_slice(format!("=v{i}").as_bytes());
        }
        line.push(b';');
    }
    line.extend_from_slice(b" CMD");
    ctx.sample(|| show(&line));
    let m = ClientMsg::parse(line.as_slice());
    let g = m.as_ref().map(|m| (&m.tags, None, m.cmd.as_bytes(), &m.args));
    compare(&line, ref_parse(&line, false), g, ctx)
}

/// Fields separated by more spaces, and empty tag entries, change nothing.
fn c03_spacing(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let p = gen_parts(src, true);
    let mut fields: Vec<Vec<u8>> = Vec::new();
    let mut padded_tags = Vec::new();
    if !p.tags.is_empty() {
        let es: Vec<Vec<u8>> = p
            .tags
            .iter()
            .map(|(k, v)| {
                let mut e = k.clone();
                if !v.is_empty() || src.bool() {
                    e.push(b'=');
                    e.extend_from_slice(&ref_escape(v));
                }
                e
            })
            .collect();
        let mut t = b"@".to_vec();
        t.extend_from_slice(&es.join(&b';'));
        fields.push(t);
        padded_tags = b"@".to_vec();
        for e in &es {
            for _ in 0..src.below(3) {
                padded_tags.push(b';');
            }
            padded_tags.extend_from_slice(e);
            padded_tags.push(b';');
        }
    }
    if let Some(s) = &p.source {
        let mut t = b":".to_vec();
        t.extend_from_slice(&s.nick);
        if let Some(u) = &s.user {
            t.push(b'!');
            t.extend_from_slice(u);
        }
        if let Some(h) = &s.host {
            t.push(b'@');
            t.extend_from_slice(h);
        }
        fields.push(t);
    }
    fields.push(p.kind.clone());
    let nargs = p.args.len();
    for (i, a) in p.args.iter().enumerate() {
        let mut t = Vec::new();
        if i + 1 == nargs && (!valid(Kind::Arg, a) || src.bool()) {
            t.push(b':');
        }
        t.extend_from_slice(a);
        fields.push(t);
    }
    // An argument or command cannot begin with a tab here: that is not a separator.
    let plain = fields.join(&b' ');
    let mut padded = Vec::new();
    for (i, f) in fields.iter().enumerate() {
        for _ in 0..src.range((i > 0) as usize, 3) {
            padded.push(b' ');
        }
        if i == 0 && !padded_tags.is_empty() {
            padded.extend_from_slice(&padded_tags);
        } else {
            padded.extend_from_slice(f);
        }
    }
    let a = ServerMsg::parse(plain.as_slice()).map_err(|e| format!("{}: {e}", show(&plain)))?;
    ctx.sample(|| show(&padded));
    if fields.len() > 2 {
        ctx.nontrivial();
    }
    let b = ServerMsg::parse(padded.as_slice()).map_err(|e| format!("{}: {e}", show(&padded)))?;
    ensure!(a == b, "{} and {} parse differently: {a:?} vs {b:?}", show(&plain), show(&padded));
    cmp_parts(&p, &b.tags, b.source.as_deref(), b.kind.as_str().as_bytes(), &b.args, "padded")
}

pub fn c03() -> Vec<Facet> {
    vec![
        facet("lines", 2_000_000, 10_000_000, c03_lines, "the grammar decides the line (accepted or rejected)"),
        facet("tags", 800_000, 4_000_000, c03_tags, "the grammar decides the tag list"),
        facet("many_tags", 40_000, 400_000, c03_many_tags, "the grammar decides the tag list"),
        facet("spacing", 400_000, 2_000_000, c03_spacing, "more than two fields"),
    ]
}

/// The listed finding: a source with an empty host is written but cannot be parsed.
pub fn known_empty_host() -> bool {
    let source = Source::new_user(Nick::from_str("n"), User::from_str("u"), Word::from_str(""));
    let mut w = Vec::new();
    source.write_to(&mut w).unwrap();
    Source::parse(Word::from_bytes(w).unwrap()).is_err()
}
