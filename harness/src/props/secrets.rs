//! C08: secret memory is wiped before it is released; secret buffers hold what was pushed.

use super::facet;
use crate::alloc;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use ::base64::engine::{general_purpose::STANDARD, Engine};
use std::io::Read;
use vinezombie::client::auth::sasl::{External, Password, Plain};
use vinezombie::client::auth::*;
use vinezombie::ircmsg::*;
use vinezombie::owning::MakeOwning;
use vinezombie::string::base64::ChunkEncoder;
use vinezombie::string::tf::*;
use vinezombie::string::*;

/// Not changed by any case mapping or escaping.
const CANARY: &[u8] = b"831274905566";

/// The canary and the part of its base64 form that is fixed, for each alignment.
fn patterns() -> Vec<Vec<u8>> {
    let mut v = vec![CANARY.to_vec()];
    for a in 0..3usize {
        let mut x = vec![0u8; a];
        x.extend_from_slice(CANARY);
        let e = STANDARD.encode(&x).into_bytes();
        let start = (a * 8).div_ceil(6);
        let end = (x.len() * 8) / 6;
        v.push(e[start..end].to_vec());
    }
    v
}

/// Harness memory must not be mistaken for the library's.
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let on = alloc::pause();
    let r = f();
    alloc::resume(on);
    r
}

fn start() {
    let p = quiet(patterns);
    let refs: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
    alloc::watch(&refs);
    quiet(|| drop(refs));
    quiet(|| drop(p));
}

fn verdict(what: &dyn Fn() -> String) -> Result<(), String> {
    if alloc::hits() > 0 {
        let (n, size, _) = alloc::stop();
        return Err(format!("{n} released block(s) still held secret contents (one of {size} bytes), after {}", what()));
    }
    Ok(())
}

/// Bytes with canaries in them.
fn content(src: &mut Src) -> Vec<u8> {
    quiet(|| {
        let mut v = Vec::new();
        let style = src.below(4);
        for _ in 0..src.range(0, 4) {
            match style {
                0 => v.push(b'a' + src.below(26) as u8),
                1 => v.extend_from_slice(src.pick(&[b"; ".as_slice(), b"\\", b"A", b"~[", b"\xff", b"\xc3\xa9", b" "])),
                2 => v.push(src.byte()),
                _ => {}
            }
        }
        for _ in 0..src.range(1, 5) {
            v.extend_from_slice(CANARY);
            if style != 3 && src.chance(1, 3) {
                v.extend_from_slice(src.pick(&[b"; ".as_slice(), b"\\s", b"Z", b" ", b"\xff", b":", b"\0"]));
            }
        }
        for _ in 0..src.range(0, 3) {
            v.push(*src.pick(b"Qq \\;\xff9"));
        }
        // An allocation of our own choosing.
        let mut r = Vec::with_capacity(v.len() + if src.bool() { 0 } else { src.range(0, 40) });
        r.extend_from_slice(&v);
        v.iter_mut().for_each(|b| *b = 0);
        r
    })
}

/// A reader that gives short reads and may fail.
struct Choppy<'a> {
    data: &'a [u8],
    steps: Vec<(usize, bool)>,
    at: usize,
}
impl Read for Choppy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let (n, fail) = self.steps.get(self.at).copied().unwrap_or((usize::MAX, false));
        self.at += 1;
        if fail {
            return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
        }
        // A reader may look at what it is given; Miri tells if that was never written.
        if std::hint::black_box(buf.iter().fold(0u8, |a, b| a ^ b)) == 1 && buf.is_empty() {
            return Ok(0);
        }
        let n = n.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

pub fn secretbuf_machine(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut log: Vec<String> = Vec::new();
    let mut model: Vec<u8> = Vec::with_capacity(1 << 14);
    let mut big = Vec::with_capacity(1 << 12);
    for _ in 0..200 {
        big.extend_from_slice(CANARY);
    }
    let mut grew = 0;
    start();
    let r = (|| -> Result<(), String> {
        let mut b = match src.below(5) {
            0 => SecretBuf::default(),
            1 => SecretBuf::with_capacity(src.range(0, 40)),
            2 => {
                let v = content(src);
                quiet(|| model.extend_from_slice(&v));
                SecretBuf::from(v)
            }
            3 => {
                let n = src.range(0, 60);
                quiet(|| model.extend_from_slice(&big[..n]));
                if src.bool() {
                    big[..n].iter().copied().collect::<SecretBuf>()
                } else {
                    // No useful size hint.
                    let mut i = 0;
                    std::iter::from_fn(|| {
                        i += 1;
                        big[..n].get(i - 1).copied()
                    })
                    .collect::<SecretBuf>()
                }
            }
            _ => SecretBuf::with_capacity(0),
        };
        quiet(|| log.push(format!("start with {} bytes", model.len())));
        ensure_eq!(b.as_ref().len(), model.len(), "initial contents");
        for _ in 0..src.range(1, 14) {
            let before = b.as_ref().as_ptr();
            match src.below(11) {
                0 => {
                    let n = src.len(80);
                    quiet(|| log.push(format!("reserve({n})")));
                    b.reserve(n);
                }
                1 | 2 => {
                    let byte = CANARY[model.len() % CANARY.len()];
                    let extra = src.len(20);
                    for _ in 0..src.range(1, 14) {
                        b.push(byte, extra);
                        quiet(|| model.push(byte));
                    }
                    quiet(|| log.push(format!("push(.., {extra})")));
                }
                3 => {
                    let n = src.range(0, 50);
                    b.push_cstr(&big[..n]);
                    quiet(|| {
                        model.extend_from_slice(&big[..n]);
                        model.push(0);
                        log.push(format!("push_cstr({n})"))
                    });
                }
                4 => {
                    let n = src.range(0, 50);
                    b.push_slice(&big[..n]);
                    quiet(|| {
                        model.extend_from_slice(&big[..n]);
                        log.push(format!("push_slice({n})"))
                    });
                }
                5 | 6 => {
                    let expect = src.len(60);
                    let avail = src.range(0, 80);
                    let steps: Vec<(usize, bool)> =
                        quiet(|| (0..src.range(0, 4)).map(|_| (src.range(1, 30), src.chance(1, 6))).collect());
                    let mut rd = quiet(|| Choppy { data: &big[..avail], steps: steps.clone(), at: 0 });
                    let got = b.read_from(expect, &mut rd);
                    // Reference: read until `expect` bytes, the end, or an error.
                    let mut want = 0usize;
                    let mut failed = false;
                    let mut at = 0;
                    while want < expect {
                        let (n, fail) = steps.get(at).copied().unwrap_or((usize::MAX, false));
                        at += 1;
                        if fail {
                            failed = true;
                            break;
                        }
                        let n = n.min(expect - want).min(avail - want);
                        if n == 0 {
                            break;
                        }
                        want += n;
                    }
                    quiet(|| {
                        log.push(format!("read_from({expect}) of {avail} in {steps:?} = {got:?}"));
                    });
                    match got {
                        Ok(n) => {
                            ensure!(!failed, "read_from({expect}) succeeded although the reader failed");
                            ensure_eq!(n, want, "read_from({expect}) count");
                            quiet(|| model.extend_from_slice(&big[..n]));
                        }
                        Err(_) => {
                            ensure!(failed, "read_from({expect}) failed although the reader did not");
                        }
                    }
                    quiet(|| drop((rd, steps)));
                }
                7 => {
                    b.clear();
                    quiet(|| {
                        model.clear();
                        log.push("clear".into())
                    });
                }
                8 => {
                    let c = b.clone();
                    ensure!(c.as_ref() == b.as_ref(), "clone differs");
                    if src.bool() {
                        std::mem::drop(std::mem::replace(&mut b, c));
                    } else {
                        drop(c);
                    }
                    quiet(|| log.push("clone, drop".into()));
                }
                9 => {
                    let v = b.as_bytes();
                    ensure!(v.is_secret() && v.as_bytes() == model.as_slice(), "as_bytes: secret={} {}", v.is_secret(), show(&v));
                    drop(v);
                }
                _ => {
                    let taken = std::mem::take(&mut b);
                    let bytes = taken.into_bytes();
                    ensure!(bytes.as_bytes() == model.as_slice(), "into_bytes: {} expected {}", show(&bytes), show(&model));
                    ensure!(model.is_empty() || bytes.is_secret(), "into_bytes is not secret");
                    quiet(|| {
                        model.clear();
                        log.push("into_bytes, drop".into())
                    });
                }
            }
            if b.as_ref().as_ptr() != before {
                grew += 1;
            }
            ensure!(b.as_ref() == model.as_slice(), "contents {} expected {}", show(b.as_ref()), show(&model));
            ensure_eq!(b.is_empty(), model.is_empty(), "is_empty");
            verdict(&|| log.join("; "))?;
        }
        drop(b);
        quiet(|| log.push("drop".into()));
        verdict(&|| log.join("; "))
    })();
    alloc::stop();
    if grew > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r.map_err(|e| format!("{e} [{}]", log.join("; ")))
}

/// Counts what it is given and keeps none of it.
struct Nowhere(usize);
impl std::io::Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Owned secret strings, shared, derived from and dropped in any order.
pub fn strings_machine(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut log: Vec<String> = Vec::with_capacity(64);
    let mut pool: Vec<Bytes<'static>> = Vec::with_capacity(64);
    let mut derived = 0;
    start();
    let r = (|| -> Result<(), String> {
        for _ in 0..src.range(2, 16) {
            macro_rules! log { ($($a:tt)+) => { quiet(|| log.push(format!($($a)+))) } }
            if pool.is_empty() || src.chance(1, 5) {
                let v = content(src);
                match src.below(7) {
                    0 => {
                        log!("from_secret {}", show(&v));
                        pool.push(Bytes::from_secret(v));
                    }
                    1 => {
                        log!("from(vec).secret() {}", show(&v));
                        pool.push(Bytes::from(v).secret());
                    }
                    2 => {
                        // Shared before it becomes secret; the plain handle goes first or last.
                        log!("shared, then secret() {}", show(&v));
                        let plain = Bytes::from(v);
                        let s = plain.clone().secret();
                        if src.bool() {
                            drop(plain);
                            pool.push(s);
                        } else {
                            drop(s);
                            if src.bool() {
                                // Down to the handle that never was secret.
                                let mut sp = Splitter::new(plain.clone());
                                sp.next_byte();
                                let part: Bytes = sp.rest_or_default();
                                drop(sp);
                                drop(plain);
                                let v = part.into_vec();
                                quiet(|| drop(v));
                            } else {
                                drop(plain);
                            }
                        }
                    }
                    3 => {
                        let b = quiet(|| ar.bytes(&v));
                        quiet(|| drop(v));
                        log!("borrowed, secret, owning {}", show(b));
                        let mut s = Bytes::from_bytes(b).secret();
                        if src.bool() {
                            s = s.owning();
                        } else {
                            s.make_owning();
                        }
                        ensure!(s.is_secret() && s.is_owning(), "owning copy of a secret: secret={} owning={}", s.is_secret(), s.is_owning());
                        pool.push(s);
                    }
                    4 => {
                        log!("Type::from_secret {}", show(&v));
                        macro_rules! t { ($($i:literal $t:ident)+) => { match src.below(9) { $($i => { let _ = $t::from_secret(v).map(|x| pool.push(x.into_bytes())); })+ _ => unreachable!() } } }
                        t!(0 NoNul 1 Line 2 Word 3 Arg 4 Key 5 Target 6 Nick 7 User 8 Cmd);
                    }
                    5 => {
                        log!("SecretBuf::from(..).into_bytes() {}", show(&v));
                        pool.push(SecretBuf::from(v).into_bytes());
                    }
                    _ => {
                        log!("Secret::load {}", show(&v));
                        match Secret::<NoNul<'static>, Clear>::load(Clear(SecretBuf::from(v))) {
                            Ok(s) => {
                                let c = s.clone();
                                if src.bool() {
                                    drop(s);
                                }
                                pool.push(Secret::into_inner(c).into_bytes());
                            }
                            Err(e) => quiet(|| drop(e)),
                        }
                    }
                }
                verdict(&|| log.join("; "))?;
                continue;
            }
            let i = src.usize_below(pool.len());
            let s = pool[i].clone();
            let contents: &'static [u8] = quiet(|| ar.bytes(&s));
            macro_rules! put { ($v:expr) => {{ let x: Bytes<'static> = $v; if src.bool() { pool.push(x) } else { drop(x) } }} }
            derived += 1;
            match src.below(16) {
                0 | 1 => {
                    log!("drop {i}");
                    drop(s);
                    drop(pool.swap_remove(i));
                }
                2 => {
                    log!("clone {i}");
                    put!(s);
                }
                3 => {
                    log!("split {i}");
                    let mut sp = Splitter::new(s);
                    let n = src.range(0, contents.len());
                    let a: Bytes = sp.save_end().until_count(n).rest().unwrap();
                    let z: Bytes = sp.rest_or_default();
                    drop(sp);
                    put!(a);
                    put!(z);
                }
                4 => {
                    let mut s = s;
                    match src.below(6) {
                        0 => s.transform(AsciiCasemap::<true>),
                        1 => s.transform(AsciiCasemap::<false>),
                        2 => s.transform(IrcCasemap::Rfc1459),
                        3 => s.transform(TrimAscii(StringSide::EndFirst)),
                        4 => s.transform(IrcCasemap::Ascii),
                        _ => s.transform(TrimAscii(StringSide::Start)),
                    };
                    log!("transform {i} into {}", show(&s));
                    put!(s);
                }
                5 => {
                    if let Ok(n) = NoNul::from_bytes(s) {
                        let e = escape(n);
                        log!("escape {i}");
                        put!(e.into_bytes());
                    }
                }
                6 => {
                    if let Ok(n) = NoNul::from_bytes(s) {
                        let e = unescape(n);
                        log!("unescape {i}");
                        put!(e.into_bytes());
                    }
                }
                7 => {
                    log!("into_utf8_lossy {i}");
                    put!(s.into_utf8_lossy());
                }
                8 => {
                    log!("base64 {i}");
                    if src.bool() {
                        put!(s.to_base64().into_bytes());
                    } else {
                        put!(s.to_base64_plus().into_bytes());
                    }
                }
                9 => {
                    let max = src.range(0, 60);
                    log!("chunks {i} of {max}");
                    let mut e = if src.bool() { ChunkEncoder::new(s, max, true) } else { ChunkEncoder::new(&*s, max, true) };
                    let other = src.bool().then(|| e.clone());
                    for _ in 0..src.range(0, 8) {
                        match e.next() {
                            Some(c) => put!(c.into_bytes()),
                            None => break,
                        }
                    }
                    if src.bool() {
                        drop(other);
                        drop(e);
                    } else {
                        drop(e);
                        drop(other);
                    }
                }
                10 => {
                    // Explicit extraction: the vector is the caller's, the rest is not.
                    log!("into_vec {i}");
                    drop(pool.swap_remove(i));
                    let v = if src.bool() { s.into_vec() } else { Vec::from(s) };
                    quiet(|| drop(v));
                }
                11 => {
                    log!("message with {i}");
                    let mut m = ClientMsg::new_cmd(Cmd::from_str("PASS"));
                    if let Ok(l) = Line::from_bytes(s.clone()) {
                        m.args.edit().add(l);
                    }
                    if let Ok(v) = NoNul::from_bytes(s) {
                        m.tags.edit().insert_pair(Key::from_str("k"), v);
                    }
                    let m2 = m.clone().owning();
                    let mut w = Nowhere(0);
                    let _ = ClientCodec::write_to(&m, &mut w);
                    if src.bool() {
                        drop(m);
                        drop(m2);
                    } else {
                        drop(m2);
                        drop(m);
                    }
                }
                12 => {
                    log!("format {i}");
                    let t = format!("{s} {s:?}");
                    drop(t);
                }
                13 => {
                    // Only this handle's view is owned from now on.
                    log!("owning {i}");
                    put!(s.owning());
                }
                14 => {
                    log!("restrict {i}");
                    macro_rules! t { ($($i:literal $t:ident)+) => { match src.below(9) { $($i => { let r = $t::from_bytes(s); if let Ok(x) = r { let x = x.owning(); put!(x.into_bytes()) } })+ _ => unreachable!() } } }
                    t!(0 NoNul 1 Line 2 Word 3 Arg 4 Key 5 Target 6 Nick 7 User 8 Cmd);
                }
                _ => {
                    log!("compare {i}");
                    let t = std::hint::black_box(s == contents);
                    ensure!(t, "a clone changed");
                }
            }
            verdict(&|| log.join("; "))?;
        }
        while !pool.is_empty() {
            let i = src.usize_below(pool.len());
            drop(pool.swap_remove(i));
            quiet(|| log.push(format!("drop {i}")));
            verdict(&|| log.join("; "))?;
        }
        Ok(())
    })();
    alloc::stop();
    if derived > 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r
}

/// Credentials through a whole SASL exchange.
pub fn sasl(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut log: Vec<String> = Vec::with_capacity(64);
    let user = of_kind(src, Kind::NoNul, 20);
    let mut messages: Vec<ClientMsg<'static>> = Vec::with_capacity(256);
    start();
    let mut replies = 0;
    let r = (|| -> Result<(), String> {
        macro_rules! log { ($($a:tt)+) => { quiet(|| log.push(format!($($a)+))) } }
        let mut pass = content(src);
        if src.chance(1, 3) {
            quiet(|| {
                let n = src.range(10, 70);
                let mut v = Vec::with_capacity(n * CANARY.len());
                for _ in 0..n {
                    v.extend_from_slice(CANARY)
                }
                pass = v;
            });
        }
        pass.retain(|b| *b != 0);
        log!("password of {} bytes", pass.len());
        let userb = quiet(|| NoNul::from_bytes(Bytes::from(user.clone())).unwrap());
        let mut q = SaslQueue::new();
        match Secret::<NoNul<'static>, Clear>::load(Clear(SecretBuf::from(pass))) {
            Ok(sec) => {
                for _ in 0..src.range(1, 3) {
                    match src.below(3) {
                        0 => {
                            let mut p = Password::new(userb.clone(), sec.clone());
                            if src.bool() {
                                p.authzid = userb.clone();
                            }
                            q.push(&p);
                            let p2 = p.clone();
                            drop(p);
                            drop(p2);
                        }
                        1 => q.push(&Plain::new(userb.clone(), sec.clone())),
                        _ => {
                            q.push(&External(NoNul::from_bytes(sec.clone_bytes()).unwrap()));
                        }
                    }
                }
                drop(sec);
            }
            Err(e) => quiet(|| drop(e)),
        }
        verdict(&|| log.join("; "))?;
        let Some(mut h) = Handler::from_queue(q) else { return Ok(()) };
        for _ in 0..src.range(1, 8) {
            let line = *src.pick(&[
                "AUTHENTICATE +", "AUTHENTICATE +", "AUTHENTICATE +", "AUTHENTICATE YWJj", "AUTHENTICATE *!", "904 n :no", "906 n :aborted",
                "903 n :ok", "902 n :locked", "905 n :long", "908 n PLAIN,EXTERNAL :mechs",
            ]);
            log!("{line}");
            let m = quiet(|| ServerMsg::parse(line).unwrap());
            let keep = src.bool();
            let res = h.handle(&m, |m: ClientMsg<'static>| {
                if keep && messages.len() < 250 {
                    messages.push(m);
                }
            });
            replies += 1;
            quiet(|| drop((m, res)));
            if src.bool() {
                messages.clear();
            }
            verdict(&|| log.join("; "))?;
        }
        if src.bool() {
            drop(h);
            messages.clear();
        } else {
            messages.clear();
            drop(h);
        }
        log!("drop");
        verdict(&|| log.join("; "))
    })();
    alloc::stop();
    if replies > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r
}

trait CloneBytes {
    fn clone_bytes(&self) -> Bytes<'static>;
}
impl<L> CloneBytes for Secret<NoNul<'static>, L> {
    fn clone_bytes(&self) -> Bytes<'static> {
        NoNul::clone(self).into_bytes()
    }
}

/// Secrets as long as a whole file, from iterators that promise more or less than they hold.
fn long(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let len = match src.below(4) {
        0 => src.range(65_530, 65_545),
        1 => src.range(4_090, 4_100),
        _ => src.range(1, 70_000),
    };
    let full: Vec<u8> = CANARY.iter().copied().cycle().take(len).collect();
    // Leaves out little, so that the buffer is outgrown a few times only.
    let left_out = src.below(20) as usize;
    let how = src.below(3);
    ctx.sample(|| format!("{len} bytes, way {how}, {left_out} left out"));
    if len > 4096 {
        ctx.nontrivial();
    }
    start();
    let r = (|| -> Result<(), String> {
        let (b, want): (SecretBuf, &[u8]) = match how {
            // The size is known.
            0 => (full.iter().copied().collect(), &full),
            // Only an upper bound is known.
            1 => (
                full.iter().copied().enumerate().filter(|(i, _)| *i >= left_out).map(|(_, b)| b).collect(),
                full.get(left_out..).unwrap_or_default(),
            ),
            // Read in full, and then some.
            _ => {
                let mut b = SecretBuf::with_capacity(left_out);
                let n = b.read_from(len + left_out, &mut full.as_slice()).map_err(|e| e.to_string())?;
                ensure_eq!(n, len, "bytes read");
                (b, &full)
            }
        };
        ensure!(b.as_ref() == want, "{} bytes became {}", want.len(), b.as_ref().len());
        let bytes = b.into_bytes();
        ensure!(bytes.as_bytes() == want, "{} bytes became {}", want.len(), bytes.len());
        ensure!(bytes.is_secret(), "a string from a secret buffer is not secret");
        drop(bytes);
        verdict(&|| format!("{len} bytes, way {how}"))
    })();
    alloc::stop();
    r
}

pub fn c08() -> Vec<Facet> {
    vec![
        facet("secretbuf", 800_000, 5_000_000, secretbuf_machine, "the buffer moved at least twice"),
        facet("strings", 1_200_000, 8_000_000, strings_machine, "more than two derivations or drops"),
        facet("long", 2_000, 40_000, long, "more than a page of secret"),
        facet("sasl", 300_000, 2_000_000, sasl, "more than one server reply"),
    ]
}
