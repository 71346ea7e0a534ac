//! C09: memory safety. The deciding oracles are AddressSanitizer, Miri and the standard library's
//! own checks of unsafe preconditions; the cases are the operation sequences of other properties,
//! whose own verdicts are not considered here, and concurrent uses of shared strings.

use super::{blocking, channels, facet, framing, maps, msg, secrets, strings};
use crate::engine::*;
use crate::gen::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use vinezombie::ircmsg::*;
use vinezombie::string::tf::*;
use vinezombie::string::*;

/// Runs another property's case for its memory accesses only.
fn only(f: impl FnOnce(&mut Src, &mut Ctx) -> Result<(), String>, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let _ = catch(|| f(src, ctx));
    crate::alloc::reset();
    Ok(())
}

fn ops() -> usize {
    if cfg!(miri) {
        8
    } else {
        14
    }
}

fn strings_ops(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let r = catch(|| strings::run_machine(src, ctx, strings::Judge::Memory, ops()));
    crate::alloc::reset();
    r.unwrap_or(Ok(()))
}
fn secret_strings(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    only(secrets::strings_machine, src, ctx)
}
fn secret_buffers(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    only(secrets::secretbuf_machine, src, ctx)
}
fn tags(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let f = src.bool();
    only(|s, c| maps::tags_machine(s, c, f), src, ctx)
}
fn names(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let f = src.bool();
    only(|s, c| maps::namemap_machine(s, c, f), src, ctx)
}
fn args(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    only(maps::c12_args, src, ctx)
}
fn kinds(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    only(maps::c11_kinds, src, ctx)
}
fn parse(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match src.below(3) {
        0 => only(msg::c02_parts, src, ctx),
        1 => only(msg::c01_server, src, ctx),
        _ => only(msg::c02_messages, src, ctx),
    }
}
fn streams(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    if src.bool() {
        only(framing::c10_streams, src, ctx)
    } else {
        only(framing::c10_decoder, src, ctx)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Clone,
    Drop,
    Utf8,
    Lossy,
    IntoVec,
    IntoStr,
    Owning,
    Upper,
    Secret,
    Split,
    Hash,
    ToLine,
    Cow,
}

/// Strings that share a buffer, used and dropped by several threads at once.
fn shared(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let text: Vec<u8> = match src.below(3) {
        0 => utf8(src, 24).into_bytes(),
        1 => raw(src, 24),
        _ => b"PRIVMSG someone :some words, \xc3\xa9".to_vec(),
    };
    let nt = src.range(2, 3);
    let start_secret = src.chance(1, 4);
    let scripts: Vec<Vec<(Op, u32)>> = (0..nt)
        .map(|_| {
            (0..src.range(1, 6))
                .map(|_| {
                    (
                        *src.pick(&[
                            Op::Drop,
                            Op::Clone,
                            Op::Utf8,
                            Op::Lossy,
                            Op::IntoVec,
                            Op::IntoStr,
                            Op::Owning,
                            Op::Upper,
                            Op::Secret,
                            Op::Split,
                            Op::Hash,
                            Op::ToLine,
                            Op::Cow,
                        ]),
                        src.below(64),
                    )
                })
                .collect()
        })
        .collect();
    ctx.sample(|| format!("{} shared by {scripts:?}", show(&text)));
    ctx.nontrivial();
    let mut b = Bytes::from(text.clone());
    if start_secret {
        b = b.secret();
    }
    // A slice of the buffer that does not start at its beginning.
    let off = src.usize_below(text.len() + 1);
    let mut sp = Splitter::new(b.clone());
    let _ = sp.save_end().until_count(off).rest::<Bytes>();
    let tail: Bytes<'static> = sp.rest().map_err(|_| "splitting bytes failed")?;
    let base: Vec<(Bytes<'static>, Vec<u8>)> = vec![(b.clone(), text.clone()), (tail, text[off..].to_vec())];
    // The threads must be the last users.
    drop(sp);
    drop(b);
    let go = Arc::new(AtomicUsize::new(0));
    let mut js = Vec::new();
    for script in scripts {
        let mut pool = base.clone();
        let go = go.clone();
        js.push(std::thread::spawn(move || -> Result<(), String> {
            go.fetch_add(1, SeqCst);
            let mut spins = 0;
            while go.load(SeqCst) < nt + 1 {
                spins += 1;
                if cfg!(miri) || spins > 500 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
            for (op, at) in script {
                if pool.is_empty() {
                    break;
                }
                let i = at as usize % pool.len();
                let check = |b: &Bytes, v: &[u8]| {
                    if b.as_bytes() == v {
                        Ok(())
                    } else {
                        Err(format!("a string shared between threads changed from {} to {} at {op:?}", show(v), show(b)))
                    }
                };
                check(&pool[i].0, &pool[i].1)?;
                match op {
                    Op::Clone => {
                        let x = pool[i].clone();
                        pool.push(x);
                    }
                    Op::Drop => {
                        pool.swap_remove(i);
                    }
                    Op::Utf8 => {
                        let t = std::str::from_utf8(&pool[i].1).ok();
                        if pool[i].0.to_utf8().as_deref() != t {
                            return Err(format!("to_utf8 of the shared {} is wrong", show(&pool[i].1)));
                        }
                    }
                    Op::Lossy => {
                        let t = String::from_utf8_lossy(&pool[i].1).into_owned();
                        if pool[i].0.to_utf8_lossy() != t {
                            return Err(format!("to_utf8_lossy of the shared {} is wrong", show(&pool[i].1)));
                        }
                    }
                    Op::IntoVec => {
                        let (b, v) = pool.swap_remove(i);
                        let mut w: Vec<u8> = b.into();
                        if w != v {
                            return Err(format!("{} became the vector {}", show(&v), show(&w)));
                        }
                        // It is ours alone now.
                        w.iter_mut().for_each(|b| *b = b'!');
                    }
                    Op::IntoStr => {
                        let (b, v) = pool.swap_remove(i);
                        let s = b.into_utf8_lossy();
                        if *s.as_bytes() != *String::from_utf8_lossy(&v).as_bytes() {
                            return Err(format!("{} became the text {s:?}", show(&v)));
                        }
                    }
                    Op::Owning => {
                        let (b, v) = pool.swap_remove(i);
                        pool.push((b.owning(), v));
                    }
                    Op::Upper => {
                        let (b, v) = pool.swap_remove(i);
                        let mut b = b;
                        b.transform(AsciiCasemap::<true>);
                        pool.push((b, v.to_ascii_uppercase()));
                    }
                    Op::Secret => {
                        let (b, v) = pool.swap_remove(i);
                        pool.push((b.secret(), v));
                    }
                    Op::Split => {
                        let (b, v) = pool.swap_remove(i);
                        let k = (at as usize / 2).min(v.len());
                        let mut sp = Splitter::new(b);
                        let a: Bytes<'static> = {
                            let mut g = sp.save_end();
                            g.until_count(k);
                            g.rest().map_err(|_| "split")?
                        };
                        let z: Bytes<'static> = sp.rest().map_err(|_| "split")?;
                        pool.push((a, v[..k].to_vec()));
                        pool.push((z, v[k..].to_vec()));
                    }
                    Op::Hash => {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        pool[i].0.hash(&mut h);
                        std::hint::black_box(h.finish());
                    }
                    Op::ToLine => {
                        let b = pool[i].0.clone();
                        if let Ok(l) = Line::from_bytes(b) {
                            let a = Args::parse(l);
                            std::hint::black_box(a.all().is_some());
                        }
                    }
                    Op::Cow => {
                        let (b, v) = pool.swap_remove(i);
                        let c: std::borrow::Cow<'static, [u8]> = b.into();
                        if *c != *v {
                            return Err(format!("{} became the Cow {}", show(&v), show(&c)));
                        }
                    }
                }
            }
            for (b, v) in &pool {
                if b.as_bytes() != &v[..] {
                    return Err(format!("a string shared between threads changed from {} to {}", show(v), show(b)));
                }
            }
            Ok(())
        }));
    }
    drop(base);
    go.fetch_add(1, SeqCst);
    for j in js {
        j.join().map_err(|_| "a thread panicked".to_string())??;
    }
    Ok(())
}

/// Like `shared`, but all uses through one reference.
fn by_reference(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let text = if src.bool() { utf8(src, 24).into_bytes() } else { raw(src, 24) };
    ctx.sample(|| show(&text));
    ctx.nontrivial();
    let b = Bytes::from(text.clone());
    let nt = src.range(2, 3);
    let plan: Vec<Vec<u32>> = (0..nt).map(|_| (0..src.range(1, 4)).map(|_| src.below(5)).collect()).collect();
    let mut res = Vec::new();
    std::thread::scope(|s| {
        let mut js = Vec::new();
        for p in &plan {
            let (b, text) = (&b, &text);
            js.push(s.spawn(move || {
                let t = std::str::from_utf8(text).ok();
                for op in p {
                    let ok = match op {
                        0 => b.to_utf8().as_deref() == t,
                        1 => b.is_utf8_lazy().is_none_or(|x| x == t.is_some()),
                        2 => b.clone().as_bytes() == &text[..],
                        3 => b.to_utf8_lossy() == String::from_utf8_lossy(text),
                        _ => b.as_bytes() == &text[..],
                    };
                    if !ok {
                        return Err(format!("operation {op} on the shared {} is wrong", show(text)));
                    }
                }
                Ok(())
            }));
        }
        for j in js {
            res.push(j.join().unwrap_or_else(|_| Err("a thread panicked".into())));
        }
    });
    res.into_iter().collect()
}

pub fn c09() -> Vec<Facet> {
    vec![
        facet("strings", 600_000, 6_000_000, strings_ops, "three or more operations"),
        facet("secret-strings", 200_000, 2_000_000, secret_strings, "more than two derivations or drops"),
        facet("secret-buffers", 200_000, 2_000_000, secret_buffers, "the buffer moved at least twice"),
        facet("tags", 200_000, 2_000_000, tags, "three or more edits"),
        facet("names", 200_000, 2_000_000, names, "three or more edits"),
        facet("args", 200_000, 2_000_000, args, "two or more edits"),
        facet("kinds", 100_000, 1_000_000, kinds, "more than three operations"),
        facet("parse", 400_000, 4_000_000, parse, "input longer than three bytes"),
        facet("streams", 60_000, 1_000_000, streams, "at least two messages"),
        blocking("shared", 60_000, 1_000_000, shared, "always: two or three threads share a buffer"),
        blocking("by-reference", 30_000, 500_000, by_reference, "always: two or three threads share a reference"),
        blocking("oneshot", 40_000, 1_000_000, |s, c| only(channels::oneshot_threads, s, c), "several senders, or the receiver waits"),
        blocking("parker", 20_000, 500_000, |s, c| only(channels::parker_threads, s, c), "an unparking, or several unparkers"),
    ]
}
