//! C11 and C12: tag lists, name maps, argument lists and size accounting.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use std::rc::Rc;
use vinezombie::ircmsg::*;
use vinezombie::names::*;
use vinezombie::string::*;

type TagModel = BTreeMap<Vec<u8>, Vec<u8>>;

/// Few keys, so that they collide; of different lengths, so that order matters.
fn small_key(src: &mut Src) -> Vec<u8> {
    const KEYS: &[&[u8]] = &[
        b"a", b"b", b"c", b"d", b"e", b"aa", b"ab", b"ba", b"+a", b"v/x", b"A", b"B", b"\xff", b"~", b"0", b"z",
    ];
    if src.chance(1, 6) {
        let i = src.below(40);
        return format!("k{i}").into_bytes();
    }
    src.pick(KEYS).to_vec()
}

fn written(m: &TagModel) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, (k, v)) in m.iter().enumerate() {
        out.push(if i == 0 { b'@' } else { b';' });
        out.extend_from_slice(k);
        if !v.is_empty() {
            out.push(b'=');
            out.extend_from_slice(&ref_escape(v));
        }
    }
    out
}

fn check_tags(t: &Tags<'static>, m: &TagModel, ctx: &str) -> Result<(), String> {
    if cfg!(miri) {
        return Ok(());
    }
    ensure_eq!(t.len(), m.len(), "{ctx}: length");
    ensure_eq!(t.is_empty(), m.is_empty(), "{ctx}: is_empty");
    let mut w = Vec::new();
    t.write_to(&mut w).map_err(|e| e.to_string())?;
    let want = written(m);
    ensure!(w == want, "{ctx}: tags are {}, expected {}", show(&w), show(&want));
    for (k, v) in m {
        let got = t.get(Bytes::from(k.clone())).map(|v| v.to_vec());
        ensure!(got.as_ref() == Some(v), "{ctx}: get({}) = {got:?}, expected {}", show(k), show(v));
    }
    Ok(())
}

pub fn tags_machine(src: &mut Src, ctx: &mut Ctx, forget: bool) -> Result<(), String> {
    let ar = Arena::default();
    let mut m = TagModel::new();
    let mut log: Vec<String> = Vec::new();
    let mut edits = 0;
    let mut t: Tags<'static> = Tags::new();
    let r = (|| -> Result<(), String> {
        if src.chance(2, 3) {
            // Start from a parsed list, with duplicates.
            let n = many(src, 14);
            let mut text = Vec::new();
            for i in 0..n {
                if i > 0 {
                    text.push(b';');
                }
                let k = if n > 14 && src.bool() { format!("q{}", src.below(400)).into_bytes() } else { small_key(src) };
                text.extend_from_slice(&k);
                let v: Vec<u8> = match src.below(3) {
                    0 => Vec::new(),
                    1 => format!("v{i}").into_bytes(),
                    _ => nonul(src, &ar, 8).to_vec(),
                };
                if !v.is_empty() {
                    text.push(b'=');
                    text.extend_from_slice(&ref_escape(&v));
                }
                m.insert(k, v);
            }
            log.push(format!("parse {}", show(&text)));
            let w = Word::from_bytes(mk(src, &ar, &text)).map_err(|e| e.to_string())?;
            t = Tags::parse(w);
            check_tags(&t, &m, "parsed")?;
        } else if src.bool() {
            let n = src.len(10);
            let mut pairs = Vec::new();
            for i in 0..n {
                let k = small_key(src);
                let v = format!("i{i}").into_bytes();
                m.insert(k.clone(), v.clone());
                pairs.push((Key::from_bytes(k).unwrap(), NoNul::from_bytes(v).unwrap()));
            }
            log.push(format!("collect {n}"));
            t = pairs.into_iter().collect();
            check_tags(&t, &m, "collected")?;
        }
        for round in 0..src.range(1, if cfg!(miri) { 2 } else { 4 }) {
            match src.below(8) {
                0 => t = t.clone().owning(),
                1 => {
                    // Same contents by another route.
                    let mut o = Tags::new();
                    let mut ks: Vec<_> = m.iter().collect();
                    src.shuffle(&mut ks);
                    {
                        let mut e = o.edit();
                        for (k, v) in ks {
                            e.insert_pair(Key::from_bytes(k.clone()).unwrap(), NoNul::from_bytes(v.clone()).unwrap());
                        }
                    }
                    ensure!(o == t, "same contents, different tags: {o:?} and {t:?}");
                    if let Some(k) = m.keys().next() {
                        o.edit().remove(Key::from_bytes(k.clone()).unwrap());
                        ensure!(o != t, "different contents, equal tags");
                    }
                }
                2 => {
                    let k = small_key(src);
                    let nv = format!("m{round}").into_bytes();
                    log.push(format!("get_mut {}", show(&k)));
                    match (t.get_mut(Bytes::from(k.clone())), m.get_mut(&k)) {
                        (Some(v), Some(w)) => {
                            ensure!(v.as_bytes() == *w, "get_mut({})", show(&k));
                            *v = NoNul::from_bytes(nv.clone()).unwrap();
                            *w = nv;
                        }
                        (None, None) => {}
                        (a, b) => return Err(format!("get_mut({}) = {a:?}, expected {b:?}", show(&k))),
                    }
                }
                _ => {}
            }
            let mut e = t.edit();
            if !cfg!(miri) && src.chance(1, 100) {
                let n = src.range(10, 150);
                log.push(format!("insert {n}"));
                for j in 0..n {
                    let k = format!("q{}", src.below(400)).into_bytes();
                    let v = format!("b{round}.{j}").into_bytes();
                    let old = e.insert_pair(Key::from_bytes(k.clone()).unwrap(), NoNul::from_bytes(v.clone()).unwrap());
                    let want = m.insert(k.clone(), v);
                    ensure!(old.as_ref().map(|v| v.to_vec()) == want, "insert_pair({}) = {old:?}, expected {want:?}", show(&k));
                }
            }
            for j in 0..src.range(0, 10) {
                edits += 1;
                let k = small_key(src);
                let key = Key::from_bytes(mk(src, &ar, &k)).map_err(|e| e.to_string())?;
                match src.weighted(&[5, 2, 4, 3, 2, 1]) {
                    0 => {
                        let v = format!("e{round}.{j}").into_bytes();
                        log.push(format!("insert {}={}", show(&k), show(&v)));
                        let old = e.insert_pair(key, NoNul::from_bytes(v.clone()).unwrap());
                        let want = m.insert(k.clone(), v);
                        ensure!(old.as_ref().map(|v| v.to_vec()) == want, "insert_pair({}) = {old:?}, expected {want:?}", show(&k));
                    }
                    1 => {
                        log.push(format!("insert_key {}", show(&k)));
                        let old = e.insert_key(key);
                        let want = m.insert(k.clone(), Vec::new());
                        ensure!(old.as_ref().map(|v| v.to_vec()) == want, "insert_key({}) = {old:?}, expected {want:?}", show(&k));
                    }
                    2 => {
                        log.push(format!("remove {}", show(&k)));
                        let old = e.remove(key);
                        let want = m.remove(&k);
                        ensure!(old.as_ref().map(|v| v.to_vec()) == want, "remove({}) = {old:?}, expected {want:?}", show(&k));
                    }
                    3 => {
                        let got = e.get(key).map(|v| v.to_vec());
                        ensure!(got.as_ref() == m.get(&k), "guard get({}) = {got:?}, expected {:?}", show(&k), m.get(&k));
                    }
                    4 => {
                        log.push(format!("guard get_mut {}", show(&k)));
                        let v = format!("g{round}.{j}").into_bytes();
                        match (e.get_mut(key), m.get_mut(&k)) {
                            (Some(x), Some(w)) => {
                                ensure!(x.as_bytes() == *w, "guard get_mut({})", show(&k));
                                *x = NoNul::from_bytes(v.clone()).unwrap();
                                *w = v;
                            }
                            (None, None) => {}
                            (a, b) => return Err(format!("guard get_mut({}) = {a:?}, expected {b:?}", show(&k))),
                        }
                    }
                    _ => {
                        if src.chance(1, 4) {
                            log.push("clear".into());
                            e.clear();
                            m.clear();
                        }
                    }
                }
                ensure_eq!(e.len(), m.len(), "length in the guard");
                ensure_eq!(e.is_empty(), m.is_empty(), "is_empty in the guard");
                // Every key is visible through the guard, not only the one touched last.
                for (k, v) in &m {
                    let got = e.get(Bytes::from(k.clone())).map(|v| v.to_vec());
                    ensure!(got.as_ref() == Some(v), "guard get({}) = {got:?}, expected {}", show(k), show(v));
                }
            }
            if forget && src.chance(1, 2) {
                log.push("forget the guard".into());
                std::mem::forget(e);
                // Elements may be lost, never corrupted.
                let mut w = Vec::new();
                t.write_to(&mut w).map_err(|e| e.to_string())?;
                let mut seen = TagModel::new();
                let mut prev: Option<Vec<u8>> = None;
                if !w.is_empty() {
                    for part in w[1..].split(|b| *b == b';') {
                        let mut it = part.splitn(2, |b| *b == b'=');
                        let k = it.next().unwrap().to_vec();
                        let v = ref_unescape(it.next().unwrap_or(b""));
                        ensure!(prev.as_ref().is_none_or(|p| *p < k), "after a forgotten guard the tags are out of order: {}", show(&w));
                        ensure!(m.get(&k) == Some(&v), "after a forgotten guard {}={} appears", show(&k), show(&v));
                        prev = Some(k.clone());
                        seen.insert(k, v);
                    }
                }
                m = seen;
            } else {
                drop(e);
            }
            check_tags(&t, &m, "after the guard")?;
        }
        Ok(())
    })();
    if edits >= 3 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r.map_err(|e| format!("{e}\nafter: {}", log.join("; ")))
}

fn c11_tags(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    tags_machine(src, ctx, false)
}
fn c11_tags_forget(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    tags_machine(src, ctx, true)
}

/// Extra data that counts its living instances.
#[derive(Debug)]
pub struct Counted(pub u32, Rc<std::cell::Cell<i64>>);
impl Counted {
    pub fn new(n: u32, c: &Rc<std::cell::Cell<i64>>) -> Self {
        c.set(c.get() + 1);
        Counted(n, c.clone())
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new(self.0, &self.1)
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.1.set(self.1.get() - 1);
    }
}

const NAMES: &[&str] = &["NICKLEN", "USERLEN", "HOSTLEN", "CHANMODES", "PREFIX", "BOT", "AWAYLEN", "a", "zz", "Z", "0"];

pub fn namemap_machine(src: &mut Src, ctx: &mut Ctx, forget: bool) -> Result<(), String> {
    use vinezombie::names::isupport::*;
    let live = Rc::new(std::cell::Cell::new(0i64));
    let mut leaked_ok = false;
    let mut log: Vec<String> = Vec::new();
    let mut edits = 0;
    let r = (|| -> Result<(), String> {
        let mut map: NameMap<ISupport, Counted> = NameMap::new();
        let mut m: BTreeMap<Vec<u8>, (Vec<u8>, u32)> = BTreeMap::new();
        let mut stamp = 0;
        for _ in 0..src.range(1, if cfg!(miri) { 2 } else { 4 }) {
            let mut e = map.edit();
            if !cfg!(miri) && src.chance(1, 100) {
                let n = src.range(10, 150);
                log.push(format!("insert {n}"));
                for _ in 0..n {
                    let name = format!("Q{}", src.below(400)).into_bytes();
                    stamp += 1;
                    let val = format!("{stamp}").into_bytes();
                    let elem = (Key::from_bytes(name.clone()).unwrap(), Word::from_bytes(val.clone()).unwrap());
                    let old = e.insert(elem, Counted::new(stamp, &live)).map(|(u, x)| (u.1.to_vec(), x.0));
                    let want = m.insert(name.clone(), (val, stamp));
                    ensure!(old == want, "insert({}) = {old:?}, expected {want:?}", show(&name));
                }
            }
            for _ in 0..src.range(0, 9) {
                edits += 1;
                let name: Vec<u8> =
                    if src.chance(1, 3) { format!("K{}", src.below(30)).into_bytes() } else { src.pick(NAMES).as_bytes().to_vec() };
                let key = Key::from_bytes(name.clone()).unwrap();
                stamp += 1;
                // Now and then one that does not read as a number.
                let val = match src.below(16) {
                    15 => b"x7".to_vec(),
                    14 => b"70000".to_vec(),
                    _ => format!("{}", 1 + src.below(300)).into_bytes(),
                };
                let elem = (key.clone(), Word::from_bytes(val.clone()).unwrap());
                let op = src.weighted(&[4, 3, 3, 4, 3, 2, 2, 1]);
                log.push(format!("op {op} {} {}", show(&name), show(&val)));
                match op {
                    0 => {
                        let old = e.insert(elem, Counted::new(stamp, &live)).map(|(u, x)| (u.1.to_vec(), x.0));
                        let want = m.insert(name.clone(), (val, stamp));
                        ensure!(old == want, "insert({}) = {old:?}, expected {want:?}", show(&name));
                    }
                    1 => {
                        let got = e.insert_or_update(elem, Counted::new(stamp, &live)).map(|u| u.1.to_vec());
                        match m.get_mut(&name) {
                            Some(x) => {
                                x.1 = stamp;
                                ensure!(got == Some(val), "insert_or_update({}) returned {got:?}", show(&name));
                            }
                            None => {
                                ensure!(got.is_none(), "insert_or_update({}) returned {got:?}", show(&name));
                                m.insert(name.clone(), (val, stamp));
                            }
                        }
                    }
                    2 => {
                        let got = e.try_insert(elem, Counted::new(stamp, &live)).map(|(u, x)| (u.1.to_vec(), x.0));
                        if m.contains_key(&name) {
                            ensure!(got == Some((val, stamp)), "try_insert({}) returned {got:?}", show(&name));
                        } else {
                            ensure!(got.is_none(), "try_insert({}) returned {got:?}", show(&name));
                            m.insert(name.clone(), (val, stamp));
                        }
                    }
                    3 => {
                        let got = e.remove_raw(&key).map(|(u, x)| (u.1.to_vec(), x.0));
                        let want = m.remove(&name);
                        ensure!(got == want, "remove_raw({}) = {got:?}, expected {want:?}", show(&name));
                    }
                    4 => {
                        let got = e.remove(NICKLEN).map(|(u, x)| (u.1.to_vec(), x.0));
                        let want = m.remove(&b"NICKLEN"[..]);
                        ensure!(got == want, "remove(NICKLEN) = {got:?}, expected {want:?}");
                    }
                    5 => {
                        if let Some(x) = e.get_extra_raw_mut(&key) {
                            *x = Counted::new(stamp, &live);
                        }
                        if let Some(x) = m.get_mut(&name) {
                            x.1 = stamp;
                        }
                    }
                    6 => {
                        let found = e.get_both_mut(NICKLEN).is_some();
                        ensure_eq!(found, m.contains_key(&b"NICKLEN"[..]), "get_both_mut(NICKLEN) found something");
                        if let Some((v, x)) = e.get_both_mut(NICKLEN) {
                            let want = m.get(&b"NICKLEN"[..]).and_then(|x| std::str::from_utf8(&x.0).ok()?.parse::<u16>().ok());
                            ensure!(v.as_ref().ok().map(|n| n.get()) == want, "get_both_mut(NICKLEN) = {v:?}, expected {want:?}");
                            *x = Counted::new(stamp, &live);
                        }
                        if let Some(x) = m.get_mut(&b"NICKLEN"[..]) {
                            x.1 = stamp;
                        }
                    }
                    _ => {
                        if src.chance(1, 3) {
                            e.clear();
                            m.clear();
                        }
                    }
                }
                ensure_eq!(e.len(), m.len(), "length in the guard");
                ensure_eq!(e.is_empty(), m.is_empty(), "is_empty in the guard");
                for (k, (v, x)) in &m {
                    let k = Key::from_bytes(k.clone()).unwrap();
                    let u = e.get_union_raw(&k).map(|u| u.1.to_vec());
                    let got = e.get_extra_raw(&k).map(|x| x.0);
                    ensure!(u.as_ref() == Some(v) && got == Some(*x), "guard: {k} -> {u:?} {got:?}, expected {} {x}", show(v));
                }
                ensure!(e.get_union_raw(&Key::from_str("ABSENT")).is_none(), "absent key found");
                ensure_eq!(live.get(), m.len() as i64, "extra values alive");
            }
            if forget && src.chance(1, 2) {
                log.push("forget".into());
                leaked_ok = true;
                std::mem::forget(e);
                let ks: Vec<Vec<u8>> = map.keys().map(|k| k.to_vec()).collect();
                ensure!(ks.windows(2).all(|w| w[0] < w[1]), "after a forgotten guard keys are {ks:?}");
                let before = m.clone();
                m.retain(|k, _| ks.contains(k));
                ensure!(m.len() == ks.len(), "after a forgotten guard keys are {ks:?}, there were {before:?}");
                live.set(m.len() as i64);
            } else {
                drop(e);
            }
            let ks: Vec<Vec<u8>> = map.keys().map(|k| k.to_vec()).collect();
            let want: Vec<Vec<u8>> = m.keys().cloned().collect();
            ensure_eq!(ks, want, "keys");
            ensure_eq!(map.keys().len(), m.len(), "length of keys()");
            let mut back: Vec<Vec<u8>> = map.keys().rev().map(|k| k.to_vec()).collect();
            back.reverse();
            ensure_eq!(back, want, "keys in reverse");
            ensure_eq!(map.len(), m.len(), "length");
            for (k, (v, x)) in &m {
                let k = Key::from_bytes(k.clone()).unwrap();
                ensure!(map.get_union_raw(&k).is_some_and(|u| u.1.as_bytes() == *v && u.0 == k), "map: value of {k}");
                ensure!(map.get_extra_raw(&k).is_some_and(|y| y.0 == *x), "map: extra value of {k}");
            }
            macro_rules! named {
                ($($n:ident)+) => {$(
                    let want = m.get(stringify!($n).as_bytes());
                    ensure!(map.get_union($n).map(|u| u.1.to_vec()).as_ref() == want.map(|w| &w.0), "get_union({})", $n);
                    ensure!(map.get_extra($n).map(|x| x.0) == want.map(|w| w.1), "get_extra({})", $n);
                    let p = map.get_parsed($n).map(|v| v.ok().map(|n| n.get()));
                    let pw = want.map(|w| std::str::from_utf8(&w.0).ok().and_then(|s| s.parse::<u16>().ok()));
                    ensure!(p == pw, "get_parsed({}) = {p:?}, expected {pw:?}", $n);
                    let b = map.get_both($n).map(|(v, x)| (v.ok().map(|n| n.get()), x.0));
                    ensure!(b == pw.map(|p| (p, want.unwrap().1)), "get_both({}) = {b:?}", $n);
                )+};
            }
            named!(NICKLEN USERLEN HOSTLEN AWAYLEN);
            ensure_eq!(live.get(), m.len() as i64, "extra values alive after the guard");
            match src.below(6) {
                0 => {
                    map.clear();
                    m.clear();
                    log.push("map.clear".into());
                }
                1 => {
                    if let Some(x) = map.get_extra_mut(USERLEN) {
                        stamp += 1;
                        *x = Counted::new(stamp, &live);
                        m.get_mut(&b"USERLEN"[..]).unwrap().1 = stamp;
                    }
                }
                2 => {
                    let o = map.clone();
                    ensure!(o == map, "a clone differs");
                    drop(o);
                }
                _ => {}
            }
        }
        drop(map);
        if !leaked_ok {
            ensure_eq!(live.get(), 0, "extra values alive after the map is gone");
        }
        Ok(())
    })();
    if edits >= 3 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r.map_err(|e| format!("{e}\nafter: {}", log.join("; ")))
}

fn c11_names(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    namemap_machine(src, ctx, false)
}
fn c11_names_forget(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    namemap_machine(src, ctx, true)
}

/// Maps keyed by message kind: lookups by commands and numerics.
pub fn c11_kinds(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut map: NameMap<ServerMsgKind, u32> = NameMap::new();
    let mut m: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    let n = src.range(1, 16);
    let mut used = Vec::new();
    let gen = |src: &mut Src| -> ServerMsgKindRaw<'static> {
        if src.bool() {
            Numeric::from_int(src.below(12) as u16 * 83).unwrap().into()
        } else {
            cmd(src, &ar, 3).into()
        }
    };
    {
        let mut e = map.edit();
        for i in 0..n as u32 {
            let kind = gen(src);
            let mut msg = ServerMsg::new_cmd(Cmd::from_str("X"));
            msg.kind = kind.clone();
            let name = kind.as_str().as_bytes().to_vec();
            if src.chance(1, 4) {
                let got = e.remove_raw(&kind).map(|x| x.1);
                ensure_eq!(got, m.remove(&name), "remove_raw({kind:?})");
            } else {
                let got = e.insert(msg, i).map(|x| x.1);
                ensure_eq!(got, m.insert(name, i), "insert({kind:?})");
            }
            used.push(kind);
        }
    }
    ctx.sample(|| format!("{used:?}"));
    if n > 3 {
        ctx.nontrivial();
    }
    let ks: Vec<Vec<u8>> = map.keys().map(|k| k.as_str().as_bytes().to_vec()).collect();
    let want: Vec<Vec<u8>> = m.keys().cloned().collect();
    ensure_eq!(ks, want, "keys");
    for k in &used {
        ensure_eq!(map.get_extra_raw(k).copied(), m.get(k.as_str().as_bytes()).copied(), "lookup of {k:?}");
    }
    Ok(())
}

pub fn c11() -> Vec<Facet> {
    vec![
        facet("tags", 600_000, 30_000_000, c11_tags, "three or more edits"),
        facet("tags-forgotten", 300_000, 15_000_000, c11_tags_forget, "three or more edits"),
        facet("names", 400_000, 20_000_000, c11_names, "three or more edits"),
        facet("names-forgotten", 200_000, 10_000_000, c11_names_forget, "three or more edits"),
        facet("kinds", 200_000, 10_000_000, c11_kinds, "more than three operations"),
    ]
}

/// Model of an argument list: single words, then perhaps one argument that is not a word.
#[derive(Clone, Default, Debug, PartialEq)]
struct ArgModel {
    words: Vec<Vec<u8>>,
    long: Option<Vec<u8>>,
}
impl ArgModel {
    fn add(&mut self, v: &[u8]) -> Option<Vec<u8>> {
        let old = self.long.take();
        if valid(Kind::Arg, v) {
            self.words.push(v.to_vec());
        } else {
            self.long = Some(v.to_vec());
        }
        old
    }
    fn all(&self) -> Vec<Vec<u8>> {
        self.words.iter().cloned().chain(self.long.clone()).collect()
    }
    fn written(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for (i, w) in self.words.iter().enumerate() {
            if i > 0 {
                out.push(b' ');
            }
            out.extend_from_slice(w);
        }
        if let Some(l) = &self.long {
            if !out.is_empty() {
                out.push(b' ');
            }
            out.push(b':');
            out.extend_from_slice(l);
        }
        out
    }
}

fn check_args(a: &Args<'static>, m: &ArgModel, ctx: &str) -> Result<(), String> {
    if cfg!(miri) {
        return Ok(());
    }
    let all = m.all();
    ensure_eq!(args_of(a), all, "{ctx}: arguments");
    ensure_eq!(a.len(), all.len(), "{ctx}: len");
    ensure_eq!(a.is_empty(), all.is_empty(), "{ctx}: is_empty");
    ensure_eq!(a.is_last_long(), m.long.is_some(), "{ctx}: is_last_long");
    let words: Vec<Vec<u8>> = a.words().iter().map(|w| w.to_vec()).collect();
    ensure_eq!(words, m.words, "{ctx}: words");
    let every = a.all().map(|s| s.iter().map(|w| w.to_vec()).collect::<Vec<_>>());
    ensure_eq!(every, m.long.is_none().then(|| m.words.clone()), "{ctx}: all");
    let mut bytes: usize = all.iter().map(|w| w.len()).sum();
    if !all.is_empty() {
        // Spaces between the arguments, and the colon.
        bytes += all.len() - 1 + 1;
    }
    ensure_eq!(a.len_bytes(), bytes, "{ctx}: len_bytes of {all:?}");
    if std::str::from_utf8(&m.written()).is_ok() {
        let secret = a.words().iter().any(|w| w.is_secret()) || a.split_last().1.is_some_and(|l| l.is_secret());
        if !secret {
            let d = a.to_string();
            ensure_eq!(d.as_bytes(), m.written().as_slice(), "{ctx}: Display");
        }
    }
    Ok(())
}

pub fn c12_args(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut log: Vec<String> = Vec::new();
    let mut m = ArgModel::default();
    let mut ops = 0;
    let r = (|| -> Result<(), String> {
        let piece = |src: &mut Src| -> Vec<u8> {
            match src.below(4) {
                0 => src.pick(&[&b""[..], b":", b":a", b"a b", b" ", b"a", b"b", b"a:", b"\t"]).to_vec(),
                1 => of_kind(src, Kind::Line, 20),
                _ => of_kind(src, Kind::Arg, 10),
            }
        };
        let mut a: Args<'static> = match src.below(5) {
            0 => Args::empty(),
            1 => {
                let n = src.len(17);
                for _ in 0..n {
                    m.words.push(of_kind(src, Kind::Arg, 8));
                }
                let w: Vec<Arg<'static>> = m.words.iter().map(|w| Arg::from_bytes(mk(src, &ar, w)).unwrap()).collect();
                log.push(format!("from {:?}", m.words));
                Args::from(w)
            }
            2 => {
                // Borrowed words.
                let n = src.len(5);
                for _ in 0..n {
                    m.words.push(of_kind(src, Kind::Arg, 8));
                }
                let w: Vec<Arg<'static>> = m.words.iter().map(|w| Arg::from_bytes(mk(src, &ar, w)).unwrap()).collect();
                let last = src.bool().then(|| piece(src));
                if let Some(l) = &last {
                    m.add(l);
                }
                log.push(format!("new {:?} {last:?}", m.words));
                Args::new(w, last.map(|l| Line::from_bytes(mk(src, &ar, &l)).unwrap()))
            }
            3 => {
                let n = src.len(6);
                let mut v = Vec::new();
                for _ in 0..n {
                    let w = of_kind(src, Kind::Arg, 8);
                    v.extend(std::iter::repeat(b' ').take(src.range(1, 2)));
                    v.extend_from_slice(&w);
                    m.words.push(w);
                }
                if src.bool() {
                    let l = of_kind(src, Kind::Line, 12);
                    v.extend_from_slice(b" :");
                    v.extend_from_slice(&l);
                    m.add(&l);
                }
                log.push(format!("parse {}", show(&v)));
                Args::parse(Line::from_bytes(mk(src, &ar, &v)).unwrap())
            }
            _ => Args::default(),
        };
        check_args(&a, &m, "new")?;
        for _ in 0..src.range(1, 4) {
            match src.below(8) {
                0 => a = a.clone().owning(),
                1 => {
                    let n = src.len(4);
                    let words: Vec<Vec<u8>> = (0..n).map(|_| of_kind(src, Kind::Arg, 8)).collect();
                    let last = src.bool().then(|| piece(src));
                    log.push(format!("set {words:?} {last:?}"));
                    m = ArgModel { words: words.clone(), long: None };
                    if let Some(l) = &last {
                        m.add(l);
                    }
                    let ws: Vec<Arg<'static>> = words.iter().map(|w| Arg::from_bytes(mk(src, &ar, w)).unwrap()).collect();
                    a.set(ws, last.map(|l| Line::from_bytes(mk(src, &ar, &l)).unwrap()));
                }
                2 if src.chance(1, 3) => {
                    log.push("clear".into());
                    a.clear();
                    m = ArgModel::default();
                }
                _ => {}
            }
            check_args(&a, &m, "between guards")?;
            let keep = a.clone();
            let kept = m.clone();
            {
                let mut e = a.edit();
                for _ in 0..src.range(0, 6) {
                    ops += 1;
                    match src.below(7) {
                        0 => {
                            let w = of_kind(src, Kind::Arg, 10);
                            log.push(format!("add_word {}", show(&w)));
                            e.add_word(Arg::from_bytes(mk(src, &ar, &w)).unwrap());
                            m.words.push(w);
                        }
                        1 => {
                            let w = of_kind(src, Kind::Arg, 10);
                            log.push(format!("add_before_last {}", show(&w)));
                            e.add_before_last(Arg::from_bytes(mk(src, &ar, &w)).unwrap());
                            let n = m.words.len();
                            if m.long.is_none() && n > 0 {
                                m.words.insert(n - 1, w);
                            } else {
                                m.words.push(w);
                            }
                        }
                        2 | 3 => {
                            let p = piece(src);
                            log.push(format!("add {}", show(&p)));
                            let got = e.add(Line::from_bytes(mk(src, &ar, &p)).unwrap()).map(|l| l.to_vec());
                            let want = m.add(&p);
                            ensure_eq!(got, want, "add({}) returned", show(&p));
                        }
                        4 => {
                            let s = *src.pick(&["", "lit", ":x", "two words"]);
                            log.push(format!("add_literal {s:?}"));
                            e.add_literal(s);
                            m.add(s.as_bytes());
                        }
                        5 => {
                            // Replace a word through the guard.
                            let n = e.words().len();
                            if n > 0 {
                                let i = src.usize_below(n);
                                let w = of_kind(src, Kind::Arg, 10);
                                log.push(format!("words[{i}] = {}", show(&w)));
                                e.words()[i] = Arg::from_bytes(mk(src, &ar, &w)).unwrap();
                                m.words[i] = w;
                            }
                        }
                        _ => {
                            if src.chance(1, 5) {
                                log.push("guard clear".into());
                                e.clear();
                                m = ArgModel::default();
                            }
                        }
                    }
                    ensure_eq!(e.args_left(), 15 - m.all().len() as isize, "args_left");
                    let all = m.all();
                    {
                        let (w, l) = e.split_last();
                        let got: Vec<Vec<u8>> = w.iter().map(|x| x.to_vec()).chain(l.map(|x| x.to_vec())).collect();
                        ensure_eq!(got, all, "guard split_last");
                    }
                    let every = e.all().map(|s| s.iter().map(|w| w.to_vec()).collect::<Vec<_>>());
                    ensure_eq!(every, m.long.is_none().then(|| m.words.clone()), "guard all");
                }
            }
            check_args(&a, &m, "after the guard")?;
            check_args(&keep, &kept, "a clone taken before")?;
            ensure_eq!(a == keep, m == kept, "equality");
        }
        Ok(())
    })();
    if ops >= 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| log.join("; "));
    r.map_err(|e| format!("{e}\nafter: {}", log.join("; ")))
}

/// Size accounting against the bytes actually written.
fn c12_sizes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut m = mk_client(src, &ar);
    if src.chance(1, 3) {
        // Near the limit.
        let n = 470 + src.usize_below(60);
        m.args.edit().add(Line::from_bytes(vec![b'x'; n]).unwrap());
    }
    let source = src.bool().then(|| mk_source(src, &ar));
    if let Some(s) = &source {
        let mut w = Vec::new();
        s.write_to(&mut w).map_err(|e| e.to_string())?;
        ensure_eq!(s.len(), w.len(), "length of source {}", show(&w));
        ensure_eq!(s.len_nonzero().get(), w.len(), "length of source {}", show(&w));
        if let Some(u) = &s.userhost {
            let mut w = Vec::new();
            u.write_to(&mut w).map_err(|e| e.to_string())?;
            ensure_eq!(u.len(), w.len(), "length of userhost {}", show(&w));
        }
    }
    let mut bare = m.clone();
    bare.tags = Tags::new();
    let mut w = Vec::new();
    ClientCodec::write_to(&bare, &mut w).map_err(|e| e.to_string())?;
    // As forwarded: ":source " in front, newline behind, and a colon that may be missing.
    let mut size = w.len() as isize + 2;
    if let Some(s) = &source {
        size += s.len() as isize + 2;
    }
    if !m.args.is_empty() && !m.args.is_last_long() {
        size += 1;
    }
    let left = m.bytes_left(source.as_ref());
    ctx.sample(|| format!("{} left={left}", show(&w)));
    ensure_eq!(left, 512 - size, "bytes_left of {} with source {source:?}", show(&w));
    if m.args.len() >= 2 {
        ctx.nontrivial();
    }
    if left < 0 {
        ctx.label("over the limit");
    }
    let mut sm = mk_server(src, &ar);
    if src.chance(1, 4) {
        let n = 470 + src.usize_below(60);
        sm.args.edit().add(Line::from_bytes(vec![b'y'; n]).unwrap());
    }
    let mut bare = sm.clone();
    bare.tags = Tags::new();
    let mut w = Vec::new();
    ServerCodec::write_to(&bare, &mut w).map_err(|e| e.to_string())?;
    let colon = (!sm.args.is_empty() && !sm.args.is_last_long()) as isize;
    ensure_eq!(sm.bytes_left(), 510 - w.len() as isize - colon, "bytes_left of {}", show(&w));
    ensure_eq!(sm.kind.len(), sm.kind.as_str().len(), "length of kind");
    Ok(())
}

pub fn c12() -> Vec<Facet> {
    vec![
        facet("args", 800_000, 40_000_000, c12_args, "two or more edits"),
        facet("sizes", 500_000, 20_000_000, c12_sizes, "message has two or more arguments"),
    ]
}
