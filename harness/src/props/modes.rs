//! C19: mode sets, mode types, status prefixes and ISUPPORT values against plain models.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU8;
use vinezombie::names::isupport::*;
use vinezombie::names::{ISupport, Name, NameMap, NameValued};
use vinezombie::state::*;
use vinezombie::string::*;

const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// Letters in the documented order: alphabetical first, then lower before upper case.
fn rank(l: u8) -> (u8, bool) {
    (l.to_ascii_lowercase(), l.is_ascii_uppercase())
}
#[derive(Clone, PartialEq, Eq, Default, Debug)]
struct Set(BTreeSet<(u8, bool)>);
impl Set {
    fn has(&self, l: u8) -> bool {
        self.0.contains(&rank(l))
    }
    fn letters(&self) -> Vec<u8> {
        self.0.iter().map(|(l, up)| if *up { l.to_ascii_uppercase() } else { *l }).collect()
    }
}
fn letter(src: &mut Src) -> u8 {
    // Few letters, so that collisions happen, plus the ends of the alphabet.
    if src.chance(2, 3) {
        *src.pick(b"abAByzYZo")
    } else {
        *src.pick(LETTERS)
    }
}
fn mode(l: u8) -> Mode {
    Mode::new(l).expect("an ASCII letter")
}
fn of(ls: &[u8]) -> (ModeSet, Set) {
    (ls.iter().map(|l| mode(*l)).collect(), Set(ls.iter().map(|l| rank(*l)).collect()))
}
fn same(what: &str, s: &ModeSet, m: &Set) -> Result<(), String> {
    let want = m.letters();
    ensure_eq!(s.len(), want.len(), "{what}: number of modes, expected {}", show(&want));
    ensure_eq!(s.is_empty(), want.is_empty(), "{what}: emptiness");
    for l in LETTERS {
        ensure_eq!(s.contains(mode(*l)), m.has(*l), "{what}: contains {}, expected {}", *l as char, show(&want));
    }
    let got: Vec<u8> = s.into_iter().map(u8::from).collect();
    ensure_eq!(show(&got), show(&want), "{what}: letters in order");
    ensure_eq!(s.to_string(), String::from_utf8(want.clone()).unwrap(), "{what}: printed form");
    ensure!(*s == of(&want).0, "{what}: unequal to a set of the same letters");
    Ok(())
}

fn sets(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // Every byte as a mode letter.
    let b = src.byte();
    ensure_eq!(Mode::new(b).map(u8::from), b.is_ascii_alphabetic().then_some(b), "byte {b} as a mode");
    let (x, y) = (letter(src), letter(src));
    ensure_eq!(mode(x).cmp(&mode(y)), rank(x).cmp(&rank(y)), "order of {} and {}", x as char, y as char);
    ensure_eq!(mode(x).partial_cmp(&mode(y)), Some(rank(x).cmp(&rank(y))), "order of {} and {}", x as char, y as char);
    ensure_eq!(mode(x) == mode(y), x == y, "equality of {} and {}", x as char, y as char);
    ensure_eq!(mode(x).to_string(), (x as char).to_string(), "printed mode");
    ensure_eq!(mode(x).into_char(), x as char, "mode as a character");
    ensure_eq!(char::from(mode(x)), x as char, "mode as a character");
    ensure_eq!(NonZeroU8::from(mode(x)).get(), x, "mode as a byte");
    ensure_eq!(show(&Arg::from(mode(x))), show(&[x]), "mode as an argument");

    let n = src.range(0, 14);
    let mut pool: Vec<u8> = (0..n).map(|_| letter(src)).collect();
    if src.chance(1, 30) {
        // All of them, or nearly.
        pool = LETTERS.to_vec();
        src.shuffle(&mut pool);
        pool.truncate(src.range(45, 60));
    }
    let (mut s, mut m) = of(&pool);
    same("collected", &s, &m)?;
    let mut trail = show(&pool);
    for _ in 0..src.range(0, 12) {
        let l = letter(src);
        let other: Vec<u8> = (0..src.range(0, 8)).map(|_| letter(src)).collect();
        let (t, u) = of(&other);
        match src.below(7) {
            0 => {
                let fresh = m.0.insert(rank(l));
                ensure_eq!(s.set(mode(l)), fresh, "{trail}: setting {} changed something", l as char);
                trail += &format!(" +{}", l as char);
            }
            1 => {
                let gone = m.0.remove(&rank(l));
                ensure_eq!(s.unset(mode(l)), gone, "{trail}: unsetting {} changed something", l as char);
                trail += &format!(" -{}", l as char);
            }
            2 => {
                s = s.with(mode(l));
                m.0.insert(rank(l));
                trail += &format!(" with {}", l as char);
            }
            3 => {
                s = s.union(t);
                m.0.extend(u.0);
                trail += &format!(" union {}", show(&other));
            }
            4 => {
                s = s.intersection(t);
                m.0.retain(|r| u.0.contains(r));
                trail += &format!(" intersection {}", show(&other));
            }
            5 => {
                s = s.difference(t);
                m.0.retain(|r| !u.0.contains(r));
                trail += &format!(" difference {}", show(&other));
            }
            _ => {
                use std::cmp::Ordering::*;
                let want = match (m.0.is_subset(&u.0), u.0.is_subset(&m.0)) {
                    (true, true) => Some(Equal),
                    (true, false) => Some(Less),
                    (false, true) => Some(Greater),
                    _ => None,
                };
                ensure_eq!(s.partial_cmp(&t), want, "{trail} compared with {}", show(&other));
                ensure_eq!(s == t, want == Some(Equal), "{trail} equal to {}", show(&other));
            }
        }
        same(&trail, &s, &m)?;
    }
    // Iteration from both ends.
    let mut want: std::collections::VecDeque<u8> = m.letters().into();
    let mut it = s.into_iter();
    loop {
        ensure_eq!(it.len(), want.len(), "{trail}: length of the iterator");
        let (a, b) = if src.bool() { (it.next(), want.pop_front()) } else { (it.next_back(), want.pop_back()) };
        ensure_eq!(a.map(u8::from), b, "{trail}: iteration");
        if b.is_none() {
            break;
        }
    }
    ensure_eq!((it.next(), it.next_back()), (None, None), "{trail}: iteration after its end");
    if m.0.len() > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| trail);
    Ok(())
}

const TYPES: [ModeType; 4] = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];

fn types_same(what: &str, t: &ModeTypes, m: &BTreeMap<(u8, bool), usize>) -> Result<(), String> {
    for l in LETTERS {
        let want = m.get(&rank(*l)).map(|i| TYPES[*i]);
        ensure_eq!(t.get(mode(*l)), want, "{what}: type of {}", *l as char);
    }
    let printed = t.to_string();
    let parts: Vec<Vec<u8>> = (0..4)
        .map(|i| Set(m.iter().filter(|(_, j)| **j == i).map(|(r, _)| *r).collect()).letters())
        .collect();
    ensure_eq!(show(printed.as_bytes()), show(&parts.join(&b','.to_owned())), "{what}: printed form");
    let (back, overlap, rest) = ModeTypes::parse(printed.as_bytes());
    ensure!(back == *t && overlap.is_empty() && rest.is_empty(), "{what}: {printed:?} reads as {back:?} {overlap:?} {rest:?}");
    Ok(())
}
/// Reference for four sets with overlaps taken out.
fn disjoint(parts: &[Set; 4]) -> (BTreeMap<(u8, bool), usize>, Set) {
    let mut m = BTreeMap::new();
    let mut over = Set::default();
    for l in LETTERS {
        let r = rank(*l);
        let at: Vec<usize> = (0..4).filter(|i| parts[*i].0.contains(&r)).collect();
        match at.len() {
            0 => {}
            1 => {
                m.insert(r, at[0]);
            }
            _ => {
                over.0.insert(r);
            }
        }
    }
    (m, over)
}
fn types_value(src: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    if src.chance(1, 30) {
        // All letters there are.
        v = LETTERS.to_vec();
        v.extend_from_slice(b",,,");
        src.shuffle(&mut v);
        return v;
    }
    for _ in 0..src.range(0, 16) {
        match src.below(12) {
            0..=3 => v.push(b','),
            4 => v.push(*src.pick(b"0@[`{ \xff\x00:=")),
            _ => v.push(letter(src)),
        }
    }
    v
}
/// (types, overlap, what follows the fourth list)
fn read_types(v: &[u8]) -> (BTreeMap<(u8, bool), usize>, Set, Vec<u8>) {
    let mut lists = v.splitn(5, |b| *b == b',');
    let mut parts: [Set; 4] = Default::default();
    for p in &mut parts {
        if let Some(list) = lists.next() {
            p.0.extend(list.iter().filter(|b| b.is_ascii_alphabetic()).map(|b| rank(*b)));
        }
    }
    let rest = lists.next().unwrap_or_default().to_vec();
    let (m, over) = disjoint(&parts);
    (m, over, rest)
}

fn types(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    for (i, t) in TYPES.iter().enumerate() {
        ensure_eq!(
            (t.is_listlike(), t.needs_arg_to_set(), t.needs_arg_to_unset()),
            (i == 0, i != 3, i < 2),
            "argument rules of {t:?}"
        );
    }
    let st = ModeType::Status;
    ensure!(st.is_listlike() && st.needs_arg_to_set() && st.needs_arg_to_unset(), "argument rules of status modes");
    let v = types_value(src);
    let (t, overlap, rest) = ModeTypes::parse(&v);
    let (mut m, over, tail) = read_types(&v);
    let mut trail = format!("CHANMODES value {}", show(&v));
    types_same(&trail, &t, &m)?;
    same(&format!("{trail}: overlap"), &overlap, &over)?;
    ensure_eq!(show(rest), show(&tail), "{trail}: further lists");
    if !over.0.is_empty() {
        ctx.label("overlap");
    }
    if m.len() > 1 {
        ctx.nontrivial();
    }
    let mut t = t;
    for _ in 0..src.range(0, 6) {
        let which = src.usize_below(4);
        match src.below(5) {
            0 => {
                let l = letter(src);
                t.insert(mode(l), TYPES[which]);
                m.insert(rank(l), which);
                trail += &format!(" insert {} {:?}", l as char, TYPES[which]);
            }
            1 => {
                // Status modes are not among these types.
                let l = letter(src);
                t.insert(mode(l), st);
                m.remove(&rank(l));
                trail += &format!(" insert {} as status", l as char);
            }
            2 => {
                let ls: Vec<u8> = (0..src.range(0, 6)).map(|_| letter(src)).collect();
                let status = src.chance(1, 4);
                t.insert_set(of(&ls).0, if status { st } else { TYPES[which] });
                for l in &ls {
                    if status {
                        m.remove(&rank(*l));
                    } else {
                        m.insert(rank(*l), which);
                    }
                }
                trail += &format!(" insert {} {which} status={status}", show(&ls));
            }
            3 => {
                let ls: Vec<u8> = (0..src.range(0, 6)).map(|_| letter(src)).collect();
                t = ModeTypes::from_set(of(&ls).0, TYPES[which]);
                m = ls.iter().map(|l| (rank(*l), which)).collect();
                trail = format!("from_set {} {which}", show(&ls));
                let none = ModeTypes::from_set(of(&ls).0, st);
                ensure!(none == ModeTypes::new(), "from_set of status modes is not empty");
            }
            _ => {
                let mut parts: Vec<(ModeSet, Set)> = Vec::new();
                let mut text = Vec::new();
                for _ in 0..4 {
                    let ls: Vec<u8> = (0..src.range(0, 5)).map(|_| letter(src)).collect();
                    text.push(show(&ls));
                    parts.push(of(&ls));
                }
                let (nt, over) = ModeTypes::from_sets(parts[0].0, parts[1].0, parts[2].0, parts[3].0);
                let (nm, want) = disjoint(&[parts[0].1.clone(), parts[1].1.clone(), parts[2].1.clone(), parts[3].1.clone()]);
                trail = format!("from_sets {}", text.join(" "));
                same(&format!("{trail}: overlap"), &over, &want)?;
                t = nt;
                m = nm;
            }
        }
        types_same(&trail, &t, &m)?;
    }
    ctx.sample(|| trail);
    Ok(())
}

fn prefix_value(src: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    if !src.chance(1, 10) {
        v.push(b'(');
    }
    let n = src.range(0, 5);
    let mut pool = b"ovhqaYOZ".to_vec();
    let mut pres = b"@+%&~!.^".to_vec();
    src.shuffle(&mut pool);
    src.shuffle(&mut pres);
    for i in 0..n {
        v.push(match src.below(10) {
            0 => letter(src),
            1 => *src.pick(b"1_@ \xfe"),
            _ => pool[i],
        });
    }
    if !src.chance(1, 10) {
        v.push(b')');
    }
    let k = if src.chance(2, 3) { n } else { src.range(0, 6) };
    for i in 0..k {
        v.push(match src.below(14) {
            0 => *src.pick(b"@+)(o"),
            1 => *src.pick(b"\x80\xff"),
            _ => pres[i],
        });
    }
    v
}
/// The modes with their prefixes, or nothing if the value must be refused.
type Status = Vec<(u8, Option<u8>)>;
fn read_prefix(v: &[u8]) -> Result<Status, ()> {
    let rest = v.strip_prefix(b"(").ok_or(())?;
    let close = rest.iter().position(|b| *b == b')').ok_or(())?;
    let (modes, pres) = (&rest[..close], &rest[close + 1..]);
    // Only single-byte ASCII prefixes are supported; past another, it is not certain which is whose.
    let known = pres.iter().position(|b| !b.is_ascii()).unwrap_or(pres.len());
    let pres = &pres[..known];
    let mut out = Status::new();
    for (i, l) in modes.iter().enumerate() {
        if l.is_ascii_alphabetic() {
            let p = pres.get(i).copied();
            if out.iter().any(|(m, q)| m == l || p.is_some() && *q == p) {
                return Err(());
            }
            out.push((*l, p));
        }
    }
    Ok(out)
}
fn status_same(what: &str, s: &StatusModes, want: &Status) -> Result<(), String> {
    for l in LETTERS {
        let e = want.iter().find(|(m, _)| m == l);
        ensure_eq!(s.contains(mode(*l)), e.is_some(), "{what}: has status mode {}", *l as char);
        ensure_eq!(s.get_prefix(mode(*l)).map(NonZeroU8::get), e.and_then(|e| e.1), "{what}: prefix of {}", *l as char);
    }
    for p in 1..=255u8 {
        let e = want.iter().find(|(_, q)| *q == Some(p)).map(|e| e.0);
        ensure_eq!(s.get_mode(NonZeroU8::new(p).unwrap()).map(u8::from), e, "{what}: mode for prefix {p}");
    }
    Ok(())
}
fn status(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let v = prefix_value(src);
    let what = format!("PREFIX value {}", show(&v));
    ctx.sample(|| what.clone());
    let got = StatusModes::parse(&v);
    match read_prefix(&v) {
        Err(()) => {
            ctx.label("refused");
            ensure!(got.is_err(), "{what}: read as {got:?}");
        }
        Ok(want) => {
            if !v.is_ascii() {
                ctx.label("prefix-not-ascii");
            }
            if want.len() > 1 {
                ctx.nontrivial();
            }
            match got {
                Ok(got) => status_same(&what, &got, &want)?,
                Err(e) => return Err(format!("{what}: refused: {e}")),
            }
        }
    }
    // The same values as tokens, together: a mode has one type, status first.
    let cm = types_value(src);
    let word = |v: &[u8]| Word::from_bytes(v.to_vec()).ok();
    let (Some(pw), Some(cw)) = (word(&v), word(&cm)) else { return Ok(()) };
    let mut map: NameMap<ISupport> = NameMap::new();
    let (with_p, with_c) = (src.chance(5, 6), src.chance(5, 6));
    {
        let mut e = map.edit();
        if with_p {
            e.insert((PREFIX::NAME, pw), ());
        }
        if with_c {
            e.insert((CHANMODES::NAME, cw), ());
        }
    }
    let all = ServerChanModes::from_isupport(&map);
    let stat = match read_prefix(&v) {
        Ok(s) if with_p => s,
        _ => Vec::new(),
    };
    let non = if with_c { read_types(&cm).0 } else { BTreeMap::new() };
    for l in LETTERS {
        let want = if stat.iter().any(|(m, _)| m == l) {
            Some(ModeType::Status)
        } else {
            non.get(&rank(*l)).map(|i| TYPES[*i])
        };
        ensure_eq!(
            all.get(mode(*l)),
            want,
            "type of {} with PREFIX {} ({with_p}) and CHANMODES {} ({with_c})",
            *l as char,
            show(&v),
            show(&cm)
        );
    }
    Ok(())
}

fn number(src: &mut Src) -> Vec<u8> {
    match src.below(10) {
        0 => Vec::new(),
        1 => of_kind(src, Kind::Word, 6),
        2 => src.pick(&["0", "00", "-1", "65535", "65536", "4294967295", "4294967296", "1x", "x1", "0x10", "1.0", "99999999999999999999"]).as_bytes().to_vec(),
        3 => format!("000{}", src.below(70_000)).into_bytes(),
        4 => format!("{}", src.u64()).into_bytes(),
        _ => format!("{}", src.below(70_000)).into_bytes(),
    }
}
fn read_number(v: &[u8], max: u64) -> Option<u64> {
    if v.is_empty() || !v.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let n = v.iter().try_fold(0u64, |n, b| n.checked_mul(10)?.checked_add((b - b'0') as u64))?;
    (1..=max).contains(&n).then_some(n)
}
/// Reads one token's value through each of the map's routes.
fn through<T: NameValued<ISupport> + Copy, R: PartialEq + std::fmt::Debug>(
    name: &str,
    tok: T,
    value: &[u8],
    others: &[(Key<'static>, Word<'static>)],
    conv: impl Fn(T::Value<'static>) -> R,
    want: Result<R, ()>,
) -> Result<(), String> {
    let mut map: NameMap<ISupport, u8> = NameMap::new();
    ensure!(map.get_parsed(tok).is_none(), "{name} has a value in an empty map");
    let raw = <T as Name<ISupport>>::as_raw(&tok);
    ensure_eq!(show(raw), show(name.as_bytes()), "name of the token");
    ensure_eq!(tok.to_string(), name.to_string(), "printed name of the token");
    {
        let mut e = map.edit();
        for (i, (k, v)) in others.iter().enumerate() {
            if *k != *raw {
                e.insert((k.clone(), v.clone()), i as u8);
            }
        }
        e.insert((raw.clone(), Word::from_bytes(value.to_vec()).unwrap()), 77);
    }
    let check = |got: Option<Result<T::Value<'static>, vinezombie::error::ParseError>>| -> Result<(), String> {
        let Some(got) = got else { return Err(format!("{name}={}: missing from the map", show(value))) };
        match (got.map(&conv), &want) {
            (Ok(g), Ok(w)) => ensure!(g == *w, "{name}={}: read as {g:?}, expected {w:?}", show(value)),
            (Err(e), Err(())) => {
                ensure!(e.to_string().contains(name), "{name}={}: the error does not name the token: {e}", show(value))
            }
            (Ok(g), Err(())) => return Err(format!("{name}={}: read as {g:?} though malformed", show(value))),
            (Err(e), Ok(w)) => return Err(format!("{name}={}: refused ({e}), expected {w:?}", show(value))),
        }
        Ok(())
    };
    check(map.get_parsed(tok))?;
    let both = map.get_both(tok);
    ensure_eq!(both.as_ref().map(|b| *b.1), Some(77), "{name}: extra value");
    check(both.map(|b| b.0))?;
    check(map.get_both_mut(tok).map(|b| b.0))?;
    check(map.edit().get_parsed(tok))?;
    Ok(())
}
fn tokens(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let others: Vec<(Key<'static>, Word<'static>)> =
        (0..src.range(0, 4)).map(|_| (key(src, &ar, 8).owning(), word(src, &ar, 8).owning())).collect();
    macro_rules! go {
        ($t:ident, $v:expr, $conv:expr, $want:expr) => {{
            ctx.label(stringify!($t));
            let v = &$v;
            ctx.sample(|| format!("{}={}", stringify!($t), show(v)));
            let want = $want;
            if want.is_ok() {
                ctx.nontrivial();
            }
            through(stringify!($t), $t, v, &others, $conv, want)?
        }};
    }
    macro_rules! len {
        ($t:ident) => {{
            let v = number(src);
            // A sign is neither promised to be accepted nor refused.
            if v.first() != Some(&b'+') {
                go!($t, v, |n| n.get() as u64, read_number(&v, u16::MAX as u64).ok_or(()))
            }
        }};
    }
    macro_rules! optional {
        ($t:ident) => {{
            let v = number(src);
            if v.first() != Some(&b'+') {
                let want = if v.is_empty() { Ok(None) } else { read_number(&v, u32::MAX as u64).map(Some).ok_or(()) };
                go!($t, v, |n| n.map(|n| n.get() as u64), want)
            }
        }};
    }
    macro_rules! letter {
        ($t:ident, $default:expr) => {{
            let v: Vec<u8> = match src.below(4) {
                0 => Vec::new(),
                1 => of_kind(src, Kind::Word, 3),
                _ => vec![letter(src)],
            };
            let want = match v.first() {
                None => $default,
                Some(b) if b.is_ascii_alphabetic() => Ok(*b),
                _ => Err(()),
            };
            go!($t, v, u8::from, want)
        }};
    }
    macro_rules! unit {
        ($t:ident) => {{
            let v = if src.bool() { Vec::new() } else { of_kind(src, Kind::Word, 6) };
            go!($t, v, |_| (), Ok(()))
        }};
    }
    match src.below(24) {
        0 => len!(AWAYLEN),
        1 => len!(CHANNELLEN),
        2 => len!(HOSTLEN),
        3 => len!(KICKLEN),
        4 => len!(MODES),
        5 => len!(NICKLEN),
        6 => len!(TOPICLEN),
        7 => len!(USERLEN),
        8 => optional!(MONITOR),
        9 => optional!(SILENCE),
        10 => letter!(BOT, Err(())),
        11 => letter!(CALLERID, Ok(b'g')),
        12 => letter!(EXCEPTS, Ok(b'e')),
        13 => letter!(INVEX, Ok(b'I')),
        14 => unit!(ETRACE),
        15 => unit!(KNOCK),
        16 => unit!(SAFELIST),
        17 => unit!(UTF8ONLY),
        18 => unit!(WHOX),
        19 => {
            let v = of_kind(src, Kind::Word, 10);
            go!(NETWORK, v, |w: Word<'static>| w.as_bytes().to_vec(), Ok(v.clone()))
        }
        n @ 20..=21 => {
            let v: Vec<u8> = types_value(src).into_iter().filter(|b| !b" \x00".contains(b)).collect();
            let (m, _, _) = read_types(&v);
            let conv = |t: ModeTypes| LETTERS.iter().map(|l| t.get(mode(*l)).map(|t| t as usize)).collect::<Vec<_>>();
            let want: Vec<Option<usize>> = LETTERS.iter().map(|l| m.get(&rank(*l)).copied()).collect();
            if n == 20 {
                go!(CHANMODES, v, conv, Ok(want))
            } else {
                go!(USERMODES, v, conv, Ok(want))
            }
        }
        _ => {
            let v: Vec<u8> = prefix_value(src).into_iter().filter(|b| !b" \x00".contains(b)).collect();
            let conv = |s: StatusModes| {
                LETTERS.iter().map(|l| s.contains(mode(*l)).then(|| s.get_prefix(mode(*l)).map(NonZeroU8::get))).collect::<Vec<_>>()
            };
            let want = match read_prefix(&v) {
                Ok(s) => Ok(LETTERS.iter().map(|l| s.iter().find(|(m, _)| m == l).map(|e| e.1)).collect()),
                Err(()) => Err(()),
            };
            go!(PREFIX, v, conv, want)
        }
    }
    Ok(())
}

pub fn c19() -> Vec<Facet> {
    vec![
        facet("sets", 60_000, 1_000_000, sets, "the final set has two letters or more"),
        facet("types", 60_000, 1_000_000, types, "the value classifies two letters or more"),
        facet("status", 60_000, 1_000_000, status, "a well-formed value with two status modes or more"),
        facet("tokens", 60_000, 1_000_000, tokens, "the token's value is well-formed"),
    ]
}
