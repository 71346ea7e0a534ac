//! C18: nickname generators against a reference enumeration.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::VecDeque;
use vinezombie::client::nick::*;
use vinezombie::client::register::{default_bot_nicks, default_client_nicks};
use vinezombie::string::*;

type N = Vec<u8>;

fn nick(src: &mut Src) -> N {
    match src.below(4) {
        0 => of_kind(src, Kind::Nick, 12),
        // A small alphabet, so that nicknames repeat and prefix one another.
        _ => {
            let n = src.range(1, 3);
            (0..n).map(|_| *src.pick(b"ab_")).collect()
        }
    }
}
fn to_nick(n: &[u8]) -> Nick<'static> {
    Nick::from_bytes(n.to_vec()).expect("a valid nickname")
}

/// The values one suffix can take, in order.
pub fn values(t: &SuffixType) -> Vec<N> {
    let one = |s: &[u8]| s.iter().map(|b| vec![*b]).collect::<Vec<_>>();
    match t {
        SuffixType::Letter(true) => one(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        SuffixType::Letter(false) => one(b"abcdefghijklmnopqrstuvwxyz"),
        SuffixType::Base8 => one(b"01234567"),
        SuffixType::Base10 => one(b"0123456789"),
        SuffixType::Base16(true) => one(b"0123456789ABCDEF"),
        SuffixType::Base16(false) => one(b"0123456789abcdef"),
        SuffixType::NonZeroBase8 => one(b"1234567"),
        SuffixType::NonZeroBase10 => one(b"123456789"),
        SuffixType::NonZeroBase16(true) => one(b"123456789ABCDEF"),
        SuffixType::NonZeroBase16(false) => one(b"123456789abcdef"),
        // As documented.
        SuffixType::Choice(c) => c.iter().take(256).map(|n| n.as_bytes().to_vec()).collect(),
        SuffixType::Char(c) => vec![c.to_string().into_bytes()],
        _ => Vec::new(),
    }
}
pub fn suffix_type(src: &mut Src) -> SuffixType {
    match src.below(10) {
        0 => SuffixType::Letter(src.bool()),
        1 => SuffixType::Base8,
        2 => SuffixType::Base10,
        3 => SuffixType::Base16(src.bool()),
        4 => SuffixType::NonZeroBase8,
        5 => SuffixType::NonZeroBase10,
        6 => SuffixType::NonZeroBase16(src.bool()),
        7 => {
            let n = match src.below(12) {
                0 => 0,
                1 if src.chance(1, 6) => src.range(240, 300),
                1 => 40,
                _ => src.range(1, 5),
            };
            SuffixType::Choice((0..n).map(|_| to_nick(&nick(src))).collect())
        }
        _ => SuffixType::Char(*src.pick(&['_', '`', '-', '\u{e9}', '\u{1f9df}', '0', 'z', '['])),
    }
}
pub fn suffix(src: &mut Src) -> Suffix {
    let n = match src.below(8) {
        0 => 0,
        1 if src.chance(1, 8) => src.range(10, 60),
        1 => src.range(4, 9),
        _ => src.range(1, 4),
    };
    let same = src.chance(1, 4);
    let mut suffixes: Vec<SuffixType> = Vec::new();
    for i in 0..n {
        let t = if same && i > 0 { suffixes[0].clone() } else { suffix_type(src) };
        suffixes.push(t);
    }
    let strategy = match src.below(3) {
        0 => SuffixStrategy::Rng(Some(src.u64() as u32)),
        1 if src.chance(1, 4) => SuffixStrategy::Rng(None),
        _ => SuffixStrategy::Seq,
    };
    Suffix { strategy, suffixes: suffixes.into() }
}

/// All that a generator offers when every candidate is merely taken.
fn drain(mut g: Box<dyn NickGen>, what: &str) -> Result<Vec<N>, String> {
    let mut out: Vec<N> = Vec::new();
    loop {
        let peeked = g.peek();
        let (n, next) = g.next_nick();
        ensure_eq!(show(&peeked), show(&n), "{what}: peek and the nickname then offered");
        ensure!(valid(Kind::Nick, &n), "{what}: offered an invalid nickname {}", show(&n));
        out.push(n.as_bytes().to_vec());
        ensure!(out.len() <= 5000, "{what}: no end after {} nicknames", out.len());
        match next {
            Some(next) => g = next,
            None => return Ok(out),
        }
    }
}

/// The k-th candidate (from 0) of the sequential strategy, as documented: the values of the first suffix,
/// then those of the first two, and so on, the first suffix varying fastest.
fn sequential(prefix: &[u8], sets: &[Vec<N>], k: usize) -> Option<N> {
    let mut k = k as u128;
    let mut used = 0;
    let mut size = 1u128;
    loop {
        let set = sets.get(used)?;
        used += 1;
        size = size.saturating_mul(set.len() as u128);
        if k < size {
            break;
        }
        k -= size;
    }
    let mut out = prefix.to_vec();
    for set in &sets[..used] {
        out.extend_from_slice(&set[(k % set.len() as u128) as usize]);
        k /= set.len() as u128;
    }
    Some(out)
}
/// Whether `rest` is one value of each set, in order.
fn made_of(rest: &[u8], sets: &[Vec<N>]) -> bool {
    let mut ends = std::collections::BTreeSet::from([0]);
    for set in sets {
        ends = ends
            .into_iter()
            .flat_map(|at| set.iter().filter(move |v| rest[at..].starts_with(v)).map(move |v| at + v.len()))
            .collect();
    }
    ends.contains(&rest.len())
}

/// Runs a suffix description alone, checks it, and returns what it offered.
fn check_suffix(prefix: &[u8], s: &Suffix, ctx: &mut Ctx) -> Result<Vec<N>, String> {
    let what = format!("{s:?} on {}", show(prefix));
    let got = drain(s.transform(to_nick(prefix)), &what)?;
    // A choice of nothing contributes nothing.
    let sets: Vec<Vec<N>> = s.suffixes.iter().map(values).filter(|v| !v.is_empty()).collect();
    match s.strategy {
        _ if sets.is_empty() => {
            ctx.label("no-suffix");
            for n in &got {
                ensure_eq!(show(n), show(prefix), "{what}: nothing to append");
            }
        }
        SuffixStrategy::Seq => {
            ctx.label("sequential");
            for (k, n) in got.iter().enumerate() {
                let want = sequential(prefix, &sets, k);
                ensure!(want.is_some(), "{what}: candidate {k} {} comes after the last combination", show(n));
                ensure_eq!(show(n), show(&want.unwrap()), "{what}: candidate {k}");
            }
            let least: usize = sets.iter().map(|v| v.len().min(255)).sum();
            ensure!(got.len() >= least.min(255), "{what}: ended after {} candidates", got.len());
        }
        _ => {
            ctx.label("random");
            for n in &got {
                let ok = n.strip_prefix(prefix).is_some_and(|rest| made_of(rest, &sets));
                ensure!(ok, "{what}: offered {}", show(n));
            }
            if let SuffixStrategy::Rng(Some(_)) = s.strategy {
                let again = drain(s.transform(to_nick(prefix)), &what)?;
                ensure!(again == got, "{what}: the same seed gave different nicknames");
            }
        }
    }
    if got.len() > 1 {
        ctx.nontrivial();
    }
    Ok(got)
}
fn suffixes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let prefix = nick(src);
    let s = suffix(src);
    let got = check_suffix(&prefix, &s, ctx)?;
    ctx.sample(|| format!("{s:?} -> {}…", got.iter().take(4).map(|n| show(n)).collect::<Vec<_>>().join(" ")));
    Ok(())
}

/// Random suffixes are chosen anew for every candidate, from the whole alphabet. Judged over many
/// seeds, with odds no working source of randomness can lose.
fn variety(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let prefix = nick(src);
    let alphabets = [
        SuffixType::Letter(true),
        SuffixType::Letter(false),
        SuffixType::Base8,
        SuffixType::Base10,
        SuffixType::Base16(true),
        SuffixType::Base16(false),
        SuffixType::NonZeroBase8,
        SuffixType::NonZeroBase10,
        SuffixType::NonZeroBase16(true),
        SuffixType::NonZeroBase16(false),
    ];
    let types: Vec<SuffixType> = (0..src.range(1, 4)).map(|_| src.pick(&alphabets).clone()).collect();
    let sets: Vec<Vec<N>> = types.iter().map(values).collect();
    let mut seen: Vec<std::collections::BTreeSet<u8>> = vec![Default::default(); types.len()];
    const SEEDS: usize = 150;
    let mut varied = 0;
    let mut drawn = 0;
    // Seeds well apart, whatever the case starts from.
    let base = src.u64();
    for i in 0..SEEDS as u64 {
        let mut z = base.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        let seed = (z ^ (z >> 31)) as u32;
        let s = Suffix { strategy: SuffixStrategy::Rng(Some(seed)), suffixes: types.clone().into() };
        let what = format!("{s:?} on {}", show(&prefix));
        let got = drain(s.transform(to_nick(&prefix)), &what)?;
        ensure!(got.len() > 1, "{what}: only one candidate");
        varied += usize::from(got.iter().any(|n| *n != got[0]));
        drawn += got.len();
        for n in &got {
            let rest = n.strip_prefix(prefix.as_slice()).filter(|r| r.len() == types.len());
            let Some(rest) = rest else { return Err(format!("{what}: offered {}", show(n))) };
            rest.iter().zip(&mut seen).for_each(|(b, s)| drop(s.insert(*b)));
        }
    }
    ctx.sample(|| format!("{types:?} on {}: {drawn} candidates, {varied} of {SEEDS} seeds varied", show(&prefix)));
    ctx.nontrivial();
    ensure!(varied > SEEDS / 2, "{types:?}: all candidates are the same for {} of {SEEDS} seeds", SEEDS - varied);
    for ((set, seen), t) in sets.iter().zip(&seen).zip(&types) {
        let never: Vec<_> = set.iter().filter(|v| !seen.contains(&v[0])).map(|v| show(v)).collect();
        ensure!(never.is_empty(), "{t:?} of {types:?} was never {never:?} in {drawn} candidates");
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum LeafKind {
    Single,
    List,
    /// The same ones over and over.
    Endless,
    Suffix(N),
}
#[derive(Clone, Debug)]
struct Leaf {
    kind: LeafKind,
    left: VecDeque<N>,
    offered: Vec<N>,
}
type Model = Vec<Leaf>;
fn leaf(kind: LeafKind, left: Vec<N>) -> Leaf {
    Leaf { kind, left: left.into(), offered: Vec::new() }
}

fn fixed_suffix(src: &mut Src) -> Suffix {
    let mut s = suffix(src);
    if let SuffixStrategy::Rng(None) = s.strategy {
        s.strategy = SuffixStrategy::Rng(Some(7));
    }
    s
}
/// A generator and the parts it is made of.
fn build(src: &mut Src, ctx: &mut Ctx, depth: usize) -> Result<(Box<dyn NickGen>, Model), String> {
    let list = |src: &mut Src| -> Vec<N> { (0..src.range(0, 4)).map(|_| nick(src)).collect() };
    Ok(match src.below(if depth == 0 { 4 } else { 8 }) {
        0 if src.chance(1, 8) => {
            let mut l = list(src);
            l.push(nick(src));
            let nicks: Vec<Nick<'static>> = l.iter().map(|n| to_nick(n)).collect();
            ctx.label("endless");
            let g: Box<dyn NickGen> = if src.bool() {
                Box::new(from_iter(nicks.into_iter().cycle()).unwrap())
            } else {
                // Does not even say that it never ends.
                let n = nicks.len();
                let places = std::iter::successors(Some(0), move |i| Some((i + 1) % n));
                Box::new(from_iter_or(to_nick(&l[0]), places.map(move |i: usize| nicks[i].clone())))
            };
            (g, vec![leaf(LeafKind::Endless, l)])
        }
        0 => {
            let n = nick(src);
            (Box::new(to_nick(&n)), vec![leaf(LeafKind::Single, vec![n])])
        }
        1 => {
            let mut l = list(src);
            if l.is_empty() {
                ensure!(from_iter(Vec::<Nick>::new()).is_none(), "an empty list of nicknames made a generator");
                l.push(nick(src));
            }
            let g = from_iter(l.iter().map(|n| to_nick(n)).collect::<Vec<_>>());
            ensure!(g.is_some(), "a list of nicknames made no generator");
            (Box::new(g.unwrap()), vec![leaf(LeafKind::List, l)])
        }
        2 => {
            let d = nick(src);
            let l = list(src);
            let g = from_iter_or(to_nick(&d), l.iter().map(|n| to_nick(n)).collect::<Vec<_>>());
            (Box::new(g), vec![leaf(LeafKind::List, if l.is_empty() { vec![d] } else { l })])
        }
        3 => {
            let p = nick(src);
            let s = fixed_suffix(src);
            let seq = check_suffix(&p, &s, ctx)?;
            (s.transform(to_nick(&p)), vec![leaf(LeafKind::Suffix(p), seq)])
        }
        4 | 5 => {
            let (a, mut m) = build(src, ctx, depth - 1)?;
            let (b, n) = build(src, ctx, depth - 1)?;
            m.extend(n);
            ctx.label("chain");
            (Box::new(a).chain(b), m)
        }
        _ => {
            let (a, mut m) = build(src, ctx, depth - 1)?;
            let s = fixed_suffix(src);
            let first = m.iter().find_map(|l| l.left.front()).expect("a generator offers something").clone();
            let seq = check_suffix(&first, &s, ctx)?;
            m.push(leaf(LeafKind::Suffix(first), seq));
            ctx.label("chain-using");
            (Box::new(a).chain_using(&s), m)
        }
    })
}

/// Any sequence of taking, peeking and rejecting.
fn chains(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (mut g, mut model) = build(src, ctx, 3)?;
    let mut trail: Vec<String> = Vec::new();
    let mut last: Option<N> = None;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 100 && model.iter().any(|l| matches!(l.kind, LeafKind::Endless)) {
            break;
        }
        let Some(at) = model.iter().position(|l| !l.left.is_empty()) else {
            unreachable!("the model ended first");
        };
        if src.chance(1, 8) {
            ensure_eq!(show(&g.peek()), show(&model[at].left[0]), "peek after {}", trail.join(" "));
        }
        if src.chance(1, 5) {
            // The server calls a nickname invalid: usually the last one offered.
            let bad = match &last {
                Some(n) if src.chance(3, 4) => n.clone(),
                _ => nick(src),
            };
            // What is promised about generators that might offer it again differs by kind.
            let mut next = model.clone();
            for l in &mut next {
                match &l.kind {
                    LeafKind::Single => {
                        if l.left.front() == Some(&bad) {
                            l.left.clear();
                        }
                    }
                    LeafKind::List if l.left.contains(&bad) => return Ok(()),
                    LeafKind::List => {}
                    // Nobody is asked the same thing forever.
                    LeafKind::Endless if l.left.contains(&bad) => l.left.clear(),
                    LeafKind::Endless if l.left.is_empty() => {}
                    LeafKind::Endless => return Ok(()),
                    LeafKind::Suffix(p) => {
                        if *p == bad || l.offered.contains(&bad) {
                            l.left.clear();
                        } else if bad.starts_with(p) || l.left.contains(&bad) {
                            return Ok(());
                        }
                    }
                }
            }
            trail.push(format!("invalid({})", show(&bad)));
            ctx.label("invalid");
            ctx.nontrivial();
            let end = next.iter().all(|l| l.left.is_empty());
            let cont = g.handle_invalid(&to_nick(&bad));
            if end && cont.is_some() {
                return Err(format!(
                    "after {}: offers {} although nothing valid is left",
                    trail.join(" "),
                    show(&cont.unwrap().peek())
                ));
            }
            ensure!(end || cont.is_some(), "after {}: nothing left, though {:?} remain", trail.join(" "), next);
            model = next;
            match cont {
                Some(c) => g = c,
                None => return Ok(()),
            }
            continue;
        }
        let want = model[at].left.pop_front().unwrap();
        let (n, next) = g.next_nick();
        ensure_eq!(show(&n), show(&want), "candidate after {}", trail.join(" "));
        if let LeafKind::Endless = model[at].kind {
            model[at].left.push_back(want.clone());
        }
        model[at].offered.push(want.clone());
        if trail.len() < 40 {
            trail.push(show(&n));
        }
        last = Some(want);
        let end = model.iter().all(|l| l.left.is_empty());
        ensure_eq!(next.is_none(), end, "end of the candidates after {}", trail.join(" "));
        match next {
            Some(next) => g = next,
            None => break,
        }
    }
    ctx.sample(|| trail.join(" "));
    if model.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

/// The generators used when registering a client or a bot.
fn defaults(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let list: Vec<N> = (0..src.range(0, 4)).map(|_| nick(src)).collect();
    let nicks: Vec<Nick<'static>> = list.iter().map(|n| to_nick(n)).collect();
    let client = src.bool();
    let g: Box<dyn NickGen> = if client { default_client_nicks(nicks) } else { default_bot_nicks(nicks) };
    let got = drain(g, if client { "client nicknames" } else { "bot nicknames" })?;
    ctx.sample(|| format!("client={client} {} given, {} offered", list.len(), got.len()));
    ctx.nontrivial();
    ensure!(got.len() > list.len().max(1), "no fallback: {} given, {} offered", list.len(), got.len());
    for (i, n) in list.iter().enumerate() {
        ensure_eq!(show(&got[i]), show(n), "nickname {i} of the list");
    }
    let mut rest = &got[list.len()..];
    let digits = |s: &[u8], f: fn(&u8) -> bool, n: usize| s.len() == n && s.iter().all(f);
    if client && list.is_empty() {
        ensure_eq!(show(&rest[0]), show(b"Guest"), "first nickname without a list");
        rest = &rest[1..];
    }
    for (k, n) in rest.iter().enumerate() {
        let ok = match (client, list.first()) {
            (true, Some(first)) => {
                let sets: Vec<Vec<N>> =
                    [SuffixType::Char('`'), SuffixType::Base10, SuffixType::Base8].iter().map(values).collect();
                sequential(first, &sets, k).as_ref() == Some(n)
            }
            (true, None) => n
                .strip_prefix(b"Guest".as_slice())
                .is_some_and(|r| digits(r, u8::is_ascii_digit, 4) && r[1] < b'8' && r[3] < b'8'),
            (false, _) => n.strip_prefix(b"VNZB".as_slice()).is_some_and(|r| {
                digits(r, |b| b.is_ascii_digit() || (b'a'..=b'f').contains(b), 6) && r[0].is_ascii_digit()
            }),
        };
        ensure!(ok, "fallback {k} of {:?} (client: {client}) is {}", list.iter().map(|n| show(n)).collect::<Vec<_>>(), show(n));
    }
    Ok(())
}

pub fn c18() -> Vec<Facet> {
    vec![
        facet("suffixes", 40_000, 600_000, suffixes, "the description offers more than one nickname"),
        facet("chains", 40_000, 600_000, chains, "several generators in sequence, or a nickname was rejected as invalid"),
        facet("variety", 1_500, 30_000, variety, "every case"),
        facet("defaults", 4_000, 60_000, defaults, "every case"),
    ]
}
