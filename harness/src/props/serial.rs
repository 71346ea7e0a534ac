//! C23: serialised values come back equal; deserialising enforces the types' rules.

#![allow(deprecated)]

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use ::base64::Engine;
use ciborium::value::Value as Cbor;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value as Json};
use std::fmt::Debug;
use vinezombie::client::auth::{AnySasl, Clear, LoadSecret, Sasl, SaslLogic, Secret};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::nick::{Nicks, Suffix, SuffixStrategy, SuffixType};
use vinezombie::client::register::Options;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

fn has_bytes(c: &Cbor) -> bool {
    match c {
        Cbor::Bytes(_) => true,
        Cbor::Array(a) => a.iter().any(has_bytes),
        Cbor::Map(m) => m.iter().any(|(k, v)| has_bytes(k) || has_bytes(v)),
        Cbor::Tag(_, v) => has_bytes(v),
        _ => false,
    }
}

/// Fails one write, then works again.
struct FailOnce {
    at: usize,
    calls: usize,
}
impl std::io::Write for FailOnce {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls - 1 == self.at {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A failure to write any part of a document is a failure to serialise.
fn failing<T: Serialize + Debug>(v: &T) -> Result<(), String> {
    let mut at = 0;
    loop {
        let mut w = FailOnce { at, calls: 0 };
        let r = serde_json::to_writer(&mut w, v);
        if w.calls <= at {
            return Ok(());
        }
        ensure!(r.is_err(), "serialising {v:?} succeeded although writing part {at} of it failed");
        at += 1;
    }
}

/// Writes a value in every format, reads it back, and compares with `same`.
fn round<T: Serialize + DeserializeOwned + Debug>(
    ctx: &mut Ctx,
    v: &T,
    same: impl Fn(&T, &T) -> bool,
) -> Result<(), String> {
    match serde_json::to_string(v) {
        Ok(doc) => {
            ctx.label("json");
            if doc.len() < 400 {
                failing(v)?;
            }
            let back: T = serde_json::from_str(&doc).map_err(|e| format!("{v:?} as {doc} does not read back: {e}"))?;
            ensure!(same(v, &back), "{v:?} as {doc} reads back as {back:?}");
            let back: T = serde_json::from_slice(doc.as_bytes()).map_err(|e| format!("{doc}: {e}"))?;
            ensure!(same(v, &back), "{v:?} as {doc} reads back as {back:?}");
            let back: T = serde_json::from_reader(doc.as_bytes()).map_err(|e| format!("{doc}: {e}"))?;
            ensure!(same(v, &back), "{v:?} as {doc} reads back as {back:?}");
            let tree = serde_json::to_value(v).map_err(|e| format!("to a tree: {e}"))?;
            let back: T =
                serde_json::from_value(tree).map_err(|e| format!("{v:?} as {doc} does not read back from a tree: {e}"))?;
            ensure!(same(v, &back), "{v:?} as the tree of {doc} reads back as {back:?}");
        }
        // Keys of JSON objects are text: nothing to read back.
        Err(e) => {
            ensure!(e.to_string().contains("key must be a string"), "{v:?} cannot be written as JSON: {e}");
            ctx.label("not expressible in JSON");
        }
    }
    let mut buf = Vec::new();
    ciborium::into_writer(v, &mut buf).map_err(|e| format!("{v:?} cannot be written as CBOR: {e}"))?;
    let tree: Cbor = ciborium::from_reader(buf.as_slice()).map_err(|e| format!("not CBOR: {e}"))?;
    match ciborium::from_reader::<T, _>(buf.as_slice()) {
        Ok(back) => {
            ctx.label("cbor");
            ensure!(same(v, &back), "{v:?} as CBOR reads back as {back:?}");
        }
        // A listed finding: strings that are not UTF-8 do not read back from formats that are not
        // human-readable.
        Err(_) if has_bytes(&tree) => ctx.label("cbor with byte strings"),
        Err(e) => return Err(format!("{v:?} as CBOR does not read back: {e}")),
    }
    Ok(())
}

fn bytes_of(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}

macro_rules! each_kind {
    ($k:expr, $m:ident $args:tt) => {
        match $k {
            Kind::Bytes => $m!(Bytes $args),
            Kind::NoNul => $m!(NoNul $args),
            Kind::Line => $m!(Line $args),
            Kind::Word => $m!(Word $args),
            Kind::Arg => $m!(Arg $args),
            Kind::Key => $m!(Key $args),
            Kind::Target => $m!(Target $args),
            Kind::Nick => $m!(Nick $args),
            Kind::User => $m!(User $args),
            Kind::Cmd => $m!(Cmd $args),
        }
    };
}

fn kind(src: &mut Src) -> Kind {
    if src.chance(1, 10) {
        Kind::Bytes
    } else {
        *src.pick(&KINDS)
    }
}

fn strings(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let k = kind(src);
    let v = of_kind(src, k, 24);
    let b = mk(src, &ar, &v);
    if std::str::from_utf8(&v).is_err() {
        ctx.label("not UTF-8");
    }
    if v.len() > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{k:?} {}", show(&v)));
    macro_rules! one {
        ($t:ident ()) => {{
            let s: $t<'static> = b.try_into().map_err(|e| format!("{e:?}"))?;
            round(ctx, &s, |x, y| {
                bytes_of(x) == bytes_of(y)
                    && bytes_of(x) == v
                    && x == y
                    && y.to_utf8().map(str::as_bytes) == std::str::from_utf8(&v).ok().map(str::as_bytes)
            })
        }};
    }
    each_kind!(k, one())
}

/// What a document that claims to be a string says: its bytes, nothing (not a string), or no matter.
enum Said {
    Is(Vec<u8>),
    Not,
    /// `null` and `false` may stand for the empty string.
    Empty,
}

fn string_doc(src: &mut Src, near: Kind) -> (Json, Said) {
    let text = |src: &mut Src| {
        let mut v = match src.below(3) {
            0 => utf8(src, 12).into_bytes(),
            1 => of_kind(src, near, 12),
            _ => {
                let mut v = of_kind(src, near, 12);
                let at = src.range(0, v.len());
                v.insert(at, *src.pick(b"\0\n\r :,;=!@%a"));
                v
            }
        };
        if src.chance(1, 20) {
            v.clear();
        }
        v
    };
    match src.below(10) {
        0..=5 => {
            let s = String::from_utf8_lossy(&text(src)).into_owned();
            (json!(s), Said::Is(s.into_bytes()))
        }
        6 | 7 => {
            let v = text(src);
            (json!(v), Said::Is(v))
        }
        8 => match src.below(5) {
            0 => (json!(null), Said::Empty),
            1 => (json!(false), Said::Empty),
            2 => (json!(true), Said::Not),
            3 => (json!(src.below(300)), Said::Not),
            _ => (json!({"a": 1}), Said::Not),
        },
        _ => {
            let mut v: Vec<Json> = text(src).into_iter().map(|b| json!(b)).collect();
            let at = src.range(0, v.len());
            v.insert(at, src.pick(&[json!(256), json!(-1), json!("a"), json!(1.5), json!(null), json!([97])]).clone());
            (Json::Array(v), Said::Not)
        }
    }
}

fn restricted(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = kind(src);
    let (doc, said) = string_doc(src, k);
    let text = doc.to_string();
    ctx.sample(|| format!("{k:?} from {text}"));
    let check = |how: &str, got: Result<Vec<u8>, String>, ctx: &mut Ctx| -> Result<(), String> {
        match (&said, got) {
            (Said::Is(v), Ok(b)) => {
                ensure!(valid(k, v), "{text} read as {k:?} from {how} although it is not one");
                ensure_eq!(show(&b), show(v), "{text} read as {k:?} from {how}");
                ctx.label("accepted");
            }
            (Said::Is(v), Err(e)) => {
                ensure!(!valid(k, v), "{text} rejected as {k:?} from {how}: {e}");
                ctx.label("rejected");
            }
            (Said::Not, Ok(b)) => return Err(format!("{text} read as the {k:?} {} from {how}", show(&b))),
            (Said::Empty, Ok(b)) => ensure!(b.is_empty() && valid(k, &b), "{text} read as the {k:?} {}", show(&b)),
            _ => ctx.label("not a string"),
        }
        Ok(())
    };
    macro_rules! one {
        ($t:ident (json $d:expr)) => {
            serde_json::from_str::<$t<'static>>($d).map(|s| bytes_of(&s)).map_err(|e| e.to_string())
        };
        ($t:ident (tree $d:expr)) => {
            serde_json::from_value::<$t<'static>>($d).map(|s| bytes_of(&s)).map_err(|e| e.to_string())
        };
        ($t:ident (cbor $d:expr)) => {
            ciborium::from_reader::<$t<'static>, _>($d).map(|s| bytes_of(&s)).map_err(|e| e.to_string())
        };
        ($t:ident (option $d:expr)) => {
            serde_json::from_str::<Option<$t<'static>>>($d).map(|s| s.map(|s| bytes_of(&s)).unwrap_or_default()).map_err(|e| e.to_string())
        };
    }
    if matches!(said, Said::Is(_)) {
        ctx.nontrivial();
    }
    let got = each_kind!(k, one(json & text));
    check("text", got, ctx)?;
    let got = each_kind!(k, one(tree doc.clone()));
    check("a tree", got, ctx)?;
    if !doc.is_null() {
        let got = each_kind!(k, one(option & text));
        check("an option", got, ctx)?;
    }
    // The same text in CBOR. Byte strings are the listed finding: they may be refused, but what is
    // accepted obeys the rule.
    if let Said::Is(v) = &said {
        let (node, is_text) = match std::str::from_utf8(v) {
            Ok(s) if src.chance(3, 4) => (Cbor::Text(s.to_owned()), true),
            _ => (Cbor::Bytes(v.clone()), false),
        };
        let mut buf = Vec::new();
        ciborium::into_writer(&node, &mut buf).unwrap();
        let got = each_kind!(k, one(cbor buf.as_slice()));
        match got {
            Err(_) if !is_text => ctx.label("cbor byte string"),
            got => check("CBOR", got, ctx)?,
        }
    }
    Ok(())
}

fn arb_suffix(src: &mut Src, ar: &Arena) -> SuffixType {
    match src.below(9) {
        0 => SuffixType::Letter(src.bool()),
        1 => SuffixType::Base8,
        2 => SuffixType::Base10,
        3 => SuffixType::Base16(src.bool()),
        4 => SuffixType::NonZeroBase8,
        5 => SuffixType::NonZeroBase10,
        6 => SuffixType::NonZeroBase16(src.bool()),
        7 => SuffixType::Choice((0..src.range(0, 3)).map(|_| nick(src, ar, 6)).collect()),
        _ => SuffixType::Char(char::from_u32(src.below(0x3000)).unwrap_or('_')),
    }
}

fn values(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    ctx.nontrivial();
    fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
        a == b
    }
    /// Equal, and the wire forms agree as well.
    fn wire_c(a: &ClientMsg<'static>, b: &ClientMsg<'static>) -> bool {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        let _ = (a.write_to(&mut x), b.write_to(&mut y));
        a == b && x == y
    }
    fn wire_s(a: &ServerMsg<'static>, b: &ServerMsg<'static>) -> bool {
        let (mut x, mut y) = (Vec::new(), Vec::new());
        let _ = (a.write_to(&mut x), b.write_to(&mut y));
        a == b && x == y
    }
    match src.below(15) {
        0 | 1 => {
            let v = mk_args(src, &ar, 6);
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, |a, b| a == b && args_of(a) == args_of(b))
        }
        2 | 3 => {
            let v = mk_tags(src, &ar, 6);
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, |a, b| a == b && a.len() == b.len() && super::msg::tags_of(a) == super::msg::tags_of(b))
        }
        4 => round(ctx, &mk_source(src, &ar), |a, b| src_of(a) == src_of(b) && a == b),
        5 => round(ctx, &SharedSource::new(mk_source(src, &ar)), |a, b| src_of(a) == src_of(b)),
        6 => match mk_source(src, &ar).userhost {
            Some(uh) => round(ctx, &uh, eq),
            None => Ok(()),
        },
        7 => {
            let v = Numeric::from_int(src.below(1000) as u16).unwrap();
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, |a, b| a == b && a.as_str() == b.as_str())
        }
        8 => {
            let v = mk_server(src, &ar).kind;
            round(ctx, &v, eq)
        }
        9 | 10 => {
            let v = mk_client(src, &ar);
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, wire_c)
        }
        11 | 12 => {
            let v = mk_server(src, &ar);
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, wire_s)
        }
        13 => {
            let strategy = match src.below(3) {
                0 => SuffixStrategy::Rng(None),
                1 => SuffixStrategy::Rng(Some(src.u64() as u32)),
                _ => SuffixStrategy::Seq,
            };
            let suffixes: Vec<SuffixType> = (0..src.range(0, 4)).map(|_| arb_suffix(src, &ar)).collect();
            let gen = Suffix { strategy, suffixes: suffixes.into() };
            let v = Nicks {
                nicks: (0..src.range(0, 3)).map(|_| nick(src, &ar, 9)).collect(),
                skip_first: src.bool(),
                gen: std::sync::Arc::new(gen),
            };
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, eq)
        }
        _ => {
            let v = ServerAddr {
                address: word(src, &ar, 12),
                tls: src.bool(),
                port: if src.bool() { Some(src.below(65536) as u16) } else { None },
            };
            ctx.sample(|| format!("{v:?}"));
            round(ctx, &v, |a, b| a == b && a.port == b.port && a.tls == b.tls)
        }
    }
}

/// Documents shaped like messages whose strings may break the rules.
fn documents(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // A piece of text that usually obeys the rule.
    fn piece(src: &mut Src, k: Kind) -> (Json, Vec<u8>, bool) {
        let v = if src.chance(1, 8) {
            let v = of_kind(src, k, 8);
            let mut s = String::from_utf8_lossy(&v).into_owned();
            let at = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).nth(src.range(0, 3)).unwrap_or(0);
            s.insert(at, *src.pick(&['\0', '\n', '\r', ' ', ':', ',', ';', '=', '!', '@', '%', 'a']));
            s
        } else {
            String::from_utf8_lossy(&of_kind(src, k, 8)).into_owned()
        };
        let ok = valid(k, v.as_bytes());
        let doc = if src.chance(1, 8) { json!(v.as_bytes()) } else { json!(v) };
        (doc, v.into_bytes(), ok)
    }
    fn args(src: &mut Src, ok: &mut bool) -> (Json, Vec<Vec<u8>>) {
        let n = src.range(0, 4);
        let mut docs = Vec::new();
        let mut vals = Vec::new();
        for i in 0..n {
            let last = i + 1 == n;
            let k = if last && src.bool() { Kind::Line } else { Kind::Arg };
            let (d, v, _) = piece(src, k);
            *ok &= valid(if last { Kind::Line } else { Kind::Arg }, &v);
            docs.push(d);
            vals.push(v);
        }
        (Json::Array(docs), vals)
    }
    fn tags(src: &mut Src, ok: &mut bool) -> (Json, Vec<(Vec<u8>, Vec<u8>)>) {
        let mut map = serde_json::Map::new();
        let mut vals = std::collections::BTreeMap::new();
        for _ in 0..src.range(0, 3) {
            let (_, k, kok) = piece(src, Kind::Key);
            let (d, v, vok) = piece(src, Kind::NoNul);
            if vals.contains_key(&k) {
                continue;
            }
            *ok &= kok && vok;
            map.insert(String::from_utf8(k.clone()).unwrap(), d);
            vals.insert(k, v);
        }
        (Json::Object(map), vals.into_iter().collect())
    }
    fn source(src: &mut Src, ok: &mut bool) -> (Json, Vec<Vec<u8>>) {
        let (nd, nv, nok) = piece(src, Kind::Nick);
        *ok &= nok;
        let mut vals = vec![nv];
        let uh = match src.below(3) {
            0 => Json::Null,
            n => {
                let (hd, hv, hok) = piece(src, Kind::Word);
                *ok &= hok;
                let mut ud = Json::Null;
                if n == 2 {
                    let (d, v, uok) = piece(src, Kind::User);
                    *ok &= uok;
                    vals.push(v);
                    ud = d;
                }
                vals.push(hv);
                json!({"user": ud, "host": hd})
            }
        };
        (json!({"nick": nd, "userhost": uh}), vals)
    }
    fn source_vals(s: &Source) -> Vec<Vec<u8>> {
        let mut v = vec![bytes_of(&s.nick)];
        if let Some(uh) = &s.userhost {
            if let Some(u) = &uh.user {
                v.push(bytes_of(u));
            }
            v.push(bytes_of(&uh.host));
        }
        v
    }
    fn tag_vals(t: &Tags) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut v: Vec<_> = super::msg::tags_of(t).unwrap_or_default();
        v.sort();
        v
    }
    fn verdict<T: DeserializeOwned, R: PartialEq + Debug>(
        ctx: &mut Ctx,
        doc: &Json,
        ok: bool,
        want: R,
        view: impl Fn(&T) -> R,
    ) -> Result<(), String> {
        ctx.sample(|| format!("{} {doc}", if ok { "accept" } else { "refuse" }));
        ctx.label(if ok { "accepted" } else { "rejected" });
        for how in ["text", "tree"] {
            let got = match how {
                "text" => serde_json::from_str::<T>(&doc.to_string()),
                _ => serde_json::from_value::<T>(doc.clone()),
            };
            match got {
                Ok(v) => {
                    ensure!(ok, "{doc} accepted as {} ({how})", std::any::type_name::<T>());
                    ensure_eq!(view(&v), want, "reading {doc} ({how})");
                }
                Err(e) => ensure!(!ok, "{doc} refused as {} ({how}): {e}", std::any::type_name::<T>()),
            }
        }
        Ok(())
    }
    let mut ok = true;
    ctx.nontrivial();
    match src.below(6) {
        0 => {
            let (d, v) = args(src, &mut ok);
            verdict::<Args<'static>, _>(ctx, &d, ok, v, |a| args_of(a))
        }
        1 => {
            let (d, v) = tags(src, &mut ok);
            verdict::<Tags<'static>, _>(ctx, &d, ok, v, |t| tag_vals(t))
        }
        2 => {
            let (d, v) = source(src, &mut ok);
            verdict::<SharedSource<'static>, _>(ctx, &d, ok, v, |s| source_vals(s))
        }
        3 => {
            let (doc, want) = match src.below(6) {
                0..=2 => {
                    let n = if src.bool() { src.below(1010) } else { src.below(70000) };
                    (json!(n), (n < 1000).then(|| format!("{n:03}")))
                }
                3 => {
                    let b = [src.below(12) as u8 + b'/', src.byte(), src.below(12) as u8 + b'/'];
                    (json!(b), None)
                }
                4 => (src.pick(&[json!(-1), json!(1.5), json!("001"), json!(null), json!(true), json!([])]).clone(), None),
                _ => {
                    let n = src.below(1000);
                    (json!(format!("{n:03}")), None)
                }
            };
            verdict::<Numeric, _>(ctx, &doc, want.is_some(), want.clone().unwrap_or_default(), |n| n.to_string())?;
            // A kind is a numeric or a command, and nothing else.
            verdict::<ServerMsgKindRaw<'static>, _>(ctx, &doc, want.is_some(), want.unwrap_or_default(), |k| {
                k.as_arg().to_string()
            })
        }
        4 => {
            let (kd, kv, kok) = piece(src, Kind::Cmd);
            let (ad, av) = args(src, &mut ok);
            let (td, tv) = tags(src, &mut ok);
            let doc = json!({"cmd": kd, "args": ad, "tags": td});
            verdict::<ClientMsg<'static>, _>(ctx, &doc, ok && kok, (kv, av, tv), |m| {
                (bytes_of(&m.cmd), args_of(&m.args), tag_vals(&m.tags))
            })
        }
        _ => {
            let (kd, kv, kok) = if src.bool() {
                let n = src.below(1100);
                (json!(n), format!("{n:03}").into_bytes(), n < 1000)
            } else {
                piece(src, Kind::Cmd)
            };
            let (ad, av) = args(src, &mut ok);
            let (td, tv) = tags(src, &mut ok);
            let (sd, sv) = if src.bool() { source(src, &mut ok) } else { (Json::Null, Vec::new()) };
            let doc = json!({"source": sd, "kind": kd, "args": ad, "tags": td});
            verdict::<ServerMsg<'static>, _>(ctx, &doc, ok && kok, (kv, av, tv, sv), |m| {
                (
                    m.kind.as_arg().to_vec(),
                    args_of(&m.args),
                    tag_vals(&m.tags),
                    m.source.as_ref().map(|s| source_vals(s)).unwrap_or_default(),
                )
            })
        }
    }
}

/// Registration settings read from documents, with fields left out at random.
fn settings(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = serde_json::Map::new();
    let mut ok = true;
    let text = |src: &mut Src, k: Kind, ok: &mut bool| -> Vec<u8> {
        let mut s = String::from_utf8_lossy(&of_kind(src, k, 8)).into_owned();
        if src.chance(1, 20) {
            s.push(*src.pick(&['\0', '\n', ' ', ',', '@', '=', 'z']));
        }
        *ok &= valid(k, s.as_bytes());
        s.into_bytes()
    };
    let secret = |src: &mut Src, k: Kind, ok: &mut bool| -> (Json, Vec<u8>) {
        let mut v = of_kind(src, k, 20);
        if src.chance(1, 12) {
            v.push(0);
        }
        *ok &= valid(k, &v);
        let mut e = ::base64::engine::general_purpose::STANDARD.encode(&v);
        if src.chance(1, 12) {
            e.push('!');
            *ok = false;
        }
        (json!(e), v)
    };
    let str_of = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
    let mut pass = None;
    if src.bool() {
        let (d, v) = secret(src, Kind::Line, &mut ok);
        doc.insert("pass".into(), d);
        pass = Some(v);
    }
    let mut nicks = Vec::new();
    if src.chance(2, 3) {
        for _ in 0..src.range(0, 3) {
            nicks.push(text(src, Kind::Nick, &mut ok));
        }
        doc.insert("nicks".into(), nicks.iter().map(|v| str_of(v)).collect());
    }
    let mut username = None;
    if src.bool() {
        let v = text(src, Kind::User, &mut ok);
        doc.insert("username".into(), json!(str_of(&v)));
        username = Some(v);
    }
    let mut realname = None;
    if src.bool() {
        let v = text(src, Kind::Line, &mut ok);
        doc.insert("realname".into(), json!(str_of(&v)));
        realname = Some(v);
    }
    let mut allow = false;
    if src.bool() {
        allow = src.bool();
        doc.insert("allow_sasl_fail".into(), json!(allow));
    }
    let mut caps = std::collections::BTreeSet::new();
    if src.bool() {
        for _ in 0..src.range(0, 3) {
            caps.insert(text(src, Kind::Key, &mut ok));
        }
        doc.insert("caps".into(), caps.iter().map(|v| str_of(v)).collect());
    }
    // Expected first response of each authenticator, with its mechanism.
    let mut sasl: Vec<(&str, Vec<u8>)> = Vec::new();
    let mut queue = 0;
    if src.chance(2, 3) {
        let mut list = Vec::new();
        for _ in 0..src.range(0, 3) {
            if src.chance(1, 3) {
                let v = text(src, Kind::NoNul, &mut ok);
                list.push(json!({"External": str_of(&v)}));
                sasl.push(("EXTERNAL", v));
                queue += 1;
                continue;
            }
            let mut m = serde_json::Map::new();
            let cid = text(src, Kind::NoNul, &mut ok);
            m.insert("authcid".into(), json!(str_of(&cid)));
            let mut zid = Vec::new();
            if src.bool() {
                zid = text(src, Kind::NoNul, &mut ok);
                m.insert("authzid".into(), json!(str_of(&zid)));
            }
            let mut denied = false;
            if src.chance(1, 3) {
                denied = src.bool();
                m.insert("deny_methods".into(), if denied { json!(["Plain"]) } else { json!([]) });
            }
            let (d, pw) = secret(src, Kind::NoNul, &mut ok);
            m.insert("passwd".into(), d);
            list.push(json!({ "Password": m }));
            if denied {
                sasl.push(("", Vec::new()));
            } else {
                sasl.push(("PLAIN", [zid, vec![0], cid, vec![0], pw].concat()));
                queue += 1;
            }
        }
        doc.insert("sasl".into(), Json::Array(list));
    }
    let doc = Json::Object(doc);
    ctx.sample(|| format!("{} {doc}", if ok { "accept" } else { "refuse" }));
    ctx.label(if ok { "accepted" } else { "rejected" });
    ctx.nontrivial();
    let got = if src.bool() {
        serde_json::from_str::<Options<Clear>>(&doc.to_string())
    } else {
        serde_json::from_value::<Options<Clear>>(doc.clone())
    };
    let opts: Options<Clear, AnySasl<Clear>> = match got {
        Ok(o) => {
            ensure!(ok, "{doc} accepted as registration options");
            o
        }
        Err(e) => {
            ensure!(!ok, "{doc} refused as registration options: {e}");
            return Ok(());
        }
    };
    ensure_eq!(opts.pass.as_ref().map(|p| show(p)), pass.as_ref().map(|p| show(p)), "pass of {doc}");
    if let Some(p) = &opts.pass {
        ensure!(p.is_empty() || p.is_secret(), "the server password of {doc} is not secret");
    }
    let v: Vec<_> = opts.nicks.iter().map(|n| bytes_of(n)).collect();
    ensure_eq!(v, nicks, "nicks of {doc}");
    ensure_eq!(opts.username.as_ref().map(|n| bytes_of(n)), username, "username of {doc}");
    ensure_eq!(opts.realname.as_ref().map(|n| bytes_of(n)), realname, "realname of {doc}");
    ensure_eq!(opts.allow_sasl_fail, allow, "allow_sasl_fail of {doc}");
    let v: std::collections::BTreeSet<_> = opts.caps.iter().map(|n| bytes_of(n)).collect();
    ensure_eq!(v, caps, "caps of {doc}");
    ensure_eq!(opts.sasl.len(), sasl.len(), "authenticators of {doc}");
    for (a, (name, first)) in opts.sasl.iter().zip(&sasl) {
        if let AnySasl::Password(p) = a {
            ensure!(p.passwd.is_empty() || p.passwd.is_secret(), "a login password of {doc} is not secret");
        }
        let mut logic: Vec<Box<dyn SaslLogic>> = a.logic();
        if name.is_empty() {
            ensure!(logic.is_empty(), "a denied method of {doc} is offered");
            continue;
        }
        ensure_eq!(logic.len(), 1, "mechanisms of {doc}");
        ensure_eq!(show(&logic[0].name()), show(name.as_bytes()), "mechanism of {doc}");
        let mut buf = SecretBuf::with_capacity(16);
        logic[0].reply(b"", &mut buf).map_err(|e| format!("first response: {e}"))?;
        ensure_eq!(show(&buf.into_bytes()), show(first), "first response of {doc}");
    }
    let (q, required) = opts.auths();
    ensure_eq!(q.is_empty(), queue == 0, "queue of {doc}");
    ensure_eq!(required, queue > 0 && !allow, "whether login is required by {doc}");
    Ok(())
}

/// A source of secrets that delivers some bytes piecemeal, and may then fail.
#[derive(serde::Deserialize, Clone)]
struct Vault {
    parts: Vec<Vec<u8>>,
    hint: usize,
    fail: bool,
}
impl LoadSecret for Vault {
    fn size_hint(&self) -> usize {
        self.hint
    }
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        for p in &self.parts {
            data.push_slice(p);
        }
        match self.fail {
            true => Err(std::io::Error::new(std::io::ErrorKind::Other, "locked")),
            false => Ok(()),
        }
    }
}

/// Secrets from a source of one's own, loaded directly or while deserialising.
fn loaders(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let k = *src.pick(&KINDS);
    let parts: Vec<Vec<u8>> = (0..src.len(4))
        .map(|_| if src.chance(3, 4) { b"abcXYZ09"[..src.usize_below(9)].to_vec() } else { raw(src, 12) })
        .collect();
    let v = parts.concat();
    let vault = Vault { hint: src.usize_below(48), fail: src.chance(1, 3), parts };
    let doc = json!({"parts": vault.parts, "hint": vault.hint, "fail": vault.fail});
    ctx.sample(|| format!("{k:?} from {doc}"));
    if vault.parts.len() > 1 {
        ctx.nontrivial();
    }
    macro_rules! one {
        ($t:ident) => {{
            fn seen<E: std::fmt::Display>(r: Result<Secret<$t<'static>, Vault>, E>) -> Result<(Vec<u8>, bool), String> {
                r.map(|s| (bytes_of(&s), s.is_secret())).map_err(|e| e.to_string())
            }
            (seen(Secret::load(vault.clone())), seen(serde_json::from_value(doc.clone())))
        }};
    }
    let (a, b) = match k {
        Kind::NoNul => one!(NoNul),
        Kind::Line => one!(Line),
        Kind::Word => one!(Word),
        Kind::Arg => one!(Arg),
        Kind::Key => one!(Key),
        Kind::Target => one!(Target),
        Kind::Nick => one!(Nick),
        Kind::User => one!(User),
        _ => one!(Cmd),
    };
    let ok = valid(k, &v) && !vault.fail;
    for (got, how) in [(a, "loading"), (b, "reading")] {
        match got {
            Ok((bytes, secret)) => {
                ctx.label("accepted");
                ensure!(ok, "{how} a {k:?} secret from {doc} gave {}", show(&bytes));
                ensure_eq!(show(&bytes), show(&v), "{how} a {k:?} secret from {doc}");
                ensure!(secret || v.is_empty(), "{how} from {doc}: the secret is not marked so");
            }
            Err(e) => {
                ctx.label("rejected");
                ensure!(!ok, "{how} a {k:?} secret from {doc}: {e}");
            }
        }
    }
    Ok(())
}

/// Secrets in their own right, loaded while deserialising.
fn secret(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let v = raw(src, 40);
    let e = ::base64::engine::general_purpose::STANDARD.encode(&v);
    ctx.sample(|| show(&v));
    if v.len() > 2 {
        ctx.nontrivial();
    }
    let doc = json!(e);
    let c: Clear = serde_json::from_value(doc.clone()).map_err(|x| format!("{doc}: {x}"))?;
    ensure_eq!(show(&c.0.clone().into_bytes()), show(&v), "reading {doc}");
    macro_rules! one {
        ($t:ident ()) => {{
            match serde_json::from_str::<Secret<$t<'static>, Clear>>(&doc.to_string()) {
                Ok(s) => {
                    ensure!(v.is_empty() || s.is_secret(), "the secret {doc} is not marked so");
                    Ok(bytes_of(&s))
                }
                Err(e) => Err(e.to_string()),
            }
        }};
    }
    let k = *src.pick(&KINDS);
    let got: Result<Vec<u8>, String> = match k {
        Kind::NoNul => one!(NoNul ()),
        Kind::Line => one!(Line ()),
        Kind::Word => one!(Word ()),
        Kind::Arg => one!(Arg ()),
        Kind::Key => one!(Key ()),
        Kind::Target => one!(Target ()),
        Kind::Nick => one!(Nick ()),
        Kind::User => one!(User ()),
        _ => one!(Cmd ()),
    };
    match got {
        Ok(b) => {
            ctx.label("accepted");
            ensure!(valid(k, &v), "the secret {} accepted as {k:?}", show(&v));
            ensure_eq!(show(&b), show(&v), "secret {k:?}");
        }
        Err(e) => {
            ctx.label("rejected");
            ensure!(!valid(k, &v), "the secret {} refused as {k:?}: {e}", show(&v));
        }
    }
    Ok(())
}

pub fn c23() -> Vec<Facet> {
    vec![
        facet("strings", 200_000, 6_000_000, strings, "at least two bytes"),
        facet("restricted", 300_000, 6_000_000, restricted, "the document is a string or byte sequence"),
        facet("values", 200_000, 4_000_000, values, "every case"),
        facet("documents", 200_000, 4_000_000, documents, "every case"),
        facet("settings", 100_000, 2_000_000, settings, "every case"),
        facet("loaders", 100_000, 2_000_000, loaders, "delivered in more than one part"),
        facet("secrets", 100_000, 2_000_000, secret, "at least three bytes"),
    ]
}

/// The listed finding: a string that is not UTF-8 does not read back from a binary format.
pub fn known_cbor() -> bool {
    let mut buf = Vec::new();
    ciborium::into_writer(&Bytes::from_bytes(b"\xff".as_slice()), &mut buf).unwrap();
    ciborium::from_reader::<Bytes<'static>, _>(buf.as_slice()).is_err()
}
