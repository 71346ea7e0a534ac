//! C04-C07: the string types, as one operation machine with several judges.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use vinezombie::error::InvalidString;
use vinezombie::owning::MakeOwning;
use vinezombie::string::tf::*;
use vinezombie::string::*;

/// What a case judges. Deviations of another kind end the case quietly: another property's check
/// reports them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Judge {
    Rule,
    Utf8,
    Value,
    Secret,
    /// Nothing: what counts is that the operations are sound (C09).
    Memory,
}
pub enum Stop {
    Violation(String),
    Other,
}
type R<T = ()> = Result<T, Stop>;

pub struct M<'s> {
    pub src: &'s mut Src,
    pub ar: &'s Arena,
    pub judge: Judge,
    pub pool: Vec<(AnyStr, Model)>,
    pub ops: usize,
    pub labels: Vec<&'static str>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub v: Vec<u8>,
    pub secret: bool,
}

macro_rules! any_str {
    ($($t:ident),+) => {
        #[derive(Clone)]
        pub enum AnyStr { Bytes(Bytes<'static>), $($t($t<'static>)),+ }
        impl AnyStr {
            pub fn kind(&self) -> Kind {
                match self { AnyStr::Bytes(_) => Kind::Bytes, $(AnyStr::$t(_) => Kind::$t),+ }
            }
            pub fn as_bytes(&self) -> &Bytes<'static> {
                match self { AnyStr::Bytes(b) => b, $(AnyStr::$t(s) => s),+ }
            }
            pub fn into_bytes(self) -> Bytes<'static> {
                match self { AnyStr::Bytes(b) => b, $(AnyStr::$t(s) => s.into_bytes()),+ }
            }
            pub fn owning(self) -> AnyStr {
                match self { AnyStr::Bytes(b) => AnyStr::Bytes(b.owning()), $(AnyStr::$t(s) => AnyStr::$t(s.owning())),+ }
            }
            pub fn make_owning(&mut self) {
                match self { AnyStr::Bytes(b) => b.make_owning(), $(AnyStr::$t(s) => s.make_owning()),+ }
            }
            pub fn secret(self) -> AnyStr {
                match self { AnyStr::Bytes(b) => AnyStr::Bytes(b.secret()), $(AnyStr::$t(s) => AnyStr::$t(s.secret())),+ }
            }
            pub fn display(&self) -> String {
                match self { AnyStr::Bytes(b) => b.to_string(), $(AnyStr::$t(s) => s.to_string()),+ }
            }
            pub fn debug(&self) -> String {
                match self { AnyStr::Bytes(b) => format!("{b:?} {b:#?}"), $(AnyStr::$t(s) => format!("{s:?} {s:#?}")),+ }
            }
            pub fn into_vec(self) -> Vec<u8> {
                match self { AnyStr::Bytes(b) => b.into(), $(AnyStr::$t(s) => s.into()),+ }
            }
            /// Do all comparisons with bytes say `same`?
            pub fn eqs(&self, v: &[u8], same: bool) -> bool {
                match self {
                    AnyStr::Bytes(b) => (*b == *v) == same && (*b == v) == same,
                    $(AnyStr::$t(s) => (*s == *v) == same && (*s == v) == same),+
                }
            }
            /// Do all comparisons with text say `same`?
            pub fn eq_str(&self, v: &str, same: bool) -> bool {
                match self {
                    AnyStr::Bytes(b) => (*b == *v) == same && (*b == v) == same,
                    $(AnyStr::$t(s) => (*s == *v) == same && (*s == v) == same),+
                }
            }
        }
        /// Every safe way from bytes to a value of a restricted type.
        pub fn construct(k: Kind, how: u32, src: &mut Src, ar: &Arena, v: &[u8], secret: &mut bool) -> Option<Result<AnyStr, Option<InvalidString>>> {
            *secret = how == 4 && k != Kind::Bytes;
            let mut mk = |src: &mut Src, ar: &Arena, v: &[u8]| {
                let (b, s) = mk_known(src, ar, v);
                *secret = s;
                b
            };
            let text = std::str::from_utf8(v).ok();
            match k {
                Kind::Bytes => Some(Ok(AnyStr::Bytes(mk(src, ar, v)))),
                $(Kind::$t => Some(match how {
                    0 => $t::from_bytes(mk(src, ar, v)).map(AnyStr::$t).map_err(Some),
                    1 => $t::try_from(ar.bytes(v)).map(AnyStr::$t).map_err(Some),
                    2 => $t::try_from(v.to_vec()).map(AnyStr::$t).map_err(Some),
                    3 => $t::try_from(mk(src, ar, v)).map(AnyStr::$t).map_err(Some),
                    4 => $t::from_secret(v.to_vec()).map(AnyStr::$t).map_err(Some),
                    5 => {
                        text?;
                        let t: &'static str = std::str::from_utf8(ar.bytes(v)).unwrap();
                        $t::try_from(t).map(AnyStr::$t).map_err(Some)
                    }
                    6 => $t::try_from(text?.to_owned()).map(AnyStr::$t).map_err(Some),
                    7 => {
                        text?;
                        let t: &'static str = std::str::from_utf8(ar.bytes(v)).unwrap();
                        catch(|| $t::from_str(t)).map(AnyStr::$t).map_err(|_| None)
                    }
                    _ => $t::from_bytes(ar.bytes(v)).map(AnyStr::$t).map_err(Some),
                }),)+
            }
        }
        pub fn split_string(k: Kind, m: &mut dyn SplitOps, rest: bool, peek: bool) -> Result<AnyStr, InvalidString> {
            match k {
                Kind::Bytes => m.s_bytes(rest, peek).map(AnyStr::Bytes),
                $(Kind::$t => m.$t(rest, peek).map(AnyStr::$t),)+
            }
        }
        #[allow(non_snake_case)]
        pub trait SplitOps {
            fn s_bytes(&mut self, rest: bool, peek: bool) -> Result<Bytes<'static>, InvalidString>;
            $(fn $t(&mut self, rest: bool, peek: bool) -> Result<$t<'static>, InvalidString>;)+
            fn consume_invalid_k(&mut self, k: Kind);
        }
        #[allow(non_snake_case)]
        impl<T: BytesNewtype<'static>> SplitOps for Splitter<T> {
            fn s_bytes(&mut self, rest: bool, peek: bool) -> Result<Bytes<'static>, InvalidString> {
                if peek { self.peek_string(rest) } else { self.string(rest) }
            }
            $(fn $t(&mut self, rest: bool, peek: bool) -> Result<$t<'static>, InvalidString> {
                if peek { self.peek_string(rest) } else { self.string(rest) }
            })+
            fn consume_invalid_k(&mut self, k: Kind) {
                match k {
                    Kind::Bytes => self.consume_invalid::<Bytes>(),
                    $(Kind::$t => self.consume_invalid::<$t>(),)+
                }
            }
        }
        pub fn rule_of(k: Kind, v: &[u8]) -> (Option<InvalidString>, bool) {
            match k {
                Kind::Bytes => (None, false),
                $(Kind::$t => ($t::find_invalid(v), v.first().is_some_and($t::is_invalid)),)+
            }
        }
        pub fn split(m: &mut M, s: AnyStr, model: Model) -> R {
            match s {
                AnyStr::Bytes(s) => split_run(m, s, model, |sp, how| match how {
                    Rest::Peek => sp.peek_rest::<Bytes>().map(AnyStr::Bytes),
                    Rest::Take => sp.rest::<Bytes>().map(AnyStr::Bytes),
                    Rest::OrDefault => Ok(AnyStr::Bytes(sp.rest_or_default::<Bytes>())),
                }),
                $(AnyStr::$t(s) => split_run(m, s, model, |sp, how| match how {
                    Rest::Peek => sp.peek_rest::<$t>().map(AnyStr::$t),
                    Rest::Take => sp.rest::<$t>().map(AnyStr::$t),
                    Rest::OrDefault => Ok(AnyStr::Bytes(sp.rest_or_default::<Bytes>())),
                }),)+
            }
        }
        pub fn as_cstring(s: AnyStr) -> Option<Vec<u8>> {
            match s {
                AnyStr::Bytes(_) => None,
                $(AnyStr::$t(s) => {
                    let nz: Vec<u8> = s.as_bytes_nonzero().iter().map(|b| b.get()).collect();
                    let c = s.into_cstring().into_bytes();
                    assert_eq!(nz, c, "as_bytes_nonzero and into_cstring");
                    Some(c)
                })+
            }
        }
    };
}
any_str!(NoNul, Line, Word, Arg, Key, Target, Nick, User, Cmd);

/// Conversions between neighbouring types; `None` if there is no such conversion.
pub fn convert(s: AnyStr, to: Kind, how: u32) -> Option<Result<AnyStr, InvalidString>> {
    macro_rules! table {
        ($($sub:ident: $($sup:ident)+;)+) => {
            match (s, to) {
                $($(
                    (AnyStr::$sub(x), Kind::$sup) => Some(Ok(AnyStr::$sup(x.into()))),
                    (AnyStr::$sup(x), Kind::$sub) => Some($sub::try_from(x).map(AnyStr::$sub)),
                )+)+
                (AnyStr::Bytes(b), Kind::NoNul) => Some(NoNul::try_from(b).map(AnyStr::NoNul)),
                (x, Kind::Bytes) => Some(Ok(AnyStr::Bytes(match x {
                    AnyStr::Bytes(b) => b,
                    $(AnyStr::$sub(y) => y.into(),)+
                    AnyStr::NoNul(y) => y.into(),
                }))),
                _ => None,
            }
        };
    }
    macro_rules! supers {
        ($($sub:ident: $sup:ident;)+) => {
            match (s, to) {
                $(
                    (AnyStr::$sub(x), Kind::$sup) => Some(Ok(AnyStr::$sup(x.into_super()))),
                    (AnyStr::$sup(x), Kind::$sub) => Some($sub::from_super(x).map(AnyStr::$sub)),
                )+
                (AnyStr::Arg(x), Kind::Nick) => Some(Nick::from_arg(x).map(AnyStr::Nick)),
                // The more general types convert on the way in.
                (AnyStr::Cmd(x), Kind::Nick) => Some(Nick::from_arg(x).map(AnyStr::Nick)),
                (AnyStr::User(x), Kind::Nick) => Some(Nick::from_arg(x).map(AnyStr::Nick)),
                (AnyStr::Target(x), Kind::Key) => Some(Key::from_super(x).map(AnyStr::Key)),
                (AnyStr::Nick(x), Kind::User) => Some(User::from_super(x).map(AnyStr::User)),
                _ => None,
            }
        };
    }
    if how == 0 {
        table! {
            Line: NoNul;
            Word: NoNul Line;
            Arg: NoNul Line Word;
            Key: NoNul Line Word Arg;
            Target: NoNul Line Word Arg;
            Nick: NoNul Line Word Arg Target;
            User: NoNul Line Word Arg;
            Cmd: NoNul Line Word Arg;
        }
    } else {
        supers! {
            Line: NoNul;
            Word: Line;
            Arg: Word;
            Key: Arg;
            Target: Arg;
            Nick: Target;
            User: Arg;
            Cmd: Arg;
        }
    }
}

pub fn truthful(k: Kind, v: &[u8], e: &InvalidString) -> bool {
    match e {
        InvalidString::Empty => needs_first(k) && v.is_empty(),
        InvalidString::Colon => needs_first(k) && v.first() == Some(&b':'),
        InvalidString::Byte(b) => bad_byte(k, *b) && v.contains(b),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

fn lossy(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.windows(needle.len()).any(|w| w == needle)
}

impl M<'_> {
    pub fn fail<T>(&self, j: Judge, msg: String) -> R<T> {
        if j == self.judge {
            Err(Stop::Violation(format!("{msg}\nafter: {}", self.trace.join("; "))))
        } else {
            if let Some(p) = std::env::var_os("VZ_DEBUG") {
                use std::io::Write;
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                    let _ = writeln!(f, "other: {j:?} {msg}\nafter: {}", self.trace.join("; "));
                }
            }
            Err(Stop::Other)
        }
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        self.ops += 1;
        if self.trace.len() < 64 {
            self.trace.push(s());
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Judges one string against its model.
    pub fn check(&self, s: &AnyStr, m: &Model, what: &str) -> R {
        let k = s.kind();
        let b = s.as_bytes();
        let v = b.as_bytes();
        if !valid(k, v) {
            return self.fail(Judge::Rule, format!("{what}: a {k:?} contains {}", show(v)));
        }
        let truth = std::str::from_utf8(v).is_ok();
        if let Some(l) = b.is_utf8_lazy() {
            if l != truth {
                return self.fail(Judge::Utf8, format!("{what}: {} is believed to be utf8={l}", show(v)));
            }
        }
        if v != m.v.as_slice() {
            return self.fail(Judge::Value, format!("{what}: got {}, expected {}", show(v), show(&m.v)));
        }
        if !v.is_empty() && b.is_secret() != m.secret {
            return self.fail(Judge::Secret, format!("{what}: {} has secret={}", show(v), b.is_secret()));
        }
        if b.len() != m.v.len() || b.is_empty() != m.v.is_empty() {
            return self.fail(Judge::Value, format!("{what}: length {} of {}", b.len(), show(v)));
        }
        Ok(())
    }
    pub fn put(&mut self, s: AnyStr, m: Model, what: &str) -> R {
        self.check(&s, &m, what)?;
        if self.pool.len() >= 8 {
            let i = self.src.usize_below(self.pool.len());
            self.pool.swap_remove(i);
        }
        self.pool.push((s, m));
        Ok(())
    }
    pub fn take(&mut self) -> Option<(AnyStr, Model)> {
        if self.pool.is_empty() {
            return None;
        }
        let i = self.src.usize_below(self.pool.len());
        let (s, m) = self.pool[i].clone();
        // Often the only owner, often one of several.
        if self.src.chance(1, 2) {
            self.pool.swap_remove(i);
        }
        Some((s, m))
    }
}

fn new_op(m: &mut M) -> R {
    let k = if m.src.chance(1, 4) { Kind::Bytes } else { *m.src.pick(&KINDS) };
    let mut v = match m.src.below(4) {
        0 => raw(m.src, 24),
        1 => {
            // One byte away from valid.
            let mut v = of_kind(m.src, k, 14);
            let i = m.src.usize_below(v.len() + 1);
            let b = *m.src.pick(b"\0\r\n :;=,!@%aZ9\x80");
            if m.src.bool() || v.is_empty() {
                v.insert(i, b);
            } else {
                let n = v.len();
                v[i.min(n - 1)] = b;
            }
            v
        }
        _ => of_kind(m.src, k, 24),
    };
    if m.src.chance(1, 100) {
        // A long run of the same in the middle.
        let i = m.src.usize_below(v.len() + 1);
        let n = *m.src.pick(&[7usize, 15, 31, 60, 127, 255, 511, 600, 1023, 2100]) + m.src.usize_below(4);
        let piece = *m.src.pick(&["A", "A", "a", "\u{2603}", "z"]);
        v.splice(i..i, piece.repeat(n).into_bytes());
        m.label("long string");
    }
    let how = m.src.below(9);
    m.note(|| format!("new {k:?} {} way {how}", show(&v)));
    let mut secret = false;
    let Some(r) = construct(k, how, m.src, m.ar, &v, &mut secret) else { return Ok(()) };
    let ok = valid(k, &v);
    match r {
        Ok(s) => {
            if !ok {
                return m.fail(Judge::Rule, format!("{k:?} accepts {}", show(&v)));
            }
            // Secrecy of the generated input is the constructor's to keep.
            let md = Model { v, secret };
            m.put(s, md, "constructed")
        }
        Err(e) => {
            m.label("rejected");
            if ok {
                return m.fail(Judge::Rule, format!("{k:?} rejects {}: {e:?}", show(&v)));
            }
            if let Some(e) = e {
                if !truthful(k, &v, &e) {
                    return m.fail(Judge::Rule, format!("{k:?} rejects {} with {e:?}", show(&v)));
                }
            }
            Ok(())
        }
    }
}

fn convert_op(m: &mut M) -> R {
    let Some((s, md)) = m.take() else { return Ok(()) };
    let from = s.kind();
    let to = if m.src.chance(1, 8) { Kind::Bytes } else { *m.src.pick(&KINDS) };
    let how = m.src.below(3);
    m.note(|| format!("convert {from:?} {} to {to:?} way {how}", show(&md.v)));
    let r = if how == 2 {
        // By way of the raw byte string.
        let b = s.into_bytes();
        macro_rules! by { ($($t:ident)+) => { match to { Kind::Bytes => Ok(AnyStr::Bytes(b)), $(Kind::$t => $t::from_bytes(b).map(AnyStr::$t),)+ } } }
        by!(NoNul Line Word Arg Key Target Nick User Cmd)
    } else {
        match convert(s, to, how) {
            Some(r) => r,
            None => return Ok(()),
        }
    };
    let ok = valid(to, &md.v);
    match r {
        Ok(s) => {
            if !ok {
                return m.fail(Judge::Rule, format!("{from:?} {} converts to {to:?}", show(&md.v)));
            }
            m.put(s, md, "converted")
        }
        Err(e) => {
            if ok {
                return m.fail(Judge::Rule, format!("{from:?} {} does not convert to {to:?}: {e:?}", show(&md.v)));
            }
            if !truthful(to, &md.v, &e) {
                return m.fail(Judge::Rule, format!("{} rejected as {to:?} with {e:?}", show(&md.v)));
            }
            Ok(())
        }
    }
}

fn misc_op(m: &mut M) -> R {
    let Some((mut s, mut md)) = m.take() else { return Ok(()) };
    let op = m.src.below(14);
    m.note(|| format!("misc {op} on {:?} {}", s.kind(), show(&md.v)));
    let text = std::str::from_utf8(&md.v).ok().map(|s| s.to_owned());
    match op {
        0 => {
            s = s.owning();
            if !md.v.is_empty() && !s.as_bytes().is_owning() {
                return m.fail(Judge::Value, "owning() does not own".into());
            }
        }
        1 => {
            s.make_owning();
            if !md.v.is_empty() && !s.as_bytes().is_owning() {
                return m.fail(Judge::Value, "make_owning() does not own".into());
            }
        }
        2 => {
            s = s.secret();
            md.secret = true;
            if !s.as_bytes().is_secret() {
                return m.fail(Judge::Secret, "secret() is not secret".into());
            }
        }
        3 => {
            if s.as_bytes().to_utf8() != text.as_deref() {
                return m.fail(Judge::Utf8, format!("to_utf8 of {}", show(&md.v)));
            }
        }
        4 => {
            if s.as_bytes().to_utf8_lossy() != lossy(&md.v) {
                return m.fail(Judge::Utf8, format!("to_utf8_lossy of {}", show(&md.v)));
            }
        }
        5 => {
            let b = s.into_bytes().into_utf8_lossy();
            md.v = lossy(&md.v).into_bytes();
            if b.is_utf8_lazy() == Some(false) {
                return m.fail(Judge::Utf8, "into_utf8_lossy is not UTF-8".into());
            }
            s = AnyStr::Bytes(b);
        }
        6 => {
            let b = s.into_bytes();
            let c = b.to_utf8_lossy_static();
            if c != lossy(&md.v) {
                return m.fail(Judge::Utf8, format!("to_utf8_lossy_static of {}", show(&md.v)));
            }
            // The text outlives the string, so it may not lie in memory the string owns.
            let within = b.as_bytes().as_ptr_range();
            if b.is_owning() && !c.is_empty() && within.contains(&c.as_ptr()) {
                return m.fail(Judge::Memory, format!("to_utf8_lossy_static of {} does not outlive it", show(&md.v)));
            }
            s = AnyStr::Bytes(b);
            if m.src.bool() {
                md.v = lossy(&md.v).into_bytes();
                md.secret = false;
                s = AnyStr::Bytes(Bytes::from(c));
            }
        }
        7 => {
            let v = s.into_vec();
            if v != md.v {
                return m.fail(Judge::Value, format!("into vec: {}, expected {}", show(&v), show(&md.v)));
            }
            return Ok(());
        }
        8 => {
            let c: Cow<'static, [u8]> = s.into_bytes().into();
            if c != md.v {
                return m.fail(Judge::Value, "into Cow".into());
            }
            let copy = md.v.clone();
            let mut part: Cow<'_, [u8]> = Cow::Borrowed(&copy);
            part.make_owning();
            if part != md.v || !matches!(part, Cow::Owned(_)) {
                return m.fail(Judge::Value, "make_owning() of a Cow".into());
            }
            // Back again.
            s = AnyStr::Bytes(Bytes::from(c));
            md.secret = false;
        }
        9 => {
            let before = s.as_bytes().is_secret();
            if let Some(v) = as_cstring(s) {
                if v != md.v {
                    return m.fail(Judge::Value, "into_cstring".into());
                }
            }
            let _ = before;
            return Ok(());
        }
        10 => {
            use ::base64::engine::{general_purpose::STANDARD, Engine};
            let want = STANDARD.encode(&md.v).into_bytes();
            let plus = m.src.bool();
            md.v = if plus && md.v.is_empty() { b"+".to_vec() } else { want };
            if plus {
                let a = s.as_bytes().to_base64_plus();
                if md.v == b"+" {
                    md.secret = false;
                }
                s = AnyStr::Arg(a);
            } else {
                s = AnyStr::Word(s.as_bytes().to_base64());
            }
        }
        11 => {
            let d = s.display();
            let want = match (&text, md.secret && !md.v.is_empty() || s.as_bytes().is_secret()) {
                (Some(t), false) => t.clone(),
                _ => DISPLAY_PLACEHOLDER.to_string(),
            };
            if d != want {
                let j = if md.secret { Judge::Secret } else { Judge::Utf8 };
                return m.fail(j, format!("Display of {} (secret={}) is {d:?}", show(&md.v), md.secret));
            }
        }
        12 => {
            let d = s.debug();
            if md.secret && md.v.len() >= 3 && leaks(&d, &md.v) && !leaks(&debug_template(s.kind()), &md.v) {
                return m.fail(Judge::Secret, format!("Debug of secret {} is {d}", show(&md.v)));
            }
            if !md.secret {
                if let Some(t) = &text {
                    if !d.contains(&format!("{t:?}")) {
                        return m.fail(Judge::Utf8, format!("Debug of {} is {d}", show(&md.v)));
                    }
                }
            }
        }
        _ => {
            // Comparisons go by the bytes.
            if let Some((o, om)) = m.pool.first().cloned() {
                let (a, b) = (s.as_bytes(), o.as_bytes());
                let same = md.v == om.v;
                if (a == b) != same
                    || a.cmp(b) != md.v.cmp(&om.v)
                    || a.partial_cmp(b) != Some(md.v.cmp(&om.v))
                    || !s.eqs(&om.v, same)
                    || !o.eqs(&md.v, same)
                    || (same && h(a) != h(b))
                {
                    return m.fail(Judge::Value, format!("comparison of {} and {}", show(&md.v), show(&om.v)));
                }
                if let Ok(t) = std::str::from_utf8(&om.v) {
                    if !s.eq_str(t, same) {
                        return m.fail(Judge::Value, format!("str comparison of {} and {t:?}", show(&md.v)));
                    }
                }
            }
            // Lookup by borrowed bytes needs equal hashes.
            if h(s.as_bytes()) != h(md.v.as_slice()) || !s.eqs(&md.v, true) {
                return m.fail(Judge::Value, format!("hash or equality of {} with its bytes", show(&md.v)));
            }
            if let Some(t) = &text {
                if !s.eq_str(t, true) {
                    return m.fail(Judge::Value, format!("{} differs from itself as text", show(&md.v)));
                }
            }
            // Nothing nearby is equal: another case, a byte less, a byte more.
            if !md.v.is_empty() {
                let mut near = md.v.clone();
                let i = m.src.usize_below(near.len());
                match m.src.below(4) {
                    0 => near.truncate(i),
                    1 => near.push(b'a'),
                    2 => near[i] ^= 1,
                    _ => near[i] ^= 0x20,
                }
                let text = std::str::from_utf8(&near).ok();
                let other = Bytes::from(near.as_slice());
                if !s.eqs(&near, false) || text.is_some_and(|t| !s.eq_str(t, false)) || *s.as_bytes() == other {
                    return m.fail(Judge::Value, format!("{} equals {}", show(&md.v), show(&near)));
                }
            }
        }
    }
    m.put(s, md, "result")
}

/// What the Debug output of an unrelated string looks like: a short secret may occur in it by chance.
fn debug_template(k: Kind) -> String {
    macro_rules! t { ($($t:ident)+) => { match k { Kind::Bytes => { let b = Bytes::from_secret(vec![b'N'; 3]); format!("{b:?} {b:#?} true, false,") } $(Kind::$t => {
        let b = $t::from_secret(vec![b'N'; 3]).unwrap();
        format!("{b:?} {b:#?} true, false,")
    })+ } } }
    t!(NoNul Line Word Arg Key Target Nick User Cmd)
}

/// Is the secret visible in formatted text, as text or as a list of byte values?
pub fn leaks(out: &str, v: &[u8]) -> bool {
    if v.len() < 3 {
        return false;
    }
    if contains(out.as_bytes(), v) || contains(out.as_bytes(), lossy(v).as_bytes()) {
        return true;
    }
    let esc = v.escape_ascii().to_string();
    if contains(out.as_bytes(), esc.as_bytes()) {
        return true;
    }
    let dbg = format!("{:?}", lossy(v));
    if contains(out.as_bytes(), dbg.trim_matches('"').as_bytes()) {
        return true;
    }
    let flat: String = out.chars().filter(|c| !c.is_whitespace()).collect();
    let list: String = v.iter().map(|b| format!("{b},")).collect();
    flat.contains(list.trim_end_matches(','))
}

/// A transformation of the caller's own, whose claims about UTF-8 are true.
#[derive(Clone, Copy, Debug)]
struct Custom {
    act: u8,
    policy: Utf8Policy,
}
impl Custom {
    fn pick(src: &mut Src) -> Custom {
        use Utf8Policy::*;
        let (act, policies): (u8, &[Utf8Policy]) = match src.below(6) {
            // Only ASCII remains, in a new buffer.
            0 => (0, &[Preserve, Valid, Recheck]),
            // Up to the first byte which is not ASCII.
            1 => (1, &[Preserve, Valid, Recheck]),
            // Left as it is.
            2 => (2, &[Preserve, PreserveStrict, Recheck]),
            // Copied.
            3 => (3, &[Preserve, PreserveStrict, Recheck]),
            // Something appended that no valid string ends in.
            4 => (4, &[Invalid, Recheck]),
            // Without the first byte.
            _ => (5, &[Recheck]),
        };
        Custom { act, policy: *src.pick(policies) }
    }
    fn of(self, v: &[u8]) -> Vec<u8> {
        match self.act {
            0 => v.iter().copied().filter(u8::is_ascii).collect(),
            1 => v.iter().copied().take_while(u8::is_ascii).collect(),
            2 | 3 => v.to_vec(),
            4 => [v, b"\xc3"].concat(),
            _ => v.iter().copied().skip(1).collect(),
        }
    }
}
unsafe impl Transform for Custom {
    type Value = usize;
    fn transform<'a>(self, bytes: &Bytes<'a>) -> Transformation<'a, usize> {
        // Safety: what is borrowed is borrowed from what `bytes` borrows or owns.
        let v = unsafe { bytes.as_bytes_unsafe() };
        let transformed = match self.act {
            1 => Cow::Borrowed(&v[..v.iter().take_while(|b| b.is_ascii()).count()]),
            2 => Cow::Borrowed(v),
            5 => Cow::Borrowed(v.get(1..).unwrap_or_default()),
            _ => Cow::Owned(self.of(v)),
        };
        Transformation { value: v.len(), transformed, utf8: self.policy }
    }
}
unsafe impl NoNulSafe for Custom {}

fn transform_op(m: &mut M) -> R {
    let Some((mut s, mut md)) = m.take() else { return Ok(()) };
    let op = m.src.below(9);
    m.note(|| format!("transform {op} of {:?} {}", s.kind(), show(&md.v)));
    macro_rules! on {
        ($tf:expr, $f:expr; $($t:ident)+) => {
            match &mut s {
                $(AnyStr::$t(x) => { x.transform($tf); md.v = $f(&md.v); })+
                _ => return Ok(()),
            }
        };
    }
    let low = |v: &Vec<u8>| v.to_ascii_lowercase();
    let up = |v: &Vec<u8>| v.to_ascii_uppercase();
    let strict = |v: &Vec<u8>| -> Vec<u8> {
        v.iter()
            .map(|b| match b {
                b'[' => b'{',
                b']' => b'}',
                b'\\' => b'|',
                b'A'..=b'Z' => b + 32,
                b => *b,
            })
            .collect()
    };
    let rfc = |v: &Vec<u8>| -> Vec<u8> { strict(v).iter().map(|b| if *b == b'~' { b'^' } else { *b }).collect() };
    match op {
        0 => on!(AsciiCasemap::<true>, up; Bytes NoNul Line Word Arg Key Cmd),
        1 => on!(AsciiCasemap::<false>, low; Bytes NoNul Line Word Arg Key),
        2 => on!(IrcCasemap::Ascii, low; Bytes NoNul Line Word Arg Key Target Nick User),
        3 => on!(IrcCasemap::Rfc1459Strict, strict; Bytes NoNul Line Word Arg Key Target Nick User),
        4 => on!(IrcCasemap::Rfc1459, rfc; Bytes NoNul Line Word Arg Key Target Nick User),
        5 => {
            let side = *m.src.pick(&[StringSide::Start, StringSide::End, StringSide::StartFirst, StringSide::EndFirst]);
            let f = |v: &Vec<u8>| -> Vec<u8> {
                let mut v = v.as_slice();
                let ws = |b: &u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 12);
                if side != StringSide::Start {
                    while v.last().is_some_and(ws) {
                        v = &v[..v.len() - 1];
                    }
                }
                if side != StringSide::End {
                    while v.first().is_some_and(ws) {
                        v = &v[1..];
                    }
                }
                v.to_vec()
            };
            on!(TrimAscii(side), f; Bytes NoNul Line)
        }
        6 | 7 => {
            let tf = Custom::pick(m.src);
            m.note(|| format!("{tf:?}"));
            let len = md.v.len();
            // An empty string protects nothing, so growing it is no derivation.
            if len == 0 && tf.act == 4 {
                return Ok(());
            }
            let got = match &mut s {
                AnyStr::Bytes(b) => b.transform(tf),
                AnyStr::NoNul(b) => b.transform(tf),
                _ => return Ok(()),
            };
            md.v = tf.of(&md.v);
            if got != len {
                return m.fail(Judge::Value, format!("the transformation yielded {len}, received {got}"));
            }
        }
        _ => {
            let b = s.into_bytes();
            let Ok(w) = Word::from_bytes(b) else { return Ok(()) };
            match Cmd::from_word(w) {
                Ok(c) => {
                    if md.v.is_empty() || !md.v.iter().all(|b| b.is_ascii_alphabetic()) {
                        return m.fail(Judge::Rule, format!("Cmd::from_word accepts {}", show(&md.v)));
                    }
                    if c.as_str().as_bytes() != md.v.to_ascii_uppercase() {
                        return m.fail(Judge::Value, format!("Cmd::from_word({}) is {c}", show(&md.v)));
                    }
                    md.v = md.v.to_ascii_uppercase();
                    s = AnyStr::Cmd(c);
                }
                Err(e) => {
                    let bad = md.v.iter().any(|b| !b.is_ascii_alphabetic());
                    if !bad && !md.v.is_empty() {
                        return m.fail(Judge::Rule, format!("Cmd::from_word rejects {}: {e:?}", show(&md.v)));
                    }
                    return Ok(());
                }
            }
        }
    }
    m.put(s, md, "transformed")
}

fn escape_op(m: &mut M) -> R {
    let Some((s, mut md)) = m.take() else { return Ok(()) };
    let Ok(n) = NoNul::from_bytes(s.into_bytes()) else { return Ok(()) };
    let esc = m.src.bool();
    m.note(|| format!("{} {}", if esc { "escape" } else { "unescape" }, show(&md.v)));
    if esc {
        let w = escape(n.clone());
        let want = ref_escape(&md.v);
        if w.iter().any(|b| matches!(b, b';' | b' ' | b'\r' | b'\n')) {
            return m.fail(Judge::Rule, format!("escape of {} is {}", show(&md.v), show(&w)));
        }
        let back = unescape(w.clone());
        if back != n {
            return m.fail(Judge::Value, format!("{} escapes to {} and back to {}", show(&md.v), show(&w), show(&back)));
        }
        md.v = want;
        m.put(AnyStr::Word(w), md, "escaped")
    } else {
        let u = unescape(n);
        md.v = ref_unescape(&md.v);
        m.put(AnyStr::NoNul(u), md, "unescaped")
    }
}

macro_rules! builder_ops {
($($f:ident $t:ident;)+) => {$(
fn $f(m: &mut M, init: $t<'static>, mut md: Model, k: Kind) -> R<($t<'static>, Model)>
{
    let mut b = Builder::<$t<'static>>::new(init.clone());
    md.secret = false;
    let n = m.src.range(0, 5);
    for _ in 0..n {
        let op = m.src.below(8);
        let piece = match m.src.below(3) {
            0 => raw(m.src, 8),
            _ => of_kind(m.src, k, 8),
        };
        m.note(|| format!("builder op {op} with {}", show(&piece)));
        let fine = !piece.iter().any(|x| bad_byte(k, *x));
        match op {
            0 => {
                b.append(init.clone());
                md.v.extend_from_slice(init.as_bytes());
            }
            1 => {
                let r = b.try_append(&piece);
                if r.is_ok() != fine {
                    return m.fail(Judge::Rule, format!("builder try_append({}) for {k:?}: {r:?}", show(&piece)));
                }
                if fine {
                    md.v.extend_from_slice(&piece);
                }
            }
            2 | 3 => {
                if let Ok(t) = std::str::from_utf8(&piece) {
                    let r = b.try_append_str(t);
                    if r.is_ok() != fine {
                        return m.fail(Judge::Rule, format!("builder try_append_str({t:?}) for {k:?}: {r:?}"));
                    }
                    if fine {
                        md.v.extend_from_slice(&piece);
                    }
                }
            }
            4 => {
                let c = *m.src.pick(b"aZ \0:,;=!@%\xc3\xa9\xff");
                let r = b.try_push(c);
                if r.is_ok() == bad_byte(k, c) {
                    return m.fail(Judge::Rule, format!("builder try_push({c}) for {k:?}: {r:?}"));
                }
                if r.is_ok() {
                    md.v.push(c);
                }
            }
            5 => {
                let c = *m.src.pick(&['a', 'Q', ' ', '\0', ',', 'é', '☃', '\u{1f600}', '\u{0}', '\u{80}']);
                let r = b.try_push_char(c);
                let mut t = [0u8; 4];
                let enc = c.encode_utf8(&mut t).as_bytes();
                let good = !enc.iter().any(|x| bad_byte(k, *x));
                if r.is_ok() != good {
                    return m.fail(Judge::Rule, format!("builder try_push_char({c:?}) for {k:?}: {r:?}"));
                }
                if good {
                    md.v.extend_from_slice(enc);
                }
            }
            6 => {
                let r = b.check_utf8();
                if r.is_ok() != std::str::from_utf8(&md.v).is_ok() {
                    return m.fail(Judge::Utf8, format!("builder check_utf8 of {}: {r:?}", show(&md.v)));
                }
            }
            _ => {
                b.reserve(m.src.range(0, 40));
                b.shrink_to_fit();
                if m.src.bool() {
                    b.reserve_exact(3);
                    b = b.clone();
                }
            }
        }
        if b.as_ref() != md.v.as_slice() {
            return m.fail(Judge::Value, format!("builder holds {}, expected {}", show(&b), show(&md.v)));
        }
    }
    m.note(|| "build".into());
    Ok((b.build(), md))
}
)+}}
builder_ops! { b_bytes Bytes; b_nonul NoNul; b_line Line; b_word Word; b_arg Arg; b_key Key; b_target Target; b_nick Nick; b_user User; b_cmd Cmd; }

pub fn build_ops(m: &mut M, init: AnyStr, model: Model) -> R<(AnyStr, Model)> {
    macro_rules! go {
        ($($f:ident $t:ident)+) => { match init { $(AnyStr::$t(s) => $f(m, s, model, Kind::$t).map(|(a, b)| (AnyStr::$t(a), b)),)+ } };
    }
    go!(b_bytes Bytes b_nonul NoNul b_line Line b_word Word b_arg Arg b_key Key b_target Target b_nick Nick b_user User b_cmd Cmd)
}

fn split_run<T>(
    m: &mut M,
    s: T,
    md: Model,
    rest: fn(&mut Splitter<T>, Rest) -> Result<AnyStr, InvalidString>,
) -> R
where
    T: BytesNewtype<'static> + Clone,
{
    let mut sp = Splitter::new(s);
    let mut range = (0usize, md.v.len());
    let n = m.src.range(1, 8);
    split_steps(m, &mut sp, &md, &mut range, n, 0, rest)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Rest {
    Take,
    Peek,
    OrDefault,
}

fn split_steps<T>(
    m: &mut M,
    sp: &mut Splitter<T>,
    md: &Model,
    r: &mut (usize, usize),
    n: usize,
    depth: u32,
    rest: fn(&mut Splitter<T>, Rest) -> Result<AnyStr, InvalidString>,
) -> R
where
    T: BytesNewtype<'static> + Clone,
{
    for _ in 0..n {
        let cur = md.v[r.0..r.1].to_vec();
        let op = m.src.below(16);
        m.note(|| format!("split op {op} on {}", show(&cur)));
        match op {
            0 => {
                let g = sp.peek_byte();
                let h = sp.next_byte();
                if g != cur.first().copied() || h != g {
                    return m.fail(Judge::Value, format!("next_byte of {} is {h:?}", show(&cur)));
                }
                r.0 += h.is_some() as usize;
            }
            1 => {
                let g = sp.rpeek_byte();
                let h = sp.rnext_byte();
                if g != cur.last().copied() || h != g {
                    return m.fail(Judge::Value, format!("rnext_byte of {} is {h:?}", show(&cur)));
                }
                r.1 -= h.is_some() as usize;
            }
            2 => {
                sp.consume_whitespace();
                r.0 += cur.iter().take_while(|b| matches!(b, 9 | 10 | 12 | 13 | 32)).count();
            }
            3 => {
                let k = *m.src.pick(&KINDS);
                sp.consume_invalid_k(k);
                r.0 += cur.iter().take_while(|b| bad_byte(k, **b)).count();
            }
            4 => {
                let set: Vec<u8> = (0..m.src.range(1, 3)).map(|_| *m.src.pick(b" :;=,!@%a\xc3\xa9\x98\xff")).collect();
                sp.until_byte(|b| set.contains(b));
                if let Some(i) = cur.iter().position(|b| set.contains(b)) {
                    r.1 = r.0 + i;
                }
            }
            5 => {
                let c = if cur.is_empty() || m.src.bool() {
                    *m.src.pick(b" :;=,!@%a\xc3\xa9\x98\xff")
                } else {
                    *m.src.pick(&cur)
                };
                sp.until_byte_eq(c);
                if let Some(i) = cur.iter().position(|b| *b == c) {
                    r.1 = r.0 + i;
                }
            }
            6 | 7 => {
                let c = m.src.range(0, cur.len() + 2);
                sp.until_count(c);
                r.1 = r.0 + c.min(cur.len());
            }
            8 => {
                let e = sp.check_encoding();
                let t = std::str::from_utf8(&cur);
                if e.is_ok() != t.is_ok() {
                    return m.fail(Judge::Utf8, format!("check_encoding of {} is {e:?}", show(&cur)));
                }
            }
            9 | 10 if depth < 3 => {
                let (s, e) = (m.src.bool(), m.src.bool());
                let before = *r;
                let steps = m.src.range(0, 4);
                let end = m.src.chance(1, 6);
                {
                    let mut g = if !s && e && m.src.bool() { sp.save_end() } else { sp.save(s, e) };
                    split_steps(m, &mut g, md, r, steps, depth + 1, rest)?;
                    if end {
                        std::mem::forget(g);
                    }
                }
                m.note(|| format!("restore start={s} end={e} forgotten={end}"));
                if !end {
                    if s {
                        r.0 = before.0;
                    }
                    if e {
                        r.1 = before.1;
                    }
                }
            }
            11 => {
                let how = match m.src.below(5) {
                    0 | 1 => Rest::Take,
                    2 | 3 => Rest::Peek,
                    _ => Rest::OrDefault,
                };
                let peek = how == Rest::Peek;
                let g = rest(sp, how);
                match g {
                    Ok(s) => {
                        let md = Model { v: cur.clone(), secret: md.secret };
                        m.put(s, md, "rest")?;
                        if !peek {
                            r.0 = r.1;
                        }
                    }
                    Err(e) => {
                        // Only the rules about the whole string can fail here.
                        if !(matches!(e, InvalidString::Empty) && cur.is_empty()
                            || matches!(e, InvalidString::Colon) && cur.first() == Some(&b':'))
                        {
                            return m.fail(Judge::Rule, format!("rest of {} fails with {e:?}", show(&cur)));
                        }
                    }
                }
            }
            12 if m.src.bool() => {
                let k = *m.src.pick(&[Kind::Bytes, Kind::NoNul, Kind::Line, Kind::Word]);
                let full = m.src.bool();
                let i = cur.iter().position(|b| bad_byte(k, *b)).unwrap_or(cur.len());
                // What cannot be had is neither given nor taken.
                let part = if full && i < cur.len() { &cur[..0] } else { &cur[..i] };
                let g = match k {
                    Kind::Bytes => AnyStr::Bytes(sp.string_or_default(full)),
                    Kind::NoNul => AnyStr::NoNul(sp.string_or_default(full)),
                    Kind::Line => AnyStr::Line(sp.string_or_default(full)),
                    _ => AnyStr::Word(sp.string_or_default(full)),
                };
                let secret = if part.is_empty() { g.as_bytes().is_secret() } else { md.secret };
                m.put(g, Model { v: part.to_vec(), secret }, "split off or default")?;
                r.0 += part.len();
            }
            _ => {
                let k = if m.src.chance(1, 6) { Kind::Bytes } else { *m.src.pick(&KINDS) };
                let (full, peek) = (m.src.bool(), m.src.bool());
                let i = cur.iter().position(|b| bad_byte(k, *b)).unwrap_or(cur.len());
                let part = if full { &cur[..] } else { &cur[..i] };
                let want = valid(k, part);
                let g = split_string(k, sp, full, peek);
                match g {
                    Ok(s) => {
                        if !want {
                            return m.fail(Judge::Rule, format!("{k:?} {} split off {}", show(s.as_bytes()), show(&cur)));
                        }
                        let len = part.len();
                        let md = Model { v: part.to_vec(), secret: md.secret };
                        m.put(s, md, "split off")?;
                        if !peek {
                            r.0 += len;
                        }
                    }
                    Err(e) => {
                        if want {
                            return m.fail(Judge::Value, format!("no {k:?} at the front of {}: {e:?}", show(&cur)));
                        }
                        if !truthful(k, part, &e) && !truthful(k, &part[..i], &e) {
                            return m.fail(Judge::Rule, format!("split of {k:?} off {} fails with {e:?}", show(&cur)));
                        }
                    }
                }
            }
        }
        let now = &md.v[r.0..r.1];
        if sp.as_slice() != now || sp.len() != now.len() || sp.is_empty() != now.is_empty() {
            return m.fail(
                Judge::Value,
                format!("splitter holds {}, expected {} of {}", show(sp.as_slice()), show(now), show(&md.v)),
            );
        }
        if sp.is_utf8_lazy() && std::str::from_utf8(now).is_err() {
            return m.fail(Judge::Utf8, format!("splitter believes {} is UTF-8", show(now)));
        }
        if !md.v.is_empty() && sp.is_secret() != md.secret {
            return m.fail(Judge::Secret, "splitter forgot about the secret".into());
        }
    }
    Ok(())
}

pub fn run_machine(src: &mut Src, ctx: &mut Ctx, judge: Judge, max_ops: usize) -> Result<(), String> {
    let ar = Arena::default();
    let mut m = M { src, ar: &ar, judge, pool: Vec::new(), ops: 0, labels: Vec::new(), trace: Vec::new() };
    let n = m.src.range(1, max_ops);
    let r = (|| -> R {
        for i in 0..n {
            let op = if i == 0 { 0 } else { m.src.weighted(&[4, 3, 4, 3, 2, 2, 5]) };
            match op {
                0 => new_op(&mut m)?,
                1 => convert_op(&mut m)?,
                2 => misc_op(&mut m)?,
                3 => transform_op(&mut m)?,
                4 => escape_op(&mut m)?,
                5 => {
                    if let Some((s, md)) = m.take() {
                        let k = s.kind();
                        m.note(|| format!("builder of {k:?} from {}", show(&md.v)));
                        let (s, md) = build_ops(&mut m, s, md)?;
                        m.label("builder");
                        m.put(s, md, "built")?;
                    }
                }
                _ => {
                    if let Some((s, md)) = m.take() {
                        m.note(|| format!("splitter of {:?} {}", s.kind(), show(&md.v)));
                        m.label("splitter");
                        split(&mut m, s, md)?;
                    }
                }
            }
            // Nothing done to one string may change another.
            for (s, md) in &m.pool {
                m.check(s, md, "string in the pool")?;
            }
        }
        Ok(())
    })();
    if m.ops >= 3 {
        ctx.nontrivial();
    }
    for l in &m.labels {
        ctx.label(l);
    }
    ctx.sample(|| m.trace.join("; "));
    match r {
        Err(Stop::Violation(s)) => Err(s),
        Err(Stop::Other) => {
            ctx.label("ended early");
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}

fn c04_ops(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    run_machine(src, ctx, Judge::Rule, 14)
}
fn c05_ops(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    run_machine(src, ctx, Judge::Utf8, 14)
}
fn c06_ops(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    run_machine(src, ctx, Judge::Value, 14)
}
fn c07_ops(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    run_machine(src, ctx, Judge::Secret, 14)
}

/// The same bytes through every constructor of every type: acceptance depends on the bytes alone.
fn c04_constructors(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let base = *src.pick(&KINDS);
    let mut v = match src.below(3) {
        0 => raw(src, 12),
        _ => of_kind(src, base, 12),
    };
    if src.bool() {
        let i = src.usize_below(v.len() + 1);
        let b = if src.bool() { *src.pick(b"\0\r\n :;=,!@%") } else { src.byte() };
        v.insert(i, b);
    }
    ctx.sample(|| show(&v));
    if !v.is_empty() {
        ctx.nontrivial();
    }
    for k in KINDS {
        let ok = valid(k, &v);
        if ok {
            ctx.label("accepted by some type");
        }
        for how in 0..9 {
            match construct(k, how, src, &ar, &v, &mut false) {
                None => {}
                Some(Ok(s)) => {
                    ensure!(ok, "{k:?} constructor {how} accepts {}", show(&v));
                    ensure!(s.as_bytes().as_bytes() == v, "{k:?} constructor {how} changed {}", show(&v));
                }
                Some(Err(e)) => {
                    ensure!(!ok, "{k:?} constructor {how} rejects {}: {e:?}", show(&v));
                    if let Some(e) = e {
                        ensure!(truthful(k, &v, &e), "{k:?} constructor {how} rejects {} with {e:?}", show(&v));
                    }
                }
            }
        }
        let (inv, first) = rule_of(k, &v);
        ensure!(inv.is_none() == ok, "{k:?}::find_invalid({}) = {inv:?}", show(&v));
        if let Some(e) = inv {
            ensure!(truthful(k, &v, &e), "{k:?}::find_invalid({}) = {e:?}", show(&v));
        }
        if let Some(b) = v.first() {
            ensure_eq!(first, bad_byte(k, *b), "{k:?}::is_invalid({b})");
        }
    }
    Ok(())
}

/// Names made of numbers are valid, and different for different numbers.
fn c04_ids(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let id = |src: &mut Src| match src.below(4) {
        0 => src.below(100),
        1 => u32::MAX - src.below(100),
        2 => 1 << src.below(32),
        _ => src.u64() as u32,
    };
    let (a, b) = (id(src), id(src));
    let (x, y) = (User::from_id(a), User::from_id(b));
    ensure!(valid(Kind::User, &x), "the username {} made of {a}", show(&x));
    ensure_eq!(x == y, a == b, "the usernames {} and {} made of {a} and {b}", show(&x), show(&y));
    let (c, d) = (a as u16, (b >> 16) as u16);
    let (x, y) = (User::from_id_short(c), User::from_id_short(d));
    ensure!(valid(Kind::User, &x), "the username {} made of {c}", show(&x));
    ensure_eq!(x == y, c == d, "the usernames {} and {} made of {c} and {d}", show(&x), show(&y));
    if a != b {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{a} -> {}", show(&User::from_id(a))));
    Ok(())
}

pub fn c04() -> Vec<Facet> {
    vec![
        facet("ids", 50_000, 1_000_000, c04_ids, "two different numbers"),
        facet("constructors", 2_000_000, 20_000_000, c04_constructors, "non-empty bytes"),
        facet("ops", 4_000_000, 30_000_000, c04_ops, "three or more operations"),
    ]
}

/// Handing a lazily checked string to several threads gives every one of them the same answer.
fn c05_edges(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // Strings cut in the middle of characters, at every position, through a splitter.
    let ar = Arena::default();
    let mut t = String::new();
    for _ in 0..src.range(1, 5) {
        t.push(*src.pick(&['a', ' ', 'é', '☃', '\u{1f600}', ';', '=']));
    }
    let b = match src.below(4) {
        0 => Bytes::from(t.clone()),
        1 => Bytes::from_str(std::str::from_utf8(ar.bytes(t.as_bytes())).unwrap()),
        2 => Bytes::from(t.clone().into_bytes()),
        _ => {
            let b = Bytes::from(t.clone().into_bytes());
            let _ = b.to_utf8();
            b
        }
    };
    ctx.sample(|| format!("{t:?}"));
    if !t.is_ascii() {
        ctx.nontrivial();
    }
    let v = t.as_bytes();
    for i in 0..=v.len() {
        for j in i..=v.len() {
            let mut sp = Splitter::new(b.clone());
            if src.bool() {
                let _ = sp.check_encoding();
            }
            for _ in 0..i {
                sp.next_byte();
            }
            if src.bool() {
                let _ = sp.check_encoding();
            }
            {
                let mut g = sp.save_end();
                g.until_count(j - i);
                if src.bool() {
                    let _ = g.check_encoding();
                }
                let part: Bytes = g.rest().map_err(|e| e.to_string())?;
                ensure!(part.as_bytes() == &v[i..j], "slice {i}..{j} of {t:?}");
                let truth = std::str::from_utf8(&v[i..j]);
                ensure!(
                    part.is_utf8_lazy().is_none_or(|l| l == truth.is_ok()),
                    "{} believed utf8={:?}",
                    show(&part),
                    part.is_utf8_lazy()
                );
                ensure_eq!(part.to_utf8(), truth.ok(), "to_utf8 of slice {i}..{j} of {t:?}");
            }
            let tail: Bytes = sp.rest().map_err(|e| e.to_string())?;
            let truth = std::str::from_utf8(&v[j..]);
            ensure!(
                tail.is_utf8_lazy().is_none_or(|l| l == truth.is_ok()),
                "rest {} believed utf8={:?}",
                show(&tail),
                tail.is_utf8_lazy()
            );
            ensure_eq!(tail.to_utf8(), truth.ok(), "to_utf8 of the rest from {j} of {t:?}");
        }
    }
    Ok(())
}

pub fn c05() -> Vec<Facet> {
    vec![
        facet("ops", 6_000_000, 40_000_000, c05_ops, "three or more operations"),
        facet("cuts", 300_000, 3_000_000, c05_edges, "text with a multi-byte character, cut at every pair of positions"),
    ]
}

pub fn c06() -> Vec<Facet> {
    vec![
        facet("ops", 6_000_000, 40_000_000, c06_ops, "three or more operations"),
        facet("escapes", 1_500_000, 10_000_000, c06_escapes, "value contains a byte with an escape"),
    ]
}

fn c06_escapes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let n = src.len(20);
    let v: Vec<u8> = (0..n).map(|_| *src.pick(b"\\\\; \r\n:srnax\xc3\xa9")).collect();
    let s = NoNul::from_bytes(mk(src, &ar, &v)).map_err(|e| e.to_string())?;
    ctx.sample(|| show(&v));
    if v.iter().any(|b| matches!(b, b'\\' | b';' | b' ' | 10 | 13)) {
        ctx.nontrivial();
    }
    let e = escape(s.clone());
    ensure!(e.as_bytes() == ref_escape(&v), "escape of {} is {}", show(&v), show(&e));
    ensure!(!e.iter().any(|b| matches!(b, b';' | b' ' | 10 | 13)), "escape of {} is {}", show(&v), show(&e));
    let u = unescape(e);
    ensure!(u.as_bytes() == v, "escape then unescape of {} is {}", show(&v), show(&u));
    let u = unescape(s);
    ensure!(u.as_bytes() == ref_unescape(&v), "unescape of {} is {}", show(&v), show(&u));
    // A server names its case mapping.
    let names: [(&'static [u8], &[(u8, u8)]); 3] = [
        (b"ascii", &[]),
        (b"rfc1459-strict", &[(b'[', b'{'), (b']', b'}'), (b'\\', b'|')]),
        (b"rfc1459", &[(b'[', b'{'), (b']', b'}'), (b'\\', b'|'), (b'~', b'^')]),
    ];
    let (name, extra) = names[src.below(3) as usize];
    let map = IrcCasemap::from_name(name).ok_or_else(|| format!("case mapping {} is unknown", show(name)))?;
    let byte = src.byte();
    let mut mapped = Bytes::from(vec![byte]);
    mapped.transform(map);
    let want = extra.iter().find(|(a, _)| *a == byte).map_or(byte.to_ascii_lowercase(), |(_, b)| *b);
    ensure_eq!(mapped.to_vec(), vec![want], "{} of byte {byte}", show(name));
    for b in 0..=255u8 {
        let want = ref_escape(&[b]);
        ensure_eq!(escape_byte(&b).map(|x| x.get()), want.get(1).copied(), "escape_byte({b})");
        ensure_eq!(vec![unescape_byte(&b)], ref_unescape(&[b'\\', b]), "unescape_byte({b})");
    }
    Ok(())
}

/// A secret inside messages, argument lists, tags, sources and errors.
fn c07_nested(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use vinezombie::ircmsg::*;
    let ar = Arena::default();
    // A recognisable secret that is valid everywhere.
    let mut sec = b"Qz".to_vec();
    for _ in 0..src.range(4, 10) {
        sec.push(*src.pick(b"ABCDEFGHJKLMNPRSTUVWXY"));
    }
    let mut v = sec.clone();
    let raw_utf8 = src.chance(1, 4);
    if raw_utf8 {
        v.push(0xff);
    }
    let s: Bytes<'static> = match src.below(5) {
        0 => Bytes::from_secret(v.clone()),
        1 => Bytes::from(v.clone()).secret(),
        2 => Bytes::from_bytes(ar.bytes(&v)).secret(),
        3 => SecretBuf::from(v.clone()).into_bytes(),
        _ => {
            let b = Bytes::from(v.clone());
            let c = b.clone().secret();
            drop(b);
            c
        }
    };
    let mut out: Vec<(&'static str, String)> = Vec::new();
    macro_rules! both {
        ($n:literal, $e:expr) => {{
            let x = &$e;
            out.push(($n, format!("{x:?}")));
            out.push(($n, format!("{x:#?}")));
        }};
    }
    both!("bytes", s);
    out.push(("display", s.to_string()));
    let line = Line::from_bytes(s.clone()).map_err(|e| e.to_string())?;
    let arg = Arg::from_bytes(s.clone()).map_err(|e| e.to_string())?;
    let mut m = mk_client(src, &ar);
    if src.bool() {
        m.args.edit().add_word(arg.clone());
    } else {
        m.args.edit().add(line.clone());
    }
    if src.bool() {
        let key = key(src, &ar, 6);
        m.tags.edit().insert_pair(key, NoNul::from_bytes(s.clone()).map_err(|e| e.to_string())?);
    }
    both!("client message", m);
    both!("args", m.args);
    both!("tags", m.tags);
    both!("args guard", m.args.edit());
    both!("tags guard", m.tags.edit());
    both!("owned message", m.clone().owning());
    out.push(("client message display", m.to_string()));
    out.push(("args display", m.args.to_string()));
    out.push(("tags display", m.tags.to_string()));
    let mut sm = mk_server(src, &ar);
    sm.args = m.args.clone();
    sm.tags = m.tags.clone();
    let nick = Nick::from_bytes(s.clone()).map_err(|e| e.to_string())?;
    let source = Source {
        nick: nick.clone(),
        userhost: src.bool().then(|| UserHost {
            user: Some(User::from_bytes(s.clone()).unwrap()),
            host: Word::from_bytes(s.clone()).unwrap(),
        }),
    };
    both!("source", source);
    out.push(("source display", source.to_string()));
    if let Some(u) = &source.userhost {
        out.push(("userhost display", u.to_string()));
        both!("userhost", u);
    }
    sm.source = Some(SharedSource::new(source));
    both!("server message", sm);
    out.push(("server message display", sm.to_string()));
    both!("owned server message", sm.owning());
    // Parsed from a secret line.
    let mut l = b"@a=".to_vec();
    l.extend_from_slice(&v);
    l.extend_from_slice(b";b=x\\s");
    l.extend_from_slice(&v);
    l.extend_from_slice(b" :");
    l.extend_from_slice(&v);
    l.extend_from_slice(b"!u@h PRIVMSG ");
    l.extend_from_slice(&v);
    l.extend_from_slice(b" :x ");
    l.extend_from_slice(&v);
    let l = Line::from_secret(l).map_err(|e| e.to_string())?;
    let p = ServerMsg::parse(l.clone()).map_err(|e| e.to_string())?;
    both!("parsed", p);
    out.push(("parsed display", p.to_string()));
    both!("splitter", Splitter::new(l));
    for a in p.args.words() {
        ensure!(a.is_secret(), "argument parsed from a secret line is not secret");
    }
    // Derived strings.
    let mut low = s.clone();
    low.transform(AsciiCasemap::<false>);
    ensure!(low.is_secret(), "case-mapped secret is not secret");
    let b64 = s.to_base64();
    ensure!(b64.is_secret() && s.to_base64_plus().is_secret(), "base64 of a secret is not secret");
    both!("base64", b64);
    let enc = vinezombie::string::base64::ChunkEncoder::new(&v, src.range(1, 9), true);
    for c in enc {
        ensure!(c.is_secret(), "chunk of a secret is not secret");
        out.push(("chunk", format!("{c:?} {c}")));
    }
    ensure!(s.clone().into_utf8_lossy().is_secret(), "lossy text of a secret is not secret");
    ensure!(escape(NoNul::from_bytes(s.clone()).unwrap()).is_secret(), "escaped secret is not secret");
    ensure!(s.clone().owning().is_secret() && s.clone().is_secret(), "owned or cloned secret is not secret");
    both!("option", Some(&s));
    both!("vec", vec![s.clone()]);
    let b64s = b64.to_vec();
    ctx.sample(|| out.last().map(|x| x.1.clone()).unwrap_or_default());
    ctx.nontrivial();
    for (n, o) in &out {
        ensure!(
            !leaks(o, &sec) && !leaks(o, &sec.to_ascii_lowercase()) && !leaks(o, &b64s),
            "{n} shows the secret {}: {o}",
            show(&sec)
        );
    }
    // A string that is not secret stays readable.
    let plain = Bytes::from(sec.clone());
    let d = plain.to_string();
    ensure_eq!(d.as_bytes(), sec.as_slice(), "display of a plain string");
    ensure!(leaks(&format!("{plain:?}"), &sec), "debug of a plain string hides it: {plain:?}");
    Ok(())
}

pub fn c07() -> Vec<Facet> {
    vec![
        facet("ops", 3_000_000, 30_000_000, c07_ops, "three or more operations"),
        facet("nested", 40_000, 4_000_000, c07_nested, "every case carries a secret of at least six bytes"),
        facet("credentials", 20_000, 300_000, super::credentials::c07_credentials, "a password is configured"),
    ]
}
