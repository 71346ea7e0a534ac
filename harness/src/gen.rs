//! Shared generators and the reference rules of the string types.

use crate::engine::Src;
use std::cell::RefCell;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

/// Hands out slices that live as long as the arena. They claim to be `'static` so that messages
/// built from them can be compared with owned ones; every case declares its arena first, so it is
/// dropped last.
#[derive(Default)]
pub struct Arena(RefCell<Vec<*mut [u8]>>, RefCell<Vec<Bytes<'static>>>);
impl Arena {
    pub fn bytes(&self, v: &[u8]) -> &'static [u8] {
        let b: Box<[u8]> = v.into();
        let p = Box::into_raw(b);
        self.0.borrow_mut().push(p);
        // Freed when the arena is dropped, not before.
        unsafe { &*p }
    }
    pub fn keep(&self, b: Bytes<'static>) {
        self.1.borrow_mut().push(b);
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        self.1.borrow_mut().clear();
        for p in self.0.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    Bytes,
    NoNul,
    Line,
    Word,
    Arg,
    Key,
    Target,
    Nick,
    User,
    Cmd,
}
pub const KINDS: [Kind; 9] = [
    Kind::NoNul,
    Kind::Line,
    Kind::Word,
    Kind::Arg,
    Kind::Key,
    Kind::Target,
    Kind::Nick,
    Kind::User,
    Kind::Cmd,
];

/// Is `b` forbidden anywhere in a string of this kind?
pub fn bad_byte(k: Kind, b: u8) -> bool {
    match k {
        Kind::Bytes => false,
        Kind::NoNul => b == 0,
        Kind::Line => matches!(b, 0 | 10 | 13),
        Kind::Word | Kind::Arg => matches!(b, 0 | 10 | 13 | 32),
        Kind::Key => matches!(b, 0 | 10 | 13 | 32 | b'=' | b';'),
        Kind::Target => matches!(b, 0 | 10 | 13 | 32 | b','),
        Kind::Nick => matches!(b, 0 | 10 | 13 | 32 | b',' | b'!' | b'@'),
        Kind::User => matches!(b, 0 | 10 | 13 | 32 | b'@' | b'%'),
        Kind::Cmd => !b.is_ascii_uppercase(),
    }
}
pub fn needs_first(k: Kind) -> bool {
    !matches!(k, Kind::Bytes | Kind::NoNul | Kind::Line | Kind::Word)
}
/// The documented rule of each kind, written independently of the library.
pub fn valid(k: Kind, s: &[u8]) -> bool {
    if needs_first(k) && (s.is_empty() || s[0] == b':') {
        return false;
    }
    !s.iter().any(|b| bad_byte(k, *b))
}

const PIECES: &[&[u8]] = &[
    b"a", b"b", b"Z", b"0", b"7", b" ", b"  ", b":", b";", b"=", b",", b"!", b"@", b"%", b"\\",
    b"\t", b"\x0b", b"\x0c", b"\x01", b"~", b"^", b"[", b"]", b"{", b"}", b"|", b"+", b"-", b"*",
    b"/", b".", b"#", b"&", b"_", "\u{e9}".as_bytes(), "\u{2603}".as_bytes(), "\u{1f600}".as_bytes(),
    b"\x80", b"\xc3", b"\xff", b"\xe2\x98", b"\r", b"\n", b"\r\n", b"\0", b"\\s", b"\\:", b"\\\\",
    b"foo", b"BAR", b"12", b"001",
];

/// Arbitrary bytes, rich in the bytes the protocol gives meaning to.
pub fn raw(src: &mut Src, max: usize) -> Vec<u8> {
    let n = src.len(max);
    let mut v = Vec::new();
    let style = src.below(6);
    for _ in 0..n {
        match style {
            0..=2 => v.extend_from_slice(src.pick(PIECES)),
            3 => v.push(src.byte()),
            4 => v.push(*src.pick(b"abcxyzABC019")),
            _ => {
                if src.chance(1, 3) {
                    v.push(src.byte())
                } else {
                    v.extend_from_slice(src.pick(PIECES))
                }
            }
        }
        if v.len() >= max {
            break;
        }
    }
    v.truncate(max);
    v
}

/// Valid UTF-8, rich in special bytes.
pub fn utf8(src: &mut Src, max: usize) -> String {
    let n = src.len(max);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 8) {
            let c = char::from_u32(src.below(0x11_0000)).unwrap_or('\u{fffd}');
            s.push(c);
        } else if let Ok(p) = std::str::from_utf8(src.pick(PIECES)) {
            s.push_str(p);
        }
        if s.len() >= max {
            break;
        }
    }
    s
}

/// A valid string of kind `k`, with no more than `max` bytes.
pub fn of_kind(src: &mut Src, k: Kind, max: usize) -> Vec<u8> {
    if k == Kind::Cmd {
        let n = src.range(1, max.clamp(1, 9));
        return (0..n).map(|_| *src.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ")).collect();
    }
    let mut v = if src.chance(1, 3) { utf8(src, max).into_bytes() } else { raw(src, max) };
    v.retain(|b| !bad_byte(k, *b));
    if needs_first(k) {
        while v.first() == Some(&b':') {
            v.remove(0);
        }
        if v.is_empty() {
            v.push(*src.pick(b"nxk#+*~"));
        }
        if bad_byte(k, v[0]) {
            v[0] = b'n';
        }
    }
    v.truncate(max.max(1));
    v
}

/// A byte string with the given contents, built in one of the ways the library offers.
pub fn mk(src: &mut Src, ar: &Arena, v: &[u8]) -> Bytes<'static> {
    mk_known(src, ar, v).0
}

/// The same, and whether it was made as a secret.
pub fn mk_known(src: &mut Src, ar: &Arena, v: &[u8]) -> (Bytes<'static>, bool) {
    let is_utf8 = std::str::from_utf8(v).is_ok();
    let way = src.below(9);
    let b = match way {
        0 => Bytes::from(v.to_vec()),
        1 => Bytes::from_bytes(ar.bytes(v)),
        2 if is_utf8 => Bytes::from_str(std::str::from_utf8(ar.bytes(v)).unwrap()),
        3 if is_utf8 => Bytes::from(String::from_utf8(v.to_vec()).unwrap()),
        4 => {
            let (pre, post) = (src.range(0, 3), src.range(0, 3));
            let mut big = vec![b'<'; pre];
            big.extend_from_slice(v);
            big.extend(std::iter::repeat(b'>').take(post));
            let b = Bytes::from(big);
            if src.bool() {
                ar.keep(b.clone());
            }
            let mut sp = Splitter::new(b);
            for _ in 0..pre {
                sp.next_byte();
            }
            sp.until_count(v.len());
            sp.rest::<Bytes>().unwrap()
        }
        5 => {
            let b = Bytes::from(v.to_vec());
            ar.keep(b.clone());
            b
        }
        6 => Bytes::from_secret(v.to_vec()),
        7 => {
            let b = Bytes::from_bytes(ar.bytes(v));
            let _ = b.to_utf8();
            b
        }
        _ => {
            let mut vv = Vec::with_capacity(v.len() + src.range(0, 16));
            vv.extend_from_slice(v);
            Bytes::from(vv)
        }
    };
    (b, way == 6)
}

macro_rules! mk_kind {
    ($($f:ident $t:ident;)+) => {
        $(pub fn $f(src: &mut Src, ar: &Arena, max: usize) -> $t<'static> {
            let v = of_kind(src, Kind::$t, max);
            let b = mk(src, ar, &v);
            match $t::from_bytes(b) {
                Ok(x) => x,
                Err(e) => panic!("valid {:?} {v:?} rejected: {e:?}", stringify!($t)),
            }
        })+
    }
}
mk_kind! {
    nonul NoNul; line Line; word Word; arg Arg; key Key; target Target; nick Nick; user User; cmd Cmd;
}

/// How many of something: a few, and now and then far more than usual.
pub fn many(src: &mut Src, max: usize) -> usize {
    if !cfg!(miri) && src.chance(1, 120) {
        return src.range(0, 16 * max);
    }
    src.len(max)
}

pub fn mk_tags(src: &mut Src, ar: &Arena, maxn: usize) -> Tags<'static> {
    let mut t = Tags::new();
    let n = many(src, maxn);
    if n > 0 {
        let mut e = t.edit();
        for _ in 0..n {
            let k = key(src, ar, 12);
            if src.chance(1, 4) {
                e.insert_key(k);
            } else {
                let v = nonul(src, ar, 24);
                e.insert_pair(k, v);
            }
        }
    }
    t
}

/// A source; the host is never empty unless `empty_host` (a listed finding, see known_findings).
pub fn mk_source(src: &mut Src, ar: &Arena) -> Source<'static> {
    let nick = nick(src, ar, 12);
    match src.below(4) {
        0 => Source::new_server(nick),
        k => {
            let mut host = word(src, ar, 16);
            if host.is_empty() {
                host = Word::from_str("h");
            }
            let userhost = if k == 1 {
                UserHost { user: None, host }
            } else {
                UserHost { user: Some(user(src, ar, 10)), host }
            };
            Source { nick, userhost: Some(userhost) }
        }
    }
}

pub fn mk_args(src: &mut Src, ar: &Arena, maxn: usize) -> Args<'static> {
    let n = many(src, maxn);
    let mut a = Args::empty();
    match src.below(3) {
        0 => {
            let words: Vec<Arg> = (0..n).map(|_| arg(src, ar, 16)).collect();
            let last = src.bool().then(|| line(src, ar, 40));
            Args::new(words, last)
        }
        1 => {
            let words: Vec<Arg> = (0..n).map(|_| arg(src, ar, 16)).collect();
            let last = src.bool().then(|| line(src, ar, 40));
            a.set(words, last);
            a
        }
        _ => {
            let mut e = a.edit();
            for _ in 0..n {
                match src.below(3) {
                    0 => e.add_word(arg(src, ar, 16)),
                    1 => {
                        e.add(line(src, ar, 24));
                    }
                    _ => e.add_before_last(arg(src, ar, 16)),
                }
            }
            drop(e);
            a
        }
    }
}

pub fn mk_client(src: &mut Src, ar: &Arena) -> ClientMsg<'static> {
    let mut m = ClientMsg::new_cmd(cmd(src, ar, 9));
    m.tags = mk_tags(src, ar, 6);
    m.args = mk_args(src, ar, 8);
    m
}

pub fn mk_server(src: &mut Src, ar: &Arena) -> ServerMsg<'static> {
    let mut m = ServerMsg::new_cmd(cmd(src, ar, 9));
    if src.bool() {
        m.kind = Numeric::from_int(src.below(1000) as u16).unwrap().into();
    }
    m.tags = mk_tags(src, ar, 6);
    if src.bool() {
        m.source = Some(SharedSource::new(mk_source(src, ar)));
    }
    m.args = mk_args(src, ar, 8);
    m
}

pub fn show(b: &[u8]) -> String {
    if cfg!(miri) {
        // Formatting is slow there, and the case can be replayed natively.
        return format!("<{} bytes>", b.len());
    }
    format!("\"{}\"", b.escape_ascii())
}

/// Reference CTL: written form of a message, from its parts.
pub struct RefMsg {
    pub tags: Vec<(Vec<u8>, Vec<u8>)>,
    pub source: Option<RefSource>,
    pub kind: Vec<u8>,
    pub args: Vec<Vec<u8>>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RefSource {
    pub nick: Vec<u8>,
    pub user: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
}

pub fn ref_unescape(v: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut it = v.iter();
    while let Some(b) = it.next() {
        if *b != b'\\' {
            out.push(*b);
            continue;
        }
        match it.next() {
            Some(b':') => out.push(b';'),
            Some(b's') => out.push(b' '),
            Some(b'r') => out.push(b'\r'),
            Some(b'n') => out.push(b'\n'),
            Some(x) => out.push(*x),
            None => {}
        }
    }
    out
}
pub fn ref_escape(v: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for b in v {
        match b {
            b';' => out.extend_from_slice(b"\\:"),
            b' ' => out.extend_from_slice(b"\\s"),
            b'\r' => out.extend_from_slice(b"\\r"),
            b'\n' => out.extend_from_slice(b"\\n"),
            b'\\' => out.extend_from_slice(b"\\\\"),
            x => out.push(*x),
        }
    }
    out
}

pub fn src_of(s: &Source) -> RefSource {
    RefSource {
        nick: s.nick.to_vec(),
        user: s.user().map(|u| u.to_vec()),
        host: s.host().map(|h| h.to_vec()),
    }
}
pub fn args_of(a: &Args) -> Vec<Vec<u8>> {
    let (w, l) = a.split_last();
    w.iter().map(|x| x.to_vec()).chain(l.map(|x| x.to_vec())).collect()
}
