//! C21: CTCP texts and typed views of messages.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use vinezombie::ircmsg::*;
use vinezombie::names::{cmd::*, ClientMsgKind, NameValued, ServerMsgKind};
use vinezombie::string::*;

/// Text rich in delimiters, spaces and letters.
pub fn text(src: &mut Src, ar: &Arena) -> Vec<u8> {
    match src.below(6) {
        0 => of_kind(src, Kind::Line, 24),
        1 => {
            let mut v = vec![1];
            v.extend(of_kind(src, Kind::Line, 24));
            v
        }
        _ => {
            const P: &[&[u8]] = &[
                b"\x01", b"\x01", b" ", b" ", b"version", b"VERSION", b"AcTioN", b"ping", b"x", b"\t", b":", b"\xff",
                "\u{e9}".as_bytes(), b"z{", b"1 2",
            ];
            let mut v = Vec::new();
            if src.chance(4, 5) {
                v.push(1);
            }
            for _ in 0..src.range(0, 7) {
                v.extend_from_slice(src.pick(P));
            }
            v
        }
    }
}
pub fn reference(t: &[u8]) -> (Vec<u8>, Vec<u8>) {
    if t.first() == Some(&1) {
        let inner = &t[1..];
        let inner = &inner[..inner.iter().position(|b| *b == 1).unwrap_or(inner.len())];
        let sp = inner.iter().position(|b| *b == b' ').unwrap_or(inner.len());
        let cmd = inner[..sp].to_ascii_uppercase();
        if !cmd.is_empty() {
            return (cmd, inner.get(sp + 1..).unwrap_or(&[]).to_vec());
        }
    }
    (Vec::new(), t.to_vec())
}

fn parse(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let t = text(src, &ar);
    let line = Line::from_bytes(mk(src, &ar, &t)).unwrap();
    let secret = line.is_secret();
    let (cmd, body) = reference(&t);
    let m = if src.bool() { MaybeCtcp::parse(line) } else { line.into() };
    ensure_eq!((show(&m.cmd), show(&m.body)), (show(&cmd), show(&body)), "reading {} as CTCP", show(&t));
    ensure_eq!(m.is_ctcp(), !cmd.is_empty(), "is_ctcp for {}", show(&t));
    ensure_eq!(m.is_empty(), t.is_empty() || cmd.is_empty() && body.is_empty(), "is_empty for {}", show(&t));
    ensure!(!secret || t.is_empty() || m.body.is_empty() || m.body.is_secret(), "body of a secret text is not secret");
    let len = m.len();
    // Written out and read again, it is the same unless there is nothing to tell it is CTCP by.
    let out: Line = if src.bool() { m.clone().into_line() } else { m.clone().into() };
    ensure_eq!(len, out.len(), "length of {} written", show(&t));
    let again = MaybeCtcp::parse(out.clone());
    ensure_eq!(again, m, "writing {} as {} and reading it again", show(&t), show(&out));
    if m.is_ctcp() {
        let mut want = vec![1];
        want.extend_from_slice(&cmd);
        want.push(b' ');
        want.extend_from_slice(&body);
        want.push(1);
        ensure_eq!(show(&out), show(&want), "CTCP written");
        ctx.label("ctcp");
    } else {
        ensure_eq!(show(&out), show(&t), "plain text written");
    }
    if t.contains(&1) {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} -> {} / {}", show(&t), show(&cmd), show(&body)));
    Ok(())
}

fn build(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let strip = |v: Vec<u8>| v.into_iter().filter(|b| *b != 1).collect::<Vec<u8>>();
    let cmd = strip(of_kind(src, Kind::Word, 10)).to_ascii_uppercase();
    let body = strip(of_kind(src, Kind::Line, 30));
    let m = MaybeCtcp {
        cmd: Word::from_bytes(mk(src, &ar, &cmd)).unwrap(),
        body: Line::from_bytes(mk(src, &ar, &body)).unwrap(),
    };
    ensure_eq!(m.is_ctcp(), !cmd.is_empty(), "is_ctcp");
    ensure_eq!(m.is_empty(), cmd.is_empty() && body.is_empty(), "is_empty");
    let out = m.clone().into_line();
    ensure_eq!(out.len(), m.len(), "reported length");
    let again = MaybeCtcp::parse(out.clone());
    ensure_eq!((show(&again.cmd), show(&again.body)), (show(&cmd), show(&body)), "{} read", show(&out));
    // In a message, too.
    let mut msg = ClientMsg::new(PRIVMSG);
    msg.args.edit().add_word(Arg::from_str("x"));
    msg.args.edit().add(out.clone());
    let mut w = Vec::new();
    let _ = ClientCodec::write_to(&msg, &mut w);
    let msg = ClientMsg::parse(w).map_err(|e| e.to_string())?;
    let view = <PRIVMSG as NameValued<ClientMsgKind>>::from_union(&msg).map_err(|e| e.to_string())?;
    let view = view.map(MaybeCtcp::parse);
    ensure_eq!((show(&view.value.cmd), show(&view.value.body)), (show(&cmd), show(&body)), "read from a message");
    // Mapping touches the body only.
    let n = m.body.len();
    ensure_eq!(m.clone().map(|b| b.len()), MaybeCtcp { cmd: m.cmd.clone(), body: n }, "map");
    ensure_eq!(
        m.clone().map_result(|b| if n % 2 == 0 { Ok(b.len()) } else { Err(n) }),
        if n % 2 == 0 { Ok(MaybeCtcp { cmd: m.cmd.clone(), body: n }) } else { Err(n) },
        "map_result"
    );
    let parts: Vec<_> = m.clone().map_iter(|b| b.to_vec()).collect();
    ensure_eq!(parts.len(), n, "map_iter items");
    for (p, b) in parts.iter().zip(&body) {
        ensure!(p.cmd == m.cmd && p.body == *b, "map_iter item {p:?}");
    }
    if !cmd.is_empty() {
        ctx.nontrivial();
    }
    ctx.sample(|| show(&out));
    Ok(())
}

macro_rules! views {
    ($src:ident, $args:expr, $msg:ident, $class:ty, $source:expr, $i:expr, $($k:tt $name:ident $words:literal;)+) => {
        match $i {
            $($k => {
                let r = <$name as NameValued<$class>>::from_union(&$msg);
                ensure!($msg.parse_as($name).ok().as_ref() == r.as_ref().ok(), "parse_as of {}", $msg);
                if let Err(e) = &r {
                    ensure!(e.to_string().contains(stringify!($name)), "the error for {} does not name it: {e}", $msg);
                }
                let list = $args;
                let ok = list.len() == $words + 1;
                ensure_eq!(r.is_ok(), ok, "typed view of {} with arguments {:?}", stringify!($name), list.iter().map(|a| show(a)).collect::<Vec<_>>());
                if let Ok(v) = r {
                    let target = if $words == 0 { b"*".to_vec() } else { list[0].clone() };
                    ensure_eq!(show(&v.target), show(&target), "target of {}", $msg);
                    ensure_eq!(show(&v.value), show(list.last().unwrap()), "text of {}", $msg);
                    ensure!(v.tags == $msg.tags, "tags of {}", $msg);
                    ensure!(v.source.as_deref() == $source, "source of {}", $msg);
                    let n = v.value.len();
                    let u = v.clone().map(|x| x.len());
                    ensure!(u.value == n && u.target == v.target && u.tags == v.tags && u.source == v.source, "map");
                    let e = v.clone().map_result(|x| if n % 2 == 0 { Ok(x) } else { Err(n) });
                    ensure_eq!(e, if n % 2 == 0 { Ok(v.clone()) } else { Err(n) }, "map_result");
                    let it: Vec<_> = v.clone().map_iter(|x| x.to_vec()).collect();
                    ensure_eq!(it.len(), n, "map_iter items");
                    ensure!(it.iter().zip(v.value.as_bytes()).all(|(a, b)| a.value == *b && a.target == v.target && a.tags == v.tags && a.source == v.source), "map_iter");
                }
                ok
            })+
            _ => unreachable!()
        }
    };
}

fn typed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let i = src.below(7);
    let ok;
    if src.bool() {
        let mut m = mk_server(src, &ar);
        if src.chance(2, 3) {
            m.args = mk_args(src, &ar, 2);
        }
        let list = args_of(&m.args);
        if i == 6 {
            let r = <JOIN as NameValued<ServerMsgKind>>::from_union(&m);
            ensure!(m.parse_as(JOIN).ok().as_ref() == r.as_ref().ok(), "parse_as of {m}");
            if let Err(e) = &r {
                ensure!(e.to_string().contains("JOIN"), "the error for {m} does not name it: {e}");
            }
            ok = list.len() == 1 && valid(Kind::Arg, &list[0]);
            // A lone argument written with a colon may or may not count as a word.
            if list.len() != 1 || ok && !m.args.is_last_long() {
                ensure_eq!(r.is_ok(), ok, "typed view of JOIN with {:?}", list);
            }
            if let Ok(v) = r {
                ensure_eq!(show(&v.target), show(&list[0]), "target of {m}");
                ensure!(v.tags == m.tags && v.source == m.source, "tags or source of {m}");
            }
        } else {
            ok = views!(src, list.clone(), m, ServerMsgKind, m.source.as_deref(), i, 0 NOTICE 1; 1 PART 1; 2 PRIVMSG 1; 3 QUIT 0; 4 TOPIC 1; 5 WALLOPS 0;);
        }
        ctx.sample(|| m.to_string());
    } else {
        let i = i % 6;
        let mut m = mk_client(src, &ar);
        if src.chance(2, 3) {
            m.args = mk_args(src, &ar, 2);
        }
        let list = args_of(&m.args);
        ok = views!(src, list.clone(), m, ClientMsgKind, None::<&Source<'static>>, i, 0 NOTICE 1; 1 PART 1; 2 PRIVMSG 1; 3 QUIT 0; 4 TOPIC 1; 5 WALLOPS 0;);
        ctx.sample(|| m.to_string());
    }
    if ok {
        ctx.nontrivial();
    }
    Ok(())
}

/// Whether a kind of server message is an error, as documented and as the numerics are assigned.
fn kinds(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let (kind, want): (ServerMsgKindRaw<'static>, Option<bool>) = if src.chance(2, 3) {
        let n = match src.below(3) {
            0 => src.below(1000),
            1 => *src.pick(&[399, 400, 568, 569, 670, 671, 672, 690, 691, 692, 696, 704, 705, 706, 707, 723, 724]),
            _ => src.range(730, 920) as u32,
        } as u16;
        let want = match n {
            0..=399 => Some(false),
            400..=568 => Some(true),
            670 | 671 | 704..=706 | 740 | 741 | 900 | 901 | 903 | 908 => Some(false),
            691 | 696 | 723 | 902 | 904..=907 => Some(true),
            _ => None,
        };
        let n = Numeric::from_int(n).ok_or("a numeric below 1000 is refused")?;
        ensure_eq!(n.is_error(), want, "whether {n} is an error");
        (n.into(), want)
    } else {
        let c = match src.below(3) {
            0 => cmd(src, &ar, 8),
            1 => Cmd::from_str(src.pick(&["FAIL", "ERROR"])),
            _ => Cmd::from_str(src.pick(&["FAILS", "FAI", "ERRO", "ERRORS", "ERR", "WARN", "NOTE", "NOTICE", "KILL"])),
        };
        let want = Some(matches!(&c[..], b"FAIL" | b"ERROR"));
        (c.into(), want)
    };
    ctx.sample(|| format!("{kind:?}"));
    if want != Some(false) {
        ctx.nontrivial();
    }
    ensure_eq!(kind.is_error(), want, "whether {kind:?} is an error");
    ensure_eq!(kind.len(), kind.as_str().len(), "length of {kind:?}");
    ensure_eq!(kind.as_arg().to_utf8().as_deref(), Some(kind.as_str()), "{kind:?} as an argument");
    Ok(())
}

fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn any_kind(src: &mut Src, ar: &Arena) -> ServerMsgKindRaw<'static> {
    match src.below(4) {
        0 => Numeric::from_int(src.below(1000) as u16).unwrap().into(),
        1 => Numeric::from_int(src.below(4) as u16).unwrap().into(),
        2 => Cmd::from_str(src.pick(&["A", "B", "AB", "PRIVMSG", "PRIVMS", "PRIVMSGS", "NOTICE", "JOIN"])).into(),
        _ => cmd(src, ar, 3).into(),
    }
}
/// Kinds are equal exactly when they are written the same, whatever they are compared with.
fn equality(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::borrow::Borrow;
    let ar = Arena::default();
    let a = any_kind(src, &ar);
    let b = match src.below(3) {
        0 => a.clone(),
        1 => {
            // The same with the case of letters changed, or one byte more or less.
            let mut t = a.as_str().to_string();
            match src.below(4) {
                0 => t.make_ascii_lowercase(),
                1 => t.make_ascii_uppercase(),
                2 if t.len() > 1 => drop(t.pop()),
                _ => t.push('A'),
            }
            match Numeric::from_bytes(t.as_bytes()) {
                Some(n) => n.into(),
                None => Cmd::from_bytes(t).map(ServerMsgKindRaw::from).unwrap_or_else(|_| a.clone()),
            }
        }
        _ => any_kind(src, &ar),
    };
    let b = if src.bool() { b.owning() } else { b };
    let (x, y) = (a.as_str(), b.as_str());
    let eq = x == y;
    ctx.sample(|| format!("{x} {y}"));
    if x.eq_ignore_ascii_case(y) || x.starts_with(y) || y.starts_with(x) {
        ctx.nontrivial();
    }
    ensure_eq!(a == b, eq, "{x} and {y} as kinds");
    ensure_eq!(a.cmp(&b), x.cmp(y), "order of {x} and {y}");
    ensure_eq!(a == *y, eq, "{x} and the text {y}");
    ensure_eq!(a == y, eq, "{x} and the referenced text {y}");
    ensure_eq!(a == *y.as_bytes(), eq, "{x} and the bytes {y}");
    ensure_eq!(a == y.as_bytes(), eq, "{x} and the referenced bytes {y}");
    for t in [y.to_ascii_lowercase(), format!("{y} "), format!("0{y}")] {
        let (t, eq) = (t.as_str(), t.as_bytes() == x.as_bytes());
        let got = (a == *t, a == t, a == *t.as_bytes(), a == t.as_bytes());
        ensure_eq!(got, (eq, eq, eq, eq), "{x} and the text {t:?}");
    }
    let raw: &[u8] = a.borrow();
    ensure_eq!(raw, x.as_bytes(), "{x} borrowed as bytes");
    ensure_eq!(hash_of(&a), hash_of(raw), "hash of {x} and of its bytes");
    ensure!(!eq || hash_of(&a) == hash_of(&b), "hashes of equal kinds {x} and {y}");
    match &b {
        ServerMsgKindRaw::Numeric(n) => {
            ensure_eq!(a == *n, eq, "{x} and the number {y}");
            ensure_eq!(n.to_string(), y, "{y} displayed");
            ensure_eq!(Numeric::from_bytes(y.as_bytes()), Some(*n), "{y} read back");
            let i: u16 = y.parse().unwrap();
            ensure_eq!(u16::from(*n), i, "{y} as an integer");
            ensure_eq!(Numeric::try_from(i).ok(), Some(*n), "{y} from an integer");
        }
        ServerMsgKindRaw::Cmd(c) => ensure_eq!(a == *c, eq, "{x} and the command {y}"),
    }
    let i = src.below(70_000).min(65_535) as u16;
    ensure_eq!(Numeric::try_from(i).is_ok(), i < 1000, "{i} as a numeric");
    Ok(())
}

/// The names of the library stand for what they are named for.
fn names(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::borrow::Borrow;
    use vinezombie::names::{cap, cmd, isupport, Cap, ISupport, Name};
    let ar = Arena::default();
    let other = any_kind(src, &ar);
    ctx.nontrivial();
    ctx.sample(|| other.as_str().to_string());
    macro_rules! text {
        ($name:expr, $t:expr, $as:ident, $assoc:expr, $ty:ident) => {{
            let t = $t;
            let v: &$ty<'static> = $name.$as();
            let b: &$ty<'static> = $name.borrow();
            ensure!(&v[..] == t.as_bytes() && b == v && $assoc == *v, "{t} stands for {v}");
            ensure!($ty::from($name) == *v && $name == *v && *v == $name, "{t} is not itself");
            ensure_eq!(hash_of(&$name), hash_of(v), "hash of {t}");
            if let Ok(o) = $ty::from_bytes(other.as_str().to_string()) {
                ensure_eq!($name == o, o == *t, "{t} and {o}");
                ensure_eq!(o == $name, o == *t, "{o} and {t}");
            }
        }};
    }
    macro_rules! cmds {
        ($($n:ident)+) => {$({
            text!(cmd::$n, stringify!($n), as_cmd, cmd::$n::CMD, Cmd);
            ensure_eq!(cmd::$n.to_string(), stringify!($n), "name displayed");
        })+};
    }
    macro_rules! client {
        ($($n:ident)+) => {$({
            ensure_eq!(Name::<ClientMsgKind>::as_raw(&cmd::$n).as_str(), stringify!($n), "client message kind");
        })+};
    }
    macro_rules! server {
        ($($n:ident)+) => {$({
            let k: &ServerMsgKindRaw<'static> = cmd::$n.as_kind();
            let t = stringify!($n);
            let b: &ServerMsgKindRaw<'static> = cmd::$n.borrow();
            ensure_eq!(k.as_str(), t, "server message kind");
            ensure!(k == Name::<ServerMsgKind>::as_raw(&cmd::$n) && b == k && *k == cmd::$n::KIND, "{t} is not one kind");
            ensure!(ServerMsgKindRaw::from(cmd::$n) == *k, "{t} converted");
            ensure_eq!(cmd::$n == other, other.as_str() == t, "{t} and {}", other.as_str());
            ensure_eq!(other == cmd::$n, other.as_str() == t, "{} and {t}", other.as_str());
        })+};
    }
    cmds! { ACCEPT ADMIN CHALLENGE CHATHISTORY HELP INFO KILL KNOCK LINKS LIST LUSERS MONITOR MAP MOTD NAMES OPER PASS STATS TIME USER USERHOST VERSION WEBIRC WHO WHOIS WHOWAS
        ACCOUNT CHGHOST ERROR FAIL NOTE WARN
        AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS }
    client! { ACCEPT ADMIN CHALLENGE CHATHISTORY HELP INFO KILL KNOCK LINKS LIST LUSERS MONITOR MAP MOTD NAMES OPER PASS STATS TIME USER USERHOST VERSION WEBIRC WHO WHOIS WHOWAS
        AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS }
    server! { ACCOUNT CHGHOST ERROR FAIL NOTE WARN
        AUTHENTICATE AWAY BATCH CAP INVITE JOIN KICK MODE NICK NOTICE PART PING PONG PRIVMSG QUIT REGISTER SETNAME TAGMSG TOPIC VERIFY WALLOPS }
    macro_rules! caps {
        ($($n:ident $t:literal;)+) => {$({
            text!(cap::$n, $t, as_key, cap::$n::NAME, Key);
            ensure_eq!(&Name::<Cap>::as_raw(&cap::$n)[..], $t.as_bytes(), "capability");
        })+};
    }
    caps! { ACCOUNT_NOTIFY "account-notify"; ACCOUNT_TAG "account-tag"; BATCH "batch"; CHGHOST "chghost"; ECHO_MESSAGE "echo-message";
        EXTENDED_JOIN "extended-join"; EXTENDED_MONITOR "extended-monitor"; INVITE_NOTIFY "invite-notify"; LABELED_RESPONSE "labeled-response";
        MESSAGE_TAGS "message-tags"; MSGID "msgid"; MULTI_PREFIX "multi-prefix"; SASL "sasl"; SERVER_TIME "server-time"; SETNAME "setname";
        STANDARD_REPLIES "standard-replies"; STS "sts"; USERHOST_IN_NAMES "userhost-in-names"; }
    macro_rules! tokens {
        ($($n:ident)+) => {$({
            text!(isupport::$n, stringify!($n), as_key, isupport::$n::NAME, Key);
            ensure_eq!(&Name::<ISupport>::as_raw(&isupport::$n)[..], stringify!($n).as_bytes(), "token");
            ensure_eq!(isupport::$n.to_string(), stringify!($n), "token displayed");
        })+};
    }
    tokens! { ETRACE KNOCK SAFELIST UTF8ONLY WHOX AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN MONITOR SILENCE BOT CALLERID EXCEPTS INVEX NETWORK CHANMODES PREFIX USERMODES }
    Ok(())
}

pub fn c21() -> Vec<Facet> {
    vec![
        facet("equality", 60_000, 1_000_000, equality, "the two differ in case or length only, or not at all"),
        facet("names", 1_500, 20_000, names, "every case goes through all names"),
        facet("kinds", 40_000, 400_000, kinds, "an error or unknown"),
        facet("parse", 150_000, 6_000_000, parse, "the text contains a CTCP delimiter"),
        facet("build", 60_000, 2_000_000, build, "a CTCP command was present"),
        facet("typed", 80_000, 3_000_000, typed, "the message had the arguments the view needs"),
    ]
}
