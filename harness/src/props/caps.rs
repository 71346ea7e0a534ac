//! C20: capability requests and replies.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use vinezombie::client::cap::{self, ServerMsgArgs, SubCmd};
use vinezombie::client::register::{common_caps, default_caps};
use vinezombie::ircmsg::*;
use vinezombie::names::{cap::*, Cap, Name, NameMap, NameValued};
use vinezombie::string::*;

const KNOWN: &[&str] = &[
    "account-notify", "account-tag", "batch", "chghost", "echo-message", "extended-join", "extended-monitor",
    "invite-notify", "labeled-response", "message-tags", "msgid", "multi-prefix", "sasl", "server-time", "setname",
    "standard-replies", "sts", "userhost-in-names",
];
/// What a client asks for unprompted, as documented.
const COMMON: &[&str] = &[
    "account-notify", "account-tag", "chghost", "extended-join", "extended-monitor", "invite-notify",
    "labeled-response", "message-tags", "msgid", "multi-prefix", "server-time", "setname", "standard-replies",
    "userhost-in-names",
];

/// A capability name; with `max` beyond a message's size now and then.
pub fn name(src: &mut Src, max: usize) -> Vec<u8> {
    match src.below(8) {
        0..=2 => src.pick(KNOWN).as_bytes().to_vec(),
        3 => of_kind(src, Kind::Key, 12),
        4 => {
            let n = src.range(1, max);
            (0..n).map(|i| b'a' + (i % 26) as u8).collect()
        }
        _ => format!("{}/{}", src.pick(&["draft", "vendor.example", "x"]), src.below(400)).into_bytes(),
    }
}
fn key(v: &[u8]) -> Key<'static> {
    Key::from_bytes(v.to_vec()).expect("a capability name")
}
fn sh(s: &BTreeSet<Vec<u8>>) -> String {
    s.iter().map(|v| show(v)).collect::<Vec<_>>().join(" ")
}

fn requests(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let n = match src.below(6) {
        0 => src.range(0, 3),
        1 | 2 => src.range(0, 12),
        _ => src.range(10, 90),
    };
    // Long names make the boundary move; names near or over the limit need not fit.
    let max = *src.pick(&[8usize, 30, 60, 240, 520]);
    let mut set = BTreeSet::new();
    for _ in 0..n {
        // Other white space than a space may separate names in a reply.
        set.insert(name(src, max).into_iter().map(|b| if plain(&[b]) { b } else { b'x' }).collect());
    }
    let mut order: Vec<Vec<u8>> = set.iter().cloned().collect();
    if src.bool() {
        src.shuffle(&mut order);
    }
    let client: Option<Vec<u8>> = src.bool().then(|| {
        let mut v = of_kind(src, Kind::Nick, 12);
        if src.chance(1, 6) {
            v.extend(std::iter::repeat(b'x').take(src.range(0, 120)));
        }
        v
    });
    let server = src.bool().then(|| {
        let mut s = mk_source(src, &ar).owning();
        if src.chance(1, 8) {
            s.nick = Nick::from_bytes(vec![b's'; src.range(1, 150)]).unwrap();
        }
        s
    });
    let mut out: Vec<ClientMsg<'static>> = Vec::new();
    cap::req(
        order.iter().map(|k| key(k)),
        client.as_ref().map(|c| Arg::from_bytes(c.clone()).unwrap()),
        server.as_ref(),
        |m: ClientMsg<'static>| out.push(m),
    );
    ctx.sample(|| format!("{} capabilities up to {max} bytes in {} requests", order.len(), out.len()));
    if out.len() > 1 {
        ctx.nontrivial();
    }
    let mut seen: Vec<Vec<u8>> = Vec::new();
    for m in &out {
        let mut line = Vec::new();
        ClientCodec::write_to(m, &mut line).map_err(|e| e.to_string())?;
        let args = args_of(&m.args);
        ensure!(m.cmd == "CAP" && args.len() == 2 && args[0] == b"REQ" && m.tags.is_empty(), "not a request: {}", show(&line));
        let names: Vec<Vec<u8>> = args[1].split(|b| *b == b' ').filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect();
        if names.is_empty() {
            ensure!(order.is_empty(), "a request without capabilities among {} requests", out.len());
        }
        // The largest message involved is the server's reply, which repeats the list.
        let reply = [
            server.as_ref().map(|s| s.to_string().len() + 2).unwrap_or(0),
            "CAP  ACK :\r\n".len(),
            client.as_ref().map(|c| c.len()).unwrap_or(1),
            args[1].len(),
        ];
        let total: usize = reply.iter().sum();
        if names.len() > 1 || total - args[1].len() + max.max(30) <= 512 {
            let fits = total <= 512 && line.len() + 2 <= 512;
            // Non-UTF-8 sources print longer than they are written.
            let exact = server.as_ref().map(|s| s.to_string().len() == s.len()).unwrap_or(true);
            ensure!(fits || !exact, "{} capabilities need a reply of {total} bytes: {}", names.len(), show(&line));
        } else {
            ctx.label("one name that need not fit");
        }
        // Both directions survive the wire.
        let back = ClientMsg::parse(line.clone()).map_err(|e| format!("{}: {e}", show(&line)))?;
        ensure!(back == *m, "{} reads back as {back}", show(&line));
        let sub = *src.pick(&["ACK", "NAK"]);
        let nick = client.clone().unwrap_or(b"*".to_vec());
        let mut text = b"CAP ".to_vec();
        text.extend_from_slice(&nick);
        text.extend_from_slice(format!(" {sub} :").as_bytes());
        text.extend_from_slice(&args[1]);
        let reply = ServerMsg::parse(text.clone()).map_err(|e| format!("{}: {e}", show(&text)))?;
        let got = ServerMsgArgs::parse(&reply.args).map_err(|e| format!("{}: {e}", show(&text)))?;
        let got: BTreeSet<Vec<u8>> = got.caps.keys().map(|k| k.as_bytes().to_vec()).collect();
        let sent: BTreeSet<Vec<u8>> = names.iter().cloned().collect();
        ensure_eq!(sh(&got), sh(&sent), "names in the reply {}", show(&text));
        seen.extend(names);
    }
    let distinct: BTreeSet<Vec<u8>> = seen.iter().cloned().collect();
    ensure_eq!(seen.len(), distinct.len(), "a capability was requested twice: {}", sh(&distinct));
    ensure_eq!(sh(&distinct), sh(&set), "capabilities requested");
    Ok(())
}

#[derive(Debug, PartialEq)]
struct Reply {
    nick: Vec<u8>,
    sub: SubCmd,
    last: bool,
    caps: BTreeMap<Vec<u8>, Vec<u8>>,
}
fn subcmd(b: &[u8]) -> Option<SubCmd> {
    Some(match b.to_ascii_uppercase().as_slice() {
        b"LS" => SubCmd::Ls,
        b"LIST" => SubCmd::List,
        b"ACK" => SubCmd::Ack,
        b"NAK" => SubCmd::Nak,
        b"NEW" => SubCmd::New,
        b"DEL" => SubCmd::Del,
        _ => return None,
    })
}
/// An independent reading of a reply's arguments.
fn read(args: &[Vec<u8>]) -> Option<Reply> {
    let (list, front) = args.split_last()?;
    let last = match front {
        [_, _] => true,
        [_, _, star, ..] if star == b"*" => false,
        _ => return None,
    };
    if !valid(Kind::Nick, &front[0]) {
        return None;
    }
    let sub = subcmd(&front[1])?;
    let mut caps = BTreeMap::new();
    for word in list.split(|b| *b == b' ').filter(|w| !w.is_empty()) {
        let eq = word.iter().position(|b| *b == b'=');
        let (k, v) = (&word[..eq.unwrap_or(word.len())], eq.map(|i| &word[i + 1..]).unwrap_or_default());
        // Names that cannot be represented are skipped.
        if valid(Kind::Key, k) {
            caps.insert(k.to_vec(), v.to_vec());
        }
    }
    Some(Reply { nick: front[0].clone(), sub, last, caps })
}
fn got(r: &ServerMsgArgs) -> Reply {
    Reply {
        nick: r.nick.as_bytes().to_vec(),
        sub: r.subcmd,
        last: r.is_last,
        caps: r.caps.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
    }
}
/// A list of capabilities as a server prints it.
pub fn list(src: &mut Src, values: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..if src.chance(1, 25) { src.range(6, 60) } else { src.range(0, 6) } {
        if i > 0 || src.chance(1, 8) {
            v.push(b' ');
            if src.chance(1, 8) {
                v.push(b' ');
            }
        }
        match src.below(12) {
            0 => v.extend(of_kind(src, Kind::Word, 6)),
            _ => v.extend(name(src, 12)),
        }
        if values && src.chance(1, 3) {
            v.push(b'=');
            if src.chance(1, 30) {
                v.resize(v.len() + src.range(20, 300), b'v');
            }
            v.extend(of_kind(src, Kind::Word, 8));
        }
    }
    if src.chance(1, 8) {
        v.push(b' ');
    }
    v
}
fn plain(b: &[u8]) -> bool {
    // Other ASCII white space may or may not separate names.
    !b.iter().any(|b| matches!(b, b'\t' | 0x0b | 0x0c))
}

fn replies(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let nick = of_kind(src, Kind::Nick, 6);
    let mut sub = src.pick(&["LS", "LIST", "ACK", "NAK", "NEW", "DEL", "ls", "Ack", "nEw"]).as_bytes().to_vec();
    if src.chance(1, 16) {
        sub = of_kind(src, Kind::Arg, 4);
    }
    let lines = src.range(1, 4);
    let mut merged: Option<(ServerMsgArgs<'static>, Reply)> = None;
    for i in 0..lines {
        let mut args: Vec<Vec<u8>> = vec![nick.clone(), sub.clone()];
        if i > 0 && src.chance(1, 8) {
            // A reply to something else.
            args[1] = src.pick(&["LS", "LIST", "ACK", "NAK", "NEW", "DEL"]).as_bytes().to_vec();
        }
        if i + 1 < lines {
            args.push(b"*".to_vec());
        }
        if src.chance(1, 16) {
            // Something else than the star.
            args.push(of_kind(src, Kind::Arg, 3));
        }
        args.push(list(src, true));
        match src.below(24) {
            0 => {
                args.pop();
            }
            1 => {
                args.remove(0);
            }
            2 => args[0] = of_kind(src, Kind::Arg, 5),
            _ => {}
        }
        let mut a = Args::empty();
        {
            let mut e = a.edit();
            for (j, v) in args.iter().enumerate() {
                let b = mk(src, &ar, v);
                match (valid(Kind::Arg, v), j + 1 == args.len()) {
                    (true, false) => e.add_word(Arg::from_bytes(b).unwrap()),
                    (true, true) if src.bool() => e.add_word(Arg::from_bytes(b).unwrap()),
                    _ => {
                        e.add(Line::from_bytes(b).unwrap());
                    }
                }
            }
        }
        let a = if src.bool() { a.owning() } else { a };
        let args = args_of(&a);
        let text = || args.iter().map(|v| show(v)).collect::<Vec<_>>().join(" ");
        let r = ServerMsgArgs::parse(&a);
        if !args.iter().all(|a| plain(a)) {
            ctx.label("other white space");
            continue;
        }
        let want = read(&args);
        // Extra arguments after the star are not described anywhere.
        if args.len() > 4 {
            continue;
        }
        match (r, want) {
            (Err(_), None) => ctx.label("malformed"),
            (Err(e), Some(w)) => return Err(format!("arguments {}: refused ({e}), expected {w:?}", text())),
            (Ok(r), None) => return Err(format!("arguments {}: read as {:?} though malformed", text(), got(&r))),
            (Ok(r), Some(w)) => {
                ensure_eq!(got(&r), w, "arguments {}", text());
                for k in w.caps.keys() {
                    ensure!(r.contains(k), "arguments {}: does not contain {}", text(), show(k));
                }
                let absent = name(src, 5);
                ensure_eq!(r.contains(&absent), w.caps.contains_key(&absent), "contains {}", show(&absent));
                if w.caps.len() > 1 {
                    ctx.nontrivial();
                }
                ctx.sample(text);
                let r: ServerMsgArgs<'static> = ServerMsgArgs {
                    nick: r.nick.owning(),
                    subcmd: r.subcmd,
                    is_last: r.is_last,
                    caps: r.caps.into_iter().map(|(k, v)| (k.owning(), v.owning())).collect(),
                };
                match &mut merged {
                    None => merged = Some((r, w)),
                    Some((m, mw)) => {
                        let fits = !mw.last && mw.sub == w.sub && mw.nick == w.nick;
                        let back = m.combine(r);
                        ensure_eq!(back.is_none(), fits, "combining {mw:?} with {w:?}");
                        match back {
                            None => {
                                mw.last = w.last;
                                mw.caps.extend(w.caps);
                                ctx.label("combined");
                            }
                            Some(b) => ensure_eq!(got(&b), w, "the reply that cannot be combined is returned"),
                        }
                        ensure_eq!(got(m), *mw, "combined reply");
                    }
                }
            }
        }
    }
    for s in [SubCmd::Ls, SubCmd::List, SubCmd::Ack, SubCmd::Nak, SubCmd::New, SubCmd::Del] {
        ensure_eq!(SubCmd::from_bytes(s.into_arg().as_bytes()), Some(s), "subcommand {s:?} as text");
        ensure_eq!(subcmd(s.into_cmd().as_bytes()), Some(s), "subcommand {s:?} as text");
    }
    Ok(())
}

/// Names, values and the default choice of capabilities.
fn choice(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    macro_rules! names {
        ($($t:ident)+) => {{
            let mut i = 0;
            $(
                ensure_eq!(show(<$t as Name<Cap>>::as_raw(&$t)), show(KNOWN[i].as_bytes()), "name of {}", stringify!($t));
                ensure!($t == key(KNOWN[i].as_bytes()) && $t::NAME == key(KNOWN[i].as_bytes()), "name of {}", stringify!($t));
                i += 1;
            )+
            ensure_eq!(i, KNOWN.len(), "known names");
        }};
    }
    names! {
        ACCOUNT_NOTIFY ACCOUNT_TAG BATCH CHGHOST ECHO_MESSAGE EXTENDED_JOIN EXTENDED_MONITOR INVITE_NOTIFY
        LABELED_RESPONSE MESSAGE_TAGS MSGID MULTI_PREFIX SASL SERVER_TIME SETNAME STANDARD_REPLIES STS USERHOST_IN_NAMES
    }
    let common: BTreeSet<Vec<u8>> = COMMON.iter().map(|s| s.as_bytes().to_vec()).collect();
    let lib: BTreeSet<Vec<u8>> = common_caps().iter().map(|k| k.as_bytes().to_vec()).collect();
    ensure_eq!(sh(&lib), sh(&common), "common capabilities");
    let avail: BTreeSet<Vec<u8>> = (0..src.range(0, 14)).map(|_| name(src, 6)).collect();
    let wanted: BTreeSet<Vec<u8>> = (0..src.range(0, 8)).map(|_| name(src, 6)).collect();
    let (add, require) = (src.bool(), src.bool());
    let f = default_caps(wanted.iter().map(|k| key(k)).collect(), add, require);
    let got = f.require(&avail.iter().map(|k| key(k)).collect());
    let got: BTreeSet<Vec<u8>> = got.iter().map(|k| k.as_bytes().to_vec()).collect();
    let mut want: BTreeSet<Vec<u8>> =
        wanted.iter().filter(|k| require || avail.contains(*k)).cloned().collect();
    if add {
        want.extend(common.intersection(&avail).cloned());
    }
    ensure_eq!(sh(&got), sh(&want), "wanted {} of {} (common: {add}, require: {require})", sh(&wanted), sh(&avail));
    ctx.sample(|| format!("wanted {} of {}", sh(&wanted), sh(&avail)));
    if !want.is_empty() {
        ctx.nontrivial();
    }
    // Mechanisms offered in the value of "sasl".
    let mut value = Vec::new();
    for _ in 0..src.range(0, 6) {
        match src.below(6) {
            0 => value.push(b','),
            1 => value.extend(of_kind(src, Kind::Word, 5)),
            _ => {
                value.extend_from_slice(src.pick(&["PLAIN", "plain", "EXTERNAL", "Scram-Sha-256", "X", "ECDSA-NIST256P-CHALLENGE"]).as_bytes());
                value.push(b',');
            }
        }
    }
    let mut mechs: BTreeSet<Vec<u8>> = BTreeSet::new();
    for m in value.split(|b| *b == b',') {
        if !m.is_empty() {
            mechs.insert(m.to_ascii_uppercase());
        }
    }
    let mut map: NameMap<Cap, bool> = NameMap::new();
    map.edit().insert((SASL::NAME, Word::from_bytes(value.clone()).unwrap()), true);
    let parsed = map.get_parsed(SASL).unwrap().map_err(|e| e.to_string())?;
    let parsed: BTreeSet<Vec<u8>> = parsed.iter().map(|m| m.as_bytes().to_vec()).collect();
    ensure_eq!(sh(&parsed), sh(&mechs), "mechanisms in {}", show(&value));
    let again = SASL::from_union(&(SASL::NAME, Word::from_bytes(value).unwrap())).map_err(|e| e.to_string())?;
    ensure_eq!(again.len(), mechs.len(), "mechanisms");
    Ok(())
}

pub fn c20() -> Vec<Facet> {
    vec![
        facet("requests", 12_000, 250_000, requests, "the capabilities need more than one request"),
        facet("replies", 60_000, 1_500_000, replies, "a well-formed reply naming two capabilities or more"),
        facet("choice", 30_000, 600_000, choice, "at least one capability is chosen"),
    ]
}
