//! C22: automatic replies and tracking; C24: the assumed source length.

use super::{ctcp, facet};
use crate::engine::*;
use crate::gen::*;
use crate::talk::Talk;
use crate::{ensure, ensure_eq};
use std::num::NonZeroUsize;
use vinezombie::client::auth::Clear;
use vinezombie::client::handlers::*;
use vinezombie::client::register::{register_as_bot, Options};
use vinezombie::client::{state, ClientState};
use vinezombie::ircmsg::*;
use vinezombie::names::{ISupport, NameMap};
use vinezombie::string::*;

type B = Vec<u8>;
fn b(s: &str) -> B {
    s.as_bytes().to_vec()
}
fn write(m: &ServerMsg) -> B {
    let mut v = Vec::new();
    ServerCodec::write_to(m, &mut v).unwrap();
    v
}
/// What was sent, read as messages.
fn sent(lines: &[B]) -> Result<Vec<(B, Vec<B>)>, String> {
    lines
        .iter()
        .map(|l| {
            let m = ClientMsg::parse(l.clone()).map_err(|e| format!("sent {}: {e}", show(l)))?;
            ensure!(m.tags.is_empty(), "sent tags: {}", show(l));
            Ok((m.cmd.as_bytes().to_vec(), args_of(&m.args)))
        })
        .collect()
}
fn shown(m: &[(B, Vec<B>)]) -> String {
    m.iter()
        .map(|(k, a)| format!("{}({})", show(k), a.iter().map(|a| show(a)).collect::<Vec<_>>().join(", ")))
        .collect::<Vec<_>>()
        .join(" / ")
}

fn pong(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let mut talk = Talk::new();
    let n = src.range(1, 2);
    for _ in 0..n {
        talk.client.add((), AutoPong).unwrap();
    }
    ensure!(talk.settle()?.is_empty(), "sent before anything was received");
    let mut trail = Vec::new();
    for _ in 0..src.range(1, 6) {
        let mut m = mk_server(src, &ar);
        let ping = src.chance(2, 3);
        if ping {
            m = {
                let mut p = ServerMsg::new_cmd(Cmd::from_str("PING"));
                p.source = m.source.clone();
                p.args = m.args.clone();
                p.tags = m.tags.clone();
                p
            };
        }
        let ping = m.kind.as_str() == "PING";
        let line = write(&m);
        if line.len() > 8000 {
            continue;
        }
        let args = args_of(&m.args);
        trail.push(show(&line));
        let got = sent(&talk.tell(&line)?)?;
        let mut want = Vec::new();
        if ping {
            for _ in 0..n {
                want.push((b("PONG"), args.last().cloned().into_iter().collect::<Vec<B>>()));
            }
            if !args.is_empty() {
                ctx.nontrivial();
            }
        }
        ensure!(got == want, "{}: sent {}, expected {}", trail.last().unwrap(), shown(&got), shown(&want));
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

fn version(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let text = |src: &mut Src| {
        let mut v = if src.chance(1, 4) { Vec::new() } else { of_kind(src, Kind::Line, 20) };
        v.retain(|b| *b != 1);
        v
    };
    let (ver, from) = (text(src), text(src));
    let mut talk = Talk::new();
    let h = CtcpVersion {
        version: Line::from_bytes(ver.clone()).unwrap(),
        source: Line::from_bytes(from.clone()).unwrap(),
    };
    talk.client.add((), h).unwrap();
    ensure!(talk.settle()?.is_empty(), "sent before anything was received");
    let mut trail = Vec::new();
    for _ in 0..src.range(1, 6) {
        let kind = *src.pick(&["PRIVMSG", "PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "WALLOPS", "TAGMSG", "CTCP"]);
        let body = match src.below(8) {
            0 => ctcp::text(src, &ar),
            1 => b(src.pick(&["VERSION", "SOURCE", "\x01\x01VERSION", " \x01VERSION\x01", "x\x01SOURCE\x01"])),
            2 => b(src.pick(&["\x01VERSIONS\x01", "\x01VERSIO\x01", "\x01PING 1\x01", "\x01 VERSION\x01", "\x01CLIENTINFO\x01"])),
            3 => b(src.pick(&["\x01version\x01", "\x01SouRce", "\x01VERSION", "\x01VERSION x y\x01 tail", "\x01SOURCE \x01"])),
            4 | 5 => b("\x01SOURCE\x01"),
            _ => b("\x01VERSION\x01"),
        };
        let nick = of_kind(src, Kind::Nick, 8);
        let source = match src.below(8) {
            0 => None,
            1 => Some(nick.clone()),
            2 => Some([nick.clone(), b("@host")].concat()),
            _ => Some([nick.clone(), b("!user@host")].concat()),
        };
        let target = of_kind(src, Kind::Target, 8);
        let mut line = Vec::new();
        if src.chance(1, 4) {
            line.extend_from_slice(b"@time=12:00;msgid=x ");
        }
        if let Some(s) = &source {
            line.extend_from_slice(&[b":", s.as_slice(), b" "].concat());
        }
        line.extend_from_slice(kind.as_bytes());
        let bare = src.chance(1, 10);
        line.push(b' ');
        line.extend_from_slice(&target);
        if !bare {
            line.extend_from_slice(b" :");
            line.extend_from_slice(&body);
        }
        trail.push(show(&line));
        let mut want = Vec::new();
        if kind == "PRIVMSG" && source.is_some() && !bare {
            let text = match ctcp::reference(&body).0.as_slice() {
                b"VERSION" => ver.clone(),
                b"SOURCE" => from.clone(),
                _ => Vec::new(),
            };
            if !text.is_empty() {
                let cmd = ctcp::reference(&body).0;
                let reply = [b"\x01", cmd.as_slice(), b" ", &text, b"\x01"].concat();
                want.push((b("NOTICE"), vec![nick, reply]));
                ctx.nontrivial();
            }
        }
        let got = sent(&talk.tell(&line)?)?;
        ensure!(got == want, "{}: sent {}, expected {}", trail.last().unwrap(), shown(&got), shown(&want));
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

fn ping(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut talk = Talk::new();
    let before = std::time::Instant::now();
    let (_, (recv, _parker)) = talk.client.add((), Ping::default()).unwrap();
    let got = sent(&talk.settle()?)?;
    ensure!(got.len() == 1 && got[0].0 == b"PING" && got[0].1.len() == 1, "opening: {}", shown(&got));
    let token = got[0].1[0].clone();
    let mut trail = vec![show(&token)];
    let mut answer = None;
    for _ in 0..src.range(1, 6) {
        let mut wrong = token.clone();
        let i = src.usize_below(wrong.len());
        wrong[i] = *src.pick(b"01234567");
        let (kind, t) = match src.below(8) {
            0 => ("PONG", b(src.pick(&["x", "8", "", "not a number", "-1"]))),
            6 => ("PONG", {
                // Digits of another base, which may add up to the same number.
                let mut v = token.clone();
                let i = src.usize_below(v.len());
                v[i] = *src.pick(b"89");
                if i > 0 {
                    // A carry or a bit that is already there.
                    if src.bool() && v[i - 1] > b'0' {
                        v[i - 1] -= 1;
                        v[i] = token[i] + 8;
                    } else if v[i - 1] & 1 == 1 {
                        v[i] = b'8' + (token[i] & 1);
                    }
                }
                v.iter_mut().filter(|b| **b > b'9').for_each(|b| *b += 7);
                v
            }),
            7 => ("PONG", {
                // More digits than the token has.
                let mut v = vec![src.range(b'1' as usize, b'7' as usize) as u8];
                v.resize(1 + src.usize_below(24), b'0');
                v.extend(&token);
                v
            }),
            1 => ("PONG", wrong),
            2 => (*src.pick(&["PING", "NOTICE", "PRIVMSG"]), token.clone()),
            3 => ("PONG", token[1..].to_vec()),
            _ => ("PONG", token.clone()),
        };
        let from = match src.below(3) {
            0 => None,
            1 => Some(b("irc.example.com")),
            _ => Some(b("me!user@host")),
        };
        let mut line = match &from {
            Some(f) => [b":", f.as_slice(), b" "].concat(),
            None => Vec::new(),
        };
        line.extend_from_slice(kind.as_bytes());
        if src.bool() {
            line.extend_from_slice(b" irc.example.com");
        }
        line.extend_from_slice(b" :");
        line.extend_from_slice(&t);
        trail.push(show(&line));
        ensure!(talk.tell(&line)?.is_empty(), "{}: sent something", trail.join(" | "));
        let hit = kind == "PONG" && t == token;
        ensure_eq!(!talk.client.needs_run(), hit, "{}: finished", trail.join(" | "));
        if hit {
            answer = Some(from);
            break;
        }
    }
    match (recv.recv_now(), answer) {
        (None, None) => {}
        (Some((source, time)), Some(from)) => {
            ctx.nontrivial();
            ensure!(time <= before.elapsed(), "{}: took {time:?}", trail.join(" | "));
            let mut w = Vec::new();
            if let Some(s) = &source {
                s.write_to(&mut w).unwrap();
            }
            ensure_eq!(show(&w), show(&from.unwrap_or_default()), "{}: source", trail.join(" | "));
        }
        (got, _) => return Err(format!("{}: yielded {got:?}", trail.join(" | "))),
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

/// Several pings of one client, the answers coming in any order.
fn pings(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut talk = Talk::new();
    let now = std::time::Instant::now();
    let mut open = Vec::new();
    let mut trail = Vec::new();
    for i in 0..src.range(3, 5) {
        let at = now.checked_sub(std::time::Duration::from_micros(src.range(1, 500) as u64 + 1000 * i as u64)).unwrap_or(now);
        let (_, (recv, _)) = talk.client.add((), Ping(at)).unwrap();
        let got = sent(&talk.settle()?)?;
        ensure!(got.len() == 1 && got[0].0 == b"PING" && got[0].1.len() == 1, "opening: {}", shown(&got));
        open.push((got[0].1[0].clone(), recv, at));
    }
    // Tokens tell the pings apart, chance collisions aside.
    if open.iter().all(|o| o.2 != now) {
        ensure!(open.iter().any(|o| o.0 != open[0].0), "{} pings all carry {}", open.len(), show(&open[0].0));
    }
    let tokens: std::collections::BTreeSet<B> = open.iter().map(|o| o.0.clone()).collect();
    if tokens.len() < open.len() {
        return Ok(());
    }
    let mut answered = std::collections::BTreeSet::new();
    for _ in 0..src.range(1, 8) {
        let i = src.usize_below(open.len());
        if answered.len() == open.len() {
            break;
        }
        let mut line = b("PONG irc.example.com :");
        line.extend_from_slice(&open[i].0);
        trail.push(format!("{i}"));
        ensure!(talk.tell(&line)?.is_empty(), "{}: sent something", trail.join(" "));
        answered.insert(i);
        ensure_eq!(!talk.client.needs_run(), answered.len() == open.len(), "{}: finished", trail.join(" "));
    }
    for (k, (_, recv, at)) in open.into_iter().enumerate() {
        let got = recv.recv_now();
        ensure_eq!(got.is_some(), answered.contains(&k), "answers to {}: ping {k} is reported", trail.join(" "));
        if let Some((_, time)) = got {
            ensure!(time <= at.elapsed(), "{}: took {time:?}", trail.join(" "));
            ctx.nontrivial();
        }
    }
    ctx.sample(|| trail.join(" "));
    Ok(())
}

/// What is known of a source.
#[derive(Clone, Debug, PartialEq)]
struct Who {
    nick: B,
    uh: Option<(Option<B>, B)>,
}
impl Who {
    fn source(&self) -> Source<'static> {
        Source {
            nick: Nick::from_bytes(self.nick.clone()).unwrap(),
            userhost: self.uh.as_ref().map(|(u, h)| UserHost {
                user: u.clone().map(|u| User::from_bytes(u).unwrap()),
                host: Word::from_bytes(h.clone()).unwrap(),
            }),
        }
    }
}
fn known(s: &Source) -> Who {
    Who {
        nick: s.nick.as_bytes().to_vec(),
        uh: s.userhost.as_ref().map(|u| (u.user.as_ref().map(|u| u.as_bytes().to_vec()), u.host.as_bytes().to_vec())),
    }
}
/// The limits a server advertises.
#[derive(Clone, Debug, Default)]
struct Limits {
    nick: Option<B>,
    user: Option<B>,
    host: Option<B>,
}
impl Limits {
    fn gen(src: &mut Src) -> Limits {
        let one = |src: &mut Src| {
            src.bool().then(|| match src.below(8) {
                0 => b(src.pick(&["0", "", "x", "65536", "-3", "1 "])).into_iter().filter(|b| *b != b' ').collect(),
                1 => b("65535"),
                _ => src.range(1, 200).to_string().into_bytes(),
            })
        };
        Limits { nick: one(src), user: one(src), host: one(src) }
    }
    fn get(v: &Option<B>, or: usize) -> usize {
        v.as_ref()
            .and_then(|v| std::str::from_utf8(v).ok()?.parse::<u16>().ok())
            .filter(|n| *n != 0)
            .map(|n| n as usize)
            .unwrap_or(or)
    }
    fn tokens(&self) -> Vec<(&'static str, B)> {
        let mut v = Vec::new();
        for (k, x) in [("NICKLEN", &self.nick), ("USERLEN", &self.user), ("HOSTLEN", &self.host)] {
            if let Some(x) = x {
                v.push((k, x.clone()));
            }
        }
        v
    }
    fn map(&self) -> NameMap<ISupport> {
        let mut m: NameMap<ISupport> = NameMap::new();
        for (k, v) in self.tokens() {
            m.edit().insert((Key::from_str(k), Word::from_bytes(v).unwrap()), ());
        }
        m
    }
}
/// What the length should be.
fn length(who: Option<&Who>, lim: Option<&Limits>, tilde: bool) -> usize {
    let nick = who.map(|w| w.nick.len());
    let uh = who.and_then(|w| w.uh.as_ref());
    let user = uh.and_then(|u| u.0.as_ref()).map(|u| u.len() + (tilde && u[0] != b'~') as usize);
    let host = uh.map(|u| u.1.len());
    if let (Some(n), Some(u), Some(h)) = (nick, user, host) {
        return n + 1 + u + 1 + h;
    }
    let Some(lim) = lim else { return 85 };
    nick.unwrap_or(Limits::get(&lim.nick, 9))
        + 1
        + user.unwrap_or(Limits::get(&lim.user, 10))
        + 1
        + host.unwrap_or(Limits::get(&lim.host, 64))
}

/// A nickname from few, no two of which differ in case alone.
fn few(src: &mut Src) -> B {
    if src.chance(1, 20) {
        return vec![b'n'; src.range(10, 120)];
    }
    match src.below(8) {
        0 => {
            let mut v = of_kind(src, Kind::Nick, 9);
            v.make_ascii_lowercase();
            v.retain(|b| *b != b'=' && *b != b'*');
            if valid(Kind::Nick, &v) {
                v
            } else {
                b("me")
            }
        }
        _ => b(src.pick(&["me", "me", "you", "m", "mee", "[me]", "quite-a-long-nickname"])),
    }
}
fn userhost(src: &mut Src) -> (Option<B>, B) {
    let host = match src.below(3) {
        0 => {
            let mut h = of_kind(src, Kind::Arg, 20);
            h.retain(|b| !b"!@".contains(b));
            if valid(Kind::Arg, &h) {
                h
            } else {
                b("h")
            }
        }
        1 => vec![b'h'; src.range(1, 70)],
        _ => b(src.pick(&["host.example", "10.0.0.1", "2001:db8::1", "user/cloak"])),
    };
    let user = match src.below(4) {
        0 => b(src.pick(&["~u", "~", "u", "~user", "long-user-name"])),
        _ => {
            let mut u = of_kind(src, Kind::User, 9);
            u.retain(|b| *b != b'!');
            if valid(Kind::User, &u) {
                u
            } else {
                b("u")
            }
        }
    };
    (Some(user), host)
}
fn who(src: &mut Src) -> Who {
    Who {
        nick: few(src),
        uh: match src.below(4) {
            0 | 1 => None,
            2 => Some((None, userhost(src).1)),
            _ => Some(userhost(src)),
        },
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Source,
    Length,
}

fn track_source(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    track(src, ctx, Judge::Source)
}
fn track_length(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    track(src, ctx, Judge::Length)
}
fn track(src: &mut Src, ctx: &mut Ctx, judge: Judge) -> Result<(), String> {
    let mut talk = Talk::new();
    let mut me: Option<Who> = None;
    let mut lim: Option<Limits> = None;
    let mut len = 85;
    let mut trail: Vec<String> = Vec::new();
    let check = |talk: &Talk, me: &Option<Who>, len: usize, trail: &[String]| -> Result<(), String> {
        let s = talk.client.state();
        match judge {
            Judge::Source => {
                ensure_eq!(s.get::<state::ClientSource>().map(known), *me, "client source after {}", trail.join(" | "));
            }
            Judge::Length => {
                ensure_eq!(s.source_len().get(), len, "source length after {}", trail.join(" | "));
            }
        }
        Ok(())
    };
    match src.below(4) {
        0 => {}
        1 => {
            let w = who(src);
            talk.client.state_mut().insert::<state::ClientSource>(w.source());
            trail.push(format!("known as {}", show(&w.nick)));
            me = Some(w);
            if src.bool() {
                let l = Limits::gen(src);
                talk.client.state_mut().insert::<state::ISupport>(l.map());
                trail.push(format!("limits {:?}", l.tokens()));
                lim = Some(l);
            }
            if src.bool() {
                talk.client.state_mut().update_source_len();
                len = length(me.as_ref(), lim.as_ref(), true);
            }
        }
        _ => {
            // Registers first.
            let mut opts: Options<Clear> = Options::new();
            opts.nicks = vec![Nick::from_str("me")];
            let (_, (recv, _parker)) = talk.client.add(&register_as_bot(), &opts).unwrap();
            talk.settle()?;
            let mut w = Who { nick: b("me"), uh: None };
            let mut lines: Vec<B> = Vec::new();
            if src.bool() {
                lines.push(b("CAP * LS :"));
            }
            if src.bool() {
                let uh = userhost(src);
                let mask = [b("me!"), uh.0.clone().unwrap(), b("@"), uh.1.clone()].concat();
                lines.push([b("900 me "), mask, b(" account :logged in")].concat());
                w.uh = Some(uh);
            }
            w.nick = few(src);
            lines.push([b(":irc.example 001 "), w.nick.clone(), b(" :hello")].concat());
            let l = Limits::gen(src);
            for (k, v) in l.tokens() {
                lines.push([b("005 me A "), b(k), b("="), v, b(" :are supported")].concat());
            }
            lines.push(b("376 me :end"));
            for l in lines {
                trail.push(show(&l));
                talk.tell(&l)?;
            }
            ensure!(matches!(recv.recv_now(), Some(Ok(()))), "registration with {}", trail.join(" | "));
            len = length(Some(&w), Some(&l), true);
            me = Some(w);
            lim = Some(l);
        }
    }
    check(&talk, &me, len, &trail)?;
    talk.client.add((), TrackClientSource::new()).unwrap();
    let got = sent(&talk.settle()?)?;
    let want: Vec<(B, Vec<B>)> = me.iter().map(|w| (b("USERHOST"), vec![w.nick.clone()])).collect();
    ensure!(got == want, "after {}: sent {}, expected {}", trail.join(" | "), shown(&got), shown(&want));
    check(&talk, &me, len, &trail)?;
    let mut changes = 0;
    for _ in 0..src.range(1, 12) {
        // Mostly about this client.
        let nick = match &me {
            Some(w) if src.chance(3, 4) => w.nick.clone(),
            _ => few(src),
        };
        let mine = me.as_ref().is_some_and(|w| w.nick == nick);
        let from = match src.below(12) {
            0 => None,
            1 => Some(nick.clone()),
            2 => Some([nick.clone(), b("@host")].concat()),
            _ => Some([nick.clone(), b("!user@host")].concat()),
        };
        let mine = mine && from.is_some();
        let prefix = from.map(|f| [b(":"), f, b(" ")].concat()).unwrap_or_default();
        let mut update = None;
        let line = match src.below(16) {
            0..=4 => {
                let new = few(src);
                match src.below(8) {
                    0 => [prefix, b("NICK "), new, b(" extra")].concat(),
                    1 => [prefix, b("NICK")].concat(),
                    2 => [prefix, b("NICK :"), b(src.pick(&["", "a b", "x!y", ":x", "a,b"]))].concat(),
                    k => {
                        if let (true, Some(w)) = (mine, &me) {
                            update = Some(Who { nick: new.clone(), uh: w.uh.clone() });
                        }
                        [prefix, b(if k < 5 { "NICK :" } else { "NICK " }), new].concat()
                    }
                }
            }
            5..=8 => {
                let (u, h) = userhost(src);
                let u = u.unwrap();
                match src.below(8) {
                    0 => [prefix, b("CHGHOST "), u].concat(),
                    1 => [prefix, b("CHGHOST "), u, b(" "), h, b(" extra")].concat(),
                    2 => [prefix, b("CHGHOST a@b "), h].concat(),
                    _ => {
                        if let (true, Some(w)) = (mine, &me) {
                            update = Some(Who { nick: w.nick.clone(), uh: Some((Some(u.clone()), h.clone())) });
                        }
                        [prefix, b("CHGHOST "), u, b(" "), h].concat()
                    }
                }
            }
            9..=12 => {
                // A reply may mention others, and this client in a way that cannot be read.
                let n = src.range(0, 3);
                let mut items: Vec<B> = Vec::new();
                for _ in 0..n {
                    let nick = match &me {
                        Some(w) if src.chance(2, 3) => w.nick.clone(),
                        _ => few(src),
                    };
                    let (u, h) = userhost(src);
                    let uh = [u.clone().unwrap(), b("@"), h.clone()].concat();
                    let (item, ok) = match src.below(10) {
                        0 => ([nick.clone(), b("="), b("u@h")].concat(), false),
                        1 => ([nick.clone(), b("*+"), uh].concat(), false),
                        2 => (nick.clone(), false),
                        k => {
                            let op = if k < 5 { b("*=") } else { b("=") };
                            ([nick.clone(), op, b(src.pick(&["+", "-"])), uh].concat(), true)
                        }
                    };
                    if ok && update.is_none() && me.as_ref().is_some_and(|w| w.nick == nick) {
                        update = Some(Who { nick, uh: Some((u, h)) });
                    }
                    items.push(item);
                }
                let mut line = [b(":irc.example 302 "), b(src.pick(&["me", "*"])), b(" ")].concat();
                if src.chance(3, 4) {
                    line.push(b':');
                }
                if line.last() == Some(&b':') || items.len() < 2 {
                    line.extend(items.join(&b' '));
                    if line.contains(&b':') && src.chance(1, 4) {
                        line.push(b' ');
                    }
                } else {
                    line.extend(items.join(&b' '));
                }
                line
            }
            13 => {
                let w = who(src);
                talk.client.state_mut().insert::<state::ClientSource>(w.source());
                trail.push(format!("now known as {}", show(&w.nick)));
                me = Some(w);
                if src.bool() {
                    talk.client.state_mut().update_source_len();
                    len = length(me.as_ref(), lim.as_ref(), true);
                }
                b("PING x")
            }
            14 => [prefix, b(src.pick(&["JOIN #x", "QUIT :bye", "AWAY :x", "PRIVMSG me :NICK you", "301 me me :x"]))].concat(),
            _ => {
                let l = Limits::gen(src);
                talk.client.state_mut().insert::<state::ISupport>(l.map());
                trail.push(format!("limits {:?}", l.tokens()));
                lim = Some(l);
                b("NOTICE * :hm")
            }
        };
        trail.push(show(&line));
        ensure!(talk.tell(&line)?.is_empty(), "after {}: sent something", trail.join(" | "));
        if let Some(w) = update {
            len = length(Some(&w), lim.as_ref(), true);
            me = Some(w);
            changes += 1;
        }
        check(&talk, &me, len, &trail)?;
        ensure!(talk.client.needs_run(), "after {}: no longer tracking", trail.join(" | "));
    }
    if src.chance(1, 4) {
        talk.client.reset();
        trail.push("reset".into());
        check(&talk, &None, 85, &trail)?;
    }
    if changes > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

/// Straight calls.
fn direct(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut s = ClientState::new();
    let mut me: Option<Who> = None;
    let mut lim: Option<Limits> = None;
    let mut len = 85usize;
    let mut trail: Vec<String> = Vec::new();
    for _ in 0..src.range(1, 8) {
        match src.below(5) {
            0 => {
                let w = who(src);
                trail.push(format!("known {w:?}"));
                s.insert::<state::ClientSource>(w.source());
                me = Some(w);
            }
            1 => {
                let l = Limits::gen(src);
                trail.push(format!("limits {:?}", l.tokens()));
                s.insert::<state::ISupport>(l.map());
                lim = Some(l);
            }
            2 => {
                len = src.range(1, 500);
                trail.push(format!("set {len}"));
                s.set_source_len(NonZeroUsize::new(len).unwrap());
            }
            3 => {
                let w = src.chance(4, 5).then(|| who(src));
                let tilde = src.bool();
                trail.push(format!("update from {w:?} ({tilde})"));
                len = length(w.as_ref(), lim.as_ref(), tilde);
                let got = s.update_source_len_from(w.as_ref().map(|w| w.source()).as_ref(), tilde);
                ensure_eq!(got.get(), len, "returned after {}", trail.join(" | "));
                within(src, w.as_ref(), lim.as_ref(), len, tilde, &trail)?;
            }
            _ => {
                trail.push("update".into());
                len = length(me.as_ref(), lim.as_ref(), true);
                ensure_eq!(s.update_source_len().get(), len, "returned after {}", trail.join(" | "));
                within(src, me.as_ref(), lim.as_ref(), len, true, &trail)?;
                if lim.is_some() {
                    ctx.nontrivial();
                }
            }
        }
        if let Some(uh) = me.as_ref().and_then(|w| w.source().userhost) {
            let tilde = uh.user.as_ref().is_some_and(|u| u.starts_with(b"~"));
            ensure_eq!(uh.has_ident(), !tilde, "has_ident of {uh}");
            if let Some(u) = &uh.user {
                ensure_eq!(u.no_tilde(), !tilde, "no_tilde of {uh}");
                ensure_eq!(u.len_with_tilde(), u.len() + usize::from(!tilde), "len_with_tilde of {uh}");
            }
        }
        ensure_eq!(s.source_len().get(), len, "after {}", trail.join(" | "));
        ensure_eq!(s.get::<state::ClientSource>().map(known), me, "source after {}", trail.join(" | "));
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}
/// A source the server might use, given what is known, is no longer than that.
fn within(src: &mut Src, who: Option<&Who>, lim: Option<&Limits>, len: usize, tilde: bool, trail: &[String]) -> Result<(), String> {
    let Some(lim) = lim else { return Ok(()) };
    let mut upto = |v: &Option<B>, or| {
        let n = Limits::get(v, or);
        vec![b'x'; if src.bool() { n } else { src.range(1, n) }]
    };
    let nick = who.map(|w| w.nick.clone()).unwrap_or_else(|| upto(&lim.nick, 9));
    let uh = who.and_then(|w| w.uh.clone());
    let mut user = uh.as_ref().and_then(|u| u.0.clone());
    if let (Some(u), true) = (&mut user, tilde) {
        if u[0] != b'~' {
            u.insert(0, b'~');
        }
    }
    let user = user.unwrap_or_else(|| upto(&lim.user, 10));
    let host = uh.map(|u| u.1).unwrap_or_else(|| upto(&lim.host, 64));
    let s = Source {
        nick: Nick::from_bytes(nick).unwrap(),
        userhost: Some(UserHost { user: Some(User::from_bytes(user).unwrap()), host: Word::from_bytes(host).unwrap() }),
    };
    let mut w = Vec::new();
    s.write_to(&mut w).unwrap();
    ensure!(w.len() <= len, "after {}: {} needs {} bytes, {len} assumed", trail.join(" | "), show(&w), w.len());
    Ok(())
}

pub fn c22() -> Vec<Facet> {
    vec![
        facet("pong", 40_000, 800_000, pong, "a PING with arguments was answered"),
        facet("version", 40_000, 800_000, version, "a query was answered"),
        facet("pings", 10_000, 200_000, pings, "a ping was answered"),
        facet("ping", 20_000, 400_000, ping, "the answer arrived"),
        facet("tracking", 60_000, 1_500_000, track_source, "the source changed twice or more"),
    ]
}
pub fn c24() -> Vec<Facet> {
    vec![
        facet("direct", 60_000, 1_500_000, direct, "a length was worked out from advertised limits"),
        facet("tracking", 60_000, 1_500_000, track_length, "the source changed twice or more"),
    ]
}
