//! C15: connection registration against generated servers.

use super::{caps, facet, sasl};
use crate::engine::*;
use crate::gen::*;
use crate::talk::Talk;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use vinezombie::client::auth::{Clear, SaslQueue};
use vinezombie::client::nick::{from_iter, NickGen, NickGenExt, Suffix};
use vinezombie::client::register::*;
use vinezombie::client::state;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

type B = Vec<u8>;
type Set = BTreeSet<B>;

fn b(s: &str) -> B {
    s.as_bytes().to_vec()
}
/// A capability or token name without anything that needs care.
fn plain_name(src: &mut Src, max: usize) -> B {
    let mut v: B = caps::name(src, max)
        .into_iter()
        .map(|b| if b.is_ascii_alphanumeric() || b"-/._".contains(&b) { b } else { b'x' })
        .collect();
    if v[0] == b'-' {
        v[0] = b'n';
    }
    v
}
fn keys(s: &Set) -> BTreeSet<Key<'static>> {
    s.iter().map(|k| Key::from_bytes(k.clone()).unwrap()).collect()
}
fn join(words: &[B], sep: u8) -> B {
    words.join(&sep)
}

/// What a registration is asked to do, in the caller's own type.
struct Opts {
    pass: Option<Line<'static>>,
    user: User<'static>,
    p1: Arg<'static>,
    p2: Arg<'static>,
    real: Line<'static>,
    nicks: Vec<Nick<'static>>,
    suffix: Option<&'static Suffix>,
    hard: Set,
    soft: Set,
    auths: Vec<sasl::Config>,
    needs: bool,
}
impl Opts {
    fn nickgen(&self) -> Box<dyn NickGen> {
        let g = Box::new(from_iter(self.nicks.clone()).unwrap());
        match self.suffix {
            Some(s) => g.chain_using(s),
            None => g,
        }
    }
    fn register() -> Register<Opts> {
        Register {
            password: |o: &Opts| o.pass.clone(),
            username: |o| o.user.clone(),
            user_p1: |o| o.p1.clone(),
            user_p2: |o| o.p2.clone(),
            realname: |o| o.real.clone(),
            nicks: |o| o.nickgen(),
            caps: |o| {
                let (hard, soft) = (keys(&o.hard), keys(&o.soft));
                Box::new(move |avail: &BTreeSet<Key<'_>>| {
                    let soft: BTreeSet<Key<'static>> = soft.into_iter().filter(|k| avail.contains(k)).collect();
                    hard.union(&soft).cloned().collect()
                })
            },
            auth: |o| (o.auths.iter().collect::<SaslQueue>(), o.needs),
        }
    }
}

/// Where nicknames come from.
enum Nicks {
    /// A twin of the generator in use; generators have a property of their own.
    Twin(Option<Box<dyn NickGen>>),
    /// These, and then random ones that start like this.
    Random(VecDeque<B>, &'static str),
}
#[derive(Debug)]
enum St {
    Req,
    Ack(Set),
    Sasl(sasl::Model),
    Welcome,
    End,
}
#[derive(Debug, PartialEq, Clone)]
enum Er {
    NoAccess(B),
    NoNicks,
    NoLogin,
    Redirect(B, u16, B),
    Server(B, Vec<B>),
    Broken,
    Missing(Set),
}
#[derive(Debug)]
enum Want {
    Msg(B, Vec<B>),
    /// Requests for exactly these, over any number of messages.
    Caps(Set),
    /// Any nickname that starts like this.
    NickLike(&'static str),
}
fn msg(kind: &str, args: Vec<B>) -> Want {
    Want::Msg(b(kind), args)
}
#[derive(Debug, PartialEq)]
enum End {
    Going,
    Done,
    /// Any of these.
    Failed(Vec<Er>),
}
#[derive(Debug, Clone, PartialEq)]
struct Who {
    nick: B,
    user: Option<B>,
    host: Option<B>,
}
fn who(mask: &[u8]) -> Who {
    let (rest, host) = match mask.iter().position(|b| *b == b'@') {
        Some(i) => (&mask[..i], Some(mask[i + 1..].to_vec())),
        None => (mask, None),
    };
    match rest.iter().position(|b| *b == b'!') {
        Some(i) => Who { nick: rest[..i].to_vec(), user: Some(rest[i + 1..].to_vec()), host },
        None => Who { nick: rest.to_vec(), user: None, host },
    }
}
fn who_of(s: &Source) -> Who {
    let r = s.userhost.as_ref();
    Who {
        nick: s.nick.as_bytes().to_vec(),
        user: r.and_then(|u| u.user.as_ref()).map(|u| u.as_bytes().to_vec()),
        host: r.map(|u| u.host.as_bytes().to_vec()),
    }
}

/// The reference.
struct Reg {
    st: St,
    hard: Set,
    /// Wanted if offered.
    soft: Set,
    tries: VecDeque<sasl::Try>,
    needs: bool,
    nicks: Nicks,
    me: Who,
    account: Option<B>,
    server: Option<B>,
    caps: BTreeMap<B, (B, bool)>,
    version: Option<B>,
    isupport: BTreeMap<B, B>,
    /// Challenges the mechanisms were given.
    seen: Vec<(usize, B)>,
}
fn fail(e: Er) -> End {
    End::Failed(vec![e])
}
impl Reg {
    fn on(&mut self, from: Option<&B>, kind: &str, args: &[B]) -> (Vec<Want>, End) {
        let mut out = Vec::new();
        let end = self.step(from, kind, args, &mut out);
        (out, end)
    }
    fn cap_end(&mut self, out: &mut Vec<Want>) -> End {
        if self.needs && self.account.is_none() {
            return fail(Er::NoLogin);
        }
        out.push(msg("CAP", vec![b("END")]));
        self.st = St::Welcome;
        End::Going
    }
    fn next_nick(&mut self, out: &mut Vec<Want>) -> End {
        match &mut self.nicks {
            Nicks::Twin(g) => match g.take() {
                None => fail(Er::NoNicks),
                Some(t) => {
                    let (n, rest) = t.next_nick();
                    *g = rest;
                    self.me.nick = n.as_bytes().to_vec();
                    out.push(msg("NICK", vec![self.me.nick.clone()]));
                    End::Going
                }
            },
            Nicks::Random(list, like) => {
                match list.pop_front() {
                    Some(n) => {
                        self.me.nick = n.clone();
                        out.push(msg("NICK", vec![n]));
                    }
                    None => {
                        self.me.nick = b(like);
                        out.push(Want::NickLike(like));
                    }
                }
                End::Going
            }
        }
    }
    fn step(&mut self, from: Option<&B>, kind: &str, args: &[B], out: &mut Vec<Want>) -> End {
        if self.server.is_none() {
            self.server = from.cloned();
        }
        if kind == "PING" {
            out.push(msg("PONG", args.last().cloned().into_iter().collect()));
            return End::Going;
        }
        let mut ends = false;
        if let St::Sasl(m) = &mut self.st {
            let (lines, res) = m.on(kind, args);
            for l in lines {
                out.push(msg("AUTHENTICATE", vec![l[b"AUTHENTICATE ".len()..].to_vec()]));
            }
            ends = res != sasl::Outcome::Going;
            self.seen = m.seen.clone();
        }
        let unwelcome = self.needs && self.account.is_none();
        match kind {
            "001" | "002" | "003" | "004" if unwelcome => return fail(Er::NoLogin),
            "001" => {
                if let Some(n) = args.first() {
                    if n != b"*" && valid(Kind::Nick, n) {
                        self.me.nick = n.clone();
                    }
                }
                if from.is_some() {
                    self.server = from.cloned();
                }
                self.st = St::End;
            }
            "004" | "005" | "376" | "422" if matches!(self.st, St::End) => match kind {
                "004" => {
                    if let Some(v) = args.get(2).filter(|v| !v.contains(&b' ')) {
                        self.version = Some(v.clone());
                    }
                }
                "005" => {
                    for tok in args.iter().skip(1).filter(|t| !t.contains(&b' ')) {
                        let (k, v) = match tok.iter().position(|b| *b == b'=') {
                            Some(i) => (tok[..i].to_vec(), tok[i + 1..].to_vec()),
                            None => (tok.clone(), Vec::new()),
                        };
                        // One that has no name to go by is passed over.
                        if valid(Kind::Key, &k) {
                            self.isupport.insert(k, v);
                        }
                    }
                }
                _ => return End::Done,
            },
            "004" | "376" | "422" => return fail(Er::Broken),
            "005" => {
                let last = args.last().cloned().unwrap_or_default();
                let text = String::from_utf8_lossy(&last).into_owned();
                let hit = text.split_once(", port ").and_then(|(a, p)| {
                    let host = a.rsplit(' ').next()?;
                    Some((b(host), p.parse::<u16>().ok()?))
                });
                return fail(match hit {
                    Some((h, p)) => Er::Redirect(h, p, last),
                    None => Er::Server(b(kind), args.to_vec()),
                });
            }
            "010" => {
                return fail(if args.len() == 4 {
                    match std::str::from_utf8(&args[2]).ok().and_then(|p| p.parse::<u16>().ok()) {
                        Some(p) => Er::Redirect(args[1].clone(), p, args[3].clone()),
                        None => Er::Broken,
                    }
                } else {
                    Er::Server(b(kind), args.to_vec())
                });
            }
            "432" => {
                if let Nicks::Twin(g) = &mut self.nicks {
                    let bad = Nick::from_bytes(self.me.nick.clone()).unwrap();
                    *g = g.take().and_then(|g| g.handle_invalid(&bad));
                }
                let e = self.next_nick(out);
                if e != End::Going {
                    return e;
                }
            }
            "433" | "436" => {
                let e = self.next_nick(out);
                if e != End::Going {
                    return e;
                }
            }
            "464" | "465" => return fail(Er::NoAccess(args.last().cloned().unwrap_or_default())),
            "900" => {
                self.account = Some(args[2].clone());
                self.me = who(&args[1]);
            }
            "901" => {
                self.account = None;
                self.me = who(&args[1]);
            }
            "902" | "904" | "905" | "906" | "907" | "908" => {}
            "CAP" => {
                let e = self.cap(args, out, &mut ends);
                if e != End::Going {
                    return e;
                }
            }
            "ERROR" | "FAIL" => return fail(Er::Server(b(kind), args.to_vec())),
            k if k.len() == 3 && k.as_bytes()[0].is_ascii_digit() && ("400".."569").contains(&k) => {
                return fail(Er::Server(b(kind), args.to_vec()))
            }
            _ => {}
        }
        if ends {
            return self.cap_end(out);
        }
        End::Going
    }
    fn cap(&mut self, args: &[B], out: &mut Vec<Want>, ends: &mut bool) -> End {
        let list: Vec<(B, B)> = args
            .last()
            .unwrap()
            .split(|b| *b == b' ')
            .filter(|w| !w.is_empty())
            .map(|w| match w.iter().position(|b| *b == b'=') {
                Some(i) => (w[..i].to_vec(), w[i + 1..].to_vec()),
                None => (w.to_vec(), Vec::new()),
            })
            .collect();
        let names: Set = list.iter().map(|(k, _)| k.clone()).collect();
        let sub = args[1].to_ascii_uppercase();
        match sub.as_slice() {
            b"LS" | b"NEW" => {
                for (k, v) in list {
                    self.caps.entry(k).or_insert((v, false));
                }
                if sub == b"LS" && args.len() == 3 && matches!(self.st, St::Req) {
                    match self.caps.get(&b"sasl"[..]) {
                        Some((v, _)) => {
                            let mechs: Vec<B> = v.split(|b| *b == b',').map(|m| m.to_ascii_uppercase()).collect();
                            self.tries.retain(|t| mechs.iter().any(|m| m == t.name.as_bytes()));
                        }
                        None => self.tries.clear(),
                    }
                    let avail: Set = self.caps.keys().cloned().collect();
                    let mut want: Set = self.hard.clone();
                    want.extend(self.soft.intersection(&avail).cloned());
                    if !self.tries.is_empty() {
                        want.insert(b("sasl"));
                    }
                    let missing: Set = want.difference(&avail).cloned().collect();
                    let mut wrong = Vec::new();
                    if self.tries.is_empty() && self.needs {
                        wrong.push(Er::NoLogin);
                    }
                    if !missing.is_empty() {
                        wrong.push(Er::Missing(missing));
                    }
                    if !wrong.is_empty() {
                        return End::Failed(wrong);
                    }
                    want.remove(&b"sts"[..]);
                    if want.is_empty() {
                        *ends = true;
                    } else {
                        out.push(Want::Caps(want.clone()));
                        self.st = St::Ack(want);
                    }
                }
            }
            b"ACK" => {
                for k in &names {
                    self.caps.entry(k.clone()).or_default().1 = true;
                }
                if let St::Ack(wait) = &mut self.st {
                    wait.retain(|k| !names.contains(k));
                    if wait.is_empty() {
                        match sasl::Model::new(std::mem::take(&mut self.tries)) {
                            Some(m) => {
                                out.push(msg("AUTHENTICATE", vec![b(m.cur.name)]));
                                self.st = St::Sasl(m);
                            }
                            None => *ends = true,
                        }
                    }
                }
            }
            b"NAK" | b"DEL" => {
                if sub == b"DEL" {
                    self.caps.retain(|k, _| !names.contains(k));
                }
                if let St::Ack(wait) = &self.st {
                    let missing: Set = wait.intersection(&names).cloned().collect();
                    if !missing.is_empty() {
                        return fail(Er::Missing(missing));
                    }
                }
            }
            _ => return fail(Er::Broken),
        }
        End::Going
    }
}

/// The server's side of the conversation.
struct Net {
    name: Option<B>,
    /// Capabilities still to be listed.
    ls: VecDeque<Vec<B>>,
    auth: sasl::Server,
    names: Vec<B>,
    /// How hostile it is, of 100.
    ill: u32,
}
fn chunks(src: &mut Src, mut words: Vec<B>, many: usize) -> VecDeque<Vec<B>> {
    let mut out = VecDeque::new();
    while words.len() > 1 && out.len() + 1 < many {
        let k = src.range(0, words.len().min(400));
        out.push_back(words.drain(..k).collect());
    }
    out.push_back(words);
    out
}
fn token(src: &mut Src) -> B {
    let k = match src.below(3) {
        0 => b(src.pick(&["NICKLEN", "PREFIX", "CHANTYPES", "NETWORK", "CASEMAPPING"])),
        _ => plain_name(src, 10).to_ascii_uppercase(),
    };
    match src.below(26) {
        0 | 13..=17 => k,
        1 | 18..=22 => [k, b("=")].concat(),
        23 => [k, b(src.pick(&[":x", "!=x", ";", ",y=z", "\"=1"]))].concat(),
        24 => b(src.pick(&["=x", "=", "!", "!x=y", ";a=b"])),
        _ => {
            let v: B = of_kind(src, Kind::Arg, 10).into_iter().filter(|b| b.is_ascii_graphic()).collect();
            [k, b("="), v].concat()
        }
    }
}
fn mask(src: &mut Src, reg: &Reg) -> B {
    let nick = if src.chance(1, 4) { b("*") } else { reg.me.nick.clone() };
    match src.below(4) {
        0 => nick,
        1 => [nick, b("@host.example")].concat(),
        2 => [nick, b("!~user@10.0.0.1")].concat(),
        _ => [nick, b("!*@*")].concat(),
    }
}
impl Net {
    /// The next message: source, kind and arguments.
    fn next(&mut self, src: &mut Src, reg: &Reg) -> (Option<B>, String, Vec<B>) {
        let from = match src.below(20) {
            0 => None,
            1 => Some(b("other!them@elsewhere")),
            2 => self.name.clone().map(|n| if n.contains(&b'@') { n } else { [n, b("@elsewhere")].concat() }),
            _ => self.name.clone(),
        };
        let (k, a) = self.body(src, reg);
        (from, k, a)
    }
    fn body(&mut self, src: &mut Src, reg: &Reg) -> (String, Vec<B>) {
        let me = match src.below(4) {
            0 => b("*"),
            _ => reg.me.nick.clone(),
        };
        let cap = |sub: &str, words: &[B], more: bool| {
            let mut a = vec![me.clone(), b(sub)];
            if more {
                a.push(b("*"));
            }
            a.push(join(words, b' '));
            ("CAP".to_string(), a)
        };
        let r = src.below(100);
        if r < self.ill {
            // Something else than the next step.
            return match src.below(23) {
                0 => ("464".into(), vec![me, b("Password incorrect")]),
                1 => ("465".into(), vec![me, of_kind(src, Kind::Line, 12)]),
                2 => ("ERROR".into(), vec![b("Closing link")]),
                3 => ("FAIL".into(), vec![b("NICK"), b("X"), b("no")]),
                4 => (src.pick(&["437", "451", "461", "463", "568", "400"]).to_string(), vec![me, b("no")]),
                5 => ("005".into(), vec![me, b("Try server irc.example.net, port 6697")]),
                6 => (
                    "010".into(),
                    vec![me, b("irc2.example.net"), b(src.pick(&["6667", "65536", "x", "0"])), b("over there")],
                ),
                7 => (src.pick(&["376", "422", "004", "002", "003", "251", "600", "999"]).to_string(), vec![me, b("a"), b("b c")]),
                8 => ("001".into(), vec![me, b("hello")]),
                9 | 10 => {
                    let n = src.range(0, 3);
                    let mut v = Vec::new();
                    for _ in 0..n {
                        v.push(self.cap_name(src));
                    }
                    cap(src.pick(&["NAK", "DEL", "DEL", "del"]), &v, false)
                }
                11 | 12 => {
                    let mut v = Vec::new();
                    for _ in 0..src.range(0, 3) {
                        v.push(self.cap_name(src));
                    }
                    cap(src.pick(&["NEW", "ACK", "LS", "new", "Ack"]), &v, src.chance(1, 4))
                }
                13 => cap(src.pick(&["LIST", "WHAT"]), &[b("a")], false),
                // Losing a required login after the welcome is left open.
                14 if reg.needs && matches!(reg.st, St::End) => ("NOTICE".into(), vec![me, b("901")]),
                14 => ("901".into(), vec![me, mask(src, reg), b("You are now logged out")]),
                15 => (
                    "900".into(),
                    vec![me, mask(src, reg), of_kind(src, Kind::Arg, 8), b("You are now logged in")],
                ),
                16 => (src.pick(&["902", "904", "905", "906", "907", "903"]).to_string(), vec![me, b("sasl")]),
                17 => ("908".into(), vec![me, b("PLAIN"), b("mechanisms")]),
                18 => ("AUTHENTICATE".into(), vec![b("+")]),
                19 => ("PRIVMSG".into(), vec![me, b("376 :end")]),
                _ => self.nick_trouble(src, reg, me),
            };
        }
        if r < self.ill + 6 {
            let a = match src.below(3) {
                0 => vec![],
                1 => vec![of_kind(src, Kind::Line, 10)],
                _ => vec![b("x"), of_kind(src, Kind::Arg, 8)],
            };
            return ("PING".into(), a);
        }
        if r < self.ill + 12 {
            return ("NOTICE".into(), vec![me, b("*** Looking up your hostname")]);
        }
        match &reg.st {
            St::Req => {
                if src.chance(1, 8) {
                    return self.nick_trouble(src, reg, me);
                }
                match self.ls.pop_front() {
                    Some(l) => cap(src.pick(&["LS", "LS", "LS", "ls"]), &l, !self.ls.is_empty()),
                    None => ("001".into(), vec![me, b("Welcome")]),
                }
            }
            St::Ack(wait) => {
                if src.chance(1, 12) {
                    return self.nick_trouble(src, reg, me);
                }
                let mut w: Vec<B> = wait.iter().cloned().collect();
                if src.chance(1, 3) {
                    let k = src.range(1, w.len());
                    w.truncate(k);
                }
                if src.chance(1, 8) {
                    w.push(self.cap_name(src));
                }
                cap("ACK", &w, false)
            }
            St::Sasl(_) => {
                if src.chance(1, 4) {
                    let mut acct = of_kind(src, Kind::Arg, 8);
                    acct.retain(|b| b.is_ascii_graphic());
                    if !valid(Kind::Arg, &acct) {
                        acct = b("acct");
                    }
                    return ("900".into(), vec![me, mask(src, reg), acct, b("You are now logged in as someone")]);
                }
                let s = self.auth.next(src);
                (s.kind, s.args)
            }
            St::Welcome => match src.below(8) {
                0 => self.nick_trouble(src, reg, me),
                1 => ("903".into(), vec![me, b("SASL authentication successful")]),
                _ => ("001".into(), vec![if me == b"*" && src.bool() { b("renamed") } else { me }, b("Welcome to IRC")]),
            },
            St::End => match src.below(16) {
                0 => ("002".into(), vec![me, b("Your host is there")]),
                1 => ("003".into(), vec![me, b("Created then")]),
                2 | 3 => {
                    let mut a = vec![me, b("irc.example.com"), of_kind(src, Kind::Arg, 8), b("iw"), b("bnt")];
                    a.truncate(src.range(1, 5).max(2));
                    ("004".into(), a)
                }
                4..=8 => {
                    let mut a = vec![me];
                    for _ in 0..src.range(0, 8) {
                        a.push(token(src));
                    }
                    if src.chance(3, 4) {
                        a.push(b("are supported by this server"));
                    }
                    ("005".into(), a)
                }
                9 => (src.pick(&["251", "255", "375", "372", "042", "396", "600", "974", "999"]).to_string(), vec![me, b("some text")]),
                10 => cap("NEW", &[plain_name(src, 10)], false),
                11 => ("MODE".into(), vec![me, b("+i")]),
                _ => (src.pick(&["376", "422"]).to_string(), vec![me, b("End of MOTD")]),
            },
        }
    }
    fn cap_name(&self, src: &mut Src) -> B {
        if src.bool() && !self.names.is_empty() {
            src.pick(&self.names).clone()
        } else {
            plain_name(src, 10)
        }
    }
    fn nick_trouble(&self, src: &mut Src, reg: &Reg, me: B) -> (String, Vec<B>) {
        let k = match src.below(4) {
            // What becomes of random ones is for their generator to say.
            0 if matches!(&reg.nicks, Nicks::Twin(_)) => "432",
            1 => "436",
            _ => "433",
        };
        if matches!(reg.st, St::End) {
            // There is nothing more to complain about.
            return ("NOTICE".into(), vec![me, b("hm")]);
        }
        (k.into(), vec![me, reg.me.nick.clone(), b("Nickname is unusable")])
    }
}

fn line_of(from: &Option<B>, kind: &str, args: &[B]) -> B {
    let mut l = Vec::new();
    if let Some(f) = from {
        l.push(b':');
        l.extend_from_slice(f);
        l.push(b' ');
    }
    l.extend_from_slice(kind.as_bytes());
    for (i, a) in args.iter().enumerate() {
        l.push(b' ');
        if i + 1 == args.len() && (a.is_empty() || a.contains(&b' ') || a[0] == b':') {
            l.push(b':');
        }
        l.extend_from_slice(a);
    }
    l
}
fn error_of(e: HandlerError) -> Er {
    match e {
        HandlerError::NoAccess(l) => Er::NoAccess(l.as_bytes().to_vec()),
        HandlerError::NoNicks => Er::NoNicks,
        HandlerError::NoLogin => Er::NoLogin,
        HandlerError::Redirect(s, p, i) => Er::Redirect(s.as_bytes().to_vec(), p, i.as_bytes().to_vec()),
        HandlerError::ServerError(m) => Er::Server(m.kind.as_str().as_bytes().to_vec(), args_of(&m.args)),
        HandlerError::Broken(_) => Er::Broken,
        HandlerError::MissingCaps(c) => Er::Missing(c.iter().map(|k| k.as_bytes().to_vec()).collect()),
    }
}
/// Compares what was sent; tells which nickname was chosen if that was open.
fn compare(what: &dyn Fn() -> String, got: &[B], want: &[Want]) -> Result<Option<B>, String> {
    let mut nick = None;
    let mut at = 0;
    let mut msgs = Vec::new();
    for l in got {
        let m = ClientMsg::parse(l.clone()).map_err(|e| format!("{}: sent {}: {e}", what(), show(l)))?;
        msgs.push((m.cmd.as_bytes().to_vec(), args_of(&m.args)));
    }
    let bad = || {
        let got: Vec<String> = got.iter().map(|l| show(&l[..l.len().min(200)])).collect();
        format!("{}: sent {}, expected {}", what(), got.join(" / "), format!("{want:?}").chars().take(600).collect::<String>())
    };
    for w in want {
        let Some(m) = msgs.get(at) else { return Err(bad()) };
        match w {
            Want::Msg(k, a) => {
                if *k != m.0 || *a != m.1 {
                    return Err(bad());
                }
                at += 1;
            }
            Want::NickLike(p) => {
                if m.0 != b"NICK" || m.1.len() != 1 || !m.1[0].starts_with(p.as_bytes()) || !valid(Kind::Nick, &m.1[0]) {
                    return Err(bad());
                }
                nick = Some(m.1[0].clone());
                at += 1;
            }
            Want::Caps(set) => {
                let mut seen = Set::new();
                while let Some((k, a)) = msgs.get(at) {
                    if k != b"CAP" || a.len() != 2 || a[0] != b"REQ" {
                        break;
                    }
                    if got[at].len() > 510 {
                        return Err(format!("{}: a request of {} bytes", what(), got[at].len()));
                    }
                    for n in a[1].split(|b| *b == b' ').filter(|n| !n.is_empty()) {
                        if !seen.insert(n.to_vec()) {
                            return Err(bad());
                        }
                    }
                    at += 1;
                }
                if seen != *set {
                    return Err(bad());
                }
            }
        }
    }
    if at != msgs.len() {
        return Err(bad());
    }
    Ok(nick)
}

/// Runs one conversation.
#[allow(clippy::too_many_arguments)]
fn converse<O>(
    src: &mut Src,
    ctx: &mut Ctx,
    register: &Register<O>,
    opts: &O,
    opening: Vec<Want>,
    mut reg: Reg,
    seen: &dyn Fn() -> Vec<(usize, B)>,
) -> Result<(), String> {
    let mut names: Set = Set::new();
    for k in reg.hard.iter().chain(reg.soft.iter()) {
        if src.chance(14, 15) {
            names.insert(k.clone());
        }
    }
    for _ in 0..src.range(0, 6) {
        names.insert(plain_name(src, 20));
    }
    if reg.tries.is_empty() || src.chance(1, 10) {
        names.remove(&b"sasl"[..]);
    } else {
        names.insert(b("sasl"));
    }
    let mut offered: Vec<B> = Vec::new();
    for n in &names {
        let mut e = n.clone();
        if n == b"sasl" {
            // What a bare one means for the choice of mechanisms is left open.
            let mut mechs: Vec<B> = reg.tries.iter().filter(|_| src.chance(9, 10)).map(|t| b(t.name)).collect();
            mechs.push(b(src.pick(&["UNHEARD-OF", "ECDSA-NIST256P-CHALLENGE", "PLAIN"])));
            src.shuffle(&mut mechs);
            if src.chance(1, 8) {
                mechs.iter_mut().for_each(|m| m.make_ascii_lowercase());
            }
            e.push(b'=');
            e.extend(join(&mechs, b','));
        } else if src.chance(1, 5) {
            e.extend_from_slice(src.pick(&["=", "=a", "=a,b=c", "=port=6697"]).as_bytes());
        }
        offered.push(e);
    }
    src.shuffle(&mut offered);
    let many = src.range(1, 4);
    let ls = chunks(src, offered, many);
    let mut net = Net {
        name: match src.below(6) {
            0 => None,
            1 => Some(b("nick!user@host")),
            _ => Some(b("irc.example.com")),
        },
        ls: if src.chance(1, 8) { VecDeque::new() } else { ls },
        auth: sasl::Server::default(),
        names: names.into_iter().collect(),
        ill: *src.pick(&[0, 0, 0, 3, 10, 40]),
    };
    let mut talk = Talk::new();
    let (_, (recv, _parker)) = talk.client.add(register, opts).map_err(|_| "no handler".to_string())?;
    let got = talk.settle()?;
    if let Some(n) = compare(&|| "opening".into(), &got, &opening)? {
        reg.me.nick = n;
    }
    let mut trail: Vec<String> = Vec::new();
    let mut last = End::Going;
    let mut welcomed = false;
    for _ in 0..src.range(6, 40) {
        let (from, kind, args) = net.next(src, &reg);
        let line = line_of(&from, &kind, &args);
        trail.push(show(&line[..line.len().min(120)]));
        let (want, end) = reg.on(from.as_ref(), &kind, &args);
        let got = talk.tell(&line)?;
        let what = || format!("after {}", trail.join(" | "));
        if let Some(n) = compare(&what, &got, &want)? {
            reg.me.nick = n;
        }
        welcomed |= kind == "001";
        if end != End::Going {
            last = end;
            break;
        }
    }
    let what = || format!("after {}", trail.join(" | "));
    ensure!(seen() == reg.seen, "{}: challenges passed on", what());
    match (recv.recv_now(), &last) {
        (None, End::Going) => {
            ctx.label("going");
            ensure!(talk.client.state().get::<state::ClientSource>().is_none(), "{}: state saved before the end", what());
        }
        (Some(Ok(())), End::Done) => {
            ctx.label("done");
            let s = talk.client.state();
            let me = s.get::<state::ClientSource>().ok_or("no client source")?;
            ensure_eq!(who_of(me), reg.me, "{}: client source", what());
            let acct = s.get::<state::Account>().ok_or("no account")?;
            ensure_eq!(acct.as_ref().map(|a| a.as_bytes().to_vec()), reg.account, "{}: account", what());
            let c = s.get::<state::Caps>().ok_or("no caps")?;
            let mut have = BTreeMap::new();
            for k in c.keys() {
                let (_, v) = c.get_union_raw(k).ok_or("a key without a value")?;
                let on = *c.get_extra_raw(k).ok_or("a key without a state")?;
                have.insert(k.as_bytes().to_vec(), (v.as_bytes().to_vec(), on));
            }
            ensure_eq!(have, reg.caps, "{}: capabilities", what());
            let i = s.get::<state::ISupport>().ok_or("no isupport")?;
            let mut have = BTreeMap::new();
            for k in i.keys() {
                have.insert(k.as_bytes().to_vec(), i.get_union_raw(k).ok_or("no value")?.1.as_bytes().to_vec());
            }
            ensure_eq!(have, reg.isupport, "{}: ISUPPORT", what());
            let server = s.get::<state::ServerSource>().map(who_of);
            ensure_eq!(server, reg.server.as_ref().map(|s| who(s)), "{}: server source", what());
            let ver = s.get::<state::ServerVersion>().map(|v| v.as_bytes().to_vec());
            ensure_eq!(ver, reg.version, "{}: server version", what());
            ensure!(welcomed, "{}: success without a welcome", what());
            ensure!(!reg.needs || reg.account.is_some(), "{}: success without a login", what());
            if trail.len() > 4 {
                ctx.nontrivial();
            }
        }
        (Some(Err(e)), End::Failed(want)) => {
            let e = error_of(e);
            ctx.label(match e {
                Er::NoAccess(_) => "no access",
                Er::NoNicks => "no nicks",
                Er::NoLogin => "no login",
                Er::Redirect(..) => "redirect",
                Er::Server(..) => "server error",
                Er::Broken => "broken",
                Er::Missing(_) => "missing",
            });
            ensure!(want.contains(&e), "{}: failed with {e:?}, expected {want:?}", what());
            if trail.len() > 4 {
                ctx.nontrivial();
            }
        }
        (got, want) => return Err(format!("{}: ended with {:?}, expected {want:?}", what(), got.map(|r| r.map_err(error_of)))),
    }
    if last != End::Going {
        // It is over.
        for l in ["PING x", "433 * me :in use", "CAP * LS :sasl", "376 me :end"] {
            ensure!(talk.tell(l.as_bytes())?.is_empty(), "{}: sent something after the end", what());
        }
    }
    ctx.sample(what);
    Ok(())
}

fn set(src: &mut Src, max: usize) -> Set {
    let mut s = Set::new();
    for _ in 0..src.range(0, max) {
        let n = plain_name(src, 40);
        // Requested along with the mechanisms.
        if n != b"sasl" {
            s.insert(n);
        }
    }
    s
}

fn custom(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (auths, tries, seen) = if src.chance(2, 3) { sasl::queue(src, 3) } else { sasl::queue(src, 0) };
    let n = src.range(1, 4);
    let opts = Opts {
        pass: src.chance(1, 3).then(|| Line::from_bytes(of_kind(src, Kind::Line, 12)).unwrap().secret()),
        user: User::from_bytes(of_kind(src, Kind::User, 10)).unwrap(),
        p1: Arg::from_bytes(of_kind(src, Kind::Arg, 6)).unwrap(),
        p2: Arg::from_bytes(of_kind(src, Kind::Arg, 6)).unwrap(),
        real: Line::from_bytes(of_kind(src, Kind::Line, 20)).unwrap(),
        nicks: (0..n).map(|_| Nick::from_bytes(of_kind(src, Kind::Nick, 9)).unwrap()).collect(),
        suffix: src.bool().then(|| &NT_FALLBACK),
        hard: if src.chance(1, 3) { set(src, 3) } else { Set::new() },
        soft: match src.below(4) {
            0 => set(src, 40),
            _ => set(src, 5),
        },
        needs: src.bool(),
        auths,
    };
    let (first, rest) = opts.nickgen().next_nick();
    let me = Who { nick: first.as_bytes().to_vec(), user: None, host: None };
    let mut opening = Vec::new();
    if let Some(p) = &opts.pass {
        opening.push(msg("PASS", vec![p.as_bytes().to_vec()]));
    }
    opening.push(msg("CAP", vec![b("LS"), b("302")]));
    let u = [opts.user.as_bytes(), opts.p1.as_bytes(), opts.p2.as_bytes(), opts.real.as_bytes()];
    opening.push(msg("USER", u.iter().map(|v| v.to_vec()).collect()));
    opening.push(msg("NICK", vec![me.nick.clone()]));
    let reg = Reg {
        st: St::Req,
        hard: opts.hard.clone(),
        soft: opts.soft.clone(),
        tries,
        needs: opts.needs,
        nicks: Nicks::Twin(rest),
        me,
        account: None,
        server: None,
        caps: BTreeMap::new(),
        version: None,
        isupport: BTreeMap::new(),
        seen: Vec::new(),
    };
    let seen = move || seen.lock().unwrap().clone();
    converse(src, ctx, &Opts::register(), &opts, opening, reg, &seen)
}

/// The ready-made registrations.
fn ready(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let bot = src.bool();
    let mut opts: Options<Clear, sasl::Config> = Options::new();
    let mut opening = Vec::new();
    if src.chance(1, 3) {
        let p = of_kind(src, Kind::Line, 12);
        opts.set_pass(p.clone()).map_err(|e| format!("set_pass: {e}"))?;
        opening.push(msg("PASS", vec![p]));
    }
    opening.push(msg("CAP", vec![b("LS"), b("302")]));
    let (mut user, mut real) = if bot { (b("vnzb_bot"), b("Vinezombie Bot")) } else { (b("user"), b("???")) };
    if src.bool() {
        user = of_kind(src, Kind::User, 10);
        opts.username = Some(User::from_bytes(user.clone()).unwrap());
    }
    if src.bool() {
        real = of_kind(src, Kind::Line, 20);
        opts.realname = Some(Line::from_bytes(real.clone()).unwrap());
    }
    opening.push(msg("USER", vec![user, b("8"), b("*"), real]));
    let n = src.range(0, 3);
    opts.nicks = (0..n).map(|_| Nick::from_bytes(of_kind(src, Kind::Nick, 9)).unwrap()).collect();
    let list: Vec<B> = opts.nicks.iter().map(|n| n.as_bytes().to_vec()).collect();
    let mut nicks = if bot {
        Nicks::Random(list.iter().skip(1).cloned().collect(), "VNZB")
    } else if list.is_empty() {
        Nicks::Random(VecDeque::new(), "Guest")
    } else {
        Nicks::Twin(Some(default_client_nicks(opts.nicks.clone())))
    };
    let me = Who {
        nick: match &mut nicks {
            Nicks::Twin(g) => {
                let (n, rest) = g.take().unwrap().next_nick();
                *g = rest;
                ensure_eq!(show(&n), show(&list[0]), "first nickname");
                n.as_bytes().to_vec()
            }
            Nicks::Random(_, like) => list.first().cloned().unwrap_or_else(|| b(like)),
        },
        user: None,
        host: None,
    };
    opening.push(match &nicks {
        Nicks::Random(_, like) if list.is_empty() => Want::NickLike(like),
        _ => msg("NICK", vec![me.nick.clone()]),
    });
    let (auths, tries, seen) = sasl::queue(src, 2);
    for a in auths {
        opts.add_sasl(a);
    }
    opts.allow_sasl_fail = src.bool();
    let wanted = set(src, 4);
    opts.caps = keys(&wanted);
    let common: Set = common_caps().iter().map(|k| k.as_bytes().to_vec()).collect();
    let needs = !opts.allow_sasl_fail && !tries.is_empty();
    let reg = Reg {
        st: St::Req,
        hard: if bot { wanted.clone() } else { Set::new() },
        soft: if bot { Set::new() } else { wanted.union(&common).cloned().collect() },
        tries,
        needs,
        nicks,
        me,
        account: None,
        server: None,
        caps: BTreeMap::new(),
        version: None,
        isupport: BTreeMap::new(),
        seen: Vec::new(),
    };
    let seen = move || seen.lock().unwrap().clone();
    if bot {
        converse(src, ctx, &register_as_bot(), &opts, opening, reg, &seen)
    } else {
        converse(src, ctx, &register_as_client(), &opts, opening, reg, &seen)
    }
}

pub fn c15() -> Vec<Facet> {
    let rule = "registration ended after five server messages or more";
    vec![facet("custom", 150_000, 2_000_000, custom, rule), facet("ready", 100_000, 1_500_000, ready, rule)]
}
