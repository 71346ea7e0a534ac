//! C16: SASL conversations and base64 chunks.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::talk::Talk;
use crate::{ensure, ensure_eq};
use ::base64::engine::{general_purpose::STANDARD, Engine};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use vinezombie::client::auth::{self, sasl, HandlerError, Sasl, SaslLogic, SaslQueue, Secret};
use vinezombie::ircmsg::*;
use vinezombie::names::cmd::AUTHENTICATE;
use vinezombie::string::base64::{ChunkDecoder, ChunkEncoder};
use vinezombie::string::*;

/// The pieces in which a payload travels.
pub fn pieces(payload: &[u8], max: usize) -> Vec<Vec<u8>> {
    let text = STANDARD.encode(payload).into_bytes();
    let mut out: Vec<Vec<u8>> = text.chunks(max).map(|c| c.to_vec()).collect();
    if text.len() % max == 0 {
        out.push(b"+".to_vec());
    }
    out
}
/// A payload whose length is near where its base64 form fills a whole number of chunks.
pub fn payload(src: &mut Src, max: usize) -> Vec<u8> {
    let full = max / 4 * 3;
    let n = match src.below(6) {
        0 => 0,
        1 => src.range(0, 4),
        2 | 3 => (full * src.range(1, 3) + src.range(0, 6)).saturating_sub(3),
        _ => src.range(0, full.max(1) * 2),
    };
    let seed = src.below(256) as usize;
    let mut v: Vec<u8> = (0..n).map(|i| (seed + i * 37 + i / 7) as u8).collect();
    if src.chance(1, 4) {
        // Bytes whose base64 form is made of plus signs.
        let k = src.usize_below(n + 1);
        for (i, b) in v[k..].iter_mut().enumerate() {
            *b = [0xfb, 0xef, 0xbe][i % 3];
        }
    }
    v
}

fn chunks(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let max = match src.below(6) {
        0 => 400,
        1 => src.range(1, 4),
        2 => src.range(0, 12),
        3 => 4 * src.range(1, 20),
        _ => src.range(1, 60),
    };
    let data = payload(src, max.max(4));
    let secret = src.bool();
    ctx.sample(|| format!("{} bytes in pieces of {max}", data.len()));
    let mut enc = ChunkEncoder::new(&data, max, secret);
    if max == 0 {
        ensure!(enc.is_empty() && enc.len() == 0 && enc.next().is_none(), "pieces of no bytes");
        return Ok(());
    }
    let want = pieces(&data, max);
    for (i, w) in want.iter().enumerate() {
        ensure!(!enc.is_empty(), "{} bytes in pieces of {max}: empty before piece {i}", data.len());
        ensure_eq!(enc.len(), want.len() - i, "{} bytes in pieces of {max}: pieces left at {i}", data.len());
        ensure_eq!(enc.size_hint(), (want.len() - i, Some(want.len() - i)), "size hint");
        let got = if src.chance(1, 8) { enc.clone().next() } else { enc.clone().last().and(enc.clone().next()) };
        let next = enc.next();
        ensure!(got == next, "a clone of the encoder differs");
        let Some(next) = next else {
            return Err(format!("{} bytes in pieces of {max}: only {i} of {} pieces", data.len(), want.len()));
        };
        ensure_eq!(show(&next), show(w), "{} bytes in pieces of {max}: piece {i}", data.len());
        ensure_eq!(next.is_secret(), secret, "secrecy of a piece");
    }
    ensure!(enc.next().is_none() && enc.next().is_none() && enc.len() == 0 && enc.is_empty(), "more pieces than {}", want.len());
    if want.len() > 1 {
        ctx.nontrivial();
    }
    // With an odd size a piece can be a lone plus sign of the data itself.
    if max % 2 == 0 {
        let mut dec = ChunkDecoder::new(max);
        for round in 0..2 {
            for (i, w) in want.iter().enumerate() {
                let r = dec.add(w);
                if i + 1 < want.len() {
                    ensure!(r.is_none(), "{} bytes in pieces of {max}: decoded after piece {i}", data.len());
                } else {
                    let r = r.ok_or(format!("{} bytes in pieces of {max}: not decoded at the end", data.len()))?;
                    let r = r.map_err(|e| format!("{} bytes in pieces of {max}: {e}", data.len()))?;
                    ensure_eq!(show(&r), show(&data), "decoded (round {round}, pieces of {max})");
                }
            }
            if src.bool() {
                // Stopping early decodes what there is.
                let k = src.usize_below(want.len() + 1).min(want.len() - 1);
                for w in &want[..k] {
                    dec.add(w);
                }
                let flat: Vec<u8> = want[..k].concat();
                ensure_eq!(dec.decode().ok().map(|b| show(&b)), STANDARD.decode(flat).ok().map(|b| show(&b)), "decoding early");
            }
        }
    }
    // Arbitrary pieces.
    let len = src.range(1, 8);
    let mut dec = ChunkDecoder::new(len);
    let mut acc: Vec<u8> = Vec::new();
    for _ in 0..src.range(0, 6) {
        let p: Vec<u8> = match src.below(4) {
            0 => b"+".to_vec(),
            1 => of_kind(src, Kind::Word, 6),
            _ => (0..src.range(0, 9)).map(|_| *src.pick(b"AAaz09+/=")).collect(),
        };
        let done = p.len() < len;
        if !(done && p == b"+") {
            acc.extend_from_slice(&p);
        }
        let r = dec.add(&p);
        let want = done.then(|| STANDARD.decode(std::mem::take(&mut acc)).ok().map(|b| show(&b)));
        ensure_eq!(r.map(|r| r.ok().map(|b| show(&b))), want, "adding {} (pieces of {len})", show(&p));
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Mech {
    /// What it answers each time it is asked; then it refuses.
    Scripted(&'static str, Vec<Option<Vec<u8>>>),
    Plain { z: Vec<u8>, c: Vec<u8>, p: Vec<u8>, any: bool },
    External(Vec<u8>),
    /// Supports nothing.
    Denied,
}
type Seen = Arc<Mutex<Vec<(usize, Vec<u8>)>>>;
struct Logic(usize, &'static str, VecDeque<Option<Vec<u8>>>, Seen);
impl SaslLogic for Logic {
    fn name(&self) -> Arg<'static> {
        Arg::from_str(self.1)
    }
    fn reply(&mut self, input: &[u8], out: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        self.3.lock().unwrap().push((self.0, input.to_vec()));
        match self.2.pop_front().flatten() {
            Some(p) => {
                out.push_slice(&p);
                Ok(())
            }
            None => Err("as scripted".into()),
        }
    }
}
pub struct Config(usize, Mech, Seen);
impl Sasl for Config {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        let nn = |v: &Vec<u8>| NoNul::from_bytes(v.clone()).unwrap();
        match &self.1 {
            Mech::Scripted(n, r) => vec![Box::new(Logic(self.0, n, r.clone().into(), self.2.clone()))],
            Mech::Plain { z, c, p, any: true } => {
                let mut s: sasl::Password<()> = sasl::Password::new(nn(c), Secret::new(nn(p).secret()));
                s.authzid = nn(z);
                s.logic()
            }
            Mech::Plain { z, c, p, any: false } => {
                let mut s: sasl::Plain<()> = sasl::Plain::new(nn(c), Secret::new(nn(p).secret()));
                s.authzid = nn(z);
                s.logic()
            }
            Mech::External(z) => sasl::External(nn(z)).logic(),
            Mech::Denied => {
                let mut s: sasl::Password<()> = sasl::Password::new(NoNul::from_str("me"), Secret::new(NoNul::from_str("pw")));
                s.deny_methods.insert(sasl::PasswordMechanism::Plain);
                s.logic()
            }
        }
    }
}
/// One mechanism to try, as the model sees it.
#[derive(Clone, Debug)]
pub struct Try {
    id: usize,
    pub name: &'static str,
    mech: Mech,
    asked: usize,
}
impl Try {
    /// What it answers, or nothing if it refuses.
    fn answer(&mut self, chal: &[u8], seen: &mut Vec<(usize, Vec<u8>)>) -> Option<Vec<u8>> {
        self.asked += 1;
        match &self.mech {
            Mech::Scripted(_, r) => {
                seen.push((self.id, chal.to_vec()));
                r.get(self.asked - 1).cloned().flatten()
            }
            Mech::Plain { z, c, p, .. } => {
                (chal.is_empty() && self.asked == 1).then(|| [z.as_slice(), b"\0", c, b"\0", p].concat())
            }
            Mech::External(z) => chal.is_empty().then(|| z.clone()),
            Mech::Denied => None,
        }
    }
}
pub fn mech(src: &mut Src) -> Mech {
    match src.below(8) {
        0 | 1 => {
            let name = *src.pick(&["ALPHA", "BETA", "PLAIN", "GAMMA-256", "X"]);
            let n = src.range(0, 3);
            Mech::Scripted(name, (0..n).map(|_| (!src.chance(1, 5)).then(|| payload(src, 400))).collect())
        }
        2 | 3 | 4 => {
            let z = if src.bool() { Vec::new() } else { of_kind(src, Kind::NoNul, 8) };
            let c = of_kind(src, Kind::NoNul, 12);
            let mut p = of_kind(src, Kind::NoNul, 12);
            if src.chance(1, 3) {
                // At and around a payload of 300 bytes, which fills a piece exactly.
                let to = (300usize * src.range(1, 2) + src.range(0, 4)).saturating_sub(2 + z.len() + c.len() + 2);
                p.resize(to.max(1), b'p');
            }
            Mech::Plain { z, c, p, any: src.bool() }
        }
        5 | 6 => Mech::External(match src.below(3) {
            0 => Vec::new(),
            1 => of_kind(src, Kind::NoNul, 8),
            _ => vec![b'z'; 298 + src.range(0, 4)],
        }),
        _ => Mech::Denied,
    }
}
/// A queue of mechanisms, twice: for the library and for the model.
pub fn queue(src: &mut Src, max: usize) -> (Vec<Config>, VecDeque<Try>, Seen) {
    let seen = Seen::default();
    let n = src.range(0, max);
    let mechs: Vec<Mech> = (0..n).map(|_| mech(src)).collect();
    let tries = mechs
        .iter()
        .enumerate()
        .filter_map(|(id, m)| {
            let name = match m {
                Mech::Scripted(n, _) => n,
                Mech::Plain { .. } => "PLAIN",
                Mech::External(_) => "EXTERNAL",
                Mech::Denied => return None,
            };
            Some(Try { id, name, mech: m.clone(), asked: 0 })
        })
        .collect();
    let cfgs = mechs.into_iter().enumerate().map(|(i, m)| Config(i, m, seen.clone())).collect();
    (cfgs, tries, seen)
}

pub fn auth_line(arg: &[u8]) -> Vec<u8> {
    [b"AUTHENTICATE ", arg].concat()
}

/// The reference for one exchange, from the moment the first mechanism was announced.
#[derive(Clone, Debug)]
pub struct Model {
    pub cur: Try,
    pub queue: VecDeque<Try>,
    acc: Vec<u8>,
    pub seen: Vec<(usize, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Going,
    Done,
    /// Some implementation of the server's is broken; named if it is a mechanism.
    Broken(Option<&'static str>),
    Unsupported,
    Fail(Vec<u8>),
}
impl Model {
    pub fn new(mut queue: VecDeque<Try>) -> Option<Model> {
        let cur = queue.pop_front()?;
        Some(Model { cur, queue, acc: Vec::new(), seen: Vec::new() })
    }
    fn next(&mut self) -> bool {
        self.acc.clear();
        match self.queue.pop_front() {
            Some(t) => {
                self.cur = t;
                true
            }
            None => false,
        }
    }
    fn keep(&mut self, names: &[Vec<u8>]) {
        self.queue.retain(|t| names.iter().any(|n| n == t.name.as_bytes()));
    }
    /// What is sent in answer to a message, and where that leaves the exchange.
    pub fn on(&mut self, kind: &str, args: &[Vec<u8>]) -> (Vec<Vec<u8>>, Outcome) {
        let mut out = Vec::new();
        let res = match kind {
            "AUTHENTICATE" => {
                let complete = match args.first() {
                    Some(p) => {
                        if p != b"+" {
                            self.acc.extend_from_slice(p);
                        }
                        p.len() < 400
                    }
                    None => true,
                };
                if !complete {
                    return (out, Outcome::Going);
                }
                let Ok(chal) = STANDARD.decode(std::mem::take(&mut self.acc)) else {
                    out.push(auth_line(b"*"));
                    return (out, Outcome::Broken(None));
                };
                match self.cur.answer(&chal, &mut self.seen) {
                    Some(p) => {
                        out.extend(pieces(&p, 400).iter().map(|c| auth_line(c)));
                        Outcome::Going
                    }
                    None => {
                        out.push(auth_line(b"*"));
                        let name = self.cur.name;
                        self.queue.retain(|t| t.name != name);
                        // The next one is announced once the server confirms that this one stopped.
                        if self.next() {
                            Outcome::Going
                        } else {
                            Outcome::Broken(Some(name))
                        }
                    }
                }
            }
            "902" | "904" => {
                if self.next() {
                    out.push(auth_line(self.cur.name.as_bytes()));
                    Outcome::Going
                } else {
                    Outcome::Fail(args.last().cloned().unwrap_or_default())
                }
            }
            "905" => Outcome::Broken(None),
            "906" => {
                self.acc.clear();
                out.push(auth_line(self.cur.name.as_bytes()));
                Outcome::Going
            }
            "908" => {
                let names: Vec<Vec<u8>> = match args.get(1) {
                    Some(l) => l.split(|b| *b == b',').map(|n| n.to_ascii_uppercase()).collect(),
                    None => return (out, Outcome::Going),
                };
                self.keep(&names);
                if self.queue.is_empty() && !names.iter().any(|n| n == self.cur.name.as_bytes()) {
                    Outcome::Unsupported
                } else {
                    Outcome::Going
                }
            }
            "900" | "903" | "907" => Outcome::Done,
            _ => Outcome::Going,
        };
        (out, res)
    }
}

/// The server's next message: its kind, its arguments and the line.
pub struct Step {
    pub kind: String,
    pub args: Vec<Vec<u8>>,
    pub line: Vec<u8>,
}
fn step(kind: &str, args: Vec<Vec<u8>>) -> Step {
    let mut line = kind.as_bytes().to_vec();
    for (i, a) in args.iter().enumerate() {
        line.push(b' ');
        if i + 1 == args.len() && (a.is_empty() || a.contains(&b' ') || a[0] == b':') {
            line.push(b':');
        }
        line.extend_from_slice(a);
    }
    Step { kind: kind.into(), args, line }
}
/// Generates server messages, challenges possibly spread over several.
#[derive(Default)]
pub struct Server {
    pending: VecDeque<Vec<u8>>,
}
impl Server {
    pub fn next(&mut self, src: &mut Src) -> Step {
        let nick = b"me".to_vec();
        if !self.pending.is_empty() && src.chance(9, 10) {
            return step("AUTHENTICATE", vec![self.pending.pop_front().unwrap()]);
        }
        match src.below(24) {
            0..=7 => step("AUTHENTICATE", vec![b"+".to_vec()]),
            8..=10 => {
                let data = payload(src, 400);
                self.pending = pieces(&data, 400).into();
                step("AUTHENTICATE", vec![self.pending.pop_front().unwrap()])
            }
            11 => match src.below(3) {
                0 => step("AUTHENTICATE", vec![]),
                1 => step("AUTHENTICATE", vec![src.pick(&["A", "====", "!!!!", "AAA", "AA=A", "YQ"]).as_bytes().to_vec()]),
                _ => step("AUTHENTICATE", vec![vec![*src.pick(b"A-"); src.range(396, 400)]]),
            },
            12..=14 => {
                self.pending.clear();
                let why = if src.bool() { b"SASL authentication failed".to_vec() } else { of_kind(src, Kind::Line, 9) };
                let k = *src.pick(&["904", "904", "902"]);
                match src.below(10) {
                    0 => step(k, vec![]),
                    _ => step(k, vec![nick, why]),
                }
            }
            15 => step("905", vec![nick, b"SASL message too long".to_vec()]),
            16 | 17 => step("906", vec![nick, b"SASL authentication aborted".to_vec()]),
            18 | 19 => {
                let mut mechs: Vec<u8> = Vec::new();
                for _ in 0..src.range(1, 5) {
                    if !mechs.is_empty() {
                        mechs.push(b',');
                    }
                    mechs.extend_from_slice(src.pick(&["PLAIN", "EXTERNAL", "ALPHA", "BETA", "X", "UNHEARD-OF", "plain"]).as_bytes());
                }
                step("908", vec![nick, mechs, b"are available SASL mechanisms".to_vec()])
            }
            20 if src.bool() => step(
                "900",
                vec![nick, b"me!user@host".to_vec(), b"account".to_vec(), b"You are now logged in as account".to_vec()],
            ),
            21 if src.bool() => step("903", vec![nick, b"SASL authentication successful".to_vec()]),
            22 if src.chance(1, 3) => step("907", vec![nick, b"You have already authenticated".to_vec()]),
            _ => match src.below(4) {
                0 => step("NOTICE", vec![nick, b"AUTHENTICATE +".to_vec()]),
                1 => step("901", vec![nick, b"me!user@host".to_vec(), b"You are now logged out".to_vec()]),
                2 => step("PRIVMSG", vec![nick, b"904".to_vec()]),
                _ => step("421", vec![nick, b"FOO".to_vec(), b"Unknown command".to_vec()]),
            },
        }
    }
}
fn outcome(r: &Result<bool, HandlerError>) -> Outcome {
    match r {
        Ok(false) => Outcome::Going,
        Ok(true) => Outcome::Done,
        Err(HandlerError::Broken(n)) => {
            let names = ["ALPHA", "BETA", "PLAIN", "GAMMA-256", "X", "EXTERNAL"];
            Outcome::Broken(names.iter().find(|m| n == m.as_bytes()).copied())
        }
        Err(HandlerError::Unsupported) => Outcome::Unsupported,
        Err(HandlerError::Fail(l)) => Outcome::Fail(l.as_bytes().to_vec()),
    }
}
fn text(out: &[Vec<u8>]) -> Vec<String> {
    out.iter().map(|l| if l.len() > 60 { format!("{}…({})", show(&l[..40]), l.len()) } else { show(l) }).collect()
}
fn same_lines(what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> Result<(), String> {
    ensure!(got == want, "{what}: sent {:?}, expected {:?}", text(got), text(want));
    Ok(())
}

/// The handler driven by hand.
fn exchange(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (cfgs, tries, seen) = queue(src, 4);
    let q: SaslQueue = if src.bool() {
        cfgs.iter().collect()
    } else {
        let mut q = SaslQueue::new();
        for c in &cfgs {
            q.push(c);
        }
        q
    };
    ensure_eq!((q.len(), q.is_empty()), (tries.len(), tries.is_empty()), "mechanisms in the queue");
    let h = auth::Handler::from_queue(q);
    ensure_eq!(h.is_some(), !tries.is_empty(), "a handler for {} mechanisms", tries.len());
    let Some(mut h) = h else { return Ok(()) };
    let mut m = Model::new(tries).unwrap();
    let line = |m: &ClientMsg| {
        let mut v = Vec::new();
        ClientCodec::write_to(m, &mut v).unwrap();
        v
    };
    ensure_eq!(show(&line(&h.auth_msg())), show(&auth_line(m.cur.name.as_bytes())), "opening message");
    let mut server = Server::default();
    let mut trail: Vec<String> = cfgs.iter().map(|c| format!("{:?}", c.1).chars().take(60).collect()).collect();
    let mut steps = 0;
    for _ in 0..src.range(1, 14) {
        if src.chance(1, 24) {
            // The caller learns which mechanisms are supported.
            let names: Vec<Vec<u8>> = ["PLAIN", "EXTERNAL", "ALPHA", "BETA"].iter().filter(|_| src.bool()).map(|s| s.as_bytes().to_vec()).collect();
            m.keep(&names);
            let want = if names.iter().any(|n| n == m.cur.name.as_bytes()) {
                None
            } else {
                Some(m.next())
            };
            let got = h.retain(&|n: &Arg<'_>| names.iter().any(|m| *n == m.as_slice()));
            trail.push(format!("retain {:?}", text(&names)));
            ensure_eq!(got, want, "retain after {}", trail.join(" | "));
            if want == Some(false) {
                break;
            }
            ensure_eq!(show(&line(&h.auth_msg())), show(&auth_line(m.cur.name.as_bytes())), "mechanism after {}", trail.join(" | "));
        }
        let s = server.next(src);
        trail.push(text(&[s.line.clone()]).join(""));
        let msg = ServerMsg::parse(s.line.clone()).map_err(|e| format!("{}: {e}", show(&s.line)))?;
        let mut sent: Vec<ClientMsg<'static>> = Vec::new();
        let r = h.handle(&msg, |m: ClientMsg<'static>| sent.push(m));
        let (want, res) = m.on(&s.kind, &s.args);
        let got: Vec<Vec<u8>> = sent.iter().map(line).collect();
        same_lines(&format!("after {}", trail.join(" | ")), &got, &want)?;
        ensure_eq!(outcome(&r), res, "outcome after {}", trail.join(" | "));
        // What carries credentials is secret.
        if s.kind == "AUTHENTICATE" {
            for msg in &sent {
                if msg.args.words()[0] != "*" {
                    ensure!(msg.args.words()[0].is_secret(), "a piece of the payload is not secret");
                }
            }
        }
        steps += 1;
        if res != Outcome::Going {
            ctx.label(match res {
                Outcome::Done => "done",
                Outcome::Broken(_) => "broken",
                Outcome::Unsupported => "unsupported",
                _ => "fail",
            });
            break;
        }
    }
    ensure!(*seen.lock().unwrap() == m.seen, "challenges as the mechanisms saw them, after {}", trail.join(" | "));
    if steps > 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

/// The same through a client.
fn client(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (cfgs, mut tries, seen) = queue(src, 3);
    let mut talk = Talk::new();
    let added = if src.bool() || cfgs.is_empty() {
        talk.client.add(AUTHENTICATE, cfgs.iter().collect::<SaslQueue>())
    } else {
        tries.retain(|t| t.id == 0);
        talk.client.add(AUTHENTICATE, &cfgs[0])
    };
    ensure_eq!(added.is_ok(), !tries.is_empty(), "adding a handler for {} mechanisms", tries.len());
    let Ok((_, (recv, _parker))) = added else { return Ok(()) };
    let mut m = Model::new(tries).unwrap();
    let first = talk.settle()?;
    same_lines("opening", &first, &[auth_line(m.cur.name.as_bytes())])?;
    let mut server = Server::default();
    let mut trail: Vec<String> = Vec::new();
    let mut end = Outcome::Going;
    for _ in 0..src.range(1, 12) {
        let s = server.next(src);
        trail.push(text(&[s.line.clone()]).join(""));
        let got = talk.tell(&s.line)?;
        let (want, res) = m.on(&s.kind, &s.args);
        same_lines(&format!("after {}", trail.join(" | ")), &got, &want)?;
        if res != Outcome::Going {
            end = res;
            break;
        }
    }
    ensure!(*seen.lock().unwrap() == m.seen, "challenges as the mechanisms saw them, after {}", trail.join(" | "));
    let got = match recv.recv_now() {
        None => Outcome::Going,
        Some(r) => outcome(&r.map(|_| true)),
    };
    ensure_eq!(got, end, "result received after {}", trail.join(" | "));
    if trail.len() > 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| trail.join(" | "));
    Ok(())
}

pub fn c16() -> Vec<Facet> {
    vec![
        facet("chunks", 40_000, 800_000, chunks, "the payload needs more than one piece"),
        facet("exchange", 60_000, 1_500_000, exchange, "three server messages or more were handled"),
        facet("client", 20_000, 500_000, client, "three server messages or more were handled"),
    ]
}
