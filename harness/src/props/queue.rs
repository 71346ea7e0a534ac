//! C13: the rate-limited outgoing queue, in virtual time.

use super::facet;
use crate::engine::*;
use crate::gen::*;
use crate::{clock, ensure, ensure_eq};
use std::collections::{HashSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::queue::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

/// Contents of a message, as far as the model is concerned.
type Flat = (Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>, Vec<Vec<u8>>);
pub fn flat(m: &ClientMsg) -> Flat {
    (
        super::msg::tags_of(&m.tags).unwrap(),
        m.cmd.to_vec(),
        args_of(&m.args),
    )
}

/// What an adjuster does, told by its parameters.
#[derive(Clone, Debug)]
struct Rule {
    id: u8,
    /// Adjusts on numerics whose value is divisible by this.
    every: u16,
    /// Drops messages whose number is divisible by this; 0 for never.
    drops: u32,
    /// Adds a word to the messages it sees.
    marks: bool,
    /// Stops adjusting after this many times, until reset.
    charges: u32,
}
#[derive(Debug, PartialEq, Eq, Clone)]
enum Call {
    Should(u8),
    Update(u8, u32),
    Reset(u8),
}
struct Adj {
    rule: Rule,
    left: u32,
    log: Arc<Mutex<Vec<Call>>>,
}
fn num(m: &ClientMsg) -> u32 {
    std::str::from_utf8(&args_of(&m.args)[0]).unwrap().parse().unwrap()
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.log.lock().unwrap().push(Call::Should(self.rule.id));
        let n: u16 = match &msg.kind {
            ServerMsgKindRaw::Numeric(n) => n.into_int(),
            _ => 0,
        };
        if n % self.rule.every == 0 && self.left > 0 {
            self.left -= 1;
            true
        } else {
            false
        }
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let n = num(msg);
        self.log.lock().unwrap().push(Call::Update(self.rule.id, n));
        if self.rule.marks {
            msg.args.edit().add_word(Arg::from_bytes(format!("m{}", self.rule.id)).unwrap());
        }
        !(self.rule.drops != 0 && n % self.rule.drops == 0)
    }
    fn reset(&mut self) {
        self.log.lock().unwrap().push(Call::Reset(self.rule.id));
        self.left = self.rule.charges;
    }
}
#[derive(Clone, Debug)]
struct AdjModel {
    rule: Rule,
    left: u32,
}
impl AdjModel {
    fn should(&mut self, n: u16) -> bool {
        if n % self.rule.every == 0 && self.left > 0 {
            self.left -= 1;
            true
        } else {
            false
        }
    }
    fn update(&self, f: &mut Flat) -> bool {
        let n: u32 = std::str::from_utf8(&f.2[0]).unwrap().parse().unwrap();
        if self.rule.marks {
            f.2.push(format!("m{}", self.rule.id).into_bytes());
        }
        !(self.rule.drops != 0 && n % self.rule.drops == 0)
    }
}

/// The rate limit as a token bucket, in nanoseconds of virtual time.
#[derive(Clone, Debug)]
pub struct Bucket {
    pub delay: u128,
    pub burst: u32,
    /// The time by which every message sent so far has been paid for.
    pub paid: u128,
}
impl Bucket {
    pub fn new(now: u64) -> Bucket {
        Bucket { delay: 2_000_000_000, burst: 4, paid: now as u128 }
    }
    pub fn wait(&self, now: u64) -> u128 {
        let slack = self.delay * self.burst as u128;
        self.paid.saturating_sub(now as u128 + slack)
    }
    pub fn take(&mut self, now: u64) {
        self.paid = self.paid.max(now as u128) + self.delay;
    }
    pub fn set(&mut self, now: u64, delay: Duration, burst: u32) {
        self.delay = delay.as_nanos();
        self.burst = burst;
        // The strictest possible under the new settings.
        self.paid = now as u128 + self.delay * (burst as u128 + 1);
    }
}

fn delays(src: &mut Src) -> Duration {
    match src.below(6) {
        0 => Duration::ZERO,
        1 => Duration::from_millis(src.range(1, 50) as u64),
        2 => Duration::from_nanos(src.range(1, 1000) as u64),
        3 => Duration::from_secs(2),
        _ => Duration::from_millis(src.range(1, 10_000) as u64),
    }
}

fn history(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ar = Arena::default();
    let _v = clock::Virtual::start();
    let mut next = 0u32;
    let mut before: Option<ClientMsg<'static>> = None;
    let mut fresh = |src: &mut Src| -> ClientMsg<'static> {
        // The same message may well be sent twice.
        if let Some(m) = before.as_ref().filter(|_| src.chance(1, 8)) {
            return m.clone();
        }
        let mut m = ClientMsg::new_cmd(cmd(src, &ar, 6));
        m.tags = mk_tags(src, &ar, 2);
        next += 1;
        m.args.edit().add_word(Arg::from_bytes(next.to_string()).unwrap());
        if src.chance(1, 4) {
            m.args.edit().add_word(arg(src, &ar, 8));
        }
        if src.chance(1, 8) {
            m.tags.edit().insert_pair(Key::from_str("label"), NoNul::from_str("mine"));
        }
        before = Some(m.clone());
        m
    };
    let mut model: VecDeque<Flat> = VecDeque::new();
    let mut q = match src.below(4) {
        0 => Queue::new(),
        1 => Queue::default(),
        k => {
            let ms: Vec<_> = (0..many(src, 6)).map(|_| fresh(src)).collect();
            model.extend(ms.iter().map(flat));
            if k == 2 {
                Queue::from(ms)
            } else if src.bool() {
                Queue::from(VecDeque::from(ms))
            } else {
                ms.into_iter().collect()
            }
        }
    };
    let mut b = Bucket::new(clock::now());
    // Release times under the current settings.
    let mut released: Vec<u64> = Vec::new();
    // Labeler: None, or Some(Some(i)) for a counted one, Some(None) for the default one.
    let mut labeler: Option<Option<u32>> = None;
    let mut labels: HashSet<Vec<u8>> = HashSet::new();
    let log: Arc<Mutex<Vec<Call>>> = Arc::default();
    let mut calls: Vec<Call> = Vec::new();
    // None, or the members (a single adjuster is one member, but not in a collection).
    let mut adj: Option<(bool, Vec<(AdjModel, bool)>)> = None;
    let (mut waited, mut adjusted) = (false, false);
    let mut trace: Vec<String> = Vec::new();
    let want = ctx.want_sample;

    for _ in 0..src.range(5, 60) {
        let now = clock::now();
        match src.weighted(&[6, 10, 5, 2, 1, 3, 2, 1, 1, 2]) {
            // Pushing, through guards of some depth.
            0 => {
                fn go(
                    src: &mut Src,
                    g: &mut QueueEditGuard<'_>,
                    depth: usize,
                    model: &mut VecDeque<Flat>,
                    labeler: &mut Option<Option<u32>>,
                    labels: &mut HashSet<Vec<u8>>,
                    fresh: &mut dyn FnMut(&mut Src) -> ClientMsg<'static>,
                ) -> Result<(), String> {
                    let start = model.len();
                    for _ in 0..src.range(1, 4) {
                        ensure_eq!(g.len(), model.len() - start, "messages added through a guard");
                        ensure_eq!(g.is_empty(), model.len() == start, "guard is_empty");
                        ensure_eq!(g.is_using_labeler(), labeler.is_some(), "guard labeler");
                        match src.weighted(&[5, 4, 1, 2]) {
                            0 => {
                                let m = fresh(src);
                                model.push_back(flat(&m));
                                g.push(m);
                            }
                            1 => {
                                let m = fresh(src);
                                let mut f = flat(&m);
                                let l = g.push_labeled(m);
                                ensure_eq!(l.is_some(), labeler.is_some(), "a label was returned");
                                if let (Some(l), Some(kind)) = (l, labeler.as_mut()) {
                                    if let Some(i) = kind {
                                        *i += 1;
                                        ensure_eq!(l.to_vec(), format!("L{i};").into_bytes(), "label");
                                    } else {
                                        ensure!(!l.is_empty(), "empty default label");
                                    }
                                    ensure!(labels.insert(l.to_vec()), "label {l} given out twice");
                                    f.0.retain(|(k, _)| k != b"label");
                                    f.0.push((b"label".to_vec(), l.to_vec()));
                                    f.0.sort();
                                }
                                model.push_back(f);
                            }
                            2 => {
                                g.clear();
                                model.truncate(start);
                            }
                            _ if depth < 3 => {
                                let mut g2 = g.edit();
                                go(src, &mut g2, depth + 1, model, labeler, labels, fresh)?;
                            }
                            _ => {}
                        }
                    }
                    Ok(())
                }
                let mut g = q.edit();
                go(src, &mut g, 0, &mut model, &mut labeler, &mut labels, &mut fresh)?;
            }
            // Popping.
            1 => {
                let mut told: Vec<Option<Duration>> = Vec::new();
                let got = q.pop(|t| told.push(t));
                let w = b.wait(now);
                let want_msg = if w == 0 { model.pop_front() } else { None };
                match (&got, &want_msg) {
                    (Some(m), Some(f)) => {
                        ensure!(told.is_empty(), "a message came out, and a wait was reported too");
                        ensure_eq!(&flat(m), f, "message popped");
                        b.take(now);
                        released.push(now);
                    }
                    (None, None) => {
                        ensure_eq!(told.len(), 1, "calls of the timeout function");
                        match (told[0], model.is_empty()) {
                            (None, true) => {}
                            (Some(d), false) => {
                                waited = true;
                                ensure!(!d.is_zero(), "zero wait reported");
                                ensure_eq!(d.as_nanos(), w, "reported wait");
                            }
                            (t, e) => return Err(format!("reported wait {t:?} with queue empty: {e}")),
                        }
                    }
                    (g, _) => {
                        return Err(format!(
                            "pop returned {:?} at {now} ns, with {} queued and {w} ns left to wait",
                            g.as_ref().map(flat),
                            model.len() + want_msg.is_some() as usize,
                        ))
                    }
                }
                if want {
                    trace.push(if got.is_some() { "pop ok".into() } else { format!("pop {:?}", told[0]) });
                }
            }
            // Time passes.
            2 => {
                let w = b.wait(now) as u64;
                let d = match src.below(5) {
                    0 if w > 0 => w,
                    1 if w > 0 => w - 1,
                    2 => src.below(1000) as u64,
                    3 => b.delay as u64,
                    _ => src.below(20_000) as u64 * 1_000_000,
                };
                clock::advance_ns(d);
                if want {
                    trace.push(format!("+{d} ns"));
                }
            }
            3 => {
                let (d, n) = (delays(src), if src.chance(1, 20) { src.below(200) } else { src.below(7) });
                q.set_rate_limit(d, n);
                b.set(now, d, n);
                released.clear();
                if want {
                    trace.push(format!("limit {d:?} burst {n}"));
                }
            }
            4 => {
                labels.clear();
                match src.below(3) {
                    0 => {
                        let t = src.below(1000) * 1000;
                        let mut i = t;
                        q.use_labeler(move || {
                            i += 1;
                            NoNul::from_bytes(format!("L{i};")).unwrap()
                        });
                        labeler = Some(Some(t));
                    }
                    1 => {
                        q.use_labeler_default();
                        labeler = Some(None);
                        if src.chance(1, 40) {
                            // Far more labels than a short history asks for.
                            let n = if src.chance(1, 100) { 70_000 } else { src.range(200, 600) };
                            let mut g = q.edit();
                            for _ in 0..n {
                                let l = g.push_labeled(ClientMsg::new_cmd(Cmd::from_str("X"))).ok_or("no label")?;
                                ensure!(labels.insert(l.to_vec()), "label {l} given out twice in {n}");
                            }
                            g.clear();
                        }
                    }
                    _ => {
                        q.use_no_labeler();
                        labeler = None;
                    }
                }
            }
            // A message from the server.
            5 => {
                let n = src.below(40) as u16;
                let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
                m.kind = Numeric::from_int(n).unwrap().into();
                q.adjust(&m);
                if let Some((_, members)) = &mut adj {
                    let mut any = false;
                    for (a, on) in members.iter_mut() {
                        calls.push(Call::Should(a.rule.id));
                        *on = a.should(n);
                        any |= *on;
                    }
                    if any {
                        model.retain_mut(|f| {
                            let num: u32 = std::str::from_utf8(&f.2[0]).unwrap().parse().unwrap();
                            let mut keep = true;
                            for (a, on) in members.iter() {
                                if *on {
                                    adjusted = true;
                                    calls.push(Call::Update(a.rule.id, num));
                                    keep &= a.update(f);
                                }
                            }
                            keep
                        });
                    }
                }
                ensure_eq!(*log.lock().unwrap(), calls, "calls made to the adjusters");
            }
            6 => {
                log.lock().unwrap().clear();
                calls.clear();
                let rule = |src: &mut Src, id| Rule {
                    id,
                    every: src.range(1, 4) as u16,
                    drops: src.below(4),
                    marks: src.bool(),
                    charges: if src.bool() { 1000 } else { src.below(3) },
                };
                let mk = |r: &Rule| Adj { rule: r.clone(), left: r.charges, log: log.clone() };
                match src.below(4) {
                    0 => {
                        q.use_no_adjuster();
                        adj = None;
                    }
                    1 => {
                        let r = rule(src, 0);
                        q.use_adjuster(mk(&r));
                        adj = Some((false, vec![(AdjModel { left: r.charges, rule: r }, false)]));
                    }
                    k => {
                        let rs: Vec<Rule> = (0..src.range(0, 4)).map(|i| rule(src, i as u8)).collect();
                        let mut ma = if k == 2 {
                            let mut ma = MultiAdjuster::new();
                            ensure!(ma.is_empty(), "new collection of adjusters not empty");
                            for r in &rs {
                                ma.add(mk(r));
                            }
                            ma
                        } else {
                            rs.iter().map(|r| Box::new(mk(r)) as Box<dyn Adjuster>).collect()
                        };
                        ensure_eq!(ma.len(), rs.len(), "adjusters in the collection");
                        let mut ms: Vec<_> =
                            rs.iter().map(|r| (AdjModel { left: r.charges, rule: r.clone() }, false)).collect();
                        if src.chance(1, 6) {
                            ma.clear();
                            ms.clear();
                        }
                        q.use_adjuster(ma);
                        adj = Some((true, ms));
                    }
                }
            }
            7 => {
                q.clear();
                model.clear();
            }
            8 => {
                q.reset();
                model.clear();
                labeler = None;
                b.paid = now as u128;
                released.clear();
                if let Some((_, members)) = &mut adj {
                    for (a, on) in members {
                        calls.push(Call::Reset(a.rule.id));
                        a.left = a.rule.charges;
                        *on = false;
                    }
                }
                ensure_eq!(*log.lock().unwrap(), calls, "calls made to the adjusters by a reset");
            }
            _ => {
                let ms: Vec<_> = (0..many(src, 5)).map(|_| fresh(src)).collect();
                model.extend(ms.iter().map(flat));
                q.extend(ms);
            }
        }
        ensure_eq!(q.len(), model.len(), "queue length");
        ensure_eq!(q.is_empty(), model.is_empty(), "queue is_empty");
        ensure_eq!(q.is_using_labeler(), labeler.is_some(), "labeler in use");
        // No window holds more than the limit allows, whatever the model thinks.
        if b.delay > 0 {
            if let Some(last) = released.last() {
                for (i, t) in released.iter().enumerate() {
                    let n = (released.len() - i) as u128;
                    let allowed = b.burst as u128 + 1 + (*last - *t) as u128 / b.delay;
                    ensure!(n <= allowed, "{n} messages released in {} ns, {allowed} allowed", *last - *t);
                }
            }
        }
    }
    // Everything left comes out, in order, given time.
    while let Some(f) = model.pop_front() {
        let mut wait = None;
        let mut got = q.pop(|t| wait = t);
        let due = b.wait(clock::now());
        ensure_eq!(got.is_some(), due == 0, "a message is released while draining, with {due} ns left to wait");
        if got.is_none() {
            let Some(d) = wait else { return Err("queue claims to be empty".into()) };
            ensure_eq!(d.as_nanos(), due, "reported wait while draining");
            clock::advance(d);
            got = q.pop(|_| ());
        }
        b.take(clock::now());
        let Some(m) = got else { return Err(format!("nothing released after waiting {wait:?}")) };
        ensure_eq!(flat(&m), f, "message popped while draining");
    }
    ensure!(q.pop(|_| ()).is_none(), "a message appeared from nowhere");
    if waited {
        ctx.label("rate limited");
    }
    if adjusted {
        ctx.label("adjusted");
    }
    if waited || adjusted {
        ctx.nontrivial();
    }
    ctx.sample(|| trace.join(", "));
    Ok(())
}

/// Settings at the edge of what the types can hold.
fn extremes(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let _v = clock::Virtual::start();
    let mut q = Queue::new();
    let n = src.range(1, 8);
    for i in 0..n {
        q.edit().push(ClientMsg::new_cmd(Cmd::from_str(["A", "B", "C", "D", "E", "F", "G", "H"][i])));
    }
    let big = [
        Duration::MAX,
        Duration::from_secs(u64::MAX / 2),
        Duration::from_secs(i64::MAX as u64),
        Duration::from_secs(i64::MAX as u64 - 2_000_000),
        Duration::from_secs(1 << 40),
        Duration::from_secs(2),
        Duration::from_nanos(1),
        Duration::ZERO,
    ];
    let mut out = 0;
    let mut what = Vec::new();
    for _ in 0..src.range(1, 12) {
        match src.below(3) {
            0 => {
                let (d, b) = (*src.pick(&big), *src.pick(&[0, 1, 4, u32::MAX - 1, u32::MAX]));
                q.set_rate_limit(d, b);
                what.push(format!("limit {d:?} burst {b}"));
                ctx.nontrivial();
            }
            1 => {
                let d = *src.pick(&[1u64, 1_000_000_000, 1 << 50, 1 << 60]);
                clock::advance_ns(d);
                what.push(format!("+{d} ns"));
            }
            _ => {
                let mut told = None;
                if let Some(m) = q.pop(|t| told = t) {
                    ensure_eq!(m.cmd.to_vec(), vec![b'A' + out as u8], "message popped");
                    out += 1;
                } else if out < n {
                    ensure!(told.is_some_and(|d| !d.is_zero()), "no wait reported, {} queued", n - out);
                } else {
                    ensure!(told.is_none(), "a wait of {told:?} for an empty queue");
                }
                what.push("pop".into());
            }
        }
        ensure_eq!(q.len(), n - out, "queue length");
    }
    ctx.sample(|| what.join(", "));
    Ok(())
}

/// A collection of adjusters, called as anything that is an adjuster may be.
fn collection(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let log: Arc<Mutex<Vec<Call>>> = Arc::default();
    let mut calls: Vec<Call> = Vec::new();
    let mut ma = MultiAdjuster::new();
    let mut model: Vec<(AdjModel, bool)> = Vec::new();
    let mut trace: Vec<String> = Vec::new();
    for _ in 0..src.range(2, 20) {
        match src.weighted(&[3, 4, 5, 1, 1]) {
            0 => {
                let r = Rule {
                    id: model.len() as u8,
                    every: src.range(1, 3) as u16,
                    drops: src.below(3),
                    marks: src.bool(),
                    charges: if src.bool() { 1000 } else { src.below(3) },
                };
                ma.add(Adj { rule: r.clone(), left: r.charges, log: log.clone() });
                model.push((AdjModel { left: r.charges, rule: r }, false));
                trace.push("add".into());
            }
            1 => {
                let n = src.below(12) as u16;
                let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
                m.kind = Numeric::from_int(n).unwrap().into();
                let got = ma.should_adjust(&m);
                let mut any = false;
                for (a, on) in &mut model {
                    calls.push(Call::Should(a.rule.id));
                    *on = a.should(n);
                    any |= *on;
                }
                trace.push(format!("message {n}: {got}"));
                ensure_eq!(got, any, "{}: whether to adjust", trace.join(", "));
            }
            2 => {
                let n = src.below(6);
                let mut m = ClientMsg::new_cmd(Cmd::from_str("X"));
                m.args.edit().add_word(Arg::from_bytes(n.to_string()).unwrap());
                let mut f = flat(&m);
                let got = ma.update(&mut m);
                let mut keep = true;
                for (a, _) in model.iter().filter(|(_, on)| *on) {
                    calls.push(Call::Update(a.rule.id, n));
                    keep &= a.update(&mut f);
                    ctx.nontrivial();
                }
                trace.push(format!("update {n}: {got}"));
                ensure_eq!(got, keep, "{}: whether to keep the message", trace.join(", "));
                ensure_eq!(flat(&m), f, "{}: the message", trace.join(", "));
            }
            3 => {
                ma.reset();
                for (a, on) in &mut model {
                    calls.push(Call::Reset(a.rule.id));
                    a.left = a.rule.charges;
                    *on = false;
                }
                trace.push("reset".into());
            }
            _ => {
                ma.clear();
                model.clear();
                trace.push("clear".into());
            }
        }
        ensure_eq!(*log.lock().unwrap(), calls, "{}: calls made to the members", trace.join(", "));
        ensure_eq!(ma.len(), model.len(), "{}: number of members", trace.join(", "));
        ensure_eq!(ma.is_empty(), model.is_empty(), "{}: is_empty", trace.join(", "));
    }
    ctx.sample(|| trace.join(", "));
    Ok(())
}

pub fn c13() -> Vec<Facet> {
    assert!(cfg!(miri) || clock::self_test(), "the virtual clock is not in effect");
    vec![
        facet("history", 400_000, 10_000_000, history, "the rate limit withheld a message or an adjuster ran on one"),
        facet("collection", 60_000, 1_000_000, collection, "a member updated a message"),
        facet("extremes", 60_000, 1_000_000, extremes, "a rate limit at the edge of the types was set"),
    ]
}
