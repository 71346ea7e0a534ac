//! C17: one-shot and parking channels.

use super::{blocking, facet};
use crate::engine::*;
use crate::{ensure, ensure_eq};
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
use std::time::Duration;
use vinezombie::client::channel::{oneshot, parker, ChannelSpec, ClosedSender, Sender, Sent, SyncChannels, TokioChannels};

/// Far longer than any of these cases takes on the slowest machine.
const STUCK: Duration = Duration::from_secs(40);

#[derive(Debug)]
struct Val {
    id: u32,
    drops: Arc<AtomicUsize>,
    /// Makes a use after free visible to sanitizers.
    heap: Box<u32>,
}
impl Val {
    fn new(id: u32, drops: &Arc<AtomicUsize>) -> Self {
        Val { id, drops: drops.clone(), heap: Box::new(id) }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        assert_eq!(*self.heap, self.id);
        self.drops.fetch_add(1, SeqCst);
    }
}

fn spin(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

fn gen_delay(src: &mut Src) -> u32 {
    if cfg!(miri) {
        src.below(6)
    } else {
        match src.below(4) {
            0 => 0,
            1 => src.below(30),
            2 => src.below(300),
            _ => src.below(4000),
        }
    }
}

// ------------------------------------------------------------------------------ one thread

/// Every operation of the one-shot channel against a model, on one thread.
fn sequence(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let drops = Arc::new(AtomicUsize::new(0));
    let mut made = 0usize;
    let mut log: Vec<String> = Vec::new();
    let (s, r) = oneshot::channel::<Val>();
    let mut senders = vec![s];
    let mut recv = Some(r);
    let mut held: Vec<Val> = Vec::new();
    // Value in transit.
    let mut value: Option<u32> = None;
    let mut sent_once = false;
    let mut dead = 0usize; // values destroyed
    for _ in 0..src.range(2, 24) {
        match src.below(9) {
            0 | 1 => {
                if let Some(s) = senders.first() {
                    let s = s.clone();
                    senders.push(s);
                    log.push("clone".into());
                }
            }
            2 | 3 => {
                if senders.is_empty() {
                    continue;
                }
                let i = src.usize_below(senders.len());
                let s = senders.swap_remove(i);
                let id = made as u32;
                made += 1;
                log.push(format!("send {id}"));
                let closed = s.is_closed();
                let ok = recv.is_some() && !sent_once;
                ensure_eq!(closed, !ok, "is_closed before a send, after {log:?}");
                match s.send(Val::new(id, &drops)) {
                    Ok(()) => {
                        ensure!(ok, "a send succeeded that should not have, after {log:?}");
                        value = Some(id);
                        sent_once = true;
                    }
                    Err(v) => {
                        ensure!(!ok, "a send failed that should not have, after {log:?}");
                        ensure_eq!(v.id, id, "value handed back, after {log:?}");
                        held.push(v);
                    }
                }
            }
            4 => {
                if senders.is_empty() {
                    continue;
                }
                let i = src.usize_below(senders.len());
                senders.swap_remove(i);
                log.push("drop sender".into());
            }
            5 => {
                if let Some(r) = &recv {
                    ensure_eq!(r.is_empty(), value.is_none(), "is_empty after {log:?}");
                }
            }
            6 => {
                // Val contains an Arc and a Box, so it is Sync.
                if let Some(r) = &recv {
                    ensure_eq!(r.peek().map(|v| v.id), value, "peek after {log:?}");
                }
            }
            7 => {
                if let Some(r) = recv.take() {
                    log.push("recv_now".into());
                    let v = r.recv_now();
                    ensure_eq!(v.as_ref().map(|v| v.id), value, "received after {log:?}");
                    value = None;
                    if let Some(v) = v {
                        held.push(v);
                    }
                }
            }
            _ => {
                if src.chance(1, 2) {
                    if let Some(r) = recv.take() {
                        log.push("drop receiver".into());
                        drop(r);
                        if value.take().is_some() {
                            dead += 1;
                        }
                    }
                } else if let Some(v) = held.pop() {
                    drop(v);
                    dead += 1;
                }
            }
        }
        ensure_eq!(drops.load(SeqCst), dead, "values destroyed so far, after {log:?}");
    }
    drop(senders);
    drop(recv);
    drop(held);
    ensure_eq!(drops.load(SeqCst), made, "values destroyed of those made, after {log:?}");
    ensure_eq!(Arc::strong_count(&drops), 1, "values left over, after {log:?}");
    ctx.sample(|| log.join(", "));
    if log.len() > 3 {
        ctx.nontrivial();
    }
    Ok(())
}

/// A sender for any number of values, or for one.
#[derive(Clone)]
struct Many(bool);
impl Sender for Many {
    type Value = u32;
    fn send(&mut self, _: u32) -> ControlFlow<Sent> {
        if self.0 {
            ControlFlow::Continue(())
        } else {
            ControlFlow::Break(Sent::Ok)
        }
    }
}

/// Parker operations, of which those that must not block happen on one thread.
fn park_sequence(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let n = src.range(1, 12);
    // Parking that has to last is only generated now and then, as it takes long.
    let waits = src.chance(1, 4);
    let plan: Vec<(u32, u32)> = (0..n).map(|_| (src.below(if waits { 12 } else { 8 }), src.below(4))).collect();
    if n > 3 {
        ctx.nontrivial();
    }
    let p2 = plan.clone();
    let (tx, rx) = mpsc::channel();
    let j = std::thread::spawn(move || {
        let (u, p) = parker::new(Many(n % 2 == 0));
        let mut us = vec![u];
        let mut skip = false;
        let mut log = Vec::new();
        for (op, i) in p2 {
            match op {
                7 => {
                    let at = i as usize % us.len().max(1);
                    if let Some(u) = us.get_mut(at) {
                        let _ = u.send(i);
                        skip = true;
                        log.push("send");
                    }
                }
                8.. if !skip && !us.is_empty() => {
                    // Nothing happened yet, so the parking lasts until something does.
                    let issued = AtomicUsize::new(0);
                    let mut all = std::mem::take(&mut us);
                    log.push(["wait for an unparking", "wait for a value", "wait for the end of the unparkers"][i as usize % 3]);
                    let _ = tx.send(Some(log.join(", ")));
                    let early = std::thread::scope(|s| {
                        let waker = s.spawn(|| {
                            std::thread::sleep(Duration::from_micros(200));
                            issued.store(1, SeqCst);
                            let at = i as usize % all.len();
                            match i % 3 {
                                0 => all[at].unpark(),
                                1 => {
                                    let _ = all[at].send(i);
                                }
                                _ => all.clear(),
                            }
                            all
                        });
                        p.park();
                        let early = issued.load(SeqCst) == 0;
                        us = waker.join().unwrap();
                        early
                    });
                    if early {
                        let _ = tx.send(Some(format!("early {}", log.join(", "))));
                        return;
                    }
                }
                0 | 1 => {
                    if let Some(u) = us.get(i as usize % us.len().max(1)) {
                        u.unpark();
                        skip = true;
                        log.push("unpark");
                    }
                }
                2 => {
                    if let Some(u) = us.first().cloned() {
                        us.push(u);
                        log.push("clone");
                    }
                }
                3 if !us.is_empty() => {
                    us.swap_remove(i as usize % us.len());
                    log.push("drop unparker");
                }
                4 => {
                    // A stray token is not an unparking.
                    std::thread::current().unpark();
                    log.push("token");
                }
                _ => {
                    if skip || us.is_empty() {
                        log.push("park");
                        let _ = tx.send(Some(log.join(", ")));
                        p.park();
                        skip = false;
                    }
                }
            }
        }
        let _ = tx.send(None);
        drop(p);
        drop(us);
    });
    let mut last = String::new();
    loop {
        match rx.recv_timeout(STUCK) {
            Ok(Some(s)) if s.starts_with("early ") => return Err(format!("park returned before a wake-up: {s}")),
            Ok(Some(s)) => last = s,
            Ok(None) => break,
            Err(mpsc::RecvTimeoutError::Disconnected) => return Err(format!("panicked after {last}")),
            Err(_) => return Err(format!("park did not return after [{last}]")),
        }
    }
    j.join().map_err(|_| format!("panicked after {last}"))?;
    ctx.sample(|| last);
    Ok(())
}

// ------------------------------------------------------------------------------ many threads

#[derive(Clone, Copy, Debug, PartialEq)]
enum SendAct {
    Send,
    Drop,
    /// Clone, drop the clone or the original, send on the other.
    CloneSend(bool),
    /// Ask whether the channel is closed, then send.
    AskSend,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum RecvAct {
    /// Park until something happens.
    Wait,
    /// The same with a stray token on the thread.
    WaitToken,
    Now,
    Drop,
    /// Look a few times, then receive.
    Poll(u32),
    PollDrop(u32),
}

/// One receiver, one to three senders, each on its own thread.
pub fn oneshot_threads(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let ns = src.range(1, 3);
    let plan: Vec<(u32, SendAct, u32)> = (0..ns)
        .map(|_| {
            let d = gen_delay(src);
            let a = match src.below(6) {
                0..=2 => SendAct::Send,
                3 => SendAct::Drop,
                4 => SendAct::CloneSend(src.bool()),
                _ => SendAct::AskSend,
            };
            (d, a, gen_delay(src))
        })
        .collect();
    let wd = gen_delay(src);
    let wait = match src.below(7) {
        0 | 1 => RecvAct::Wait,
        2 => RecvAct::WaitToken,
        3 => RecvAct::Now,
        4 => RecvAct::Drop,
        5 => RecvAct::Poll(src.below(4)),
        _ => RecvAct::PollDrop(src.below(4)),
    };
    // Another holder of the channel, which never sends, stays until the receiver is done: a waiting
    // receiver must be woken by the send alone.
    let keep = src.chance(1, 3) && plan.iter().any(|(_, a, _)| *a != SendAct::Drop);
    ctx.sample(|| format!("senders {plan:?}, receiver after {wd}: {wait:?}, bystander: {keep}"));
    if keep && matches!(wait, RecvAct::Wait | RecvAct::WaitToken) {
        ctx.label("waiting with a bystander");
    }
    if ns > 1 || matches!(wait, RecvAct::Wait | RecvAct::WaitToken) {
        ctx.nontrivial();
    }
    let drops = Arc::new(AtomicUsize::new(0));
    let made = Arc::new(AtomicUsize::new(0));
    let (s, r) = oneshot::channel::<Val>();
    let (u, p) = parker::new(Some(s));
    let mut us = vec![u];
    for _ in 1..ns {
        let u = us[0].clone();
        us.push(u);
    }
    let kept = keep.then(|| us[0].clone());
    let start = Arc::new(AtomicUsize::new(0));
    let total = ns + 1;
    let gate = move |start: &AtomicUsize| {
        start.fetch_add(1, SeqCst);
        let mut n = 0u32;
        while start.load(SeqCst) < total {
            n += 1;
            if n > 500 || cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    };
    let (tx, rx) = mpsc::channel::<Result<Option<u32>, String>>();
    let mut js = Vec::new();
    for (i, (mut u, (before, act, after))) in us.into_iter().zip(plan.clone()).enumerate() {
        let (start, drops, made) = (start.clone(), drops.clone(), made.clone());
        js.push(std::thread::spawn(move || -> Result<bool, String> {
            gate(&start);
            spin(before);
            let mut ok = false;
            let send = |u: &mut parker::Unparker<Option<oneshot::Sender<Val>>>| {
                made.fetch_add(1, SeqCst);
                match u.send(Val::new(i as u32, &drops)) {
                    ControlFlow::Break(Sent::Ok) => Ok(true),
                    ControlFlow::Break(Sent::Closed) => Ok(false),
                    ControlFlow::Continue(()) => Err("a one-shot channel asked for more".to_string()),
                }
            };
            match act {
                SendAct::Send => ok = send(&mut u)?,
                SendAct::Drop => {}
                SendAct::CloneSend(which) => {
                    let mut c = u.clone();
                    if which {
                        drop(u);
                        ok = send(&mut c)?;
                        spin(after);
                        return Ok(ok);
                    }
                    drop(c);
                    ok = send(&mut u)?;
                }
                SendAct::AskSend => {
                    let may = u.may_send();
                    spin(after / 2);
                    ok = send(&mut u)?;
                    if ok && !may {
                        return Err("a send succeeded after may_send had said it could not".into());
                    }
                }
            }
            if ok && u.may_send() {
                return Err("may_send after a successful send".into());
            }
            spin(after);
            Ok(ok)
        }));
    }
    let st2 = start.clone();
    let jr = std::thread::spawn(move || {
        gate(&st2);
        spin(wd);
        let mut seen: Option<u32> = None;
        let mut full = false;
        let mut poll = |r: &oneshot::Receiver<Val>, n: u32| -> Result<(), String> {
            for _ in 0..n {
                if let Some(v) = r.peek() {
                    if *v.heap != v.id || seen.is_some_and(|s| s != v.id) {
                        return Err("peeked value changed".into());
                    }
                    seen = Some(v.id);
                } else if seen.is_some() {
                    return Err("peeked value vanished".into());
                }
                let e = r.is_empty();
                if full && e {
                    return Err("full channel became empty".into());
                }
                full |= !e;
                spin(50);
            }
            Ok(())
        };
        let got = match wait {
            RecvAct::Wait => r.recv(&p),
            RecvAct::WaitToken => {
                std::thread::current().unpark();
                r.recv(&p)
            }
            RecvAct::Now => r.recv_now(),
            RecvAct::Drop => {
                drop(r);
                None
            }
            RecvAct::Poll(n) => {
                if let Err(e) = poll(&r, n + 1) {
                    let _ = tx.send(Err(e));
                    return;
                }
                r.recv_now()
            }
            RecvAct::PollDrop(n) => {
                if let Err(e) = poll(&r, n) {
                    let _ = tx.send(Err(e));
                    return;
                }
                drop(r);
                None
            }
        };
        let id = got.as_ref().map(|v| v.id);
        let bad = matches!(wait, RecvAct::Poll(_)) && (full || seen.is_some()) && (id.is_none() || seen.is_some_and(|s| Some(s) != id));
        drop(got);
        let _ = tx.send(if bad { Err(format!("saw {seen:?} (full: {full}) but received {id:?}")) } else { Ok(id) });
    });
    let mut oks = Vec::new();
    for (i, j) in js.into_iter().enumerate() {
        if j.join().map_err(|_| "a sender panicked".to_string())?? {
            oks.push(i as u32);
        }
    }
    let got = match rx.recv_timeout(STUCK) {
        Ok(r) => r?,
        Err(mpsc::RecvTimeoutError::Disconnected) => return Err("the receiver panicked".into()),
        Err(_) if keep => return Err("the receiver still waits although a value was sent".into()),
        Err(_) => return Err("the receiver still waits although every sender is gone".into()),
    };
    drop(kept);
    jr.join().map_err(|_| "the receiver panicked".to_string())?;
    ensure!(oks.len() <= 1, "more than one send succeeded: {oks:?}");
    let dropped = matches!(wait, RecvAct::Drop | RecvAct::PollDrop(_));
    if !dropped {
        ensure_eq!(got, oks.first().copied(), "received, against successful sends");
    }
    if matches!(wait, RecvAct::Wait | RecvAct::WaitToken) {
        let any = plan.iter().any(|(_, a, _)| *a != SendAct::Drop);
        ensure!(got.is_some() == any, "a waiting receiver got {got:?} from senders {plan:?}");
        ctx.label(if any { "waited and received" } else { "waited and was told of the end" });
    }
    if oks.is_empty() && made.load(SeqCst) > 0 {
        ctx.label("receiver left first");
    }
    ensure_eq!(drops.load(SeqCst), made.load(SeqCst), "values destroyed of those made");
    Ok(())
}

/// A thread that parks, and threads that unpark it.
pub fn parker_threads(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let nu = src.range(1, 3);
    // Per unparker: (delay, unpark?)...; then it is dropped.
    let plan: Vec<Vec<(u32, bool)>> =
        (0..nu).map(|_| (0..src.range(0, 3)).map(|_| (gen_delay(src), src.bool())).collect()).collect();
    let until_all = src.bool();
    let token = src.chance(1, 3);
    let wd = gen_delay(src);
    let keep = until_all && src.bool();
    ctx.sample(|| format!("unparkers {plan:?}, parker after {wd}, token {token}, until all {until_all}, keep {keep}"));
    let unparks: usize = plan.iter().flatten().filter(|x| x.1).count();
    if unparks > 0 || nu > 1 {
        ctx.nontrivial();
    }
    let (u, p) = parker::new(());
    let mut us = vec![u];
    for _ in 1..nu {
        let u = us[0].clone();
        us.push(u);
    }
    let kept = keep.then(|| us[0].clone());
    let woken = Arc::new(AtomicUsize::new(0));
    let gone = Arc::new(AtomicUsize::new(0));
    let mut js = Vec::new();
    for (u, steps) in us.into_iter().zip(plan.clone()) {
        let (woken, gone) = (woken.clone(), gone.clone());
        js.push(std::thread::spawn(move || {
            for (d, unpark) in steps {
                spin(d);
                if unpark {
                    woken.fetch_add(1, SeqCst);
                    u.unpark();
                }
            }
            gone.fetch_add(1, SeqCst);
            drop(u);
        }));
    }
    let (tx, rx) = mpsc::channel();
    let (w2, g2) = (woken.clone(), gone.clone());
    let jp = std::thread::spawn(move || {
        spin(wd);
        if token {
            std::thread::current().unpark();
        }
        let mut parks = 0;
        if until_all {
            while w2.load(SeqCst) < unparks {
                p.park();
                parks += 1;
                if g2.load(SeqCst) >= nu && parks > 50 {
                    break;
                }
            }
            let _ = tx.send(Ok(parks));
        } else {
            p.park();
            let (w, g) = (w2.load(SeqCst), g2.load(SeqCst));
            let _ = tx.send(if w == 0 && g < nu {
                Err("park returned although nobody had unparked it and unparkers were left".to_string())
            } else {
                Ok(1)
            });
        }
    });
    for j in js {
        j.join().map_err(|_| "an unparker panicked".to_string())?;
    }
    let r = match rx.recv_timeout(STUCK) {
        Ok(r) => r,
        Err(mpsc::RecvTimeoutError::Disconnected) => return Err("the parked thread panicked".into()),
        Err(_) => return Err("a parked thread was not woken".into()),
    };
    r?;
    drop(kept);
    jp.join().map_err(|_| "the parked thread panicked".to_string())?;
    Ok(())
}

/// Waiting threads that no sender will ever serve must notice, when many come and go.
fn reuse(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    // One thread receives from several channels in turn; stray wake-ups of one must not
    // end the wait for the next.
    let n = src.range(2, 4);
    let plan: Vec<(u32, u32, bool)> = (0..n).map(|_| (gen_delay(src), gen_delay(src), src.bool())).collect();
    ctx.sample(|| format!("{plan:?}"));
    ctx.nontrivial();
    let mut senders = Vec::new();
    let mut recvs = Vec::new();
    for _ in 0..n {
        let (s, r) = SyncChannels.new_oneshot::<u32>();
        senders.push(s);
        recvs.push(r);
    }
    let p2 = plan.clone();
    let js = std::thread::spawn(move || {
        for (i, mut s) in senders.into_iter().enumerate() {
            spin(p2[i].0);
            if p2[i].2 {
                let _ = s.send(i as u32);
            }
        }
    });
    let (tx, rx) = mpsc::channel();
    let p3 = plan.clone();
    let jr = std::thread::spawn(move || {
        for (i, (r, p)) in recvs.into_iter().enumerate() {
            spin(p3[i].1);
            if tx.send(r.recv(&p)).is_err() {
                return;
            }
        }
    });
    for (i, p) in plan.iter().enumerate() {
        match rx.recv_timeout(STUCK) {
            Ok(v) => ensure_eq!(v, p.2.then_some(i as u32), "received on channel {i} of {plan:?}"),
            Err(_) => return Err(format!("the wait on channel {i} of {plan:?} does not end")),
        }
    }
    js.join().map_err(|_| "sender panicked")?;
    jr.join().map_err(|_| "receiver panicked")?;
    Ok(())
}

// ------------------------------------------------------------------------------ adapters

enum AnyRecv {
    Std(mpsc::Receiver<u32>),
    Unb(tokio::sync::mpsc::UnboundedReceiver<u32>),
    TokioOne(Option<tokio::sync::oneshot::Receiver<u32>>),
    One(Option<(oneshot::Receiver<u32>, Option<parker::Parker>)>),
    None,
}

/// Every kind of sender: what it reports is what happens.
fn adapters(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let kind = src.below(9);
    let mut strong = None;
    let (mut s, r): (Box<dyn Sender<Value = u32>>, AnyRecv) = match kind {
        0 => {
            let (s, r) = mpsc::channel();
            (Box::new(s), AnyRecv::Std(r))
        }
        1 => {
            let (s, r) = SyncChannels.new_queue::<u32>();
            (s, AnyRecv::Std(r))
        }
        2 => {
            let (s, r) = SyncChannels.new_oneshot::<u32>();
            (s, AnyRecv::One(Some((r.0, Some(r.1)))))
        }
        3 => {
            let (s, r) = TokioChannels.new_queue::<u32>();
            (s, AnyRecv::Unb(r))
        }
        4 => {
            let (s, r) = TokioChannels.new_oneshot::<u32>();
            (s, AnyRecv::TokioOne(Some(r)))
        }
        5 => {
            let (s, r) = tokio::sync::mpsc::unbounded_channel();
            let w = s.downgrade();
            strong = Some(s);
            (Box::new(w), AnyRecv::Unb(r))
        }
        6 => {
            let (s, r) = oneshot::channel();
            (Box::new(Some(s)), AnyRecv::One(Some((r, None))))
        }
        7 => {
            let (s, r) = mpsc::channel();
            let (u, _p) = parker::new(s);
            (Box::new(u), AnyRecv::Std(r))
        }
        _ => (Box::new(ClosedSender::<u32>::default()), AnyRecv::None),
    };
    let one = matches!(kind, 2 | 4 | 6);
    let mut r = Some(r);
    let mut pending: std::collections::VecDeque<u32> = Default::default();
    let mut closed = kind == 8;
    let mut log = Vec::new();
    let mut next = 0;
    for _ in 0..src.range(1, 10) {
        match src.below(6) {
            0..=2 => {
                let may = s.may_send();
                ensure!(may || closed, "may_send is false on an open channel of kind {kind}, after {log:?}");
                next += 1;
                let got = s.send(next);
                log.push(format!("send {next} -> {got:?}"));
                let want = if closed {
                    ControlFlow::Break(Sent::Closed)
                } else if one {
                    ControlFlow::Break(Sent::Ok)
                } else {
                    ControlFlow::Continue(())
                };
                ensure_eq!(got, want, "result of a send on a channel of kind {kind}, after {log:?}");
                ensure_eq!(Sent::from(got), if closed { Sent::Closed } else { Sent::Ok }, "as Sent");
                ensure!(may || want == ControlFlow::Break(Sent::Closed), "sent although may_send was false");
                if !closed {
                    pending.push_back(next);
                    if one {
                        closed = true;
                    }
                }
            }
            3 | 4 => {
                let want = pending.front().copied();
                let got = match &mut r {
                    Some(AnyRecv::Std(r)) => r.try_recv().ok(),
                    Some(AnyRecv::Unb(r)) => r.try_recv().ok(),
                    Some(AnyRecv::TokioOne(o)) => {
                        let got = match o {
                            Some(r) => r.try_recv().ok(),
                            None => continue,
                        };
                        if got.is_some() {
                            *o = None;
                        }
                        got
                    }
                    Some(AnyRecv::One(o)) => {
                        if want.is_none() {
                            if let Some((r, _)) = o {
                                ensure!(r.is_empty() && r.peek().is_none(), "nothing was sent, after {log:?}");
                            }
                            continue;
                        }
                        match o.take() {
                            Some((r, Some(p))) => r.recv(&p),
                            Some((r, None)) => r.recv_now(),
                            None => continue,
                        }
                    }
                    _ => continue,
                };
                log.push(format!("receive {got:?}"));
                ensure_eq!(got, want, "received on a channel of kind {kind}, after {log:?}");
                pending.pop_front();
            }
            _ => {
                if kind == 5 && src.bool() {
                    strong = None;
                    closed = true;
                    log.push("drop strong sender".into());
                } else if src.chance(1, 3) {
                    r = None;
                    pending.clear();
                    closed = true;
                    log.push("drop receiver".into());
                }
            }
        }
    }
    if src.bool() {
        drop(s);
        drop(strong);
        // The receiver is told, after what was sent.
        match r {
            Some(AnyRecv::Std(r)) => {
                ensure_eq!(r.iter().collect::<Vec<_>>(), pending.iter().copied().collect::<Vec<_>>(), "rest of the queue after {log:?}")
            }
            Some(AnyRecv::Unb(mut r)) => {
                let mut v = Vec::new();
                while let Some(x) = r.blocking_recv() {
                    v.push(x);
                }
                ensure_eq!(v, pending.iter().copied().collect::<Vec<_>>(), "rest of the queue after {log:?}");
            }
            Some(AnyRecv::TokioOne(Some(r))) => ensure_eq!(r.blocking_recv().ok(), pending.pop_front(), "one-shot after {log:?}"),
            Some(AnyRecv::One(Some((r, Some(p))))) => ensure_eq!(r.recv(&p), pending.pop_front(), "one-shot after {log:?}"),
            Some(AnyRecv::One(Some((r, None)))) => ensure_eq!(r.recv_now(), pending.pop_front(), "one-shot after {log:?}"),
            _ => {}
        }
    }
    if log.len() > 1 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("kind {kind}: {}", log.join(", ")));
    Ok(())
}

pub fn c17() -> Vec<Facet> {
    vec![
        facet("sequence", 400_000, 8_000_000, sequence, "more than three operations"),
        facet("adapters", 400_000, 8_000_000, adapters, "more than one operation"),
        blocking("park-sequence", 20_000, 400_000, park_sequence, "more than three operations"),
        blocking("oneshot-threads", 120_000, 3_000_000, oneshot_threads, "several senders, or the receiver waits"),
        blocking("parker-threads", 60_000, 1_500_000, parker_threads, "an unparking, or several unparkers"),
        blocking("reuse", 40_000, 800_000, reuse, "always: at least two channels in turn"),
    ]
}
