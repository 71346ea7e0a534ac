//! C14 and C25: running handlers over a connection, without and with faults and timeouts.
//!
//! A client is driven through a random history next to a model of it, in virtual time, over a
//! simulated connection; the blocking and the asynchronous client go through the same history.

use super::facet;
use super::queue::Bucket;
use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::{clock, ensure, ensure_eq};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vinezombie::client::channel::*;
use vinezombie::client::handlers::{YieldAll, YieldParsed};
use vinezombie::client::queue::*;
use vinezombie::client::state::*;
use vinezombie::client::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

type V = (u32, u32, u32);

#[derive(Clone, Debug)]
struct Act {
    yields: u32,
    queues: u32,
    finish: bool,
    own: bool,
}

#[derive(Default)]
struct Counter;
impl ClientStateKey for Counter {
    type Value = u32;
}

type Log = Arc<Mutex<Vec<(u32, ServerMsg<'static>)>>>;

/// A handler that does what its plan says, by the number the message carries.
struct Probe {
    uid: u32,
    plan: Vec<Act>,
    own: bool,
    initial: u32,
    log: Log,
}
fn msg_num(m: &ServerMsg) -> u32 {
    args_of(&m.args)
        .first()
        .and_then(|b| std::str::from_utf8(b).ok()?.parse().ok())
        .unwrap_or(u32::MAX)
}
fn client_msg(s: String) -> ClientMsg<'static> {
    ClientMsg::parse(s).unwrap()
}
impl Probe {
    fn go(
        &mut self,
        msg: &ServerMsg<'_>,
        state: &mut ClientState,
        mut queue: QueueEditGuard<'_>,
        mut channel: SenderRef<'_, V>,
    ) -> ControlFlow<()> {
        let n = msg_num(msg);
        self.log.lock().unwrap().push((self.uid, msg.clone().owning()));
        match state.get_mut::<Counter>() {
            Some(c) => *c += 1,
            None => state.insert::<Counter>(1),
        }
        let act = self.plan[n as usize % self.plan.len()].clone();
        assert!(!channel.did_send(), "a fresh channel handle claims to have sent");
        for k in 0..act.yields {
            let _ = channel.send((self.uid, n, k));
        }
        assert!(queue.is_empty(), "a fresh queue guard is not empty");
        for k in 0..act.queues {
            queue.push(client_msg(format!("Q {} {n} {k}", self.uid)));
        }
        assert_eq!(queue.len(), act.queues as usize, "queue guard length");
        self.own = act.own;
        if act.finish {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn initial(&self, mut queue: QueueEditGuard<'_>) {
        for k in 0..self.initial {
            queue.push(client_msg(format!("ADD {} {k}", self.uid)));
        }
    }
}
impl Handler for Probe {
    type Value = V;
    fn handle(
        &mut self,
        msg: &ServerMsg<'_>,
        state: &mut ClientState,
        queue: QueueEditGuard<'_>,
        channel: SenderRef<'_, V>,
    ) -> ControlFlow<()> {
        self.go(msg, state, queue, channel)
    }
    fn wants_owning(&self) -> bool {
        self.own
    }
}
impl SelfMadeHandler for Probe {
    type Receiver<Spec: ChannelSpec> = Spec::Queue<V>;
    fn queue_msgs(&self, _: &ClientState, queue: QueueEditGuard<'_>) {
        self.initial(queue)
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = V> + Send>, Spec::Queue<V>) {
        spec.new_queue()
    }
}
/// The same, over a channel for one value.
struct ProbeOne(Probe);
impl Handler for ProbeOne {
    type Value = V;
    fn handle(
        &mut self,
        msg: &ServerMsg<'_>,
        state: &mut ClientState,
        queue: QueueEditGuard<'_>,
        channel: SenderRef<'_, V>,
    ) -> ControlFlow<()> {
        self.0.go(msg, state, queue, channel)
    }
    fn wants_owning(&self) -> bool {
        self.0.own
    }
}
impl SelfMadeHandler for ProbeOne {
    type Receiver<Spec: ChannelSpec> = Spec::Oneshot<V>;
    fn queue_msgs(&self, _: &ClientState, queue: QueueEditGuard<'_>) {
        self.0.initial(queue)
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = V> + Send>, Spec::Oneshot<V>) {
        spec.new_oneshot()
    }
}
/// Refuses to be made, queueing nothing that it should keep.
struct Refuse;
impl MakeHandler<u32> for Refuse {
    type Value = V;
    type Error = NoHandler;
    type Receiver<Spec: ChannelSpec> = Spec::Queue<V>;
    fn make_handler(
        self,
        _: &ClientState,
        mut queue: QueueEditGuard<'_>,
        v: u32,
    ) -> Result<Box<dyn Handler<Value = V>>, NoHandler> {
        queue.push(client_msg(format!("NOPE {v}")));
        Err(NoHandler)
    }
    fn make_channel<Spec: ChannelSpec>(spec: &Spec) -> (Box<dyn Sender<Value = V> + Send>, Spec::Queue<V>) {
        spec.new_queue()
    }
}

enum Rx {
    SyncQueue(std::sync::mpsc::Receiver<V>),
    SyncOne(Option<oneshot::Receiver<V>>),
    SyncAll(std::sync::mpsc::Receiver<ServerMsg<'static>>),
    TokioQueue(tokio::sync::mpsc::UnboundedReceiver<V>),
    TokioOne(tokio::sync::oneshot::Receiver<V>),
    TokioAll(tokio::sync::mpsc::UnboundedReceiver<ServerMsg<'static>>),
    /// Nobody listens.
    Gone,
}
#[derive(Debug, PartialEq, Clone)]
enum Got {
    V(V),
    M(ServerMsg<'static>),
}
impl Rx {
    /// Everything received so far, and whether the other side is known to be gone.
    fn drain(&mut self) -> (Vec<Got>, Option<bool>) {
        let mut out = Vec::new();
        use tokio::sync::mpsc::error::TryRecvError as TT;
        let closed = match self {
            Rx::SyncQueue(r) => loop {
                match r.try_recv() {
                    Ok(v) => out.push(Got::V(v)),
                    Err(e) => break Some(e == std::sync::mpsc::TryRecvError::Disconnected),
                }
            },
            Rx::SyncAll(r) => loop {
                match r.try_recv() {
                    Ok(v) => out.push(Got::M(v)),
                    Err(e) => break Some(e == std::sync::mpsc::TryRecvError::Disconnected),
                }
            },
            Rx::TokioQueue(r) => loop {
                match r.try_recv() {
                    Ok(v) => out.push(Got::V(v)),
                    Err(e) => break Some(e == TT::Disconnected),
                }
            },
            Rx::TokioAll(r) => loop {
                match r.try_recv() {
                    Ok(v) => out.push(Got::M(v)),
                    Err(e) => break Some(e == TT::Disconnected),
                }
            },
            Rx::SyncOne(slot) => {
                if slot.as_ref().is_some_and(|r| !r.is_empty()) {
                    if let Some(v) = slot.take().unwrap().recv_now() {
                        out.push(Got::V(v));
                    }
                }
                None
            }
            Rx::TokioOne(r) => {
                match r.try_recv() {
                    Ok(v) => out.push(Got::V(v)),
                    Err(_) => {}
                }
                None
            }
            Rx::Gone => None,
        };
        (out, closed)
    }
}

enum MakeOne {
    Queue(Probe),
    One(ProbeOne),
    All,
}

type Ran = Result<Option<(Vec<usize>, Vec<usize>)>, ErrorKind>;

trait Driver {
    type Spec: ChannelSpec;
    const NAME: &'static str;
    fn new() -> Self;
    fn spec() -> Self::Spec;
    fn add(c: &mut Client<Conn, Self::Spec>, m: MakeOne, how: u32) -> (usize, Rx);
    /// Whether a run can be dropped before it is done.
    const GIVES_UP: bool;
    /// Runs the client, at most for this long; `None` if that was not enough.
    fn run(&self, c: &mut Client<Conn, Self::Spec>, limit: Option<Duration>) -> Option<Ran>;
    fn flush(&self, c: &mut Client<Conn, Self::Spec>) -> Result<Option<Duration>, ErrorKind>;
    fn advance(&self, d: Duration);
}

macro_rules! add_impl {
    ($c:ident, $m:ident, $how:ident, $q:ident, $o:ident, $a:ident, $other:ident, $oq:ident, $oo:ident, $oa:ident) => {{
        match ($m, $how) {
            (MakeOne::Queue(p), 0) => {
                let (i, r) = $c.add((), p).unwrap();
                (i, Rx::$q(r))
            }
            (MakeOne::Queue(p), 1) => {
                let (i, r) = $c.add_with_spec(&$other, (), p).unwrap();
                (i, Rx::$oq(r))
            }
            (MakeOne::Queue(p), _) => {
                let (s, r) = std::sync::mpsc::channel();
                (($c.add_with_sender(Box::new(s), (), p)).unwrap(), Rx::SyncQueue(r))
            }
            (MakeOne::One(p), 0 | 2) => {
                let (i, r) = $c.add((), p).unwrap();
                (i, $o(r))
            }
            (MakeOne::One(p), _) => {
                let (i, r) = $c.add_with_spec(&$other, (), p).unwrap();
                (i, $oo(r))
            }
            (MakeOne::All, 0 | 2) => {
                let (i, r) = $c.add((), YieldAll).unwrap();
                (i, Rx::$a(r))
            }
            (MakeOne::All, _) => {
                let (i, r) = $c.add_with_spec(&$other, (), YieldAll).unwrap();
                (i, Rx::$oa(r))
            }
        }
    }};
}
fn sync_one(r: (oneshot::Receiver<V>, parker::Parker)) -> Rx {
    Rx::SyncOne(Some(r.0))
}
fn tokio_one(r: tokio::sync::oneshot::Receiver<V>) -> Rx {
    Rx::TokioOne(r)
}

struct Blocking;
impl Driver for Blocking {
    type Spec = SyncChannels;
    const NAME: &'static str = "blocking";
    fn new() -> Self {
        Blocking
    }
    fn spec() -> SyncChannels {
        SyncChannels
    }
    fn add(c: &mut Client<Conn, SyncChannels>, m: MakeOne, how: u32) -> (usize, Rx) {
        add_impl!(c, m, how, SyncQueue, sync_one, SyncAll, TokioChannels, TokioQueue, tokio_one, TokioAll)
    }
    const GIVES_UP: bool = false;
    fn run(&self, c: &mut Client<Conn, SyncChannels>, _: Option<Duration>) -> Option<Ran> {
        Some(match c.run() {
            Ok(v) => Ok(v.map(|(y, f)| (y.to_vec(), f.to_vec()))),
            Err(e) => Err(e.kind()),
        })
    }
    fn flush(&self, c: &mut Client<Conn, SyncChannels>) -> Result<Option<Duration>, ErrorKind> {
        c.flush_partial().map_err(|e| e.kind())
    }
    fn advance(&self, d: Duration) {
        clock::advance(d);
    }
}
struct Async(Tokio);
impl Driver for Async {
    type Spec = TokioChannels;
    const NAME: &'static str = "asynchronous";
    fn new() -> Self {
        Async(Tokio::new())
    }
    fn spec() -> TokioChannels {
        TokioChannels
    }
    fn add(c: &mut Client<Conn, TokioChannels>, m: MakeOne, how: u32) -> (usize, Rx) {
        add_impl!(c, m, how, TokioQueue, tokio_one, TokioAll, SyncChannels, SyncQueue, sync_one, SyncAll)
    }
    const GIVES_UP: bool = true;
    fn run(&self, c: &mut Client<Conn, TokioChannels>, limit: Option<Duration>) -> Option<Ran> {
        self.0.run(async {
            let ran = async {
                match c.run_tokio().await {
                    Ok(v) => Ok(v.map(|(y, f)| (y.to_vec(), f.to_vec()))),
                    Err(e) => Err(e.kind()),
                }
            };
            match limit {
                Some(d) => tokio::time::timeout(d, ran).await.ok(),
                None => Some(ran.await),
            }
        })
    }
    fn flush(&self, c: &mut Client<Conn, TokioChannels>) -> Result<Option<Duration>, ErrorKind> {
        self.0.run(async { c.flush_partial_tokio().await.map_err(|e| e.kind()) })
    }
    fn advance(&self, d: Duration) {
        self.0.advance(d);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum HKind {
    Queue,
    One,
    All,
}
/// Model of one handler and of the receiving end of its channel.
struct MH {
    uid: u32,
    id: usize,
    kind: HKind,
    plan: Vec<Act>,
}
#[derive(Default)]
struct MRx {
    alive: bool,
    one: bool,
    used: bool,
    expect: VecDeque<Got>,
}

/// Adjusts what is queued on some of the server's messages: marks it, and drops some of it.
#[derive(Clone, Debug)]
struct Adj {
    every: u32,
    drops: u32,
    charges: u32,
    left: u32,
}
impl Adj {
    fn wants(&mut self, n: u32) -> bool {
        let yes = n % self.every == 0 && self.left > 0;
        self.left -= yes as u32;
        yes
    }
    fn drops(&self, line: &[u8]) -> bool {
        let sum: u32 = line.iter().map(|b| *b as u32).sum();
        self.drops != 0 && sum % self.drops == 0
    }
}
const MARK: &[u8] = b" marked";
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.wants(msg_num(msg))
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let mut line = Vec::new();
        let _ = ClientCodec::write_to(msg, &mut line);
        if !line.ends_with(MARK) {
            msg.args.edit().add_word(Arg::from_str("marked"));
        }
        !self.drops(&line)
    }
    fn reset(&mut self) {
        self.left = self.charges;
    }
}

#[derive(Clone)]
struct OnTimeout {
    continues: u32,
    pushes: bool,
}

struct Model {
    now: u64,
    bucket: Bucket,
    queue: VecDeque<Vec<u8>>,
    adj: Option<Adj>,
    /// Messages adjusted, for samples.
    adjusted: u32,
    hs: Vec<MH>,
    rxs: BTreeMap<u32, MRx>,
    inbox: VecDeque<(u64, In)>,
    /// Received by the connection but not yet read by the client.
    cur: Vec<u8>,
    partial: Vec<u8>,
    outs: VecDeque<(usize, Out)>,
    flushes: VecDeque<Flush>,
    dirty: bool,
    blocked_until: Option<u64>,
    flush_until: Option<u64>,
    /// The last run failed with results of handlers not yet reported.
    unreported: bool,
    /// The last run failed before it read anything, and nothing is left half done.
    write_failed: bool,
    sent: Vec<(u64, u8)>,
    rto: Option<u64>,
    wto: Option<u64>,
    on_timeout: Option<OnTimeout>,
    timeout_calls: u32,
    counter: u32,
    /// Handled messages and what handlers made of them, for samples.
    handled: u32,
    timeouts: u32,
}

enum Stop {
    Fail(String),
    /// Two things happen at the same instant; either order is fine.
    Tie,
    /// The run was dropped while it waited.
    GaveUp,
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Fail(s)
    }
}
type Modelled = Result<Ran, Stop>;

impl Model {
    fn write_all(&mut self, mut buf: &[u8]) -> Result<(), ErrorKind> {
        while !buf.is_empty() {
            let at = self.sent.len();
            let room = match self.outs.front() {
                Some((n, _)) if *n > at => *n - at,
                Some(_) => 0,
                None => usize::MAX,
            };
            if room > 0 {
                let n = room.min(buf.len());
                let now = self.now;
                self.sent.extend(buf[..n].iter().map(|b| (now, *b)));
                self.dirty = true;
                buf = &buf[n..];
                continue;
            }
            if let Some((_, Out::Block(d))) = self.outs.front() {
                let until = *self.blocked_until.get_or_insert(self.now + *d);
                let left = until.saturating_sub(self.now);
                if let Some(t) = self.wto.filter(|t| *t < left) {
                    self.now += t;
                    return Err(ErrorKind::TimedOut);
                }
                self.now += left;
                self.blocked_until = None;
                self.outs.pop_front();
                continue;
            }
            match self.outs.pop_front().unwrap().1 {
                Out::Err(k) => return Err(k),
                Out::Zero => return Err(ErrorKind::WriteZero),
                _ => (),
            }
        }
        Ok(())
    }
    /// Sends what may be sent; how long until there is more.
    fn flush(&mut self) -> Result<Option<u64>, ErrorKind> {
        if self.queue.is_empty() {
            return Ok(None);
        }
        let mut buf = Vec::new();
        let mut wait = None;
        let t = self.now;
        while !self.queue.is_empty() {
            let w = self.bucket.wait(t * 1_000_000);
            if w > 0 {
                wait = Some((w / 1_000_000) as u64);
                break;
            }
            self.bucket.take(t * 1_000_000);
            buf.extend(self.queue.pop_front().unwrap());
            buf.extend_from_slice(b"\r\n");
        }
        self.write_all(&buf)?;
        if self.dirty {
            if let Some(Flush::Block(d)) = self.flushes.front() {
                let until = *self.flush_until.get_or_insert(self.now + *d);
                let left = until.saturating_sub(self.now);
                if let Some(t) = self.wto.filter(|t| *t < left) {
                    self.now += t;
                    return Err(ErrorKind::TimedOut);
                }
                self.now += left;
                self.flush_until = None;
            }
            self.dirty = false;
            if let Some(Flush::Err(k)) = self.flushes.pop_front() {
                return Err(k);
            }
        }
        Ok(wait)
    }
    /// Reads one line; `None` if the deadline passes first.
    fn read(&mut self, deadline: Option<u64>, limit: Option<u64>) -> Result<Result<Option<Vec<u8>>, ErrorKind>, Stop> {
        loop {
            if let Some(i) = self.cur.iter().position(|b| *b == b'\n') {
                self.partial.extend(self.cur.drain(..=i));
                let mut line = std::mem::take(&mut self.partial);
                while matches!(line.last(), Some(b'\r' | b'\n')) {
                    line.pop();
                }
                if line.is_empty() {
                    if deadline == Some(self.now) {
                        return Err(Stop::Tie);
                    }
                    continue;
                }
                return Ok(Ok(Some(line)));
            }
            self.partial.append(&mut self.cur);
            let (t, _) = self.inbox.front().unwrap();
            let te = (*t).max(self.now);
            if let Some(l) = limit {
                let next = deadline.map_or(te, |d| d.min(te));
                if next == l {
                    return Err(Stop::Tie);
                }
                if next > l {
                    self.now = l;
                    return Err(Stop::GaveUp);
                }
            }
            if let Some(d) = deadline {
                if te == d {
                    return Err(Stop::Tie);
                }
                if te > d {
                    self.now = d;
                    return Ok(Ok(None));
                }
            }
            self.now = te;
            match self.inbox.pop_front().unwrap().1 {
                In::Data(d) => self.cur = d,
                In::Err(k) => return Ok(Err(k)),
                In::Interrupted => (),
                In::Eof => return Ok(Err(ErrorKind::UnexpectedEof)),
            }
        }
    }
    /// `log` is what the handlers noted while the real client ran.
    fn run(&mut self, log: &mut VecDeque<(u32, ServerMsg<'static>)>, limit: Option<u64>) -> Modelled {
        self.unreported = false;
        self.write_failed = false;
        loop {
            let wait = match self.flush() {
                Ok(w) => w,
                Err(k) => {
                    self.write_failed = true;
                    if limit.is_some_and(|l| self.now >= l) {
                        return Err(Stop::Tie);
                    }
                    return Ok(Err(k));
                }
            };
            // What a write leaves behind that is dropped before it is done is not specified.
            if limit.is_some_and(|l| self.now >= l) {
                return Err(Stop::Tie);
            }
            if self.hs.is_empty() {
                if let Some(w) = wait {
                    if let Some(l) = limit.filter(|l| *l <= self.now + w) {
                        if l == self.now + w {
                            return Err(Stop::Tie);
                        }
                        self.now = l;
                        return Err(Stop::GaveUp);
                    }
                    self.now += w;
                    continue;
                }
                return Ok(Ok(Some((vec![], vec![]))));
            }
            let deadline = wait.or(self.rto).map(|d| self.now + d);
            let line = match self.read(deadline, limit)? {
                Err(k) => return Ok(Err(k)),
                Ok(None) => {
                    if wait.is_some() {
                        continue;
                    }
                    self.timeouts += 1;
                    let Some(f) = &mut self.on_timeout else { return Ok(Ok(None)) };
                    self.timeout_calls += 1;
                    if f.pushes {
                        self.queue.push_back(format!("TO {}", self.timeout_calls).into_bytes());
                    }
                    if f.continues == 0 {
                        return Ok(Err(ErrorKind::TimedOut));
                    }
                    f.continues -= 1;
                    continue;
                }
                Ok(Some(l)) => l,
            };
            let Ok(msg) = ServerMsg::parse(line) else { return Ok(Err(ErrorKind::InvalidData)) };
            self.handled += 1;
            let n = msg_num(&msg);
            // What is queued already is adjusted, but not what handlers make of the message.
            if let Some(adj) = &mut self.adj {
                if adj.wants(n) {
                    self.adjusted += self.queue.len() as u32;
                    self.queue.retain_mut(|line| {
                        let keep = !adj.drops(line);
                        if !line.ends_with(MARK) {
                            line.extend_from_slice(MARK);
                        }
                        keep
                    });
                }
            }
            // Every live handler, once, in some order.
            let probes = self.hs.iter().filter(|h| h.kind != HKind::All).count();
            let mut order: Vec<u32> = Vec::new();
            for _ in 0..probes {
                let Some((uid, m)) = log.pop_front() else {
                    return Err(Stop::Fail(format!(
                        "message {n} reached handlers {order:?} of {:?} only",
                        self.hs.iter().map(|h| h.uid).collect::<Vec<_>>()
                    )));
                };
                if m != msg {
                    return Err(Stop::Fail(format!("handler {uid} was shown {m}, expected {msg}")));
                }
                if order.contains(&uid) || !self.hs.iter().any(|h| h.uid == uid && h.kind != HKind::All) {
                    return Err(Stop::Fail(format!("handler {uid} was shown message {n} again or after it ended")));
                }
                order.push(uid);
            }
            order.extend(self.hs.iter().filter(|h| h.kind == HKind::All).map(|h| h.uid));
            let (mut yielded, mut finished) = (vec![], vec![]);
            for uid in order {
                let i = self.hs.iter().position(|h| h.uid == uid).unwrap();
                let h = &self.hs[i];
                let rx = self.rxs.get_mut(&uid).unwrap();
                let (mut did, mut done) = (false, false);
                if h.kind == HKind::All {
                    if rx.alive {
                        rx.expect.push_back(Got::M(msg.clone()));
                        did = true;
                    } else {
                        done = true;
                    }
                } else {
                    self.counter += 1;
                    let act = &h.plan[n as usize % h.plan.len()];
                    for k in 0..act.yields {
                        if rx.alive && !(rx.one && rx.used) {
                            rx.used = true;
                            rx.expect.push_back(Got::V((uid, n, k)));
                            did = true;
                        }
                    }
                    for k in 0..act.queues {
                        self.queue.push_back(format!("Q {uid} {n} {k}").into_bytes());
                    }
                    done = act.finish;
                }
                if did {
                    yielded.push(h.id);
                }
                if done {
                    finished.push(h.id);
                    self.hs.remove(i);
                }
            }
            if !yielded.is_empty() || !finished.is_empty() {
                let flushed = self.flush();
                if limit.is_some_and(|l| self.now >= l) {
                    return Err(Stop::Tie);
                }
                if let Err(k) = flushed {
                    self.unreported = true;
                    return Ok(Err(k));
                }
                yielded.sort();
                finished.sort();
                return Ok(Ok(Some((yielded, finished))));
            }
        }
    }
    fn reset(&mut self) {
        self.hs.clear();
        self.queue.clear();
        self.bucket.paid = self.now as u128 * 1_000_000;
        self.partial.clear();
        self.counter = 0;
        if let Some(adj) = &mut self.adj {
            adj.left = adj.charges;
        }
    }
    fn new_conn(&mut self) {
        self.inbox.clear();
        self.cur.clear();
        self.outs.clear();
        self.flushes.clear();
        self.dirty = false;
        self.blocked_until = None;
        self.flush_until = None;
        self.sent.clear();
    }
}

#[derive(Clone, Copy)]
struct Cfg {
    faults: bool,
}

const FAR: u64 = 10_000_000;

/// Is this error one after which the documentation lets a caller run the client again?
fn resumable(k: ErrorKind) -> bool {
    matches!(k, ErrorKind::UnexpectedEof)
}

fn history<D: Driver>(src: &mut Src, ctx: &mut Ctx, cfg: Cfg) -> Result<(), String> {
    let ar = Arena::default();
    let _v = clock::Virtual::start();
    let d = D::new();
    let (conn, wire) = Conn::new();
    let mut wire = wire;
    let mut c = Some(Client::new(conn, D::spec()));
    let mut m = Model {
        now: 0,
        bucket: Bucket::new(0),
        queue: VecDeque::new(),
        adj: None,
        adjusted: 0,
        hs: Vec::new(),
        rxs: BTreeMap::new(),
        inbox: VecDeque::new(),
        cur: Vec::new(),
        partial: Vec::new(),
        outs: VecDeque::new(),
        flushes: VecDeque::new(),
        dirty: false,
        blocked_until: None,
        flush_until: None,
        unreported: false,
        write_failed: false,
        sent: Vec::new(),
        rto: None,
        wto: None,
        on_timeout: None,
        timeout_calls: 0,
        counter: 0,
        handled: 0,
        timeouts: 0,
    };
    let log: Log = Arc::default();
    let to_calls = Arc::new(Mutex::new(0u32));
    let mut rxs: BTreeMap<u32, Rx> = BTreeMap::new();
    let (mut uid, mut seq, mut pushed) = (0u32, 0u32, 0u32);
    let mut runs = 0;
    let mut dead = false;
    let mut faults = 0;
    let mut lost = 0;
    let mut gave_up = 0;
    let want = ctx.want_sample;
    let mut trace: Vec<String> = Vec::new();
    let mut would_block = src.bool();
    wire.borrow_mut().would_block = would_block;
    // Some start from logic prepared beforehand.
    if src.chance(1, 4) {
        let mut logic = ClientLogic::new();
        let mut parts = [0, 1, 2, 3];
        parts.swap(src.usize_below(4), src.usize_below(4));
        for part in parts {
            if src.bool() {
                continue;
            }
            logic = match part {
                0 => {
                    let mut q = Queue::new();
                    for k in 0..src.below(4) {
                        q.edit().push(client_msg(format!("BEFORE {k}")));
                        m.queue.push_back(format!("BEFORE {k}").into_bytes());
                    }
                    logic.with_queue(q)
                }
                1 => {
                    let mut s = ClientState::new();
                    m.counter = src.below(9);
                    if m.counter > 0 {
                        s.insert::<Counter>(m.counter);
                    }
                    logic.with_state(s)
                }
                2 if cfg.faults => {
                    let t = src.range(0, 15_000) as u64;
                    m.rto = Some(t.max(1000));
                    logic.with_read_timeout(Duration::from_millis(t))
                }
                3 if cfg.faults => {
                    let t = src.range(0, 8_000) as u64;
                    m.wto = Some(t.max(1000));
                    logic.with_write_timeout(Duration::from_millis(t))
                }
                _ => logic,
            };
        }
        let (conn, w) = Conn::new();
        wire = w;
        c = Some(Client::new_with_logic(conn, D::spec(), logic));
    }
    if src.bool() {
        // Out of the way unless asked for.
        c.as_mut().unwrap().queue_mut().set_rate_limit(Duration::ZERO, 0);
        m.bucket.set(0, Duration::ZERO, 0);
    }

    for _ in 0..src.range(4, 30) {
        let cl = c.as_mut().unwrap();
        let op = if dead { 8 } else { src.weighted(&[6, 9, 10, 3, 2, 3, 4, 3, 1, 2, 1]) };
        match op {
            0 => for _ in 0..if src.chance(1, 80) { src.range(8, 40) } else { 1 } {
                uid += 1;
                let plan: Vec<Act> = (0..src.range(1, 6))
                    .map(|_| Act {
                        yields: [0, 0, 0, 1, 2, 3][src.usize_below(6)],
                        queues: [0, 0, 0, 1, 2][src.usize_below(5)],
                        finish: src.chance(1, 8),
                        own: src.bool(),
                    })
                    .collect();
                let initial = if src.chance(1, 3) { src.below(4) } else { 0 };
                let p = Probe { uid, plan: plan.clone(), own: src.bool(), initial, log: log.clone() };
                let (kind, mk) = match src.below(6) {
                    0 => (HKind::One, MakeOne::One(ProbeOne(p))),
                    1 => (HKind::All, MakeOne::All),
                    2 if src.chance(1, 4) => {
                        ensure!(cl.add(Refuse, uid).is_err(), "a handler that was not made was added");
                        m.queue.push_back(format!("NOPE {uid}").into_bytes());
                        continue;
                    }
                    _ => (HKind::Queue, MakeOne::Queue(p)),
                };
                let how = src.below(3);
                let (id, rx) = D::add(cl, mk, how);
                ensure!(
                    !m.hs.iter().any(|h| h.id == id),
                    "handler id {id} given out while a handler with that id is live"
                );
                if kind != HKind::All {
                    for k in 0..initial {
                        m.queue.push_back(format!("ADD {uid} {k}").into_bytes());
                    }
                }
                let alive = !src.chance(1, 12);
                rxs.insert(uid, if alive { rx } else { Rx::Gone });
                m.rxs.insert(
                    uid,
                    MRx { alive, one: kind == HKind::One, used: false, expect: VecDeque::new() },
                );
                if want {
                    trace.push(format!("add {kind:?} as {id}"));
                }
                m.hs.push(MH { uid, id, kind, plan });
            }
            // The server speaks.
            1 => {
                let mut bytes = Vec::new();
                for _ in 0..src.range(1, 4) {
                    if src.chance(1, 6) {
                        bytes.extend_from_slice(*src.pick(&[&b"\r\n"[..], b"\n", b"\r\n\r\n"]));
                    }
                    if cfg.faults && src.chance(1, 60) {
                        bytes.extend_from_slice(b":nothing else\xff\n".get(..8).unwrap());
                        bytes.extend_from_slice(b"\r\n");
                        continue;
                    }
                    seq += 1;
                    let mut sm = ServerMsg::new_cmd(cmd(src, &ar, 5));
                    if src.chance(1, 4) {
                        sm.tags = mk_tags(src, &ar, 2);
                    }
                    if src.chance(1, 3) {
                        sm.source = Some(SharedSource::new(mk_source(src, &ar)));
                    }
                    sm.args.edit().add_word(Arg::from_bytes(seq.to_string()).unwrap());
                    if src.chance(1, 3) {
                        sm.args.edit().add(line(src, &ar, 20));
                    }
                    let _ = ServerCodec::write_to(&sm, &mut bytes);
                    bytes.extend_from_slice(if src.chance(1, 4) { b"\n" } else { b"\r\n" });
                }
                // Part of it may have to wait for next time.
                let mut cuts: Vec<usize> = (0..src.len(5)).map(|_| src.usize_below(bytes.len() + 1)).collect();
                cuts.push(0);
                cuts.push(bytes.len());
                cuts.sort();
                cuts.dedup();
                let mut t = m.inbox.back().map_or(m.now, |e| e.0.max(m.now));
                for w in cuts.windows(2) {
                    if cfg.faults {
                        t += match src.below(4) {
                            0 => 0,
                            1 => src.below(50) as u64,
                            2 => src.below(3000) as u64,
                            _ => src.below(12_000) as u64,
                        };
                        if src.chance(1, 30) {
                            let k = *src.pick(&[
                                ErrorKind::ConnectionReset,
                                ErrorKind::BrokenPipe,
                                ErrorKind::Other,
                                ErrorKind::ConnectionAborted,
                            ]);
                            m.inbox.push_back((t, In::Err(k)));
                            faults += 1;
                        }
                        if src.chance(1, 20) {
                            m.inbox.push_back((t, In::Eof));
                            faults += 1;
                        }
                    }
                    if src.chance(1, 16) {
                        m.inbox.push_back((t, In::Interrupted));
                    }
                    m.inbox.push_back((t, In::Data(bytes[w[0]..w[1]].to_vec())));
                }
                wire.borrow_mut().inbox = m.inbox.clone();
                if want {
                    trace.push(format!("server sends up to message {seq} in {} pieces", cuts.len() - 1));
                }
            }
            2 => {
                // A read that nothing ends is ended by the end of the stream, eventually.
                let end = m.inbox.back().map_or(m.now, |e| e.0.max(m.now)) + FAR;
                m.inbox.push_back((end, In::Eof));
                wire.borrow_mut().inbox.push_back((end, In::Eof));
                log.lock().unwrap().clear();
                let limit = (D::GIVES_UP && src.chance(1, 4)).then(|| src.range(1, 9000) as u64);
                let got = d.run(cl, limit.map(Duration::from_millis));
                let got = got.map(|r| {
                    r.map(|o| {
                        o.map(|(mut y, mut f)| {
                            y.sort();
                            f.sort();
                            (y, f)
                        })
                    })
                });
                let mut noted: VecDeque<_> = std::mem::take(&mut *log.lock().unwrap()).into();
                let expect = match m.run(&mut noted, limit.map(|l| m.now + l)) {
                    Ok(r) => Some(r),
                    Err(Stop::GaveUp) => {
                        gave_up += 1;
                        None
                    }
                    Err(Stop::Tie) => {
                        ctx.label("discarded: simultaneous events");
                        return Ok(());
                    }
                    Err(Stop::Fail(e)) => return Err(format!("{}: {e} (run returned {got:?})", D::NAME)),
                };
                ensure_eq!(got, expect, "{}: run {runs} returned (ids that yielded, ids that finished)", D::NAME);
                ensure!(
                    noted.is_empty(),
                    "{}: handlers were shown messages the client should not have processed yet: {:?}",
                    D::NAME,
                    noted.iter().map(|(u, m)| (u, msg_num(m))).collect::<Vec<_>>()
                );
                for q in [&mut m.inbox, &mut wire.borrow_mut().inbox] {
                    if q.back().is_some_and(|e| e.0 == end) {
                        q.pop_back();
                    }
                }
                if want {
                    trace.push(format!("run -> {got:?}"));
                }
                if let Some(Err(k)) = got {
                    // What was handed to the connection is lost, and what was not is not.
                    dead = m.unreported || !(resumable(k) || k == ErrorKind::TimedOut || m.write_failed);
                    if m.write_failed {
                        lost += 1;
                    }
                    faults += 1;
                }
                runs += 1;
            }
            3 => {
                let i = src.usize_below(rxs.len().max(1));
                if let Some((u, rx)) = rxs.iter_mut().nth(i) {
                    check_rx(*u, rx, &mut m)?;
                }
            }
            4 => {
                if !rxs.is_empty() {
                    let i = src.usize_below(rxs.len());
                    let u = *rxs.keys().nth(i).unwrap();
                    rxs.insert(u, Rx::Gone);
                    let r = m.rxs.get_mut(&u).unwrap();
                    r.alive = false;
                    r.expect.clear();
                }
            }
            5 => {
                let (n, len) = if src.chance(1, 100) { (src.range(30, 120), 480) } else { (src.range(1, 7), 20) };
                for _ in 0..n {
                    pushed += 1;
                    let s = format!("USER {pushed} {}", "x".repeat(src.usize_below(len)));
                    let msg = client_msg(s);
                    let mut b = Vec::new();
                    let _ = ClientCodec::write_to(&msg, &mut b);
                    m.queue.push_back(b);
                    cl.queue_mut().edit().push(msg);
                }
            }
            6 if cfg.faults => match src.below(6) {
                0 | 1 => {
                    let t = src.chance(3, 4).then(|| src.range(0, 15_000) as u64);
                    cl.set_read_timeout(t.map(Duration::from_millis));
                    m.rto = t.map(|t| t.max(1000));
                    if want {
                        trace.push(format!("read timeout {t:?} ms"));
                    }
                }
                2 => {
                    let t = src.chance(3, 4).then(|| src.range(0, 8_000) as u64);
                    cl.set_write_timeout(t.map(Duration::from_millis));
                    m.wto = t.map(|t| t.max(1000));
                }
                3 => {
                    if src.chance(1, 4) {
                        cl.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>);
                        m.on_timeout = None;
                    } else {
                        let f = OnTimeout { continues: src.below(4), pushes: src.bool() };
                        m.on_timeout = Some(f.clone());
                        let calls = to_calls.clone();
                        let (mut left, pushes) = (f.continues, f.pushes);
                        cl.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                            let mut calls = calls.lock().unwrap();
                            *calls += 1;
                            if pushes {
                                l.queue_mut().edit().push(client_msg(format!("TO {calls}")));
                            }
                            if left == 0 {
                                return ControlFlow::Break(());
                            }
                            left -= 1;
                            ControlFlow::Continue(())
                        }));
                    }
                }
                4 => {
                    let mut at = m.sent.len();
                    m.outs.clear();
                    m.blocked_until = None;
                    for _ in 0..src.range(1, 4) {
                        at += src.below(60) as usize + !m.outs.is_empty() as usize;
                        let o = match src.below(9) {
                            0..=2 => Out::Short,
                            3 => Out::Interrupted,
                            4 => Out::Err(*src.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset])),
                            5 => Out::Zero,
                            _ => Out::Block(src.range(0, 9000) as u64),
                        };
                        m.outs.push_back((at, o));
                    }
                    let mut w = wire.borrow_mut();
                    w.outs = m.outs.clone();
                    w.unblock();
                    faults += 1;
                }
                _ => {
                    let n = src.below(3);
                    m.flushes = (0..n).map(|_| Flush::Done).collect();
                    for _ in 0..src.range(1, 3) {
                        m.flushes.push_back(match src.below(3) {
                            0 => Flush::Err(ErrorKind::BrokenPipe),
                            _ => Flush::Block(src.range(0, 9000) as u64),
                        });
                    }
                    m.flush_until = None;
                    let mut w = wire.borrow_mut();
                    w.flushes = m.flushes.clone();
                    w.unstall();
                    drop(w);
                    faults += 1;
                }
            },
            6 => {}
            7 => {
                let t = src.below(6000) as u64;
                d.advance(Duration::from_millis(t));
                m.now += t;
            }
            8 => {
                let mut how = src.below(4);
                if dead {
                    how = 1;
                    dead = false;
                }
                if how != 0 {
                    m.new_conn();
                }
                if how <= 1 {
                    m.reset();
                }
                match how {
                    0 => {
                        cl.reset();
                        ensure!(!cl.needs_run(), "{}: work left after a reset", D::NAME);
                    }
                    1 => {
                        let (conn, w) = Conn::new();
                        let old = cl.reset_with_conn(conn);
                        ensure!(Rc::ptr_eq(&old.w, &wire), "reset_with_conn returned another connection");
                        wire = w;
                    }
                    2 => {
                        let (conn, w) = Conn::new();
                        c = Some(c.take().unwrap().with_conn(conn));
                        wire = w;
                    }
                    _ => {
                        // Into its parts; what is configured goes along.
                        let (conn, w) = Conn::new();
                        c = Some(c.take().unwrap().with_spec(D::spec()).with_conn(conn));
                        wire = w;
                    }
                }
                wire.borrow_mut().would_block = would_block;
                would_block = !would_block;
                let cl = c.as_ref().unwrap();
                if how <= 1 {
                    ensure!(cl.state().get::<Counter>().is_none(), "{}: state survived a reset", D::NAME);
                    ensure_eq!(
                        cl.state().source_len(),
                        ClientState::new().source_len(),
                        "{}: source length after a reset",
                        D::NAME
                    );
                    ensure!(!cl.queue().is_using_labeler(), "{}: the labeler survived a reset", D::NAME);
                }
                if want {
                    trace.push(["reset", "reset_with_conn", "with_conn", "with_conn"][how as usize].into());
                }
            }
            9 => {
                let (t, n) = (src.below(4000) as u64 * src.below(2) as u64, src.below(5));
                cl.queue_mut().set_rate_limit(Duration::from_millis(t), n);
                m.bucket.set(m.now * 1_000_000, Duration::from_millis(t), n);
                match src.below(4) {
                    0 | 1 => {
                        let charges = if src.bool() { 1000 } else { src.below(3) };
                        let adj = Adj { every: src.range(1, 4) as u32, drops: src.below(5), charges, left: charges };
                        cl.queue_mut().use_adjuster(adj.clone());
                        m.adj = Some(adj);
                    }
                    2 if src.bool() => {
                        cl.queue_mut().use_no_adjuster();
                        m.adj = None;
                    }
                    _ => (),
                }
                if src.chance(1, 4) {
                    cl.queue_mut().use_labeler_default();
                    cl.state_mut().set_source_len(std::num::NonZeroUsize::new(7).unwrap());
                }
            }
            _ => {
                let got = d.flush(cl).map(|o| o.map(|d| d.as_millis() as u64));
                let expect = m.flush();
                ensure_eq!(got, expect, "{}: flush_partial returned", D::NAME);
                if got.is_err() {
                    lost += 1;
                }
            }
        }
        let cl = c.as_ref().unwrap();
        ensure_eq!(now_ms(), m.now, "{}: time (in ms) after {}", D::NAME, ["add", "server", "run", "drain", "drop", "push", "configure", "advance", "reset", "limit", "flush"][op]);
        {
            let w = wire.borrow();
            if w.sent != m.sent {
                let text = |v: &[(u64, u8)]| {
                    let b: Vec<u8> = v.iter().map(|x| x.1).collect();
                    (show(&b), v.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>())
                };
                return Err(format!("{}: sent {:?}, expected {:?}", D::NAME, text(&w.sent), text(&m.sent)));
            }
            if let Some(e) = w.misuse {
                return Err(format!("{}: {e}", D::NAME));
            }
        }
        ensure_eq!(*to_calls.lock().unwrap(), m.timeout_calls, "{}: calls of the timeout function", D::NAME);
        if !dead {
            ensure_eq!(cl.queue().len(), m.queue.len(), "{}: messages left in the queue", D::NAME);
            ensure_eq!(
                cl.needs_run(),
                !m.hs.is_empty() || !m.queue.is_empty(),
                "{}: needs_run with {} handlers, {} queued",
                D::NAME,
                m.hs.len(),
                m.queue.len()
            );
            ensure_eq!(
                cl.state().get::<Counter>().copied().unwrap_or(0),
                m.counter,
                "{}: count kept in the shared state",
                D::NAME
            );
        }
    }
    for (u, rx) in rxs.iter_mut() {
        check_rx(*u, rx, &mut m)?;
    }
    if m.adjusted > 0 {
        ctx.label("queued messages adjusted");
    }
    if m.timeouts > 0 {
        ctx.label("read timeout");
    }
    if faults > 0 {
        ctx.label("fault");
    }
    if gave_up > 0 {
        ctx.label("went on after a run that was dropped");
    }
    if lost > 0 {
        ctx.label("went on after a failed write");
    }
    if m.handled > 0 {
        ctx.label("messages handled");
        if !cfg.faults || m.timeouts > 0 || faults > 0 || gave_up > 0 {
            ctx.nontrivial();
        }
    }
    ctx.sample(|| trace.join("; "));
    Ok(())
}

fn check_rx(uid: u32, rx: &mut Rx, m: &mut Model) -> Result<(), String> {
    let r = m.rxs.get_mut(&uid).unwrap();
    let (got, closed) = rx.drain();
    let expect: Vec<Got> = r.expect.drain(..).collect();
    ensure_eq!(got, expect, "values received from handler {uid}");
    if let Some(closed) = closed {
        let live = m.hs.iter().any(|h| h.uid == uid);
        ensure_eq!(closed, !live, "channel of handler {uid} closed");
    }
    Ok(())
}

/// The same history for both clients.
fn both(src: &mut Src, ctx: &mut Ctx, cfg: Cfg) -> Result<(), String> {
    history::<Blocking>(src, ctx, cfg)?;
    let tape = src.tape.clone();
    history::<Async>(&mut Src::from_tape(&tape), ctx, cfg)
}
fn c14_history(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    both(src, ctx, Cfg { faults: false })
}
fn c25_history(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    both(src, ctx, Cfg { faults: true })
}

/// A handler for several kinds of messages, each with its own way of reading them.
fn yield_parsed(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use vinezombie::names::{cmd::*, NameValued, ServerMsgKind};
    let ar = Arena::default();
    let _v = clock::Virtual::start();
    type T = (u8, Vec<u8>, u32);
    // What is registered for each kind: how many values per message, and a mark.
    let mut reg: BTreeMap<&'static str, (u32, u8)> = BTreeMap::new();
    let mut h: YieldParsed<T> = YieldParsed::new();
    let mut first = true;
    for mark in 0..src.range(0, 5) as u8 {
        let n = src.below(4);
        macro_rules! put {
            ($k:ident) => {{
                let f = move |v: TargetedMsg<'static, Line<'static>>| {
                    (0..n).map(move |i| (mark, v.value.to_vec(), i))
                };
                // Deprecated, for at most one value.
                let one = move |v: TargetedMsg<'static, Line<'static>>| (n == 1).then(|| (mark, v.value.to_vec(), 0));
                #[allow(deprecated)]
                let made = match (first, n < 2 && src.bool()) {
                    (true, true) => YieldParsed::just_map($k, one),
                    (true, false) => YieldParsed::just_flat_map($k, f),
                    (false, true) => h.with_map($k, one),
                    (false, false) => h.with_flat_map($k, f),
                };
                h = made;
                reg.insert(stringify!($k), (n, mark));
            }};
        }
        match src.below(6) {
            0 => put!(PRIVMSG),
            1 => put!(NOTICE),
            2 => put!(QUIT),
            3 => put!(TOPIC),
            4 => put!(PART),
            _ => {
                let f = move |v: TargetedMsg<'static, ()>| (0..n).map(move |i| (mark, v.target.to_vec(), i));
                h = if first { YieldParsed::just_flat_map(JOIN, f) } else { h.with_flat_map(JOIN, f) };
                reg.insert("JOIN", (n, mark));
            }
        }
        first = false;
    }
    // And one that passes the view itself on.
    let plain = if src.bool() { YieldParsed::just(PRIVMSG) } else { YieldParsed::new().with(PRIVMSG) };
    let plain = plain.with(NOTICE);

    let (conn, wire) = Conn::new();
    let mut c = Client::new(conn, SyncChannels);
    let (id1, rx1) = c.add((), h).unwrap();
    let (id2, rx2) = c.add((), plain).unwrap();
    ensure!(id1 != id2, "two handlers share an id");
    let closes_at = src.chance(1, 4).then(|| src.below(6));
    let mut rx2 = Some(rx2);
    let mut live2 = true;
    for step in 0..src.range(1, 10) as u32 {
        let mut m = ServerMsg::new_cmd(cmd(src, &ar, 5));
        let kind = *src.pick(&["PRIVMSG", "NOTICE", "QUIT", "TOPIC", "PART", "JOIN", "OTHER", "PRIVMSG"]);
        m.kind = ServerMsgKindRaw::Cmd(Cmd::from_str(kind));
        m.args = mk_args(src, &ar, 2);
        m.tags = mk_tags(src, &ar, 2);
        if closes_at == Some(step) {
            rx2 = None;
        }
        let mut bytes = Vec::new();
        let _ = ServerCodec::write_to(&m, &mut bytes);
        bytes.extend_from_slice(b"\r\n");
        let now = now_ms();
        wire.borrow_mut().inbox.extend([(now, In::Data(bytes)), (now + FAR, In::Eof)]);
        let r = c.run().map(|o| o.map(|(y, f)| (y.to_vec(), f.to_vec())));
        let view = match kind {
            "PRIVMSG" => <PRIVMSG as NameValued<ServerMsgKind>>::from_union(&m).ok(),
            "NOTICE" => <NOTICE as NameValued<ServerMsgKind>>::from_union(&m).ok(),
            "QUIT" => <QUIT as NameValued<ServerMsgKind>>::from_union(&m).ok(),
            "TOPIC" => <TOPIC as NameValued<ServerMsgKind>>::from_union(&m).ok(),
            "PART" => <PART as NameValued<ServerMsgKind>>::from_union(&m).ok(),
            _ => None,
        };
        let text = match kind {
            "JOIN" => <JOIN as NameValued<ServerMsgKind>>::from_union(&m).ok().map(|v| v.target.to_vec()),
            _ => view.as_ref().map(|v| v.value.to_vec()),
        };
        let want1: Vec<T> = match (text, reg.get(kind)) {
            (Some(t), Some((n, mark))) => (0..*n).map(|i| (*mark, t.clone(), i)).collect(),
            _ => Vec::new(),
        };
        let got1: Vec<T> = rx1.try_iter().collect();
        ensure_eq!(got1, want1, "values made of {m}");
        let (mut y, mut f) = (vec![], vec![]);
        if !want1.is_empty() {
            y.push(id1);
            ctx.nontrivial();
        }
        if let (true, Some(v), "PRIVMSG" | "NOTICE") = (live2, &view, kind) {
            match &rx2 {
                Some(rx) => {
                    y.push(id2);
                    let got: Vec<_> = rx.try_iter().collect();
                    ensure_eq!(got, vec![v.clone()], "views of {m}");
                    ctx.nontrivial();
                }
                None => {
                    f.push(id2);
                    live2 = false;
                }
            }
        } else if let Some(rx) = &rx2 {
            ensure!(rx.try_recv().is_err(), "something made of {m}");
        }
        let expect = if y.is_empty() && f.is_empty() { Err(ErrorKind::UnexpectedEof) } else { Ok(Some((y, f))) };
        let r = r.map_err(|e| e.kind()).map(|o| o.map(|(mut y, f)| { y.sort(); (y, f) }));
        let expect = expect.map(|o| o.map(|(mut y, f): (Vec<usize>, Vec<usize>)| { y.sort(); (y, f) }));
        ensure_eq!(r, expect, "run over {m}");
        wire.borrow_mut().inbox.clear();
        ctx.sample(|| format!("{reg:?}: {m}"));
    }
    Ok(())
}

/// What an address stands for, and when two are the same.
fn addresses(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::hash::{Hash, Hasher};
    use vinezombie::client::conn::ServerAddr;
    let hash = |a: &ServerAddr| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut h);
        h.finish()
    };
    type Addr = (Vec<u8>, bool, Option<u16>);
    let port = |src: &mut Src| match src.below(4) {
        0 => None,
        1 => Some(*src.pick(&[6667u16, 6697])),
        _ => Some(*src.pick(&[0, 1, 6666, 6668, 6698, 65535, 443, 6667])),
    };
    let host = |src: &mut Src| match src.below(3) {
        0 => of_kind(src, Kind::Word, 10),
        _ => src.pick(&["irc.example", "irc.example.", "127.0.0.1", "Irc.example", "::1"]).as_bytes().to_vec(),
    };
    let a: Addr = (host(src), src.bool(), port(src));
    let mut b = a.clone();
    for _ in 0..src.below(3) {
        match src.below(3) {
            0 => b.0 = host(src),
            1 => b.1 ^= true,
            _ => b.2 = port(src),
        }
    }
    let num = |a: &Addr| a.2.unwrap_or(if a.1 { 6697 } else { 6667 });
    let mk = |a: &Addr| ServerAddr { address: Word::from_bytes(a.0.clone()).unwrap(), tls: a.1, port: a.2 };
    let (x, y) = (mk(&a), mk(&b));
    let text = format!("{x:?} and {y:?}");
    ensure_eq!((x.port_num(), y.port_num()), (num(&a), num(&b)), "ports of {text}");
    let same = a.0 == b.0 && a.1 == b.1 && num(&a) == num(&b);
    ensure_eq!((x == y, y == x), (same, same), "{text}: equal");
    ensure!(!same || hash(&x) == hash(&y), "{text}: equal with different hashes");
    let d = ServerAddr::from_host(a.0.clone()).map_err(|e| format!("address {}: {e}", show(&a.0)))?;
    ensure!(d.tls && d.port.is_none() && d.address.as_bytes() == a.0.as_slice(), "address made of {}: {d:?}", show(&a.0));
    if let Ok(s) = std::str::from_utf8(&a.0) {
        ensure!(ServerAddr::from_host_str(s) == d, "address made of the text {s:?}");
    }
    let odd = of_kind(src, Kind::Line, 8);
    ensure_eq!(ServerAddr::from_host(odd.clone()).is_ok(), valid(Kind::Word, &odd), "address made of {}", show(&odd));
    if a != b {
        ctx.nontrivial();
    }
    ctx.sample(|| text);
    Ok(())
}

/// The kinds of connections the library itself offers besides sockets: pairs of streams, and streams
/// that were closed from the start.
fn pairs(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::io::Cursor;
    use vinezombie::client::conn::{Bidir, StreamTokio};
    let ar = Arena::default();
    let _v = clock::Virtual::start();
    let kind = src.below(5);
    let closed = kind == 0;
    let (mut lines, mut bytes) = (Vec::new(), Vec::new());
    if !closed && kind != 2 {
        for _ in 0..src.below(5) {
            let sm = mk_server(src, &ar);
            let at = bytes.len();
            let _ = ServerCodec::write_to(&sm, &mut bytes);
            lines.push(ServerMsg::parse(bytes[at..].to_vec()).map_err(|e| e.to_string())?);
            bytes.extend_from_slice(if src.bool() { b"\r\n" } else { b"\n" });
        }
        if src.chance(1, 4) {
            bytes.extend_from_slice(b"PART of a lin");
        }
    }
    let batches: Vec<Vec<String>> = (0..src.range(1, 4))
        .map(|b| (0..src.below(4)).map(|i| format!("MSG {b} {i} {}", "z".repeat(src.usize_below(100)))).collect())
        .collect();
    let listens = src.chance(5, 6);
    let limits = (src.bool().then(|| src.below(5)), src.bool().then(|| src.below(5)));
    let what = format!("kind {kind}, {} lines, batches {:?}", lines.len(), batches.iter().map(Vec::len).collect::<Vec<_>>());
    ctx.sample(|| what.clone());
    if lines.len() > 1 || closed && !batches[0].is_empty() {
        ctx.nontrivial();
    }
    let mut want_sent = Vec::new();
    for t in batches.iter().flatten() {
        let _ = ClientCodec::write_to(&client_msg(t.clone()), &mut want_sent);
        want_sent.extend_from_slice(b"\r\n");
    }
    let mut got: Vec<ServerMsg<'static>> = Vec::new();
    macro_rules! drive {
        ($c:ident, $rx:ident, $run:expr, $recv:expr) => {{
            $c.queue_mut().set_rate_limit(Duration::ZERO, 0);
            if let Some(t) = limits.0 {
                $c.set_read_timeout(Some(Duration::from_secs(t as u64)));
            }
            if let Some(t) = limits.1 {
                $c.set_write_timeout(Some(Duration::from_secs(t as u64)));
            }
            let mut left = lines.len();
            for b in &batches {
                for t in b {
                    $c.queue_mut().edit().push(client_msg(t.clone()));
                }
                let r = $run.map(|o| o.map(|(y, f)| (y.len(), f.len()))).map_err(|e| e.kind());
                let want = if closed && !b.is_empty() {
                    Err(ErrorKind::WriteZero)
                } else if !listens {
                    Ok(Some((0, 0)))
                } else if left > 0 {
                    left -= 1;
                    Ok(Some((1, 0)))
                } else {
                    Err(ErrorKind::UnexpectedEof)
                };
                ensure_eq!(r, want, "{what}: run returned");
                ensure_eq!($c.queue().len(), 0, "{what}: messages left in the queue");
                $recv;
            }
            ensure_eq!(got.len(), lines.len() - left, "{what}: messages received");
        }};
    }
    macro_rules! blocking {
        ($conn:expr) => {{
            let mut c = Client::new($conn, SyncChannels);
            let rx = listens.then(|| c.add((), YieldAll).unwrap().1);
            drive!(c, rx, c.run(), got.extend(rx.iter().flat_map(|r| r.try_iter())));
            c.take_conn()
        }};
    }
    macro_rules! asynchronous {
        ($conn:expr) => {{
            let mut c = Client::new($conn, TokioChannels);
            let mut rx = listens.then(|| c.add((), YieldAll).unwrap().1);
            drive!(c, rx, c.run_tokio().await, {
                while let Some(m) = rx.as_mut().and_then(|r| r.try_recv().ok()) {
                    got.push(m);
                }
            });
            c.take_conn()
        }};
    }
    let sent = match kind {
        0 => {
            let r: Result<(), String> = Tokio::new().run(async {
                asynchronous!(tokio::io::BufReader::new(StreamTokio::default()));
                Ok(())
            });
            r?;
            Vec::new()
        }
        1 => blocking!(Bidir(Cursor::new(bytes), Vec::new())).1,
        2 => {
            blocking!(Bidir(std::io::empty(), std::io::sink()));
            want_sent.clone()
        }
        3 => {
            let r: Result<Vec<u8>, String> =
                Tokio::new().run(async { Ok(asynchronous!(Bidir(Cursor::new(bytes), Vec::new())).1) });
            r?
        }
        _ => {
            // A pipe that takes only so much at a time.
            let (size, chunk) = (src.range(1, 200) as usize, src.range(1, 200) as usize);
            let want = want_sent.len();
            let r: Result<Vec<u8>, String> = Tokio::new().run(async {
                use tokio::io::{AsyncReadExt, AsyncWriteExt};
                let (a, b) = tokio::io::duplex(size);
                let (mut r, mut w) = tokio::io::split(b);
                let bytes = bytes.clone();
                tokio::spawn(async move {
                    for p in bytes.chunks(chunk) {
                        if w.write_all(p).await.is_err() {
                            break;
                        }
                        tokio::task::yield_now().await;
                    }
                    let _ = w.shutdown().await;
                });
                let hear = tokio::spawn(async move {
                    let mut got = Vec::new();
                    while got.len() < want {
                        match r.read_buf(&mut got).await {
                            Ok(n) if n > 0 => (),
                            _ => break,
                        }
                    }
                    got
                });
                let conn = asynchronous!(tokio::io::BufReader::with_capacity(chunk, a));
                drop(conn);
                hear.await.map_err(|e| e.to_string())
            });
            r?
        }
    };
    ensure_eq!(got, lines[..got.len()].to_vec(), "{what}: messages received");
    if !closed {
        ensure_eq!(show(&sent), show(&want_sent), "{what}: sent");
    }
    Ok(())
}

/// One direction of a connection that remembers the time limits it was given.
#[derive(Default)]
struct Half {
    read: Vec<Option<Duration>>,
    write: Vec<Option<Duration>>,
}
impl conn::ReadTimeout for Half {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        self.read.push(t);
        Ok(())
    }
}
impl conn::WriteTimeout for Half {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> std::io::Result<()> {
        self.write.push(t);
        Ok(())
    }
}
impl std::io::Read for Half {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(ErrorKind::WouldBlock.into())
    }
}
impl std::io::BufRead for Half {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Err(ErrorKind::TimedOut.into())
    }
    fn consume(&mut self, _: usize) {}
}
impl std::io::Write for Half {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Two halves put together: each gets its own time limit.
fn halves(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let _v = clock::Virtual::start();
    let mut c = Client::new(conn::Bidir(Half::default(), Half::default()), SyncChannels);
    c.add((), YieldAll).unwrap();
    let (mut rto, mut wto, mut wset) = (None, None, false);
    let mut trail = Vec::new();
    for _ in 0..src.range(1, 5) {
        let t = src.chance(3, 4).then(|| Duration::from_millis(src.below(20_000) as u64));
        let at_least = t.map(|t| t.max(Duration::from_secs(1)));
        match src.below(3) {
            0 => {
                c.set_read_timeout(t);
                rto = at_least;
                trail.push(format!("read {t:?}"));
            }
            1 => {
                c.set_write_timeout(t);
                wto = at_least;
                wset = true;
                trail.push(format!("write {t:?}"));
            }
            _ => {
                c.queue_mut().edit().push(client_msg("MSG hi".into()));
                let r = c.run().map(|o| o.is_none()).map_err(|e| e.kind());
                trail.push("run".into());
                ensure_eq!(r, Ok(true), "run after {}", trail.join(", "));
                let conn = c.take_conn();
                ensure!(conn.0.write.is_empty() && conn.1.read.is_empty(), "limits given to the wrong half: {}", trail.join(", "));
                ensure_eq!(conn.0.read.last().copied().flatten(), rto, "read limit after {}", trail.join(", "));
                if wset {
                    ensure_eq!(conn.1.write.last(), Some(&wto), "write limit after {}", trail.join(", "));
                    ctx.nontrivial();
                }
                break;
            }
        }
    }
    ctx.sample(|| trail.join(", "));
    Ok(())
}

/// Over real sockets on the loopback interface.
fn loopback(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::io::{Read, Write};
    use vinezombie::client::conn::ServerAddr;
    let ar = Arena::default();
    let Some(listener) = super::listen() else { return Ok(()) };
    let port = listener.local_addr().unwrap().port();
    let mut lines: Vec<ServerMsg<'static>> = Vec::new();
    let mut bytes = Vec::new();
    for _ in 0..src.range(1, 6) {
        let mut sm = mk_server(src, &ar);
        if src.chance(1, 10) {
            let big = "y".repeat(src.range(1000, 4000));
            sm.args.edit().add(Line::from_bytes(big).unwrap());
        }
        let at = bytes.len();
        let _ = ServerCodec::write_to(&sm, &mut bytes);
        if bytes.len() - at > 4000 {
            bytes.truncate(at);
            continue;
        }
        bytes.extend_from_slice(b"\r\n");
        lines.push(ServerMsg::parse(bytes[at..bytes.len() - 2].to_vec()).map_err(|e| e.to_string())?);
    }
    if lines.is_empty() {
        // All of them were too long.
        bytes.extend_from_slice(b"NOTICE * :hi there\r\n");
        lines.push(ServerMsg::parse("NOTICE * :hi there").map_err(|e| e.to_string())?);
    }
    let silent = src.chance(1, 60);
    let mut cuts: Vec<usize> = (0..src.below(6)).map(|_| src.usize_below(bytes.len() + 1)).collect();
    cuts.extend([0, bytes.len()]);
    cuts.sort();
    let pieces: Vec<Vec<u8>> = cuts.windows(2).map(|w| bytes[w[0]..w[1]].to_vec()).collect();
    let pause = src.below(3);
    let asynchronous = src.bool();
    let texts: Vec<String> = (0..src.range(0, 5)).map(|i| format!("MSG {i} {}", "z".repeat(src.usize_below(300)))).collect();
    let server = std::thread::spawn(move || -> std::io::Result<Vec<u8>> {
        let (mut s, _) = listener.accept()?;
        let _ = s.set_nodelay(true);
        for p in pieces {
            s.write_all(&p)?;
            if pause > 0 {
                std::thread::sleep(Duration::from_micros(pause as u64 * 300));
            }
        }
        let mut got = Vec::new();
        s.read_to_end(&mut got)?;
        Ok(got)
    });
    let addr = ServerAddr { address: Word::from_str("127.0.0.1"), tls: src.bool(), port: Some(port) };
    let limits = src.bool();
    let mut got: Vec<ServerMsg<'static>> = Vec::new();
    macro_rules! drive {
        ($c:ident, $rx:ident, $run:expr, $flush:expr, $recv:expr) => {{
            $c.queue_mut().set_rate_limit(Duration::ZERO, 0);
            for t in &texts {
                $c.queue_mut().edit().push(client_msg(t.clone()));
            }
            if limits {
                $c.set_read_timeout(Some(Duration::from_secs(30)));
                $c.set_write_timeout(Some(Duration::from_secs(30)));
            }
            while got.len() < lines.len() {
                match $run {
                    Ok(Some((y, _))) => {
                        if y.is_empty() {
                            return Err("run returned without results".into());
                        }
                    }
                    Ok(None) => return Err("a read timed out with data on its way".into()),
                    Err(e) => return Err(format!("run failed: {e}")),
                }
                $recv;
            }
            if silent {
                $c.set_read_timeout(Some(Duration::from_millis(1)));
                let t = std::time::Instant::now();
                match $run {
                    Ok(None) => (),
                    r => return Err(format!("run on a silent connection returned {r:?}")),
                }
                let t = t.elapsed();
                if t < Duration::from_millis(900) {
                    return Err(format!("a read limited to one second gave up after {t:?}"));
                }
            }
            let _ = $flush;
        }};
    }
    if asynchronous {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r: Result<(), String> = rt.block_on(async {
            let conn = addr.connect_tokio_no_tls().await.map_err(|e| format!("connect: {e}"))?;
            let mut c = Client::new(conn, TokioChannels);
            let (_, mut rx) = c.add((), YieldAll).unwrap();
            drive!(c, rx, c.run_tokio().await, c.flush_partial_tokio().await, {
                while let Ok(m) = rx.try_recv() {
                    got.push(m);
                }
            });
            Ok(())
        });
        r?;
    } else {
        let conn = addr.connect_no_tls().map_err(|e| format!("connect: {e}"))?;
        let mut c = Client::new(conn, SyncChannels);
        let (_, rx) = c.add((), YieldAll).unwrap();
        drive!(c, rx, c.run(), c.flush_partial(), got.extend(rx.try_iter()));
        let conn = c.take_conn();
        if limits {
            let w = conn.get_ref().write_timeout().map_err(|e| e.to_string())?;
            ensure_eq!(w, Some(Duration::from_secs(30)), "write timeout of the socket");
            let r = conn.get_ref().read_timeout().map_err(|e| e.to_string())?;
            ensure!(r.is_some_and(|r| r <= Duration::from_secs(30)), "read timeout of the socket: {r:?}");
        }
        if src.bool() {
            conn.get_ref().shutdown(std::net::Shutdown::Write).map_err(|e| e.to_string())?;
        }
        drop(conn);
    }
    ensure_eq!(got, lines, "messages received over a socket");
    let sent = server.join().unwrap().map_err(|e| format!("server side: {e}"))?;
    let want: Vec<u8> = texts
        .iter()
        .flat_map(|t| {
            let mut b = Vec::new();
            let _ = ClientCodec::write_to(&client_msg(t.clone()), &mut b);
            b.extend_from_slice(b"\r\n");
            b
        })
        .collect();
    ensure_eq!(show(&sent), show(&want), "bytes sent over a socket");
    if lines.len() > 1 && !texts.is_empty() {
        ctx.nontrivial();
    }
    ctx.label(if asynchronous { "asynchronous" } else { "blocking" });
    ctx.sample(|| format!("{} messages in, {} out", lines.len(), texts.len()));
    Ok(())
}

/// The streams opened for an address, used by hand.
fn sockets(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    use std::io::{IoSliceMut, Read, Write};
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    use vinezombie::client::conn::ServerAddr;
    let Some(listener) = super::listen() else { return Ok(()) };
    let port = listener.local_addr().unwrap().port();
    let hello: Vec<u8> = (0..src.below(3000)).map(|i| (i * 7) as u8).collect();
    let pieces: Vec<Vec<u8>> = (0..src.below(6)).map(|i| vec![b'a' + i as u8; src.usize_below(2000)]).collect();
    let reply = src.below(2) * src.below(3000);
    let greeting = hello.clone();
    // Speaks first; answers when the other side has said everything.
    let server = std::thread::spawn(move || -> std::io::Result<Vec<u8>> {
        let (mut s, _) = listener.accept()?;
        s.write_all(&greeting)?;
        let mut got = Vec::new();
        s.read_to_end(&mut got)?;
        s.write_all(&vec![b'!'; reply as usize])?;
        Ok(got)
    });
    let addr = ServerAddr { address: Word::from_str("127.0.0.1"), tls: src.bool(), port: Some(port) };
    let mut before = hello.len();
    let mut got = Vec::new();
    let e = |what: &'static str| move |e: std::io::Error| format!("{what}: {e}");
    let asynchronous = src.bool();
    if asynchronous {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r: Result<(), String> = rt.block_on(async {
            let mut conn = addr.connect_tokio_no_tls().await.map_err(e("connect"))?;
            for p in &pieces {
                let n = src.usize_below(before + 1);
                before -= n;
                let mut buf = vec![0; n];
                conn.read_exact(&mut buf).await.map_err(e("read"))?;
                got.extend(buf);
                conn.get_mut().write_all(p).await.map_err(e("write"))?;
                if src.bool() {
                    conn.get_mut().flush().await.map_err(e("flush"))?;
                }
            }
            // Only the writing half.
            conn.get_mut().shutdown().await.map_err(e("shutdown"))?;
            conn.read_to_end(&mut got).await.map_err(e("read after shutting down the other half"))?;
            Ok(())
        });
        r?;
    } else {
        let mut conn = addr.connect_no_tls().map_err(e("connect"))?;
        let (mut rto, mut wto) = (None, None);
        for p in &pieces {
            let t = src.bool().then(|| Duration::from_secs(src.range(20, 90) as u64));
            match src.below(4) {
                0 => {
                    conn.get_ref().set_read_timeout(t).map_err(e("set_read_timeout"))?;
                    rto = t;
                }
                1 => {
                    conn.get_ref().set_write_timeout(t).map_err(e("set_write_timeout"))?;
                    wto = t;
                }
                2 => {
                    let zero = Some(Duration::ZERO);
                    ensure!(conn.get_ref().set_read_timeout(zero).is_err(), "a read limit of nothing was accepted");
                    ensure!(conn.get_ref().set_write_timeout(zero).is_err(), "a write limit of nothing was accepted");
                }
                _ => (),
            }
            let limits = (conn.get_ref().read_timeout().unwrap(), conn.get_ref().write_timeout().unwrap());
            ensure_eq!(limits, (rto, wto), "read and write limits of a stream");
            let n = src.usize_below(before + 1);
            let mut buf = vec![0; n];
            let n = if n > 0 && src.bool() {
                let (a, b) = buf.split_at_mut(src.usize_below(n));
                conn.read_vectored(&mut [IoSliceMut::new(a), IoSliceMut::new(b)]).map_err(e("read_vectored"))?
            } else {
                conn.read_exact(&mut buf).map_err(e("read"))?;
                n
            };
            before -= n;
            got.extend(&buf[..n]);
            conn.get_mut().write_all(p).map_err(e("write"))?;
            if src.bool() {
                conn.get_mut().flush().map_err(e("flush"))?;
            }
        }
        conn.get_ref().shutdown(std::net::Shutdown::Write).map_err(e("shutdown"))?;
        conn.read_to_end(&mut got).map_err(e("read after shutting down the other half"))?;
    }
    let said = server.join().unwrap().map_err(|e| format!("server side: {e}"))?;
    ensure!(said == pieces.concat(), "the server got {} bytes, expected {}", said.len(), pieces.concat().len());
    let want: Vec<u8> = hello.into_iter().chain(vec![b'!'; reply as usize]).collect();
    ensure!(got == want, "got {} bytes off the stream, expected {}", got.len(), want.len());
    ctx.label(if asynchronous { "asynchronous" } else { "blocking" });
    if reply > 0 && !said.is_empty() {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} bytes in {} pieces out, {} in", said.len(), pieces.len(), want.len()));
    Ok(())
}

pub fn c14() -> Vec<Facet> {
    assert!(cfg!(miri) || clock::self_test(), "the virtual clock is not in effect");
    vec![
        facet("history", 250_000, 6_000_000, c14_history, "at least one message was processed by a handler"),
        facet("yield-parsed", 60_000, 1_500_000, yield_parsed, "a message was parsed and passed on"),
    ]
}
pub fn c25() -> Vec<Facet> {
    assert!(cfg!(miri) || clock::self_test(), "the virtual clock is not in effect");
    vec![
        facet("history", 300_000, 8_000_000, c25_history, "messages were processed and a timeout, error, short write or end of stream occurred"),
        facet("pairs", 20_000, 400_000, pairs, "two messages or more are received, or one is written to a closed stream"),
        facet("addresses", 20_000, 400_000, addresses, "two addresses that differ in some part"),
        facet("halves", 20_000, 400_000, halves, "a write limit was set before the run"),
        super::blocking("sockets", 400, 10_000, sockets, "something sent, and an answer after shutting down the writing half"),
        super::blocking("loopback", 600, 20_000, loopback, "several messages in and at least one out"),
    ]
}
