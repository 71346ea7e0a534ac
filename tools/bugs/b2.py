BUGS = [
 dict(id="c08-clear-grow", property="C08",
  edits=[("src/string/secretbuf.rs", "            resized.reinit_all();\n            std::mem::ManuallyDrop::into_inner(resized);", "            if self.len != 0 {\n                resized.reinit_all();\n            }\n            std::mem::ManuallyDrop::into_inner(resized);")],
  needs="a secret buffer that is cleared and then has to grow",
  breaks="the old allocation is freed with the secret still in it",
  demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::*;
struct A;
static LEAK: AtomicBool = AtomicBool::new(false);
const SECRET: &[u8] = b"correct horse battery";
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= SECRET.len() && l.size() < 4096 {
            // Only allocations of this program, which writes all of those it looks at.
            let s = std::slice::from_raw_parts(p, l.size());
            if s.windows(SECRET.len()).any(|w| w == SECRET) { LEAK.store(true, Ordering::Relaxed); }
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
}
#[global_allocator]
static GA: A = A;
use vinezombie::string::*;
fn main() {
    let mut b = SecretBuf::with_capacity(32);
    b.push_slice(SECRET);
    b.clear();
    b.push_slice(&[b'x'; 100]);
    drop(b);
    assert!(!LEAK.load(Ordering::Relaxed));
}
'''),
 dict(id="c13-multi-adjuster", property="C13",
  edits=[("src/client/queue.rs", "                retval &= adj.update(msg);", "                retval = retval && adj.update(msg);")],
  needs="several adjusters, of which an earlier one removes a message that a later one keeps state about",
  breaks="the later adjuster is not called for messages that an earlier one removed",
  demo='''use vinezombie::client::queue::*;
use vinezombie::ircmsg::*;
use std::sync::{Arc, atomic::*};
struct A(bool, Arc<AtomicUsize>);
impl Adjuster for A {
    fn update(&mut self, _: &mut ClientMsg<'_>) -> bool { self.1.fetch_add(1, Ordering::Relaxed); self.0 }
    fn reset(&mut self) {}
}
fn main() {
    let (a, b) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut m = MultiAdjuster::new();
    m.add(A(false, a.clone()));
    m.add(A(true, b.clone()));
    let mut q = Queue::new();
    q.use_adjuster(m);
    q.edit().push(ClientMsg::new_cmd(vinezombie::string::Cmd::from_str("PRIVMSG")));
    q.adjust(&ServerMsg::parse("PING :x").unwrap());
    assert!(q.is_empty());
    assert_eq!((a.load(Ordering::Relaxed), b.load(Ordering::Relaxed)), (1, 1));
}
'''),
 dict(id="c14-stale-ids", property="C14",
  edits=[("src/client/handler.rs", "        self.handlers.clear();\n        self.finished.clear();\n", "        self.handlers.clear();\n")],
  needs="a handler with an id other than zero that finished before the client is reset, and two handlers added afterwards",
  breaks="ids freed before the reset are handed out again after it, so that two live handlers may share one id",
  demo='''use vinezombie::client::{Client, conn::Bidir, handlers::*};
use vinezombie::client::channel::SyncChannels;
use std::io::Cursor;
use std::collections::BTreeSet;
fn main() {
    let sock = |s: &str| Bidir(Cursor::new(s.as_bytes().to_vec()), std::io::sink());
    let mut c = Client::new(sock("PING :a\\r\\nPING :b\\r\\n"), SyncChannels);
    let (_, keep) = c.add((), YieldAll).unwrap();
    let (_, r1) = c.add((), YieldAll).unwrap();
    let (_, r2) = c.add((), YieldAll).unwrap();
    drop(r1);
    drop(r2);
    let _ = c.run();
    let _ = c.run();
    drop(keep);
    let _ = c.reset_with_conn(sock(""));
    let mut ids = BTreeSet::new();
    for _ in 0..6 { assert!(ids.insert(c.add((), YieldAll).unwrap().0), "two live handlers have the same id"); }
}
'''),

 dict(id="c09-push-empty", property="C09",
  edits=[("src/string/secretbuf.rs", "            self.reserve(1 + extra);", "            self.reserve(std::cmp::max(extra, self.len));")],
  needs="pushing the first byte, without a hint, onto a secret buffer that has no allocation yet",
  breaks="the byte is written through a dangling pointer",
  demo="""use vinezombie::string::*;
fn main() {
    let mut b = SecretBuf::with_capacity(0);
    b.push(b'x', 0);
    b.push(b'y', 0);
    assert_eq!(b.as_ref(), b"xy");
}
"""),
 dict(id="c12-before-last", property="C12",
  edits=[("src/ircmsg/args.rs", """        if self.1.is_none() {
            if let Some(last) = self.0.last_mut() {
                std::mem::swap(&mut s, last);
            }
        }""", """        if let Some(last) = self.0.last_mut() {
            std::mem::swap(&mut s, last);
        }""")],
  needs="add_before_last on an argument list whose last argument has several words",
  breaks="the new argument lands before the last word as well as before the last argument",
  demo="""use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut m = ClientMsg::parse("KICK #chan :so long").unwrap();
    m.args.edit().add_before_last(Arg::from_str("nick"));
    assert_eq!(m.to_string(), "KICK #chan nick :so long");
}
"""),
 dict(id="c15-split-ack", property="C15",
  edits=[("src/client/register/handler.rs", "                *ackd = ackd.difference(&caps).cloned().collect();", "                if ackd.is_subset(&caps) {\n                    ackd.clear();\n                }")],
  needs="a server that acknowledges the requested capabilities in several messages",
  breaks="registration waits forever for one acknowledgement that names them all",
  demo="""use vinezombie::client::{Client, conn::Bidir, register::*, channel::SyncChannels, auth::Clear};
use std::io::Cursor;
fn main() {
    let s = "CAP * LS :server-time echo-message\\r\\nCAP * ACK :server-time\\r\\nCAP * ACK :echo-message\\r\\n:s 001 n :hi\\r\\n:s 004 n s v a b\\r\\n:s 376 n :end\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    let mut o: Options<Clear> = Options::new();
    o.nicks = vec![vinezombie::string::Nick::from_str("n")];
    let mut reg = register_as_bot();
    reg.caps = |_| Box::new(|_: &std::collections::BTreeSet<vinezombie::string::Key<'_>>| ["server-time", "echo-message"].into_iter().map(vinezombie::string::Key::from_str).collect());
    let (_, r) = c.add(&reg, &o).unwrap();
    let _ = c.run();
    let conn = c.take_conn();
    let out = String::from_utf8(conn.1).unwrap();
    assert!(out.contains("CAP END"), "{out}");
    let _ = r;
}
"""),
 dict(id="c15-logout", property="C15",
  edits=[("src/client/register/handler.rs", """                self.reg.account = None;
                if let Some(whoami) = msg.args.clone()""", """                if let Some(whoami) = msg.args.clone()""")],
  needs="a server that logs the client in and then out again during registration",
  breaks="the client reports an account it is not logged into",
  demo="""use vinezombie::client::{Client, conn::Bidir, register::*, channel::SyncChannels, auth::Clear};
use std::io::Cursor;
fn main() {
    let s = "CAP * LS :x\\r\\n:s 900 n n!u@h acc :in\\r\\n:s 901 n n!u@h :out\\r\\n:s 001 n :hi\\r\\n:s 004 n s v a b\\r\\n:s 376 n :end\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    let mut o: Options<Clear> = Options::new();
    o.nicks = vec![vinezombie::string::Nick::from_str("n")];
    let reg = register_as_bot();
    let (_, _r) = c.add(&reg, &o).unwrap();
    let _ = c.run();
    let acc = c.state().get::<vinezombie::client::state::Account>().unwrap();
    assert!(acc.is_none(), "{acc:?}");
}
"""),
 dict(id="c16-broken-mech", property="C16",
  edits=[("src/client/auth/handler.rs", "                        self.queue.retain(&|ln| name != *ln);\n", "")],
  needs="a mechanism that rejects the server's challenge while another authenticator with the same mechanism is queued",
  breaks="a mechanism that was found to be broken is tried again",
  demo="""use vinezombie::client::auth::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;
struct L(&'static str);
impl SaslLogic for L {
    fn name(&self) -> Arg<'static> { Arg::from_str(self.0) }
    fn reply(&mut self, _: &[u8], _: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> { Err("no".into()) }
}
fn main() {
    let mut q: SaslQueue = vec![Box::new(L("A")) as Box<dyn SaslLogic>, Box::new(L("A")), Box::new(L("B"))].into();
    let first = q.pop().unwrap();
    let mut h = Handler::new(first, q);
    let mut out: Vec<ClientMsg<'static>> = Vec::new();
    assert!(!h.handle(&ServerMsg::parse("AUTHENTICATE +").unwrap(), |m: ClientMsg<'static>| out.push(m)).unwrap());
    out.clear();
    let _ = h.handle(&ServerMsg::parse("906 n :aborted").unwrap(), |m: ClientMsg<'static>| out.push(m));
    assert_eq!(out[0].to_string(), "AUTHENTICATE B");
}
"""),
 dict(id="c17-no-wake", property="C17",
  edits=[("src/client/handler/channel/parker.rs", "        if result != std::ops::ControlFlow::Break(super::Sent::Closed) {", "        if result.is_continue() {")],
  needs="a thread parked on a one-shot channel of which another sender is still alive when the value is sent",
  breaks="the thread is not woken by the value and sleeps until the last sender goes away",
  demo="""use vinezombie::client::channel::{oneshot, parker, Sender};
use std::time::Duration;
fn main() {
    let (tx, rx) = oneshot::channel::<u8>();
    let (mut un, park) = parker::new(Some(tx));
    let other = un.clone();
    let th = std::thread::spawn(move || rx.recv(&park));
    std::thread::sleep(Duration::from_millis(300));
    let _ = un.send(7);
    for _ in 0..50 {
        if th.is_finished() { break; }
        std::thread::sleep(Duration::from_millis(100));
    }
    assert!(th.is_finished(), "not woken");
    assert_eq!(th.join().unwrap(), Some(7));
    drop(other);
}
"""),
 dict(id="c17-closed", property="C17",
  edits=[("src/client/handler/channel/oneshot.rs", "        !inner_ref.recver.load(Ordering::Relaxed) || inner_ref.lock.is_completed()", "        !inner_ref.recver.load(Ordering::Relaxed)")],
  needs="two senders of one one-shot channel, one of which has sent a value that is not received yet",
  breaks="the other sender claims that it may still send",
  demo="""use vinezombie::client::channel::oneshot;
fn main() {
    let (tx, rx) = oneshot::channel::<u8>();
    let tx2 = tx.clone();
    tx.send(1).unwrap();
    assert!(tx2.is_closed());
    assert_eq!(rx.recv_now(), Some(1));
}
"""),
 dict(id="c18-chain-invalid", property="C18",
  edits=[("src/client/nick.rs", "            return self.b.unwrap().handle_invalid(nick);", "            return self.b;")],
  needs="a chain whose first part is used up or ruled out when its second part should be ruled out too",
  breaks="nicknames known to be invalid keep being offered",
  demo="""use vinezombie::client::nick::*;
use vinezombie::string::Nick;
fn main() {
    let nick: Nick<'static> = Nick::from_str("bad");
    let sfx = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Char('_'); 3].into() };
    let gen = Box::new(nick.clone()).chain_using(&sfx);
    let (first, rest) = gen.next_nick();
    assert_eq!(first, nick);
    assert!(rest.unwrap().handle_invalid(&nick).is_none());
}
"""),
 dict(id="c19-overlap", property="C19",
  edits=[("src/state/mode.rs", "        overlap = overlap.union(b.intersection(d));\n", "")],
  needs="a server that lists one mode both as type B and as type D",
  breaks="the mode is classified twice and not reported as overlapping",
  features=["client", "base64"],
  demo="""use vinezombie::state::*;
fn main() {
    let (types, overlap, _) = ModeTypes::parse(b"b,kx,l,imx");
    let x = Mode::new(b'x').unwrap();
    assert!(overlap.contains(x));
    assert_eq!(types.get(x), None);
}
"""),
 dict(id="c20-req-len", property="C20",
  edits=[("src/client/cap.rs", "    let len_mod = 4 + client.map(|c| c.len()).unwrap_or(1) as isize;", "    let len_mod = 4 + client.map(|_| 1).unwrap_or(1) as isize;")],
  needs="a long nickname and capabilities that nearly fill one message",
  breaks="the reply to a request does not fit into one message",
  demo="""use vinezombie::client::cap;
use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    for n in 1..520usize {
        let long: Key<'static> = Key::from_bytes("x".repeat(n)).unwrap();
        let mut out: Vec<ClientMsg<'static>> = Vec::new();
        let server = Source::parse(Word::from_str("server.example")).unwrap();
        cap::req([Key::from_str("aaaa"), long], Some(Arg::from_str("nick")), Some(&server), |m: ClientMsg<'static>| out.push(m));
        if out.len() == 1 {
            let caps = out[0].args.split_last().1.unwrap().to_string();
            let reply = format!(":server.example CAP nick ACK :{caps}\\r\\n");
            assert!(reply.len() <= 512, "{}", reply.len());
        }
    }
}
"""),
 dict(id="c20-combine", property="C20",
  edits=[("src/client/cap.rs", "        for (key, value) in newer.caps {\n            self.caps.insert(key, value);\n        }", "        for (key, value) in newer.caps {\n            self.caps.entry(key).or_insert(value);\n        }")],
  needs="a capability listed with different values in two messages of one reply",
  breaks="the older value is kept instead of the newer one",
  demo="""use vinezombie::client::cap::*;
use vinezombie::ircmsg::*;
fn main() {
    let a = ServerMsg::parse("CAP * LS * :sasl=A").unwrap();
    let b = ServerMsg::parse("CAP * LS :sasl=B").unwrap();
    let mut a = ServerMsgArgs::parse(&a.args).unwrap();
    assert!(a.combine(ServerMsgArgs::parse(&b.args).unwrap()).is_none());
    assert_eq!(a.caps[b"sasl".as_slice()], "B");
}
"""),
 dict(id="c21-body-space", property="C21",
  edits=[("src/ircmsg/ctcp.rs", "            splitter.next_byte();\n            let body = splitter.rest_or_default();", "            splitter.consume_whitespace();\n            let body = splitter.rest_or_default();")],
  needs="a CTCP body that starts with a space",
  breaks="leading spaces of the body are lost",
  demo="""use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let m = MaybeCtcp { cmd: Word::from_str("ACTION"), body: Line::from_str("  waves") };
    let back = MaybeCtcp::parse(m.clone().into_line());
    assert_eq!(m, back);
}
"""),
 dict(id="c22-pong-words", property="C22",
  edits=[("src/client/handlers/ping.rs", """        if let Some(last) = msg.args.split_last().1 {
            reply.args.edit().add(last.clone().owning());
        }""", """        if let Some(last) = msg.args.words().last() {
            reply.args.edit().add(last.clone().owning());
        }""")],
  needs="a PING whose argument is empty or has several words",
  breaks="the PONG does not carry the argument of the PING",
  demo="""use vinezombie::client::{Client, conn::Bidir, handlers::*, channel::SyncChannels};
use std::io::Cursor;
fn main() {
    let s = "PING :one two\\r\\nPING :three\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.add((), AutoPong).unwrap();
    let _ = c.run();
    assert_eq!(String::from_utf8(c.take_conn().1).unwrap(), "PONG :one two\\r\\nPONG three\\r\\n");
}
"""),
 dict(id="c23-args-space", property="C23",
  edits=[("src/ircmsg/args.rs", "            if let Some(e) = Arg::find_invalid(&arg) {", "            if let Some(e) = Line::find_invalid(&arg) {")],
  needs="a serialised argument list with a space, a leading colon or nothing in an argument that is not the last",
  breaks="it is accepted, although such an argument list cannot be written",
  features=["client", "serde"], deps=['serde_json = "1"'],
  demo="""use vinezombie::ircmsg::Args;
fn main() {
    assert!(serde_json::from_str::<Args<'static>>(r#"["a b","c"]"#).is_err());
    assert!(serde_json::from_str::<Args<'static>>(r#"["a","b c"]"#).is_ok());
}
"""),
 dict(id="c24-no-user", property="C24",
  edits=[("src/client/logic.rs", "    let (lu, lh) = if let Some(uh) = source.and_then(|v| v.userhost.as_ref()) {", "    let (lu, lh) = if let Some(uh) =\n        source.and_then(|v| v.userhost.as_ref()).filter(|uh| uh.user.is_some())\n    {")],
  needs="a source with a host but without a user, and ISUPPORT information",
  breaks="the known host is ignored, so a host longer than the default makes the assumed length too small",
  demo="""use vinezombie::client::{ClientState, state::*};
use vinezombie::ircmsg::*;
use vinezombie::names::NameMap;
use vinezombie::string::*;
fn main() {
    let mut st = ClientState::new();
    st.insert::<ISupport>(NameMap::new());
    let host: Word<'static> = Word::from_bytes("h".repeat(200)).unwrap();
    let src = Source { nick: Nick::from_str("nick"), userhost: Some(UserHost { user: None, host: host.try_into().unwrap() }) };
    let len = st.update_source_len_from(Some(&src), false).get();
    assert!(len >= 4 + 200 + 1, "{len}");
}
"""),
 dict(id="c24-track-nick", property="C24",
  edits=[("src/client/handlers/track.rs", "                            src.nick = nick.owning();\n                            state.update_source_len();", "                            src.nick = nick.owning();")],
  needs="a nickname change",
  breaks="the assumed source length stays that of the old nickname",
  demo="""use vinezombie::client::{Client, conn::Bidir, handlers::*, channel::SyncChannels, state::*};
use vinezombie::ircmsg::*;
use vinezombie::string::*;
use std::io::Cursor;
fn main() {
    let s = ":a!u@h NICK :much-longer\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    c.state_mut().insert::<ClientSource>(Source::parse(Word::from_str("a!u@h")).unwrap());
    c.state_mut().update_source_len();
    c.add((), TrackClientSource::new()).unwrap();
    let old = c.state().source_len().get();
    let _ = c.run();
    assert_eq!(c.state().source_len().get(), old + 10);
}
"""),
 dict(id="c25-would-block", property="C25",
  edits=[("src/client/conn/time.rs", "            ErrorKind::TimedOut | ErrorKind::WouldBlock => Ok(None),", "            ErrorKind::TimedOut => Ok(None),")],
  needs="a connection that reports an elapsed read timeout as WouldBlock, as sockets do on Unix",
  breaks="a read timeout is reported as an error",
  demo="""use vinezombie::client::{Client, conn::{Bidir, NoTimeout, ReadTimeout, WriteTimeout}, handlers::*, channel::SyncChannels};
use std::io::*;
struct R;
impl Read for R { fn read(&mut self, _: &mut [u8]) -> Result<usize> { Err(ErrorKind::WouldBlock.into()) } }
impl BufRead for R { fn fill_buf(&mut self) -> Result<&[u8]> { Err(ErrorKind::WouldBlock.into()) } fn consume(&mut self, _: usize) {} }
impl ReadTimeout for R { fn set_read_timeout(&mut self, _: Option<std::time::Duration>) -> Result<()> { Ok(()) } }
fn main() {
    let mut c = Client::new(Bidir(R, std::io::sink()), SyncChannels);
    c.add((), AutoPong).unwrap();
    assert!(c.run().unwrap().is_none());
    let _ = (NoTimeout(()), |_: &dyn WriteTimeout| ());
}
"""),
]
