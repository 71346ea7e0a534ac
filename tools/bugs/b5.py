BUGS = [
 dict(id="c25-drop-run", property="C25",
  edits=[("src/client/conn/tokio.rs", "                let fut = ClientCodec::read_owning_from_tokio(&mut conn, &mut self.conn.buf_i);\n                timed_io(fut, wait_for, self.logic.timeout.read_timeout()).await?", "                let mut buf_i = std::mem::take(&mut self.conn.buf_i);\n                let fut = ClientCodec::read_owning_from_tokio(&mut conn, &mut buf_i);\n                let result = timed_io(fut, wait_for, self.logic.timeout.read_timeout()).await;\n                self.conn.buf_i = buf_i;\n                result?")],
  needs="an asynchronous run dropped while a line has been received in part, with a handler that wants owning messages",
  breaks="the part of the line that had been received is lost",
  features=["client", "tokio"], deps=['tokio = { version = "1", features = ["io-util", "time", "rt"] }'],
  demo='''use std::{ops::ControlFlow, time::Duration};
use tokio::io::{AsyncWriteExt, BufReader};
use vinezombie::client::{channel::*, queue::QueueEditGuard, *};
use vinezombie::ircmsg::ServerMsg;
struct H;
impl Handler for H {
    type Value = String;
    fn handle(&mut self, m: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, mut ch: SenderRef<'_, String>) -> ControlFlow<()> {
        ch.send(m.to_string());
        ControlFlow::Break(())
    }
    fn wants_owning(&self) -> bool { true }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = S::Oneshot<String>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(spec: &S) -> (Box<dyn Sender<Value = String> + Send>, S::Oneshot<String>) { spec.new_oneshot() }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let (mut server, conn) = tokio::io::duplex(1000);
        let mut c = Client::new(BufReader::new(conn), SyncChannels);
        let (_, r) = c.add((), H).unwrap();
        server.write_all(b"PRIVMSG a ").await.unwrap();
        assert!(tokio::time::timeout(Duration::from_millis(300), c.run_tokio()).await.is_err());
        server.write_all(b":hello\\r\\n").await.unwrap();
        tokio::time::timeout(Duration::from_secs(20), c.run_tokio()).await.unwrap().unwrap();
        let m = r.0.recv_now().unwrap();
        assert!(m.starts_with("PRIVMSG a ") && m.ends_with("hello"), "{m}");
    });
}
'''),
 dict(id="c18-many-suffixes", property="C18",
  edits=[("src/client/nick/suffix.rs", "                    .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));", "                    .fold(0u8, |count, suffix| count.wrapping_add(suffix.variance()));")],
  needs="suffixes with 256 or more values in total, tried in order",
  breaks="only a handful of the nicknames are ever tried",
  demo='''use vinezombie::client::nick::*;
use vinezombie::string::Nick;
fn main() {
    let s = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Base16(true); 16].into() };
    let mut g = Some(s.transform(Nick::from_str("n")));
    let mut count = 0;
    while let Some(x) = g {
        count += 1;
        assert!(count < 100_000);
        g = x.next_nick().1;
    }
    assert!(count >= 16, "{count}");
}
'''),
 dict(id="c15-star-nick", property="C15",
  edits=[("src/client/register/handler.rs", "                    .filter(|n| *n != crate::names::STAR.as_bytes())\n", "")],
  needs="a server that greets the client as * instead of by its nickname",
  breaks="the client believes that its nickname is *",
  demo='''use vinezombie::client::{Client, conn::Bidir, register::*, channel::SyncChannels, auth::Clear};
use std::io::Cursor;
fn main() {
    let s = "CAP * LS :x\\r\\n:s 001 * :hi\\r\\n:s 004 * s v a b\\r\\n:s 376 * :end\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    let mut o: Options<Clear> = Options::new();
    o.nicks = vec![vinezombie::string::Nick::from_str("n")];
    let reg = register_as_bot();
    let (_, _r) = c.add(&reg, &o).unwrap();
    let _ = c.run();
    let s = c.state().get::<vinezombie::client::state::ClientSource>().unwrap();
    assert_eq!(s.nick, "n");
}
'''),
 dict(id="c13-label-wrap", property="C13",
  edits=[("src/client/queue.rs", "        let mut id = 0u32;", "        let mut id = 0u16;"),
         ("src/client/queue.rs", "            User::from_id(id).into()", "            User::from_id_short(id).into()")],
  needs="more than 65536 labeled messages over the life of a connection",
  breaks="labels repeat",
  demo='''use vinezombie::client::queue::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut q = Queue::new();
    q.use_labeler_default();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..70_000 {
        let l = q.edit().push_labeled(ClientMsg::new_cmd(Cmd::from_str("PING"))).unwrap();
        assert!(seen.insert(l));
    }
}
'''),
 dict(id="c25-shutdown-both", property="C25",
  edits=[("src/client/conn/sync.rs", "            StreamInner::Tcp(s) => s.shutdown(how),", "            StreamInner::Tcp(s) => {\n                let _ = how;\n                s.shutdown(std::net::Shutdown::Both)\n            }")],
  needs="a client that ends its half of a connection and still wants the reply",
  breaks="the reply cannot be read any more",
  demo='''use std::io::{Read, Write};
use vinezombie::client::conn::{ServerAddr, Stream};
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let t = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut b = Vec::new();
        s.read_to_end(&mut b).unwrap();
        s.write_all(b"bye\\r\\n").unwrap();
    });
    let mut a = ServerAddr::from_host_str("127.0.0.1");
    a.tls = false;
    a.port = Some(port);
    let mut c = a.connect_no_tls().unwrap();
    let s: &mut Stream = c.get_mut();
    s.shutdown(std::net::Shutdown::Write).unwrap();
    let mut b = Vec::new();
    c.read_to_end(&mut b).unwrap();
    t.join().unwrap();
    assert_eq!(b, b"bye\\r\\n");
}
'''),
]
