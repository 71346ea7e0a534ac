BUGS = [
 dict(id="c25-resend", property="C25",
  edits=[("src/client/conn/sync.rs", "        self.conn.buf_o.clear();\n        result?;", "        result?;\n        self.conn.buf_o.clear();")],
  needs="a write that fails part way, and a client that is used again afterwards",
  breaks="what had been sent before the failure is sent a second time, ahead of the next message",
  demo='''use std::io::{self, Cursor, Write};
use std::time::Duration;
use vinezombie::client::{channel::SyncChannels, conn::{Bidir, WriteTimeout}, Client};
use vinezombie::ircmsg::ClientMsg;
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        match self.1 {
            1 => { self.0.extend(&b[..1]); Ok(1) }
            2 => Err(io::ErrorKind::Other.into()),
            _ => { self.0.extend(b); Ok(b.len()) }
        }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl WriteTimeout for W {
    fn set_write_timeout(&mut self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut c = Client::new(Bidir(Cursor::new(Vec::new()), W(Vec::new(), 0)), SyncChannels);
    c.queue_mut().edit().push(ClientMsg::parse("PRIVMSG a 1").unwrap());
    assert!(c.run().is_err());
    c.queue_mut().edit().push(ClientMsg::parse("PRIVMSG a 2").unwrap());
    assert!(c.run().is_ok());
    let sent = c.take_conn().1 .0;
    assert_eq!(String::from_utf8_lossy(&sent), "PPRIVMSG a 2\\r\\n");
}
'''),
 dict(id="c25-flush-stall", property="C25",
  edits=[("src/client/conn/tokio.rs", "        conn.flush().await?;", "        drop(conn);\n        self.conn.conn.as_write().flush().await?;")],
  needs="a peer that takes what is written but stalls when it is flushed, and a write time limit",
  breaks="the asynchronous client hangs instead of reporting that its write time limit ran out",
  features=["client", "tokio"], deps=['tokio = { version = "1", features = ["io-util", "time", "rt"] }'],
  demo='''use std::{io, pin::Pin, task::{Context, Poll}, time::Duration};
use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
use vinezombie::ircmsg::ClientMsg;
struct W;
impl tokio::io::AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Pending }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        let mut c = Client::new(Bidir(tokio::io::empty(), W), SyncChannels);
        c.set_write_timeout(Some(Duration::from_secs(1)));
        c.queue_mut().edit().push(ClientMsg::parse("PING x").unwrap());
        let r = tokio::time::timeout(Duration::from_secs(20), c.flush_partial_tokio()).await;
        assert!(matches!(r, Ok(Err(_))));
    });
}
'''),
 dict(id="c25-closed-write", property="C25",
  edits=[("src/client/conn/tokio.rs", "StreamInner::Closed => std::task::Poll::Ready(Ok(0)),", "StreamInner::Closed => std::task::Poll::Ready(Ok(buf.len())),")],
  needs="writing to an asynchronous stream that is closed",
  breaks="messages are reported as sent although nothing went anywhere",
  features=["client", "tokio"], deps=['tokio = { version = "1", features = ["io-util", "rt"] }'],
  demo='''use tokio::io::AsyncWriteExt;
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let mut s = vinezombie::client::conn::StreamTokio::default();
        assert!(s.write_all(b"QUIT\\r\\n").await.is_err());
    });
}
'''),
 dict(id="c18-endless", property="C18",
  edits=[("src/client/nick.rs", "let is_finite = self.iter.size_hint().1.is_some();", "let is_finite = self.iter.size_hint().0 != usize::MAX;")],
  needs="an endless iterator that does not know it is endless, and a server that rejects every nickname",
  breaks="registration goes on offering nicknames for ever",
  demo='''use vinezombie::client::nick::*;
use vinezombie::string::Nick;
fn main() {
    let g = from_iter(std::iter::successors(Some(0u32), |i| Some(i.wrapping_add(1))).map(|i| Nick::from_bytes(format!("n{i}")).unwrap())).unwrap();
    let (nick, next) = Box::new(g).next_nick();
    assert!(next.unwrap().handle_invalid(&nick).is_none());
}
'''),
 dict(id="c19-prefix-skip", property="C19",
  edits=[("src/state/mode.rs", "                    skip_prefixes = true;\n                    b'\\0'", "                    b'\\0'")],
  needs="a server that advertises a status prefix outside ASCII before others",
  breaks="modes after it are given parts of that prefix or prefixes of other modes",
  demo='''use vinezombie::state::*;
fn main() {
    let s = StatusModes::parse("(qo)\\u{a7}@".as_bytes()).unwrap();
    let t = StatusModes::parse("(qaoh)\\u{a7}@%".as_bytes()).unwrap();
    assert_eq!(s.get_prefix(Mode::new(b'o').unwrap()), None);
    assert_eq!(t.get_prefix(Mode::new(b'o').unwrap()), None);
}
'''),
 dict(id="c01-numeric-arg", property="C01",
  edits=[("src/ircmsg/server.rs", "Args::new(vec![target.into()], None)", "Args::new(vec![target.into()], Some(crate::string::Line::default()))")],
  needs="a numeric reply made by ServerMsg::new_num",
  breaks="the message is written with an empty argument nobody added",
  demo='''use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let m = ServerMsg::new_num(Numeric::from_int(376).unwrap(), SharedSource::new(Source::new_server(Nick::from_str("s"))), Nick::from_str("me"));
    assert_eq!(m.args.len(), 1);
    let w = m.owning().to_string();
    assert_eq!(w, ":s 376 me");
}
'''),
 dict(id="c10-old-reader", property="C10",
  edits=[("src/ircmsg/client.rs", "        super::ServerCodec::read_borrowing_from(read, buf)", "        buf.clear();\n        super::ServerCodec::read_borrowing_from(read, buf)")],
  needs="the replaced reading method called again after its connection had nothing more to read in the middle of a line",
  breaks="the part of the line that had already been read is lost",
  demo='''#![allow(deprecated)]
use vinezombie::ircmsg::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        let s: &[u8] = match self.0 { 1 => b"PRIVMSG a ", 2 => return Err(std::io::ErrorKind::WouldBlock.into()), 3 => b":b\\r\\n", _ => b"" };
        b[..s.len()].copy_from_slice(s);
        Ok(s.len())
    }
}
fn main() {
    let mut r = std::io::BufReader::new(R(0));
    let mut buf = Vec::new();
    assert!(ClientMsg::read_borrowing_from(&mut r, &mut buf).is_err());
    let m = ClientMsg::read_borrowing_from(&mut r, &mut buf).unwrap();
    assert_eq!(m.cmd, "PRIVMSG");
    assert_eq!(m.args.len(), 2);
}
'''),
 dict(id="c09-static-borrow", property="C09",
  edits=[("src/string/bytes.rs", "        if self.is_owning() {\n            Cow::Owned(self.to_utf8_lossy().into_owned())", "        if self.is_owning() && self.is_utf8_lazy() != Some(true) {\n            Cow::Owned(self.to_utf8_lossy().into_owned())")],
  needs="an owning string made from a String, read as text for good, and dropped",
  breaks="the text points into memory that has been released",
  demo='''use vinezombie::string::Bytes;
fn main() {
    let b: Bytes<'static> = String::from("a rather long text").into();
    let t = b.to_utf8_lossy_static();
    assert!(matches!(t, std::borrow::Cow::Owned(_)));
}
'''),
 dict(id="c26-no-flush", property="C26",
  edits=[("src/client/conn/tokio.rs", "StreamInner::Tls(tls) => Pin::new(tls).poll_flush(cx),", "StreamInner::Tls(_) => std::task::Poll::Ready(Ok(())),")],
  needs="more unsent data than the socket takes at once when an encrypted stream is flushed",
  breaks="what was flushed never leaves the client",
  features=["client", "tls-tokio", "crypto"],
  demo=None),
]
BUGS = [b for b in BUGS if b["demo"]]
