BUGS = [
 dict(id="c26-no-identity", property="C26",
  edits=[("src/client/tls.rs", "Some(load_client_cert(path)?)", "load_client_cert(path).ok()")],
  needs="a client certificate file that is missing, unreadable or has no key",
  breaks="the connection is made without the certificate the user asked to be identified by",
  features=["client", "crypto", "tls"],
  demo='''use vinezombie::client::tls::*;
fn main() {
    let mut o = TlsConfigOptions::default();
    o.trust = Trust::NoVerify;
    o.cert = Some("/nonexistent/identity.pem".into());
    assert!(o.build().is_err());
}
'''),
 dict(id="c26-bad-pem", property="C26",
  edits=[("src/client/tls.rs", "        let cert = cert?;", "        let Ok(cert) = cert else {\n            break;\n        };")],
  needs="a file of trusted certificates of which one is damaged",
  breaks="the certificates from the damaged one on are silently not trusted, instead of an error",
  features=["client", "crypto", "tls"],
  demo='''use vinezombie::client::tls::*;
fn main() {
    let d = std::env::temp_dir().join(format!("vz-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("ca.pem");
    std::fs::write(&f, "-----BEGIN CERTIFICATE-----\\n!!not base64!!\\n-----END CERTIFICATE-----\\n").unwrap();
    let mut o = TlsConfigOptions::default();
    o.trust = Trust::Only(vec![f]);
    let r = o.build();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());
}
'''),
 dict(id="c21-text-case", property="C21",
  edits=[("src/ircmsg/servermsgkind.rs", "    fn eq(&self, other: &&str) -> bool {\n        self.as_arg() == *other", "    fn eq(&self, other: &&str) -> bool {\n        self.as_str().eq_ignore_ascii_case(other)")],
  needs="a kind compared with a text of another case through a reference",
  breaks="comparisons with a text and with a reference to it disagree",
  demo='''use vinezombie::ircmsg::*;
fn main() {
    let m = ServerMsg::parse("PRIVMSG a b").unwrap();
    let k: ServerMsgKindRaw = m.kind.clone();
    assert!(k == "PRIVMSG" && k == *"PRIVMSG");
    let t: &str = "privmsg";
    assert_eq!(k == t, k == *t);
}
'''),
 dict(id="c20-combine-sub", property="C20",
  edits=[("src/client/cap.rs", "self.is_last || self.subcmd != newer.subcmd || self.nick != newer.nick", "self.is_last || self.nick != newer.nick")],
  needs="a reply to another request between the messages of a long capability list",
  breaks="capabilities of one kind of reply are taken for those of another",
  demo='''use vinezombie::client::cap::*;
use vinezombie::ircmsg::*;
fn main() {
    let a = ServerMsg::parse("CAP n LS * :a b").unwrap();
    let b = ServerMsg::parse("CAP n NAK :c").unwrap();
    let mut x = ServerMsgArgs::parse(&a.args).unwrap();
    let y = ServerMsgArgs::parse(&b.args).unwrap();
    assert!(x.combine(y).is_some());
    assert!(!x.contains("c".as_bytes()));
}
'''),
 dict(id="c22-pong-digits", property="C22",
  edits=[("src/client/handlers/ping.rs", "(b'0'..=b'7').contains(&byte)", "byte.is_ascii_digit()")],
  needs="a PONG whose token is not the one sent but has a digit above seven that adds up to the same number",
  breaks="the ping is taken as answered",
  demo='''use vinezombie::client::{Client, conn::Bidir, handlers::*, channel::SyncChannels};
use std::io::Cursor;
fn main() {
    // Try until the token has a digit that can be written otherwise.
    for _ in 0..1000 {
        let p = Ping::default();
        let mut c = Client::new(Bidir(Cursor::new(Vec::new()), Vec::new()), SyncChannels);
        let (_, _rx) = c.add((), p).unwrap();
        let _ = c.run();
        let sent = String::from_utf8(c.take_conn().1).unwrap();
        let mut t = sent.trim_end().strip_prefix("PING ").unwrap().as_bytes().to_vec();
        let Some(i) = (1..t.len()).find(|i| (t[i - 1] - b'0') % 2 == 1 && t[*i] < b'2') else { continue };
        t[i] += 8;
        let mut s = b"PONG s :".to_vec();
        s.extend(&t);
        s.extend(b"\\r\\n");
        let mut c = Client::new(Bidir(Cursor::new(s), Vec::new()), SyncChannels);
        let (_, (rx, _)) = c.add((), p).unwrap();
        let _ = c.run();
        assert!(rx.recv_now().is_none(), "{} answers {sent}", String::from_utf8_lossy(&t));
        return;
    }
    panic!("no suitable token");
}
'''),
 dict(id="c07-set-pass", property="C07",
  edits=[("src/client/register/defaults.rs", "pass.try_into().map_err(|e| e.into())?.secret();", "pass.try_into().map_err(|e| e.into())?;")],
  needs="a server password set on the registration options and formatting of the message that carries it",
  breaks="the password shows up in the log",
  demo='''use vinezombie::client::{Client, conn::Bidir, register::*, channel::SyncChannels, auth::Clear};
use std::io::Cursor;
fn main() {
    let mut c = Client::new(Bidir(Cursor::new(Vec::<u8>::new()), Vec::<u8>::new()), SyncChannels);
    let mut o: Options<Clear> = Options::new();
    o.set_pass("hunter2").unwrap();
    let reg = register_as_bot();
    let (_, _r) = c.add(&reg, &o).unwrap();
    let q = c.queue_mut();
    let mut all = String::new();
    q.set_rate_limit(std::time::Duration::ZERO, 0);
    while let Some(m) = q.pop(|_| ()) {
        all += &format!("{m} {m:?}\\n");
    }
    assert!(all.contains("PASS"), "{all}");
    assert!(!all.contains("hunter2"), "{all}");
}
'''),
 dict(id="c15-token-break", property="C15",
  edits=[("src/client/register/handler.rs", "                        // TODO: Log.\n                        continue;", "                        // TODO: Log.\n                        break;")],
  needs="a server that sends a malformed ISUPPORT token before others in the same line",
  breaks="the remaining tokens of the line are lost",
  demo='''use vinezombie::client::{Client, conn::Bidir, register::*, channel::SyncChannels, auth::Clear};
use std::io::Cursor;
fn main() {
    let s = "CAP * LS :x\\r\\n:s 001 n :hi\\r\\n:s 004 n s v a b\\r\\n:s 005 n a;b=c NICKLEN=9 :are supported\\r\\n:s 376 n :end\\r\\n";
    let mut c = Client::new(Bidir(Cursor::new(s.as_bytes().to_vec()), Vec::new()), SyncChannels);
    let mut o: Options<Clear> = Options::new();
    o.nicks = vec![vinezombie::string::Nick::from_str("n")];
    let reg = register_as_bot();
    let (_, _r) = c.add(&reg, &o).unwrap();
    let _ = c.run();
    let i = c.state().get::<vinezombie::client::state::ISupport>().unwrap();
    assert!(i.get_parsed(vinezombie::names::isupport::NICKLEN).is_some());
}
'''),
 dict(id="c25-addr-port", property="C25",
  edits=[("src/client/conn.rs", "            && self.port_num() == other.port_num()", "            && self.port == other.port")],
  needs="two addresses of which one names the default port and the other does not",
  breaks="addresses that mean the same server are not equal though they hash alike",
  demo='''use vinezombie::client::conn::ServerAddr;
fn main() {
    let a = ServerAddr::from_host_str("irc.example");
    let mut b = a.clone();
    b.port = Some(6697);
    assert_eq!(a, b);
}
'''),
 dict(id="c13-label-keep", property="C13",
  edits=[("src/client/queue.rs", '            msg.tags.edit().insert_pair(Key::from_str("label"), label.clone());\n            label', "            if msg.tags.get(\"label\").is_none() {\n                msg.tags.edit().insert_pair(Key::from_str(\"label\"), label.clone());\n            }\n            label")],
  needs="a message that already carries a label is pushed with one",
  breaks="the label returned to the caller is not the one sent",
  demo='''use vinezombie::client::queue::*;
use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut q = Queue::new();
    q.use_labeler_default();
    let mut m = ClientMsg::new_cmd(Cmd::from_str("PRIVMSG"));
    m.tags.edit().insert_pair(Key::from_str("label"), NoNul::from_str("old"));
    let l = q.edit().push_labeled(m).unwrap();
    let m = q.pop(|_| ()).unwrap();
    assert!(m.to_string().contains(&format!("label={l}")), "{m} {l}");
}
'''),
]
