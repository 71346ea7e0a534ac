//! Passwords given to the library, from configuration to the wire and the log.

use super::strings::leaks;
use crate::engine::{Ctx, Src};
use crate::ensure;
use crate::gen::show;
use crate::talk::{lines, Talk};
use std::sync::{Arc, Mutex};
use vinezombie::client::auth::sasl::{External, Password, Plain};
use vinezombie::client::auth::{AnySasl, Clear, LoadSecret, Sasl, Secret};
use vinezombie::client::channel::TokioChannels;
use vinezombie::client::conn::Bidir;
use vinezombie::client::register::{register_as_bot, register_as_client, Options};
use vinezombie::client::Client;
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::{Line, Nick, NoNul, SecretBuf};

type B = Vec<u8>;

/// Keeps the text of everything that is logged.
#[derive(Default)]
struct Log(Arc<Mutex<Vec<String>>>);
struct Text(String);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.push_str(&format!("{}={v:?} ", f.name()));
    }
}
impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, s: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut t = Text(s.metadata().name().to_string());
        s.record(&mut t);
        self.0.lock().unwrap().push(t.0);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, v: &tracing::span::Record<'_>) {
        let mut t = Text(String::new());
        v.record(&mut t);
        self.0.lock().unwrap().push(t.0);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        self.0.lock().unwrap().push(t.0);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// A way of loading secrets of the caller's own.
#[derive(Clone, Debug)]
struct Loader(usize, u64);
static VAULT: Mutex<Vec<(u64, B)>> = Mutex::new(Vec::new());
impl Loader {
    /// Puts a secret where loading it finds it.
    fn stash(src: &mut Src, v: &[u8]) -> Loader {
        let mut vault = VAULT.lock().unwrap();
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        vault.push((id, v.to_vec()));
        Loader(src.range(0, 40), id)
    }
}
impl LoadSecret for Loader {
    fn size_hint(&self) -> usize {
        self.0
    }
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        let mut vault = VAULT.lock().unwrap();
        let at = vault.iter().position(|x| x.0 == self.1).ok_or(std::io::ErrorKind::NotFound)?;
        let v = vault.swap_remove(at).1;
        let half = v.len() / 2;
        data.push_slice(&v[..half]);
        data.push_slice(&v[half..]);
        Ok(())
    }
}

/// A recognisable password; some have a space or a byte that is not UTF-8.
fn password(src: &mut Src, spaces: bool) -> B {
    let mut v = b"Qz".to_vec();
    for _ in 0..src.range(6, 14) {
        v.push(*src.pick(b"ABCDEFGHJKLMNPRSTUVWXY"));
    }
    match src.below(6) {
        0 if spaces => v.extend_from_slice(b" and so on"),
        1 => v.push(0xff),
        _ => {}
    }
    v
}
fn mechanism(src: &mut Src, pw: &[u8]) -> Result<AnySasl<Loader>, String> {
    let e = |e: std::io::Error| format!("loading a secret: {e}");
    let passwd = match src.below(3) {
        0 => Secret::new(NoNul::from_bytes(pw.to_vec()).unwrap().secret()),
        1 => Secret::load(Loader::stash(src, pw)).map_err(e)?,
        _ => {
            let s: Secret<NoNul<'static>, Clear> = Secret::load(Clear(SecretBuf::from(pw.to_vec()))).map_err(e)?;
            Secret::new(Secret::into_inner(s))
        }
    };
    ensure!(passwd.is_secret(), "a loaded secret is not secret");
    Ok(AnySasl::Password(Password::new(NoNul::from_str("acct"), passwd)))
}

pub fn c07_credentials(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let mut opts: Options<Loader> = Options::new();
    opts.nicks = vec![Nick::from_str("me")];
    let mut hidden: Vec<B> = Vec::new();
    let mut pass = None;
    if src.chance(3, 4) {
        let p = password(src, true);
        let done = match src.below(6) {
            0 => opts.set_pass(p.clone()),
            1 => opts.set_pass(Line::from_bytes(p.clone()).unwrap()),
            2 => opts.set_pass(Line::from_bytes(p.clone()).unwrap().secret()),
            3 => match String::from_utf8(p.clone()) {
                Ok(s) => opts.set_pass(s),
                Err(e) => opts.set_pass(e.into_bytes()),
            },
            4 => {
                opts.pass = Some(Secret::load(Loader::stash(src, &p)).map_err(|e| e.to_string())?);
                Ok(())
            }
            _ => {
                let shared = Line::from_bytes(p.clone()).unwrap();
                opts.set_pass(shared.clone())
            }
        };
        done.map_err(|e| format!("set_pass: {e}"))?;
        hidden.push(p.clone());
        pass = Some(p);
    }
    let mut payloads: Vec<B> = Vec::new();
    for _ in 0..src.range(0, 2) {
        let p = password(src, false);
        let m = mechanism(src, &p)?;
        let payload = [b"\0acct\0".to_vec(), p.clone()].concat();
        payloads.push(b64(&payload));
        hidden.push(b64(&payload));
        hidden.push(p);
        opts.add_sasl(m);
    }
    if src.chance(1, 4) {
        opts.add_sasl(External(NoNul::from_str("who")));
    }
    opts.allow_sasl_fail = src.bool();
    let mut out: Vec<(&'static str, String)> = Vec::new();
    macro_rules! both {
        ($n:literal, $e:expr) => {{
            let x = &$e;
            out.push(($n, format!("{x:?}")));
            out.push(($n, format!("{x:#?}")));
        }};
    }
    both!("options", opts);
    both!("cloned options", opts.clone());
    for m in &opts.sasl {
        both!("mechanism", m);
        if let AnySasl::Password(p) = m {
            both!("plain mechanism", Plain { authzid: p.authzid.clone(), authcid: p.authcid.clone(), passwd: p.passwd.clone() });
        }
        for l in m.logic() {
            out.push(("mechanism name", l.name().to_string()));
        }
    }
    let reg = if src.bool() { register_as_bot() } else { register_as_client() };
    let mut msgs: Vec<ClientMsg<'static>> = Vec::new();
    reg.register_msgs(&opts, |m| msgs.push(m));
    for m in &msgs {
        both!("opening message", m);
        out.push(("opening message", m.to_string()));
    }
    // To the wire, with everything that is logged on the way.
    let tried = opts.sasl.len();
    let mut feed: Vec<&[u8]> = vec![b"CAP * LS :sasl=PLAIN,EXTERNAL server-time", b"CAP * ACK :sasl server-time", b"CAP * ACK :sasl"];
    for _ in 0..tried {
        match src.below(8) {
            0 => feed.push(b"AUTHENTICATE Zm9v"),
            1 => feed.push(b"AUTHENTICATE !"),
            _ => feed.push(b"AUTHENTICATE +"),
        }
        match src.below(4) {
            0 => feed.push(b"900 me me!u@h acct :You are now logged in"),
            1 => feed.push(b"906 me :aborted"),
            2 => feed.push(b"908 me PLAIN :mechanisms"),
            _ => {}
        }
        feed.push(b"904 me :no");
    }
    feed.push(b"001 me :Welcome");
    feed.push(b"376 me :End");
    let log = Log::default();
    let text = log.0.clone();
    let asynchronous = src.bool();
    let sent: Vec<B> = tracing::subscriber::with_default(log, || -> Result<Vec<B>, String> {
        if asynchronous {
            let mut input = Vec::new();
            for l in &feed {
                input.extend_from_slice(l);
                input.extend_from_slice(b"\r\n");
            }
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().map_err(|e| e.to_string())?;
            rt.block_on(async {
                let conn = Bidir(std::io::Cursor::new(input), Vec::<u8>::new());
                let mut c = Client::new(conn, TokioChannels);
                c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 1);
                let (_, _rx) = c.add(&reg, &opts).unwrap();
                // Ends with the input.
                while let Ok(Some((y, f))) = c.run_tokio().await {
                    if y.is_empty() && f.is_empty() {
                        break;
                    }
                }
                Ok(lines(&c.take_conn().1))
            })
        } else {
            let mut talk = Talk::new();
            let (_, _rx) = talk.client.add(&reg, &opts).unwrap();
            let mut sent = talk.settle()?;
            for l in &feed {
                sent.extend(talk.tell(l)?);
            }
            Ok(sent)
        }
    })?;
    if let Some(p) = &pass {
        let want = [b"PASS ".to_vec(), if p.contains(&b' ') { b":".to_vec() } else { Vec::new() }, p.clone()].concat();
        ensure!(sent.first() == Some(&want), "sent {:?} first, expected the password", sent.first().map(|l| show(l)));
    }
    let went = payloads.iter().filter(|p| sent.iter().any(|l| l.ends_with(p))).count();
    let log = text.lock().unwrap();
    ctx.sample(|| log.join(" | "));
    ctx.label(if went > 0 { "payload sent" } else { "no payload sent" });
    ctx.label(if log.is_empty() { "nothing logged" } else { "logged" });
    if !hidden.is_empty() {
        ctx.nontrivial();
    }
    for l in log.iter() {
        out.push(("log", l.clone()));
    }
    for (n, o) in &out {
        for h in &hidden {
            ensure!(!leaks(o, h), "{n} shows {}: {o}", show(h));
        }
    }
    Ok(())
}
fn b64(v: &[u8]) -> B {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = Vec::new();
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { T[(n >> (18 - 6 * i) & 63) as usize] } else { b'=' });
        }
    }
    out
}
