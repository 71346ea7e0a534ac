//! C26: connections over TLS. Built only with the `tls` feature.

use super::blocking;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use rustls::pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer};
use rustls::server::{ClientHello, ResolvesServerCert, WebPkiClientVerifier};
use rustls::sign::{CertifiedKey, Signer, SigningKey};
use rustls::{ServerConfig, ServerConnection, SignatureAlgorithm, SignatureScheme};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};
use vinezombie::client::channel::{SyncChannels, TokioChannels};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::tls::{TlsConfigOptions, Trust};
use vinezombie::client::handlers::YieldAll;
use vinezombie::client::Client;
use vinezombie::ircmsg::*;
use vinezombie::string::*;

macro_rules! pem {
    ($($n:literal)+) => { &[$(($n, include_str!(concat!("../../tls/", $n)))),+] };
}
const FILES: &[(&str, &str)] = pem!("ca0.pem" "ca1.pem" "ca2.pem" "ca3.pem" "cint.pem" "client.key" "client.sec1.key"
    "client0.pem" "client1.pem" "good0.pem" "good1.pem" "good2.pem" "int0.pem" "int1.pem" "int2.pem"
    "other0.pem" "other1.pem" "other2.pem" "past0.pem" "past1.pem" "past2.pem" "rsa.key"
    "rsa0.pem" "rsa1.pem" "rsa2.pem" "self.pem" "server.key" "via0.pem" "via1.pem" "via2.pem");

fn pem(name: &str) -> &'static str {
    FILES.iter().find(|f| f.0 == name).unwrap_or_else(|| panic!("no {name}")).1
}
fn der(name: &str) -> CertificateDer<'static> {
    CertificateDer::from_pem_slice(pem(name).as_bytes()).unwrap()
}
fn key(name: &str) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_slice(pem(name).as_bytes()).unwrap()
}

/// A file that exists only in memory, and can be opened by path.
struct MemFile(std::fs::File, PathBuf);
impl MemFile {
    fn new(contents: &str) -> Self {
        use std::os::fd::{AsRawFd, FromRawFd};
        let fd = unsafe { libc::memfd_create(c"vzcheck".as_ptr(), libc::MFD_CLOEXEC) };
        assert!(fd >= 0, "test setup: memfd_create");
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.write_all(contents.as_bytes()).unwrap();
        let path = PathBuf::from(format!("/proc/self/fd/{}", f.as_raw_fd()));
        MemFile(f, path)
    }
}

/// The system's certificates are those of `ca0` as far as this process is concerned.
fn system() {
    static SYS: OnceLock<MemFile> = OnceLock::new();
    SYS.get_or_init(|| {
        let f = MemFile::new(pem("ca0.pem"));
        std::env::set_var("SSL_CERT_FILE", &f.1);
        std::env::remove_var("SSL_CERT_DIR");
        f
    });
}

#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
    fn resolve(&self, _: ClientHello<'_>) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
/// Signs with RSA PKCS #1 whatever the client offers. Not allowed in TLS 1.3.
#[derive(Debug)]
struct OldRsa(Arc<dyn SigningKey>);
impl SigningKey for OldRsa {
    fn choose_scheme(&self, _: &[SignatureScheme]) -> Option<Box<dyn Signer>> {
        self.0.choose_scheme(&[SignatureScheme::RSA_PKCS1_SHA256])
    }
    fn algorithm(&self) -> SignatureAlgorithm {
        self.0.algorithm()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Leaf {
    Good,
    Rsa,
    /// Signed through an intermediate, which the server sends.
    Via,
    /// The same, but the server does not send it.
    ViaMissing,
    Other,
    Past,
    SelfSigned,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// The server does not have the key of its certificate.
    WrongKey,
    /// The server signs in a way that TLS 1.3 forbids.
    OldSignature,
    /// The server does not speak TLS.
    Plain,
}

fn server_config(leaf: Leaf, ca: u32, fault: Fault, v13: bool, v12: bool, ask: bool) -> ServerConfig {
    let chain = match leaf {
        Leaf::Good => vec![der(&format!("good{ca}.pem"))],
        Leaf::Rsa => vec![der(&format!("rsa{ca}.pem"))],
        Leaf::Via => vec![der(&format!("via{ca}.pem")), der(&format!("int{ca}.pem"))],
        Leaf::ViaMissing => vec![der(&format!("via{ca}.pem"))],
        Leaf::Other => vec![der(&format!("other{ca}.pem"))],
        Leaf::Past => vec![der(&format!("past{ca}.pem"))],
        Leaf::SelfSigned => vec![der("self.pem")],
    };
    let name = match (leaf, fault) {
        (Leaf::Rsa, _) => "rsa.key",
        (_, Fault::WrongKey) => "client.key",
        _ => "server.key",
    };
    let mut k = rustls::crypto::ring::sign::any_supported_type(&key(name)).unwrap();
    if fault == Fault::OldSignature {
        k = Arc::new(OldRsa(k));
    }
    let mut versions: Vec<&'static rustls::SupportedProtocolVersion> = Vec::new();
    if v13 {
        versions.push(&rustls::version::TLS13);
    }
    if v12 {
        versions.push(&rustls::version::TLS12);
    }
    let provider = Arc::new(rustls::crypto::ring::default_provider());
    let b = ServerConfig::builder_with_provider(provider.clone()).with_protocol_versions(&versions).unwrap();
    let b = if ask {
        let mut roots = rustls::RootCertStore::empty();
        roots.add(der("ca3.pem")).unwrap();
        let v = WebPkiClientVerifier::builder_with_provider(Arc::new(roots), provider).allow_unauthenticated().build().unwrap();
        b.with_client_cert_verifier(v)
    } else {
        b.with_no_client_auth()
    };
    b.with_cert_resolver(Arc::new(Fixed(Arc::new(CertifiedKey::new(chain, k)))))
}

/// What the server saw.
#[derive(Default, Debug)]
struct Seen {
    established: bool,
    peer: Option<Vec<Vec<u8>>>,
    lines: Vec<u8>,
    /// Bytes on the wire, undecrypted.
    raw: Vec<u8>,
}

/// A socket that is written to in small pieces and keeps what it read.
struct Tap {
    s: TcpStream,
    step: usize,
    raw: Vec<u8>,
}
impl Read for Tap {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.s.read(b)?;
        self.raw.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.s.write(&b[..b.len().min(self.step)])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.s.flush()
    }
}

/// Makes sockets accepted by the listener take little at a time.
fn narrow(l: &TcpListener) {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
    }
    const SOL_SOCKET: i32 = 1;
    const SO_RCVBUF: i32 = 8;
    // Of no consequence if it fails.
    unsafe { setsockopt(l.as_raw_fd(), SOL_SOCKET, SO_RCVBUF, &8192, 4) };
}

/// `pieces` are sent at once, `late` after the line NEXT was received. Nothing is read before `stall` has passed.
fn serve(
    listener: TcpListener,
    config: Option<ServerConfig>,
    step: usize,
    pieces: Vec<Vec<u8>>,
    late: Vec<u8>,
    stall: Duration,
    count: Arc<AtomicUsize>,
) -> Seen {
    let mut seen = Seen::default();
    let Ok((s, _)) = listener.accept() else { return seen };
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(30)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(30)));
    let mut tap = Tap { s, step, raw: Vec::new() };
    fn talk(io: &mut (impl Read + Write), seen: &mut Seen, pieces: Vec<Vec<u8>>, mut late: Vec<u8>, stall: Duration, count: &AtomicUsize) -> std::io::Result<()> {
        for p in pieces {
            io.write_all(&p)?;
            io.flush()?;
        }
        std::thread::sleep(stall);
        let mut buf = vec![0; if stall.is_zero() { 700 } else { 16_384 }];
        loop {
            if !stall.is_zero() {
                std::thread::sleep(Duration::from_micros(200));
            }
            let n = io.read(&mut buf)?;
            if n == 0 {
                return Ok(());
            }
            seen.lines.extend_from_slice(&buf[..n]);
            count.store(seen.lines.len(), Ordering::SeqCst);
            if !late.is_empty() && seen.lines.ends_with(b"NEXT\r\n") {
                io.write_all(&std::mem::take(&mut late))?;
                io.flush()?;
            }
        }
    }
    match config {
        None => {
            seen.established = true;
            let _ = talk(&mut tap, &mut seen, pieces, late, stall, &count);
        }
        Some(config) => {
            let mut conn = ServerConnection::new(Arc::new(config)).unwrap();
            let mut ok = true;
            while ok && conn.is_handshaking() {
                ok = conn.complete_io(&mut tap).is_ok_and(|(r, w)| r + w > 0);
            }
            if ok {
                seen.established = true;
                seen.peer = conn.peer_certificates().map(|c| c.iter().map(|c| c.to_vec()).collect());
                let _ = talk(&mut rustls::Stream::new(&mut conn, &mut tap), &mut seen, pieces, late, stall, &count);
            } else {
                // Let the client have the alert, if any.
                let _ = conn.write_tls(&mut tap);
                let _ = tap.s.shutdown(std::net::Shutdown::Write);
                let mut rest = [0; 512];
                while tap.read(&mut rest).is_ok_and(|n| n > 0) {}
            }
        }
    }
    seen.raw = tap.raw;
    seen
}

/// A file of certificates and keys with text around them.
fn compose(src: &mut Src, blocks: &[&'static str]) -> String {
    let mut out = String::new();
    for b in blocks {
        if src.chance(1, 3) {
            out.push_str(*src.pick(&["# a comment\n", "\n\n", "subject: CN = x\n", "---- not a marker\n"]));
        }
        out.push_str(b);
        if src.chance(1, 5) {
            out.push('\n');
        }
    }
    out
}
/// Damages one block so that it cannot be read.
fn damage(src: &mut Src, block: &str) -> String {
    let mut lines: Vec<String> = block.lines().map(str::to_owned).collect();
    let mid = lines.len() / 2;
    match src.below(2) {
        0 => lines[mid].replace_range(3..4, "?"),
        _ => {
            lines.pop();
        }
    }
    lines.join("\n") + "\n"
}

fn tls(src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    system();
    let ar = Arena::default();
    // --- the server
    let leaf = *src.pick(&[
        Leaf::Good, Leaf::Good, Leaf::Good, Leaf::Rsa, Leaf::Rsa, Leaf::Via, Leaf::ViaMissing, Leaf::Other, Leaf::Past, Leaf::SelfSigned,
    ]);
    let ca = src.below(3);
    let fault = match src.below(8) {
        0 if leaf != Leaf::Rsa => Fault::WrongKey,
        0 | 1 if leaf == Leaf::Rsa => Fault::OldSignature,
        2 if src.chance(1, 3) => Fault::Plain,
        _ => Fault::None,
    };
    let (v13, v12) = *src.pick(&[(true, true), (true, false), (false, true)]);
    let (v13, v12) = if fault == Fault::OldSignature { (true, false) } else { (v13, v12) };
    let ask = src.bool();
    // --- the client
    let mut files: Vec<MemFile> = Vec::new();
    let mut bad_trust = false;
    let mut trusted: Vec<u32> = Vec::new();
    let mut paths: Vec<PathBuf> = Vec::new();
    for _ in 0..src.below(3) {
        let mut blocks: Vec<&'static str> = Vec::new();
        for _ in 0..src.below(3) {
            let c = src.range(1, 2) as u32;
            trusted.push(c);
            blocks.push(pem(&format!("ca{c}.pem")));
        }
        if src.chance(1, 6) {
            // Only certificates count.
            blocks.push(pem("client.key"));
        }
        let mut text = compose(src, &blocks);
        match src.below(14) {
            0 => {
                bad_trust = true;
                text.push_str(&damage(src, pem("ca3.pem")));
            }
            1 => {
                bad_trust = true;
                text.push_str("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n");
            }
            2 => {
                bad_trust = true;
                paths.push("/proc/self/fd/does-not-exist".into());
            }
            _ => {}
        }
        let f = MemFile::new(&text);
        paths.push(f.1.clone());
        files.push(f);
    }
    let (trust, roots, tname): (Trust, Option<Vec<u32>>, &str) = match src.below(6) {
        0 | 1 => (Trust::Only(paths), Some(trusted), "only"),
        2 | 3 => {
            trusted.push(0);
            (Trust::Also(paths), Some(trusted), "also")
        }
        4 => {
            bad_trust = false;
            (Trust::Default, Some(vec![0]), "default")
        }
        _ => {
            bad_trust = false;
            (Trust::NoVerify, None, "no verification")
        }
    };
    let mut bad_cert = false;
    let mut identity: Option<Vec<CertificateDer<'static>>> = None;
    let cert = if src.chance(2, 5) {
        let (text, chain): (String, Vec<&str>) = match src.below(12) {
            0 => {
                bad_cert = true;
                (compose(src, &[pem("client0.pem")]), vec![])
            }
            1 => {
                bad_cert = true;
                (compose(src, &[pem("client0.pem"), pem("client.sec1.key")]), vec![])
            }
            2 => {
                bad_cert = true;
                let d = damage(src, pem("client0.pem"));
                (d + pem("client.key"), vec![])
            }
            3 => {
                bad_cert = true;
                let d = damage(src, pem("client.key"));
                (pem("client0.pem").to_owned() + &d, vec![])
            }
            4 | 5 => (compose(src, &[pem("client.key"), pem("client1.pem"), pem("cint.pem")]), vec!["client1.pem", "cint.pem"]),
            6 => (compose(src, &[pem("client1.pem"), pem("client.key"), pem("cint.pem")]), vec!["client1.pem", "cint.pem"]),
            7 | 8 => (compose(src, &[pem("client.key"), pem("client0.pem")]), vec!["client0.pem"]),
            _ => (compose(src, &[pem("client0.pem"), pem("client.key")]), vec!["client0.pem"]),
        };
        if !bad_cert {
            identity = Some(chain.into_iter().map(der).collect());
        }
        let f = MemFile::new(&text);
        let p = f.1.clone();
        files.push(f);
        Some(if src.chance(1, 20) {
            bad_cert = true;
            "/proc/self/fd/does-not-exist".into()
        } else {
            p
        })
    } else {
        None
    };
    let opts = TlsConfigOptions { trust, cert };
    let use_tls = !src.chance(1, 8);
    let refuse = use_tls && src.chance(1, 20);
    let by_name = src.chance(1, 4) && localhost();
    let asynchronous = src.bool();
    // --- the conversation
    let mut lines: Vec<ServerMsg<'static>> = Vec::new();
    let mut bytes = Vec::new();
    for _ in 0..src.range(1, 5) {
        let mut sm = mk_server(src, &ar);
        if src.chance(1, 10) {
            let big = "y".repeat(src.range(1000, 4000));
            sm.args.edit().add(Line::from_bytes(big).unwrap());
        }
        let at = bytes.len();
        let _ = ServerCodec::write_to(&sm, &mut bytes);
        if bytes.len() - at > 4000 {
            bytes.truncate(at);
            continue;
        }
        bytes.extend_from_slice(b"\r\n");
        lines.push(ServerMsg::parse(bytes[at..bytes.len() - 2].to_vec()).map_err(|e| e.to_string())?);
    }
    let mut cuts: Vec<usize> = (0..src.below(5)).map(|_| src.usize_below(bytes.len() + 1)).collect();
    cuts.extend([0, bytes.len()]);
    cuts.sort();
    let pieces: Vec<Vec<u8>> = cuts.windows(2).map(|w| bytes[w[0]..w[1]].to_vec()).collect();
    let step = match src.below(3) {
        0 => src.range(20, 200),
        _ => usize::MAX,
    };
    let texts: Vec<String> = (0..src.range(1, 4)).map(|i| format!("MSG {i} plainly-{}", "z".repeat(src.usize_below(300)))).collect();
    let limits = src.bool();
    let silent = src.chance(1, 150);
    // More than fits on the way at once.
    let bulk: Vec<String> = if !silent && src.chance(1, 300) {
        (0..src.range(700, 1000)).map(|i| format!("BULK {i} plainly-{}", "b".repeat(7000))).collect()
    } else {
        Vec::new()
    };
    let stall = if bulk.is_empty() { Duration::ZERO } else { Duration::from_millis(30) };

    // --- what should happen
    let speaks = fault != Fault::Plain;
    let plain = !use_tls;
    let acceptable = match &roots {
        None => true,
        Some(r) => r.contains(&ca) && matches!(leaf, Leaf::Good | Leaf::Rsa | Leaf::Via),
    };
    let builds = !bad_trust && !bad_cert && !refuse;
    let want = plain || (builds && speaks && acceptable && fault == Fault::None);
    ctx.label(tname);
    ctx.label(match want {
        true if plain => "plain",
        true => "established",
        _ if !builds => "bad settings",
        _ if fault != Fault::None => "faulty server",
        _ => "untrusted",
    });
    if use_tls {
        ctx.nontrivial();
    }
    let what = format!(
        "{tname} {roots:?}, server {leaf:?} of ca{ca} ({fault:?}, tls13 {v13}, tls12 {v12}, asks {ask}), identity {:?}, bad files {bad_trust} {bad_cert}, tls {use_tls}, refuse {refuse}, asynchronous {asynchronous}",
        identity.as_ref().map(|i| i.len())
    );
    ctx.sample(|| what.clone());

    let config = (use_tls && speaks).then(|| server_config(leaf, ca, fault, v13, v12, ask));
    let Some(listener) = super::listen() else {
        ctx.label("no socket");
        return Ok(());
    };
    let port = listener.local_addr().unwrap().port();
    if !bulk.is_empty() {
        ctx.label("bulk");
        narrow(&listener);
    }
    let late = if silent { b"LATE :last line\r\n".to_vec() } else { Vec::new() };
    // Kept open until the end, so that nothing else is given the port.
    let held = listener.try_clone().map_err(|e| format!("test setup: {e}"))?;
    let count = Arc::new(AtomicUsize::new(0));
    let server = {
        let count = count.clone();
        std::thread::spawn(move || serve(listener, config, step, pieces, late, stall, count))
    };
    let mut sent: Vec<u8> = Vec::new();
    for t in &texts {
        let _ = ClientCodec::write_to(&ClientMsg::parse(t.clone()).unwrap(), &mut sent);
        sent.extend_from_slice(b"\r\n");
    }
    if silent {
        sent.extend_from_slice(b"NEXT\r\n");
    }
    for t in &bulk {
        sent.extend_from_slice(t.as_bytes());
        sent.extend_from_slice(b"\r\n");
    }

    let address = Word::from_str(if by_name { "localhost" } else { "127.0.0.1" });
    let addr = ServerAddr { address, tls: use_tls, port: Some(port) };
    let called = std::cell::Cell::new(0);
    let make = || {
        called.set(called.get() + 1);
        if refuse {
            return Err(std::io::Error::new(std::io::ErrorKind::AddrInUse, "refused"));
        }
        opts.build()
    };
    let mut got: Vec<ServerMsg<'static>> = Vec::new();
    let mut waited = None;
    macro_rules! drive {
        ($c:ident, $run:expr, $flush:expr, $recv:expr) => {{
            $c.queue_mut().set_rate_limit(Duration::ZERO, 0);
            for t in &texts {
                $c.queue_mut().edit().push(ClientMsg::parse(t.clone()).unwrap());
            }
            if limits {
                $c.set_read_timeout(Some(Duration::from_secs(25)));
                $c.set_write_timeout(Some(Duration::from_secs(25)));
            }
            while got.len() < lines.len() {
                match $run {
                    Ok(Some((y, _))) if !y.is_empty() => {}
                    Ok(Some(_)) => return Err("run returned without results".into()),
                    Ok(None) => return Err("a read timed out with data on its way".into()),
                    Err(e) => return Err(format!("run: {e}")),
                }
                $recv;
            }
            if silent {
                $c.set_read_timeout(Some(Duration::from_millis(5)));
                let t = Instant::now();
                match $run {
                    Ok(None) => waited = Some(t.elapsed()),
                    r => return Err(format!("run on a silent connection: {r:?}")),
                }
                $c.set_read_timeout(Some(Duration::from_secs(25)));
                $c.queue_mut().edit().push(ClientMsg::parse("NEXT").unwrap());
                match $run {
                    Ok(Some((y, _))) if !y.is_empty() => {}
                    r => return Err(format!("run after a timeout: {r:?}")),
                }
                $recv;
            }
            for t in &bulk {
                $c.queue_mut().edit().push(ClientMsg::parse(t.clone()).unwrap());
            }
            if let Err(e) = $flush {
                return Err(format!("flush: {e}"));
            }
            // Closing a socket with something unread discards what was sent last.
            let t = Instant::now();
            while count.load(Ordering::SeqCst) < sent.len() && t.elapsed() < Duration::from_secs(20) {
                std::thread::sleep(Duration::from_micros(50));
            }
            Ok(())
        }};
    }
    let result: Result<(), String> = if asynchronous {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let conn = addr.connect_tokio(make).await.map_err(|e| format!("connect: {e}"))?;
            let mut c = Client::new(conn, TokioChannels);
            let (_, mut rx) = c.add((), YieldAll).unwrap();
            drive!(c, c.run_tokio().await, c.flush_partial_tokio().await, {
                while let Ok(m) = rx.try_recv() {
                    got.push(m);
                }
            })
        })
    } else {
        (|| {
            let conn = addr.connect(make).map_err(|e| format!("connect: {e}"))?;
            let mut c = Client::new(conn, SyncChannels);
            let (_, rx) = c.add((), YieldAll).unwrap();
            drive!(c, c.run(), c.flush_partial(), got.extend(rx.try_iter()))
        })()
    };
    // A client that gave up before connecting leaves the server waiting.
    drop(TcpStream::connect(("127.0.0.1", port)));
    let seen = server.join().map_err(|_| "test setup: the server panicked")?;
    drop(held);

    if result.as_ref().is_err_and(|e| e.contains("os error 99)")) {
        // The system has run out of ports.
        ctx.label("no socket");
        return Ok(());
    }
    ensure_eq!(called.get() > 0, use_tls, "whether TLS settings were asked for: {what}");
    if want {
        ensure!(result.is_ok(), "{what}: {}", result.unwrap_err());
        if silent {
            let late = got.pop();
            ensure_eq!(late.map(|m| m.to_string()), Some("LATE :last line".to_string()), "last message: {what}");
            let t = waited.unwrap_or_default();
            ensure!(t > Duration::from_millis(900), "a read limited to one second gave up after {t:?}: {what}");
        }
        ensure_eq!(got, lines, "messages received: {what}");
        ensure_eq!(show(&seen.lines), show(&sent), "bytes sent: {what}");
        if use_tls {
            let id: Option<Vec<Vec<u8>>> = if ask { identity.map(|i| i.iter().map(|c| c.to_vec()).collect()) } else { None };
            ensure!(seen.peer == id, "the client presented {:?} certificates, expected {:?}: {what}", seen.peer.map(|p| p.len()), id.map(|p| p.len()));
        }
    } else {
        ensure!(result.is_err(), "a connection was made: {what}");
        ensure!(!seen.established || fault == Fault::Plain, "the server completed a handshake: {what}");
        ensure!(got.is_empty(), "messages were received: {what}");
    }
    if use_tls {
        ensure!(!seen.raw.windows(7).any(|w| w == b"plainly"), "messages were sent in the clear: {what}");
    }
    drop(files);
    Ok(())
}

fn localhost() -> bool {
    use std::net::ToSocketAddrs;
    static OK: OnceLock<bool> = OnceLock::new();
    *OK.get_or_init(|| {
        ("localhost", 1u16).to_socket_addrs().is_ok_and(|a| a.into_iter().any(|a| a.ip() == std::net::Ipv4Addr::LOCALHOST))
    })
}

pub fn c26() -> Vec<Facet> {
    vec![blocking("connect", 20_000, 400_000, tls, "TLS was asked for")]
}
