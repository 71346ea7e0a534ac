//! A conversation with the blocking client, one server line at a time.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{BufRead, ErrorKind, Read, Write};
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::channel::SyncChannels;
use vinezombie::client::conn::{Connection, ReadTimeout, WriteTimeout};
use vinezombie::client::Client;

#[derive(Default)]
struct Ends {
    inbox: VecDeque<u8>,
    sent: Vec<u8>,
}
/// Reads what was fed to it, and looks like an expired read timeout once that is used up.
pub struct Pipe(Rc<RefCell<Ends>>, Vec<u8>, usize);

impl Read for Pipe {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(out.len());
        out[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pipe {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.2 >= self.1.len() {
            self.1 = self.0.borrow_mut().inbox.drain(..).collect();
            self.2 = 0;
            if self.1.is_empty() {
                return Err(ErrorKind::WouldBlock.into());
            }
        }
        Ok(&self.1[self.2..])
    }
    fn consume(&mut self, n: usize) {
        self.2 += n;
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().sent.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl ReadTimeout for Pipe {
    fn set_read_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> {
        Ok(())
    }
}
impl WriteTimeout for Pipe {
    fn set_write_timeout(&mut self, _: Option<Duration>) -> std::io::Result<()> {
        Ok(())
    }
}
impl Connection for Pipe {
    type BufRead = Self;
    type Write = Self;
    fn as_bufread(&mut self) -> &mut Self {
        self
    }
    fn as_write(&mut self) -> &mut Self {
        self
    }
}

pub struct Talk {
    ends: Rc<RefCell<Ends>>,
    pub client: Client<Pipe, SyncChannels>,
}
impl Talk {
    pub fn new() -> Talk {
        let ends = Rc::new(RefCell::new(Ends::default()));
        let mut client = Client::new(Pipe(ends.clone(), Vec::new(), 0), SyncChannels);
        client.queue_mut().set_rate_limit(Duration::ZERO, 1);
        Talk { ends, client }
    }
    /// Feeds a line (without its newline), lets the client handle all it has, and returns what it sent.
    pub fn tell(&mut self, line: &[u8]) -> Result<Vec<Vec<u8>>, String> {
        let mut e = self.ends.borrow_mut();
        e.inbox.extend(line);
        e.inbox.extend(b"\r\n");
        drop(e);
        self.settle()
    }
    pub fn settle(&mut self) -> Result<Vec<Vec<u8>>, String> {
        loop {
            match self.client.run() {
                Ok(None) => break,
                Ok(Some(([], []))) => break,
                Ok(Some(_)) => {}
                Err(e) => return Err(format!("run: {e}")),
            }
        }
        // With no handlers the client does not read.
        self.ends.borrow_mut().inbox.clear();
        let sent = std::mem::take(&mut self.ends.borrow_mut().sent);
        Ok(lines(&sent))
    }
}
pub fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = b
        .split(|b| *b == b'\n')
        .map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec())
        .collect();
    if out.last().is_some_and(|l| l.is_empty()) {
        out.pop();
    }
    out
}
