//! Registry of properties and their facets.

use crate::engine::{Case, Facet};

mod caps;
mod channels;
mod client;
mod credentials;
mod ctcp;
mod framing;
mod maps;
mod memory;
mod modes;
mod msg;
mod nicks;
mod queue;
mod registration;
mod sasl;
mod secrets;
mod serial;
mod standing;
mod strings;
#[cfg(feature = "tls")]
mod tls;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
    #[cfg(feature = "tls")]
    "C26"];

pub const fn facet(name: &'static str, quick: u64, thorough: u64, f: Case, rule: &'static str) -> Facet {
    Facet { name, quick, thorough, f, rule, blocking: false }
}
pub const fn blocking(name: &'static str, quick: u64, thorough: u64, f: Case, rule: &'static str) -> Facet {
    Facet { name, quick, thorough, f, rule, blocking: true }
}

pub fn facets(prop: &str) -> Vec<Facet> {
    match prop {
        "C01" => msg::c01(),
        "C02" => msg::c02(),
        "C03" => msg::c03(),
        "C04" => strings::c04(),
        "C05" => strings::c05(),
        "C06" => strings::c06(),
        "C07" => strings::c07(),
        "C08" => secrets::c08(),
        "C09" => memory::c09(),
        "C10" => framing::c10(),
        "C11" => maps::c11(),
        "C12" => maps::c12(),
        "C13" => queue::c13(),
        "C14" => client::c14(),
        "C23" => serial::c23(),
        "C22" => standing::c22(),
        "C24" => standing::c24(),
        "C25" => client::c25(),
        #[cfg(feature = "tls")]
        "C26" => tls::c26(),
        "C21" => ctcp::c21(),
        "C17" => channels::c17(),
        "C15" => registration::c15(),
        "C16" => sasl::c16(),
        "C18" => nicks::c18(),
        "C19" => modes::c19(),
        "C20" => caps::c20(),
        _ => Vec::new(),
    }
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        "C25" | "C10" => "fault_enumeration",
        _ => "exploration",
    }
}

pub fn assumptions(_prop: &str) -> Vec<&'static str> {
    vec!["the generators reach the behaviour in question; counts above say how often"]
}

/// How many cases of a facet are interpreted under Miri in the quick tier.
pub fn under_miri(prop: &str, facet: &str) -> u64 {
    match (prop, facet) {
        ("C09", "strings") => 240,
        ("C09", "shared" | "by-reference" | "oneshot") => 400,
        ("C09", "streams" | "kinds") => 60,
        ("C17", "oneshot-threads" | "parker-threads") => 700,
        ("C17", "reuse" | "park-sequence") => 400,
        _ => 120,
    }
}

pub struct Known {
    pub text: &'static str,
    /// Returns true while the finding still reproduces.
    pub demo: fn() -> bool,
}

/// The findings listed in /verif/known_findings.txt.
pub fn known(prop: &str) -> Vec<Known> {
    match prop {
        "C01" => vec![Known {
            text: "a source whose host is empty (nick@ or nick!user@) is written but refused when parsed",
            demo: msg::known_empty_host,
        }],
        "C23" => vec![Known {
            text: "a string that is not UTF-8 does not read back from a binary format (CBOR byte string)",
            demo: serial::known_cbor,
        }],
        _ => Vec::new(),
    }
}

/// A listening socket of the loopback interface; waits if none is to be had.
#[cfg_attr(miri, allow(dead_code))]
pub fn listen() -> Option<std::net::TcpListener> {
    for _ in 0..100 {
        if let Ok(l) = std::net::TcpListener::bind("127.0.0.1:0") {
            return Some(l);
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    None
}
