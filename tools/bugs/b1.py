BUGS = [
 dict(id="c01-colon-word", property="C01",
  edits=[("src/ircmsg/args.rs", "let is_long = Arg::find_invalid(&s).is_some();", "let is_long = s.is_empty() || s.iter().any(Arg::is_invalid);")],
  needs="a last argument without spaces that starts with a colon (such as ':)') added through Args::new, add or the parser",
  breaks="the argument is stored as a word and written without its extra colon, so it is read back without its first byte",
  demo='''use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut m = ClientMsg::new_cmd(Cmd::from_str("PRIVMSG"));
    m.args.edit().add_word(Arg::from_str("#chan"));
    m.args.edit().add(Line::from_str(":)"));
    let mut out = Vec::new();
    ClientCodec::write_to(&m, &mut out).unwrap();
    let back = ClientMsg::parse(out).unwrap();
    assert_eq!(back.args.split_last().1.unwrap().as_bytes(), b":)");
}
'''),
 dict(id="c03-unstable-dedup", property="C03",
  edits=[("src/util/flatmap.rs", "vec.sort_by(|l, r| X::extract_key(l).cmp(X::extract_key(r)));", "vec.sort_unstable_by(|l, r| X::extract_key(l).cmp(X::extract_key(r)));")],
  needs="a message with more than about twenty tags of which two share a key",
  breaks="which duplicate wins is arbitrary instead of the last one",
  demo='''use vinezombie::ircmsg::*;
fn main() {
    for n in 10usize..80 {
        for d in 0..n {
            let mut s = String::new();
            for i in 0..n { s.push_str(&format!("k{}=v{i};", (i * 37) % n)); }
            for i in 0..4 { s.push_str(&format!("k{d}=new{i};")); }
            let t = Tags::parse(vinezombie::string::Word::from_bytes(s.clone()).unwrap());
            assert_eq!(t.get(format!("k{d}").as_str()).unwrap().as_bytes(), b"new3", "{s}");
        }
    }
}
'''),
 dict(id="c05-until-byte", property="C05",
  edits=[("src/string/splitter.rs", '''        if let Some(idx) = self.as_slice().iter().position(f) {
            self.range.consume(idx, true);
        }''', '''        if let Some(idx) = self.as_slice().iter().position(f) {
            self.range.end = self.range.start + idx;
        }''')],
  needs="a string known to be UTF-8, cut by a predicate that matches a byte in the middle of a character, and then read as text",
  breaks="the part is believed to be valid UTF-8 although it ends inside a character",
  demo='''use vinezombie::string::*;
fn main() {
    let mut s = Splitter::new(Bytes::from_str("a\\u{2603}b"));
    s.until_byte(|b| *b == 0x98);
    let b: Bytes = s.rest().unwrap();
    assert!(b.is_utf8_lazy() != Some(true), "claims {:?} is UTF-8", b.as_bytes());
}
'''),
 dict(id="c10-limit", property="C10",
  edits=[("src/ircmsg/codec.rs", "if end_idx >= limit || *byte == b'\\n' || *byte == b'\\0' {", "if end_idx > limit || *byte == b'\\n' || *byte == b'\\0' {")],
  needs="the stream decoder and a line exactly one byte over the size limit",
  breaks="the decoder accepts a line that the other readers call too long",
  features=["client", "tokio-codec"], deps=['tokio-util = { version = "0.7", features = ["codec"] }'],
  demo='''use vinezombie::ircmsg::*;
use tokio_util::codec::Decoder;
fn main() {
    for (extra, ok) in [(0usize, true), (1, false)] {
        let mut l = b"PING :".to_vec();
        l.resize(ServerMsg::MAX_LEN - 1 + extra, b'x');
        l.push(b'\\n');
        let mut buf = tokio_util::bytes::BytesMut::from(l.as_slice());
        let r = ClientCodec.decode(&mut buf);
        assert_eq!(matches!(r, Ok(Some(_))), ok, "line of {} bytes", l.len());
    }
}
'''),
 dict(id="c11-sorted-push", property="C11",
  edits=[("src/util/flatmap.rs", "            sorted_until == self.real_len && Some(key) > self.as_slice().last().map(X::extract_key);",
    "            Some(key) > self.as_slice().last().map(X::extract_key);")],
  needs="within one edit guard, an insertion out of order followed by one that sorts after it, then a lookup",
  breaks="the sorted prefix is taken to be longer than it is; keys inserted through the guard are not found and can be inserted twice",
  demo='''use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut t = Tags::new();
    let mut e = t.edit();
    for k in ["m", "c", "d", "e", "f", "a", "b"] {
        e.insert_pair(Key::from_str(k), NoNul::from_str(k));
    }
    for k in ["m", "c", "d", "e", "f", "a", "b"] {
        assert_eq!(e.get(k).map(|v| v.to_vec()), Some(k.as_bytes().to_vec()), "lookup of {k}");
    }
    drop(e);
    assert_eq!(t.len(), 7);
}
'''),
 dict(id="c12-source-space", property="C12",
  edits=[("src/ircmsg/codec.rs", "        size += 2 + src.get();", "        size += 1 + src.get();")],
  needs="a message with a source that fills its line to the last byte",
  breaks="bytes_left is one too large, so a message reported to fit is 513 bytes long",
  demo='''use vinezombie::ircmsg::*;
use vinezombie::string::*;
fn main() {
    let mut m = ServerMsg::new_cmd(Cmd::from_str("PRIVMSG"));
    m.source = Some(SharedSource::new(Source::new_server(Nick::from_str("irc.example.net"))));
    m.args.edit().add_word(Arg::from_str("#c"));
    m.args.edit().add(Line::from_str("hello there"));
    let mut out = Vec::new();
    ServerCodec::write_to(&m, &mut out).unwrap();
    assert_eq!(m.bytes_left(), 510 - out.len() as isize);
}
'''),
 dict(id="c06-casemap-caret", property="C06",
  edits=[("src/string/tf/casemap.rs", "    if matches!(byte, b'['..=b']') {", "    if matches!(byte, b'['..=b'^') {")],
  needs="case mapping of a string that contains '^' with one of the RFC 1459 mappings",
  breaks="'^' is mapped to '~', so names that differ are considered equal and the other way round",
  demo='''use vinezombie::string::*;
use vinezombie::string::tf::IrcCasemap;
fn main() {
    for c in [IrcCasemap::Rfc1459, IrcCasemap::Rfc1459Strict] {
        let mut n = Nick::from_str("A[b]^x");
        n.transform(c);
        assert_eq!(n.as_bytes(), b"a{b}^x");
    }
}
'''),
 dict(id="c07-transform-plain", property="C07",
  edits=[("src/string/bytes.rs", "        Bytes { value, ownership, utf8: utf8.into(), secret: self.secret }\n    }\n    /// Updates", "        let secret = self.secret && value.len() == self.value.len();\n        Bytes { value, ownership, utf8: utf8.into(), secret }\n    }\n    /// Updates")],
  needs="splitting a proper part off a secret string and formatting it",
  breaks="the part is no longer secret and prints its contents",
  demo='''use vinezombie::string::*;
fn main() {
    let mut s = Splitter::new(Bytes::from_secret(b"user:hunter2".to_vec()));
    s.save_end().until_byte_eq(b':').rest::<Bytes>().unwrap();
    s.next_byte();
    let p: Bytes = s.rest().unwrap();
    assert!(p.is_secret());
    assert!(!format!("{p} {p:?}").contains("hunter2"));
}
'''),
 dict(id="c02-userhost-panic", property="C02",
  edits=[("src/ircmsg/source.rs", "        let host: Word = splitter.rest_or_default();\n        if host.is_empty() {", "        let host: Word = splitter.string(true).unwrap();\n        if host.as_bytes()[0] == b'@' {")],
  needs="a source with a username but nothing after the at sign",
  breaks="parsing panics on network input instead of returning an error",
  demo='''use vinezombie::ircmsg::*;
fn main() {
    assert!(ServerMsg::parse(":nick!user@ PRIVMSG #a :b").is_err());
}
'''),
 dict(id="c04-nick-first", property="C04",
  edits=[("src/string/builder.rs", '''            if T::is_invalid(byte) {
                return Err(InvalidString::Byte(*byte));
            }
            ascii &= byte.is_ascii();''', '''            if byte.is_ascii() && T::is_invalid(byte) && *byte > b'\\n' {
                return Err(InvalidString::Byte(*byte));
            }
            ascii &= byte.is_ascii();''')],
  needs="a builder given bytes with an embedded NUL or line feed through try_append",
  breaks="the built Line or Word contains a byte its type forbids",
  demo='''use vinezombie::string::*;
fn main() {
    let mut b = Builder::<Line>::default();
    assert!(b.try_append(b"a\\nQUIT").is_err());
    assert!(b.try_append(b"a\\0").is_err());
}
'''),
]
