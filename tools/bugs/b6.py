BUGS = [
 dict(id="c17-many", property="C17",
  edits=[("src/client/handler/channel/parker.rs", "        if result != std::ops::ControlFlow::Break(super::Sent::Closed) {", "        if result.is_break() {")],
  needs="a waking sender around a channel that takes any number of values",
  breaks="the thread waiting for the values is not woken by them",
  demo='''use std::{ops::ControlFlow, sync::mpsc, time::Duration};
use vinezombie::client::channel::{parker, Sender, Sent};
struct Many(mpsc::Sender<u32>);
impl Sender for Many {
    type Value = u32;
    fn send(&mut self, v: u32) -> ControlFlow<Sent> {
        match self.0.send(v) {
            Ok(()) => ControlFlow::Continue(()),
            Err(_) => ControlFlow::Break(Sent::Closed),
        }
    }
}
fn main() {
    let (tx, rx) = mpsc::channel();
    let (mut u, p) = parker::new(Many(tx));
    let (done, wait) = mpsc::channel();
    std::thread::spawn(move || {
        p.park();
        done.send(rx.try_recv()).unwrap();
    });
    std::thread::sleep(Duration::from_millis(200));
    let _ = u.send(7);
    assert_eq!(wait.recv_timeout(Duration::from_secs(20)), Ok(Ok(7)));
}
'''),
 dict(id="c11-both-malformed", property="C11",
  edits=[("src/names/types.rs", "            let (u, x) = self.$field.get_mut(tag.as_raw().borrow())?;\n            Some((T::from_union(u), x))", "            let (u, x) = self.$field.get_mut(tag.as_raw().borrow())?;\n            Some((Ok(T::from_union(u).ok()?), x))")],
  needs="a name in a map whose value does not parse",
  breaks="the entry looks as if it were absent",
  demo='''use vinezombie::names::{isupport::*, ISupport, NameMap};
use vinezombie::string::{Key, Word};
fn main() {
    let mut map: NameMap<ISupport, u32> = NameMap::new();
    map.edit().insert((Key::from_str("NICKLEN"), Word::from_str("x")), 3);
    let (v, x) = map.get_both_mut(NICKLEN).expect("it is there");
    assert!(v.is_err());
    assert_eq!(*x, 3);
}
'''),
]
