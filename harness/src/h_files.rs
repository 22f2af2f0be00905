//! C24: files, with calls that are interrupted, cut short or fail.
use crate::fs;
use crate::rsx::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::parser as plant;
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::Interpretation;

/// reading gives what the text gives, or an error if it cannot be read
fn c24_read(text: &[u8], faults: usize) {
    fs::start(&[("/vfs/other", b"n = 9"), ("/vfs/a.plant", text)], faults);
    let r = plant::parse_file("/vfs/a.plant");
    if fs::deviations(faults) > 0 { reach("something went wrong") }
    if fs::failed() { reach("cannot be read"); check(r.is_err(), "a file that cannot be read is an error"); return }
    check(fs::still_open() == 0, "the file is closed");
    check(fs::content("/vfs/a.plant").as_deref() == Some(text), "reading leaves the file alone");
    let t = std::str::from_utf8(text);
    if t.is_err() { reach("not text"); check(r.is_err(), "a file that is not text is an error"); return }
    match (r, plant::parse(t.unwrap())) {
        (Ok((i, s, a)), Ok((j, t, b))) => {
            reach("read");
            check(i.n() == j.n() && i.delta() == j.delta() && a == b, "what the text of the file says");
            check(s.production_len() == t.production_len() && s.symbol_len() == t.symbol_len(), "the rules of the text");
        }
        (r, t) => check(r.is_err() && t.is_err(), "an error exactly if the text is malformed"),
    }
}
fn c24_any(n: usize, faults: usize) {
    let mut t = b"#\xc3\xa9\xe2\x82\xac\ninitial: X # \xc3\xa9\nX -> X X\nn = 4\n".to_vec();
    for i in 0..n { let l = t.len(); t[l - 2 - 5 * i] = u8() }
    c24_read(&t, faults);
}
fn c24_short(n: usize) {
    let t: Vec<u8> = (0..n).map(|_| u8()).collect();
    c24_read(&t, 1);
}
/// texts that begin or end in unusual ways
fn c24_ends() {
    let odd = ["\u{feff}", "\u{feff}\u{feff}", "\u{2028}", "\0", "\r", "\u{fffe}", "\u{1a}", "\n\n", "\u{a0}", "#\0\n", "\u{feff}#\n"];
    let raw: [&[u8]; 4] = [b"\xff\xfe", b"\xc3", b"\xef\xbb", b"\xed\xa0\x80"];
    let i = pick(odd.len() + raw.len());
    let x = if i < odd.len() { odd[i].as_bytes() } else { raw[i - odd.len()] };
    let t = b"initial: X\nX -> X Y\nn = 4";
    let t = match pick(3) { 0 => [x, t].concat(), 1 => [t, x].concat(), _ => [&t[..11], x, &t[11..]].concat() };
    c24_read(&t, pick(2));
}
fn c24_large(n: usize, faults: usize) {
    let mut t = b"initial: X\n".to_vec();
    for i in 0..n { t.extend_from_slice(format!("X > A{} -> X X # {}\n", i, "\u{e9}".repeat(40)).as_bytes()) }
    c24_read(&t, faults);
}
/// nothing is left out however large the file is
fn c24_big(n: usize, faults: usize) {
    let mut t = b"initial: X\nX -> X X\n".to_vec();
    while t.len() < n { t.extend_from_slice("# \u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{20ac}\n".repeat(20).as_bytes()) }
    let k = u8();
    assume(k >= b'0' && k <= b'9');
    t.extend_from_slice(&[b'n', b'=', k]);
    fs::start(&[("/vfs/a.plant", &t)], faults);
    let r = plant::parse_file("/vfs/a.plant");
    if fs::deviations(faults) > 0 { reach("something went wrong") }
    if fs::failed() { check(r.is_err(), "a file that cannot be read is an error"); return }
    check(r.is_ok(), "the file can be read");
    if let Ok((i, _, _)) = r { check(i.n() == (k - b'0') as usize, "the last line counts") }
}
fn c24_missing() {
    fs::start(&[("/vfs/a.plant", b"")], 1);
    let p = ["/vfs/b.plant", "/vfs/d/a.plant", "", "/vfs/a.plant", "/vfs/a\0.plant"][pick(5)];
    check(plant::parse_file(p).is_err(), "no such file");
}

fn drawing(n: usize) -> Svg {
    let p = (0..n).map(|i| (i as f64 * 1.5, (i * i % 17) as f64)).collect();
    SvgPathInterpretation::new_with(30 + n, 20, Fixed(p)).interpret(&rusty_systems::prelude::System::new(), &rusty_systems::prelude::ProductionString::empty()).unwrap()
}
#[derive(Debug, Clone, Default)]
struct Fixed(Vec<(f64, f64)>);
impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<rusty_systems::prelude::System> { Ok(Default::default()) }
    fn interpret<S: rusty_systems::symbols::SymbolStore>(&self, _: &S, _: &rusty_systems::prelude::ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(vec![self.0.iter().map(|(x, y)| Point::new(*x, *y)).collect()]) }
}
/// saving leaves exactly the text of the document in the file, or is an error
fn c24_named() {
    let svg = drawing(3);
    let text = svg.to_svg();
    let name = ["-", "--", "~", "~x", "~/x", "$HOME", "$HOME/x", "%", "%s", "*", "?", "stdout", "con", "NUL", "a b", " ", ".svg", "x.", "-x", "x\n", "é", "\\", "file:x", "x.gz", "x.svgz", "#1", "d/-", "!x", "&1", "null"][pick(30)];
    let full = ["/vfs/", name].concat();
    fs::start(&[("/vfs/other", b"kept"), ("/vfs/~/y", b"kept"), ("/vfs/$HOME/y", b"kept"), ("/vfs/d/y", b"kept"), ("/vfs/home/y", b"kept")], 0);
    let name = if bit() { &full } else { name };
    let dir = matches!(&full[5..], "~" | "$HOME");
    let r = svg.save_file(name);
    check(r.is_ok() != dir, "the file can be written");
    if dir { reach("a directory"); return }
    check(fs::content(&full).as_deref() == Some(text.as_bytes()) && fs::files() == 6, "the file is the text of the document");
    check(fs::printed().0.is_empty(), "nothing is printed");
    reach("saved");
    // and it is the file that is read
    fs::start(&[(&full, b"n = 7\ninitial: X\nX -> X\n"), ("/vfs/other", b"kept")], 0);
    let p = plant::parse_file(name);
    check(p.is_ok() && p.unwrap().0.n() == 7, "what the file says");
}
fn c24_save(n: usize, faults: usize) {
    let svg = drawing(n);
    let text = svg.to_svg();
    let name = ["/vfs/new.svg", "/vfs/old.svg", "/vfs/none/new.svg"][pick(3)];
    // what is there already may be longer, of the same size, or shorter
    let old = vec![b'x'; if name == "/vfs/old.svg" { [3000 + text.len(), text.len(), text.len() / 2, 0][pick(4)] } else { 30 }];
    let others = ["/vfs/other", "/vfs/old.svg~", "/vfs/old.svg.bak", "/vfs/old.bak", "/vfs/old.svg.tmp", "/vfs/old.tmp", "/vfs/.old.svg", "/vfs/old", "/vfs/new", "/vfs/new.tmp", "/vfs/new.svg.tmp"];
    fs::start(&[&[("/vfs/old.svg", &old[..])], &others.map(|n| (n, &b"kept"[..]))[..]].concat(), faults);
    let r = svg.save_file(name);
    if fs::deviations(faults) > 0 { reach("something went wrong") }
    if fs::failed() { reach("cannot be written"); check(r.is_err(), "a file that cannot be written is an error") } else {
        reach("saved");
        check(r.is_ok(), "nothing stood in the way");
        check(fs::still_open() == 0, "the file is closed");
        let c = fs::content(name);
        check(c.is_some() && c.unwrap() == text.as_bytes(), "the file is the text of the document");
    }
    for n in others { check(fs::content(n).as_deref() == Some(b"kept"), "other files are left alone") }
    check(fs::files() <= 12 + (name != "/vfs/old.svg") as usize, "no other file is made");
    if !name.ends_with("old.svg") { check(fs::content("/vfs/old.svg").as_deref() == Some(&old[..]), "other files are left alone") }
}
fn c24_twice() {
    // one after the other to the same file: the last one counts
    let faults = 2;
    fs::start(&[], faults);
    let (a, b) = ([0, 3, 12][pick(3)], [0, 3, 12][pick(3)]);
    let r = drawing(a).save_file("/vfs/s.svg");
    let first = fs::failed();
    check(r.is_err() == first, "an error exactly if it cannot be written");
    if first { return }
    let r = drawing(b).save_file("/vfs/s.svg");
    check(r.is_err() == fs::failed(), "an error exactly if it cannot be written");
    if r.is_ok() { reach("saved twice"); check(fs::content("/vfs/s.svg").as_deref() == Some(drawing(b).to_svg().as_bytes()), "the last one counts") }
}

crate::harnesses! {
    h_c24_any => c24_any(2, 1);
    h_c24_faults => c24_any(0, 3);
    h_c24_short => c24_short(2);
    h_c24_named => c24_named();
    h_c24_ends => c24_ends();
    h_c24_large => c24_large(4, 2);
    h_c24_big => c24_big(70000, 1);
    t_c24_big => c24_big(1100000, 1);
    h_c24_missing => c24_missing();
    h_c24_save => c24_save(5, 3);
    h_c24_wide => c24_save(700, 2);
    h_c24_twice => c24_twice();
    t_c24_any => c24_any(3, 2);
    t_c24_faults => c24_any(0, 5);
    t_c24_large => c24_large(40, 3);
    t_c24_save => c24_save(30, 5);
    t_c24_wide => c24_save(4000, 2);
}
