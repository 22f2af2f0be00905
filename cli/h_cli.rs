//! C25: the command line tool, from its arguments to its exit code.
use crate::fs;
use crate::rsx::*;
use rusty_systems::interpretation::abop;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::prelude::*;
use std::process::{ExitCode, Termination};

type After = Box<dyn FnOnce(bool)>;
static mut AFTER: Option<After> = None;
extern "C-unwind" fn ended(code: i32) {
    let f = unsafe { (*std::ptr::addr_of_mut!(AFTER)).take() };
    if let Some(f) = f { f(code == 0) }
}
/// Run the tool with these arguments, however it ends; then look at what it has done.
fn run(args: &[&[u8]], after: impl FnOnce(bool) + 'static) {
    set_args(args);
    unsafe { AFTER = Some(Box::new(after)) }
    let code = crate::main().report();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    ended(if code == ExitCode::SUCCESS { 0 } else { 1 })
}
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn rsx_find(p: *const u8, n: usize) -> usize;
        fn rsx_end() -> !;
    }
    pub fn set_args(args: &[&[u8]]) {
        let v: Vec<*const u8> = std::iter::once(&b"lsystem"[..]).chain(args.iter().copied()).map(|x| { let mut x = x.to_vec(); x.push(0); x.leak().as_ptr() }).chain([std::ptr::null()]).collect();
        let n = "ARGV_INIT_ARRAY";
        // what the C runtime calls before main
        let f: extern "C" fn(i32, *const *const u8, *const *const u8) = unsafe { std::mem::transmute(rsx_find(n.as_ptr(), n.len())) };
        f(args.len() as i32 + 1, v.leak().as_ptr(), [std::ptr::null()].as_ptr())
    }
    #[no_mangle]
    pub unsafe extern "C" fn exit(code: i32) -> ! {
        super::ended(code);
        rsx_end()
    }
}
#[cfg(feature = "native")]
mod imp {
    use std::os::unix::prelude::*;
    /// A process has the arguments it was started with: start again with these.
    pub fn set_args(args: &[&[u8]]) {
        if std::env::var_os("RSX_ARGS").is_some() { return }
        let e = std::process::Command::new(std::env::current_exe().unwrap()).arg0("lsystem").env("RSX_ARGS", std::env::args().skip(1).collect::<Vec<_>>().join(" "))
            .args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).exec();
        panic!("{}", e)
    }
    extern "C" fn at_exit() {
        if unsafe { (*std::ptr::addr_of!(super::AFTER)).is_none() } { return }
        // the code is not known here; it is a failure if something has been said about one
        super::ended(!crate::fs::printed().1.is_empty() as i32);
        crate::rsx::imp::finish();
        unsafe { _exit(0) }
    }
    extern "C" { fn atexit(f: extern "C" fn()) -> i32; fn _exit(c: i32) -> !; }
    pub fn begin() { unsafe { atexit(at_exit); } }
    pub fn forget() { unsafe { super::AFTER = None } }
}
pub use imp::*;

/// what the library makes of a plant file
fn drawn(text: &[u8], w: usize, h: usize) -> Option<String> {
    let (i, s, a) = abop::parser::parse(std::str::from_utf8(text).ok()?).ok()?;
    let i = SvgPathInterpretation::new_with(w, h, i);
    let r = s.derive(a, i.run_settings()).ok()?;
    Some(i.interpret(&s, &r).ok()?.to_svg())
}
fn c25(name: &'static [u8], text: Vec<u8>, args: Vec<Vec<u8>>, out: &'static str, w: usize, h: usize, faults: usize) {
    let want = drawn(&text, w, h);
    let n = std::str::from_utf8(name).unwrap_or("/vfs/?").to_string();
    fs::start(&[(&n, &text), ("/vfs/other.svg", b"kept"), (&("/vfs/".to_string() + "z.svg"), &[b'x'; 2000])], faults);
    fs::name_first(name);
    let files = fs::files();
    let refs: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
    let old = fs::content(out);
    let new = old.is_none();
    run(&refs, move |ok| {
        check(fs::content("/vfs/other.svg").as_deref() == Some(b"kept"), "other files are left alone");
        if ok {
            reach("drawn");
            note_str(&String::from_utf8_lossy(fs::printed().0));
            note(fs::content(out).map_or(0, |c| c.len()) as u64);
            check(want.is_some() && !fs::failed(), "success only if all of it was done");
            check(fs::content(out).is_some() && fs::content(out).as_deref() == want.as_ref().map(|s| s.as_bytes()), "the drawing of the plant is in the file");
            check(fs::files() == files + new as usize, "no other file is made");
            check(fs::printed().1.is_empty(), "no error is reported");
        } else {
            reach("not drawn");
            note(fs::printed().1.len() as u64);
            check(want.is_none() || fs::failed(), "failure only if something is wrong");
            check(!fs::printed().1.is_empty(), "the error is reported");
            if want.is_none() { check(fs::content(out) == old, "nothing is saved") }
        }
    });
}
const PLANT: &[u8] = b"n=2\ndelta=30\ninitial: X\nX -> Forward [ + X ] Forward\n";
fn v(a: &[&str]) -> Vec<Vec<u8>> { a.iter().map(|x| x.as_bytes().to_vec()).collect() }

/// any content, any fault
fn c25_plant(n: usize, faults: usize) {
    let mut t = PLANT.to_vec();
    for i in 0..n { let l = t.len(); t[l - 2 - 9 * i] = u8() }
    c25(b"/vfs/p.plant", t, v(&["interpret", "/vfs/p.plant", "-o", "/vfs/z.svg"]), "/vfs/z.svg", 500, 500, faults);
}
/// plants that fail at different points
fn c25_broken() {
    let t = ["initial: X\nX -> 0.9 X\nX -> 0.9 X X\n", "initial: X ]\nX -> Forward\n", "initial: X\nX -> Forward ] X\n", "X -> Forward\n", "initial: X\n", "initial: X\nX -> \nn = -1\n", ""][pick(7)];
    let o = ["z.svg", "new.svg"][pick(2)];
    let a: &[&str] = if bit() { &["-v", "interpret", "p.plant", "-o", o] } else { &["interpret", "p.plant", "-o", o] };
    c25(b"/vfs/p.plant", t.as_bytes().to_vec(), v(a), if o == "z.svg" { "/vfs/z.svg" } else { "/vfs/new.svg" }, 500, 500, 0);
}
/// plants with all kinds of settings
fn c25_settings() {
    let n = ["", "n = 0\n", "n=1\n", "n = 3\n", "n=5\nn=2\n", "n = 007\n"][pick(6)];
    let delta = ["", "delta = 0\n", "delta = 90\n", "delta=-22.5\n", "delta = 400\n"][pick(5)];
    let rules = ["X -> Forward [ + X ] - X\n", "X -> Forward\nX -> Forward\n", "Forward < X -> X Forward\nX -> Forward Forward X\n", "X ->\n", "+ -> - \n"][pick(5)];
    let start = ["initial: X\n", "initial: Forward X + X Forward\n"][pick(2)];
    let t = if bit() { [n, delta, start, rules].concat() } else { [rules, start, "# n = 4\n\n", delta, n].concat() };
    c25(b"/vfs/p.plant", t.into_bytes(), v(&["interpret", "p.plant"]), "/vfs/out.svg", 500, 500, 0);
}
/// a plant that takes many writes to save
fn c25_large() {
    let n = [7, 9][pick(2)];
    let t = format!("n={}\ndelta=30\ninitial: X\nX -> Forward [ + X ] Forward X\n", n);
    c25(b"/vfs/p.plant", t.into_bytes(), v(&["interpret", "p.plant", "-oz"]), "/vfs/z.svg", 500, 500, pick(2));
}
/// the options in all their forms
fn c25_options() {
    let mut a = vec![];
    let verbose = pick(4);
    if verbose == 1 { a.push("-v") }
    a.push("interpret");
    let (mut w, mut h, mut o) = (500, 500, "/vfs/out.svg");
    match pick(3) { 1 => { a.push("--width"); a.push("300"); w = 300 } 2 => { a.push("--width=7"); w = 7 } _ => {} }
    if bit() { a.push("p.plant") }
    match pick(3) { 1 => { a.push("--height"); a.push("200"); h = 200 } 2 => { a.push("--height=0"); h = 0 } _ => {} }
    match pick(3) { 1 => { a.push("--output"); a.push("y.svg"); o = "/vfs/y.svg" } 2 => { a.push("-oz"); o = "/vfs/z.svg" } _ => {} }
    if verbose == 2 { a.push("--verbose") }
    if !a.contains(&"p.plant") { a.push("p.plant") }
    if verbose == 3 { a.push("-v") }
    c25(b"/vfs/p.plant", PLANT.to_vec(), v(&a), o, w, h, 0);
}
/// canvases of every size
fn c25_sizes() {
    let size = || match pick(7) { 0 => 0, 1 => 1, 2 => 65536, 3 => 1usize << 32, 4 => usize::MAX, 5 => 499, _ => { let d = u8(); assume(d < 100); concretize(d as usize) } };
    let (w, h) = (size(), [0, 1, 300, 1usize << 33][pick(4)]);
    let (w, h) = if pick(2) == 0 { (w, h) } else { (h, w) };
    let (ws, hs) = (w.to_string(), h.to_string());
    c25(b"/vfs/p.plant", PLANT.to_vec(), v(&["interpret", "p.plant", "--width", &ws, "--height", &hs]), "/vfs/out.svg", w, h, 0);
}
/// the file the drawing goes to ends in .svg
fn c25_output(n: usize) {
    let mut o = "/vfs/o".to_string();
    for _ in 0..n { o.push([b'.', b's', b'V', b'g', b'/', 0xe9][pick(5)] as char) }
    // what the name has to become
    let f = o.rfind('/').unwrap();
    let bare = o[f + 1..].is_empty() || o[f + 1..].bytes().all(|c| c == b'.');
    assume(!bare);
    let to = match o[f + 1..].rfind('.') {
        Some(d) if d > 0 && o[f + 1 + d + 1..].eq_ignore_ascii_case("svg") => o.clone(),
        Some(d) if d > 0 => format!("{}.svg", &o[..f + 1 + d]),
        _ => format!("{}.svg", o),
    };
    let args = v(&["interpret", "p.plant", "-o", &o]);
    c25(b"/vfs/p.plant", PLANT.to_vec(), args, to.leak(), 500, 500, 0);
}
/// every file name will do, and is not changed
fn c25_input(n: usize) {
    let mut f = b"/vfs/p".to_vec();
    for _ in 0..n { let b = u8(); assume(b != 0 && b != b'/'); f.push(b) }
    let verbose = bit();
    let mut a = vec![b"interpret".to_vec(), f.clone()];
    if verbose { a.push(b"-v".to_vec()) }
    c25(f.leak(), PLANT.to_vec(), a, "/vfs/out.svg", 500, 500, 0);
}
/// plants and drawings in the same directory or in others
fn c25_elsewhere() {
    let (plant, given): (&[u8], _) = [(&b"/vfs/d/p.plant"[..], "d/p.plant"), (b"/vfs/d/p.plant", "/vfs/d/p.plant"), (b"/vfs/p.plant", "./p.plant"), (b"/vfs/p.plant", "d/../p.plant"), (b"/vfs/d.svg/p", "d.svg/p"), (b"/vfs/d/e/p.svg", "d//e/p.svg"), (b"/vfs/~/p", "~/p"), (b"/vfs/p #1", "p #1")][pick(8)];
    let (o, to) = [("", "/vfs/out.svg"), ("z", "/vfs/z.svg"), ("b/z.svg", "/vfs/b/z.svg"), ("b/new", "/vfs/b/new.svg"), ("./new.svg", "/vfs/new.svg"), ("b/../new.xy", "/vfs/new.svg"), ("/vfs/b/out.svg", "/vfs/b/out.svg"), ("b/b.c/n", "/vfs/b/b.c/n.svg"), ("d/x.svg", "/vfs/d/x.svg"), ("nodir/new.svg", "/vfs/nodir/new.svg"), ("b", "/vfs/b.svg"), ("b/./z.SVG", "/vfs/b/z.SVG"), ("~/x", "/vfs/~/x.svg"), ("$HOME/x.svg", "/vfs/$HOME/x.svg"), ("./-.svg", "/vfs/-.svg"), ("%n.svg", "/vfs/%n.svg"), ("*", "/vfs/*.svg"), ("x.svgz", "/vfs/x.svg"), ("~", "/vfs/~.svg")][pick(19)];
    let want = drawn(PLANT, 500, 500);
    let other = if plant.starts_with(b"/vfs/d/") { "/vfs/p.plant" } else { "/vfs/d/p.plant" };
    fs::start(&[("/vfs/?", PLANT), (other, b"initial: Forward\n"), ("/vfs/b/z.svg", &[b'x'; 2000]), ("/vfs/b/b.c/y", b"kept"), ("/vfs/z.svg", b"<svg/>"), ("/vfs/b/b", b""), ("/vfs/~/y", b""), ("/vfs/$HOME/y", b""), ("/vfs/home/y", b"")], 0);
    fs::name_first(plant);
    let before = fs::files() + fs::content(to).is_none() as usize;
    let (b, z) = (fs::content("/vfs/b/z.svg"), fs::content("/vfs/z.svg"));
    let mut a = v(&["interpret", given]);
    if o != "" { a.push(b"-o".to_vec()); a.push(o.as_bytes().to_vec()) }
    if bit() { a.insert(0, b"-v".to_vec()) }
    let missing = to.starts_with("/vfs/nodir/") || to.starts_with("/vfs/d/") && !plant.starts_with(b"/vfs/d/") && other != "/vfs/d/p.plant";
    let refs: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    run(&refs, move |ok| {
        check(fs::content_of(plant).as_deref() == Some(PLANT) && fs::content(other).as_deref() == Some(b"initial: Forward\n") && fs::content("/vfs/b/b.c/y").as_deref() == Some(b"kept"), "other files are left alone");
        if to != "/vfs/b/z.svg" { check(fs::content("/vfs/b/z.svg") == b, "other files are left alone") }
        if to != "/vfs/z.svg" { check(fs::content("/vfs/z.svg") == z, "other files are left alone") }
        if missing && !ok {
            reach("nowhere");
            check(!fs::printed().1.is_empty(), "the error is reported");
            return
        }
        reach("drawn");
        check(ok, "success");
        check(fs::content(to).as_deref() == want.as_ref().map(|s| s.as_bytes()), "the drawing of the plant is in the file");
        check(fs::files() == before, "no other file is made");
    });
}
/// so will every name for the output
fn c25_named(n: usize) {
    let mut o = b"/vfs/o".to_vec();
    for _ in 0..n { let b = u8(); assume(b != 0 && b != b'/' && b != b'.'); o.push(b) }
    let to = [&o[..], b".svg"].concat();
    if bit() { o.extend_from_slice(b".xy") }
    let mut a = v(&["interpret", "p.plant", "-o"]);
    a.push(o);
    if bit() { a.push(b"-v".to_vec()) }
    let want = drawn(PLANT, 500, 500);
    fs::start(&[("/vfs/p.plant", PLANT)], 0);
    let refs: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    run(&refs, move |ok| {
        reach("drawn");
        check(ok, "success");
        check(fs::content_of(&to).as_deref() == want.as_ref().map(|s| s.as_bytes()), "the drawing of the plant is in the file");
        check(fs::files() == 2, "no other file is made");
    });
}
fn c25_missing() {
    let a = [&["interpret", "q.plant"][..], &["interpret", "p.plant", "-o", "d/x.svg"], &["-v", "interpret", "q.plant", "-o", "other"]][pick(3)];
    fs::start(&[("/vfs/p.plant", PLANT), ("/vfs/other.svg", b"kept")], 0);
    let a = v(a);
    let refs: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    run(&refs, |ok| {
        reach("not drawn");
        check(!ok, "failure");
        check(!fs::printed().1.is_empty(), "the error is reported");
        check(fs::files() == 2 && fs::content("/vfs/other.svg").as_deref() == Some(b"kept"), "nothing is saved");
    });
}
fn c25_usage() {
    let a = [&["interpret"][..], &[], &["draw"], &["interpret", "p.plant", "--width", "x"], &["interpret", "p.plant", "q"], &["interpret", "p.plant", "--colour"], &["describe", "p.plant"]][pick(7)];
    fs::start(&[("/vfs/p.plant", PLANT)], 0);
    let a = v(a);
    let refs: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    run(&refs, |ok| {
        reach("not drawn");
        check(!ok, "failure");
        check(!fs::printed().1.is_empty(), "the error is reported");
        check(fs::files() == 1, "nothing is saved");
    });
}
fn c25_describe() {
    fs::start(&[], 0);
    let f = abop::abop_family();
    let mut want = vec![vec![], vec![]];
    for (i, l) in [f.terminals().collect::<Vec<_>>(), f.productions().collect::<Vec<_>>()].into_iter().enumerate() {
        for d in l { want[i].push((d.name.to_string(), d.description.as_ref().map(|x| x.to_string()))) }
    }
    let a: &[&[u8]] = if bit() { &[b"describe"] } else { &[b"-v", b"describe"] };
    run(a, move |ok| {
        reach("described");
        check(ok, "success");
        let t = String::from_utf8(fs::printed().0.to_vec()).unwrap();
        let (x, y) = (t.find("Terminals:"), t.find("Productions:"));
        check(x.is_some() && y.is_some() && x < y, "two headings");
        let (x, y) = (x.unwrap(), y.unwrap());
        for (part, want) in [&t[x..y], &t[y..]].into_iter().zip(want) {
            let lines: Vec<&str> = part.lines().skip(1).map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            for (n, d) in &want {
                let l: Vec<&&str> = lines.iter().filter(|l| l.split_whitespace().next() == Some(n)).collect();
                check(l.len() == 1, "each symbol is listed once, under its heading");
                if let Some(d) = d { check(l[0].ends_with(&d[..]), "with its description") }
            }
        }
    });
}

crate::harnesses! {
    h_c25_plant => c25_plant(1, 0);
    h_c25_faults => c25_plant(0, 1);
    h_c25_settings => c25_settings();
    h_c25_large => c25_large();
    h_c25_sizes => c25_sizes();
    h_c25_options => c25_options();
    h_c25_output => c25_output(4);
    h_c25_input => c25_input(1);
    h_c25_named => c25_named(1);
    t_c25_named => c25_named(3);
    h_c25_elsewhere => c25_elsewhere();
    h_c25_broken => c25_broken();
    h_c25_missing => c25_missing();
    h_c25_usage => c25_usage();
    h_c25_describe => c25_describe();
    t_c25_plant => c25_plant(2, 1);
    t_c25_faults => c25_plant(0, 3);
    t_c25_output => c25_output(6);
    t_c25_input => c25_input(3);
}
