//! Histories: what was computed, looked up, read or drawn before makes no difference to what comes after.
use crate::fs;
use crate::h_geom::{judge, path, points, tags, turtle, CMD, P2};
use crate::rsx::*;
use crate::util::*;
use rusty_systems::geometry::{Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{parser as plant, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionStore};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::{self, SystemFamily};
use rusty_systems::system::{self, RunSettings};

fn rule(k: usize, body: &[u32]) -> Rule {
    let pre = if pick(2) == 1 { Some(letters(1, k)) } else { None };
    Rule { pre, target: letter(k), post: None, body: body.to_vec() }
}
fn alike(a: &Rule, b: &Rule) -> bool { a.target == b.target && a.pre == b.pre && a.post == b.post }

/// deriving with one list of rules, then with another, and on other strings
fn c01_again() {
    let (r, q) = (rule(2, &[2, 1]), rule(2, &[]));
    let (s, t) = (letters(2, 2), letters(2, 2));
    for (r, s) in [(&r, &s), (&q, &t), (&r, &t), (&q, &s)] {
        let out = system::derive_once(pstr(s), &[r.production()]).unwrap();
        same(&codes(&out), &step(&[r.clone()], s), "one step after others");
    }
}
/// deriving from two systems in turn
fn c02_again() {
    let (x, y) = (System::new(), System::new());
    let rs = [Rule::ctx(&[1], letter(2), &[], &[2]), Rule::plain(1, &[1, 2])];
    let qs = [Rule::plain(letter(2), &[1, 1])];
    // the first is merged with nothing: it has a context
    for r in &rs { x.add_production(r.production()).unwrap(); }
    for r in &qs { y.add_production(r.production()).unwrap(); }
    let s = letters(2, 2);
    for (i, n) in [(0, 2), (1, 2), (0, 1), (0, 3), (1, 3)] {
        let (sys, r) = if i == 0 { (&x, &rs[..]) } else { (&y, &qs[..]) };
        let out = sys.derive(pstr(&s), RunSettings::for_max_iterations(n)).unwrap();
        let mut exp = s.clone();
        for _ in 0..n { exp = step(r, &exp) }
        same(&codes(&out), &exp, "n steps after others");
    }
}
/// a step that fails on the way makes the whole derivation fail, and only then
fn c02_error() {
    let sys = System::new();
    let mut p = Rule::plain(2, &[3]).production();
    let c = [0.9f32, 0.1, 1.0][pick(3)];
    p = { let mut q = Production::new(p.head().clone(), ProductionBody::try_with_chance(0.9, pstr(&[3])).unwrap()); q.add_body(ProductionBody::try_with_chance(c, pstr(&[3])).unwrap()); q };
    let list = [Rule::plain(1, &[2, 1]).production(), p.clone(), Rule::plain(3, &[]).production()];
    for r in &list { sys.add_production(r.clone()).unwrap(); }
    let s = letters(2, 4);
    let n = pick(4);
    let a = sys.derive(pstr(&s), RunSettings::for_max_iterations(n));
    let b = system::derive(pstr(&s), &list, RunSettings::for_max_iterations(n));
    let (has1, has2) = (s.contains(&1), s.contains(&2));
    let bad = c > 0.5 && (n > 0 && has2 || n > 1 && has1);
    if bad { reach("fails on the way") }
    check(a.is_err() == bad && b.is_err() == bad, "an error exactly if a step fails");
    let mut cur = Ok(pstr(&s));
    for _ in 0..n { cur = cur.and_then(|x| sys.derive_once(x)) }
    check(cur.is_err() == bad, "an error exactly if a step fails");
    if let (Ok(a), Ok(b), Ok(c)) = (a, b, cur) { reach("succeeds"); same(&codes(&a), &codes(&c), "n steps"); same(&codes(&b), &codes(&c), "n steps") }
}
/// one head against several strings
fn c03_again() {
    let r = Rule { pre: context(2, 2), target: letter(2), post: context(1, 2), body: vec![] };
    let h = r.head();
    let (s, t) = (letters(3, 2), letters(3, 2));
    let i = pick(3);
    for s in [&s, &t, &s] { check(h.matches(&pstr(s), i) == r.matches(s, i), "a match after others") }
    let mut p = pstr(&s[..2]);
    let before = h.matches(&p, 1);
    check(before == r.matches(&s[..2], 1), "a match after others");
    p.push_symbol(Symbol::from_code(t[2]));
    let g = [s[0], s[1], t[2]];
    check(h.matches(&p, 1) == r.matches(&g, 1), "a match in a string that has grown");
}
/// rules added between derivations
fn c04_again(nr: usize) {
    symbolic_rng();
    let sys = System::new();
    let mut heads: Vec<(Rule, Vec<u32>)> = vec![];
    let s = letters(2, 2);
    for n in 0..nr as u32 {
        let r = rule(2, &[100 + n]);
        if pick(2) == 1 { let _ = r.head().matches(&pstr(&s), 0); }
        sys.add_production(r.production()).unwrap();
        match heads.iter_mut().find(|h| alike(&h.0, &r)) {
            Some(h) => { reach("merged"); h.1.push(100 + n) }
            None => heads.push((r, vec![100 + n])),
        }
        let out = sys.derive_once(pstr(&s)).unwrap();
        check(out.len() == 2, "one symbol for one");
        for i in 0..2 {
            let o = out[i].code();
            match heads.iter().find(|h| h.0.matches(&s, i)) {
                None => check(o == s[i], "unmatched symbols are kept"),
                Some(h) => { let mut ok = false; for b in &h.1 { ok |= *b == o } check(ok, "the rules so far") }
            }
        }
    }
}
/// replacements added after a rule has been used: the shares change
fn c05_again() {
    symbolic_rng();
    let mut p = Rule::plain(1, &[100]).production();
    check(p.body().unwrap().string()[0].code() == 100, "the only body");
    p.add_body(ProductionBody::new(pstr(&[101])));
    let o = p.body().unwrap().string()[0].code();
    check(o == 100 || o == 101, "one of two");
    let third = [None, Some(0.5f32), Some(0.0)][pick(3)];
    p.add_body(match third { None => ProductionBody::new(pstr(&[102])), Some(c) => ProductionBody::try_with_chance(c, pstr(&[102])).unwrap() });
    let q = p.clone();
    let pair: Vec<(u32, u64)> = (0..2).map(|i| {
        let o = if i == 0 { &p } else { &q }.body().unwrap().string()[0].code();
        (o, (draw_at(ndraws() - 1) >> 9) as u64)
    }).collect();
    let share = |o: u32| match (third, o) { (None, _) => 1.0 / 3.0, (Some(c), 102) => c as f64, (Some(c), _) => (1.0 - c as f64) / 2.0 };
    let (a, b) = (pair[0], pair[1]);
    check(a.0 >= 100 && a.0 <= 102 && b.0 >= 100 && b.0 <= 102, "one of three");
    if a.0 == b.0 {
        reach("the same choice");
        let w = (share(concretize(a.0 as usize) as u32) * 8388608.0 + 200.0) as u64;
        check(a.1 <= b.1 + w && b.1 <= a.1 + w, "a body is picked by its share of the draws");
    }
}
/// numbers written in unusual ways
fn c06_words() {
    let t = ["inf", "-inf", "+infinity", "nan", "NaN", "INF", "1e400", "-1e400", "1e-400", "0.1e1", "1e0", "0000.5", "1.", "+.5", ".", "-0", "-0.0", "0x1", "1_0", "1,0", "0.30000000000000000000000001", "0.999999999999999999999999999", "1.00000001", "1.0000001", "0.50000001490116119384765625", "1e", "e1", "+", "1e+", "00", "5e-1", "05E-1", "infinite", "1f", "0.5f32", "\u{ff11}"];
    crate::h_derive::c06_text(t[pick(t.len())].to_string());
}
fn c06_empty() {
    let b = ProductionBody::empty();
    check(b.is_empty() && b.len() == 0 && b.string().is_empty() && b.chance().is_derived() && b.all_symbols_iter().next().is_none(), "the empty replacement");
    let c = u32();
    let p = Production::new(Rule::plain(c, &[]).head(), b);
    check(p.all_bodies().len() == 1 && p.body().unwrap().is_empty(), "a rule that erases");
    check(system::derive_once(pstr(&[c, c]), &[p]).unwrap().is_empty(), "a rule that erases");
}
/// many families at a time
fn c16_many(n: usize) {
    let at = [0, 1, 15, 16, 31, 32, 63, 64, n - 1][pick(9)];
    let way = pick(3);
    let mut all = vec![];
    let tag = if is_engine() { String::new() } else { round().to_string() };
    for i in 0..n {
        let f = || { let mut b = SystemFamily::define().with_terminal(format!("T{}", i).as_str(), None); if i % 2 == 0 { b = b.with_production("P", None) } b.build(format!("Fam{}{}", tag, i)).unwrap() };
        all.push(if way == 0 || way == 2 && i % 3 == 0 { family::register(f()).unwrap() } else { family::get_or_init_family(format!("Fam{}{}", tag, i), f) });
    }
    let b = u8();
    assume(b.is_ascii_digit());
    let name = format!("Fam{}{}{}", tag, at, unsafe { String::from_utf8_unchecked(vec![b]) });
    let k = if at == 0 { n } else { at * 10 + (b - b'0') as usize };
    check(family::family_exists(&name) == (k < n) && family::get_family(&name).is_some() == (k < n), "known exactly if registered");
    for i in [at, n - 1, 0] {
        let g = family::get_family(format!("Fam{}{}", tag, i)).unwrap();
        check(std::sync::Arc::ptr_eq(&g, &all[i]) && g.terminals().next().unwrap().name == format!("T{}", i) && g.productions().count() == (i + 1) % 2, "the family registered under that name");
    }
    check(SystemFamily::define().register(format!("Fam{}{}", tag, at)).is_err(), "a name is taken once");
}
/// what a system knows, asked for in between
fn c07_again() {
    let (x, y) = (System::new(), System::new());
    let names = ["A", "B", "C"];
    let mut known = [[false; 3]; 2];
    for _ in 0..3 {
        let (i, k) = (pick(2), pick(3));
        let sys = [&x, &y][i];
        if bit() { sys.add_symbol(names[k]).unwrap(); } else { sys.add_production(format!("A -> {}", names[k]).as_str()).unwrap(); known[i][0] = true }
        known[i][k] = true;
        for (s, kn) in [&x, &y].iter().zip(&known) {
            check(s.symbol_len() == kn.iter().filter(|k| **k).count(), "exactly the symbols added so far");
            for j in 0..3 { check(s.get_symbol(names[j]).is_some() == kn[j], "known exactly if it was added to this system") }
        }
    }
}
/// names asked for in turn
fn c08_again() {
    let n: Vec<String> = (0..3).map(|_| { let b = u8(); assume(b.is_ascii_graphic()); unsafe { String::from_utf8_unchecked(vec![b'n', b]) } }).collect();
    // unknown codes and names are asked for before they exist
    check(get_name(3_000_000_000).is_none(), "no such code");
    let c: Vec<u32> = n.iter().map(|n| get_code(n).unwrap()).collect();
    for i in 0..3 {
        check(get_name(c[i]).as_deref() == Some(&n[i]) && get_code(&n[i]).unwrap() == c[i], "a name keeps its code");
        for j in 0..i { check((c[i] == c[j]) == (n[i] == n[j]), "one code for one name") }
    }
    check(Symbol::build(&n[0]).unwrap().code() == c[0] && Symbol::from_code(c[1]).name().as_deref() == Some(&n[1]), "symbols know their name");
}
/// one text after another
fn c11_again(n: usize) {
    let (a, b) = (utf8(n), utf8(n));
    crate::h_parse::c11(a.clone());
    crate::h_parse::c11(b);
    crate::h_parse::c11(a);
}
fn c14_again(n: usize) {
    let (a, b) = (utf8(n), utf8(n));
    crate::h_parse::c14(a);
    crate::h_parse::c14(b);
}
/// printing a string that changes
fn c12_again() {
    let n = ["A", "Bb", "+", "é"];
    let mut s = ProductionString::new();
    let mut names: Vec<&str> = vec![];
    for _ in 0..3 {
        let t = s.clone();
        let k = pick(4);
        s.push_symbol(Symbol::build(n[k]).unwrap());
        check(t.to_string() == names.join(" "), "a copy stays as it was");
        names.push(n[k]);
        check(s.to_string() == names.join(" "), "the names of the string as it is now");
        check(parser::parse_prod_string(&s.to_string()).unwrap() == s, "read back");
    }
}
/// one rule after another
fn c13_again() {
    let texts = ["A -> B", "A -> 0.5 B", "C < A -> B C", "A > C ->", "A B -> C", "A -> 0.25 C D", "-> B", "C < A > B -> A A"];
    // the parts, written down: left, target, right, chance, replacement
    let parts: [Option<(&str, &str, &str, Option<f32>, &str)>; 8] = [Some(("", "A", "", None, "B")), Some(("", "A", "", Some(0.5), "B")), Some(("C", "A", "", None, "B C")), Some(("", "A", "C", None, "")), None,
        Some(("", "A", "", Some(0.25), "C D")), None, Some(("C", "A", "B", None, "A A"))];
    for _ in 0..3 {
        let i = pick(8);
        let p = parser::parse_production(texts[i]);
        check(p.is_ok() == parts[i].is_some(), "a rule or not");
        if let (Ok(p), Some(w)) = (p, parts[i]) {
            let o = |s: Option<&ProductionString>| s.map(|s| s.to_string()).unwrap_or_default();
            let b = &p.all_bodies()[0];
            check(o(p.head().pre_context()) == w.0 && p.head().target().name().as_deref() == Some(w.1) && o(p.head().post_context()) == w.2, "the head");
            check(b.chance().is_user_set() == w.3.is_some() && b.chance().unwrap_or(-1.0) == w.3.unwrap_or(-1.0) && b.string().to_string() == w.4 && p.all_bodies().len() == 1, "the body");
        }
    }
}
/// one plant file after another
fn c15_again() {
    let texts = ["n = 4\ninitial: X\nX -> X X", "delta = 40\ninitial: Forward\nX ->", "n = 7\ndelta = 1.5\ninitial: X X\nX -> Forward\nX -> Move", "n = 3\n", "initial: X\nY < X -> X"];
    let want: [Option<(usize, f32, &str, usize, usize)>; 5] = [Some((4, 5.0, "X", 1, 7)), Some((2, 40.0, "Forward", 1, 7)), Some((7, 1.5, "X X", 1, 7)), None, Some((2, 5.0, "X", 1, 8))];
    for _ in 0..3 {
        let i = pick(5);
        let r = plant::parse(texts[i]);
        check(r.is_ok() == want[i].is_some(), "a plant or not");
        if let (Ok((t, s, a)), Some(w)) = (r, want[i]) {
            check(t.n() == w.0 && t.delta() == w.1 && a.to_string() == w.2 && s.production_len() == w.3 && s.symbol_len() == w.4, "what this file says");
        }
    }
}
/// two strings and two angles, with the same turtle and another
fn c18_again() {
    let sys = AbopTurtleInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let t = [AbopTurtleInterpretation::new(1, 90.0), AbopTurtleInterpretation::new(1, 30.0)];
    let base = [[0, 4, 2, 0, 5, 3, 0], [0, 2, 1, 0, 4, 0, 3]];
    for _ in 0..2 {
        let (i, j) = (pick(2), pick(2));
        let mut c = base[j].to_vec();
        c.push(pick(6));
        c.push(0);
        let s = ProductionString::from(c.iter().map(|x| syms[*x]).collect::<Vec<_>>());
        judge(t[i].interpret(&sys, &s), turtle(&c, t[i].delta()));
    }
}
/// the box follows the points
fn c19_again() {
    let p: Vec<P2> = (0..3).map(|_| (finite(), finite())).collect();
    let mut a = path(&p[..1]);
    let tight = |a: &Path, p: &[P2]| {
        let b = a.bounds().unwrap();
        let (mut l, mut r, mut d, mut u, mut inside) = (false, false, false, false, true);
        for (x, y) in p {
            inside &= b.min_x <= *x && *x <= b.max_x && b.min_y <= *y && *y <= b.max_y;
            l |= *x == b.min_x;
            r |= *x == b.max_x;
            d |= *y == b.min_y;
            u |= *y == b.max_y;
        }
        check(inside && l && r && d && u, "the box around the points there are now");
    };
    check(Path::new().bounds().is_none(), "no box without points");
    tight(&a, &p[..1]);
    a.push(Point::new(p[1].0, p[1].1));
    tight(&a, &p[..2]);
    let mut b = a.clone();
    b.push(Point::new(p[2].0, p[2].1));
    tight(&b, &p);
    tight(&a, &p[..2]);
    let mut v = vec![a];
    check(v.bounds().unwrap().min_x <= p[1].0, "the box around the paths");
    v.push(path(&p[2..]));
    let c = v.bounds().unwrap();
    check(c.min_x <= p[2].0 && c.max_x >= p[2].0 && c.min_y <= p[2].1 && c.max_y >= p[2].1, "the box around the paths there are now");
    tight(&(path(&p[..2]) + Vector::zero()), &p[..2]);
}
fn c19_moved() {
    // moved and grown after it was measured
    let x = coord();
    let a = path(&[(0.0, 1.0), (4.0, x)]);
    let b = a.bounds().unwrap();
    let (dx, dy) = (8.0, -16.0);
    let mut m = a + Vector::new(dx, dy);
    let c = m.bounds().unwrap();
    check(c.min_x == b.min_x + dx && c.max_x == b.max_x + dx && c.min_y == b.min_y + dy && c.max_y == b.max_y + dy, "the box moves along");
    check((c.com.x() - b.com.x() - dx).abs() <= 1e-9 && (c.com.y() - b.com.y() - dy).abs() <= 1e-9, "so does the centre of mass");
    m.push(Point::new(100.0, 3.0));
    let c = m.bounds().unwrap();
    check(c.max_x == 100.0 && c.max_y >= 3.0 && c.min_x == b.min_x + dx, "and grows");
    check((c.com.x() - (dx + 4.0 + dx + 100.0) / 3.0).abs() <= 1e-9, "and the centre of mass follows");
}
/// one drawing after another
fn c20_again() {
    let x = coord();
    let all = [vec![vec![(0.0, 0.0), (x, 3.0)]], vec![vec![(0.0, 0.0), (2.0, 3.0)], vec![(1.0, 8.0)]], vec![], vec![vec![(-5.0, 2.0), (3.0, x), (0.0, 0.0)]]];
    let sizes = [(500, 500), (30, 20)];
    for _ in 0..2 {
        let (w, h) = sizes[pick(2)];
        crate::h_geom::c20_judge(w, h, all[pick(4)].clone());
    }
}
/// the same elements written again, and after others
fn c21_again() {
    let x = finite();
    let p = [(1.5, 2.0), (x, 7.0)];
    let e = SvgPath::from(path(&p));
    let shown = |e: &SvgPath, p: &[P2]| {
        let t = tags(&e.to_svg()).unwrap();
        let g = points(t[0].get("d").unwrap()).unwrap();
        check(g.len() == p.len() && g.iter().zip(p).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "the points of this path");
    };
    shown(&e, &p);
    shown(&SvgPath::from(path(&[(9.0, x)])), &[(9.0, x)]);
    shown(&SvgPath::from(path(&[(2.5, 2.0), (x, 8.0)])), &[(2.5, 2.0), (x, 8.0)]);
    shown(&e, &p);
    shown(&e.clone(), &p);
    let c = SvgCircle::build(Point::new(2.0, x), 4.0).unwrap();
    let round = |c: &SvgCircle, r: f64, fill: Option<&str>| {
        let t = tags(&c.to_svg()).unwrap();
        check(t[0].num("cx") == Some(2.0) && t[0].num("cy") == Some(x) && t[0].num("r") == Some(r) && t[0].get("fill") == fill, "this circle");
    };
    round(&c, 4.0, None);
    let mut d = c.clone();
    d.radius = 8.0;
    d.decorations.fill = Some("red".to_string());
    round(&d, 8.0, Some("red"));
    round(&c, 4.0, None);
}
/// paths are changed one by one
fn c22_again() {
    let (x, y) = (finite(), finite());
    let a = path(&[(1.0, 2.0), (x, y)]);
    let mut b = a.clone();
    b.push(Point::new(y, x));
    let c = a.clone() + Vector::new(1.0, 1.0);
    check(a.len() == 2 && b.len() == 3 && c.len() == 2, "each has its own points");
    check(a[1].x() == x && b[1].x() == x && b[2].y() == x && a.get(2).is_none() && c[1].x() == x + 1.0 && a[0].x() == 1.0, "each has its own points");
    let mut d = c.clone();
    d.push(Point::new(x, x));
    check(d[2].x() == x && d[0].x() == 2.0 && c.get(2).is_none(), "each has its own points");
    let e: Path = d.iter().cloned().chain(a.iter().cloned()).collect();
    check(e.len() == 5 && e[2].x() == x && e[3].x() == 1.0, "collected from several");
}
/// files that change between reads
fn c24_again() {
    let k = u8();
    assume(k >= b'0' && k <= b'9');
    let texts: [&[u8]; 3] = [&[b"n = ", &[k][..], b"\ninitial: X\nX ->"].concat(), b"n = 3\ninitial: X\nX -> X", b"n = 4"];
    for _ in 0..2 {
        let i = pick(3);
        fs::start(&[("/vfs/a.plant", texts[i]), ("/vfs/b.plant", b"n = 8\ninitial: X\nX ->")], 0);
        let r = plant::parse_file("/vfs/a.plant");
        check(r.is_err() == (i == 2), "a plant or not");
        if let Ok((t, _, _)) = r { check(t.n() == if i == 0 { (k - b'0') as usize } else { 3 }, "what the file says now") }
        check(plant::parse_file("/vfs/b.plant").unwrap().0.n() == 8, "what the other file says");
    }
}
/// equality of strings and rules that change
fn c26_again() {
    let (a, b) = (u32(), u32());
    let (mut x, mut y) = (pstr(&[1, a]), pstr(&[1, b]));
    check((x == y) == (a == b), "equal exactly with equal symbols");
    let h = crate::h_symbols::digest(&x);
    x.push_symbol(Symbol::from_code(7));
    check(x != y, "not equal any more");
    y.push_symbol(Symbol::from_code(7));
    check((x == y) == (a == b), "equal exactly with equal symbols");
    if a == b { reach("equal"); check(crate::h_symbols::digest(&x) == crate::h_symbols::digest(&y), "equal strings hash alike") }
    check(crate::h_symbols::digest(&pstr(&[1, a])) == h, "equal strings hash alike");
}
/// symbols of a rule that grows
fn c27_again() {
    let c: Vec<u32> = (0..5).map(|_| u32()).collect();
    let mut p = Rule::ctx(&c[..1], c[1], &[], &c[2..3]).production();
    let list = |p: &Production| p.all_symbols_iter().map(|s| s.code()).collect::<Vec<_>>();
    same(&list(&p), &c[..3], "every symbol in order");
    let q = p.clone();
    p.add_body(ProductionBody::new(pstr(&c[3..4])));
    same(&list(&p), &c[..4], "every symbol in order, the new ones too");
    p.merge(Rule::plain(9, &c[4..]).production());
    same(&list(&p), &c, "every symbol in order, the new ones too");
    same(&list(&q), &c[..3], "a copy stays as it was");
}
/// strings that change one by one
fn c28_again() {
    let c: Vec<u32> = (0..4).map(|_| u32()).collect();
    let mut a = pstr(&c[..2]);
    let mut b = a.clone();
    a.push_symbol(Symbol::from_code(c[2]));
    same(&codes(&b), &c[..2], "a copy stays as it was");
    b.push_symbol(Symbol::from_code(c[3]));
    same(&codes(&a), &c[..3], "the original has its own symbols");
    check(b.len() == 3 && b[2].code() == c[3] && b[1].code() == c[1], "the copy has its own symbols");
    let mut e = ProductionString::empty();
    check(e.is_empty() && e.iter().next().is_none(), "empty");
    e.push_symbol(Symbol::from_code(c[0]));
    check(e.len() == 1 && !e.is_empty() && e[0].code() == c[0] && e.iter().count() == 1, "no longer empty");
    check(ProductionString::empty().is_empty() && ProductionString::new().is_empty() && ProductionString::default().is_empty(), "the empty string stays empty");
}

crate::harnesses! {
    h_c01_again => c01_again();
    h_c02_again => c02_again();
    h_c02_error => c02_error();
    h_c06_words => c06_words();
    h_c06_empty => c06_empty();
    h_c16_many => c16_many(70);
    h_c03_again => c03_again();
    h_c04_again => c04_again(2);
    t_c04_again => c04_again(3);
    h_c05_again => c05_again();
    h_c07_again => c07_again();
    h_c08_again => c08_again();
    h_c11_again => c11_again(2);
    h_c12_again => c12_again();
    h_c13_again => c13_again();
    h_c14_again => c14_again(2);
    h_c15_again => c15_again();
    h_c18_again => c18_again();
    h_c19_again => c19_again();
    h_c19_moved => c19_moved();
    h_c20_again => c20_again();
    h_c21_again => c21_again();
    h_c22_again => c22_again();
    h_c24_again => c24_again();
    h_c26_again => c26_again();
    h_c27_again => c27_again();
    h_c28_again => c28_again();
}
