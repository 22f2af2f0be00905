use crate::rsx::*;
use crate::util::*;
use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

const AB: [&str; 4] = ["Alpha", "b", "C3", "d-"];

// ---- C07: what a system knows after productions were added --------------------------------

fn subset(all: &[&str], max: usize) -> Vec<String> {
    let n = pick(max + 1);
    (0..n).map(|_| all[pick(all.len())].to_string()).collect()
}
fn c07(nprod: usize, all: &[&str], ctx: usize, body: usize) {
    let sys = System::new();
    let mut seen: Vec<String> = vec![];
    let mut heads: Vec<(Vec<String>, String, Vec<String>)> = vec![];
    for _ in 0..nprod {
        let pre = subset(all, ctx);
        let target = all[pick(all.len())].to_string();
        let post = subset(all, ctx);
        let body = subset(all, body);
        let mut t = String::new();
        if !pre.is_empty() { t.push_str(&pre.join(" ")); t.push_str(" < ") }
        t.push_str(&target);
        if !post.is_empty() { t.push_str(" > "); t.push_str(&post.join(" ")) }
        t.push_str(" -> ");
        t.push_str(&body.join(" "));
        sys.add_production(t.as_str()).unwrap();
        for x in pre.iter().chain(post.iter()).chain(body.iter()).chain(Some(&target)) { if !seen.contains(x) { seen.push(x.clone()) } }
        if !heads.iter().any(|h| h.0 == pre && h.1 == target && h.2 == post) { heads.push((pre, target, post)) }
    }
    check(sys.symbol_len() == seen.len(), "exactly the symbols of the productions");
    check(sys.production_len() == heads.len(), "one rule per head");
    for a in all {
        let has = sys.get_symbol(a);
        let known = seen.iter().any(|x| x == a);
        if known { reach("known") } else { reach("unknown") }
        check(has.is_some() == known, "a symbol is known exactly if some production uses it");
        if let Some(s) = has { check(s.name().as_deref() == Some(*a), "the symbol of that name") }
    }
}
fn c07_codes(n: usize) {
    // symbols given by code
    let sys = System::new();
    let c: Vec<u32> = (0..n).map(|_| u32()).collect();
    let head = ProductionHead::build(Some(pstr(&c[0..1])), Symbol::from_code(c[1]), Some(pstr(&c[2..3]))).unwrap();
    sys.add_production(Production::new(head, ProductionBody::new(pstr(&c[3..])))).unwrap();
    let mut d = 0;
    for i in 0..n { if !c[..i].contains(&c[i]) { d += 1 } }
    check(sys.symbol_len() == d, "exactly the symbols of the production");
    let extra = u32();
    sys.add_symbol(Symbol::from_code(extra)).unwrap();
    check(sys.symbol_len() == if c.contains(&extra) { d } else { d + 1 }, "adding a symbol twice changes nothing");
    check(sys.production_len() == 1, "adding a symbol adds no rule");
}
fn c07_bodies(nb: usize) {
    // rules that have several bodies already when they are added
    let sys = System::new();
    let mut seen: Vec<u32> = vec![];
    let mut adds = 0;
    for _ in 0..2 {
        let t = u32();
        let mut p = Production::new(ProductionHead::build(None, Symbol::from_code(t), None).unwrap(), ProductionBody::new(pstr(&[u32()])));
        for _ in 0..pick(nb) { p.add_body(ProductionBody::new(pstr(&[u32()]))) }
        let all: Vec<Symbol> = p.all_symbols();
        for x in &all { seen.push(x.code()) }
        let b = p.all_bodies().len();
        adds += b;
        sys.add_production(p).unwrap();
    }
    if adds > 2 { reach("several bodies") }
    let mut d = 0;
    for i in 0..seen.len() { if !seen[..i].contains(&seen[i]) { d += 1 } }
    check(sys.symbol_len() == d, "exactly the symbols of every body");
}
fn c07_fail() {
    let sys = System::new();
    sys.add_production("Alpha < b -> C3 b").unwrap();
    let bad = ["", "   ", "x1", "x2 y", "-> y", "   -> y z", "x3 y -> z", "x4 < -> z", "< > -> q", "x5 > x6 -> 1.5 z", "x7 > -> -1 y", "x8 < x9 x10 > x11 -> y", "x12 > > y"];
    let t = bad[pick(bad.len())];
    let r = sys.add_production(t);
    if t == "x7 > -> -1 y" || t == "x5 > x6 -> 1.5 z" { reach("bad chance") }
    check(r.is_err(), "not a production");
    check(sys.production_len() == 1 && sys.symbol_len() == 3, "a rejected production changes nothing");
    for a in ["x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "y", "z", "q", "Alpha2"] { check(sys.get_symbol(a).is_none(), "a rejected production registers no symbol") }
    check(sys.add_symbol("  ").is_err() && sys.symbol_len() == 3, "a blank symbol is rejected");
    let s = sys.add_symbol(" New ").unwrap();
    check(sys.get_symbol("New") == Some(s) && sys.symbol_len() == 4, "a symbol can be added by name");
    check(sys.get_symbol("New2").is_none(), "others are not known");
}

fn c07_many(n: usize) {
    // a system that has grown large; one name that may or may not be known
    let sys = System::new();
    for i in 0..n {
        if i % 3 == 0 { sys.add_symbol(format!("s{:03}", i)).unwrap(); }
        else { sys.add_production(format!("s{:03} < T > s{:03} -> 0.001 s{:03} s{:03}", i, i, i, i).as_str()).unwrap(); }
    }
    let t = if n > 1 { 1 } else { 0 };
    check(sys.symbol_len() == n + t, "exactly the symbols added");
    check(sys.production_len() == n - (n + 2) / 3, "the rules added");
    let d: Vec<u8> = (0..3).map(|_| { let d = u8(); assume(d.is_ascii_digit()); d }).collect();
    let name = unsafe { String::from_utf8_unchecked(vec![b's', d[0], d[1], d[2]]) };
    let i = (d[0] - b'0') as usize * 100 + (d[1] - b'0') as usize * 10 + (d[2] - b'0') as usize;
    let got = sys.get_symbol(&name);
    if got.is_some() { reach("known") } else { reach("unknown") }
    check(got.is_some() == (i < n), "a symbol is known exactly if it was added");
    if let Some(s) = got { check(s.name().as_deref() == Some(&name), "the symbol of that name") }
    let len = sys.symbol_len();
    sys.add_symbol(name.as_str()).unwrap();
    check(sys.symbol_len() == len + (i >= n) as usize, "adding a symbol twice changes nothing");
}
fn c07_wide(n: u32) {
    // a rule with long contexts and replacements, all of different symbols but one
    let sys = System::new();
    let x = if n < 100 { u32() } else { [1, 5, 10000, 9999 + n, 20000, 19999 + n, 30000, 39999 + n, 40000 + n][pick(9)] };
    let at = [0, n - 1][pick(2)];
    let part = |k: u32| -> Vec<u32> { (0..n).map(|i| if i == at && k == 2 { x } else { k * 10000 + i }).collect() };
    let mut p = Production::new(ProductionHead::build(Some(pstr(&part(1))), Symbol::from_code(5), Some(pstr(&part(2)))).unwrap(), ProductionBody::new(pstr(&part(3))));
    p.add_body(ProductionBody::new(pstr(&part(4))));
    sys.add_production(p).unwrap();
    let known = x == 5 || (1..5).any(|k| x >= k * 10000 && x < k * 10000 + n && !(k == 2 && x == 20000 + at));
    check(sys.symbol_len() == 4 * n as usize + !known as usize, "exactly the symbols of a long rule");
}

// ---- C08: names and codes -----------------------------------------------------------------

fn c08_two(a: String, b: String) {
    let (ca, cb) = (get_code(&a), get_code(&b));
    let (ta, tb) = (a.trim(), b.trim());
    check(ca.is_err() == ta.is_empty(), "only blank names are rejected");
    check(cb.is_err() == tb.is_empty(), "only blank names are rejected");
    if let (Ok(ca), Ok(cb)) = (&ca, &cb) {
        let same = ta == tb;
        if same { reach("same name") } else { reach("different names") }
        if same && a != b { reach("trimmed") }
        check((ca == cb) == same, "equal codes exactly for equal names");
        check(get_name(*ca).as_deref() == Some(ta), "the name of the code");
        check(get_name(*cb).as_deref() == Some(tb), "the name of the code");
        check(get_code(&a).ok() == Some(*ca), "a code never changes");
        let s = Symbol::build(&a).unwrap();
        check(s.code() == *ca && s.to_string() == ta && s.name().as_deref() == Some(ta), "the symbol of the name");
        check(Symbol::try_from(a.as_str()).unwrap() == s && Symbol::try_from(a.clone()).unwrap() == s && a.parse::<Symbol>().unwrap() == s, "every way to make a symbol agrees");
        check((s == Symbol::build(&b).unwrap()) == same, "equal symbols exactly for equal names");
    } else { reach("blank") }
}
fn c08_code() {
    // arbitrary codes: only those handed out have a name
    let names = ["one", "two", "three"];
    let codes: Vec<u32> = names.iter().map(|n| get_code(n).unwrap()).collect();
    check(codes[0] != codes[1] && codes[1] != codes[2] && codes[0] != codes[2], "distinct codes");
    let c = u32();
    let n = get_name(c);
    let s = Symbol::try_from(c);
    match codes.iter().position(|x| *x == c) {
        Some(i) => { reach("known code"); check(n.as_deref() == Some(names[i]) && s.is_ok() && s.unwrap().code() == c, "the name of a known code") }
        None => { reach("unknown code"); check(n.is_none() && s.is_err() && Symbol::from_code(c).name().is_none(), "no name for an unknown code") }
    }
}
fn c08_many(n: usize) {
    // many names, then one that may or may not be one of them
    let mut codes = vec![];
    for i in 0..n { codes.push(get_code(&format!("n{:02}", i)).unwrap()) }
    let (a, b) = (u8(), u8());
    assume(a >= b'0' && a <= b'9' && b >= b'0' && b <= b'9');
    let name = unsafe { String::from_utf8_unchecked(vec![b'n', a, b]) };
    let c = get_code(&name).unwrap();
    let i = ((a - b'0') * 10 + b - b'0') as usize;
    let mut want = false;
    for (j, k) in codes.iter().enumerate() { if *k == c { check(j == i, "the code of that name"); want = true } }
    check(want == (i < n), "old names keep their code, new ones get a new one");
    for (j, k) in codes.iter().enumerate() { check(get_name(*k) == Some(format!("n{:02}", j)), "no name is lost") }
}
fn c08_crowd(n: usize) {
    budget(1_000_000_000);
    // hundreds of names: codes stay apart and names stay found
    let mut codes = vec![];
    for i in 0..n { codes.push(get_code(&format!("m{}", i)).unwrap()) }
    let i = [0, 1, 127, 128, 255, 256, 257, n - 1][pick(8)].min(n - 1);
    let a = u8();
    assume(a.is_ascii_alphanumeric());
    let name = unsafe { String::from_utf8_unchecked(vec![a]) } + &i.to_string();
    let c = get_code(&name).unwrap();
    check((c == codes[i]) == (a == b'm'), "equal codes exactly for equal names");
    check(codes.iter().enumerate().all(|(j, k)| j == i || *k != c), "different codes for different names");
    check(get_name(c).as_deref() == Some(&name) && get_name(codes[i]) == Some(format!("m{}", i)) && get_name(codes[n - 1]) == Some(format!("m{}", n - 1)), "no name is lost");
    check(get_code(&format!("m{}", n - 1)).unwrap() == codes[n - 1] && get_code("m0").unwrap() == codes[0], "old names keep their code");
}
fn c08_long(n: usize) {
    // long names that differ in one arbitrary byte
    let n = if pick(3) == 0 { 600 } else { n };
    let base: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let at = [0, 1, 15, 16, 31, 32, 63, 64, n - 2, n - 1, 127, 128, 255, 256][pick(if n > 257 { 14 } else { 10 })].min(n - 1);
    let ch = u8();
    assume(ch.is_ascii_graphic());
    let mut o = base.clone().into_bytes();
    let eq = o[at] == ch;
    o[at] = ch;
    let o = unsafe { String::from_utf8_unchecked(o) };
    let (x, y) = (get_code(&base).unwrap(), get_code(&o).unwrap());
    check((x == y) == eq, "long names: equal codes exactly for equal names");
    check(get_name(x).as_deref() == Some(&base) && get_name(y).as_deref() == Some(&o), "long names are kept");
}

// ---- C26: equality and hashing ------------------------------------------------------------

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
pub fn digest<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec::default(); t.hash(&mut r); r.0 }
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut e = true;
    for i in 0..a.len() { e &= a[i] == b[i] }
    e
}
fn c26_symbol() {
    let (a, b) = (u32(), u32());
    let (x, y) = (Symbol::from_code(a), Symbol::from_code(b));
    check((x == y) == (a == b), "symbols are equal exactly with equal codes");
    if x == y { reach("equal"); check(bytes_eq(&digest(&x), &digest(&y)), "equal symbols hash alike") }
}
fn c26_string(max: usize) {
    let (a, b) = (pick(max + 1), pick(max + 1));
    let (a, b): (Vec<u32>, Vec<u32>) = ((0..a).map(|_| u32()).collect(), (0..b).map(|_| u32()).collect());
    let (x, y) = (pstr(&a), pstr(&b));
    let mut same = a.len() == b.len();
    if same { for i in 0..a.len() { same &= a[i] == b[i] } }
    check((x == y) == same, "strings are equal exactly with equal symbols in order");
    check(y.clone() == y, "a clone is equal");
    if x == y { reach("equal"); check(bytes_eq(&digest(&x), &digest(&y)), "equal strings hash alike") }
}
fn c26_long(n: usize) {
    // long strings that differ in at most one symbol
    let a: Vec<u32> = (0..n as u32).collect();
    let mut b = a.clone();
    let at = [0, 1, 7, 8, 63, 64, n - 1][pick(7)];
    b[at] = u32();
    let short = pick(2) == 1;
    if short { b.truncate(n - 1) }
    let same = !short && b[at] == at as u32;
    let (x, y) = (pstr(&a), pstr(&b));
    check((x == y) == same, "long strings are equal exactly with equal symbols in order");
    let head = |l: &[u32], r: &[u32]| ProductionHead::build(Some(pstr(l)), Symbol::from_code(1), Some(pstr(r))).unwrap();
    for (h, k) in [(head(&a, &a), head(&a, &b)), (head(&a, &a), head(&b, &a))] {
        check((h == k) == same, "long heads are equal exactly with equal parts");
        if same { reach("equal"); check(bytes_eq(&digest(&h), &digest(&k)) && bytes_eq(&digest(&x), &digest(&y)), "equal long heads hash alike") }
    }
}
fn c26_head(ctx: usize, k: usize) {
    let r: Vec<Rule> = (0..2).map(|i| Rule { pre: context(ctx, k), target: letter(k), post: context(ctx, k), body: vec![100 + i] }).collect();
    let same = r[0].target == r[1].target && r[0].pre == r[1].pre && r[0].post == r[1].post;
    let (x, y) = (r[0].head(), r[1].head());
    check((x == y) == same, "heads are equal exactly with equal target and contexts");
    let (p, q) = (r[0].production(), r[1].production());
    check((p == q) == same, "productions are equal exactly with equal heads");
    if same { reach("equal"); check(bytes_eq(&digest(&x), &digest(&y)) && bytes_eq(&digest(&p), &digest(&q)), "equal heads and productions hash alike") }
    // more replacements make no difference
    let mut q = q;
    for i in 0..1 + pick(2) { q.add_body(ProductionBody::try_with_chance(0.25, pstr(&[7 + i as u32])).unwrap()) }
    check((p == q) == same, "productions are equal exactly with equal heads");
    if same { reach("equal with other bodies"); check(bytes_eq(&digest(&p), &digest(&q)), "equal productions hash alike") }
}

// ---- C27: iterating over symbols ----------------------------------------------------------

fn c27(ctx: usize, nb: usize, body: usize) {
    let any = |n: usize| -> Vec<u32> { (0..n).map(|_| u32()).collect() };
    let pre = match pick(ctx + 2) { 0 => None, n => Some(any(n - 1)) };
    let post = match pick(ctx + 2) { 0 => None, n => Some(any(n - 1)) };
    let r = Rule { pre, target: u32(), post, body: vec![] };
    let bodies: Vec<Vec<u32>> = (0..1 + pick(nb)).map(|_| any(pick(body + 1))).collect();
    let mut p = Production::new(r.head(), ProductionBody::new(pstr(&bodies[0])));
    for b in &bodies[1..] { p.add_body(ProductionBody::new(pstr(b))) }
    let mut exp = r.pre.clone().unwrap_or_default();
    exp.push(r.target);
    exp.extend(r.post.clone().unwrap_or_default());
    let got: Vec<u32> = r.head().all_symbols_iter().map(|s| s.code()).collect();
    same(&got, &exp, "head: left context, target, right context");
    for b in &bodies { exp.extend(b) }
    let got: Vec<u32> = p.all_symbols_iter().map(|s| s.code()).collect();
    same(&got, &exp, "production: head, then every body in order");
    let got: Vec<Symbol> = p.all_symbols();
    same(&got.iter().map(|s| s.code()).collect::<Vec<_>>(), &exp, "collected in the same order");
    for (b, x) in bodies.iter().zip(p.all_bodies()) {
        let got: Vec<u32> = x.all_symbols_iter().map(|s| s.code()).collect();
        same(&got, b, "body: its string");
    }
}
fn c27_merge(nb: usize) {
    // merging keeps the bodies of both, in order
    let (m, n) = (1 + pick(nb), 1 + pick(nb));
    let mk = |n: usize, base: u32| {
        let mut p = Production::new(Rule::plain(1, &[]).head(), ProductionBody::new(pstr(&[base])));
        for i in 1..n { p.add_body(ProductionBody::new(pstr(&[base + i as u32]))) }
        p
    };
    let base = u32() & 0xffff;
    let mut p = mk(m, base);
    p.merge(mk(n, base + 100));
    let got: Vec<u32> = p.all_bodies().iter().map(|b| b.string()[0].code()).collect();
    let exp: Vec<u32> = (0..m as u32).map(|i| base + i).chain((0..n as u32).map(|i| base + 100 + i)).collect();
    same(&got, &exp, "merged: all bodies of the first, then of the second");
}

fn c27_long(n: u32) {
    // long contexts, many and long replacements
    budget(1_000_000_000);
    let x = u32();
    let at = pick(3);
    let part = |k: u32, n: u32| -> Vec<u32> { (0..n).map(|i| if i == n / 2 { x } else { k * 1000 + i }).collect() };
    let (pre, post) = (part(1, if at == 0 { n } else { 1 }), part(2, if at == 1 { n } else { 2 }));
    let mut p = Production::new(ProductionHead::build(Some(pstr(&pre)), Symbol::from_code(x), Some(pstr(&post))).unwrap(), ProductionBody::new(pstr(&part(3, 2))));
    let mut exp: Vec<u32> = pre.iter().chain([&x]).chain(post.iter()).copied().chain(part(3, 2)).collect();
    for i in 0..n {
        let b = part(4 + i, if at == 2 && i % 50 == 0 { n } else { i % 4 });
        exp.extend(&b);
        p.add_body(ProductionBody::new(pstr(&b)));
    }
    check(p.all_bodies().len() == n as usize + 1, "every body");
    let got: Vec<u32> = p.all_symbols_iter().map(|s| s.code()).collect();
    same(&got, &exp, "long production: head, then every body in order");
    let q = p.clone();
    p.merge(q);
    check(p.all_bodies().len() == 2 * n as usize + 2, "merged: every body of both");
    let twice: Vec<u32> = p.all_bodies().iter().flat_map(|b| codes(b.string())).collect();
    let skip = pre.len() + 1 + post.len();
    same(&twice, &exp[skip..].iter().chain(&exp[skip..]).copied().collect::<Vec<_>>(), "merged: in order");
}

// ---- C28: production strings as sequences -------------------------------------------------

fn c28(n: usize) {
    let n = pick(n + 1);
    let c: Vec<u32> = (0..n).map(|_| u32()).collect();
    let mut a = ProductionString::new();
    for (i, x) in c.iter().enumerate() {
        check(a.len() == i && a.is_empty() == (i == 0), "length");
        a.push_symbol(Symbol::from_code(*x));
    }
    let b = pstr(&c);
    check(a == b, "pushing one by one or all at once");
    check(a.len() == n && a.is_empty() == (n == 0), "length");
    for i in 0..n { check(a[i].code() == c[i] && a.symbols()[i].code() == c[i], "by position") }
    same(&a.iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating");
    same(&(&a).into_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating by reference");
    same(&a.clone().into_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating by value");
    same(&a.all_symbols_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating over symbols");
    check(ProductionString::empty().is_empty() && ProductionString::default().len() == 0, "empty");
    let x = u32();
    let one = ProductionString::from(Symbol::from_code(x));
    check(one.len() == 1 && one[0].code() == x, "of one symbol");
}

fn c28_long(n: usize) {
    let x = u32();
    let at = [0, 32, 256, n - 1][pick(4)];
    let c: Vec<u32> = (0..n).map(|i| if i == at { x } else { (i as u32).wrapping_mul(2654435761) }).collect();
    let mut a = ProductionString::default();
    for (i, x) in c.iter().enumerate() {
        check(a.len() == i, "length");
        a.push_symbol(Symbol::from_code(*x));
    }
    same(&codes(&a), &c, "long string");
    same(&a.iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating");
    same(&(&a).into_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating by reference");
    same(&a.all_symbols_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating over symbols");
    check(a.len() == n && a[at].code() == x && a == pstr(&c) && a.clone() == a, "long string");
    same(&a.into_iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "iterating by value");
}

// ---- C29: stores of one's own -------------------------------------------------------------

fn c29(nprod: usize) {
    let syms = RefCell::new(HashSet::new());
    let prods = RefCell::new(Vec::<Production>::new());
    let mut seen: Vec<&str> = vec![];
    let mut targets = vec![];
    for _ in 0..nprod {
        let (p, t, b) = (AB[pick(2)], AB[pick(4)], AB[pick(4)]);
        let text = match pick(4) {
            0 => format!("{} < {} -> {}", p, t, b),
            1 => format!("{} > {} -> {}", t, p, b),
            2 => format!("{} -> 0.5 {}", t, b),
            _ => {
                let bad = format!("{} {} -> {}", p, t, b);
                check(parser::parse_and_add_production(&syms, &prods, &bad).is_err(), "not a production");
                reach("rejected");
                continue;
            }
        };
        let got = parser::parse_and_add_production(&syms, &prods, &text).unwrap();
        check(got.head().target().name().as_deref() == Some(t), "the production added is returned");
        targets.push(t);
        if text.contains(" < ") || text.contains(" > ") { seen.push(p) }
        seen.push(t);
        seen.push(b);
    }
    for a in AB {
        let known = seen.contains(&a);
        let got = syms.get_symbol(a);
        check(got.is_some() == known, "the symbol store has exactly the symbols of the productions");
        if let Some(s) = got { reach("known"); check(s.name().as_deref() == Some(a), "the symbol of that name") }
    }
    let prods = prods.take();
    check(prods.len() == targets.len(), "one entry per production");
    for (p, t) in prods.iter().zip(&targets) { check(p.head().target().name().as_deref() == Some(*t), "in the order added") }
    seen.sort();
    seen.dedup();
    check(syms.take().len() == seen.len(), "the symbol store has nothing else");
}

fn c29_many(n: usize) {
    // many rules; one of them repeats an arbitrary earlier head, or is not a rule
    let syms = RefCell::new(HashSet::new());
    let prods = RefCell::new(Vec::<Production>::new());
    let mut targets = vec![];
    let at = 10 + pick(n - 10);
    let bad = pick(2) == 1;
    for i in 0..n {
        let t = if i == at { 3 } else { i };
        let text = if i == at && bad { format!("t{} u{} -> v", t, t) } else { format!("c < t{} -> u{}", t, i) };
        let got = parser::parse_and_add_production(&syms, &prods, &text);
        if i == at && bad { check(got.is_err(), "not a production"); continue }
        let got = got.unwrap();
        check(got.head().target().name() == Some(format!("t{}", t)) && got.all_bodies().last().unwrap().string().to_string() == format!("u{}", i), "the production added is returned");
        targets.push(t);
    }
    let prods = prods.take();
    check(prods.len() == targets.len(), "one entry per production");
    for (p, t) in prods.iter().zip(&targets) { check(p.head().target().name() == Some(format!("t{}", t)), "in the order added") }
    check(syms.borrow().len() == 1 + 2 * (n - 1) + !bad as usize, "exactly the symbols of the productions");
    for i in 0..n { check(syms.get_symbol(&format!("t{}", i)).is_some() == (i != at) && syms.get_symbol(&format!("u{}", i)).is_some() == (i != at || !bad), "the symbols of the productions") }
}

crate::harnesses! {
    h_c07_text => c07(1, &AB, 1, 2);
    h_c07_pair => c07(2, &AB[..2], 1, 1);
    h_c07_codes => c07_codes(5);
    h_c07_bodies => c07_bodies(2);
    h_c07_fail => c07_fail();
    t_c07_text => c07(2, &AB[..3], 1, 2);
    t_c07_codes => c07_codes(7);
    h_c07_many => c07_many(150);
    h_c07_crowd => c07_many(300);
    h_c07_wide => c07_wide(33);
    h_c07_large => c07_wide(400);
    h_c08_crowd => c08_crowd(300);
    h_c08_mass => c08_crowd(700);
    h_c08_two => { let a = utf8(2); c08_two(a, utf8(2)) };
    h_c08_uneven => { let a = utf8(3); c08_two(a, utf8(1)) };
    h_c08_code => c08_code();
    h_c08_many => c08_many(40);
    h_c08_long => c08_long(100);
    t_c08_three => { let a = utf8(3); c08_two(a, utf8(3)) };
    t_c08_four => { let a = utf8(4); c08_two(a, utf8(2)) };
    h_c26_symbol => c26_symbol();
    h_c26_string => c26_string(4);
    h_c26_head => c26_head(1, 2);
    h_c26_long => c26_long(80);
    h_c26_far => c26_long(5000);
    t_c26_head => c26_head(2, 2);
    t_c26_string => c26_string(8);
    h_c27_order => c27(2, 2, 2);
    h_c27_merge => c27_merge(4);
    t_c27_order => c27(3, 3, 3);
    h_c27_long => c27_long(70);
    h_c27_far => c27_long(300);
    h_c28_long => c28_long(600);
    h_c28_far => c28_long(70000);
    h_c28_ops => c28(6);
    t_c28_ops => c28(20);
    h_c29_many => c29_many(90);
    t_c29_crowd => c29_many(300);
    h_c29_stores => c29(2);
    t_c29_stores => c29(3);
}
