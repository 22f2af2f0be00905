//! C09, C10: several threads on the shared registries and on one system. C16, C17: families.
use crate::rsx::*;
use rusty_systems::interpretation::abop;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionStore};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::{self, TryIntoFamily};
use std::sync::Arc;

/// names differ from round to round when a schedule is stressed natively
fn uniq(s: &str) -> String { if is_engine() { s.to_string() } else { format!("{}{}", s, round()) } }

type Job = Box<dyn FnOnce() + Send>;
extern "C-unwind" fn trampoline(p: usize) {
    let j = unsafe { Box::from_raw(p as *mut Job) };
    (*j)();
}
fn go(f: impl FnOnce() + Send + 'static) -> usize {
    let j: Box<Job> = Box::new(Box::new(f));
    spawn(trampoline, Box::into_raw(j) as usize)
}
/// a place for what a thread found out; read only after the thread was joined
struct Slot<T>(*mut Option<T>);
impl<T> Clone for Slot<T> { fn clone(&self) -> Self { Slot(self.0) } }
impl<T> Copy for Slot<T> {}
unsafe impl<T> Send for Slot<T> {}
impl<T> Slot<T> {
    fn new() -> Self { Slot(Box::leak(Box::new(None))) }
    fn set(self, t: T) { unsafe { *self.0 = Some(t) } }
    fn take(self) -> Option<T> { unsafe { (*self.0).take() } }
}
fn run<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> (usize, Slot<T>) {
    let s = Slot::new();
    let t = go(move || { let v = f(); let s = s; s.set(v) });
    (t, s)
}
fn wait<T>(h: (usize, Slot<T>)) -> T { join(h.0); h.1.take().unwrap() }

// ---- C09: the symbol registry -------------------------------------------------------------

struct Seen { code: u32, name: Option<String>, symbol: bool, again: u32 }
fn look(n: &str) -> Seen {
    let code = get_code(n).unwrap();
    let name = get_name(code);
    Seen { code, name, symbol: Symbol::try_from(code).is_ok(), again: get_code(n).unwrap() }
}
fn c09_judge(names: &[String], seen: &[Seen]) {
    for (n, s) in names.iter().zip(seen) {
        check(s.name.as_deref() == Some(n), "a thread that has a code finds its name");
        check(s.symbol, "a thread that has a code can make its symbol");
        check(s.again == s.code, "a code does not change");
    }
    for i in 0..names.len() {
        for j in 0..i {
            let same = names[i] == names[j];
            if same { reach("same name") } else { reach("different names") }
            check((seen[i].code == seen[j].code) == same, "equal codes exactly for equal names");
        }
        check(get_code(&names[i]).unwrap() == seen[i].code && get_name(seen[i].code).as_ref() == Some(&names[i]), "afterwards names and codes agree");
    }
}
fn letter_name() -> String {
    let c = u8();
    assume(c.is_ascii_lowercase());
    uniq(unsafe { std::str::from_utf8_unchecked(std::slice::from_ref(&c)) })
}
fn c09(n: usize, warm: bool) {
    if warm { get_code(&uniq("warm")).unwrap(); }
    let names: Vec<String> = (0..n).map(|_| letter_name()).collect();
    let mut h: Vec<_> = names[1..].iter().map(|n| { let n = n.clone(); run(move || look(&n)) }).collect();
    let mut seen = vec![look(&names[0])];
    for t in h.drain(..) { seen.push(wait(t)) }
    c09_judge(&names, &seen);
}
/// one thread parses text while another makes symbols out of the same words
fn c09_parse() {
    let a = letter_name();
    let b = letter_name();
    let t = format!("{} {}", a, b);
    let h = run(move || { let p = parser::parse_prod_string(&t).unwrap(); (p.to_string() == t, p[0].code(), p[1].code()) });
    let seen = look(&b);
    let (ok, ca, cb) = wait(h);
    check(ok, "a string just parsed prints as it was written");
    check(seen.code == cb && (ca == cb) == (a == b), "equal codes exactly for equal names");
}
/// readers of an established name while others are added
fn c09_reader() {
    let old = uniq("old");
    let code = get_code(&old).unwrap();
    let n = letter_name();
    let (m, o) = (n.clone(), old.clone());
    let h = run(move || look(&m));
    check(get_name(code).as_ref() == Some(&old) && get_code(&old).ok() == Some(code), "an established name keeps its code");
    let s = wait(h);
    check(s.name == Some(n) && s.code != code, "the new name gets a code of its own");
    check(get_name(code) == Some(o), "an established name keeps its code");
}

// ---- C10: one system ----------------------------------------------------------------------

fn prod(t: &str) -> Production { parser::parse_production(t).unwrap() }
fn bodies(p: &Production) -> Vec<String> { p.all_bodies().iter().map(|b| b.string().to_string()).collect() }

/// threads add rules whose heads may or may not be the same
fn c10_add(n: usize) {
    let sys = Arc::new(System::new());
    let heads: Vec<&str> = (0..n).map(|_| ["A", "B"][pick(2)]).collect();
    let prods: Vec<Production> = (0..n).map(|i| prod(&format!("{} -> x{}", heads[i], i))).collect();
    let add = |s: &System, p: Production| { let c = p.clone(); let r = s.add_production(p).unwrap(); (r == c, bodies(&r).contains(&bodies(&c)[0])) };
    let h: Vec<_> = prods[1..].iter().map(|p| { let (s, p) = (sys.clone(), p.clone()); run(move || add(&s, p)) }).collect();
    let first = add(&sys, prods[0].clone());
    let mut all = vec![first];
    for t in h { all.push(wait(t)) }
    for (eq, has) in all { check(eq && has, "a thread is given the rule it added to") }
    for head in ["A", "B"] {
        let mine: Vec<String> = (0..n).filter(|i| heads[*i] == head).map(|i| format!("x{}", i)).collect();
        if mine.is_empty() { continue }
        if mine.len() > 1 { reach("same head") } else { reach("different heads") }
        let r = sys.add_production(prod(&format!("{} -> end", head))).unwrap();
        let b = bodies(&r);
        check(b.len() == mine.len() + 1, "no body is lost or doubled");
        for m in &mine { check(b.contains(m), "no body is lost") }
    }
    let d = if heads.iter().all(|h| *h == heads[0]) { 1 } else { 2 };
    check(sys.production_len() == d, "one rule per head");
    check(sys.symbol_len() == d + n + 1, "every symbol is known");
    for i in 0..n { check(sys.get_symbol(&format!("x{}", i)).is_some(), "every symbol is known") }
}
/// deriving while a rule is added sees the rules before or after, and never half of one
fn c10_derive() {
    let sys = Arc::new(System::new());
    sys.add_production(prod("S -> S a")).unwrap();
    let p = prod(["a > S -> b", "S < a -> b c", "a -> a", "a ->"][pick(4)]);
    let text = ["S", "S a", "a S"][pick(3)];
    let s = parser::parse_prod_string(text).unwrap();
    let both = System::new();
    both.add_production(prod("S -> S a")).unwrap();
    let k = 1 + pick(2);
    let old = both.derive(s.clone(), RunSettings::for_max_iterations(k)).unwrap();
    both.add_production(p.clone()).unwrap();
    let new = both.derive(s.clone(), RunSettings::for_max_iterations(k)).unwrap();
    let s2 = sys.clone();
    let h = run(move || { s2.add_production(p).unwrap(); });
    let got = sys.derive(s, RunSettings::for_max_iterations(k)).unwrap();
    if got == old { reach("before") }
    if got == new && new != old { reach("after") }
    check(got == old || got == new, "a derivation uses the rules of one moment");
    for t in got.symbols() {
        let n = t.name().unwrap();
        check(n == "a" || sys.get_symbol(&n).is_some(), "the symbols of the rules used are known");
    }
    wait(h);
    check(sys.production_len() == 2, "both rules are there");
}
/// symbols added and looked up while rules are added
fn c10_symbols() {
    let sys = Arc::new(System::new());
    let a = ["x", "y", "z"][pick(3)];
    let s2 = sys.clone();
    let h = run(move || {
        let r = s2.add_production(prod("x -> y"));
        (r.is_ok(), s2.get_symbol("x").is_some() && s2.get_symbol("y").is_some())
    });
    let s = sys.add_symbol(a).unwrap();
    check(sys.get_symbol(a) == Some(s), "a symbol just added is known");
    let k = sys.symbol_len();
    check(k >= 1 && k <= 3, "the number of symbols");
    let (ok, known) = wait(h);
    check(ok && known, "the symbols of a rule just added are known");
    check(sys.symbol_len() == if a == "z" { 3 } else { 2 } && sys.production_len() == 1, "nothing lost, nothing doubled");
    if a == "z" { reach("new") } else { reach("shared") }
}
/// two threads derive, a third adds
fn c10_three() {
    let sys = Arc::new(System::new());
    sys.add_production(prod("S -> S S")).unwrap();
    let s = parser::parse_prod_string("S").unwrap();
    let d = |sys: &System, s: ProductionString| sys.derive_once(s).unwrap().len();
    let (s1, s2, t1) = (sys.clone(), sys.clone(), s.clone());
    let h1 = run(move || d(&s1, t1));
    let h2 = run(move || s2.add_production(prod("Q -> S")).is_ok());
    check(d(&sys, s) == 2, "a derivation of this thread");
    check(wait(h1) == 2, "a derivation of another thread");
    check(wait(h2) && sys.production_len() == 2, "the rule is added");
}

/// everything a system can be asked, while a rule is added to it
fn c10_look(n: usize) {
    let sys = Arc::new(System::new());
    if bit() { sys.add_symbol("a").unwrap(); reach("not empty") } else { reach("empty") }
    let s2 = sys.clone();
    let h = run(move || s2.add_production(prod("a -> b")).is_ok());
    for _ in 0..n {
        match pick(6) {
            0 => { let x = sys.get_symbol("a"); check(x.is_none() || x.unwrap().to_string() == "a", "the symbol of that name") }
            1 => check(sys.symbol_len() <= 2, "the symbols added"),
            2 => check(sys.production_len() <= 1, "the rules added"),
            3 => check(sys.derive_once(parser::parse_prod_string("a").unwrap()).unwrap().len() == 1, "one step"),
            4 => check(sys.add_symbol("b").is_ok(), "a symbol can be added"),
            _ => check(sys.get_symbol("none").is_none(), "never added"),
        }
    }
    check(wait(h), "the rule is added");
    check(sys.symbol_len() == 2 && sys.production_len() == 1, "nothing lost, nothing doubled");
}

// ---- C16: families ------------------------------------------------------------------------

fn tagged(tag: &str) -> family::Builder { SystemFamily::define().with_terminal(tag, None) }
fn tag(f: &SystemFamily) -> String { f.terminals().next().unwrap().name.clone() }

fn c16(nops: usize, names: &[String]) {
    let mut model: Vec<(usize, String, Arc<SystemFamily>)> = vec![];
    for i in 0..nops {
        let k = pick(names.len());
        let n = &names[k];
        let blank = n.trim().is_empty();
        let had = model.iter().find(|m| names[m.0] == *n).map(|m| m.1.clone());
        let t = format!("t{}", i);
        match pick(3) {
            0 => {
                let r = tagged(&t).register(n);
                if blank { reach("blank") }
                if had.is_some() { reach("taken") }
                check(r.is_ok() == (!blank && had.is_none()), "a family can be registered exactly under a free, non-blank name");
                if let Ok(f) = r { check(f.name() == n && tag(&f) == t, "the family registered"); model.push((k, t, f)) }
            }
            1 => {
                let f = tagged(&t).build(n);
                check(f.is_ok() != blank, "a family has a name");
                let Ok(f) = f else { continue };
                let r = family::register(f);
                check(r.is_ok() == had.is_none(), "a family can be registered exactly under a free name");
                if let Ok(f) = r { check(f.name() == n && tag(&f) == t, "the family registered"); model.push((k, t, f)) }
            }
            _ => {
                if blank { continue }
                let mut called = false;
                let f = family::get_or_init_family(n, || { called = true; tagged(&t).build(n).unwrap() });
                check(called == had.is_none(), "the default is made exactly if there is no family of that name");
                let want = had.clone().unwrap_or(t);
                check(tag(&f) == want, "the family of that name");
                if had.is_none() { reach("made"); model.push((k, want, f)) } else { reach("found") }
            }
        }
    }
    for n in names {
        let had = model.iter().find(|m| names[m.0] == *n);
        let f = family::get_family(n);
        check(f.is_some() == had.is_some() && family::family_exists(n) == had.is_some(), "exactly the families registered exist");
        if let (Some(f), Some(m)) = (f, had) { check(Arc::ptr_eq(&f, &m.2) && tag(&f) == m.1, "one name, always the same family") }
    }
}
/// a family made on demand under another name than its own
fn c16_alias() {
    let names = [uniq("One"), uniq("Two"), uniq("Three")];
    let k = [pick(3), pick(3)];
    let there = pick(2) == 1;
    if there { tagged("own").register(&names[0]).unwrap(); reach("taken") }
    let mut calls = 0;
    let mut made: Vec<(usize, Arc<SystemFamily>)> = vec![];
    if there { made.push((0, family::get_family(&names[0]).unwrap())) }
    for i in 0..2 {
        let had = made.iter().find(|m| m.0 == k[i]).map(|m| m.1.clone());
        let f = family::get_or_init_family(&names[k[i]], || { calls += 1; tagged(["a", "b"][i]).build(&names[0]).unwrap() });
        match had {
            Some(h) => check(Arc::ptr_eq(&h, &f), "the family that has the name"),
            None => { reach("made"); check(tag(&f) == ["a", "b"][i], "the family that was made"); made.push((k[i], f)) }
        }
    }
    check(calls + there as usize == made.len(), "made exactly if the name is free");
    for i in 0..3 {
        let f = family::get_family(&names[i]);
        match made.iter().find(|m| m.0 == i) {
            Some(m) => check(f.is_some() && Arc::ptr_eq(&f.unwrap(), &m.1), "one name, always the same family"),
            None => check(f.is_none() && !family::family_exists(&names[i]), "other names stay free"),
        }
    }
}
/// two threads and two names that may be the same
fn c16_race(kind: usize) {
    let (n1, n2) = (letter_name(), letter_name());
    let same = n1 == n2;
    if same { reach("same name") } else { reach("different names") }
    // a family registered earlier is not disturbed
    let other = uniq("Other");
    tagged("o").register(&other).unwrap();
    let (a, b) = (n1.clone(), n2.clone());
    let make = |t: &'static str, n: String| { let mut c = false; let m = n.clone(); let f = family::get_or_init_family(n, || { c = true; tagged(t).build(m).unwrap() }); (c, f) };
    match kind {
        0 => {
            let h = run(move || make("one", a));
            let (c2, f2) = make("two", b);
            let (c1, f1) = wait(h);
            check(if same { c1 != c2 } else { c1 && c2 }, "the default is made exactly once");
            check(Arc::ptr_eq(&f1, &f2) == same, "both get the same family");
            check(tag(&f1) == if c1 { "one" } else { "two" } && tag(&f2) == if c2 { "two" } else { "one" }, "the family that was made");
            if same { if c1 { reach("other") } else { reach("main") } }
            check(Arc::ptr_eq(&family::get_family(&n1).unwrap(), &f1) && Arc::ptr_eq(&family::get_family(&n2).unwrap(), &f2), "and it stays");
        }
        1 => {
            let h = run(move || tagged("one").register(&a).ok());
            let f2 = tagged("two").build(&b).and_then(family::register).ok();
            let f1 = wait(h);
            check(if same { f1.is_some() != f2.is_some() } else { f1.is_some() && f2.is_some() }, "exactly one of two registrations of a name succeeds");
            if let Some(f) = f1 { check(Arc::ptr_eq(&family::get_family(&n1).unwrap(), &f) && tag(&f) == "one", "the one that succeeded stays") }
            if let Some(f) = f2 { check(Arc::ptr_eq(&family::get_family(&n2).unwrap(), &f) && tag(&f) == "two", "the one that succeeded stays") }
        }
        2 => {
            let h = run(move || tagged("one").register(&a).ok());
            let (c2, f2) = make("two", b);
            let f1 = wait(h);
            if same {
                check(f1.is_some() != c2 && f1.is_some() == (tag(&f2) == "one"), "the one that came first is used");
                if f1.is_some() { reach("registered") } else { reach("made") }
            } else { check(f1.is_some() && c2 && tag(&f2) == "two", "names are independent") }
            check(Arc::ptr_eq(&family::get_family(&n2).unwrap(), &f2), "and it stays");
        }
        _ => {
            let h = run(move || { let e = family::family_exists(&a); let f = family::get_family(&a); (e, f) });
            let f = tagged("two").register(&b).unwrap();
            let (e, g) = wait(h);
            if e { reach("seen") } else { reach("not yet") }
            check(same || !e && g.is_none(), "only the family registered exists");
            check(!e || g.is_some(), "a family that exists stays");
            if let Some(g) = g { check(Arc::ptr_eq(&f, &g), "the family registered") }
        }
    }
    check(family::get_family(&other).map(|f| tag(&f)).as_deref() == Some("o"), "other families are not disturbed");
}

// ---- C17: systems of families -------------------------------------------------------------

fn c17(nt: usize, np: usize, n: usize) {
    let nt = pick(nt + 1);
    let np = pick(np + 1);
    let names: Vec<String> = (0..nt + np).map(|_| utf8(n)).collect();
    let mut b = SystemFamily::define();
    for x in &names[..nt] { b = b.with_terminal(x, None) }
    for x in &names[nt..] { b = b.with_production(x, Some(x)) }
    let f = b.build("Some family").unwrap();
    let by_name = pick(2) == 1;
    let sys = if by_name { family::register(f).unwrap(); System::of_family("Some family") } else { System::of_family(f) };
    let bad = names.iter().any(|x| x.trim().is_empty());
    check(sys.is_ok() != bad, "a system can be made exactly if no symbol is blank");
    let Ok(sys) = sys else { reach("blank"); return };
    let mut distinct = 0;
    for i in 0..names.len() { if !(0..i).any(|j| names[j].trim() == names[i].trim()) { distinct += 1 } }
    check(sys.symbol_len() == distinct && sys.production_len() == 0, "exactly the symbols of the family");
    for x in &names { reach("symbol"); check(sys.get_symbol(x).map(|s| s.to_string()).as_deref() == Some(x.trim()), "every symbol of the family is known") }
    check(sys.get_symbol("something else").is_none(), "other symbols are not");
}
fn c17_many() {
    // large families, with all kinds of descriptions
    let (nt, np) = [(40, 0), (0, 40), (20, 20), (300, 5), (1, 0)][pick(5)];
    let texts = [None, Some(""), Some(" "), Some("Text")];
    let (d, e) = (pick(4), pick(4));
    let x = ["T0", "P0", "Q"][pick(3)];
    let mut b = SystemFamily::define();
    for i in 0..nt { b = b.with_terminal(format!("T{}", i).as_str(), texts[(d + i * (i % 2)) % 4]) }
    for i in 0..np { b = b.with_production(format!("P{}", i).as_str(), texts[(e + i * (i % 3)) % 4]) }
    // a name that may be there already, on the other side
    b = b.with_production(x, texts[e]);
    let f = b.build("Large").unwrap();
    check(f.name() == "Large" && f.terminals().count() == nt && f.productions().count() == np + (x != "P0" || np == 0) as usize, "the symbols of the family");
    for t in f.terminals() { let i: usize = t.name[1..].parse().unwrap(); check(t.description.as_deref() == texts[(d + i * (i % 2)) % 4], "the descriptions of the family") }
    let sys = System::of_family(f).unwrap();
    let own = |t: &str| sys.get_symbol(t).map(|s| s.to_string()).as_deref() == Some(t);
    for i in 0..nt { check(own(&format!("T{}", i)), "every symbol of a large family") }
    for i in 0..np { check(own(&format!("P{}", i)), "every symbol of a large family") }
    let dup = x == "T0" && nt > 0 || x == "P0" && np > 0;
    if dup { reach("twice") } else { reach("once") }
    check(own(x) && sys.symbol_len() == nt + np + !dup as usize, "exactly the symbols of a large family");
}
fn c17_unregistered(n: usize) {
    let a = utf8(n);
    let b = utf8(n);
    let r = SystemFamily::define().with_production("p", None).register(&a);
    check(r.is_ok() != a.trim().is_empty(), "registered unless blank");
    let there = a == b && r.is_ok();
    if there { reach("registered") } else { reach("not registered") }
    check(System::of_family(b.as_str()).is_ok() == there, "a system can be made by name exactly if the family is registered");
    check(b.clone().into_family().is_ok() == there && System::of_family(b).is_ok() == there, "by name given as a string");
    if let Ok(f) = r {
        let s = System::of_family(f.clone()).unwrap();
        check(s.symbol_len() == 1 && s.get_symbol("p").is_some(), "a system of the family itself");
        check(f.symbols().count() == 1 && f.productions().count() == 1 && f.terminals().count() == 0, "the symbols of the family");
    }
}
fn c17_abop() {
    let mine = pick(3);
    match mine {
        0 => { family::register(abop::abop_family()).unwrap(); }
        1 => { abop::AbopTurtleInterpretation::system().unwrap(); }
        _ => {}
    }
    let s = abop::AbopTurtleInterpretation::system().unwrap();
    let t = abop::AbopSvgInterpretation::system().unwrap();
    for x in ["[", "]", "+", "-", "Forward", "Move", "X"] { check(s.get_symbol(x).is_some() && t.get_symbol(x).is_some(), "the symbols of the plants family") }
    check(s.symbol_len() == 7 && s.production_len() == 0 && t.symbol_len() == 7, "and no others");
    let n = utf8(1);
    s.add_symbol("other").unwrap();
    let known = ["[", "]", "+", "-", "X"].contains(&n.trim());
    if known { reach("known") } else { reach("unknown") }
    check(t.get_symbol(&n).is_some() == known, "systems of a family do not share what is added");
}

crate::harnesses! {
    h_c09_two => c09(2, false);
    h_c09_warm => c09(2, true);
    h_c09_parse => c09_parse();
    h_c09_reader => c09_reader();
    h_c09_three => { preempt(0); c09(3, false) };
    t_c09_three => { preempt(1); c09(3, false) };
    h_c10_add => c10_add(2);
    h_c10_derive => c10_derive();
    h_c10_symbols => c10_symbols();
    h_c10_add_three => { preempt(0); c10_add(3) };
    h_c10_three => { preempt(2); c10_three() };
    t_c10_add => { preempt(1); c10_add(3) };
    t_c10_three => { preempt(3); c10_three() };
    h_c16_history => { let n: Vec<String> = (0..2).map(|_| utf8(1)).collect(); c16(3, &n) };
    h_c16_alias => c16_alias();
    h_c16_once => c16_race(0);
    h_c16_register => c16_race(1);
    h_c16_mixed => c16_race(2);
    h_c16_reader => c16_race(3);
    t_c16_history => { let n: Vec<String> = (0..2).map(|_| utf8(2)).collect(); c16(4, &n) };
    h_c10_look => c10_look(1);
    t_c10_look => c10_look(2);
    h_c17_many => c17_many();
    h_c17_symbols => c17(2, 1, 1);
    h_c17_unregistered => c17_unregistered(2);
    h_c17_abop => c17_abop();
    t_c17_symbols => c17(2, 2, 2);
    t_c17_unregistered => c17_unregistered(3);
}
