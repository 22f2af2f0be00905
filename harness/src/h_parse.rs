use crate::rsx::*;
use rusty_systems::interpretation::abop::parser as plant;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{self, TokenKind};
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;

// ---- a reference tokeniser ----------------------------------------------------------------

fn delimiter(c: char) -> bool { matches!(c, '<' | '>' | '-' | '+' | '(' | ')' | ';') }
/// Words are separated by whitespace and by runs of delimiters; each run is itself a word.
fn spans(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = None;
    let mut delim = false;
    for (i, c) in s.char_indices() {
        let (ws, d) = (c.is_whitespace(), delimiter(c));
        if let Some(b) = start {
            if ws || d != delim { v.push((b, i)); start = None }
        }
        if !ws && start.is_none() { start = Some(i); delim = d }
    }
    if let Some(b) = start { v.push((b, s.len())) }
    v
}

// ---- C11: parsing strings -----------------------------------------------------------------

pub fn c11(s: String) {
    let got = parser::parse_prod_string(&s);
    let mut names = vec![];
    let mut ok = true;
    for (a, b) in spans(&s) {
        match &s[a..b] {
            ";" => { reach("terminated"); break }
            "<" | ">" | "->" => { ok = false; break }
            t => names.push(t),
        }
    }
    if ok { reach("accepted") } else { reach("rejected") }
    if names.len() > 1 { reach("several") }
    check(got.is_ok() == ok, "rejected exactly if a rule mark is among the words");
    if let Ok(p) = got {
        check(p.len() == names.len(), "one symbol per word");
        for i in 0..names.len() {
            check(p[i].name().as_deref() == Some(names[i]), "the words in order");
        }
        let q: ProductionString = s.parse().unwrap();
        check(p == q, "both ways to parse agree");
        note(p.len() as u64);
    }
}
/// a long text with n arbitrary ASCII characters in it
fn c11_wide(n: usize) {
    let mut b = "Forward + [ [ X ] - X ]  - Forward[-Forward X]+ X  ++ Rüther\u{3000}ende ; rest -> <".as_bytes().to_vec();
    for at in [7usize, 20, 26][..n].iter() {
        let c = u8();
        assume(c < 128);
        b[*at] = c;
    }
    c11(String::from_utf8(b).unwrap());
}
/// n words, arbitrary gaps between them
fn c11_gaps(n: usize) {
    let words = ["F", "++", "[x]", "-", "é"];
    let gaps = [" ", "  ", "\t\n ", "\u{a0}", "\u{3000} ", "\u{2028}"];
    let mut s = String::from(["", " ", "\u{85}"][pick(3)]);
    for i in 0..n {
        if i > 0 { s.push_str(gaps[pick(gaps.len())]) }
        s.push_str(words[pick(words.len())]);
    }
    s.push_str(["", "  ", ";", " ;F"][pick(4)]);
    c11(s);
}

/// a text of n words of all kinds that ends with an arbitrary character
fn long(n: usize, bytes: usize) -> String {
    let words = ["Forward", "+", "[", "é", "F", "--", "Rüther", "(X)", "longer-name", "]", "日本", ";;"];
    let gaps = [" ", "  ", "\n", "\u{3000}", " \t ", "\u{a0}"];
    let mut s = String::new();
    for i in 0..n { s.push_str(words[i * 7 % 12]); s.push_str(gaps[i * 5 % 6]) }
    s.push('a');
    s.push_str(&utf8(bytes));
    s.push('b');
    s
}
/// every text of n characters out of a few
fn alphabet(n: usize, a: &[&str]) -> String { (0..n).map(|_| a[pick(a.len())]).collect::<Vec<_>>().concat() }
/// a long run of marks, with an arbitrary character in it
fn c11_run() {
    let n = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64, 130, 300][pick(16)];
    let at = [0, n / 2, n - 1][pick(3)];
    let c = u8();
    assume(c < 128);
    let mut b = vec![b'+'; n];
    b[at] = c;
    c11(["F ", std::str::from_utf8(&b).unwrap(), [" F", "F", ""][pick(3)]].concat());
}
/// a very long word, with an arbitrary character in it
fn c11_word(n: usize) {
    let at = [0, 1, 31, 32, 63, 64, 255, 256, n - 1][pick(9)];
    let c = u8();
    assume(c < 128);
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 25) as u8).collect();
    b[at] = c;
    c11(String::from_utf8(b).unwrap());
}

// ---- C14: tokens --------------------------------------------------------------------------

pub fn c14(s: String) {
    let toks: Vec<_> = TokenIterator::new(&s).filter(|t| !t.text.is_empty()).collect();
    let exp = spans(&s);
    check(toks.len() == exp.len(), "one token per word");
    for (t, (a, b)) in toks.iter().zip(&exp) {
        reach("token");
        check(t.text == &s[*a..*b], "the text of the word");
        check(t.start == *a && t.end == *b, "the place of the word");
        let k = match t.text { ";" => TokenKind::Terminator, "->" => TokenKind::Arrow, "<" => TokenKind::ContextLeft, ">" => TokenKind::ContextRight, _ => TokenKind::Symbol };
        check(t.kind == k, "the kind of the word");
    }
    let n = TokenIterator::new(&s).take(s.len() + 3).count();
    check(n <= exp.len() + 1, "at most one end mark, then no more");
}

// ---- C12: printing and parsing ------------------------------------------------------------

/// an arbitrary word of n bytes that can be a symbol of a string
fn word(n: usize) -> String {
    if pick(4) == 0 {
        // a run of delimiters that is not a rule mark
        let v = ["+", "-", "(", "-->", ";;", "<<", ")+"];
        return v[pick(v.len())].to_string();
    }
    let s = utf8(n);
    for c in s.chars() { assume(!c.is_whitespace() && !delimiter(c)) }
    s
}
fn c12(n: usize, bytes: usize) {
    let words: Vec<String> = (0..n).map(|_| word(bytes)).collect();
    let syms: Vec<Symbol> = words.iter().map(|w| Symbol::build(w).unwrap()).collect();
    let s = ProductionString::from(syms);
    let t = s.to_string();
    check(t == words.join(" "), "the names in order, a space between them");
    let back = parser::parse_prod_string(&t);
    check(back.is_ok(), "what is printed can be parsed");
    check(back.unwrap() == s, "parsing what is printed gives the string back");
    note(t.len() as u64);
}
fn c12_long(n: usize) {
    // a long string of few names, one of them arbitrary
    let w = word(2);
    let names = ["Forward", "+", "[", "é", &w, "--", "Rüther", "]", "-"];
    let syms: Vec<Symbol> = (0..n).map(|i| Symbol::build(names[i * i % 9]).unwrap()).collect();
    let s = ProductionString::from(syms);
    let t = s.to_string();
    check(t == (0..n).map(|i| names[i * i % 9]).collect::<Vec<_>>().join(" "), "the names in order, a space between them");
    let back = parser::parse_prod_string(&t).unwrap();
    check(back.len() == n && back == s, "parsing what is printed gives the string back");
}
fn c12_parsed(s: String) {
    // anything that parses survives being printed
    if let Ok(p) = parser::parse_prod_string(&s) {
        reach("parsed");
        let q = parser::parse_prod_string(&p.to_string());
        check(q.is_ok() && q.unwrap() == p, "printing and parsing again changes nothing");
    }
}
fn c12_unknown() {
    let t = Symbol::from_code(pick(3) as u32 + 5000).to_string();
    check(t.starts_with("code:500"), "a symbol without a name is printed by its code");
}

// ---- C13: parsing productions -------------------------------------------------------------

/// an arbitrary ASCII name that is neither a number nor a rule mark
fn name() -> String {
    let c = u8();
    assume(c.is_ascii_alphabetic() || c == b'+' || c == b'[' || c == b'(' || c == b';');
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
/// the same, or a digit: where a number is a name like any other
fn word1() -> String {
    let c = u8();
    assume(c.is_ascii_alphanumeric() || c == b'+' || c == b'[' || c == b'(' || c == b';');
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
fn eq_names(s: &ProductionString, n: &[String], l: &str) {
    check(s.len() == n.len(), l);
    for i in 0..n.len() { check(s[i].name().as_deref() == Some(n[i].as_str()), l) }
}
fn c13(ctx: usize, nbody: usize, numbers: bool) {
    let word1 = || if numbers { word1() } else { name() };
    let words1 = |max: usize| -> Vec<String> { (0..pick(max + 1)).map(|_| word1()).collect() };
    let gap = ["", " ", "  \t"];
    let g = pick(3);
    let sp = if g == 0 { " " } else { gap[g] };
    let pre = if pick(2) == 1 { Some(words1(ctx)) } else { None };
    let target = word1();
    let post = if pick(2) == 1 { Some(words1(ctx)) } else { None };
    let ch = pick(3);
    // a number in front of the body is its chance; after that, numbers are names
    let body: Vec<String> = (0..pick(nbody + 1)).map(|i| if i == 0 && ch == 0 { name() } else { word1() }).collect();
    let mut w: Vec<String> = vec![];
    if let Some(p) = &pre { w.extend(p.iter().cloned()); w.push("<".into()) }
    w.push(target.clone());
    if let Some(p) = &post { w.push(">".into()); w.extend(p.iter().cloned()) }
    let mut t = String::from(gap[g]);
    t.push_str(&w.join(sp));
    t.push_str([" ->", "->", " -> "][g]);
    let mut b: Vec<String> = vec![];
    if ch > 0 { b.push(["0.25", ".5"][ch - 1].into()) }
    b.extend(body.iter().cloned());
    t.push_str(&b.join(sp));
    t.push_str(gap[g]);
    let p = parser::parse_production(&t);
    check(p.is_ok(), "a well-formed production is accepted");
    let p = p.unwrap();
    check(p.head().target().name().as_deref() == Some(target.as_str()), "the target");
    check(p.head().pre_context().is_some() == pre.is_some() && p.head().post_context().is_some() == post.is_some(), "which contexts there are");
    if let (Some(c), Some(n)) = (p.head().pre_context(), &pre) { reach("left context"); eq_names(c, n, "the left context") }
    if let (Some(c), Some(n)) = (p.head().post_context(), &post) { reach("right context"); eq_names(c, n, "the right context") }
    check(p.all_bodies().len() == 1, "one body");
    let pb = &p.all_bodies()[0];
    eq_names(pb.string(), &body, "the body");
    if body.is_empty() { reach("empty body") }
    check(pb.chance().is_user_set() == (ch > 0), "whether a chance is given");
    if ch > 0 { reach("chance"); check(pb.chance().unwrap() == [0.25, 0.5][ch - 1], "the chance") }
    let q: Production = t.parse().unwrap();
    let r = Production::try_from(t.as_str()).unwrap();
    let s = Production::try_from(t.clone()).unwrap();
    check(p == q && q == r && r == s, "every way to parse agrees");
    note(pb.len() as u64);
}
fn c13_total(s: String) {
    let r = parser::parse_production(&s);
    let t = s.trim();
    match t.find("->") {
        None => { reach("no arrow"); check(r.is_err(), "nothing without an arrow") }
        Some(i) => {
            reach("arrow");
            if t[..i].trim().is_empty() { check(r.is_err(), "nothing without a head") }
            if let Ok(p) = r {
                reach("accepted");
                check(p.head().target().name().is_some(), "the target has a name");
                check(p.all_bodies().len() == 1, "one body");
            }
        }
    }
    let r = Production::try_from(s.as_str());
    note(r.is_ok() as u64);
}
fn c13_around(n: usize) {
    // arbitrary text on both sides of an arrow
    let a = utf8(n);
    let b = utf8(n);
    c13_total([&a, "->", &b].concat());
}
fn c13_head(s: String) {
    // heads: exactly one target, contexts left of `<` and right of `>`
    for c in s.chars() { assume(!c.is_whitespace() || matches!(c, ' ' | '\t' | '\n' | '\r')) }
    let words: Vec<&str> = s.split_whitespace().collect();
    let r = parser::parse_production_head(&s);
    // the first mark of each kind counts, and that of the right context only behind that of the left
    let l = words.iter().position(|w| *w == "<");
    let a = l.map(|x| x + 1).unwrap_or(0);
    let g = words[a..].iter().position(|w| *w == ">").map(|x| x + a);
    let b = g.unwrap_or(words.len());
    if words.iter().filter(|w| **w == "<").count() > 1 || words.iter().filter(|w| **w == ">").count() > 1 { reach("more marks") }
    check(r.is_ok() == (b - a == 1), "accepted exactly with one target");
    if let Ok(h) = r {
        if l.is_none() && g.is_none() { reach("no context") } else { reach("context") }
        check(h.target().name().as_deref() == Some(words[a]), "the target");
        let texts = |c: Option<&ProductionString>| c.map(|c| c.iter().map(|s| s.name().unwrap()).collect::<Vec<_>>());
        let own = |w: &[&str]| w.iter().map(|w| w.to_string()).collect::<Vec<_>>();
        check(texts(h.pre_context()) == l.map(|x| own(&words[..x])) && texts(h.post_context()) == g.map(|x| own(&words[x + 1..])), "the contexts");
    } else { reach("rejected") }
}
fn c13_tokens(n: usize) {
    // every sequence of n words out of marks and names, as a head
    let v = ["<", ">", "a", "<<", "b>"];
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push(' ') } s.push_str(v[pick(v.len())]) }
    c13_head(s);
}
fn c13_wide() {
    // long contexts and bodies with one arbitrary name
    budget(1_000_000_000);
    let n = [1, 2, 3, 4, 5, 8, 12, 100, 300][pick(9)];
    let x = name();
    let at = pick(3);
    let pre: Vec<String> = (0..n).map(|i| if at == 0 && i == n / 2 { x.clone() } else { format!("p{}", i) }).collect();
    let post: Vec<String> = (0..n).map(|i| if at == 1 && i == n - 1 { x.clone() } else { format!("q{}", i) }).collect();
    let body: Vec<String> = (0..3 * n).map(|i| if at == 2 && i == 2 * n { x.clone() } else { format!("b{}", i) }).collect();
    let t = format!("{} < Target > {} -> 0.125 {}", pre.join(" "), post.join("  "), body.join(" "));
    let p = parser::parse_production(&t).unwrap();
    eq_names(p.head().pre_context().unwrap(), &pre, "a long left context");
    eq_names(p.head().post_context().unwrap(), &post, "a long right context");
    eq_names(p.all_bodies()[0].string(), &body, "a long body");
    check(p.head().target().name().as_deref() == Some("Target") && p.all_bodies()[0].chance().unwrap() == 0.125, "target and chance");
}

// ---- C15: plant files ---------------------------------------------------------------------

fn digit() -> (u8, u64) {
    let c = u8();
    assume(c >= b'0' && c <= b'9');
    (c, (c - b'0') as u64)
}
fn c15_lines(n: usize) {
    let mut text = String::new();
    let (mut en, mut ed) = (2usize, 5.0f32);
    let mut initial: Option<&str> = None;
    let mut prods: Vec<&str> = vec![];
    let mut bad = false;
    for _ in 0..n {
        match pick(13) {
            0 => { text.push_str("n = 7"); en = 7 }
            1 => { text.push_str("  N=12 # iterations"); en = 12 }
            2 => { text.push_str("delta = 22.5"); ed = 22.5 }
            3 => { text.push_str("d=-90#x"); ed = -90.0 }
            4 => { text.push_str("initial: X Forward"); initial = Some("X Forward") }
            5 => { text.push_str("  initial:Y # start"); initial = Some("Y") }
            6 => { text.push_str("X -> Forward X"); prods.push("X") }
            7 => { text.push_str(" Y < X -> # erased"); prods.push("Y<X") }
            8 => text.push_str("# n = 99 -> initial: Z"),
            9 => text.push_str("   "),
            10 => { text.push_str("size = 3"); bad = true }
            11 => { text.push_str("n = four"); bad = true }
            _ => { text.push_str("no rule at all"); bad = true }
        }
        text.push_str(if pick(2) == 0 { "\n" } else { "\r\n" });
    }
    let r = plant::parse(&text);
    let ok = !bad && !prods.is_empty() && initial.is_some();
    if ok { reach("accepted") }
    if bad { reach("malformed") } else if prods.is_empty() { reach("no rules") } else if initial.is_none() { reach("no start") }
    check(r.is_ok() == ok, "accepted exactly with rules, a start and no malformed line");
    if let Ok((i, sys, s)) = r {
        check(i.n() == en && i.run_settings().max_iterations == en, "the number of iterations");
        check(i.delta() == ed, "the angle");
        check(s.to_string() == initial.unwrap(), "the starting string");
        let heads = prods.iter().enumerate().filter(|(k, p)| !prods[..*k].contains(p)).count();
        check(sys.production_len() == heads, "the rules");
    }
}
fn c15_many(n: usize) {
    // a long file: the last setting counts, every rule is there
    budget(1_000_000_000);
    let last = [0, n / 2, n - 1][pick(3)];
    let v = [10, 42, 99][pick(3)];
    let mut t = String::from("n = 9\ndelta=1\ninitial: Q\n");
    for i in 0..n {
        if i == last { t.push_str(&format!("n = {}\n# a comment\n\ndelta = {}.5\ninitial: R{} Forward\n", v, v, v)) }
        if i % 3 == 0 { t.push_str("   # n = 1 ------------------------------------------------------------------------------\r\n") }
        t.push_str(&format!("A{} < R{} > B{} -> A{} Forward\n", i, i, i, i + 1));
        if i % 5 == 4 { t.push_str(&format!("R{} -> S{}\n", i, i)) }
    }
    let (i, sys, s) = plant::parse(&t).unwrap();
    check(i.n() == v && i.delta() == v as f32 + 0.5, "the settings of a long file");
    check(s.to_string() == format!("R{} Forward", v), "the start of a long file");
    check(sys.production_len() == n + n / 5, "the rules of a long file");
    let d = |a: String| sys.derive_once(a.parse().unwrap()).unwrap().to_string();
    for i in 0..n {
        check(d(format!("A{} R{} B{}", i, i, i)) == format!("A{} A{} Forward B{}", i, i + 1, i), "each rule of a long file");
        check(d(format!("R{}", i)) == if i % 5 == 4 { format!("S{}", i) } else { format!("R{}", i) }, "each rule of a long file");
    }
}
fn c15_rules() {
    // rules with contexts and chances: the same as if added to a system one by one
    symbolic_rng();
    let all = ["A -> 0.25 B", "A -> C D", "A->0.5", "B < A -> 1 E", "A > B -> Forward", "  A  -> 0.125 - A #x", "X < A > A -> + 0.5"];
    let rules: Vec<&str> = (0..2).map(|_| all[pick(all.len())]).collect();
    let text = ["initial: A\n", rules[0], "\nn=1\n", rules[1]].concat();
    let (_, sys, _) = plant::parse(&text).unwrap();
    let own = System::new();
    for r in &rules { own.add_production(r.split('#').next().unwrap()).unwrap(); }
    check(sys.production_len() == own.production_len(), "the rules");
    let s: ProductionString = ["A", "B A", "A B", "B A B", "X A A"][pick(5)].parse().unwrap();
    let a = sys.derive_once(s.clone());
    if ndraws() > 0 { reach("with a choice") }
    repeat_draws(0);
    let b = own.derive_once(s);
    check(a.is_ok() == b.is_ok(), "the rules mean the same");
    if let (Ok(a), Ok(b)) = (a, b) { check(a == b, "the rules mean the same") } else { reach("too much") }
}
fn c15_long_number() {
    // numbers near the largest there is
    let base = ["18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967296", "00000000000000000000007", "65536"][pick(6)];
    let mut v = base.as_bytes().to_vec();
    let at = [0, v.len() - 1][pick(2)];
    let (c, _) = digit();
    v[at] = c;
    let v = String::from_utf8(v).unwrap();
    let r = plant::parse(&["X -> X\ninitial: X\nn =", &v].concat());
    match v.parse::<usize>() {
        Ok(n) => { reach("number"); let (i, ..) = r.unwrap(); check(i.n() == n && i.run_settings().max_iterations == n, "the number given") }
        Err(_) => { reach("too large"); check(r.is_err(), "too large a number") }
    }
}
fn c15_numbers(k: usize) {
    // arbitrary digits for the number of iterations
    let mut b = b"X -> X X\nn = ".to_vec();
    let mut v = 0;
    for _ in 0..k { let (c, d) = digit(); b.push(c); v = v * 10 + d }
    b.extend_from_slice(b"\ninitial: X");
    let t = String::from_utf8(b).unwrap();
    let (i, _, s) = plant::parse(&t).unwrap();
    check(i.n() as u64 == v, "the number of iterations is read");
    check(i.delta() == 5.0, "the default angle");
    check(s.len() == 1, "the start");
}
fn c15_value(k: usize) {
    // an arbitrary value after an equals sign is read as a number or rejected, never misread
    let v = utf8(k);
    for c in v.chars() { assume(c != '\n' && c != '\r' && c != '#') }
    let which = pick(2);
    let t = ["X -> X\ninitial: X\n", ["n", "delta"][which], " =", &v, "\n"].concat();
    let r = plant::parse(&t);
    if which == 0 {
        match v.trim().parse::<usize>() {
            Ok(n) => { reach("number"); check(r.is_ok() && r.unwrap().0.n() == n, "the number given") }
            Err(_) => { reach("no number"); check(r.is_err(), "not a number") }
        }
    } else {
        match v.trim().parse::<f32>() {
            Ok(d) => { reach("angle"); check(r.is_ok(), "an angle"); let g = r.unwrap().0.delta(); check(g == d || d != d && g != g, "the angle given") }
            Err(_) => { reach("no angle"); check(r.is_err(), "not an angle") }
        }
    }
}
fn c15_start(s: String) {
    // an arbitrary start string: what follows the first colon
    for c in s.chars() { assume(c != '\n' && c != '\r' && c != '#' && c != '=') }
    let t = [["initial:", " initial: X "][pick(2)], &s, "\nX -> X"].concat();
    let e = parser::parse_prod_string(&t[t.find(':').unwrap() + 1..t.rfind('\n').unwrap()]);
    match (plant::parse(&t), e) {
        (Ok((_, _, s)), Ok(e)) => { if e.is_empty() { reach("empty") } else { reach("start") } check(s == e, "the start string") }
        (r, e) => { reach("no start"); check(r.is_err() && e.is_err(), "no start string") }
    }
}
fn c15_names(s: String) {
    // what can be set, and under which names
    for c in s.chars() { assume(c != '\n' && c != '\r' && c != '#' && c != '=') }
    let t = ["X -> X\n", &s, "=7\ninitial: X"].concat();
    let r = plant::parse(&t);
    match s.trim() {
        "n" | "N" => { reach("iterations"); let (i, ..) = r.unwrap(); check(i.n() == 7 && i.delta() == 5.0, "the number of iterations") }
        "d" | "D" | "delta" | "∂" => { reach("angle"); let (i, ..) = r.unwrap(); check(i.n() == 2 && i.delta() == 7.0, "the angle") }
        _ => check(r.is_err(), "nothing else can be set"),
    }
}
fn c15_delta() {
    let mut b = b" delta ".to_vec();
    let at = pick(7);
    b[at] = u8();
    assume(b[at] < 128);
    c15_names(String::from_utf8(b).unwrap());
}
fn c15_total(s: String) {
    // too short to hold a rule and a start: always an error, never a crash
    check(plant::parse(&s).is_err(), "an incomplete file is an error");
}
fn c15_comment(n: usize) {
    // arbitrary text after a hash changes nothing
    let c = utf8(n);
    for x in c.chars() { assume(x != '\n' && x != '\r') }
    let at = pick(4);
    let h = |i: usize| if i == at { ["#", &c].concat() } else { String::new() };
    let t = ["n = 3", &h(0), "\ninitial: A B", &h(1), "\nA -> B", &h(2), "\n", &h(3), "\ndelta = 10"].concat();
    let r = plant::parse(&t);
    check(r.is_ok(), "comments are harmless");
    let (i, sys, s) = r.unwrap();
    check(i.n() == 3 && i.delta() == 10.0 && s.to_string() == "A B" && sys.production_len() == 1, "comments are ignored");
    let out = sys.derive_once(s).unwrap();
    check(out.to_string() == "B B", "the rules of the file");
}
fn c15_system() {
    // the system knows the turtle's symbols and those of the rules
    use rusty_systems::symbols::SymbolStore;
    let x = name();
    assume(x != ";");
    let t = ["initial: ", &x, "\n", &x, " -> Forward ", &x, "\n"].concat();
    let (i, sys, s) = plant::parse(&t).unwrap();
    for k in ["Forward", "Move", "+", "-", "[", "]", "X"] { check(sys.get_symbol(k).is_some(), "the turtle's symbols") }
    check(sys.get_symbol(&x).is_some(), "the symbols of the rules");
    check(i.n() == 2 && i.delta() == 5.0, "defaults");
    let out = sys.derive(s, i.run_settings()).unwrap();
    check(out.len() == 3 && out[0] == sys.get_symbol("Forward").unwrap() || x == "F", "derived as asked");
}

crate::harnesses! {
    h_c11_any3 => c11(utf8(3));
    h_c11_any4 => c11(utf8(4));
    h_c11_wide => c11_wide(2);
    h_c11_gaps => c11_gaps(2);
    t_c11_any5 => c11(utf8(5));
    t_c11_wide => c11_wide(3);
    t_c11_gaps => c11_gaps(3);
    h_c11_long => c11(long(1200, 2));
    t_c11_far => c11(long(9000, 2));
    h_c11_run => c11_run();
    h_c11_word => c11_word(300);
    h_c11_alphabet => c11(alphabet(5, &["a", " ", "-", ">", ";"]));
    t_c11_alphabet => c11(alphabet(6, &["a", " ", "-", ">", ";", "\u{3000}"]));
    h_c12_long => c12_long(400);
    h_c12_far => c12_long(3000);
    h_c12_words => c12(2, 2);
    h_c12_bytes => c12(1, 4);
    h_c12_parsed => c12_parsed(utf8(4));
    h_c12_unknown => c12_unknown();
    t_c12_words => c12(3, 2);
    t_c12_parsed => c12_parsed(utf8(5));
    h_c13_shape => c13(1, 1, false);
    h_c13_numbers => c13(0, 2, true);
    h_c13_total => c13_total(utf8(4));
    h_c13_around => c13_around(2);
    h_c13_head => c13_head(utf8(3));
    h_c13_wide => c13_wide();
    h_c13_tokens => c13_tokens(4);
    t_c13_shape => c13(1, 2, true);
    t_c13_tokens => c13_tokens(6);
    t_c13_total => c13_total(utf8(5));
    t_c13_around => c13_around(3);
    t_c13_head => c13_head(utf8(4));
    h_c14_alphabet => c14(alphabet(6, &["a", " ", "-", ">", "é"]));
    h_c14_long => c14(long(9000, 2));
    t_c14_alphabet => c14(alphabet(7, &["a", " ", "-", ">", "é", ";"]));
    h_c14_any3 => c14(utf8(3));
    h_c14_any4 => c14(utf8(4));
    t_c14_any5 => c14(utf8(5));
    h_c15_many => c15_many(60);
    h_c15_crowd => c15_many(140);
    t_c15_crowd => c15_many(250);
    h_c15_rules => c15_rules();
    h_c15_long_number => c15_long_number();
    h_c15_lines => c15_lines(3);
    h_c15_numbers => c15_numbers(3);
    h_c15_value => c15_value(3);
    h_c15_start => c15_start(utf8(2));
    t_c15_start => c15_start(utf8(3));
    h_c15_names => c15_names(utf8(3));
    h_c15_delta => c15_delta();
    h_c15_total => c15_total(utf8(3));
    h_c15_comment => c15_comment(3);
    h_c15_system => c15_system();
    t_c15_lines => c15_lines(4);
    t_c15_numbers => c15_numbers(6);
    t_c15_value => c15_value(4);
    t_c15_total => c15_total(utf8(5));
}
