//! Inputs whose every part is arbitrary, at shapes larger than those of the other harnesses, and texts that
//! are alike in all but one place, one after another and in the same memory.
use crate::rsx::*;
use crate::util::*;
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::interpretation::abop::parser as plant;
use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionStore};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::SystemFamily;
use rusty_systems::system::{self, family, RunSettings};

fn letter_at(v: &[u32], w: &[u32]) -> bool {
    let mut eq = v.len() == w.len();
    if eq { for i in 0..v.len() { eq &= v[i] == w[i] } }
    eq
}
/// two lists of rules used in turn on the same strings
fn c02_lists(nr: usize, len: usize) {
    let rule = || Rule { pre: if pick(2) == 1 { Some(letters(1, 3)) } else { None }, target: letter(3), post: None, body: letters(1, 3) };
    let (r, q): (Vec<Rule>, Vec<Rule>) = ((0..nr).map(|_| rule()).collect(), (0..nr).map(|_| rule()).collect());
    let s = letters(len, 3);
    let n = 1 + pick(2);
    let list = |r: &[Rule]| r.iter().map(|r| r.production()).collect::<Vec<_>>();
    let (a, b) = (list(&r), list(&q));
    for (rules, list) in [(&r, &a), (&q, &b), (&r, &a)] {
        let out = system::derive(pstr(&s), list, RunSettings::for_max_iterations(n)).unwrap();
        let mut exp = s.clone();
        for _ in 0..n { exp = step(rules, &exp) }
        same(&codes(&out), &exp, "n steps of these rules");
    }
}
/// n steps of a rotation, for n beyond 16 bits
fn c02_beyond() {
    budget(4_000_000_000);
    let k = letter(3);
    let p: Vec<Production> = (1..4).map(|i| Rule::plain(i, &[i % 3 + 1]).production()).collect();
    let n = 65536 + 2;
    let out = system::derive(pstr(&[k]), &p, RunSettings::for_max_iterations(n)).unwrap();
    same(&codes(&out), &[(k - 1 + (n % 3) as u32) % 3 + 1], "65538 steps");
}
/// long contexts of arbitrary symbols in an arbitrary string
fn c03_deep() {
    let n = [3, 4, 5, 9, 17][pick(5)];
    let left = pick(2) == 1;
    let ctx: Vec<u32> = (0..n).map(|_| u32()).collect();
    let s: Vec<u32> = (0..n + 1).map(|_| u32()).collect();
    let (i, there) = if left { (n, &s[..n]) } else { (0, &s[1..]) };
    let r = Rule { pre: if left { Some(ctx.clone()) } else { None }, target: s[i], post: if left { None } else { Some(ctx.clone()) }, body: vec![] };
    let exp = letter_at(&ctx, there);
    let got = r.head().matches(&pstr(&s), i);
    if got { reach("match") } else { reach("no match") }
    check(got == exp, "a long context of any symbols");
}
/// long contexts that differ in one place, in the order of two, or in nothing
fn c04_deep() {
    let n = [3, 4, 5, 9, 17][pick(5)];
    let left = pick(2) == 1;
    let one: Vec<u32> = (0..n as u32).map(|i| 20 + i).collect();
    let mut two = one.clone();
    let how = pick(n + 2);
    if how < n { two[how] = 90 } else if how == n { two.swap(n / 2, n / 2 + 1 - 2 * (n / 2 + 1 == n) as usize) }
    let sys = System::new();
    let rule = |c: &[u32], b: u32| if left { Rule::ctx(c, 7, &[], &[b]) } else { Rule::ctx(&[], 7, c, &[b]) };
    sys.add_production(rule(&one, 100).production()).unwrap();
    let got = sys.add_production(rule(&two, 101).production()).unwrap();
    let eq = how > n;
    if eq { reach("merged") } else { reach("apart") }
    check(sys.production_len() == 2 - eq as usize, "one rule for each head");
    check(got.head() == &rule(&two, 0).head() && got.all_bodies().len() == 1 + eq as usize, "the rule added to");
}
/// heads with contexts of arbitrary symbols are equal exactly with equal contexts
fn c04_heads() {
    let n = [3, 4, 5, 9, 17][pick(5)];
    let left = pick(2) == 1;
    let c: Vec<Vec<u32>> = (0..2).map(|_| (0..n).map(|_| u32()).collect()).collect();
    let rule = |c: &[u32]| if left { Rule::ctx(c, 7, &[], &[1]) } else { Rule::ctx(&[], 7, c, &[1]) };
    let eq = letter_at(&c[0], &c[1]);
    let got = rule(&c[0]).head() == rule(&c[1]).head();
    if got { reach("equal") } else { reach("different") }
    check(got == eq && (rule(&c[0]).production() == rule(&c[1]).production()) == eq, "heads are equal exactly with equal contexts");
}
/// replacements that may be the same, and their chances
fn c04_bodies(n: usize) {
    let sys = System::new();
    let texts = ["", "B", "B C", "C"];
    let mut all: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        let (b, c) = (pick(4), pick(3));
        let got = if bit() { sys.add_production(format!("A -> {} {}", ["", "0.25", "0"][c], texts[b]).as_str()) } else {
            let s = parser::parse_prod_string(texts[b]).unwrap();
            let head = parser::parse_production_head("A").unwrap();
            sys.add_production(Production::new(head, match c { 0 => ProductionBody::new(s), c => ProductionBody::try_with_chance([0.0, 0.25, 0.0][c], s).unwrap() }))
        }.unwrap();
        if all.contains(&(b, c)) { reach("the same again") }
        all.push((b, c));
        check(got.all_bodies().len() == all.len() && sys.production_len() == 1, "every replacement added so far");
        for (x, (b, c)) in got.all_bodies().iter().zip(&all) {
            check(x.string().to_string() == texts[*b] && x.chance().is_user_set() == (*c > 0) && x.chance().unwrap_or(9.0) == [9.0, 0.25, 0.0][*c], "each replacement as it was added");
        }
    }
}
/// arbitrary shares of two replacements, in either order with a third that takes the rest
fn c05_shares(unit: u32) {
    symbolic_rng();
    let k = below(unit as usize + 1) as u32;
    let c = k as f32 / unit as f32;
    let first = pick(2) == 0;
    let b = |i: u32, c: Option<f32>| match c { None => ProductionBody::new(pstr(&[100 + i])), Some(c) => ProductionBody::try_with_chance(c, pstr(&[100 + i])).unwrap() };
    let mut p = Production::new(Rule::plain(1, &[]).head(), b(0, if first { Some(c) } else { None }));
    p.add_body(b(1, if first { None } else { Some(c) }));
    let p = [p];
    let once = || {
        let before = ndraws();
        let out = system::derive_once(pstr(&[1]), &p).unwrap();
        check(out.len() == 1, "one body");
        let o = concretize(out[0].code() as usize) as u32;
        check(o == 100 || o == 101, "a body of the rule");
        // whether the body with the chance was chosen
        ((o == 100) == first, if ndraws() == before { None } else { Some((draw_at(ndraws() - 1) >> 9) as u64) })
    };
    let (a, b) = (once(), once());
    for x in [&a, &b] { check(x.1.is_some() || !x.0 && k == 0 || x.0 && k == unit, "a certain choice") }
    if let (Some(r), Some(s)) = (a.1, b.1) {
        let far = if r > s { r - s } else { s - r };
        let edge = (k as u64) * (8388608 / unit as u64);
        if a.0 && b.0 { reach("chance"); check(far <= edge + 200, "a body is picked by its share of the draws") }
        if !a.0 && !b.0 { reach("rest"); check(far + edge <= (1 << 23) + 200, "a body is picked by its share of the draws") }
    }
}
fn graphic(n: usize) -> String {
    unsafe { String::from_utf8_unchecked((0..n).map(|_| { let c = u8(); assume(c.is_ascii_graphic()); c }).collect()) }
}
/// any first word of a replacement: a chance or a name
fn c06_any(n: usize) {
    let t = graphic(n);
    let p = parser::parse_production(&["A -> ", &t, " B"].concat());
    match t.parse::<f32>() {
        Ok(c) => check(p.is_ok() == (c >= 0.0 && c <= 1.0), "a number is a chance"),
        Err(_) => {
            check(p.is_ok(), "any other word is a name");
            let p = p.unwrap();
            let b = &p.all_bodies()[0];
            check(b.chance().is_derived() && b.len() == 2 && b.string()[0].name().as_deref() == Some(&t), "any other word is a name");
            reach("a name");
        }
    }
}
fn c06_marks() {
    let t = ["5%", "50%", "1/2", "0,5", "½", "(0.5)", "[0.5]", "0.5:", ":0.5", "p=0.5", "0.5;", "٣", "1st", "0b1", "1e", "5.0.0", "0.5f", "#1", "1'", "1_0", "--1", "+-1", "1-1", "∞", "1²"];
    let t = t[pick(t.len())];
    let p = parser::parse_production(&["A -> ", t, " B"].concat()).unwrap();
    let b = &p.all_bodies()[0];
    check(b.chance().is_derived() && b.len() == 2 && b.string()[0].name().as_deref() == Some(t), "a word that is not a number is a name");
}
/// arbitrary names, added in every way and looked up by another
fn c07_any() {
    let name = || { let c = u8(); assume(c.is_ascii_alphabetic()); unsafe { String::from_utf8_unchecked(vec![c, b'x']) } };
    let sys = System::new();
    let (a, b, c) = (name(), name(), name());
    match pick(4) {
        0 => { sys.add_symbol(a.as_str()).unwrap(); sys.add_symbol(b.as_str()).unwrap(); }
        1 => { sys.add_production([&a, "->", &b].concat().as_str()).unwrap(); }
        2 => { sys.add_production([&a, " < ", &b, " -> "].concat().as_str()).unwrap(); }
        _ => { sys.add_production([&a, " > ", &b, " ->"].concat().as_str()).unwrap(); }
    }
    let known = c == a || c == b;
    if known { reach("known") } else { reach("unknown") }
    let got = sys.get_symbol(&c);
    check(got.is_some() == known, "known exactly if it was added");
    if let Some(s) = got { check(s.name().as_deref() == Some(&c), "the symbol of that name") }
    check(sys.symbol_len() == 1 + (a != b) as usize, "exactly the symbols added");
}
/// codes asked about before they are handed out
fn c08_before() {
    let c = get_code("first").unwrap();
    let d = u32();
    let ways = pick(3);
    let blank = match ways { 0 => get_name(d).is_none(), 1 => Symbol::try_from(d).is_err(), _ => Symbol::from_code(d).name().is_none() && Symbol::from_code(d).to_string() == format!("code:{}", d) };
    check(blank == (d != c), "only codes handed out have a name");
    let e = get_code("second").unwrap();
    if e == d { reach("handed out now") }
    check(get_name(e).as_deref() == Some("second") && Symbol::try_from(e).is_ok() && Symbol::from_code(e).to_string() == "second" && e != c, "a code that was handed out has its name");
    check(get_name(d).is_some() == (d == c || d == e), "only codes handed out have a name");
}
/// texts that lie in the same memory one after the other
fn one_buffer(kind: usize) {
    let mut buf = String::with_capacity(64);
    let mut first = [0u32; 2];
    let mut ch = [0u8; 2];
    for i in 0..2 {
        let c = u8();
        assume(c.is_ascii_alphabetic());
        ch[i] = c;
        buf.clear();
        let text = |c: u8, t: &str| { let t = t.as_bytes().iter().map(|b| if *b == b'?' { c } else { *b }).collect(); unsafe { String::from_utf8_unchecked(t) } };
        match kind {
            0 => { buf.push_str(&text(c, "n?")); first[i] = get_code(&buf).unwrap(); check(get_name(first[i]).as_deref() == Some(&buf), "the name of the code") }
            1 => { buf.push_str(&text(c, "a ? b")); let s = parser::parse_prod_string(&buf).unwrap(); check(s.len() == 3 && s.to_string() == buf, "the words of this text"); first[i] = s[1].code() }
            2 => {
                buf.push_str(&text(c, "? < T -> 0.5 B"));
                let p = parser::parse_production(&buf).unwrap();
                let l = p.head().pre_context().unwrap();
                check(l.len() == 1 && l.to_string() == text(c, "?"), "the parts of this text");
                first[i] = l[0].code();
            }
            _ => {
                buf.push_str(&text(c, "initial: X\n? -> X"));
                let (_, sys, _) = plant::parse(&buf).unwrap();
                check(sys.get_symbol(&text(c, "?")).is_some() && sys.production_len() == 1, "the lines of this text");
                first[i] = get_code(&text(c, "?")).unwrap();
            }
        }
    }
    if ch[0] == ch[1] { reach("the same") } else { reach("different") }
    check((first[0] == first[1]) == (ch[0] == ch[1]), "equal exactly for equal texts");
}
/// long texts that are alike in all but one place, one after another
fn alike(kind: usize) {
    let n = [8, 14, 40, 100][pick(4)];
    let at = [0, n / 2, n - 1][pick(3)];
    let mut got: Vec<u32> = vec![];
    let mut ch = vec![];
    for _ in 0..2 {
        let c = u8();
        assume(c.is_ascii_uppercase());
        ch.push(c);
        let name = |i: usize| if i == at { unsafe { String::from_utf8_unchecked(vec![c]) } } else { format!("w{}", i) };
        let text = (0..n).map(name).collect::<Vec<_>>().join(" ");
        let s = match kind {
            0 => parser::parse_prod_string(&text).unwrap(),
            1 => parser::parse_production(&["T -> ", &text].concat()).unwrap().all_bodies()[0].string().clone(),
            2 => parser::parse_production(&[&text, " < T -> B"].concat()).unwrap().head().pre_context().unwrap().clone(),
            3 => text.parse::<ProductionString>().unwrap(),
            4 => parser::parse_production_head(&["T > ", &text].concat()).unwrap().post_context().unwrap().clone(),
            5 => plant::parse(&["X -> X\ninitial:", &text].concat()).unwrap().2,
            _ => { let p = plant::parse(&["initial: T\nT -> ", &text].concat()).unwrap(); p.1.derive_once(p.2).unwrap() }
        };
        check(s.len() == n, "every word");
        for (i, x) in s.iter().enumerate() { if i == at { check(x.name() == Some(name(i)), "the word there") } }
        check(s[if at == 0 { 1 } else { 0 }].name() == Some(name(if at == 0 { 1 } else { 0 })), "the other words");
        got.push(s[at].code());
    }
    if ch[0] == ch[1] { reach("the same") } else { reach("different") }
    check((got[0] == got[1]) == (ch[0] == ch[1]), "equal exactly for equal words");
}
/// names of unusual characters in every part of a rule
fn c13_exotic() {
    let v = ["→", "⇒", "A→B", "=>", "−", "–>", "<-", "<<", ">>", "<b", "b>", "<>", "a<b", ";", "a;b", ";;", "=", "a=b", ":", "#", "'x'", "\"y\"", "(", "f(x)", ",", "|", "\\", "*", "%", "5%", "0x5", "∂", "\u{301}", "\u{feff}", "\u{200b}", "ß", "İ", "𝒳", "inf", "nan", "1.5", "-1", "->x"];
    let v = |i: usize| v[i];
    let at = pick(4);
    let x = v(pick(if at < 2 { 42 } else { 43 }));
    // where a number is not taken for a chance, and an arrow behind the first is part of a name
    let part = |k: usize| if at == k { x } else { "N" };
    let text = format!("L {} < {} > {} -> M {}", part(0), part(1), "R", part(2));
    let text = if at == 3 { format!("L N < N > R {} -> M N", x) } else { text };
    if at != 2 && x == "->x" { return }
    let p = parser::parse_production(&text);
    if at == 3 && x == "->x" { return }
    check(p.is_ok(), "a rule of unusual names");
    let p = p.unwrap();
    let names = |s: &ProductionString| s.iter().map(|s| s.name().unwrap()).collect::<Vec<_>>();
    check(names(p.head().pre_context().unwrap()) == ["L", part(0)], "the left context");
    check(p.head().target().name().as_deref() == Some(part(1)), "the target");
    check(names(p.head().post_context().unwrap()) == (if at == 3 { vec!["R", x] } else { vec!["R"] }), "the right context");
    check(names(p.all_bodies()[0].string()) == ["M", part(2)] && p.all_bodies()[0].chance().is_derived(), "the replacement");
}

/// a setting given twice, well or not, before or after the rules
fn c15_twice() {
    let kinds = [("n", ["3", "x"]), ("delta", ["30", "x"]), ("n", ["7", "-1"]), ("delta", ["1.5", "1,5"]), ("n", ["2", "1.5"]), ("delta", ["-4", "30 40"])];
    let (k, v) = kinds[pick(6)];
    let (a, b) = (pick(2), pick(2));
    let eq = ["=", " = "][pick(2)];
    let l = |i: usize| [k, eq, v[i]].concat();
    let rule = "initial: X\nX -> X Y";
    let text = [[&l(a), rule, &l(b)].join("\n"), [&l(a), &l(b), rule].join("\n"), [rule, "", "# again", &l(a), &l(b)].join("\n")][pick(3)].clone();
    let r = plant::parse(&text);
    check(r.is_ok() == (a == 0 && b == 0), "every setting has to be well-formed");
    match r {
        Ok((i, s, _)) => {
            reach("read");
            check(s.production_len() == 1, "the rule");
            if k == "n" { check(i.n() == v[0].parse::<usize>().unwrap(), "the number given") } else { check(i.delta() == v[0].parse::<f32>().unwrap(), "the angle given") }
        }
        Err(_) => reach("refused"),
    }
}
/// a malformed line among well-formed ones, that may be like one of them
fn c15_among() {
    let good = ["n = 4", "delta = 30", "initial: X", "X -> X Y", "Y -> 0.5 X", "A < X > Y -> X"];
    let bad = ["n = 4x", "delta = 3 0", "n -> ", "X - > X", "X -> 0.5", "X X -> Y", "Y -> 2 X", "A < X > Y", "A < < X -> Y", "m = 4", "X > -> Y", "delta"];
    // malformed only if the parser of single rules thinks so as well
    let (g, b) = (pick(good.len()), pick(bad.len()));
    let at = pick(3);
    let mut lines = vec![good[g], good[(g + 1) % 6], good[(g + 2) % 6]];
    let single = plant::parse(&["initial: X\nX -> X\n", bad[b]].concat()).is_ok();
    lines.insert(at + 1, bad[b]);
    let text = ["initial: X\nX -> X\n", &lines.join("\n")].concat();
    let r = plant::parse(&text);
    if r.is_ok() { reach("read") } else { reach("refused") }
    check(r.is_ok() == single, "a line is well-formed or not whatever is around it");
}
/// families that nobody holds any more are still registered
fn c16_dropped(n: usize) {
    let tag = if is_engine() { String::new() } else { round().to_string() };
    let name = |i: usize| format!("Fam{}{}", tag, i);
    let f = |i: usize| SystemFamily::define().with_terminal(format!("T{}", i).as_str(), None).build(name(i)).unwrap();
    let way = pick(3);
    let keep = pick(2) == 1;
    let mut held = vec![];
    for i in 0..n {
        let g = match way { 0 => family::register(f(i)).unwrap(), 1 => family::get_or_init_family(name(i), || f(i)), _ => SystemFamily::define().with_terminal(format!("T{}", i).as_str(), None).register(name(i)).unwrap() };
        if keep && i % 5 == 2 { held.push(g) }
    }
    let at = below(n);
    let at = concretize(at);
    match pick(4) {
        0 => check(family::family_exists(name(at)) && !family::family_exists(name(n)), "still known"),
        1 => { let g = family::get_family(name(at)); check(g.is_some() && g.unwrap().terminals().next().unwrap().name == format!("T{}", at), "still the same") }
        2 => check(family::register(f(at)).is_err() && SystemFamily::define().register(name(at)).is_err(), "a name is taken once"),
        _ => {
            let mut made = false;
            let g = family::get_or_init_family(name(at), || { made = true; f(0) });
            check(!made && g.terminals().next().unwrap().name == format!("T{}", at), "made once");
            let s = System::of_family(name(at).as_str());
            check(s.is_ok() && s.unwrap().get_symbol(&format!("T{}", at)).is_some(), "a system by name");
        }
    }
    reach("looked up");
}
/// systems of families that have the same name, or the same symbols
fn c17_same_name() {
    let names = ["Fam", "Other"];
    let syms = [["a", "b"], ["c", "d"], ["a", "c"]];
    let ways = pick(3);
    let (n1, n2) = (0, pick(2));
    let (k1, k2) = (pick(3), pick(3));
    let f = |n: usize, k: usize| SystemFamily::define().with_terminal(syms[k][0], None).with_production(syms[k][1], Some("x")).build(names[n]).unwrap();
    let judge = |s: &System, k: usize| {
        check(s.symbol_len() == 2 && s.production_len() == 0, "exactly the symbols of the family");
        for x in ["a", "b", "c", "d"] { check(s.get_symbol(x).is_some() == syms[k].contains(&x), "exactly the symbols of the family") }
    };
    let one = match ways {
        0 => System::of_family(f(n1, k1)).unwrap(),
        1 => { family::register(f(n1, k1)).unwrap(); System::of_family(names[n1]).unwrap() }
        _ => System::of_family(std::sync::Arc::new(f(n1, k1))).unwrap(),
    };
    // what a system is given later is its own
    if bit() { one.add_symbol("more").unwrap(); } else { judge(&one, k1) }
    if n1 == n2 { reach("the same name") } else { reach("another name") }
    judge(&System::of_family(f(n2, k2)).unwrap(), k2);
    if ways == 1 { judge(&System::of_family(names[n1]).unwrap(), k1) }
    judge(&System::of_family(f(n1, k1)).unwrap(), k1);
}
/// angles of all sizes, turned by again and again
fn c18_fine() {
    use crate::h_geom::{judge, turtle, CMD};
    use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
    use rusty_systems::interpretation::Interpretation;
    let sys = AbopTurtleInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let delta = [1e-6, 1e-4, 0.001, 0.01, 0.02, 0.057, 0.1, 0.5, 1.0, 89.99, 90.01, 179.999, 359.99, -0.01, 3.0, 7.0][pick(16)];
    let back = pick(3);
    let t = [1, 2, 3, 20, 40][pick(5)];
    let cmds: Vec<usize> = (0..t).flat_map(|i| if back == 2 && i % 3 == 2 { vec![3, 0, 3, 0] } else { vec![2 + (back == 1) as usize, 0, 0] }).chain([4, 2, 0, 0, 5, 3, 0]).collect();
    let s = ProductionString::from(cmds.iter().map(|c| syms[*c]).collect::<Vec<_>>());
    judge(AbopTurtleInterpretation::new(1, delta).interpret(&sys, &s), turtle(&cmds, delta));
}
/// nearly flat drawings, tiny ones, and canvases of all kinds
fn c20_flat() {
    let sizes = [1, 7, 1000, 1_000_000, 1_000_000_000_000];
    let (w, h) = (sizes[pick(5)], sizes[pick(5)]);
    let scale = [1e-9, 1e-7, 3e-4, 1.0, 2e6];
    let (kx, ky) = (scale[pick(5)], scale[pick(5)]);
    let p = [vec![vec![(-0.5, 0.25), (0.5, 1.0)]], vec![vec![(0.0, 0.0), (0.0, 1.0)], vec![(0.75, 0.5)]]];
    let p = p[pick(2)].iter().map(|q| q.iter().map(|(x, y)| (x * kx, y * ky)).collect()).collect();
    crate::h_geom::c20_judge(w, h, p);
}

/// strings and heads of every length, that differ in one place or nowhere
fn c26_lengths(n: usize) {
    let n = 1 + pick(n);
    let at = n - 1 - pick(if n < 10 { n } else { 10 });
    let a: Vec<u32> = (0..n as u32).collect();
    let mut b = a.clone();
    b[at] = u32();
    let same = b[at] == at as u32;
    if same { reach("equal") } else { reach("different") }
    let (x, y) = (pstr(&a), pstr(&b));
    check((x == y) == same && (x != y) != same, "equal exactly with equal symbols");
    let h = |c: &[u32], left: bool| if left { Rule::ctx(c, 7, &[], &[]).production() } else { Rule::ctx(&[], 7, c, &[]).production() };
    let left = bit();
    check((h(&a, left) == h(&b, left)) == same && (h(&a, left).head() == h(&b, left).head()) == same, "equal exactly with equal contexts");
}
/// strings of every length, joined, copied, read and indexed
fn c28_lengths(n: usize) {
    let n = pick(n);
    let at = pick(n + 1);
    let c: Vec<u32> = (0..n as u32).map(|i| if i == at as u32 { u32() } else { 50 + i }).collect();
    let x = pstr(&c);
    check(x.len() == n && x.is_empty() == (n == 0), "as many symbols");
    same(&codes(&x), &c, "the symbols in order");
    same(&x.iter().map(|s| s.code()).collect::<Vec<_>>(), &c, "the symbols in order");
    for i in 0..n { check(x[i].code() == c[i], "the symbol there") }
    reach("read");
    let m = pick(4);
    let y = if bit() { pstr(&c[..if m < n { m } else { n }]) } else { pstr(&[&[50], &c[..if m < n { m } else { n }]].concat()) };
    let mut z = x.clone();
    for s in y.iter() { z.push_symbol(*s) }
    let want = [&c[..], &codes(&y)].concat();
    same(&codes(&z), &want, "the symbols pushed");
    // over what was there before
    let mut y = y;
    y.clone_from(&x);
    same(&codes(&y), &c, "a copy over another string");
    same(&codes(&x), &c, "a copy stays as it was");
}

/// very long strings, where rules look over every border there could be
fn c01_vast(sizes: &[usize]) {
    budget(4_000_000_000);
    let border = sizes[pick(sizes.len())];
    let n = border + 9;
    let mut s = vec![1u32; n];
    let c = letter(3);
    s[border - 1 + pick(2)] = c;
    let rules = [Rule::ctx(&[], 1, &[1, 1], &[4]), Rule::ctx(&[1], 1, &[], &[]), Rule::ctx(&[2], 1, &[], &[5, 6]), Rule::ctx(&[1, 1], 3, &[1], &[6])];
    let list: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let out = system::derive_once(pstr(&s), &list).unwrap();
    let o = codes(&out);
    // far from the arbitrary symbol every symbol is rewritten alike
    let exp = step(&rules, &s[border - 20..]);
    check(o.len() == border - 20 + exp.len() && o[..border - 20].iter().all(|x| *x == 4) && letter_at(&o[border - 20..], &exp), "one step of a very long string");
}
/// names looked up before and after they become known, whatever is known already
fn c07_looks(n: usize) {
    let sys = System::new();
    let names = ["A", "B", "C", "D", "E", "F", "G", "H"];
    let mut known = [false; 8];
    for i in 0..pick(5) { sys.add_symbol(names[i]).unwrap(); known[i] = true }
    let at = 4 + pick(2);
    for k in 0..n {
        match pick(5) {
            0 => {}
            1 => { sys.add_symbol(names[at]).unwrap(); known[at] = true }
            2 => { sys.add_production(["A -> F", "A -> E"][5 - at]).unwrap(); known[at] = true; known[0] = true }
            3 => { sys.add_production(["A < F > A -> G", "E -> G"][5 - at]).unwrap(); known[at] = true; known[6] = true; known[0] |= at == 5 }
            _ => check(sys.add_production(["F F -> A", "E -> 2 A"][5 - at]).is_err(), "not a rule"),
        }
        for i in [at, (at + k) % 8, 7] { check(sys.get_symbol(names[i]).is_some() == known[i], "a name is found exactly if it is known") }
        check(sys.symbol_len() == known.iter().filter(|k| **k).count(), "as many as are known");
    }
    reach("looked up");
}
/// words and texts longer than any small number counts
fn c11_vast() {
    budget(4_000_000_000);
    let n = [65533, 65534, 65535, 65536, 65537, 70001][pick(6)];
    let c = u8();
    assume(c.is_ascii_graphic());
    let tail = unsafe { String::from_utf8_unchecked(vec![c]) };
    if pick(2) == 0 {
        let w = "x".repeat(n);
        let p = parser::parse_prod_string(&["a ", &w, " b"].concat()).unwrap();
        check(p.len() == 3 && p[1].name().unwrap() == w && p[2] == Symbol::build("b").unwrap(), "the words of a very long text");
    } else {
        let t = ["a", &" ".repeat(n), "b ", &tail].concat();
        match parser::parse_prod_string(&t) {
            Ok(p) => check(p.len() == 2 + (c != b';') as usize && p[1] == Symbol::build("b").unwrap() && (c == b';' || p[2].name().unwrap() == tail), "the words of a very long text"),
            Err(_) => check(c == b'<' || c == b'>', "rejected exactly if there is a rule mark"),
        }
    }
    reach("parsed");
}
/// symbols whose names are nearly those of commands
fn c18_named() {
    use crate::h_geom::{judge, turtle, CMD};
    use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
    use rusty_systems::interpretation::Interpretation;
    let sys = AbopTurtleInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let word = ["Forward", "Move", "+", "-", "[", "]"][pick(6)];
    let alike = match pick(18) {
        0 => word.to_lowercase() + ".", 1 => [word, "1"].concat(), 2 => [word, "_1"].concat(), 3 => ["_", word].concat(), 4 => [word, word].concat(), 5 => [word, "s"].concat(), 6 => [word, "'"].concat(), 7 => [word, "(1)"].concat(), 8 => word[..1].to_string() + "~", 9 => ["\"", word, "\""].concat(),
        10 => [word, "\u{200b}"].concat(), 11 => ["\u{feff}", word].concat(), 12 => ["f", "m", "F", "M", "\u{ff0b}", "\u{2212}"][pick(6)].to_string(), 13 => ["FORWARD", "forward", "move", "MOVE", "Draw", "Back"][pick(6)].to_string(), 14 => ["|", "!", "&", "^", "\\", "/"][pick(6)].to_string(), 15 => [word, ":2"].concat(), 16 => ["(", ")", "{", "}", "[]", "]["][pick(6)].to_string(), _ => [word, "-", word].concat(),
    };
    let other = Symbol::build(&alike).unwrap();
    if bit() { sys.add_symbol(other).unwrap(); }
    // what is nothing to the turtle may be anywhere
    let cmds = [0, 2, 0, 4, 3, 0, 5, 1, 0];
    let at = pick(10);
    let mut s: Vec<Symbol> = cmds.iter().map(|c| syms[*c]).collect();
    s.insert(at, other);
    if bit() { s.push(other); s.insert(0, other) }
    judge(AbopTurtleInterpretation::new(1, 90.0).interpret(&sys, &ProductionString::from(s)), turtle(&cmds, 90.0));
    reach("drawn");
}
/// lines longer than anyone would write
fn c15_vast() {
    budget(4_000_000_000);
    let n = [200, 1025, 5000, 70000][pick(4)];
    let (sp, zeros) = (" ".repeat(n), "0".repeat(n));
    let mut lines = vec!["n = 4".to_string(), "delta = 30".to_string(), "initial: X".to_string(), "X -> X Y".to_string()];
    let i = match pick(11) {
        0 => { lines[0] = ["n", &sp, "= 4"].concat(); 0 } 1 => { lines[0] = ["n =", &sp, "4"].concat(); 0 } 2 => { lines[0] = [&sp, "n = 4"].concat(); 0 } 3 => { lines[0] = ["n = 4", &sp].concat(); 0 } 4 => { lines[0] = ["n = ", &zeros, "4"].concat(); 0 }
        5 => { lines[1] = ["delta = 30.", &zeros].concat(); 1 } 6 => { lines[0] = ["n = 4 #", &zeros, "= 5"].concat(); 0 } 7 => { lines[2] = ["initial:", &sp, "X"].concat(); 2 } 8 => { lines[3] = ["X ->", &sp, "X Y"].concat(); 3 } 9 => { lines[3] = ["X", &sp, "-> X", &sp, "Y"].concat(); 3 } _ => { lines[3] += &[" # ", &zeros].concat(); 3 }
    };
    lines.swap(i, [0, 3][pick(2)]);
    let (i, s, a) = plant::parse(&lines.join("\n")).unwrap();
    check(i.n() == 4 && i.delta() == 30.0 && s.production_len() == 1 && s.get_symbol("Y").is_some() && a.to_string() == "X", "the lines, however long");
    reach("read");
}
/// very many replacements for one head
fn c04_bodies_many() {
    let n = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300][pick(16)];
    let sys = System::new();
    let c = u32();
    let at = [0, n / 2, n - 1][pick(3)];
    let rule = |i: usize| Rule::ctx(&[1], 2, &[], &[if i == at { c } else { 3 + (i % 5) as u32 }]).production();
    let mut last = None;
    if bit() {
        for i in 0..n { last = Some(sys.add_production(rule(i)).unwrap()) }
    } else {
        let mut p = rule(0);
        for i in 1..n { p.add_body(rule(i).all_bodies()[0].clone()) }
        last = Some(sys.add_production(p).unwrap());
    }
    let again = sys.add_production(Rule::ctx(&[1], 2, &[], &[9]).production()).unwrap();
    let (l, again) = (last.unwrap(), again.all_bodies());
    check(l.all_bodies().len() == n && again.len() == n + 1 && sys.production_len() == 1, "every replacement is there");
    let mut all = true;
    for i in 0..n { all &= again[i].string()[0].code() == if i == at { c } else { 3 + (i % 5) as u32 } }
    check(all && again[n].string()[0].code() == 9, "every replacement is there");
}
/// two heads with contexts of one length, two symbols of which are arbitrary in each
fn c04_free(lens: &[usize]) {
    let n = lens[pick(lens.len())];
    let sys = System::new();
    let side = pick(3);
    let (a, b) = (letters_u32(2), letters_u32(2));
    let at = [0, n - 2][pick(if n > 2 { 2 } else { 1 })];
    let whole = |c: &[u32]| { let mut v = vec![9; n]; v[at] = c[0]; v[at + 1] = c[1]; v };
    let (a, b) = (whole(&a), whole(&b));
    let rule = |c: &[u32], b: u32| match side { 0 => Rule::ctx(c, 7, &[], &[b]), 1 => Rule::ctx(&[], 7, c, &[b]), _ => Rule::ctx(&c[..n / 2], 7, &c[n / 2..], &[b]) };
    sys.add_production(rule(&a, 5).production()).unwrap();
    let r = sys.add_production(rule(&b, 6).production()).unwrap();
    let mut same = true;
    for i in 0..n { same &= a[i] == b[i] }
    let k = sys.production_len();
    check(k == 1 + !same as usize, "one rule for each head");
    check(r.all_bodies().len() == 3 - k, "the rule added to");
    if k == 1 { reach("one head") } else { reach("two heads") }
}
fn letters_u32(n: usize) -> Vec<u32> { (0..n).map(|_| u32()).collect() }
/// many contexts, in pairs of all kinds: each pair is a head of its own
fn c04_grid(n: usize) {
    let sys = System::new();
    let left = pick(2) == 1;
    let base = [100, 1, 1 << 16, 0x7fff_ff00][pick(4)];
    let rule = |i: u32, j: u32, b: u32| if left { Rule::ctx(&[base + i, base + j], 7, &[], &[b]) } else { Rule::ctx(&[], 7, &[base + i, base + j], &[b]) };
    let mut k = 0;
    for i in 0..n as u32 { for j in 0..n as u32 {
        // not all of them, but all distances
        if i % 4 != 0 && j % 4 != 1 { continue }
        sys.add_production(rule(i, j * 3, 5).production()).unwrap();
        k += 1;
    } }
    check(sys.production_len() == k, "one rule for each head");
    let (i, j) = (4 * pick(2) as u32, pick(3) as u32);
    let again = sys.add_production(rule(i, j * 3, 6).production()).unwrap();
    check(sys.production_len() == k && again.all_bodies().len() == 2, "the rule added to");
    reach("added");
}
/// more replacements than chances for them
fn c05_over(n: usize) {
    symbolic_rng();
    let at = [0, 1, n / 2, n - 2][pick(4)];
    let mut p = Production::new(Rule::plain(1, &[]).head(), ProductionBody::new(pstr(&[9])));
    for i in 1..n { p.add_body(if i == at + 1 || i == n - 1 { ProductionBody::try_with_chance(if at == n - 2 { 1.0 } else { 0.75 }, pstr(&[10])).unwrap() } else { ProductionBody::new(pstr(&[11])) }) }
    if at == n - 2 { p.add_body(ProductionBody::try_with_chance(0.25, pstr(&[12])).unwrap()) }
    check(system::derive_once(pstr(&[1]), &[p]).is_err(), "chances of more than one are an error");
    reach("refused");
}
/// chances with many digits are rounded once
fn c06_digits() {
    let t = ["0.500000029802322387695312500000000000001", "0.50000002980232238769531250000", "0.5000000298023223876953124999999999999", "0.1000000014901161193847656250000000000001", "0.099999994039535522460937500000000000000001",
        "0.99999997019767761230468749999999999999999", "0.333333343267440795898437500000000000000000000001", "1.40129846432481707092372958328991613128e-45", "0.0000000000000000000000000000000000000000000007006492321624085354618647916449580656401309709382578858785341419448955413429303", "0.75000002980232238769531250000000000000000000000000000000000001",
        "0.25000001490116119384765625000000000000000000001", "0.62500002980232238769531249999999999999999999999999"];
    let t = t[pick(t.len())];
    let lead = pick(2);
    let text = if lead == 1 { [&"0".repeat(20), t].concat() } else { t.to_string() };
    let p = match pick(3) { 0 => parser::parse_production(&["A -> ", &text, " B"].concat()).unwrap(), 1 => "A -> ".to_string().parse_with(&text), _ => Production::new(parser::parse_production_head("A").unwrap(), parser::parse_production_body(&[&text, " B"].concat()).unwrap()) };
    let b = &p.all_bodies()[0];
    check(b.chance().is_user_set() && b.chance().unwrap().to_bits() == text.parse::<f32>().unwrap().to_bits() && b.len() == 1, "a chance with many digits is kept exactly");
}
trait ParseWith { fn parse_with(&self, t: &str) -> Production; }
impl ParseWith for String { fn parse_with(&self, t: &str) -> Production { System::new().add_production([self.as_str(), t, "  B"].concat().as_str()).unwrap() } }
/// names with unusual characters at their ends, and long ones
fn c08_ends() {
    let odd = ["\u{feff}", "\u{200b}", "\u{0}", "\u{ad}", "\u{301}", "_", "-", ";", "\"", "'", ".", "#", "\u{1f3fb}", "\u{202e}", "\u{7f}", "\u{180e}", "\u{2060}", "0", "+"];
    let x = odd[pick(odd.len())];
    let long = ["A", "w", "é"][pick(3)].repeat([1, 7, 47, 64, 255][pick(5)]);
    let y = match pick(4) { 0 => [x, &long].concat(), 1 => [&long, x].concat(), 2 => [x, &long, x].concat(), _ => [&long[..], x, &long].concat() };
    let (a, b) = (get_code(&long).unwrap(), get_code(&y).unwrap());
    check(a != b && get_name(a).as_deref() == Some(&long) && get_name(b).as_deref() == Some(&y), "different names have different codes");
    check(Symbol::build(&y).unwrap().to_string() == y && get_code(&[" ", &y, "\t"].concat()).unwrap() == b, "the name of the code");
    reach("different");
}
/// long names are printed whole
fn c12_long_names() {
    let n = [31, 32, 63, 64, 65, 127, 128, 255, 256, 300, 1025][pick(11)];
    let c = u8();
    assume(c.is_ascii_alphanumeric());
    let word = ["x", "é", "𝒳"][pick(3)].repeat(n);
    let name = unsafe { [word, String::from_utf8_unchecked(vec![c])].concat() };
    let s = ProductionString::from(vec![Symbol::build("a").unwrap(), Symbol::build(&name).unwrap(), Symbol::build("b").unwrap()]);
    let t = s.to_string();
    check(t == ["a ", &name, " b"].concat(), "the names with spaces between them");
    check(t.parse::<ProductionString>().unwrap() == s, "parsing gives the string back");
    check(Symbol::build(&name).unwrap().to_string() == name, "the name");
}
/// comments and blank lines that look like something
fn c15_remarks() {
    let r = ["# END", "#END OF FILE", "# -*- coding: utf-8 -*-", "#!lsystem", "# n = 9", "#initial: Y", "# # #", "#=", "# X -> Y", "#", "# include other.plant", "   # indented", "#stop", "# eof", "\t", "##########", "#---", "# vim: set ft=plant", "#\u{feff}", "# \u{2028} n = 9", "#1", "# delta=1"];
    let at = pick(4);
    let mut lines = vec!["n = 4", "delta = 30", "initial: X", "X -> X Y"];
    lines.insert(at, r[pick(r.len())]);
    let end = ["\n", "\r\n"][pick(2)];
    let (i, s, a) = plant::parse(&lines.join(end)).unwrap();
    check(i.n() == 4 && i.delta() == 30.0 && s.production_len() == 1 && s.get_symbol("Y").is_some() && a.to_string() == "X", "remarks change nothing");
    reach("read");
}
/// long names of families that differ in one place
fn c16_long_names() {
    let n = [16, 31, 32, 47, 48, 63, 64, 65, 128, 255, 256, 300][pick(12)];
    let at = [0, 1, n / 2, n - 1][pick(4)];
    let tag = if is_engine() { "x".to_string() } else { round().to_string() };
    let name = |c: u8| [&tag, &unsafe { String::from_utf8_unchecked((0..n).map(|i| if i == at { c } else { b'm' }).collect()) }[..]].concat();
    let c = u8();
    assume(c.is_ascii_lowercase());
    let (a, b) = (name(b'm'), name(c));
    let f = |n: &str, t: &str| SystemFamily::define().with_terminal(t, None).build(n).unwrap();
    let first = family::register(f(&a, "one")).unwrap();
    let second = match pick(3) { 0 => family::register(f(&b, "two")).ok(), 1 => SystemFamily::define().with_terminal("two", None).register(&b).ok(), _ => Some(family::get_or_init_family(&b, || f(&b, "two"))) };
    if c == b'm' {
        reach("the same name");
        check(second.map_or(true, |s| std::sync::Arc::ptr_eq(&s, &first)), "a name is taken once");
    } else {
        reach("another name");
        check(second.is_some() && second.unwrap().terminals().next().unwrap().name == "two" && family::get_family(&b).unwrap().terminals().next().unwrap().name == "two", "a family of its own");
    }
    check(family::family_exists(&a) && std::sync::Arc::ptr_eq(&family::get_family(&a).unwrap(), &first) && System::of_family(a.as_str()).unwrap().get_symbol("one").is_some(), "the first one stays");
}
/// families whose symbols have names that are alike
fn c17_alike() {
    let names = ["A", "A1", "A12", "a", "B", "AA", "1", "A_1", "[", "[[", "x y", "é", "é1", "->", "A "];
    let (i, j) = (pick(names.len()), pick(names.len()));
    let (x, y) = (names[i], names[j]);
    let b = SystemFamily::define();
    let b = match pick(4) { 0 => b.with_terminal(x, None).with_terminal(y, None), 1 => b.with_terminal(x, None).with_production(y, Some(x)), 2 => b.with_production(x, None).with_production(y, None), _ => b.with_production(x, Some(y)).with_terminal(y, None) };
    let s = System::of_family(b.build("Alike").unwrap()).unwrap();
    for n in names { check(s.get_symbol(n).is_some() == (n.trim() == x.trim() || n.trim() == y.trim()), "exactly the symbols of the family") }
    check(s.symbol_len() == 1 + (x.trim() != y.trim()) as usize, "exactly the symbols of the family");
    reach("made");
}
/// branches that come back to where they began, or to where another did
fn c18_loops() {
    use crate::h_geom::{judge, turtle, CMD};
    use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
    use rusty_systems::interpretation::Interpretation;
    let sys = AbopTurtleInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let (delta, turns) = [(90.0, 4), (180.0, 2), (60.0, 6), (120.0, 3), (-90.0, 4), (45.0, 8)][pick(6)];
    let step = [0, 1][pick(2)];
    let last = pick(2);
    let around: Vec<usize> = (0..turns).flat_map(|i| if i == turns - 1 && last == 1 { vec![step] } else { vec![step, 2] }).collect();
    let extra: Vec<usize> = (0..2).flat_map(|_| match pick(4) { 0 => vec![2], 1 => vec![0], 2 => vec![4, 3, 5], _ => vec![] }).collect();
    let cmds = match pick(3) {
        0 => [&[4][..], &around, &extra, &[5, 0, 2, 0]].concat(),
        1 => [&[0, 4, 2, 4][..], &around, &[5, 0], &extra, &[5, 0, 3, 0]].concat(),
        _ => [&around[..], &[4], &around, &extra, &[5], &around, &[0]].concat(),
    };
    let s = ProductionString::from(cmds.iter().map(|c| syms[*c]).collect::<Vec<_>>());
    judge(AbopTurtleInterpretation::new(1, delta).interpret(&sys, &s), turtle(&cmds, delta));
}
/// merging what is there already
fn c27_again_same() {
    let text = ["B", "C", "B C", ""];
    let n = 1 + pick(2);
    let (b, c): (Vec<usize>, Vec<usize>) = ((0..n).map(|_| pick(4)).collect(), (0..n).map(|_| pick(4)).collect());
    let make = |b: &[usize]| { let mut p = parser::parse_production(&["A < T -> ", text[b[0]]].concat()).unwrap(); for i in &b[1..] { p.add_body(parser::parse_production_body(text[*i]).unwrap()) } p };
    let mut p = make(&b);
    p.merge(make(&c));
    let want = b.iter().chain(&c).map(|i| text[*i]).collect::<Vec<_>>();
    check(p.all_bodies().iter().map(|b| b.string().to_string()).collect::<Vec<_>>() == want, "the replacements of both, in order");
    let all = [vec!["A", "T"], want.iter().flat_map(|t| t.split_whitespace()).collect()].concat();
    check(p.all_symbols_iter().map(|s| s.name().unwrap()).collect::<Vec<_>>() == all, "every symbol in order");
    if b == c { reach("the same") } else { reach("different") }
}
/// rules that are not well-formed in some part leave nothing behind
fn c29_malformed() {
    use std::cell::RefCell;
    let syms = RefCell::new(std::collections::HashSet::new());
    let prods = RefCell::new(Vec::<Production>::new());
    parser::parse_and_add_production(&syms, &prods, "A -> B").unwrap();
    let bad = ["C -> 1.5 D", "C -> -1 D", "C -> inf", "E < C > F -> 2 D", "C", "C D", "-> C", "C D -> E", "< C > -> 3", "C < D E > F -> G", "< -> C", "C > -> D", "", "C < > D -> E", "  -> ", "C -> NaN D", "C -> 1e9"];
    let t = bad[pick(bad.len())];
    let r = if bit() { parser::parse_and_add_production(&syms, &prods, t) } else { prods.add_production(t) };
    let ok = parser::parse_production(t).is_ok();
    check(r.is_ok() == ok, "rejected exactly if it is not a rule");
    if ok { reach("accepted"); return }
    reach("rejected");
    check(syms.borrow().len() == 2 && prods.borrow().len() == 1 && syms.get_symbol("C").is_none(), "a rejected rule adds nothing");
    let sys = System::new();
    check(sys.add_production(t).is_err() && sys.symbol_len() == 0 && sys.production_len() == 0, "a rejected rule adds nothing");
}
/// contexts of every length
fn c07_contexts(n: usize) {
    let (l, r, b) = (pick(n), pick(n), [0, 1, n][pick(3)]);
    let sys = System::new();
    let c = u32();
    let at = |k: u32, n: usize| (0..n as u32).map(|i| k + i).collect::<Vec<_>>();
    let (pre, mut post, body) = (at(1000, l), at(2000, r), at(3000, b));
    if r > 0 { post[r - 1] = c }
    let known = c == 7 || c >= 1000 && c < 1000 + l as u32 || c >= 2000 && c < 2000 + r as u32 - (r > 0) as u32 || c >= 3000 && c < 3000 + b as u32;
    let rule = Rule::ctx(&pre, 7, &post, &body);
    sys.add_production(rule.production()).unwrap();
    if r > 0 && known { reach("known already") }
    check(sys.symbol_len() == 1 + l + r + b - (r > 0 && known) as usize, "every symbol of the rule");
}

crate::harnesses! {
    h_c02_lists => c02_lists(1, 2);
    t_c02_lists => c02_lists(2, 2);
    h_c02_beyond => c02_beyond();
    h_c03_deep => c03_deep();
    h_c04_deep => c04_deep();
    h_c04_heads => c04_heads();
    h_c04_bodies => c04_bodies(2);
    t_c04_bodies => c04_bodies(3);
    h_c05_shares => c05_shares(1024);
    t_c05_shares => c05_shares(65536);
    h_c06_any => c06_any(2);
    t_c06_any => c06_any(3);
    h_c06_marks => c06_marks();
    h_c07_any => c07_any();
    h_c08_before => c08_before();
    h_c08_buffer => one_buffer(0);
    h_c11_buffer => one_buffer(1);
    h_c13_buffer => one_buffer(2);
    h_c15_buffer => one_buffer(3);
    h_c11_alike => alike(0);
    h_c12_alike => alike(3);
    h_c13_alike => alike(1);
    h_c13_alike_left => alike(2);
    h_c13_alike_right => alike(4);
    h_c15_alike => alike(5);
    h_c15_alike_rule => alike(6);
    h_c13_exotic => c13_exotic();
    h_c15_twice => c15_twice();
    h_c15_among => c15_among();
    h_c16_dropped => c16_dropped(40);
    h_c17_same_name => c17_same_name();
    h_c18_fine => c18_fine();
    h_c20_flat => c20_flat();
    h_c01_vast => c01_vast(&[4096, 8192, 32768, 65536]);
    t_c01_vast => c01_vast(&[32768, 65536, 131072]);
    h_c07_looks => c07_looks(2);
    t_c07_looks => c07_looks(3);
    h_c11_vast => c11_vast();
    h_c18_named => c18_named();
    h_c15_vast => c15_vast();
    h_c04_many_bodies => c04_bodies_many();
    h_c04_free => c04_free(&[2, 3]);
    t_c04_free => c04_free(&[2, 4, 9, 17]);
    h_c04_grid => c04_grid(28);
    h_c05_over_one => c05_over(20);
    h_c05_over_many => c05_over(260);
    h_c06_digits => c06_digits();
    h_c07_contexts => c07_contexts(9);
    h_c08_ends => c08_ends();
    h_c12_long_names => c12_long_names();
    h_c15_remarks => c15_remarks();
    h_c16_long_names => c16_long_names();
    h_c17_alike => c17_alike();
    h_c18_loops => c18_loops();
    h_c27_same => c27_again_same();
    h_c29_malformed => c29_malformed();
    h_c26_lengths => c26_lengths(24);
    t_c26_lengths => c26_lengths(80);
    h_c28_lengths => c28_lengths(20);
}
