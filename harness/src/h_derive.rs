use crate::rsx::*;
use crate::util::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::system::{self, RunSettings};

// ---- C01: one step rewrites every symbol in parallel -----------------------------------

fn c01(n: usize, nr: usize, ctx: usize, bodies: usize, k: usize) {
    let s = letters(n, k);
    let rules: Vec<Rule> = (0..nr).map(|_| {
        let pre = if pick(2) == 1 { Some(letters(1 + pick(ctx), k)) } else { None };
        let post = if pick(2) == 1 { Some(letters(1 + pick(ctx), k)) } else { None };
        Rule { pre, target: letter(k), post, body: letters(pick(bodies + 1), k) }
    }).collect();
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let out = system::derive_once(pstr(&s), &prods).unwrap();
    let exp = step(&rules, &s);
    if exp.is_empty() { reach("erased") }
    if exp.len() > s.len() { reach("grown") }
    if (0..n).any(|i| !rules.iter().any(|r| r.matches(&s, i))) { reach("kept") }
    if rules.iter().any(|r| r.pre.is_some() && (0..n).any(|i| r.matches(&s, i))) { reach("context") }
    same(&codes(&out), &exp, "one step");
    note(out.len() as u64);
}
fn c01_wide(nsym: usize) {
    // a long string with a few arbitrary positions, and a rule set with long contexts and bodies
    let len = 40;
    let mut s: Vec<u32> = (0..len).map(|i| 1 + (i * i % 7 % 4) as u32).collect();
    for j in 0..nsym { s[[0, 17, 39, 18, 5, 30][j]] = letter(6) }
    let rules = [
        Rule::ctx(&[1, 2, 1], 1, &[], &[5, 6, 5, 6, 5, 6, 5, 6, 5]),
        Rule::ctx(&[], 2, &[1, 1], &[]),
        Rule::ctx(&[2], 1, &[3], &[6, 6]),
        Rule::ctx(&[5], 5, &[5], &[1, 2, 3]),
        Rule::plain(3, &[3, 1, 3, 1, 3, 1, 3]),
        Rule::ctx(&[6], 6, &[], &[4]),
        Rule::plain(6, &[]),
        Rule::plain(1, &[1]),
        Rule::ctx(&[1, 4, 1], 4, &[4, 1], &[2, 2]),
        Rule::plain(5, &[6, 5]),
    ];
    let sys = System::new();
    for r in &rules { sys.add_production(r.production()).unwrap(); }
    let out = sys.derive_once(pstr(&s)).unwrap();
    same(&codes(&out), &step(&rules, &s), "one step of a system");
    note(out.len() as u64);
}
fn c01_long() {
    // thousands of symbols, one arbitrary position
    let n = 1500;
    let n = [n, 12000][pick(2)];
    budget(1_000_000_000);
    let mut s: Vec<u32> = (0..n).map(|i| 1 + (i % 3) as u32).collect();
    s[n - 297] = letter(4);
    let rules = [Rule::ctx(&[3], 1, &[2], &[1, 4]), Rule::ctx(&[], 3, &[1], &[]), Rule::plain(4, &[4, 4, 4])];
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let out = system::derive_once(pstr(&s), &prods).unwrap();
    same(&codes(&out), &step(&rules, &s), "one step of a long string");
}

fn c01_codes() {
    // symbols of any code whatever
    let s = [u32(), u32()];
    let rules = [Rule { pre: Some(vec![u32()]), target: u32(), post: None, body: vec![u32(), u32()] }, Rule::plain(u32(), &[u32()])];
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let out = system::derive_once(pstr(&s), &prods).unwrap();
    let exp = step(&rules, &s);
    if exp.len() == 3 { reach("context") }
    same(&codes(&out), &exp, "one step with arbitrary symbols");
}
fn c01_many(n: u32) {
    // many rules, one for each pair of neighbours and one for each symbol
    let rules: Vec<Rule> = (0..n).flat_map(|i| [Rule::ctx(&[10 + i], 10 + (i * 7 + 3) % n, &[], &[1, 10 + i]), Rule::plain(10 + (i + 5) % n, &[2, 10 + i])]).collect();
    let at = [0, 3, n / 2, n - 1][pick(4)];
    let s = [10 + at, 10 + below(n as usize + 1) as u32, 5];
    let sys = System::new();
    for r in &rules { sys.add_production(r.production()).unwrap(); }
    check(sys.production_len() == 2 * n as usize, "all the rules");
    let out = sys.derive_once(pstr(&s)).unwrap();
    let s: Vec<u32> = s.iter().map(|x| concretize(*x as usize) as u32).collect();
    same(&codes(&out), &step(&rules, &s), "one step with many rules");
}

// ---- C02: n steps ------------------------------------------------------------------------

fn c02(len: usize, k: usize, maxn: usize, bodies: usize) {
    let s = letters(len, k);
    let rules: Vec<Rule> = (0..2).map(|i| {
        let pre = if i == 0 && pick(2) == 1 { Some(letters(1, k)) } else { None };
        Rule { pre, target: letter(k), post: None, body: letters(pick(bodies + 1), k) }
    }).collect();
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let n = pick(maxn + 1);
    let out = system::derive(pstr(&s), &prods, RunSettings::for_max_iterations(n)).unwrap();
    let mut exp = s.clone();
    for _ in 0..n { exp = step(&rules, &exp) }
    if n == 0 { reach("zero steps") }
    if n > 1 && exp.is_empty() { reach("erased on the way") }
    same(&codes(&out), &exp, "n steps");
    note(out.len() as u64);
}
/// rules that keep the length, or grow from one end: a string changes for as many steps as it is long
fn c02_spread(len: usize, k: usize, maxn: usize) {
    let s = letters(len, k);
    let (c, l, r) = (letters(1, k), letter(k), letters(1 + pick(2), k));
    let rule = if pick(2) == 0 { Rule { pre: Some(c), target: l, post: None, body: r } } else { Rule { pre: None, target: l, post: Some(c), body: r } };
    let n = 1 + pick(maxn);
    let out = system::derive(pstr(&s), &[rule.production()], RunSettings::for_max_iterations(n)).unwrap();
    let mut exp = s.clone();
    for _ in 0..n { exp = step(&[rule.clone()], &exp) }
    same(&codes(&out), &exp, "n steps of one rule");
}
/// with choices: n steps are n single steps that make the same draws
fn c02_choices(len: usize, maxn: usize, shapes: usize) {
    symbolic_rng();
    let s: Vec<u32> = (0..len).map(|i| if i == 0 { 1 } else { letter(3) }).collect();
    let sys = System::new();
    let b: [&[&[u32]]; 4] = [&[&[1], &[2]], &[&[1, 2], &[]], &[&[2], &[3]], &[&[2, 1], &[1]]];
    let head = |c: u32| ProductionHead::build(None, Symbol::from_code(c), None).unwrap();
    let mut p = Production::new(head(1), ProductionBody::new(pstr(b[pick(shapes)][0])));
    p.add_body(ProductionBody::new(pstr(b[pick(shapes)][1])));
    sys.add_production(p.clone()).unwrap();
    let q = Rule::ctx(&[1], 2, &[], &[1]).production();
    sys.add_production(q.clone()).unwrap();
    let n = pick(maxn + 1);
    let plain = pick(2) == 1;
    let run = RunSettings::for_max_iterations(n);
    let list = [p, q];
    let a = if plain { system::derive(pstr(&s), &list, run).unwrap() } else { sys.derive(pstr(&s), run).unwrap() };
    let made = ndraws();
    repeat_draws(0);
    let mut cur = pstr(&s);
    for _ in 0..n { cur = if plain { system::derive_once(cur, &list).unwrap() } else { sys.derive_once(cur).unwrap() } }
    if made > 1 { reach("several draws") }
    same(&codes(&a), &codes(&cur), "n steps with choices are n single steps that choose alike");
}
fn c02_system(k: usize, maxn: usize) {
    let s = letters(2, k);
    let rules = [Rule::ctx(&[letter(k)], letter(k), &[], &[letter(k)]), Rule::plain(letter(k), &[letter(k), letter(k)])];
    let sys = System::new();
    for r in &rules { sys.add_production(r.production()).unwrap(); }
    let n = pick(maxn + 1);
    let before = (sys.production_len(), sys.symbol_len());
    let a = sys.derive(pstr(&s), RunSettings::from(n)).unwrap();
    let b = sys.derive(pstr(&s), RunSettings::for_max_iterations(n)).unwrap();
    let mut cur = pstr(&s);
    for _ in 0..n { cur = sys.derive_once(cur).unwrap() }
    // the system merges equal heads, in which case a rule has two bodies and a choice is made
    if sys.production_len() == 2 {
        reach("distinct heads");
        let mut exp = s.clone();
        for _ in 0..n { exp = step(&rules, &exp) }
        same(&codes(&a), &exp, "system: n steps");
        same(&codes(&b), &exp, "system: repeatable");
        same(&codes(&cur), &exp, "system: step by step");
    }
    check((sys.production_len(), sys.symbol_len()) == before, "deriving leaves the system alone");
}
/// choices that lead back to strings there were before, for more steps
fn c02_turns(maxn: usize) {
    symbolic_rng();
    let head = |c: u32| ProductionHead::build(None, Symbol::from_code(c), None).unwrap();
    let mut p = Production::new(head(1), ProductionBody::new(pstr(&[1])));
    p.add_body(ProductionBody::new(pstr(&[2])));
    let mut q = Production::new(head(2), ProductionBody::new(pstr(&[1])));
    if pick(2) == 1 { q.add_body(ProductionBody::new(pstr(&[3]))) }
    let r = Rule::plain(3, &[[3], [1], [2]][pick(3)]).production();
    let list = [p, q, r];
    let s: &[u32] = [&[1][..], &[2], &[4, 1]][pick(3)];
    let n = 3 + pick(maxn - 2);
    let a = system::derive(pstr(s), &list, RunSettings::for_max_iterations(n)).unwrap();
    let made = ndraws();
    repeat_draws(0);
    let mut cur = pstr(s);
    for _ in 0..n { cur = system::derive_once(cur, &list).unwrap() }
    if made > 2 { reach("several draws") }
    same(&codes(&a), &codes(&cur), "n steps with choices are n single steps that choose alike");
}
fn c02_counter() {
    // the number of steps is visible in the result: each step appends one symbol
    let n = pick(31) * 3;
    let first = letter(2);
    let rules = [Rule::plain(1, &[1, 2])];
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let out = system::derive(pstr(&[first, 3]), &prods, RunSettings::for_max_iterations(n)).unwrap();
    if first == 1 { check(out.len() == n + 2, "exactly n steps") } else { check(out.len() == 2, "nothing to rewrite") }
    check(out[out.len() - 1].code() == 3, "the end is kept");
}
fn c02_parity() {
    // a rule set of period two, many steps
    let n = 400 + pick(4);
    let s = [letter(3), letter(3)];
    let rules = [Rule::plain(1, &[2]), Rule::plain(2, &[1])];
    let sys = System::default();
    for r in &rules { sys.add_production(r.production()).unwrap(); }
    let out = sys.derive(pstr(&s), RunSettings::for_max_iterations(n)).unwrap();
    let exp: Vec<u32> = s.iter().map(|x| if *x == 3 || n % 2 == 0 { *x } else { 3 - *x }).collect();
    same(&codes(&out), &exp, "many steps");
}
fn c02_far(n: usize) {
    // very many steps
    let n = n + pick(3);
    let c = letter(3);
    let prods = [Rule::plain(1, &[2]).production(), Rule::plain(2, &[1]).production()];
    let out = system::derive(pstr(&[c]), &prods, RunSettings::for_max_iterations(n)).unwrap();
    check(out.len() == 1 && out[0].code() == if c == 3 || n % 2 == 0 { c } else { 3 - c }, "very many steps");
}
fn c02_grown(n: usize) {
    // a string that doubles in each step becomes very long and is derived on
    let n = n + pick(2);
    budget(1_000_000_000);
    let c = letter(2);
    let prods = [Rule::plain(1, &[1, 1]).production()];
    let out = system::derive(pstr(&[c, 3]), &prods, RunSettings::for_max_iterations(n)).unwrap();
    check(out.len() == if c == 1 { (1 << n) + 1 } else { 2 }, "a string grown very long");
    check(out[out.len() - 1].code() == 3 && out[0].code() == c && out[out.len() - 2].code() == c, "the symbols of a long string");
}
fn c02_empty() {
    let rules = [Rule::plain(1, &[]), Rule::plain(2, &[1, 1])];
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let n = pick(4);
    let set = || RunSettings::for_max_iterations(n);
    let e = ProductionString::empty();
    check(system::derive(e.clone(), &prods, set()).unwrap().is_empty(), "empty stays empty");
    check(system::derive_once(e.clone(), &prods).unwrap().is_empty(), "empty stays empty");
    let sys = System::new();
    check(sys.derive(e.clone(), set()).unwrap().is_empty(), "empty stays empty");
    check(sys.derive_once(e).unwrap().is_empty(), "empty stays empty");
    let s = letters(2, 3);
    // a system without rules is the identity
    same(&codes(&sys.derive(pstr(&s), set()).unwrap()), &s, "no rules");
    same(&codes(&system::derive(pstr(&s), &[], set()).unwrap()), &s, "no rules");
    check(RunSettings::default().max_iterations == 10, "default number of steps");
}

// ---- C03: head matching ------------------------------------------------------------------

fn c03(maxctx: usize, maxlen: usize, k: usize) {
    let r = Rule { pre: context(maxctx, k), target: letter(k), post: context(maxctx, k), body: vec![] };
    let n = pick(maxlen + 1);
    let s = letters(n, k);
    let h = r.head();
    let i = u64() as usize;
    let got = h.matches(&pstr(&s), i);
    let exp = i < n && r.matches(&s, concretize(i));
    if exp { reach("match") } else { reach("no match") }
    if i >= n { reach("outside") }
    check(got == exp, "match");
    check(r.production().matches(&pstr(&s), i) == exp, "production match");
    note(got as u64);
}
fn c03_parts(maxctx: usize, maxlen: usize, k: usize) {
    let r = Rule { pre: context(maxctx, k), target: letter(k), post: context(maxctx, k), body: vec![] };
    let n = 1 + pick(maxlen);
    let s = letters(n, k);
    let i = pick(n);
    let left = Rule { post: None, target: s[i], ..r.clone() };
    let right = Rule { pre: None, target: s[i], ..r.clone() };
    let h = r.head();
    check(h.pre_matches(&pstr(&s), i) == left.matches(&s, i), "left context");
    check(h.post_matches(&pstr(&s), i) == right.matches(&s, i), "right context");
}
fn c03_long() {
    // long contexts: every position of the context matters
    let n = [12, 12, 300][pick(3)];
    let base: Vec<u32> = (0..n as u32).map(|x| 10 + x).collect();
    let mut s = base.clone();
    s.push(1);
    s.extend(base.iter().map(|x| x + 500));
    let mut pre = base.clone();
    let mut post: Vec<u32> = base.iter().map(|x| x + 500).collect();
    let at = |n: usize| if n == 12 { pick(n) } else { [0, 1, 15, 16, 43, 44, 255, 256, 298, 299][pick(10)] };
    let (a, b) = (at(n), at(n));
    pre[a] = u32();
    post[b] = u32();
    let r = Rule { pre: Some(pre), target: 1, post: Some(post), body: vec![] };
    let exp = r.matches(&s, n);
    if exp { reach("long match") }
    check(r.head().matches(&pstr(&s), n) == exp, "long contexts");
}

// ---- C04: rule selection in a system -----------------------------------------------------

fn c04(nr: usize, slen: usize, k: usize) {
    symbolic_rng();
    let sys = System::new();
    let mut heads: Vec<Rule> = vec![];
    let mut bodies: Vec<Vec<u32>> = vec![];
    for i in 0..nr {
        let pre = if pick(2) == 1 { Some(letters(1, k)) } else { None };
        let post = if pick(2) == 1 { Some(letters(1, k)) } else { None };
        let r = Rule { pre, target: letter(k), post, body: vec![100 + i as u32] };
        let got = sys.add_production(r.production()).unwrap();
        let at = heads.iter().position(|h| h.target == r.target && h.pre == r.pre && h.post == r.post);
        let at = match at {
            Some(a) => { reach("merged"); bodies[a].push(100 + i as u32); a }
            None => { heads.push(r.clone()); bodies.push(vec![100 + i as u32]); heads.len() - 1 }
        };
        let all: Vec<u32> = got.all_bodies().iter().map(|b| b.string()[0].code()).collect();
        same(&all, &bodies[at], "the rule returned has every body added so far");
        check(got.head() == &r.head(), "the rule returned has the head added");
        check(sys.production_len() == heads.len(), "one rule per head");
    }
    if heads.len() == nr { reach("distinct") }
    let s = letters(slen, k);
    let out = sys.derive_once(pstr(&s)).unwrap();
    check(out.len() == slen, "one symbol for one");
    for i in 0..slen {
        let o = out[i].code();
        match heads.iter().position(|h| h.matches(&s, i)) {
            None => check(o == s[i], "unmatched symbols are kept"),
            Some(a) => {
                let mut found = false;
                for b in &bodies[a] { found |= *b == o }
                check(found, "the first matching rule is used");
            }
        }
    }
}
fn c04_names() {
    // heads whose words run together to the same text are different heads
    let w = ["A", "AB", "B", "BA", "A-B"];
    let sys = System::new();
    let mut heads: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![];
    for i in 0..2u32 {
        let pre: Vec<usize> = (0..pick(3)).map(|_| pick(3)).collect();
        let t = pick(3);
        let post: Vec<usize> = (0..pick(2)).map(|_| pick(3)).collect();
        let name = |v: &[usize]| ProductionString::from(v.iter().map(|x| Symbol::build(w[*x]).unwrap()).collect::<Vec<_>>());
        let o = |v: &[usize]| if v.is_empty() { None } else { Some(name(v)) };
        let h = ProductionHead::build(o(&pre), Symbol::build(w[t]).unwrap(), o(&post)).unwrap();
        let got = sys.add_production(Production::new(h.clone(), ProductionBody::new(pstr(&[100 + i])))).unwrap();
        check(got.head() == &h, "the rule returned has the head added");
        let had = heads.iter().any(|x| x.0 == pre && x.1 == t && x.2 == post);
        if had { reach("same") } else { heads.push((pre, t, post)) }
        check(got.all_bodies().len() == 1 + had as usize, "merged exactly with an equal head");
        check(sys.production_len() == heads.len(), "one rule per head");
    }
    if heads.len() == 2 { reach("different") }
}
fn c04_slice(nr: usize, slen: usize, k: usize, both: bool) {
    // a plain list of rules: the first that matches, whatever follows it
    let rules: Vec<Rule> = (0..nr).map(|i| Rule {
        pre: if pick(2) == 1 { Some(letters(1, k)) } else { None }, target: letter(k), post: if both && pick(2) == 1 { Some(letters(1, k)) } else { None }, body: vec![100 + i as u32],
    }).collect();
    let prods: Vec<Production> = rules.iter().map(|r| r.production()).collect();
    let s = letters(slen, k);
    let i = pick(slen);
    let got = system::find_matching(&prods, &pstr(&s), i);
    match rules.iter().position(|r| r.matches(&s, i)) {
        None => check(got.is_none(), "no rule matches"),
        Some(a) => { reach("found"); check(got.is_some() && got.unwrap().all_bodies()[0].string()[0].code() == 100 + a as u32, "the first rule that matches") }
    }
}
fn c04_many() {
    // many rules; one of them has an arbitrary target, so that it may repeat any earlier head
    symbolic_rng();
    let sys = System::new();
    let (n, at) = [(24, 0), (24, 7), (24, 14), (24, 21), (300, 150), (300, 299)][pick(6)];
    let t = if n == 24 { 1 + below(30) as u32 } else { [1, 2, 150, 151, 256, 257, 299, 300, 301][pick(9)] };
    for i in 0..n {
        let target = if i as usize == at { t } else { i + 1 };
        sys.add_production(Rule::plain(target, &[100 + i]).production()).unwrap();
    }
    let dup = t <= n && t != at as u32 + 1;
    check(sys.production_len() == if dup { n as usize - 1 } else { n as usize }, "one rule per head");
    let q = if n == 24 { 1 + below(30) as u32 } else { [1, 150, 151, 256, 257, 299, 300, 301][pick(8)] };
    let out = sys.derive_once(pstr(&[q])).unwrap();
    let o = out[0].code();
    let mut ok = false;
    if q <= n && q != at as u32 + 1 { ok |= o == 99 + q }
    if q == t { ok |= o == 100 + at as u32 }
    if (q > n || q == at as u32 + 1) && q != t { ok |= o == q }
    check(ok, "the rule of that head");
}

// ---- C05: stochastic choice --------------------------------------------------------------

/// The choice the random draw stands for: the top 23 bits of the last 32-bit draw, 0 <= r < 2^23.
fn r23(i: usize) -> u64 { (draw_at(i) >> 9) as u64 }
const ONE: f64 = 8388608.0;
const TOL: f64 = 200.0; // of 2^23: about 2.4e-5

fn intervals(ch: &[Option<f32>]) -> Vec<(f64, f64)> {
    let total: f64 = ch.iter().map(|c| c.unwrap_or(0.0) as f64).sum();
    let derived = ch.iter().filter(|c| c.is_none()).count();
    let share = if derived == 0 { 0.0 } else { ((1.0 - total) / derived as f64).max(0.0) };
    let mut lo = 0.0;
    let mut v: Vec<(f64, f64)> = ch.iter().map(|c| {
        let hi = lo + c.map(|x| x as f64).unwrap_or(share);
        let r = (lo, hi);
        lo = hi;
        r
    }).collect();
    let n = v.len() - 1;
    v[n].1 = v[n].1.max(1.0);
    v
}
fn bodies(ch: &[Option<f32>]) -> Vec<ProductionBody> {
    ch.iter().enumerate().map(|(i, c)| {
        let s = pstr(&[100 + i as u32]);
        match c { None => ProductionBody::new(s), Some(c) => ProductionBody::try_with_chance(*c, s).unwrap() }
    }).collect()
}
fn production(ch: &[Option<f32>]) -> Production {
    let head = ProductionHead::build(None, Symbol::from_code(1), None).unwrap();
    let mut b = bodies(ch).into_iter();
    let mut p = Production::new(head, b.next().unwrap());
    for x in b { p.add_body(x) }
    p
}
const N: Option<f32> = None;
const fn s(x: f32) -> Option<f32> { Some(x) }
const SETS: &[&[Option<f32>]] = &[
    &[s(0.25), s(0.75)],
    &[N, N],
    &[s(0.5), N, N],
    &[s(0.1), s(0.1), s(0.1), s(0.1), s(0.1), s(0.1), s(0.1), s(0.1), s(0.1), s(0.1)],
    &[N, N, N],
    &[s(0.3), s(0.3), s(0.3)],
    &[s(0.2), N, s(0.3)],
    &[s(1.0), N],
    &[N, s(0.9)],
    &[s(0.01), s(0.98), s(0.01)],
    &[N, N, N, N, N, N, N, N, N, N, N, N],
    &[s(0.001), N],
    &[s(0.125), s(0.125), s(0.25), s(0.5)],
    &[s(0.4), s(0.6)],
    &[s(0.7), s(0.1), s(0.2)],
    &[N, s(0.5), N, s(0.25)],
    &[s(0.0), N, N],
    &[N, s(0.0), N],
    &[s(0.0), s(1.0)],
    &[s(1.0), s(0.0), s(0.0)],
    &[N, s(0.0)],
    &[s(0.5), s(0.5), N],
    &[s(0.5), s(0.0), N, s(0.0), N],
    &[s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.05), s(0.5)],
    &[s(0.5)],
    &[N],
];
/// What each of two uses of a rule chose, and the draw that decided it (if any was made).
/// The draws that pick one body must lie within a stretch as long as its share: as the shares add
/// up to the whole range, this holds exactly if every body is picked by that share of the draws.
fn fair(ch: &[Option<f32>], a: (usize, Option<u64>), b: (usize, Option<u64>)) {
    let iv = intervals(ch);
    for (which, draw) in [a, b] {
        check(which < ch.len(), "a body of the rule");
        // where no draw was made, only a body that has (nearly) the whole range may be chosen
        check(draw.is_some() || iv[which].1.min(1.0) - iv[which].0 > 1.0 - 2.0 * TOL / ONE, "a certain choice");
    }
    if let ((x, Some(r)), (y, Some(s))) = (a, b) {
        if x == y {
            reach("the same choice");
            let share = ((iv[x].1 - iv[x].0) * ONE + TOL) as u64;
            check(r <= s + share && s <= r + share, "a body is picked by its share of the draws");
        } else { reach("another choice") }
    }
}
fn chosen(p: impl Fn() -> ProductionString) -> (u32, Option<u64>) {
    let before = ndraws();
    let out = p();
    check(out.len() == 1, "one body");
    (out[0].code(), if ndraws() == before { None } else { Some(r23(ndraws() - 1)) })
}
fn c05(ch: &[Option<f32>]) {
    symbolic_rng();
    let p = [production(ch)];
    let once = || {
        let (o, d) = chosen(|| system::derive_once(pstr(&[1]), &p).unwrap());
        (concretize(o as usize).wrapping_sub(100), d)
    };
    let a = once();
    let b = once();
    fair(ch, a, b);
    note(a.0 as u64);
}
fn c05_all() { let i = pick(SETS.len()); c05(SETS[i]) }
/// many bodies: the share of a few of them
fn c05_wide() {
    let n = [20, 33, 64, 300][pick(4)];
    let set = pick(3);
    let ch: Vec<Option<f32>> = (0..n).map(|i| match set { 0 => N, 1 => Some(1.0 / n as f32), _ => if i % 2 == 0 { N } else { Some(0.5 / n as f32) } }).collect();
    symbolic_rng();
    let p = [production(&ch)];
    let at = [0, 1, 15, 16, n / 2, n - 2, n - 1][pick(7)];
    let once = || {
        let (o, d) = chosen(|| system::derive_once(pstr(&[1]), &p).unwrap());
        check(o >= 100 && o < 100 + n as u32, "a body of the rule");
        // two uses that pick this body; the others are alike
        assume(o == 100 + at as u32);
        (at, d)
    };
    let (a, b) = (once(), once());
    fair(&ch, a, b);
}
fn c05_sym() {
    // an arbitrary share in 1/64ths for the first body, the rest derived
    symbolic_rng();
    let k = below(65) as u32;
    let c = k as f32 / 64.0;
    let head = ProductionHead::build(None, Symbol::from_code(1), None).unwrap();
    let mut p = Production::new(head, ProductionBody::try_with_chance(c, pstr(&[100])).unwrap());
    p.add_body(ProductionBody::new(pstr(&[101])));
    let p = [p];
    let once = || chosen(|| system::derive_once(pstr(&[1]), &p).unwrap());
    let (a, b) = (once(), once());
    for x in [&a, &b] {
        check(x.0 == 100 || x.0 == 101, "a body of the rule");
        check(x.1.is_some() || k == 0 && x.0 == 101 || k == 64 && x.0 == 100, "a certain choice");
    }
    if let (Some(r), Some(s)) = (a.1, b.1) {
        let far = if r > s { r - s } else { s - r };
        let edge = (k as u64) << 17;
        if a.0 == 100 && b.0 == 100 { reach("first"); check(far <= edge + TOL as u64, "first body") }
        if a.0 == 101 && b.0 == 101 { reach("second"); check(far + edge <= (1 << 23) + TOL as u64, "second body") }
    }
}
fn c05_repeat() {
    // every occurrence draws for itself
    symbolic_rng();
    let p = production(&[s(0.5), s(0.5)]);
    let out = system::derive_once(pstr(&[1, 2, 1, 3, 1]), &[p]).unwrap();
    check(out.len() == 5 && out[1].code() == 2 && out[3].code() == 3, "others are unaffected");
    check(ndraws() >= 3, "a draw per occurrence");
    let per = ndraws() / 3;
    let half = 1u64 << 22;
    let c: Vec<u32> = [0, 2, 4].iter().map(|i| out[*i].code()).collect();
    check(c.iter().all(|x| *x == 100 || *x == 101), "a body of the rule");
    let r: Vec<u64> = (0..3).map(|i| r23(per * i + per - 1) as u64).collect();
    // in whatever order the occurrences are replaced
    let mut some = false;
    for o in [[0, 1, 2], [2, 1, 0], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1]] {
        let mut all = true;
        for (i, j) in [(0usize, 1usize), (0, 2), (1, 2)] {
            let (r, s) = (r[o[i]], r[o[j]]);
            let far = if r > s { r - s } else { s - r };
            all &= (c[i] != c[j]) | (far <= half + TOL as u64);
        }
        some |= all;
    }
    check(some, "its own draw");
    reach("three draws");
}
fn c05_single() {
    // a rule with one body always uses it, whatever its chance and whatever is drawn
    symbolic_rng();
    let c = f32();
    assume(c > 0.0 && c <= 1.0);
    let p = production(&[Some(c)]);
    check(p.body().unwrap().string()[0].code() == 100, "the only body");
    let out = system::derive_once(pstr(&[1, 1]), &[p]).unwrap();
    check(out.len() == 2 && out[0].code() == 100 && out[1].code() == 100, "the only body is always used");
}
fn c05_over() {
    // shares adding up to clearly more than one are an error, whatever is drawn
    symbolic_rng();
    let sets: &[&[Option<f32>]] = &[&[s(0.6), s(0.6)], &[s(1.0), s(0.01)], &[s(0.5), N, s(0.51)], &[s(0.4), s(0.3), s(0.2), s(0.2)], &[s(1.0), s(1.0)], &[s(0.9), N, N, s(0.9)]];
    let ch = sets[pick(sets.len())];
    let p = production(ch);
    check(p.body().is_err(), "too much is an error");
    check(system::derive_once(pstr(&[2, 1]), &[p.clone()]).is_err(), "too much is an error when used");
    check(system::derive_once(pstr(&[2]), &[p]).is_ok(), "an unused rule does no harm");
}
fn c05_text() {
    // the same through a system and its text form
    symbolic_rng();
    let sys = System::new();
    let sets: &[(&[&str], &[Option<f32>])] = &[
        (&["A -> 0.2 B0", "A -> 0.5 B1", "A -> B2"], &[s(0.2), s(0.5), N]),
        (&["A -> B0", "A -> B1", "A -> B2"], &[N, N, N]),
        (&["A -> .75 B0", "C -> 0.1 D", "A -> 0.25 B1"], &[s(0.75), s(0.25)]),
        (&["A -> 1 B0"], &[s(1.0)]),
        (&["A -> 0 B0", "A -> B1", "A -> B2"], &[s(0.0), N, N]),
    ];
    let (text, ch) = sets[pick(sets.len())];
    for t in text { sys.add_production(*t).unwrap(); }
    let a: ProductionString = "A".parse().unwrap();
    let b: Vec<u32> = (0..ch.len()).map(|i| Symbol::build(format!("B{}", i)).unwrap().code()).collect();
    let once = || {
        let (o, d) = chosen(|| sys.derive_once(a.clone()).unwrap());
        let mut w = ch.len();
        for i in 0..ch.len() { if o == b[i] { w = i; break } }
        (w, d)
    };
    let x = once();
    let y = once();
    fair(ch, x, y);
}

// ---- C06: chances ------------------------------------------------------------------------

fn c06_value() {
    let c = f32();
    let b = ProductionBody::try_with_chance(c, pstr(&[1, 2]));
    let ok = c >= 0.0 && c <= 1.0;
    if ok { reach("accepted") } else { reach("rejected") }
    check(b.is_ok() == ok, "accepted exactly between 0 and 1");
    if let Ok(b) = b {
        check(b.chance().is_user_set() && !b.chance().is_derived(), "the chance is set");
        check(b.chance().unwrap() == c && b.chance().unwrap_or(2.0) == c, "the chance is kept");
        check(b.len() == 2 && codes(b.string()) == [1, 2], "the string is kept");
    }
    let b = ProductionBody::new(pstr(&[1]));
    check(b.chance().is_derived() && !b.chance().is_user_set() && b.chance().unwrap_or(0.5) == 0.5, "no chance unless given");
}
pub fn c06_text(t: String) {
    // a number with a replacement after it, with a blank, or nothing at all
    let k = pick(3);
    let text = ["A -> ", &t, [" B", "", " \t"][k]].concat();
    let got = rusty_systems::parser::parse_production(&text);
    match t.parse::<f32>() {
        Ok(c) => {
            let ok = c >= 0.0 && c <= 1.0;
            if ok { reach("chance accepted") } else { reach("chance rejected") }
            check(got.is_ok() == ok, "a chance in text is accepted exactly between 0 and 1");
            if let Ok(p) = got {
                let b = &p.all_bodies()[0];
                check(b.chance().is_user_set() && b.chance().unwrap() == c, "the chance in the text is used");
                check(b.len() == (k == 0) as usize, "the chance is not a symbol");
            }
        }
        Err(_) => { reach("no number"); check(got.is_ok() && got.unwrap().all_bodies()[0].chance().is_derived(), "no chance in the text") }
    }
}
fn digits(n: usize) -> String {
    let mut b = vec![];
    for _ in 0..n {
        let c = u8();
        assume(c >= b'0' && c <= b'9' || c == b'.' || c == b'-' || c == b'+' || c == b'e');
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

crate::harnesses! {
    h_c01_two => c01(3, 2, 1, 2, 2);
    h_c01_ctx => c01(4, 1, 2, 2, 2);
    h_c01_wide => c01_wide(3);
    h_c01_long => c01_long();
    h_c01_codes => c01_codes();
    h_c01_many => c01_many(80);
    h_c01_crowd => c01_many(130);
    t_c01_crowd => c01_many(400);
    t_c01_two => c01(4, 2, 2, 2, 2);
    t_c01_three => c01(3, 3, 1, 1, 3);
    t_c01_wide => c01_wide(6);
    h_c02_n => c02(2, 2, 3, 2);
    h_c02_spread => c02_spread(4, 2, 3);
    h_c02_choices => c02_choices(2, 2, 4);
    t_c02_spread => c02_spread(5, 3, 4);
    t_c02_choices => c02_choices(3, 3, 4);
    h_c02_system => c02_system(2, 2);
    h_c02_turns => c02_turns(5);
    t_c02_turns => c02_turns(7);
    h_c02_counter => c02_counter();
    h_c02_parity => c02_parity();
    h_c02_far => c02_far(65535);
    h_c02_grown => c02_grown(17);
    t_c02_grown => c02_grown(20);
    h_c02_empty => c02_empty();
    t_c02_n => c02(3, 3, 3, 2);
    t_c02_system => c02_system(3, 3);
    h_c03_any => c03(2, 4, 2);
    h_c03_parts => c03_parts(2, 4, 2);
    h_c03_long => c03_long();
    t_c03_any => c03(3, 6, 3);
    t_c03_parts => c03_parts(3, 5, 3);
    h_c04_system => c04(3, 2, 2);
    h_c04_slice => c04_slice(4, 2, 2, false);
    h_c04_both => c04_slice(3, 3, 2, true);
    h_c04_names => c04_names();
    t_c04_both => c04_slice(4, 4, 2, true);
    h_c04_many => c04_many();
    t_c04_system => c04(4, 3, 2);
    h_c05_sets => c05_all();
    h_c05_wide => c05_wide();
    h_c05_sym => c05_sym();
    h_c05_repeat => c05_repeat();
    h_c05_single => c05_single();
    h_c05_over => c05_over();
    h_c05_text => c05_text();
    h_c06_value => c06_value();
    h_c06_text => c06_text(digits(3));
    t_c06_text => c06_text(digits(5));
}
