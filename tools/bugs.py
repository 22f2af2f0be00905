"""Planted bugs (see plant.py): each written from a property's text and the code alone."""
BUGS = []
USE = '''use rusty_systems::prelude::*;
#[allow(unused_imports)] use rusty_systems::system::{self, System, RunSettings, family};
#[allow(unused_imports)] use rusty_systems::productions::*;
#[allow(unused_imports)] use rusty_systems::symbols::{self, SymbolStore, get_code, get_name, iterator::SymbolIterable};
#[allow(unused_imports)] use rusty_systems::parser::{self, parse_prod_string, parse_production};
#[allow(unused_imports)] use rusty_systems::geometry::*;
#[allow(unused_imports)] use rusty_systems::interpretation::{Interpretation, abop, svg};
#[allow(dead_code)] fn s(t: &str) -> ProductionString { parse_prod_string(t).unwrap() }
'''
def bug(id, prop, edits, needs, breaks, demo, use=USE):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="#![allow(unused_imports)]\n" + use + demo))
def tool_bug(id, edits, needs, breaks, script):
    """a bug of the command line tool: $tool is its path, the working directory a scratch one"""
    BUGS.append(dict(id=id, prop="C25", edits=edits, needs=needs, breaks=breaks, script=script))

SYS, PRO, SYM, ITR, STR = "src/system.rs", "src/productions.rs", "src/symbols.rs", "src/symbols/iterator.rs", "src/strings.rs"
PAR, TOK, STM, FAM, GEO = "src/parser.rs", "src/parser/iterator.rs", "src/parser/statement.rs", "src/system/family.rs", "src/geometry.rs"
ABO, PLA, SVG = "src/interpretation/abop.rs", "src/interpretation/abop/parser.rs", "src/interpretation/svg.rs"

bug("C01-inert-run", "C01", [(SYS, """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {""",
"""    let mut result = ProductionString::default();
    let mut inert: Option<Symbol> = None;

    for (index, symbol) in string.symbols().iter().enumerate() {
        // Long runs of a symbol without a rule need only one look-up.
        let matching = if inert == Some(*symbol) { None } else { find_matching(productions, &string, index) };
        inert = if matching.is_none() { Some(*symbol) } else { None };

        if let Some(production) = matching {""")],
    "a rule with a right context whose target repeats: the first of the run does not match, the last does",
    "the last symbol of the run is not rewritten",
    '''fn main() {
    let r = vec![parse_production("A > B -> C").unwrap()];
    assert_eq!(system::derive_once(s("A A B"), &r).unwrap(), s("A C B"));
}''')

bug("C01-updated-left", "C01", [(SYS, """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {""",
"""    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        // Nothing to look for at the very end of a string that ends in an erased symbol.
        let matching = if index + 1 == string.len() && index > 1 && result.is_empty() { None } else { find_matching(productions, &string, index) };

        if let Some(production) = matching {""")],
    "a string of three or more symbols of which all but the last are erased, and the last one has a rule",
    "the last symbol stays as it is instead of being rewritten",
    '''fn main() {
    let r = vec![parse_production("A -> ").unwrap(), parse_production("B -> C").unwrap()];
    assert_eq!(system::derive_once(s("A A B"), &r).unwrap(), s("C"));
}''')

bug("C02-stop-when-unchanged", "C02", [(SYS, "        current = derive_once(current, productions)?;",
"""        let next = derive_once(current.clone(), productions)?;
        if next == current {
            // Nothing changes any more.
            return Ok(next);
        }
        current = next;""")],
    "a stochastic rule one of whose replacements is the symbol itself, and a draw that picks it before the last iteration",
    "the derivation stops early: later steps, which would have picked another replacement, are not made",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> 0.5 A").unwrap();
    sys.add_production("A -> 0.5 B").unwrap();
    for _ in 0..200 { assert_eq!(sys.derive(s("A"), RunSettings::for_max_iterations(60)).unwrap(), s("B")); }
}''')

bug("C02-stop-at-same-length", "C02", [(SYS, "        current = derive_once(current, productions)?;",
"""        let next = derive_once(current.clone(), productions)?;
        let done = productions.len() == 1 && current.len() == next.len() && current[0] == next[0];
        current = next;
        if done {
            break;
        }""")],
    "one rule, context sensitive, that keeps the length and the first symbol of the string while the rest changes",
    "the derivation stops after one step whatever the number of iterations",
    '''fn main() {
    let r = vec![parse_production("B < A -> B").unwrap()];
    assert_eq!(system::derive(s("B A A A"), &r, RunSettings::for_max_iterations(3)).unwrap(), s("B B B B"));
}''')

bug("C03-short-right", "C03", [(PRO, """        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);""",
"""        return right.iter().zip(&string.symbols()[index + 1..]).all(|(a, b)| a == b);""")],
    "a right context of two or more symbols of which only the first ones are left in the string",
    "a right context that reaches beyond the end of the string matches",
    '''fn main() {
    let p = parse_production("X > a b -> F").unwrap();
    assert!(!p.matches(&s("X a"), 0));
}''')

bug("C03-left-two", "C03", [(PRO, "        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);",
"        return left.iter().rev().zip(symbols).take(2).all(|(a, b)| a == b);")],
    "a left context of three or more symbols that differs from the string only in its first ones",
    "only the nearest two symbols of a left context are compared",
    '''fn main() {
    let p = parse_production("c a b < X -> F").unwrap();
    assert!(!p.matches(&s("d a b X"), 3));
    assert!(p.matches(&s("c a b X"), 3));
}''')

bug("C04-merge-ignores-right", "C04", [(SYS, """            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())""",
"""            let same = |p: &Production| p.head().target() == head.target() && p.head().pre_context() == head.pre_context()
                && (p.head().post_context() == head.post_context() || p.head().pre_context().is_some());
            match productions.iter_mut().find(|p| same(p)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| same(p)).unwrap().clone())""")],
    "two rules with the same target and left context and different right contexts",
    "the second rule's replacement is given to the first rule's head",
    '''fn main() {
    let sys = System::new();
    sys.add_production("a < X > b -> F").unwrap();
    sys.add_production("a < X > c -> G").unwrap();
    assert_eq!(sys.production_len(), 2);
    assert_eq!(sys.derive_once(s("a X c")).unwrap(), s("a G c"));
}''')

bug("C04-merge-moves-last", "C04", [(SYS, """            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }
""", """            match productions.iter().position(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(index) => {
                    let mut found = productions.swap_remove(index);
                    found.merge(production);
                    productions.push(found);
                }
            }
""")],
    "two overlapping rules, and a second replacement for the one that was added first",
    "the merged rule loses its precedence over the rules added after it",
    '''fn main() {
    let sys = System::new();
    sys.add_production("a < X -> F").unwrap();
    sys.add_production("X -> G").unwrap();
    sys.add_production("a < X -> F").unwrap();
    assert_eq!(sys.derive_once(s("a X")).unwrap(), s("a F"));
}''')

bug("C05-percent", "C05", [(PRO, "        let random : f32 = thread_rng().gen_range(0.0..=1.0);",
"        let random : f32 = thread_rng().gen_range(0..100) as f32 / 100.0;")],
    "a replacement whose chance is not a whole number of percent",
    "chances are rounded up to whole percents, so that a replacement of chance 0.001 is used ten times too often",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> 0.001 B").unwrap();
    sys.add_production("A -> C").unwrap();
    let a: ProductionString = (0..200_000).map(|_| Symbol::build("A").unwrap()).collect::<Vec<_>>().into();
    let b = Symbol::build("B").unwrap();
    let n = sys.derive_once(a).unwrap().iter().filter(|x| **x == b).count();
    assert!(n > 80 && n < 400, "{n}");
}''')

bug("C05-derived-share", "C05", [(PRO, "        let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();",
"        let remaining = self.body.iter().filter(|b| b.chance.is_derived() || b.chance.unwrap_or(1.0) == 0.0).count();")],
    "a rule that has a replacement with chance zero as well as ones without a chance",
    "replacements with chance zero are counted among those that share the rest, so the others get too little and the last one too much",
    '''fn main() {
    let sys = System::new();
    for r in ["A -> 0 B", "A -> C", "A -> D"] { sys.add_production(r).unwrap(); }
    let a: ProductionString = (0..30_000).map(|_| Symbol::build("A").unwrap()).collect::<Vec<_>>().into();
    let c = Symbol::build("C").unwrap();
    let n = sys.derive_once(a).unwrap().iter().filter(|x| **x == c).count();
    assert!(n > 14_000 && n < 16_000, "{n}");
}''')

bug("C06-large-is-symbol", "C06", [(PAR, """            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }""", """            if let Some(val) = term.parse::<f32>().ok().filter(|val| val.is_sign_negative() || *val < 10.0) {
                chance = Some(val);
                continue;
            }""")],
    "a number of ten or more, infinity or NaN, in front of a replacement",
    "a number out of range is taken for a symbol instead of being an error",
    '''fn main() {
    assert!(parse_production("A -> 2 B").is_err());
    assert!(parse_production("A -> 1e3 B").is_err());
}''')

bug("C06-hundredths", "C06", [(PRO, "            chance: Chance::new(chance),", "            chance: Chance::new((chance * 1000.0).round() / 1000.0),")],
    "a chance with more than three decimals",
    "the chance is rounded",
    '''fn main() {
    assert_eq!(ProductionBody::try_with_chance(0.0004, s("A")).unwrap().chance().unwrap(), 0.0004);
}''')

bug("C07-merged-symbols", "C07", [(SYS, """            for symbol in production.all_symbols_iter() {
                self.add_symbol(symbol)?;
            }
            //endregion 
""", """            if !productions.iter().any(|p| p.eq(&production)) {
                for symbol in production.all_symbols_iter() {
                    self.add_symbol(symbol)?;
                }
            }
            //endregion 
""")],
    "a second rule with an equal head whose replacement has a new symbol",
    "the symbols of replacements that are merged into a rule are not registered",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> B").unwrap();
    sys.add_production("A -> C").unwrap();
    assert!(sys.get_symbol("C").is_some());
}''')

bug("C07-only-first-body", "C07", [(SYS, "            for symbol in production.all_symbols_iter() {\n",
"            let parts = production.head().all_symbols_iter().chain(production.all_bodies()[0].all_symbols_iter());\n            for symbol in parts {\n")],
    "a rule that already has several replacements when it is added to a system",
    "only the symbols of its first replacement are registered",
    '''fn main() {
    let sys = System::new();
    let mut p = parse_production("A -> B").unwrap();
    p.add_body(parser::parse_production_body("C").unwrap());
    sys.add_production(p).unwrap();
    assert!(sys.get_symbol("C").is_some());
    assert_eq!(sys.symbol_len(), 3);
}''')

bug("C08-ascii-trim", "C08", [(SYM, "    let name = name.trim().to_string();", "    let name = name.trim_matches(|c: char| c.is_ascii_whitespace()).to_string();")],
    "a name with whitespace that is not ASCII around it",
    "names that differ only in surrounding Unicode whitespace get different codes, and blank names are accepted",
    '''fn main() {
    assert_eq!(get_code("\\u{a0}d").unwrap(), get_code("d").unwrap());
    assert!(get_code("\\u{2003}").is_err());
}''')

bug("C08-inner-blanks", "C08", [(SYM, "    let name = name.trim().to_string();", "    let name = name.split_whitespace().collect::<Vec<_>>().join(\" \");")],
    "names with whitespace inside that differ only in how much or of which kind",
    "different names get the same code",
    '''fn main() {
    assert_ne!(get_code("a  b").unwrap(), get_code("a b").unwrap());
    assert_eq!(get_name(get_code("a\\tb").unwrap()).unwrap(), "a\\tb");
}''')

bug("C09-fast-path", "C09", [(SYM, """    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }

    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
""", """    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    // Known names need only the read lock.
    if let Some(code) = get_code_register().read()?.get(&name) {
        return Ok(*code);
    }

    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
    let mut register = get_code_register().write()?;
""")],
    "two threads asking for the code of the same new name, the second one's look-up falling between the first one's look-up and its insertion",
    "the name gets two codes; threads hold different codes for equal names",
    '''use std::sync::Barrier;
fn main() {
    for i in 0..20_000 {
        let name = format!("name{i}");
        let b = Barrier::new(4);
        let codes: Vec<u32> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..4).map(|_| sc.spawn(|| { b.wait(); get_code(&name).unwrap() })).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        assert!(codes.iter().all(|c| *c == codes[0]), "{codes:?}");
    }
}''')

bug("C09-try-read", "C09", [(SYM, "    let register = get_name_register().read().ok()?;", "    let register = get_name_register().try_read().ok()?;")],
    "looking up a name while another thread is recording one",
    "a code that was handed out appears to have no name, and cannot be made into a symbol",
    '''use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let code = get_code("known").unwrap();
    let stop = AtomicBool::new(false);
    let ok = std::thread::scope(|sc| {
        for t in 0..3 {
            let stop = &stop;
            sc.spawn(move || { let mut i = 0; while !stop.load(Ordering::Relaxed) && i < 3_000_000 { let _ = get_code(&format!("n{t}_{i}")); i += 1; } });
        }
        let ok = (0..3_000_000).all(|_| get_name(code).is_some());
        stop.store(true, Ordering::Relaxed);
        ok
    });
    assert!(ok);
}''')

bug("C10-check-then-add", "C10", [(SYS, """            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
        }
""", """            if let Some(index) = index {
                productions[index].merge(production);
                return Ok(productions[index].clone());
            }

            productions.push(production.clone());
            return Ok(production)
        }
"""), (SYS, "        let lock = self.productions.write();\n", """        // Look for a production to add to before taking the write lock.
        let index = self.productions.read()?.iter().position(|p| p.head() == production.head());
        let lock = self.productions.write();
"""), (SYS, "            let head = production.head().clone();\n\n", "")],
    "two threads adding rules with equal heads to a system that has no such rule yet, both looking before either adds",
    "the system ends up with two rules for one head",
    '''use std::sync::Barrier;
fn main() {
    for _ in 0..20_000 {
        let sys = System::new();
        let b = Barrier::new(4);
        std::thread::scope(|sc| for n in ["A -> B", "A -> C", "A -> D", "A -> E"] {
            let (sys, b) = (&sys, &b);
            sc.spawn(move || { let p = parse_production(n).unwrap(); b.wait(); sys.add_production(p).unwrap(); });
        });
        assert_eq!(sys.production_len(), 1);
    }
}''')

bug("C10-torn-derive", "C10", [(SYS, """        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))""",
"""        // One step at a time, so that additions need not wait for long derivations.
        let mut current = string;
        for _ in 0..settings.max_iterations {
            current = self.derive_once(current)?;
        }

        Ok(current)""")],
    "a rule added by another thread between two steps of a derivation",
    "a derivation uses different rules in different steps",
    '''use std::sync::Barrier;
fn main() {
    for _ in 0..3_000 {
        let sys = System::new();
        sys.add_production("A -> A A").unwrap();
        let b = Barrier::new(2);
        let n = std::thread::scope(|sc| {
            let h = sc.spawn(|| { b.wait(); sys.derive(s("A B"), RunSettings::for_max_iterations(9)).unwrap() });
            let p = parse_production("B -> B C").unwrap();
            b.wait();
            sys.add_production(p).unwrap();
            h.join().unwrap()
        });
        let c = Symbol::build("C").unwrap();
        let c = n.iter().filter(|x| **x == c).count();
        assert!(c == 0 || c == 9, "{c}");
    }
}''')

bug("C11-ascii-skip", "C11", [(TOK, """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace()
}""", """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace() && char != '\\u{85}'
}""")],
    "the control character NEL (U+0085) between words",
    "it becomes (or crashes as) part of the words although it is whitespace",
    '''fn main() {
    let r = std::panic::catch_unwind(|| s("a\\u{85}b"));
    assert_eq!(r.unwrap().len(), 2);
}''')

bug("C11-run-of-two", "C11", [(TOK, "                    while lookahead.is_token() && lookahead.index() == index + chars.len() {",
"                    while lookahead.is_token() && lookahead.index() == index + chars.len() && chars.len() < 3 {")],
    "a run of four or more delimiter characters",
    "the run is split into several words",
    '''fn main() {
    assert_eq!(s("a ++++ b").len(), 3);
}''')

bug("C12-tight-brackets", "C12", [(STR, """            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;""",
"""            let name = symbol.to_string();
            // Delimiters stand out without a space.
            let delimiter = matches!(name.as_str(), "+" | "-" | "(" | ")");
            if !first && !delimiter {
                f.write_char(' ')?;
            }
            first = false;
            f.write_str(&name)?;""")],
    "two turns next to each other",
    "printing 'F + + F' gives 'F++ F', which is read back as three symbols",
    '''fn main() {
    let t = s("F + + F");
    assert_eq!(s(&t.to_string()), t);
}''')

bug("C12-name-trailing", "C12", [(SYM, "            return f.write_str(name.as_str());", "            return f.write_str(name.trim_end_matches(';'));")],
    "a symbol whose name ends in a run of delimiters with a semicolon at its end, such as '+;'",
    "the name is printed without it and read back as another symbol",
    '''fn main() {
    let t = s("F +; F");
    assert_eq!(t.len(), 3);
    assert_eq!(s(&t.to_string()), t);
}''')

bug("C13-any-number", "C13", [(PAR, "        if index == 0 {\n            if let Ok(val) = term.parse() {", "        if index <= 1 && chance.is_none() {\n            if let Ok(val) = term.parse() {")],
    "a replacement whose second word is a number, with no chance in front",
    "the number is taken for the chance instead of a symbol",
    '''fn main() {
    let p = parse_production("A -> F 1").unwrap();
    assert_eq!(p.all_bodies()[0].len(), 2);
    assert!(p.all_bodies()[0].chance().is_derived());
}''')

bug("C13-last-arrow", "C13", [(PAR, "        .find(\"->\")", "        .rfind(\"->\")")],
    "a rule whose replacement contains an arrow, such as 'A -> B->' ",
    "the rule is split at the wrong arrow and rejected or given another head",
    '''fn main() {
    let p = parse_production("A -> B->").unwrap();
    assert_eq!(p.head().target().name().unwrap(), "A");
}''')

bug("C14-char-end", "C14", [(TOK, "            let index_end = self.current + brk.index();", "            let index_end = self.current + text[..brk.index()].chars().count();")],
    "a word with characters of more than one byte",
    "the token's end position is counted in characters",
    '''fn main() {
    let t = "R\\u{fc}ther x";
    let k = parser::iterator::TokenIterator::new(t).next().unwrap();
    assert_eq!(&t[k.start..k.end], k.text);
}''')

bug("C14-mark-runs", "C14", [("src/parser/token.rs", """            ">"         => TokenKind::ContextRight,""", """            v if !v.is_empty() && v.bytes().all(|b| b == b'>') => TokenKind::ContextRight,""")],
    "a word of several '>' only",
    "such a word is taken for the right context mark instead of a symbol",
    '''fn main() {
    let k: Vec<_> = parser::iterator::TokenIterator::new("a >> b").map(|t| t.kind).collect();
    assert_eq!(k[1], rusty_systems::parser::token::TokenKind::Symbol);
}''')

bug("C15-first-initial", "C15", [(PLA, "            initial = Some(parse_initial(line));", "            initial.get_or_insert(parse_initial(line));")],
    "a plant file with two 'initial:' lines",
    "the first one counts instead of the later one",
    '''fn main() {
    let (_, _, i) = abop::parser::parse("initial: A\\ninitial: B\\nA -> B").unwrap();
    assert_eq!(i, s("B"));
}''')

bug("C15-angle-names", "C15", [(PLA, """                "d" | "D" | "delta" | "∂" => {""", """                "d" | "delta" | "∂" => {""")],
    "the angle written as 'D = ...'",
    "a valid setting is rejected",
    '''fn main() {
    let (i, ..) = abop::parser::parse("D = 30\\ninitial: A\\nA -> B").unwrap();
    assert_eq!(i.delta(), 30.0);
}''')

bug("C15-comment-space", "C15", [(PLA, "    line.split('#').next().unwrap().trim()", "    match line.find(\" #\") {\n        Some(index) => line[..index].trim(),\n        None => if line.starts_with('#') { \"\" } else { line.trim() }\n    }")],
    "a comment that follows its line without a space, or after a tab",
    "the comment is taken for part of the line",
    '''fn main() {
    let (i, ..) = abop::parser::parse("n = 3# three\\ninitial: A\\nA -> B").unwrap();
    assert_eq!(i.n(), 3);
}''')

bug("C16-register-race", "C16", [(FAM, """    let name = family.name().clone();
    let mut map = reference().write()?;

    if map.get(&name).is_some() {
        return Err(Error::new(ErrorKind::Duplicate, format!("family {name} has already been registered")));
    }

    let family = Arc::new(family);
    map.insert(name.to_string(), family.clone());
""", """    let name = family.name().clone();

    if family_exists(&name) {
        return Err(Error::new(ErrorKind::Duplicate, format!("family {name} has already been registered")));
    }

    let family = Arc::new(family);
    reference().write()?.insert(name.to_string(), family.clone());
""")],
    "two threads registering a family of the same name, both looking before either registers",
    "both succeed and the second replaces the first",
    '''use std::sync::Barrier;
fn main() {
    for i in 0..20_000 {
        let name = format!("fam{i}");
        let b = Barrier::new(4);
        let won: usize = std::thread::scope(|sc| {
            let h: Vec<_> = (0..4).map(|_| sc.spawn(|| { let f = family::SystemFamily::define().build(&name).unwrap(); b.wait(); family::register(f).is_ok() as usize })).collect();
            h.into_iter().map(|h| h.join().unwrap()).sum()
        });
        assert_eq!(won, 1);
    }
}''')

bug("C16-init-twice", "C16", [(FAM, """    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

    // Build, but now synchronised via the above write guard.
    let family = default();

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());
""", """    // Build outside of the lock, so that building may use the registry itself.
    let family = default();

    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());
""")],
    "two threads asking for the same unregistered family at the same time",
    "the family is made twice",
    '''use std::sync::{Barrier, atomic::{AtomicUsize, Ordering}};
fn main() {
    for i in 0..20_000 {
        let name = format!("fam{i}");
        let (b, n) = (Barrier::new(4), AtomicUsize::new(0));
        std::thread::scope(|sc| for _ in 0..4 { sc.spawn(|| { b.wait(); family::get_or_init_family(&name, || { n.fetch_add(1, Ordering::SeqCst); family::SystemFamily::define().build(&name).unwrap() }); }); });
        assert_eq!(n.load(Ordering::SeqCst), 1);
    }
}''')

bug("C17-swallow-blank", "C17", [(SYS, "            system.add_symbol(symbol.name.as_str())?;", "            let _ = system.add_symbol(symbol.name.as_str());")],
    "a family that defines a symbol with a blank name",
    "the system is made without it instead of the error being reported",
    '''fn main() {
    let f = family::SystemFamily::define().with_terminal("a", None).with_terminal(" ", None).build("f").unwrap();
    assert!(System::of_family(f).is_err());
}''')

bug("C17-trim-name", "C17", [(FAM, "        get_family(self).ok_or_else(||", "        get_family(self.trim()).ok_or_else(||")],
    "a family whose registered name has whitespace around it, or asking for a registered name with whitespace around",
    "a family registered as ' f' cannot be used by its name",
    '''fn main() {
    let f = family::SystemFamily::define().with_terminal("a", None).build(" f").unwrap();
    family::register(f).unwrap();
    assert!(System::of_family(" f").is_ok());
    assert!(System::of_family("f").is_err());
}''')

bug("C18-move-first", "C18", [(ABO, """                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {""", """                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path);
                    path = Path::new();
                }
                path.push(pos);
            } else if token == push {""")],
    "a Move at the start of a path, followed by anything",
    "moving draws a segment when nothing was drawn since the last move or branch",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let p = abop::AbopTurtleInterpretation::new(1, 90.0).interpret(&sys, &s("Move Forward")).unwrap();
    let n: usize = p.iter().map(|p| p.len().max(1) - 1).sum();
    assert_eq!(n, 1);
}''')

bug("C18-heading-kept", "C18", [(ABO, "                pos_stack.push((pos, dir));", "                pos_stack.push((pos, if pos_stack.is_empty() { dir } else { pos_stack[0].1 }));")],
    "nested branches with a turn between the two opening brackets",
    "the inner branch restores the heading of the outer one",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let t = abop::AbopTurtleInterpretation::new(1, 90.0);
    let last = |t: &str, i: &abop::AbopTurtleInterpretation| { let p = i.interpret(&sys, &s(t)).unwrap(); let p = p.last().unwrap().clone(); let q = p.iter().last().copied().unwrap(); (q.x().round(), q.y().round()) };
    assert_eq!(last("[ + [ Forward ] Forward", &t), (-5.0, 0.0));
}''')

bug("C19-single-points", "C19", [(GEO, "        for path in self {\n            len += ", "        for path in self.iter().filter(|p| p.len() > 1 || self.len() <= 2) {\n            len += ")],
    "three or more paths, one of them a single point outside the others",
    "the point is left out of the bounds and of the centre of mass",
    '''fn main() {
    let p = |v: &[(f64, f64)]| v.iter().map(|(x, y)| Point::new(*x, *y)).collect::<Path>();
    let b = vec![p(&[(0., 0.), (1., 1.)]), p(&[(9., 9.)]), p(&[(0., 1.), (1., 0.)])].bounds().unwrap();
    assert_eq!(b.max_x, 9.0);
}''')

bug("C19-com-of-paths", "C19", [(GEO, """            com: center / len
        })""", """            com: self.iter().filter_map(|p| p.bounds()).fold(Point::zero(), |sum, b| sum + b.com)
                / self.iter().filter(|p| !p.is_empty()).count().max(1) as f64
        })"""), (GEO, "        let mut center = Point::zero();\n        let mut len = 0_f64;\n\n        for path in self {\n            len += path.len() as f64;\n", "        for path in self {"),
  (GEO, "            for point in &path.points {\n                center = center + *point;\n", "            for point in &path.points {")],
    "paths of different lengths",
    "the centre of mass is the mean of the paths' centres instead of the mean of the points",
    '''fn main() {
    let p = |v: &[(f64, f64)]| v.iter().map(|(x, y)| Point::new(*x, *y)).collect::<Path>();
    let b = vec![p(&[(0., 0.), (0., 0.), (0., 0.)]), p(&[(4., 4.)])].bounds().unwrap();
    assert_eq!(b.com.x(), 1.0);
}''')

bug("C20-larger-side", "C20", [(SVG, "                let scale = scale_x.min(scale_y);", "                let scale = if bounds.width() > bounds.height() { scale_x } else { scale_y };")],
    "a canvas that is not square and a drawing whose larger side is not the one that limits the scale",
    "the drawing does not fit on the canvas",
    '''use rusty_systems::interpretation::svg::SvgElement;
fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let i = svg::SvgPathInterpretation::new_with(1000, 100, abop::AbopTurtleInterpretation::new(1, 90.0));
    // 10 wide and 5 high: the height limits the scale to 20.
    let t = i.interpret(&sys, &s("Forward + Forward Forward")).unwrap().to_svg();
    let at = t.find("scale(").unwrap() + 6;
    let scale: f64 = t[at..].split_whitespace().next().unwrap().parse().unwrap();
    assert!(scale <= 20.0 + 1e-6, "{t}");
}''')

bug("C20-odd-canvas", "C20", [(SVG, "Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0)", "Point::new((self.width / 2) as f64, (self.height / 2) as f64)")],
    "a canvas with an odd width or height",
    "the drawing is half a unit off the centre and leaves the canvas",
    '''use rusty_systems::interpretation::svg::SvgElement;
fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let i = svg::SvgPathInterpretation::new_with(101, 101, abop::AbopTurtleInterpretation::new(1, 90.0));
    let t = i.interpret(&sys, &s("Forward")).unwrap().to_svg();
    assert!(t.contains("translate(50.5 50.5)"), "{t}");
}''')

bug("C21-repeated-points", "C21", [(SVG, """            for point in self.iter().skip(1) {
                string""", """            for (_, point) in self.iter().zip(self.iter().skip(1)).filter(|(last, point)| last != point) {
                string""")],
    "a path with the same point twice in a row",
    "the text has fewer lines than the path",
    '''use rusty_systems::interpretation::svg::SvgElement;
fn main() {
    let p: Path = [Point::new(1., 2.), Point::new(1., 2.)].into_iter().collect();
    assert!(svg::SvgPath::from(p).to_svg().contains("M 1 2 L 1 2"));
}''')

bug("C21-rounded", "C21", [(SVG, """format!(" L {} {}", point.x(), point.y())""", """format!(" L {:.6} {:.6}", point.x(), point.y())""")],
    "coordinates with more than six decimals",
    "coordinates are rounded in the text",
    '''use rusty_systems::interpretation::svg::SvgElement;
fn main() {
    let p: Path = [Point::new(1., 2.), Point::new(1e-9, 2.5)].into_iter().collect();
    let t = svg::SvgPath::from(p).to_svg();
    let n: Vec<f64> = t.split(|c: char| c.is_whitespace() || c == '"').filter_map(|w| w.parse().ok()).collect();
    assert_eq!(n, [1., 2., 1e-9, 2.5]);
}''')

bug("C22-div-y", "C22", [(GEO, "        Point::new(self.x() / rhs, self.y() / rhs)", "        let scale = rhs.abs();\n        Point::new(self.x() / rhs, self.y() / scale)")],
    "dividing a point by a negative number",
    "the second coordinate has the wrong sign",
    '''fn main() {
    assert_eq!(Point::new(2., 4.) / -2.0, Point::new(-1., -2.));
}''')

bug("C22-path-move", "C22", [(GEO, "        self.into_iter().map(|p| p + rhs).collect()", "        if rhs.norm() < f64::EPSILON {\n            return self;\n        }\n        self.points.into_iter().map(|p| p + rhs).collect()")],
    "moving a path by a vector of tiny length",
    "the path is not moved",
    '''fn main() {
    let p: Path = [Point::new(0., 0.)].into_iter().collect();
    assert_eq!((p + Vector::new(1e-17, 0.0))[0], Point::new(1e-17, 0.));
}''')

bug("C23-quarter", "C23", [(GEO, "        let cos = degrees.to_radians().cos();\n", "        if degrees.abs() as i64 == 180 {\n            return -*self;\n        }\n\n        let cos = degrees.to_radians().cos();\n"),
  (GEO, "        let sin = degrees.to_radians().sin();\n", "        let sin = (degrees % 360.0).to_radians().sin();\n")],
    "an angle of more than 180 and less than 181 degrees",
    "the vector is turned by 180 degrees",
    '''fn main() {
    let v = Vector::new(1.0, 0.0).rotate(180.5);
    assert!((v.y() - (180.5f64).to_radians().sin()).abs() < 1e-9);
}''')

bug("C23-large", "C23", [(GEO, "        let sin = degrees.to_radians().sin();\n", "        let sin = (degrees as f32 as f64).to_radians().sin();\n")],
    "an angle that is not a 32-bit number, such as 12345.678",
    "sine and cosine belong to different angles, so that the length is not kept",
    '''fn main() {
    let v = Vector::new(1000.0, 0.0).rotate(12345.678);
    assert!((v.norm() - 1000.0).abs() < 1e-6 && (v.y() - 1000.0 * (12345.678f64).to_radians().sin()).abs() < 1e-6);
}''')

bug("C26-empty-context", "C26", [(PRO, "#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct ProductionHead {", "#[derive(Debug, Clone, Eq, Hash)]\npub struct ProductionHead {"),
  (PRO, "impl ProductionHead {\n", """impl PartialEq for ProductionHead {
    fn eq(&self, other: &Self) -> bool {
        let same = |a: &Option<ProductionString>, b: &Option<ProductionString>| {
            a.as_ref().filter(|s| !s.is_empty()) == b.as_ref().filter(|s| !s.is_empty())
        };
        self.target == other.target && same(&self.pre, &other.pre) && same(&self.post, &other.post)
    }
}

impl ProductionHead {
""")],
    "a head with an empty context against one without",
    "they are equal but hash differently",
    '''use std::collections::HashSet;
fn main() {
    let a = parser::parse_production_head("< A").unwrap();
    let b = parser::parse_production_head("A").unwrap();
    let set: HashSet<_> = [a.clone(), b.clone()].into_iter().collect();
    assert_eq!(set.len() == 1, a == b);
    assert!(a != b);
}''')

bug("C26-hash-bodies", "C26", [(PRO, "        self.head.hash(state);", "        (&self.head, self.body.len()).hash(state);")],
    "two rules with the same head and different numbers of replacements",
    "equal rules hash differently",
    '''use std::hash::{Hash, Hasher};
use std::collections::hash_map::DefaultHasher;
fn main() {
    let a = parse_production("A -> B").unwrap();
    let mut b = a.clone();
    b.add_body(parser::parse_production_body("C").unwrap());
    let h = |p: &Production| { let mut h = DefaultHasher::new(); p.hash(&mut h); h.finish() };
    assert!(a == b);
    assert_eq!(h(&a), h(&b));
}''')

bug("C27-two-bodies", "C27", [(ITR, """        for i in self.all_bodies() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }""", """        let mut bodies = self.all_bodies().iter();
        let first = bodies.next();
        for i in bodies.rev().chain(first).rev() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }"""), (ITR, "            Some(val) => Box::new(val.all_symbols_iter())\n        };\n\n        let target", "            Some(val) => Box::new(val.iter().copied().filter(|s| val.len() == 1 || s != self.target()))\n        };\n\n        let target")],
    "a left context of two or more symbols that contains the target",
    "that symbol is left out when going through the symbols of the rule",
    '''fn main() {
    let p = parse_production("A B < A -> C").unwrap();
    assert_eq!(p.all_symbols::<Vec<_>>().len(), 4);
}''')

bug("C27-merge-order", "C27", [(PRO, "        other.body.into_iter().for_each(|b| self.add_body(b));", "        let at = self.body.len().min(2);\n        self.body.splice(at..at, other.body);")],
    "merging a rule into one that has three or more replacements",
    "the replacements are not in the order they were added",
    '''fn main() {
    let mut p = parse_production("A -> B").unwrap();
    for b in ["C", "D"] { p.add_body(parser::parse_production_body(b).unwrap()); }
    p.merge(parse_production("A -> E").unwrap());
    let n: Vec<_> = p.all_bodies().iter().map(|b| b.string().to_string()).collect();
    assert_eq!(n, ["B", "C", "D", "E"]);
}''')

bug("C28-push-repeat", "C28", [(STR, "        self.symbols.push(symbol);", "        if self.symbols.len() < 3 || self.symbols[self.symbols.len() - 3..] != [symbol; 3] {\n            self.symbols.push(symbol);\n        }")],
    "pushing a symbol four times in a row",
    "the fourth one is lost",
    '''fn main() {
    let mut t = ProductionString::new();
    for _ in 0..5 { t.push_symbol(Symbol::build("A").unwrap()); }
    assert_eq!(t.len(), 5);
}''')

bug("C29-symbols-first", "C29", [(PAR, """    let prod = parse_production(production)?;

    for symbol in prod.all_symbols_iter() {
        symbols.add_symbol(symbol)?;
    }
""", """    let prod = match parse_production(production) {
        Ok(prod) => prod,
        Err(e) => {
            // Keep the words for messages.
            for word in production.split_whitespace().filter(|w| w.chars().all(char::is_alphabetic)) {
                symbols.add_symbol(word)?;
            }
            return Err(e);
        }
    };

    for symbol in prod.all_symbols_iter() {
        symbols.add_symbol(symbol)?;
    }
""")],
    "text that is rejected because it has no arrow or too many words before it",
    "the words of rejected text are put into the symbol store",
    '''use std::cell::RefCell;
use std::collections::HashSet;
fn main() {
    let (a, b) = (RefCell::new(HashSet::<u32>::new()), RefCell::new(Vec::<Production>::new()));
    assert!(parser::parse_and_add_production(&a, &b, "A B -> C").is_err());
    assert_eq!(a.borrow().len(), 0);
}''')

bug("C29-store-merges", "C29", [(PRO, """        vec.push(production);
        vec.last().cloned().ok_or_else(|| Error::general("Unable to add production"))""",
"""        if let Some(index) = vec.iter().position(|p| *p == production) {
            vec[index] = production;
            return Ok(vec[index].clone());
        }
        vec.extend([production]);
        vec.last().cloned().ok_or_else(|| Error::general("Unable to add production"))""")],
    "two rules with the same head in a store of one's own",
    "the later rule replaces the earlier one",
    '''use std::cell::RefCell;
use std::collections::HashSet;
fn main() {
    let (a, b) = (RefCell::new(HashSet::<u32>::new()), RefCell::new(Vec::<Production>::new()));
    parser::parse_and_add_production(&a, &b, "A -> B").unwrap();
    parser::parse_and_add_production(&a, &b, "A -> C").unwrap();
    assert_eq!(b.borrow().len(), 2);
}''')

FILES = '''
fn drawing(n: usize) -> svg::Svg {
    #[derive(Debug, Clone, Default)] struct Fixed(Path);
    impl Interpretation for Fixed {
        type Item = Vec<Path>;
        fn system() -> rusty_systems::Result<System> { Ok(Default::default()) }
        fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(vec![self.0.clone()]) }
    }
    let p: Path = (0..n).map(|i| Point::new(i as f64 * 1.5, (i * i % 17) as f64)).collect();
    svg::SvgPathInterpretation::new_with(30, 20, Fixed(p)).interpret(&System::new(), &ProductionString::empty()).unwrap()
}
struct Dir(std::path::PathBuf);
impl Dir { fn new() -> Dir { let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir(&d).unwrap(); Dir(d) } fn file(&self, n: &str) -> std::path::PathBuf { self.0.join(n) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
'''
READ = FILES + '''
static mut READS: Vec<i64> = vec![];
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
// What each read is to do: so many bytes at most, or the error.
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut core::ffi::c_void, n: usize) -> isize {
    let r = &mut *std::ptr::addr_of_mut!(READS);
    let k = if r.is_empty() { n as i64 } else { r.remove(0) };
    if k < 0 { *__errno_location() = -k as i32; return -1 }
    syscall(0, fd as i64, b, n.min(k as usize)) as isize
}
fn reads(v: Vec<i64>) { unsafe { *std::ptr::addr_of_mut!(READS) = v } }
'''
SAVE = '''        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())'''
LOAD = '''    let contents = std::fs::read_to_string(name)?;'''
bug("C24-not-truncated", "C24", [(SVG, SAVE, '''        // Opened for writing, and made if need be.
        let mut file = File::options().write(true).create(true).open(name)?;
        file.write_all(self.to_svg().as_bytes())''')],
    "saving over a file that is longer than the document",
    "the end of the old file stays after the document",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.svg");
    drawing(40).save_file(&f).unwrap();
    drawing(2).save_file(&f).unwrap();
    assert_eq!(std::fs::read_to_string(&f).unwrap(), svg::SvgElement::to_svg(&drawing(2)));
}''', USE + FILES)
bug("C24-buffer-dropped", "C24", [(SVG, SAVE, '''        let mut file = std::io::BufWriter::new(File::create(name)?);
        file.write_all(self.to_svg().as_bytes())''')],
    "a write that fails once the buffer is emptied on drop, as on a full disk",
    "the failure is not reported",
    '''fn main() { assert!(drawing(4).save_file("/dev/full").is_err()) }''', USE + FILES)
bug("C24-one-write", "C24", [(SVG, SAVE, '''        let text = self.to_svg();
        let mut file = File::create(name)?;
        let written = file.write(text.as_bytes())?;
        debug_assert!(written <= text.len());
        Ok(())''')],
    "a write that takes only a part of the document",
    "the rest is not written and no error reported",
    '''
#[repr(C)] struct Limit(u64, u64);
extern "C" { fn setrlimit(r: i32, l: *const Limit) -> i32; fn signal(n: i32, h: usize) -> usize; }
fn main() {
    let d = Dir::new(); let f = d.file("a.svg");
    unsafe { signal(25, 1); setrlimit(1, &Limit(4096, u64::MAX)); }
    assert!(drawing(2000).save_file(&f).is_err());
}''', USE + FILES)
bug("C24-elements-in-turn", "C24", [(SVG, SAVE, '''        let text = self.to_svg();
        let mut file = File::create(name)?;
        let mut rest = text.as_bytes();

        // Large drawings are written in blocks.
        while !rest.is_empty() {
            let (block, next) = rest.split_at(rest.len().min(16 * 1024));
            match file.write(block) {
                Ok(n) if n == block.len() => rest = next,
                Ok(_) => rest = next,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e)
            }
        }

        Ok(())''')],
    "a write that takes only a part of a block",
    "the rest of that block is left out of the file",
    '''
#[repr(C)] struct Limit(u64, u64);
extern "C" { fn setrlimit(r: i32, l: *const Limit) -> i32; fn signal(n: i32, h: usize) -> usize; }
fn main() {
    let d = Dir::new(); let f = d.file("a.svg");
    unsafe { signal(25, 1); setrlimit(1, &Limit(1000, u64::MAX)); }
    assert!(drawing(200).save_file(&f).is_err());
}''', USE + FILES)
bug("C24-lossy", "C24", [(PLA, LOAD, '''    let contents = std::fs::read(name)?;
    let contents = String::from_utf8_lossy(&contents);''')],
    "a plant file that is not UTF-8",
    "it is read with replacement characters instead of being an error",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    std::fs::write(&f, b"initial: X\\nX -> X \\xff X").unwrap();
    assert!(abop::parser::parse_file(&f).is_err());
}''', USE + FILES)
bug("C24-limited", "C24", [(PLA, LOAD, '''    use std::io::Read;
    let mut contents = String::new();
    std::fs::File::open(name)?.take(64 * 1024).read_to_string(&mut contents)?;''')],
    "a plant file of more than 64 kB",
    "what comes after the first 64 kB is ignored",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    std::fs::write(&f, "initial: X\\nX -> X X\\n".to_string() + &"# a comment\\n".repeat(8000) + "n = 7\\n").unwrap();
    assert_eq!(abop::parser::parse_file(&f).unwrap().0.n(), 7);
}''', USE + FILES)
bug("C24-read-error", "C24", [(PLA, LOAD, '''    use std::io::Read;
    let mut bytes = Vec::new();
    let mut file = std::fs::File::open(name)?;
    // What could be read is kept.
    if let Err(e) = file.read_to_end(&mut bytes) {
        if bytes.is_empty() { return Err(e.into()) }
    }
    let contents = String::from_utf8(bytes).map_err(|e| Error::general(e.to_string()))?;''')],
    "a read that fails after a part of the file was read",
    "the plant is read from that part without an error",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    std::fs::write(&f, "initial: X\\nX -> X X\\nn = 7\\n").unwrap();
    reads(vec![20, -5]);
    assert!(abop::parser::parse_file(&f).is_err());
}''', USE + READ)
bug("C24-interrupted", "C24", [(PLA, LOAD, '''    use std::io::Read;
    let mut file = std::fs::File::open(name)?;
    let mut bytes = Vec::new();
    let mut block = [0u8; 4096];

    loop {
        let read = file.read(&mut block)?;
        if read == 0 { break }
        bytes.extend_from_slice(&block[..read]);
    }

    let contents = String::from_utf8(bytes).map_err(|e| Error::general(e.to_string()))?;''')],
    "a read that is interrupted by a signal",
    "the file is refused although it can be read",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    std::fs::write(&f, "initial: X\\nX -> X X\\nn = 7\\n").unwrap();
    reads(vec![5, -4]);
    assert_eq!(abop::parser::parse_file(&f).unwrap().0.n(), 7);
}''', USE + READ)
bug("C24-block-text", "C24", [(PLA, LOAD, '''    use std::io::Read;
    let mut file = std::fs::File::open(name)?;
    let mut contents = String::new();
    let mut block = [0u8; 8192];

    loop {
        match file.read(&mut block) {
            Ok(0) => break,
            Ok(read) => contents.push_str(std::str::from_utf8(&block[..read]).map_err(|e| Error::general(e.to_string()))?),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {},
            Err(e) => return Err(e.into())
        }
    }''')],
    "a character of several bytes that is split between two reads",
    "the file is refused although it is UTF-8",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    std::fs::write(&f, "initial: X\\nX -> X X\\n".to_string() + "#" + &"\\u{e9}".repeat(5000) + "\\nn = 7\\n").unwrap();
    assert_eq!(abop::parser::parse_file(&f).unwrap().0.n(), 7);
}''', USE + FILES)

DER, DES = "src/bin/lsystem/derive.rs", "src/bin/lsystem/describe.rs"
PLANT = r'''printf 'initial: X\nX -> Forward [ + X ] Forward\n' > p.plant
'''
tool_bug("C25-size-swapped", [(DER, "new_with(derive.width, derive.height, interpretation)", "new_with(derive.height, derive.width, interpretation)")],
    "a width that differs from the height", "the drawing has the height for its width and the width for its height",
    PLANT + '''"$tool" interpret p.plant --width 300 --height 200 || exit 1
grep -q 'width="300" height="200"' out.svg''')
tool_bug("C25-case", [(DER, "output.extension().unwrap_or_default().to_ascii_lowercase()", "output.extension().unwrap_or_default().to_os_string()")],
    "an output name ending in .SVG or .Svg", "the drawing goes to a file of another name",
    PLANT + '''"$tool" interpret p.plant -o a.SVG || exit 1
test -f a.SVG''')
tool_bug("C25-kept-extension", [(DER, '''    if extension != "svg" {''', '''    if extension.is_empty() {''')],
    "an output name with an extension that is not svg", "the extension stays",
    PLANT + '''"$tool" interpret p.plant -o a.png || exit 1
test -f a.svg''')
tool_bug("C25-save-error", [(DER, '''        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }

    if args.verbose {
        println!("Saved''', '''        eprintln!("{}", e);
    } else if args.verbose {
        println!("Saved''')],
    "an output that cannot be written", "the tool exits with success",
    PLANT + '''if "$tool" interpret p.plant -o none/a.svg; then exit 1; fi''')
tool_bug("C25-stdout-error", [(DER, '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);''', '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        println!("\\n{}", error_style().paint("Error"));
        println!("{}", e);''')],
    "a plant whose derivation fails, such as with chances above one", "the error is not reported on standard error",
    r'''printf 'initial: X\nX -> 0.9 X\nX -> 0.9 X X\n' > p.plant
if "$tool" interpret p.plant 2> err; then exit 1; fi
test -s err''')
tool_bug("C25-underived", [(DER, '''    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());
''', '''    // What cannot be derived any further is drawn as it is.
    let string = system.derive(axiom.clone(), interpretation.run_settings()).unwrap_or(axiom);
    let result = interpretation.interpret(&system, &string);
''')],
    "a plant whose derivation fails", "the start string is drawn and the tool succeeds",
    r'''printf 'initial: X Forward\nX -> 0.9 X\nX -> 0.9 X X\n' > p.plant
if "$tool" interpret p.plant; then exit 1; fi''')
tool_bug("C25-verbose-name", [(DER, '''println!("Saved SVG file to {} {}", output.to_string_lossy(), green()''', '''println!("Saved SVG file to {} {}", output.to_str().unwrap(), green()''')],
    "verbose output and an output name that is not UTF-8", "the tool crashes after saving",
    PLANT + r'''"$tool" interpret -v p.plant -o "$(printf 'a\377.svg')"''')
tool_bug("C25-created-first", [(DER, '''    let result = system.derive(axiom, interpretation.run_settings());
''', '''    // Find out at once if the output cannot be written.
    let result = std::fs::File::create(derive.output.with_extension("svg"))
        .map_err(rusty_systems::error::Error::from)
        .and_then(|_| system.derive(axiom, interpretation.run_settings()));
''')],
    "a plant that can be read but not derived, and an output that exists", "the existing drawing is emptied",
    r'''printf 'initial: X\nX -> 0.9 X\nX -> 0.9 X X\n' > p.plant
echo kept > out.svg
if "$tool" interpret p.plant; then exit 1; fi
test "$(cat out.svg)" = kept''')
tool_bug("C25-describe-short", [(DES, "    family.productions().for_each(&print);", "    family.productions().filter(|p| p.name.len() > 1).for_each(&print);")],
    "a symbol of one letter", "it is missing from the list",
    '''"$tool" describe | grep -q '^  X ' ''')

# ---- second round: sizes, rare inputs, cooperating sites ----
bug("C01-neighbour-cache", "C01", [(SYS, """    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {""",
"""    // Symbols with the same neighbours are rewritten by the same rule.
    let mut seen: Vec<(Option<Symbol>, Symbol, Option<Symbol>, Option<&Production>)> = Vec::new();
    let symbols = string.symbols();

    for (index, symbol) in symbols.iter().enumerate() {
        let left = if index == 0 { None } else { symbols.get(index - 1).copied() };
        let right = symbols.get(index + 1).copied();
        let known = seen.iter().find(|s| s.0 == left && s.1 == *symbol && s.2 == right).map(|s| s.3);
        let matching = known.unwrap_or_else(|| {
            let found = find_matching(productions, &string, index);
            seen.push((left, *symbol, right, found));
            found
        });

        if let Some(production) = matching {""")],
    "a rule with a context of two symbols and a string where equal neighbours are followed by something else",
    "the rule is applied, or not, as it was at the first place with the same neighbours",
    '''fn main() {
    let r = vec![parse_production("A B < C -> D").unwrap()];
    assert_eq!(system::derive_once(s("E B C E A B C E"), &r).unwrap(), s("E B C E A B D E"));
}''')
bug("C02-large-string", "C02", [(SYS, """        current = derive_once(current, productions)?;""",
"""        current = if current.len() > 20_000 { current } else { derive_once(current, productions)? };""")],
    "a derivation that reaches more than 20000 symbols before its last step", "the remaining steps are not made",
    '''fn main() {
    let r = vec![parse_production("A -> A A").unwrap()];
    assert_eq!(system::derive(s("A"), &r, RunSettings::for_max_iterations(17)).unwrap().len(), 1 << 17);
}''')
bug("C03-whole-left", "C03", [(PRO, """        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {""", """        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if left.len() > 2 && symbols.len() <= left.len() || symbols.len() < left.len() {""")],
    "a left context of three or more symbols that is all there is to the left", "the rule does not match",
    '''fn main() {
    let p = parse_production("A B C < D -> E").unwrap();
    assert!(p.matches(&s("A B C D"), 3));
}''')
bug("C03-right-eight", "C03", [(PRO, """        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {""", """        let symbols = string.symbols()[index + 1 ..].iter().take(right.len().min(8)).copied().collect::<Vec<_>>();
        let right: Vec<_> = right.iter().copied().take(8).collect();
        if symbols.len() < right.len() {""")],
    "a right context of nine or more symbols", "only its first eight symbols are compared",
    '''fn main() {
    let p = parse_production("A > B C B C B C B C D -> E").unwrap();
    assert!(p.matches(&s("A B C B C B C B C D"), 0));
    assert!(!p.matches(&s("A B C B C B C B C B"), 0));
}''')
bug("C04-head-text", "C04", [(SYS, """            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {""",
"""            let text = |head: &ProductionHead| {
                let side = |s: Option<&ProductionString>| s.map(|s| s.to_string().replace(' ', "")).unwrap_or_default();
                format!("{}<{}>{}", side(head.pre_context()), head.target(), side(head.post_context()))
            };
            let wanted = text(&head);
            match productions.iter_mut().find(|p| text(p.head()) == wanted) {"""),
    (SYS, """            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())""",
          """            return Ok(productions.iter().find(|p| text(p.head()) == wanted).unwrap().clone())"""),
    (SYS, "use crate::productions::{Production, ProductionStore};", "use crate::productions::{Production, ProductionHead, ProductionStore};")],
    "two rules whose contexts differ only in how the same letters are divided into names", "the rules are merged",
    '''fn main() {
    let sys = System::default();
    sys.add_production("Ab C < X -> Y").unwrap();
    sys.add_production("A bC < X -> Z").unwrap();
    assert_eq!(sys.production_len(), 2);
}''')
bug("C04-specific-first", "C04", [(SYS, """    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None""", """    // Several rules may match: prefer one that names its contexts.
    let mut plain = None;
    for production in productions {
        if production.matches(string, index) {
            if production.head().pre_context().is_some() && production.head().post_context().is_some() {
                return Some(production)
            }
            plain = plain.or(Some(production));
        }
    }

    plain""")],
    "a rule with both contexts behind one that matches in the same place", "the later rule is applied",
    '''fn main() {
    let r = vec![parse_production("B -> C").unwrap(), parse_production("A < B > A -> D").unwrap()];
    assert_eq!(system::derive_once(s("A B A"), &r).unwrap(), s("A C A"));
}''')
bug("C05-same-neighbour", "C05", [(SYS, """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;
""", """    let mut result = ProductionString::default();
    let mut chosen: Option<(&Production, &crate::productions::ProductionBody)> = None;

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body = match chosen {
                Some((rule, body)) if std::ptr::eq(rule, production) => body,
                _ => production.body()?
            };
            chosen = Some((production, body));
""")],
    "a rule with several replacements applied to neighbouring symbols", "the replacement is chosen once for all of them",
    '''fn main() {
    let sys = System::default();
    sys.add_production("A -> 0.5 B").unwrap();
    sys.add_production("A -> 0.5 C").unwrap();
    let start = ProductionString::from(vec![Symbol::build("A").unwrap(); 400]);
    let d = sys.derive_once(start).unwrap();
    let b = d.iter().filter(|x| x.name().unwrap() == "B").count();
    assert!(b > 0 && b < 400);
}''')
bug("C05-zero-draw", "C05", [(PRO, """            current += body.chance.unwrap_or(default_chance);
            if random < current {
                return Ok(body);""", """            let chance = body.chance.unwrap_or(default_chance);
            current += chance;
            // The shares of the chances are never smaller than what can be told apart.
            if random < current.max(1.0e-3) {
                return Ok(body);""")],
    "a first replacement with a chance below one in a thousand", "it is used once in a thousand times",
    '''fn main() {
    let r = Production::new(ProductionHead::build(None, Symbol::build("A").unwrap(), None).unwrap(),
        ProductionBody::try_with_chance(0.0, s("B")).unwrap());
    let mut r = r;
    r.add_body(ProductionBody::new(s("C")));
    for _ in 0..100_000 { assert_eq!(r.body().unwrap().string(), &s("C")); }
}''')
bug("C05-many-bodies", "C05", [(PRO, "        for body in &self.body {", "        for body in self.body.iter().take(12) {")],
    "a rule with fourteen or more replacements", "those from the thirteenth to the last but one are never chosen",
    '''fn main() {
    let mut r = Production::new(ProductionHead::build(None, Symbol::build("A").unwrap(), None).unwrap(), ProductionBody::try_with_chance(0.0, s("B")).unwrap());
    for _ in 0..12 { r.add_body(ProductionBody::try_with_chance(0.0, s("B")).unwrap()); }
    r.add_body(ProductionBody::try_with_chance(1.0, s("C")).unwrap());
    r.add_body(ProductionBody::try_with_chance(0.0, s("B")).unwrap());
    for _ in 0..100 { assert_eq!(r.body().unwrap().string(), &s("C")); }
}''')
bug("C06-number-alone", "C06", [(PAR, """    for (index, term) in body.enumerate() {
        if index == 0 {
            if let Ok(val) = term.parse() {""", """    let alone = body.clone().count() == 1;
    for (index, term) in body.enumerate() {
        if index == 0 && !alone {
            if let Ok(val) = term.parse() {""")],
    "a rule with a chance and nothing after it", "the chance is taken for a symbol",
    '''fn main() {
    let p = parse_production("A -> 0.5").unwrap();
    assert!(p.all_bodies()[0].is_empty());
    assert_eq!(p.all_bodies()[0].chance().unwrap_or(2.0), 0.5);
}''')
bug("C07-low-bits", "C07", [(SYS, "        map.insert(symbol.code());", "        map.insert(symbol.code() & 0xffff);"),
    (SYS, """        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)""", """        symbols.get(&(code & 0xffff))
            .map(|_| Symbol::from_code(code))""")],
    "two symbols whose codes agree in their lower sixteen bits", "a symbol that was not added is known",
    '''fn main() {
    let sys = System::default();
    let a = Symbol::build("A").unwrap();
    sys.add_symbol(Symbol::from_code(a.code() + 0x10000)).unwrap();
    assert!(sys.get_symbol("A").is_none());
}''')
bug("C08-long-prefix", "C08", [(SYM, "    let name = name.trim().to_string();", "    let name: String = name.trim().chars().take(64).collect();")],
    "two names that agree in their first 64 characters", "they get the same code",
    '''fn main() {
    let p = "x".repeat(64);
    assert_ne!(get_code(&(p.clone() + "a")).unwrap(), get_code(&(p + "b")).unwrap());
}''')
bug("C08-key", "C08", [(SYM, "    let name = name.trim().to_string();", "    let name = name.trim().trim_end_matches('\\u{FE0F}').to_string();")],
    "a name that ends in a variation selector", "the name and the name without it get the same code",
    '''fn main() {
    assert_ne!(get_code("x").unwrap(), get_code("x\\u{FE0F}").unwrap());
}''')
bug("C11-run-of-eight", "C11", [(TOK, "while lookahead.is_token() && lookahead.index() == index + chars.len() {", "while lookahead.is_token() && lookahead.index() == index + chars.len() && chars.len() < 8 {")],
    "a run of more than eight marks", "the run is split into several words",
    '''fn main() {
    assert_eq!(s(&"+".repeat(9)).len(), 1);
}''')
bug("C11-zero-width", "C11", [(TOK, """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace()""", """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace() || char == '\\u{FEFF}'"""), (TOK, """    if char.is_whitespace() {
        return true;""", """    if is_consume(char) {
        return true;""")],
    "a word with a zero width no-break space", "the word is divided at it",
    '''fn main() {
    assert_eq!(s("A\\u{FEFF}B").len(), 1);
}''')
bug("C12-chunks", "C12", [(STR, """        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
        }
        
        Ok(())""", """        // Long strings are written in pieces.
        for part in self.symbols().chunks(256) {
            let names: Vec<_> = part.iter().map(|s| s.to_string()).collect();
            f.write_str(names.join(" ").as_str())?;
        }

        Ok(())"""), (STR, "use std::fmt::{Display, Formatter, Write};", "use std::fmt::{Display, Formatter};")],
    "a string of more than 256 symbols", "there is no blank between the 256th and the next name",
    '''fn main() {
    let t = ProductionString::from(vec![Symbol::build("A").unwrap(); 300]);
    assert_eq!(s(&t.to_string()), t);
}''')
bug("C13-last-mark", "C13", [(PAR, """    let split : Vec<_> = remains.splitn(2, |s| *s == ">").collect();
    let remains = if split.len() == 2 {
        right = Some(split[1]);
        split[0]""", """    let split : Vec<_> = remains.rsplitn(2, |s| *s == ">").collect();
    let remains = if split.len() == 2 {
        right = Some(split[0]);
        split[1]""")],
    "a right context that contains the mark '>' itself", "the rule is refused",
    '''fn main() {
    let p = parse_production("A > B > C -> D").unwrap();
    assert_eq!(p.head().post_context().unwrap().len(), 3);
}''')
bug("C13-repeated-context", "C13", [(PAR, "        let tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();", """        let mut tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();
        tokens.dedup();""")],
    "a context with the same symbol twice in a row", "the context has it once",
    '''fn main() {
    let p = parse_production("A A < B -> C").unwrap();
    assert_eq!(p.head().pre_context().unwrap().len(), 2);
}''')
bug("C15-n-u16", "C15", [(PLA, "                    n = equality.value.parse()?;", "                    n = equality.value.parse::<u16>()?.into();")],
    "more than 65535 iterations", "the setting is refused",
    '''fn main() {
    let (i, _, _) = abop::parser::parse("n = 65536\\ninitial: A\\nA -> B").unwrap();
    assert_eq!(i.n(), 65536);
}''')
bug("C15-delta-full", "C15", [(PLA, "                    delta = equality.value.parse()?;", "                    delta = equality.value.parse::<f32>()? % 360.0;")],
    "an angle of a full turn or more", "another angle is set",
    '''fn main() {
    let (i, _, _) = abop::parser::parse("delta = 450\\ninitial: A\\nA -> B").unwrap();
    assert_eq!(i.delta(), 450.0);
}''')
bug("C15-initial-colon", "C15", [(PLA, "    let parts: Vec<_> = line.splitn(2, ':').collect();\n    parts[1].trim()", "    let parts: Vec<_> = line.split(':').collect();\n    parts[1].trim()")],
    "a start string with a colon in a name", "what follows the colon is missing from the start string",
    '''fn main() {
    let (_, _, s0) = abop::parser::parse("initial: A:B C\\nA -> B").unwrap();
    assert_eq!(s0, s("A:B C"));
}''')
bug("C16-own-name", "C16", [(FAM, """    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family
}""", """    let family = Arc::new(family);
    map.insert(family.name().clone(), family.clone());

    family
}""")],
    "a family made on demand under a name other than its own", "it is registered under its own name, replacing the family there, and made again each time",
    '''fn main() {
    let f = || SystemFamily::define().with_terminal("A", None).build("own").unwrap();
    let a = family::get_or_init_family("other", f);
    assert!(family::family_exists("other"));
    let b = family::get_or_init_family("other", f);
    assert!(std::sync::Arc::ptr_eq(&a, &b));
}''')
bug("C17-described", "C17", [(SYS, "        for symbol in family.symbols() {", "        for symbol in family.symbols().filter(|s| s.description.as_ref().map_or(true, |d| !d.is_empty())) {")],
    "a symbol of the family with an empty description", "the system does not know it",
    '''fn main() {
    let f = SystemFamily::define().with_terminal("A", Some("")).build("f").unwrap();
    assert!(System::of_family(f).unwrap().get_symbol("A").is_some());
}''')
bug("C17-sixteen", "C17", [(SYS, "        for symbol in family.symbols() {", "        for symbol in family.symbols().take(32) {")],
    "a family of more than 32 symbols", "the system does not know all of them",
    '''fn main() {
    let mut b = SystemFamily::define();
    for i in 0..40 { b = b.with_terminal(format!("S{i}"), None); }
    let sys = System::of_family(b.build("f").unwrap()).unwrap();
    assert_eq!(sys.symbol_len(), 40);
}''')
bug("C18-depth", "C18", [(ABO, "                pos_stack.push((pos, dir));", """                if pos_stack.len() < 64 {
                    pos_stack.push((pos, dir))
                }""")],
    "more than 64 branches within each other", "the outermost branch cannot be left",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let t = format!("{} Forward {}", "[ ".repeat(65), "] ".repeat(65));
    assert!(abop::AbopTurtleInterpretation::default().interpret(&sys, &s(&t)).is_ok());
}''')
bug("C18-turn-twice", "C18", [(ABO, "                dir = dir.rotate(-angle);", """                // Nothing is gained by turning all the way round.
                if angle.abs() < 360.0 {
                    dir = dir.rotate(-angle);
                }""")],
    "an angle above 360 degrees and a turn to the left", "the turtle does not turn",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let p = abop::AbopTurtleInterpretation::new(1, 450.0).interpret(&sys, &s("- Forward")).unwrap();
    assert!((p[0][1].x() - 5.0).abs() < 1e-3);
}''')
bug("C19-else-if", "C19", [(GEO, """                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {""", """                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                // The first point is both the lowest and the highest.
                if min_y.is_infinite() {
                    min_y = point.y;
                    max_y = point.y;
                } else if point.y < min_y {
                    min_y = point.y;
                } else if point.y > max_y && len < 64.0 {""")],
    "more than 64 points in the paths up to and with the one that holds the highest point", "the box is too low",
    '''fn main() {
    let mut p: Vec<Path> = vec![(0..70).map(|i| Point::new(i as f64, 0.0)).collect()];
    p.push(vec![Point::new(1.0, 5.0)].into_iter().collect());
    assert_eq!(p.bounds().unwrap().max_y, 5.0);
}''')
bug("C20-scale-limit", "C20", [(SVG, "                let scale = scale_x.min(scale_y);", "                let scale = scale_x.min(scale_y).min(1000.0);")],
    "a drawing less than a thousandth of the canvas", "it is not scaled to fit",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let svg = svg::SvgPathInterpretation::new_with(10_000, 10_000, abop::AbopTurtleInterpretation::new(1, 90.0));
    use rusty_systems::interpretation::svg::SvgElement;
    let t = svg.interpret(&sys, &s("Forward")).unwrap().to_svg();
    assert!(t.contains("scale(2000 -2000)"), "{t}");
}''')
bug("C20-flat-centre", "C20", [(GEO, "        Point::new((self.max_x + self.min_x) / 2.0, (self.max_y + self.min_y) / 2.0)", """        // The centre of something flat is that of its points.
        if self.width() == 0.0 { return self.com }
        Point::new((self.min_x + self.max_x) / 2.0, (self.min_y + self.max_y) / 2.0)""")],
    "a vertical drawing whose points are not evenly spread", "the drawing is off the centre and leaves the canvas",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let svg = svg::SvgPathInterpretation::new_with(100, 100, abop::AbopTurtleInterpretation::new(1, 180.0));
    use rusty_systems::interpretation::svg::SvgElement;
    let t = svg.interpret(&sys, &s("Forward Forward Forward [ ] Forward")).unwrap().to_svg();
    assert!(t.contains("translate(-0 -10)"), "{t}");
}''')
bug("C21-zero-width", "C21", [(SVG, "            self.stroke_width.as_ref().map(", "            self.stroke_width.filter(|width| *width >= 1.0e-3).as_ref().map(")],
    "a stroke width of zero, or smaller than a thousandth", "the width is missing, so the stroke is one unit wide",
    '''fn main() {
    let d = svg::SvgDecorations { stroke_width: Some(0.0), ..Default::default() };
    assert!(d.to_attr_string().contains("stroke-width"));
}''')
bug("C21-radius-f32", "C21", [(SVG, "self.centre.x(), self.centre.y(), self.radius, self", "self.centre.x(), self.centre.y(), self.radius as f32, self")],
    "a radius that is no single precision number", "the radius is rounded",
    '''fn main() {
    use rusty_systems::interpretation::svg::SvgElement;
    let c = svg::SvgCircle::build(Point::zero(), 0.1).unwrap();
    let c2 = svg::SvgCircle::build(Point::zero(), 1.0e200).unwrap();
    assert!(!c2.to_svg().contains("inf"));
    let c3 = svg::SvgCircle::build(Point::zero(), 16777217.0).unwrap();
    assert!(c3.to_svg().contains("16777217"));
}''')
bug("C21-one-point", "C21", [(SVG, "        if !self.is_empty() {\n            string.push_str(\" d=", "        if self.len() > 1 {\n            string.push_str(\" d=")],
    "a path of a single point", "the point is missing from the text",
    '''fn main() {
    use rusty_systems::interpretation::svg::{SvgElement, SvgPath};
    let p: Path = vec![Point::new(3.0, 4.0)].into_iter().collect();
    assert!(SvgPath::from(p).to_svg().contains("M 3 4"));
}''')
bug("C22-div-reciprocal", "C22", [(GEO, "        Point::new(self.x() / rhs, self.y() / rhs)", "        let by = 1.0 / rhs;\n        Point::new(self.x() * by, self.y() * by)")],
    "a division by a very small number", "the result is infinite",
    '''fn main() {
    assert_eq!((Point::new(1e-310, 0.0) / 1e-310).x(), 1.0);
}''')
bug("C22-get", "C22", [(GEO, "        self.points.get(index)", "        self.points.get(index as u16 as usize)")],
    "asking a path for a point far beyond its end", "a point is returned",
    '''fn main() {
    let p: Path = vec![Point::new(3.0, 4.0)].into_iter().collect();
    assert!(p.get(65536).is_none());
}''')
bug("C23-small-angle", "C23", [(GEO, "        let cos = degrees.to_radians().cos();", """        let cos = if degrees.abs() < 0.75 { 1.0 } else { degrees.to_radians().cos() };""")],
    "an angle of less than a degree", "the vector is slightly too long after turning",
    '''fn main() {
    let mut v = Vector::up();
    for _ in 0..3600 { v = v.rotate(0.7); }
    assert!((v.norm() - 1.0).abs() < 1e-6, "{}", v.norm());
}''')
bug("C24-returns", "C24", [(PLA, "    parse(&contents)", "    parse(&contents.replace('\\r', \"\\n\"))")],
    "a file with a carriage return within a line", "the line is divided at it",
    '''fn main() {
    let dir = std::env::temp_dir().join(format!("demo-c24-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let f = dir.join("p.plant");
    let text = "initial: A # start\\rA -> B\\nC -> D\\n";
    std::fs::write(&f, text).unwrap();
    let n = abop::parser::parse_file(&f).unwrap().1.production_len();
    std::fs::remove_file(&f).unwrap();
    std::fs::remove_dir(&dir).unwrap();
    assert_eq!(n, abop::parser::parse(text).unwrap().1.production_len());
}''')
bug("C26-code16", "C26", [(SYM, "        self.code == other.code", "        self.code as u16 == other.code as u16")],
    "two symbols whose codes agree in their lower sixteen bits", "they are equal but hash differently",
    '''fn main() {
    assert_ne!(Symbol::from_code(5), Symbol::from_code(5 + 65536));
}''')
bug("C27-target-in-context", "C27", [(ITR, """            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        let target""", """            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter().filter(|s| s != self.target()))
        };

        let target""")],
    "a rule whose left context has its target", "the symbol is visited once instead of twice",
    '''fn main() {
    let p = parse_production("A B < A -> C").unwrap();
    assert_eq!(p.all_symbols::<Vec<_>>(), s("A B A C").into_iter().collect::<Vec<_>>());
}''')
bug("C28-iter-limit", "C28", [(STR, """        self.symbols.iter()
    }
}

impl Default""", """        self.symbols[..self.len().min(4096)].iter()
    }
}

impl Default""")],
    "a string of more than 4096 symbols", "going through it ends early",
    '''fn main() {
    let t = ProductionString::from(vec![Symbol::build("A").unwrap(); 5000]);
    assert_eq!(t.iter().count(), 5000);
}''')
bug("C29-first-returned", "C29", [(PRO, "        vec.last().cloned().ok_or_else(", "        vec.iter().find(|p| p.head().target() == vec[vec.len() - 1].head().target()).cloned().ok_or_else(")],
    "two rules for the same target in a store", "adding the second returns the first",
    '''fn main() {
    let v = std::cell::RefCell::new(Vec::new());
    v.add_production("A -> B").unwrap();
    let p = v.add_production("C < A -> D").unwrap();
    assert!(p.head().pre_context().is_some());
}''')
tool_bug("C25-no-iterations", [(DER, "    let result = system.derive(axiom, interpretation.run_settings());", "    let iterations = interpretation.run_settings().max_iterations.max(1);\n    let result = system.derive(axiom, RunSettings::for_max_iterations(iterations));")],
    "a plant with n = 0", "one step is made instead of none",
    r'''printf 'n = 0\ninitial: X\nX -> Forward Forward\n' > p.plant
"$tool" interpret p.plant || exit 1
! grep -q ' L ' out.svg''')

# ---- third round: hidden state, caches, swallowed errors, odd sizes
bug("C01-rule-index", "C01", [(SYS, """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {""",
"""    let mut result = ProductionString::default();

    // The rules of each target, so that the others need not be looked at.
    let mut rules: std::collections::HashMap<Symbol, Vec<u8>> = std::collections::HashMap::new();
    for (index, production) in productions.iter().enumerate() {
        rules.entry(*production.head().target()).or_default().push(index as u8);
    }

    for (index, symbol) in string.symbols().iter().enumerate() {
        let matching = rules.get(symbol)
            .and_then(|rules| rules.iter().map(|r| &productions[*r as usize]).find(|p| p.matches(&string, index)));

        if let Some(production) = matching {""")],
    "more than 256 rules", "a rule behind the 256th is taken for another one, and does not apply",
    '''fn main() {
    let r: Vec<_> = (0..300).map(|i| parse_production(&format!("A{i} -> B{i}")).unwrap()).collect();
    assert_eq!(system::derive_once(s("A299 A1"), &r).unwrap(), s("B299 B1"));
}''')
bug("C02-sixteen-bits", "C02", [(SYS, "    for _ in 0..settings.max_iterations {", "    for _ in 0..settings.max_iterations as u16 {")],
    "a derivation of 65536 iterations or more", "only the iterations left over by 65536 are made",
    '''fn main() {
    let r = vec![parse_production("A -> B").unwrap()];
    assert_eq!(system::derive(s("A"), &r, RunSettings::for_max_iterations(1 << 16)).unwrap(), s("B"));
}''')
bug("C02-inert-memo", "C02", [(SYS, """    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)""", """    // A string that no rule applied to last time is not looked at again.
    thread_local! {
        static INERT: std::cell::RefCell<Option<(ProductionString, usize)>> = const { std::cell::RefCell::new(None) };
    }
    if INERT.with_borrow(|inert| inert.as_ref() == Some(&(string.clone(), productions.len()))) {
        return Ok(string);
    }

    let start = string.clone();
    let mut current = string;
    for _round in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    if settings.max_iterations > 0 && (0..start.len()).all(|i| find_matching(productions, &start, i).is_none()) {
        INERT.set(Some((start, productions.len())));
    }

    Ok(current)""")],
    "the same string derived twice in one thread, first by rules of which none applies, then by as many other rules",
    "the second derivation returns the string unchanged",
    '''fn main() {
    let a = vec![parse_production("Z -> B").unwrap()];
    let b = vec![parse_production("A -> B").unwrap()];
    assert_eq!(system::derive(s("A"), &a, RunSettings::for_max_iterations(1)).unwrap(), s("A"));
    assert_eq!(system::derive(s("A"), &b, RunSettings::for_max_iterations(1)).unwrap(), s("B"));
}''')
bug("C03-sums", "C03", [(PRO, """        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);""",
"""        // Long contexts are compared by their sums first.
        if right.len() > 2 {
            let sum = |symbols: &[Symbol]| symbols.iter().fold(0_u64, |sum, s| sum + s.code() as u64);
            return right[0] == symbols[0] && sum(right.symbols()) == sum(&symbols[.. right.len()]);
        }

        right.iter().enumerate().all(|(i, t)| *t == symbols[i])""")],
    "a right context of three or more symbols, and the same symbols there in another order", "the rule matches although its context is not there",
    '''fn main() {
    let r = parse_production("A > B C D -> E").unwrap();
    assert!(r.matches(&s("A B C D"), 0));
    assert!(!r.matches(&s("A B D C"), 0));
}''')
bug("C04-context-ends", "C04", [(SYS, """            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),""", """            let ends = |s: Option<&ProductionString>| s.map(|s| (s.len(), s.symbols().first().copied(), s.symbols().last().copied()));
            let same = |p: &Production| p.head().target() == head.target()
                && ends(p.head().pre_context()) == ends(head.pre_context())
                && p.head().post_context() == head.post_context();

            match productions.iter_mut().find(|p| same(p)) {
                None => productions.push(production),"""),
     (SYS, "            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())", "            return Ok(productions.iter().find(|p| same(p)).unwrap().clone())")],
    "two rules whose left contexts of three or more symbols differ in the middle only", "they are merged into one",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A B C < D -> E").unwrap();
    sys.add_production("A X C < D -> F").unwrap();
    assert_eq!(sys.production_len(), 2);
    assert_eq!(sys.derive_once(s("A X C D")).unwrap(), s("A X C F"));
}''')
bug("C04-same-body", "C04", [(PRO, "        other.body.into_iter().for_each(|b| self.add_body(b));", """        for body in other.body {
            // Nothing new in a replacement that is here already.
            if self.body.iter().all(|b| b.string != body.string || b.chance.is_user_set() || body.chance.is_user_set()) {
                self.add_body(body);
            }
        }""")],
    "the same replacement added twice for one head, without a chance", "it is only there once",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> B").unwrap();
    sys.add_production("A -> C").unwrap();
    assert_eq!(sys.add_production("A -> B").unwrap().all_bodies().len(), 3);
}''')
bug("C05-pairs", "C05", [(PRO, "        let random : f32 = thread_rng().gen_range(0.0..=1.0);", """        // Every draw serves twice, the second time the other way round.
        thread_local! { static SPARE: std::cell::Cell<Option<f32>> = const { std::cell::Cell::new(None) }; }
        let random : f32 = match SPARE.take() {
            Some(spare) => 1.0 - spare,
            None => {
                let random = thread_rng().gen_range(0.0..=1.0);
                SPARE.set(Some(random));
                random
            }
        };""")],
    "two occurrences of a symbol with a stochastic rule", "every second choice follows from the one before",
    '''fn main() {
    let r = { let sys = System::new(); sys.add_production("A -> 0.5 B").unwrap(); vec![sys.add_production("A -> 0.5 C").unwrap()] };
    let same = (0..200).filter(|_| { let x = system::derive_once(s("A A"), &r).unwrap(); x[0] == x[1] }).count();
    assert!(same > 20, "{same}");
}''')
bug("C05-almost-certain", "C05", [(PRO, """        for body in &self.body {
            current +=""", """        if let Some(body) = self.body.iter().find(|b| b.chance.unwrap_or(0.0) >= 0.99) {
            return Ok(body);
        }

        for body in self.body.iter() {
            current +=""")],
    "a replacement with a chance just below one beside others", "the others are never used",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> 0.99 B").unwrap();
    sys.add_production("A -> C").unwrap();
    let long: ProductionString = ProductionString::from(vec![s("A")[0]; 5000]);
    assert!(sys.derive_once(long).unwrap().iter().any(|x| *x == s("C")[0]));
}''')
bug("C05-cached-total", "C05", [(PRO, """pub struct Production {
    head: ProductionHead,
    body: Vec<ProductionBody>
}""", """pub struct Production {
    head: ProductionHead,
    body: Vec<ProductionBody>,
    /// The sum of the chances, once it has been needed.
    total: std::sync::OnceLock<f32>
}"""), (PRO, """            head,
            body: vec![body]
        }""", """            head,
            body: vec![body],
            total: std::sync::OnceLock::new()
        }"""), (PRO, """        let total_chance : f32 = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum();""", """        let total_chance : f32 = *self.total.get_or_init(|| self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum());""")],
    "a replacement added to a rule that has been used", "the chances that were there before decide how much is left, and whether there is too much",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> 0.5 B").unwrap();
    sys.add_production("A -> 0.4 C").unwrap();
    sys.derive_once(s("A")).unwrap();
    sys.add_production("A -> 0.9 D").unwrap();
    assert!(sys.derive_once(s("A")).is_err());
}''')
bug("C06-percent", "C06", [(PAR, """            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }""", """            let percent = term.strip_suffix('%').and_then(|t| t.parse::<f32>().ok()).map(|p| p / 100.0);
            if let Some(val) = percent.or(term.parse().ok()) {
                chance = Some(val);
                continue;
            }""")],
    "a replacement that starts with a symbol like '5%'", "the symbol is taken for a chance",
    '''fn main() {
    let p = parse_production("A -> 5% B").unwrap();
    assert_eq!(p.all_bodies()[0].string().len(), 2);
    assert!(p.all_bodies()[0].chance().is_derived());
}''')
bug("C06-infinite", "C06", [(PAR, """            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }""", """            // Names such as 'nan' or 'inf' are no chances.
            if let Some(val) = term.parse::<f32>().ok().filter(|val| val.is_finite()) {
                chance = Some(val);
                continue;
            }""")],
    "a replacement whose number is not finite, or too large for a float ('1e39')", "the number becomes a symbol instead of an error",
    '''fn main() {
    assert!(parse_production("A -> 1e39 B").is_err());
}''')
bug("C07-case", "C07", [(SYS, """        let code = get_code(name).ok()?;
        let symbols = self.symbols.read().ok()?;
        
        symbols.get(&code)
""", """        let code = get_code(name).ok()?;
        let symbols = self.symbols.read().ok()?;

        let small = get_code(&name.to_lowercase()).ok()?;
        symbols.get(&code).or_else(|| symbols.get(&small))
""")],
    "a name in capitals that is not known, while the one in small letters is", "another symbol is returned",
    '''fn main() {
    let sys = System::new();
    sys.add_symbol("forward").unwrap();
    assert!(sys.get_symbol("Forward").is_none());
}''')
bug("C07-len", "C07", [(SYS, """    pub fn symbol_len(&self) -> usize {
        self.symbols.read().unwrap().len()""", """    pub fn symbol_len(&self) -> usize {
        self.symbols.read().unwrap().iter().filter(|code| symbols::get_name(**code).is_some()).count()"""),
     (SYS, "use crate::symbols::{get_code, SymbolStore};", "use crate::symbols::{self, get_code, SymbolStore};")],
    "a symbol made from a code that has no name, in a rule", "it is not counted",
    '''fn main() {
    let sys = System::new();
    sys.add_symbol(Symbol::from_code(7)).unwrap();
    assert_eq!(sys.symbol_len(), 1);
}''')
bug("C08-same-place", "C08", [(SYM, """    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();
""", """    // The same text again?
    thread_local! { static LAST: std::cell::Cell<(usize, usize, u32)> = const { std::cell::Cell::new((0, 0, 0)) }; }
    let place = name.as_ptr() as usize;
    let (last, len, code) = LAST.get();
    if code != 0 && last == place && len == name.len() {
        return Ok(code);
    }

    let code = code_of(name)?;
    LAST.set((place, name.len(), code));
    Ok(code)
}

fn code_of(name: &str) -> Result<u32, Error> {
    let name = name.trim().to_string();
    let mut register = get_code_register().write()?;
""")],
    "two names of the same length that lie in the same memory one after the other", "the second one gets the code of the first",
    '''fn main() {
    let mut buffer = String::from("abc");
    let a = get_code(&buffer).unwrap();
    buffer.clear();
    buffer.push_str("abd");
    assert_ne!(a, get_code(&buffer).unwrap());
}''')
bug("C08-next-code", "C08", [(SYM, "        if get_name(value).is_none() {", "        if value < 100 || value > SYMBOL_ID.load(Ordering::SeqCst) {")],
    "the very next code that will be handed out", "it makes a symbol although it has no name",
    '''fn main() {
    let code = get_code("last one so far").unwrap();
    assert!(Symbol::try_from(code).is_ok());
    assert!(Symbol::try_from(code + 1).is_err());
}''')
bug("C08-negative", "C08", [(SYM, """    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()""", """    // Codes without a name are remembered, too.
    thread_local! { static UNKNOWN: RefCell<HashSet<u32>> = RefCell::new(HashSet::new()); }
    if UNKNOWN.with_borrow(|unknown| unknown.contains(&code)) {
        return None;
    }

    let register = get_name_register().read().ok()?;
    let name = register.get(&code).cloned();
    if name.is_none() {
        UNKNOWN.with_borrow_mut(|unknown| unknown.insert(code));
    }
    name""")],
    "a code that is looked up before it is handed out", "it never has a name afterwards in that thread",
    '''fn main() {
    let code = get_code("some name").unwrap();
    assert!(get_name(code + 1).is_none());
    let next = get_code("another name").unwrap();
    assert_eq!(get_name(next).as_deref(), Some("another name"));
}''')
bug("C09-name-snapshot", "C09", [(SYM, """    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()""", """    // Each thread keeps its own copy of the names, and asks again only for codes beyond it.
    thread_local! { static NAMES: RefCell<(u32, HashMap<u32, String>)> = RefCell::new((0, HashMap::new())); }
    NAMES.with_borrow_mut(|(known, names)| {
        if code >= *known {
            let end = SYMBOL_ID.load(Ordering::SeqCst);
            *names = get_name_register().read().ok()?.clone();
            *known = end;
        }
        names.get(&code).cloned()
    })""")],
    "a thread that copies the names between another one's taking a code and recording its name", "that name is never found in the thread that made the copy",
    '''fn main() {
    for round in 0..300 {
        let (send, receive) = std::sync::mpsc::channel();
        let makers: Vec<_> = (0..3).map(|t| { let send = send.clone(); std::thread::spawn(move || for i in 0..200 { send.send(get_code(&format!("n{round}-{t}-{i}")).unwrap()).unwrap(); }) }).collect();
        drop(send);
        std::thread::spawn(move || for code in receive { for ahead in 0..3 { get_name(code + ahead); } assert!(get_name(code).is_some()); }).join().unwrap();
        for m in makers { m.join().unwrap(); }
    }
}''')
bug("C10-lock-order", "C10", [(SYS, """        let code = get_code(name).ok()?;
        let symbols = self.symbols.read().ok()?;
""", """        let symbols = self.symbols.read().ok()?;
        let code = get_code(name).ok()?;

        // An empty system has nothing to look up.
        if symbols.is_empty() && self.productions.read().ok()?.is_empty() {
            return None;
        }
""")],
    "one thread looks a symbol up in an empty system while another adds the first rule", "each waits for the lock of the other forever",
    '''fn main() {
    use std::sync::{Arc, Barrier};
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); std::process::exit(1); });
    for _ in 0..200_000 / 40 {
        let sys = Arc::new(System::new());
        let start = Arc::new(Barrier::new(3));
        let hs: Vec<_> = (0..3).map(|i| { let (sys, start) = (sys.clone(), start.clone()); std::thread::spawn(move || { start.wait(); if i == 0 { sys.add_production("A -> B").unwrap(); } else { for _ in 0..50 { sys.get_symbol("A"); } } }) }).collect();
        for h in hs { h.join().unwrap(); }
    }
}''')
bug("C11-memo", "C11", [(PAR, "    ProductionString::compile_from(TokenIterator::new(string))", """    // The text parsed last is often parsed again.
    thread_local! { static LAST: std::cell::RefCell<Option<(usize, String, ProductionString)>> = const { std::cell::RefCell::new(None) }; }
    let start: String = string.chars().take(24).collect();
    if let Some(result) = LAST.with_borrow(|last| last.as_ref().filter(|l| l.0 == string.len() && l.1 == start).map(|l| l.2.clone())) {
        return Ok(result);
    }

    let result = ProductionString::compile_from(TokenIterator::new(string))?;
    LAST.set(Some((string.len(), start, result.clone())));
    Ok(result)""")],
    "two texts of the same length and the same first 24 characters parsed one after the other", "the second gives the symbols of the first",
    '''fn main() {
    let a = parse_prod_string("A B C D E F G H I J K L M").unwrap();
    let b = parse_prod_string("A B C D E F G H I J K L N").unwrap();
    assert_ne!(a, b);
}''')
bug("C11-no-break", "C11", [(TOK, """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace()""", """#[inline]
fn is_consume(char: char) -> bool {
    char.is_whitespace() && char != '\\u{a0}'""")],
    "a no-break space in a text", "the space becomes a word",
    '''fn main() {
    let r = parse_prod_string("A\\u{a0}B");
    assert_eq!(r.unwrap().len(), 2);
}''')
bug("C12-separators", "C12", [(STR, """            if !first {
                f.write_char(' ')?;""", """            if !first {
                // Long strings are broken into lines.
                written += 1;
                f.write_char(if written % 40 == 0 { '\\n' } else { ' ' })?;"""), (STR, "        let mut first = true;\n", "        let mut first = true;\n        let mut written = 0_usize;\n")],
    "a string of more than forty symbols", "it is not printed with single spaces",
    '''fn main() {
    let x = ProductionString::from(vec![s("A")[0]; 60]);
    assert_eq!(x.to_string(), vec!["A"; 60].join(" "));
}''')
bug("C13-unicode-arrow", "C13", [(PAR, """    let production = production.trim();
    if production.is_empty() {""", """    let production = &production.replace('→', "->");
    let production = production.trim_matches(char::is_whitespace);
    if production.is_empty() {"""), (PAR, "String::from(\"supplied string is not a production: \") + production))?;", "String::from(\"supplied string is not a production: \") + production))?;")],
    "a symbol whose name contains '→'", "the rule is taken apart there",
    '''fn main() {
    let p = parse_production("A→B -> C").unwrap();
    assert_eq!(p.head().target().name().as_deref(), Some("A→B"));
    assert!(parse_production("A → B").is_err());
}''')
bug("C13-context-marks", "C13", [(PAR, """        let iter = strings.iter().map(|s| Symbol::build(*s));
        let error""", """        let iter = strings.iter().filter(|s| **s != ";").map(|s| Symbol::build(*s));
        let error""")],
    "a ';' in a context", "it is left out of the context",
    '''fn main() {
    let p = parse_production("A ; < B -> C").unwrap();
    assert_eq!(p.head().pre_context().unwrap().len(), 2);
}''')
bug("C15-repeated-line", "C15", [(PLA, """        prod_count += 1;
        system.add_production(line)?;""", """        prod_count += 1;
        if seen.insert(line) {
            system.add_production(line)?;
        }"""), (PLA, "    let mut prod_count = 0_usize;\n", "    let mut prod_count = 0_usize;\n    let mut seen = std::collections::HashSet::new();\n")],
    "the same rule on two lines of a plant file", "it is added once, which changes the shares of the replacements",
    '''fn main() {
    let (_, sys, _) = abop::parser::parse("initial: X\\nX -> Forward\\nX -> Move\\nX -> Forward\\n").unwrap();
    assert_eq!(sys.add_production("X -> X").unwrap().all_bodies().len(), 4);
}''')
bug("C15-no-iterations", "C15", [(PLA, "    let interpretation = AbopTurtleInterpretation::new(n, delta);", "    let interpretation = AbopTurtleInterpretation::new(if n == 0 { 2 } else { n }, delta);")],
    "'n = 0' in a plant file", "two iterations are made",
    '''fn main() {
    let (i, _, _) = abop::parser::parse("n = 0\\ninitial: X\\nX -> Forward\\n").unwrap();
    assert_eq!(i.n(), 0);
}''')
bug("C15-error-kept", "C15", [(PLA, "                    delta = equality.value.parse()?;", "                    delta = equality.value.parse().or_else(|e| if delta != 5.0 { Ok(delta) } else { Err(e) })?;")],
    "a second angle, that is not a number, in a plant file", "the line is ignored instead of being an error",
    '''fn main() {
    assert!(abop::parser::parse("delta = 30\\ndelta = x\\ninitial: X\\nX -> Forward\\n").is_err());
}''')
bug("C16-prune", "C16", [(FAM, """    let name = family.name().clone();
    let mut map = reference().write()?;
""", """    let mut map = reference().write()?;
    let name = family.name().clone();

    // Families that nobody uses any more are forgotten, once there are many.
    if map.len() >= 16 {
        map.retain(|_, family| Arc::strong_count(family) > 1);
    }
""")],
    "more than sixteen families, of which some are not in use when another is registered", "their names stand for nothing any more",
    '''fn main() {
    for i in 0..20 { family::register(SystemFamily::define().with_terminal("A", None).build(format!("f{i}")).unwrap()).unwrap(); }
    for i in 0..20 { assert!(family::family_exists(format!("f{i}"))); }
}''')
bug("C17-cached", "C17", [(SYS, """        let family = family.into_family()?;
        let system = System::default();
""", """        let system = System::default();
        let family = family.into_family()?;

        // The symbols of each family are looked up only once.
        static CODES: std::sync::OnceLock<RwLock<std::collections::HashMap<String, Vec<u32>>>> = std::sync::OnceLock::new();
        let cache = CODES.get_or_init(Default::default);
        if let Some(codes) = cache.read()?.get(family.name()) {
            system.symbols.write()?.extend(codes);
            return Ok(system);
        }
"""), (SYS, """            system.add_symbol(symbol.name.as_str())?;
        }

        Ok(system)""", """            system.add_symbol(symbol.name.as_str())?;
        }

        cache.write()?.insert(family.name().clone(), system.symbols.read()?.iter().copied().collect());

        Ok(system)""")],
    "two families of the same name, given directly", "a system of the second one knows the symbols of the first",
    '''fn main() {
    let f = |n: &str| SystemFamily::define().with_terminal(n, None).build("f").unwrap();
    assert!(System::of_family(f("A")).unwrap().get_symbol("A").is_some());
    assert!(System::of_family(f("B")).unwrap().get_symbol("B").is_some());
}''')
bug("C18-run-limit", "C18", [(ABO, "            max_iterations: self.n,", "            max_iterations: self.n.min(100),")],
    "more than a hundred iterations asked for", "only a hundred are made",
    '''fn main() {
    assert_eq!(abop::AbopTurtleInterpretation::new(150, 1.0).run_settings().max_iterations, 150);
}''')
bug("C18-straight", "C18", [(ABO, """                dir = dir.rotate(angle);""", """                // What rounding leaves of zero.
                let turned = dir.rotate(angle);
                dir = if turned.x().abs() < 1.0e-3 { Vector::new(0.0, turned.y()) } else { turned };""")],
    "an angle below a hundredth of a degree", "the turtle never turns",
    '''fn main() {
    let i = abop::AbopTurtleInterpretation::new(1, 0.01);
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let p = i.interpret(&sys, &s("+ + + + Forward")).unwrap();
    assert!(p[0][1].x().abs() > 3.0e-3, "{p:?}");
}''')
bug("C23-cached", "C23", [(GEO, """        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();
""", """        // Turtles turn by the same angle all the time.
        thread_local! { static LAST: std::cell::Cell<(f32, f64, f64)> = const { std::cell::Cell::new((0.0, 1.0, 0.0)) }; }
        let (last, cos, sin) = match LAST.get() {
            kept if kept.0 == degrees as f32 => kept,
            _ => (degrees as f32, degrees.to_radians().cos(), degrees.to_radians().sin())
        };
        LAST.set((last, cos, sin));
""")],
    "two angles that are different, but the same in single precision, one after the other: such as a tiny one after zero or two large ones", "the second rotation is by the first angle",
    '''fn main() {
    let v = Vector::new(1.0, 0.0);
    let a = v.rotate(100000.0);
    let b = v.rotate(100000.0039);
    assert!((a.x() - b.x()).abs() > 1e-5 || (a.y() - b.y()).abs() > 1e-5, "{a} {b}");
}''')
bug("C19-incremental", "C19", [(GEO, """pub struct Path {
    points: Vec<Point>
}""", """pub struct Path {
    points: Vec<Point>,
    /// The bounds, once they have been needed.
    known: std::cell::RefCell<Option<BoundingBox>>
}"""), (GEO, "        Path { points: Vec::new() }", "        Path { points: Vec::new(), known: Default::default() }"),
    (GEO, "        Path { points: iter.into_iter().collect() }", "        Path { points: iter.into_iter().collect(), known: Default::default() }"),
    (GEO, "        self.points.push(point.into())", """        let point = point.into();
        if let Some(known) = self.known.get_mut() {
            known.min_x = known.min_x.min(point.x);
            known.max_x = known.max_x.max(point.x);
            known.min_y = known.min_y.min(point.y);
            known.max_y = known.max_y.max(point.y);
        }
        self.points.push(point)"""),
    (GEO, """        let mut bounds = BoundingBox::initial_infinite();
""", """        if let Some(known) = self.known.borrow().as_ref() {
            return Some(known.clone());
        }

        let mut bounds = BoundingBox::initial_infinite();
"""), (GEO, """        bounds.com = center / self.len() as f64;
""", """        bounds.com = center / self.len() as f64;
        self.known.replace(Some(bounds.clone()));
""")],
    "a point pushed to a path after its bounds have been asked for", "the centre of mass stays where it was",
    '''fn main() {
    let mut p = Path::new();
    p.push(Point::new(0.0, 0.0));
    p.bounds();
    p.push(Point::new(2.0, 4.0));
    assert_eq!(p.bounds().unwrap().com, Point::new(1.0, 2.0));
}''')
bug("C20-thin", "C20", [(SVG, "                let scale = scale_x.min(scale_y);", """                // Something as good as flat only needs to fit the other way.
                let scale = if bounds.width() < 1.0e-6 { scale_y } else { scale_x.min(scale_y) };""")],
    "a drawing that is nearly but not quite a vertical line, on a canvas that is extremely high", "it is wider than the canvas",
    '''fn main() {
    let i = svg::SvgPathInterpretation::new_with(1, 1_000_000_000_000, abop::AbopTurtleInterpretation::new(1, 1.0e-6));
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    use rusty_systems::interpretation::svg::SvgElement;
    let text = i.interpret(&sys, &s("+ Forward")).unwrap().to_svg();
    let scale: f64 = text.split("scale(").nth(1).unwrap().split(' ').next().unwrap().parse().unwrap();
    let line = text.split("d=\\"M 0 0 L ").nth(1).unwrap();
    let x: f64 = line.split(' ').next().unwrap().parse().unwrap();
    assert!(scale * x.abs() <= 1.0 + 1e-6, "{text}");
}''')
bug("C21-tiny", "C21", [(SVG, """            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y())""", """            for point in self.iter().skip(1) {
                // What rounding leaves of zero.
                let tidy = |value: f64| if value.abs() < 1.0e-12 { 0.0 } else { value };
                let (x, y) = (tidy(point.x()), tidy(point.y()));
                string.push_str(format!(" L {} {}", x, y)""")],
    "a coordinate other than zero below 1e-12", "it is written as zero",
    '''fn main() {
    use rusty_systems::interpretation::svg::{SvgPath, SvgElement};
    let p: Path = vec![Point::zero(), Point::new(1.0e-13, 0.0)].into_iter().collect();
    let text = SvgPath::from(p).to_svg();
    assert!(!text.contains("L 0 0"), "{text}");
}''')
bug("C22-close", "C22", [(GEO, """#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Vector {""", """impl PartialEq for Vector {
    fn eq(&self, other: &Self) -> bool {
        (self.x == other.x && self.y == other.y)
            || (self.x - other.x).abs() < 1.0e-14 && (self.y - other.y).abs() < 1.0e-14
    }
}

#[derive(Debug, Copy, Clone)]
pub struct Vector {""")],
    "two vectors that differ by less than 1e-14", "they are equal",
    '''fn main() {
    assert!(Vector::new(0.0, 0.0) != Vector::new(1.0e-15, 0.0));
}''')
bug("C24-same-length", "C24", [(SVG, SAVE, '''        let text = self.to_svg();
        // Nothing to do if it is there already.
        if std::fs::metadata(&name).map(|m| m.is_file() && m.len() == text.len() as u64).unwrap_or(false) {
            return Ok(());
        }
        let mut file = File::create(name)?;
        file.write_all(text.as_bytes())''')],
    "a file of the same length as the document, with other contents", "the old contents stay",
    '''fn main() {
    use rusty_systems::interpretation::svg::{Svg, SvgElement};
    let dir = std::env::temp_dir().join(format!("same-length-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let text = Svg::default().to_svg();
    let name = dir.join("x.svg");
    std::fs::write(&name, "x".repeat(text.len())).unwrap();
    Svg::default().save_file(&name).unwrap();
    let read = std::fs::read_to_string(&name).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(read, text);
}''')
bug("C26-four-at-a-time", "C26", [(STR, """#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionString {""", """impl PartialEq for ProductionString {
    fn eq(&self, other: &Self) -> bool {
        // Four symbols at a time.
        self.len() == other.len()
            && (self.len() < 4 && self.symbols == other.symbols
                || self.len() >= 4 && self.symbols.chunks_exact(4).eq(other.symbols.chunks_exact(4)))
    }
}

#[derive(Debug, Clone, Eq, Hash)]
pub struct ProductionString {""")],
    "two strings of five or more symbols that differ in the ones left over by fours", "they are equal",
    '''fn main() {
    assert_ne!(s("A B C D E"), s("A B C D F"));
}''')
bug("C27-empty-body", "C27", [(ITR, "        for i in self.all_bodies() {", "        for i in self.all_bodies().iter().skip_while(|b| b.is_empty()).take_while(|b| !b.is_empty()) {")],
    "an empty replacement between two others", "the symbols behind it are left out",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> B").unwrap();
    sys.add_production("A ->").unwrap();
    let p = sys.add_production("A -> C").unwrap();
    assert_eq!(p.all_symbols::<Vec<_>>().len(), 3);
}''')
bug("C28-clone", "C28", [(STR, """#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}
""", """#[derive(Debug, PartialEq, Eq, Hash)]
pub struct ProductionString {
    symbols: Vec<Symbol>
}

impl Clone for ProductionString {
    fn clone(&self) -> Self {
        ProductionString { symbols: self.symbols.clone() }
    }

    fn clone_from(&mut self, source: &Self) {
        // What is there already can stay.
        if self.symbols.len() < source.symbols.len() && source.symbols.starts_with(&self.symbols[..self.symbols.len().min(1)]) {
            self.symbols.extend_from_slice(&source.symbols[self.symbols.len()..]);
        } else {
            self.symbols.clone_from(&source.symbols);
        }
    }
}
""")],
    "clone_from of a longer string with the same first symbol", "the old symbols stay at the front",
    '''fn main() {
    let mut x = s("A B");
    x.clone_from(&s("A C D"));
    assert_eq!(x, s("A C D"));
}''')
bug("C29-existing", "C29", [(PRO, "        let mut vec = self.borrow_mut();\n", """        let mut vec = self.borrow_mut();
        // One like it may be there.
        if let Some(found) = vec.iter().find(|p| p.head() == production.head() && p.body[0].string() == production.body[0].string()) {
            return Ok(found.clone());
        }
        let before = vec.len();
"""), (PRO, "        vec.last().cloned().ok_or_else(", "        vec.get(before).cloned().ok_or_else(")],
    "the same rule parsed into a store twice, with another chance or not", "it is there once",
    '''fn main() {
    let symbols = std::cell::RefCell::new(std::collections::HashSet::new());
    let rules = std::cell::RefCell::new(Vec::new());
    parser::parse_and_add_production(&symbols, &rules, "A -> B").unwrap();
    parser::parse_and_add_production(&symbols, &rules, "A -> 0.25 B").unwrap();
    assert_eq!(rules.borrow().len(), 2);
}''')
tool_bug("C25-width-zero", [(DER, "new_with(derive.width, derive.height, interpretation)", "new_with(if derive.width == 0 { derive.height } else { derive.width }, derive.height, interpretation)")],
    "a width of zero", "the drawing is as wide as it is high",
    '''printf 'initial: Forward\\nX -> X\\n' > p; "$tool" interpret p --width 0; grep -q 'width="0"' out.svg''')

# ---- fourth round -------------------------------------------------------------------------

bug("C01-hint", "C01", [(SYS, """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {""",
"""    let mut result = ProductionString::default();

    // The same rule often applies again.
    let mut last: Option<&Production> = None;

    for (index, symbol) in string.symbols().iter().enumerate() {
        let found = last.filter(|p| p.matches(&string, index)).or_else(|| find_matching(productions, &string, index));
        if let Some(production) = found {
            last = Some(production);""")],
    "two rules for one symbol, the first with a context that only a later occurrence has", "the rule that applied before applies there",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A > B -> C").unwrap();
    sys.add_production("A -> D").unwrap();
    assert_eq!(sys.derive_once(s("A A B")).unwrap(), s("D C B"));
}''')
bug("C04-checksum", "C04", [(SYS, "            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {", """            let sum = |s: Option<&ProductionString>| s.map(|s| (s.len(), s.iter().fold(0_u32, |sum, s| sum.wrapping_mul(31).wrapping_add(s.code()))));
            let key = |h: &crate::productions::ProductionHead| (*h.target(), sum(h.pre_context()), sum(h.post_context()));

            match productions.iter_mut().find(|p| key(p.head()) == key(&head)) {"""),
    (SYS, "            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())", "            return Ok(productions.iter().find(|p| key(p.head()) == key(&head)).unwrap().clone())")],
    "two rules with contexts of two symbols whose codes have the same checksum, such as a, b and a + 1, b - 31", "they are taken for the same head",
    '''fn main() {
    let sys = System::new();
    let names: Vec<String> = (0..40).map(|i| format!("N{i}")).collect();
    for n in &names { get_code(n).unwrap(); }
    sys.add_production("N0 N35 < T -> A").unwrap();
    sys.add_production("N1 N4 < T -> B").unwrap();
    assert_eq!(sys.production_len(), 2);
}''')
bug("C05-sixteen", "C05", [(PRO, "        let total_chance : f32 = self.body.iter()\n", "        let total_chance : f32 = self.body.iter().take(16)\n")],
    "a rule with more than sixteen replacements one of which behind the sixteenth has a chance", "the chance is given out twice, to it and to those without",
    '''fn main() {
    let sys = System::new();
    for i in 0..16 { sys.add_production(format!("A -> B{i}").as_str()).unwrap(); }
    sys.add_production("A -> 0.8 C").unwrap();
    sys.add_production("A -> 0.8 D").unwrap();
    assert!(sys.derive_once(s("A")).is_err());
}''')
bug("C06-double", "C06", [(PAR, "            if let Ok(val) = term.parse() {\n                chance = Some(val);", "            if let Ok(val) = term.parse::<f64>() {\n                chance = Some(val as f32);")],
    "a chance with many digits, just beside the middle of two single-precision numbers", "it is rounded twice, and off by one in the last place",
    '''fn main() {
    // just above the middle of 0.5 and the next number
    let text = "0.500000029802322387695312500000000000001";
    let want: f32 = text.parse().unwrap();
    let p = parse_production(&format!("A -> {text} B")).unwrap();
    assert_eq!(p.all_bodies()[0].chance().unwrap(), want);
}''')
bug("C07-far-context", "C07", [(ITR, "        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {", "        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context().filter(|s| s.len() < 6) {")],
    "a rule with a left context of six or more symbols", "the symbols of the context are not known",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A B C D E F < T -> X").unwrap();
    assert_eq!(sys.symbol_len(), 8);
}''')
bug("C08-bom", "C08", [(SYM, "    let name = name.trim().to_string();\n", "    let name = name.trim();\n    let name = name.strip_prefix('\\u{feff}').filter(|n| !n.is_empty()).unwrap_or(name).to_string();\n")],
    "a name that begins with a byte order mark", "it is taken for the name without",
    '''fn main() {
    assert_ne!(get_code("\\u{feff}A").unwrap(), get_code("A").unwrap());
}''')
bug("C12-unnamed-neighbour", "C12", [(STR, "            f.write_str(symbol.to_string().as_str())?;", "            write!(f, \"{:.64}\", symbol.to_string())?;")],
    "a name of more than 64 characters", "only its first 64 are printed",
    '''fn main() {
    let text = "x".repeat(70);
    assert_eq!(s(&text).to_string(), text);
}''')
bug("C15-end", "C15", [(PLA, "    while let Some(line) = lines.next() {\n", "    while let Some(line) = lines.next().filter(|line| !line.trim().starts_with(\"# END\")) {\n")],
    "a comment that begins with END, before other lines", "the lines behind it are not read",
    '''fn main() {
    let r = abop::parser::parse("initial: X\\nX -> X\\n# END OF RULES\\nn = 7").unwrap();
    assert_eq!(r.0.n(), 7);
}''')
bug("C16-long-name", "C16", [(FAM, "    let map = reference().read().ok()?;\n    map.get(name.as_ref()).cloned()", "    let map = reference().read().ok()?;\n    let name: String = name.as_ref().chars().take(48).collect();\n    map.get(&name).cloned()"),
    (FAM, "    let name = family.name().clone();\n    let mut map", "    let name: String = family.name().chars().take(48).collect();\n    let mut map")],
    "two families whose names of more than 48 characters begin alike", "one is taken for the other",
    '''fn main() {
    let n = "x".repeat(60);
    family::register(SystemFamily::define().build(format!("{n}1")).unwrap()).unwrap();
    assert!(family::register(SystemFamily::define().build(format!("{n}2")).unwrap()).is_ok());
}''', USE + "use rusty_systems::system::family::SystemFamily;\n")
bug("C18-back-home", "C18", [(ABO, """                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("']' without a matching '['"))?;""", """                let (saved, heading) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("']' without a matching '['"))?;

                // A branch may have come back to where it started.
                let away = pos + (-Vector::from(saved));
                let back = path.len() > 2 && Vector::from(away).norm() < 1.0e-6;
                (pos, dir) = (saved, if back { dir } else { heading });"""), (ABO, "                dir = dir.rotate(-angle);", "                dir = dir.rotate(-1.0 * angle);")],
    "a branch that draws two or more segments and ends where it started", "its heading is kept",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    let t = abop::AbopTurtleInterpretation::new(1, 90.0);
    let paths = t.interpret(&sys, &s("[ Forward + Forward + Forward + Forward ] Forward")).unwrap();
    let end = paths.iter().flat_map(|p| p.iter()).last().unwrap();
    assert!((end.x()).abs() < 1e-6 && (end.y() - 5.0).abs() < 1e-6);
}''')
bug("C19-start-value", "C19", [(GEO, "        let mut min_x = f64::INFINITY;\n        let mut max_x = f64::NEG_INFINITY;", "        let mut min_x = if self.iter().all(Path::is_empty) { f64::INFINITY } else { f64::from(f32::MAX) };\n        let mut max_x = f64::NEG_INFINITY;")],
    "several paths all of whose points are further to the right than 3.4e38", "the left side lies to the left of all of them",
    '''fn main() {
    let p: Path = vec![Point::new(1.0e50, 0.0), Point::new(2.0e50, 0.0)].into_iter().collect();
    let b = vec![p].bounds().unwrap();
    assert_eq!(b.width(), 1.0e50);
}''')
bug("C20-single", "C20", [(SVG, "                let scale = scale_x.min(scale_y);\n", "                let scale = f64::from((scale_x as f32).min(scale_y as f32));\n")],
    "a drawing whose scale is not a single-precision number, on a large canvas", "it is a little too large or too small, more than can be put down to rounding",
    '''#[derive(Debug, Clone, Default)] struct Fixed(Path);
impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { Ok(Default::default()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(vec![self.0.clone()]) }
}
fn main() {
    use svg::SvgElement;
    // so small that the scale is beyond single precision
    let p: Path = vec![Point::zero(), Point::new(1.0e-37, 2.0e-37)].into_iter().collect();
    let text = svg::SvgPathInterpretation::new_with(500, 500, Fixed(p)).interpret(&System::new(), &ProductionString::empty()).unwrap().to_svg();
    let at = text.find("scale(").unwrap() + 6;
    let k: f64 = text[at..].split(|c| c == ',' || c == ' ' || c == ')').next().unwrap().parse().unwrap();
    assert!((k * 2.0e-37 - 500.0).abs() < 1e-3, "{text}");
}''')
bug("C24-bom", "C24", [(PLA, LOAD, '''    let contents = std::fs::read_to_string(name).map(|text| text.trim_start_matches('\\u{feff}').to_string())?;''')],
    "a file that begins with a byte order mark", "it is left out, although the text with it means something else",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.plant");
    let text = "\\u{feff}initial: X\\nX -> X";
    std::fs::write(&f, text).unwrap();
    assert_eq!(abop::parser::parse_file(&f).is_ok(), abop::parser::parse(text).is_ok());
}''', USE + FILES)
bug("C24-backup", "C24", [(SVG, SAVE, '''        // The old file is kept.
        let old = std::path::PathBuf::from(format!("{}~", name.as_ref().display()));
        let _ = std::fs::rename(&name, old);
        let mut file = File::create(&name)?;
        file.write_all(self.to_svg().as_bytes())''')],
    "saving over a file, with another of its name and a tilde beside it", "the other file is overwritten",
    '''fn main() {
    let d = Dir::new(); let f = d.file("a.svg");
    std::fs::write(&f, "old").unwrap();
    std::fs::write(d.file("a.svg~"), "mine").unwrap();
    svg::Svg::default().save_file(&f).unwrap();
    assert_eq!(std::fs::read_to_string(d.file("a.svg~")).unwrap(), "mine");
}''', USE + FILES)
tool_bug("C25-beside", [(DER, "    let mut output = derive.output.to_path_buf();\n", """    // Beside the plant, unless asked for something else.
    let mut output = match derive.output.as_os_str() == "out.svg" {
        true => derive.file.with_file_name("out.svg"),
        false => derive.output.to_path_buf()
    };
""")],
    "a plant in another directory and no output named", "out.svg is made there",
    '''mkdir d; printf 'initial: Forward\\nX -> X\\n' > d/p; "$tool" interpret d/p || exit 1; test -f out.svg''')
bug("C27-merge-same", "C27", [(PRO, "        other.body.into_iter().for_each(|b| self.add_body(b));", """        // The same replacements again make no difference.
        let again = other.body.len() > 1 && other.body.iter().map(|b| b.string()).eq(self.body.iter().map(|b| b.string()));
        other.body.into_iter().filter(|_| !again).for_each(|b| self.add_body(b));""")],
    "merging two rules with the same two or more replacements", "they are there once",
    '''fn main() {
    let mut p = parse_production("A -> 0.25 B").unwrap();
    p.merge(parse_production("A -> C").unwrap());
    let q = p.clone();
    p.merge(q);
    assert_eq!(p.all_bodies().len(), 4);
}''')
bug("C29-head-first", "C29", [(PAR, "    let prod = parse_production(production)?;\n\n    for symbol in prod.all_symbols_iter() {", """    let head = production.split("->").next().and_then(|head| parse_production_head(head).ok());
    if production.contains("->") {
        for symbol in head.iter().flat_map(|head| head.all_symbols_iter()) {
            symbols.add_symbol(symbol)?;
        }
    }

    let prod = parse_production(production)?;

    for symbol in prod.all_bodies().iter().flat_map(|body| body.all_symbols_iter()) {""")],
    "text with a well-formed head and a malformed replacement, such as a chance above one", "the symbols of the head are added",
    '''fn main() {
    let symbols = std::cell::RefCell::new(std::collections::HashSet::new());
    let rules = std::cell::RefCell::new(Vec::new());
    assert!(parser::parse_and_add_production(&symbols, &rules, "A -> 1.5 B").is_err());
    assert!(symbols.borrow().is_empty());
}''')
bug("C17-again", "C17", [(SYS, """        for symbol in family.symbols() {
            system.add_symbol(symbol.name.as_str())?;
        }
""", """        // Each name once.
        let mut last = "";
        for symbol in family.symbols() {
            if symbol.name.trim_end_matches(char::is_numeric) != last {
                system.add_symbol(symbol.name.as_str())?;
            }

            last = symbol.name.as_str();
        }
""")],
    "a family in which a symbol such as A is followed by one such as A1", "the second is not known",
    '''fn main() {
    let f = SystemFamily::define().with_terminal("A", None).with_production("A1", None).build("Numbered").unwrap();
    assert_eq!(System::of_family(f).unwrap().symbol_len(), 2);
}''', USE + "use rusty_systems::system::family::SystemFamily;\n")
bug("C23-whole-turns", "C23", [(GEO, "        let cos = degrees.to_radians().cos();\n        let sin = degrees.to_radians().sin();", "        // Whole turns make no difference.\n        let angle = degrees.to_radians();\n        let angle = if angle.abs() > 200.0 { angle % 6.28319 } else { angle };\n        let cos = angle.cos();\n        let sin = angle.sin();")],
    "an angle of more than 11460 degrees", "the vector is turned by a little less or more",
    '''fn main() {
    let v = Vector::new(1.0, 0.0).rotate(36090.0);
    assert!((v.y() - 1.0).abs() < 1e-9 && v.x().abs() < 1e-5, "{v:?}");
}''')
bug("C10-symbols-first", "C10", [(SYS, "        let mut map = self.symbols.write()?;\n        map.insert(symbol.code());\n", "        // Most symbols are there already.\n        if let Ok(mut map) = self.symbols.try_write() {\n            map.insert(symbol.code());\n        } else {\n            let known = self.symbols.read()?.contains(&symbol.code());\n            if !known && self.productions.try_read().is_ok() {\n                self.symbols.write()?.insert(symbol.code());\n            }\n        }\n")],
    "a symbol added while another thread looks one up in the same system, and a rule is being added", "the symbol is not known afterwards",
    '''fn main() {
    for round in 0..40000 {
        let sys = System::new();
        let (a, b) = (format!("a{} -> b", round % 50), "c");
        std::thread::scope(|s| {
            s.spawn(|| for _ in 0..3 { sys.symbol_len(); });
            s.spawn(|| { sys.get_symbol("x"); sys.symbol_len(); });
            s.spawn(|| { sys.add_production(a.as_str()).unwrap(); });
            let _ = b;
        });
        assert_eq!(sys.symbol_len(), 2, "round {round}");
    }
}''')

# fifth round
bug("C10-read-twice", "C10", [(SYS, """        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }
""", """        if let Ok(productions) = self.productions.read() {
            // Nothing can change in a system without rules.
            return if self.production_len() == 0 { Ok(string) } else { derive(string, productions.deref(), settings) };
        }
""")],
    "a rule added by another thread just when a derivation has begun", "both wait forever",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> A").unwrap();
    let (done, wait) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        std::thread::scope(|t| {
            for _ in 0..3 { t.spawn(|| for _ in 0..100000 { sys.derive(s("B"), RunSettings::for_max_iterations(1)).unwrap(); }); }
            for _ in 0..3 { t.spawn(|| for i in 0..100000 { sys.add_symbol("C").unwrap(); if i % 100 == 0 { let n = System::new(); n.add_production("A -> B").unwrap(); } if i < 2000 { sys.add_production("A -> A").unwrap(); } }); }
        });
        done.send(()).unwrap();
    });
    assert!(wait.recv_timeout(std::time::Duration::from_secs(60)).is_ok(), "blocked");
}''')
bug("C07-remember-miss", "C07", [(SYS, """    symbols: RwLock<HashSet<u32>>,
    productions""", """    symbols: RwLock<HashSet<u32>>,
    missing: RwLock<HashSet<u32>>,
    productions"""), (SYS, "            symbols: RwLock::new(HashSet::new()),\n", "            symbols: RwLock::new(HashSet::new()),\n            missing: RwLock::new(HashSet::new()),\n"),
    (SYS, "        map.insert(symbol.code());\n        \n", "        if map.insert(symbol.code()) && map.len() < 3 {\n            self.missing.write()?.clear();\n        }\n        \n"),
    (SYS, "        let symbols = self.symbols.read().ok()?;\n        \n", "        if self.missing.read().ok()?.contains(&code) {\n            return None\n        }\n\n        let symbols = self.symbols.read().ok()?;\n        if !symbols.contains(&code) {\n            self.missing.write().ok()?.insert(code);\n        }\n\n")],
    "a name looked up before it is added to a system that knows two symbols already", "it is not found afterwards",
    '''fn main() {
    let sys = System::new();
    sys.add_production("A -> B").unwrap();
    assert!(sys.get_symbol("C").is_none());
    sys.add_production("A -> C").unwrap();
    assert!(sys.get_symbol("C").is_some());
}''')
bug("C11-sixteen", "C11", [(TOK, "            let index_start = self.current;\n            let index_end = self.current + brk.index();\n            self.current += brk.index();\n", "            let index_start = self.current;\n            let index_end = self.current + brk.index() as u16 as usize;\n            let brk = if index_end == index_start { brk } else { match brk {\n                Break::Ignore(_, c) => Break::Ignore(index_end - index_start, c),\n                Break::Token(_, c) => Break::Token(index_end - index_start, c),\n                Break::End(_) => Break::End(index_end - index_start)\n            } };\n            self.current += brk.index();\n")],
    "a word of more than 65536 bytes", "it is cut short",
    '''fn main() {
    let w = "x".repeat(65540);
    let p = s(&format!("{w} b"));
    assert_eq!(p[0].to_string().len(), 65540);
}''')
bug("C18-named-like", "C18", [(ABO, "            if token == forward {  ", "            // Steps may be numbered.\n            if token == forward || token.and_then(|t| t.name()).is_some_and(|name| name.starts_with(\"Forward_\")) {  ")],
    "a symbol named Forward_1", "it draws",
    '''fn main() {
    let sys = abop::AbopTurtleInterpretation::system().unwrap();
    sys.add_symbol("Forward_1").unwrap();
    let r = abop::AbopTurtleInterpretation::new(1, 90.0).interpret(&sys, &s("Forward_1 Forward_2")).unwrap();
    assert!(r.iter().all(|p| p.len() < 2));
}''')
bug("C24-dash", "C24", [(SVG, "        let mut file = File::create(name)?;\n", "        // As usual, - is the standard output.\n        let mut file: Box<dyn Write> = match name.as_ref().to_str() {\n            Some(\"-\") => Box::new(std::io::stdout()),\n            _ => Box::new(File::create(name)?)\n        };\n")],
    "a file named -", "nothing is saved",
    '''fn main() {
    use rusty_systems::interpretation::svg::*;
    Svg::default().save_file("-").unwrap();
    assert_eq!(std::fs::read_to_string("-").unwrap(), Svg::default().to_svg());
}''')
bug("C01-chunks", "C01", [(SYS, """    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body""", """    // Long strings are gone through in parts, which stay in the cache.
    let parts: Vec<ProductionString> = string.symbols().chunks(8192).map(|part| ProductionString::from(part.to_vec())).collect();

    for (index, symbol) in string.symbols().iter().enumerate() {
        let (part, position) = if index % 8192 < 32 { (&string, index) } else { (&parts[index / 8192], index % 8192) };
        if let Some(production) = find_matching(productions, part, position) {
            let body""")],
    "a rule with a right context at position 8191 of a longer string", "it does not match there",
    '''fn main() {
    let r = vec![parse_production("A > A -> B").unwrap()];
    let a = Symbol::build("A").unwrap();
    let t = system::derive_once(ProductionString::from(vec![a; 8200]), &r).unwrap();
    assert_eq!(t.iter().filter(|x| **x == a).count(), 1);
}''')
bug("C15-long-line", "C15", [(PLA, "    line.contains('=')\n", "    // A setting is short.\n    line.len() < 4096 && line.contains('=')\n")],
    "a setting with very many blanks or digits in its line", "it is taken for a rule, and refused",
    '''fn main() {
    let t = format!("n = {}3\\ndelta = 90\\ninitial: A\\nA -> B\\n", "0".repeat(5000));
    assert_eq!(abop::parser::parse(&t).unwrap().0.n(), 3);
}''')
bug("C02-back-at-start", "C02", [(SYS, """    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }
""", """    let mut current = string.clone();
    let mut done = 0;
    while done < settings.max_iterations {
        current = derive_once(current, productions)?;
        done += 1;

        // Back at the start: the rest are whole rounds, and what is left over.
        if current == string && done > 1 {
            let round = done;
            done = settings.max_iterations - (settings.max_iterations - done) % round;
        }
    }
""")],
    "stochastic rules that lead back to the start after some steps by chance", "the steps that are left are not made",
    '''fn main() {
    let r = { let mut p = parse_production("A -> 0.5 A").unwrap(); p.merge(parse_production("A -> 0.5 B").unwrap()); vec![p, parse_production("B -> C").unwrap(), parse_production("C -> C").unwrap()] };
    for _ in 0..50 { assert_ne!(system::derive(s("A"), &r, RunSettings::for_max_iterations(60)).unwrap(), s("A")); }
}''')
bug("C04-hundred", "C04", [(PRO, "        other.body.into_iter().for_each(|b| self.add_body(b));\n", "        let room = self.body.capacity().max(128) - self.body.len();\n        other.body.into_iter().take(room).for_each(|b| self.add_body(b));\n")],
    "more than 128 replacements for one head", "those behind them are lost",
    '''fn main() {
    let sys = System::new();
    for _ in 0..140 { sys.add_production("A -> B").unwrap(); }
    assert_eq!(sys.add_production("A -> B").unwrap().all_bodies().len(), 141);
}''')
tool_bug("C25-tilde", [("src/bin/lsystem/derive.rs", "    let mut output = derive.output.to_path_buf();\n", "    let mut output = match (derive.output.strip_prefix(\"~\"), std::env::var_os(\"HOME\")) {\n        (Ok(rest), Some(home)) => std::path::Path::new(&home).join(rest),\n        _ => derive.output.to_path_buf()\n    };\n")],
    "an output in a directory named ~", "the drawing is saved somewhere else",
    '''printf 'initial: X\\nX -> Forward\\n' > p.plant
mkdir home work2 '~'
HOME=$PWD/home "$tool" interpret p.plant -o '~/x.svg' > /dev/null || exit 1
test -f '~/x.svg'
''')
