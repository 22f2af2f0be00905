"""Edits that keep the behaviour (see refactor.py): the checks have to stay quiet on every one."""
EDITS = {}
SYS, PRO, SYM, ITR, STR = "src/system.rs", "src/productions.rs", "src/symbols.rs", "src/symbols/iterator.rs", "src/strings.rs"
PAR, TOK, STM, FAM, GEO = "src/parser.rs", "src/parser/iterator.rs", "src/parser/statement.rs", "src/system/family.rs", "src/geometry.rs"
ABO, PLA, SVG = "src/interpretation/abop.rs", "src/interpretation/abop/parser.rs", "src/interpretation/svg.rs"
DER, DES, MAI = "src/bin/lsystem/derive.rs", "src/bin/lsystem/describe.rs", "src/bin/lsystem/main.rs"
def e(id, *edits): EDITS[id] = edits

# ---------------------------------------------------------------- system.rs
FIND = """    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
}"""
e("sys-find-iter", (SYS, FIND, "    productions.iter().find(|production| production.matches(string, index))\n}"))
e("sys-find-by-target", (SYS, FIND, """    let symbol = string.symbols().get(index)?;

    productions.iter()
        .filter(|production| production.head().target() == symbol)
        .find(|production| production.head().pre_matches(string, index) && production.head().post_matches(string, index))
}"""))
ONCE = """    let mut result = ProductionString::default();

    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;

            // println!("body match: {index}: {:?}", body.string().iter().map(|t| t.code()).collect::<Vec<_>>());

            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));
            continue;
        } else {
            result.push_symbol(*symbol);
        }


    }

    match result.len() {
        0 => Ok(ProductionString::empty()),
        _ => Ok(result)
    }
}"""
e("sys-once-extend", (SYS, ONCE, """    let mut symbols = Vec::with_capacity(string.len());

    for (index, symbol) in string.iter().enumerate() {
        match find_matching(productions, &string, index) {
            Some(production) => symbols.extend(production.body()?.string()),
            None => symbols.push(*symbol)
        }
    }

    Ok(ProductionString::from(symbols))
}"""))
e("sys-once-fold", (SYS, ONCE, """    (0..string.len())
        .try_fold(ProductionString::default(), |mut result, index| {
            rewrite_symbol(&string, index, productions, &mut result)?;
            Ok(result)
        })
}

/// Adds to the result what one symbol of the string becomes.
fn rewrite_symbol(string: &ProductionString, index: usize, productions: &[Production], result: &mut ProductionString) -> Result<()> {
    let Some(production) = find_matching(productions, string, index) else {
        result.push_symbol(string[index]);
        return Ok(())
    };

    for symbol in production.body()?.string() {
        result.push_symbol(symbol);
    }

    Ok(())
}"""))
# the string is rewritten from its end, one piece for each symbol
e("sys-once-backwards", (SYS, ONCE, """    let mut pieces : Vec<Vec<Symbol>> = Vec::new();

    for index in (0..string.len()).rev() {
        pieces.push(match find_matching(productions, &string, index) {
            Some(production) => production.body()?.string().symbols().clone(),
            None => vec![string[index]]
        });
    }

    pieces.reverse();
    Ok(ProductionString::from(pieces.concat()))
}"""))
e("sys-derive-tryfold", (SYS, """    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)""", """    (0..settings.max_iterations).try_fold(string, |current, _| derive_once(current, productions))"""))
# without a rule, or once nothing is left, nothing can change any more
e("sys-derive-early-out", (SYS, """    let mut current = string;
    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }

    Ok(current)""", """    if productions.is_empty() {
        return Ok(string);
    }

    let mut current = string;
    let mut remaining = settings.max_iterations;
    while remaining > 0 && !current.is_empty() {
        current = derive_once(current, productions)?;
        remaining -= 1;
    }

    Ok(current)"""))
e("sys-derive-guards", (SYS, """        if string.is_empty() {
            return Ok(ProductionString::empty())
        }

        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))""", """        match self.productions.read() {
            Ok(productions) => derive(string, &productions, settings),
            Err(_) => Err(Error::general("Poisoned lock on production list"))
        }"""), (SYS, """        if string.is_empty() {
            return Ok(ProductionString::empty())
        }

        if let Ok(productions) = self.productions.read() {
            return derive_once(string, productions.deref());
        }

        Err(Error::general("Poisoned lock on production list"))""", """        let productions = self.productions.read()
            .map_err(|_| Error::general("Poisoned lock on production list"))?;
        derive_once(string, productions.deref())"""))
e("sys-derive-snapshot", (SYS, """        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }

        Err(Error::general("Poisoned lock on production list"))""", """        // Work on a copy, so that rules can be added while a long derivation runs.
        let productions = match self.productions.read() {
            Ok(productions) => productions.clone(),
            Err(_) => return Err(Error::general("Poisoned lock on production list"))
        };

        derive(string, &productions, settings)"""))
e("sys-mutex", (SYS, "use std::sync::RwLock;", "use std::sync::Mutex;"),
  (SYS, "    symbols: RwLock<HashSet<u32>>,\n    productions: RwLock<Vec<Production>>", "    symbols: Mutex<HashSet<u32>>,\n    productions: Mutex<Vec<Production>>"),
  (SYS, "            symbols: RwLock::new(HashSet::new()),\n            productions: RwLock::new(Vec::new())", "            symbols: Mutex::new(HashSet::new()),\n            productions: Mutex::new(Vec::new())"),
  (SYS, "        if let Ok(productions) = self.productions.read() {\n            return derive_once(", "        if let Ok(productions) = self.productions.lock() {\n            return derive_once("),
  (SYS, "        if let Ok(productions) = self.productions.read() {\n            return derive(", "        if let Ok(productions) = self.productions.lock() {\n            return derive("),
  (SYS, "self.productions.read().unwrap().len()", "self.productions.lock().unwrap().len()"), (SYS, "self.symbols.read().unwrap().len()", "self.symbols.lock().unwrap().len()"),
  (SYS, "self.symbols.write()?", "self.symbols.lock()?"), (SYS, "self.symbols.read().ok()?", "self.symbols.lock().ok()?"), (SYS, "self.productions.write()", "self.productions.lock()"))
e("sys-btree", (SYS, "use std::collections::HashSet;", "use std::collections::BTreeSet;"), (SYS, "RwLock<HashSet<u32>>", "RwLock<BTreeSet<u32>>"), (SYS, "RwLock::new(HashSet::new())", "RwLock::new(BTreeSet::new())"))
ADD = """            let head = production.head().clone();

            //region Register symbols with the system
            for symbol in production.all_symbols_iter() {
                self.add_symbol(symbol)?;
            }
            //endregion 

            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
        }"""
e("sys-add-position", (SYS, ADD, """            //region Register symbols with the system
            for symbol in production.all_symbols::<HashSet<_>>() {
                self.add_symbol(symbol)?;
            }
            //endregion

            let index = match productions.iter().position(|p| *p == production) {
                Some(index) => {
                    productions[index].merge(production);
                    index
                }
                None => {
                    productions.push(production);
                    productions.len() - 1
                }
            };

            return Ok(productions[index].clone())
        }"""))
e("sys-add-symbols-at-once", (SYS, ADD, """            {
                let mut symbols = self.symbols.write()?;
                symbols.extend(production.all_symbols_iter().map(|symbol| symbol.code()));
            }

            for existing in productions.iter_mut() {
                if existing.head() == production.head() {
                    existing.merge(production);
                    return Ok(existing.clone());
                }
            }

            productions.push(production.clone());
            return Ok(production)
        }"""))
e("sys-get-symbol-contains", (SYS, """        let symbols = self.symbols.read().ok()?;
        
        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)""", """        let known = self.symbols.read().ok()?.contains(&code);

        known.then(|| Symbol::from_code(code))"""))
e("sys-family-bulk", (SYS, """        for symbol in family.symbols() {
            system.add_symbol(symbol.name.as_str())?;
        }
""", """        let mut names: Vec<&str> = family.symbols().map(|symbol| symbol.name.as_str()).collect();
        names.sort();
        names.dedup();
        names.into_iter().try_for_each(|name| system.add_symbol(name).map(|_| ()))?;
"""))

# ---------------------------------------------------------------- productions.rs
PRE = """        let left = self.pre.as_ref().unwrap();

        if index >= string.len() {
            return false;
        }

        if index == 0 {
            return left.is_empty();
        }

        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);"""
POST = """        let right = self.post.as_ref().unwrap();

        if index >= string.len() {
            return false;
        }

        if index == string.len() - 1 {
            return right.is_empty();
        }

        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);"""
e("pro-slices", (PRO, PRE, """        let left = self.pre.as_ref().unwrap().symbols();

        index < string.len() && string.symbols()[..index].ends_with(left)"""),
  (PRO, POST, """        let right = self.post.as_ref().unwrap().symbols();

        index < string.len() && string.symbols()[index + 1..].starts_with(right)"""))
e("pro-zip", (PRO, PRE, """        let left = self.pre.as_ref().unwrap();

        if index >= string.len() || left.len() > index {
            return false;
        }

        left.iter().zip(&string.symbols()[index - left.len()..index]).all(|(a, b)| a == b)"""),
  (PRO, POST, """        let right = self.post.as_ref().unwrap();
        let after = string.len().saturating_sub(index).saturating_sub(1);

        if index >= string.len() || right.len() > after {
            return false;
        }

        (0..right.len()).all(|i| right[i] == string[index + 1 + i])"""))
e("pro-match-order", (PRO, """        self.pre_matches(string, index) &&
        self.post_matches(string, index) &&
            string.symbols()
                .get(index)
                .map(|symbol| self.target == *symbol)
                .unwrap_or(false)""", """        match string.symbols().get(index) {
            Some(symbol) if *symbol == self.target => self.post_matches(string, index) && self.pre_matches(string, index),
            _ => false
        }"""))
CHOOSE = """        let mut current = 0_f32;
        let random : f32 = thread_rng().gen_range(0.0..=1.0);

        for body in &self.body {
            current += body.chance.unwrap_or(default_chance);
            if random < current {
                return Ok(body);
            }
        }

        // All remaining chance given to last body.
        return Ok(self.body.last().unwrap());"""
e("pro-choose-gen", (PRO, CHOOSE, """        let mut random : f32 = thread_rng().gen();

        for body in &self.body {
            let chance = body.chance.unwrap_or(default_chance);
            if random < chance {
                return Ok(body);
            }
            random -= chance;
        }

        Ok(self.body.last().unwrap())"""))
e("pro-choose-f64", (PRO, CHOOSE, """        let random : f64 = thread_rng().gen();
        let mut current = 0_f64;

        let chosen = self.body.iter().find(|body| {
            current += body.chance.unwrap_or(default_chance) as f64;
            random < current
        });

        // All remaining chance given to last body.
        Ok(chosen.unwrap_or_else(|| self.body.last().unwrap()))"""))
e("pro-choose-half-open", (PRO, "thread_rng().gen_range(0.0..=1.0)", "thread_rng().gen_range(0.0..1.0)"))
# from the last replacement to the first: the shares are the same
e("pro-choose-reversed", (PRO, CHOOSE, """        let random : f32 = thread_rng().gen_range(0.0..=1.0);
        let mut current = 1_f32 - self.body.iter().map(|b| b.chance.unwrap_or(default_chance)).sum::<f32>().min(1.0);

        // What the given chances leave over goes to the last body.
        if random < current {
            return Ok(self.body.last().unwrap());
        }

        for body in self.body.iter().rev() {
            current += body.chance.unwrap_or(default_chance);
            if random < current {
                return Ok(body);
            }
        }

        Ok(self.body.iter().find(|b| b.chance.unwrap_or(default_chance) > 0.0).unwrap_or(self.body.last().unwrap()))"""))
e("pro-total-loop", (PRO, """        let total_chance : f32 = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum();
""", """        let mut total_chance = 0_f32;
        for body in self.all_bodies() {
            if body.chance().is_user_set() {
                total_chance += body.chance().unwrap();
            }
        }
"""))
e("pro-total-f64", (PRO, """        let total_chance : f32 = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0))
            .sum();
""", """        let total_chance = self.body.iter()
            .map(|b| b.chance.unwrap_or(0.0) as f64)
            .sum::<f64>() as f32;
"""))
e("pro-merge-append", (PRO, "    pub fn merge(&mut self, other: Self) {\n        other.body.into_iter().for_each(|b| self.add_body(b));", "    pub fn merge(&mut self, mut other: Self) {\n        self.body.append(&mut other.body);"))
e("pro-derived-traits", (PRO, """impl PartialEq for Production {
    fn eq(&self, other: &Self) -> bool {
        self.head().eq(other.head())
    }
}""", """impl PartialEq for Production {
    fn eq(&self, other: &Self) -> bool {
        self.head.target == other.head.target
            && self.head.pre_context() == other.head.pre_context()
            && self.head.post_context() == other.head.post_context()
    }
}"""), (PRO, "        self.head.hash(state);", "        self.head.target.hash(state);\n        self.head.pre.hash(state);"))
e("pro-body-chance", (PRO, """        if !(0.0..=1.0).contains(&chance) {
            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
        }

        Ok(ProductionBody {
            string,
            chance: Chance::new(chance),
        })""", """        if chance >= 0.0 && chance <= 1.0 {
            let chance = Chance { kind: ChanceKind::Set, chance: Some(chance) };
            return Ok(ProductionBody { string, chance });
        }

        Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"))"""))
e("pro-store-clone", (PRO, """        let mut vec = self.borrow_mut();
        vec.push(production);
        vec.last().cloned().ok_or_else(|| Error::general("Unable to add production"))""", """        self.borrow_mut().push(production.clone());
        Ok(production)"""))

# ---------------------------------------------------------------- symbols.rs
CODE = """    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }

    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);

    // The name is recorded before other threads can see the code.
    get_name_register().write()?.insert(code, name.clone());
    register.insert(name, code);

    Ok(code)
}"""
e("sym-fast-path", (SYM, CODE, """    let name = name.trim();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    // Most names are known already.
    if let Some(code) = get_code_register().read()?.get(name) {
        return Ok(*code);
    }

    let mut register = get_code_register().write()?;

    // Another thread may have been faster.
    if let Some(code) = register.get(name) {
        return Ok(*code);
    }

    let code = SYMBOL_ID.fetch_add(1, Ordering::Relaxed);
    get_name_register().write()?.insert(code, name.to_string());
    register.insert(name.to_string(), code);

    Ok(code)
}"""))
e("sym-entry", (SYM, CODE, """    let name = name.trim().to_string();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    let mut codes = get_code_register().write()?;

    match codes.entry(name) {
        Entry::Occupied(entry) => Ok(*entry.get()),
        Entry::Vacant(entry) => {
            let mut names = get_name_register().write()?;
            let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
            names.insert(code, entry.key().clone());
            Ok(*entry.insert(code))
        }
    }
}"""), (SYM, "use std::collections::{HashMap, HashSet};", "use std::collections::{HashMap, HashSet, hash_map::Entry};"))
e("sym-one-registry", (SYM, CODE, """    let name = name.trim();

    if name.is_empty() {
        return Err(Error::general("name should not be an empty string"))
    }

    let mut register = register().lock()?;
    Ok(register.code(name))
}

#[derive(Default)]
struct Register {
    codes: HashMap<String, u32>,
    names: Vec<String>
}

impl Register {
    /// The code of the first symbol.
    const FIRST: u32 = 100;

    fn code(&mut self, name: &str) -> u32 {
        if let Some(code) = self.codes.get(name) {
            return *code;
        }

        let code = Self::FIRST + self.names.len() as u32;
        self.names.push(name.to_string());
        self.codes.insert(name.to_string(), code);
        code
    }

    fn name(&self, code: u32) -> Option<&String> {
        let index = code.checked_sub(Self::FIRST)?;
        self.names.get(index as usize)
    }
}

fn register() -> &'static Mutex<Register> {
    static REGISTER: OnceLock<Mutex<Register>> = OnceLock::new();
    REGISTER.get_or_init(Mutex::default)
}
"""), (SYM, """type CodeStoreType = RwLock<HashMap<String, u32>>;
type NameStoreType = RwLock<HashMap<u32, String>>;

static CODE_REGISTER: OnceLock<CodeStoreType> = OnceLock::new();
static NAME_REGISTER: OnceLock<NameStoreType> = OnceLock::new();
static SYMBOL_ID: AtomicU32 = AtomicU32::new(100);
""", ""), (SYM, """    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()
}

fn get_code_register() -> &'static CodeStoreType {
    CODE_REGISTER.get_or_init(|| {
        RwLock::new(HashMap::new())
    })
}

fn get_name_register() -> &'static NameStoreType {
    NAME_REGISTER.get_or_init(|| {
        RwLock::new(HashMap::new())
    })
}
""", """    register().lock().ok()?.name(code).cloned()
}
"""), (SYM, "use std::sync::{OnceLock, RwLock};\nuse std::sync::atomic::{AtomicU32, Ordering};\n", "use std::sync::{Mutex, OnceLock};\n"))
e("sym-static-locks", (SYM, "static CODE_REGISTER: OnceLock<CodeStoreType> = OnceLock::new();\nstatic NAME_REGISTER: OnceLock<NameStoreType> = OnceLock::new();", "static CODE_REGISTER: CodeStoreType = RwLock::new(BTreeMap::new());\nstatic NAME_REGISTER: NameStoreType = RwLock::new(BTreeMap::new());"),
  (SYM, "RwLock<HashMap<String, u32>>", "RwLock<BTreeMap<String, u32>>"), (SYM, "RwLock<HashMap<u32, String>>", "RwLock<BTreeMap<u32, String>>"),
  (SYM, "use std::collections::{HashMap, HashSet};", "use std::collections::{BTreeMap, HashSet};"), (SYM, "use std::sync::{OnceLock, RwLock};", "use std::sync::RwLock;"),
  (SYM, """    CODE_REGISTER.get_or_init(|| {
        RwLock::new(HashMap::new())
    })""", "    &CODE_REGISTER"), (SYM, """    NAME_REGISTER.get_or_init(|| {
        RwLock::new(HashMap::new())
    })""", "    &NAME_REGISTER"))
e("sym-lazy", (SYM, "static NAME_REGISTER: OnceLock<NameStoreType> = OnceLock::new();", "static NAME_REGISTER: LazyLock<NameStoreType> = LazyLock::new(|| RwLock::new(HashMap::new()));"),
  (SYM, "use std::sync::{OnceLock, RwLock};", "use std::sync::{LazyLock, OnceLock, RwLock};"),
  (SYM, """    NAME_REGISTER.get_or_init(|| {
        RwLock::new(HashMap::new())
    })""", "    &NAME_REGISTER"))
e("sym-derive-traits", (SYM, "#[derive(Debug, Clone, Copy)]\npub struct Symbol {", "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Symbol {"),
  (SYM, """impl PartialEq for Symbol {
    fn eq(&self, other: &Self) -> bool {
        self.code == other.code
    }
}

impl Eq for Symbol {}

impl Hash for Symbol {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.code.hash(state);
    }
}
""", ""), (SYM, "use std::hash::{Hash, Hasher};\n", ""))
e("sym-display", (SYM, """        if let Some(name) = get_name(self.code) {
            return f.write_str(name.as_str());
        }

        write!(f, "code:{}", self.code)""", """        match self.name() {
            Some(name) => write!(f, "{name}"),
            None => f.write_str(&format!("code:{}", self.code))
        }"""))
e("sym-store", (SYM, """        let mut map = self.borrow_mut();
        map.insert(symbol.code);

        Ok(symbol)""", """        self.borrow_mut().insert(symbol.code());
        Ok(symbol)"""), (SYM, """        let code = get_code(name).ok()?;
        let symbols = self.borrow();

        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)""", """        Symbol::build(name).ok().filter(|symbol| self.borrow().contains(&symbol.code))"""))
e("itr-flat", (ITR, """        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());

        for i in self.all_bodies() {
            result = Box::new(result.chain(i.all_symbols_iter()));
        }

        result""", """        self.head().all_symbols_iter()
            .chain(self.all_bodies().iter().flat_map(|body| body.string().symbols().iter().copied()))"""))
e("itr-vec", (ITR, """        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        let target = std::iter::once(self.target()).cloned();

        let post : Box<dyn Iterator<Item=Symbol>> = match self.post_context() {
            None => Box::new(std::iter::empty()),
            Some(val) => Box::new(val.all_symbols_iter())
        };

        pre.chain(target).chain(post)""", """        let mut symbols : Vec<Symbol> = Vec::new();

        symbols.extend(self.pre_context().into_iter().flatten());
        symbols.push(*self.target());
        symbols.extend(self.post_context().into_iter().flatten());

        symbols.into_iter()"""))

# ---------------------------------------------------------------- strings.rs
DISP = """        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }
            f.write_str(symbol.to_string().as_str())?;
        }
        
        Ok(())
        """
e("str-join", (STR, DISP, """        let names: Vec<_> = self.iter().map(Symbol::to_string).collect();
        f.write_str(&names.join(" "))"""), (STR, "use std::fmt::{Display, Formatter, Write};", "use std::fmt::{Display, Formatter};"))
e("str-enumerate", (STR, DISP, """        for (index, symbol) in self.symbols.iter().enumerate() {
            let separator = if index == 0 { "" } else { " " };
            write!(f, "{separator}{symbol}")?;
        }

        Ok(())"""), (STR, "use std::fmt::{Display, Formatter, Write};", "use std::fmt::{Display, Formatter};"))

# ---------------------------------------------------------------- parser
BODY = """    for (index, term) in body.enumerate() {
        if index == 0 {
            if let Ok(val) = term.parse() {
                chance = Some(val);
                continue;
            }
        }

        body_tokens.push(Symbol::build(term)?);
    }
"""
e("par-body-peek", (PAR, BODY, """    let mut body = body.peekable();
    if let Some(val) = body.peek().and_then(|term| term.parse().ok()) {
        chance = Some(val);
        body.next();
    }

    for term in body {
        body_tokens.push(Symbol::build(term)?);
    }
"""))
e("par-split-once", (PAR, """    let index = production
        .find("->")
        .ok_or_else(|| Error::new(ErrorKind::Parse,
                                  String::from("supplied string is not a production: ") + production))?;

    let head_str = &production[0..index];
    let body_str = &production[index + 2..];

    let head = parse_production_head(head_str)?;
    let body = parse_production_body(body_str)?;

    Ok(Production::new(head, body))""", """    let Some((head, body)) = production.split_once("->") else {
        return Err(Error::new(ErrorKind::Parse, format!("supplied string is not a production: {production}")));
    };

    // The replacement goes first, since it fails less often.
    let body = parse_production_body(body);
    let head = parse_production_head(head)?;

    body.map(|body| Production::new(head, body))"""))
e("par-head-position", (PAR, """    let split: Vec<_> = tokens.splitn(2, |s| *s == "<").collect();

    let mut left : Option<&[&str]> = None;
    let mut right : Option<&[&str]> = None;


    let remains = if split.len() == 2 {
        left = Some(split[0]);
        split[1]
    } else {
        split[0]
    };

    let split : Vec<_> = remains.splitn(2, |s| *s == ">").collect();
    let remains = if split.len() == 2 {
        right = Some(split[1]);
        split[0]
    } else {
        split[0]
    };
""", """    let (left, remains) = match tokens.iter().position(|s| *s == "<") {
        Some(at) => (Some(&tokens[..at]), &tokens[at + 1..]),
        None => (None, &tokens[..])
    };

    let (remains, right) = match remains.iter().position(|s| *s == ">") {
        Some(at) => (&remains[..at], Some(&remains[at + 1..])),
        None => (remains, None)
    };
"""), (PAR, """    let left = parse_head_context(left);
    if let Some(Err(e)) = left {
        return Err(e);
    }

    let left = left.map(|d| d.unwrap());

    let right = parse_head_context(right);
    if let Some(Err(e)) = right {
        return Err(e);
    }

    let right = right.map(|d| d.unwrap());
""", """    let left = parse_head_context(left).transpose()?;
    let right = parse_head_context(right).transpose()?;
"""), (PAR, """        let iter = strings.iter().map(|s| Symbol::build(*s));
        let error = iter.clone().find(|t| t.is_err());

        if let Some(Err(e)) = error {
            return Err(e);
        }

        let tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();

        Ok(ProductionString::from(tokens))""", """        strings.iter()
            .map(Symbol::build)
            .collect::<Result<Vec<_>>>()
            .map(ProductionString::from)"""))
e("par-add-unique", (PAR, """    for symbol in prod.all_symbols_iter() {
        symbols.add_symbol(symbol)?;
    }
""", """    let mut seen: Vec<Symbol> = Vec::new();
    for symbol in prod.all_symbols_iter() {
        if !seen.contains(&symbol) {
            symbols.add_symbol(symbol)?;
            seen.push(symbol);
        }
    }
"""))
e("tok-rewrite", (TOK, """        let text = &self.text[self.current..];

        let index = text.char_indices()
            .find(|(_, c)| !is_consume(*c))
            .map(|(i, _)| i);

        if let Some(skipped) = index {
            // Leave leading whitespace behind, so that the token starts the text.
            self.current += skipped;
            let text = &text[skipped..];
            let index = 0;

            let brk = next_break(text, index);

            if let Break::Token(i, c) = brk {
                if i == 0 {
                    let mut chars : Vec<char> = vec![c];
                    let mut lookahead = next_break(text, index + 1);
                    while lookahead.is_token() && lookahead.index() == index + chars.len() {
                        chars.push(c);
                        lookahead = next_break(text, index + chars.len())
                    }

                    let index_start = self.current;
                    let index_end = self.current + chars.len();
                    self.current += chars.len();

                    return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                }
            }

            let index_start = self.current;
            let index_end = self.current + brk.index();
            self.current += brk.index();

            if let Break::Ignore(_, c) = brk {
                self.current += c.len_utf8();
            }

            if brk.is_end() {
                self.current = self.text.len();
                let token = Token::new(&text[index..brk.index()], index_start, index_end);
                self.signal_end = !token.is_terminal();
                return Some(token);
            }

            return Some(Token::new(&text[index .. brk.index()], index_start, index_end));
        }

        self.current = self.text.len();
        None
    }
}
""", """        let rest = self.text[self.current..].trim_start();
        let start = self.text.len() - rest.len();
        let delimiters = rest.find(|c| !is_break(c) || is_consume(c)).unwrap_or(rest.len());

        let (length, word) = match delimiters {
            0 => (rest.find(is_break).unwrap_or(rest.len()), true),
            n => (n, false)
        };

        if length == 0 {
            self.current = self.text.len();
            return None;
        }

        self.current = start + length;
        // The end is only told apart where a word reaches it.
        self.signal_end = word && self.current == self.text.len();

        Some(Token::new(&rest[..length], start, self.current))
    }
}
"""))
e("tok-terminal-loop", (STM, """        let symbols: Result<Vec<Symbol>, _> = iterator
            .take_while(|t| !t.is_terminal())
            .map(Token::try_into)
            .collect();
        Ok(ProductionString::from(symbols?))""", """        let mut result = ProductionString::new();
        for token in iterator {
            if token.is_terminal() {
                break;
            }
            result.push_symbol(Symbol::try_from(token)?);
        }
        Ok(result)"""))
e("par-prod-string-collect", (PAR, "    ProductionString::compile_from(TokenIterator::new(string))", """    let tokens: Vec<Token> = TokenIterator::new(string).collect();
    ProductionString::compile_from(tokens.into_iter())"""))

# ---------------------------------------------------------------- family.rs
e("fam-mutex", (FAM, "use std::sync::{Arc, OnceLock, RwLock};", "use std::sync::{Arc, Mutex};"),
  (FAM, """fn reference() -> &'static RwLock<HashMap<String, Arc<SystemFamily>>> {
    static REGISTRY : OnceLock<RwLock<HashMap<String, Arc<SystemFamily>>>> = OnceLock::new();
    REGISTRY.get_or_init(|| RwLock::new(HashMap::new()))
}""", """fn reference() -> &'static Mutex<BTreeMap<String, Arc<SystemFamily>>> {
    static REGISTRY : Mutex<BTreeMap<String, Arc<SystemFamily>>> = Mutex::new(BTreeMap::new());
    &REGISTRY
}"""), (FAM, "use std::collections::HashMap;", "use std::collections::{BTreeMap, HashMap};"),
  (FAM, "reference().read().ok()?", "reference().lock().ok()?"), (FAM, "reference().write().unwrap()", "reference().lock().unwrap()"),
  (FAM, "        let name = name.as_ref();\n\n        let mut map = reference().write()?;", "        let name = name.as_ref();\n\n        let mut map = reference().lock()?;"),
  (FAM, "    let name = family.name().clone();\n    let mut map = reference().write()?;", "    let name = family.name().clone();\n    let mut map = reference().lock()?;"))
e("fam-entry", (FAM, """        let mut map = reference().write()?;
        if map.contains_key(name) {
            return Err(Error::new(ErrorKind::Duplicate,
                                  format!("family name [{}] is already taken", name)));
        }

        let family = self.build(name)?;
        map.insert(name.to_string(), Arc::new(family));
        Ok(map.get(name).unwrap().clone())""", """        let family = self.build(name)?;
        register(family)"""), (FAM, """    if map.get(&name).is_some() {
        return Err(Error::new(ErrorKind::Duplicate, format!("family {name} has already been registered")));
    }

    let family = Arc::new(family);
    map.insert(name.to_string(), family.clone());

    Ok(family)""", """    match map.entry(name) {
        Entry::Occupied(entry) => Err(Error::new(ErrorKind::Duplicate, format!("family {} has already been registered", entry.key()))),
        Entry::Vacant(entry) => Ok(entry.insert(Arc::new(family)).clone())
    }"""), (FAM, "use std::collections::HashMap;", "use std::collections::{HashMap, hash_map::Entry};"))
e("fam-init-entry", (FAM, """    // See if we have a value using just a read lock.
    if let Some(value) = get_family(name.as_ref()) {
        return value;
    }

    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

    // Build, but now synchronised via the above write guard.
    let family = default();

    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family""", """    let mut map = reference().write().unwrap();

    map.entry(name.as_ref().to_string())
        .or_insert_with(|| Arc::new(default()))
        .clone()"""))
e("fam-symbols-list", (FAM, """        let mut result = HashMap::new();

        for i in iter {
            result.insert(i.name.clone(), i);
        }

        result""", """        iter.into_iter()
            .map(|symbol| (symbol.name.clone(), symbol))
            .collect()"""), (FAM, "        Ok(self.clone())\n", "        Ok(self)\n"))

# ---------------------------------------------------------------- geometry.rs
e("geo-norm-hypot", (GEO, "(self.x.powi(2) + self.y.powi(2)).sqrt()", "self.x.hypot(self.y)"))
e("geo-norm-mul", (GEO, "(self.x.powi(2) + self.y.powi(2)).sqrt()", "f64::sqrt(self.x * self.x + self.y * self.y)"))
ROT = """        let cos = degrees.to_radians().cos();
        let sin = degrees.to_radians().sin();

        Vector::new(
            cos * self.x() - sin * self.y(),
            sin * self.x() + cos * self.y()
        )"""
e("geo-rotate-sincos", (GEO, ROT, """        let (sin, cos) = degrees.to_radians().sin_cos();

        Vector {
            x: self.x * cos - self.y * sin,
            y: self.y * cos + self.x * sin
        }"""))
e("geo-rotate-modulo", (GEO, ROT, """        let radians = (degrees % 360.0).to_radians();
        let (sin, cos) = (radians.sin(), radians.cos());

        Vector::new(
            cos * self.x() - sin * self.y(),
            sin * self.x() + cos * self.y()
        )"""))
e("geo-rotate-pi", (GEO, ROT, """        let radians = degrees * std::f64::consts::PI / 180.0;
        let unit = Vector::new(radians.cos(), radians.sin());

        Vector::new(
            unit.x * self.x - unit.y * self.y,
            unit.y.mul_add(self.x, unit.x * self.y)
        )"""))
PB = """        let mut bounds = BoundingBox::initial_infinite();

        let mut center = Point::zero();

        for point in &self.points {
            center = center + *point;

            if point.x < bounds.min_x {
                bounds.min_x = point.x;
            }
            if point.x > bounds.max_x {
                bounds.max_x = point.x;
            }
            if point.y < bounds.min_y {
                bounds.min_y = point.y;
            }
            if point.y > bounds.max_y {
                bounds.max_y = point.y;
            }
        }

        bounds.com = center / self.len() as f64;

        Some(bounds)"""
VB = """        let mut min_x = f64::INFINITY;
        let mut max_x = f64::NEG_INFINITY;
        let mut min_y = f64::INFINITY;
        let mut max_y = f64::NEG_INFINITY;

        let mut center = Point::zero();
        let mut len = 0_f64;

        for path in self {
            len += path.len() as f64;

            for point in &path.points {
                center = center + *point;

                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {
                    max_y = point.y;
                }
            }
        }

        if min_x.is_infinite() {
            return None
        }

        Some(BoundingBox {
            min_x,
            max_x,
            min_y,
            max_y,
            com: center / len
        })"""
e("geo-bounds-shared", (GEO, PB, "        bounds_of(self.iter())"), (GEO, VB, """        bounds_of(self.iter().flat_map(|path| path.iter()))"""),
  (GEO, "impl Bounds for Path {", """/// The bounds of all the given points together.
fn bounds_of<'a, I: Iterator<Item=&'a Point>>(points: I) -> Option<BoundingBox> {
    let mut bounds = BoundingBox::initial_infinite();
    let mut sum = Point::zero();
    let mut count = 0_usize;

    for point in points {
        bounds.min_x = bounds.min_x.min(point.x);
        bounds.max_x = bounds.max_x.max(point.x);
        bounds.min_y = bounds.min_y.min(point.y);
        bounds.max_y = bounds.max_y.max(point.y);
        sum = sum + *point;
        count += 1;
    }

    if count == 0 {
        return None;
    }

    bounds.com = sum / count as f64;
    Some(bounds)
}

impl Bounds for Path {"""))
e("geo-bounds-first", (GEO, PB, """        let first = self.points[0];
        let mut bounds = BoundingBox { min_x: first.x, max_x: first.x, min_y: first.y, max_y: first.y, com: Point::zero() };

        for point in &self.points[1..] {
            if point.x < bounds.min_x {
                bounds.min_x = point.x;
            } else if point.x > bounds.max_x {
                bounds.max_x = point.x;
            }
            if point.y < bounds.min_y {
                bounds.min_y = point.y;
            } else if point.y > bounds.max_y {
                bounds.max_y = point.y;
            }
        }

        let sum_x: f64 = self.points.iter().map(|p| p.x).sum();
        let sum_y: f64 = self.points.iter().map(|p| p.y).sum();
        bounds.com = Point::new(sum_x / self.points.len() as f64, sum_y / self.points.len() as f64);

        Some(bounds)"""), (GEO, VB, """        let boxes: Vec<(BoundingBox, f64)> = self.iter()
            .filter_map(|path| path.bounds().map(|bounds| (bounds, path.len() as f64)))
            .collect();

        let total: f64 = boxes.iter().map(|(_, len)| len).sum();

        boxes.into_iter()
            .map(|(b, len)| BoundingBox { com: Point::new(b.com.x * len / total, b.com.y * len / total), ..b })
            .reduce(|a, b| BoundingBox {
                min_x: a.min_x.min(b.min_x),
                max_x: a.max_x.max(b.max_x),
                min_y: a.min_y.min(b.min_y),
                max_y: a.max_y.max(b.max_y),
                com: a.com + b.com
            })"""))
e("geo-box", (GEO, "(self.max_x - self.min_x).abs()", "f64::max(self.max_x - self.min_x, self.min_x - self.max_x)"),
  (GEO, "        Point::new((self.max_x + self.min_x) / 2.0, (self.max_y + self.min_y) / 2.0)", "        Point::new(self.min_x + (self.max_x - self.min_x) / 2.0, 0.5 * (self.max_y + self.min_y))"))
e("geo-ops", (GEO, "        self.into_iter().map(|p| p + rhs).collect()", """        let mut points = self.points;
        for point in points.iter_mut() {
            *point = *point + rhs;
        }
        Path { points }"""), (GEO, "        Vector::new(self.x() - rhs.x(), self.y() - rhs.y())", "        self + (-rhs)"), (GEO, "        Point::new(self.x() / rhs, self.y() / rhs)", "        let Point { x, y } = self;\n        Point { x: x / rhs, y: y / rhs }"))

# ---------------------------------------------------------------- abop.rs
TURT = """            let token = Some(token);
            if token == forward {                   // interpret forward tokens.
                pos = pos + dir;
                path.push(pos);
            } else if token == space {
                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                pos_stack.push((pos, dir));
            } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("']' without a matching '['"))?;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == left {               // Rotate a bit
                dir = dir.rotate(-angle);
            } else if token == right {              // Rotate in the other direction.
                dir = dir.rotate(angle);
            }
        }

        if !path.is_empty() {
            paths.push(path)
        }

        Ok(paths)"""
# the heading as a whole number of turns
e("abo-turns", (ABO, TURT, """            let token = Some(token);
            let heading = |turns: i64| Vector::new(0.0, 5.0).rotate(turns as f64 * angle);
            match () {
                _ if token == right => dir += 1,
                _ if token == left => dir -= 1,
                _ if token == push => pos_stack.push((pos, dir)),
                _ if token == pop => {
                    let Some(state) = pos_stack.pop() else {
                        return Err(Error::execution("']' without a matching '['"));
                    };
                    (pos, dir) = state;
                    restart(&mut path, &mut paths, pos);
                }
                _ if token == forward => {
                    pos = pos + heading(dir);
                    path.push(pos);
                }
                _ if token == space => {
                    pos = pos + heading(dir);
                    restart(&mut path, &mut paths, pos);
                }
                _ => ()
            }
        }

        paths.push(path);

        Ok(paths)"""), (ABO, "        let mut pos_stack: Vec<(Point, Vector)> = Vec::new();", "        let mut pos_stack: Vec<(Point, i64)> = Vec::new();"),
  (ABO, "        let mut dir = Vector::new(0.0, 5.0);", "        let mut dir = 0_i64;"),
  (ABO, "impl Interpretation for AbopTurtleInterpretation {", """/// Ends the path, keeping it if it draws anything, and starts another.
fn restart(path: &mut Path, paths: &mut Vec<Path>, pos: Point) {
    let done = std::mem::take(path);
    if done.len() > 1 {
        paths.push(done);
    }
    path.push(pos);
}

impl Interpretation for AbopTurtleInterpretation {"""))
# a path of a lone point draws nothing, so only the first is kept
e("abo-no-lone-points", (ABO, "        if !path.is_empty() {\n            paths.push(path)\n        }", "        if path.len() > 1 || paths.is_empty() {\n            paths.push(path)\n        }"))
e("abo-lone-points", (ABO, """                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();""", """                pos = pos + dir;
                paths.push(path);
                path = Path::new();"""))
e("abo-helper", (ABO, """                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("']' without a matching '['"))?;
""", """                match pos_stack.pop() {
                    Some((p, d)) => {
                        pos = p;
                        dir = d;
                    }
                    None => return Err(Error::execution("']' without a matching '['"))
                }
"""), (ABO, "        for token in string {", "        for token in string.iter().copied() {"), (ABO, "        let angle: f64 = self.delta() as f64; // degrees", "        let angle = f64::from(self.delta); // degrees"))
e("abo-family-list", (ABO, """    SystemFamily::define()
        .with_terminal("[", Some("Start a branch"))
        .with_terminal("]", Some("Finish a branch"))
        .with_terminal("+", Some("Turn turtle right"))
        .with_terminal("-", Some("Turn turtle left"))
        .with_production("Forward",""", """    const TERMINALS: [(&str, &str); 4] = [
        ("+", "Turn turtle right"),
        ("-", "Turn turtle left"),
        ("[", "Start a branch"),
        ("]", "Finish a branch"),
    ];

    TERMINALS.iter()
        .fold(SystemFamily::define(), |family, (name, description)| family.with_terminal(*name, Some(*description)))
        .with_production("Forward","""))

# ---------------------------------------------------------------- plant parser
e("pla-split-once", (PLA, """    let parts: Vec<&str> = line.splitn(2, '=').collect();
    if parts.len() != 2 {
        return Err(Error::general("Invalid equality line"));
    }
    let name = parts[0].trim();
    let value = parts[1].trim();
    Ok(EqualityLine { name, value })""", """    line.split_once('=')
        .map(|(name, value)| EqualityLine { name: name.trim(), value: value.trim() })
        .ok_or_else(|| Error::general("Invalid equality line"))"""), (PLA, """    let parts: Vec<_> = line.splitn(2, ':').collect();
    parts[1].trim()""", """    let line = line.trim();
    line.strip_prefix("initial:").unwrap_or(line).trim()"""), (PLA, "    line.split('#').next().unwrap().trim()", """    match line.find('#') {
        Some(at) => line[..at].trim(),
        None => line.trim()
    }"""))
e("pla-for-lines", (PLA, """    let mut lines = string.lines().peekable();
""", ""), (PLA, """    #[allow(clippy::while_let_on_iterator)]
    while let Some(line) = lines.next() {
        let line = remove_comment(line);
        if line.is_empty() {
            continue;
        }
""", """    for line in string.lines().map(remove_comment).filter(|line| !line.is_empty()) {
"""))
# rules are read once the whole file has been seen
e("pla-rules-last", (PLA, """        prod_count += 1;
        system.add_production(line)?;
    }
""", """        rules.push(line);
    }

    for rule in rules {
        prod_count += 1;
        system.add_production(crate::parser::parse_production(rule)?)?;
    }
"""), (PLA, "    let mut prod_count = 0_usize;", "    let mut prod_count = 0_usize;\n    let mut rules : Vec<&str> = Vec::new();"))
e("pla-count-len", (PLA, "    if prod_count == 0 {", "    if system.production_len() == 0 {"), (PLA, "        prod_count += 1;\n", ""), (PLA, "    let mut prod_count = 0_usize;\n", ""))
e("pla-initial-early", (PLA, "    let mut initial : Option<&str> = None;", "    let mut initial : Option<ProductionString> = None;"), (PLA, "            initial = Some(parse_initial(line));", "            initial = Some(parse_prod_string(parse_initial(line))?);"),
  (PLA, """    if initial.is_none() {
        return Err(Error::new(ErrorKind::Parse, "No initial axiom has been supplied"));
    }

    let initial = parse_prod_string(initial.unwrap())?;
""", """    let initial = initial.ok_or_else(|| Error::new(ErrorKind::Parse, "No initial axiom has been supplied"))?;
"""))
e("pla-read-file", (PLA, """    let contents = std::fs::read_to_string(name)?;
    parse(&contents)""", """    use std::io::Read;

    let mut file = std::fs::File::open(name)?;
    let mut contents = String::new();
    file.read_to_string(&mut contents)?;
    parse(&contents)"""))
e("pla-read-bytes", (PLA, """    let contents = std::fs::read_to_string(name)?;
    parse(&contents)""", """    let bytes = std::fs::read(name)?;
    let contents = String::from_utf8(bytes).map_err(Error::general)?;
    parse(contents.as_str())"""))
e("pla-read-buffered", (PLA, """    let contents = std::fs::read_to_string(name)?;
    parse(&contents)""", """    use std::io::BufRead;

    let file = std::io::BufReader::new(std::fs::File::open(name)?);
    let lines = file.lines().collect::<std::io::Result<Vec<String>>>()?;
    parse(&lines.join("\\n"))"""))

# ---------------------------------------------------------------- svg.rs
SAVE = """        let mut file = File::create(name)?;
        file.write_all(self.to_svg().as_bytes())"""
e("svg-fs-write", (SVG, SAVE, "        std::fs::write(name, self.to_svg())"), (SVG, "use std::fs::File;\nuse std::io::prelude::*;\n", ""))
e("svg-bufwriter", (SVG, SAVE, """        let mut file = std::io::BufWriter::new(File::create(name)?);
        file.write_all(self.to_svg().as_bytes())?;
        file.flush()"""))
e("svg-bufwriter-inner", (SVG, SAVE, """        let mut file = std::io::BufWriter::with_capacity(16, File::create(name)?);
        write!(file, "{}", self.to_svg())?;
        file.into_inner()?.sync_all()"""))
e("svg-open-options", (SVG, SAVE, """        let text = self.to_svg();
        let mut file = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(name)?;
        let mut rest = text.as_bytes();

        while !rest.is_empty() {
            match file.write(rest) {
                Ok(0) => return Err(std::io::ErrorKind::WriteZero.into()),
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e)
            }
        }

        Ok(())"""))
PATH = """        let mut string = String::new();

        string.push_str("<path");

        if let Some(fill) = self.fill() {
            string.push_str(format!(" fill=\\"{}\\"", fill).as_str());
        }
        if let Some(stroke) = self.stroke() {
            string.push_str(format!(" stroke=\\"{}\\"", stroke).as_str());
        }

        if !self.is_empty() {
            string.push_str(" d=\\"");
            let first = self.get(0).unwrap();
            string.push_str(format!("M {} {}", first.x(), first.y()).as_str());
            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
            string.push('"');
        }
        string.push_str("/>");

        string"""
e("svg-path-write", (SVG, PATH, """        use std::fmt::Write;

        let mut string = String::from("<path");

        let mut points = self.path.iter();
        if let Some(first) = points.next() {
            let _ = write!(string, " d=\\"M {} {}", first.x(), first.y());
            for point in points {
                let _ = write!(string, " L {} {}", point.x(), point.y());
            }
            string += "\\"";
        }

        if let Some(fill) = &self.fill {
            let _ = write!(string, " fill=\\"{fill}\\"");
        }
        if let Some(stroke) = &self.stroke {
            let _ = write!(string, " stroke=\\"{stroke}\\"");
        }

        string + "/>\""""))
# commas between numbers and single quotes mean the same
e("svg-path-commas", (SVG, PATH, """        let attribute = |name: &str, value: Option<&String>| value.map(|v| format!(" {name}='{v}'")).unwrap_or_default();

        let data: Vec<String> = self.iter().enumerate()
            .map(|(i, point)| format!("{}{},{}", if i == 0 { "M" } else { "L" }, point.x(), point.y()))
            .collect();
        let data = if data.is_empty() { String::new() } else { format!(" d='{}'", data.join(" ")) };

        format!("<path{}{}{}/>", attribute("fill", self.fill()), attribute("stroke", self.stroke()), data)"""))
e("svg-doc-format", (SVG, """        let mut string = String::new();
        string.push_str(format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                self.width, self.height).as_str());

        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
        string""", """        let elements: String = self.elements.iter().map(|item| item.to_svg()).collect();

        format!("<svg xmlns=\\"http://www.w3.org/2000/svg\\" version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\">\\n{}\\n</svg>\\n",
                self.width, self.height, elements)"""))
e("svg-decorations-flat", (SVG, """        [
            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", escape(fill))).unwrap_or_default(),
            self.stroke.as_ref().map(|stroke| format!("stroke=\\"{}\\"", escape(stroke))).unwrap_or_default(),
            self.stroke_width.as_ref().map(|width| format!("stroke-width=\\"{}\\"", width)).unwrap_or_default()
        ].join(" ")
""", """        let mut attributes = Vec::new();

        if let Some(stroke) = &self.stroke {
            attributes.push(format!("stroke=\\"{}\\"", escape(stroke)));
        }
        if let Some(width) = self.stroke_width {
            attributes.push(format!("stroke-width=\\"{width}\\""));
        }
        if let Some(fill) = &self.fill {
            attributes.push(format!("fill=\\"{}\\"", escape(fill)));
        }

        attributes.join(" ")
"""))
e("svg-group-format", (SVG, """        if !self.transforms.is_empty() {
            string.push_str(" transform=\\"");
            for transform in &self.transforms {
                string.push_str(transform.to_transform().as_str());
                string.push(' ');
            }
            string.push('\\"');
        }
""", """        let transforms: Vec<_> = self.transforms.iter().map(|t| t.to_transform()).collect();
        if !transforms.is_empty() {
            string.push_str(&format!(" transform=\\"{}\\"", transforms.join(" ")));
        }
"""), (SVG, "        format!(\"scale({} {})\", self.0.x(), self.0.y())", "        format!(\"scale({}, {})\", self.0.x(), self.0.y())"))
SC = """        let scale = bounds.as_ref()
            .map(|bounds| {
                let scale_y = self.height() as f64 / bounds.height();
                let scale_x = self.width() as f64 / bounds.width();
                let scale = scale_x.min(scale_y);

                // A drawing without any extent fits at every scale.
                let scale = if scale.is_finite() { scale } else { 1.0 };

                Point::new(scale, -scale)
            })
            .unwrap_or(Point::new(1.0, -1.0));
"""
e("svg-scale-helper", (SVG, SC, """        let scale = bounds.as_ref().map_or(1.0, |bounds| {
            let fit = |size: usize, extent: f64| if extent > 0.0 { size as f64 / extent } else { f64::INFINITY };
            let scale = fit(self.width, bounds.width()).min(fit(self.height, bounds.height()));
            if scale.is_infinite() { 1.0 } else { scale }
        });
        let scale = Point::new(scale, -scale);
"""))
# the size of a drawing without extent does not matter
e("svg-scale-point", (SVG, "let scale = if scale.is_finite() { scale } else { 1.0 };", "let scale = if scale.is_finite() { scale } else { 10.0 };"))
e("svg-circle-write", (SVG, """        format!("<circle cx=\\"{}\\" cy=\\"{}\\" r=\\"{}\\" {}/>",
                self.centre.x(), self.centre.y(), self.radius, self.decorations.to_attr_string())""", """        let Point { .. } = self.centre;
        let mut string = String::from("<circle");
        for (name, value) in [("cx", self.centre.x()), ("cy", self.centre.y()), ("r", self.radius)] {
            string.push_str(&format!(" {name}=\\"{value}\\""));
        }
        string.push(' ');
        string.push_str(&self.decorations.to_attr_string());
        string.push_str("/>");
        string"""), (SVG, """        if radius.is_nan() || radius < 0.0 {
            return Err(Error::general("radius should be non-negative"))
        }

        Ok(SvgCircle { centre: point.into(), radius, ..Default::default()})""", """        if radius >= 0.0 {
            let mut circle = SvgCircle::default();
            circle.centre = point.into();
            circle.radius = radius;
            return Ok(circle);
        }

        Err(Error::general("radius should be non-negative"))"""))

# ---------------------------------------------------------------- the command line tool
HEAD = """    let (interpretation, system, axiom) = {
        let result = parser::parse_file(derive.file.as_ref());
        if let Err(e) = result {
            if args.verbose { println!("❌") }
            eprint!("\\n{}: ", error_style().paint("Error"));
            eprintln!("{}", e);
            return ExitCode::FAILURE;
        }

        result.unwrap()
    };
"""
REST = """    let result = system.derive(axiom, interpretation.run_settings());
    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = interpretation.interpret(&system, &result.unwrap());

    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = result.unwrap();
"""
e("cli-helper", (DER, REST, """    let result = system.derive(axiom, interpretation.run_settings())
        .and_then(|string| interpretation.interpret(&system, &string));

    let result = match result {
        Ok(svg) => svg,
        Err(e) => return report(&e)
    };
"""), (DER, """    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
""", """    if let Err(e) = result.save_file(&output) {
        return report(&e);
    }
"""), (DER, "pub fn handle_derive(", """fn report(error: &dyn std::fmt::Display) -> ExitCode {
    eprintln!("\\n{}\\n{}", error_style().paint("Error"), error);
    ExitCode::FAILURE
}

pub fn handle_derive("""))
e("cli-match", (DER, HEAD, """    let (interpretation, system, axiom) = match parser::parse_file(&derive.file) {
        Ok(parsed) => parsed,
        Err(e) => {
            if args.verbose { println!("❌") }
            eprintln!("\\n{}: {}", error_style().paint("Error"), e);
            return ExitCode::from(1);
        }
    };
"""), (DER, """    let mut output = derive.output.to_path_buf();
    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
    if extension != "svg" {
        output = output.with_extension("svg");
    }
""", """    let output = match derive.output.extension() {
        Some(extension) if extension.eq_ignore_ascii_case("svg") => derive.output.to_path_buf(),
        _ => derive.output.with_extension("svg")
    };
"""))
e("cli-result", (DER, "pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {", """pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
    match try_derive(args, derive) {
        Ok(()) => ExitCode::SUCCESS,
        Err(e) => {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
            ExitCode::FAILURE
        }
    }
}

fn try_derive(args: &Cli, derive: &InterpretationArgs) -> Result<(), Error> {"""), (DER, HEAD, "    let (interpretation, system, axiom) = parser::parse_file(&*derive.file)?;\n"),
  (DER, REST, "    let string = system.derive(axiom, interpretation.run_settings())?;\n    let result = interpretation.interpret(&system, &string)?;\n"),
  (DER, """    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
""", "    result.save_file(output.as_path())?;\n"), (DER, "    ExitCode::SUCCESS\n}\n", "    Ok(())\n}\n") )
e("cli-main", (MAI, """    match &args.command {
        cli::Command::Interpret(derive) => {
            handle_derive(&args, derive)
        },
        cli::Command::Describe => {
            describe::describe()
        }
    }""", """    if let cli::Command::Interpret(derive) = &args.command {
        return handle_derive(&args, derive);
    }

    describe::describe()"""), (MAI, """    static ERROR: OnceLock<Style> = OnceLock::new();
    ERROR.get_or_init(|| Color::Red.underline())""", """    static ERROR: LazyLock<Style> = LazyLock::new(|| Color::Red.underline());
    &ERROR"""), (MAI, "use std::sync::OnceLock;", "use std::sync::{LazyLock, OnceLock};"))
e("cli-describe-sorted", (DES, """    println!("{}", heading_style().paint("Terminals:"));
    family.terminals().for_each(&print);

    println!("\\n{}", heading_style().paint("Productions:"));
    family.productions().for_each(&print);
""", """    let sorted = |mut symbols: Vec<&SymbolDescription>| {
        symbols.sort_by(|a, b| a.name.cmp(&b.name));
        symbols.into_iter().for_each(print);
    };

    println!("{}", heading_style().paint("Terminals:"));
    sorted(family.terminals().collect());

    println!("\\n{}", heading_style().paint("Productions:"));
    sorted(family.productions().collect());
"""))
e("cli-save-elsewhere", (DER, "    if let Some(e) = result.save_file(output.as_path()).err() {", """    let saved = std::fs::File::create(&output).and_then(|mut file| {
        use std::io::Write;
        file.write_all(result.to_svg().as_bytes())
    });
    if let Err(e) = saved {"""), (DER, "use rusty_systems::interpretation::svg::SvgPathInterpretation;", "use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};"))
