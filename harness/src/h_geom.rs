//! C18: the turtle. C19: bounds. C20, C21: SVG. C22, C23: points and vectors.
use crate::rsx::*;
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::{Interpretation, NullInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;

pub type P2 = (f64, f64);
fn near(a: f64, b: f64, tol: f64) -> bool { (a == b) | ((a - b).abs() <= tol) }
/// equal numbers
fn eq(a: f64, b: f64) -> bool { (a.to_bits() == b.to_bits()) | (a == b) }
/// any multiple of 1/1024 below 2^21 in magnitude
fn fixed() -> f64 { u32() as i32 as f64 / 1024.0 }

// ---- C18: the turtle ----------------------------------------------------------------------

pub const CMD: [&str; 8] = ["Forward", "Move", "+", "-", "[", "]", "X", "other"];

/// what a turtle draws: the segments in order, or None for a `]` without a `[`
pub fn turtle(cmds: &[usize], delta: f32) -> Option<Vec<(P2, P2)>> {
    let (mut p, mut heading) = ((0.0f64, 0.0f64), 90.0f64);
    let mut stack = vec![];
    let mut out = vec![];
    for c in cmds {
        let r = heading.to_radians();
        let q = (p.0 + 5.0 * r.cos(), p.1 + 5.0 * r.sin());
        match c {
            0 => { out.push((p, q)); p = q }
            1 => p = q,
            2 => heading += delta as f64,
            3 => heading -= delta as f64,
            4 => stack.push((p, heading)),
            5 => (p, heading) = stack.pop()?,
            _ => {}
        }
    }
    Some(out)
}
fn segments(paths: &[Path]) -> Vec<(P2, P2)> {
    let mut out = vec![];
    for p in paths {
        for i in 1..p.len() { out.push(((p[i - 1].x(), p[i - 1].y()), (p[i].x(), p[i].y()))) }
    }
    out
}
pub fn judge(got: rusty_systems::Result<Vec<Path>>, want: Option<Vec<(P2, P2)>>) {
    check(got.is_ok() == want.is_some(), "an error exactly if a ']' has no '['");
    let (Ok(got), Some(want)) = (got, want) else { reach("unmatched"); return };
    let got = segments(&got);
    check(got.len() == want.len(), "as many segments as drawing moves");
    if !want.is_empty() { reach("drawn") }
    for (g, w) in got.iter().zip(&want) {
        check(near(g.0 .0, w.0 .0, 1e-6) && near(g.0 .1, w.0 .1, 1e-6) && near(g.1 .0, w.1 .0, 1e-6) && near(g.1 .1, w.1 .1, 1e-6), "the segments, in order");
    }
    note(got.len() as u64);
}
const ANGLES: [f32; 8] = [90.0, 22.5, 60.0, -45.0, 180.0, 0.0, 137.5, 720.5];
/// an arbitrary command, decided by the solver; commands that mean nothing stay one case
fn command() -> (usize, usize) {
    let i = below(8);
    let c = if i == 0 { 0 } else if i == 1 { 1 } else if i == 2 { 2 } else if i == 3 { 3 } else if i == 4 { 4 } else if i == 5 { 5 } else { 6 };
    (i, c)
}
fn c18(pre: &[usize], n: usize, post: &[usize], deltas: &[f32]) {
    let sys = AbopTurtleInterpretation::system().unwrap();
    sys.add_symbol("other").unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let delta = deltas[pick(deltas.len())];
    let mut s = ProductionString::new();
    let mut cmds = vec![];
    for c in pre { s.push_symbol(syms[*c]); cmds.push(*c) }
    for _ in 0..n { let (i, c) = command(); s.push_symbol(syms[i]); cmds.push(c) }
    for c in post { s.push_symbol(syms[*c]); cmds.push(*c) }
    judge(AbopTurtleInterpretation::new(3, delta).interpret(&sys, &s), turtle(&cmds, delta));
}
/// a store that knows only some of the turtle's symbols: the others mean nothing
fn c18_missing(n: usize) {
    let sys = System::new();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let lack = pick(8);
    let lack2 = pick(8);
    for i in 0..8 { if i != lack && i != lack2 { sys.add_symbol(CMD[i]).unwrap(); } }
    let mut s = ProductionString::new();
    let mut cmds = vec![];
    for _ in 0..n {
        let (i, c) = command();
        s.push_symbol(syms[i]);
        cmds.push(if c == lack || c == lack2 { reach("unknown command"); 6 } else { c });
    }
    s.push_symbol(syms[0]);
    cmds.push(if lack == 0 || lack2 == 0 { 6 } else { 0 });
    judge(AbopTurtleInterpretation::new(1, 90.0).interpret(&sys, &s), turtle(&cmds, 90.0));
}
/// from rules to segments
fn c18_plant(n: usize) {
    let sys = AbopTurtleInterpretation::system().unwrap();
    let k = pick(n + 1);
    let t = AbopTurtleInterpretation::new(k, 25.0);
    check(t.n() == k && t.delta() == 25.0 && t.run_settings().max_iterations == k, "the settings");
    let rules = ["X -> Forward [ + X ] Forward [ - X ] + X", "X -> [ X ] - Forward X Move"][pick(2)];
    sys.add_production(rules).unwrap();
    sys.add_production("Forward -> Forward Forward").unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let (i, _) = command();
    let s = ProductionString::from(vec![syms[6], syms[i], syms[6]]);
    let s = sys.derive(s, t.run_settings()).unwrap();
    let cmds: Vec<usize> = s.symbols().iter().map(|x| syms.iter().position(|y| x == y).unwrap()).collect();
    judge(t.interpret(&sys, &s), turtle(&cmds, 25.0));
}
/// a long winding drawing, with arbitrary commands in between and at its end
fn c18_long(turns: usize, depth: usize) {
    let sys = AbopTurtleInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let mut cmds: Vec<usize> = vec![];
    let mut s = ProductionString::new();
    let mut put = |cmds: &mut Vec<usize>, c: usize, i: usize| { s.push_symbol(syms[i]); cmds.push(c) };
    for i in 0..turns { for c in [0, 2, 0, 6, 1, [2, 3, 2, 2][i % 4]] { put(&mut cmds, c, c) } }
    let any = |cmds: &mut Vec<usize>, put: &mut dyn FnMut(&mut Vec<usize>, usize, usize)| {
        let i = below(7);
        let c = if i == 0 { 0 } else if i == 1 { 1 } else if i == 2 { 2 } else if i == 3 { 3 } else if i == 4 { 4 } else if i == 5 { 5 } else { 6 };
        put(cmds, c, i)
    };
    for i in 0..depth { for c in [4, if i % 3 == 0 { 3 } else { 2 }, 0] { put(&mut cmds, c, c) } }
    any(&mut cmds, &mut put);
    for _ in 0..depth { for c in [5, 0] { put(&mut cmds, c, c) } }
    any(&mut cmds, &mut put);
    put(&mut cmds, 0, 0);
    judge(AbopTurtleInterpretation::new(3, 25.0).interpret(&sys, &s), turtle(&cmds, 25.0));
}
fn c18_settings() {
    let (n, d) = (u32() as usize, f32());
    let t = AbopTurtleInterpretation::new(n, d);
    check(t.n() == n && t.run_settings().max_iterations == n && t.delta().to_bits() == d.to_bits(), "the settings given");
    let s: AbopSvgInterpretation = SvgPathInterpretation::new_with(3, 4, t);
    check(s.run_settings().max_iterations == n && s.width() == 3 && s.height() == 4, "kept when drawing");
    let e = ProductionString::empty();
    check(NullInterpretation::default().interpret(&System::new(), &e).is_ok(), "nothing can be interpreted");
}

// ---- C19: bounds --------------------------------------------------------------------------

pub fn path(p: &[P2]) -> Path { p.iter().map(|(x, y)| Point::new(*x, *y)).collect() }
fn c19_judge(b: Option<BoundingBox>, p: &[P2]) {
    check(b.is_some() != p.is_empty(), "bounds exactly if there is a point");
    let Some(b) = b else { reach("empty"); return };
    let (mut l, mut r, mut d, mut u) = (false, false, false, false);
    let mut inside = true;
    for (x, y) in p {
        inside &= b.min_x <= *x && *x <= b.max_x && b.min_y <= *y && *y <= b.max_y;
        l |= *x == b.min_x;
        r |= *x == b.max_x;
        d |= *y == b.min_y;
        u |= *y == b.max_y;
    }
    check(inside, "every point is inside");
    check(l && r && d && u, "every side touches a point");
    reach("bounds");
}
/// n arbitrary finite points: all on one path, or spread over several
fn c19(n: usize, several: bool) {
    let n = pick(n + 1);
    let p: Vec<P2> = (0..n).map(|_| (finite(), finite())).collect();
    if several {
        let (i, j) = (pick(n + 1), pick(n + 1));
        assume(i <= j);
        c19_judge(vec![path(&p[..i]), path(&p[i..j]), path(&p[j..])].bounds(), &p);
    } else {
        c19_judge(path(&p).bounds(), &p);
    }
}
/// many points on one or several paths, all known but one
fn c19_far(n: usize, paths: usize) {
    let at = [0, 1, n / 2, n - 2, n - 1][pick(5)];
    let (x, y) = if n < 20 {
        let (x, y) = (f64(), f64());
        assume(x.is_finite() && y.is_finite());
        (x, y)
    } else { let k = [1e-90, 1.0, 1e90][pick(3)]; (fixed() * k, fixed() * k) };
    let shift = [0.0, -1e6][pick(2)];
    let mut p: Vec<P2> = (0..n).map(|i| (shift + (i * 7 % 31) as f64 - 0.25 * i as f64, shift + 0.5 * (i * 13 % 17) as f64)).collect();
    p[at] = (x, y);
    if paths == 0 { return c19_judge(path(&p).bounds(), &p) }
    // every third path is empty
    let mut all: Vec<Path> = vec![];
    for (i, c) in p.chunks((n + paths - 1) / paths).enumerate() { if i % 3 == 1 { all.push(Path::new()) } all.push(path(c)) }
    c19_judge(all.bounds(), &p);
}
/// points that are all far out or all close in, on one side of an axis
fn c19_side(n: usize) {
    let k = [5e-324, 1e-300, 1e-40, 1e-7, 1.0, 1e7, 1e20, 1e39, 1e155, 1e300][pick(10)];
    let sign = [1.0, -1.0][pick(2)];
    let x = f64();
    assume(x.is_finite() && x * sign >= k);
    let at = pick(n);
    let mut p: Vec<P2> = (0..n).map(|i| (sign * k * (1 + i * 5 % n) as f64, -sign * k * (2 + i * 3 % n) as f64)).collect();
    p[at].0 = x;
    if bit() { for q in &mut p { *q = (q.1, q.0) } }
    let several = pick(3);
    if several == 0 { return c19_judge(path(&p).bounds(), &p) }
    let mut all = vec![path(&p[..n / 2]), path(&p[n / 2..])];
    if several == 2 { all.insert(1, Path::new()); all.push(Path::new()) }
    c19_judge(all.bounds(), &p);
}
/// very many points on one or several paths, all known but one coordinate
fn c19_large(n: usize, paths: usize) {
    let at = [0, 1, 63, 64, 255, 256, n - 2, n - 1][pick(8)];
    let flip = pick(2) == 1;
    let sign = [1.0, -1.0][pick(2)];
    let x = coord() * 8.0;
    // steadily rising or falling, so that the last points are the farthest
    let mut p: Vec<P2> = (0..n).map(|i| (sign * 0.25 * i as f64 - 8.0, (i * 13 % 17) as f64 - 20.0)).collect();
    if flip { for q in &mut p { *q = (q.1, q.0) } }
    let (mut lo, mut hi) = ((f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY));
    let (mut sx, mut sy) = (0.0, 0.0);
    for (i, q) in p.iter().enumerate() {
        sx += q.0;
        if i == at { continue }
        sy += q.1;
        lo = (lo.0.min(q.0), lo.1.min(q.1));
        hi = (hi.0.max(q.0), hi.1.max(q.1));
    }
    lo.0 = lo.0.min(p[at].0);
    hi.0 = hi.0.max(p[at].0);
    p[at].1 = x;
    let b = if paths == 0 { path(&p).bounds() } else {
        let mut all: Vec<Path> = vec![];
        for (i, c) in p.chunks((n + paths - 1) / paths).enumerate() { if i % 3 == 1 { all.push(Path::new()) } all.push(path(c)) }
        all.bounds()
    };
    let b = b.unwrap();
    check(b.min_x == lo.0 && b.max_x == hi.0, "the box around very many points");
    check(b.min_y == if x < lo.1 { x } else { lo.1 } && b.max_y == if x > hi.1 { x } else { hi.1 }, "the box around very many points");
    check(near(b.com.x(), sx / n as f64, 1e-6) && near(b.com.y(), (sy + x) / n as f64, 1e-6), "the centre of mass is the mean");
}
/// derived quantities, for coordinates whose sums are exact
fn c19_mass(n: usize, several: bool) {
    // of many points only three have an arbitrary coordinate
    let c = |i: usize| if n <= 5 || [0, 3, n - 1].contains(&i) { coord() } else { (i * 7 % 5) as f64 - 2.25 };
    let p: Vec<P2> = (0..n).map(|i| if i % 2 == 0 { (c(i), 1.5 * i as f64) } else { (-0.75 * i as f64, c(i)) }).collect();
    let b = if several { let i = pick(n + 1); vec![path(&p[..i]), Path::new(), path(&p[i..])].bounds() } else { path(&p).bounds() };
    let b = b.unwrap();
    let (mut x, mut y) = (0.0, 0.0);
    for q in &p { x += q.0; y += q.1 }
    check(near(b.com.x(), x / n as f64, 1e-9), "the centre of mass is the mean");
    check(near(b.com.y(), y / n as f64, 1e-9), "the centre of mass is the mean");
    check(near(b.width(), b.max_x - b.min_x, 1e-9) && near(b.height(), b.max_y - b.min_y, 1e-9), "width and height");
    check(near(b.center().x() - b.min_x, b.max_x - b.center().x(), 1e-9) && near(b.center().y() - b.min_y, b.max_y - b.center().y(), 1e-9), "the centre is in the middle");
}

// ---- reading SVG --------------------------------------------------------------------------

#[derive(Debug)]
pub struct Tag { pub name: String, close: bool, attrs: Vec<(String, String)> }
/// the text an attribute's value stands for
fn unescape(v: &str) -> Option<String> {
    if v.contains('<') { return None }
    let mut out = String::new();
    let mut v = v;
    while let Some(i) = v.find('&') {
        out += &v[..i];
        let e = i + v[i..].find(';')?;
        out += match &v[i + 1..e] { "lt" => "<", "gt" => ">", "amp" => "&", "quot" => "\"", "apos" => "'", "#34" | "#x22" => "\"", "#38" | "#x26" => "&", "#39" | "#x27" => "'", "#60" | "#x3c" | "#x3C" => "<", "#62" | "#x3e" | "#x3E" => ">", _ => return None };
        v = &v[e + 1..];
    }
    out += v;
    Some(out)
}
/// the tags of a document without text; None if it is not well-formed
pub fn tags(s: &str) -> Option<Vec<Tag>> {
    let mut out: Vec<Tag> = vec![];
    let mut open: Vec<String> = vec![];
    let mut s = s.trim();
    if s.starts_with("<?xml") { s = s[s.find("?>")? + 2..].trim_start() }
    let mut roots = 0;
    while !s.is_empty() {
        s = s.strip_prefix('<')?;
        if let Some(t) = s.strip_prefix('/') {
            let i = t.find('>')?;
            if open.pop()? != t[..i].trim_end() { return None }
            out.push(Tag { name: t[..i].trim_end().to_string(), close: true, attrs: vec![] });
            s = t[i + 1..].trim_start();
            continue;
        }
        let n = s.find(|c: char| c.is_whitespace() || c == '/' || c == '>')?;
        let name = s[..n].to_string();
        if name.is_empty() || !name.as_bytes()[0].is_ascii_alphabetic() { return None }
        s = &s[n..];
        let mut attrs: Vec<(String, String)> = vec![];
        let single = loop {
            let t = s.trim_start();
            if let Some(t) = t.strip_prefix("/>") { s = t; break true }
            if let Some(t) = t.strip_prefix('>') { s = t; break false }
            if t.len() == s.len() { return None } // attributes are set apart by whitespace
            let e = t.find('=')?;
            let key = t[..e].trim_end().to_string();
            if key.is_empty() || key.contains(|c: char| c.is_whitespace() || c == '"' || c == '<' || c == '\'') { return None }
            let t = t[e + 1..].trim_start();
            let q = t.chars().next()?;
            if q != '"' && q != '\'' { return None }
            let e = t[1..].find(q)?;
            if attrs.iter().any(|a| a.0 == key) { return None }
            attrs.push((key, unescape(&t[1..1 + e])?));
            s = &t[2 + e..];
        };
        s = s.trim_start();
        if open.is_empty() { roots += 1 }
        out.push(Tag { name: name.clone(), close: false, attrs });
        if single { out.push(Tag { name, close: true, attrs: vec![] }) } else { open.push(name) }
    }
    if open.is_empty() && roots == 1 { Some(out) } else { None }
}
impl Tag {
    pub fn get(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn num(&self, k: &str) -> Option<f64> { num(self.get(k)?) }
}
/// the points of path data made of one absolute move and absolute lines
pub fn points(d: &str) -> Option<Vec<P2>> {
    let mut out: Vec<P2> = vec![];
    let b = d.as_bytes();
    let (mut i, mut cmd) = (0, b' ');
    let skip = |i: &mut usize| while *i < b.len() && (b[*i].is_ascii_whitespace() || b[*i] == b',') { *i += 1 };
    let number = |i: &mut usize| -> Option<f64> {
        skip(i);
        let k = *i;
        if k < b.len() && b[k] == b'@' {
            *i += 1;
            while *i < b.len() && b[*i] != b'@' { *i += 1 }
            if *i < b.len() { *i += 1 }
        } else {
            while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == b'.' || b[*i] | 32 == b'e' || ((b[*i] == b'-' || b[*i] == b'+') && (*i == k || b[*i - 1] | 32 == b'e'))) { *i += 1 }
        }
        num(&d[k..*i])
    };
    loop {
        skip(&mut i);
        if i == b.len() { return Some(out) }
        if b[i].is_ascii_alphabetic() {
            cmd = b[i];
            if (cmd == b'M') != out.is_empty() { return None }
            i += 1;
        }
        match cmd {
            b'M' | b'L' => out.push((number(&mut i)?, number(&mut i)?)),
            b'H' => { let y = out.last()?.1; out.push((number(&mut i)?, y)) }
            b'V' => { let x = out.last()?.0; out.push((x, number(&mut i)?)) }
            _ => return None,
        }
        if cmd == b'M' { cmd = b'L' }
    }
}
/// x' = a x + b, y' = c y + d
#[derive(Clone, Copy)]
struct Map { a: f64, b: f64, c: f64, d: f64 }
fn transforms(t: &str, m: Map) -> Option<Map> {
    let mut m = m;
    let mut t = t.trim();
    while !t.is_empty() {
        let i = t.find('(')?;
        let j = t.find(')')?;
        let args: Vec<f64> = t[i + 1..j].split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).map(|x| num(x)).collect::<Option<_>>()?;
        match (t[..i].trim(), args.as_slice()) {
            ("translate", [x, y]) => m = Map { b: m.a * x + m.b, d: m.c * y + m.d, ..m },
            ("scale", [x, y]) => m = Map { a: m.a * x, c: m.c * y, ..m },
            ("scale", [x]) => m = Map { a: m.a * x, c: m.c * x, ..m },
            ("matrix", [a, _, _, c, x, y]) => m = Map { a: m.a * a, b: m.a * x + m.b, c: m.c * c, d: m.c * y + m.d },
            _ => return None,
        }
        t = t[j + 1..].trim_start_matches(|c: char| c.is_whitespace() || c == ',');
    }
    Some(m)
}

// ---- C20: fitting a drawing ---------------------------------------------------------------

#[derive(Debug, Default, Clone)]
struct Fixed(Vec<Vec<P2>>);
impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { Ok(System::new()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        Ok(self.0.iter().map(|p| path(p)).collect())
    }
}
/// the document for a drawing: its size, and every path's points with the map that places them
fn draw(w: usize, h: usize, paths: Vec<Vec<P2>>) -> (f64, f64, Vec<(Vec<P2>, Map)>) {
    let i = SvgPathInterpretation::new_with(w, h, Fixed(paths));
    let svg = i.interpret(&System::new(), &ProductionString::empty());
    check(svg.is_ok(), "every drawing can be shown");
    let text = svg.unwrap().to_svg();
    let t = tags(&text);
    check(t.is_some(), "the document is well-formed");
    let t = t.unwrap();
    check(!t.is_empty() && t[0].name == "svg", "an SVG document");
    let mut stack = vec![Map { a: 1.0, b: 0.0, c: 1.0, d: 0.0 }];
    let mut out = vec![];
    for e in &t {
        if e.close { stack.pop(); continue }
        let m = transforms(e.get("transform").unwrap_or(""), *stack.last().unwrap());
        check(m.is_some(), "the placement can be read");
        stack.push(m.unwrap());
        if e.name == "path" {
            let p = points(e.get("d").unwrap_or(""));
            check(p.is_some(), "the path can be read");
            out.push((p.unwrap(), m.unwrap()));
        }
    }
    (t[0].num("width").unwrap(), t[0].num("height").unwrap(), out)
}
fn same_points(got: &[(Vec<P2>, Map)], want: &[Vec<P2>]) {
    let g: Vec<&Vec<P2>> = got.iter().map(|x| &x.0).filter(|p| !p.is_empty()).collect();
    let w: Vec<&Vec<P2>> = want.iter().filter(|p| !p.is_empty()).collect();
    check(g.len() == w.len(), "every path is shown");
    for (a, b) in g.iter().zip(&w) {
        check(a.len() == b.len(), "every point is shown");
        let mut all = true;
        for i in 0..a.len() { all &= eq(a[i].0, b[i].0) & eq(a[i].1, b[i].1) }
        check(all, "the points, in order");
    }
}
const SIZES: [(usize, usize); 6] = [(500, 500), (101, 300), (1920, 7), (1, 1), (33, 33), (300, 101)];
/// the drawing fits the canvas, touches it, is centred, and is not distorted
pub fn c20_judge(w: usize, h: usize, paths: Vec<Vec<P2>>) {
    let (gw, gh, got) = draw(w, h, paths.clone());
    check(gw == w as f64 && gh == h as f64, "the size asked for");
    same_points(&got, &paths);
    let all: Vec<P2> = paths.iter().flatten().cloned().collect();
    if all.is_empty() { reach("nothing to draw"); return }
    let (wf, hf) = (w as f64, h as f64);
    let (tx, ty) = (1e-7 * wf, 1e-7 * hf);
    let m = got[0].1;
    for g in &got { check(g.1.a == m.a && g.1.b == m.b && g.1.c == m.c && g.1.d == m.d, "all paths are placed alike") }
    check(m.a.is_finite() && m.c.is_finite() && m.b.is_finite() && m.d.is_finite(), "the placement is finite");
    check(m.a > 0.0 && near(m.c, -m.a, 1e-9 * m.a), "one scale for both directions, upside down");
    let (mut lo, mut hi) = ((f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY));
    for p in &all {
        lo = (if p.0 < lo.0 { p.0 } else { lo.0 }, if p.1 < lo.1 { p.1 } else { lo.1 });
        hi = (if p.0 > hi.0 { p.0 } else { hi.0 }, if p.1 > hi.1 { p.1 } else { hi.1 });
    }
    let (l, r) = (m.a * lo.0 + m.b, m.a * hi.0 + m.b);
    let (t, b) = (m.c * hi.1 + m.d, m.c * lo.1 + m.d);
    check(l >= -tx && r <= wf + tx && t >= -ty && b <= hf + ty, "the drawing is inside the canvas");
    check(near(l, wf - r, tx) && near(t, hf - b, ty), "the drawing is centred");
    if lo.0 == hi.0 && lo.1 == hi.1 { reach("a point"); return }
    reach("a drawing");
    check(near(r - l, wf, tx) || near(b - t, hf, ty), "the drawing fills the canvas in one direction");
}
/// one arbitrary coordinate
fn c20_one(sizes: &[(usize, usize)]) {
    let (w, h) = sizes[pick(sizes.len())];
    let x = coord();
    let p = [
        vec![vec![(0.0, 0.0), (x, 10.0)]],
        vec![vec![(0.0, 0.0), (10.0, x), (3.0, 4.0)]],
        vec![vec![(-3.25, 2.0), (x, 2.0)], vec![(1.0, 2.0)]],
        vec![vec![(0.5, x)]],
        vec![vec![], vec![(x, -7.0), (2.0, 33.0), (2.0, 30.0)]],
    ];
    c20_judge(w, h, p[pick(p.len())].clone());
}
/// two arbitrary coordinates
fn c20_two(sizes: &[(usize, usize)]) {
    let (w, h) = sizes[pick(sizes.len())];
    let (x, y) = (coord(), coord());
    let p = [vec![vec![(0.0, 0.0), (x, y)]], vec![vec![(x, 1.0), (2.0, y)], vec![(0.0, 0.0)]], vec![vec![(x, 3.0), (2.0, 3.0), (y, 3.0)]]];
    c20_judge(w, h, p[pick(p.len())].clone());
}
/// drawings that are tiny, huge or far away
fn c20_scaled() {
    let (w, h) = SIZES[pick(3)];
    let k = [1e-6, 1e-3, 1e5, 1e12][pick(4)];
    let (dx, dy) = [(0.0, 0.0), (1e3 * k, -40.0 * k), (-5e4 * k, 7e4 * k)][pick(3)];
    let x = coord();
    let p = [vec![vec![(0.0, 0.0), (x, 10.0)]], vec![vec![(-33.0, x), (10.0, 2.0)], vec![(1.0, 0.0)]]];
    let p: Vec<Vec<P2>> = p[pick(2)].iter().map(|q| q.iter().map(|(x, y)| (x * k + dx, y * k + dy)).collect()).collect();
    c20_judge(w, h, p);
}
/// drawings beyond the reach of shorter numbers
fn c20_extreme() {
    let (w, h) = SIZES[pick(2)];
    let k = [1e-300, 1e-150, 1e-42, 1e-37, 1e37, 1e40, 1e150, 1e290][pick(8)];
    let x = coord();
    let p = [vec![vec![(0.0, 0.0), (x, 10.0)]], vec![vec![(-33.0, x), (10.0, 2.0)], vec![(1.0, 0.0)]]];
    let p: Vec<Vec<P2>> = p[pick(2)].iter().map(|q| q.iter().map(|(x, y)| (x * k, y * k)).collect()).collect();
    c20_judge(w, h, p);
}
/// many paths, one arbitrary coordinate among them
fn c20_many(n: usize) {
    let (w, h) = SIZES[pick(2)];
    let x = 8.0 * coord();
    let at = [0, n / 2, n - 1][pick(3)];
    let mut p: Vec<Vec<P2>> = (0..n).map(|i| (0..(i % 4) + 1).map(|j| ((i * 5 % 23) as f64 - j as f64, (j * 3 + i % 11) as f64 * 0.5)).collect()).collect();
    let last = p[at].len() - 1;
    if bit() { p[at][last].0 = x } else { p[at][last].1 = x }
    c20_judge(w, h, p);
}
/// any canvas size
fn c20_canvas() {
    let (w, h) = (u8() as usize + 1, u8() as usize + 1);
    let p = [
        vec![vec![(0.0, 0.0), (40.0, 10.0)]],
        vec![vec![(-3.0, 2.0), (-3.0, 7.5)], vec![(-3.0, 6.0)]],
        vec![vec![(5.0, -1.0), (6.0, -1.0)]],
        vec![vec![(1.0, 1.0)]],
    ];
    c20_judge(w, h, p[pick(p.len())].clone());
}
fn c20_empty() {
    let (w, h) = (u8() as usize, [500, 0, 31][pick(3)]);
    let p = [vec![], vec![vec![]], vec![vec![], vec![]]];
    c20_judge(w, h, p[pick(p.len())].clone());
}
/// drawings of the turtle
fn c20_turtle(n: usize) {
    let sys = AbopSvgInterpretation::system().unwrap();
    let syms: Vec<Symbol> = CMD.iter().map(|c| Symbol::build(c).unwrap()).collect();
    let mut s = ProductionString::new();
    for _ in 0..n { let (i, _) = command(); s.push_symbol(syms[i]) }
    let t = AbopTurtleInterpretation::new(1, 90.0);
    let r = t.interpret(&sys, &s);
    let i = SvgPathInterpretation::new_with(300, 200, t);
    let v = i.interpret(&sys, &s);
    check(v.is_ok() == r.is_ok(), "shown exactly if it can be drawn");
    if let Ok(p) = r {
        reach("drawn");
        let p: Vec<Vec<P2>> = p.iter().map(|x| x.iter().map(|q| (q.x(), q.y())).collect()).collect();
        let a = v.unwrap().to_svg();
        let b = SvgPathInterpretation::new_with(300, 200, Fixed(p.clone())).interpret(&sys, &s).unwrap().to_svg();
        check(a == b, "shown as the paths drawn");
        c20_judge(300, 200, p);
    } else { reach("not drawn") }
}

// ---- C21: writing SVG ---------------------------------------------------------------------

fn c21_path(n: usize) {
    let n = pick(n + 1);
    let p: Vec<P2> = (0..n).map(|_| (finite(), finite())).collect();
    let e = SvgPath::from(path(&p));
    check(e.fill().is_none() && e.stroke().is_none() && e.len() == n, "a plain path");
    let t = tags(&e.to_svg());
    check(t.is_some(), "well-formed");
    let t = t.unwrap();
    check(t.len() == 2 && t[0].name == "path", "one path element");
    check(t[0].get("fill").is_none() && t[0].get("stroke").is_none(), "without decorations");
    let got = points(t[0].get("d").unwrap_or(""));
    check(got.is_some(), "moves and lines");
    let got = got.unwrap();
    check(got.len() == n, "one command for each point");
    let mut all = true;
    for i in 0..n { all &= eq(got[i].0, p[i].0) & eq(got[i].1, p[i].1) }
    check(all, "every coordinate exactly, in order");
    if n == 0 { reach("no points") } else { reach("points") }
}
/// a long path with two arbitrary points
fn c21_long(n: usize) {
    let at = [0, 1, n / 2, n - 1][pick(4)];
    let mut p: Vec<P2> = (0..n).map(|i| (0.5 * i as f64 - 20.0, (i * i % 101) as f64)).collect();
    p[at] = (finite(), finite());
    p[n - 2] = (finite(), finite());
    let t = tags(&SvgPath::from(path(&p)).to_svg());
    check(t.is_some(), "well-formed");
    let got = points(t.as_ref().unwrap()[0].get("d").unwrap_or(""));
    check(got.is_some(), "moves and lines");
    let got = got.unwrap();
    check(got.len() == n, "one command for each point");
    let mut all = true;
    for i in 0..n { all &= eq(got[i].0, p[i].0) & eq(got[i].1, p[i].1) }
    check(all, "every coordinate exactly, in order");
}
/// documents of many paths and of any size
fn c21_many(n: usize) {
    let (w, h) = ([100_000usize, 65_536, 4_294_967_296, 1][pick(4)], [99_999usize, 256, 1 << 40][pick(3)]);
    let x = finite();
    let paths: Vec<Vec<P2>> = (0..n).map(|i| (0..i % 5).map(|j| (j as f64 - 3.0, (i * 3 % 7) as f64)).collect()).collect();
    let mut paths = paths;
    let last = [3, n / 5 * 5 - 1][pick(2)];
    let k = paths[last].len() - 1;
    paths[last][k].1 = x;
    let v = SvgPathInterpretation::new_with(w, h, Fixed(paths.clone())).interpret(&System::new(), &ProductionString::empty()).unwrap();
    let t = tags(&v.to_svg());
    check(t.is_some(), "well-formed");
    let t = t.unwrap();
    check(t[0].num("width") == Some(w as f64) && t[0].num("height") == Some(h as f64), "the size asked for");
    let got: Vec<Vec<P2>> = t.iter().filter(|e| e.name == "path" && !e.close).map(|e| points(e.get("d").unwrap_or("")).unwrap()).collect();
    let got: Vec<&Vec<P2>> = got.iter().filter(|p| !p.is_empty()).collect();
    let want: Vec<&Vec<P2>> = paths.iter().filter(|p| !p.is_empty()).collect();
    check(got.len() == want.len(), "one element for each path");
    let mut all = true;
    for (a, b) in got.iter().zip(&want) {
        check(a.len() == b.len(), "every point");
        for i in 0..a.len() { all &= eq(a[i].0, b[i].0) & eq(a[i].1, b[i].1) }
    }
    check(all, "every coordinate exactly, in order");
}
/// decorations are text: any characters that XML can hold
fn c21_text(n: usize) {
    // each special character, and any other
    let text = |k: usize| -> String {
        (0..k).map(|_| match pick(6) { i @ 0..=4 => ['&', '<', '>', '"', '\''][i], _ => { let c = u8(); assume(c >= 32 && c < 127 && c != b'&' && c != b'<' && c != b'>' && c != b'"' && c != b'\''); c as char } }).collect()
    };
    let mut c = SvgCircle::build(Point::new(1.0, 2.0), 3.0).unwrap();
    let (a, b) = (["url(#", "\u{e9}", ""][pick(3)], ["", ")"][pick(2)]);
    let s = format!("{}{}{}", a, text(pick(n) + 1), b);
    let stroke = pick(2) == 1;
    let t = Some(String::from("red"));
    c.decorations = SvgDecorations { fill: if stroke { t.clone() } else { Some(s.clone()) }, stroke: if stroke { Some(s.clone()) } else { t.clone() }, stroke_width: Some(2.0) };
    let t = tags(&c.to_svg());
    check(t.is_some(), "well-formed");
    let t = t.unwrap();
    check(t.len() == 2 && t[0].name == "circle", "one circle element");
    let (x, y) = if stroke { ("stroke", "fill") } else { ("fill", "stroke") };
    check(t[0].get(x) == Some(s.as_str()) && t[0].get(y) == Some("red") && t[0].num("stroke-width") == Some(2.0), "the decorations given and no others");
    check(t[0].num("cx") == Some(1.0) && t[0].num("cy") == Some(2.0) && t[0].num("r") == Some(3.0), "centre and radius exactly");
}
fn color() -> Option<String> { [None, Some("none"), Some("#00ff7f"), Some("black")][pick(4)].map(|x| x.to_string()) }
fn c21_circle() {
    let (x, y, r) = (finite(), finite(), f64());
    let by_vector = pick(2) == 1;
    let c = if by_vector { SvgCircle::build(Vector::new(x, y), r) } else { SvgCircle::build(Point::new(x, y), r) };
    check(c.is_ok() == (r >= 0.0), "a radius that is negative or not a number is rejected");
    let Ok(mut c) = c else { reach("rejected"); return };
    reach("circle");
    assume(r < 1e100);
    check(c.centre == Point::new(x, y) && c.radius == r, "the circle asked for");
    let w = if pick(2) == 1 { let w = f32(); assume(w >= 0.0 && w < 1e30); Some(w) } else { None };
    c.decorations = SvgDecorations { fill: color(), stroke: color(), stroke_width: w };
    let t = tags(&c.to_svg());
    check(t.is_some(), "well-formed");
    let t = t.unwrap();
    check(t.len() == 2 && t[0].name == "circle", "one circle element");
    check(t[0].num("cx") == Some(x) && t[0].num("cy") == Some(y) && t[0].num("r") == Some(r), "centre and radius exactly");
    check(t[0].get("fill") == c.decorations.fill.as_deref() && t[0].get("stroke") == c.decorations.stroke.as_deref(), "the decorations given and no others");
    check(t[0].num("stroke-width") == w.map(|w| w as f64), "the width of the line");
}
fn c21_doc(n: usize) {
    // documents of interpretations: size, one group, one element for each path
    let (w, h) = (u8() as usize, u8() as usize % 16 + 1);
    let k = pick(n + 1);
    let x = coord();
    let paths: Vec<Vec<P2>> = (0..k).map(|i| (0..i).map(|j| if i == 1 { (x, 2.0) } else { (j as f64, 1.0 + i as f64) }).collect()).collect();
    let v = SvgPathInterpretation::new_with(w, h, Fixed(paths.clone())).interpret(&System::new(), &ProductionString::empty()).unwrap();
    let t = tags(&v.to_svg());
    check(t.is_some(), "well-formed");
    let t = t.unwrap();
    check(t[0].name == "svg" && t[0].get("xmlns") == Some("http://www.w3.org/2000/svg"), "an SVG document");
    check(t[0].num("width") == Some(w as f64) && t[0].num("height") == Some(h as f64), "the size asked for");
    let got: Vec<Vec<P2>> = t.iter().filter(|e| e.name == "path" && !e.close).map(|e| points(e.get("d").unwrap_or("")).unwrap()).collect();
    check(got.len() == k, "one element for each path");
    for (a, b) in got.iter().zip(&paths) {
        check(a.len() == b.len(), "every point");
        for i in 0..a.len() { check(a[i] == b[i], "every coordinate exactly, in order") }
    }
    let g = t.iter().find(|e| e.name == "g");
    check(g.is_some() && g.unwrap().get("fill") == Some("none") && g.unwrap().get("stroke") == Some("black"), "lines are drawn, not filled");
    check(tags(&Svg::default().to_svg()).is_some(), "an empty document is well-formed");
    check(tags(&SvgGroup::default().to_svg()).is_some(), "an empty group is well-formed");
}

// ---- C22: points and vectors --------------------------------------------------------------

fn eqp(p: Point, x: f64, y: f64, l: &str) { check(eq(p.x(), x) & eq(p.y(), y), l) }
fn eqv(p: Vector, x: f64, y: f64, l: &str) { check(eq(p.x(), x) & eq(p.y(), y), l) }
fn c22() {
    let (a, b, c, d) = (finite(), finite(), finite(), finite());
    let (p, q) = (Point::new(a, b), Point::new(c, d));
    let (v, w) = (Vector::new(a, b), Vector::new(c, d));
    check(p.x() == a && p.y() == b && v.x() == a && v.y() == b, "coordinates");
    match pick(8) {
        0 => { eqp(p + q, a + c, b + d, "point + point"); eqv(v + w, a + c, b + d, "vector + vector") }
        1 => { eqp(p - q, a - c, b - d, "point - point"); eqv(v - w, a - c, b - d, "vector - vector") }
        2 => { eqp(p + w, a + c, b + d, "point + vector"); eqp(p - w, a - c, b - d, "point - vector") }
        3 => { eqp(-p, -a, -b, "- point"); eqv(-v, -a, -b, "- vector") }
        4 => { let k = [1.0, 2.0, -4.0, 0.5, 3.0, -7.5, 1e10, 1e-3][pick(8)]; eqp(p / k, a / k, b / k, "point / number") }
        5 => { eqp(Point::from(v), a, b, "point of a vector"); eqv(Vector::from(p), a, b, "vector of a point") }
        6 => { check((p == q) == (a == c && b == d) && (v == w) == (a == c && b == d), "equality") }
        _ => {
            eqp(Point::zero(), 0.0, 0.0, "zero");
            eqp(Point::default(), 0.0, 0.0, "zero");
            eqv(Vector::zero(), 0.0, 0.0, "zero");
            eqv(Vector::default(), 0.0, 0.0, "zero");
            eqv(Vector::up(), 0.0, 1.0, "up");
            eqv(Vector::down(), 0.0, -1.0, "down");
            check(v + Vector::zero() == v && v - v == Vector::zero() && p + Vector::zero() == p, "zero is neutral");
        }
    }
}
fn c22_path(n: usize) {
    let n = pick(n + 1);
    let p: Vec<P2> = (0..n).map(|_| (finite(), finite())).collect();
    let (x, y) = (finite(), finite());
    let mut a = Path::new();
    for (i, q) in p.iter().enumerate() {
        check(a.len() == i && a.is_empty() == (i == 0), "length");
        if i % 2 == 0 { a.push(Point::new(q.0, q.1)) } else { a.push(Vector::new(q.0, q.1)) }
    }
    let b = path(&p);
    check(a.len() == n && b.len() == n && a.get(n).is_none(), "length");
    let same = |a: &Path, l: &str| {
        let mut all = a.len() == n;
        for (i, q) in p.iter().enumerate() { all &= eq(a[i].x(), q.0) & eq(a[i].y(), q.1) & a.get(i).is_some_and(|g| eq(g.x(), q.0) & eq(g.y(), q.1)) }
        check(all, l);
    };
    same(&a, "points in the order they were pushed");
    same(&b, "points in the order they were collected");
    same(&b.clone().into_iter().collect(), "by value, in order");
    same(&b.iter().cloned().collect(), "by reference, in order");
    check(b.get_start().map(|q| (q.x(), q.y())) == p.first().cloned(), "the first point");
    let m = b + Vector::new(x, y);
    check(m.len() == n, "moving keeps the points");
    let mut all = true;
    for (i, q) in p.iter().enumerate() { all &= eq(m[i].x(), q.0 + x) & eq(m[i].y(), q.1 + y) }
    check(all, "every point is moved by the vector");
}
/// any position at all
fn c22_get() {
    let n = pick(5);
    let p: Vec<P2> = (0..n).map(|i| (i as f64 + 0.5, 8.0 - i as f64)).collect();
    let a = path(&p);
    let i = u64() as usize;
    let g = a.get(i);
    check(g.is_some() == (i < n), "a point exactly at the positions of the path");
    if let Some(g) = g { reach("point"); check(g.x() == i as f64 + 0.5 && g.y() == 8.0 - i as f64, "the point at that position") } else { reach("none") }
    check((a.get_start().is_some()) == (n > 0), "the first point");
}
/// a long path
fn c22_long(n: usize) {
    let at = [0, 1, n / 2, n - 1][pick(4)];
    let mut p: Vec<P2> = (0..n).map(|i| (1.0 + i as f64, 3.0 - (i * 7 % 5) as f64)).collect();
    p[at] = (finite(), finite());
    let v = (finite(), finite());
    let mut a = path(&p[..n / 2]);
    for q in &p[n / 2..] { a.push(Point::new(q.0, q.1)) }
    check(a.len() == n && !a.is_empty() && a.get(n).is_none(), "length");
    let mut all = true;
    for (i, q) in a.iter().enumerate() { all &= eq(q.x(), p[i].0) & eq(q.y(), p[i].1) }
    check(all, "by reference, in order");
    let b = a.clone() + Vector::new(v.0, v.1);
    check(b.len() == n, "moving keeps the points");
    let mut all = true;
    for i in 0..n { all &= eq(b[i].x(), p[i].0 + v.0) & eq(b[i].y(), p[i].1 + v.1) }
    check(all, "every point is moved by the vector");
    let (mut all, mut i) = (true, 0);
    for q in a { all &= eq(q.x(), p[i].0) & eq(q.y(), p[i].1); i += 1 }
    check(all && i == n, "by value, in order");
}
/// the length of a vector: not negative, by Pythagoras, and independent of the direction
fn c22_length() {
    let (x, y) = (coord(), coord());
    let v = Vector::new(x, y);
    let n = v.norm();
    check(n >= 0.0 && near(n * n, x * x + y * y, 1e-9), "the length by Pythagoras");
    check(near((-v).norm(), n, 1e-12) && near(Vector::new(y, x).norm(), n, 1e-12), "in every direction");
}
/// the length of a vector, for exact squares
fn c22_norm() {
    let t = [(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (8.0, 15.0, 17.0), (0.0, 1.0, 1.0), (7.0, 24.0, 25.0)][pick(5)];
    let k = [1.0, 0.25, 1024.0][pick(3)];
    let (sx, sy) = (if bit() { 1.0 } else { -1.0 }, if bit() { 1.0 } else { -1.0 });
    let swap = bit();
    let (x, y) = (sx * t.0 * k, sy * t.1 * k);
    let v = if swap { Vector::new(y, x) } else { Vector::new(x, y) };
    check(near(v.norm(), t.2 * k, 1e-9 * k), "the length by Pythagoras");
}

// ---- C23: rotation ------------------------------------------------------------------------

const ODD: [f64; 15] = [22.4, 25.7, 137.5, 1.0, -1.0, 359.0, 361.0, 1e-3, -1e-6, 89.999, 90.001, 12345.678, -99999.5, 1e6, 0.1];
/// every multiple of 7.5 from -720 to 720, and some odd ones
const TURNS: usize = 193 + ODD.len();
fn angle() -> f64 {
    let i = pick(TURNS);
    if i < 193 { i as f64 * 7.5 - 720.0 } else { ODD[i - 193] }
}
fn c23(v: Vector, tol: f64) {
    let a = angle();
    let r = v.rotate(a);
    let (s, c) = a.to_radians().sin_cos();
    check(near(r.x(), c * v.x() - s * v.y(), tol), "turned counter-clockwise by the angle");
    check(near(r.y(), s * v.x() + c * v.y(), tol), "turned counter-clockwise by the angle");
}
fn c23_compose(n: usize) {
    // turning twice is turning by the sum, and back again changes nothing
    let v = Vector::new(coord(), coord());
    let (a, b) = ([22.5, -90.0, 137.5, 180.0, 1.0, 270.0, 45.0, -0.1, 120.0, 719.0, 60.0, 33.3][pick(n)], angle());
    let x = v.rotate(a).rotate(b);
    let y = v.rotate(a + b);
    check(near(x.x(), y.x(), 1e-6) && near(x.y(), y.y(), 1e-6), "turning twice is turning by the sum");
    let z = v.rotate(a).rotate(-a);
    check(near(z.x(), v.x(), 1e-9) && near(z.y(), v.y(), 1e-9), "turning back undoes it");
}
/// many turns more or less end in the same place
fn c23_turns() {
    let v = Vector::new(coord(), coord());
    let a = [0.0, 22.5, 90.0, -45.0, 137.5, 180.0, 270.0, 30.0][pick(8)];
    let k = [1.0, 2.0, 3.0, 31.0, 32.0, 100.0, 1000.0, 4096.0, 100000.0][pick(9)] * [1.0, -1.0][pick(2)];
    let r = v.rotate(a + 360.0 * k);
    let (s, c) = a.to_radians().sin_cos();
    check(near(r.x(), c * v.x() - s * v.y(), 1e-6) && near(r.y(), s * v.x() + c * v.y(), 1e-6), "whole turns change nothing");
}
fn c23_length() {
    let v = Vector::new(coord(), coord());
    let a = angle();
    check(near(v.rotate(a).norm(), v.norm(), 1e-9), "the length stays");
}

crate::harnesses! {
    h_c18_any => c18(&[], 4, &[0], &ANGLES[..2]);
    h_c18_angles => c18(&[0], 2, &[0], &ANGLES);
    h_c18_nested => c18(&[0, 4, 2, 0, 4, 3, 3, 1, 0], 2, &[5, 0, 2, 0, 5, 1, 0, 3, 0], &ANGLES[1..2]);
    h_c18_missing => c18_missing(2);
    h_c18_plant => c18_plant(2);
    h_c18_settings => c18_settings();
    t_c18_any => c18(&[], 6, &[0], &ANGLES[2..3]);
    t_c18_angles => c18(&[0], 3, &[0], &ANGLES);
    t_c18_nested => c18(&[0, 4, 2, 0, 4, 3, 3, 1, 0], 4, &[5, 0, 2, 0, 5, 1, 0, 3, 0], &ANGLES[1..3]);
    t_c18_missing => c18_missing(3);
    t_c18_plant => c18_plant(4);
    h_c18_long => c18_long(100, 60);
    h_c18_far => c18_long(600, 300);
    t_c18_long => c18_long(3000, 2000);
    h_c19_any => c19_far(10, 0);
    h_c19_any_several => c19_far(9, 4);
    t_c19_any => c19_far(19, 0);
    h_c19_far => c19_far(30, 0);
    t_c19_far => c19_far(50, 0);
    h_c19_far_several => c19_far(30, 9);
    h_c19_side => c19_side(3);
    t_c19_side => c19_side(9);
    h_c19_large => c19_large(600, 0);
    h_c19_crowd => c19_large(600, 200);
    t_c19_large => c19_large(5000, 0);
    t_c19_crowd => c19_large(5000, 1700);
    h_c19_one => c19(3, false);
    h_c19_several => c19(3, true);
    h_c19_mass => c19_mass(3, false);
    h_c19_mass_many => c19_mass(12, true);
    h_c19_mass_several => c19_mass(3, true);
    t_c19_one => c19(5, false);
    t_c19_several => c19(4, true);
    t_c19_mass => c19_mass(5, false);
    h_c20_one => c20_one(&SIZES);
    h_c20_two => c20_two(&SIZES[1..2]);
    t_c20_two => c20_two(&SIZES);
    h_c20_scaled => c20_scaled();
    h_c20_extreme => c20_extreme();
    h_c20_many => c20_many(40);
    h_c20_crowd => c20_many(300);
    h_c20_canvas => c20_canvas();
    h_c20_empty => c20_empty();
    h_c20_turtle => c20_turtle(3);
    t_c20_turtle => c20_turtle(5);
    h_c21_path => c21_path(3);
    h_c21_long => c21_long(150);
    h_c21_far => c21_long(2000);
    h_c21_crowd => c21_many(300);
    h_c21_many => c21_many(30);
    h_c21_text => c21_text(2);
    t_c21_text => c21_text(3);
    h_c21_circle => c21_circle();
    h_c21_doc => c21_doc(3);
    t_c21_path => c21_path(8);
    t_c21_doc => c21_doc(6);
    h_c22_ops => c22();
    h_c22_path => c22_path(3);
    h_c22_long => c22_long(200);
    h_c22_far => c22_long(5000);
    h_c22_get => c22_get();
    h_c22_norm => c22_norm();
    h_c22_length => c22_length();
    t_c22_path => c22_path(8);
    h_c23_small => { let v = Vector::new(coord(), coord()); c23(v, 1e-9) };
    h_c23_any => { let (x, y) = (fixed(), fixed()); c23(Vector::new(x, y), 2e-5) };
    h_c23_compose => c23_compose(6);
    t_c23_compose => c23_compose(12);
    h_c23_length => c23_length();
    h_c23_turns => c23_turns();
}
