//! Helpers and reference models shared by the harnesses.
use crate::rsx::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

pub fn pstr(c: &[u32]) -> ProductionString {
    ProductionString::from(c.iter().map(|x| Symbol::from_code(*x)).collect::<Vec<_>>())
}
pub fn codes(s: &ProductionString) -> Vec<u32> { s.symbols().iter().map(|x| x.code()).collect() }
/// n arbitrary symbols among k codes
pub fn letters(n: usize, k: usize) -> Vec<u32> { (0..n).map(|_| letter(k)).collect() }
pub fn letter(k: usize) -> u32 { 1 + below(k) as u32 }

#[derive(Clone, Debug)]
pub struct Rule {
    pub pre: Option<Vec<u32>>,
    pub target: u32,
    pub post: Option<Vec<u32>>,
    pub body: Vec<u32>,
}
impl Rule {
    pub fn plain(target: u32, body: &[u32]) -> Rule { Rule { pre: None, target, post: None, body: body.to_vec() } }
    pub fn ctx(pre: &[u32], target: u32, post: &[u32], body: &[u32]) -> Rule {
        let o = |x: &[u32]| if x.is_empty() { None } else { Some(x.to_vec()) };
        Rule { pre: o(pre), target, post: o(post), body: body.to_vec() }
    }
    pub fn head(&self) -> ProductionHead {
        ProductionHead::build(self.pre.as_deref().map(pstr), Symbol::from_code(self.target), self.post.as_deref().map(pstr)).unwrap()
    }
    pub fn production(&self) -> Production { Production::new(self.head(), ProductionBody::new(pstr(&self.body))) }
    /// the definition of a match
    pub fn matches(&self, s: &[u32], i: usize) -> bool {
        if i >= s.len() || s[i] != self.target { return false }
        if let Some(p) = &self.pre {
            if p.len() > i { return false }
            for k in 0..p.len() { if s[i - p.len() + k] != p[k] { return false } }
        }
        if let Some(p) = &self.post {
            if p.len() > s.len() - i - 1 { return false }
            for k in 0..p.len() { if s[i + 1 + k] != p[k] { return false } }
        }
        true
    }
}
/// the definition of one parallel rewriting step with single-bodied rules
pub fn step(rules: &[Rule], s: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    for i in 0..s.len() {
        match rules.iter().find(|r| r.matches(s, i)) {
            Some(r) => out.extend_from_slice(&r.body),
            None => out.push(s[i]),
        }
    }
    out
}
pub fn same(a: &[u32], b: &[u32], l: &str) {
    check(a.len() == b.len(), l);
    let mut eq = true;
    for i in 0..a.len() { eq &= a[i] == b[i] }
    check(eq, l);
}
/// a context of a chosen shape: absent, or 0..=max arbitrary symbols
pub fn context(max: usize, k: usize) -> Option<Vec<u32>> {
    match pick(max + 2) { 0 => None, n => Some(letters(n - 1, k)) }
}
