//! Finite grammars: every text of a space has an index, and the whole space is walked.
//!
//! Pattern syntax: `«a¦b¦c»` alternatives, `«…»*m-n;` repetition, `‹NAME›` a named pattern.
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum K {
    Lit(String),
    Alt(Vec<G>),
    Seq(Vec<G>),
    Rep(Box<G>, u32, u32),
}

#[derive(Clone, Debug)]
pub struct G {
    k: K,
    n: u64,
}

impl G {
    fn lit(s: String) -> G {
        G { k: K::Lit(s), n: 1 }
    }
    pub fn alt(v: Vec<G>) -> G {
        let n = v.iter().map(|g| g.n).sum();
        G { k: K::Alt(v), n }
    }
    pub fn seq(v: Vec<G>) -> G {
        let n = v.iter().fold(1u64, |a, g| a.checked_mul(g.n).expect("space too large"));
        G { k: K::Seq(v), n }
    }
    pub fn rep(g: G, a: u32, b: u32) -> G {
        let mut n = 0u64;
        for i in a..=b {
            n += g.n.checked_pow(i).expect("space too large");
        }
        G { k: K::Rep(Box::new(g), a, b), n }
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn emit(&self, mut i: u64, out: &mut String) {
        match &self.k {
            K::Lit(s) => out.push_str(s),
            K::Alt(v) => {
                for g in v {
                    if i < g.n {
                        return g.emit(i, out);
                    }
                    i -= g.n;
                }
                panic!("index out of range");
            }
            K::Seq(v) => {
                // the first element varies slowest
                let mut rest = self.n;
                for g in v {
                    rest /= g.n;
                    g.emit(i / rest, out);
                    i %= rest;
                }
            }
            K::Rep(g, a, b) => {
                for l in *a..=*b {
                    let n = g.n.pow(l);
                    if i < n {
                        let mut rest = n;
                        for _ in 0..l {
                            rest /= g.n;
                            g.emit(i / rest, out);
                            i %= rest;
                        }
                        return;
                    }
                    i -= n;
                }
                panic!("index out of range");
            }
        }
    }
    pub fn get(&self, i: u64) -> String {
        let mut s = String::new();
        self.emit(i, &mut s);
        s
    }
}

pub struct Grammar {
    defs: HashMap<String, G>,
}

impl Grammar {
    pub fn new(defs: &[(&str, &str)]) -> Grammar {
        let mut g = Grammar { defs: HashMap::new() };
        for (n, p) in defs {
            let v = g.g(p);
            g.defs.insert(n.to_string(), v);
        }
        g
    }
    pub fn g(&self, pat: &str) -> G {
        let c: Vec<char> = pat.chars().collect();
        let mut p = 0;
        let r = self.alts(&c, &mut p);
        assert!(p == c.len(), "bad pattern {:?} at {}", pat, p);
        r
    }
    fn alts(&self, c: &[char], p: &mut usize) -> G {
        let mut v = vec![self.sequence(c, p)];
        while *p < c.len() && c[*p] == '¦' {
            *p += 1;
            v.push(self.sequence(c, p));
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            G::alt(v)
        }
    }
    fn sequence(&self, c: &[char], p: &mut usize) -> G {
        let mut v = vec![];
        let mut lit = String::new();
        while *p < c.len() && c[*p] != '¦' && c[*p] != '»' {
            let g = match c[*p] {
                '«' => {
                    *p += 1;
                    let g = self.alts(c, p);
                    assert!(c[*p] == '»');
                    *p += 1;
                    g
                }
                '‹' => {
                    let e = c[*p..].iter().position(|x| *x == '›').expect("unclosed name") + *p;
                    let name: String = c[*p + 1..e].iter().collect();
                    *p = e + 1;
                    self.defs.get(&name).unwrap_or_else(|| panic!("no pattern {}", name)).clone()
                }
                x => {
                    lit.push(x);
                    *p += 1;
                    continue;
                }
            };
            if !lit.is_empty() {
                v.push(G::lit(std::mem::take(&mut lit)));
            }
            let mut g = g;
            if *p < c.len() && c[*p] == '*' {
                let e = c[*p..].iter().position(|x| *x == ';').expect("unclosed repetition") + *p;
                let s: String = c[*p + 1..e].iter().collect();
                let (a, b) = match s.split_once('-') {
                    Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                    None => (s.parse().unwrap(), s.parse().unwrap()),
                };
                *p = e + 1;
                g = G::rep(g, a, b);
            }
            v.push(g);
        }
        if !lit.is_empty() || v.is_empty() {
            v.push(G::lit(lit));
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            G::seq(v)
        }
    }
}

pub fn g(pat: &str) -> G {
    Grammar::new(&[]).g(pat)
}
