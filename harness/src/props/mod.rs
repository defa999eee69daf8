//! The checks, one per property
use crate::cmp::{check_case, Case, Proj};
use crate::gen::{Grammar, G};
use crate::run::{Space, Stats};

mod block;
mod db;
mod feat;
mod layout;
pub mod robust;
mod size;
pub use self::size::measure;
mod sweep;
mod tree;

pub struct Check {
    pub spaces: Vec<Box<dyn Space>>,
    pub notes: Vec<String>,
}

/// Number the markers, so that every line can be told apart
pub fn number(t: &str) -> String {
    let mut out = String::with_capacity(t.len());
    let mut n = 0;
    for c in t.chars() {
        if c == '@' {
            n += 1;
            out += &n.to_string();
        } else {
            out.push(c);
        }
    }
    out
}

/// All texts of a grammar (or family), model against hastur
pub struct MkSpace {
    pub name: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64) -> String + Send + Sync>,
    pub proj: Proj,
    pub cmd_char: char,
}

impl MkSpace {
    fn case(&self, i: u64) -> Case {
        let mut c = Case::from_text(&(self.f)(i));
        c.cmd_char = self.cmd_char;
        c
    }
}

impl Space for MkSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        check_case(&self.case(i), &self.proj, st)
    }
    fn describe(&self, i: u64) -> String {
        let mut s = self.case(i).show();
        if self.cmd_char != '\t' {
            s += &format!("command character {:?}\n", self.cmd_char);
        }
        s
    }
}

/// A space over a grammar
pub fn mk(name: &str, proj: Proj, gr: &Grammar, pat: &str) -> Box<dyn Space> {
    let g = gr.g(pat);
    Box::new(MkSpace { name: name.into(), n: g.len(), f: Box::new(move |i| number(&g.get(i))), proj, cmd_char: '\t' })
}

pub fn mkc(name: &str, proj: Proj, cmd_char: char, gr: &Grammar, pat: &str) -> Box<dyn Space> {
    let g = gr.g(pat);
    Box::new(MkSpace {
        name: name.into(),
        n: g.len(),
        f: Box::new(move |i| number(&g.get(i)).replace('⇥', &cmd_char.to_string())),
        proj,
        cmd_char,
    })
}

/// A family of texts
pub fn fam(name: &str, proj: Proj, n: u64, f: impl Fn(u64) -> String + Send + Sync + 'static) -> Box<dyn Space> {
    Box::new(MkSpace { name: name.into(), n, f: Box::new(f), proj, cmd_char: '\t' })
}

pub fn check(id: &str, tier: &str) -> Check {
    let deep = tier == "thorough";
    match id {
        "SIZES" => Check { spaces: size::spaces(Proj { vars: true, flavor: true, rules: true, locs: true, sens: true, paths: true }, &[], deep), notes: vec![] },
        "SWEEP" => Check { spaces: sweep::sweep(Proj { vars: true, flavor: true, rules: true, locs: true, sens: true, paths: true }, sweep::ALL, deep), notes: vec![] },
        "C01" => feat::c01(deep),
        "C02" => feat::c02(deep),
        "C03" => feat::c03(deep),
        "C04" => feat::c04(deep),
        "C05" => feat::c05(deep),
        "C06" => block::c06(deep),
        "C12" => db::c12(deep),
        "C14" => db::c14(deep),
        "C13" => tree::c13(deep),
        "C15" => block::c15(deep),
        "C08" => layout::c08(deep),
        "C11" => robust::c11(deep),
        "C07" => feat::c07(deep),
        "C16" => feat::c16(deep),
        "C17" => feat::c17(deep),
        "C09" => feat::c09(deep),
        "C10" => feat::c10(deep),
        "C18" => feat::c18(deep),
        _ => panic!("unknown property {}", id),
    }
}

pub fn ad_hoc(_a: &[String]) -> i32 {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let c = Case::from_text(&s);
    let (m, o) = crate::cmp::run_model(&c);
    println!("model {:?}", o);
    for (k, v) in &m.vars {
        println!("{} {:?} {:?}", k, v.flavor, m.clone().pieces(&v.value).map(|x| crate::model::s(&x.0)));
    }
    for (k, r) in &m.rules {
        println!("{}: {:?}", k, r.deps.iter().map(|d| crate::model::s(&d.text)).collect::<Vec<_>>());
        for c in &r.cmds {
            println!("    {:?}", m.clone().eval(c).map(|x| crate::model::s(&x.0)));
        }
    }
    let dir = std::env::temp_dir().join(format!("hmc-adhoc-{}", std::process::id()));
    let r = check_case(&c, &Proj { vars: true, flavor: true, rules: true, locs: true, sens: true, paths: true }, &mut Stats::new(&dir));
    println!("{:?}", r);
    let _ = std::fs::remove_dir_all(&dir);
    r.is_err() as i32
}
