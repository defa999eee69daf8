//! C12 and C14: histories of operations on databases, engines and name caches
use super::Check;
use crate::cmp::{state_diff, BOTH};
use crate::imp::{guarded, Imp, Out};
use crate::model::{Model, Stop};
use crate::run::{Space, Stats};
use hastur::ast;
use hastur::source_location::{LocatedString, Location};
use hastur::{Database, FileName, Flavor, NameCache, Origin, Rule, VariableName, VariableParameters};
use std::collections::BTreeMap;
use std::rc::Rc;

// ---- C12: pure database operations ----

#[derive(Clone, Debug, PartialEq)]
struct MVar {
    flavor: Flavor,
    origin: Origin,
    /// text pieces; `Err(n)` is a reference to global `n`
    value: Vec<Result<String, &'static str>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
struct MDb {
    vars: BTreeMap<&'static str, MVar>,
    tvars: BTreeMap<(&'static str, &'static str), MVar>,
    rules: BTreeMap<&'static str, usize>,
}

impl MDb {
    fn expand(&self, v: &[Result<String, &'static str>], depth: u32) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let mut o = String::new();
        for p in v {
            match p {
                Ok(t) => o += t,
                Err(n) => {
                    if let Some(v) = self.vars.get(n) {
                        o += &self.expand(&v.value, depth + 1)?;
                    }
                }
            }
        }
        Some(o)
    }
}

const VARS: [&str; 2] = ["a", "b"];
const TARGETS: [&str; 2] = ["t", "a"];

#[derive(Clone, Copy, Debug)]
enum DbOp {
    Set(usize, usize),
    Append(usize, usize, bool),
    SetTarget(usize, usize, usize),
    Rule(usize),
}

fn db_ops() -> Vec<DbOp> {
    let mut v = vec![];
    for n in 0..2 {
        for x in 0..3 {
            v.push(DbOp::Set(n, x));
        }
        for x in [0, 2] {
            for sp in [false, true] {
                v.push(DbOp::Append(n, x, sp));
            }
        }
        for t in 0..2 {
            v.push(DbOp::SetTarget(t, n, 1));
        }
        v.push(DbOp::SetTarget(0, n, 0));
    }
    for r in 0..RULE_TEXTS.len() {
        v.push(DbOp::Rule(r));
    }
    v
}

struct Fixture {
    imp: Imp,
    rules: Vec<Rule>,
    vn: Vec<VariableName>,
    tn: Vec<FileName>,
    file: FileName,
}

const RULE_TEXTS: [(&str, &str); 4] = [("t", "t: d e\n\tc1\n"), ("t", "t:: f\n"), ("a", "a: $(b)\n\tc2\n\tc3\n"), ("a", "a:\n")];

impl Fixture {
    fn new() -> Fixture {
        let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
        let mut rules = vec![];
        for (i, (t, text)) in RULE_TEXTS.iter().enumerate() {
            assert_eq!(imp.read(text.as_bytes(), &format!("r{}.mk", i)), Out::Ok);
            let f = imp.n.file_name(t).expect("target is interned");
            rules.push(imp.e.database.get_rule(f).expect("rule is there").clone());
            imp.e.database = Default::default();
        }
        let vn = VARS.iter().map(|v| imp.n.intern_variable_name(v.to_string())).collect();
        let tn = TARGETS.iter().map(|v| imp.n.intern_file_name(v.to_string())).collect();
        let file = imp.n.intern_file_name("src.mk".into());
        Fixture { imp, rules, vn, tn, file }
    }
    fn params(&self, k: usize) -> (VariableParameters, MVar) {
        let c = |t: &str| ast::constant(LocatedString::verif_new(Location::SourceLocation { line: 3, character: 4, filename: self.file }, t.into()));
        match k {
            0 => (
                VariableParameters::verif_new(c("1"), Flavor::Recursive, Origin::File),
                MVar { flavor: Flavor::Recursive, origin: Origin::File, value: vec![Ok("1".into())] },
            ),
            1 => (
                VariableParameters::verif_new(ast::empty(), Flavor::Simple, Origin::Command),
                MVar { flavor: Flavor::Simple, origin: Origin::Command, value: vec![] },
            ),
            _ => (
                VariableParameters::verif_new(
                    ast::collapsing_concat(Location::Synthetic, vec![c("<"), ast::variable_reference(Location::Synthetic, c("b")), c(">")]),
                    Flavor::Conditional,
                    Origin::Environment,
                ),
                MVar { flavor: Flavor::Conditional, origin: Origin::Environment, value: vec![Ok("<".into()), Err("b"), Ok(">".into())] },
            ),
        }
    }
    fn apply(&self, db: &Database, m: &MDb, op: DbOp) -> (Database, MDb) {
        let mut m = m.clone();
        let d = match op {
            DbOp::Set(n, k) => {
                let (p, v) = self.params(k);
                m.vars.insert(VARS[n], v);
                db.set_variable(self.vn[n], p)
            }
            DbOp::Append(n, k, space) => {
                let (p, v) = self.params(k);
                match m.vars.get_mut(VARS[n]) {
                    Some(old) => {
                        if space {
                            old.value.push(Ok(" ".into()));
                        }
                        old.value.extend(v.value);
                    }
                    None => {
                        m.vars.insert(VARS[n], v);
                    }
                }
                db.append_to_variable(self.vn[n], Location::Synthetic, p, space)
            }
            DbOp::SetTarget(t, n, k) => {
                let (p, v) = self.params(k);
                m.tvars.insert((TARGETS[t], VARS[n]), v);
                db.set_variable_for_target(self.tn[t], self.vn[n], p)
            }
            DbOp::Rule(r) => {
                m.rules.insert(RULE_TEXTS[r].0, r);
                db.add_rule(self.rules[r].clone())
            }
        };
        (d, m)
    }
    /// Does the database hold exactly what the model says?
    fn agrees(&mut self, db: &Database, m: &MDb) -> Result<(), String> {
        let mut have: Vec<String> = db.verif_variables().into_iter().map(|v| self.imp.name(v)).collect();
        have.sort();
        let want: Vec<String> = m.vars.keys().map(|x| x.to_string()).collect();
        if have != want {
            return Err(format!("variables should be {:?}, are {:?}", want, have));
        }
        for i in 0..2 {
            let v = db.get_variable(self.vn[i]);
            if v.is_some() != m.vars.contains_key(VARS[i]) {
                return Err(format!("variable {} defined: {}", VARS[i], v.is_some()));
            }
            if let Some(v) = v {
                self.var_agrees(db, m, VARS[i], &v, &m.vars[VARS[i]])?;
            }
        }
        let mut have: Vec<(String, String)> = db
            .verif_target_variables()
            .into_iter()
            .map(|(t, v)| (self.imp.n.resolve_file_name(t).unwrap_or("?").to_string(), self.imp.name(v)))
            .collect();
        have.sort();
        let want: Vec<(String, String)> = m.tvars.keys().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if have != want {
            return Err(format!("target variables should be {:?}, are {:?}", want, have));
        }
        for (ti, t) in TARGETS.iter().enumerate() {
            for (vi, v) in VARS.iter().enumerate() {
                let got = db.get_variable_for_target(self.tn[ti], self.vn[vi]);
                match (got, m.tvars.get(&(*t, *v))) {
                    (None, None) => {}
                    (Some(g), Some(w)) => self.var_agrees(db, m, &format!("{} for {}", v, t), &g, w)?,
                    (g, w) => return Err(format!("{} for {} should be {:?}, is {:?}", v, t, w, g.is_some())),
                }
            }
        }
        for (t, f) in TARGETS.iter().zip(self.tn.iter()) {
            let got = db.get_rule(*f);
            let want = m.rules.get(t).map(|r| &self.rules[*r]);
            if got != want {
                return Err(format!("the rule for {} should be {:?}, is {:?}", t, want.map(|r| r.dependencies().len()), got));
            }
        }
        // the iteration gives each rule once
        let mut listed: Vec<&str> = db.rules().map(|r| self.imp.n.resolve_file_name(r.target_fname()).unwrap_or("?")).collect();
        listed.sort();
        let want: Vec<&str> = m.rules.keys().copied().collect();
        if listed != want {
            return Err(format!("the rules should be those of {:?}, are {:?}", want, listed));
        }
        for r in db.rules() {
            if db.get_rule(r.target_fname()) != Some(r) {
                return Err(format!("the iteration gives {:?}", r));
            }
        }
        Ok(())
    }
    fn var_agrees(&self, db: &Database, m: &MDb, what: &str, v: &hastur::Variable, w: &MVar) -> Result<(), String> {
        if (v.verif_flavor(), v.verif_origin()) != (w.flavor, w.origin) {
            return Err(format!("{} should be {:?} {:?}, is {:?} {:?}", what, w.flavor, w.origin, v.verif_flavor(), v.verif_origin()));
        }
        let want = match m.expand(&w.value, 0) {
            Some(x) => x,
            None => return Ok(()), // refers to itself
        };
        let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
        imp.n = self.imp.n.clone();
        imp.e.database = db.clone();
        let (n, e) = (&mut imp.n, &mut imp.e);
        let got = guarded(|| v.expand(n, e)).map_err(|e| format!("{}: panics {}", what, e))?;
        if got != want {
            return Err(format!("{} should expand to {:?}, expands to {:?}", what, want, got));
        }
        Ok(())
    }
}

/// All sequences of operations; with `branch`, each is applied to any of the databases so far
struct DbSpace {
    depth: u32,
    branch: bool,
}

impl DbSpace {
    fn decode(&self, mut i: u64) -> Vec<(usize, DbOp)> {
        let ops = db_ops();
        (0..self.depth as usize)
            .map(|k| {
                let bases = if self.branch { k as u64 + 1 } else { 1 };
                let b = if self.branch { (i % bases) as usize } else { k };
                i /= bases;
                let o = ops[(i % ops.len() as u64) as usize];
                i /= ops.len() as u64;
                (b, o)
            })
            .collect()
    }
}

impl Space for DbSpace {
    fn name(&self) -> String {
        format!("databases/{}-{}", if self.branch { "trees" } else { "sequences" }, self.depth)
    }
    fn len(&self) -> u64 {
        let n = db_ops().len() as u64;
        (0..self.depth as u64).map(|k| n * if self.branch { k + 1 } else { 1 }).product()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let ops = self.decode(i);
        let mut fx = Fixture::new();
        let mut dbs: Vec<(Database, MDb)> = vec![Default::default()];
        for (base, op) in ops {
            let next = fx.apply(&dbs[base].0, &dbs[base].1, op);
            dbs.push(next);
            st.transitions += 1;
            // the newest one, and its direct ancestor
            let k = dbs.len() - 1;
            for j in [base, k] {
                let (d, m) = dbs[j].clone();
                fx.agrees(&d, &m).map_err(|e| format!("after step {}, database {}: {}", k, j, e))?;
            }
        }
        for (j, (d, m)) in dbs.iter().enumerate() {
            fx.agrees(d, m).map_err(|e| format!("at the end, database {}: {}", j, e))?;
            st.digest(&format!("{:?}", m));
        }
        st.validated += 1;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        self.decode(i).iter().enumerate().map(|(k, (b, o))| format!("database {} = database {} after {:?}\n", k + 1, b, o)).collect()
    }
}

// ---- C12: histories of an engine ----

#[derive(Clone, Debug)]
enum EOp {
    Read(&'static str),
    Expand(&'static str),
    Restore(usize),
    Replace(usize),
    /// set a variable for a target
    Target(&'static str, &'static str, &'static str),
    /// set a variable without reading anything
    Set(&'static str, &'static str),
    /// the rule of a target once more, as a rule read before
    Rule(usize, &'static str),
}

const READS: [&str; 11] = [
    "a=1\n",
    "a+=2$(b)\n",
    "b:=$(c)x\nc=y\n",
    "r: d\n\tcmd $(a)\n",
    "r q: e\nbare:\n",
    "$(eval c=ev)\n$(eval q: $(c)\n)\n",
    "a=[$(eval c=late)$(eval r: late)$(c)]\n",
    "z=1\nbad line\nz=2\n",
    "ifeq ($(c),)\nc:=empty\nelse\nr: full\nendif\n",
    "r:: $(a)\n\tone\n\ttwo $(c)\n",
    "define d\nr: $(c)\n\td\nendef\n$(eval $(d))\n",
];

struct HistorySpace {
    depth: u32,
    reads: usize,
}

impl HistorySpace {
    fn choices(&self, k: u64) -> u64 {
        // reads, expansions, restoring or replacing by any of the k+1 snapshots, direct updates
        self.reads as u64 + 2 * (k + 1) + OTHERS.len() as u64
    }
    fn decode(&self, mut i: u64) -> Vec<EOp> {
        (0..self.depth as u64)
            .map(|k| {
                let c = i % self.choices(k);
                i /= self.choices(k);
                let r = self.reads as u64;
                let o = OTHERS.len() as u64;
                if c < r {
                    EOp::Read(READS[c as usize])
                } else if c < r + o {
                    OTHERS[(c - r) as usize].clone()
                } else if (c - r - o) % 2 == 0 {
                    EOp::Replace(((c - r - o) / 2) as usize)
                } else {
                    EOp::Restore(((c - r - o) / 2) as usize)
                }
            })
            .collect()
    }
}

const OTHERS: [EOp; 8] = [
    EOp::Expand("a"),
    EOp::Expand("b"),
    EOp::Target("r", "a", "for r"),
    EOp::Target("r", "a", "again"),
    EOp::Target("q", "c", "for q"),
    EOp::Set("a", "set"),
    EOp::Set("c", "set"),
    EOp::Rule(0, "r"),
];

/// Everything visible of an engine, independent of how names are numbered
fn dump(imp: &mut Imp) -> Result<String, String> {
    let mut o = String::new();
    for v in imp.var_names() {
        o += &format!("{:?} {:?}\n", v, imp.var(&v));
    }
    for (k, r) in imp.rules(true)? {
        o += &format!("{:?} {:?}\n", k, r);
    }
    for t in imp.target_vars() {
        o += &format!("{:?}\n", t);
    }
    Ok(o)
}

impl Space for HistorySpace {
    fn name(&self) -> String {
        format!("engines/histories-{}", self.depth)
    }
    fn len(&self) -> u64 {
        (0..self.depth as u64).map(|k| self.choices(k)).product()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let ops = self.decode(i);
        let files = vec![];
        let mut imps = vec![];
        // two equal engines, and one whose names are numbered differently
        for k in 0..2 {
            let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
            if k == 1 {
                for x in ["z", "c", "late", "b"] {
                    imp.n.intern_variable_name(x.into());
                    imp.n.intern_file_name(x.into());
                }
            }
            imps.push(imp);
        }
        let mut m = Model::new(Rc::new(vec![]), '\t');
        // snapshots: what the model says, and what each engine showed
        let mut snaps: Vec<(Model, Vec<(Database, String)>)> = vec![];
        let first = imps.iter_mut().map(|i| Ok((i.e.database.clone(), dump(i)?))).collect::<Result<Vec<_>, String>>()?;
        snaps.push((m.clone(), first));
        for (k, op) in ops.iter().enumerate() {
            st.transitions += 1;
            match op {
                EOp::Read(t) => {
                    let r = m.read_source(10000 + k as u16, t);
                    m.reset_depth();
                    if let Err(Stop::Unsup(w)) = r {
                        st.skip(w);
                        return Ok(());
                    }
                    for imp in imps.iter_mut() {
                        let g = imp.read(t.as_bytes(), &crate::cmp::main_name(k));
                        crate::cmp::outcome_diff(k, &r, &g)?;
                    }
                }
                EOp::Expand(n) => {
                    // expanding may have effects (through eval), which stay
                    let want = match m.vars.get(*n).cloned() {
                        None => continue,
                        Some(v) => match m.pieces(&v.value) {
                            Ok(x) => crate::model::s(&x.0),
                            Err(_) => {
                                st.skip("expansion unsupported");
                                return Ok(());
                            }
                        },
                    };
                    m.reset_depth();
                    for imp in imps.iter_mut() {
                        let id = imp.n.variable_name(n).ok_or("not interned")?;
                        let db = imp.e.database.clone();
                        let v = db.get_variable(id).ok_or(format!("{} is not defined", n))?;
                        let (nn, e) = (&mut imp.n, &mut imp.e);
                        let got = guarded(|| v.expand(nn, e))?;
                        if got != want {
                            return Err(format!("step {}: {} should expand to {:?}, expands to {:?}", k, n, want, got));
                        }
                    }
                }
                EOp::Target(t, v, x) => {
                    m.tvars.insert((t.to_string(), v.to_string()), x.to_string());
                    for imp in imps.iter_mut() {
                        let (t, v) = (imp.n.intern_file_name(t.to_string()), imp.n.intern_variable_name(v.to_string()));
                        let c = ast::constant(LocatedString::synthetic_new(x.to_string()));
                        let p = VariableParameters::verif_new(c, Flavor::Simple, Origin::File);
                        let d = imp.e.database.set_variable_for_target(t, v, p);
                        imp.e.replace_database(d);
                    }
                }
                EOp::Set(v, x) => {
                    m.set_plain(v, x);
                    for imp in imps.iter_mut() {
                        let v = imp.n.intern_variable_name(v.to_string());
                        let c = ast::constant(LocatedString::synthetic_new(x.to_string()));
                        let p = VariableParameters::verif_new(c, Flavor::Recursive, Origin::File);
                        let d = imp.e.database.set_variable(v, p);
                        imp.e.replace_database(d);
                    }
                }
                EOp::Rule(j, t) => {
                    // what the first snapshots said of that target, put into the present
                    let known = snaps.iter().skip(*j).position(|x| x.0.rules.contains_key(*t));
                    let j = match known {
                        None => continue,
                        Some(k) => j + k,
                    };
                    let r = snaps[j].0.rules[*t].clone();
                    m.rules.insert(t.to_string(), r);
                    for (imp, (d, _)) in imps.iter_mut().zip(&snaps[j].1) {
                        let f = imp.n.file_name(t).ok_or("not interned")?;
                        let r = d.get_rule(f).ok_or("the rule is gone")?.clone();
                        imp.e.database = imp.e.database.add_rule(r);
                    }
                }
                EOp::Restore(j) | EOp::Replace(j) => {
                    if *j >= snaps.len() {
                        continue;
                    }
                    let (mm, v) = snaps[*j].clone();
                    let names = (m.names.clone(), m.name_list.clone());
                    m = mm;
                    m.names = names.0;
                    m.name_list = names.1;
                    for (imp, (d, _)) in imps.iter_mut().zip(v) {
                        match op {
                            EOp::Restore(_) => imp.e.database = d,
                            _ => imp.e.replace_database(d),
                        }
                    }
                }
            }
            let now = imps.iter_mut().map(|i| Ok((i.e.database.clone(), dump(i)?))).collect::<Result<Vec<_>, String>>()?;
            if now[0].1 != now[1].1 {
                return Err(format!("step {}: equal engines differ:\n{}\n{}", k, now[0].1, now[1].1));
            }
            snaps.push((m.clone(), now));
        }
        // every snapshot still shows what it showed, and what the model says
        for (j, (mm, v)) in snaps.iter().enumerate() {
            for (imp, (d, seen)) in imps.iter_mut().zip(v) {
                let saved = std::mem::replace(&mut imp.e.database, d.clone());
                let now = dump(imp)?;
                if now != *seen {
                    return Err(format!("snapshot {} showed\n{}but now shows\n{}", j, seen, now));
                }
                let mut mm = mm.clone();
                mm.names = m.names.clone();
                mm.name_list = m.name_list.clone();
                state_diff(&mm, imp, &files, &BOTH, st).map_err(|e| format!("snapshot {}: {}", j, e))?;
                imp.e.database = saved;
            }
        }
        st.state(&m, &Ok(()));
        st.validated += 1;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        self.decode(i).iter().map(|o| format!("{:?}\n", o)).collect()
    }
}

/// Many updates: all databases on the way keep their content
struct LongSpace {
    n: u64,
}
impl Space for LongSpace {
    fn name(&self) -> String {
        "databases/many-updates".into()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut n = NameCache::default();
        let mut dbs = vec![Database::default()];
        let val = |k: u64| VariableParameters::verif_new(ast::constant(LocatedString::synthetic_new(k.to_string())), Flavor::Simple, Origin::File);
        let names: Vec<VariableName> = (0..=i).map(|k| n.intern_variable_name(format!("v{}", k))).collect();
        let t = n.intern_file_name("t".into());
        for k in 0..i {
            let d = dbs.last().unwrap();
            let next = if k % 3 == 2 { d.set_variable_for_target(t, names[k as usize], val(k)) } else { d.set_variable(names[k as usize], val(k)) };
            dbs.push(next);
        }
        st.transitions += i;
        for (j, d) in dbs.iter().enumerate() {
            let want = (0..j as u64).filter(|k| k % 3 != 2).count();
            let twant = j - want;
            if d.verif_variables().len() != want || d.verif_target_variables().len() != twant {
                return Err(format!("database {} of {} has {} and {} entries", j, i, d.verif_variables().len(), d.verif_target_variables().len()));
            }
            for k in 0..i {
                let g = d.get_variable(names[k as usize]).map(|v| v.ast().clone());
                let tg = d.get_variable_for_target(t, names[k as usize]).map(|v| v.ast().clone());
                let there = (k as usize) < j;
                let w = ast::constant(LocatedString::synthetic_new(k.to_string()));
                let (w, tw) = if !there { (None, None) } else if k % 3 == 2 { (None, Some(w)) } else { (Some(w), None) };
                if g != w || tg != tw {
                    return Err(format!("database {} of {}, entry {}", j, i, k));
                }
            }
        }
        st.validated += 1;
        st.digest(&i);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{} updates of different variables", i)
    }
}

pub fn c12(deep: bool) -> Check {
    let mut spaces: Vec<Box<dyn Space>> = vec![
        Box::new(DbSpace { depth: 3, branch: true }),
        Box::new(HistorySpace { depth: 3, reads: READS.len() }),
        Box::new(HistorySpace { depth: 4, reads: READS.len() }),
        Box::new(LongSpace { n: if deep { 500 } else { 300 } }),
    ];
    if deep {
        spaces.push(Box::new(DbSpace { depth: 4, branch: true }));
        spaces.push(Box::new(HistorySpace { depth: 5, reads: READS.len() }));
    } else {
        spaces.push(Box::new(DbSpace { depth: 4, branch: false }));
    }
    Check { spaces, notes: vec![] }
}

// ---- C14 ----

const STRINGS: [&str; 7] = ["a", "A", "a ", "é", "e\u{301}", "", "ab"];

#[derive(Clone, Copy, Debug)]
enum NOp {
    Var(usize),
    File(usize),
    /// go on with a clone, keep the original
    Fork,
    /// go on with the oldest cache that was kept
    Back,
}

struct NameSpace {
    depth: u32,
    strings: usize,
}

impl NameSpace {
    fn decode(&self, mut i: u64) -> Vec<NOp> {
        let s = self.strings as u64;
        let n = 2 * s + 2;
        (0..self.depth)
            .map(|_| {
                let c = i % n;
                i /= n;
                if c < s {
                    NOp::Var(c as usize)
                } else if c < 2 * s {
                    NOp::File((c - s) as usize)
                } else if c == 2 * s {
                    NOp::Fork
                } else {
                    NOp::Back
                }
            })
            .collect()
    }
}

#[derive(Clone, Default)]
struct MNames {
    vars: BTreeMap<usize, VariableName>,
    files: BTreeMap<usize, FileName>,
}

fn names_agree(c: &NameCache, m: &MNames, strings: usize) -> Result<(), String> {
    // lookups do not intern, so repeating them gives the same
    for _ in 0..2 {
        for (k, s) in STRINGS.iter().enumerate().take(strings) {
            if c.variable_name(s) != m.vars.get(&k).cloned() {
                return Err(format!("variable name {:?} should be {:?}, is {:?}", s, m.vars.get(&k), c.variable_name(s)));
            }
            if c.file_name(s) != m.files.get(&k).cloned() {
                return Err(format!("file name {:?} should be {:?}, is {:?}", s, m.files.get(&k), c.file_name(s)));
            }
        }
    }
    for (k, f) in &m.files {
        if c.resolve_file_name(*f) != Some(STRINGS[*k]) {
            return Err(format!("file {:?} should resolve to {:?}, resolves to {:?}", f, STRINGS[*k], c.resolve_file_name(*f)));
        }
    }
    for (k, f) in &m.vars {
        if c.verif_resolve_variable_name(*f) != Some(STRINGS[*k]) {
            return Err(format!("variable {:?} should be {:?}, is {:?}", f, STRINGS[*k], c.verif_resolve_variable_name(*f)));
        }
    }
    for (a, x) in &m.files {
        for (b, y) in &m.files {
            if (x == y) != (a == b) || (x.cmp(y) == std::cmp::Ordering::Equal) != (a == b) {
                return Err(format!("handles of {:?} and {:?} compare wrongly", STRINGS[*a], STRINGS[*b]));
            }
        }
    }
    for (a, x) in &m.vars {
        for (b, y) in &m.vars {
            if (x == y) != (a == b) || (x.cmp(y) == std::cmp::Ordering::Equal) != (a == b) {
                return Err(format!("handles of {:?} and {:?} compare wrongly", STRINGS[*a], STRINGS[*b]));
            }
        }
    }
    Ok(())
}

impl Space for NameSpace {
    fn name(&self) -> String {
        format!("names/sequences-{}x{}", self.depth, self.strings)
    }
    fn len(&self) -> u64 {
        (2 * self.strings as u64 + 2).pow(self.depth)
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut kept: Vec<(NameCache, MNames)> = vec![];
        let mut c = NameCache::default();
        let mut m = MNames::default();
        for op in self.decode(i) {
            st.transitions += 1;
            match op {
                NOp::Var(k) => {
                    let h = c.intern_variable_name(STRINGS[k].into());
                    if let Some(old) = m.vars.insert(k, h) {
                        if old != h {
                            return Err(format!("{:?} got another handle when interned again", STRINGS[k]));
                        }
                    }
                }
                NOp::File(k) => {
                    let h = c.intern_file_name(STRINGS[k].into());
                    if let Some(old) = m.files.insert(k, h) {
                        if old != h {
                            return Err(format!("{:?} got another handle when interned again", STRINGS[k]));
                        }
                    }
                }
                NOp::Fork => kept.push((c.clone(), m.clone())),
                NOp::Back => {
                    if !kept.is_empty() {
                        let (a, b) = kept.remove(0);
                        kept.push((std::mem::replace(&mut c, a), std::mem::replace(&mut m, b)));
                    }
                }
            }
            names_agree(&c, &m, self.strings)?;
        }
        for (c, m) in &kept {
            names_agree(c, m, self.strings).map_err(|e| format!("in a kept cache: {}", e))?;
        }
        st.digest(&(m.vars.keys().cloned().collect::<Vec<_>>(), m.files.keys().cloned().collect::<Vec<_>>(), kept.len()));
        st.validated += 1;
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?} of {:?}", self.decode(i), &STRINGS[..self.strings])
    }
}

/// n names, all kept apart
struct ManyNames {
    step: u64,
    n: u64,
}
impl Space for ManyNames {
    fn name(&self) -> String {
        format!("names/many-{}", self.step)
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let n = i * self.step + i;
        let mut c = NameCache::default();
        let name = |k: u64| match k % 4 {
            0 => format!("n{}", k),
            1 => format!("é{}", k / 2),
            2 => format!("N{}", k),
            _ if k > 4000 => format!("x{}", k),
            _ => "x".repeat(k as usize / 4 + 1),
        };
        let mut vs = vec![];
        let mut fs = vec![];
        for k in 0..n {
            vs.push(c.intern_variable_name(name(k)));
            fs.push(c.intern_file_name(name(n - 1 - k)));
        }
        let copy = c.clone();
        for k in 0..n {
            st.transitions += 1;
            for c in [&c, &copy] {
                if c.variable_name(&name(k)) != Some(vs[k as usize])
                    || c.file_name(&name(n - 1 - k)) != Some(fs[k as usize])
                    || c.resolve_file_name(fs[k as usize]) != Some(&name(n - 1 - k)[..])
                    || c.verif_resolve_variable_name(vs[k as usize]) != Some(&name(k)[..])
                {
                    return Err(format!("name {:?} of {} is not found again", name(k), n));
                }
            }
        }
        let mut v2 = vs.clone();
        v2.sort();
        v2.dedup();
        let mut f2 = fs.clone();
        f2.sort();
        f2.dedup();
        let distinct: std::collections::BTreeSet<String> = (0..n).map(name).collect();
        if v2.len() != distinct.len() || f2.len() != distinct.len() {
            return Err(format!("{} names have {} and {} handles", distinct.len(), v2.len(), f2.len()));
        }
        st.validated += 1;
        st.digest(&n);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{} names", i * self.step + i)
    }
}

/// Every pair of strings out of a list, however alike, are different names
struct Alike {
    name: &'static str,
    strings: Vec<String>,
}
impl Alike {
    /// What might be confused with one another
    fn characters() -> Vec<String> {
        let mut v: Vec<String> = vec!["".into(), "a".into(), "b".into(), "ab".into()];
        let mut cs = super::sweep::characters();
        cs.extend("\u{1}\u{2}\u{3}".chars());
        for c in cs {
            for t in [
                format!("{}", c),
                format!("{}{}", c, c),
                format!("a{}", c),
                format!("{}a", c),
                format!("a{}b", c),
                format!("a{}{}b", c, c),
                format!("{}{}a", c, c),
                format!("a{}{}", c, c),
                format!("a\\{}b", c),
                format!("{}a{}", c, c),
                format!("./a{}", c),
                format!("a/{}b", c),
                format!(" {}", c),
                format!("a{}/b", c),
            ] {
                v.push(t);
            }
        }
        for t in "./a ././a .//a a/. a/.. a/../a a/./a a/./b a/b/ a//b a/b a///b /a //a /./a /../a ../a ..//a ../../a ~/a ~a ~ . .. / // ./ ../ $(a) ${a} $a $$a %a a% %.a a:b a::b a=b (a) {a} \"a\" 'a' a,b a;b a|b &a a& a.o a.O A.o a.c a.cc A á À à Á ß ss SS ﬁ fi Å Å Ω Ω K K İ i̇ ı I i ǆ ǅ Ǆ dž 1 01 1.0 +1 -1 0x1 １ a*b a?b [a] a[b] \\a a\\ a\\\\ #a a# a!b".split(' ') {
            v.push(t.into());
        }
        v.sort();
        v.dedup();
        v
    }
    fn long(deep: bool) -> Vec<String> {
        let mut v = vec![];
        let mut ls: Vec<usize> = (14..18).chain(30..34).chain(62..67).chain(126..131).chain(253..260).collect();
        ls.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537].iter());
        if deep {
            ls.extend(1000..1100);
            ls.extend([10000, 100000, 1048576, 1048577].iter());
        }
        for l in ls {
            let b = "x".repeat(l);
            for at in [0, l / 2, l - 1] {
                for c in ["y", " ", "X"] {
                    v.push(b[..at].to_string() + c + &b[at + 1..]);
                }
            }
            v.push("é".repeat(l / 2));
            v.push(b);
        }
        v.sort();
        v.dedup();
        v
    }
}
impl Space for Alike {
    fn name(&self) -> String {
        self.name.into()
    }
    /// one string at a time, against all others in one cache
    fn len(&self) -> u64 {
        self.strings.len() as u64
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let short = |s: &str| if s.len() < 80 { format!("{:?}", s) } else { format!("{:?}… of {} bytes", s.chars().take(20).collect::<String>(), s.len()) };
        let s = &self.strings[i as usize];
        // alone: nothing but itself is found, in either of the two kinds of names
        let mut c = NameCache::default();
        let mut f = NameCache::default();
        let h = c.intern_variable_name(s.clone());
        let g = f.intern_file_name(s.clone());
        for t in &self.strings {
            st.transitions += 2;
            let (want, fwant) = if t == s { (Some(h), Some(g)) } else { (None, None) };
            if c.variable_name(t) != want || f.file_name(t) != fwant {
                return Err(format!("{} {} found when only {} is interned", short(t), if t == s { "is not" } else { "is" }, short(s)));
            }
            if c.file_name(t).is_some() || f.variable_name(t).is_some() {
                return Err(format!("{} is found among names of the other kind", short(t)));
            }
        }
        if f.resolve_file_name(g) != Some(&s[..]) || c.verif_resolve_variable_name(h) != Some(&s[..]) {
            return Err(format!("{} does not resolve to itself", short(s)));
        }
        // then all others, starting with a different one each time
        let n = self.strings.len();
        let mut hs = vec![None; n];
        for k in 0..n {
            let k = (i as usize + k) % n;
            let t = &self.strings[k];
            if t != s && (c.variable_name(t).is_some() || f.file_name(t).is_some()) {
                return Err(format!("{} is found before it is interned", short(t)));
            }
            hs[k] = Some((c.intern_variable_name(t.clone()), f.intern_file_name(t.clone())));
            st.transitions += 2;
        }
        if hs[i as usize] != Some((h, g)) {
            return Err(format!("{} changed its handles", short(s)));
        }
        let mut vs: Vec<_> = hs.iter().map(|x| x.unwrap().0).collect();
        let mut fs: Vec<_> = hs.iter().map(|x| x.unwrap().1).collect();
        for (k, t) in self.strings.iter().enumerate() {
            if c.variable_name(t) != Some(vs[k]) || f.file_name(t) != Some(fs[k]) {
                return Err(format!("{} is not found again", short(t)));
            }
            if f.resolve_file_name(fs[k]) != Some(&t[..]) || c.verif_resolve_variable_name(vs[k]) != Some(&t[..]) {
                return Err(format!("{} does not resolve to itself, with all others there", short(t)));
            }
        }
        vs.sort();
        vs.dedup();
        fs.sort();
        fs.dedup();
        if vs.len() != n || fs.len() != n {
            return Err(format!("{} names have {} and {} handles", n, vs.len(), fs.len()));
        }
        st.validated += 1;
        st.digest(s);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?} and {} others", self.strings[i as usize], self.strings.len() - 1)
    }
}

/// Names met while reading
struct ReadNames {
    name: String,
    n: u64,
    f: Box<dyn Fn(u64) -> String + Send + Sync>,
}
impl Space for ReadNames {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let case = crate::cmp::Case::from_text(&(self.f)(i));
        let (m, outs) = crate::cmp::run_model(&case);
        st.transitions += m.steps;
        if let Some(Err(Stop::Unsup(w))) = outs.last() {
            st.skip(w);
            return Ok(());
        }
        st.state(&m, outs.last().unwrap());
        let dir = st.scratch(&case.files)?;
        let mut imp = Imp::new(&dir, '\t');
        // names interned beforehand keep their handles
        let early: Vec<(String, VariableName, FileName)> = ["zz", "a", "A", "d1", "t"]
            .iter()
            .map(|s| (s.to_string(), imp.n.intern_variable_name(s.to_string()), imp.n.intern_file_name(s.to_string())))
            .collect();
        for (k, t) in case.mains.iter().enumerate() {
            let got = imp.read(t.as_bytes(), &crate::cmp::main_name(k));
            crate::cmp::outcome_diff(k, &outs[k], &got)?;
            let f = imp.n.file_name(&crate::cmp::main_name(k)).ok_or("the name of the makefile is not interned")?;
            if imp.n.resolve_file_name(f) != Some(&crate::cmp::main_name(k)[..]) {
                return Err("the name of the makefile does not resolve".into());
            }
        }
        st.validated += 1;
        for (s, v, f) in &early {
            if imp.n.variable_name(s) != Some(*v) || imp.n.file_name(s) != Some(*f) {
                return Err(format!("{:?} changed its handle", s));
            }
        }
        let db = imp.e.database.clone();
        // every variable and every looked up name is interned under its text
        for n in m.vars.keys().chain(m.name_list.iter()) {
            let h = imp.n.variable_name(n).ok_or(format!("variable {:?} is not interned", n))?;
            if imp.n.verif_resolve_variable_name(h) != Some(n) {
                return Err(format!("the handle of {:?} is that of {:?}", n, imp.n.verif_resolve_variable_name(h)));
            }
            if db.get_variable(h).is_some() != m.vars.contains_key(n) {
                return Err(format!("variable {:?} defined: {}", n, !m.vars.contains_key(n)));
            }
            // nothing similar is
            for other in [format!("{} ", n), format!(" {}", n), n.to_uppercase(), n.to_lowercase(), n.trim().to_string(), format!("$({})", n), format!("{}\r", n), format!("\u{feff}{}", n), n.trim_start_matches('\u{feff}').to_string()] {
                if !m.vars.contains_key(&other) {
                    if let Some(h) = imp.n.variable_name(&other) {
                        if db.get_variable(h).is_some() {
                            return Err(format!("{:?} is defined, but only {:?} should be", other, n));
                        }
                    }
                }
            }
        }
        for (t, r) in &m.rules {
            let h = imp.n.file_name(t).ok_or(format!("target {:?} is not interned", t))?;
            let got = db.get_rule(h).ok_or(format!("no rule is found for {:?}", t))?;
            if got.target_fname() != h || got.target().into_string() != *t {
                return Err(format!("the rule found for {:?} is that of {:?}", t, got.target().into_string()));
            }
            for d in &r.deps {
                let d = crate::model::s(&d.text);
                let h = imp.n.file_name(&d).ok_or(format!("dependency {:?} is not interned", d))?;
                if !got.verif_dep_names().contains(&h) {
                    return Err(format!("dependency {:?} of {:?} has another handle", d, t));
                }
                if imp.n.resolve_file_name(h) != Some(&d[..]) {
                    return Err(format!("dependency {:?} does not resolve to itself", d));
                }
            }
        }
        // nor is anything else found under the name of a similar file
        for t in m.rules.keys() {
            for other in [format!("./{}", t), format!("{}/", t), format!("{} ", t), format!("{}\r", t), t.trim_start_matches("./").to_string(), t.replace("//", "/"), t.to_uppercase(), t.to_lowercase(), t.trim_start_matches('\u{feff}').to_string()] {
                if !m.rules.contains_key(&other) {
                    if let Some(h) = imp.n.file_name(&other) {
                        if db.get_rule(h).is_some() {
                            return Err(format!("a rule is found for {:?}, but only {:?} should have one", other, t));
                        }
                    }
                }
            }
        }
        imp.rules(false)?;
        let mut names: Vec<String> = m.vars.keys().cloned().collect();
        names.sort();
        if names != imp.var_names() {
            return Err(format!("variables should be {:?}, are {:?}", names, imp.var_names()));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        crate::cmp::Case::from_text(&(self.f)(i)).show()
    }
}

pub fn c14(deep: bool) -> Check {
    let gr = crate::gen::Grammar::new(&[
        ("N", "a¦A¦é¦É¦e\u{301}¦a.b¦a-b¦$(n)¦x$(n)y¦$(n)$(n)¦a$(u)b¦日本¦a/../b¦%¦@¦1¦a,b"),
        ("F", "t¦T¦é¦É¦./t¦a/b¦a//b¦$(n)¦x$(n).o¦$(l)¦a\\ b¦t$(u)¦日本¦a%b¦a\\:b¦,¦a$$b"),
        ("N2", if deep { "a¦A¦é¦$(n)¦x$(n)y¦a$(u)b¦日本¦a,b" } else { "a¦A¦é¦$(n)¦a$(u)b" }),
        ("F2", if deep { "t¦T¦é¦./t¦$(n)¦$(l)¦a\\ b¦日本¦a%b" } else { "t¦T¦é¦$(l)¦a\\ b¦日本" }),
        ("REF", "$(‹N›)¦${‹N›}¦$($(n))¦$(‹N›:a=b)"),
        ("ENV", "n=nm\nl=l1 L1\nnm=inner\n"),
    ]);
    let r = |name: &str, p: &str| -> Box<dyn Space> { 
        let g = gr.g(p);
        Box::new(ReadNames { name: name.into(), n: g.len(), f: Box::new(move |i| super::number(&g.get(i))) })
    };
    let mut spaces: Vec<Box<dyn Space>> = vec![
        Box::new(NameSpace { depth: if deep { 6 } else { 5 }, strings: if deep { 4 } else { 3 } }),
        Box::new(NameSpace { depth: 4, strings: 7 }),
        Box::new(ManyNames { step: 13, n: if deep { 400 } else { 120 } }),
        Box::new(ManyNames { step: 8192, n: if deep { 40 } else { 12 } }),
        Box::new(Alike { name: "names/alike", strings: Alike::characters() }),
        Box::new(Alike { name: "names/long", strings: Alike::long(deep) }),
        r("names/assigned", "‹ENV›‹N›«¦ ¦\t»«=¦:=¦?=¦+=»1\n‹N›=2\nz=$(‹N›)\n"),
        r("names/referenced", "‹ENV›z:=‹REF›\ny:=‹REF›x\n"),
        r("names/defined", "‹ENV›define ‹N›«¦ =¦ :=»\nv\nendef\n$(eval ‹N›=1)\n"),
        r("names/targets", "‹ENV›‹F› ‹F›: ‹F›\n\tc\n‹F›: d1\n"),
        r("names/dependencies", "‹ENV›t: ‹F› ‹F›\nt: ‹F›\n"),
        r("names/two-readings", "‹ENV›‹N2›=1\n‹F2›: ‹F2›\n\u{2}‹N2›+=2\n‹F2›: x\n"),
    ];
    for (name, n, f) in super::sweep::texts(super::sweep::ALL, deep) {
        spaces.push(Box::new(ReadNames { name: name.into(), n, f }));
    }
    for (name, shapes) in super::size::GROUPS {
        if ["variables", "rules", "includes", "defines"].contains(name) {
            for (name, n, f) in super::size::texts(name, shapes, deep) {
                spaces.push(Box::new(ReadNames { name, n, f }));
            }
        }
    }
    Check { spaces, notes: vec![] }
}
