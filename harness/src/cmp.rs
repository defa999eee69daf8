//! One case: makefiles (and files to include), read by the model and by hastur, and compared
use crate::imp::{loc_matches, Path, Imp, Out, TextObs};
use crate::model::{self, Flavor as MF, Mask, Model, Stop, Text, TC};
use crate::run::Stats;
use std::collections::BTreeSet;
use std::rc::Rc;

/// Stands for the directory of the files
pub const DIR: char = '¤';

/// `\u{3}directory to read in\u{3} main1 \u{2} main2 … \u{1}name\ncontent \u{1}!missing-name`
/// and `\u{1}^1name\ncontent`, `\u{1}^1!name` for what becomes of a file before main2 is read
pub struct Case {
    pub mains: Vec<String>,
    pub files: model::Files,
    /// before reading which main; to what content
    pub changes: Vec<(usize, String, Option<String>)>,
    pub cmd_char: char,
    pub root: String,
    pub cwd: String,
}

impl Case {
    pub fn from_text(t: &str) -> Case {
        let (cwd, t) = match t.strip_prefix('\u{3}') {
            Some(x) => x.split_once('\u{3}').map(|(a, b)| (a.to_string(), b)).expect("directory"),
            None => (String::new(), t),
        };
        let mut parts = t.split('\u{1}');
        let mains = parts.next().unwrap().split('\u{2}').map(|x| x.to_string()).collect();
        let mut files = model::Files::new();
        let mut changes = vec![];
        let entry = |p: &str| {
                if let Some(n) = p.strip_prefix('!') {
                    (n.to_string(), None)
                } else {
                    let (n, c) = p.split_once('\n').expect("file needs a name");
                    (n.to_string(), Some(c.to_string()))
                }
        };
        for p in parts {
            if let Some(p) = p.strip_prefix('^') {
                let (n, c) = entry(&p[1..]);
                changes.push((p[..1].parse().expect("number of a main"), n, c));
            } else {
                files.push(entry(p));
            }
        }
        for (_, n, _) in &changes {
            assert!(files.iter().any(|f| &f.0 == n), "a file that changes is to be named before");
        }
        Case { mains, files, changes, cmd_char: '\t', root: String::new(), cwd }
    }
    /// Put in the real directory
    fn rooted(&self, dir: &std::path::Path) -> Option<Case> {
        let has = |t: &String| t.contains(DIR);
        if !self.mains.iter().any(has) && !self.files.iter().any(|f| f.1.as_ref().map_or(false, has)) {
            return None;
        }
        let dir = dir.to_str().expect("harness: scratch directory");
        let put = |t: &String| t.replace(DIR, dir);
        Some(Case {
            mains: self.mains.iter().map(put).collect(),
            files: self.files.iter().map(|(n, c)| (n.clone(), c.as_ref().map(put))).collect(),
            changes: self.changes.clone(),
            cmd_char: self.cmd_char,
            root: dir.to_string(),
            cwd: self.cwd.clone(),
        })
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if !self.cwd.is_empty() {
            s += &format!("in the directory {:?}\n", self.cwd);
        }
        for (i, m) in self.mains.iter().enumerate() {
            s += &format!("main{}.mk {:?}\n", i, m);
        }
        for (n, c) in &self.files {
            s += &format!("{} {:?}\n", n, c);
        }
        for (i, n, c) in &self.changes {
            s += &format!("before {}, {} {:?}\n", main_name(*i), n, c);
        }
        s
    }
    /// The files when that main is read
    fn files_at(&self, i: usize) -> model::Files {
        let mut files = self.files.clone();
        for (k, n, c) in &self.changes {
            if *k <= i {
                files.iter_mut().find(|f| &f.0 == n).unwrap().1 = c.clone();
            }
        }
        files
    }
}

/// What of the observations a property is about
#[derive(Clone, Copy)]
pub struct Proj {
    pub vars: bool,
    pub flavor: bool,
    pub rules: bool,
    pub locs: bool,
    pub sens: bool,
    pub paths: bool,
}

pub const VARS: Proj = Proj { vars: true, flavor: true, rules: false, locs: false, sens: false, paths: false };
pub const RULES: Proj = Proj { vars: false, flavor: false, rules: true, locs: false, sens: false, paths: false };
pub const BOTH: Proj = Proj { vars: true, flavor: true, rules: true, locs: false, sens: false, paths: false };
pub const LOCS: Proj = Proj { vars: true, flavor: false, rules: true, locs: true, sens: false, paths: false };
pub const SENS: Proj = Proj { vars: true, flavor: false, rules: true, locs: false, sens: true, paths: false };

pub const PATHS: Proj = Proj { vars: true, flavor: false, rules: true, locs: false, sens: false, paths: true };

pub fn model_flavor(f: MF) -> hastur::Flavor {
    match f {
        MF::Recursive => hastur::Flavor::Recursive,
        MF::Simple => hastur::Flavor::Simple,
        MF::Conditional => hastur::Flavor::Conditional,
    }
}

pub fn main_name(i: usize) -> String {
    format!("main{}.mk", i)
}

fn file_name(m: &Model, f: u16) -> String {
    if f >= 10000 {
        main_name(f as usize - 10000)
    } else {
        m.written[f as usize].clone()
    }
}

pub enum Sens {
    None,
    Exact(Mask),
    Between(Mask, Mask),
}

/// Compare one expanded text
pub fn text_diff(
    m: &Model,
    files: &model::Files,
    what: &str,
    want: &[TC],
    sens: Sens,
    got: &TextObs,
    p: &Proj,
) -> Result<(), String> {
    let w = model::s(want);
    if w != got.text {
        return Err(format!("{}: text should be {:?}, is {:?}", what, w, got.text));
    }
    if p.locs {
        let name = |f: u16| file_name(m, f);
        for (i, (a, b)) in want.iter().zip(got.locs.iter()).enumerate() {
            let mut ok = loc_matches(a.l, b, &name);
            if !ok && a.c == '$' {
                // an escaped dollar may be located at either of the two
                if let model::Loc::At(f, l, c) = a.l {
                    ok = c > 1 && loc_matches(model::Loc::At(f, l, c - 1), b, &name);
                }
            }
            if !ok {
                return Err(format!(
                    "{}: character {} ({:?}) of {:?} should be located at {:?} ({}), is at {:?}",
                    what,
                    i,
                    a.c,
                    w,
                    a.l,
                    match a.l {
                        model::Loc::At(f, ..) => name(f),
                        _ => "synthetic".into(),
                    },
                    b
                ));
            }
        }
    }
    if p.paths {
        let mut same = Same::new();
        for (i, (a, b)) in want.iter().zip(got.paths.iter()).enumerate() {
            if let Err(e) = path_diff(m, a.path, b, &mut same) {
                return Err(format!("{}: character {} ({:?}) of {:?}: {}", what, i, a.c, w, e));
            }
        }
    }
    if p.sens && !m.too_many_names {
        match sens {
            Sens::None => {}
            Sens::Exact(mask) => {
                let want: BTreeSet<String> = m.mask_names(mask).into_iter().collect();
                if want != got.sens {
                    return Err(format!("{}: sensitivity should be {:?}, is {:?}", what, want, got.sens));
                }
            }
            Sens::Between(lo, hi) => {
                let l: BTreeSet<String> = m.mask_names(lo).into_iter().collect();
                let h: BTreeSet<String> = m.mask_names(hi).into_iter().collect();
                if !l.is_subset(&got.sens) || !got.sens.is_subset(&h) {
                    return Err(format!(
                        "{}: sensitivity should include {:?} and be within {:?}, is {:?}",
                        what, l, h, got.sens
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Those known to agree
type Same = std::collections::HashSet<(u32, *const crate::imp::IStep)>;

/// Compare the references a character came through
fn path_diff(m: &Model, mut want: u32, got: &Path, same: &mut Same) -> Result<(), String> {
    let mut got = got;
    let mut way = vec![];
    loop {
        let g = match (want, got) {
            (0, None) => break,
            (0, Some(g)) => return Err(format!("should not come through {} {:?}", g.kind, itext(&g.name))),
            (w, None) => return Err(format!("should come through a reference to {:?}", model::s(&model::step(w).name))),
            (_, Some(g)) => g,
        };
        if same.contains(&(want, Rc::as_ptr(g))) {
            break;
        }
        way.push((want, Rc::as_ptr(g)));
        let w = model::step(want);
        let kind = if w.subst.is_some() { "substitution" } else { "reference" };
        if g.kind != kind {
            return Err(format!("should come through {} {:?}, comes through {} {:?}", kind, model::s(&w.name), g.kind, itext(&g.name)));
        }
        let none = (vec![], vec![]);
        let (key, rep) = w.subst.as_ref().unwrap_or(&none);
        for (part, a, b) in [("name", &w.name, &g.name), ("key", key, &g.key), ("replacement", rep, &g.rep)] {
            let what = || format!("the {} of the {} it comes through", part, kind);
            if model::s(a) != itext(b) {
                return Err(format!("{} should be {:?}, is {:?}", what(), model::s(a), itext(b)));
            }
            for (x, y) in a.iter().zip(b.iter()) {
                let name = |f: u16| file_name(m, f);
                let dollar = x.c == '$' && matches!(x.l, model::Loc::At(f, l, c) if c > 1 && loc_matches(model::Loc::At(f, l, c - 1), &y.l, &name));
                if !dollar && !loc_matches(x.l, &y.l, &name) {
                    return Err(format!("{} {:?} should be written at {:?}, is at {:?}", what(), model::s(a), x.l, y.l));
                }
                path_diff(m, x.path, &y.path, same).map_err(|e| format!("{} {:?}: {}", what(), model::s(a), e))?;
            }
        }
        want = w.tail;
        got = &g.tail;
    }
    same.extend(way);
    Ok(())
}

fn itext(t: &[crate::imp::IChar]) -> String {
    t.iter().map(|x| x.c).collect()
}

pub fn taints(t: &Text) -> Mask {
    t.iter().fold(0, |a, x| a | x.taint)
}

/// Compare the databases
pub fn state_diff(m: &Model, imp: &mut Imp, files: &model::Files, p: &Proj, st: &mut Stats) -> Result<(), String> {
    let want: Vec<String> = m.vars.keys().cloned().collect();
    let got = imp.var_names();
    if p.vars && want != got {
        return Err(format!("defined variables should be {:?}, are {:?}", want, got));
    }
    if p.vars {
        let want: Vec<(String, String)> = m.tvars.keys().cloned().collect();
        let got: Vec<(String, String)> = imp.target_vars().into_iter().map(|x| x.0).collect();
        if want != got {
            return Err(format!("target variables should be {:?}, are {:?}", want, got));
        }
        for ((k, v), (_, g)) in m.tvars.iter().zip(imp.target_vars()) {
            if Ok(v) != g.as_ref() {
                return Err(format!("the value of {:?} should be {:?}, is {:?}", k, v, g));
            }
        }
    }
    if p.vars {
        for (name, v) in &m.vars {
            let mut mm = m.clone();
            let expansion = mm.pieces(&v.value);
            let (f, o) = match imp.var_kind(name) {
                None => return Err(format!("variable {:?} is listed but not found", name)),
                Some(x) => x,
            };
            if p.flavor && f != model_flavor(v.flavor) {
                return Err(format!("variable {:?} should be {:?}, is {:?}", name, v.flavor, f));
            }
            if p.flavor && o != hastur::Origin::File {
                return Err(format!("variable {:?} should come from a file, is {:?}", name, o));
            }
            if let Err(Stop::Unsup(w)) = expansion {
                // not expanded for real either, since that may never end
                st.skip(if w == "recursion" { "endless recursion" } else { "expansion unsupported" });
                continue;
            }
            let (_, _, t) = imp.var(name).ok_or("variable vanished")?;
            let what = format!("variable {:?}", name);
            match expansion {
                Ok((want, mask)) => {
                    let t = t.map_err(|e| format!("{}: expansion panics: {}", what, e))?;
                    text_diff(&mm, files, &what, &want, Sens::Exact(mask), &t, p)?;
                }
                Err(_) => st.skip("expansion unsupported"),
            }
        }
    }
    if p.rules {
        let got = imp.rules(false)?;
        let want: Vec<&String> = m.rules.keys().collect();
        let have: Vec<&String> = got.keys().collect();
        if want != have {
            return Err(format!("rules should be for {:?}, are for {:?}", want, have));
        }
        for (name, r) in &m.rules {
            let g = &got[name];
            if r.double != g.double {
                return Err(format!("rule {:?}: double colon should be {}", name, r.double));
            }
            let sens = |n: &model::Name| Sens::Between(taints(&n.text), n.upper);
            text_diff(m, files, &format!("target {:?}", name), &r.target.text, sens(&r.target), &g.target, p)?;
            let wd: Vec<String> = r.deps.iter().map(|d| model::s(&d.text)).collect();
            let gd: Vec<String> = g.deps.iter().map(|d| d.text.clone()).collect();
            if wd != gd {
                return Err(format!("rule {:?}: dependencies should be {:?}, are {:?}", name, wd, gd));
            }
            for (d, gd) in r.deps.iter().zip(g.deps.iter()) {
                text_diff(m, files, &format!("dependency {:?} of {:?}", gd.text, name), &d.text, sens(d), gd, p)?;
            }
            let db = imp.e.database.clone();
            let rule = db.get_rule(imp.n.file_name(name).unwrap()).unwrap();
            let cmds = rule.recipe().commands();
            if cmds.len() != r.cmds.len() {
                return Err(format!("rule {:?}: should have {} commands, has {}", name, r.cmds.len(), cmds.len()));
            }
            for (i, (c, gc)) in r.cmds.iter().zip(cmds.iter()).enumerate() {
                let mut mm = m.clone();
                let what = format!("command {} of {:?}", i, name);
                match mm.eval(c) {
                    Ok((t, mask)) => {
                        let o = imp.eval(gc.verif_ast()).map_err(|e| format!("{}: panics: {}", what, e))?;
                        text_diff(&mm, files, &what, &t, Sens::Exact(mask), &o, p)?;
                    }
                    Err(_) => st.skip("expansion unsupported"),
                }
            }
        }
    }
    Ok(())
}

/// What the model says about reading each main
pub fn run_model(case: &Case) -> (Model, Vec<Result<(), Stop>>) {
    let mut m = Model::new(Rc::new(case.files.clone()), case.cmd_char);
    m.root = case.root.clone();
    m.cwd = case.cwd.clone();
    let mut outs = vec![];
    for (i, t) in case.mains.iter().enumerate() {
        if !case.changes.is_empty() {
            m.files = Rc::new(case.files_at(i));
        }
        let r = m.read_source(10000 + i as u16, t);
        m.reset_depth();
        let stop = matches!(r, Err(Stop::Unsup(_)));
        outs.push(r);
        if stop {
            break;
        }
    }
    (m, outs)
}

pub fn outcome_diff(i: usize, want: &Result<(), Stop>, got: &Out) -> Result<(), String> {
    match (want, got) {
        (Ok(()), Out::Ok) => Ok(()),
        (Err(Stop::Err(k)), Out::Err(g)) if k == g => Ok(()),
        (w, g) => Err(format!("reading {} should give {:?}, gives {:?}", main_name(i), w, g)),
    }
}

/// The standard check: after every main, outcome and state agree
pub fn check_case(case: &Case, p: &Proj, st: &mut Stats) -> Result<(), String> {
    let rooted = case.rooted(&st.scratch_dir);
    let case = rooted.as_ref().unwrap_or(case);
    if crate::gnu::on() {
        return crate::gnu::check(case, p, st);
    }
    model::track(p.paths);
    let (m, outs) = run_model(case);
    st.transitions += m.steps;
    if let Some(Err(Stop::Unsup(w))) = outs.last() {
        st.skip(w);
        return Ok(());
    }
    st.state(&m, outs.last().unwrap());
    let dir = st.scratch(&case.files)?;
    let mut imp = Imp::new(&if case.cwd.is_empty() { dir.clone() } else { dir.join(&case.cwd) }, case.cmd_char);
    let r = read_all(case, &outs, &dir, &mut imp).and_then(|_| {
        st.validated += 1;
        state_diff(&m, &mut imp, &case.files, p, st)
    });
    // back to how they were, for the next case with these
    for (_, n, _) in &case.changes {
        put(&dir, n, &case.files.iter().find(|f| &f.0 == n).unwrap().1);
    }
    r
}

fn read_all(case: &Case, outs: &[Result<(), Stop>], dir: &std::path::Path, imp: &mut Imp) -> Result<(), String> {
    for (i, t) in case.mains.iter().enumerate() {
        for (k, n, c) in &case.changes {
            if *k == i {
                put(dir, n, c);
            }
        }
        let got = imp.read(t.as_bytes(), &main_name(i));
        outcome_diff(i, &outs[i], &got)?;
    }
    Ok(())
}

/// A file of the scratch directory
fn put(dir: &std::path::Path, name: &str, content: &Option<String>) {
    assert!(!name.starts_with('/') && !name.contains(".."), "harness: file outside of the scratch directory");
    let p = dir.join(name);
    match content {
        Some(c) => {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| panic!("harness: {}", e));
            std::fs::write(p, c).unwrap_or_else(|e| panic!("harness: {}", e));
        }
        None => {
            let _ = std::fs::remove_file(p);
        }
    }
}
