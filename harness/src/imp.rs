//! Driving hastur and observing everything it says
use crate::model::Loc;
use hastur::evaluated::{Block, EvaluatedNode};
use hastur::source_location::Location;
use hastur::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    Err(String),
    Io(String),
    Panic(String),
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, at));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Imp {
    pub e: Engine,
    pub n: NameCache,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TextObs {
    pub text: String,
    pub locs: Vec<ILoc>,
    pub sens: BTreeSet<String>,
    /// The references every character came through (if asked for)
    pub paths: Vec<Path>,
}

/// A reference some characters came through, and those further in
#[derive(Debug, PartialEq)]
pub struct IStep {
    pub kind: &'static str,
    pub name: Vec<IChar>,
    pub key: Vec<IChar>,
    pub rep: Vec<IChar>,
    pub tail: Path,
}
pub type Path = Option<Rc<IStep>>;
#[derive(Clone, Debug, PartialEq)]
pub struct IChar {
    pub c: char,
    pub l: ILoc,
    pub path: Path,
}

/// Walking the tree of an expansion. Nodes may be shared, so each is only walked once
struct Walk<'a> {
    n: &'a NameCache,
    seen: HashMap<*const EvaluatedNode, Rc<Vec<IChar>>>,
}

/// All characters of a block, by walking its tree
pub fn walk(n: &NameCache, b: &Block) -> Vec<IChar> {
    Walk { n, seen: HashMap::new() }.block(b)
}

impl<'a> Walk<'a> {
    fn block(&mut self, b: &Block) -> Vec<IChar> {
        let mut out = vec![];
        for c in b.content() {
            let (node, offset, length) = c.verif_parts();
            let all = match self.seen.get(&(node as *const _)) {
                Some(x) => x.clone(),
                None => {
                    let x = Rc::new(self.node(node));
                    self.seen.insert(node, x.clone());
                    x
                }
            };
            let mut at = 0;
            for x in all.iter() {
                let l = x.c.len_utf8();
                if at >= offset && at + l <= offset + length {
                    out.push(x.clone());
                }
                at += l;
            }
        }
        out
    }
    fn node(&mut self, node: &EvaluatedNode) -> Vec<IChar> {
        use EvaluatedNode as N;
        let (kind, name, key, rep, value) = match node {
            N::Constant(t) => {
                let mut l = iloc(self.n, t.location());
                return t
                    .chars()
                    .map(|c| {
                        let next = after(&l, c);
                        IChar { c, l: std::mem::replace(&mut l, next), path: None }
                    })
                    .collect();
            }
            N::Concat(b) => return self.block(b),
            N::VariableReference(v) => ("reference", self.block(v.name()), vec![], vec![], v.verif_value()),
            N::SubstitutionReference(v) => {
                ("substitution", self.block(v.name()), self.block(v.key()), self.block(v.replacement()), v.value())
            }
            N::Evaluated(v) => ("eval", vec![], vec![], vec![], v.value()),
        };
        let mut t = self.block(value);
        let mut done: Vec<(Path, Path)> = vec![];
        for x in t.iter_mut() {
            let known = done.iter().find(|d| match (&d.0, &x.path) {
                (None, None) => true,
                (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                _ => false,
            });
            let p = match known {
                Some(d) => d.1.clone(),
                None => {
                    let p = Some(Rc::new(IStep { kind, name: name.clone(), key: key.clone(), rep: rep.clone(), tail: x.path.clone() }));
                    done.push((x.path.clone(), p.clone()));
                    p
                }
            };
            x.path = p;
        }
        t
    }
}

fn after(l: &ILoc, c: char) -> ILoc {
    match l {
        ILoc::At(f, line, _) if c == '\n' => ILoc::At(f.clone(), line + 1, 1),
        ILoc::At(f, line, col) => ILoc::At(f.clone(), *line, col + 1),
        x => x.clone(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ILoc {
    Syn,
    At(String, u32, u32),
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RuleObs {
    pub target: TextObs,
    pub deps: Vec<TextObs>,
    pub cmds: Vec<Result<TextObs, String>>,
    pub double: bool,
}

impl Imp {
    pub fn new(dir: &std::path::Path, cmd_char: char) -> Imp {
        let mut e = Engine::default();
        e.working_directory = dir.to_path_buf();
        e.command_char = cmd_char;
        Imp { e, n: NameCache::default() }
    }
    pub fn read(&mut self, text: &[u8], name: &str) -> Out {
        let e = &mut self.e;
        let n = &mut self.n;
        match guarded(|| e.read_makefile(n, &mut &text[..], name)) {
            Ok(Ok(())) => Out::Ok,
            Ok(Err(MakefileError::ParseError(k))) => Out::Err(format!("{:?}", k)),
            Ok(Err(MakefileError::IOError(x))) => Out::Io(format!("{:?}", x.kind())),
            Err(m) => Out::Panic(m),
        }
    }
    pub fn name(&self, v: VariableName) -> String {
        self.n.verif_resolve_variable_name(v).unwrap_or("<unresolvable>").to_string()
    }
    pub fn text(&self, b: &Block) -> TextObs {
        text_obs(&self.n, b)
    }
    pub fn var_names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.e.database.verif_variables().into_iter().map(|x| self.name(x)).collect();
        v.sort();
        v
    }
    /// Evaluate in the current database, and restore it afterwards
    pub fn eval(&mut self, ast: &ast::AstNode) -> Result<TextObs, String> {
        let saved = self.e.database.clone();
        let e = &mut self.e;
        let n = &mut self.n;
        let r = guarded(|| {
            let b = ast.eval(n, e);
            text_obs(n, &b)
        });
        self.e.database = saved;
        r
    }
    pub fn var_kind(&self, name: &str) -> Option<(Flavor, Origin)> {
        let v = self.e.database.get_variable(self.n.variable_name(name)?)?;
        Some((v.verif_flavor(), v.verif_origin()))
    }
    pub fn var(&mut self, name: &str) -> Option<(Flavor, Origin, Result<TextObs, String>)> {
        let id = self.n.variable_name(name)?;
        let db = self.e.database.clone();
        let v = db.get_variable(id)?;
        let (f, o) = (v.verif_flavor(), v.verif_origin());
        let t = self.eval(v.ast());
        Some((f, o, t))
    }
    /// The variables of targets, and what they expand to
    pub fn target_vars(&mut self) -> Vec<((String, String), Result<String, String>)> {
        let db = self.e.database.clone();
        let mut out = vec![];
        for (t, v) in db.verif_target_variables() {
            let name = (self.n.resolve_file_name(t).unwrap_or("<unresolvable>").to_string(), self.name(v));
            let text = match db.get_variable_for_target(t, v) {
                None => Err("listed but not found".into()),
                Some(x) => self.eval(x.ast()).map(|t| t.text),
            };
            out.push((name, text));
        }
        out.sort();
        out
    }
    /// Rules by target; Err if the database is inconsistent about them
    pub fn rules(&mut self, with_cmds: bool) -> Result<BTreeMap<String, RuleObs>, String> {
        let db = self.e.database.clone();
        let mut out = BTreeMap::new();
        for r in db.rules() {
            let target = self.text(r.target());
            let name = target.text.clone();
            match self.n.resolve_file_name(r.target_fname()) {
                Some(x) if x == name => {}
                x => return Err(format!("rule for {:?} is stored under {:?}", name, x)),
            }
            match self.n.file_name(&name).and_then(|f| db.get_rule(f)) {
                Some(x) if std::ptr::eq(x, r) => {}
                _ => return Err(format!("rule for {:?} is not found under its name", name)),
            }
            let deps: Vec<TextObs> = r.dependencies().iter().map(|d| self.text(d)).collect();
            let have: BTreeSet<String> = r
                .verif_dep_names()
                .into_iter()
                .map(|f| self.n.resolve_file_name(f).unwrap_or("<unresolvable>").to_string())
                .collect();
            let want: BTreeSet<String> = deps.iter().map(|d| d.text.clone()).collect();
            if have != want {
                return Err(format!("rule for {:?}: dependency names {:?} but dependencies {:?}", name, have, want));
            }
            let cmds = if with_cmds {
                r.recipe().commands().iter().map(|c| self.eval(c.verif_ast())).collect()
            } else {
                vec![]
            };
            let double = r.verif_rule_type() == RuleType::DoubleColon;
            if out.insert(name.clone(), RuleObs { target, deps, cmds, double }).is_some() {
                return Err(format!("two rules for {:?}", name));
            }
        }
        Ok(out)
    }
}

pub fn iloc(n: &NameCache, l: &Location) -> ILoc {
    match l {
        Location::Synthetic => ILoc::Syn,
        Location::SourceLocation { line, character, filename } => {
            ILoc::At(n.resolve_file_name(*filename).unwrap_or("<unresolvable>").to_string(), *line, *character)
        }
        _ => ILoc::Other,
    }
}

pub fn text_obs(n: &NameCache, b: &Block) -> TextObs {
    let mut text = String::new();
    let mut locs = vec![];
    for seg in b.span().segments() {
        let mut l = iloc(n, seg.location());
        for c in seg.chars() {
            text.push(c);
            let next = after(&l, c);
            locs.push(std::mem::replace(&mut l, next));
        }
    }
    let full = b.into_string();
    if full != text {
        text = format!("<segments {:?} but text {:?}>", text, full);
    }
    let sens = b
        .sensitivity()
        .map(|v| n.verif_resolve_variable_name(*v).unwrap_or("<unresolvable>").to_string())
        .collect();
    // the names a copy hands over when it is consumed are the same
    let (mut lent, mut taken): (Vec<_>, Vec<_>) = (b.sensitivity().cloned().collect(), Block::clone(b).into_sensitivity().collect());
    lent.sort();
    taken.sort();
    if lent != taken {
        text = format!("<sensitivity {:?} but {:?} when consumed>", lent, taken);
    }
    let mut paths = vec![];
    if crate::model::TRACK.with(|t| t.get()) {
        let w = walk(n, b);
        let t: String = w.iter().map(|x| x.c).collect();
        if t != full {
            text = format!("<the tree says {:?} but text {:?}>", t, full);
        } else if let Some(i) = (0..w.len()).find(|i| w[*i].l != locs[*i]) {
            text = format!("<character {} of {:?} is at {:?} in the tree, but at {:?}>", i, t, w[i].l, locs[i]);
        }
        paths = w.into_iter().map(|x| x.path).collect();
    }
    TextObs { text, locs, sens, paths }
}

pub fn loc_matches(m: Loc, i: &ILoc, files: &dyn Fn(u16) -> String) -> bool {
    match (m, i) {
        (Loc::Syn, ILoc::Syn) => true,
        (Loc::At(f, l, c), ILoc::At(g, l2, c2)) => *l2 == l && *c2 == c && *g == files(f),
        _ => false,
    }
}
