//! C13: syntax trees, printing and visitors
use super::Check;
use crate::gen::{Grammar, G};
use crate::imp::{guarded, iloc, ILoc, Imp, Out};
use crate::model::{Loc, Model, Node, Piece, Stop};
use crate::run::{Space, Stats};
use hastur::ast::visit::{MutVisitor, Visitor};
use hastur::ast::{self, AstChildren, AstNode};
use hastur::evaluated::{self, Block};
use hastur::source_location::{LocatedString, Location};
use hastur::{Flavor, NameCache, Origin, VariableParameters};
use std::rc::Rc;
use std::sync::Arc;

/// Canonical trees: concatenations flattened, adjacent literals joined, empties gone
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Lit(Vec<(char, ILoc)>),
    Ref(Vec<C>, ILoc),
    Eval(Vec<C>, ILoc),
    Strip(Vec<C>, ILoc),
    Words(Vec<C>, ILoc),
    Word(Vec<C>, Vec<C>, ILoc),
}

fn push(out: &mut Vec<C>, c: C) {
    if let C::Lit(t) = c {
        if t.is_empty() {
            return;
        }
        if let Some(C::Lit(x)) = out.last_mut() {
            x.extend(t);
            return;
        }
        out.push(C::Lit(t));
    } else {
        out.push(c);
    }
}

fn located(n: &NameCache, l: &Location, t: &str) -> Vec<(char, ILoc)> {
    let mut l = iloc(n, l);
    t.chars()
        .map(|c| {
            let next = match &l {
                ILoc::At(f, _line, _) if c == '\n' => ILoc::At(f.clone(), _line + 1, 1),
                ILoc::At(f, line, col) => ILoc::At(f.clone(), *line, col + 1),
                x => x.clone(),
            };
            (c, std::mem::replace(&mut l, next))
        })
        .collect()
}

pub fn of_ast(n: &NameCache, a: &AstNode, out: &mut Vec<C>) {
    let sub = |x: &AstNode| {
        let mut v = vec![];
        of_ast(n, x, &mut v);
        v
    };
    let l = iloc(n, &a.location());
    match a.children() {
        AstChildren::Empty => {}
        AstChildren::Constant(s) => push(out, C::Lit(located(n, s.location(), s))),
        AstChildren::PreEvaluated(b) => {
            let o = crate::imp::text_obs(n, b);
            push(out, C::Lit(o.text.chars().zip(o.locs).collect()))
        }
        AstChildren::Concat(v) => {
            for x in v {
                of_ast(n, x, out);
            }
        }
        AstChildren::VariableReference(x) => out.push(C::Ref(sub(x), l)),
        AstChildren::Eval(x) => out.push(C::Eval(sub(x), l)),
        AstChildren::Strip(x) => out.push(C::Strip(sub(x), l)),
        AstChildren::Words(x) => out.push(C::Words(sub(x), l)),
        AstChildren::Word { index, words } => out.push(C::Word(sub(index), sub(words), l)),
    }
}

fn mloc(l: Loc) -> ILoc {
    match l {
        Loc::Syn => ILoc::Syn,
        Loc::At(_, line, col) => ILoc::At("main0.mk".into(), line, col),
    }
}

fn of_model(nodes: &[Node]) -> Vec<C> {
    let mut out = vec![];
    for x in nodes {
        match x {
            Node::Lit(t) => push(&mut out, C::Lit(t.iter().map(|x| (x.c, mloc(x.l))).collect())),
            Node::Ref(n, l) => out.push(C::Ref(of_model(n), mloc(*l))),
            Node::Eval(n, l) => out.push(C::Eval(of_model(n), mloc(*l))),
            Node::Strip(n, l) => out.push(C::Strip(of_model(n), mloc(*l))),
            Node::Words(n, l) => out.push(C::Words(of_model(n), mloc(*l))),
            Node::Word(a, b, l) => out.push(C::Word(of_model(a), of_model(b), mloc(*l))),
        }
    }
    out
}

/// Equal, where an escaped dollar may be located at either of the two
fn same(a: &[C], b: &[C]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (C::Lit(x), C::Lit(y)) => {
                x.len() == y.len()
                    && x.iter().zip(y).all(|(p, q)| {
                        p.0 == q.0
                            && (p.1 == q.1
                                || (p.0 == '$'
                                    && match (&p.1, &q.1) {
                                        (ILoc::At(f, l, c), ILoc::At(g, m, d)) => f == g && l == m && (c + 1 == *d || d + 1 == *c),
                                        _ => false,
                                    }))
                    })
            }
            (C::Ref(x, l), C::Ref(y, m))
            | (C::Eval(x, l), C::Eval(y, m))
            | (C::Strip(x, l), C::Strip(y, m))
            | (C::Words(x, l), C::Words(y, m)) => l == m && same(x, y),
            (C::Word(x, x2, l), C::Word(y, y2, m)) => l == m && same(x, y) && same(x2, y2),
            _ => false,
        })
}

pub fn print(v: &[C]) -> String {
    let mut o = String::new();
    for c in v {
        match c {
            C::Lit(t) => {
                for (c, _) in t {
                    if *c == '$' {
                        o.push('$');
                    }
                    o.push(*c);
                }
            }
            C::Ref(n, _) => o += &format!("$({})", print(n)),
            C::Eval(n, _) => o += &format!("$(eval {})", print(n)),
            C::Strip(n, _) => o += &format!("$(strip {})", print(n)),
            C::Words(n, _) => o += &format!("$(words {})", print(n)),
            C::Word(a, b, _) => o += &format!("$(word {},{})", print(a), print(b)),
        }
    }
    o
}

// ---- visitors ----

#[derive(Default)]
struct Tracer {
    trace: Vec<String>,
}
impl<'n> Visitor<'n> for Tracer {
    fn visit_ast(&mut self, a: &'n AstNode) {
        self.trace.push("ast".into());
        self.super_ast(a)
    }
    fn visit_empty(&mut self) {
        self.trace.push("empty".into());
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.trace.push(format!("constant {:?} {:?}", **c, c.location()));
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) {
        self.trace.push(format!("preevaluated {:?}", b.into_string()));
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n Vec<AstNode>) {
        self.trace.push(format!("concat {}", v.len()));
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, n: &'n AstNode) {
        self.trace.push("reference".into());
        self.super_variable_reference(n)
    }
    fn visit_eval(&mut self, n: &'n AstNode) {
        self.trace.push("eval".into());
        self.super_eval(n)
    }
    fn visit_strip(&mut self, n: &'n AstNode) {
        self.trace.push("strip".into());
        self.super_strip(n)
    }
    fn visit_word(&mut self, i: &'n AstNode, w: &'n AstNode) {
        self.trace.push("word".into());
        self.super_word(i, w)
    }
    fn visit_words(&mut self, w: &'n AstNode) {
        self.trace.push("words".into());
        self.super_words(w)
    }
}
#[derive(Default)]
struct MutTracer {
    trace: Vec<String>,
}
impl<'n> MutVisitor<'n> for MutTracer {
    fn visit_ast(&mut self, a: &'n mut AstNode) {
        self.trace.push("ast".into());
        self.super_ast(a)
    }
    fn visit_empty(&mut self) {
        self.trace.push("empty".into());
        self.super_empty()
    }
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.trace.push(format!("constant {:?} {:?}", **c, c.location()));
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) {
        self.trace.push(format!("preevaluated {:?}", b.into_string()));
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n mut Vec<AstNode>) {
        self.trace.push(format!("concat {}", v.len()));
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, n: &'n mut AstNode) {
        self.trace.push("reference".into());
        self.super_variable_reference(n)
    }
    fn visit_eval(&mut self, n: &'n mut AstNode) {
        self.trace.push("eval".into());
        self.super_eval(n)
    }
    fn visit_strip(&mut self, n: &'n mut AstNode) {
        self.trace.push("strip".into());
        self.super_strip(n)
    }
    fn visit_word(&mut self, i: &'n mut AstNode, w: &'n mut AstNode) {
        self.trace.push("word".into());
        self.super_word(i, w)
    }
    fn visit_words(&mut self, w: &'n mut AstNode) {
        self.trace.push("words".into());
        self.super_words(w)
    }
}
/// Overrides the leaves only: the default methods must get there
#[derive(Default)]
struct Leaves(Vec<String>);
impl<'n> Visitor<'n> for Leaves {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push((**c).clone());
    }
    fn visit_empty(&mut self) {
        self.0.push("<empty>".into());
    }
    fn visit_pre_evaluated(&mut self, b: &'n Arc<Block>) {
        self.0.push(b.into_string());
    }
}
/// Counts each kind without recursing explicitly where not needed
#[derive(Default)]
struct Asts(usize);
impl<'n> Visitor<'n> for Asts {
    fn visit_ast(&mut self, a: &'n AstNode) {
        self.0 += 1;
        self.super_ast(a)
    }
}

fn expected_trace(a: &AstNode, out: &mut Vec<String>, leaves: &mut Vec<String>) {
    out.push("ast".into());
    match a.children() {
        AstChildren::Empty => {
            out.push("empty".into());
            leaves.push("<empty>".into());
        }
        AstChildren::Constant(s) => {
            out.push(format!("constant {:?} {:?}", **s, s.location()));
            leaves.push((**s).clone());
        }
        AstChildren::PreEvaluated(b) => {
            out.push(format!("preevaluated {:?}", b.into_string()));
            leaves.push(b.into_string());
        }
        AstChildren::Concat(v) => {
            out.push(format!("concat {}", v.len()));
            for x in v {
                expected_trace(x, out, leaves);
            }
        }
        AstChildren::VariableReference(x) => {
            out.push("reference".into());
            expected_trace(x, out, leaves);
        }
        AstChildren::Eval(x) => {
            out.push("eval".into());
            expected_trace(x, out, leaves);
        }
        AstChildren::Strip(x) => {
            out.push("strip".into());
            expected_trace(x, out, leaves);
        }
        AstChildren::Words(x) => {
            out.push("words".into());
            expected_trace(x, out, leaves);
        }
        AstChildren::Word { index, words } => {
            out.push("word".into());
            expected_trace(index, out, leaves);
            expected_trace(words, out, leaves);
        }
    }
}

/// Replaces every constant by a marker that counts up
#[derive(Default)]
struct Renumber(u32);
impl<'n> MutVisitor<'n> for Renumber {
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.0 += 1;
        *c = LocatedString::verif_new(c.location().clone(), format!("m{}", self.0));
    }
}
fn renumbered(v: &mut AstNode, n: &mut u32) {
    match v.children_mut() {
        AstChildren::Empty | AstChildren::PreEvaluated(_) => {}
        AstChildren::Constant(c) => {
            *n += 1;
            *c = LocatedString::verif_new(c.location().clone(), format!("m{}", n));
        }
        AstChildren::Concat(v) => {
            for x in v {
                renumbered(x, n);
            }
        }
        AstChildren::VariableReference(x) | AstChildren::Eval(x) | AstChildren::Strip(x) | AstChildren::Words(x) => renumbered(x, n),
        AstChildren::Word { index, words } => {
            renumbered(index, n);
            renumbered(words, n);
        }
    }
}
/// Rewrites references to `a` into references to `q`, and drops evals
struct Rewrite;
impl<'n> MutVisitor<'n> for Rewrite {
    fn visit_ast(&mut self, a: &'n mut AstNode) {
        if let AstChildren::Eval(_) = a.children() {
            *a = ast::empty();
            return;
        }
        self.super_ast(a)
    }
    fn visit_variable_reference(&mut self, n: &'n mut AstNode) {
        let is_a = match n.children() {
            AstChildren::Constant(c) => **c == "a",
            _ => false,
        };
        if is_a {
            *n = ast::constant(LocatedString::synthetic_new("q"));
        } else {
            self.super_variable_reference(n);
        }
    }
}
fn rewritten(v: &[C]) -> Vec<C> {
    let mut out = vec![];
    for c in v {
        match c {
            C::Lit(t) => push(&mut out, C::Lit(t.clone())),
            C::Ref(n, l) => {
                let is_a = matches!(&n[..], [C::Lit(t)] if t.len() == 1 && t[0].0 == 'a');
                out.push(C::Ref(if is_a { vec![C::Lit(vec![('q', ILoc::Syn)])] } else { rewritten(n) }, l.clone()))
            }
            C::Eval(..) => {}
            C::Strip(n, l) => out.push(C::Strip(rewritten(n), l.clone())),
            C::Words(n, l) => out.push(C::Words(rewritten(n), l.clone())),
            C::Word(a, b, l) => out.push(C::Word(rewritten(a), rewritten(b), l.clone())),
        }
    }
    out
}

fn has_function(v: &[C]) -> bool {
    v.iter().any(|c| match c {
        C::Lit(_) => false,
        C::Ref(n, _) | C::Eval(n, _) => has_function(n),
        _ => true,
    })
}
fn has_eval(v: &[C]) -> bool {
    v.iter().any(|c| match c {
        C::Lit(_) => false,
        C::Eval(..) => true,
        C::Ref(n, _) | C::Strip(n, _) | C::Words(n, _) => has_eval(n),
        C::Word(a, b, _) => has_eval(a) || has_eval(b),
    })
}

const ENV: &str = "a=A1\nb=$(a) B\nq=Q é\nm1=one\nm2=$(q)\nA1=deep\n";

/// Evaluate a tree in the standard environment
fn eval_tree(n: &mut NameCache, t: &AstNode) -> Result<String, String> {
    let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
    std::mem::swap(&mut imp.n, n);
    let o = imp.read(ENV.as_bytes(), "env.mk");
    if o != Out::Ok {
        return Err(format!("environment: {:?}", o));
    }
    let v = imp.n.intern_variable_name("tree".into());
    imp.e.database = imp.e.database.set_variable(v, VariableParameters::verif_new(t.clone(), Flavor::Recursive, Origin::File));
    let db = imp.e.database.clone();
    let var = db.get_variable(v).ok_or("variable is not there")?;
    let (nn, e) = (&mut imp.n, &mut imp.e);
    let r = guarded(|| var.expand(nn, e));
    std::mem::swap(&mut imp.n, n);
    r
}

/// What the environment makes of a canonical tree (no evals, no functions)
fn expand(v: &[C]) -> Option<String> {
    fn lookup(name: &str) -> Option<String> {
        Some(match name {
            "a" => "A1".into(),
            "b" => "A1 B".into(),
            "q" | "m2" => "Q é".into(),
            "m1" => "one".into(),
            "A1" => "deep".into(),
            x if x.contains(':') && x.contains('=') => return None,
            _ => "".into(),
        })
    }
    let mut o = String::new();
    for c in v {
        match c {
            C::Lit(t) => o.extend(t.iter().map(|x| x.0)),
            C::Ref(n, _) => o += &lookup(&expand(n)?)?,
            _ => return None,
        }
    }
    Some(o)
}

/// Everything that must hold of any tree
pub fn tree_laws(n: &mut NameCache, a: &AstNode) -> Result<(), String> {
    let mut canon = vec![];
    of_ast(n, a, &mut canon);
    let (mut want, mut leaves) = (vec![], vec![]);
    expected_trace(a, &mut want, &mut leaves);
    let mut t = Tracer::default();
    t.visit_ast(a);
    if t.trace != want {
        return Err(format!("a visitor should see {:?}, sees {:?}", want, t.trace));
    }
    let mut l = Leaves::default();
    l.visit_ast(a);
    if l.0 != leaves {
        return Err(format!("a visitor of leaves should see {:?}, sees {:?}", leaves, l.0));
    }
    let mut c = Asts::default();
    c.visit_ast(a);
    if c.0 != want.iter().filter(|x| *x == "ast").count() {
        return Err(format!("a visitor of nodes is called {} times", c.0));
    }
    let mut copy = a.clone();
    let mut t = MutTracer::default();
    t.visit_ast(&mut copy);
    if t.trace != want {
        return Err(format!("a mutating visitor should see {:?}, sees {:?}", want, t.trace));
    }
    if copy != *a {
        return Err("a mutating visitor that changes nothing changed the tree".into());
    }
    // changes
    let mut expected = a.clone();
    renumbered(&mut expected, &mut 0);
    let mut got = a.clone();
    Renumber::default().visit_ast(&mut got);
    if got != expected {
        return Err(format!("replacing constants should give {:?}, gives {:?}", expected, got));
    }
    if copy != *a {
        return Err("changing a copy changed the original".into());
    }
    let mut c2 = vec![];
    of_ast(n, &got, &mut c2);
    if !has_function(&c2) && !has_eval(&c2) {
        if let Some(x) = expand(&c2) {
            let y = eval_tree(n, &got)?;
            if x != y {
                return Err(format!("after replacing constants, evaluation should give {:?}, gives {:?}", x, y));
            }
        }
    }
    let mut got = a.clone();
    Rewrite.visit_ast(&mut got);
    let mut c2 = vec![];
    of_ast(n, &got, &mut c2);
    let w = rewritten(&canon);
    if !same(&c2, &w) {
        return Err(format!("after rewriting references the tree should be {:?}, is {:?}", print(&w), print(&c2)));
    }
    if !has_function(&c2) {
        if let Some(x) = expand(&c2) {
            let y = eval_tree(n, &got)?;
            if x != y {
                return Err(format!("after rewriting, evaluation should give {:?}, gives {:?}", x, y));
            }
        }
    }
    Ok(())
}

/// `x=TEXT`, tree against the model's
struct TextSpace {
    name: String,
    n: u64,
    f: Box<dyn Fn(u64) -> String + Send + Sync>,
}

impl Space for TextSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let text = (self.f)(i);
        let mut m = Model::new(Rc::new(vec![]), '\t');
        let r = m.read_source(100, &text);
        st.transitions += m.steps;
        if let Err(Stop::Unsup(w)) = r {
            st.skip(w);
            return Ok(());
        }
        st.state(&m, &r);
        let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
        let got = imp.read(text.as_bytes(), "main0.mk");
        crate::cmp::outcome_diff(0, &r, &got)?;
        st.validated += 1;
        let db = imp.e.database.clone();
        for (name, v) in &m.vars {
            let id = imp.n.variable_name(name).ok_or(format!("{:?} is not interned", name))?;
            let real = db.get_variable(id).ok_or(format!("{:?} is not defined", name))?.ast().clone();
            let mut c = vec![];
            of_ast(&imp.n, &real, &mut c);
            let mut want = vec![];
            for p in &v.value {
                match p {
                    Piece::Ast(a) => {
                        for x in of_model(a) {
                            push(&mut want, x);
                        }
                    }
                    Piece::Done(t, _) => push(&mut want, C::Lit(t.iter().map(|x| (x.c, mloc(x.l))).collect())),
                }
            }
            if !same(&c, &want) {
                return Err(format!("the tree of {} should be {} ({:?}), is {} ({:?})", name, print(&want), want, print(&c), c));
            }
            tree_laws(&mut imp.n, &real)?;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", (self.f)(i))
    }
}

// ---- constructed trees ----

struct Builder {
    n: NameCache,
    file: hastur::FileName,
    next: u32,
}
impl Builder {
    fn new() -> Builder {
        let mut n = NameCache::default();
        let file = n.intern_file_name("f".into());
        Builder { n, file, next: 1 }
    }
    fn loc(&mut self) -> Location {
        self.next += 7;
        Location::SourceLocation { line: self.next, character: 2, filename: self.file }
    }
    fn leaf(&mut self, k: u64) -> AstNode {
        let l = self.loc();
        match k {
            0 => ast::empty(),
            1 => ast::constant(LocatedString::verif_new(l, "a".into())),
            2 => ast::constant(LocatedString::verif_new(l, "é b".into())),
            _ => {
                let mut b = Block::default();
                b.push(evaluated::constant(LocatedString::verif_new(l.clone(), "b".into())));
                ast::preevaluated(l, Arc::new(b))
            }
        }
    }
    fn unary(&mut self, kind: u64, x: AstNode) -> AstNode {
        let l = self.loc();
        match kind {
            0 => ast::variable_reference(l, x),
            1 => ast::eval(l, x),
            2 => ast::strip(l, x),
            _ => ast::words(l, x),
        }
    }
    /// depth-1 nodes: 4 leaves, 16 unaries, 16 words, 84 concatenations
    fn small(&mut self, k: u64) -> AstNode {
        if k < 4 {
            return self.leaf(k);
        }
        let k = k - 4;
        if k < 16 {
            let x = self.leaf(k % 4);
            return self.unary(k / 4, x);
        }
        let k = k - 16;
        if k < 16 {
            let (a, b) = (self.leaf(k % 4), self.leaf(k / 4));
            let l = self.loc();
            return ast::word(l, a, b);
        }
        let mut k = k - 16;
        let mut n = 1;
        while k >= 4u64.pow(n) {
            k -= 4u64.pow(n);
            n += 1;
        }
        let v = (0..n)
            .map(|_| {
                let x = self.leaf(k % 4);
                k /= 4;
                x
            })
            .collect();
        let l = self.loc();
        ast::collapsing_concat(l, v)
    }
}
const SMALL: u64 = 4 + 16 + 16 + 84;

struct TreeSpace {
    name: String,
    n: u64,
    f: Box<dyn Fn(&mut Builder, u64) -> AstNode + Send + Sync>,
}
impl Space for TreeSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut b = Builder::new();
        let t = (self.f)(&mut b, i);
        let mut c = vec![];
        of_ast(&b.n, &t, &mut c);
        st.digest(&format!("{:?}", c));
        st.validated += 1;
        st.transitions += 1;
        tree_laws(&mut b.n, &t)
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", (self.f)(&mut Builder::new(), i))
    }
}

/// Joining: order kept, empties (and only those) dropped
struct JoinSpace {
    max: u32,
}
impl JoinSpace {
    fn parts(&self, b: &mut Builder, mut i: u64) -> Vec<AstNode> {
        const PICK: [u64; 8] = [0, 1, 2, 3, 5, 9, 24, 40];
        let mut n = 0;
        while i >= 8u64.pow(n) {
            i -= 8u64.pow(n);
            n += 1;
        }
        (0..n)
            .map(|_| {
                let x = b.small(PICK[(i % 8) as usize]);
                i /= 8;
                x
            })
            .collect()
    }
}
impl Space for JoinSpace {
    fn name(&self) -> String {
        "trees/joining".into()
    }
    fn len(&self) -> u64 {
        (0..=self.max).map(|n| 8u64.pow(n)).sum()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut b = Builder::new();
        let parts = self.parts(&mut b, i);
        let l = b.loc();
        st.validated += 1;
        st.transitions += parts.len() as u64;
        let full: Vec<AstNode> = parts.iter().filter(|x| **x != ast::empty() && !matches!(x.children(), AstChildren::Empty)).cloned().collect();
        let got = ast::collapsing_concat(l.clone(), parts.clone());
        let mut want = vec![];
        for p in &parts {
            of_ast(&b.n, p, &mut want);
        }
        let mut c = vec![];
        of_ast(&b.n, &got, &mut c);
        st.digest(&format!("{:?}", c));
        if c != want {
            return Err(format!("joining should give {}, gives {}", print(&want), print(&c)));
        }
        if full.len() == 1 && got != full[0] {
            return Err("joining a single expression should give just that".into());
        }
        if full.len() > 1 {
            match got.children() {
                AstChildren::Concat(_) if got.location() == l => {}
                _ => return Err(format!("joining {:?} gives {:?}", full, got)),
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.parts(&mut Builder::new(), i))
    }
}

pub fn c13(deep: bool) -> Check {
    let mut spaces: Vec<Box<dyn Space>> = vec![];
    let gr = Grammar::new(&[
        ("T", "a¦$¦(¦)¦{¦}¦,¦ "),
        ("F", "eval¦strip¦word¦words¦evals¦eva¦wordsx¦Eval¦$f¦é"),
        ("U", "$(¦)¦${¦}¦a¦,¦ ¦$"),
        ("K", "$(«eval ¦strip ¦words ¦word ¦»"),
        ("E0", "¦a¦é b¦$a¦$$"),
        ("E1", "‹E0›¦$(‹E0›)¦${‹E0›}¦$(eval ‹E0›)¦$(strip ‹E0›)¦$(words ‹E0›)¦$(word ‹E0›,‹E0›)¦x‹E0›y"),
        ("E2", "$(‹E1›)¦$(eval ‹E1›)¦${strip ‹E1›}¦$(words\t‹E1›)¦$(word  ‹E1›, a)¦$(word 1,‹E1›)¦‹E0›$(‹E1›)‹E0›"),
    ]);
    let t = |name: &str, g: G| -> Box<dyn Space> { Box::new(TextSpace { name: name.into(), n: g.len(), f: Box::new(move |i| g.get(i)) }) };
    spaces.push(t("trees/characters", gr.g(if deep { "x=«‹T›»*0-7;\n" } else { "x=«‹T›»*0-5;\n" })));
    spaces.push(t("trees/tokens", gr.g(if deep { "x=«‹U›»*0-6;\n" } else { "x=«‹U›»*0-5;\n" })));
    spaces.push(t("trees/function-names", gr.g("x=p$(‹F›«¦ ¦\t¦  ¦,¦(»«a¦1,a¦a,b,c¦¦$a¦($a,b)¦{,}¦ a¦,»)q\ny=${‹F› $(‹F› a)}\n")));
    spaces.push(t("trees/function-arguments", gr.g(if deep { "x=‹K›«a¦,¦(¦)¦{¦}¦ ¦$»*0-6;)\n" } else { "x=‹K›«a¦,¦(¦)¦{¦}¦ ¦$»*0-4;)\n" })));
    spaces.push(t("trees/nested", gr.g("x=‹E2›\n")));
    spaces.push(t("trees/two", gr.g("x=‹E1›‹E1›\n")));
    spaces.push(t("trees/nested-with-neighbours", gr.g(if deep { "x=‹E1›‹E2›‹E0›\n" } else { "x=‹E0›‹E2›‹E0›\n" })));
    spaces.push(t("trees/appended", gr.g("a=1\nx=‹E1›\nx+=‹E1›\n")));
    spaces.push(t("trees/continued", gr.g("x=‹E0›«\\\n¦ \\\n  ¦ \\\r\n\t»$(«¦eval »‹E0›«\\\n¦ \\\n »‹E0›)«¦\\\n»‹E0›\n")));
    spaces.push(t("trees/defined", gr.g("define x\n‹E1›\n‹E0›$(«¦word »‹E0›\n,‹E0›)\nendef\n")));
    for (name, n, f) in super::size::texts("expressions", super::size::EXPRS, deep) {
        spaces.push(Box::new(TextSpace { name, n, f }));
    }
    let ts = |name: &str, n: u64, f: Box<dyn Fn(&mut Builder, u64) -> AstNode + Send + Sync>| -> Box<dyn Space> { Box::new(TreeSpace { name: name.into(), n, f }) };
    spaces.push(ts("trees/small", SMALL, Box::new(|b, i| b.small(i))));
    spaces.push(ts("trees/unary-of-small", SMALL * 4 * 4, Box::new(|b, i| {
        let x = b.small(i % SMALL);
        let y = b.unary(i / SMALL % 4, x);
        b.unary(i / SMALL / 4, y)
    })));
    spaces.push(ts("trees/word-of-small", SMALL * SMALL, Box::new(|b, i| {
        let (x, y) = (b.small(i % SMALL), b.small(i / SMALL));
        let l = b.loc();
        ast::word(l, x, y)
    })));
    spaces.push(ts("trees/pair-of-small", SMALL * SMALL, Box::new(|b, i| {
        let (x, y) = (b.small(i % SMALL), b.small(i / SMALL));
        let l = b.loc();
        ast::collapsing_concat(l, vec![x, y])
    })));
    spaces.push(ts("trees/towers", 6 * 40, Box::new(|b, i| {
        let mut t = b.small(30);
        for _ in 0..i / 6 {
            t = match i % 6 {
                k @ 0..=3 => b.unary(k, t),
                4 => {
                    let (x, y) = (b.leaf(1), b.leaf(2));
                    let l = b.loc();
                    ast::collapsing_concat(l, vec![x, t, y])
                }
                _ => {
                    let x = b.leaf(2);
                    let l = b.loc();
                    ast::word(l, x, t)
                }
            };
        }
        t
    })));
    spaces.push(Box::new(JoinSpace { max: if deep { 6 } else { 4 } }));
    Check { spaces, notes: vec![] }
}
