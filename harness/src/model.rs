//! Reference interpreter for the supported makefile subset.
//!
//! Works on flat, tagged text (every character carries where it was written and which variables it
//! came through) and shares no code and no data structures with hastur. It is deliberately boring.
//! Inputs outside the supported subset stop with `Stop::Unsup`, and are not compared.
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Loc {
    Syn,
    At(u16, u32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct TC {
    pub c: char,
    pub l: Loc,
    pub taint: u128,
    /// the references it came through, outermost first (0: none). See `steps`
    pub path: u32,
}

/// One reference some characters came through
#[derive(Clone, Debug)]
pub struct Step {
    pub name: Text,
    /// of a substitution reference: key and replacement
    pub subst: Option<(Text, Text)>,
    pub tail: u32,
}

thread_local! {
    /// Whether to keep track of paths
    pub static TRACK: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static STEPS: std::cell::RefCell<Vec<Step>> = std::cell::RefCell::new(Vec::new());
}

/// Start (or stop) keeping track of paths
pub fn track(on: bool) {
    TRACK.with(|t| t.set(on));
    STEPS.with(|s| s.borrow_mut().clear());
}

/// Step `id` (not 0) of a path
pub fn step(id: u32) -> Step {
    STEPS.with(|s| s.borrow()[id as usize - 1].clone())
}

/// All of this came through one more reference
fn came_through(t: &mut Text, name: &[TC], subst: Option<(&[TC], &[TC])>) {
    if !TRACK.with(|x| x.get()) {
        return;
    }
    let mut done: Vec<(u32, u32)> = vec![];
    STEPS.with(|s| {
        let mut s = s.borrow_mut();
        for x in t.iter_mut() {
            let id = match done.iter().find(|d| d.0 == x.path) {
                Some(d) => d.1,
                None => {
                    s.push(Step { name: name.to_vec(), subst: subst.map(|(k, r)| (k.to_vec(), r.to_vec())), tail: x.path });
                    let id = s.len() as u32;
                    done.push((x.path, id));
                    id
                }
            };
            x.path = id;
        }
    })
}

/// Text that is parsed starts anew
fn anew(x: TC) -> TC {
    TC { path: 0, ..x }
}

pub type Text = Vec<TC>;
pub type Mask = u128;

pub fn syn(c: char) -> TC {
    TC { c, l: Loc::Syn, taint: 0, path: 0 }
}

pub fn s(t: &[TC]) -> String {
    t.iter().map(|x| x.c).collect()
}

/// Tag source text with locations
pub fn source(file: u16, text: &str) -> Text {
    let (mut line, mut col) = (1, 1);
    let mut out = Vec::with_capacity(text.len());
    for c in text.chars() {
        out.push(TC { c, l: Loc::At(file, line, col), taint: 0, path: 0 });
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    out
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// hastur must report this error (Debug form of the kind)
    Err(String),
    /// outside of the supported subset
    Unsup(&'static str),
}
pub type R<T> = Result<T, Stop>;
fn err<T>(k: impl Into<String>) -> R<T> {
    Err(Stop::Err(k.into()))
}
fn unsup<T>(why: &'static str) -> R<T> {
    Err(Stop::Unsup(why))
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Node {
    Lit(Text),
    Ref(Vec<Node>, Loc),
    Eval(Vec<Node>, Loc),
    Strip(Vec<Node>, Loc),
    Words(Vec<Node>, Loc),
    Word(Vec<Node>, Vec<Node>, Loc),
}

#[derive(Clone, Debug, Hash)]
pub enum Piece {
    Ast(Rc<Vec<Node>>),
    Done(Text, Mask),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Flavor {
    Recursive,
    Simple,
    Conditional,
}

#[derive(Clone, Debug, Hash)]
pub struct Var {
    pub flavor: Flavor,
    pub value: Vec<Piece>,
}

#[derive(Clone, Debug, Hash)]
pub struct Name {
    pub text: Text,
    /// everything that was looked up in making the line this name comes from
    pub upper: Mask,
}

#[derive(Clone, Debug, Hash)]
pub struct Rule {
    pub target: Name,
    pub deps: Vec<Name>,
    pub cmds: Vec<Rc<Vec<Node>>>,
    pub double: bool,
}

struct Proto {
    targets: Vec<Name>,
    deps: Vec<Name>,
    cmds: Vec<Rc<Vec<Node>>>,
    double: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Rec,
    Simple,
    Cond,
    Append,
    Bang,
}

struct Def {
    /// nothing in a skipped branch
    name: Option<String>,
    op: Op,
    body: Text,
    nesting: u32,
    continued: bool,
}

struct Cond {
    live: bool,
    seen_else: bool,
}

pub type Files = Vec<(String, Option<String>)>;

#[derive(Clone)]
pub struct Model {
    pub vars: BTreeMap<String, Rc<Var>>,
    pub rules: BTreeMap<String, Rule>,
    /// values of variables for a target, which makefiles cannot set
    pub tvars: BTreeMap<(String, String), String>,
    pub cmd_char: char,
    /// name -> bit
    pub names: HashMap<String, u32>,
    pub name_list: Vec<String>,
    pub too_many_names: bool,
    /// available files: (name, content); None = not there
    pub files: Rc<Files>,
    /// their directory, if the makefiles know it
    pub root: String,
    /// the directory in there to read in
    pub cwd: String,
    /// the files read so far, as they were named
    pub written: Vec<String>,
    /// every lookup made so far (of the current line)
    looked_up: Mask,
    depth: u32,
    inc_depth: u32,
    pub steps: u64,
    /// coverage flags, set as features are exercised
    pub max_depth: u32,
}

fn hash_text<H: Hasher>(t: &[TC], h: &mut H) {
    t.len().hash(h);
    for x in t {
        x.c.hash(h);
    }
}

fn hash_nodes<H: Hasher>(v: &[Node], h: &mut H) {
    v.len().hash(h);
    for n in v {
        match n {
            Node::Lit(t) => hash_text(t, h),
            Node::Ref(a, _) => {
                1.hash(h);
                hash_nodes(a, h)
            }
            Node::Eval(a, _) => {
                2.hash(h);
                hash_nodes(a, h)
            }
            Node::Strip(a, _) => {
                3.hash(h);
                hash_nodes(a, h)
            }
            Node::Words(a, _) => {
                4.hash(h);
                hash_nodes(a, h)
            }
            Node::Word(a, b, _) => {
                5.hash(h);
                hash_nodes(a, h);
                hash_nodes(b, h)
            }
        }
    }
}

fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// What separates words. Only ASCII: a no-break space is an ordinary character
fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\x0b' | '\x0c' | '\r')
}
/// Whether these separate or end anything is nobody's promise
fn is_odd(c: char) -> bool {
    matches!(c, '\x0b' | '\x0c' | '\r' | '\0')
}
fn odd_ends(t: &[TC]) -> bool {
    let mut v = t.iter().filter(|x| !is_blank(x.c));
    let (a, b) = (v.next(), v.next_back());
    a.map_or(false, |x| is_odd(x.c)) || b.map_or(false, |x| is_odd(x.c))
}
fn odd(t: &[TC]) -> bool {
    t.iter().any(|x| is_odd(x.c))
}
fn skip_blank(t: &[TC], mut p: usize) -> usize {
    while p < t.len() && is_blank(t[p].c) {
        p += 1;
    }
    p
}
fn trailing_backslashes(t: &[TC]) -> usize {
    t.iter().rev().take_while(|x| x.c == '\\').count()
}
pub fn starts_with(t: &[TC], w: &str) -> bool {
    let mut n = 0;
    for (i, c) in w.chars().enumerate() {
        if i >= t.len() || t[i].c != c {
            return false;
        }
        n += 1;
    }
    n <= t.len()
}
/// If the text starts with the whole word, the rest after the word
fn word_prefix<'a>(t: &'a [TC], w: &str) -> Option<&'a [TC]> {
    if !starts_with(t, w) {
        return None;
    }
    let rest = &t[w.chars().count()..];
    if rest.is_empty() || is_space(rest[0].c) {
        Some(rest)
    } else {
        None
    }
}
fn trim(t: &[TC]) -> &[TC] {
    let a = t.iter().position(|x| !is_space(x.c)).unwrap_or(t.len());
    let b = t.iter().rposition(|x| !is_space(x.c)).map_or(a, |x| x + 1);
    &t[a..b]
}

/// Split at the first unescaped stop character. Returns the text before it with its escapes removed,
/// and, if there was one, the position of the stop character.
pub fn unquote(t: &[TC], stop: impl Fn(char) -> bool, at_end: bool) -> R<(Text, Option<usize>)> {
    let mut out: Text = Vec::new();
    let mut p = 0;
    let mut seen = false;
    while p < t.len() {
        if t[p].c == '\\' {
            let mut e = p;
            while e < t.len() && t[e].c == '\\' {
                e += 1;
            }
            let n = e - p;
            if e < t.len() && stop(t[e].c) {
                seen = true;
                if n % 2 == 1 {
                    out.extend(&t[p..p + n / 2]);
                    out.push(t[e]);
                    p = e + 1;
                } else {
                    out.extend(&t[p..p + n / 2]);
                    return Ok((out, Some(e)));
                }
            } else if e == t.len() && at_end && n > 1 {
                // how many of several backslashes at the very end of a list survive
                let _ = seen;
                return unsup("backslashes at the end of a list");
            } else {
                out.extend(&t[p..e]);
                p = e;
            }
        } else if stop(t[p].c) {
            return Ok((out, Some(p)));
        } else {
            out.push(t[p]);
            p += 1;
        }
    }
    Ok((out, None))
}

/// Parse an expression
pub fn parse(t: &[TC]) -> R<Vec<Node>> {
    let mut out = Vec::new();
    let mut lit: Text = Vec::new();
    let mut p = 0;
    while p < t.len() {
        if t[p].c != '$' {
            lit.push(anew(t[p]));
            p += 1;
            continue;
        }
        if p + 1 == t.len() {
            lit.push(anew(t[p]));
            p += 1;
            continue;
        }
        let dollar = t[p].l;
        let c = t[p + 1].c;
        if c == '$' {
            lit.push(anew(t[p + 1]));
            p += 2;
            continue;
        }
        if !lit.is_empty() {
            out.push(Node::Lit(std::mem::take(&mut lit)));
        }
        if c == '(' || c == '{' {
            let close = if c == '(' { ')' } else { '}' };
            let mut count = 1;
            let mut e = p + 2;
            while e < t.len() {
                if t[e].c == c {
                    count += 1;
                } else if t[e].c == close {
                    count -= 1;
                    if count == 0 {
                        break;
                    }
                }
                e += 1;
            }
            if count > 0 {
                return err("UnternimatedVariable");
            }
            out.push(parse_inner(&t[p + 2..e], dollar)?);
            p = e + 1;
        } else {
            out.push(Node::Ref(vec![Node::Lit(vec![anew(t[p + 1])])], dollar));
            p += 2;
        }
    }
    if !lit.is_empty() {
        out.push(Node::Lit(lit));
    }
    Ok(out)
}

fn parse_inner(t: &[TC], dollar: Loc) -> R<Node> {
    for f in ["eval", "strip", "words", "word"].iter() {
        if starts_with(t, f) && t.len() > f.len() && is_blank(t[f.len()].c) {
            let args = &t[skip_blank(t, f.len())..];
            if *f == "eval" {
                return Ok(Node::Eval(parse(args)?, dollar));
            }
            // split at top-level commas
            let mut parts: Vec<&[TC]> = Vec::new();
            let (mut par, mut cur) = (0i32, 0i32);
            let mut start = 0;
            for (i, x) in args.iter().enumerate() {
                match x.c {
                    '(' => par += 1,
                    ')' => par -= 1,
                    '{' => cur += 1,
                    '}' => cur -= 1,
                    ',' if par == 0 && cur == 0 => {
                        parts.push(&args[start..i]);
                        start = i + 1;
                    }
                    _ => {}
                }
                if par < 0 || cur < 0 {
                    // hastur looks at one argument at a time, so which error it reports first depends
                    // on where the bracket is
                    return if parts.is_empty() {
                        err("UnternimatedVariable")
                    } else {
                        unsup("unbalanced bracket in a later argument")
                    };
                }
            }
            parts.push(&args[start..]);
            let want = if *f == "word" { 2 } else { 1 };
            let name = f;
            if parts.len() < want {
                return err(format!("InsufficientArguments({:?})", name));
            }
            if *f == "word" {
                // the index is parsed before the rest is looked at
                let index = parse(&parts[0][skip_blank(parts[0], 0)..])?;
                if parts.len() > want {
                    return err(format!("ExtraArguments({:?})", name));
                }
                let list = parse(&parts[1][skip_blank(parts[1], 0)..])?;
                return Ok(Node::Word(index, list, dollar));
            }
            if parts.len() > want {
                return err(format!("ExtraArguments({:?})", name));
            }
            let arg = parse(&parts[0][skip_blank(parts[0], 0)..])?;
            return Ok(if *f == "strip" { Node::Strip(arg, dollar) } else { Node::Words(arg, dollar) });
        }
    }
    Ok(Node::Ref(parse(t)?, dollar))
}

impl Model {
    /// Set a variable to a text from nowhere
    pub fn set_plain(&mut self, name: &str, text: &str) {
        let t = text.chars().map(|c| TC { c, l: Loc::Syn, taint: 0, path: 0 }).collect();
        self.vars.insert(name.into(), Rc::new(Var { flavor: Flavor::Recursive, value: vec![Piece::Done(t, 0)] }));
    }
    pub fn new(files: Rc<Files>, cmd_char: char) -> Model {
        Model {
            vars: BTreeMap::new(),
            rules: BTreeMap::new(),
            tvars: BTreeMap::new(),
            cmd_char,
            names: HashMap::new(),
            name_list: Vec::new(),
            too_many_names: false,
            files,
            root: String::new(),
            cwd: String::new(),
            written: Vec::new(),
            looked_up: 0,
            depth: 0,
            inc_depth: 0,
            steps: 0,
            max_depth: 0,
        }
    }

    pub fn bit(&mut self, name: &str) -> Mask {
        if let Some(b) = self.names.get(name) {
            return if *b < 128 { 1 << b } else { 0 };
        }
        let b = self.name_list.len() as u32;
        self.name_list.push(name.to_string());
        self.names.insert(name.to_string(), b);
        if b >= 128 {
            self.too_many_names = true;
            return 0;
        }
        1 << b
    }

    pub fn mask_names(&self, m: Mask) -> Vec<String> {
        let mut v: Vec<String> = (0..128)
            .filter(|b| m & (1u128 << b) != 0)
            .map(|b| self.name_list[b as usize].clone())
            .collect();
        v.sort();
        v
    }

    pub fn reset_depth(&mut self) {
        self.depth = 0;
        self.inc_depth = 0;
    }

    /// Hash what can be observed later, apart from locations (so layout doesn't make new states)
    pub fn hash_state<H: Hasher>(&self, h: &mut H) {
        for (k, v) in &self.vars {
            k.hash(h);
            v.flavor.hash(h);
            for p in &v.value {
                match p {
                    Piece::Ast(a) => hash_nodes(a, h),
                    Piece::Done(t, m) => {
                        hash_text(t, h);
                        m.hash(h);
                    }
                }
            }
        }
        for (k, r) in &self.rules {
            k.hash(h);
            r.double.hash(h);
            for d in &r.deps {
                hash_text(&d.text, h);
            }
            for c in &r.cmds {
                hash_nodes(c, h);
            }
        }
    }

    // ---- expansion ----

    pub fn eval(&mut self, nodes: &[Node]) -> R<(Text, Mask)> {
        let mut out = Vec::new();
        let mut mask = 0;
        for n in nodes {
            match n {
                Node::Lit(t) => out.extend_from_slice(t),
                Node::Ref(name, _) => {
                    let (name, m) = self.eval(name)?;
                    mask |= m;
                    let (t, m) = self.reference(&name)?;
                    mask |= m;
                    out.extend(t);
                }
                Node::Eval(arg, _) => {
                    let (t, m) = self.eval(arg)?;
                    mask |= m;
                    if self.depth > 700 {
                        return unsup("recursion");
                    }
                    self.depth += 1;
                    self.max_depth = self.max_depth.max(self.depth);
                    let saved = self.looked_up;
                    match self.process(&t, m) {
                        Ok(()) => {}
                        Err(Stop::Err(_)) => return unsup("error inside eval"),
                        Err(e) => return Err(e),
                    }
                    self.looked_up |= saved;
                    self.depth -= 1;
                }
                _ => return unsup("function"),
            }
        }
        Ok((out, mask))
    }

    fn reference(&mut self, name: &[TC]) -> R<(Text, Mask)> {
        // name:key=replacement
        let colon = name.iter().position(|x| x.c == ':');
        let eq = name.iter().rposition(|x| x.c == '=');
        if let (Some(colon), Some(eq)) = (colon, eq) {
            if colon < eq {
                let (value, mask) = self.deref(&s(&name[..colon]))?;
                let (key, rep) = (&name[colon + 1..eq], &name[eq + 1..]);
                let mut t = subst(&value, key, rep)?;
                came_through(&mut t, &name[..colon], Some((key, rep)));
                return Ok((t, mask));
            }
        }
        let (mut t, mask) = self.deref(&s(name))?;
        came_through(&mut t, name, None);
        Ok((t, mask))
    }

    fn deref(&mut self, name: &str) -> R<(Text, Mask)> {
        let bit = self.bit(name);
        self.looked_up |= bit;
        let var = match self.vars.get(name) {
            None => return Ok((vec![], bit)),
            Some(v) => v.clone(),
        };
        if self.depth > 700 {
            return unsup("recursion");
        }
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let (mut t, m) = self.pieces(&var.value)?;
        self.depth -= 1;
        self.looked_up |= m;
        for x in t.iter_mut() {
            // a value assigned by an eval is text of its own
            x.taint = (x.taint & m) | bit;
        }
        Ok((t, m | bit))
    }

    pub fn pieces(&mut self, pieces: &[Piece]) -> R<(Text, Mask)> {
        let mut out = vec![];
        let mut mask = 0;
        for p in pieces {
            match p {
                Piece::Ast(a) => {
                    let (t, m) = self.eval(a)?;
                    out.extend(t);
                    mask |= m;
                }
                Piece::Done(t, m) => {
                    out.extend_from_slice(t);
                    mask |= m;
                }
            }
            if out.len() > 1 << 20 {
                return unsup("huge value");
            }
        }
        Ok((out, mask))
    }

    // ---- reading ----

    pub fn read_source(&mut self, file: u16, text: &str) -> R<()> {
        self.process(&source(file, text), 0)
    }

    /// Read makefile text. `tmask`: the variables the text itself came from.
    pub fn process(&mut self, t: &[TC], tmask: Mask) -> R<()> {
        let mut rule: Option<Proto> = None;
        let r = self.process_lines(t, tmask, &mut rule);
        // the end of the text closes the open rule, also if an error ends it
        self.close(rule);
        r
    }

    fn process_lines(&mut self, t: &[TC], tmask: Mask, rule: &mut Option<Proto>) -> R<()> {
        let mut p = 0;
        if !t.is_empty() && t[0].c == '\u{feff}' {
            p = 1;
        }
        let mut conds: Vec<Cond> = Vec::new();
        let mut def: Option<Def> = None;

        while p < t.len() {
            self.steps += 1;
            self.looked_up = tmask;
            let live = conds.iter().all(|c| c.live);

            if let Some(mut d) = def.take() {
                p = self.define_line(t, p, &mut d)?;
                if d.nesting > 0 {
                    def = Some(d);
                } else if let Some(name) = d.name {
                    let ast = parse(&d.body)?;
                    self.assign(&name, d.op, ast)?;
                }
                continue;
            }

            // comment lines
            let q = skip_blank(t, p);
            if q < t.len() && t[q].c == '#' {
                p = comment_end(t, q);
                continue;
            }

            // recipe lines
            if let Some(r) = rule.as_mut() {
                if t[p].c == self.cmd_char {
                    let (text, np) = recipe_text(t, p + 1, self.cmd_char)?;
                    p = np;
                    // what a skipped line says doesn't matter
                    if live {
                        r.cmds.push(Rc::new(parse(&text)?));
                    }
                    continue;
                }
            }

            let line_start = p;
            let (line, np) = logical_line(t, p)?;
            p = np;
            if line.is_empty() {
                continue;
            }

            if self.conditional(&line, &mut conds, live)? {
                continue;
            }
            if !live {
                // no line in the body of a skipped define is anything else
                if self.starts_define(&line)? {
                    def = Some(Def { name: None, op: Op::Rec, body: vec![], nesting: 1, continued: false });
                }
                continue;
            }

            // every other line ends the rule, and what it expands comes after that
            self.close(rule.take());
            match self.variable_line(&line)? {
                VarLine::No => {}
                VarLine::Assign(name, op, value) => {
                    self.assign(&name, op, value)?;
                    continue;
                }
                VarLine::Define(name, op) => {
                    def = Some(Def { name: Some(name), op, body: vec![], nesting: 1, continued: false });
                    continue;
                }
            }

            let mut handled = false;
            for (w, soft) in [("include", false), ("-include", true), ("sinclude", true)].iter() {
                if let Some(rest) = word_prefix(&line, w) {
                    let ast = parse(rest)?;
                    self.include(&ast, *soft)?;
                    handled = true;
                    break;
                }
            }
            if handled {
                continue;
            }

            if t[line_start].c == self.cmd_char {
                return err("RecipeExpected");
            }

            *rule = self.rule_line(&line)?;
        }
        Ok(())
    }

    fn define_line(&mut self, t: &[TC], p: usize, d: &mut Def) -> R<usize> {
        let nl = t[p..].iter().position(|x| x.c == '\n').map(|x| x + p);
        let (end, next) = match nl {
            Some(nl) => (if nl > p && t[nl - 1].c == '\r' { nl - 1 } else { nl }, nl + 1),
            None => (t.len(), t.len()),
        };
        let body = &t[p..end];
        let backslashes = body.iter().rev().take_while(|x| x.c == '\\').count();
        // what continues another line and what is a recipe line is never a keyword
        let verbatim = d.continued || body.first().map_or(false, |x| x.c == self.cmd_char);
        // (a line that is only a line break leaves that to the next one)
        d.continued = backslashes % 2 == 1 && (verbatim || body.len() - skip_blank(body, 0) > 1);
        let w = if verbatim { &[][..] } else { &body[skip_blank(body, 0)..] };
        if odd(w) && (starts_with(w, "define") || starts_with(w, "endef")) {
            return unsup("control character in a directive");
        }
        if word_prefix(w, "define").is_some() {
            d.nesting += 1;
        } else if let Some(rest) = word_prefix(w, "endef") {
            let rest = trim(rest);
            if !rest.is_empty() && rest[0].c != '#' {
                if d.name.is_none() {
                    return unsup("malformed text in a skipped define");
                }
                return err("ExtraTokensAfter(\"endef\")");
            }
            d.nesting -= 1;
            if d.nesting == 0 {
                return Ok(next);
            }
        }
        d.body.extend_from_slice(body);
        if let Some(nl) = nl {
            d.body.push(t[nl]);
        }
        Ok(next)
    }

    /// Returns whether the line was a conditional
    fn conditional(&mut self, line: &[TC], conds: &mut Vec<Cond>, live: bool) -> R<bool> {
        let word: String = line.iter().map(|x| x.c).take_while(|c| c.is_ascii_alphabetic()).collect();
        let lower = word.to_lowercase();
        if !["ifeq", "ifneq", "ifdef", "ifndef", "else", "endif"].contains(&lower.as_str()) {
            return Ok(false);
        }
        let rest = &line[word.len()..];
        let at_end = rest.is_empty() || is_space(rest[0].c);
        let args = !rest.is_empty() && "(\"'".contains(rest[0].c) && (lower == "ifeq" || lower == "ifneq");
        if !at_end && !args {
            return Ok(false);
        }
        if word != lower {
            return unsup("upper case keyword");
        }
        if odd(rest) {
            return unsup("control character in a directive");
        }
        let rest = &rest[skip_blank(rest, 0)..];
        let r: String = rest.iter().take(3).map(|x| x.c).collect();
        if ["=", ":=", "::=", "?=", "+=", "!="].iter().any(|op| r.starts_with(op)) {
            // a variable may have such a name
            return Ok(false);
        }
        match word.as_str() {
            "ifdef" | "ifndef" => {
                if live {
                    return unsup("ifdef");
                }
                conds.push(Cond { live: false, seen_else: false });
            }
            "ifeq" | "ifneq" => {
                if !live {
                    conds.push(Cond { live: false, seen_else: false });
                } else {
                    let (a, b) = ifeq_args(rest)?;
                    let (a, _) = self.eval(&a)?;
                    let (b, _) = self.eval(&b)?;
                    let (a, b) = (s(&a), s(&b));
                    let space = |x: char| matches!(x, ' ' | '\t'..='\r');
                    let (a, b) = (a.trim_matches(space), b.trim_matches(space));
                    let ends = |x: char| x.is_whitespace() || is_odd(x);
                    if [a, b].iter().any(|x| x.starts_with(ends) || x.ends_with(ends)) {
                        // what else is trimmed
                        return unsup("odd space around an operand");
                    }
                    let eq = a == b;
                    conds.push(Cond { live: eq == (word == "ifeq"), seen_else: false });
                }
            }
            "else" => {
                if !rest.is_empty() {
                    let w: String = rest.iter().map(|x| x.c).take_while(|c| c.is_ascii_alphabetic()).collect();
                    if ["ifeq", "ifneq", "ifdef", "ifndef"].contains(&w.to_lowercase().as_str()) {
                        return unsup("else if");
                    }
                    return err("ExtraTokensAfter(\"else\")");
                }
                match conds.last_mut() {
                    None => return err("UnattachedElse"),
                    Some(c) if c.seen_else => return err("TooManyElses"),
                    Some(c) => {
                        c.live = !c.live;
                        c.seen_else = true;
                    }
                }
            }
            _ => {
                if !rest.is_empty() {
                    return err("ExtraTokensAfter(\"endif\")");
                }
                if conds.pop().is_none() {
                    return err("UnattachedEndIf");
                }
            }
        }
        Ok(true)
    }

    /// Whether a line in a skipped branch starts a define
    fn starts_define(&self, mut line: &[TC]) -> R<bool> {
        loop {
            if assignment(line).is_some() {
                return Ok(false);
            }
            let w = first_word(line);
            let lower = w.to_lowercase();
            match lower.as_str() {
                "define" | "export" | "override" | "private" => {
                    if w != lower {
                        return unsup("upper case keyword");
                    }
                    if odd(line) {
                        return unsup("control character in a line");
                    }
                    if lower == "define" {
                        return Ok(true);
                    }
                    line = &line[w.len()..];
                    line = &line[skip_blank(line, 0)..];
                }
                _ => return Ok(false),
            }
        }
    }

    fn variable_line(&mut self, line: &[TC]) -> R<VarLine> {
        if let Some((name, op, value)) = assignment(line) {
            if op == Op::Bang {
                return unsup("!=");
            }
            let name = parse(name)?;
            let value = parse(value)?;
            let (name, _) = self.eval(&name)?;
            if odd_ends(&name) {
                return unsup("control character around a name");
            }
            let name = s(trim(&name));
            if name.is_empty() {
                return unsup("empty variable name");
            }
            return Ok(VarLine::Assign(name, op, value));
        }
        if odd(line) {
            // includes, defines and rules
            return unsup("control character in a line");
        }
        let w = first_word(line);
        match w.to_lowercase().as_str() {
            "export" | "override" | "private" | "undefine" | "unexport" | "vpath" | "load" | "-load" => {
                return unsup("directive")
            }
            "include" | "-include" | "sinclude" | "define" if w != w.to_lowercase() => {
                return unsup("upper case keyword")
            }
            _ => {}
        }
        if w == "define" {
            let rest = &line["define".len()..];
            let rest = &rest[skip_blank(rest, 0)..];
            let (name, op) = match assignment(rest) {
                Some((name, op, value)) => {
                    if !value.is_empty() || op == Op::Bang {
                        return unsup("define with a value");
                    }
                    (name, op)
                }
                None => (rest, Op::Rec),
            };
            let name = parse(name)?;
            let (name, _) = self.eval(&name)?;
            if odd_ends(&name) {
                return unsup("control character around a name");
            }
            let name = s(trim(&name));
            if name.is_empty() || name.contains(is_space) {
                return unsup("name of a define");
            }
            return Ok(VarLine::Define(name, op));
        }
        Ok(VarLine::No)
    }

    fn assign(&mut self, name: &str, op: Op, ast: Vec<Node>) -> R<()> {
        self.bit(name);
        let old = self.vars.get(name).cloned();
        let new = match op {
            Op::Bang => return unsup("!="),
            Op::Cond => {
                if old.is_some() {
                    return Ok(());
                }
                Var { flavor: Flavor::Conditional, value: vec![Piece::Ast(Rc::new(ast))] }
            }
            Op::Rec => Var { flavor: Flavor::Recursive, value: vec![Piece::Ast(Rc::new(ast))] },
            Op::Simple => {
                let (t, m) = self.eval(&ast)?;
                Var { flavor: Flavor::Simple, value: vec![Piece::Done(t, m)] }
            }
            Op::Append => {
                let simple = old.as_ref().map_or(false, |v| v.flavor == Flavor::Simple);
                let piece = if simple {
                    let (t, m) = self.eval(&ast)?;
                    Piece::Done(t, m)
                } else {
                    Piece::Ast(Rc::new(ast))
                };
                // the expansion may have changed the variable
                match self.vars.get(name).cloned() {
                    None => Var { flavor: Flavor::Recursive, value: vec![piece] },
                    Some(v) => {
                        if simple != (v.flavor == Flavor::Simple) {
                            return unsup("append that redefines its own variable");
                        }
                        let mut v = (*v).clone();
                        v.value.push(Piece::Done(vec![syn(' ')], 0));
                        v.value.push(piece);
                        v
                    }
                }
            }
        };
        self.vars.insert(name.to_string(), Rc::new(new));
        Ok(())
    }

    fn include(&mut self, ast: &[Node], soft: bool) -> R<()> {
        let (t, m) = self.eval(ast)?;
        let names = file_list(&t, "", m)?;
        for n in names {
            let n = s(&n.text);
            let files = self.files.clone();
            match find_file(&files, &self.root, &self.cwd, &n)? {
                Err(kind) => {
                    if !soft {
                        return err(format!("IncludeFailure({}, {:?})", kind, n));
                    }
                }
                Ok(content) => {
                    if self.inc_depth > 70 {
                        return unsup("include recursion");
                    }
                    self.inc_depth += 1;
                    // text is located in the file as it was named
                    let id = match self.written.iter().position(|w| *w == n) {
                        Some(i) => i,
                        None => {
                            self.written.push(n);
                            self.written.len() - 1
                        }
                    };
                    if id >= 10000 {
                        return unsup("too many files");
                    }
                    let t = source(id as u16, content);
                    self.process(&t, 0)?;
                    self.inc_depth -= 1;
                }
            }
        }
        Ok(())
    }

    fn close(&mut self, p: Option<Proto>) {
        let p = match p {
            None => return,
            Some(p) => p,
        };
        for t in p.targets {
            let key = s(&t.text);
            let has = self.rules.contains_key(&key);
            if p.cmds.is_empty() && has {
                self.rules.get_mut(&key).unwrap().deps.extend(p.deps.iter().cloned());
            } else {
                self.rules.insert(
                    key,
                    Rule { target: t, deps: p.deps.clone(), cmds: p.cmds.clone(), double: p.double },
                );
            }
        }
    }

    fn rule_line(&mut self, line: &[TC]) -> R<Option<Proto>> {
        // everything after an unescaped semicolon is a command
        let (body, semi) = unquote(line, |c| c == ';' || c == '#', false)?;
        if let Some(i) = semi {
            if line[i].c == '#' {
                return unsup("escaped comment");
            }
        }
        let mut command: Option<Text> = semi.map(|i| line[i + 1..].to_vec());

        // expand word by word until a word contains an unescaped colon
        let mut targets: Text = Vec::new();
        let mut rest: &[TC] = &body;
        let mut after: Option<Text> = None;
        let mut any = false;
        loop {
            rest = &rest[skip_blank(rest, 0)..];
            if rest.is_empty() {
                break;
            }
            let n = word_len(rest)?;
            let (word, r) = rest.split_at(n);
            rest = r;
            if !any && word[0].c == ':' {
                // no targets at all
                return Ok(None);
            }
            any = true;
            if word[n - 1].c == ':' && !rest.is_empty() && rest[0].c == '\\' {
                return unsup("possible drive letter");
            }
            let (mut text, _) = self.expand(word)?;
            if command.is_none() {
                let (pre, semi) = unquote(&text, |c| c == ';', false)?;
                if let Some(i) = semi {
                    let mut c = text[i + 1..].to_vec();
                    let (more, _) = self.expand(rest)?;
                    c.extend(more);
                    rest = &rest[rest.len()..];
                    command = Some(c);
                    text = pre;
                }
            }
            if text.iter().any(|x| x.c == '\n') {
                return unsup("line break in a rule line");
            }
            let (pre, colon) = unquote(&text, |c| c == ':', false)?;
            if let Some(i) = colon {
                // drive letters
                if i + 1 < text.len() && (text[i + 1].c == '/' || text[i + 1].c == '\\') {
                    return unsup("possible drive letter");
                }
                if i + 1 == text.len() && !rest.is_empty() && rest[0].c == '\\' {
                    return unsup("possible drive letter");
                }
                after = Some(text[i + 1..].to_vec());
            }
            if !targets.is_empty() {
                targets.push(syn(' '));
            }
            targets.extend(pre);
            if after.is_some() {
                break;
            }
        }
        let mut after = match after {
            Some(a) => a,
            None => {
                if !any && command.is_some() {
                    return err("NoRuleRecipe");
                }
                if targets.iter().all(|x| is_blank(x.c)) {
                    if command.is_some() {
                        return unsup("command without targets");
                    }
                    return Ok(None);
                }
                return err("MissingSeparator");
            }
        };
        after.extend_from_slice(rest);
        let double = !after.is_empty() && after[0].c == ':';
        if double {
            after.remove(0);
        }
        if after.iter().any(|x| x.c == '=') {
            // substitution references are fine, target specific variables aren't
            let mut depth = 0;
            let mut prev = ' ';
            for x in after.iter() {
                match x.c {
                    '(' | '{' if prev == '$' || depth > 0 => depth += 1,
                    ')' | '}' if depth > 0 => depth -= 1,
                    '=' if depth == 0 => return unsup("target variable"),
                    _ => {}
                }
                prev = x.c;
            }
        }
        match first_word(trim(&after)).to_lowercase().as_str() {
            "export" | "override" | "private" | "undefine" | "define" => return unsup("target variable"),
            _ => {}
        }
        let (mut deps_text, _) = self.expand(&after)?;
        if command.is_none() {
            let (pre, semi) = unquote(&deps_text, |c| c == ';', false)?;
            if let Some(i) = semi {
                command = Some(deps_text[i + 1..].to_vec());
            }
            deps_text = pre;
        }
        if deps_text.iter().any(|x| x.c == '\n') {
            return unsup("line break in a rule line");
        }
        let cmds = match command {
            None => vec![],
            Some(c) => vec![Rc::new(parse(&c)?)],
        };
        // static pattern rules
        let mut n = 0;
        for x in &deps_text {
            if x.c == ':' && n % 2 == 0 {
                return unsup("static pattern rule");
            }
            n = if x.c == '\\' { n + 1 } else { 0 };
        }
        let upper = self.looked_up;
        let targets = file_list(&targets, "", upper)?;
        let deps = file_list(&deps_text, ":", upper)?;
        Ok(Some(Proto { targets, deps, cmds, double }))
    }

    fn expand(&mut self, t: &[TC]) -> R<(Text, Mask)> {
        let ast = parse(t)?;
        self.eval(&ast)
    }
}

enum VarLine {
    No,
    Assign(String, Op, Vec<Node>),
    Define(String, Op),
}

fn first_word(t: &[TC]) -> String {
    t.iter().map(|x| x.c).take_while(|c| !is_space(*c)).collect()
}

/// name, operator, value
fn assignment(t: &[TC]) -> Option<(&[TC], Op, &[TC])> {
    let mut stack: Vec<char> = vec![];
    let mut prev = ' ';
    let mut end = t.len();
    for (i, x) in t.iter().enumerate() {
        if (x.c == '(' || x.c == '{') && (prev == '$' || !stack.is_empty()) {
            stack.push(if x.c == '(' { ')' } else { '}' });
        } else if !stack.is_empty() && stack[stack.len() - 1] == x.c {
            stack.pop();
        } else if stack.is_empty() && (is_space(x.c) || ":=!?+".contains(x.c)) {
            end = i;
            break;
        }
        prev = x.c;
    }
    let rest = &t[skip_blank(t, end)..];
    for (w, op) in [
        ("=", Op::Rec),
        ("::=", Op::Simple),
        (":=", Op::Simple),
        ("?=", Op::Cond),
        ("!=", Op::Bang),
        ("+=", Op::Append),
    ]
    .iter()
    {
        if starts_with(rest, w) {
            let v = &rest[w.len()..];
            return Some((&t[..end], *op, &v[skip_blank(v, 0)..]));
        }
    }
    None
}

fn comment_end(t: &[TC], mut q: usize) -> usize {
    loop {
        match t[q..].iter().position(|x| x.c == '\n') {
            None => return t.len(),
            Some(n) => {
                let nl = q + n;
                let end = if nl > q && t[nl - 1].c == '\r' { nl - 1 } else { nl };
                if trailing_backslashes(&t[q..end]) % 2 == 0 {
                    return nl + 1;
                }
                q = nl + 1;
            }
        }
    }
}

/// The text up to a line break or comment: (end of the text, end reason, start of what follows)
fn grab(t: &[TC], p: usize) -> (usize, char, usize) {
    for i in p..t.len() {
        if t[i].c == '#' {
            return (i, '#', i);
        }
        if t[i].c == '\n' {
            let end = if i > p && t[i - 1].c == '\r' { i - 1 } else { i };
            return (end, '\n', i + 1);
        }
    }
    (t.len(), 'E', t.len())
}

fn recipe_text(t: &[TC], p: usize, cmd: char) -> R<(Text, usize)> {
    let mut out = vec![];
    let mut p = p;
    let mut first = true;
    loop {
        if !first && p < t.len() && t[p].c == cmd {
            p += 1;
        }
        first = false;
        let (e, why, next) = grab(t, p);
        out.extend_from_slice(&t[p..e]);
        p = next;
        match why {
            '#' => {
                if trailing_backslashes(&out) > 0 {
                    return unsup("backslash before a comment");
                }
                break;
            }
            'E' => {
                if trailing_backslashes(&out) % 2 == 1 {
                    return unsup("backslash at the end of the file");
                }
                break;
            }
            _ => {
                if trailing_backslashes(&out) % 2 == 0 {
                    break;
                }
                if p >= t.len() {
                    return unsup("backslash at the end of the file");
                }
                out.push(syn('\n'));
            }
        }
    }
    Ok((out, p))
}

fn logical_line(t: &[TC], mut p: usize) -> R<(Text, usize)> {
    let mut out: Text = vec![];
    loop {
        p = skip_blank(t, p);
        let (e, why, next) = grab(t, p);
        let mut piece = &t[p..e];
        p = next;
        let n = trailing_backslashes(piece);
        if n % 2 == 0 {
            if why == '#' && n > 0 {
                return unsup("backslash before a comment");
            }
            out.extend_from_slice(piece);
            if why == '#' {
                p = comment_end(t, p);
            }
            return Ok((out, p));
        }
        if why != '\n' || p >= t.len() {
            return unsup("backslash before a comment or the end");
        }
        if n == 1 {
            piece = &piece[..piece.len() - 1];
            while !piece.is_empty() && is_blank(piece[piece.len() - 1].c) {
                piece = &piece[..piece.len() - 1];
            }
        } else {
            piece = &piece[..piece.len() - n + n / 2];
        }
        if !piece.is_empty() {
            out.extend_from_slice(piece);
            out.push(syn(' '));
        }
    }
}

fn ifeq_args(t: &[TC]) -> R<(Vec<Node>, Vec<Node>)> {
    let bad = || Stop::Err("MalformedIfEq".into());
    if t.is_empty() {
        return Err(bad());
    }
    let p = |x: &[TC]| -> R<Vec<Node>> {
        match parse(x) {
            Err(Stop::Err(_)) => err("MalformedIfEq"),
            v => v,
        }
    };
    match t[0].c {
        '(' => {
            // a comma, then a closing parenthesis, outside of any others
            let mut depth = 0;
            let mut comma = None;
            let mut end = None;
            for (i, x) in t.iter().enumerate().skip(1) {
                match x.c {
                    '(' => depth += 1,
                    ')' => {
                        if depth == 0 {
                            if comma.is_none() {
                                return unsup("parentheses in ifeq");
                            }
                            end = Some(i);
                            break;
                        }
                        depth -= 1;
                    }
                    ',' if depth == 0 && comma.is_none() => comma = Some(i),
                    _ => {}
                }
            }
            match (comma, end) {
                (Some(c), Some(e)) => {
                    if !trim(&t[e + 1..]).is_empty() {
                        return unsup("text after ifeq");
                    }
                    let b = &t[c + 1..e];
                    Ok((p(&t[1..c])?, p(&b[skip_blank(b, 0)..])?))
                }
                _ => Err(bad()),
            }
        }
        '"' | '\'' => {
            let q = t[0].c;
            let e1 = t[1..].iter().position(|x| x.c == q).ok_or_else(bad)? + 1;
            let a = &t[1..e1];
            let r = &t[e1 + 1..];
            let r = &r[skip_blank(r, 0)..];
            if r.is_empty() || !(r[0].c == '"' || r[0].c == '\'') {
                return Err(bad());
            }
            let q = r[0].c;
            let e2 = r[1..].iter().position(|x| x.c == q).ok_or_else(bad)? + 1;
            if !trim(&r[e2 + 1..]).is_empty() {
                return unsup("text after ifeq");
            }
            Ok((p(a)?, p(&r[1..e2])?))
        }
        _ => Err(bad()),
    }
}

/// Length of the next word of a rule line
fn word_len(t: &[TC]) -> R<usize> {
    // these are words of their own
    for w in [";", "=", ":=", "::=", "::", ":", "+=", "?=", "!="].iter() {
        if starts_with(t, w) {
            return Ok(w.len());
        }
    }
    let mut i = 0;
    while i < t.len() {
        let c = t[i].c;
        if c == ' ' || c == '\t' || c == '=' {
            return Ok(i);
        }
        if c == ':' {
            return Ok(i + 1);
        }
        if c == '$' {
            i += 1;
            if i < t.len() {
                let open = t[i].c;
                if open == '(' || open == '{' {
                    let close = if open == '(' { ')' } else { '}' };
                    let mut n = 1;
                    while n > 0 {
                        i += 1;
                        if i >= t.len() {
                            return Ok(t.len());
                        }
                        if t[i].c == open {
                            n += 1;
                        } else if t[i].c == close {
                            n -= 1;
                        }
                    }
                }
                i += 1;
            }
            continue;
        }
        if c == '\\' && i + 1 < t.len() && ":;=\\".contains(t[i + 1].c) {
            i += 2;
            continue;
        }
        if (c == '?' || c == '+') && i + 1 < t.len() && t[i + 1].c == '=' {
            return Ok(i);
        }
        i += 1;
    }
    Ok(t.len())
}

/// The content of a file, or why it can't be opened. `root`: the directory, if it is mentioned
fn find_file<'a>(files: &'a Files, root: &str, cwd: &str, name: &str) -> R<Result<&'a str, &'static str>> {
    let path = if name.starts_with('/') {
        match name.strip_prefix(root) {
            Some(p) if !root.is_empty() && p.starts_with('/') => p.to_string(),
            _ => return unsup("file elsewhere"),
        }
    } else if cwd.is_empty() {
        name.to_string()
    } else {
        format!("{}/{}", cwd, name)
    };
    let file = |p: &str| files.iter().find(|f| f.0 == p && f.1.is_some());
    let dir = |p: &str| p.is_empty() || files.iter().any(|f| f.1.is_some() && f.0.starts_with(&format!("{}/", p)));
    let mut at = String::new();
    for c in path.split('/') {
        if c.len() > 200 {
            return unsup("long file name");
        }
        if file(&at).is_some() {
            return Ok(Err("NotADirectory"));
        }
        if !dir(&at) {
            return Ok(Err("NotFound"));
        }
        match c {
            "" | "." => {}
            ".." => match at.rfind('/') {
                Some(i) => at.truncate(i),
                None if at.is_empty() => return unsup("file elsewhere"),
                None => at.clear(),
            },
            c => {
                if !at.is_empty() {
                    at.push('/');
                }
                at += c;
            }
        }
    }
    match file(&at) {
        Some(f) => Ok(Ok(f.1.as_ref().unwrap())),
        None if dir(&at) => unsup("directory"),
        None => Ok(Err("NotFound")),
    }
}

/// Split into names at unescaped blanks
fn file_list(t: &[TC], extra: &str, upper: Mask) -> R<Vec<Name>> {
    let mut out = vec![];
    let mut p = skip_blank(t, 0);
    if odd(t) {
        return unsup("control character in a list");
    }
    while p < t.len() {
        let (name, stop) = unquote(&t[p..], |c| is_space(c) || extra.contains(c), true)?;
        if !name.is_empty() {
            out.push(Name { text: name, upper });
        }
        match stop {
            None => break,
            Some(i) => p += i + 1,
        }
    }
    Ok(out)
}

/// Substitution reference
pub fn subst(value: &[TC], key: &[TC], rep: &[TC]) -> R<Text> {
    let (pre, post): (Text, Text);
    let (rpre, rpost): (Text, Option<Text>);
    let (k, percent) = unquote(key, |c| c == '%', false)?;
    match percent {
        Some(i) => {
            pre = k;
            post = key[i + 1..].to_vec();
            let (r, rp) = unquote(rep, |c| c == '%', false)?;
            rpre = r;
            rpost = rp.map(|i| rep[i + 1..].to_vec());
        }
        None => {
            pre = vec![];
            post = k;
            rpre = vec![];
            rpost = Some(rep.to_vec());
        }
    }
    let same = |a: &[TC], b: &[TC]| a.iter().map(|x| x.c).eq(b.iter().map(|x| x.c));
    let mut out: Text = vec![];
    let mut first = true;
    for w in value.split(|x| is_blank(x.c)).filter(|w| !w.is_empty()) {
        if w.iter().any(|x| x.c == '\n' || is_odd(x.c)) {
            return unsup("line break in substituted value");
        }
        if !first {
            out.push(syn(' '));
        }
        first = false;
        let fits = w.len() >= pre.len() + post.len();
        if fits && same(&w[..pre.len()], &pre) && same(&w[w.len() - post.len()..], &post) {
            out.extend_from_slice(&rpre);
            if let Some(r) = &rpost {
                out.extend_from_slice(&w[pre.len()..w.len() - post.len()]);
                out.extend_from_slice(r);
            }
        } else {
            out.extend_from_slice(w);
        }
    }
    Ok(out)
}
