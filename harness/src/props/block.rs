//! C06 and C15: blocks, spans and located strings against flat text with one location per character
use super::Check;
use crate::run::{Space, Stats};
use hastur::evaluated::{self, Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::{LocatedString, Location};
use hastur::{FileName, NameCache};
use nom::{
    AtEof, Compare, CompareResult, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice,
};
use std::sync::Arc;

pub type Flat = Vec<(char, Location)>;

pub fn flat_str(f: &[(char, Location)]) -> String {
    f.iter().map(|x| x.0).collect()
}

fn advance(l: &Location, c: char) -> Location {
    match l {
        Location::SourceLocation { line, character, filename } => {
            if c == '\n' {
                Location::SourceLocation { line: line + 1, character: 1, filename: *filename }
            } else {
                Location::SourceLocation { line: *line, character: character + 1, filename: *filename }
            }
        }
        Location::EvalLocation { tree_node, line, character } => {
            if c == '\n' {
                Location::EvalLocation { tree_node: tree_node.clone(), line: line + 1, character: 1 }
            } else {
                Location::EvalLocation { tree_node: tree_node.clone(), line: *line, character: character + 1 }
            }
        }
        _ => l.clone(),
    }
}

fn located(l: &Location, t: &str) -> Flat {
    let mut l = l.clone();
    t.chars()
        .map(|c| {
            let n = advance(&l, c);
            (c, std::mem::replace(&mut l, n))
        })
        .collect()
}

/// The characters and locations a span reports through its segments
fn seen(s: &BlockSpan) -> Flat {
    let mut out = vec![];
    for seg in s.segments() {
        let t: String = seg.chars().collect();
        out.extend(located(seg.location(), &t));
    }
    out
}

macro_rules! want {
    ($what:expr, $got:expr, $want:expr) => {
        match (&$got, &$want) {
            (g, w) => {
                if *g != *w {
                    return Err(format!("{}: should be {:?}, is {:?}", $what, w, g));
                }
            }
        }
    };
}

fn basic(what: &str, s: &BlockSpan, f: &[(char, Location)]) -> Result<(), String> {
    let t = flat_str(f);
    want!(format!("{} len", what), s.len(), t.len());
    want!(format!("{} input_len", what), s.input_len(), t.len());
    want!(format!("{} into_string", what), s.into_string(), t);
    want!(format!("{} chars", what), s.chars().collect::<String>(), t);
    want!(format!("{} char_indices", what), s.char_indices().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>());
    want!(format!("{} segments and locations", what), seen(s), f.to_vec());
    want!(format!("{} location", what), s.location(), f.first().map(|x| x.1.clone()));
    Ok(())
}

fn boundaries(t: &str) -> Vec<usize> {
    t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect()
}

fn cmp_name(c: &CompareResult) -> &'static str {
    match c {
        CompareResult::Ok => "ok",
        CompareResult::Error => "error",
        CompareResult::Incomplete => "incomplete",
    }
}

/// Every operation on one span
fn operations(what: &str, s: &BlockSpan, f: &[(char, Location)]) -> Result<(), String> {
    let t = flat_str(f);
    want!(format!("{} at_eof", what), s.at_eof(), true);
    want!(format!("{} iter_indices", what), s.iter_indices().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>());
    want!(format!("{} iter_elements", what), s.iter_elements().collect::<String>(), t);
    let n = f.len();
    for k in 0..n + 2 {
        want!(
            format!("{} slice_index({})", what, k),
            s.slice_index(k),
            if k < n { Some(t.char_indices().nth(k).unwrap().0) } else if k == n { Some(t.len()) } else { None }
        );
    }
    let alphabet = ['a', 'b', 'é', '\n', ' ', 'z', '日', '😀', ';'];
    for c in alphabet {
        for neg in [false, true] {
            let pred = |x: char| (x == c) != neg;
            let pos = t.char_indices().find(|x| pred(x.1)).map(|x| x.0);
            want!(format!("{} position({:?},{})", what, c, neg), s.position(pred), pos);
            let cut = pos.unwrap_or(t.len());
            match s.split_at_position(pred) {
                Ok((rest, head)) => {
                    want!(format!("{} split_at_position({:?},{}) rest", what, c, neg), rest.into_string(), &t[cut..]);
                    want!(format!("{} split_at_position({:?},{}) head", what, c, neg), head.into_string(), &t[..cut]);
                    want!(format!("{} offset of the rest", what), s.offset(&rest), cut);
                    want!(format!("{} locations of the rest", what), seen(&rest), f[t[..cut].chars().count()..].to_vec());
                }
                Err(_) => return Err(format!("{} split_at_position({:?}) fails", what, c)),
            }
            match s.split_at_position1(pred, nom::ErrorKind::Alpha) {
                Ok((rest, head)) => {
                    if cut == 0 {
                        return Err(format!("{} split_at_position1({:?},{}) should fail", what, c, neg));
                    }
                    want!(format!("{} split_at_position1 rest", what), rest.into_string(), &t[cut..]);
                    want!(format!("{} split_at_position1 head", what), head.into_string(), &t[..cut]);
                }
                Err(nom::Err::Error(_)) if cut == 0 => {}
                Err(e) => return Err(format!("{} split_at_position1({:?},{}): {:?}", what, c, neg, e)),
            }
        }
    }
    for &k in &boundaries(&t) {
        want!(format!("{} take({})", what, k), s.take(k).into_string(), &t[..k]);
        let (rest, head) = s.take_split(k);
        want!(format!("{} take_split({}) rest", what, k), rest.into_string(), &t[k..]);
        want!(format!("{} take_split({}) head", what, k), head.into_string(), &t[..k]);
    }
    let b = boundaries(&t);
    let mut needles: Vec<String> = ["", "a", "b", "é", "ab", "A", "É", "\n", " ", "ba", "zz", "日", "😀", "aa", "éa"].iter().map(|x| x.to_string()).collect();
    for i in 0..b.len() {
        for j in i + 2..b.len() {
            needles.push(t[b[i]..b[j]].to_string());
        }
    }
    needles.push(t.clone() + "a");
    needles.push(t.to_uppercase());
    for x in &needles {
        let x: &str = x;
        want!(format!("{} find_substring({:?})", what, x), s.find_substring(x), t.find(x));
        want!(format!("{} compare({:?})", what, x), cmp_name(&s.compare(x)), cmp_name(&Compare::compare(&&t[..], x)));
        want!(
            format!("{} compare_no_case({:?})", what, x),
            cmp_name(&s.compare_no_case(x)),
            cmp_name(&Compare::compare_no_case(&&t[..], x))
        );
    }
    Ok(())
}

fn sens_of(b: &Block) -> Vec<hastur::VariableName> {
    let mut v: Vec<_> = b.sensitivity().cloned().collect();
    v.sort();
    v
}

/// Ways to copy a span, all of which keep text and locations
fn copies(what: &str, s: &BlockSpan, f: &[(char, Location)]) -> Result<(), String> {
    let t = flat_str(f);
    let b = s.to_new_block();
    basic(&format!("{} to_new_block", what), &b.span(), f)?;
    want!(format!("{} to_new_block text", what), b.into_string(), t);
    want!(format!("{} to_new_block len", what), b.len(), t.len());
    if !t.is_empty() {
        want!(format!("{} to_new_block sensitivity", what), sens_of(&b), sens_of(s.parent()));
    }
    let r = s.to_content_reference();
    content_reference(&format!("{} to_content_reference", what), &r, f)?;
    let mut wrapped = Block::default();
    wrapped.push(r.clone());
    basic(&format!("{} wrapped", what), &wrapped.span(), f)?;
    let mut joined = Block::default();
    joined.push_all_contents(*s);
    basic(&format!("{} push_all_contents", what), &joined.span(), f)?;
    if !t.is_empty() {
        want!(format!("{} push_all_contents sensitivity", what), sens_of(&joined), sens_of(s.parent()));
    }
    joined.push(ContentReference::space());
    joined.push_all_contents(b.span());
    joined.push(r);
    let mut ff = f.to_vec();
    ff.push((' ', Location::Synthetic));
    ff.extend_from_slice(f);
    ff.extend_from_slice(f);
    basic(&format!("{} joined three times", what), &joined.span(), &ff)?;
    let again = joined.span().to_new_block();
    basic(&format!("{} joined and copied", what), &again.span(), &ff)?;
    // a block pushed onto itself through a copy
    let mut own = Block::default();
    own.push_all_contents(*s);
    let copy = own.clone();
    own.push_all_contents(copy.span());
    let mut f2 = f.to_vec();
    f2.extend_from_slice(f);
    basic(&format!("{} doubled", what), &own.span(), &f2)?;
    basic(&format!("{} copy after the original grew", what), &copy.span(), f)
}

fn content_reference(what: &str, r: &ContentReference, f: &[(char, Location)]) -> Result<(), String> {
    let t = flat_str(f);
    want!(format!("{} chars", what), r.chars().collect::<String>(), t);
    want!(format!("{} char_indices", what), r.char_indices().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>());
    let mut buf = String::from("<");
    r.append_to_string(&mut buf);
    want!(format!("{} append_to_string", what), buf, format!("<{}", t));
    let mut out = vec![];
    for seg in r.segments() {
        let t: String = seg.chars().collect();
        out.extend(located(seg.location(), &t));
    }
    want!(format!("{} segments", what), out, f.to_vec());
    Ok(())
}

/// The complete battery for a block
pub fn battery(b: &Block, f: &[(char, Location)], nested: bool, st: &mut Stats) -> Result<(), String> {
    let t = flat_str(f);
    want!("block text", b.into_string(), t);
    want!("block len", b.len(), t.len());
    let s = b.span();
    if !std::ptr::eq(s.parent(), b) {
        return Err("the span of a block has another parent".into());
    }
    let mut content = String::new();
    for c in b.content() {
        c.append_to_string(&mut content);
    }
    want!("content", content, t);
    basic("span", &s, f)?;
    operations("span", &s, f)?;
    let bs = boundaries(&t);
    for (ci, &i) in bs.iter().enumerate() {
        basic(&format!("[{}..]", i), &s.slice(i..), &f[ci..])?;
        basic(&format!("[..{}]", i), &s.slice(..i), &f[..ci])?;
        want!(format!("offset of [{}..]", i), s.offset(&s.slice(i..)), i);
        for (cj, &j) in bs.iter().enumerate().skip(ci) {
            let what = format!("[{}..{}]", i, j);
            let s1 = s.slice(i..j);
            let f1 = &f[ci..cj];
            st.transitions += 1;
            basic(&what, &s1, f1)?;
            want!(format!("offset of {}", what), s.offset(&s1), i);
            operations(&what, &s1, f1)?;
            copies(&what, &s1, f1)?;
            basic(&format!("[{}..][..{}]", i, j - i), &s.slice(i..).slice(..j - i), f1)?;
            basic(&format!("[..{}][{}..]", j, i), &s.slice(..j).slice(i..), f1)?;
            if nested {
                let b2 = &bs[ci..=cj];
                for (ck, &k) in b2.iter().enumerate() {
                    for (cl, &l) in b2.iter().enumerate().skip(ck) {
                        let what = format!("[{}..{}][{}..{}]", i, j, k - i, l - i);
                        let s2 = s1.slice(k - i..l - i);
                        let f2 = &f1[ck..cl];
                        st.transitions += 1;
                        basic(&what, &s2, f2)?;
                        want!(format!("{} offset", what), s1.offset(&s2), k - i);
                        let nb = s2.to_new_block();
                        basic(&format!("{} copied", what), &nb.span(), f2)?;
                    }
                }
            }
        }
    }
    // nothing above changed it
    basic("the block afterwards", &b.span(), f)
}

/// For blocks too long for the complete battery: every cut, and every slice with an end at a few places
fn long_battery(b: &Block, f: &[(char, Location)], st: &mut Stats) -> Result<(), String> {
    let t = flat_str(f);
    want!("block text", b.into_string(), t);
    want!("block len", b.len(), t.len());
    let s = b.span();
    basic("span", &s, f)?;
    copies("span", &s, f)?;
    let bs = boundaries(&t);
    let some: Vec<usize> = (0..bs.len()).filter(|x| x % 61 == 0 || *x + 1 == bs.len()).collect();
    for (ci, &i) in bs.iter().enumerate() {
        let (x, y) = (s.slice(i..), s.slice(..i));
        st.transitions += 2;
        basic(&format!("[{}..]", i), &x, &f[ci..])?;
        basic(&format!("[..{}]", i), &y, &f[..ci])?;
        want!(format!("offset of [{}..]", i), s.offset(&x), i);
        want!(format!("slice_index({})", ci), s.slice_index(ci), Some(i));
        let (rest, head) = s.take_split(i);
        want!(format!("take_split({}) rest", i), rest.into_string(), &t[i..]);
        want!(format!("take_split({}) head", i), head.into_string(), &t[..i]);
        let want = t[i..].find('b').map(|p| i + p);
        want!(format!("[{}..] position", i), x.position(|c| c == 'b').map(|p| i + p), want);
        want!(format!("[{}..] find_substring", i), x.find_substring("b\na").map(|p| i + p), t[i..].find("b\na").map(|p| i + p));
        want!(format!("compare [{}..]", i), cmp_name(&s.compare(&t[i..])), cmp_name(&Compare::compare(&&t[..], &t[i..])));
        for &cj in some.iter().filter(|c| **c >= ci) {
            let j = bs[cj];
            st.transitions += 1;
            basic(&format!("[{}..{}]", i, j), &s.slice(i..j), &f[ci..cj])?;
            let c = x.slice(..j - i).to_new_block();
            basic(&format!("[{}..][..{}] copied", i, j - i), &c.span(), &f[ci..cj])?;
        }
    }
    want!("slice_index past the end", s.slice_index(f.len() + 1), None);
    want!("compare with itself", cmp_name(&s.compare(&t)), "ok");
    want!("compare with more", cmp_name(&s.compare(&(t.clone() + "x"))), "incomplete");
    Ok(())
}

// ---- building blocks ----

struct Maker {
    names: NameCache,
    file: FileName,
    next: u32,
}

impl Maker {
    fn new() -> Maker {
        let mut names = NameCache::default();
        let file = names.intern_file_name("f".into());
        Maker { names, file, next: 1 }
    }
    fn loc(&mut self) -> Location {
        let l = Location::SourceLocation { line: self.next, character: self.next + 2, filename: self.file };
        self.next += 10;
        l
    }
    fn constant_node(&mut self, t: &str) -> (EvaluatedNode, Flat) {
        let l = self.loc();
        (EvaluatedNode::Constant(LocatedString::verif_new(l.clone(), t.to_string())), located(&l, t))
    }
    fn sliced(&mut self, node: Arc<EvaluatedNode>, f: Flat, slicing: u64) -> (ContentReference, Flat) {
        let t = flat_str(&f);
        let n = f.len();
        let (a, b) = match slicing {
            0 => return (ContentReference::new_from_node(node), f),
            1 if n >= 2 => (1, n),
            2 if n >= 2 => (0, n - 1),
            3 if n >= 3 => (1, n - 1),
            4 if n >= 1 => (0, 0),
            5 if n >= 2 => (1, 2),
            _ => (0, n),
        };
        if n == 0 {
            return (ContentReference::new_from_node(node), f);
        }
        let bs = boundaries(&t);
        (ContentReference::new_from_node_slice(node, bs[a], bs[b] - bs[a]), f[a..b].to_vec())
    }
    fn base(&mut self, k: u64) -> (ContentReference, Flat) {
        const TEXTS: [&str; 6] = ["", "a", "ab", "é", "b\na", "😀b"];
        match k {
            0..=5 => {
                let (n, f) = self.constant_node(TEXTS[k as usize]);
                match n {
                    EvaluatedNode::Constant(s) => (evaluated::constant(s), f),
                    _ => unreachable!(),
                }
            }
            6 => (ContentReference::space(), vec![(' ', Location::Synthetic)]),
            7 => (ContentReference::newline(), vec![('\n', Location::Synthetic)]),
            8 => (ContentReference::semicolon(), vec![(';', Location::Synthetic)]),
            9 => {
                let (n, f) = self.constant_node("xa日by");
                self.sliced(Arc::new(n), f, 3)
            }
            _ => {
                let (n, f) = self.constant_node("é\nb");
                self.sliced(Arc::new(n), f, 1)
            }
        }
    }
    fn block(&mut self, pieces: Vec<(ContentReference, Flat)>, mode: u64) -> (Arc<Block>, Flat) {
        let mut f = vec![];
        let mut b = Block::default();
        for (r, x) in pieces {
            match mode {
                2 => {
                    let mut one = Block::default();
                    one.push(r);
                    b.push_all_contents(one.span());
                }
                _ => b.push(r),
            }
            f.extend(x);
        }
        let b = if mode == 1 { b.span().to_new_block() } else { Arc::new(b) };
        (b, f)
    }
    /// kind 0..5, slicing 0..6
    fn wrap(&mut self, b: Arc<Block>, f: Flat, kind: u64, slicing: u64) -> (ContentReference, Flat) {
        let extra = |m: &mut Maker| {
            let p = m.base(2);
            m.block(vec![p], 0).0
        };
        if slicing == 0 {
            match kind {
                0 => return (evaluated::concat(b), f),
                1 => {
                    let n = extra(self);
                    return (evaluated::variable_reference(n, b), f);
                }
                2 => {
                    let (n, k, r) = (extra(self), extra(self), extra(self));
                    return (evaluated::substitution_reference(n, k, r, b), f);
                }
                _ => {}
            }
        }
        let node = match kind {
            0 => EvaluatedNode::Concat(b),
            1 => {
                let n = extra(self);
                EvaluatedNode::VariableReference(evaluated::VariableReference::new(n, b))
            }
            2 => {
                let (n, k, r) = (extra(self), extra(self), extra(self));
                EvaluatedNode::SubstitutionReference(evaluated::SubstitutionReference::new(n, k, r, b))
            }
            _ => EvaluatedNode::Evaluated(evaluated::Evaluated::new(b)),
        };
        self.sliced(Arc::new(node), f, slicing)
    }
    /// A sequence of `n` base pieces out of `base`, decoded from `i`
    fn seq(&mut self, mut i: u64, base: &[u64], n: u64) -> Vec<(ContentReference, Flat)> {
        (0..n)
            .map(|_| {
                let k = base[(i % base.len() as u64) as usize];
                i /= base.len() as u64;
                self.base(k)
            })
            .collect()
    }
}

fn seq_count(base: u64, max: u64) -> u64 {
    (0..=max).map(|k| base.pow(k as u32)).sum()
}
fn seq_decode(mut i: u64, base: u64) -> (u64, u64) {
    let mut n = 0;
    loop {
        let c = base.pow(n as u32);
        if i < c {
            return (n, i);
        }
        i -= c;
        n += 1;
    }
}

pub struct BlockSpace {
    name: String,
    n: u64,
    nested: bool,
    long: bool,
    f: Box<dyn Fn(&mut Maker, u64) -> (Arc<Block>, Flat) + Send + Sync>,
}

impl Space for BlockSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut m = Maker::new();
        let (b, f) = (self.f)(&mut m, i);
        st.digest(&format!("{:?}", f));
        st.validated += 1;
        if self.long {
            long_battery(&b, &f, st)
        } else {
            battery(&b, &f, self.nested, st)
        }
    }
    fn describe(&self, i: u64) -> String {
        let mut m = Maker::new();
        let (b, f) = (self.f)(&mut m, i);
        format!("text {:?}\nblock {:?}", flat_str(&f), b)
    }
}

fn bs(name: &str, n: u64, nested: bool, f: impl Fn(&mut Maker, u64) -> (Arc<Block>, Flat) + Send + Sync + 'static) -> Box<dyn Space> {
    Box::new(BlockSpace { name: name.into(), n, nested, long: false, f: Box::new(f) })
}

/// Every character of the sweeps in every kind of place a block can have it: as a piece, sliced out of one, next to
/// others, wrapped
struct CharacterSpace;

impl Space for CharacterSpace {
    fn name(&self) -> String {
        "blocks/characters".into()
    }
    fn len(&self) -> u64 {
        super::sweep::characters().len() as u64
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let c = super::sweep::characters()[i as usize];
        // letter case of other alphabets is the library's: a comparison without case may go either way there
        let texts = [format!("{}", c), format!("a{}", c), format!("{}b", c), format!("b{}{}\na", c, c)];
        for t in texts {
            for w in 0..24 {
                let mut m = Maker::new();
                let (n, f) = m.constant_node(&t);
                let (r, f) = m.sliced(Arc::new(n), f, w % 6);
                let (b, f) = m.block(vec![(r, f)], w / 6 % 3);
                let r = m.wrap(b, f, w / 6, w % 3);
                let e = m.base(2);
                let (b, f) = m.block(vec![r, e], w % 3);
                st.validated += 1;
                let t = flat_str(&f);
                want!("block text", b.into_string(), t);
                let s = b.span();
                basic("span", &s, &f)?;
                copies("span", &s, &f)?;
                let bs = boundaries(&t);
                for (ci, &i) in bs.iter().enumerate() {
                    for (cj, &j) in bs.iter().enumerate().skip(ci) {
                        st.transitions += 1;
                        let what = format!("[{}..{}]", i, j);
                        let s1 = s.slice(i..j);
                        let f1 = &f[ci..cj];
                        basic(&what, &s1, f1)?;
                        copies(&what, &s1, f1)?;
                        want!(format!("offset of {}", what), s.offset(&s1), i);
                        let t1 = &t[i..j];
                        for p in [c, 'a', 'b', '\n'] {
                            want!(format!("{} position({:?})", what, p), s1.position(|x| x == p), t1.find(p));
                            want!(format!("{} find_substring({:?})", what, p), s1.find_substring(&p.to_string()[..]), t1.find(p));
                            want!(
                                format!("{} compare({:?})", what, p),
                                cmp_name(&s1.compare(&p.to_string()[..])),
                                cmp_name(&Compare::compare(&t1, &p.to_string()[..]))
                            );
                        }
                        for k in 0..f1.len() + 2 {
                            let want = boundaries(t1).get(k).cloned();
                            want!(format!("{} slice_index({})", what, k), s1.slice_index(k), want);
                        }
                    }
                }
            }
        }
        st.digest(&c);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", super::sweep::characters()[i as usize])
    }
}

const ALL: [u64; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
const FEW: [u64; 4] = [0, 2, 3, 9];

/// Blocks that reading makefiles produces, including their sensitivity
struct ReadSpace {
    name: String,
    g: crate::gen::G,
}

impl Space for ReadSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.g.len()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let text = self.g.get(i);
        let mut imp = crate::imp::Imp::new(std::path::Path::new("/nonexistent"), '\t');
        match imp.read(text.as_bytes(), "m.mk") {
            crate::imp::Out::Ok => {}
            _ => {
                st.skip("not accepted");
                return Ok(());
            }
        }
        let mut blocks: Vec<Arc<Block>> = vec![];
        let db = imp.e.database.clone();
        let mut names = db.verif_variables();
        names.sort();
        for n in names {
            let ast = db.get_variable(n).unwrap().ast().clone();
            blocks.push(ast.eval(&mut imp.n, &mut imp.e));
            imp.e.database = db.clone();
        }
        for r in db.rules() {
            blocks.push(r.target().clone());
            blocks.extend(r.dependencies().iter().cloned());
            for c in r.recipe().commands() {
                blocks.push(c.verif_ast().eval(&mut imp.n, &mut imp.e));
                imp.e.database = db.clone();
            }
        }
        for b in blocks {
            let f = seen(&b.span());
            st.digest(&format!("{:?}", f));
            st.validated += 1;
            battery(&b, &f, false, st).map_err(|e| format!("{:?}: {}", flat_str(&f), e))?;
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.g.get(i))
    }
}

pub fn c06(deep: bool) -> Check {
    let mut spaces = vec![];
    let d = if deep { 5 } else { 4 };
    spaces.push(bs("blocks/pushed", seq_count(11, if deep { 4 } else { 3 }) * 3, true, |m, i| {
        let (n, k) = seq_decode(i / 3, 11);
        let p = m.seq(k, &ALL, n);
        m.block(p, i % 3)
    }));
    spaces.push(bs("blocks/pushed-long", seq_count(4, d) * 3, true, |m, i| {
        let (n, k) = seq_decode(i / 3, 4);
        let p = m.seq(k, &FEW, n);
        m.block(p, i % 3)
    }));
    // slices of one node that all pieces share: in order, overlapping, with gaps, backwards, repeated
    const SHARED: [&str; 4] = ["abc", "é日b", "a\nb", "aa"];
    let cuts = 9u64; // a <= b, a < n, of 3 characters
    spaces.push(bs("blocks/same-node", 4 * 5 * 3 * seq_count(cuts, if deep { 4 } else { 3 }), false, move |m, i| {
        let (t, kind, mode, i) = (SHARED[(i % 4) as usize], i / 4 % 5, i / 20 % 3, i / 60);
        let (node, f) = m.constant_node(t);
        let node = Arc::new(node);
        let node = if kind == 0 {
            node
        } else {
            let mut b = Block::default();
            let cut = t.chars().next().map(|c| c.len_utf8()).unwrap();
            b.push(ContentReference::new_from_node_slice(node.clone(), 0, cut));
            b.push(ContentReference::new_from_node_slice(node, cut, t.len() - cut));
            let b = Arc::new(b);
            let extra = m.base(2);
            let extra = m.block(vec![extra], 0).0;
            Arc::new(match kind {
                1 => EvaluatedNode::Concat(b),
                2 => EvaluatedNode::VariableReference(evaluated::VariableReference::new(extra, b)),
                3 => EvaluatedNode::SubstitutionReference(evaluated::SubstitutionReference::new(extra.clone(), extra.clone(), extra, b)),
                _ => EvaluatedNode::Evaluated(evaluated::Evaluated::new(b)),
            })
        };
        let bd = boundaries(t);
        let (n, mut k) = seq_decode(i, cuts);
        let mut pieces = vec![];
        for _ in 0..n {
            let c = (k % cuts) as usize;
            k /= cuts;
            // the c-th pair a <= b
            let (mut a, mut b) = (0, c);
            while b > 3 - a {
                b -= 4 - a;
                a += 1;
            }
            let (a, b) = (a.min(f.len() - 1), (a + b).min(f.len()));
            pieces.push((ContentReference::new_from_node_slice(node.clone(), bd[a], bd[b] - bd[a]), f[a..b].to_vec()));
        }
        m.block(pieces, mode)
    }));
    // inner(<=2 of 11) wrapped as every kind of node, every slicing, between other pieces
    let inner = seq_count(11, 2);
    spaces.push(bs("blocks/wrapped", inner * 4 * 6 * 3 * 3, true, move |m, i| {
        let (n, k) = seq_decode(i % inner, 11);
        let (kind, sl, around, mode) = (i / inner % 4, i / inner / 4 % 6, i / inner / 24 % 3, i / inner / 72);
        let p = m.seq(k, &ALL, n);
        let (b, f) = m.block(p, 0);
        let w = m.wrap(b, f, kind, sl);
        let pieces = match around {
            0 => vec![w],
            1 => {
                let x = m.base(3);
                vec![x, w]
            }
            _ => {
                let (x, y) = (m.base(0), m.base(2));
                vec![x, w, y]
            }
        };
        m.block(pieces, mode)
    }));
    // pairs of wrapped pieces
    let one = seq_count(4, if deep { 2 } else { 1 }) * 4 * 4;
    spaces.push(bs("blocks/wrapped-pairs", one * one * 3, false, move |m, i| {
        let (mode, i) = (i % 3, i / 3);
        let mut pieces = vec![];
        for x in [i % one, i / one] {
            let (n, k) = seq_decode(x / 16, 4);
            let p = m.seq(k, &FEW, n);
            let (b, f) = m.block(p, 0);
            pieces.push(m.wrap(b, f, x % 4, x / 4 % 4));
        }
        m.block(pieces, mode)
    }));
    // wrapped twice, sliced at both levels
    let base: &'static [u64] = &[2, 3, 9];
    spaces.push(bs("blocks/nested", seq_count(3, 2) * 3 * 24 * 24 * 3, false, move |m, i| {
        let (n, k) = seq_decode(i % 13, 3);
        let i = i / 13;
        let (inner_mode, w1, w2, mode) = (i % 3, i / 3 % 24, i / 72 % 24, i / 1728);
        let p = m.seq(k, base, n);
        let (b, f) = m.block(p, inner_mode);
        let w = m.wrap(b, f, w1 % 4, w1 / 4);
        let e = m.base(2);
        let (b, f) = m.block(vec![w, e], inner_mode);
        let w = m.wrap(b, f, w2 % 4, w2 / 4);
        let y = m.base(3);
        m.block(vec![w, y], mode)
    }));
    // deep towers of the same wrapping
    spaces.push(bs("blocks/towers", 24 * 8 * 3, true, |m, i| {
        let (w, h, mode) = (i % 24, i / 24 % 8, i / 192);
        let p = m.seq(0, &[2, 3], 1);
        let q = m.base(5);
        let mut x = p;
        x.push(q);
        let (mut b, mut f) = m.block(x, mode);
        for _ in 0..h {
            let w = m.wrap(b, f, w % 4, w / 4);
            let e = m.base(3);
            let r = m.block(vec![w, e], mode);
            b = r.0;
            f = r.1;
            if f.len() > 7 {
                let cut = f[0].0.len_utf8() + f[1].0.len_utf8();
                let s = b.span().slice(cut..b.len()).to_new_block();
                b = s;
                f = f[2..].to_vec();
            }
        }
        (b, f)
    }));
    // a long block of many pieces
    spaces.push(bs("blocks/many-pieces", if deep { 60 } else { 24 }, false, |m, i| {
        let p: Vec<_> = (0..i).map(|j| m.base(j % 11)).collect();
        m.block(p, i % 3)
    }));
    spaces.push(Box::new(CharacterSpace));
    // text of many characters in few pieces, and of many pieces
    let lengths: &'static [usize] = if deep { &[60, 250, 255, 256, 257, 510, 512, 1000, 2000] } else { &[60, 127, 128, 129, 255, 256, 257, 300, 520] };
    spaces.push(Box::new(BlockSpace {
        name: "blocks/long".into(),
        n: lengths.len() as u64 * 4 * 3 * 3,
        nested: false,
        long: true,
        f: Box::new(move |m, i| {
            let n = lengths.len() as u64;
            let (len, unit, shape, mode) = (lengths[(i % n) as usize], i / n % 4, i / n / 4 % 3, i / n / 12);
            let unit = ["a", "b\na", "é", "日😀"][unit as usize];
            let chars: Vec<char> = unit.chars().cycle().take(len).collect();
            match shape {
                0 => {
                    let (x, f) = m.constant_node(&chars.iter().collect::<String>());
                    let r = (ContentReference::new_from_node(Arc::new(x)), f);
                    m.block(vec![r], mode)
                }
                1 => {
                    let p = chars
                        .iter()
                        .map(|c| {
                            let (x, f) = m.constant_node(&c.to_string());
                            (ContentReference::new_from_node(Arc::new(x)), f)
                        })
                        .collect();
                    m.block(p, mode)
                }
                _ => {
                    let mut pieces = vec![];
                    for (k, part) in chars.chunks(7).enumerate() {
                        let (x, f) = m.constant_node(&part.iter().collect::<String>());
                        let r = m.sliced(Arc::new(x), f, k as u64 % 4);
                        let (b, f) = m.block(vec![r], k as u64 % 3);
                        pieces.push(m.wrap(b, f, k as u64 % 4, k as u64 / 4 % 4));
                    }
                    m.block(pieces, mode)
                }
            }
        }),
    }));
    let gr = crate::gen::Grammar::new(&[
        ("W", "x¦é¦$a¦$(b)¦$(a:x=y)¦$$¦ ¦$(u)"),
        ("OP", "=¦:=¦+="),
    ]);
    spaces.push(Box::new(ReadSpace { name: "blocks/read-values".into(), g: gr.g(if deep { "a=x é\nb:=y$(a)\nv‹OP›‹W›‹W›«¦‹W›»\nv+=$(a)‹W›\n" } else { "a=x é\nb:=y$(a)\nv‹OP›‹W›‹W›\nv+=$(a)‹W›\n" }) }));
    spaces.push(Box::new(ReadSpace { name: "blocks/read-rules".into(), g: gr.g(if deep { "a=x é\nb:=y$(a)\nt‹W›: ‹W›‹W› d\n\tc ‹W›\\\n\t‹W›\n" } else { "a=x é\nb:=y$(a)\nt‹W›: ‹W›‹W› d\n\tc \\\n\t‹W›\n" }) }));
    Check {
        spaces,
        notes: vec!["blocks are built through the public constructors and observed through every public method and nom trait of spans".into()],
    }
}

// ---- C15 ----

/// Locations, each with what it is compared by: its source, line and character
fn all_locations(names: &mut NameCache, hi: u32, wide: bool) -> Vec<(Location, (usize, u32, u32))> {
    let f = names.intern_file_name("f".into());
    let g = names.intern_file_name("g".into());
    let h = names.intern_file_name("h".into());
    let mut v = vec![(Location::Synthetic, (0, 0, 0))];
    let mut vals: Vec<u32> = (1..=hi).collect();
    vals.push(0);
    vals.push(u32::MAX - 1);
    if wide {
        vals.extend([255, 256, 4095, 4096, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX]);
    }
    for (k, file) in [f, g, h].iter().enumerate() {
        for &line in if k < 2 { &vals[..] } else { &vals[..2] } {
            for &character in if k < 2 { &vals[..] } else { &vals[..2] } {
                v.push((Location::SourceLocation { line, character, filename: *file }, (1 + k, line, character)));
            }
        }
    }
    // evaluations with texts of the same and of different lengths, and the same text from different places
    let one = |c: ContentReference| {
        let mut b = Block::default();
        b.push(c);
        b
    };
    let constant = |t: &str, line, character| {
        let l = Location::SourceLocation { line, character, filename: f };
        one(ContentReference::new_from_node(Arc::new(EvaluatedNode::Constant(LocatedString::verif_new(l, t.to_string())))))
    };
    let mut two = one(ContentReference::space());
    two.push(ContentReference::space());
    let blocks = vec![
        one(ContentReference::space()),
        Block::default(),
        one(ContentReference::newline()),
        constant(" ", 1, 1),
        constant(" ", 1, 2),
        constant(" ", 2, 1),
        constant("x", 1, 1),
        constant("y", 1, 1),
        constant("xy", 1, 1),
        constant("yx", 1, 1),
        two,
    ];
    for (k, b) in blocks.into_iter().enumerate() {
        let b = Arc::new(b);
        for &line in if k < 2 { &vals[..] } else { &vals[..2] } {
            for &character in if k < 2 { &vals[..] } else { &vals[..2] } {
                v.push((Location::EvalLocation { tree_node: b.clone(), line, character }, (10 + k, line, character)));
            }
        }
    }
    v
}

struct OrderSpace {
    hi: u32,
    triples: bool,
}

impl Space for OrderSpace {
    fn name(&self) -> String {
        if self.triples { "locations/triples".into() } else { "locations/pairs".into() }
    }
    fn len(&self) -> u64 {
        all_locations(&mut NameCache::default(), self.hi, !self.triples).len() as u64
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        use std::cmp::Ordering::*;
        let v = all_locations(&mut NameCache::default(), self.hi, !self.triples);
        let (a, ka) = &v[i as usize];
        for (b, kb) in &v {
            let want = if ka.0 == kb.0 { Some((ka.1, ka.2).cmp(&(kb.1, kb.2))) } else { None };
            st.validated += 1;
            st.transitions += 1;
            let got = a.partial_cmp(b);
            if got != want {
                return Err(format!("{:?} compared to {:?} should be {:?}, is {:?}", a, b, want, got));
            }
            want!(format!("{:?} == {:?}", a, b), a == b, want == Some(Equal));
            want!(format!("{:?} != {:?}", a, b), a != b, want != Some(Equal));
            want!(format!("{:?} < {:?}", a, b), a < b, want == Some(Less));
            want!(format!("{:?} <= {:?}", a, b), a <= b, matches!(want, Some(Less | Equal)));
            want!(format!("{:?} > {:?}", a, b), a > b, want == Some(Greater));
            want!(format!("{:?} >= {:?}", a, b), a >= b, matches!(want, Some(Greater | Equal)));
            // located text is ordered as its location
            for (s, t) in [("x", "y"), ("y", "x"), ("x", "x"), ("", "x"), ("", "")] {
                let (x, y) = (LocatedString::verif_new(a.clone(), s.into()), LocatedString::verif_new(b.clone(), t.into()));
                want!(format!("{:?} at {:?} and {:?} at {:?}", s, a, t, b), x.partial_cmp(&y), want);
                want!(format!("{:?} at {:?} and {:?} at {:?}, borrowed", s, a, t, b), x.as_str().partial_cmp(&y.as_str()), want);
                want!(format!("{:?} at {:?} == {:?} at {:?}", s, a, t, b), x == y, s == t && want == Some(Equal));
                want!("location of located text", x.location().clone(), a.clone());
                want!("located text", &x[..], s);
            }
            st.digest(&(ka, kb));
            if self.triples {
                for (c, _) in &v {
                    st.transitions += 1;
                    if a < b && b < c && !(a < c) {
                        return Err(format!("not transitive: {:?} < {:?} < {:?}", a, b, c));
                    }
                    if a <= b && b <= c && !(a <= c) {
                        return Err(format!("not transitive: {:?} <= {:?} <= {:?}", a, b, c));
                    }
                    if a == b && a.partial_cmp(c) != b.partial_cmp(c) {
                        return Err(format!("equal locations order differently: {:?} {:?} {:?}", a, b, c));
                    }
                }
            }
            // the same evaluation seen through another copy of its block: == and the order agree
            if let Location::EvalLocation { tree_node, line, character } = b {
                let b = Location::EvalLocation { tree_node: Arc::new((**tree_node).clone()), line: *line, character: *character };
                want!(format!("{:?} == {:?} and compared", a, b), a.partial_cmp(&b) == Some(Equal), *a == b);
                want!(format!("{:?} and {:?}, both ways", a, b), b.partial_cmp(a), a.partial_cmp(&b).map(|x| x.reverse()));
            }
            if let (Some(x), Some(y)) = (a.partial_cmp(b), b.partial_cmp(a)) {
                if x != y.reverse() {
                    return Err(format!("not antisymmetric: {:?} {:?}", a, b));
                }
            }
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?} against all others", all_locations(&mut NameCache::default(), self.hi, !self.triples)[i as usize].0)
    }
}

struct SliceSpace {
    max: u64,
    far: &'static [u32],
}
/// Lines and columns just before powers of two and ten
const FAR: &[u32] = &[9, 98, 126, 254, 255, 998, 9998, 32766, 65534, 65535, 99998, (1 << 20) - 2, (1 << 24) - 2, (1 << 31) - 2, u32::MAX - 9];
const SLICE_CHARS: [&str; 7] = ["a", "\n", "é", "\r", "日", "\t", "😀"];

impl SliceSpace {
    fn text(&self, i: u64) -> String {
        let (n, mut k) = seq_decode(i, 7);
        (0..n)
            .map(|_| {
                let c = SLICE_CHARS[(k % 7) as usize];
                k /= 7;
                c
            })
            .collect()
    }
}

impl Space for SliceSpace {
    fn name(&self) -> String {
        if self.far.is_empty() { "locations/slices".into() } else { "locations/slices-far".into() }
    }
    fn len(&self) -> u64 {
        seq_count(7, self.max)
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let t = self.text(i);
        let mut names = NameCache::default();
        let f = names.intern_file_name("f".into());
        let b = Arc::new(Block::default());
        let mut starts = vec![Location::Synthetic];
        for (line, character) in [(1, 1), (7, 12), (3, 4)].iter().copied().chain(self.far.iter().map(|x| (*x, *x))) {
            starts.push(Location::SourceLocation { line, character, filename: f });
            starts.push(Location::EvalLocation { tree_node: b.clone(), line, character });
        }
        for start in starts {
            let flat = located(&start, &t);
            let s = LocatedString::verif_new(start.clone(), t.clone());
            want!("len", s.len(), t.len());
            want!("as_str", s.as_str().chars().collect::<String>(), t);
            want!("as_str location", s.as_str().location().clone(), start);
            let bs = boundaries(&t);
            for (ci, &x) in bs.iter().enumerate() {
                for (cj, &y) in bs.iter().enumerate().skip(ci) {
                    if x >= t.len() {
                        continue;
                    }
                    st.transitions += 1;
                    st.validated += 1;
                    let what = format!("{:?} sliced at {} for {} bytes", t, x, y - x);
                    let o = s.slice(x, y - x);
                    let r = s.as_str().slice(x, y - x);
                    want!(what, o.chars().collect::<String>(), &t[x..y]);
                    want!(what, r.chars().collect::<String>(), &t[x..y]);
                    want!(format!("{} location", what), o.location().clone(), flat[ci].1.clone());
                    want!(format!("{} location (borrowed)", what), r.location().clone(), flat[ci].1.clone());
                    // a slice of a slice
                    for (ck, &z) in bs.iter().enumerate().take(cj).skip(ci) {
                        let r2 = r.slice(z - x, y - z);
                        let o2 = o.slice(z - x, y - z);
                        st.transitions += 1;
                        want!(format!("{} and again at {}", what, z - x), r2.chars().collect::<String>(), &t[z..y]);
                        want!(format!("{} and again at {} location", what, z - x), r2.location().clone(), flat[ck].1.clone());
                        want!(format!("{} and again at {} (owned)", what, z - x), o2.chars().collect::<String>(), &t[z..y]);
                        want!(format!("{} and again at {} location (owned)", what, z - x), o2.location().clone(), flat[ck].1.clone());
                    }
                }
            }
        }
        st.digest(&t);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.text(i))
    }
}

/// Text positions as they come out of reading: order in the file is order of locations
struct ReadOrderSpace {
    g: crate::gen::G,
}

impl Space for ReadOrderSpace {
    fn name(&self) -> String {
        "locations/read".into()
    }
    fn len(&self) -> u64 {
        self.g.len()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let text = self.g.get(i);
        let mut imp = crate::imp::Imp::new(std::path::Path::new("/nonexistent"), '\t');
        match imp.read(text.as_bytes(), "m.mk") {
            crate::imp::Out::Ok => {}
            _ => {
                st.skip("not accepted");
                return Ok(());
            }
        }
        let db = imp.e.database.clone();
        let id = imp.n.variable_name("v").ok_or("v is not interned")?;
        let v = db.get_variable(id).ok_or("v is not defined")?.ast().clone();
        let b = v.eval(&mut imp.n, &mut imp.e);
        let f = seen(&b.span());
        let file = imp.n.file_name("m.mk").ok_or("the makefile is not interned")?;
        // where each character really is
        let src = located(&Location::SourceLocation { line: 1, character: 1, filename: file }, &text);
        st.validated += 1;
        st.digest(&text);
        let mut last: Option<(usize, Location)> = None;
        for (c, l) in &f {
            if let Location::Synthetic = l {
                continue;
            }
            let at = src.iter().position(|x| x.1 == *l).ok_or(format!("{:?} is no place in the text", l))?;
            want!(format!("character at {:?}", l), *c, src[at].0);
            if let Some((p, pl)) = &last {
                st.transitions += 1;
                want!(format!("order of {:?} and {:?}", pl, l), pl.partial_cmp(l), Some(p.cmp(&at)));
            }
            last = Some((at, l.clone()));
        }
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("{:?}", self.g.get(i))
    }
}

pub fn c15(deep: bool) -> Check {
    let gr = crate::gen::Grammar::new(&[("W", "a¦é¦b c¦日¦\\\n¦ \\\n  ¦ \\\r\n\t¦$x¦$(x)")]);
    let spaces: Vec<Box<dyn Space>> = vec![
        Box::new(OrderSpace { hi: if deep { 8 } else { 4 }, triples: false }),
        Box::new(OrderSpace { hi: if deep { 6 } else { 3 }, triples: true }),
        Box::new(SliceSpace { max: if deep { 7 } else { 5 }, far: &[] }),
        Box::new(SliceSpace { max: if deep { 5 } else { 4 }, far: FAR }),
        Box::new(ReadOrderSpace { g: gr.g(if deep { "«¦\n¦# é\n¦\r\n»x=é q\nv=«‹W›»*1-5;z\nw=$(v)\n" } else { "«¦\n¦# é\n¦\r\n»x=é q\nv=«‹W›»*1-4;z\nw=$(v)\n" }) }),
    ];
    Check { spaces, notes: vec!["evaluations that produced equal blocks are not told apart".into()] }
}
