//! C11: every text is read to an answer, and errors leave everything else alone
use super::*;
use crate::cmp::{main_name, outcome_diff, run_model, state_diff, BOTH};
use crate::imp::{Imp, Out};
use crate::model::{Model, Stop};

/// Panic sites that are known findings: (property, part of the message), from known-findings.txt
pub fn known_sites() -> Vec<(String, String)> {
    std::fs::read_to_string(crate::verif_dir().join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: property=")?;
            let (p, rest) = rest.split_once(' ')?;
            let m = rest.split_once("panic=\"")?.1.split_once('"')?.0;
            Some((p.to_string(), m.to_string()))
        })
        .collect()
}

/// The findings that are not repaired, and whether they still happen. Runs in a process of its own.
pub const FINDINGS: [(&str, &str, &str); 2] = [
    ("eval-error", "x=1\n$(eval word)\ny=2\n", "malformed text inside $(eval ...) panics (src/ast/mod.rs, \"TODO: error routing for this parse\"): x=1, $(eval word)"),
    ("self-reference", "a = $(a)\nb := $(a)\n", "expanding a recursive variable that refers to itself overflows the stack: a = $(a), b := $(a)"),
];

/// 10: happens by panicking. Overflowing the stack ends the process.
pub fn finding(id: &str) -> i32 {
    let f = FINDINGS.iter().find(|f| f.0 == id).expect("finding");
    let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
    match imp.read(f.1.as_bytes(), "main0.mk") {
        Out::Panic(_) => 10,
        _ => 0,
    }
}

pub fn is_listed(property: &str, id: &str) -> bool {
    let start = format!("finding: property={} id={} ", property, id);
    std::fs::read_to_string(crate::verif_dir().join("known-findings.txt")).unwrap_or_default().lines().any(|l| l.starts_with(&start))
}

pub struct Robust {
    pub name: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64) -> String + Send + Sync>,
    pub known: Vec<String>,
}

/// Might expanding this text never end?
fn may_recurse(t: &str) -> bool {
    t.contains('$') && (t.contains('=') || t.contains("define")) || t.contains("include")
}

impl Space for Robust {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let text = (self.f)(i);
        let case = Case::from_text(&text);
        let (m, outs) = run_model(&case);
        st.transitions += m.steps;
        st.state(&m, outs.last().unwrap());
        let unsup = match outs.last() {
            Some(Err(Stop::Unsup(w))) => Some(*w),
            _ => None,
        };
        if let Some(w) = unsup {
            if w != "error inside eval" && may_recurse(&text) || w == "recursion" {
                // may overflow the stack for real, which is a known finding
                st.skip(&format!("not read: {}", w));
                return Ok(());
            }
        }
        let dir = st.scratch(&case.files)?;
        let mut imp = Imp::new(&dir, case.cmd_char);
        for (k, t) in case.mains.iter().enumerate() {
            let got = imp.read(t.as_bytes(), &main_name(k));
            if let (Some(w), true) = (unsup, k + 1 >= outs.len()) {
                // outside of the subset: still an answer, or a declared gap
                st.validated += 1;
                return match got {
                    Out::Panic(p) => {
                        if p.starts_with("not implemented") {
                            st.outcome("not implemented");
                            Ok(())
                        } else if self.known.iter().any(|k| w == "error inside eval" || p.contains(&k[..])) {
                            st.finding(&p);
                            Ok(())
                        } else {
                            Err(format!("panics: {}", p))
                        }
                    }
                    Out::Ok if w == "error inside eval" => Err("malformed text inside an eval is accepted".into()),
                    _ if w == "error inside eval" => Ok(()),
                    _ => {
                        st.skip(&format!("answered: {}", w));
                        Ok(())
                    }
                };
            }
            outcome_diff(k, &outs[k], &got)?;
        }
        st.validated += 1;
        state_diff(&m, &mut imp, &case.files, &BOTH, st)?;
        // the engine can go on
        let (r, t) = ("next=$(a)n\nnext.t: d\n\tnc\n", case.mains.len());
        let mut m = m;
        let want = m.read_source(10000 + t as u16, r);
        m.reset_depth();
        if let Err(Stop::Unsup(_)) = want {
            return Ok(());
        }
        let got = imp.read(r.as_bytes(), &main_name(t));
        outcome_diff(t, &want, &got)?;
        state_diff(&m, &mut imp, &case.files, &BOTH, st)
    }
    fn describe(&self, i: u64) -> String {
        Case::from_text(&(self.f)(i)).show()
    }
}

/// Bytes that may not be UTF-8, read directly or from an included file
pub struct Bytes {
    pub alphabet: Vec<u8>,
    pub len: u32,
    /// how the file with the bytes is included, or nothing if they are read directly
    pub included: Option<&'static str>,
}

impl Bytes {
    fn bytes(&self, mut i: u64) -> Vec<u8> {
        let k = self.alphabet.len() as u64;
        let mut n = 0;
        while i >= k.pow(n) {
            i -= k.pow(n);
            n += 1;
        }
        (0..n)
            .map(|_| {
                let c = self.alphabet[(i % k) as usize];
                i /= k;
                c
            })
            .collect()
    }
}

impl Space for Bytes {
    fn name(&self) -> String {
        format!("bytes/{}-{}", self.included.unwrap_or("read").replace('-', "soft-"), self.len)
    }
    fn len(&self) -> u64 {
        (0..=self.len).map(|n| (self.alphabet.len() as u64).pow(n)).sum()
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let mut text = b"x=1\ny=".to_vec();
        text.extend(self.bytes(i));
        text.extend(b"\nz=2\n");
        let valid = String::from_utf8(text.clone());
        st.transitions += 1;
        let first = "before=$(x)\nr: s\n\tc\n";
        let dir = st.scratch_dir.join("bytes");
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| panic!("harness: {}", e));
        let files = vec![("f.mk".to_string(), valid.clone().ok())];
        let mut m = Model::new(std::rc::Rc::new(files.clone()), '\t');
        let mut imp = Imp::new(&dir, '\t');
        m.read_source(100, first).map_err(|e| format!("harness: {:?}", e))?;
        outcome_diff(0, &Ok(()), &imp.read(first.as_bytes(), &main_name(0)))?;
        if let Some(how) = self.included {
            std::fs::write(dir.join("f.mk"), &text).unwrap_or_else(|e| panic!("harness: {}", e));
            let main = &format!("w=1\n{} f.mk\nv=2\n", how);
            let got = imp.read(main.as_bytes(), &main_name(1));
            if valid.is_ok() {
                match m.read_source(101, main) {
                    Err(Stop::Unsup(w)) => {
                        st.skip(w);
                        return Ok(());
                    }
                    want => outcome_diff(1, &want, &got)?,
                }
            } else {
                m.read_source(101, "w=1\n").map_err(|e| format!("harness: {:?}", e))?;
                match &got {
                    Out::Err(e) if e.starts_with("IncludeFailure(InvalidData") && e.contains("f.mk") => {}
                    _ => return Err(format!("including a file that is not UTF-8 gives {:?}", got)),
                }
            }
        } else {
            let got = imp.read(&text, &main_name(1));
            match valid {
                Ok(t) => match m.read_source(101, &t) {
                    Err(Stop::Unsup(w)) => {
                        st.skip(w);
                        return Ok(());
                    }
                    want => outcome_diff(1, &want, &got)?,
                },
                Err(_) => {
                    if got != Out::Io("InvalidData".into()) {
                        return Err(format!("reading text that is not UTF-8 gives {:?}", got));
                    }
                }
            }
        }
        m.reset_depth();
        st.validated += 1;
        state_diff(&m, &mut imp, &files, &BOTH, st)?;
        let last = "after:=$(before)$(z)\nr: more\n";
        m.read_source(102, last).map_err(|e| format!("harness: {:?}", e))?;
        outcome_diff(2, &Ok(()), &imp.read(last.as_bytes(), &main_name(2)))?;
        st.state(&m, &Ok(()));
        state_diff(&m, &mut imp, &files, &BOTH, st)
    }
    fn describe(&self, i: u64) -> String {
        format!("bytes {:02x?} after \"x=1\\ny=\", {}", self.bytes(i), self.included.unwrap_or("read directly"))
    }
}

/// A reader that fails, or gives little at a time
struct Readers;
struct Flaky {
    text: Vec<u8>,
    at: usize,
    fail_at: usize,
    chunk: usize,
    interrupt: bool,
    flip: bool,
}
impl std::io::Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.flip = !self.flip;
        if self.interrupt && self.flip {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.at >= self.fail_at {
            return Err(std::io::ErrorKind::PermissionDenied.into());
        }
        let n = self.chunk.min(b.len()).min(self.text.len() - self.at).min(self.fail_at - self.at);
        b[..n].copy_from_slice(&self.text[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
const READER_TEXT: &str = "\u{feff}a=é\nr: $(a) 日\n\tc # x\nifeq (1,1)\nb=2\nendif\n";
impl Space for Readers {
    fn name(&self) -> String {
        "bytes/readers".into()
    }
    fn len(&self) -> u64 {
        // every chunk size, with and without interruptions, failing after every byte or not at all
        let n = READER_TEXT.len() as u64;
        n * 2 * (n + 1)
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let n = READER_TEXT.len() as u64;
        let (chunk, interrupt, fail) = (i % n + 1, i / n % 2 == 1, i / n / 2);
        let mut m = Model::new(std::rc::Rc::new(vec![]), '\t');
        let mut imp = Imp::new(std::path::Path::new("/nonexistent"), '\t');
        let before = "a=0\nq: w\n";
        m.read_source(100, before).map_err(|e| format!("harness: {:?}", e))?;
        outcome_diff(0, &Ok(()), &imp.read(before.as_bytes(), &main_name(0)))?;
        let fails = fail < n;
        let mut r = Flaky {
            text: READER_TEXT.as_bytes().to_vec(),
            at: 0,
            fail_at: if fails { fail as usize } else { usize::MAX },
            chunk: chunk as usize,
            interrupt,
            flip: false,
        };
        let (e, nc) = (&mut imp.e, &mut imp.n);
        let got = crate::imp::guarded(|| e.read_makefile(nc, &mut std::io::BufReader::with_capacity(chunk as usize, &mut r), "main1.mk"));
        st.transitions += 1;
        match (fails, got) {
            (true, Ok(Err(hastur::MakefileError::IOError(e)))) if e.kind() == std::io::ErrorKind::PermissionDenied => {}
            (false, Ok(Ok(()))) => m.read_source(101, READER_TEXT).map_err(|e| format!("harness: {:?}", e))?,
            (_, g) => return Err(format!("reading gives {:?}", g.map(|x| x.map_err(|_| "an error")))),
        }
        st.validated += 1;
        st.state(&m, &Ok(()));
        state_diff(&m, &mut imp, &vec![], &BOTH, st)
    }
    fn describe(&self, i: u64) -> String {
        let n = READER_TEXT.len() as u64;
        format!("{:?}\nread {} bytes at a time, interruptions {}, failing after byte {}", READER_TEXT, i % n + 1, i / n % 2 == 1, i / n / 2)
    }
}

/// Correct makefiles to break in every place
const CORPUS: [&str; 9] = [
    "a = 1\nb := $(a) x\na += ${b}\n",
    "t u : d $(a) \\\n e ; in\n\tcmd $(a)\n\ttwo\\\n\tmore\n",
    "ifeq ($(a), 1)\nx=1\nelse\ny=2\nendif\nz=3\n",
    "ifneq \"a\" 'b'\nt:: d\n\tc\nendif\n",
    "define f :=\nline $(a)\n define g\n endef\nendef\nq=$(f)\n",
    "include f.mk no\n-include no.mk\nsinclude f.mk\nq=1\n",
    "$(eval p := 1)\n$(eval r: $(p))\nl = $(eval m=2)\nk := $(l)$(m)\n",
    "v = $(a:%.c=%.o)\nw := $(b:x=y) $$ $a\nt: $(v)\n",
    "s = $(strip a b)$(words x)$(word 1,y)\nu=1 # c\n#c2\nt:\n",
];

const FILES: &str = "\u{1}f.mk\nfv=1\nft: fd\n\u{1}!no\u{1}!no.mk\u{1}!n\u{1}!o";

fn bytes(len: u32, included: Option<&'static str>) -> Box<dyn Space> {
    Box::new(Bytes { alphabet: vec![0x61, 0x24, 0x0a, 0xc3, 0xa9, 0xff, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xed], len, included })
}

/// Files that are not UTF-8, in every kind of include: reported, by name, wherever they are wrong
pub fn included_bytes(len: u32) -> Vec<Box<dyn Space>> {
    vec![bytes(len, Some("include")), bytes(len - 1, Some("-include")), bytes(len - 1, Some("sinclude"))]
}

pub fn c11(deep: bool) -> Check {
    let known: Vec<String> = known_sites().into_iter().filter(|k| k.0 == "C11").map(|k| k.1).collect();
    let rb = |name: &str, n: u64, f: Box<dyn Fn(u64) -> String + Send + Sync>| -> Box<dyn Space> {
        Box::new(Robust { name: name.into(), n, f, known: known.clone() })
    };
    let gr = Grammar::new(&[
        ("CH", "a¦=¦:¦$¦(¦)¦\n¦\t¦ ¦#¦\\¦;"),
        ("CH2", "a¦,¦$¦(¦)¦{¦}¦%¦:¦=¦ "),
        (
            "TOK",
            "ifeq ¦(a,a)¦else¦endif¦\n¦a¦=¦define a¦endef¦\t¦:¦$(¦)¦${¦}¦eval ¦word ¦,¦#¦\\\n¦;¦ ¦include ¦\"¦$$",
        ),
        (
            "LINE",
            "a=1\n¦a+=$(a\n¦b:=$(a)\n¦ifeq (,)\n¦ifeq (1,)\n¦ifeq x\n¦ifeq\n¦ifneq (1\n¦else\n¦else x\n¦endif\n¦endif x\n¦t: d\n¦\tcmd\n¦\t$(cmd\n¦word\n¦: d\n¦;x\n¦t: ${d\n¦define d\n¦endef\n¦endef x\n¦include no\n¦-include no\n¦include f.mk\n¦$(strip a,b)\n¦v:=$(word 1)\n¦v=$(words )\n¦\n¦#c\n¦  \n¦'a' b\n¦a b\n",
        ),
        ("PRE", "¦a=0\n¦t: z\n¦t: z\n\tzc\n¦ifeq (,)\n¦ifeq (1,)\n¦ifeq (,1)\nelse\n¦define q\n"),
        (
            "BAD",
            "x=$(\n¦x:=${\n¦x=$(a))\n¦x=${a)\n¦word\n¦two words\n¦\trecipe\n¦else\n¦endif\n¦else if\n¦endif 1\n¦else 1\n¦ifeq\n¦ifeq (\n¦ifeq (a\n¦ifeq (a,\n¦ifeq (a b)\n¦ifeq \"a\"\n¦ifeq \"a\" b\n¦ifeq 'a' 'b\n¦ifeq a b\n¦ifneq (a\n¦ifeq ($(a,b)\n¦ifeq \"$(\" \"\"\n¦t: $(d\n¦$(t: d\n¦t: d ; $(c\n¦;\n¦ ; c\n¦include no\n¦include f.mk no\n¦include bad.mk\n¦include $(x\n¦-include $(x\n¦-include bad.mk\n¦x=$(word 1)\n¦x=$(word 1,2,3)\n¦x:=$(strip 1,2)\n¦x:=$(words 1,2)\n¦x=$(word $(,1)\n¦x=$(strip $()\n¦t: $(strip 1,2)\n¦t:\n\t$(word 1)\n¦endef\n¦define x\nendef y\n¦define x\n$(\nendef\n¦define x :=\n${\nendef\n¦define $(\nendef\n¦$(x)word\n¦$$\n¦$\n¦$a$(b)\n¦a\\:b\n¦t: d ; c\n\t$(\n¦=\n",
        ),
        ("CTX", "‹BAD›¦t: z\n\tzc\n‹BAD›¦ifeq (,)\n‹BAD›endif\n¦ifeq (1,)\n‹BAD›endif\n¦ifeq (1,)\nelse\nb=1\n‹BAD›endif\n¦include i.mk\n¦define k\n‹BAD›endef\n¦a=1\r\n‹BAD›\r\n¦  ‹BAD›¦#c\\\n‹BAD›"),
    ]);
    let g = |p: &str| {
        let g = gr.g(p);
        (g.len(), g)
    };
    let sp = |name: &str, p: &str, tail: &'static str| {
        let (n, g) = g(p);
        rb(name, n, Box::new(move |i| g.get(i) + tail))
    };
    let mut v: Vec<Box<dyn Space>> = vec![
        sp("texts/bad-lines", "«¦a=1\n¦a:=1\nq: w\n\tqc\n»‹CTX›«¦z=$(a)\n¦t2: d\n»", "\u{1}f.mk\nfv=1\nft: fd\n\u{1}bad.mk\nbv=1\nword\n\u{1}!no\u{1}i.mk\niv=1\nendif\n"),
        sp("texts/bad-included", "a=1\ninclude i.mk\nz=1\n\u{1}i.mk\n‹CTX›", "\u{1}f.mk\nfv=1\n\u{1}bad.mk\nbv=1\nword\n\u{1}!no"),
        sp("texts/two-bad", "a=1\n‹BAD›\u{2}‹BAD›b=2\n", "\u{1}f.mk\nfv=1\nft: fd\n\u{1}bad.mk\nbv=1\nword\n\u{1}!no"),
        sp("texts/characters", if deep { "«‹CH›»*0-6;" } else { "«‹CH›»*0-5;" }, ""),
        sp("texts/in-value", if deep { "x=«‹CH2›»*0-6;\nz=1\n" } else { "x=«‹CH2›»*0-5;\nz=1\n" }, ""),
        sp("texts/in-rule", "«t: ¦»«‹CH2›»*0-4;\nz=1\n", ""),
        sp("texts/in-ifeq", "ifeq «(¦\"¦»«a¦,¦$(¦(¦)¦\"¦'¦ »*0-5;\nz=1\nendif\n", ""),
        sp("texts/in-function", "x=$(«strip¦word¦words¦eval» «a¦,¦$(¦(¦)¦{¦}¦ »*0-5;)\nz=1\n", ""),
        sp("texts/lines", if deep { "‹PRE›«‹LINE›»*0-3;" } else { "‹PRE›«‹LINE›»*0-2;" }, FILES),
        sp("texts/tokens", if deep { "«‹TOK›»*0-5;" } else { "«‹TOK›»*0-4;" }, FILES),
    ];
    if !deep {
        v.push(sp("texts/lines-3", "«‹LINE›»*3;", FILES));
    }
    // every makefile of the corpus cut at every place, and with any character put in, replaced or taken out
    let mut muts: Vec<(usize, usize, usize)> = vec![];
    for (k, t) in CORPUS.iter().enumerate() {
        for at in 0..=t.chars().count() {
            for c in 0..MUT_CHARS {
                muts.push((k, at, c));
            }
        }
    }
    let m2 = muts.clone();
    v.push(rb("texts/changed", muts.len() as u64, Box::new(move |i| {
        let (k, at, c) = m2[i as usize];
        mutate(CORPUS[k], at, c) + FILES
    })));
    // two changes
    let few: Vec<usize> = FEW.to_vec();
    let mut pairs: Vec<(usize, usize, usize, usize, usize)> = vec![];
    for (k, t) in CORPUS.iter().enumerate() {
        let n = t.chars().count();
        let step = if deep { 1 } else { 2 };
        for a in (0..=n).step_by(step) {
            for b in (a..=n).step_by(step) {
                for x in &few {
                    for y in &few {
                        pairs.push((k, a, *x, b, *y));
                    }
                }
            }
        }
    }
    v.push(rb("texts/changed-twice", pairs.len() as u64, Box::new(move |i| {
        let (k, a, x, b, y) = pairs[i as usize];
        mutate(&mutate(CORPUS[k], b, y), a, x) + FILES
    })));
    let depth: u64 = if deep { 400 } else { 120 };
    v.push(rb("texts/deep", depth * 8, Box::new(|i| {
        let (n, k) = ((i / 8) as usize, i % 8);
        match k {
            0 => format!("x={}a{}\nz=1\n", "$(".repeat(n), ")".repeat(n)),
            1 => format!("x={}a{}\nz=1\n", "$(".repeat(n), ")".repeat(n / 2)),
            2 => format!("x:={}a{}\nz=1\n", "${".repeat(n), "}".repeat(n + 1)),
            3 => format!("{}z=1\n{}y=2\n", "ifeq (,)\n".repeat(n), "endif\n".repeat(n)),
            4 => format!("{}z=1\n{}y=2\n", "ifeq (1,)\n".repeat(n), "endif\n".repeat(n + 1)),
            5 => format!("{}z\n{}y=2\n", "define x\n".repeat(n + 1), "endef\n".repeat(n)),
            6 => format!("t: {}\n{}z=1\n", "d ".repeat(n), "\tcmd $(x)\n".repeat(n)),
            _ => format!("x=(((({}{}\n\\{}\nz=1\n", "(".repeat(n), "\\".repeat(n), "\\\n".repeat(n)),
        }
    })));
    for (name, n, f) in super::sweep::texts(super::sweep::ALL, deep) {
        v.push(rb(name, n, f));
    }
    for (name, shapes) in super::size::GROUPS {
        for (name, n, f) in super::size::texts(name, shapes, deep) {
            v.push(rb(&name, n, f));
        }
    }
    v.push(bytes(if deep { 5 } else { 4 }, None));
    v.extend(included_bytes(if deep { 4 } else { 3 }));
    v.push(Box::new(Readers));
    Check { spaces: v, notes: vec!["Panics are accepted only if they say \"not implemented\", or at a site listed in known-findings.txt".into()] }
}

const INS: [char; 26] = [
    'a', '=', ':', '$', '(', ')', '{', '}', '\n', '\t', ' ', '#', '\\', ';', ',', '"', '\'', '%', '\r', '\0', 'é', '\u{feff}', '+', '?', '!', '\u{b}',
];
const MUT_CHARS: usize = 26 * 2 + 4;
const FEW: [usize; 9] = [3, 4, 5, 8, 9, 12, 26 * 2, 26 + 8, 26 + 12];

fn mutate(t: &str, at: usize, c: usize) -> String {
    let v: Vec<char> = t.chars().collect();
    let at = at.min(v.len());
    let s = |x: &[char]| x.iter().collect::<String>();
    if c < 26 {
        return s(&v[..at]) + &INS[c].to_string() + &s(&v[at..]);
    }
    let after = (at + 1).min(v.len());
    if c < 52 {
        return s(&v[..at]) + &INS[c - 26].to_string() + &s(&v[after..]);
    }
    match c - 52 {
        0 => s(&v[..at]) + &s(&v[after..]),
        1 => s(&v[..at]),
        2 => s(&v[at..]),
        // twice the same character
        _ => s(&v[..after]) + &s(&v[at..]),
    }
}
