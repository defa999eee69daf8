//! C08: the same makefile in other layouts
use super::*;
use crate::cmp::{outcome_diff, run_model, BOTH};
use crate::imp::{Imp, Out};
use crate::model::Stop;

/// What may be done to a line
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// anything that is not one of the others; `␣` marks the blanks at which it may be broken
    Normal,
    Recipe,
    Body,
    Endef,
}

const BLOCKS: [&[(&str, Kind)]; 16] = [
    &[("a=1␣two", Kind::Normal)],
    &[("b␣:=␣$(a)␣x", Kind::Normal)],
    &[("a␣+=␣$(b)", Kind::Normal)],
    &[("c?=é", Kind::Normal)],
    &[("t␣u␣:␣d␣$(a)", Kind::Normal)],
    &[("t:␣e", Kind::Normal), ("\tcmd $(a) one", Kind::Recipe), ("\ttwo", Kind::Recipe)],
    &[("v:: d;␣in line", Kind::Normal), ("\tmore", Kind::Recipe)],
    &[("ifeq␣($(b),)", Kind::Normal), ("y=1", Kind::Normal), ("else", Kind::Normal), ("y=2", Kind::Normal), ("endif", Kind::Normal)],
    &[("ifneq␣\"$(a)\"␣''", Kind::Normal), ("t: f", Kind::Normal), ("endif", Kind::Normal)],
    &[("define␣f␣:=", Kind::Normal), ("x $(a) #", Kind::Body), ("  y:z", Kind::Body), ("endef", Kind::Endef)],
    &[("define g", Kind::Normal), ("endef", Kind::Endef)],
    &[("include␣f.mk␣$(i)", Kind::Normal)],
    &[("-include␣no.mk", Kind::Normal)],
    &[("$(eval␣b=9)", Kind::Normal)],
    &[("s:=$(a:1=2)", Kind::Normal)],
    &[("bad", Kind::Normal)],
];

/// A change of the layout at one place
#[derive(Clone, Debug)]
enum Dev {
    /// text before line n
    Before(usize, &'static str),
    Indent(usize, &'static str),
    /// the kth breakable blank of the line
    Break(usize, usize, &'static str),
    Trail(usize, &'static str),
    Crlf(usize),
    Bom,
    AllCrlf,
    NoFinal,
    More(&'static str),
}

const BEFORE: [&str; 6] = ["\n", "  \n", "#: a=1\n", "  # é $( \n", "#x\\\nq=9\n", "\r\n"];
const BREAKS: [&str; 5] = ["\\\n", " \\\n  ", "\\\r\n", "\t\\\n\t", " \\\n \\\n"];
const TRAIL: [&str; 3] = ["#c", "#: $( endif", "# c \\\nq=9"];
const ENDEF_TRAIL: [&str; 2] = ["  ", " # c"];

type Doc = Vec<(&'static str, Kind)>;

fn deviations(d: &Doc, deep: bool) -> Vec<Dev> {
    let mut v = vec![Dev::Bom, Dev::AllCrlf, Dev::NoFinal, Dev::More("\n"), Dev::More("\n\r\n  \n#c"), Dev::More("\n   ")];
    let mut in_rule = false;
    for (i, (t, k)) in d.iter().enumerate() {
        v.push(Dev::Crlf(i));
        if *k != Kind::Body && *k != Kind::Endef {
            for b in BEFORE.iter() {
                v.push(Dev::Before(i, b));
            }
        }
        match k {
            Kind::Normal => {
                v.push(Dev::Indent(i, "  "));
                if deep {
                    v.push(Dev::Indent(i, " "));
                }
                if deep && !in_rule {
                    // indented with a tab, outside of a rule
                }
                for n in 0..t.matches('␣').count() {
                    for b in BREAKS.iter() {
                        v.push(Dev::Break(i, n, b));
                    }
                }
                for x in TRAIL.iter() {
                    v.push(Dev::Trail(i, x));
                }
            }
            Kind::Recipe => {
                for x in TRAIL.iter() {
                    v.push(Dev::Trail(i, x));
                }
            }
            Kind::Endef => {
                v.push(Dev::Indent(i, "  "));
                for x in ENDEF_TRAIL.iter() {
                    v.push(Dev::Trail(i, x));
                }
            }
            Kind::Body => {}
        }
        in_rule = *k == Kind::Recipe;
    }
    v
}

fn render(d: &Doc, devs: &[&Dev]) -> String {
    let mut o = String::new();
    let last = d.len() - 1;
    for (i, (t, _)) in d.iter().enumerate() {
        let mut line = String::new();
        let mut n = 0;
        for c in t.chars() {
            if c == '␣' {
                let b = devs.iter().find_map(|x| match x {
                    Dev::Break(l, k, b) if *l == i && *k == n => Some(*b),
                    _ => None,
                });
                line += b.unwrap_or(" ");
                n += 1;
            } else {
                line.push(c);
            }
        }
        for x in devs {
            match x {
                Dev::Before(l, b) if *l == i => o += b,
                _ => {}
            }
        }
        for x in devs {
            match x {
                Dev::Indent(l, b) if *l == i => o += b,
                _ => {}
            }
        }
        o += &line;
        for x in devs {
            match x {
                Dev::Trail(l, b) if *l == i => o += b,
                _ => {}
            }
        }
        let no_final = i == last && devs.iter().any(|x| matches!(x, Dev::NoFinal));
        if !no_final {
            o += if devs.iter().any(|x| matches!(x, Dev::Crlf(l) if *l == i)) { "\r\n" } else { "\n" };
        }
    }
    for x in devs {
        if let Dev::More(m) = x {
            o += m;
        }
    }
    if devs.iter().any(|x| matches!(x, Dev::AllCrlf)) {
        o = o.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if devs.iter().any(|x| matches!(x, Dev::Bom)) {
        o.insert(0, '\u{feff}');
    }
    o
}

/// All documents of some blocks, with every set of at most `devs` deviations
struct Layouts {
    name: String,
    docs: Vec<Doc>,
    starts: Vec<u64>,
    n: u64,
    devs: u32,
    deep: bool,
    /// as a makefile of its own, or included
    included: bool,
}

fn choose(n: u64, k: u32) -> u64 {
    match k {
        0 => 1,
        1 => n,
        2 => n * (n - 1) / 2,
        3 => n * (n - 1) * (n - 2) / 6,
        _ => unreachable!(),
    }
}

impl Layouts {
    fn new(name: &str, blocks: &[usize], len: u32, devs: u32, deep: bool, included: bool) -> Layouts {
        let mut docs: Vec<Doc> = vec![];
        let b = blocks.len() as u64;
        for i in 0..b.pow(len) {
            let mut i = i;
            let mut d: Doc = vec![];
            for _ in 0..len {
                d.extend(BLOCKS[blocks[(i % b) as usize]].iter().cloned());
                i /= b;
            }
            docs.push(d);
        }
        let mut starts = vec![];
        let mut n = 0;
        for d in &docs {
            starts.push(n);
            let k = deviations(d, deep).len() as u64;
            n += (1..=devs).map(|x| choose(k, x)).sum::<u64>();
        }
        Layouts { name: name.into(), docs, starts, n, devs, deep, included }
    }
    fn texts(&self, i: u64) -> (String, String) {
        let k = match self.starts.binary_search(&i) {
            Ok(k) => k,
            Err(k) => k - 1,
        };
        let mut i = i - self.starts[k];
        let d = &self.docs[k];
        let all = deviations(d, self.deep);
        let n = all.len() as u64;
        let mut size = 1;
        while i >= choose(n, size) {
            i -= choose(n, size);
            size += 1;
        }
        assert!(size <= self.devs);
        // the ith subset of that size
        let mut picked = vec![];
        let mut from = 0;
        for left in (1..=size).rev() {
            let mut x = from;
            loop {
                let with = choose(n - x - 1, left - 1);
                if i < with {
                    break;
                }
                i -= with;
                x += 1;
            }
            picked.push(&all[x as usize]);
            from = x + 1;
        }
        (render(d, &[]), render(d, &picked))
    }
    fn case(&self, t: &str) -> Case {
        let files = "\u{1}f.mk\nfi=$(a)\nt: inc\n\u{1}!no.mk";
        if self.included {
            Case::from_text(&format!("a=0\nt: z\n\tz\ninclude lay.mk\nafter=$(a)\n\u{1}lay.mk\n{}{}", t, files))
        } else {
            Case::from_text(&format!("{}{}", t, files))
        }
    }
}

/// Outcome and everything visible, apart from locations
fn observe(imp: &mut Imp, outs: &[Out]) -> Result<String, String> {
    let mut o = format!("{:?}\n", outs);
    for v in imp.var_names() {
        let (f, or, t) = imp.var(&v).ok_or("listed but not found")?;
        o += &format!("{} {:?} {:?} {:?}\n", v, f, or, t.map(|t| (t.text, t.sens)));
    }
    for (k, r) in imp.rules(true)? {
        let d: Vec<_> = r.deps.into_iter().map(|d| (d.text, d.sens)).collect();
        let c: Vec<_> = r.cmds.into_iter().map(|d| d.map(|d| (d.text, d.sens))).collect();
        o += &format!("{} {} {:?} {:?} {:?}\n", k, r.double, r.target.sens, d, c);
    }
    Ok(o)
}

fn read_all(case: &Case, dir: &std::path::Path) -> (Imp, Vec<Out>) {
    let mut imp = Imp::new(dir, case.cmd_char);
    let outs = case.mains.iter().enumerate().map(|(i, t)| imp.read(t.as_bytes(), &crate::cmp::main_name(i))).collect();
    (imp, outs)
}

impl Space for Layouts {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.n
    }
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String> {
        let (plain, other) = self.texts(i);
        let (plain, other) = (self.case(&plain), self.case(&other));
        let dir = st.scratch(&plain.files)?;
        let (mut a, ao) = read_all(&plain, &dir);
        let a = observe(&mut a, &ao)?;
        let dir = st.scratch(&other.files)?;
        let (mut imp, bo) = read_all(&other, &dir);
        let b = observe(&mut imp, &bo)?;
        st.transitions += 2;
        if a != b {
            let (mut x, mut y) = (String::new(), String::new());
            for (l, m) in a.lines().zip(b.lines()) {
                if l != m {
                    x = l.into();
                    y = m.into();
                    break;
                }
            }
            return Err(format!("the plain layout {:?}\ngives {}\nthis one gives {}", plain.show(), x, y));
        }
        // and the model agrees
        let (m, outs) = run_model(&other);
        st.transitions += m.steps;
        st.state(&m, outs.last().unwrap());
        st.validated += 1;
        if let Some(Err(Stop::Unsup(w))) = outs.last() {
            st.skip(w);
            return Ok(());
        }
        for (k, o) in bo.iter().enumerate() {
            outcome_diff(k, &outs[k], o)?;
        }
        crate::cmp::state_diff(&m, &mut imp, &other.files, &BOTH, st)
    }
    fn describe(&self, i: u64) -> String {
        let (a, b) = self.texts(i);
        format!("plain {:?}\nhere  {}", a, self.case(&b).show())
    }
}

pub fn c08(deep: bool) -> Check {
    let every: Vec<usize> = (0..BLOCKS.len()).collect();
    let gr = Grammar::new(&[
        ("C", "a¦ ¦\\¦\n¦\r\n¦#¦="),
        ("D", "a¦ ¦\\¦\n¦\r¦#¦\t"),
        ("L", "a=1¦b:=$(a) x¦t: d¦\tc¦ifeq ($(a),1)¦else¦endif¦define e¦endef¦bad¦"),
        ("END", "\n¦\r\n¦#c\n¦#c\r\n¦ #\\\nq=1\n¦\\\n\n¦ \\\n \n¦\n\n"),
    ]);
    let mut v: Vec<Box<dyn Space>> = vec![
        Box::new(Layouts::new("layout/one-block", &every, 1, 2, deep, false)),
        Box::new(Layouts::new("layout/one-block-included", &every, 1, 2, deep, true)),
        Box::new(Layouts::new("layout/two-blocks", &every, 2, 1, deep, false)),
        Box::new(Layouts::new("layout/two-blocks-included", &every, 2, 1, deep, true)),
        mk("layout/in-value", BOTH, &gr, if deep { "x=«‹C›»*0-6;\nz=1\n" } else { "x=«‹C›»*0-5;\nz=1\n" }),
        mk("layout/in-rule", BOTH, &gr, if deep { "t:«‹C›»*0-6;\n\tz\n" } else { "t:«‹C›»*0-5;\n\tz\n" }),
        mk("layout/in-recipe", BOTH, &gr, if deep { "t:\n\t«‹D›»*0-6;\n\tz\n" } else { "t:\n\t«‹D›»*0-5;\n\tz\n" }),
        mk("layout/in-comment", BOTH, &gr, if deep { "#«‹D›»*0-6;\nz=1\ny=2\n" } else { "#«‹D›»*0-5;\nz=1\ny=2\n" }),
        mk("layout/in-include", BOTH, &gr, "include «‹C›»*0-4;\nz=1\n\u{1}a\nA=1\n\u{1}aa\nAA=1\n\u{1}!aaa\u{1}!aaaa"),
        mk("layout/in-define", BOTH, &gr, "define x\n«‹D›»*0-4;\nendef\nz=1\n"),
        mk("layout/at-the-start", BOTH, &gr, "«\u{feff}¦»«‹C›»*0-4;b=2\n"),
        mk("layout/line-ends", BOTH, &gr, "«‹L›‹END›»*1-2;a=2\n"),
        mk("layout/endings", BOTH, &gr, "a=1\n«t:\n\tx¦t:¦b=2¦define y\nq\nendef¦ifeq (,)\nendif¦#c¦»«‹C›»*0-4;"),
        Box::new(Layouts::new("layout/two-blocks-twice", &every, 2, 2, deep, false)),
    ];
    v.extend(super::sweep::sweep(BOTH, super::sweep::ALL, deep));
    v.extend(super::size::spaces(BOTH, &["layout", "places", "rules"], deep));
    if deep {
        v.push(Box::new(Layouts::new("layout/one-block-3", &every, 1, 3, deep, false)));
        v.push(mk("layout/line-ends-3", BOTH, &gr, "«‹L›‹END›»*3;a=2\n"));
        v.push(Box::new(Layouts::new("layout/two-blocks-included-twice", &every, 2, 2, deep, true)));
    }
    Check { spaces: v, notes: vec![] }
}
