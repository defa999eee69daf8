//! Sweeps: every character, and every pair of characters that mean something, at every place of
//! some makefiles
use super::*;

pub const VARS: &[&str] = &[
    "a = 1 $(b) x\nb := $(a)y${a}\na += $b\nc ?= é$$d\nz=$(c)\n",
    "n = fo\n$(n)o = v $($(n)o2)\nx$(n) := 1\nfoo2 += w\nz := $(foo) ${xfo}\n",
];
pub const CONDS: &[&str] = &[
    "a=1 2\nifeq ($(a),1 2)\nx=1\nelse\nx=2\nendif\ny=3\n",
    "a=1\nifneq \"$(a)\" '1'\nx=1\nelse\nifeq (a , b)\ny=2\nelse\nz=3\nendif\nendif\nw=4\n",
];
pub const RULES: &[&str] = &[
    "x = p q\nt u$(x) : d $(x)e f ; in $(x)\n\tc1 $(x) @\n\tc2 \\\n\tc3\nt: g\n",
    "a.b: c\n\tone\n\n# c\n\ttwo # c\nifeq (,)\n\tthree\nendif\nv:: w\na.b c: d\n",
];
pub const SUBST: &[&str] = &[
    "v = foo.c bar.c baz.h\nz = $(v:.c=.o) ${v:b%.c=<%>}\n",
    "v = a%b ab xx\nk=a%\nz := $(v:$(k)=\\%%$(k)) $(v:\\%b=q)$(v:x=y)\n",
];
pub const SUBST2: &[&str] = &[
    "v = aXb cXd  Xe fX X\nw=$(v:X=Y) $(v:%X=<%>) $(v:c%d=[%])${v:%=%.}\n",
    "e=$(u)\nv=$(e) foo.c $(e)x.c\nn=v\nz:=$($(n):foo%=b%)$(v:%.c=a%b%c) $(v:o.c=)\nt: $(v:c=o)\n",
];
pub const ESCAPES: &[&str] = &["a\\ b c\\:d: e\\ f g\\\\ h\n", "s=x\\ y\nt\\\\ u$(s): \\v d\\;e $(s)\\\n z ; c\n"];
pub const DEFINES: &[&str] = &[
    "x=1\ndefine v :=\n a $(x) # b\n\tc \\\n define in\n endef\nendef\nz=$(v)\n",
    "define $(n)v\nt: d\nx = $$(y)\nendef\n$(eval $(v))\ndefine w +=\nq\nendef # c\n",
];
pub const INCLUDES: &[&str] = &[
    "n=f\nt: d\n\tc\ninclude $(n) g\nz=$(a)\n-include no f\n\u{1}f\na+=F\nr: fd\n\tfc\n\u{1}g\nb=G\n\u{1}!no",
    "include f\ty\nx+=M\nsinclude d/h\n\u{1}f\n x+=F\ninclude d/h\ny=$(x)\n\u{1}d/h\nifeq ($(x),)\nx=h\nendif\n\u{1}y\nx+=Y",
];
pub const EVALS: &[&str] = &[
    "a=1\n$(eval b = $(a) $$(a))\nc := [$(eval d+=x)$(d)]\nt: $(eval a=2)$(a)\n\tk $(eval e=1)$(a)\n",
    "define v\nt$(1): d; c\nx += $$(y)\nifeq ($(y),)\nw=1\nendif\nendef\n$(eval $(v))\ny=1\nl=$(eval $(v))$(w)\nm:=$(l)\n",
];
pub const LAYOUT: &[&str] = &[
    "a = 1 # c \\\n d\nb = x \\\n  y \\\n\tz\r\n\n  c=3\nt : d \\\n e\n\tf \\\n\tg # h\n#end\n",
];
/// A little of everything
pub const ALL: &[&str] = &[
    VARS[0], VARS[1], CONDS[0], CONDS[1], RULES[0], RULES[1], SUBST[0], SUBST[1], ESCAPES[0], ESCAPES[1], DEFINES[0], DEFINES[1], INCLUDES[0],
    INCLUDES[1], EVALS[0], EVALS[1], LAYOUT[0],
];

/// All of ASCII (apart from the marks of our own format), and what else could be taken for blanks,
/// line breaks, letters of another case, nothing, or two of something
pub fn characters() -> Vec<char> {
    let mut v: Vec<char> = (0u32..128).filter(|c| *c != 1 && *c != 2 && *c != 3).map(|c| std::char::from_u32(c).unwrap()).collect();
    v.extend("\u{80}\u{85}\u{a0}\u{ad}¡¿×ßéÉ\u{0301}İıſKΩς日本\u{1680}\u{180e}".chars());
    v.extend((0x2000u32..0x2010).map(|c| std::char::from_u32(c).unwrap()));
    v.extend("\u{2028}\u{2029}\u{202f}\u{205f}\u{2060}\u{3000}\u{fe0f}\u{feff}\u{fffd}\u{ff04}\u{ff05}\u{ff08}\u{ff1a}\u{ff1b}\u{ff1d}\u{ff3c}\u{ffff}\u{10000}😀\u{1d7d8}\u{e0020}\u{10ffff}".chars());
    v
}

const MEANING: [&str; 30] = [
    " ", "\t", "\n", "\r", "#", "\\", "$", "(", ")", "{", "}", ":", "=", "+", "?", ";", ",", "%", "\"", "'", "a", "é", "|", "-", "\u{feff}", "/", "$a", "else", "\r\n", "x",
];

/// Words that GNU make, a shell or a reader could take for something special
const WORDS: &[&str] = &[
    "define", "endef", "ifeq", "ifneq", "ifdef", "ifndef", "else", "endif", "include", "-include", "sinclude", "export", "unexport", "override", "private", "undefine", "vpath", "load",
    "eval", "strip", "word", "words", "subst", "patsubst", "filter", "wildcard", "shell", "call", "foreach", "if", "or", "value", "error", "info",
    ".PHONY", ".SUFFIXES", ".DEFAULT", ".PRECIOUS", ".SECONDARY", ".SECONDEXPANSION", ".DELETE_ON_ERROR", ".IGNORE", ".SILENT", ".EXPORT_ALL_VARIABLES", ".ONESHELL", ".POSIX", ".WAIT",
    ".DEFAULT_GOAL", ".RECIPEPREFIX", ".VARIABLES", ".INCLUDE_DIRS", "MAKE", "MAKEFLAGS", "MAKEFILES", "MAKEFILE_LIST", "CURDIR", "SHELL", "VPATH", "SUFFIXES", "MAKECMDGOALS", "MAKELEVEL", "CC", "PATH", "HOME", "FORCE", "all", "clean",
    "@", "<", "^", "?", "*", "+", "|", "%", "@D", "@F", "%.o", "%.c", "lib%.a", ".c.o", ".c", ".o", "a.o", "a.c",
    "./a", "../a", "/a", "a/", "a/b", "a//b", "~", "~/a", "a~", ".", "..", "*.c", "a*", "[ab]", "a(b)", "-l", "-la", "-", "--a", "-a", "@a", "+a", "a+", "a?", "a!", "!a", "&", "&&", "||", ">", ">>", "`a`", "a@b", "a_b", "a-b",
    "0", "1", "2", "007", "-1", "1.5", "1e3", "0x1", "65536", "99999999999999999999", "true", "false", "nil", "null", "None", "undefined", "default", "file", "environment", "automatic", "recursive", "simple",
    "A", "Define", "EVAL", "T", "X", "xx", "aa", "tt", "ab", "ba",
];

/// Where the words (letters, digits) of a text are
fn words_of(t: &str, places: &[usize]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut last: Option<(usize, usize)> = None;
    for &p in places {
        match t[p..].chars().next() {
            Some(c) if c.is_alphanumeric() => {
                let e = p + c.len_utf8();
                last = match last {
                    Some((a, b)) if b == p => Some((a, e)),
                    x => {
                        v.extend(x);
                        Some((p, e))
                    }
                };
            }
            _ => v.extend(last.take()),
        }
    }
    v.extend(last);
    v
}

/// Every word in place of every word of the templates: there alone, and wherever that word stands
fn special_words(ts: &[&str]) -> (&'static str, u64, Box<dyn Fn(u64) -> String + Send + Sync>) {
    let p = Places::new(ts);
    let mut v: Vec<(String, Vec<(usize, usize)>)> = vec![];
    for (t, places) in &p.t {
        let w = words_of(t, places);
        let mut seen = vec![];
        for x in &w {
            v.push((t.clone(), vec![*x]));
            let name = &t[x.0..x.1];
            if !seen.contains(&name) {
                seen.push(name);
                let all: Vec<_> = w.iter().filter(|y| &t[y.0..y.1] == name).copied().collect();
                if all.len() > 1 {
                    v.push((t.clone(), all));
                }
            }
        }
    }
    let n = WORDS.len() as u64;
    ("sweep/words", v.len() as u64 * n, Box::new(move |i| {
        let (t, at) = &v[(i / n) as usize];
        let mut t = t.clone();
        for (a, b) in at.iter().rev() {
            t.replace_range(*a..*b, WORDS[(i % n) as usize]);
        }
        t
    }))
}

struct Places {
    t: Vec<(String, Vec<usize>)>,
    starts: Vec<u64>,
    n: u64,
}

impl Places {
    /// Every place in the contents (not the names) of the files, before a character or at the end
    fn new(ts: &[&str]) -> Places {
        let mut t = vec![];
        let mut starts = vec![];
        let mut n = 0;
        for x in ts {
            let mut places = vec![];
            let mut at = 0;
            for (k, part) in x.split('\u{1}').enumerate() {
                let from = if k == 0 {
                    0
                } else if part.starts_with('!') {
                    part.len() + 1
                } else {
                    part.find('\n').unwrap() + 1
                };
                for i in from..=part.len() {
                    if part.is_char_boundary(i) && from <= part.len() {
                        places.push(at + i);
                    }
                }
                at += part.len() + 1;
            }
            starts.push(n);
            n += places.len() as u64;
            t.push((x.to_string(), places));
        }
        Places { t, starts, n }
    }
    fn get(&self, i: u64) -> (&str, usize) {
        let k = match self.starts.binary_search(&i) {
            Ok(k) => k,
            Err(k) => k - 1,
        };
        (&self.t[k].0, self.t[k].1[(i - self.starts[k]) as usize])
    }
}

/// The character at `at` removed, if it is not the end of a file
fn without(t: &str, at: usize) -> String {
    match t[at..].chars().next() {
        Some(c) if c != '\u{1}' => t[..at].to_string() + &t[at + c.len_utf8()..],
        _ => t.to_string(),
    }
}

pub fn texts(ts: &[&str], deep: bool) -> Vec<(&'static str, u64, Box<dyn Fn(u64) -> String + Send + Sync>)> {
    let mut v: Vec<(&'static str, u64, Box<dyn Fn(u64) -> String + Send + Sync>)> = vec![];
    let cs = characters();
    let p = Places::new(ts);
    let k = cs.len() as u64 * 2;
    v.push(("sweep/one-character", p.n * k, Box::new(move |i| {
        let (t, at) = p.get(i / k);
        let c = cs[(i % k / 2) as usize];
        let mut t = if i % 2 == 0 { t.to_string() } else { without(t, at) };
        t.insert(at, c);
        t
    })));
    v.push(special_words(ts));
    let p = Places::new(ts);
    let m = MEANING.len() as u64;
    v.push(("sweep/two-characters", p.n * m * m, Box::new(move |i| {
        let (t, at) = p.get(i / (m * m));
        let mut t = t.to_string();
        t.insert_str(at, MEANING[(i % m) as usize]);
        t.insert_str(at, MEANING[(i / m % m) as usize]);
        t
    })));
    if deep {
        // one change here, another there
        let few = [" ", "\n", "#", "\\", "$", "(", ")", ":", "=", ";", "%", "\t", ""];
        let p = Places::new(ts);
        let q = few.len() as u64;
        let mut starts = vec![];
        let mut n = 0;
        for t in &p.t {
            starts.push(n);
            let l = t.1.len() as u64;
            n += l * l * q * q;
        }
        v.push(("sweep/two-places", n, Box::new(move |i| {
            let k = match starts.binary_search(&i) {
                Ok(k) => k,
                Err(k) => k - 1,
            };
            let i = i - starts[k];
            let (t, places) = &p.t[k];
            let l = places.len() as u64;
            let (a, b) = (places[(i / (q * q) / l) as usize], places[(i / (q * q) % l) as usize]);
            let (a, b) = (a.max(b), a.min(b));
            let put = |t: String, at: usize, w: &str| {
                if w.is_empty() {
                    without(&t, at)
                } else {
                    let mut t = t;
                    t.insert_str(at, w);
                    t
                }
            };
            let t = put(t.to_string(), a, few[(i % q) as usize]);
            put(t, b, few[(i / q % q) as usize])
        })));
    }
    v
}

/// Model against hastur on all of them
pub fn sweep(p: Proj, ts: &[&str], deep: bool) -> Vec<Box<dyn Space>> {
    texts(ts, deep).into_iter().map(|(name, n, f)| fam(name, p, n, f)).collect()
}

