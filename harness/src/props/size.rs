//! Sizes: makefiles of one shape each, of every small size and some up to 70000, around powers of two and ten
use super::*;

type Shape = (&'static str, usize, fn(usize) -> String);

fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

const ENV: &str = "x=ex\ny=w1 w2\ne=\n";

/// Variables
pub const VARS: &[Shape] = &[
    ("value-length", 70000, |n| format!("a={}\nb:=<{}>\nc=$(a)|$(b)\na+=z\n", "v".repeat(n), "é".repeat(n))),
    ("name-length", 70000, |n| format!("{0}n=1\n{0}m=2\n{0}n+=3\nz:=$({0}n)$({0}m)$({0})\n", "n".repeat(n))),
    ("appends", 513, |n| format!("{}v:=s\nw=s\n{}x=new\n", ENV, each(n, |j| format!("v+={}$(x)\nw+={}$(x)\n", j, j)))),
    ("appends-unset", 1025, |n| format!("{}{}x=new\n", ENV, each(n, |j| format!("v+={}$(x)\n", j)))),
    ("references", 1025, |n| format!("{}v={}\nw:={}\nx=new\n", ENV, "$(x)".repeat(n), "${x}-$x".repeat(n))),
    ("dollars", 8193, |n| format!("{}v=a{}x\nw:=a{}(x)\n", ENV, "$".repeat(n), "$".repeat(n))),
    ("chain", 257, |n| format!("v0=base\n{}z:=$(v{})\nv0=other\n", each(n, |j| format!("v{}=x$(v{})y\n", j + 1, j)), n)),
    ("chain-simple", 257, |n| format!("v0=base\n{}v0=other\n", each(n, |j| format!("v{}:=x$(v{})y\n", j + 1, j)))),
    ("nested-names", 300, |n| format!("a=a\nab=a\nz={0}a{1}\ny:={0}a{1}\nw={2}a{3}\n", "$(".repeat(n), ")".repeat(n), "${a".repeat(n.min(40)), "}".repeat(n.min(40)))),
    ("variables", 1100, |n| each(n, |j| format!("v{}{}{}$(v{})\n", j, ["=", ":=", "?=", "+="][j % 4], j, j / 2 + if j == 0 { 9999 } else { 0 }))),
    ("reassigned", 1025, |n| each(n, |j| format!("v{}{}$(w)\nw{}{}\n", ["=", "?=", ":=", "+=", "="][j % 5], j % 7, ["=", ":="][j % 2], j))),
    ("conditional", 1025, |n| format!("{}v?=last\n", each(n, |j| format!("v{}?={}\nv?={}\n", j % 300, j, j)))),
    ("blanks-around", 70000, |n| format!("{0}a{0}={0}1{0}2{0}\n{1}b{1}:={1}$(a){1}\nc+={0}{1}q\n", " ".repeat(n), if n > 0 && n % 2 == 0 { " " } else { "" })),
    ("operator-place", 70000, |n| format!("{}=1\n{}?=2\n{}+=3\n", "ab".repeat(n / 2 + 1), "ab".repeat(n / 2 + 1), "ab".repeat(n / 2 + 1))),
];

/// Conditionals
pub const CONDS: &[Shape] = &[
    ("in-a-row", 513, |n| each(n, |j| format!("ifeq ({},{})\nm{}=a{}\nelse\nm{}=b{}\nendif\n", j % 3, j % 2, j % 90, j, j % 90, j))),
    ("nested-taken", 300, |n| format!("{}m+=in\n{}m+=out\n", each(n, |j| format!("ifeq (1,1)\nm+=a{}\n", j)), each(n, |j| format!("else\nm+=b{}\nendif\nm+=c{}\n", j, j)))),
    ("nested-skipped", 513, |n| format!("ifeq (1,2)\n{}m+=in\n{}m+=s\nelse\nm+=taken\nendif\nm+=out\n", "ifeq (1,1)\n".repeat(n), "else\nm+=b\nendif\n".repeat(n))),
    ("nested-half", 300, |n| {
        let h = n / 2;
        format!("{}{}{}m+=out\n", "ifneq (a,b)\n".repeat(h), each(n - h, |j| format!("ifneq (a,a)\nm+=x{}\n", j)), each(n, |j| format!("else\nm+=b{}\nendif\nm+=c{}\n", j, j)))
    }),
    ("long-branches", 1025, |n| format!("ifeq (1,1)\n{}else\n{}endif\nm=end\n", each(n, |j| format!("v{}={}\n", j % 200, j)), each(n, |j| format!("w{}={}\nbad\n", j % 200, j)))),
    ("long-skipped", 2049, |n| format!("ifeq (1,2)\n{}else\nm=1\nendif\nn=2\n", "bad line $( \n".repeat(n))),
    ("operand-length", 70000, |n| format!("{0}a={1}\nifeq ($(a),{1})\nm=eq\nelse\nm=ne\nendif\nifneq \"{1}\" '{1}x'\nn=ne\nelse\nn=eq\nendif\nifeq ({1}y,{1}z)\no=eq\nendif\n", ENV, "q".repeat(n))),
    ("operand-references", 2049, |n| format!("{}ifeq ({}, {})\nm=eq\nelse\nm=ne\nendif\n", ENV, "$(x)".repeat(n), "ex".repeat(n))),
    ("operand-brackets", 300, |n| format!("{}ifeq ({}a{},{}a{})\nm=eq\nelse\nm=ne\nendif\n", ENV, "(".repeat(n), ")".repeat(n), "(".repeat(n), ")".repeat(n))),
    ("operand-blanks", 20000, |n| format!("{1}ifeq ({0}a{0},{0}a{0}){0}\nm=eq\nelse{0}\nm=ne\nendif{0}\n{0}x=1\n", " ".repeat(n), ENV)),
];

/// Rules
pub const RULES: &[Shape] = &[
    ("deps", 4097, |n| format!("{}t:{} z$(x)\n\tc\nt: q\nu:{}\n", ENV, each(n, |j| format!(" d{}", j)), each(n, |j| format!("  d{}", j % 10)))),
    ("targets", 700, |n| format!("{}{} t: d e\n\tc $(x)\n\tc2\n{} t: f\nx=1\n", ENV, each(n, |j| format!(" t{}", j)), each(n, |j| format!("t{} ", j)))),
    ("targets-inline", 700, |n| format!("{}{} t:: d e; c $(x)\n{} t: f\nx=1\n", ENV, each(n, |j| format!(" t{}", j)), each(n, |j| format!("t{} ", j)))),
    ("commands", 2049, |n| format!("{}t: d\n{}u: t\n\tx\n", ENV, each(n, |j| format!("\tcmd {} $(x)\n", j)))),
    ("commands-inline", 2049, |n| format!("{}t: d; first\n{}u: t\n\tx\n", ENV, each(n, |j| format!("\tcmd {}\n", j)))),
    ("commands-continued", 513, |n| format!("{}t: d\n\tc{}\n\tlast\n", ENV, each(n, |j| format!(" a{} \\\n\t", j)))),
    ("command-length", 70000, |n| format!("{}t: d; {}\n\t{}$(x)\n\t c{}\n", ENV, "k".repeat(n), "é".repeat(n), "v ".repeat(n / 2))),
    ("command-references", 1025, |n| format!("{}t: d\n\t{}\nx=new\n", ENV, "$(x)$$x ".repeat(n))),
    ("rules", 1025, |n| each(n, |j| format!("t{}: d{} e{}\n{}", j, j + 1, j % 5, if j % 3 == 0 { format!("\tmake {}\n", j) } else { String::new() }))),
    ("extended", 2049, |n| format!("t: first\n\tc1\n\tc2\n{}u: t\n", each(n, |j| format!("t: d{}\n", j)))),
    ("overwritten", 513, |n| each(n, |j| format!("t: d{}\n\tc{}\nt: e{}\n", j, j, j))),
    ("name-length", 65537, |n| format!("{0}a {0}b: {0}a {0}c d\n\tc\n{0}a: {0}e\n", "é".repeat(n / 2) + &"n".repeat(n - n / 2))),
    ("blank-lines", 1025, |n| format!("t: d\n\tc1\n{}\tc2\n{}\tc3\n{}u: v\n{}\tc\n", "\n".repeat(n), "# c\n".repeat(n), "\n  \n".repeat(n / 2), "\n".repeat(n))),
    ("blanks", 4097, |n| format!("a{0} b{0}:{0} d{0} e{0};{0} c\n\t{0}c\n", " ".repeat(n))),
    ("from-a-variable", 129, |n| format!("l={}\n$(l): $(l) z\n\tc\n$(l): y\n", each(n % 300, |j| format!(" f{}", j)) + &"q".repeat(n / 300))),
    ("empty-commands", 2000, |n| format!("t: d\n{}\tc\n{}\n", "\t\n".repeat(n), "\t \n".repeat(n))),
];

/// Where things are
pub const LOCS: &[Shape] = &[
    ("lines", 4097, |n| format!("{}x=é y\nz=$(x)!\nt: $(z)\n\tcmd $(z)\n", "\n".repeat(n))),
    ("comment-lines", 4097, |n| format!("{}x=é y\nz=$(x)!\nt: $(z)\n\tcmd $(z)\n", "# é\n".repeat(n))),
    ("continued-lines", 257, |n| format!("a=1{}\nx=é y$(a)\nz=$(x)!\nt:{} $(z)\n\tcmd $(z){}\n\tlast $(x)\n", " \\\n é".repeat(n), " \\\n d".repeat(n.min(500)), " \\\n\tq".repeat(n))),
    ("columns", 70000, |n| format!("x=q{0}z\ny={0}$(x){0}$(x)\n{0}é: {0} d$(x)\n\t{0} c$(x)\n", "é".repeat(n))),
    ("columns-of-references", 513, |n| format!("x=q é\ny={0}a$(x)b\n{0}a: b{0}c\n\t{0} c$(x)\n", "$(u)é".repeat(n))),
    ("crlf-lines", 4097, |n| format!("{}x=é y\r\nz=$(x)!\r\nt: $(z)\r\n\tcmd $(z)\r\n", "\r\n".repeat(n))),
    ("pieces", 513, |n| format!("x=q é\ny={}\nz:=$(y)\nt: $(z)\n", each(n, |j| format!("a{}$(x)", j)))),
    ("define-lines", 513, |n| format!("define d\n{}endef\nz=$(d)\n$(eval $(d))\n", each(n, |j| format!("v{}=é {}\n", j % 150, j)))),
    ("include-lines", 4097, |n| format!("include f\nz=$(v)\n\u{1}f\n{}v=é $(u)b\nt: $(v)\n", "\n# é\n".repeat(n / 2))),
    ("skipped-lines", 4097, |n| format!("ifeq (1,2)\n{}else\nz=é $(u)b\nendif\ny=$(z)\n", "é\n".repeat(n))),
];

/// Substitution references
pub const SUBST: &[Shape] = &[
    ("words", 1025, |n| format!("v={}\na=$(v:.c=.o)\nb=$(v:w%.c=<%>)\nd=$(v:%=%%)\ne=$(v:.h=)\nf=$(a:w%=)\ng:=$(v:%.h=)\n", each(n, |j| format!("{}w{}.{} ", if j % 5 == 4 { "é" } else { "" }, j, if j % 3 == 0 { "c" } else { "h" })))),
    ("word-length", 20000, |n| format!("v={0}.c {0} é{0}.h.c c{0}\na=$(v:.c=.o)\nb=$(v:{0}%=<%>)\nd=$(v:%{0}=<%>)\ne:=$(v:%.c=%)\n", "w".repeat(n))),
    ("key-length", 5000, |n| format!("v={0}.c {0} x{0} {0}x y{0}{0}\na=$(v:{0}=.o)\nb=$(v:{0}%=<%>)\nd=$(v:%{0}=<%>)\ne:=$(v:{0}%{0}=%)\n", "w".repeat(n))),
    ("replacement-length", 5000, |n| format!("v=a.c b.h d.c\na=$(v:.c={0})\nb=$(v:%.c={0}%{0})\n", "é".repeat(n))),
    ("short-words", 4097, |n| format!("v={}\na=$(v:a=b)\nb=$(v:a%=b%)\n", "a b ab ".repeat(n / 3))),
    ("blanks", 20000, |n| format!("v=a{0}b.c{0}\tc.c{0}\ne=\nw=$(e){0}x{0}\na=[$(v:.c=.o)]\nb=[$(w:x=y)]\nc=[$(v:%=%)]\n", " ".repeat(n))),
    ("chained", 65, |n| format!("v0=f0.c g.h\n{}", each(n, |j| format!("v{}=$(v{}:f{}%=f{}%)\n", j + 1, j, j, j + 1)))),
    ("percents", 2000, |n| format!("v=a%b {0} x{0}\na=$(v:%={0})\nb=$(v:x%=y{0})\nc=$(v:%b=a)\n", "%".repeat(n))),
];

/// Escapes
pub const ESCAPES: &[Shape] = &[
    ("backslashes-space", 5000, |n| format!("a{0} b: c{0} d\n\tk{0} l\n", "\\".repeat(n))),
    ("backslashes-colon", 5000, |n| format!("a{0}:b: c\n", "\\".repeat(n))),
    ("backslashes-semicolon", 5000, |n| format!("a: b{0};c{0};d\n", "\\".repeat(n))),
    ("backslashes-letter", 5000, |n| format!("a{0}b {0}c: {0}d e\n", "\\".repeat(n))),
    ("backslashes-percent", 5000, |n| format!("v=a{0}%b % \\%b\nz=$(v:{0}%=x)\ny=$(v:%b=x{0}%y)\n", "\\".repeat(n))),
    ("escaped-spaces", 1025, |n| format!("a{0}b c: d{0}e f\na{0}b: g\n", "\\ ".repeat(n))),
    ("escaped-words", 2000, |n| format!("t:{}\n", each(n, |j| format!(" a{}\\ b{}c", j, "\\".repeat(j % 5))))),
    ("escaped-colons", 3000, |n| format!("a{0}b: d{0}e\n\tk\n", "\\:".repeat(n))),
];

/// Multi-line variables
pub const DEFINES: &[Shape] = &[
    ("lines", 2049, |n| format!("define v\n{}endef\nz=$(v)\nafter=1\n", each(n, |j| format!("line {} $(x)\n", j)))),
    ("blank-lines", 5000, |n| format!("define v\n{}endef\nafter=1\n", "\n".repeat(n))),
    ("line-length", 70000, |n| format!("x=1\ndefine v =\n{0}\n{0}$(x)\nendef\ndefine w :=\n{0}$(x)\nendef\nafter=1\n", "é".repeat(n))),
    ("nested", 513, |n| format!("define v\n{}in\n{}endef\nafter=1\n", each(n, |j| format!("define n{}\nb{}\n", j, j)), "endef\n".repeat(n))),
    ("nested-unfinished", 1025, |n| format!("x=1\ndefine v\n{}in\n{}after=1\n", each(n, |j| format!("define n{}\n", j)), "endef\n".repeat(n))),
    ("siblings", 513, |n| format!("define v\n{}endef\nafter=1\n", each(n, |j| format!("define n{}\nb\n endef # x\n", j)))),
    ("in-a-row", 513, |n| each(n, |j| format!("define v{}{}\na{}\n\nb\nendef\n", j % 100, ["", " =", " :=", " +=", " ?="][j % 5], j))),
    ("name-length", 70000, |n| format!("define {0}n\nx\nendef\nz=$({0}n)\n", "n".repeat(n))),
    ("appended", 700, |n| format!("define v\ns\nendef\n{}", each(n, |j| format!("define v +=\n{}\nendef\n", j)))),
    ("continued-lines", 3000, |n| format!("define v\na{} end\nb\nendef\nafter=1\n", " \\\n c".repeat(n))),
];

/// Files
pub const INCLUDES: &[Shape] = &[
    ("list", 300, |n| format!("include{} f\nend=$(x)\n{}\u{1}f\nx+=last\n", each(n, |j| format!(" f{}", j)), each(n, |j| format!("\u{1}f{}\nx+={}\n{}", j, j, if j % 4 == 1 { "r: d\n\tc\n" } else { "" })))),
    ("same-file", 257, |n| format!("include{}\n{}end=$(x)\n\u{1}f\nx+=$(y)f\ny+=1\n", " f".repeat(n / 2), "include f\n".repeat(n - n / 2))),
    ("depth", 60, |n| format!("x=m\ninclude f0\nx+=end\n{}", each(n + 1, |j| format!("\u{1}f{}\nx+=a{}\n{}x+=b{}\n", j, j, if j < n { format!("include f{}\n", j + 1) } else { String::new() }, j)))),
    ("missing", 300, |n| format!("-include{} f{}\nend=$(x)\n\u{1}f\nx+=here\n{}", each(n, |j| format!(" no{}", j)), each(n, |j| format!(" more{}", j)), each(n, |j| format!("\u{1}!no{}\u{1}!more{}", j, j)))),
    ("lines", 1025, |n| format!("include f\nend=$(x)\n\u{1}f\n{}r: d\n\tc", each(n, |j| format!("v{}={}\nx+=1\n", j % 100, j)))),
    ("long-line", 70000, |n| format!("include f\nend=$(x)\n\u{1}f\nx={}\nr: d\n\tc", "é".repeat(n))),
    ("long-name", 250, |n| format!("include {0}f g\nend=$(x)\n\u{1}{0}f\nx=1\n\u{1}g\ny=1\n", "n".repeat(n))),
    ("directories", 60, |n| format!("include {0}f g\nend=$(x)\n\u{1}{0}f\nx=1\ninclude g\n\u{1}g\ny+=1\n", "d/".repeat(n))),
];

/// Evaluated text
pub const EVALS: &[Shape] = &[
    ("in-a-row", 1500, |n| each(n, |j| format!("$(eval v{}+={})\n", j % 90, j))),
    ("on-one-line", 513, |n| format!("{}\nz=$(v1)\n", each(n, |j| format!("$(eval v{}+={})", j % 90, j)))),
    ("in-a-value", 1025, |n| format!("c=\nz:={}[$(c)]\n", "$(eval c+=i)".repeat(n))),
    ("lines", 513, |n| format!("define v\n{}r: d\n\tc\nendef\n$(eval $(v))\nz=$(v1)\n", each(n, |j| format!("v{}={}\n", j % 90, j)))),
    ("rules", 129, |n| format!("define v\n{}endef\n$(eval $(v))\n", each(n, |j| format!("t{}: d{} e\n\tcmd $$(x) {}\n", j, j, j)))),
    ("length", 20000, |n| format!("$(eval x={}$$(y))\n$(eval {}=1)\nz=$(x)\n", "é".repeat(n), "n".repeat(n + 1))),
    ("nested", 40, |n| format!("{}x=in{}\nz=$(x)\n", "$(eval y+=a".repeat(n), ")".repeat(n))),
    ("dollars", 200, |n| format!("y=1\n$(eval x={}y)\ny=2\nz:=$(x)\n", "$".repeat(n))),
    ("levels", 129, |n| format!("v0=x:=done\n{}$(v{})\nz=$(x)\n", each(n, |j| if j == 0 { "v1=$(eval $(v0))\n".into() } else { format!("v{}=$(eval $$(v{}))\n", j + 1, j) }), n)),
];

/// Line breaks, comments, white space
pub const LAYOUT: &[Shape] = &[
    ("continuations", 257, |n| format!("a=1{}2\nb=x{}y\nt:{} d\n\tc{}e\nz=1\n", "\\\n".repeat(n), " \\\n  ".repeat(n), "\\\n".repeat(n), "\\\n\t".repeat(n.min(1500)))),
    ("continued-words", 2000, |n| format!("a={}end\nt: {}end\n", each(n, |j| format!("w{} \\\n", j)), each(n, |j| format!("d{} \\\n\t", j)))),
    ("backslashes", 5000, |n| format!("a=1{}x\nb=1{}\nc=2\n", "\\".repeat(n), "\\".repeat(n))),
    ("backslashes-comment", 5000, |n| format!("a=1{0}# c{0}\nb=2\nc=3\n", "\\".repeat(n))),
    ("comment-lines", 2049, |n| format!("a=1\n{}b=2\n", each(n, |j| format!("# c {} $(\n", j)))),
    ("comment-length", 8193, |n| format!("a=1 #{}\nb=2\n#{}\nc=3\n", "é".repeat(n), "# ".repeat(n / 2))),
    ("continued-comments", 3000, |n| format!("a=1 # c{}\nb=2\n# q{}end\nc=3\n", " \\\n d".repeat(n), "\\\n".repeat(n))),
    ("blank-lines", 8193, |n| format!("a=1\n{}b=2\n", "\n".repeat(n))),
    ("blank-lines-crlf", 4097, |n| format!("a=1\r\n{}b=2\r\n", "\r\n".repeat(n))),
    ("tabs", 8193, |n| format!("a{0}={0}1{0}2{0}\n {0}b=1\nc=1{0}# c\nt:{0}d{0}e\n", "\t".repeat(n))),
    ("crlf-continuations", 3000, |n| format!("a=1{}2\r\nb=1\r\n", " \\\r\n".repeat(n))),
];

/// Expressions
pub const EXPRS: &[Shape] = &[
    ("pieces", 1025, |n| format!("v={}\n", each(n, |j| format!("t{}$(n{})$$", j, j % 10)))),
    ("literal-length", 70000, |n| format!("v={0}$(x){0}\n", "é".repeat(n))),
    ("name-length", 70000, |n| format!("v=$({0})${{{0}x}}$(é{0} )\n", "n".repeat(n))),
    ("brackets-in-a-name", 300, |n| format!("v=$(a{0}b{1})${{a{2}b{3}}}$(a{2})${{b{0}}}\n", "(".repeat(n), ")".repeat(n), "{".repeat(n), "}".repeat(n))),
    ("brackets-around-a-comma", 300, |n| format!("v=$(word {0}1,2{1},c)${{word 1,{2}a,b{3}}}$(word a{2},c{0}d,e{1})\n", "(".repeat(n), ")".repeat(n), "{".repeat(n), "}".repeat(n))),
    ("brackets-in-arguments", 300, |n| format!("v=$(strip a{0}b,c{1})$(words {2}$(x){3})$(eval {0},{1}={2},{3})$(word {0}{2},{3}{1},d)\n", "(".repeat(n), ")".repeat(n), "{".repeat(n), "}".repeat(n))),
    ("bracket-pairs", 1025, |n| format!("v=$(word {0}1,{0}a)$(word {0},1,{1}a)$(strip {1},{0})\n", "()".repeat(n), "{}".repeat(n))),
    ("commas", 1025, |n| format!("v=$(strip a{0}b)$(w{0}) $(word (,{0}),b)\n", ",".repeat(n))),
    ("argument-length", 20000, |n| format!("v=$(word {0},{0}b)$(words  {0} c)$(strip {0})\n", "é ".repeat(n))),
    ("argument-references", 257, |n| format!("v=$(word {0},{0}b)$(strip {0})$(x{0})\n", "$(x,y)$a".repeat(n))),
    ("blanks", 20000, |n| format!("v=$(word{0}1,{0}b{0})$(strip{0}c{0})$(eval{0}d{0})q\n", " ".repeat(n + 1))),
    ("nested", 100, |n| format!("v={}a{}\nw={}a{}\nu={}1,b{}\n", "$(strip ".repeat(n), ")".repeat(n), "${x$(words ".repeat(n / 2), ")}".repeat(n / 2), "$(word ".repeat(n / 2), ",b)".repeat(n / 2))),
    ("function-name", 5000, |n| format!("v=$(word{0} a,b)$({0}word a,b)$(wor{0}d 1)$(strip{1}a)\n", "s".repeat(n), "\t".repeat(n + 1))),
];

/// Which variables are looked up (of at most 128, what the model can tell apart)
pub const NAMES: &[Shape] = &[
    ("of-one-value", 100, |n| format!("v={}\nw:=$(v)\nz=$(w)\nt: $(w) {}\n\t{}\n", each(n, |j| format!("$(a{})x", j)), each(n, |j| format!("d$(a{}) ", j)), each(n, |j| format!("${{a{}}}", j / 2)))),
    ("of-a-chain", 50, |n| format!("{}z=$(v{})\ny:=$(z)\n", each(n, |j| format!("v{}=$(v{})$(u{})x\n", j + 1, j, j)), n)),
    ("of-simple-ones", 50, |n| format!("{}z=$(v{})\n", each(n, |j| format!("v{}:=$(v{})x$(u{})\n", j + 1, j, j)), n)),
    ("of-appends", 60, |n| format!("w:=\n{}z=$(v)\n", each(n, |j| format!("v+=$(a{})\nw+=$(b{})\n", j, j % 50)))),
    ("computed", 40, |n| format!("{}v={}\n", each(n, |j| format!("n{}=b{}\n", j, j)), each(n, |j| format!("$($(n{}))x", j)))),
    ("in-substitutions", 25, |n| format!("{}\n", each(n, |j| format!("v{}=$(v{}:$(k{})=$(r{}))\n", j + 1, j, j, j)))),
    ("repeated", 1025, |n| format!("v={}\nw:=$(v)\n", each(n, |j| format!("$(a{})x", (j * j) % 31)))),
];

/// One bad makefile after the other, then a good one
pub const BADS: &[Shape] = &[
    ("makefiles", 257, |n| format!("{}a+=end\nt: d\n\tc\nifeq (1,1)\nb=$(a)\nendif\n", each(n, |j| format!("a+={}\n{}\n\u{2}", j, ["word", "ifeq (1,1)", "define d\nx", "x=$(", "t: d\nendif", "else", "ifeq (1,2)\nifeq (a,b)", "include no", "$(u)", "\tc"][j % 10])))),
    ("nested", 129, |n| format!("{}endif\n\u{2}a=1\nendif\n\u{2}t: d\n\tc\n", "ifeq (1,1)\n".repeat(n))),
    ("endifs", 129, |n| format!("{}\u{2}a=1\n", "endif\n\u{2}else\n\u{2}a=0\nt: d\n\u{2}\tc\n\u{2}".repeat(n))),
];

fn sizes(cap: usize, deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if deep { (0..=300).collect() } else { (0..=36).chain((40..300).step_by(13)).collect() };
    for k in 6..21 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1].iter());
    }
    v.extend([99, 100, 101, 150, 200, 250, 254, 500, 700, 999, 1000, 1001, 1500, 2000, 3000, 5000, 9999, 10000, 10001, 20000, 65534, 70000].iter());
    v.retain(|x| *x <= if deep { cap * 2 } else { cap });
    v.sort();
    v.dedup();
    v
}

/// Every text of the shapes: one space for each
pub fn texts(prefix: &str, shapes: &[Shape], deep: bool) -> Vec<(String, u64, Box<dyn Fn(u64) -> String + Send + Sync>)> {
    shapes
        .iter()
        .map(|(name, cap, f)| {
            // how deep things nest is limited by the stack, so that is not extended
            let s = sizes(*cap, deep && *cap > 300);
            let f = *f;
            let t: Box<dyn Fn(u64) -> String + Send + Sync> = Box::new(move |i| f(s[i as usize]));
            (format!("sizes/{}-{}", prefix, name), sizes(*cap, deep && *cap > 300).len() as u64, t)
        })
        .collect()
}

pub const GROUPS: &[(&str, &[Shape])] = &[
    ("variables", VARS),
    ("conditionals", CONDS),
    ("rules", RULES),
    ("places", LOCS),
    ("substitutions", SUBST),
    ("escapes", ESCAPES),
    ("defines", DEFINES),
    ("includes", INCLUDES),
    ("evals", EVALS),
    ("layout", LAYOUT),
    ("names", NAMES),
    ("errors", BADS),
];

/// The groups named, model against hastur
pub fn spaces(p: Proj, groups: &[&str], deep: bool) -> Vec<Box<dyn Space>> {
    let mut v = vec![];
    for (name, shapes) in GROUPS {
        if groups.is_empty() || groups.contains(name) {
            v.extend(texts(name, shapes, deep).into_iter().map(|(name, n, f)| fam(&name, p, n, f)));
        }
    }
    v
}

/// How large each shape can be within about a second (to choose the limits above)
pub fn measure() {
    let dir = std::env::temp_dir().join(format!("hmc-sizes-{}", std::process::id()));
    let p = Proj { vars: true, flavor: true, rules: true, locs: true, sens: true, paths: true };
    for (g, shapes) in GROUPS {
        for (name, cap, f) in *shapes {
            let mut n = 64;
            let mut last = 0.0;
            while n < 2 * cap {
                let t0 = std::time::Instant::now();
                let mut st = Stats::new(&dir);
                let r = check_case(&Case::from_text(&f(n.min(*cap))), &p, &mut st);
                last = t0.elapsed().as_secs_f64();
                if r.is_err() || st.validated == 0 {
                    println!("{} {} {}: {:?} {:?}", g, name, n, r.map_err(|e| e.chars().take(300).collect::<String>()), st.skipped);
                    break;
                }
                if last > 0.4 {
                    break;
                }
                n *= 2;
            }
            println!("{} {} cap {}: {:.2} s at {}", g, name, cap, last, n);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
