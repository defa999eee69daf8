//! Makefile-level spaces: everything is a text, read by the model and by hastur
use super::*;
use crate::cmp::{BOTH, RULES, VARS};

type Sp = Vec<Box<dyn Space>>;

pub fn vars(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("OP", "=¦:=¦::=¦?=¦+="),
        ("N", "a¦b¦c"),
        ("V", "¦1¦x y¦$a¦$(b)¦${c}¦x$(a)y¦$$a"),
        ("V2", "1¦$a¦$(b)$a"),
        ("NAME", "a¦foo¦a.b¦é¦A¦a-b_c¦$(n)¦x$(n)y¦${n}z¦$n¦a/b¦%¦1¦n¦$(n)$(n)¦$(u)q"),
        (
            "VAL",
            "¦1¦two words¦ lead¦trail ¦tab\tin¦é ü¦$n¦$(n)¦${n}¦$(n)$(m)¦$(n) $(m)¦$($(n))¦$(a$(n))¦${$(n)}¦$(${n}b)¦$(u)¦$u$u¦$$¦$$n¦$$$$¦$$$n¦x$$¦$(n)$$(n)¦,¦a=b¦a:b¦a;b¦a+=b¦$(n)=1¦()¦(n)¦{}¦%¦a\\b¦\\\\¦$(m)x$(m)¦$(lm)¦'q'¦\"q\"¦$(e)",
        ),
        ("ENV", "n=m\nm=v\nlm = $(n)-$(m)\nmb=deep\nb=bee\nab=x\nam := $(m)!\n¦n:=m\nm?=v w\nlm:=$(m)\ne=\n"),
    ]);
    let mut v = vec![
        mk("vars/one", p, &gr, if own { "‹ENV›‹NAME›«¦ ¦  ¦\t»‹OP›«¦ »‹VAL›«\n¦»" } else { "‹ENV›‹NAME›«¦ »‹OP›‹VAL›\n" }),
        mk("vars/then-change", p, &gr, if !own { "‹ENV›r ‹OP› ‹VAL›\nr ‹OP› «2¦$(n)»\nm«=¦+=»changed\nn=b\n" } else { "‹ENV›r ‹OP› ‹VAL›\nr ‹OP› «¦2¦$(n)¦${lm}¦$$m¦a=b»\nm«=¦:=¦?=¦+=»changed\nn ‹OP› b\n" }),
    ];
    if own {
        v.push(mk("vars/sequences-3", p, &gr, "«‹N›‹OP›‹V›\n»*1-3;"));
        v.push(mk("vars/sequences-4", p, &gr, if deep { "««a¦b»«=¦:=¦?=¦+=»‹V2›\n»*4-5;" } else { "««a¦b»«=¦:=¦?=¦+=»‹V2›\n»*4;" }));
        if deep {
            v.push(mk("vars/sequences-4-wide", p, &gr, "«‹N›«=¦:=¦?=¦+=»«¦1¦$a¦$(b)»\n»*4;"));
        }
    } else {
        v.push(mk("vars/sequences-2", p, &gr, "«‹N›‹OP›‹V›\n»*1-2;"));
        v.push(mk("vars/sequences-3-small", p, &gr, "««a¦b»«=¦:=¦?=¦+=»‹V2›\n»*3;"));
    }
    // two makefiles read one after the other by the same engine
    v.push(mk("vars/two-files", p, &gr, "«‹N›‹OP›‹V2›\n»*1-1;«a‹OP›‹V2›\n»*0-1;\u{2}«a¦b»‹OP›‹V›\n"));
    let big: u64 = if deep { 300 } else { 130 };
    v.push(fam("vars/many-appends", p, big * 4, move |i| {
        let (n, k) = (i / 4, i % 4);
        let op = ["=", ":=", "?=", "+="][k as usize];
        let mut t = format!("q=1\nv{}s$(q)\n", op);
        for j in 0..n {
            t += &format!("v += {}$(q)\n", j);
        }
        t + "q=2\n"
    }));
    v.push(fam("vars/reference-chain", p, 50 * 3, |i| {
        let (n, k) = (i / 3, i % 3);
        let op = ["=", ":=", "+="][k as usize];
        let mut t = "v0=base\n".to_string();
        for j in 0..n {
            t += &format!("v{}{}x$(v{})y\n", j + 1, op, j);
        }
        t + "v0=other\n"
    }));
    v.push(fam("vars/nested-names", p, 40, |i| {
        let mut t = "a=a\n".to_string();
        let mut r = "$(a)".to_string();
        for _ in 0..i {
            r = format!("$({})", r);
        }
        t += &format!("v={}\nw:={}\n", r, r);
        t
    }));
    v.push(fam("vars/many-variables", p, big, |n| {
        let mut t = String::new();
        for j in 0..n {
            t += &format!("var{}{}{}$(var{})\n", j, ["=", ":=", "?=", "+="][(j % 4) as usize], j, j / 2 + 1000 * (j % 2));
        }
        t
    }));
    v.push(fam("vars/long-values", p, big * 2, |n| {
        let w = "word é $(x) ".repeat(n as usize / 8) + &"z".repeat(n as usize % 8 * 9);
        format!("x=ex\nv={}\ns:={}\n{}=1\n", w, w, "n".repeat(n as usize + 1))
    }));
    v.push(fam("vars/reassign", p, 60 * 5, |i| {
        let (n, k) = (i / 5, i % 5);
        let mut t = String::new();
        for j in 0..n {
            let op = ["=", ":=", "?=", "+=", "="][((j + k) % 5) as usize];
            t += &format!("v{}{}$(w)\nw={}\n", op, j, j);
        }
        t
    }));
    v
}

/// Sequences of lines of every kind: whatever one construct does to another
pub fn mixed(p: Proj, deep: bool) -> Sp {
    let gr = Grammar::new(&[
        ("PRE", "n=m\nr=t: rd; rc\nv=a+=v$(b)\nu:=\n"),
        (
            "W",
            "a=1\n¦a:=$(b)@\n¦b+=$(a)\n¦b?=@$(a)\n¦$(n)=@\n¦ a = $(a:1=2) \n¦a=x \\\n  y@\n¦x:=$(a)$(b)$(m)\n¦t: d@\n¦t w: $(a) d@\n¦t:: e;c $(b)\n¦$(r)\n¦w: ; i@ $(a)\n¦\tc@ $(a)\n¦\tc \\\n\td@\n¦\tc@ # x\n¦ifeq ($(a),1)\n¦ifneq ($(b),)\n¦ifeq (x,y)\n¦else\n¦endif\n¦define a\n$(b)@\nendef\n¦define v\n¦endef\n¦define d +=\nx=@\n¦include f\n¦-include no g\n¦include $(n)\n¦$(eval a=@)\n¦$(eval t: e@)\n¦$(eval $(v))\n¦x=$(eval a+=@)\n¦x:=$(eval b+=@)$(x)\n¦# c\n¦\n¦# c \\\n¦a+=@ # c\r\n¦\t\n¦$(u)\n¦$(x)\n¦a t: $$$(n)\n¦junk\n¦ \n",
        ),
        (
            "N",
            "a=1\n¦a:=$(b)@\n¦b+=$(a)@\n¦b?=$(a)\n¦t: d@ $(a)\n¦t w:: $(b)\n¦\tc@ $(a)\n¦\tc \\\n¦ifeq ($(a),1)\n¦ifneq ($(b),)\n¦else\n¦endif\n¦define a\n¦endef\n¦include f\n¦-include no g\n¦$(eval a=@)\n¦$(eval $(a))\n¦x:=$(a)$(b)\n¦# c \\\n¦\n",
        ),
        ("FILES", "\u{1}f\na+=F\nt: fd\n\tfc $(a)\n\u{1}g\nifeq ($(a),1)\nb=G\n\u{1}m\nb:=$(a)M\n\u{1}!no"),
    ]);
    let mut v = vec![
        mk("mixed/sequences-3", p, &gr, "‹PRE›«‹W›»*1-3;‹FILES›"),
        mk("mixed/sequences-4", p, &gr, if deep { "«‹N›»*4-5;‹FILES›" } else { "«‹N›»*4;‹FILES›" }),
        mk("mixed/two-makefiles", p, &gr, "‹PRE›‹W›\u{2}‹W›‹N›‹FILES›"),
        mk("mixed/included", p, &gr, "‹PRE›‹N›include h\n‹W›\u{1}h\n‹W›‹FILES›"),
        mk("mixed/evaluated", p, &gr, "‹PRE›define e\n‹W›‹N›endef\n$(eval $(e))\n‹N›‹FILES›"),
    ];
    if deep {
        v.push(mk("mixed/wide-4", p, &gr, "‹PRE›«‹W›»*4;‹FILES›"));
    }
    v
}

/// References written in every way, in every place
pub fn shapes(p: Proj) -> Sp {
    let gr = Grammar::new(&[
        ("S", "$x¦${x}¦$(x)¦$($(n))¦${${n}}¦$(${n})¦${$(n)}¦${${n}:x=z}¦$($(n):x=z)¦${$(n):%=z%}¦$(${n}:y=$(z))¦$(x:x={)¦${x:x=(}¦$(x:x=})¦${x:x=)}¦$(x:x=a b)¦${x:x=,}¦$((p))¦${{q}}¦$({q})¦${(p)}¦$(u)¦$u¦$($(u))¦$(eval x=e)¦${eval y=$(x)}$(y)¦$($(n)$(m))¦$(x:$(x)=$(y))¦${x:${n}=${m}}¦$$¦$$x¦$$(x)¦$(n)$(m)¦$(w)¦$(l)¦$(r)¦$(x;y)¦$(x,y)¦$(x=y)¦$(x y)¦$(strip x y)¦$(subst x,z,$(x))¦$(call x)¦$(x:y)¦$(x:=q)¦${x:x=}¦${eval ${n}=${eval x=f}g}¦$(X$(n)Y)¦${${${k}}}¦$()¦${}¦$ y¦$:¦$;¦$=¦$,"),
        (
            "P",
            "‹S›: d\n¦t‹S›: d\n¦‹S›t d: e\n¦t ‹S›: d\n¦t: ‹S›\n¦t: d ‹S›e\n¦t:: d‹S›\n\tk\n¦t: d;‹S›\n¦t:\n\tc ‹S› e\n¦t:\n\t‹S›\\\n\t‹S›\n¦v=‹S›\n¦v:=a‹S›b\n¦v ?= ‹S›\n¦v+=‹S›\nv+=‹S›\n¦‹S›=1\n¦v‹S› := 1\n¦‹S›v+=1\n¦define ‹S›\nb\nendef\n¦define v‹S› +=\nb\nendef\n¦define v\n‹S›\nx‹S›: $(x)\nendef\nz:=$(v)\n¦define v :=\n‹S›\nendef\n¦ifeq (‹S›,xx)\nv=1\nelse\nv=2\nendif\n¦ifneq (yy, ‹S› )\nv=1\nelse\nv=2\nendif\n¦ifeq '‹S›' \"xx\"\nv=1\nelse\nv=2\nendif\n¦ifeq (1,2)\nifeq (‹S›,)\nelse\nendif\n‹S›\n$(x\nelse\nv=1\nendif\n¦include ‹S›\n¦-include f ‹S›\n¦-include q‹S›q\n¦$(eval v=‹S›)\n¦${eval v:=‹S›}\n¦$(eval ‹S›: d)\n¦v:=$(‹S›)\n¦v:=${x:‹S›=z}\n¦v:=$(x:x=‹S›)\n¦‹S›\n¦ ‹S›‹S›\n¦ ‹S›:‹S›\n¦t‹S›: ${x}; ‹S›\n¦t$x: ‹S›; ‹S›\n¦t: d\n‹S›\n\tk\n¦t: d\n\tc # ‹S›\n¦# ‹S›\n¦\u{2}v+=‹S›\nt$x:\n\t‹S›\n¦# ‹S›\\\n‹S›\nw:=$(x)\n¦t‹S›:\\\n‹S›\n",
        ),
    ]);
    vec![mk(
        "shapes/places",
        p,
        &gr,
        "x=xx\ny=yy\nz=zz\nn=x\nm=y\nk=n\nw=\nl= x  y \nr=t2: d2\n(p)=P\n{q}=Q\nxy=XY\nXxY=1\nx;y=S\n‹P›end:=$(x)$(v)\n\u{1}f\nfx+=$(x)\n\u{1}xx\nfxx=1\n\u{1}x\nfy:=1\n\u{1}!yy\u{1}!P",
    )]
}

pub fn c01(deep: bool) -> Check {
    let mut spaces = vars(VARS, deep, true);
    let gr = Grammar::new(&[("C", "a¦$¦(¦)¦{¦}¦b")]);
    spaces.push(mk("vars/value-characters", VARS, &gr, if deep { "a=b\nb=1\nab:=2\nv=«‹C›»*1-8;\n" } else { "a=b\nb=1\nab:=2\nv=«‹C›»*1-6;\n" }));
    spaces.push(mk("vars/name-characters", VARS, &gr, if deep { "a=b\nb=1\n«‹C›»*1-7;:=1\n" } else { "a=b\nb=1\n«‹C›»*1-6;:=1\n" }));
    let gr = Grammar::new(&[("C", "a¦ ¦:¦=¦+¦?¦$¦(¦)")]);
    spaces.push(mk("vars/line-characters", VARS, &gr, if deep { "a=b\n«‹C›»*1-7;\n" } else { "a=b\n«‹C›»*1-6;\n" }));
    let gr = Grammar::new(&[
        ("OP", "=¦:=¦+=¦?="),
        ("N", "$(n)¦$(n)x¦x$(n)¦$(n)$(n)¦$(s)$(n)¦$(s)foo$(s)¦${n}¦$(strip $(n))¦$(n:o=p)¦ $(n)¦  foo"),
        ("B", "¦ ¦\t¦ \t ¦$(e)"),
        ("V", "foo ¦$(e) foo¦$(e)\tfoo\t ¦foo bar ¦$(e)   $(e)¦$(e)"),
    ]);
    spaces.push(mk("vars/name-blanks", VARS, &gr, "e=\ns=$(e) $(e)\nn=‹V›\nfoo=0\n‹N›‹B›‹OP›1\nz:=$(foo)$(fo)[$(foo )]\n"));
    spaces.push(mk("vars/define-name-blanks", VARS, &gr, "e=\ns=$(e) $(e)\nn=‹V›\nfoo=0\ndefine ‹B›‹N›‹B›«¦‹OP›»\n1\nendef\nz:=$(foo)$(fo)[$(foo )]\n"));
    spaces.push(mk("vars/reference-blanks", VARS, &gr, "e=\ns=$(e) $(e)\nn=‹V›\nfoo=0\nz:=[$(«¦‹B›»‹N›‹B›)]\ny=<${‹N›‹B›}>\n"));
    spaces.extend(shapes(VARS));
    spaces.extend(mixed(VARS, deep));
    spaces.extend(super::sweep::sweep(VARS, super::sweep::ALL, deep));
    spaces.extend(super::size::spaces(VARS, &["variables", "layout", "errors"], deep));
    Check { spaces, notes: vec![] }
}

pub fn conds(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("IF", "ifeq (1,1)\n¦ifeq (1,2)\n"),
        ("IF4", "ifeq (a,a)\n¦ifneq ($(x),)\n¦ifeq \"$(x)\" '1'\n¦ifneq (a,a)\n"),
        ("M", "m += @\n"),
        ("S0", "‹M›"),
        ("C1", "‹IF4›‹S0›«else\n‹S0›¦»endif\n"),
        ("S1", "‹M›‹C1›‹M›¦‹M›"),
        ("C1s", "‹IF›‹S0›«else\n‹S0›¦»endif\n"),
        ("S1s", "‹M›‹C1s›‹M›¦‹M›"),
        ("C2s", "‹IF›‹S1s›«else\n‹S1s›¦»endif\n"),
        ("S2s", "‹M›‹C2s›‹M›¦‹M›"),
        ("C2", "‹IF4›‹S1›«else\n‹S1›¦»endif\n"),
        ("OPER", "¦a¦b¦ a¦a ¦$(x)¦$(y)¦$(u)¦$(x)$(y)¦a b¦$$¦$(p)¦é¦$(l)¦A"),
        (
            "LINE",
            "x=@\n¦x:=$(x)@\n¦x+=@\n¦x?=@\n¦r: d@\n¦\tcmd@\n¦r2 r3:: d@ ; in@\n¦include f@\n¦-include nof\n¦$(eval e+=@)\n¦define D@\nbody@\nendef\n¦# comment\n¦\n¦missing separator\n¦$(x)\n¦$(\n¦x=$(\n¦ x=@\n¦endef\n¦elsewhere=@\n¦endif2: @\n¦ifeqx=1\n",
        ),
        ("FILES", "\u{1}f1\ninc1=1\n\u{1}f2\ninc2=1\n\u{1}f3\ninc3=1\n\u{1}f4\ninc4=1\n\u{1}!nof"),
        ("SEP", "(¦\"¦'"),
    ]);
    let mut v = vec![
        mk("conds/operands-paren", p, &gr, "x=a\ny=b\np=(a)\nl=a b\n«ifeq¦ifneq»«¦ »(‹OPER›,‹OPER›)«¦ »\nm=@\n«else\nm=@\n¦»endif\nn=@\n"),
        mk("conds/operands-quoted", p, &gr, "x=a\ny=b\np=(a)\nl=a b\n«ifeq¦ifneq» «\"‹OPER›\"¦'‹OPER›'» «\"‹OPER›\"¦'‹OPER›'»\nm=@\nelse\nm=@\nendif\nn=@\n"),
        mk("conds/nested-2", p, &gr, "x=1\n‹M›‹C2›‹M›"),
        mk("conds/nested-2-seq", p, &gr, "x=1\n‹S2s›‹C1s›‹M›"),
        mk(
            "conds/line-kinds",
            p,
            &gr,
            "x=0\n«¦r: d\n\tc@\n»‹IF›‹LINE›«¦‹LINE›»«else\n«¦‹LINE›»¦»endif\n\tafter@\nz=@\n‹FILES›",
        ),
        mk("conds/skipped-operands", p, &gr, "ifeq (1,2)\nifeq ($(eval q=1),)\nx=@\n«else\nx=@\n¦»endif\n«else\n¦»«ifneq ($(eval w=1),)\ny=@\nendif\n¦»y=@\nendif\nz=@\n"),
        mk("conds/effects", p, &gr, "x=1\n«‹IF4›x=@\n«x=1\n¦x=\n»«else\nx=1\n¦»endif\n»*1-2;"),
    ];
    if own {
        let seq = Grammar::new(&[("L", "ifeq ($(x),1)\n¦ifneq ($(x),1)\n¦ifeq (a,b)\n¦else\n¦endif\n¦x=1\n¦x=\n¦r: d@\n¦\tcmd@\n")]);
        v.push(mk("conds/sequences", p, &seq, if deep { "x=1\n«‹L›»*1-7;" } else { "x=1\n«‹L›»*1-6;" }));
        let err = Grammar::new(&[(
            "L",
            "ifeq (1,1)\n¦ifeq (1,2)\n¦else\n¦endif\n¦else x\n¦endif x\n¦else # c\n¦endif # c\n¦ else\n¦ endif \n¦elsewhere=1\n¦endifx=1\n¦ifneq(1,2)\n¦x+=@\n",
        )]);
        v.push(mk("conds/errors", p, &err, "«‹L›»*1-5;"));
        v.push(mk("conds/nested-3", p, &gr, if deep { "x=1\n‹IF›‹S2s›else\n‹S2s›endif\n‹M›" } else { "x=1\n‹IF›‹S2s›else\n‹S1s›endif\n‹M›" }));
        v.push(mk("conds/line-pairs", p, &gr, "x=0\n‹IF›«‹LINE›»*2;«‹IF›‹LINE›endif\n¦»else\n‹LINE›endif\nz=@\n‹FILES›"));
    }
    // every combination of outcomes at every depth
    let depth = if deep { 9 } else { 7 };
    v.push(fam("conds/deep", p, (0..=depth).map(|d| 6u64.pow(d.min(6)).min(4u64.pow(d))).sum(), move |mut i| {
        let mut d = 0;
        loop {
            let n = 6u64.pow(d.min(6)).min(4u64.pow(d));
            if i < n {
                break;
            }
            i -= n;
            d += 1;
        }
        let mut open = String::new();
        let mut close = String::new();
        let mut k = 0;
        for j in 0..d {
            let c = i % 4;
            i /= 4;
            k += 1;
            open += &format!("{}\nm += a{}\n", if c % 2 == 0 { "ifeq (1,1)" } else { "ifeq (1,2)" }, k);
            close = format!(
                "m += b{}\n{}endif\nm += d{}\n",
                j,
                if c / 2 == 0 { String::new() } else { format!("else\nm += c{}\n", j) },
                j
            ) + &close;
        }
        open + &close + "m += end\n"
    }));
    v.push(fam("conds/very-deep", p, 60 * 3, |i| {
        let (d, k) = (i / 3, i % 3);
        let mut t = String::new();
        for j in 0..d {
            t += if k == 0 || (k == 1 && j + 1 < d) || (k == 2 && j != d / 2) { "ifeq (1,1)\n" } else { "ifeq (1,2)\n" };
            t += &format!("m+=a{}\n", j);
        }
        for j in 0..d {
            t += &format!("else\nm+=b{}\nendif\nm+=c{}\n", j, j);
        }
        t
    }));
    if own {
        v.push(deep_branches(p, if deep { 40 } else { 10 }));
    }
    v
}

/// One level of many isn't selected, at every position, and the levels inside it nest in either branch
fn deep_branches(p: Proj, max: u64) -> Box<dyn Space> {
    let depths: Vec<u64> = (1..=max).chain(max + 1..=66).chain([100, 127, 128, 129]).collect();
    let at = |d: u64| -> Vec<u64> { if d <= max { (0..d).collect() } else if d < 67 { vec![0, 1, d / 2, d - 1] } else { vec![0, d - 1] } };
    let cases: Vec<(u64, u64)> = depths.iter().flat_map(|d| at(*d).into_iter().map(move |k| (*d, k))).collect();
    fam("conds/deep-branches", p, cases.len() as u64 * 12, move |i| {
        let ((d, k), i) = (cases[(i / 12) as usize], i % 12);
        // what levels outside and inside the unselected one look like: condition, and nested in `else`
        let (inner_true, inner_else, skip_first, swap) = (i % 2 == 0, i / 2 % 3, i / 6 % 2 == 0, d % 2 == 1);
        let (mut t, mut end) = (String::new(), String::new());
        for j in 0..d {
            let (cond, in_else) = if j < k {
                (j % 3 != 0, j % 3 == 0)
            } else if j == k {
                (!skip_first, !skip_first)
            } else {
                (inner_true, match inner_else { 0 => false, 1 => true, _ => (j % 2 == 0) != swap })
            };
            t += &format!("{}\n", if cond { "ifeq (1,1)" } else { "ifeq (1,2)" });
            t += &format!("a{}=1\n", j);
            if in_else {
                t += &format!("else\nb{}=1\n", j);
            }
            end = if in_else { format!("endif\nd{}=1\n", j) } else { format!("else\nb{}=1\nendif\nd{}=1\n", j, j) } + &end;
            // closing goes from the innermost level out
            if j + 1 == d {
                t += &end;
            }
        }
        t
    })
}

pub fn c02(deep: bool) -> Check {
    let mut spaces = conds(BOTH, deep, true);
    let gr = Grammar::new(&[
        ("C", "a¦,¦(¦)¦$¦ ¦\"¦'"),
        ("O", "a¦a,b¦(a)¦(a,b)¦$(a,b)¦$(a)¦${a,b}¦${a}¦$(a:x=y)¦$(a:x=,)¦$(a:x=(y))¦$($(k),b)¦$(k)¦$(k) ¦ $(k)¦'a'¦\"a\"¦$((a))¦$(s)¦¦$(l)¦x y¦$$a¦$k"),
    ]);
    spaces.push(mk("conds/operand-characters", BOTH, &gr, if deep { "$=(\na=1\na,a=2\n=3\nifeq («‹C›»*0-6;,«‹C›»*0-2;)\nx=@\nelse\nx=@\nendif\ny=1\n" } else { "a=1\na,a=2\nifeq («‹C›»*0-5;,«‹C›»*0-1;)\nx=@\nelse\nx=@\nendif\ny=1\n" }));
    spaces.push(mk("conds/quoted-characters", BOTH, &gr, "a=1\nifneq «\"¦'»«‹C›»*0-3;«\"¦'»«¦ »«\"¦'»«‹C›»*0-2;«\"¦'»\nx=@\nelse\nx=@\nendif\ny=1\n"));
    spaces.extend(skipped(BOTH, deep));
    // what the operands' values have around them: blanks, line ends, and blanks that are not blanks to everyone
    let gw = Grammar::new(&[
        ("W", "¦ ¦\t¦\n¦\n\n¦\r\n¦ \n ¦\u{b}¦\u{c}¦\u{a0}¦\u{2003}¦\u{feff}"),
        ("Q", "($(a),$(b))¦($(b),x)¦ \"$(a)\" \"$(b)\"¦ '$(b)' 'x'¦(x,$(a)$(b))"),
    ]);
    spaces.push(mk("conds/operand-blanks", BOTH, &gw, "define a\n‹W›x\nendef\ndefine b\nx‹W›\nendef\n«ifeq¦ifneq»‹Q›\nm=@\nelse\nm=@\nendif\n"));
    spaces.push(mk("conds/operand-blanks-both", BOTH, &gw, "define a\n‹W›x‹W›\nendef\ndefine b\n‹W›\nendef\n«ifeq¦ifneq»‹Q›\nm=@\nelse\nm=@\nendif\n"));
    spaces.push(mk("conds/line-characters", BOTH, &gr, "a=1\nifeq«‹C›»*0-6;\nx=@\nendif\ny=1\n"));
    spaces.push(mk("conds/keyword-names", BOTH, &gr, "«¦if\n¦ifeq (1,1)\n¦ifeq (1,2)\n»«¦ ¦\t»«ifeq¦ifneq¦ifdef¦ifndef¦else¦endif¦define¦endef¦include¦undefine»«¦ ¦  ¦\t»«=¦:=¦::=¦?=¦+=¦!=¦==¦:¦ = =¦x =»«¦ »«¦x¦(1,1)»\ny=@\n«¦else\nz=@\n»«¦endif\n»«¦$(endif)$(else):$(ifeq)\n»"));
    spaces.push(mk("conds/operand-forms", BOTH, &gr, "k=a\na=x z\na,b=x\n(a)=p\ns=  x\nl=x y\n«ifeq¦ifneq» («¦ »‹O›«¦ »,«¦ »‹O›«¦ »)\nx=@\nelse\nx=@\nendif\n"));
    spaces.push(mk("conds/operand-forms-quoted", BOTH, &gr, "k=a\na=x z\na,b=x\n(a)=p\ns=  x\nl=x y\n«ifeq¦ifneq» \"‹O›\" '‹O›'\nx=@\nelse\nx=@\nendif\n"));
    spaces.extend(shapes(BOTH));
    spaces.extend(mixed(BOTH, deep));
    spaces.extend(super::sweep::sweep(BOTH, &[super::sweep::CONDS, super::sweep::EVALS].concat(), deep));
    spaces.extend(super::size::spaces(BOTH, &["conditionals"], deep));
    Check { spaces, notes: vec![] }
}

/// Lines of any kind, well formed or not, in a branch that isn't selected
pub fn skipped(p: Proj, deep: bool) -> Sp {
    let gr = Grammar::new(&[
        ("L", "ifeq foo¦ifeq ($(x,1)¦ifneq (1¦ifdef $(x¦ifndef¦ifeq 'a' b¦else¦endif¦ endif # e¦define v¦define¦override define $(x¦define = x¦define +=¦define $(x) :=¦endef¦ endef # e¦\tc $(x¦\tc $(word a)¦\tc \\¦\tendef¦v=$(x¦v=1¦$(x¦$(eval v=1¦include $(y¦junk¦a \\¦# c \\¦t: d $(x¦"),
        ("M", "ifeq foo¦else¦endif¦define v¦export define¦endef¦\tc $(x¦v=$(x¦a \\"),
        ("O", "ifeq (1,2)\n¦ifneq (1,2)\nv=0\nelse\n¦ifeq (1,2)\nifeq (1,1)\nelse\n¦ifeq (1,1)\nifeq (1,2)\n"),
    ]);
    let mut v = vec![
        mk("conds/skipped-text", p, &gr, "x=1\nt: d\n\tc0\n‹O›«‹L›\n»*1-3;endif\n\tlast\nz=1\n"),
        mk("conds/skipped-sequences", p, &gr, if deep { "t: d\nifeq (1,2)\n«‹M›\n»*4-6;endif\n\tlast\nz=1\n" } else { "t: d\nifeq (1,2)\n«‹M›\n»*4-5;endif\n\tlast\nz=1\n" }),
    ];
    if deep {
        v.push(mk("conds/skipped-text-4", p, &gr, "x=1\nt: d\n\tc0\nifeq (1,2)\n«‹L›\n»*4;endif\n\tlast\nz=1\n"));
    }
    v
}

pub fn rules(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("T", "a¦a b¦$(x)¦b$(x)c¦a $(l) ¦$(u)a¦é.o"),
        ("D", "¦ d¦ d e¦ $(x)¦ $(l)  f¦ d $(u) e¦\td\te¦ d|e¦ é $(x)d¦ $(x:p=q)"),
        ("C", ":¦::"),
        ("I", "¦;in¦; in $(x)¦ ;¦ ; a ; b¦;$(u)¦; k=v:w"),
        ("R", "¦\tc1\n¦\tc1 $(x)\n\tc2 $@ $$x\n¦\t c \\\n\td\n¦\tc \\\nd\n¦\tc \\\n d \\\n\t e\n\tf\n¦\t\n¦\tc # x\n¦\t# x\n\tc\n¦\t@c1\n\n\n\tc2\n"),
        ("X", "x=p\nl=m n\n"),
        ("L", "a: d@\n¦a: e@ f\n¦b a: g@\n¦a:: h@\n¦\tc@\n¦\n¦# c\n¦v=@\n¦a: ; i@\n"),
    ]);
    let mut v = vec![
        mk("rules/one", p, &gr, "‹X›‹T›«¦ »‹C›‹D›‹I›\n‹R›"),
        mk("rules/late-expansion", p, &gr, "‹X›‹T›:‹D›‹I›\n‹R›«x=changed\n¦x+=more\nl=\n¦$(eval x:=ev)\n»"),
        mk("rules/two", p, &gr, if own { "‹X›«a¦a b¦b»‹C›«¦ d¦ d e»‹I›\n‹R›«¦v=1\n¦\n»«a¦b a»‹C›«¦ f»«¦;in»\n‹R›" } else { "‹X›«a¦a b»:«¦ d e»«¦; in $(x)»\n«¦\tc1 $(x)\n»«a¦b a»‹C› f«¦;in»\n‹R›" }),
        mk("rules/after-recipe", p, &gr, "r: d\n\tc@\n«v=1\n¦$(u)\n¦$(eval w=1)\n¦include f\n¦-include nof\n¦define D\nz\nendef\n¦ifeq (1,1)\n¦ifeq (1,2)\nendif\n¦# c\n¦\n¦  \n¦ # c\n¦q:\n¦ v=1\n¦v:=$(u)\n¦v+=1\n¦: x\n¦$(nothing) : x\n»\tc@\n\tc@\nend=1\n\u{1}f\ninf=1\n\u{1}!nof"),
        mk("rules/at-eof", p, &gr, "a: b«¦\n¦;c¦;c\n¦\n\tc¦\n\tc\n¦\n\tc\n\td¦\n\n¦\n# x¦\n\tc\n#x¦ # x¦\r\n¦\r\n\tc\r\n\td\r\n»"),
    ];
    if own {
        v.push(mk("rules/sequences", p, &gr, if deep { "«‹L›»*1-6;" } else { "«‹L›»*1-5;" }));
        v.push(mk("rules/three-targets", p, &gr, "‹X›«a b c¦a a¦$(l) a¦m n $(l)»‹C›‹D›«¦;i»\n«¦\tk\n»«a¦m n»: «z¦»\n«¦\tk2 $(x)\n»"));
        for (k, c) in ['>', ' ', '$', '#', 'é', ';', ':', '|'].iter().enumerate() {
            if *c == ' ' || *c == '#' {
                continue; // reads as indentation or comment elsewhere
            }
            let g2 = Grammar::new(&[("L", "a: d@\n¦b a: e@\n¦⇥c@ $(x)\n¦\tc@\n¦x=@\n¦a:;i@\n¦⇥c@ \\\n⇥d@\n¦⇥c@ \\\nd@\n")]);
            v.push(mkc(&format!("rules/command-char-{}", k), p, *c, &g2, if deep { "«‹L›»*1-5;" } else { "«‹L›»*1-4;" }));
        }
    }
    v.push(fam("rules/many-deps", p, 120, |n| {
        let d: Vec<String> = (0..n).map(|j| format!("d{}", j)).collect();
        format!("t: {}\n\tc\nt: z\nu: {}\n", d.join(" "), d.join("  "))
    }));
    v.push(fam("rules/many-targets", p, 60, |n| {
        let d: Vec<String> = (0..=n).map(|j| format!("t{}", j)).collect();
        format!("{}: d e\n\tc $(x)\n\tc2\n{}: f\nx=1\n", d.join(" "), d.join(" "))
    }));
    v.push(fam("rules/many-commands", p, 120, |n| {
        let mut t = "t: d\n".to_string();
        for j in 0..n {
            t += &format!("\tcmd {}{}\n", j, if j % 7 == 3 { " \\\n\tmore" } else { "" });
        }
        t + "u: t\n\tx\n"
    }));
    v.push(fam("rules/many-rules", p, 80, |n| {
        let mut t = String::new();
        for j in 0..n {
            t += &format!("t{}: t{} t{}\n", j % 13, j + 1, j * 7 % 5);
            if j % 3 == 0 {
                t += &format!("\tmake {}\n", j);
            }
        }
        t
    }));
    v
}

pub fn c03(deep: bool) -> Check {
    let mut spaces = rules(RULES, deep, true);
    let gr = Grammar::new(&[
        ("P", "t¦t:¦: d¦t: d¦t: d;¦t: d; c¦;¦; c¦d;c¦t d¦::¦:: e;¦$(x): y¦d; $$(x)¦t:d;c:e;f¦¦ ¦t : d ; c"),
        ("Q", "¦ y¦ y z¦: d¦ : d¦;k¦ ; k¦: d ; k¦:: d; k $(x)¦ $(x)¦$(x)¦: $(q)¦;$(q)"),
        ("C", "a¦ ¦:¦;¦$x¦$y¦$z"),
    ]);
    spaces.push(mk("rules/from-variables", RULES, &gr, "x=X\np=‹P›\nq=‹P›\n«¦ ¦o »$(p)‹Q›\n\tc $(x)\nx=Y\n"));
    spaces.push(mk("rules/from-two-variables", RULES, &gr, "x=X\np=‹P›\nq=‹P›\n$(p)«¦ »$(q)«¦ y»\n«¦\tc\n»"));
    spaces.push(mk("rules/characters", RULES, &gr, if deep { "x=:\ny=;\nz=b c\n«‹C›»*1-7;\n" } else { "x=:\ny=;\nz=b c\n«‹C›»*1-6;\n" }));
    let gr = Grammar::new(&[("C", "a¦ ¦\t¦\\¦\n¦#¦$"), ("R", "\tc@\n¦\tc@ $(x) $@\n¦\tc \\\n\td@\n¦\tc \\\ne@\n¦\t\tc@ \n¦\t\n¦\t@-c # d\n¦\t$(x:1=2)\n¦ \tc@\n¦# c\n¦\t# c\n¦\n¦ifeq (1,1)\n¦else\n¦endif\n¦x=2\n¦\tc\\\\\n¦\tc \\\n\n¦\tc \\\n\t\n¦\tx=@\n¦\ta: b\n¦\tinclude f\n¦\tendif\n¦\t; c\n¦\t$$(x)$(u)\n¦\tc \\\n\\\n\td\n")]);
    spaces.push(mk("rules/recipe-characters", RULES, &gr, if deep { "x=1\nt: d\n\t«‹C›»*0-7;\n" } else { "x=1\nt: d\n\t«‹C›»*0-6;\n" }));
    spaces.push(mk("rules/recipe-lines", RULES, &gr, if deep { "x=1\nt: d\n«‹R›»*1-4;v=1\n" } else { "x=1\nt: d\n«‹R›»*1-3;v=1\n" }));
    spaces.extend(shapes(RULES));
    spaces.extend(mixed(RULES, deep));
    spaces.extend(super::sweep::sweep(RULES, super::sweep::ALL, deep));
    spaces.extend(super::size::spaces(RULES, &["rules", "layout"], deep));
    Check { spaces, notes: vec![] }
}

pub fn subst(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("VAL", "¦a¦a.c b.c¦ a  b\tc ¦foo.c x.h foo.cc¦ab aab b¦%x a%b¦é.c üé¦a.c.c .c c¦\\% \\a%¦a,b c=d¦aa aaa aaaa"),
        ("KC", "a¦b¦%¦\\"),
        ("K", "«‹KC›»*0-3;"),
        ("RC", "x¦%¦\\"),
        ("R", "«‹RC›»*0-3;"),
        ("K2", "¦.c¦c¦a¦%¦%.c¦f%¦f%.c¦foo.c¦\\%¦\\\\%¦é¦%é¦a%a¦%%¦ ¦$(k)¦$(kp)¦.$(u)c¦$(k).c"),
        ("R2", "¦.o¦%¦%.o¦x%y¦x¦%%¦\\%¦\\%%¦\\\\%¦é%¦ x¦a b¦$(r)¦$(rp)¦$(u)%¦%\\%¦,"),
        ("V", "v¦$(n)¦$(n)$(u)¦w$(u)"),
        ("ENV", "n=v\nk=.c\nkp=f%\nr=R\nrp=%-$(k)\nw=$(v) q.c\n"),
    ]);
    let mut v = vec![
        mk("subst/forms", p, &gr, "‹ENV›v=‹VAL›\nz«=¦:=»[$(‹V›:‹K2›=‹R2›)]\n"),
        mk("subst/in-place", p, &gr, "‹ENV›v=foo.c a.c\nz=${v:‹K2›=‹R2›} $(v:.c=.o)$(v)\nv += late.c\n"),
        mk("subst/nested", p, &gr, "‹ENV›v=foo.c x\ni=$(v:.c=.o)\n«z=$(i:‹K2›=‹R2›)\n¦y=$($(n):‹K2›=$(v:x=‹R2›))\n¦q=$(v:$(u:a=b)‹K2›=‹R2›)\n¦q=$(v:‹K2›=$(i:.o=‹R2›))\n»"),
        mk("subst/computed", p, &gr, "‹ENV›v=foo.c x\n«m=v:‹K2›=‹R2›\nz=$($(m))\n¦m2=‹K2›=‹R2›\ny=$(v:$(m2))\n»"),
        mk("subst/in-rules", p, &gr, "‹ENV›v=foo.c x.c\n«$(v:‹K2›=‹R2›)t: $(v:.c=.o) d\n¦t: $(v:‹K2›=‹R2›) d\n\tcc $(v:.c=.o)\n¦t:\n\tcc $(v:‹K2›=‹R2›)\n»v=changed.c\n"),
    ];
    if own {
        v.push(mk("subst/exhaustive", p, &gr, if deep { "v=«‹VAL›¦«a¦b¦%¦ »*1-4;»\nz=$(v:‹K›=‹R›)\n" } else { "v=‹VAL›\nz=$(v:‹K›=‹R›)\n" }));
        v.push(mk("subst/values", p, &gr, if deep { "v=«a¦b¦ ¦\t¦%¦é»*0-6;\nz=$(v:«a¦ab¦%¦a%¦%b¦a%b¦¦b%a¦é»=«x¦%x¦y%¦¦%¦a b»)\n" } else { "v=«a¦b¦ ¦\t¦%»*0-5;\nz=$(v:«a¦ab¦%¦a%¦%b¦a%b¦¦b%a»=«x¦%x¦y%¦¦%»)\n" }));
        v.push(mk("subst/long-keys", p, &gr, "v=«aba¦ababa¦abababa¦abcab¦xabab» aba\nz=$(v:«¦a¦ab¦aba»%«¦a¦ba¦aba¦abab¦ababa»=«<%>¦-»)\ny=$(v:«a¦ba¦aba¦baba¦ababa»=«<>¦»)\n"));
    }
    v.push(fam("subst/many-words", p, if deep { 400 } else { 150 }, |n| {
        let w: Vec<String> = (0..n).map(|j| format!("{}w{}.{}", if j % 5 == 4 { "é" } else { "" }, j, if j % 3 == 0 { "c" } else { "h" })).collect();
        format!("v={}\na=$(v:.c=.o)\nb=$(v:w%.c=<%>)\nd=$(v:%=%%)\ne=$(v:.h=)\nf=$(a:w%=)\n", w.join(" "))
    }));
    v
}

pub fn c07(deep: bool) -> Check {
    let mut spaces = subst(VARS, deep, true);
    let gr = Grammar::new(&[("C", "a¦:¦=¦%¦.¦b"), ("W", "a¦b¦.¦ "), ("U", "é¦a¦%¦ ¦ü")]);
    spaces.push(mk("subst/reference-characters", VARS, &gr, if deep { "v=a.b a ba b.a\na=b.a\nz=[$(v:«‹C›»*0-7;)]\n" } else { "v=a.b a ba b.a\na=b.a\nz=[$(v:«‹C›»*0-6;)]\n" }));
    spaces.push(mk("subst/name-characters", VARS, &gr, "v=a.b a ba b.a\na=b.a\nv:a=q\nz=[$(«v¦a¦:¦=¦%¦.¦b»*0-5;)]\n"));
    spaces.push(mk("subst/value-characters", VARS, &gr, "v=«‹W›»*1-5;\nz=[$(v:«a¦b¦.¦%»*0-2;=«x¦%¦ »*0-2;)]\n"));
    spaces.push(mk("subst/unicode", VARS, &gr, "v=«‹U›»*1-4;\nz=[$(v:«‹U›»*0-3;=«é¦%¦ü»*0-2;)]\n"));
    spaces.push(mk("subst/pieces", VARS, &gr, "a=a\nb=.b\nv=x$(a)$(b) $(a)$(b)$(b)  $(u)c$(b)\nw=$(v)$(v)\nz=[$(«v¦w»:«a¦.b¦$(a)$(b)¦b.b¦$(b)$(b)¦x%¦%$(b)¦a%b¦$(a)%$(b)¦c.b¦%.b.b»=«¦y¦$(b)¦%$(a)¦$(a)%$(a)¦$(a) %»)]\n"));
    spaces.extend(super::sweep::sweep(VARS, &[super::sweep::SUBST, super::sweep::SUBST2].concat(), deep));
    spaces.extend(super::size::spaces(VARS, &["substitutions"], deep));
    Check { spaces, notes: vec![] }
}

pub fn escapes(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("B", "¦\\¦\\\\¦\\\\\\¦\\\\\\\\¦\\\\\\\\\\"),
        ("S", " ¦:¦;¦\t¦x¦%¦\\x¦é"),
        ("C", "a¦\\¦ ¦:¦;"),
    ]);
    let mut v = vec![
        mk("escapes/targets", p, &gr, "a‹B›‹S›b‹B›‹S›c: d\n"),
        mk("escapes/dependencies", p, &gr, "t: a‹B›‹S›b‹B›‹S›c\n"),
        mk("escapes/both", p, &gr, "a‹B›«:¦ :»«¦ »‹B› b‹B›‹S›c\n"),
        mk("escapes/inline", p, &gr, "t: d‹B›;e‹B›;‹B›x\n\tc\n"),
        mk("escapes/from-variables", p, &gr, if own { "s=‹B›\nv=a‹B›‹S›b‹B› c\n$(v)‹B› $(s)y: z $(v)‹B›‹S›q\n" } else { "s=‹B›\nv=a‹B›‹S›b\n$(v)‹B› $(s)y: z $(v)q\n" }),
        mk("escapes/elsewhere", p, &gr, "«v‹B›x=‹B›‹S›a‹B›b\nr:\n\tc $(v‹B›x)\n¦‹B›a b: ‹B›c\n¦a: b\n\tcmd‹B› ‹B›‹S›$(v‹B›x)\n»"),
        mk("escapes/double-colon", p, &gr, "a‹B›::‹B› b‹B›‹S›c\n"),
    ];
    if own {
        v.push(mk("escapes/subst-key", p, &gr, "v=a%b a\\%b a\\\\%b x%\nz=$(v:«a¦»‹B›%«b¦%¦\\%¦»=«¦<»‹B›%«>¦‹B›%»)\n"));
        v.push(mk("escapes/characters", p, &gr, if deep { "«‹C›»*0-5;:«‹C›»*0-3;\n" } else { "«‹C›»*0-4;:«‹C›»*0-3;\n" }));
        v.push(mk("escapes/characters-deps", p, &gr, if deep { "t:«a¦\\¦ ¦;»*0-8;\n" } else { "t:«a¦\\¦ ¦;»*0-6;\n" }));
        v.push(mk("escapes/three", p, &gr, "‹B› a‹B› b‹B› c : ‹B› d‹B› e‹B› f\n"));
        v.push(mk("escapes/include", p, &gr, "include f‹B› g«¦ h»\n\u{1}f\nF=1\n\u{1}g\nG=1\n\u{1}f g\nFG=1\n\u{1}f\\\nFB=1\n\u{1}f\\ g\nFBG=1\n\u{1}h\nH=1\n"));
    }
    v.push(fam("escapes/many", p, 40 * 6, |i| {
        let (n, k) = (i as usize / 6, i % 6);
        let b = "\\".repeat(n);
        match k {
            0 => format!("a{} b: c\n", b),
            1 => format!("a: b{} c\n", b),
            2 => format!("a{}:b: c\n", b),
            3 => format!("a: b{};c\n", b),
            4 => format!("v=a{}%b %\nz=$(v:{}%=x)\n", b, b),
            _ => format!("v=a b\nz=$(v:%=x{}%y)\n", b),
        }
    }));
    v
}

pub fn c16(deep: bool) -> Check {
    let mut spaces = escapes(BOTH, deep, true);
    let gr = Grammar::new(&[("C", "a¦\\¦ ¦:¦$s¦$c"), ("B", "¦\\¦\\\\¦\\\\\\")]);
    spaces.push(mk("escapes/mixed-characters", BOTH, &gr, "s=\\\\\nc=x\\: y\n«‹C›»*1-5;: «‹C›»*0-2;\n"));
    spaces.push(mk("escapes/subst-characters", BOTH, &gr, "v=a%b \\a% a\\%b\nz=$(v:«a¦\\¦%»*0-4;=«a¦\\¦%»*0-4;)\n"));
    spaces.push(mk("escapes/in-eval", BOTH, &gr, "v=a‹B›:b\n$(eval t‹B›«:¦ »x: d‹B›«:¦ ¦;»y $(v)‹B› z)\n"));
    spaces.extend(super::sweep::sweep(BOTH, &[super::sweep::ESCAPES, super::sweep::SUBST].concat(), deep));
    spaces.extend(super::size::spaces(BOTH, &["escapes", "substitutions"], deep));
    Check { spaces, notes: vec![] }
}

pub fn defines(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("OP", "¦ =¦ :=¦ ::=¦ ?=¦ +=¦="),
        (
            "B",
            "body@\n¦\n¦ ind@ \n¦\ttab@\n¦# not comment@\n¦x@ # not\n¦cont@ \\\n¦ \\\n¦$(x)@\n¦$$x\n¦endefx@\n¦definex @\n¦endef@=2\n¦ifeq (1,2)\n¦else\n¦endif\n¦t: d@\n¦v=@\n¦include f\n¦$(eval ev=@)\n¦crlf@\r\n¦é@\n¦define in@\n¦ endef\n¦endef # c\n¦  define in@ =\n¦endef x\n¦x define\n¦\\\n¦é $(x) ü\n",
        ),
        ("B2", "b@\n¦\n¦define i@\n¦endef\n¦ endef \n¦x=@\n¦a@ \\\n"),
        ("H", "define v‹OP›\n"),
        ("AFTER", "after=1\nr: d\n\tc $(v)\nx=2\n"),
    ]);
    let mut v = vec![
        mk("defines/bodies", p, &gr, "x=1\nv=old\n‹H›‹B›«¦‹B›»endef\n‹AFTER›"),
        mk("defines/operators", p, &gr, "x=1\n«¦v=old\n¦v:=old$(x)\n¦v?=old\n»‹H›«¦‹B›»endef\nx=2\n«¦v+=more$(x)\n¦v=new\n¦v?=new\n»"),
        mk("defines/names", p, &gr, "n=v\nx=1\n«define¦ define¦define ¦define\t» «v¦$(n)¦a$(n)b¦a.b¦é¦endef¦define»«¦ =¦:=¦ += »«¦ # c»\nbody $(x)\n«endef¦ endef¦endef ¦endef # c¦endef#c¦endef\t»\nz=$(v)\n"),
        mk("defines/line-ends", p, &gr, "define v«\n¦\r\n»a«\n¦\r\n¦ \n¦\\\n¦ \\\r\n¦\\\\\n»b«\n¦\r\n»endef«¦\n¦\r\n»"),
        mk("defines/in-rule", p, &gr, "r: d\n\tc1\n‹H›‹B›endef\n«\tc2\n¦r: e\n¦»z=$(v)\n"),
    ];
    if own {
        v.push(mk("defines/bodies-3", p, &gr, if deep { "x=1\n‹H›«‹B›»*3;endef\n‹AFTER›" } else { "x=1\ndefine v\n«‹B›»*3;endef\n‹AFTER›" }));
        v.push(mk("defines/nesting", p, &gr, if deep { "define v\n«‹B2›»*0-7;endef\nz=1\n" } else { "define v\n«‹B2›»*0-6;endef\nz=1\n" }));
        v.push(mk("defines/unfinished", p, &gr, "x=1\n‹H›«‹B›»*0-2;"));
        v.push(mk("defines/two", p, &gr, "‹H›‹B›endef\ndefine «v¦w»«¦ +=¦ ?=»\n‹B›endef\n‹AFTER›"));
        v.push(mk("defines/in-conditional", p, &gr, "ifeq (1,1)\n‹H›‹B›endef\n«else\nq=1\n¦»endif\n‹AFTER›"));
        v.push(mk("defines/used", p, &gr, "‹H›‹B›‹B›endef\nr: ; $(v)\nw:=$(v)\n«$(eval $(v))\n¦$(eval q=$(v))\n¦»"));
    }
    v.push(fam("defines/long", p, 100, |n| {
        let mut t = "define v =\n".to_string();
        for j in 0..n {
            t += &match j % 6 {
                0 => format!("line {}\n", j),
                1 => "\n".to_string(),
                2 => format!("  define d{}\n", j),
                3 => format!("\tx{}\n", j),
                4 => " endef # q\n".to_string(),
                _ => "é # $(v2) \\\n".to_string(),
            };
        }
        for _ in 0..((0..n).filter(|j| j % 6 == 2).count() - (0..n).filter(|j| j % 6 == 4).count()) {
            t += "endef\n";
        }
        t + "endef\nafter=1\n"
    }));
    v.push(fam("defines/deep", p, 40 * 2, |i| {
        let n = i / 2;
        let mut t = "define v\n".to_string();
        for j in 0..n {
            t += &format!("define n{}\nb{}\n", j, j);
        }
        for _ in 0..n {
            t += "endef\n";
        }
        if i % 2 == 0 {
            t += "endef\n";
        }
        t + "after=1\n"
    }));
    v
}

pub fn c17(deep: bool) -> Check {
    let mut spaces = defines(BOTH, deep, true);
    let gr = Grammar::new(&[("C", "endef¦define¦ ¦\n¦x¦#¦\\"), ("H", "define¦ ¦x¦=¦:=¦+=¦$(n)¦endef")]);
    spaces.push(mk("defines/body-characters", BOTH, &gr, if deep { "define v\n«‹C›»*0-7;\nendef\nz=1\n" } else { "define v\n«‹C›»*0-6;\nendef\nz=1\n" }));
    spaces.extend(skipped(BOTH, deep));
    spaces.push(mk("defines/head-characters", BOTH, &gr, "n=nn\ndefine«‹H›»*0-4;\nbody $(n)\nendef\nz=1\n"));
    spaces.extend(mixed(BOTH, deep));
    spaces.extend(super::sweep::sweep(BOTH, &[super::sweep::DEFINES, super::sweep::EVALS].concat(), deep));
    spaces.extend(super::size::spaces(BOTH, &["defines", "evals"], deep));
    Check { spaces, notes: vec![] }
}

pub fn includes(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("INC", "include¦-include¦sinclude"),
        (
            "LIST",
            "f¦f g¦g f¦$(n)¦$(n) g¦$(l)¦f  g ¦f f¦no¦no f¦f no¦f no g¦$(u)¦¦$(n)$(u)¦s/h¦f.$(x)¦é.mk",
        ),
        ("CF", "x=1\n¦x+=F\n¦r: fd\n\tfc\n¦r: fd\n¦\tfc\n¦ifeq (1,1)\n¦ifeq (1,2)\n¦endif\n¦else\n¦define D\n¦endef\n¦bad line\n¦include g\n¦x=1¦r: fd\n\tfc \\\n¦# c¦\r\n¦¦\u{feff}x=bom\n¦$(eval x=ev)\n¦x=$(\n"),
        ("CG", "x+=G\n¦g: gd\n\tgc\n¦ifneq ($(x),1)\nx=G\nendif\n"),
        ("FIX", "\u{1}!no\u{1}s/h\nh=1\nx+=H\n\u{1}f.1\nf1=1\n\u{1}é.mk\nuni=é\n"),
        ("PRE", "¦x=0\n¦r: d\n\tc\n¦ifeq (1,1)\n¦r:d\n¦ifeq (1,2)\n¦define E\n¦x:=0\n"),
        ("POST", "¦x+=post\n¦\tpc\n¦endif\n¦else\nx+=e\nendif\n¦y=$(x)\n¦endef\n¦r: post\n\tpc\n"),
    ]);
    let mut v = vec![
        mk("includes/lists", p, &gr, "n=f\nl=g f\nx=1\n«¦r: d\n\tc\n»‹INC›«¦ # c¦\t»«¦ »‹LIST›\nafter=$(x)\n\u{1}f\nx+=F\n\u{1}g\n‹CG›‹FIX›"),
        mk("includes/contexts", p, &gr, "‹PRE›‹INC› f\n‹POST›\u{1}f\n‹CF›\u{1}g\n‹CG›"),
        mk("includes/two-contexts", p, &gr, "‹PRE›include f g\n‹POST›\u{1}f\n‹CF›\u{1}g\n‹CF›"),
    ];
    if own {
        v.push(mk("includes/content-pairs", p, &gr, if deep { "‹PRE›include f\n‹POST›‹POST›\u{1}f\n«‹CF›»*2;\u{1}g\n‹CG›" } else { "‹PRE›include f\n‹POST›\u{1}f\n«‹CF›»*2;\u{1}g\ng+=1\n" }));
        v.push(mk("includes/nested", p, &gr, "«¦r:d\n»include f\n‹POST›\u{1}f\nx+=1\n«¦ifeq (1,1)\n¦q:\n\tqc\n»include g\n‹POST›\u{1}g\n«‹CG›¦include s/h\n¦-include no\n¦include no\n»x+=end\n‹FIX›"));
        v.push(mk("includes/computed", p, &gr, "ifeq ($(sel),1)\nfile=f\nelse\nfile:=g\nendif\n«sel=1\n¦»«define list\nf\nendef\n¦list=$(file) f\n¦list:=$(file:%=%) $(no)\n¦list=$(file:g=f)\n»‹INC› $(list)\n\u{1}f\nx+=F\nlist=g\n\u{1}g\nx+=G\n"));
        v.push(mk("includes/after-change", p, &gr, "a=1\nb:=$(a)\ninclude f\nc=$(a)$(b)\n\u{2}a+=2\ninclude f\n\u{1}f\n«a+=$(b)¦b+=$(a)¦a:=$(a)x¦b?=n¦c=$(a)¦a=»«\n¦»«¦b=q\n»"));
    }
    v.push(fam("includes/many", p, 40, |n| {
        let mut t = "include".to_string();
        let mut f = String::new();
        for j in 0..n {
            t += &format!(" f{}", j);
            f += &format!("\u{1}f{}\nx+={}\n{}", j, j, if j % 4 == 1 { "r: d\n\tc\n" } else { "" });
        }
        t + "\nend=$(x)\n" + &f
    }));
    v.push(fam("includes/deep", p, 8, |n| {
        let mut t = "x=m\ninclude f0\nx+=end\n".to_string();
        for j in 0..=n {
            t += &format!("\u{1}f{}\nx+=a{}\n{}x+=b{}\n", j, j, if j < n { format!("include f{}\n", j + 1) } else { String::new() }, j);
        }
        t
    }));
    v
}

pub fn evals(p: Proj, deep: bool, own: bool) -> Sp {
    let gr = Grammar::new(&[
        ("T", "x=1¦x+=$(y)¦x:=$$(y)$(y)¦$(y)=1¦r: d¦r: d;c $$(y)¦$(v)¦¦ ¦# c¦x=$$(eval z=1)¦x = a, b¦$(eval z=2)¦x=$(eval z=3)3¦ifeq ($(y),1)¦x=(1)¦define q¦endif¦$$(eval x=n)¦include f¦x=1 # c"),
        ("V", "x=v1\nx+=v2\n¦r: d $(y)\n\tc $$(y) $(y)\n¦ifeq ($(y),1)\nx=yes\nelse\nx=no\nendif\n¦$$(eval x=deep)\n¦r: d\n¦\tc\n¦ifeq (1,1)\n¦endif\n¦define q\nb $(y) $$(y)\nendef\n¦r1: d\n\tc\n\nr2: e\n\tc\n¦x=1 \\\n 2\n¦x=$$(y)$$$$\n# c\nz=1\n¦y+=2\nx:=$$(y)\n¦bad\n¦include f\n"),
        ("CTX", "$(eval ‹T›)\n¦  ${eval ‹T›}\n¦a=$(eval ‹T›)\n¦a:=[$(eval ‹T›)$(x)]\n¦a:=$(x)$(eval ‹T›)$(x)\n¦a=$(eval ‹T›)$(x)\nb:=$(a)$(a)\n¦t: $(eval ‹T›)d\n¦t$(eval ‹T›): d $(x)\n¦ifeq ($(eval ‹T›),)\na=1\nendif\n¦ifeq (1,2)\n$(eval ‹T›)\nendif\n¦t:\n\tc $(eval ‹T›)$(x)\n¦t:;c $(eval ‹T›)\n¦$(eval ‹T›)$(eval w=1)\n¦a+=$(eval ‹T›)\n¦define a\n$(eval ‹T›)\nendef\n¦$(u$(eval ‹T›))\n¦a=$(y:1=$(eval ‹T›)2)\nb:=$(a)\n"),
        ("VC", "$(eval $(v))\n¦r: o\n\tk1\n$(eval $(v))\n\tk2\n¦r: o\n\tk1\n$(eval $(v))\nr: p\n¦ifeq (1,1)\n$(eval $(v))\nx+=in\nendif\n¦a:=$(eval $(v))$(x)\n¦t: $(eval $(v))$(x)\n\tk\n¦$(eval $(v))$(eval $(v))\n¦ifeq (1,2)\n$(eval $(v))\nelse\nx+=el\nendif\n¦a=$(eval $(v))$(x)\n"),
        ("F", "\u{1}f\nx=file\nfx+=$(x)\n"),
    ]);
    let mut v = vec![
        mk("evals/contexts", p, &gr, "y=1\nx=0\nv=x=from-v\n‹CTX›after=$(x)\n‹F›"),
        mk("evals/open-rule", p, &Grammar::new(&[
            ("E", "$(eval t: e)¦$(eval t: e ; k)¦$(eval $(v))¦$(w)"),
            ("L", "‹E›\n¦‹E›a=1\n¦a‹E›:=$(a)1\n¦a+=‹E›\n¦a:=‹E›2\n¦a?=‹E›\n¦define ‹E›b\nx\nendef\n¦define b ‹E›:=\nx\nendef\n¦include ‹E›f\n¦-include no‹E›\n¦ifeq (‹E›,)\n\tc2\nendif\n¦ifeq (1,2)\n‹E›a=1\nendif\n¦t‹E›: f\n¦t: f‹E›\n¦t: f ; c3 ‹E›\n¦\tc4‹E›\n¦word‹E›\n¦#‹E›\n"),
        ]), "define v\nt: ve\n\tvc\nendef\nw=$(eval a=2)\nt: d\n«\tc\n»‹L›‹L›«t: g\n»\u{1}f\nt: i\n\u{1}!no"),
        mk("evals/multi-line", p, &gr, "y=1\nx=0\ndefine v\n‹V›endef\n‹VC›after:=$(x)\n‹F›"),
        mk("evals/after-change", p, &gr, "y=1\nx=0\ndefine v\n‹V›endef\ny=2\n‹VC›y=3\nafter=$(x)$(y)\n‹F›"),
    ];
    if own {
        v.push(mk("evals/pairs", p, &gr, if deep { "y=1\nx=0\nv=x=from-v\n‹CTX›‹CTX›‹F›" } else { "y=1\nx=0\nv=x=from-v\n‹CTX›«$(eval ‹T›)\n¦a:=$(x)$(eval ‹T›)$(x)\n¦t2: $(eval ‹T›)d\n\tc\n»‹F›" }));
        v.push(mk("evals/multi-pairs", p, &gr, "y=1\nx=0\ndefine v\n‹V›«‹V›»endef\n‹VC›‹F›"));
        v.push(mk("evals/counting", p, &gr, "n=\ninc=$(eval n:=$(n)i)\n«$(inc)\n¦a=$(inc)\n¦a:=$(inc)\n¦a:=$(a)$(n)\n¦t@: $(inc)\n¦ifeq ($(inc),)\nendif\n¦ifeq (1,2)\n$(inc)\nendif\n¦b?=$(inc)$(n)\n¦$(a)\n¦a+=$(inc)$(n)\n»*1-4;"));
        // what is evaluated first: places with effects on each other
        v.push(mk("evals/order", p, &Grammar::new(&[
            ("E", "$(inc)¦$n¦$(eval n:=$ni)$n¦i¦$(eval n=)¦$(q$n)¦$(eval q=$$n)$(q)"),
            ("S", "ifeq (‹E›,‹E›)\na=1\nelse\na=2\nendif\n¦ifneq \"‹E›\" '‹E›'\na=1\nelse\na=2\nendif\n¦x‹E›:=‹E›\n¦x‹E›=‹E›\n¦x‹E›+=‹E›\n¦x‹E›?=‹E›\n¦t‹E›: x‹E›\n¦t: x‹E› y‹E›\n¦t‹E›:; c ‹E›\n¦v:=x‹E›y‹E›\n¦v:=$(x‹E›)‹E›\n¦v:=$(xi‹E›:i=‹E›)\n¦v:=$(‹E›x:‹E›=z)\n¦v:=$(x:‹E›=‹E›)\n¦t:\n\tc ‹E›\\\n\td ‹E›\n¦define x‹E›\nl ‹E›\n‹E›\nendef\nv:=$(x$n)\n¦$(eval x‹E›:=‹E›)\n¦-include x‹E› y‹E›\n"),
        ]), "n=\ninc=$(eval n:=$(n)i)$n\nx=iii\nxi=iiii\nxii=i\nq=Q\n‹S›z:=[$n]\n"));
        v.push(mk("evals/nested", p, &gr, "x=0\n$(eval $(eval x«=¦+=¦:=»1)y:=$(x)«¦$(eval x=2)»)\n$(eval $$(eval x«=¦+=»3)«¦$$(eval z=$$$$(x))»)\nw=$(eval q=$(eval x=4)5)\nv:=$(w)$(x)\n"));
        v.push(mk("evals/text-escapes", p, &gr, "y=1\n$(eval x=«$¦$$¦$$$$¦$$$$$$»y«¦ $$$$(y)¦ $(y)»)\ny=2\nz:=$(x)\n"));
    }
    v.push(fam("evals/deep", p, 20, |n| {
        let mut e = "x=in".to_string();
        for j in 0..n {
            e = format!("{}y{}=1", if j == 0 { format!("$(eval {})", e) } else { format!("$(eval {})", e) }, j);
        }
        format!("$(eval {})\nz=$(x)\n", e)
    }));
    v.push(fam("evals/many", p, 60, |n| {
        let mut t = "x=0\n".to_string();
        for j in 0..n {
            t += &format!("$(eval x+={}){}\n", j, if j % 3 == 0 { format!("$(eval r{}: $(x))", j) } else { String::new() });
        }
        t
    }));
    v
}

pub fn c04(deep: bool) -> Check {
    let mut spaces = vec![];
    let p = crate::cmp::LOCS;
    let gr = Grammar::new(&[
        ("W", "a¦é¦日¦$x¦$(x)¦${y}¦$$¦b c¦$(x:a=é)"),
        ("C", "¦ \\\n¦ \\\n  ¦\\\n¦ \\\r\n\t"),
        ("NL", "\n¦\r\n¦ # ç\n¦\n\n"),
        ("PRE", "¦\u{feff}¦# é\n¦\n\n¦é=1\n¦# a \\\n b\n¦\r\n"),
    ]);
    spaces.push(mk("locs/values", p, &gr, "‹PRE›x=a é\ny:=日$(x)‹NL›v«=¦:=»‹W›‹C›‹W›‹NL›"));
    spaces.push(mk("locs/appends", p, &gr, "«¦\u{feff}¦# é\n»x=a\ny=é\nv«=¦:=¦?=»‹W›\nv+=‹W›‹C›‹W›‹NL›v+=q\n"));
    spaces.push(mk("locs/rules", p, &gr, "‹PRE›x=a\ny=é ü\n«‹W›t‹C› ‹W›: d¦é: ‹W›‹C› ‹W›¦‹W›: ‹W›; ‹W›»‹NL›"));
    spaces.push(mk("locs/recipes", p, &gr, "‹PRE›x=a\ny=é ü\nt: d\n\t‹W›«¦ ¦\\\n\t¦ \\\n¦\\\n  »‹W›‹NL›\tz$(y)«\n¦\r\n¦»"));
    spaces.push(mk("locs/defines", p, &gr, "‹PRE›x=a\ny=é ü\ndefine v«\n¦\r\n¦ :=\n»«é¦»‹W›‹NL›«\t¦  ¦»‹W› \\«\n¦\r\n»q\nendef\nz=[$(v)]\n"));
    spaces.push(mk("locs/evals", p, &gr, "‹PRE›x=a\ny=é ü\ndefine v\nm=‹W›$$(x)‹NL›«t: ‹W›\n¦t:\n\tc ‹W›\n»endef\n«$(eval $(v))¦a:=é$(eval $(v))ü¦ $(eval n=q$(m))»\n"));
    spaces.push(mk("locs/includes", p, &gr, "«¦é=1\n»x=a\ny=é ü\ninclude f\nz=$(m)‹W›\n\u{1}f\n‹PRE›«m=‹W›‹C›‹W›¦t: ‹W›\n\tc ‹W›»‹NL›"));
    spaces.push(mk("locs/include-paths", p, &paths(), "«¦\u{3}d\u{3}¦\u{3}d/e\u{3}»‹V›‹INC› ‹P›\nx+=é$(q)\nr: $(q)\n\u{1}f\nx+=f\n«¦include ‹P›\n»q=é$(x)\n\u{1}d/f\nx+=df\nq=é\n\u{1}d/e/f\nx+=def\nq= $(x)\n‹FILES›"));
    spaces.push(fam("locs/late-lines", p, if deep { 400 } else { 150 }, |n| {
        let mut t = String::new();
        for j in 0..n {
            t += ["\n", "# é\n", "v=1 \\\n2\n", "r: \\\n d\n\tc \\\n\te\n", "é=ü\r\n"][(j % 5) as usize];
        }
        t + "x=é y\nz=$(x)!\nt: $(z)\n\tcmd $(z)\n"
    }));
    spaces.push(fam("locs/late-columns", p, if deep { 600 } else { 200 }, |n| {
        let pad = "é ".repeat(n as usize / 2) + &"x".repeat(n as usize % 2);
        format!("x=q{}z\ny={}$(x){}$(x)\n{}: {} d$(x)\n\t{} c\n", pad, pad, pad, pad, pad, pad)
    }));
    spaces.extend(vars(p, deep, false));
    spaces.extend(conds(p, deep, false));
    spaces.extend(rules(p, deep, false));
    spaces.extend(subst(p, deep, false));
    spaces.extend(escapes(p, deep, false));
    spaces.extend(defines(p, deep, false));
    spaces.extend(includes(p, deep, false));
    spaces.extend(shapes(p));
    spaces.extend(mixed(p, deep));
    spaces.extend(evals(p, deep, false));
    spaces.extend(super::sweep::sweep(p, super::sweep::ALL, deep));
    spaces.extend(super::size::spaces(p, &[], deep));
    Check { spaces, notes: vec![] }
}

pub fn c05(deep: bool) -> Check {
    let p = crate::cmp::SENS;
    let mut spaces = references(p);
    spaces.extend(vars(p, deep, false));
    spaces.extend(conds(p, deep, false));
    spaces.extend(rules(p, deep, false));
    spaces.extend(subst(p, deep, false));
    spaces.extend(escapes(p, deep, false));
    spaces.extend(defines(p, deep, false));
    spaces.extend(includes(p, deep, false));
    spaces.extend(shapes(p));
    spaces.extend(mixed(p, deep));
    spaces.extend(evals(p, deep, false));
    spaces.extend(super::sweep::sweep(p, super::sweep::ALL, deep));
    spaces.extend(super::size::spaces(p, &["names", "variables", "rules", "substitutions", "evals", "places", "conditionals"], deep));
    Check { spaces, notes: vec![] }
}

pub fn c18(deep: bool) -> Check {
    let p = crate::cmp::PATHS;
    let mut spaces = references(p);
    let gr = Grammar::new(&[
        ("R", "$a¦$(b)¦${c}¦$($(d))¦$(a:%=<%>)¦$(b:x=$(a))¦$(c:$(a)=$(b)%)¦$($(d):%a=$(a)%)¦$(u)"),
        ("W", "‹R›¦l‹R›¦‹R›l¦‹R›‹R›¦ ‹R› ‹R›"),
        ("ENV", "a=x\nb=1$(a) 2x\nc:=$(b)z x\nd=a\n"),
    ]);
    spaces.push(mk("paths/assignments", p, &gr, "‹ENV›v«=¦:=¦+=»‹W›\n«a+=‹R›¦v+=‹R›¦b:=$(v)‹R›»\nw«=¦:=»$(v)«$a¦$(b:x=$(a))»\n"));
    spaces.push(mk("paths/twice", p, &gr, "‹ENV›v«=¦:=»‹W›\nz«=¦:=»$(v:«%¦x%¦%x¦x»=«%¦%‹R›¦‹R›%¦‹R›») $(v)\n"));
    spaces.push(mk("paths/rules", p, &gr, "‹ENV›v=‹W›\nt‹R›$(v): d$(v) ‹R›\n\tc ‹R›$(v)\n"));
    spaces.push(mk("paths/lines", p, &gr, "‹ENV›c=q ‹R› : e$$(b)‹R› ; k‹R›\n«t$(c)¦t $(c) $(c)¦t‹R›: $(b) ; $(c)¦t$(c)\\\n  ‹R›»\n"));
    spaces.push(mk("paths/evals", p, &gr, "‹ENV›define v\nm«=¦:=»‹W›$$(b)\nt‹R›: ‹R› $$(m)\n\tc $$(m)\nendef\n$(eval $(v))\nz:=$(m)\n"));
    spaces.push(mk("paths/names", p, &gr, "‹ENV›n‹R›=‹R›\nna=$(b)\nz:=$(n$(d)) $(n‹R›) $(n$(b:x=)‹R›)\n"));
    spaces.extend(vars(p, deep, false));
    spaces.extend(rules(p, deep, false));
    spaces.extend(subst(p, deep, false));
    spaces.extend(escapes(p, deep, false));
    spaces.extend(defines(p, deep, false));
    spaces.extend(includes(p, deep, false));
    spaces.extend(shapes(p));
    spaces.extend(mixed(p, deep));
    spaces.extend(evals(p, deep, false));
    spaces.extend(super::sweep::sweep(p, super::sweep::ALL, deep));
    spaces.extend(super::size::spaces(p, &["variables", "substitutions", "places", "rules"], deep));
    Check { spaces, notes: vec![] }
}

/// References in all sorts of places
fn references(p: Proj) -> Vec<Box<dyn Space>> {
    let mut spaces = vec![];
    let gr = Grammar::new(&[
        ("W", "$a¦$(b)¦${c}¦$(u)¦$($(b))¦$(n$(a))¦$(a:$(k)=$(r))¦$(a:x=y)¦$(u:$(b)=$a)¦lit¦$$a¦$($(u))¦$(s)"),
        ("OP", "=¦:=¦+=¦?="),
        ("ENV", "a=x $(d)\nb=a\nc:=$(a)c\nk=x\nr=$(b)q\ns:=$(u2)$(c)\nd=dd\n"),
    ]);
    spaces.push(mk("sens/values", p, &gr, "‹ENV›v‹OP›‹W›‹W›\n«¦v‹OP›‹W›\n»w=$(v)\nz:=$(w)\n"));
    spaces.push(mk("sens/changes", p, &gr, "‹ENV›v‹OP›‹W›\nw‹OP›$(v)‹W›\na«=¦:=¦+=»$(e)\nz=$(w)\n"));
    spaces.push(mk("sens/rules", p, &gr, "‹ENV›v‹OP›‹W›\nt$(v)‹W›: d$(v) ‹W› p\n\tc ‹W›$(v)\n"));
    spaces.push(mk("sens/several-names", p, &gr, "‹ENV›p‹W› q‹W› r: d e‹W›; in ‹W›\n"));
    spaces.push(mk("sens/eval", p, &gr, "‹ENV›define v\nm«=¦:=»‹W›\n«t: ‹W›\n¦t:\n\tc ‹W›\n»endef\n«$(eval $(v))¦z:=$(eval $(v))$(m)¦$(eval $(eval q=$(a))y:=$(q)‹W›)¦t$(eval $(v)): $(m)¦ifeq ($(eval $(v)),)\nendif»\nzz=$(m)\n"));
    spaces.push(mk("sens/eval-rules", p, &gr, "‹ENV›«$(eval ‹W›t: ‹W› $$(b))¦$(eval t2: d‹W›; ‹W› $$(c))¦$(eval a‹W› b: c)»\n"));
    spaces.push(mk("sens/define", p, &gr, "‹ENV›define v«¦ :=¦ +=»\n‹W›\nx‹W›\nendef\nz=$(v)\ny:=$(v)\n"));
    spaces.push(mk("sens/include", p, &gr, "‹ENV›f=f\ninclude $(f)\nz=$(m)\n\u{1}f\nm‹OP›‹W›\nt: ‹W› $(m)\n"));
    spaces.push(fam("sens/many", p, 100, |n| {
        let mut t = String::new();
        let mut r = String::new();
        for j in 0..n {
            t += &format!("v{}=$(w{})\n", j % 50, j);
            r += &format!("$(v{})", j);
        }
        t + &format!("z={}\ny:={}\nt: {} d\n", r, r, r)
    }));
    spaces.push(fam("sens/chain", p, 45 * 2, |i| {
        let n = i / 2;
        let mut t = String::new();
        for j in 0..n {
            t += &format!("v{}{}$(v{})x\n", j, if i % 2 == 0 { "=" } else { ":=" }, j + 1);
        }
        t + "z=$(v0)\nt: $(v0)\n"
    }));
    spaces
}

/// Ways to write the path of a file
fn paths() -> Grammar {
    Grammar::new(&[
        ("INC", "include¦-include"),
        ("P", "f¦.//f¦././/d///f¦./¦.¦..¦./.f¦g¦d/f¦d/g¦d/e/f¦./f¦d/../g¦d//f¦d/./g¦d/e/../f¦../d/f¦f/g¦f/¦f/.¦d/no¦no/f¦no/../f¦e/f¦../f¦../g¦¤/f¦¤/d/g¦¤/no¦¤/f/g¦$(p)f¦d/$(n)¦$(p:d%=¤/d%)g"),
        ("V", "p=d/\nn=g\n"),
        ("IN", "ifeq ($(in),)\nin=1\n‹INC› ‹P›\nx+=back\nendif\n"),
        ("FILES", "\u{1}g\nx+=g\nrg: $(x)\n\u{1}d/g\nx+=dg\nrg: $(x)\n\tc $(x)\n\u{1}e/f\nx+=ef\n"),
    ])
}

pub fn c09(deep: bool) -> Check {
    let p = BOTH;
    let mut spaces = includes(p, deep, true);
    let gr = Grammar::new(&[
        ("L", "include ¦-include ¦sinclude ¦include¦\tinclude ¦ include ¦include\t¦xinclude ¦includes ¦-include¦- include ¦include: ¦include = ¦-include= "),
        ("F", "«a¦b¦ ¦$(a)¦s/a¦./b¦\\ »*0-4;"),
        ("N", "x+=@\n¦x:=$(x)@\n¦r: d@\n¦\tc@\n¦ifeq (1,1)\n¦ifeq (1,2)\n¦else\n¦endif\n¦define D\n¦endef\n¦include g\n¦junk\n"),
    ]);
    spaces.push(mk("includes/words", p, &gr, "a=b\nx=1\n«¦t:\n»‹L›‹F›\nafter=$(x)\n\u{1}a\nx+=A\n\u{1}b\nx+=B\n\u{1}s/a\nx+=SA\n\u{1}!ab\u{1}ba\nx+=BA\n\u{1}a b\nx+=A_B\n\u{1}!aa\u{1}!bb"));
    spaces.push(mk("includes/two-levels", p, &gr, "x=0\n‹N›include f\n‹N›\u{1}f\n‹N›‹N›\u{1}g\n‹N›"));
    let paths = paths();
    spaces.push(mk("includes/paths", p, &paths, "«¦\u{3}d\u{3}¦\u{3}d/e\u{3}»‹V›«r:\n¦»‹INC› ‹P› ‹P›\nend=$(x)\n\u{1}f\nx+=f\n\u{1}d/f\nx+=df\n\u{1}d/e/f\nx+=def\n‹FILES›"));
    spaces.push(mk("includes/nested-paths", p, &paths, "«¦\u{3}d\u{3}¦\u{3}d/e\u{3}»‹V›r: s\n‹INC› ‹P›\nend=$(x)\n\u{1}f\nx+=f\nifeq ($(in),)\nin=1\n‹INC› ‹P›\nendif\n\u{1}d/f\nx+=df\nifneq ($(in),1)\nin=1\ninclude f g\n-include f g\nendif\n\u{1}d/e/f\nx+=def\nifeq ($(in),)\nin=1\n-include d/f e/f no g\nsinclude f\ninclude g\nx+=z\nendif\n‹FILES›"));
    spaces.push(mk("includes/paths-two-reads", p, &paths, "‹V›‹INC› ‹P›\n\u{2}‹V›‹INC› ‹P›\nend=$(x)\n\u{1}f\nx+=f\n-include d/f\n\u{1}d/f\nx+=df\n\u{1}d/e/f\nx+=def\n‹FILES›"));
    let turns = Grammar::new(&[
        ("READ", "include f\n¦-include f\n¦include g f\n¦-include no f g\n"),
        ("WAS", "x+=one\n¦r: d\n¦ifeq (1,1)\n¦include g\n¦"),
        ("THEN", "x+=two\n¦r: e\n\tc\n¦endif\n¦-include g\n¦"),
    ]);
    for (name, changes) in [
        ("changes", "f\n‹WAS›\u{1}g\nx+=g\n\u{1}^1f\n‹THEN›"),
        ("appears", "!f\u{1}g\nx+=g\n\u{1}^1f\n‹THEN›"),
        ("disappears", "f\n‹WAS›\u{1}g\nx+=g\n\u{1}^1!f"),
        ("comes-and-goes", "f\n‹WAS›\u{1}!g\u{1}^1!f\u{1}^1g\nx+=h\n\u{1}^2f\n‹THEN›\u{1}^2!g"),
    ] {
        // what one reading finds, earlier ones do not decide
        let mains = if name == "comes-and-goes" { "‹READ›end=$(x)\n\u{2}‹READ›\u{2}‹READ›s: t\n" } else { "«¦q:\n»‹READ›x+=a\n\u{2}«¦\tc\n»‹READ›end=$(x)\n" };
        spaces.push(mk(&format!("includes/file-{}", name), p, &turns, &format!("{}{}{}", mains, '\u{1}', changes)));
    }
    spaces.push(mkc("includes/command-char", p, '>', &gr, "x=0\n«¦a: b\n⇥k@\n»include f\n⇥after@\n\u{1}f\n«r: d\n⇥c@\n¦r: d\n\tc@\n¦⇥c@\n¦$(eval r: e;f)\n⇥g@\n»x=1\n"));
    spaces.extend(shapes(p));
    spaces.extend(mixed(p, deep));
    spaces.extend(super::sweep::sweep(p, super::sweep::INCLUDES, deep));
    spaces.extend(super::size::spaces(p, &["includes"], deep));
    spaces.extend(super::robust::included_bytes(3));
    Check { spaces, notes: vec![] }
}

pub fn c10(deep: bool) -> Check {
    let p = BOTH;
    let mut spaces = evals(p, deep, true);
    let gr = Grammar::new(&[
        ("B", "r: d $(y)\n¦⇥c@ $(y)\n¦⇥c@ $$(y)\n¦\tt@\n¦x+=@\n¦y:=$$(x)@\n¦ifeq ($(y),1)\n¦else\n¦endif\n¦include f\n¦define q\n¦endef\n¦$$(eval x+=@)\n¦# c\n¦\n¦r: e; k@\n"),
        ("T", "a¦b¦$(x)¦$$¦$$(x)¦ ¦=¦:=¦+=¦:¦,"),
        ("K", "$(eval $(v))\n¦r: o\n⇥k@\n$(eval $(v))\n⇥k@\n¦r: $(eval $(v))o $(y)\n⇥k@\n¦z:=$(eval $(v))$(x)$(y)\n"),
    ]);
    for (k, c) in ['\t', '>', 'é'].iter().enumerate() {
        let f = "\u{1}f\nx+=F\nrf: fd\n⇥fc $(y)\n";
        spaces.push(mkc(&format!("evals/bodies-{}", k), p, *c, &gr, &format!("y=1\nx=0\ndefine v\n«‹B›»*1-3;endef\n‹K›{}", f)));
    }
    spaces.push(mk("evals/text-characters", p, &gr, if deep { "x=1\nb=x\n$(eval «‹T›»*0-5;)\nz=$(x)$(a)\n" } else { "x=1\nb=x\n$(eval «‹T›»*0-4;)\nz=$(x)$(a)\n" }));
    spaces.push(mk("evals/value-characters", p, &gr, "x=1\nb=x\nv=$(eval «‹T›»*0-4;)$(a)\nz:=$(v)$(b)\ny:=$(v)\n"));
    spaces.extend(shapes(p));
    spaces.extend(mixed(p, deep));
    spaces.extend(super::sweep::sweep(p, &[super::sweep::EVALS, super::sweep::DEFINES].concat(), deep));
    spaces.extend(super::size::spaces(p, &["evals", "defines"], deep));
    Check { spaces, notes: vec![] }
}
