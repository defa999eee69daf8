//! Compare the model with GNU make, to validate the model (development only, no check uses this):
//! `HMC_GNU=1 HMC_SURVEY=1 [HMC_STRIDE=n] hmc check ID tier`
use crate::cmp::{main_name, model_flavor, run_model, Case, Proj};
use crate::model::{s, Stop};
use crate::run::Stats;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub fn on() -> bool {
    static ON: OnceLock<bool> = OnceLock::new();
    *ON.get_or_init(|| std::env::var("HMC_GNU").is_ok())
}

fn stride() -> u64 {
    static N: OnceLock<u64> = OnceLock::new();
    *N.get_or_init(|| std::env::var("HMC_STRIDE").ok().and_then(|x| x.parse().ok()).unwrap_or(1))
}

fn plain(n: &str) -> bool {
    !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-' || c == '/' || (c == '.' && !n.starts_with('.')))
}

pub fn check(case: &Case, p: &Proj, st: &mut Stats) -> Result<(), String> {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    case.mains.hash(&mut h);
    case.files.hash(&mut h);
    if h.finish() % stride() != 0 {
        return Ok(());
    }
    if case.cmd_char != '\t' || case.mains.iter().any(|m| m.contains('\0')) {
        return Ok(());
    }
    let (m, outs) = run_model(case);
    if let Some(Err(Stop::Unsup(w))) = outs.last() {
        st.skip(w);
        return Ok(());
    }
    let dir = st.scratch(&case.files)?;
    let io = |e: std::io::Error| format!("harness: {}", e);
    let mk = dir.join("hmc-mains");
    std::fs::create_dir_all(&mk).map_err(io)?;
    let mut cmd = Command::new("/usr/bin/make");
    cmd.args(["-rRpq", "--no-print-directory", "SHELL=/bin/true"]).env_clear();
    cmd.current_dir(if case.cwd.is_empty() { dir.clone() } else { dir.join(&case.cwd) });
    for (i, t) in case.mains.iter().enumerate() {
        let f = mk.join(main_name(i));
        std::fs::write(&f, t).map_err(io)?;
        cmd.arg("-f").arg(f);
    }
    let mut trailer = String::from("hmc-goal-0:;\n");
    let mut want = BTreeMap::new();
    let mut effects = false;
    for (name, v) in &m.vars {
        if !plain(name) || ["MAKEFILE_LIST", "SHELL", "MAKEFLAGS", "CURDIR", "MAKE", "VPATH"].contains(&&name[..]) {
            continue;
        }
        let mut mm = m.clone();
        match mm.pieces(&v.value) {
            Ok((t, _)) => {
                effects |= mm.vars.len() != m.vars.len() || mm.rules.len() != m.rules.len() || format!("{:?}", v.value).contains("Eval(");
                let f = format!("{:?}", model_flavor(v.flavor)).to_lowercase().replace("conditional", "recursive");
                want.insert(name.clone(), (f, s(&t)));
                trailer += &format!("$(info \u{1e}{n}\u{1f}$(flavor {n})\u{1f}$({n})\u{1e})\n", n = name);
            }
            Err(_) => continue,
        }
    }
    trailer += "$(foreach v,$(.VARIABLES),$(if $(filter file,$(origin $v)),$(info \u{1d}$v\u{1d})))\n";
    let f = mk.join("trailer");
    std::fs::write(&f, trailer).map_err(io)?;
    cmd.arg("-f").arg(f).arg("hmc-goal-0").stdin(Stdio::null());
    let o = cmd.output().map_err(io)?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    st.validated += 1;
    st.state(&m, outs.last().unwrap());
    let failed = err.contains("***");
    let accepted = outs.iter().all(|x| x.is_ok());
    if failed == accepted {
        if accepted && failed || !format!("{:?}", outs.last()).contains("Untern") {
            let e = err.lines().find(|l| l.contains("***")).and_then(|l| l.splitn(2, "*** ").nth(1)).unwrap_or("");
            // differences that DESIGN.md lists
            if ["missing 'endif'", "missing 'endef'", "both : and ::", "No rule to make", "mixed implicit", "implicit and normal"].iter().any(|x| e.contains(x)) {
                st.skip("known difference to GNU make");
                return Ok(());
            }
            return Err(format!("GNUOUT model {:?}, make {:?}", outs.last(), e));
        }
        return Err(format!("GNUTERM model {:?}, make {:?}", outs.last(), err.lines().find(|l| l.contains("***"))));
    }
    if !accepted {
        return Ok(());
    }
    if p.vars && !effects {
        let mut got = BTreeMap::new();
        for x in out.split('\u{1e}').skip(1).step_by(2) {
            let v: Vec<&str> = x.splitn(3, '\u{1f}').collect();
            if v.len() == 3 {
                got.insert(v[0].to_string(), (v[1].to_string(), v[2].to_string()));
            }
        }
        for (n, (f, t)) in &want {
            match got.get(n) {
                None => return Err(format!("GNUVAR {:?} is not printed", n)),
                Some((gf, gt)) => {
                    // the final line feed of a define, and the blank of an append
                    let norm = |x: &str| x.replace('\n', " ").split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ");
                    if gt != t && (!t.contains('\n') || norm(gt) != norm(t)) {
                        let sq = |x: &str| x.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ");
                        if sq(gt) == sq(t) {
                            return Err(format!("GNUSPACE {:?} model {:?} make {:?}", n, t, gt));
                        }
                        return Err(format!("GNUVAL {:?} model {:?} make {:?}", n, t, gt));
                    }
                    if gf != f {
                        return Err(format!("GNUFLAVOR {:?} model {:?} make {:?}", n, f, gf));
                    }
                }
            }
        }
        for n in out.split('\u{1d}').skip(1).step_by(2) {
            if plain(n) && !m.vars.contains_key(n) && !["MAKEFILE_LIST", "MAKEFLAGS", "CURDIR", "SHELL", "MAKE_COMMAND", "MAKE"].contains(&n) {
                return Err(format!("GNUEXTRA {:?}", n));
            }
        }
    }
    if p.rules {
        let files = out.split("# Files").nth(1).unwrap_or("");
        let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut is_target = true;
        for l in files.lines() {
            if l == "# Not a target:" {
                is_target = false;
                continue;
            }
            if l.starts_with('#') || l.starts_with('\t') {
                continue;
            }
            if let Some((t, d)) = l.split_once(':') {
                if is_target {
                    let d = d.strip_prefix(':').unwrap_or(d);
                    got.entry(t.to_string()).or_default().extend(d.split(' ').filter(|x| !x.is_empty() && *x != "|").map(|x| x.to_string()));
                }
                is_target = true;
            }
        }
        for (n, r) in &m.rules {
            let deps: Vec<String> = r.deps.iter().map(|d| s(&d.text)).collect();
            if !plain(n) || !deps.iter().all(|d| plain(d)) {
                continue;
            }
            match got.get(n) {
                None => return Err(format!("GNURULE {:?} is no target, {:?}", n, got)),
                Some(g) if g.len() > deps.len() && (0..=g.len()).any(|k| k <= deps.len() && g[..k] == deps[..k] && g[g.len() - (deps.len() - k)..] == deps[k..]) => st.skip("known difference to GNU make"),
                Some(g) if *g != deps => return Err(format!("GNUDEPS of {:?} model {:?} make {:?}", n, deps, g)),
                _ => {}
            }
        }
        for n in got.keys() {
            if plain(n) && n != "hmc-goal-0" && !m.rules.contains_key(n) {
                return Err(format!("GNUEXTRARULE {:?}", n));
            }
        }
    }
    Ok(())
}
