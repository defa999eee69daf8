//! hmc: exhaustive exploration of hastur against a reference model
mod cmp;
mod gen;
mod gnu;
mod imp;
mod model;
mod props;
mod run;

use run::{explore, Slots, Space, SpaceReport, Violation};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("HMC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn find_space<'a>(spaces: &'a [Box<dyn Space>], name: &str) -> &'a dyn Space {
    spaces.iter().find(|s| s.name() == name).unwrap_or_else(|| panic!("no space {}", name)).as_ref()
}

fn write_evidence(id: &str, tier: &str, reports: &[SpaceReport], violations: u64, wall: f64, notes: &[String], spaces: &[Box<dyn Space>]) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
    let mut all = std::collections::HashSet::new();
    let (mut tr, mut val, mut cases) = (0, 0, 0);
    let mut skipped = std::collections::BTreeMap::new();
    let mut outcomes = std::collections::BTreeMap::new();
    let mut findings = std::collections::BTreeMap::new();
    let mut sp = vec![];
    let mut samples = vec![];
    for r in reports {
        all.extend(r.stats.states.iter().cloned());
        tr += r.stats.transitions;
        val += r.stats.validated;
        cases += r.stats.cases;
        for (k, v) in &r.stats.skipped {
            *skipped.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.stats.outcomes {
            *outcomes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.stats.findings {
            *findings.entry(k.clone()).or_insert(0) += v;
        }
        sp.push(format!(
            "{{\"name\": {}, \"size\": {}, \"explored\": {}, \"complete\": {}, \"distinct_states\": {}, \"compared_with_implementation\": {}, \"wall_s\": {:.2}}}",
            js(&r.name), r.len, r.done, r.complete, r.stats.states.len(), r.stats.validated, r.wall
        ));
        if r.len > 0 && r.done > 0 && samples.len() < 12 {
            if let Some(s) = spaces.iter().find(|s| s.name() == r.name) {
                let i = r.len / 2;
                samples.push(format!("{{\"space\": {}, \"index\": {}, \"case\": {}}}", js(&r.name), i, js(&run::describe(s.as_ref(), i))));
            }
        }
    }
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    };
    let complete = !reports.is_empty() && reports.iter().all(|r| r.complete);
    let text = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"cases\": {}, \"exhaustive\": {},\n  \"outcomes\": {{{}}},\n  \"outside_the_supported_subset\": {{{}}},\n  \"known_findings_met\": {{{}}},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(id), js(tier), seed, all.len(), tr, val, cases, complete,
        map(&outcomes), map(&skipped), map(&findings),
        sp.join(",\n   "), samples.join(",\n   "),
        notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "),
        wall, violations
    );
    std::fs::write(dir.join(format!("{}.json", id)), text).expect("evidence");
}

fn write_replay(id: &str, tier: &str, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.txt", id, v.space.replace('/', "_"), v.index));
    let text = format!(
        "property {}\nreplay with: /verif/replay.sh {} {} {} {}\n\n{}\n\ncase:\n{}\n",
        id, id, tier, v.space, v.index, v.what, v.case
    );
    let _ = std::fs::write(&p, text);
    p
}

fn report_violation(id: &str, tier: &str, v: &Violation) {
    let p = write_replay(id, tier, v);
    println!("space {} case {}", v.space, v.index);
    println!("{}", v.case);
    println!("{}", v.what);
    println!("VIOLATION property={} replay={}", id, p.display());
}

fn worker(id: &str, tier: &str, scratch: &Path) -> i32 {
    imp::quiet_panics();
    let t0 = Instant::now();
    let limit: u64 = std::env::var("HMC_LIMIT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 600 } else { 3000 });
    let mut c = props::check(id, tier);
    if let Ok(only) = std::env::var("HMC_ONLY") {
        c.spaces.retain(|s| s.name().starts_with(&only));
    }
    let slots = Slots::create(&scratch.join("slots"));
    let (reports, violation) = explore(&c.spaces, scratch, &slots, t0 + Duration::from_secs(limit));
    for r in &reports {
        println!(
            "{}: {} of {} cases, {} states, {} compared, {} skipped, {:.1} s{}",
            r.name, r.done, r.len, r.stats.states.len(), r.stats.validated,
            r.stats.skipped.values().sum::<u64>(), r.wall,
            if r.complete { "" } else { " (incomplete)" }
        );
        if std::env::var("HMC_V").is_ok() {
            println!("    skipped {:?}", r.stats.skipped);
            println!("    outcomes {:?}", r.stats.outcomes);
        }
    }
    write_evidence(id, tier, &reports, violation.is_some() as u64, t0.elapsed().as_secs_f64(), &c.notes, &c.spaces);
    if let Some(v) = violation {
        report_violation(id, tier, &v);
        return 1;
    }
    0
}

fn replay(id: &str, tier: &str, space: &str, index: u64) -> i32 {
    imp::quiet_panics();
    let c = props::check(id, tier);
    let sp = find_space(&c.spaces, space);
    println!("{}", run::describe(sp, index));
    let dir = std::env::temp_dir().join(format!("hmc-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || run::run_one(sp, index, &mut run::Stats::new(&dir.join("t"))))
            .unwrap()
            .join()
    });
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(Ok(())) => {
            println!("holds");
            0
        }
        Ok(Err(e)) => {
            println!("{}", e);
            1
        }
        Err(_) => 2,
    }
}

fn run_limited(mut c: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = c.spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("hmc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let me = std::env::current_exe().unwrap();
    if id == "C11" {
        for (f, text, what) in props::robust::FINDINGS.iter() {
            let mut cmd = Command::new(&me);
            cmd.args(["finding", f]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            let happens = match run_limited(cmd, Duration::from_secs(60)) {
                None => true,
                Some(s) => s.code() == Some(10) || s.signal().is_some(),
            };
            if happens && props::robust::is_listed(id, f) {
                println!("KNOWN-FINDING: property={} {}", id, what);
            } else if happens {
                let v = Violation { space: format!("finding/{}", f), index: 0, what: what.to_string(), case: format!("{:?}", text) };
                let _ = std::fs::remove_dir_all(&scratch);
                write_evidence(id, tier, &[], 1, t0.elapsed().as_secs_f64(), &[], &[]);
                report_violation(id, tier, &v);
                return 1;
            }
        }
    }
    let c = props::check(id, tier);
    // once more, with more patience, if it ended for a reason that cannot be found again
    for patience in ["60", "300"] {
        std::fs::create_dir_all(&scratch).expect("scratch");
        let mut cmd = Command::new(&me);
        let status = cmd.args(["worker", id, tier]).arg(&scratch).env("HMC_CASE_S", patience).status().expect("worker");
        let slots = Slots::read(&scratch.join("slots"));
        let _ = std::fs::remove_dir_all(&scratch);
        match status.code() {
            Some(c @ (0 | 1)) => return c,
            _ => {}
        }
        println!("the exploration ended with {:?} (signal {:?})", status.code(), status.signal());
        if let Some(code) = culprit(id, tier, &me, &c, slots, t0) {
            return code;
        }
    }
    2
}

/// Which of the cases that were being looked at ended the exploration?
fn culprit(id: &str, tier: &str, me: &Path, c: &props::Check, slots: Vec<(u64, u64)>, t0: Instant) -> Option<i32> {
    for (si, i) in slots {
        let sp = &c.spaces[si as usize];
        let mut cmd = Command::new(me);
        cmd.args(["replay", id, tier, &sp.name(), &i.to_string()]);
        cmd.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        let what = match run_limited(cmd, Duration::from_secs(100)) {
            None => "reading this does not end".to_string(),
            Some(s) => match (s.code(), s.signal()) {
                (Some(1), _) => "violated".into(),
                (_, Some(sig)) => format!("the process is killed by signal {}", sig),
                _ => continue,
            },
        };
        let v = Violation { space: sp.name(), index: i, what, case: run::describe(sp.as_ref(), i) };
        write_evidence(id, tier, &[], 1, t0.elapsed().as_secs_f64(), &c.notes, &c.spaces);
        report_violation(id, tier, &v);
        return Some(1);
    }
    None
}

fn probe(vars: &[String]) {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut imp = imp::Imp::new(Path::new("."), '\t');
    println!("result {:?}", imp.read(s.as_bytes(), "t.mk"));
    let _ = vars;
    for v in imp.var_names() {
        println!("{} = {:?}", v, imp.var(&v));
    }
    println!("{:#?}", imp.rules(true));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|x| x.as_str()) {
        Some("check") => supervise(&a[1], &a[2]),
        Some("worker") => worker(&a[1], &a[2], Path::new(&a[3])),
        Some("replay") => replay(&a[1], &a[2], &a[3], a[4].parse().unwrap()),
        Some("finding") => {
            imp::quiet_panics();
            props::robust::finding(&a[1])
        }
        Some("case") => props::ad_hoc(&a[1..]),
        Some("sizes") => {
            let mut n = 0;
            for sp in props::check(&a[1], &a[2]).spaces {
                println!("{:10} {}", sp.len(), sp.name());
                n += sp.len();
            }
            println!("{:10} {} {}", n, a[1], a[2]);
            0
        }
        Some("measure") => {
            props::measure();
            0
        }
        Some("probe") => {
            probe(&a[1..]);
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
