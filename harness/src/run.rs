//! Walking spaces completely, in parallel, and surviving what the code under test does
use crate::model::{Model, Stop};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub trait Space: Send + Sync {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Check one element. Err = the property is violated
    fn run(&self, i: u64, st: &mut Stats) -> Result<(), String>;
    fn describe(&self, i: u64) -> String;
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub transitions: u64,
    pub validated: u64,
    pub states: HashSet<u64>,
    pub skipped: BTreeMap<String, u64>,
    pub findings: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub scratch_dir: PathBuf,
    last_files: Option<crate::model::Files>,
}

impl Stats {
    pub fn new(scratch_dir: &Path) -> Stats {
        Stats { scratch_dir: scratch_dir.to_path_buf(), ..Default::default() }
    }
    pub fn skip(&mut self, why: &str) {
        *self.skipped.entry(why.to_string()).or_insert(0) += 1;
    }
    pub fn outcome(&mut self, what: &str) {
        *self.outcomes.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn finding(&mut self, what: &str) {
        *self.findings.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn digest<T: Hash>(&mut self, t: &T) {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        self.states.insert(h.finish());
    }
    pub fn state(&mut self, m: &Model, out: &Result<(), Stop>) {
        let o = match out {
            Ok(()) => "accepted".to_string(),
            Err(Stop::Err(k)) => k.clone(),
            Err(Stop::Unsup(k)) => k.to_string(),
        };
        let mut h = DefaultHasher::new();
        o.hash(&mut h);
        m.hash_state(&mut h);
        self.states.insert(h.finish());
        // (but not every name)
        self.outcome(if o.starts_with("IncludeFailure") { o.split(',').next().unwrap() } else { &o });
    }
    /// A directory with exactly these files
    pub fn scratch(&mut self, files: &crate::model::Files) -> Result<PathBuf, String> {
        if self.last_files.as_ref() == Some(files) {
            return Ok(self.scratch_dir.clone());
        }
        if self.last_files.is_none() {
            // what an earlier space left
            let _ = std::fs::remove_dir_all(&self.scratch_dir);
        }
        if let Some(old) = self.last_files.take() {
            for (n, c) in old {
                match n.split_once('/') {
                    _ if c.is_none() => {}
                    Some((d, _)) => {
                        assert!(d != "" && d != "." && d != "..", "harness: file outside of the scratch directory");
                        let _ = std::fs::remove_dir_all(self.scratch_dir.join(d));
                    }
                    None => {
                        let _ = std::fs::remove_file(self.scratch_dir.join(n));
                    }
                }
            }
        }
        let io = |e: std::io::Error| panic!("harness: {}", e);
        if !self.scratch_dir.exists() {
            std::fs::create_dir_all(&self.scratch_dir).unwrap_or_else(io);
        }
        for (n, c) in files {
            if let Some(c) = c {
                let p = self.scratch_dir.join(n);
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d).unwrap_or_else(io);
                }
                std::fs::write(p, c).unwrap_or_else(io);
            }
        }
        self.last_files = Some(files.clone());
        Ok(self.scratch_dir.clone())
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.transitions += o.transitions;
        self.validated += o.validated;
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.findings {
            *self.findings.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
    }
}

pub struct SpaceReport {
    pub name: String,
    pub len: u64,
    pub done: u64,
    pub complete: bool,
    pub wall: f64,
    pub stats: Stats,
}

pub struct Violation {
    pub space: String,
    pub index: u64,
    pub what: String,
    pub case: String,
}

/// What each thread is doing, visible to the supervisor after a crash
pub struct Slots {
    file: std::fs::File,
}
impl Slots {
    pub fn create(p: &Path) -> Slots {
        Slots { file: std::fs::File::create(p).expect("slots") }
    }
    pub fn set(&self, thread: usize, space: u64, index: u64) {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(space + 1).to_le_bytes());
        b[8..].copy_from_slice(&index.to_le_bytes());
        let _ = self.file.write_at(&b, thread as u64 * 16);
    }
    pub fn read(p: &Path) -> Vec<(u64, u64)> {
        let b = std::fs::read(p).unwrap_or_default();
        b.chunks(16)
            .filter(|c| c.len() == 16)
            .map(|c| {
                (
                    u64::from_le_bytes(c[..8].try_into().unwrap()),
                    u64::from_le_bytes(c[8..].try_into().unwrap()),
                )
            })
            .filter(|x| x.0 > 0)
            .map(|x| (x.0 - 1, x.1))
            .collect()
    }
}

/// How long one case may take
pub fn case_limit() -> Duration {
    Duration::from_secs(std::env::var("HMC_CASE_S").ok().and_then(|x| x.parse().ok()).unwrap_or(60))
}
pub const HANG_EXIT: i32 = 77;

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
}

/// Describing a case may build it, and that may panic
pub fn describe(sp: &dyn Space, i: u64) -> String {
    crate::imp::guarded(|| sp.describe(i)).unwrap_or_else(|e| format!("building the case panics: {}", e))
}

/// A panic that no check expects is a violation, unless the harness itself is to blame
pub fn run_one(sp: &dyn Space, i: u64, st: &mut Stats) -> Result<(), String> {
    match crate::imp::guarded(|| sp.run(i, st)) {
        Ok(r) => r,
        Err(m) if m.starts_with("harness:") => {
            eprintln!("{}", m);
            std::process::exit(3);
        }
        Err(m) => Err(format!("panics: {}", m)),
    }
}

pub fn explore(
    spaces: &[Box<dyn Space>],
    scratch: &Path,
    slots: &Slots,
    deadline: Instant,
) -> (Vec<SpaceReport>, Option<Violation>) {
    let n = threads();
    let survey = std::env::var("HMC_SURVEY").is_ok();
    let mut reports = vec![];
    for (si, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let len = sp.len();
        let next = AtomicU64::new(0);
        let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let best_idx = AtomicU64::new(u64::MAX);
        let out_of_time = AtomicBool::new(false);
        let total = Mutex::new(Stats::default());
        let started: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        let started = Arc::new(started);
        let finished = Arc::new(AtomicBool::new(false));
        let chunk = (len / (n as u64 * 8)).clamp(1, 256);
        let epoch = Instant::now();
        // hangs
        let limit = case_limit().as_millis() as u64;
        let watchdog = {
            let started = started.clone();
            let finished = finished.clone();
            std::thread::spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = epoch.elapsed().as_millis() as u64;
                    for s in started.iter() {
                        let s = s.load(Ordering::Relaxed);
                        if s > 0 && now > s + limit {
                            std::process::exit(HANG_EXIT);
                        }
                    }
                }
            })
        };
        std::thread::scope(|scope| {
            for t in 0..n {
                let (next, best, best_idx, out_of_time, total, started) =
                    (&next, &best, &best_idx, &out_of_time, &total, &started);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, move || {
                        let mut st = Stats::new(&scratch.join(format!("t{}", t)));
                        'outer: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= len {
                                break;
                            }
                            if Instant::now() > deadline {
                                out_of_time.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in a..(a + chunk).min(len) {
                                if i > best_idx.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                slots.set(t, si as u64, i);
                                started[t].store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                let r = run_one(sp.as_ref(), i, &mut st);
                                started[t].store(0, Ordering::Relaxed);
                                st.cases += 1;
                                if let Err(e) = r {
                                    if survey {
                                        // all of them, to look at
                                        println!("SURVEY {} {} {:?}\n    {:?}", sp.name(), i, e, describe(sp.as_ref(), i));
                                        continue;
                                    }
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |x| i < x.0) {
                                        *b = Some((i, e));
                                        best_idx.store(i, Ordering::Relaxed);
                                    }
                                    break 'outer;
                                }
                            }
                        }
                        total.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        finished.store(true, Ordering::Relaxed);
        watchdog.thread().unpark();
        let _ = watchdog.join();
        let stats = total.into_inner().unwrap();
        let done = stats.cases;
        let v = best.into_inner().unwrap();
        reports.push(SpaceReport {
            name: sp.name(),
            len,
            done,
            complete: done == len && v.is_none(),
            wall: t0.elapsed().as_secs_f64(),
            stats,
        });
        if let Some((i, e)) = v {
            return (
                reports,
                Some(Violation { space: sp.name(), index: i, what: e, case: describe(sp.as_ref(), i) }),
            );
        }
        if out_of_time.load(Ordering::Relaxed) {
            // the remaining spaces are reported as not covered
            for sp in &spaces[si + 1..] {
                reports.push(SpaceReport {
                    name: sp.name(),
                    len: sp.len(),
                    done: 0,
                    complete: false,
                    wall: 0.0,
                    stats: Stats::default(),
                });
            }
            break;
        }
    }
    (reports, None)
}
