//! The explorer's core: runs every case of a finite, enumerated space on the real code, compares with an oracle, and
//! reports what was covered. A case is one complete trace (a history of operations, or one point of an input grid).
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// Picks the bound for this tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
}

#[derive(Default)]
pub struct Tally {
    /// Operations executed on the implementation.
    pub transitions: u64,
    /// Distinct (canonicalised) implementation states or outcomes observed.
    pub states: HashSet<u64>,
    /// Comparisons with the oracle.
    pub compared: u64,
    /// Largest |difference| / tolerance seen, and on what.
    pub margin: (f64, String),
}

fn fnv<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Tally {
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    pub fn see<T: Hash>(&mut self, v: &T) {
        self.states.insert(fnv(v));
    }
    pub fn see_f(&mut self, v: &[f64]) {
        let r: Vec<i64> = v.iter().map(|x| (x * 1e6).round() as i64).collect();
        self.states.insert(fnv(&r));
    }
    /// Compares a value with the oracle's, within a tolerance; NaN never passes.
    pub fn close(&mut self, what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
        self.compared += 1;
        if (got - want).abs() <= tol {
            if tol > 0.0 && (got - want).abs() / tol > self.margin.0 {
                self.margin = ((got - want).abs() / tol, what.to_string());
            }
            Ok(())
        } else {
            Err(format!("{what}: got {got:e}, expected {want:e} (|diff| {:e} > {tol:e})", (got - want).abs()))
        }
    }
    pub fn ensure(&mut self, cond: bool, what: impl FnOnce() -> String) -> Result<(), String> {
        self.compared += 1;
        if cond { Ok(()) } else { Err(what()) }
    }
}

pub type CaseFn = Box<dyn Fn(&mut Tally) -> Result<(), String> + Send + Sync>;

pub struct Case {
    pub key: String,
    pub f: CaseFn,
}

pub struct Space {
    pub cases: Vec<Case>,
    pub rule: String,
    pub assumptions: Vec<String>,
    /// Worst-case seconds for one case before it is declared hung.
    pub hang_s: f64,
    /// Number of worker threads (1 when a case itself owns the thread pool or process-global state).
    pub threads: usize,
}

impl Space {
    pub fn new(rule: &str) -> Self {
        Self { cases: vec![], rule: rule.to_string(), assumptions: vec![], hang_s: 60.0, threads: 8 }
    }
    pub fn push(&mut self, key: impl Into<String>, f: impl Fn(&mut Tally) -> Result<(), String> + Send + Sync + 'static) {
        self.cases.push(Case { key: key.into(), f: Box::new(f) });
    }
}

pub struct Known {
    pub property: String,
    pub pattern: String,
    pub what: String,
}

/// `open: property=C01 case=<glob> :: what fails`
pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(txt) = std::fs::read_to_string(path) {
        for line in txt.lines() {
            if let Some(rest) = line.strip_prefix("open: property=")
                && let Some((head, what)) = rest.split_once(" :: ")
                && let Some((prop, pat)) = head.split_once(" case=")
            {
                out.push(Known { property: prop.trim().into(), pattern: pat.trim().into(), what: what.trim().into() });
            }
        }
    }
    out
}

pub fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let mut pos = 0;
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            if !s.starts_with(p) {
                return false;
            }
            pos = p.len();
        } else if i == parts.len() - 1 {
            return s.len() >= pos + p.len() && s[pos..].ends_with(p);
        } else {
            match s[pos..].find(p) {
                Some(k) => pos += k + p.len(),
                None => return false,
            }
        }
    }
    true
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn rss_mb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|v| v.parse::<f64>().ok()))
        .map(|p| p * 4096.0 / 1e6)
        .unwrap_or(0.0)
}

pub struct RunCfg {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub root: String,
}

pub fn run(cfg: &RunCfg, space: Space) -> i32 {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let known: Vec<Known> =
        load_known(&format!("{}/KNOWN_FINDINGS.txt", cfg.root)).into_iter().filter(|k| k.property == cfg.id).collect();

    let mut keys = HashSet::new();
    for c in &space.cases {
        if !keys.insert(c.key.clone()) {
            eprintln!("engine error: duplicate case key {}", c.key);
            return 3;
        }
    }
    let cases: Vec<&Case> =
        space.cases.iter().filter(|c| cfg.only.as_ref().is_none_or(|o| glob(o, &c.key))).collect();
    if cases.is_empty() {
        eprintln!("engine error: no case selected");
        return 3;
    }

    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let nthreads = space.threads.min(cases.len()).max(1);
    // What each worker is running, and since when (ms from start).
    let current: Vec<(AtomicU64, AtomicUsize)> =
        (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0))).collect();
    let merged = Mutex::new(Tally::default());
    let fails: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    let slowest: Mutex<(f64, String)> = Mutex::new((0.0, String::new()));
    let cur_path = format!("{}/replays/{}-current.txt", cfg.root, cfg.id);

    let report_hang = |idx: usize, why: &str| -> ! {
        let c = cases[idx];
        let path = format!("{}/replays/{}-hang.txt", cfg.root, cfg.id);
        let _ = std::fs::write(&path, format!("case: {}\n{why}\nreplay: /verif/check.sh {} --case '{}'\n", c.key, cfg.id, c.key));
        println!("case {}: {why}", c.key);
        // A hang can be a known finding too.
        if let Some(k) = known.iter().find(|k| glob(&k.pattern, c.key.strip_prefix("tt:").unwrap_or(&c.key))) {
            println!("engine error: known finding {} hangs; it must be excluded from the space", k.what);
            std::process::exit(3);
        }
        println!("VIOLATION property={} replay={path}", cfg.id);
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    };

    std::thread::scope(|s| {
        for w in 0..nthreads {
            let (next, current, merged, fails, slowest, cases, cur_path) =
                (&next, &current, &merged, &fails, &slowest, &cases, &cur_path);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut tally = Tally::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= cases.len() {
                            break;
                        }
                        let c = cases[idx];
                        if nthreads == 1 || idx < nthreads {
                            let _ = std::fs::write(cur_path, &c.key);
                        }
                        current[w].1.store(idx, Ordering::SeqCst);
                        current[w].0.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        let t0 = Instant::now();
                        let r = catch_unwind(AssertUnwindSafe(|| (c.f)(&mut tally)));
                        current[w].0.store(u64::MAX, Ordering::SeqCst);
                        let el = t0.elapsed().as_secs_f64();
                        {
                            let mut sl = slowest.lock().unwrap();
                            if el > sl.0 {
                                *sl = (el, c.key.clone());
                            }
                        }
                        let msg = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(e)) => Some(e),
                            Err(_) => Some(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
                        };
                        if let Some(m) = msg {
                            fails.lock().unwrap().insert(idx, m);
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.transitions += tally.transitions;
                    m.compared += tally.compared;
                    m.states.extend(tally.states);
                    if tally.margin.0 > m.margin.0 {
                        m.margin = tally.margin;
                    }
                })
                .unwrap();
        }
        // Watchdog: hangs and runaway memory are violations (the code never terminates on a tiny input).
        let done_r = &done;
        let wd = s.spawn(|| {
            while !done_r.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                let mut oldest: Option<(u64, usize)> = None;
                for (t, i) in &current {
                    let t = t.load(Ordering::SeqCst);
                    if t != u64::MAX && oldest.is_none_or(|(o, _)| t < o) {
                        oldest = Some((t, i.load(Ordering::SeqCst)));
                    }
                }
                if let Some((t, idx)) = oldest {
                    let el = (now.saturating_sub(t)) as f64 / 1e3;
                    if el > space.hang_s {
                        report_hang(idx, &format!("did not terminate within {:.0} s", space.hang_s));
                    }
                    if rss_mb() > 12_000.0 {
                        report_hang(idx, "memory grew beyond 12 GB");
                    }
                } else if next.load(Ordering::SeqCst) >= cases.len() + nthreads {
                    break;
                }
            }
        });
        let _ = wd;
    });
    done.store(true, Ordering::SeqCst);

    let m = merged.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let slow = slowest.into_inner().unwrap();
    let all = std::env::var("NYXMC_ALL").is_ok();
    let mut viol = 0;
    let mut known_hit: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for (idx, msg) in &fails {
        let key = &cases[*idx].key;
        if let Some(k) = known.iter().find(|k| glob(&k.pattern, key.strip_prefix("tt:").unwrap_or(key))) {
            let e = known_hit.entry(k.what.clone()).or_insert((0, key.clone()));
            e.0 += 1;
            continue;
        }
        viol += 1;
        if all {
            println!("FAIL {key}: {}", msg.chars().take(300).collect::<String>());
        }
        if viol <= 5 {
            let path = format!("{}/replays/{}-{}.txt", cfg.root, cfg.id, viol);
            let _ = std::fs::write(
                &path,
                format!("property: {}\ncase: {key}\n{msg}\nreplay: /verif/check.sh {} --case '{key}'\n", cfg.id, cfg.id),
            );
            println!("case {key}: {msg}");
            println!("VIOLATION property={} replay={path}", cfg.id);
        }
    }
    for (what, (n, key)) in &known_hit {
        println!("KNOWN-FINDING: property={} {what} ({n} cases, e.g. {key})", cfg.id);
    }
    let samples: Vec<&String> = {
        let n = cases.len();
        let mut idx: Vec<usize> = (0..6).map(|i| i * (n - 1) / 5).collect();
        idx.dedup();
        idx.into_iter().map(|i| &cases[i].key).collect()
    };
    let ev = serde_json::json!({
        "property": cfg.id,
        "tier": if cfg.tier.thorough() { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "model_checking",
        "coverage": {
            "states": m.states.len(),
            "transitions": m.transitions,
            "traces_validated_against_impl": cases.len(),
            "oracle_comparisons": m.compared,
            "rule": space.rule,
            "samples": samples,
            "exhaustive": cfg.only.is_none(),
            "known_finding_cases": known_hit.values().map(|v| v.0).sum::<usize>(),
            "slowest_case_s": slow.0,
            "slowest_case": slow.1,
        },
        "assumptions": space.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": viol,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
    std::fs::write(format!("{}/evidence/{}.json", cfg.root, cfg.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_file(&cur_path);
    println!(
        "{}: {} traces, {} transitions, {} distinct states, {} comparisons, {} violations, {:.1} s (slowest {:.2} s: {}); worst margin {:.1e} {}",
        cfg.id, cases.len(), m.transitions, m.states.len(), m.compared, viol, start.elapsed().as_secs_f64(), slow.0, slow.1, m.margin.0, m.margin.1
    );
    if viol > 0 { 1 } else { 0 }
}

/// Cartesian product helper: all tuples of indices with the given sizes.
pub fn product(sizes: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &s in sizes {
        let mut nxt = Vec::with_capacity(out.len() * s);
        for o in &out {
            for i in 0..s {
                let mut v: Vec<usize> = o.clone();
                v.push(i);
                nxt.push(v);
            }
        }
        out = nxt;
    }
    out
}

/// All sequences over an alphabet of `n` letters with length 0..=depth, shortest first.
pub fn sequences(n: usize, min: usize, depth: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for d in min..=depth {
        out.extend(product(&vec![n; d]));
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(pre: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if pre.len() == n {
            out.push(pre.clone());
            return;
        }
        for i in 0..n {
            if !pre.contains(&i) {
                pre.push(i);
                rec(pre, n, out);
                pre.pop();
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], n, &mut out);
    out
}
