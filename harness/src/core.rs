//! Case driver, deterministic randomness, verdicts, evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    /// Uniform in a..=b.
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn usize(&mut self, a: usize, b: usize) -> usize {
        self.int(a as i64, b as i64) as usize
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f64()
    }
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.uni(a.ln(), b.ln())).exp()
    }
    pub fn f(&mut self, a: f32, b: f32) -> f32 {
        self.uni(a as f64, b as f64) as f32
    }
    pub fn lf(&mut self, a: f32, b: f32) -> f32 {
        self.log(a as f64, b as f64) as f32
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.below(x.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case recorder.
pub struct Rec {
    pub rng: Rng,
    pub tier: Tier,
    pub counters: BTreeMap<String, u64>,
    pub distinct: Vec<u64>,
    pub sample: Option<String>,
    /// Violations: (key, description).
    pub viols: Vec<(String, String)>,
    /// Context shown when the case fails.
    pub ctx: String,
}

impl Rec {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(name) {
            *x += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// Mark this case as a distinct nontrivial one identified by `s`.
    pub fn distinct(&mut self, s: &str) {
        self.distinct.push(hash_str(s));
    }
    pub fn fail(&mut self, key: &str, what: String) {
        if self.viols.len() < 4 {
            self.viols.push((key.to_string(), what));
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Cases under way: (thread slot, stream, index, start), for the hang watchdog.
static RUNNING: Mutex<Vec<(usize, String, usize, Instant)>> = Mutex::new(Vec::new());

fn watchdog(id: String, limit: f64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let hung = {
            let r = RUNNING.lock().unwrap();
            r.iter().find(|x| x.3.elapsed().as_secs_f64() > limit).map(|x| (x.1.clone(), x.2))
        };
        if let Some((stream, i)) = hung {
            let dir = verif_dir();
            let _ = std::fs::create_dir_all(format!("{}/evidence/replay", dir));
            let path = format!("{}/evidence/replay/{}-hang.txt", dir, id);
            let what = format!("case {}:{} did not finish within {} s", stream, i, limit);
            let _ = std::fs::write(&path, format!("property: {}\n{}\n", id, what));
            let _ = std::fs::write(
                format!("{}/evidence/{}.json", dir, id),
                format!(
                    "{{\"property\": {}, \"tier\": \"quick\", \"seed\": 0, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"hang watchdog\", \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": {:.1}, \"violations\": 1}}\n",
                    js(&id), js(&what), limit
                ),
            );
            println!("VIOLATION property={} replay={}", id, path);
            println!("    {}", what);
            std::process::exit(1);
        }
    });
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    budget: Duration,
    evals: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String, String)>,
    known: BTreeMap<String, String>,
    known_hit: BTreeMap<String, String>,
    filter: Option<(String, usize)>,
    streams: BTreeMap<String, u64>,
    truncated: bool,
    rule: String,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, String>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

impl Ctx {
    pub fn new(id: &str, rule: &str) -> Ctx {
        // VERIF_ID reports under another property, when a monitor is reused under a sanitizer.
        let id = &std::env::var("VERIF_ID").unwrap_or(id.to_string())[..];
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1u64);
        let filter = std::env::var("VERIF_REPLAY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let budget = match std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()) {
            Some(x) => Duration::from_secs_f64(x),
            None => Duration::from_secs(if tier == Tier::Quick { 300 } else { 3000 }),
        };
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for line in text.lines() {
                // finding: property=P01 key=xxx description
                if let Some(rest) = line.strip_prefix("finding: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                    let d = it.next().unwrap_or("");
                    if p == id && !k.is_empty() {
                        known.insert(k.to_string(), d.to_string());
                    }
                }
            }
        }
        if std::env::var("VERIF_LOUD").is_err() {
            std::panic::set_hook(Box::new(|info| {
                let s = format!("{}", info);
                LAST_PANIC.with(|p| *p.borrow_mut() = s);
            }));
        }
        watchdog(
            id.to_string(),
            std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 120.0 } else { 600.0 }),
        );
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            start: Instant::now(),
            budget,
            evals: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            known,
            known_hit: BTreeMap::new(),
            filter,
            streams: BTreeMap::new(),
            truncated: false,
            rule: rule.to_string(),
            assumptions: Vec::new(),
            extra: BTreeMap::new(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Number of cases; VERIF_SCALE multiplies it (used where executions are slow, as under a sanitizer).
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.quick() { quick } else { thorough };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(k) => std::cmp::max(1, (n as f64 * k) as usize),
            None => n,
        }
    }

    /// Run `n` cases of `stream` in parallel.
    pub fn par<F>(&mut self, stream: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Rec) -> Result<(), String> + Sync,
    {
        self.run(stream, n, 8, f)
    }

    /// Run `n` cases of `stream` one after another.
    pub fn seq<F>(&mut self, stream: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Rec) -> Result<(), String> + Sync,
    {
        self.run(stream, n, 1, f)
    }

    fn run<F>(&mut self, stream: &str, n: usize, threads: usize, f: F)
    where
        F: Fn(usize, &mut Rec) -> Result<(), String> + Sync,
    {
        // VERIF_STREAMS restricts a run to some streams.
        if let Ok(l) = std::env::var("VERIF_STREAMS") {
            if !l.split(',').any(|x| x == stream) {
                return;
            }
        }
        let only = match &self.filter {
            Some((s, i)) => {
                if s != stream {
                    return;
                }
                Some(*i)
            }
            None => None,
        };
        let limit = if std::env::var("VERIF_ALL").is_ok() { usize::MAX } else { 8 };
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let nviol = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, Rec)>> = Mutex::new(Vec::new());
        let seed = self.seed;
        let tier = self.tier;
        let deadline = self.start + self.budget;
        let cut = AtomicUsize::new(0);
        let known = &self.known;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || nviol.load(Ordering::SeqCst) >= limit {
                        break;
                    }
                    if let Some(o) = only {
                        if o != i {
                            continue;
                        }
                    }
                    if Instant::now() > deadline {
                        cut.store(1, Ordering::SeqCst);
                        break;
                    }
                    let mut rec = Rec {
                        rng: Rng::new(
                            hash_str(stream) ^ seed.wrapping_mul(0x2545F4914F6CDD1D) ^ ((i as u64) << 20),
                        ),
                        tier,
                        counters: BTreeMap::new(),
                        distinct: Vec::new(),
                        sample: None,
                        viols: Vec::new(),
                        ctx: String::new(),
                    };
                    RUNNING.lock().unwrap().push((i, stream.to_string(), i, Instant::now()));
                    let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rec)));
                    RUNNING.lock().unwrap().retain(|x| x.0 != i);
                    match r {
                        Ok(Ok(())) => (),
                        Ok(Err(e)) => {
                            let key = format!("{}", stream);
                            rec.fail(&key, e);
                        }
                        Err(p) => {
                            let mut s = LAST_PANIC.with(|p| p.borrow().clone());
                            if s.is_empty() {
                                s = if let Some(x) = p.downcast_ref::<&str>() {
                                    x.to_string()
                                } else if let Some(x) = p.downcast_ref::<String>() {
                                    x.clone()
                                } else {
                                    "panic".to_string()
                                };
                            }
                            rec.fail(&format!("{}/panic", stream), format!("panicked: {}", s));
                        }
                    }
                    if rec.viols.iter().any(|(k, _)| !known.contains_key(k)) {
                        nviol.fetch_add(1, Ordering::SeqCst);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                    out.lock().unwrap().push((i, rec));
                });
            }
        });
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|x| x.0);
        let done = done.load(Ordering::SeqCst);
        self.evals += done;
        *self.streams.entry(stream.to_string()).or_insert(0) += done;
        if cut.load(Ordering::SeqCst) != 0 {
            self.truncated = true;
        }
        let mut nsamples = 0;
        for (i, rec) in out {
            for (k, v) in rec.counters {
                *self.counters.entry(k).or_insert(0) += v;
            }
            for d in rec.distinct {
                self.distinct.insert(d ^ hash_str(stream));
            }
            if let Some(s) = rec.sample {
                if nsamples < 2 && self.samples.len() < 24 {
                    self.samples.push(format!("{}:{} {}", stream, i, s));
                    nsamples += 1;
                }
            }
            for (k, v) in rec.viols {
                if let Some(d) = self.known.get(&k) {
                    self.known_hit.insert(k.clone(), d.clone());
                } else {
                    self.violations.push((
                        format!("{}:{}", stream, i),
                        k,
                        format!("{}\ncontext: {}", v, rec.ctx),
                    ));
                }
            }
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Add an externally decided violation.
    pub fn violation(&mut self, stream: &str, key: &str, what: String) {
        self.violations.push((stream.to_string(), key.to_string(), what));
    }

    pub fn add_count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn finish(self) -> ! {
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", dir));
        for (k, d) in &self.known_hit {
            println!("KNOWN-FINDING: property={} key={} {}", self.id, k, d);
        }
        if std::env::var("VERIF_ALL").is_ok() {
            let mut m: BTreeMap<String, (usize, String)> = BTreeMap::new();
            for (case, _k, what) in &self.violations {
                let c = what.split("context: ").nth(1).unwrap_or("");
                let l: String = c.split(' ').next().unwrap_or("").to_string();
                let e = m.entry(l).or_insert((0, format!("{} {}", case, what.replace('\n', " ").chars().take(260).collect::<String>())));
                e.0 += 1;
            }
            for (l, (n, w)) in m {
                println!("ALL {} x{} {}", l, n, w);
            }
        }
        let mut shown = 0;
        for (i, (case, key, what)) in self.violations.iter().enumerate() {
            if i >= 5 {
                break;
            }
            let path = format!("{}/evidence/replay/{}-{}.txt", dir, self.id, i);
            let text = format!(
                "property: {}\nkey: {}\ncase: {}\nseed: {}\ntier: {:?}\nreplay: VERIF_SEED={} VERIF_REPLAY='{}' bash {}/run.sh {} {}\n\n{}\n",
                self.id,
                key,
                case,
                self.seed,
                self.tier,
                self.seed,
                case,
                dir,
                self.id,
                if self.tier == Tier::Quick { "quick" } else { "thorough" },
                what
            );
            let _ = std::fs::write(&path, &text);
            println!("VIOLATION property={} replay={}", self.id, path);
            for l in what.lines().take(12) {
                println!("    {}", l.chars().take(400).collect::<String>());
            }
            println!("    case {} key {}", case, key);
            shown += 1;
        }
        let _ = shown;
        let mut cov = String::new();
        cov.push_str(&format!("\"evaluations\": {},\n", self.evals));
        cov.push_str(&format!("    \"distinct_nontrivial\": {},\n", self.distinct.len()));
        cov.push_str(&format!("    \"rule\": {},\n", js(&self.rule)));
        cov.push_str("    \"samples\": [");
        cov.push_str(&self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        cov.push_str("],\n    \"streams\": {");
        cov.push_str(
            &self.streams.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        );
        cov.push_str("},\n    \"observed\": {");
        cov.push_str(
            &self.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        );
        cov.push_str("}");
        for (k, v) in &self.extra {
            cov.push_str(&format!(",\n    {}: {}", js(k), js(v)));
        }
        cov.push_str(&format!(",\n    \"truncated_by_time_budget\": {}", self.truncated));
        let ev = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            js(&self.id),
            js(if self.tier == Tier::Quick { "quick" } else { "thorough" }),
            self.seed,
            cov,
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.elapsed(),
            self.violations.len()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        std::fs::write(format!("{}/evidence/{}.json", dir, self.id), ev).expect("evidence");
        println!(
            "{}: {} evaluations, {} distinct nontrivial, {} violations, {:.1} s{}",
            self.id,
            self.evals,
            self.distinct.len(),
            self.violations.len(),
            self.elapsed(),
            if self.truncated { " (truncated by budget)" } else { "" }
        );
        if !self.violations.is_empty() {
            std::process::exit(1);
        }
        if self.evals == 0 || (self.distinct.is_empty() && self.filter.is_none()) {
            println!("INCONCLUSIVE property={}: nothing observed", self.id);
            std::process::exit(3);
        }
        std::process::exit(0);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
