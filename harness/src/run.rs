//! Running sections of cases: in parallel, in a supervised worker process, with evidence.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = Box<dyn Fn(&mut Tc, u64) + Send + Sync>;
pub struct Section {
    pub name: &'static str,
    pub cases: u64,
    pub f: CaseFn,
    /// stack of the threads that run it, in bytes
    pub stack: usize,
    pub threads: usize,
    /// CPU seconds after which a single case counts as not terminating; 0: it is other processes that work
    pub cpu: u64,
}
pub fn sec(
    name: &'static str,
    cases: u64,
    f: impl Fn(&mut Tc, u64) + Send + Sync + 'static,
) -> Section {
    Section { name, cases, f: Box::new(f), stack: 256 << 20, threads: 0, cpu: 30 }
}
impl Section {
    pub fn stack(mut self, n: usize) -> Self {
        self.stack = n;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn cpu(mut self, n: u64) -> Self {
        self.cpu = n;
        self
    }
}

#[derive(Clone)]
pub struct Conf {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    /// percentage of the cases of every section (100 = all)
    pub scale: u64,
    pub deadline: u64,
    /// at most so many milliseconds for each section, spread over all of its cases
    pub slice: Option<u64>,
    /// keys of the known findings of this property
    pub known: Vec<String>,
}
impl Conf {
    pub fn knows(&self, key: &str) -> bool {
        self.known.iter().any(|k| k == key)
    }
    /// number of random cases, by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 100).max(1)
    }
}

pub struct Check {
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub sections: Vec<Section>,
    /// extra counters that must not be zero for the run to mean anything
    pub need: Vec<&'static str>,
}

/// what a thread has and gathers
pub struct Tc {
    pub rng: Rng,
    pub conf: Conf,
    pub sec: &'static str,
    pub idx: u64,
    evals: u64,
    seen: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    fails: Vec<Fail>,
    samples: Vec<Value>,
    offered: u64,
    known: BTreeMap<String, Value>,
}
#[derive(Clone)]
pub struct Fail {
    pub sec: &'static str,
    pub idx: u64,
    pub msg: String,
    pub detail: Value,
}

impl Tc {
    pub fn new(conf: &Conf) -> Self {
        Tc {
            rng: Rng::new(0),
            conf: conf.clone(),
            sec: "",
            idx: 0,
            evals: 0,
            seen: HashSet::new(),
            counts: BTreeMap::new(),
            fails: vec![],
            samples: vec![],
            offered: 0,
            known: BTreeMap::new(),
        }
    }
    /// one more observed execution
    pub fn ev(&mut self) {
        self.evals += 1;
    }
    pub fn evn(&mut self, n: u64) {
        self.evals += n;
    }
    /// this one was non-trivial; `h` tells it apart
    pub fn nontrivial(&mut self, h: u64) {
        self.seen.insert(h);
    }
    pub fn nontrivial_s(&mut self, s: &str) {
        self.seen.insert(hash_bytes(s.as_bytes()));
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let c = self.counts.entry(k).or_default();
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        // the first ones, and later ones ever more rarely
        self.offered += 1;
        if self.offered.is_power_of_two() {
            if self.samples.len() > 2 {
                self.samples.remove(0);
            }
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>, detail: Value) {
        let f = Fail { sec: self.sec, idx: self.idx, msg: msg.into(), detail };
        self.fails.push(f);
    }
    /// a known finding showed up: does not count as a failure
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> Value) {
        assert!(self.conf.knows(key));
        self.count(&format!("known finding: {key}"));
        if !self.known.contains_key(key) {
            self.known.insert(key.to_string(), detail());
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
}

/// for errors of the harness itself: never a violation
pub struct HarnessBug(pub String);
pub fn harness_bug(m: impl Into<String>) -> ! {
    std::panic::panic_any(HarnessBug(m.into()))
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|l| l.borrow().clone())
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(other payload)".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = (m, l));
    }));
}
/// Ok, or the message and place of the panic
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(h) = e.downcast_ref::<HarnessBug>() {
            return (h.0.clone(), "HARNESS".into());
        }
        last_panic()
    })
}

// ---- breadcrumbs shared with the supervisor -------------------------------------------------

pub const SLOTS: usize = 64;
const SLOT: usize = 64;
#[derive(Clone, Copy)]
pub struct Crumbs(*mut u64);
unsafe impl Send for Crumbs {}
unsafe impl Sync for Crumbs {}
impl Crumbs {
    pub fn open(path: &str, create: bool) -> std::io::Result<Crumbs> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path)?;
        f.set_len((SLOTS * SLOT) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Crumbs(p as *mut u64))
    }
    fn cell(&self, slot: usize, k: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(slot * SLOT / 8 + k) as *const AtomicU64) }
    }
    /// section 0 means idle; real ones count from 1
    pub fn set(&self, slot: usize, section: u64, idx: u64) {
        self.cell(slot, 1).store(idx, Ordering::Relaxed);
        self.cell(slot, 0).store(section, Ordering::Relaxed);
        self.cell(slot, 2).fetch_add(1, Ordering::Relaxed);
    }
    pub fn get(&self, slot: usize) -> (u64, u64, u64) {
        (
            self.cell(slot, 0).load(Ordering::Relaxed),
            self.cell(slot, 1).load(Ordering::Relaxed),
            self.cell(slot, 2).load(Ordering::Relaxed),
        )
    }
}

fn one_case(tc: &mut Tc, s: &Section, si: usize, idx: u64) {
    tc.sec = s.name;
    tc.idx = idx;
    tc.rng = Rng::new(mix(tc.conf.seed ^ mix(hash_bytes(s.name.as_bytes()) ^ mix(idx))) ^ si as u64);
    let r = guarded(|| (s.f)(tc, idx));
    if let Err((m, l)) = r {
        if l == "HARNESS" || l.starts_with("src/") {
            tc.fail(format!("HARNESS: {m} at {l}"), Value::Null);
        } else {
            tc.fail(format!("panicked: {m} (at {l})"), json!({"panic": m, "at": l}));
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub struct Known(pub Vec<(String, String, String)>);
impl Known {
    /// lines `known: property=ID key=KEY description`
    pub fn load(verif: &str) -> Known {
        let mut v = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, ' ');
                    let id = it.next().unwrap_or("").to_string();
                    let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                    v.push((id, key, it.next().unwrap_or("").to_string()));
                }
            }
        }
        Known(v)
    }
    pub fn keys(&self, id: &str) -> Vec<String> {
        self.0.iter().filter(|k| k.0 == id).map(|k| k.1.clone()).collect()
    }
}

/// The worker: runs all sections, writes `out` as JSON
pub fn worker(conf: &Conf, check: &Check, out: &str, crumbs: Option<Crumbs>) {
    install_hook();
    let t0 = Instant::now();
    let deadline = Duration::from_secs(conf.deadline);
    let mut per = vec![];
    let total = Mutex::new(Tc::new(conf));
    let stop = AtomicBool::new(false);
    let mut truncated = vec![];
    for (si, s) in check.sections.iter().enumerate() {
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let nt = if s.threads > 0 {
            s.threads
        } else {
            std::thread::available_parallelism().map_or(4, |n| n.get()).min(SLOTS)
        };
        let chunk = (s.cases / (nt as u64 * 16)).clamp(1, 256);
        // a stride that reaches every case, far apart
        let stride = match conf.slice {
            Some(_) => (0..).map(|k| (s.cases as f64 * 0.618) as u64 + k).find(|k| gcd(*k, s.cases) == 1).unwrap(),
            None => 1,
        };
        let before = {
            let t = total.lock().unwrap();
            (t.evals, t.seen.len())
        };
        std::thread::scope(|sc| {
            for slot in 0..nt {
                let (next, stop, total) = (&next, &stop, &total);
                std::thread::Builder::new()
                    .stack_size(s.stack)
                    .spawn_scoped(sc, move || {
                        let mut tc = Tc::new(conf);
                        'o: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= s.cases {
                                break;
                            }
                            for i in a..(a + chunk).min(s.cases) {
                                if stop.load(Ordering::Relaxed) || t0.elapsed() > deadline {
                                    break 'o;
                                }
                                let i = match conf.slice {
                                    Some(ms) if ts.elapsed() > Duration::from_millis(ms) => break 'o,
                                    Some(_) => (i as u128 * stride as u128 % s.cases as u128) as u64,
                                    None => i,
                                };
                                if let Some(c) = &crumbs {
                                    c.set(slot, si as u64 + 1, i);
                                }
                                one_case(&mut tc, s, si, i);
                                if tc.fails.len() > 4 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        if let Some(c) = &crumbs {
                            c.set(slot, 0, 0);
                        }
                        let mut t = total.lock().unwrap();
                        t.evals += tc.evals;
                        t.seen.extend(tc.seen.drain());
                        for (k, v) in std::mem::take(&mut tc.counts) {
                            let e = t.counts.entry(k.clone()).or_default();
                            if k.starts_with("max:") {
                                *e = (*e).max(v);
                            } else {
                                *e += v;
                            }
                        }
                        t.fails.append(&mut tc.fails);
                        for (k, v) in std::mem::take(&mut tc.known) {
                            t.known.entry(k).or_insert(v);
                        }
                        let have = t.samples.iter().filter(|x| x["section"] == s.name).count();
                        if have < 2 {
                            if let Some(x) = tc.samples.pop() {
                                t.samples.push(json!({"section": s.name, "case": x}));
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        if t0.elapsed() > deadline {
            truncated.push(s.name);
        }
        let t = total.lock().unwrap();
        per.push(json!({
            "section": s.name,
            "cases": next.load(Ordering::Relaxed).min(s.cases),
            "executions": t.evals - before.0,
            "new_distinct_nontrivial": t.seen.len() - before.1,
            "wall_s": ts.elapsed().as_secs_f64(),
        }));
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    #[allow(unused_mut)]
    let mut t = total.into_inner().unwrap();
    #[cfg(feature = "trace")]
    {
        t.add("trace spans", crate::trace::SPANS.load(Ordering::Relaxed));
        t.add("trace events", crate::trace::EVENTS.load(Ordering::Relaxed));
        t.add("trace bytes formatted", crate::trace::BYTES.load(Ordering::Relaxed));
    }
    let fails: Vec<Value> = t
        .fails
        .iter()
        .take(60)
        .map(|f| json!({"section": f.sec, "index": f.idx, "msg": f.msg, "detail": f.detail}))
        .collect();
    let counts: Map<String, Value> = t.counts.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
    let missing: Vec<&&str> =
        check.need.iter().filter(|k| t.counts.get(**k).copied().unwrap_or(0) == 0).collect();
    let mut samples = t.samples;
    samples.truncate(30);
    let r = json!({
        "evaluations": t.evals,
        "distinct": t.seen.len(),
        "sections": per,
        "counts": counts,
        "samples": samples,
        "known": t.known,
        "fails": fails,
        "truncated": truncated,
        "missing": missing,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(out, r.to_string()).expect("write result");
}

/// One case alone; exit status 0 ok, 7 failed (message on stdout), 8 harness error
pub fn single(conf: &Conf, check: &Check, si: usize, idx: u64) -> i32 {
    install_hook();
    let s = &check.sections[si];
    let fails = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(s.stack)
            .spawn_scoped(sc, || {
                let mut tc = Tc::new(conf);
                one_case(&mut tc, s, si, idx);
                tc.fails
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match fails.first() {
        None => 0,
        Some(f) => {
            println!("{}\n{}", f.msg, serde_json::to_string_pretty(&f.detail).unwrap());
            if f.msg.starts_with("HARNESS") {
                8
            } else {
                7
            }
        }
    }
}

// ---- the supervisor -------------------------------------------------------------------------

fn limits(cpu: Option<u64>, mem: u64) -> impl FnMut() -> std::io::Result<()> + Send + Sync {
    move || {
        unsafe {
            let m = libc::rlimit { rlim_cur: mem, rlim_max: mem };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            if let Some(c) = cpu {
                let c = libc::rlimit { rlim_cur: c, rlim_max: c + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &c);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        Ok(())
    }
}

/// CPU ticks used so far and whether every thread sleeps, of our own child
pub fn child_state(pid: u32) -> Option<(u64, bool)> {
    let mut ticks = 0;
    let mut asleep = true;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        asleep &= f[0] == "S";
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    Some((ticks, asleep))
}

#[derive(Debug, PartialEq, Clone)]
pub enum One {
    Fine,
    /// a reproducible misbehaviour that the case itself could not report
    Crash(String),
    Reported(String),
    Harness(String),
    Unclear(String),
}

fn run_one(conf: &Conf, si: usize, idx: u64, cpu: u64) -> One {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.args([&conf.id, "--tier", &conf.tier, "--seed", &conf.seed.to_string(), "--verif", &conf.verif])
        .args(["--scale", &conf.scale.to_string()])
        .args(["--one", &si.to_string(), &idx.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null());
    unsafe { c.pre_exec(limits(Some(cpu), 6 << 30)) };
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return One::Unclear(e.to_string()),
    };
    let t0 = Instant::now();
    let mut idle_since: Option<(Instant, u64)> = None;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let mut o = String::new();
            use std::io::Read;
            let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
            return match (st.code(), st.signal()) {
                (Some(0), _) => One::Fine,
                (Some(7), _) => One::Reported(o),
                (Some(8), _) => One::Harness(o),
                (_, Some(libc::SIGXCPU)) => {
                    One::Crash(format!("did not finish within {cpu} s of CPU time"))
                }
                (_, Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))) => {
                    One::Crash(format!("the process was terminated by signal {s} (abort, stack overflow or out of memory)"))
                }
                (c, s) => One::Unclear(format!("exit {c:?} signal {s:?}")),
            };
        }
        match child_state(ch.id()) {
            Some((t, true)) => match idle_since {
                Some((i, t1)) if t1 == t => {
                    if i.elapsed() > Duration::from_secs(25) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        return One::Crash("all threads blocked for 25 s: deadlock".into());
                    }
                }
                _ => idle_since = Some((Instant::now(), t)),
            },
            _ => idle_since = None,
        }
        if t0.elapsed() > Duration::from_secs(cpu * 6 + 60) {
            let _ = ch.kill();
            let _ = ch.wait();
            return One::Unclear("wall-clock watchdog".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
/// a crash counts only if it happens twice in a row
fn confirm(conf: &Conf, si: usize, idx: u64, cpu: u64) -> One {
    match run_one(conf, si, idx, cpu) {
        One::Crash(a) => match run_one(conf, si, idx, cpu) {
            One::Crash(_) => One::Crash(a),
            _ => One::Unclear(a),
        },
        o => o,
    }
}

pub struct Outcome {
    pub fails: Vec<Value>,
    pub result: Value,
    pub notes: Vec<String>,
    pub error: Option<String>,
}

pub fn supervise(conf: &Conf, check: &Check) -> Outcome {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let dir = format!("{}/evidence/run-{}-{}", conf.verif, conf.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut o = Outcome { fails: vec![], result: Value::Null, notes: vec![], error: None };
    for attempt in 0..2 {
        let cf = format!("{dir}/crumbs{attempt}");
        let of = format!("{dir}/out{attempt}");
        let cr = Crumbs::open(&cf, true).expect("crumbs");
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args([&conf.id, "--tier", &conf.tier, "--seed", &conf.seed.to_string(), "--verif", &conf.verif])
            .args(["--scale", &conf.scale.to_string()])
            .args(["--deadline", &conf.deadline.to_string()])
            .args(["--worker", &of, &cf]);
        unsafe { c.pre_exec(limits(None, 24 << 30)) };
        let mut ch = c.spawn().expect("worker");
        let mut last: Vec<((u64, u64, u64), Instant, bool)> =
            (0..SLOTS).map(|s| (cr.get(s), Instant::now(), false)).collect();
        let status = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            let mut kill = false;
            for s in 0..SLOTS {
                let g = cr.get(s);
                if g != last[s].0 {
                    last[s] = (g, Instant::now(), false);
                } else if g.0 > 0 && !last[s].2 && check.sections[g.0 as usize - 1].cpu > 0 && last[s].1.elapsed() > Duration::from_secs(20) {
                    let (si, idx) = (g.0 as usize - 1, g.1);
                    let cpu = check.sections[si].cpu;
                    match confirm(conf, si, idx, cpu) {
                        One::Crash(m) => {
                            o.fails.push(json!({"section": check.sections[si].name, "index": idx, "msg": m, "detail": Value::Null, "section_no": si}));
                            kill = true;
                        }
                        One::Reported(m) => {
                            o.fails.push(json!({"section": check.sections[si].name, "index": idx, "msg": m, "detail": Value::Null, "section_no": si}));
                            kill = true;
                        }
                        One::Fine => {
                            o.notes.push(format!("case {si}/{idx} was slow, but finished alone"));
                        }
                        x => o.notes.push(format!("case {si}/{idx} slow: {x:?}")),
                    }
                    last[s].2 = true;
                }
            }
            if kill {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        if !o.fails.is_empty() {
            break;
        }
        let Some(st) = status else { break };
        if st.success() {
            match std::fs::read_to_string(&of)
                .ok()
                .and_then(|t| serde_json::from_str::<Value>(&t).ok())
            {
                Some(v) => {
                    o.fails = v["fails"].as_array().cloned().unwrap_or_default();
                    o.result = v;
                }
                None => o.error = Some("no result from the worker".into()),
            }
            break;
        }
        // the worker died: which case does it alone?
        o.notes.push(format!("worker ended with {:?} signal {:?}", st.code(), st.signal()));
        for s in 0..SLOTS {
            let g = cr.get(s);
            if g.0 == 0 {
                continue;
            }
            let (si, idx) = (g.0 as usize - 1, g.1);
            match confirm(conf, si, idx, check.sections[si].cpu) {
                One::Crash(m) | One::Reported(m) => {
                    o.fails.push(json!({"section": check.sections[si].name, "index": idx, "msg": m, "detail": Value::Null, "section_no": si}));
                    break;
                }
                _ => {}
            }
        }
        if !o.fails.is_empty() {
            break;
        }
        if attempt == 1 {
            o.error = Some(format!("worker ended twice without a reproducible case: {:?}", o.notes));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    o
}

/// supervises, reports, writes the evidence; gives the exit status
pub fn main_check(conf: &Conf, check: &Check, extra: Option<crate::Extra>) -> i32 {
    let t0 = Instant::now();
    let known = Known::load(&conf.verif);
    let o = supervise(conf, check);
    let mut status = 0;
    let mut extra_cov = Map::new();
    let mut fails = o.fails.clone();
    let mut error = o.error.clone();
    if let Some(x) = extra {
        if fails.is_empty() && error.is_none() {
            match x(conf) {
                Ok((m, f)) => {
                    extra_cov = m;
                    fails.extend(f);
                }
                Err(e) => error = Some(e),
            }
        }
    }
    let rdir = format!("{}/evidence/replays", conf.verif);
    let _ = std::fs::create_dir_all(&rdir);
    let mut met: Vec<&String> = o.result["known"].as_object().map(|m| m.keys().collect()).unwrap_or_default();
    met.extend(extra_cov.get("known").and_then(|k| k.as_object()).into_iter().flat_map(|m| m.keys()));
    for (id, k, d) in &known.0 {
        if *id == conf.id && met.contains(&k) {
            println!("KNOWN-FINDING: property={id} {k}: {d}");
        }
    }
    let mut n = 0;
    for f in &fails {
        let msg = f["msg"].as_str().unwrap_or("");
        if msg.starts_with("HARNESS") {
            error = Some(format!("{msg} (section {} index {})", f["section"], f["index"]));
            continue;
        }
        n += 1;
        if n > 5 {
            continue;
        }
        let path = format!("{rdir}/{}-{}.json", conf.id, n);
        let rec = json!({
            "property": conf.id, "tier": conf.tier, "seed": conf.seed, "scale": conf.scale,
            "section": f["section"], "index": f["index"], "message": msg, "detail": f["detail"],
            "replay": format!("{}/bin/check {} --tier {} --seed {} --replay {} {}", conf.verif, conf.id, conf.tier, conf.seed, f["section"].as_str().unwrap_or(""), f["index"]),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap());
        println!("VIOLATION property={} replay={}", conf.id, path);
        println!("  {}", msg.chars().take(600).collect::<String>());
        status = 1;
    }
    let r = &o.result;
    if status == 0 && error.is_none() {
        if let Some(m) = r["missing"].as_array() {
            if !m.is_empty() {
                error = Some(format!("the run observed nothing of {m:?}"));
            }
        }
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), r["evaluations"].as_u64().unwrap_or(0).into());
    cov.insert("distinct_nontrivial".into(), r["distinct"].as_u64().unwrap_or(0).into());
    cov.insert("rule".into(), check.rule.into());
    cov.insert("samples".into(), if r["samples"].is_array() { r["samples"].clone() } else { json!([]) });
    cov.insert("sections".into(), r["sections"].clone());
    cov.insert("observed".into(), r["counts"].clone());
    if r["known"].as_object().map_or(false, |m| !m.is_empty()) {
        cov.insert("known_findings_met".into(), r["known"].clone());
    }
    if r["truncated"].as_array().map_or(false, |t| !t.is_empty()) {
        cov.insert("stopped_by_time_in".into(), r["truncated"].clone());
    }
    if !o.notes.is_empty() {
        cov.insert("notes".into(), json!(o.notes));
    }
    if let Some(e) = &error {
        cov.insert("error".into(), json!(e));
    }
    cov.extend(extra_cov);
    let ev = json!({
        "property": conf.id, "tier": conf.tier, "seed": conf.seed, "level": "exploration",
        "coverage": cov, "assumptions": check.assumptions, "violations": n,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::write(
        format!("{}/evidence/{}.json", conf.verif, conf.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    println!(
        "{}: {} executions, {} distinct non-trivial, {} violation(s), {:.1} s",
        conf.id, cov["evaluations"], cov["distinct_nontrivial"], n, t0.elapsed().as_secs_f64()
    );
    if status == 0 {
        if let Some(e) = error {
            eprintln!("ERROR: {e}");
            return 2;
        }
    }
    status
}
