//! Runs seeds in worker processes, minimises failures, writes replay files
//! and evidence.
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const RUN_TIMEOUT_S: u32 = 150;

extern "C" {
    fn sched_getaffinity(pid: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, m: *const u64) -> i32;
}
fn allowed_cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    let r = unsafe { sched_getaffinity(0, std::mem::size_of_val(&m), m.as_mut_ptr()) };
    if r < 0 {
        return vec![0];
    }
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}
fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe { sched_setaffinity(0, std::mem::size_of_val(&m), m.as_ptr()) };
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x5eed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}
fn scenario_of(p: &Prop, idx: u64) -> usize {
    let total: u64 = p.scenarios.iter().map(|s| s.weight as u64).sum();
    let mut r = idx % total;
    for (i, s) in p.scenarios.iter().enumerate() {
        if r < s.weight as u64 {
            return i;
        }
        r -= s.weight as u64;
    }
    unreachable!()
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok,
    Overflow,
    Violation { class: String, msg: String },
    Harness(String),
}

struct Runner {
    sh: *mut Shared,
}
impl Runner {
    fn new() -> Self {
        let sh = unsafe { rt_map_shared() };
        assert!(!sh.is_null(), "mmap failed");
        Self { sh }
    }
    fn sh(&self) -> &Shared {
        unsafe { &*self.sh }
    }
    fn choices(&self) -> Vec<u32> {
        let s = self.sh();
        s.choices[..s.nchoices as usize].to_vec()
    }
    fn run(&self, f: fn(), seed: u64, seq: Option<&[u32]>, vfd: i32) -> Outcome {
        set_current(f);
        let (p, n) = seq.map_or((std::ptr::null(), 0), |s| (s.as_ptr(), s.len() as u32));
        let st = unsafe { rt_fork_run(self.sh, seed, p, n, seq.is_some() as i32, vfd, RUN_TIMEOUT_S, root) };
        let s = self.sh();
        if st < 0 {
            return Outcome::Harness("fork failed".into());
        }
        if s.status == 2 {
            return Outcome::Violation { class: cstr(&s.cls), msg: cstr(&s.msg) };
        }
        let sig = st & 0x7f;
        let code = st >> 8 & 0xff;
        if sig != 0 {
            let pm = cstr(&s.panic_msg);
            let note = if pm.is_empty() { String::new() } else { format!("; last panic: {pm}") };
            return match sig {
                14 | 27 => Outcome::Violation {
                    class: "hang".into(),
                    msg: format!("the run made no progress until its watchdog (signal {sig}) fired{note}"),
                },
                9 => Outcome::Harness("run was killed by SIGKILL (memory?)".into()),
                _ => Outcome::Violation {
                    class: "crash".into(),
                    msg: format!("the process was killed by signal {sig}{note}"),
                },
            };
        }
        match (s.status, code) {
            (1, _) => Outcome::Ok,
            (3, _) => Outcome::Overflow,
            (_, 98) => Outcome::Harness("could not start the run".into()),
            _ => Outcome::Violation { class: "exit".into(), msg: format!("the process exited by itself with code {code}") },
        }
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    overflows: u64,
    nontrivial: u64,
    points: u64,
    atomics: u64,
    switches: u64,
    fine: u64,
    simtime: u128,
    events: u64,
    nchoices: u64,
    max_threads: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    scheds: HashSet<u64>,
    hists: HashSet<u64>,
    samples: Vec<String>,
}
impl Agg {
    fn add(&mut self, p: &Prop, idx: u64, s: &Shared) {
        self.runs += 1;
        self.points += s.points;
        self.atomics += s.atomics;
        self.switches += s.switches;
        self.fine += s.fine_preempts;
        self.simtime += s.simtime as u128;
        self.events += s.nevents;
        self.nchoices += s.nchoices as u64;
        self.max_threads = self.max_threads.max(s.nthreads as u64 + (s.nthreads == 0) as u64);
        *self.per_scenario.entry(p.scenarios[scenario_of(p, idx)].name.to_string()).or_default() += 1;
        for c in s.cnt.iter().take_while(|c| c.name[0] != 0) {
            let m = if c.kind == 0 { &mut self.faults } else { &mut self.probes };
            *m.entry(cstr(&c.name)).or_default() += c.n;
        }
        if s.nontrivial != 0 {
            self.nontrivial += 1;
            if self.hashes.len() < 4_000_000 {
                self.hashes.insert(s.hash);
            }
        }
        if self.scheds.len() < 4_000_000 {
            self.scheds.insert(s.sched_hash);
        }
        if self.hists.len() < 4_000_000 {
            self.hists.insert(s.event_hash);
        }
        let sum = cstr(&s.summary);
        if self.samples.len() < 3 && s.nontrivial != 0 && !sum.is_empty() {
            self.samples.push(format!(
                "run {idx} ({}): {} choices, {} events, {} switches, {:.3} ms simulated: {sum}",
                p.scenarios[scenario_of(p, idx)].name,
                s.nchoices,
                s.nevents,
                s.switches,
                s.simtime as f64 / 1e6
            ));
        }
    }
    fn write(&self, path: &Path) -> std::io::Result<()> {
        let mut w = std::io::BufWriter::new(fs::File::create(path)?);
        writeln!(
            w,
            "T {} {} {} {} {} {} {} {} {} {} {}",
            self.runs,
            self.overflows,
            self.nontrivial,
            self.points,
            self.atomics,
            self.switches,
            self.fine,
            self.simtime,
            self.events,
            self.nchoices,
            self.max_threads
        )?;
        for (k, n) in &self.faults {
            writeln!(w, "F {n} {k}")?;
        }
        for (k, n) in &self.probes {
            writeln!(w, "P {n} {k}")?;
        }
        for (k, n) in &self.per_scenario {
            writeln!(w, "S {n} {k}")?;
        }
        for s in &self.samples {
            writeln!(w, "X {}", s.replace('\n', " "))?;
        }
        for (tag, set) in [("h", &self.hashes), ("s", &self.scheds), ("e", &self.hists)] {
            for h in set {
                writeln!(w, "{tag} {h:x}")?;
            }
        }
        w.flush()
    }
    fn read(&mut self, text: &str) {
        for l in text.lines() {
            let Some((tag, rest)) = l.split_once(' ') else { continue };
            match tag {
                "T" => {
                    let v: Vec<u128> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    if v.len() == 11 {
                        self.runs += v[0] as u64;
                        self.overflows += v[1] as u64;
                        self.nontrivial += v[2] as u64;
                        self.points += v[3] as u64;
                        self.atomics += v[4] as u64;
                        self.switches += v[5] as u64;
                        self.fine += v[6] as u64;
                        self.simtime += v[7];
                        self.events += v[8] as u64;
                        self.nchoices += v[9] as u64;
                        self.max_threads = self.max_threads.max(v[10] as _);
                    }
                }
                "F" | "P" | "S" => {
                    if let Some((n, k)) = rest.split_once(' ') {
                        let m = match tag {
                            "F" => &mut self.faults,
                            "P" => &mut self.probes,
                            _ => &mut self.per_scenario,
                        };
                        *m.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "X" => {
                    if self.samples.len() < 8 {
                        self.samples.push(rest.to_string());
                    }
                }
                "h" | "s" | "e" => {
                    if let Ok(h) = u64::from_str_radix(rest, 16) {
                        match tag {
                            "h" => self.hashes.insert(h),
                            "s" => self.scheds.insert(h),
                            _ => self.hists.insert(h),
                        };
                    }
                }
                _ => {}
            }
        }
    }
}

struct Viol {
    idx: u64,
    scenario: usize,
    seed: u64,
    class: String,
    msg: String,
    choices: Vec<u32>,
}
impl Viol {
    fn write(&self, path: &Path) -> std::io::Result<()> {
        let c: Vec<String> = self.choices.iter().map(|x| x.to_string()).collect();
        fs::write(
            path,
            format!(
                "{}\n{}\n{}\n{}\n{}\n{}\n",
                self.idx,
                self.scenario,
                self.seed,
                self.class,
                self.msg.replace('\\', "\\\\").replace('\n', "\\n"),
                c.join(" ")
            ),
        )
    }
    fn read(path: &Path) -> Option<Self> {
        let t = fs::read_to_string(path).ok()?;
        let l: Vec<&str> = t.lines().collect();
        if l.len() < 5 {
            return None;
        }
        Some(Self {
            idx: l[0].parse().ok()?,
            scenario: l[1].parse().ok()?,
            seed: l[2].parse().ok()?,
            class: l[3].to_string(),
            msg: l[4].replace("\\n", "\n").replace("\\\\", "\\"),
            choices: l.get(5).unwrap_or(&"").split_whitespace().filter_map(|x| x.parse().ok()).collect(),
        })
    }
}

fn find(props: &'static [Prop], id: &str) -> &'static Prop {
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property here: {id}");
        std::process::exit(2)
    });
    set_active(p.id);
    p
}

// worker PROP SEED START STRIDE END DEADLINE_MS OUT CPU
fn worker(props: &'static [Prop], a: &[String]) -> i32 {
    let p = find(props, &a[0]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, start, stride, end, deadline) = (n(1), n(2), n(3), n(4), n(5));
    let out = PathBuf::from(&a[6]);
    pin(n(7) as usize);
    let t0 = Instant::now();
    let r = Runner::new();
    let mut agg = Agg::default();
    let mut code = 0;
    let mut idx = start;
    let mut harness_errors = 0;
    while idx < end {
        if t0.elapsed() >= Duration::from_millis(deadline) {
            break;
        }
        let sc = scenario_of(p, idx);
        let rs = run_seed(seed, p.id, idx);
        match r.run(p.scenarios[sc].run, rs, None, -1) {
            Outcome::Ok => agg.add(p, idx, r.sh()),
            Outcome::Overflow => agg.overflows += 1,
            Outcome::Harness(e) => {
                eprintln!("harness error in run {idx}: {e}");
                harness_errors += 1;
                if harness_errors > 3 {
                    code = 2;
                    break;
                }
            }
            Outcome::Violation { class, msg } => {
                agg.add(p, idx, r.sh());
                let v = Viol { idx, scenario: sc, seed: rs, class, msg, choices: r.choices() };
                v.write(&out.with_extension("viol")).expect("write violation");
                code = 3;
                break;
            }
        }
        idx += stride;
    }
    agg.write(&out).expect("write results");
    code
}

// hashes PROP SEED OUT IDX..   (for the determinism test)
fn hashes(props: &'static [Prop], a: &[String]) -> i32 {
    let p = find(props, &a[0]);
    let seed: u64 = a[1].parse().expect("seed");
    let r = Runner::new();
    let mut o = String::new();
    for i in &a[3..] {
        let idx: u64 = i.parse().expect("idx");
        let oc = r.run(p.scenarios[scenario_of(p, idx)].run, run_seed(seed, p.id, idx), None, -1);
        let s = r.sh();
        o.push_str(&format!(
            "{idx} {:?} {:x} {:x} {:x} {} {} {}\n",
            oc, s.hash, s.sched_hash, s.event_hash, s.nchoices, s.points, s.simtime
        ));
    }
    fs::write(&a[2], o).expect("write");
    0
}

fn minimise(r: &Runner, f: fn(), start: Vec<u32>, class: &str, budget: Duration, max_execs: u64) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut execs = 0;
    let mut best = start;
    let try_seq = |seq: &[u32], execs: &mut u64| -> Option<Vec<u32>> {
        if *execs >= max_execs || t0.elapsed() > budget {
            return None;
        }
        *execs += 1;
        match r.run(f, 0, Some(seq), -1) {
            Outcome::Violation { class: c, .. } if c == class => {
                let mut got = r.choices();
                while got.last() == Some(&0) {
                    got.pop();
                }
                Some(got)
            }
            _ => None,
        }
    };
    let better = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    if let Some(b) = try_seq(&best, &mut execs) {
        best = b;
    }
    loop {
        let before = best.clone();
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            if cut < best.len() {
                if let Some(b) = try_seq(&best[..best.len() - cut], &mut execs) {
                    if better(&b, &best) {
                        best = b;
                        continue;
                    }
                }
            }
            cut /= 2;
        }
        // delete chunks, then zero chunks
        for zero in [false, true] {
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() {
                    let e = (i + size).min(best.len());
                    let mut c = best.clone();
                    if zero {
                        if c[i..e].iter().all(|&x| x == 0) {
                            i = e;
                            continue;
                        }
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                    } else {
                        c.drain(i..e);
                    }
                    match try_seq(&c, &mut execs) {
                        Some(b) if better(&b, &best) => best = b,
                        _ => i = e,
                    }
                    if execs >= max_execs || t0.elapsed() > budget {
                        return (best, execs);
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // shrink values
        let mut i = 0;
        while i < best.len() {
            for v in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(b) = try_seq(&c, &mut execs) {
                        if better(&b, &best) {
                            best = b;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || execs >= max_execs || t0.elapsed() > budget {
            return (best, execs);
        }
    }
}

fn traced(r: &Runner, f: fn(), seq: &[u32], dir: &Path) -> (Outcome, Vec<String>) {
    use std::os::unix::io::AsRawFd;
    let path = dir.join(format!("trace.{}", std::process::id()));
    let file = fs::File::create(&path).expect("trace file");
    let o = r.run(f, 0, Some(seq), file.as_raw_fd());
    drop(file);
    let text = String::from_utf8_lossy(&fs::read(&path).unwrap_or_default()).into_owned();
    let _ = fs::remove_file(&path);
    (o, text.lines().map(|s| s.to_string()).collect())
}

fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\"{key}\": ");
    let i = text.find(&k)? + k.len();
    let rest = &text[i..];
    if let Some(r) = rest.strip_prefix('"') {
        Some(&r[..r.find('"')?])
    } else if let Some(r) = rest.strip_prefix('[') {
        Some(&r[..r.find(']')?])
    } else {
        Some(rest[..rest.find(|c| c == ',' || c == '\n' || c == '}')?].trim())
    }
}

/// `replay FILE`: exit 1 and print the history if it fails the same way.
fn replay(props: &'static [Prop], a: &[String]) -> i32 {
    let text = fs::read_to_string(&a[0]).expect("replay file");
    let p = find(props, field(&text, "property").expect("property"));
    let name = field(&text, "scenario").expect("scenario");
    let class = field(&text, "class").expect("class");
    let s = p.scenarios.iter().find(|s| s.name == name).expect("scenario");
    let seq: Vec<u32> = field(&text, "choices")
        .expect("choices")
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    let r = Runner::new();
    let (o, trace) = traced(&r, s.run, &seq, &std::env::temp_dir());
    for l in &trace {
        println!("{l}");
    }
    println!("hash {:x}", r.sh().hash);
    match o {
        Outcome::Violation { class: c, msg } if c == class => {
            println!("reproduced: {c}: {msg}");
            println!("VIOLATION property={} replay={}", p.id, a[0]);
            1
        }
        o => {
            println!("not reproduced: {o:?}");
            0
        }
    }
}

fn check(props: &'static [Prop], a: &[String]) -> i32 {
    let p = find(props, &a[0]);
    let t0 = Instant::now();
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = env("VERIF_TIER").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let root_dir = PathBuf::from(env("VERIF_DIR").unwrap_or_else(|| "/verif".into()));
    let runs = env("SIM_RUNS")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough_runs } else { p.quick_runs });
    let secs: u64 = env("SIM_SECS").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 150 });
    let cpus = allowed_cpus();
    let n = env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(cpus.len().min(8)).max(1);
    let scratch = std::env::temp_dir().join(format!("dsim-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    let exe = std::env::current_exe().expect("exe");

    let mut kids = Vec::new();
    for w in 0..n {
        let out = scratch.join(format!("w{w}"));
        let k = Command::new(&exe)
            .arg("worker")
            .args([p.id, &seed.to_string(), &w.to_string(), &n.to_string(), &runs.to_string()])
            .arg((secs * 1000).to_string())
            .arg(&out)
            .arg(cpus[w % cpus.len()].to_string())
            .env("TMPDIR", &scratch)
            .stdin(Stdio::null())
            .spawn()
            .expect("worker");
        kids.push((k, out, None::<i32>));
    }
    let mut found = false;
    let mut harness = false;
    let limit = Instant::now() + Duration::from_secs(secs + 2 * RUN_TIMEOUT_S as u64);
    loop {
        let mut left = 0;
        for (k, _, st) in kids.iter_mut() {
            if st.is_none() {
                match k.try_wait().expect("wait") {
                    Some(s) => {
                        let c = s.code().unwrap_or(2);
                        *st = Some(c);
                        found |= c == 3;
                        harness |= c != 0 && c != 3;
                    }
                    None => left += 1,
                }
            }
        }
        if left == 0 {
            break;
        }
        if found || Instant::now() > limit {
            std::thread::sleep(Duration::from_millis(100));
            for (k, _, st) in kids.iter_mut() {
                if st.is_none() && k.try_wait().expect("wait").is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                    *st = Some(-1);
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut agg = Agg::default();
    for (_, out, _) in &kids {
        if let Ok(t) = fs::read_to_string(out) {
            agg.read(&t);
        }
    }
    let mut viols: Vec<Viol> = kids.iter().filter_map(|(_, o, _)| Viol::read(&o.with_extension("viol"))).collect();
    viols.sort_by_key(|v| v.idx);

    let r = Runner::new();
    let mut code = 0;
    let mut nviol = 0;
    let mut det = (0u64, 0u64);
    let mut reported = None;
    for v in &viols {
        let f = p.scenarios[v.scenario].run;
        // Replaying the choices must fail in the same way here.
        let mut same = false;
        for _ in 0..3 {
            if matches!(r.run(f, 0, Some(&v.choices), -1), Outcome::Violation { class, .. } if class == v.class) {
                same = true;
                break;
            }
        }
        if !same && v.class == "hang" {
            eprintln!("run {} hit its watchdog once but not when repeated; ignored", v.idx);
            continue;
        }
        nviol += 1;
        let (seq, execs) = if same {
            minimise(&r, f, v.choices.clone(), &v.class, Duration::from_secs(if v.class == "hang" { 120 } else { 45 }), 4000)
        } else {
            (v.choices.clone(), 0)
        };
        let (o, trace) = traced(&r, f, &seq, &scratch);
        let msg = match o {
            Outcome::Violation { class, msg } if class == v.class => msg,
            _ => v.msg.clone(),
        };
        let dir = root_dir.join("replays");
        fs::create_dir_all(&dir).expect("replays");
        let path = dir.join(format!("{}-seed{}-run{}.json", p.id, seed, v.idx));
        let keep = 600usize;
        let skip = trace.len().saturating_sub(keep);
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
        j.push_str(&format!(" \"scenario\": {},\n", json_str(p.scenarios[v.scenario].name)));
        j.push_str(&format!(" \"class\": {},\n", json_str(&v.class)));
        j.push_str(&format!(" \"verif_seed\": {seed},\n \"run_index\": {},\n \"run_seed\": {},\n", v.idx, v.seed));
        j.push_str(&format!(" \"reproducible\": {same},\n"));
        j.push_str(&format!(" \"choices_before_minimising\": {},\n \"minimiser_runs\": {execs},\n", v.choices.len()));
        j.push_str(&format!(
            " \"choices\": [{}],\n",
            seq.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(" \"message\": {},\n", json_str(&msg)));
        j.push_str(&format!(" \"original_message\": {},\n", json_str(&v.msg)));
        j.push_str(&format!(" \"trace_lines_left_out\": {skip},\n \"trace\": [\n"));
        for (i, l) in trace[skip..].iter().enumerate() {
            j.push_str(&format!("  {}{}\n", json_str(l), if skip + i + 1 < trace.len() { "," } else { "" }));
        }
        j.push_str(" ]\n}\n");
        fs::write(&path, j).expect("replay file");
        println!(
            "run {} of scenario {} (seed {seed}): {}: {msg}",
            v.idx, p.scenarios[v.scenario].name, v.class
        );
        println!("minimised from {} to {} choices in {execs} runs", v.choices.len(), seq.len());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        reported = Some(path);
        code = 1;
        break;
    }
    if code == 0 && harness {
        eprintln!("a worker failed");
        code = 2;
    }
    // Re-run a sample in another process, to see that one seed is one execution.
    if code == 0 {
        let idxs: Vec<u64> = (0..40).map(|i| i * runs.max(40) / 40).filter(|&i| i < runs).collect();
        let mut texts = Vec::new();
        for rep in 0..2 {
            let out = scratch.join(format!("h{rep}"));
            let ok = Command::new(&exe)
                .arg("hashes")
                .args([p.id, &seed.to_string()])
                .arg(&out)
                .args(idxs.iter().map(|i| i.to_string()))
                .env("TMPDIR", &scratch)
                .status();
            if ok.map_or(false, |s| s.success()) {
                texts.push(fs::read_to_string(&out).unwrap_or_default());
            }
        }
        if texts.len() == 2 {
            det.0 = texts[0].lines().count() as u64;
            det.1 = texts[0].lines().zip(texts[1].lines()).filter(|(a, b)| a != b).count() as u64;
            if det.1 > 0 {
                eprintln!("warning: {} of {} re-executed runs differed", det.1, det.0);
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let hours = search_s / 3600.0;
    let mapj = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "))
    };
    let listj = |l: &[&str]| format!("[{}]", l.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let samples = if agg.samples.is_empty() { vec!["(no non-trivial run)".to_string()] } else { agg.samples.clone() };
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour_each_with_its_own_seed\": {:.0},\n  \"simulated_seconds\": {:.6},\n  \"faults_injected\": {},\n  \"rare_conditions_reached\": {},\n  \"runs_per_scenario\": {},\n  \"distinct_schedules\": {},\n  \"distinct_histories\": {},\n  \"nontrivial_runs\": {},\n  \"scheduling_points\": {},\n  \"atomic_operations\": {},\n  \"context_switches\": {},\n  \"preemptions_at_atomics\": {},\n  \"workload_events\": {},\n  \"choices_drawn\": {},\n  \"most_threads_in_a_run\": {},\n  \"discarded_runs\": {},\n  \"determinism_runs_repeated\": {},\n  \"determinism_runs_differing\": {},\n  \"workers\": {n},\n  \"components_real\": {},\n  \"components_stubbed\": {},\n  \"violation_replay\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(&tier),
        agg.runs,
        agg.hashes.len(),
        json_str(p.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        agg.runs as f64 / hours,
        agg.simtime as f64 / 1e9,
        mapj(&agg.faults),
        mapj(&agg.probes),
        mapj(&agg.per_scenario),
        agg.scheds.len(),
        agg.hists.len(),
        agg.nontrivial,
        agg.points,
        agg.atomics,
        agg.switches,
        agg.fine,
        agg.events,
        agg.nchoices,
        agg.max_threads,
        agg.overflows,
        det.0,
        det.1,
        listj(p.real),
        listj(p.stubs),
        reported.as_ref().map_or("null".into(), |p| json_str(&p.display().to_string())),
        listj(p.assumptions),
        wall,
        nviol
    );
    let ev = root_dir.join("evidence");
    fs::create_dir_all(&ev).expect("evidence");
    fs::write(ev.join(format!("{}.json", p.id)), j).expect("evidence");
    let _ = fs::remove_dir_all(&scratch);
    if code == 0 {
        if agg.runs == 0 {
            eprintln!("no run finished");
            return 2;
        }
        println!(
            "{}: held in {} runs ({} non-trivial and distinct, {} schedules, {} histories) in {search_s:.1} s",
            p.id,
            agg.runs,
            agg.hashes.len(),
            agg.scheds.len(),
            agg.hists.len()
        );
    }
    code
}

/// `selftest [RUNS]`: every property's runs must be identical in two
/// processes that differ in worker count and environment.
fn selftest(props: &'static [Prop], a: &[String]) -> i32 {
    let n: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(300);
    let exe = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("dsim-self-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("dir");
    let mut bad = 0;
    for p in props {
        for seed in 1..=4u64 {
            let mut all: Vec<Vec<String>> = Vec::new();
            for (rep, parts) in [1u64, 5, 16].iter().enumerate() {
                let mut kids = Vec::new();
                for w in 0..*parts {
                    let out = dir.join(format!("{rep}.{w}"));
                    let idx: Vec<String> = (0..n).filter(|i| i % parts == w).map(|i| i.to_string()).collect();
                    let k = Command::new(&exe)
                        .arg("hashes")
                        .args([p.id, &seed.to_string()])
                        .arg(&out)
                        .args(&idx)
                        .env("DSIM_NOISE", "x".repeat(rep * 1000 + w as usize))
                        .spawn()
                        .expect("spawn");
                    kids.push((k, out));
                }
                let mut lines = Vec::new();
                for (mut k, out) in kids {
                    k.wait().expect("wait");
                    lines.extend(fs::read_to_string(out).unwrap_or_default().lines().map(|s| s.to_string()));
                }
                lines.sort();
                all.push(lines);
            }
            let diff: usize = (1..3).map(|k| all[0].iter().zip(&all[k]).filter(|(a, b)| a != b).count()).sum();
            let short = all.iter().any(|l| l.len() != n as usize);
            if diff > 0 || short {
                bad += 1;
            }
            println!("{} seed {seed}: {n} runs x 3 processes layouts, {diff} differ{}", p.id, if short { ", some missing" } else { "" });
            if diff > 0 {
                for (x, y) in all[0].iter().zip(&all[1]).filter(|(a, b)| a != b).take(3) {
                    println!("  {x}\n  {y}");
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    (bad > 0) as i32
}

pub fn main(props: &'static [Prop]) -> ! {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(props, &a[1..]),
        Some("worker") => worker(props, &a[1..]),
        Some("hashes") => hashes(props, &a[1..]),
        Some("replay") => replay(props, &a[1..]),
        Some("selftest") => selftest(props, &a[1..]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check PROP | replay FILE | selftest [RUNS] | list");
            2
        }
    };
    std::process::exit(code)
}
