//! Fork server, seeded search, minimiser, replay files and evidence.

use crate::rng::mix;
use crate::shared::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::Instant;

pub struct Check {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub step_limit: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const SIG_CAP: usize = 1 << 20;
const FOUND_MAX: usize = 8;

#[repr(C)]
struct Found {
    class_len: usize,
    class: [u8; CLASS_CAP],
    path_len: usize,
    path: [u8; 512],
    msg_len: usize,
    msg: [u8; 600],
}

#[repr(C)]
struct Stat {
    runs: AtomicU64,
    ok: AtomicU64,
    discarded: AtomicU64,
    nontrivial: AtomicU64,
    steps: AtomicU64,
    max_steps: AtomicU64,
    switches: AtomicU64,
    sim_ns: AtomicU64,
    known: AtomicU64,
    rechecked: AtomicU64,
    mismatches: AtomicU64,
    multi: AtomicU64,
    nsigs: AtomicU64,
    shrink_runs: AtomicU64,
    nfound: AtomicU32,
    harness_errors: AtomicU32,
    found: [Found; FOUND_MAX],
    sigs: [u64; SIG_CAP],
    sched: [u64; SIG_CAP],
    sample_len: usize,
    sample: [u8; 1 << 16],
}

fn map_shared<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

#[derive(Clone)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub sig: u64,
    pub sched_sig: u64,
    pub loghash: u64,
    pub steps: u64,
}

static PER_RUN_CPU_S: AtomicU64 = AtomicU64::new(90);

/// Fork one run. The tapes must be set up (replay flag, data) before.
fn fork_run(c: &Check, seed: u64) -> Outcome {
    let s = sh();
    s.reset_run();
    if s.replay == 0 {
        for t in s.tapes.iter_mut() {
            t.len = 0;
        }
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("dsim: fork failed");
        std::process::exit(2);
    }
    if pid == 0 {
        child(c, seed);
    }
    let mut st = 0;
    unsafe {
        let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        if fd >= 0 {
            let mut p = libc::pollfd {
                fd,
                events: libc::POLLIN,
                revents: 0,
            };
            let r = libc::poll(&mut p, 1, 240_000);
            if r == 0 {
                libc::kill(pid, libc::SIGKILL);
                s.class_len = 0;
                s.status = 99;
            }
            libc::close(fd);
        }
        libc::waitpid(pid, &mut st, 0);
    }
    let (status, class, msg) = if s.status == 99 {
        (
            ST_VIOLATION,
            "stuck".to_string(),
            "the run blocked outside the simulator's control".to_string(),
        )
    } else if libc::WIFSIGNALED(st) {
        let sg = libc::WTERMSIG(st);
        let name = match sg {
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGBUS => "SIGBUS",
            libc::SIGABRT => "SIGABRT",
            libc::SIGILL => "SIGILL",
            libc::SIGFPE => "SIGFPE",
            libc::SIGTRAP => "SIGTRAP",
            libc::SIGXCPU => "SIGXCPU",
            libc::SIGKILL => "SIGKILL",
            _ => "signal",
        };
        if s.oom_open == 1 && s.status == ST_RUNNING && (sg == libc::SIGILL || sg == libc::SIGABRT) {
            // an allocation failure where nothing may unwind ends the process, as it
            // does by default everywhere: nothing is left to be judged
            (ST_DISCARD, "oom-abort".to_string(), String::new())
        } else if sg == libc::SIGKILL {
            (9, "killed".to_string(), "the run was killed from outside".to_string())
        } else {
            (
                ST_VIOLATION,
                format!("crash/{}", name),
                format!(
                    "the process died with {} (last panic: {})",
                    name,
                    s.msg_str()
                ),
            )
        }
    } else if s.status == ST_RUNNING {
        (
            9,
            "harness-exit".to_string(),
            format!("run ended with exit status {}", libc::WEXITSTATUS(st)),
        )
    } else {
        (s.status, s.class_str(), s.msg_str())
    };
    Outcome {
        status,
        class,
        msg,
        sig: s.sig,
        sched_sig: s.sched_sig,
        loghash: s.loghash,
        steps: s.steps,
    }
}

fn child(c: &Check, seed: u64) -> ! {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: PER_RUN_CPU_S.load(Relaxed),
            rlim_max: PER_RUN_CPU_S.load(Relaxed) + 5,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    crate::tape::seed_streams(seed);
    let place = crate::tape::draw(crate::tape::ENV, 1 << 32);
    crate::alloc::enable(place);
    crate::sched::start(crate::sched::Params {
        step_limit: c.step_limit,
    });
    let r = crate::catch(|| (c.run)());
    if r.is_err() {
        crate::violation_args(
            "unexpected-panic",
            format_args!("{}", crate::last_panic()),
        );
    }
    crate::sched::stop();
    match crate::alloc::check_all() {
        Ok(_) => {}
        Err(e) => {
            crate::alloc::disable();
            crate::violation("memory-error", e)
        }
    }
    let s = sh();
    s.status = ST_OK;
    unsafe { libc::_exit(0) }
}

fn load_tapes(t: &[Vec<u64>]) {
    let s = sh();
    s.replay = 1;
    for i in 0..STREAMS {
        let n = t[i].len().min(TAPE_CAP);
        s.tapes[i].data[..n].copy_from_slice(&t[i][..n]);
        s.tapes[i].len = n;
    }
}

fn run_tapes(c: &Check, t: &[Vec<u64>]) -> Outcome {
    load_tapes(t);
    let o = fork_run(c, 0);
    sh().replay = 0;
    o
}

fn size(t: &[Vec<u64>]) -> (usize, u128) {
    (
        t.iter().map(|x| x.len()).sum(),
        t.iter()
            .flatten()
            .map(|v| 64 - v.leading_zeros() as u128)
            .sum(),
    )
}

/// Minimise the tapes while the same violation class persists.
fn shrink(c: &Check, class: &str, mut t: Vec<Vec<u64>>, stat: &Stat, budget_s: f64) -> Vec<Vec<u64>> {
    let start = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let attempt = |cand: &Vec<Vec<u64>>| -> bool {
        tries.set(tries.get() + 1);
        stat.shrink_runs.fetch_add(1, Relaxed);
        let o = run_tapes(c, cand);
        o.status == ST_VIOLATION && o.class == class
    };
    // drop unused tails first
    if !attempt(&t) {
        return t;
    }
    for i in 0..STREAMS {
        let used = sh().tapes[i].pos.min(t[i].len());
        t[i].truncate(used);
        while t[i].last() == Some(&0) {
            t[i].pop();
        }
    }
    let mut last = (usize::MAX, u128::MAX);
    let out_of_time = |s: &Instant| s.elapsed().as_secs_f64() > budget_s;
    while size(&t) < last && !out_of_time(&start) {
        last = size(&t);
        for &st in &[1usize, 2, 3, 0] {
            // whole stream to defaults
            if !t[st].is_empty() {
                let mut cnd = t.clone();
                cnd[st].clear();
                if attempt(&cnd) {
                    t = cnd;
                    continue;
                }
            }
            // truncate
            let mut cut = t[st].len() / 2;
            while cut > 0 && !out_of_time(&start) {
                let mut cnd = t.clone();
                let n = cnd[st].len();
                if n >= cut {
                    cnd[st].truncate(n - cut);
                    if attempt(&cnd) {
                        t = cnd;
                        continue;
                    }
                }
                cut /= 2;
            }
            // delete chunks, zero chunks
            for mode in 0..2 {
                let mut k = t[st].len().next_power_of_two().max(1);
                while k >= 1 && !out_of_time(&start) {
                    let mut pos = 0;
                    while pos < t[st].len() && !out_of_time(&start) {
                        let end = (pos + k).min(t[st].len());
                        let mut cnd = t.clone();
                        if mode == 0 {
                            cnd[st].drain(pos..end);
                        } else {
                            if cnd[st][pos..end].iter().all(|v| *v == 0) {
                                pos = end;
                                continue;
                            }
                            cnd[st][pos..end].iter_mut().for_each(|v| *v = 0);
                        }
                        if attempt(&cnd) {
                            t = cnd;
                            if mode == 1 {
                                pos = end;
                            }
                        } else {
                            pos = end;
                        }
                    }
                    k /= 2;
                }
            }
            // lower values
            let mut pos = 0;
            while pos < t[st].len() && !out_of_time(&start) {
                for _ in 0..12 {
                    let v = t[st][pos];
                    if v == 0 {
                        break;
                    }
                    let mut done = true;
                    for nv in [v >> 16, v >> 4, v / 2, v - 1] {
                        if nv >= v {
                            continue;
                        }
                        let mut cnd = t.clone();
                        cnd[st][pos] = nv;
                        if attempt(&cnd) {
                            t = cnd;
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
                pos += 1;
            }
        }
        if tries.get() > 6000 {
            break;
        }
    }
    for v in t.iter_mut() {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    t
}

const NAMES: [&str; STREAMS] = ["work", "sched", "fault", "env"];

fn write_replay(path: &str, c: &Check, o: &Outcome, seed: u64, t: &[Vec<u64>], log: &str, full: usize) {
    let mut s = String::new();
    let _ = writeln!(s, "dsim-replay 1");
    let _ = writeln!(s, "property {}", c.id);
    let _ = writeln!(s, "class {}", o.class);
    let _ = writeln!(s, "message {}", o.msg.replace('\n', " "));
    let _ = writeln!(s, "seed {}", seed);
    let _ = writeln!(s, "original-choices {}", full);
    for i in 0..STREAMS {
        let v: Vec<String> = t[i].iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "tape {} {}", NAMES[i], v.join(" "));
    }
    let _ = writeln!(s, "--- event log of the minimised run");
    s.push_str(log);
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(path, s).is_err() {
        eprintln!("dsim: cannot write {}", path);
    }
}

pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub seed: u64,
    pub tapes: Vec<Vec<u64>>,
}

pub fn read_replay(path: &str) -> Result<ReplayFile, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let mut r = ReplayFile {
        property: String::new(),
        class: String::new(),
        seed: 0,
        tapes: vec![vec![]; STREAMS],
    };
    for l in s.lines() {
        if l.starts_with("---") {
            break;
        }
        if let Some(x) = l.strip_prefix("property ") {
            r.property = x.trim().into()
        } else if let Some(x) = l.strip_prefix("class ") {
            r.class = x.trim().into()
        } else if let Some(x) = l.strip_prefix("seed ") {
            r.seed = x.trim().parse().unwrap_or(0)
        } else if let Some(x) = l.strip_prefix("tape ") {
            let mut it = x.split_whitespace();
            let name = it.next().unwrap_or("");
            if let Some(i) = NAMES.iter().position(|n| *n == name) {
                r.tapes[i] = it.filter_map(|v| v.parse().ok()).collect();
            }
        }
    }
    Ok(r)
}

struct Known {
    property: String,
    class: String,
    replay: String,
    text: String,
}

fn read_known(root: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) else {
        return out;
    };
    for l in s.lines() {
        // known: property=<id> class=<class> replay=<file> <text>
        let Some(l) = l.strip_prefix("known: ") else {
            continue;
        };
        let mut k = Known {
            property: String::new(),
            class: String::new(),
            replay: String::new(),
            text: String::new(),
        };
        for w in l.split_whitespace() {
            if k.text.is_empty() {
                if let Some(x) = w.strip_prefix("property=") {
                    k.property = x.into();
                    continue;
                }
                if let Some(x) = w.strip_prefix("class=") {
                    k.class = x.into();
                    continue;
                }
                if let Some(x) = w.strip_prefix("replay=") {
                    k.replay = x.into();
                    continue;
                }
            }
            if !k.text.is_empty() {
                k.text.push(' ');
            }
            k.text.push_str(w);
        }
        out.push(k);
    }
    out
}

fn put(dst: &mut [u8], len: &mut usize, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len());
    dst[..n].copy_from_slice(&b[..n]);
    *len = n;
}

pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    for v in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] {
        std::env::remove_var(v);
    }
    crate::alloc::reserve();
    crate::install_panic_hook();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    match cmd {
        "list" => {
            for c in checks {
                println!("{}", c.id);
            }
        }
        "check" => {
            let c = find(checks, args.get(2));
            std::process::exit(run_check(c, &root));
        }
        "replay" => {
            let f = args.get(2).cloned().unwrap_or_default();
            std::process::exit(replay(checks, &f));
        }
        "seed" => {
            // run one seed with its log
            let c = find(checks, args.get(2));
            let seed: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            set_shared(alloc_shared());
            sh().log_on = 1;
            let o = fork_run(c, seed);
            print!("{}", sh().log_str());
            println!(
                "status {} class {} msg {} steps {} sig {:x} sched {:x} log {:x}",
                o.status, o.class, o.msg, o.steps, o.sig, o.sched_sig, o.loghash
            );
        }
        "trace" => {
            // event-log hashes of many seeds, for determinism diffs across processes
            let c = find(checks, args.get(2));
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(100);
            let base: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            set_shared(alloc_shared());
            for i in 0..n {
                sh().log_on = 1;
                let seed = run_seed(base, c.id, i);
                let o = fork_run(c, seed);
                println!(
                    "{} {} {} {:x} {:x} {:x} {}",
                    i, o.status, o.class, o.sig, o.sched_sig, o.loghash, o.steps
                );
            }
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | seed ID N | trace ID N [BASE] | list");
            std::process::exit(2);
        }
    }
}

fn find<'a>(checks: &'a [Check], id: Option<&String>) -> &'a Check {
    let id = id.map(|s| s.as_str()).unwrap_or("");
    match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("dsim: no check {}", id);
            std::process::exit(2);
        }
    }
}

fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(mix(base, crate::rng::fnv(id.as_bytes())), i)
}

fn replay(checks: &[Check], f: &str) -> i32 {
    let r = match read_replay(f) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("dsim: {}", e);
            return 2;
        }
    };
    let c = find(checks, Some(&r.property));
    set_shared(alloc_shared());
    sh().log_on = 1;
    let o = run_tapes(c, &r.tapes);
    print!("{}", sh().log_str());
    if o.status == ST_VIOLATION {
        println!("class {}: {}", o.class, o.msg);
        println!("VIOLATION property={} replay={}", c.id, f);
        if o.class != r.class {
            println!("note: the file records class {}", r.class);
        }
        1
    } else {
        println!("no violation (status {})", o.status);
        0
    }
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}

fn run_check(c: &Check, root: &str) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED").unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let n = env_u64("DSIM_RUNS").unwrap_or(if tier == "thorough" { c.thorough } else { c.quick });
    let cap_s = env_u64("DSIM_CAP_S").unwrap_or(if tier == "thorough" { 3000 } else { 240 }) as f64;
    let workers = env_u64("DSIM_WORKERS").unwrap_or(8) as usize;
    println!(
        "dsim: property={} VERIF_SEED={} tier={} runs={} workers={}",
        c.id, base, tier, n, workers
    );
    let known = read_known(root);
    let mut known_reported: HashSet<String> = HashSet::new();
    let mut known_lines = 0;
    // Listed findings: replay each one; report it when it still fails as recorded.
    for k in known.iter().filter(|k| k.property == c.id) {
        set_shared(alloc_shared());
        if let Ok(r) = read_replay(&format!("{}/{}", root, k.replay)) {
            let o = run_tapes(c, &r.tapes);
            if o.status == ST_VIOLATION && o.class == k.class {
                println!("KNOWN-FINDING: property={} {}", c.id, k.text);
                known_reported.insert(k.class.clone());
                known_lines += 1;
            }
        }
    }
    let stop = map_shared::<AtomicU32>();
    let mut stats: Vec<*mut Stat> = vec![];
    let mut shs: Vec<*mut Shared> = vec![];
    let mut pids = vec![];
    for w in 0..workers {
        let st = map_shared::<Stat>();
        let shd = alloc_shared();
        stats.push(st);
        shs.push(shd);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                // a worker and its runs share one core: baton hand-over is cheapest there
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let nc = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
                libc::CPU_SET(w % nc, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                if std::env::var("DSIM_STDERR").is_err() {
                    let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                    libc::dup2(fd, 2);
                }
            }
            set_shared(shd);
            worker(c, base, n, w, workers, cap_s, unsafe { &mut *st }, unsafe { &*stop }, &known, root, t0);
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut bad_worker = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            bad_worker += 1;
        }
    }
    // merge
    let mut tot = std::collections::BTreeMap::<String, u64>::new();
    let mut cov = vec![0u8; COV_CAP];
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let sum = |f: fn(&Stat) -> &AtomicU64| -> u64 {
        stats.iter().map(|s| f(unsafe { &**s }).load(Relaxed)).sum()
    };
    let most_steps = stats
        .iter()
        .map(|s| unsafe { &**s }.max_steps.load(Relaxed))
        .max()
        .unwrap_or(0);
    let mut samples: Vec<String> = vec![];
    let mut found: Vec<(String, String, String)> = vec![];
    let mut herr = 0;
    for (i, st) in stats.iter().enumerate() {
        let st = unsafe { &**st };
        let s = unsafe { &*shs[i] };
        for cn in s.counters.iter() {
            if cn.name_len == 0 {
                break;
            }
            *tot.entry(String::from_utf8_lossy(&cn.name[..cn.name_len]).into_owned())
                .or_default() += cn.value;
        }
        for (a, b) in cov.iter_mut().zip(s.cov.iter()) {
            *a |= *b;
        }
        let k = (st.nsigs.load(Relaxed) as usize).min(SIG_CAP);
        sigs.extend(&st.sigs[..k]);
        scheds.extend(&st.sched[..k]);
        if st.sample_len > 0 {
            samples.push(String::from_utf8_lossy(&st.sample[..st.sample_len]).into_owned());
        }
        for f in &st.found[..(st.nfound.load(Relaxed) as usize).min(FOUND_MAX)] {
            found.push((
                String::from_utf8_lossy(&f.class[..f.class_len]).into_owned(),
                String::from_utf8_lossy(&f.path[..f.path_len]).into_owned(),
                String::from_utf8_lossy(&f.msg[..f.msg_len]).into_owned(),
            ));
        }
        herr += st.harness_errors.load(Relaxed);
    }
    let runs = sum(|s| &s.runs);
    let wall = t0.elapsed().as_secs_f64();
    let edges = cov.iter().filter(|b| **b != 0).count();
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n",
        js(c.id),
        js(tier),
        base,
        js(c.level)
    );
    let _ = writeln!(e, "  \"evaluations\": {},", runs);
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", sigs.len());
    let _ = writeln!(e, "  \"rule\": {},", js(c.rule));
    let smp: Vec<String> = samples.iter().take(3).map(|s| js(s)).collect();
    let _ = writeln!(e, "  \"samples\": [{}],", smp.join(", "));
    let _ = writeln!(e, "  \"simulated_runs\": {},", runs);
    let _ = writeln!(e, "  \"runs_discarded\": {},", sum(|s| &s.discarded));
    let _ = writeln!(
        e,
        "  \"seeds_per_hour\": {},",
        (runs as f64 / wall.max(0.001) * 3600.0) as u64
    );
    let _ = writeln!(e, "  \"nontrivial_runs\": {},", sum(|s| &s.nontrivial));
    let _ = writeln!(
        e,
        "  \"distinct_schedules\": {}, \"multi_threaded_runs\": {}, \"thread_switches\": {},",
        if sum(|s| &s.multi) > 0 { scheds.len() } else { 0 },
        sum(|s| &s.multi),
        sum(|s| &s.switches)
    );
    let _ = writeln!(
        e,
        "  \"simulated_steps\": {}, \"most_steps_in_one_run\": {}, \"step_budget\": {},",
        sum(|s| &s.steps),
        most_steps,
        c.step_limit
    );
    let _ = writeln!(
        e,
        "  \"simulated_time_s\": {:.6},",
        sum(|s| &s.sim_ns) as f64 / 1e9
    );
    let _ = writeln!(
        e,
        "  \"instrumented_edges_reached\": {}, \"instrumented_edges_total\": {},",
        edges,
        crate::sched::guards()
    );
    let part = |p: &str| -> String {
        let v: Vec<String> = tot
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| format!("{}: {}", js(&k[p.len()..]), v))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let _ = writeln!(e, "  \"faults_injected\": {},", part("fault."));
    let _ = writeln!(e, "  \"operations\": {},", part("op."));
    let _ = writeln!(e, "  \"counts\": {},", part(&format!("{}.", c.id.to_lowercase())));
    let _ = writeln!(e, "  \"runs\": {},", part("run."));
    let _ = writeln!(e, "  \"probes\": {},", part("probe."));
    let _ = writeln!(e, "  \"seams\": {},", part("seam."));
    let _ = writeln!(
        e,
        "  \"determinism_rechecks\": {}, \"determinism_mismatches\": {},",
        sum(|s| &s.rechecked),
        sum(|s| &s.mismatches)
    );
    let _ = writeln!(
        e,
        "  \"known_finding_hits\": {}, \"minimisation_runs\": {},",
        sum(|s| &s.known),
        sum(|s| &s.shrink_runs)
    );
    let _ = writeln!(
        e,
        "  \"ran_real_code\": {}, \"ran_stubs\": {}",
        js(c.real),
        js(c.stubs)
    );
    let ass: Vec<String> = c.assumptions.iter().map(|a| js(a)).collect();
    let _ = write!(
        e,
        " }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        ass.join(", "),
        wall,
        found.len()
    );
    let ep = format!("{}/evidence/{}.json", root, c.id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if std::fs::write(&ep, e).is_err() {
        eprintln!("dsim: cannot write {}", ep);
        return 2;
    }
    println!(
        "dsim: {} runs in {:.1}s ({:.0}/s), {} distinct, {} edges, faults {}, determinism {}/{} mismatches",
        runs,
        wall,
        runs as f64 / wall,
        sigs.len(),
        edges,
        part("fault."),
        sum(|s| &s.mismatches),
        sum(|s| &s.rechecked)
    );
    let mut seen = HashSet::new();
    let mut rc = 0;
    found.sort();
    for (class, path, msg) in &found {
        if seen.insert(class.clone()) {
            println!("dsim: {}: {}", class, msg);
            println!("VIOLATION property={} replay={}", c.id, path);
            rc = 1;
        }
    }
    let _ = known_lines;
    if rc == 0 && (herr > 0 || bad_worker > 0) {
        eprintln!("dsim: {} harness errors, {} failed workers", herr, bad_worker);
        return 2;
    }
    if rc == 0 && runs == 0 {
        return 2;
    }
    rc
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn worker(
    c: &Check,
    base: u64,
    n: u64,
    w: usize,
    workers: usize,
    cap_s: f64,
    st: &mut Stat,
    stop: &AtomicU32,
    known: &[Known],
    root: &str,
    t0: Instant,
) {
    let mut local_sigs: HashSet<u64> = HashSet::new();
    let mut i = w as u64;
    let mut sampled = 0;
    while i < n {
        if stop.load(Relaxed) != 0 || t0.elapsed().as_secs_f64() > cap_s {
            break;
        }
        let seed = run_seed(base, c.id, i);
        let recheck = (i / workers as u64) < 4 || i % 997 == 0;
        let sample = sampled < 1 && w < 3 && i / workers as u64 >= 2;
        sh().log_on = (recheck || sample) as u32;
        let o = fork_run(c, seed);
        i += workers as u64;
        st.runs.fetch_add(1, Relaxed);
        match o.status {
            ST_OK => {
                let s = sh();
                st.ok.fetch_add(1, Relaxed);
                st.steps.fetch_add(s.steps, Relaxed);
                st.max_steps.fetch_max(s.steps, Relaxed);
                st.switches.fetch_add(s.switches, Relaxed);
                st.sim_ns.fetch_add(s.sim_ns, Relaxed);
                if s.switches > 0 {
                    st.multi.fetch_add(1, Relaxed);
                }
                if s.nontrivial != 0 {
                    st.nontrivial.fetch_add(1, Relaxed);
                    let k = st.nsigs.load(Relaxed) as usize;
                    if k < SIG_CAP && local_sigs.insert(mix(s.sig, s.sched_sig)) {
                        st.sigs[k] = mix(s.sig, s.sched_sig);
                        st.sched[k] = s.sched_sig;
                        st.nsigs.store(k as u64 + 1, Relaxed);
                    }
                    if sample {
                        let mut text = format!("seed {}: ", seed);
                        text.push_str(&s.log_str());
                        let mut cut = text.len().min(3000);
                        while !text.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        put(&mut st.sample, &mut st.sample_len, &text[..cut]);
                        sampled += 1;
                    }
                }
                if recheck {
                    let t = s.tape_vecs();
                    let o2 = fork_run(c, seed);
                    st.rechecked.fetch_add(1, Relaxed);
                    if o2.loghash != o.loghash
                        || o2.sig != o.sig
                        || o2.sched_sig != o.sched_sig
                        || o2.steps != o.steps
                        || sh().tape_vecs() != t
                    {
                        st.mismatches.fetch_add(1, Relaxed);
                    }
                }
            }
            ST_DISCARD => {
                st.discarded.fetch_add(1, Relaxed);
            }
            ST_VIOLATION => {
                if known
                    .iter()
                    .any(|k| k.property == c.id && k.class == o.class)
                {
                    st.known.fetch_add(1, Relaxed);
                    continue;
                }
                let t = sh().tape_vecs();
                let full: usize = t.iter().map(|x| x.len()).sum();
                // the recorded tapes must reproduce the violation before it is believed
                let again = run_tapes(c, &t);
                let (t, verified) = if again.status == ST_VIOLATION && again.class == o.class {
                    (t, true)
                } else {
                    (t, false)
                };
                if !verified {
                    // maybe the tape overflowed; the seed itself must reproduce it
                    let o2 = fork_run(c, seed);
                    if o2.status != ST_VIOLATION || o2.class != o.class {
                        st.harness_errors.fetch_add(1, Relaxed);
                        continue;
                    }
                }
                // one worker minimises, the others stop searching
                let first = stop.fetch_add(1, Relaxed) == 0;
                let m = if verified && first {
                    shrink(c, &o.class, t.clone(), st, 45.0)
                } else {
                    t.clone()
                };
                sh().log_on = 1;
                let of = run_tapes(c, &m);
                let log = sh().log_str();
                let path = format!(
                    "{}/replays/{}-{}-{:016x}.replay",
                    root,
                    c.id,
                    o.class
                        .chars()
                        .map(|ch| if ch.is_alphanumeric() { ch } else { '-' })
                        .collect::<String>(),
                    seed
                );
                let ofin = if of.status == ST_VIOLATION { of } else { o.clone() };
                write_replay(&path, c, &ofin, seed, &m, &log, full);
                let k = st.nfound.load(Relaxed) as usize;
                if k < FOUND_MAX {
                    let f = &mut st.found[k];
                    put(&mut f.class, &mut f.class_len, &o.class);
                    put(&mut f.path, &mut f.path_len, &path);
                    put(&mut f.msg, &mut f.msg_len, &ofin.msg);
                    st.nfound.store(k as u32 + 1, Relaxed);
                }
                break;
            }
            _ => {
                if o.class == "killed" {
                    // out of memory on the machine; not a verdict
                    st.discarded.fetch_add(1, Relaxed);
                } else {
                    st.harness_errors.fetch_add(1, Relaxed);
                    eprintln!("dsim: {} {}", o.class, o.msg);
                }
            }
        }
    }
}
