use std::collections::BTreeSet;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

struct Global {
    id: String,
    thorough: bool,
    seed: u64,
    verif: String,
    start: Instant,
    known: Vec<(String, String)>,
}

static G: OnceLock<Global> = OnceLock::new();
static STATES: AtomicU64 = AtomicU64::new(0);
static TRANS: AtomicU64 = AtomicU64::new(0);
static TRACES: AtomicU64 = AtomicU64::new(0);
static EXHAUSTIVE: AtomicBool = AtomicBool::new(true);
static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static NOTES: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static ASSUME: Mutex<Vec<String>> = Mutex::new(Vec::new());
static KNOWN_SEEN: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static OVER: AtomicBool = AtomicBool::new(false);

fn g() -> &'static Global {
    G.get().expect("vlib::init not called")
}

/// Reads the command line (`<property> [quick|thorough]`) and the known findings.
pub fn init() -> String {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args
        .get(2)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut known = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in t.lines() {
            // finding: property=<id> key=<key> <what fails>
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut p = None;
                let mut k = None;
                let mut rest = vec![];
                for w in r.split_whitespace() {
                    if let (Some(x), None) = (w.strip_prefix("property="), &p) {
                        p = Some(x.to_string());
                    } else if let (Some(x), None) = (w.strip_prefix("key="), &k) {
                        k = Some(x.to_string());
                    } else {
                        rest.push(w);
                    }
                }
                if p.as_deref() == Some(id.as_str()) {
                    known.push((k.unwrap_or_default(), rest.join(" ")));
                }
            }
        }
    }
    let _ = G.set(Global {
        id: id.clone(),
        thorough: tier == "thorough",
        seed,
        verif,
        start: Instant::now(),
        known,
    });
    if let Ok(rc) = std::env::var("VERIF_CRASHED") {
        violation(&format!(
            "exploring the code under test ended the whole process (exit status {}: 134 abort or stack overflow, 136 arithmetic, 139 segmentation fault); running the check again shows it",
            rc
        ));
    }
    quiet_panics();
    watchdog();
    id
}

/// Code under test that neither returns nor panics, or that eats all memory, is a violation too.
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let n = STATES.load(SeqCst) + TRANS.load(SeqCst) + TRACES.load(SeqCst);
            if n != last.0 {
                last = (n, Instant::now());
            }
            if last.1.elapsed().as_secs() > 240 {
                violation("an execution has not come to an end within 240 s");
            }
            let rss = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                * 4096;
            if rss > 20 << 30 {
                violation("an execution uses more than 20 GB of memory");
            }
        }
    });
}

/// Panics of the code under test are caught and judged; their messages are kept, not printed.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        LAST_PANIC.with(|l| *l.borrow_mut() = m.clone());
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{}", m);
        }
    }));
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Calls the code under test, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn id() -> &'static str {
    &g().id
}
pub fn thorough() -> bool {
    g().thorough
}
pub fn quick() -> bool {
    !g().thorough
}
/// Picks a bound by tier
pub fn tier<T>(quick: T, thorough: T) -> T {
    if g().thorough {
        thorough
    } else {
        quick
    }
}
pub fn seed() -> u64 {
    g().seed
}
pub fn verif_dir() -> &'static str {
    &g().verif
}
pub fn elapsed() -> f64 {
    g().start.elapsed().as_secs_f64()
}

/// Distinct configurations / states visited
pub fn states(n: u64) {
    STATES.fetch_add(n, SeqCst);
}
/// Operations (calls, random draws, scheduled steps) performed from them
pub fn transitions(n: u64) {
    TRANS.fetch_add(n, SeqCst);
}
/// Complete executions of the real code compared with the specification
pub fn traces(n: u64) {
    TRACES.fetch_add(n, SeqCst);
}
pub fn sample(s: impl FnOnce() -> String) {
    let mut v = SAMPLES.lock().unwrap();
    if v.len() < 6 {
        v.push(s());
    }
}
pub fn note(k: &str, v: impl std::fmt::Display) {
    let mut n = NOTES.lock().unwrap();
    n.retain(|x| x.0 != k);
    n.push((k.to_string(), v.to_string()));
}
pub fn assume(s: &str) {
    ASSUME.lock().unwrap().push(s.to_string());
}
/// The bounded space was not explored completely (time limit)
pub fn not_exhaustive() {
    EXHAUSTIVE.store(false, SeqCst);
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(violations: u32) {
    let g = g();
    let samples: Vec<String> = SAMPLES.lock().unwrap().iter().map(|s| jstr(s)).collect();
    let assume: Vec<String> = ASSUME.lock().unwrap().iter().map(|s| jstr(s)).collect();
    let notes: Vec<String> =
        NOTES.lock().unwrap().iter().map(|(k, v)| format!(", {}: {}", jstr(k), jstr(v))).collect();
    let known: Vec<String> = KNOWN_SEEN.lock().unwrap().iter().map(|s| jstr(s)).collect();
    let s = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"samples\": [{}], \"exhaustive\": {}, \"known_findings_seen\": [{}]{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        jstr(&g.id),
        jstr(if g.thorough { "thorough" } else { "quick" }),
        g.seed,
        STATES.load(SeqCst),
        TRANS.load(SeqCst),
        TRACES.load(SeqCst),
        samples.join(", "),
        EXHAUSTIVE.load(SeqCst),
        known.join(", "),
        notes.concat(),
        assume.join(", "),
        elapsed(),
        violations
    );
    let d = format!("{}/evidence", g.verif);
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{}/{}.json", d, g.id), s).expect("evidence file");
}

/// Reports a violation and ends the check.
pub fn violation(what: &str) -> ! {
    if OVER.swap(true, SeqCst) {
        // another thread is reporting
        loop {
            std::thread::park();
        }
    }
    let g = g();
    let d = format!("{}/out", g.verif);
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}-{}.txt", d, g.id, std::process::id());
    let mut f = std::fs::File::create(&p).expect("replay file");
    let _ = writeln!(f, "property {}\ntier {}\nseed {}\n{}", g.id, if g.thorough { "thorough" } else { "quick" }, g.seed, what);
    sample(|| what.chars().take(2000).collect());
    write_evidence(1);
    println!("VIOLATION property={} replay={}", g.id, p);
    println!("{}", what.chars().take(4000).collect::<String>());
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

/// A failure that may be a listed finding: `key` identifies what fails.
pub fn finding(key: &str, what: impl FnOnce() -> String) {
    let g = g();
    match g.known.iter().find(|k| k.0 == key) {
        None => violation(&format!("[{}] {}", key, what())),
        Some((_, text)) => {
            if KNOWN_SEEN.lock().unwrap().insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} key={} {}", g.id, key, text);
            }
        }
    }
}

/// The machinery itself failed: neither held nor violated.
pub fn broken(what: &str) -> ! {
    eprintln!("check of {} is broken: {}", g().id, what);
    println!("ERROR {}", what);
    std::process::exit(3)
}

pub fn finish() -> ! {
    if OVER.load(SeqCst) {
        loop {
            std::thread::park();
        }
    }
    write_evidence(0);
    println!(
        "{} held: {} states, {} transitions, {} executions compared, {:.1} s",
        g().id,
        STATES.load(SeqCst),
        TRANS.load(SeqCst),
        TRACES.load(SeqCst),
        elapsed()
    );
    std::process::exit(0)
}

/// Checks a condition of the property.
#[macro_export]
macro_rules! must {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            $crate::violation(&format!($($a)*));
        }
    };
}
