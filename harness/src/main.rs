//! Conformance harness: replays behaviours emitted by the TLA+ specification
//! against the real library, and records executions of the real library for
//! validation against the specification.
mod adapters;
mod disk;
mod enc;
mod jenc;
mod stdfs;
mod world;

use adapters::Cx;
use enc::{Rng, mix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Allocator that knows how much is in use.
struct Count;
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static BASE: AtomicU64 = AtomicU64::new(0);
fn grow(n: usize) {
    let x = LIVE.fetch_add(n as u64, Ordering::Relaxed) + n as u64;
    PEAK.fetch_max(x, Ordering::Relaxed);
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
            grow(n);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Count = Count;
/// Largest increase of memory in use since `mem_reset`.
pub fn mem_reset() {
    let x = LIVE.load(Ordering::Relaxed);
    BASE.store(x, Ordering::Relaxed);
    PEAK.store(x, Ordering::Relaxed);
}
pub fn mem_peak() -> u64 {
    PEAK.load(Ordering::Relaxed).saturating_sub(BASE.load(Ordering::Relaxed))
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED_MS: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

fn emit(v: serde_json::Value) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{v}");
    let _ = o.flush();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    match args.get(1).map(String::as_str) {
        Some("replay") => {
            let module = args[2].clone();
            let file = args[3].clone();
            let start: u64 = get("--start").and_then(|s| s.parse().ok()).unwrap_or(0);
            let timeout: u64 = get("--timeout").and_then(|s| s.parse().ok()).unwrap_or(20);
            let only: Option<u64> = get("--only").and_then(|s| s.parse().ok());
            let prop = get("--prop").unwrap_or_default();
            replay(&module, &file, seed, thorough, start, timeout, only, &prop);
        }
        Some("walk") => walk(&args[2], &args[3]),
        _ => {
            eprintln!("usage: ext4conform replay ...");
            std::process::exit(2);
        }
    }
}

/// What the library says about every object of an image file, for comparison
/// with other readers (tools/crosscheck.py). File contents go to `out`/N.
fn walk(image: &str, out: &str) {
    use serde_json::json;
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let fs = match ext4_view::Ext4::load_from_path(std::path::Path::new(image)) {
        Ok(fs) => fs,
        Err(e) => {
            println!("{}", json!({"load": format!("{e:?}")}));
            return;
        }
    };
    let mut todo = vec![ext4_view::PathBuf::new("/")];
    let mut n = 0;
    while let Some(dir) = todo.pop() {
        let it = match fs.read_dir(&dir) {
            Ok(it) => it,
            Err(e) => {
                println!("{}", json!({"dir": hex(dir.as_ref()), "err": format!("{e:?}")}));
                continue;
            }
        };
        for e in it {
            let e = match e {
                Ok(e) => e,
                Err(e) => {
                    println!("{}", json!({"dir": hex(dir.as_ref()), "err": format!("{e:?}")}));
                    break;
                }
            };
            let name: Vec<u8> = e.file_name().as_ref().to_vec();
            if name == b"." || name == b".." {
                continue;
            }
            let p = e.path();
            let m = match fs.symlink_metadata(&p) {
                Ok(m) => m,
                Err(x) => {
                    println!("{}", json!({"path": hex(p.as_ref()), "err": format!("{x:?}")}));
                    continue;
                }
            };
            n += 1;
            let mut v = json!({"path": hex(p.as_ref()), "type": format!("{:?}", m.file_type()), "mode": m.mode(), "uid": m.uid(), "gid": m.gid(), "size": m.len()});
            if m.is_dir() {
                todo.push(p);
            } else if m.is_symlink() {
                v["link"] = match fs.read_link(&p) {
                    Ok(t) => json!(hex(t.as_ref())),
                    Err(x) => json!(format!("{x:?}")),
                };
            } else if m.file_type().is_regular_file() && m.len() < 64 << 20 {
                match fs.read(&p) {
                    Ok(d) => {
                        std::fs::write(format!("{out}/{n}"), d).expect("write");
                        v["data"] = json!(n);
                    }
                    Err(x) => v["data"] = json!(format!("{x:?}")),
                }
            }
            println!("{v}");
        }
    }
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// Processor time of this process in hundredths of a second: a loaded machine
/// must not look like a hang.
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn watchdog(timeout: u64) {
    std::thread::spawn(move || {
        let mut seen = (u64::MAX, 0);
        let mut cpu0 = 0;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let cur = CUR.load(Ordering::SeqCst);
            let t = STARTED_MS.load(Ordering::SeqCst);
            if cur == u64::MAX || (cur, t) != seen {
                seen = (cur, t);
                cpu0 = cpu_ticks();
                continue;
            }
            let wall = now_ms().saturating_sub(t) > timeout * 1000;
            let busy = cpu_ticks().saturating_sub(cpu0) > timeout * 100 || now_ms().saturating_sub(t) > timeout * 8000;
            if wall && busy && CUR.load(Ordering::SeqCst) == cur {
                emit(serde_json::json!({"i": cur, "fail": format!("hang: no result after {timeout} s"), "hang": true}));
                std::process::exit(3);
            }
        }
    });
}

fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        *PANIC.lock().unwrap() = format!("{msg} at {loc}");
    }));
}

#[allow(clippy::too_many_arguments)]
fn replay(module: &str, file: &str, seed: u64, thorough: bool, start: u64, timeout: u64, only: Option<u64>, prop: &str) {
    watchdog(timeout);
    set_hook();
    let f = std::io::BufReader::new(std::fs::File::open(file).expect("scenario file"));
    let mut counters = std::collections::BTreeMap::<String, u64>::new();
    let mut n = 0u64;
    let mut journaled = 0;
    for line in f.lines() {
        let line = line.unwrap();
        // "index<TAB>json"
        let Some((idx, js)) = line.split_once('\t') else { continue };
        let idx: u64 = idx.parse().unwrap();
        if n < start {
            n += 1;
            continue;
        }
        n += 1;
        if let Some(o) = only {
            if o != idx {
                continue;
            }
        }
        let sc: serde_json::Value = serde_json::from_str(js).expect("scenario json");
        STARTED_MS.store(now_ms(), Ordering::SeqCst);
        CUR.store(idx, Ordering::SeqCst);
        // Progress is the number of scenarios started: if the process dies, this
        // one is to blame.
        emit(serde_json::json!({"s": n - 1, "i": idx}));
        let mut cx = Cx {
            rng: Rng(mix(seed ^ mix(idx.wrapping_mul(0x1234_5677) ^ 0xabc))),
            idx,
            seed,
            thorough,
            prop: prop.to_string(),
            counters: std::mem::take(&mut counters),
            trace: None,
        };
        let mut jr = Rng(mix(cx.rng.0 ^ 0x6a6f_7572));
        jenc::set_journalize((adapters::may_journalize(module) && jr.chance(1, 4)).then(|| jr.next()));
        let r = catch_unwind(AssertUnwindSafe(|| adapters::run(module, &sc, &mut cx)));
        jenc::set_journalize(None);
        let done = jenc::journalized();
        if done > journaled {
            *cx.counters.entry("journaled".to_string()).or_default() += 1;
            journaled = done;
        }
        counters = cx.counters;
        if let Some(mut t) = cx.trace {
            t["id"] = idx.into();
            emit(serde_json::json!({"i": idx, "trace": t}));
        }
        CUR.store(u64::MAX, Ordering::SeqCst);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => emit(serde_json::json!({"i": idx, "fail": msg})),
            Err(_) => {
                let p = PANIC.lock().unwrap().clone();
                // A panic in the harness itself is a tool error, not a finding.
                if p.contains("src/adapters") || p.contains("src/enc.rs") || p.contains("src/jenc.rs") || p.contains("src/world.rs") || p.contains("src/disk.rs") || p.contains("src/stdfs.rs") {
                    emit(serde_json::json!({"i": idx, "tool_error": p}));
                } else {
                    emit(serde_json::json!({"i": idx, "fail": format!("panic: {p}"), "panic": true}));
                }
            }
        }
    }
    emit(serde_json::json!({"done": true, "n": n, "counters": counters}));
}
