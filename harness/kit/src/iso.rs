//! Runs numbered items in worker processes, so that a panic, hang, stack overflow or runaway
//! allocation of the code under test ends that worker and is reported for its item.
use crate::part::Part;
use crate::pool;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// Counts and findings of one worker.
#[derive(Default)]
pub struct Log {
    pub counts: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub bad: Vec<(String, String)>,
}

impl Log {
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counts.insert(k.into(), n);
            }
        }
    }
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.bad.push((key.into(), detail.into()));
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Calls `f`; a panic becomes an error with its message and place.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            o.push(match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some(c) => c,
                None => break,
            });
        } else {
            o.push(c);
        }
    }
    o
}

pub const CHUNKS: usize = 8;

/// Stack of the thread that runs the items: what rustc gives a procedural macro.
pub const STACK: usize = 8 << 20;

/// Runs `item(i, log)` for all i in 0..n in workers. `name(i)` describes an item that took the
/// worker down; `limit` is the time one item may take.
pub fn run(part: &mut Part, job: &str, n: usize, limit: Duration, item: impl Fn(usize, &mut Log) + Sync, name: impl Fn(usize) -> String + Sync) {
    if let Ok(w) = std::env::var("VK_ISO") {
        let f: Vec<&str> = w.split(':').collect();
        if f[0] != job {
            return;
        }
        work(f[1].parse().unwrap(), f[2].parse().unwrap(), limit, item);
    }
    // Every hang costs its whole limit, and a crash may have filled the memory: some are enough.
    static HANGS: AtomicUsize = AtomicUsize::new(0);
    const ENOUGH: usize = 48;
    if HANGS.load(Ordering::SeqCst) >= ENOUGH {
        eprintln!("iso {job}: skipped, because too many items had no result before");
        return;
    }
    let t0 = std::time::Instant::now();
    let chunk = n.div_ceil(pool::cores() * CHUNKS).clamp(1, 100_000);
    let chunks = n.div_ceil(chunk);
    let next = AtomicUsize::new(0);
    let all: Mutex<Log> = Mutex::default();
    let exe = std::env::current_exe().unwrap();
    std::thread::scope(|s| {
        for _ in 0..pool::cores().min(chunks.max(1)) {
            s.spawn(|| loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                if c >= chunks || HANGS.load(Ordering::SeqCst) >= ENOUGH {
                    break;
                }
                let (mut from, to) = (c * chunk, ((c + 1) * chunk).min(n));
                while from < to {
                    // Memory is limited, so that a runaway allocation ends the worker only.
                    let mut ch = Command::new("sh")
                        .arg("-c")
                        .arg("ulimit -v 3000000; ulimit -c 0; exec \"$0\" --out /dev/null \"$@\"")
                        .arg(&exe)
                        .args(std::env::args().skip(1).filter(|a| a != "--out" && !a.ends_with(".json")))
                        .env("VK_ISO", format!("{job}:{from}:{to}"))
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let mut last = from;
                    let mut why = String::new();
                    let mut done = false;
                    for l in BufReader::new(ch.stdout.take().unwrap()).split(b'\n') {
                        let l = String::from_utf8_lossy(&l.unwrap()).into_owned();
                        let mut f = l.splitn(3, '\t');
                        let k = f.next().unwrap_or("");
                        let a = unesc(f.next().unwrap_or(""));
                        let b = unesc(f.next().unwrap_or(""));
                        let mut g = all.lock().unwrap();
                        match k {
                            "B" => last = a.parse().unwrap_or(last),
                            "H" => {
                                why = format!("no result within {limit:?}");
                                HANGS.fetch_add(5, Ordering::SeqCst);
                            }
                            "V" => g.bad.push((a, b)),
                            "C" => g.add(&a, b.parse().unwrap()),
                            "S" => g.samples.push(a),
                            "E" => done = true,
                            _ => {}
                        }
                    }
                    let st = ch.wait().unwrap();
                    if done {
                        break;
                    }
                    if why.is_empty() {
                        why = format!("the process ended with {st} (stack overflow, abort or out of memory)");
                    }
                    HANGS.fetch_add(1, Ordering::SeqCst);
                    let mut g = all.lock().unwrap();
                    g.bad.push((name(last), why));
                    g.add("crashes", 1);
                    drop(g);
                    // What the worker counted before is lost; items are counted again below.
                    from = last + 1;
                    if HANGS.load(Ordering::SeqCst) >= ENOUGH {
                        break;
                    }
                }
            });
        }
    });
    let l = all.into_inner().unwrap();
    for (k, v) in &l.counts {
        part.add(k, *v);
    }
    for s in l.samples {
        part.sample(s);
    }
    // The simplest cases first.
    let mut bad = l.bad;
    bad.sort_by_key(|(k, _)| (k.len(), k.clone()));
    for (k, d) in bad {
        part.violation(k, d);
    }
    eprintln!("iso {job}: {n} items, {:.1}s", t0.elapsed().as_secs_f32());
}

fn work(from: usize, to: usize, limit: Duration, item: impl Fn(usize, &mut Log) + Sync) -> ! {
    hook();
    let beat = AtomicU64::new(0);
    std::thread::scope(|s| {
        // Watchdog: the current item must change within the limit.
        s.spawn(|| {
            let (mut seen, mut ticks) = (u64::MAX, 0);
            let parent = std::os::unix::process::parent_id();
            let step = Duration::from_millis(50);
            loop {
                std::thread::sleep(step);
                if std::os::unix::process::parent_id() != parent {
                    std::process::exit(1);
                }
                let b = beat.load(Ordering::SeqCst);
                if b != seen {
                    seen = b;
                    ticks = 0;
                } else {
                    ticks += 1;
                    if step * ticks > limit {
                        println!("H");
                        std::process::abort();
                    }
                }
            }
        });
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut out = std::io::stdout();
                let mut log = Log::default();
                for i in from..to {
                    beat.store(i as u64, Ordering::SeqCst);
                    let _ = out.write_all(format!("B\t{i}\n").as_bytes());
                    let _ = out.flush();
                    item(i, &mut log);
                }
                let mut o = String::new();
                for (k, v) in &log.counts {
                    o.push_str(&format!("C\t{k}\t{v}\n"));
                }
                for x in log.samples.iter().take(3) {
                    o.push_str(&format!("S\t{}\n", esc(x)));
                }
                for (k, d) in &log.bad {
                    o.push_str(&format!("V\t{}\t{}\n", esc(k), esc(d)));
                }
                o.push_str("E\n");
                let _ = out.write_all(o.as_bytes());
                let _ = out.flush();
                std::process::exit(0);
            })
            .unwrap();
    });
    unreachable!()
}
