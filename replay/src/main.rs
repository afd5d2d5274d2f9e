mod exec;
mod fsck;
mod gen;
mod maps;
mod oswatch;
mod script;

use script::Op;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

static QUIET: AtomicBool = AtomicBool::new(true);

pub fn quiet<T, F: FnOnce() -> T>(f: F) -> std::thread::Result<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

/// Ok(counts) or the failure: (index of the operation, message)
pub fn run_script(ops: &[Op], root: &Path) -> Result<exec::Counts, (usize, String)> {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root).expect("scratch");
    let mut at = 0;
    let r = quiet(|| {
        let mut w = exec::World::new(root);
        for (i, o) in ops.iter().enumerate() {
            at = i;
            match w.step(o) {
                Ok(()) => {}
                Err(e) if e == "SKIP" => {}
                Err(e) => {
                    // leave the broken state behind without running more of it
                    let d = quiet(move || drop(w));
                    drop(d);
                    return Err((i, e));
                }
            }
        }
        at = ops.len();
        Ok(w.close())
    });
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err((at, format!("panic: {msg}")))
        }
    };
    let _ = std::fs::remove_dir_all(root);
    r
}

fn scratch() -> PathBuf {
    let base = std::env::var("REPLAY_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| {
        if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        }
    });
    base.join(format!("siamesedb-replay-{}", std::process::id()))
}

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}

/// runs a script in a child process. None: it passed; Some(message): it failed
fn child_run(ops: &[Op], tag: &str) -> Option<String> {
    let f = scratch().with_extension(format!("{tag}.script"));
    std::fs::write(&f, script::print(ops)).ok()?;
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("run")
        .arg(&f)
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    let r = loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                let _ = c.stdout.take().unwrap().read_to_string(&mut s);
                break if st.success() {
                    None
                } else if st.code() == Some(1) {
                    Some(s.lines().find(|l| l.starts_with("FAIL")).unwrap_or("FAIL").to_string())
                } else {
                    Some(format!("FAIL the process died: {st}"))
                };
            }
            _ if t.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                break Some("FAIL no answer within 60 s (hang)".into());
            }
            _ => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let dir = scratch();
    let _ = std::fs::remove_dir_all(dir.with_file_name(format!("siamesedb-replay-{}", c.id())));
    let _ = std::fs::remove_file(&f);
    r
}

fn minimize(mut ops: Vec<Op>, secs: u64) -> (Vec<Op>, Option<String>) {
    let t = Instant::now();
    let mut msg = child_run(&ops, "min");
    if msg.is_none() {
        return (ops, None);
    }
    let over = |t: &Instant| t.elapsed() > Duration::from_secs(secs);
    let mut n = 2usize;
    while ops.len() > 1 && !over(&t) {
        let size = (ops.len() + n - 1) / n;
        let mut cut = false;
        let mut i = 0;
        while i < ops.len() && !over(&t) {
            let mut o = ops.clone();
            o.drain(i..(i + size).min(ops.len()));
            if !o.is_empty() {
                if let Some(m) = child_run(&o, "min") {
                    ops = o;
                    msg = Some(m);
                    cut = true;
                    continue;
                }
            }
            i += size;
        }
        if !cut {
            if size == 1 {
                break;
            }
            n = (n * 2).min(ops.len());
        } else {
            n = n.saturating_sub(1).max(2);
        }
    }
    (ops, msg)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("REPLAY_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {
            if !QUIET.load(Ordering::Relaxed) {
                eprintln!("panic");
            }
        }));
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let text = std::fs::read_to_string(&a[2]).expect("script");
            let ops = match script::parse(&text) {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(2);
                }
            };
            let dir = scratch();
            match run_script(&ops, &dir) {
                Ok(c) => {
                    println!("PASS ops={} compares={} fsck={} depth={}", c.ops, c.compares, c.fscks, c.max_depth);
                }
                Err((i, m)) => {
                    println!("FAIL at operation {} ({}): {}", i + 1, ops.get(i).map(|o| clip(&o.to_string())).unwrap_or_default(), m.replace('\n', " "));
                    std::process::exit(1);
                }
            }
        }
        Some("gen") => {
            let ops = gen::generate(&a[2], a[3].parse().unwrap());
            print!("{}", script::print(&ops));
        }
        Some("worker") => worker(&a),
        Some("explore") => explore(&a),
        _ => {
            eprintln!("usage: replay run FILE | gen PROP SEED | explore --prop P --seed N --secs S --jobs J --out FILE");
            std::process::exit(2);
        }
    }
}
fn clip(s: &str) -> String {
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}..", &s[..n])
    } else {
        s.to_string()
    }
}

/// generated seeds go to stdout, one line each, so that the parent knows what was running when a worker dies
fn worker(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let seed: u64 = arg(a, "--seed").unwrap().parse().unwrap();
    let id: u64 = arg(a, "--id").unwrap().parse().unwrap();
    let secs: f64 = arg(a, "--secs").unwrap().parse().unwrap();
    let t = Instant::now();
    let dir = scratch();
    let mut i = 0u64;
    let out = std::io::stdout();
    while t.elapsed().as_secs_f64() < secs {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(id * 100_000_000).wrapping_add(i);
        i += 1;
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {s}");
            let _ = o.flush();
        }
        let ops = gen::generate(&prop, s);
        let mut h = DefaultHasher::new();
        let text = script::print(&ops);
        text.hash(&mut h);
        match run_script(&ops, &dir) {
            Ok(c) => {
                println!(
                    "P {:016x} {} {} {} {} {} {} {} {}",
                    h.finish(),
                    c.ops,
                    c.compares,
                    c.fscks,
                    c.stats,
                    c.snaps,
                    c.reopens,
                    c.max_depth,
                    c.max_entries
                );
            }
            Err((at, m)) => {
                println!("F {s} {at} {}", m.replace('\n', " "));
                std::process::exit(0);
            }
        }
    }
}

fn explore(a: &[String]) {
    let prop = arg(a, "--prop").unwrap();
    let seed: u64 = arg(a, "--seed").unwrap_or("1".into()).parse().unwrap();
    let secs: f64 = arg(a, "--secs").unwrap_or("20".into()).parse().unwrap();
    let jobs: u64 = arg(a, "--jobs").unwrap_or("8".into()).parse().unwrap();
    let outf = arg(a, "--out");
    let report = arg(a, "--report");
    let t = Instant::now();
    struct W {
        child: std::process::Child,
        rx: std::sync::mpsc::Receiver<String>,
        cur: Option<u64>,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..jobs)
        .map(|i| {
            let mut child = Command::new(std::env::current_exe().unwrap())
                .args(["worker", "--prop", &prop, "--seed", &seed.to_string(), "--id", &i.to_string(), "--secs", &secs.to_string()])
                .env("RUST_BACKTRACE", "0")
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("worker");
            let so = child.stdout.take().unwrap();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines().map_while(Result::ok) {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            W { child, rx, cur: None, since: Instant::now(), done: false }
        })
        .collect();
    let mut evals = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut sum = [0u64; 6];
    let (mut depth, mut entries) = (0u64, 0u64);
    let mut samples: Vec<u64> = Vec::new();
    let mut fail: Option<(u64, String)> = None;
    'outer: loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            alive = true;
            loop {
                match w.rx.try_recv() {
                    Ok(l) => {
                        let p: Vec<&str> = l.splitn(4, ' ').collect();
                        match p[0] {
                            "S" => {
                                w.cur = p[1].parse().ok();
                                w.since = Instant::now();
                            }
                            "P" => {
                                evals += 1;
                                if samples.len() < 3 {
                                    samples.extend(w.cur);
                                }
                                w.cur = None;
                                w.since = Instant::now();
                                let q: Vec<&str> = l.split(' ').collect();
                                let n: Vec<u64> = q[2..].iter().map(|x| x.parse().unwrap_or(0)).collect();
                                // non-trivial: at least one comparison with the model or one scan of the files
                                if n[1] + n[2] + n[3] > 0 || prop == "C10" {
                                    distinct.insert(q[1].to_string());
                                }
                                for i in 0..6 {
                                    sum[i] += n[i];
                                }
                                depth = depth.max(n[6]);
                                entries = entries.max(n[7]);
                            }
                            "F" => {
                                fail = Some((p[1].parse().unwrap(), format!("operation {}: {}", p[2], p[3])));
                                break 'outer;
                            }
                            _ => {}
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => {
                        if w.cur.is_some() && w.since.elapsed() > Duration::from_secs(90) {
                            fail = Some((w.cur.unwrap(), "no answer within 90 s (hang)".into()));
                            break 'outer;
                        }
                        break;
                    }
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                        w.done = true;
                        let st = w.child.wait();
                        if let (Some(c), Ok(st)) = (w.cur, st) {
                            if !st.success() {
                                fail = Some((c, format!("the process died: {st}")));
                                break 'outer;
                            }
                        }
                        break;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
        let base = scratch();
        let _ = std::fs::remove_dir_all(base.with_file_name(format!("siamesedb-replay-{}", w.child.id())));
    }
    let mut result = "pass".to_string();
    let mut message = String::new();
    if let Some((s, m)) = fail {
        let ops = gen::generate(&prop, s);
        let full = ops.clone();
        let (ops, msg) = minimize(ops, 60);
        let (ops, msg) = match msg {
            Some(x) => (ops, x),
            None => (full, format!("FAIL (in the worker, not in a fresh process) {m}")),
        };
        let steady = child_run(&ops, "again").is_some();
        result = if steady { "fail".into() } else { "unsteady".into() };
        message = msg;
        if let Some(o) = &outf {
            let text = format!("# property {prop}, generator seed {s}\n# {}\n# run: replay run THIS_FILE (exit 1: it still fails)\n{}", message, script::print(&ops));
            let _ = std::fs::write(o, text);
        }
    }
    let sample_txt: Vec<String> = samples.iter().map(|s| clip_n(&script::print(&gen::generate(&prop, *s)), 600)).collect();
    let js = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '\n' => o += "\\n",
                c if (c as u32) < 32 => o += " ",
                c => o.push(c),
            }
        }
        o + "\""
    };
    let j = format!(
        "{{\"result\":{},\"message\":{},\"evaluations\":{},\"distinct\":{},\"ops\":{},\"compares\":{},\"fscks\":{},\"stats\":{},\"snaps\":{},\"reopens\":{},\"max_depth\":{},\"max_entries\":{},\"secs\":{:.1},\"samples\":[{}]}}\n",
        js(&result),
        js(&message),
        evals,
        distinct.len(),
        sum[0],
        sum[1],
        sum[2],
        sum[3],
        sum[4],
        sum[5],
        depth,
        entries,
        t.elapsed().as_secs_f64(),
        sample_txt.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    if let Some(r) = report {
        std::fs::write(r, &j).expect("report");
    }
    print!("{j}");
    std::process::exit(if result == "pass" { 0 } else { 1 });
}
fn clip_n(s: &str, n: usize) -> String {
    if s.len() > n {
        format!("{}...", &s[..n])
    } else {
        s.to_string()
    }
}
