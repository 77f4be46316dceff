#![allow(non_camel_case_types, non_snake_case, dead_code, unused_imports)]
//! Replays the cases TLC printed into nanoserde and reports every mismatch.
//! usage: harness <bin|json|ron|toml|drops> <case file> <shard> <shards> <first case> <progress file> <record file>
mod abs;
mod alloc;
#[cfg(feature = "bin")]
mod bin;
#[cfg(feature = "bin")]
mod types_bin;
mod jv;
#[cfg(any(feature = "json", feature = "ron"))]
mod text;
#[cfg(feature = "json")]
mod types_json;
#[cfg(feature = "ron")]
mod types_ron;
#[cfg(feature = "json")]
use text::json;
#[cfg(feature = "ron")]
use text::ron;
#[cfg(feature = "toml")]
mod tomlfmt;
#[cfg(feature = "drops")]
mod drops;
use jv::J;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;
static CUR: AtomicU64 = AtomicU64::new(0);
static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static DONE: AtomicU64 = AtomicU64::new(0);

thread_local! { static NOTES: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
/// What the crate answered, word for word: two builds are compared by it (VERIF_DIGEST: 1 hashes, 2 the words).
pub fn note(f: impl FnOnce() -> String) {
    NOTES.with(|n| if let Some(s) = n.borrow_mut().as_mut() { s.push_str(&f()); s.push('\n'); });
}
fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
/// the types a case is about
fn about(c: &J) -> String {
    let mut o = vec![];
    if let Some(t) = c.get("t") { o.push(t.show()) }
    for k in ["vs", "w"] { if let Some(J::A(a)) = c.get(k) { for i in a { if let Some(t) = i.get("t") { o.push(t.show()) } } } }
    format!("{}:{}", c.get("o").map_or("dec", |o| o.s()), o.join(","))
}

type Runner = Box<dyn Fn(&J, &mut dyn FnMut(J)) -> Result<bool, String>>;
fn runner(fmt: &str) -> Runner {
    match fmt {
        #[cfg(feature = "bin")]
        "bin" => { let t = types_bin::table(); Box::new(move |c, r| bin::run(&t, c, r)) }
        #[cfg(feature = "json")]
        "json" => { let t = types_json::table(); Box::new(move |c, r| json::run(&t, c, r)) }
        #[cfg(feature = "ron")]
        "ron" => { let t = types_ron::table(); Box::new(move |c, r| ron::run(&t, c, r)) }
        #[cfg(feature = "toml")]
        "toml" => Box::new(tomlfmt::run),
        #[cfg(feature = "drops")]
        "drops-b" => Box::new(|c, r| drops::run('b', c, r)),
        #[cfg(feature = "drops")]
        "drops-j" => Box::new(|c, r| drops::run('j', c, r)),
        #[cfg(feature = "drops")]
        "drops-r" => Box::new(|c, r| drops::run('r', c, r)),
        _ => panic!("format {fmt} not built"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (fmt, file) = (a[1].clone(), a[2].clone());
    let (shard, shards, first): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[6]).unwrap();
    let mut recf = std::io::BufWriter::new(std::fs::OpenOptions::new().append(true).create(true).open(&a[7]).unwrap());
    let digest = std::env::var("VERIF_DIGEST").ok();
    let mut digf = digest.as_ref().map(|_| std::io::BufWriter::new(std::fs::OpenOptions::new().append(true).create(true).open(format!("{}.dig", a[7])).unwrap()));
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        use std::os::unix::fs::FileExt;
        let run = runner(&fmt);
        let f = std::io::BufReader::new(std::fs::File::open(&file).unwrap());
        let (mut idx, mut ran, mut bad, mut absent) = (0u64, 0u64, 0u64, 0u64);
        let out = std::io::stdout();
        let mut group = 0u64;
        for line in f.lines() {
            let line = line.unwrap();
            let body;
            if line.starts_with("\"CASE ") {
                let mut p = 0;
                body = jv::string(line.as_bytes(), &mut p)[5..].to_string();
            } else if line.starts_with("CASE ") { body = line[5..].to_string(); } else { continue }
            group += 1;
            let mine = group % shards == shard;
            if !mine { continue; }
            let g = jv::parse(&body);
            for short in g.a() {
                idx += 1;
                if idx <= first { continue; }
                let _ = prog.write_at(format!("{idx:>12}").as_bytes(), 0);
                if digest.is_some() { NOTES.with(|n| *n.borrow_mut() = Some(String::new())); }
                let long;
                BIG.store(short.get("big").is_some(), SeqCst);
                CUR.store(idx, SeqCst);
                let c = if short.get("big").is_some() { long = short.expand(-1); &long } else { short };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, &mut |j| { writeln!(recf, "{}", j.show()).unwrap(); })));
                let r = r.unwrap_or_else(|e| Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())));
                if let Some(d) = digf.as_mut() {
                    let n = NOTES.with(|n| n.borrow_mut().take()).unwrap_or_default();
                    let n = if digest.as_deref() == Some("2") { J::S(n).show() } else { format!("{:016x}", hash(&n)) };
                    writeln!(d, "{idx}\t{}\t{}\t{n}", about(c), matches!(r, Ok(false)) as u8).unwrap();
                }
                match r {
                    Ok(true) => ran += 1,
                    Ok(false) => absent += 1,
                    Err(m) => {
                        ran += 1;
                        bad += 1;
                        if bad <= 40 { let mut o = out.lock(); writeln!(o, "BAD {idx} {}\t{}", J::S(if m.chars().count() > 6000 { m.chars().take(6000).collect() } else { m }).show(), short.show()).unwrap(); o.flush().unwrap(); }
                    }
                }
            }
        }
        recf.flush().unwrap();
        if let Some(d) = digf.as_mut() { d.flush().unwrap(); }
        println!("SUM {idx} {ran} {bad} {absent}");
        DONE.store(1, SeqCst);
    }).unwrap();
    // a case may use 10 s of processor time, a big one 60 s
    let (mut last, mut since, mut start) = (0, cpu(), std::time::Instant::now());
    loop {
        std::thread::sleep(std::time::Duration::from_millis(if last == 0 { 20 } else { 100 }));
        if DONE.load(SeqCst) == 1 { break; }
        if h.is_finished() { eprintln!("worker ended early"); std::process::exit(96); }
        let c = CUR.load(SeqCst);
        if c != last { (last, since, start) = (c, cpu(), std::time::Instant::now()); }
        let secs = if BIG.load(SeqCst) { 60.0 } else { 10.0 };
        if c > 0 && (cpu() - since > secs || start.elapsed().as_secs() > 300) { std::process::exit(97); }
    }
}
/// processor time of this process in seconds
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    s[s.rfind(')').map_or(0, |p| p + 1)..].split_whitespace().skip(11).take(2).map(|x| x.parse::<f64>().unwrap_or(0.0)).sum::<f64>() / 100.0
}
