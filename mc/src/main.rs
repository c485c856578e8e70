//! Bounded-exhaustive model checking of the `subtile` library.
//!
//! `mc check PROPERTY`, `mc replay FILE`, `mc list`, `mc time`.

mod engine;
mod p_idx;
mod p_img;
mod p_pgs;
mod p_txt;
mod p_vob;
mod p_sweep;
mod p_x;
mod pgs;
mod vob;

macro_rules! outln {
    ($($a:tt)*) => { out(&format!($($a)*)) };
}

use engine::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// Where the lines of the check go: the code under test has standard output to
/// itself (and it is discarded).
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
fn take_stdout() {
    use std::os::fd::FromRawFd as _;
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 && null >= 0 {
            libc::dup2(null, 1);
            let _ = OUT.set(std::fs::File::from_raw_fd(fd));
        }
    }
}
fn out(s: &str) {
    use std::io::Write as _;
    let _ = match OUT.get() {
        Some(mut f) => f.write_all(format!("{s}\n").as_bytes()),
        None => std::io::stdout().write_all(format!("{s}\n").as_bytes()),
    };
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

fn harnesses() -> Vec<&'static Harness> {
    let all: [&'static [Harness]; 7] = [p_vob::H, p_pgs::H, p_txt::H, p_idx::H, p_img::H, p_sweep::H, p_x::H];
    all.into_iter().flatten().collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn base() -> PathBuf {
    PathBuf::from(std::env::var("MC_BASE").unwrap_or_else(|_| "/verif".into()))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch_dir() -> Scratch {
    let name = format!("subtile-mc-{}", std::process::id());
    for root in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
        let d = root.join(&name);
        if std::fs::create_dir_all(&d).is_ok() && std::fs::write(d.join("probe"), [0u8; 4096]).is_ok() {
            let _ = vob::SCRATCH_DIR.set(d.clone());
            // Relative paths lead there.
            std::env::set_current_dir(&d).expect("scratch directory");
            // Somewhere else, and in the scratch directory too.
            std::env::set_var("HOME", d.join("home/of/us"));
            return Scratch(d);
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(2);
}

fn replay_file(prop: &str, harness: &str, tier: Tier, choices: &[u32], msg: &str) -> PathBuf {
    let dir = base().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let id = h64(&(prop, harness, choices));
    let p = dir.join(format!("{prop}-{id:016x}.json"));
    let body = format!(
        "{{\"property\": {}, \"harness\": {}, \"tier\": {}, \"choices\": {:?}, \"message\": {}}}\n",
        js(prop),
        js(harness),
        js(&format!("{tier:?}").to_lowercase()),
        choices,
        js(msg)
    );
    let _ = std::fs::write(&p, body);
    p
}

fn report_violation(prop: &str, harness: &str, tier: Tier, choices: &[u32], msg: &str, note: &str) {
    let p = replay_file(prop, harness, tier, choices, msg);
    outln!("{harness}: {msg}{note}");
    outln!("VIOLATION property={prop} replay={}", p.display());
}

/// Known findings: `finding: property=<id> key=<key> <what>`; other lines are not read.
fn known(prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(base().join("known_findings.txt")) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, l) = l.split_once(' ')?;
            let (key, what) = l.strip_prefix("key=")?.split_once(' ')?;
            (id == prop).then(|| (key.to_string(), what.to_string()))
        })
        .collect()
}

fn main() {
    take_stdout();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check(&args[2]),
        Some("replay") => do_replay(Path::new(&args[2])),
        Some("list") => {
            for h in harnesses() {
                outln!("{} {} devs={:?}: {}", h.prop, h.name, h.devs, h.what);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROPERTY | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// Formats whatever is logged, and is a point where other tasks may run.
struct Logger;
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        point::not_lib(|| {
            let _ = std::fmt::write(&mut Nowhere, *r.args());
            point::at(point::LOG);
        });
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
/// The checks that no input makes the library panic or fail read with all
/// messages on; X01 has all levels; the others have none.
fn level(h: &Harness) -> log::LevelFilter {
    match h.prop {
        // A message holds all that is left of the file.
        _ if h.name == "V05.broken" => log::LevelFilter::Off,
        "V05" | "V06" | "G08" | "G10" | "I03" | "X01" => log::LevelFilter::Trace,
        _ => log::LevelFilter::Off,
    }
}
fn logging(h: &Harness) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(level(h));
    point::learn(|| {
        log::trace!("{:?}", log::max_level());
        let v: Vec<String> = std::hint::black_box(vec![format!("{}", std::thread::panicking())]);
        drop(v);
    });
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn on_threads(h: &Harness) -> bool {
    ["X01.threads", "X01.three", "X01.blocks"].contains(&h.name)
}
struct Part {
    parts: Vec<String>,
    samples: Vec<String>,
    sum: [u64; 9],
    code: i32,
}
/// The harnesses that another checker runs: the same one, whose library is instrumented.
fn run_part(bin: &std::ffi::OsStr, prop: &str, left: Duration) -> Result<Part, String> {
    use std::io::BufRead as _;
    let mut c = std::process::Command::new(bin)
        .args(["check", prop])
        .env("MC_PART", "1")
        .env("MC_BUDGET_S", left.as_secs().max(1).to_string())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("{}: {e}", bin.to_string_lossy()))?;
    let mut p = Part { parts: vec![], samples: vec![], sum: [0, 0, 0, 0, 0, 0, 0, 1, 0], code: 0 };
    for l in std::io::BufReader::new(c.stdout.take().expect("pipe")).lines() {
        let l = l.map_err(|e| e.to_string())?;
        if let Some(l) = l.strip_prefix("PART ") {
            p.parts.push(l.to_string());
        } else if let Some(l) = l.strip_prefix("SAMPLE ") {
            p.samples.push(l.to_string());
        } else if let Some(l) = l.strip_prefix("SUM ") {
            for (to, n) in p.sum.iter_mut().zip(l.split(' ')) {
                *to = n.parse().map_err(|_| "bad sum")?;
            }
        } else {
            outln!("{l}");
        }
    }
    p.code = c.wait().map_err(|e| e.to_string())?.code().unwrap_or(2);
    if p.code == 0 && p.parts.is_empty() {
        return Err("the instrumented checker says nothing".into());
    }
    Ok(p)
}

fn check(prop: &str) -> i32 {
    let tier = tier();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = std::env::var("MC_ONLY").ok();
    let hs: Vec<&'static Harness> = harnesses()
        .into_iter()
        .filter(|h| h.prop == prop && only.as_ref().map_or(true, |o| h.name.contains(o.as_str())))
        .collect();
    // Harnesses on threads are run by the instrumented checker, if there is one.
    let part = std::env::var_os("MC_PART").is_some();
    if part {
        // Not longer than who asked for it.
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    }
    let other = std::env::var_os("MC_INSTRUMENTED").filter(|_| !part);
    let (theirs, hs): (Vec<_>, Vec<_>) = if part || other.is_some() {
        hs.into_iter().partition(|h| on_threads(h) != part)
    } else {
        (vec![], hs)
    };
    if theirs.is_empty() && hs.is_empty() {
        eprintln!("no harness for property {prop}");
        return 2;
    }
    let other = other.filter(|_| !theirs.is_empty());
    install_hooks();
    logging(hs.first().or(theirs.first()).expect("a harness"));
    let scratch = scratch_dir();
    let sdir = scratch.0.clone();
    let t0 = Instant::now();
    {
        let prop = prop.to_string();
        watchdog(move |h, ch, why| {
            report_violation(&prop, h, tier, ch, why, "");
            let _ = std::fs::remove_dir_all(&sdir);
        });
    }
    let workers = std::thread::available_parallelism().map_or(4, usize::from).min(16);
    let total = Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.b(600, 4 * 3600)),
    );
    let kn = known(prop);
    let keys: HashSet<String> = kn.iter().map(|k| k.0.clone()).collect();
    let mut all = Rec::default();
    let mut parts = vec![];
    let mut exhaustive = true;
    let mut violations = 0;
    let mut code = 0;
    let (mut states, mut trans, mut nontrivial) = (0u64, 0u64, 0u64);
    for (n, h) in hs.iter().enumerate() {
        // The time left is shared by the harnesses left.
        let after = if other.is_some() { theirs.len() } else { 0 };
        let left = total.saturating_sub(t0.elapsed()) / (hs.len() - n + after) as u32;
        log::set_max_level(level(h));
        let r = explore(h, tier, workers, left.max(Duration::from_secs(5)), &keys);
        exhaustive &= !r.capped;
        // The harness takes part in the identity of states and cases.
        states += r.rec.states.len() as u64;
        trans += r.rec.trans.len() as u64;
        let nt = r.rec.cases.len() as u64 + r.rec.distinct_extra;
        nontrivial += nt;
        parts.push(format!(
            "{{\"harness\": {}, \"enumerates\": {}, \"deviation_bound\": {}, \"executions\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {nt}, \"states\": {}, \"transitions\": {}, \"choice_points\": {}, \"max_depth\": {}, \"complete\": {}, \"wall_s\": {:.3}}}",
            js(h.name), js(h.what), tier.b(h.devs.0, h.devs.1), r.rec.execs, r.rec.evals, r.rec.states.len(),
            r.rec.trans.len(), r.rec.choice_points, r.rec.max_depth, !r.capped, r.wall
        ));
        outln!(
            "{}: {} executions, {} evaluations, {} states, {} transitions, {:.2} s{}",
            h.name, r.rec.execs, r.rec.evals, r.rec.states.len(), r.rec.trans.len(), r.wall,
            if r.capped { " (stopped at the time limit)" } else { "" }
        );
        let Report { mut rec, found, engine_error, .. } = r;
        rec.states = U64Set::default();
        rec.trans = U64Set::default();
        rec.cases = U64Set::default();
        rec.samples.truncate(3);
        all.execs += rec.execs;
        all.evals += rec.evals;
        all.validated += rec.validated;
        all.choice_points += rec.choice_points;
        all.samples.extend(rec.samples);
        all.known.extend(rec.known);
        if let Some(f) = found {
            let note = if f.reproduced { "" } else { " (seen in the exploration, not when replayed alone: the outcome depends on what ran before)" };
            report_violation(prop, f.harness, tier, &f.choices, &f.viol.msg, note);
            violations += 1;
            code = 1;
            break;
        }
        if let Some(e) = engine_error {
            eprintln!("error of the check: {e}");
            code = 2;
            break;
        }
    }
    if part {
        for p in &parts {
            outln!("PART {p}");
        }
        for s in all.samples.iter().take(4) {
            outln!("SAMPLE {}", js(s));
        }
        let n = [states, trans, nontrivial, all.execs, all.evals, all.validated, all.choice_points, u64::from(exhaustive), violations];
        outln!("SUM {}", n.map(|n| n.to_string()).join(" "));
        drop(scratch);
        return code;
    }
    let mut samples: Vec<String> = all.samples.iter().take(12).map(|s| js(s)).collect();
    if let Some(bin) = other.filter(|_| code == 0) {
        match run_part(&bin, prop, total.saturating_sub(t0.elapsed())) {
            Ok(p) => {
                parts.extend(p.parts);
                samples.extend(p.samples);
                let [s, t, n, x, e, v, c, whole, bad] = p.sum;
                states += s;
                trans += t;
                nontrivial += n;
                all.execs += x;
                all.evals += e;
                all.validated += v;
                all.choice_points += c;
                exhaustive &= whole == 1;
                violations += bad.max(u64::from(p.code == 1));
                code = p.code;
            }
            Err(e) => {
                eprintln!("error of the check: {e}");
                code = 2;
            }
        }
    }
    for (key, what) in &kn {
        if all.known.iter().any(|k| &k.0 == key) {
            outln!("KNOWN-FINDING: property={prop} {what}");
        }
    }
    let tier_s = tier.b("quick", "thorough");
    if samples.is_empty() {
        samples.push(js("see harnesses"));
    }
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {states}, \"transitions\": {trans}, \"traces_validated_against_impl\": {}, \"executions\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {nontrivial}, \"choice_points\": {}, \"rule\": {}, \"exhaustive\": {exhaustive}, \"harnesses\": [{}], \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {violations}}}\n",
        js(prop),
        js(tier_s),
        all.validated,
        all.execs,
        all.evals,
        all.choice_points,
        js("every sequence of choices of every harness is executed (within the bounds of this tier); a case counts once per harness by its content, when it reaches the property (a parsed, rendered or written input compared with the reference model)"),
        parts.join(", "),
        samples.join(", "),
        js("the reference models of /verif/mc are right; the bounds of each harness; rustc, std and the dependencies of the library"),
        t0.elapsed().as_secs_f64()
    );
    let dir = base().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{prop}.json")), ev) {
        eprintln!("cannot write the evidence file: {e}");
        code = if code == 0 { 2 } else { code };
    }
    drop(scratch);
    if code == 0 {
        outln!("OK property={prop} tier={tier_s} {:.1} s", t0.elapsed().as_secs_f64());
    }
    code
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let p = t.find(&format!("\"{k}\": "))? + k.len() + 4;
    Some(&t[p..])
}

fn do_replay(p: &Path) -> i32 {
    let t = std::fs::read_to_string(p).expect("replay file");
    let word = |k| field(&t, k).and_then(|s| s.strip_prefix('"')).and_then(|s| s.split('"').next()).unwrap_or("").to_string();
    let (prop, name) = (word("property"), word("harness"));
    let tier = if word("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let choices: Vec<u32> = field(&t, "choices")
        .and_then(|s| s.strip_prefix('['))
        .and_then(|s| s.split(']').next())
        .unwrap_or("")
        .split(',')
        .filter_map(|s| s.trim().parse().ok())
        .collect();
    let Some(h) = harnesses().into_iter().find(|h| h.name == name) else {
        eprintln!("no harness {name}");
        return 2;
    };
    install_hooks();
    logging(h);
    let scratch = scratch_dir();
    let sdir = scratch.0.clone();
    let pr = prop.clone();
    watchdog(move |_, _, why| {
        outln!("{why}");
        outln!("VIOLATION property={pr} replay=-");
        let _ = std::fs::remove_dir_all(&sdir);
    });
    let r = replay(h, tier, &choices, true);
    match r {
        Ok(Ok(())) => {
            outln!("{name} {choices:?}: no violation");
            0
        }
        Ok(Err(v)) => {
            outln!("{name} {choices:?}: {}", v.msg);
            outln!("VIOLATION property={prop} replay={}", p.display());
            1
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
