//! Properties of times and of the text formats that are written.

use crate::engine::*;
use crate::viol;
use std::fmt::Write as _;
use std::io::{self, ErrorKind, Write};
use subtile::srt::{self, TimePointSrt};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::TimePointIdx;
use subtile::webvtt::{self, TimePointVtt};

/// The reference: digits written one by one from the magnitude.
fn stamp(o: &mut String, ms: i64, sep: char) {
    let mut t = i128::from(ms);
    if t < 0 {
        o.push('-');
        t = -t;
    }
    let mut rest = [0u8; 7]; // MMSSmmm
    let mut v = t;
    for (k, base) in [(6, 10), (5, 10), (4, 10), (3, 10), (2, 6), (1, 10), (0, 6)] {
        rest[k] = b'0' + (v % base) as u8;
        v /= base;
    }
    let mut hours = vec![];
    while v > 0 || hours.len() < 2 {
        hours.push(b'0' + (v % 10) as u8);
        v /= 10;
    }
    for d in hours.iter().rev() {
        o.push(*d as char);
    }
    for (k, d) in rest.iter().enumerate() {
        match k {
            0 | 2 => o.push(':'),
            4 => o.push(sep),
            _ => {}
        }
        o.push(*d as char);
    }
}
fn st(ms: i64, sep: char) -> String {
    let mut o = String::new();
    stamp(&mut o, ms, sep);
    o
}

struct Bufs {
    got: String,
    want: String,
}
impl Bufs {
    fn new() -> Self {
        Bufs { got: String::with_capacity(64), want: String::with_capacity(64) }
    }
    fn same(&mut self, ms: i64) -> bool {
        let t = TimePoint::from_msecs(ms);
        for (k, sep) in [',', '.', ':'].into_iter().enumerate() {
            self.got.clear();
            self.want.clear();
            let r = match k {
                0 => write!(self.got, "{}", TimePointSrt::from(t)),
                1 => write!(self.got, "{}", TimePointVtt::from(t)),
                _ => write!(self.got, "{}", TimePointIdx::from(t)),
            };
            stamp(&mut self.want, ms, sep);
            if r.is_err() || self.got != self.want {
                return false;
            }
        }
        true
    }
}
/// All of the times that `next` gives.
fn all_same(h: &str, times: impl Iterator<Item = i64> + Clone) -> Result<u64, Viol> {
    let mut last = 0;
    let mut n = 0;
    let r = guard(|| {
        let mut b = Bufs::new();
        for t in times {
            last = t;
            n += 1;
            if !b.same(t) {
                return Err((b.got, b.want));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(n),
        Ok(Err((g, w))) => viol!(format!("{h}:{last}"), "{last} ms is written as {g:?}, expected {w:?}"),
        Err(e) => viol!(format!("{h}:{last}"), "{last} ms: writing panics: {e}"),
    }
}

fn s01_digits(ch: &mut Ch) -> R {
    // Every minute and second of hours around each number of digits, both signs.
    let hours: Vec<i64> = {
        let mut h = vec![0, 1, 2, 9, 10, 11, 23, 24, 25, 59, 60, 61, 99, 100, 101, 255, 256, 596, 597, 999, 1000, 1193, 2_562_047_788_014, 2_562_047_788_015];
        let mut p = 10_000i64;
        while p < 2_000_000_000_000 {
            h.extend([p - 1, p]);
            p *= 10;
        }
        h
    };
    let h = *ch.pick(&hours);
    let m = ch.choose(60) as i64;
    let ms: &[i64] = ch.tier.b(&[0, 1, 9, 10, 99, 100, 101, 500, 990, 999][..], &[0, 1, 2, 5, 9, 10, 11, 19, 90, 99, 100, 101, 109, 110, 199, 499, 500, 501, 900, 909, 990, 998, 999][..]);
    let base = i128::from(h) * 3_600_000 + i128::from(m) * 60_000;
    let times = (0..60i64).flat_map(move |s| ms.iter().map(move |x| s * 1000 + x)).flat_map(move |x| {
        let t = base + i128::from(x);
        [t, -t].into_iter().filter_map(|t| i64::try_from(t).ok())
    });
    let n = all_same("S01.digits", times)?;
    ch.walk(&[h64(&("hour", h)), h64(&("hour", h, m))]);
    ch.evals(n);
    ch.validated(n * 3);
    ch.sample(|| format!("S01.digits: {n} times from {} on", st((base.min(i128::from(i64::MAX))) as i64, ',')));
    Ok(())
}
fn s01_days(ch: &mut Ch) -> R {
    // Every millisecond.
    let block = ch.choose(ch.tier.b(2 * 3600, 101 * 3600)) as i64;
    let neg = ch.flag();
    let n = all_same("S01.days", (0..1000i64).map(|x| (block * 1000 + x) * if neg { -1 } else { 1 }))?;
    ch.walk(&[h64(&("block", block / 60, neg)), h64(&("block", block, neg))]);
    ch.evals(n);
    ch.validated(n * 3);
    Ok(())
}
fn s01_extremes(ch: &mut Ch) -> R {
    // Sums and differences of powers of two and of units, the limits of the type.
    let a = ch.choose(64);
    let b = ch.choose(64);
    let units = [0i64, 1, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 86_400_000];
    let mut v = vec![];
    for u in units {
        for x in [1i64.wrapping_shl(a as u32), i64::MIN.wrapping_shr(a as u32), i64::MAX >> a] {
            for y in [0, 1i64.wrapping_shl(b as u32), -1] {
                v.extend([x.wrapping_add(y).wrapping_add(u), x.wrapping_sub(y).wrapping_sub(u)]);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    let n = all_same("S01.extremes", v.iter().copied())?;
    ch.walk(&[h64(&("bit", a)), h64(&("bits", a, b))]);
    for x in v {
        ch.eval(h64(&x), true);
    }
    ch.validated(n * 3);
    Ok(())
}

// ================================================================ S02, S03

const TIMES: [i64; 9] = [0, 1, 999, 1000, 59_999, 3_599_999, 360_000_000, -1, -3_600_000];
const TEXTS: [&str; 14] = [
    "",
    "a",
    "two\nlines",
    "\n",
    "ends with a newline\n",
    "a\n\nb",
    "1\n00:00:00,000 --> 00:00:01,000\nnested",
    "crlf\r\nline",
    "  spaces  ",
    "\u{feff}\u{e9}\u{4e2d}\u{1f600}",
    "{} {0} {{x}} %s \\n",
    "<i>x</i> & y",
    "\0\u{7f}\u{1b}",
    "--> ,.:",
];

pub fn cue(o: &mut Vec<u8>, head: Option<u128>, t: &TimeSpan, text: &str, sep: char) {
    if let Some(n) = head {
        o.extend(n.to_string().bytes());
        o.push(b'\n');
    }
    o.extend(st(t.start.msecs(), sep).bytes());
    o.extend(b" --> ");
    o.extend(st(t.end.msecs(), sep).bytes());
    o.push(b'\n');
    o.extend(text.bytes());
    o.extend(b"\n\n");
}
pub fn span(a: i64, b: i64) -> TimeSpan {
    TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b))
}
fn srt_ref(subs: &[(TimeSpan, String)]) -> Vec<u8> {
    let mut o = vec![];
    for (i, (t, s)) in subs.iter().enumerate() {
        cue(&mut o, Some(i as u128 + 1), t, s, ',');
    }
    o
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 300 {
        format!("{:?}... ({} bytes)", s.chars().take(300).collect::<String>(), b.len())
    } else {
        format!("{s:?}")
    }
}
pub fn written(h: &str, key: u64, what: &str, r: Result<(io::Result<()>, Vec<u8>), String>, want: &[u8]) -> R {
    let key = format!("{h}:{key:016x}");
    match r {
        Ok((Ok(()), got)) if got == want => Ok(()),
        Ok((Ok(()), got)) => viol!(key, "{what} writes {}, expected {}", show(&got), show(want)),
        Ok((Err(e), _)) => viol!(key, "{what} fails: {e:?}"),
        Err(e) => viol!(key, "{what} panics: {e}"),
    }
}
fn srt_check(ch: &mut Ch, h: &str, subs: &[(TimeSpan, String)]) -> R {
    let want = srt_ref(subs);
    let k = h64(&want);
    let r = guard(|| {
        let mut o = vec![];
        let r = srt::write_srt(&mut o, subs);
        (r, o)
    });
    written(h, k, "write_srt", r, &want)?;
    // One line after the other into the same writer.
    let r = guard(|| {
        let mut o = vec![];
        let r = subs.iter().enumerate().try_for_each(|(i, (t, s))| srt::write_line(&mut o, i + 1, t, s));
        (r, o)
    });
    written(h, k, "write_line for each subtitle", r, &want)?;
    // Into a fixed buffer of exactly the size.
    let r = guard(|| {
        let mut a = vec![0u8; want.len()];
        let mut c = &mut a[..];
        let r = srt::write_srt(&mut c, subs);
        (r, a)
    });
    written(h, k, "write_srt into a slice", r, &want)?;
    let mut tr = vec![h64("srt")];
    for (i, s) in subs.iter().enumerate() {
        tr.push(h64(&(i, s.0.start, s.0.end, &s.1)));
    }
    ch.walk(&tr);
    ch.eval(k, !subs.is_empty());
    ch.validated(3);
    ch.sample(|| format!("{h}: {}", show(&want)));
    Ok(())
}
fn s02_docs(ch: &mut Ch) -> R {
    let mut subs = vec![];
    for _ in 0..ch.tier.b(3, 4) {
        let k = ch.choose(1 + 4 * TEXTS.len());
        if k == 0 {
            break;
        }
        let n = subs.len();
        let t = [span(0, 1000), span(TIMES[5], TIMES[6] + n as i64), span(2000, 1999), span(-1, 0)][(k - 1) % 4];
        subs.push((t, TEXTS[(k - 1) / 4].to_string()));
    }
    srt_check(ch, "S02.docs", &subs)
}
fn s02_times(ch: &mut Ch) -> R {
    let mut subs = vec![];
    for _ in 0..2 {
        let a = *ch.pick(&TIMES);
        let b = *ch.pick(&TIMES);
        subs.push((span(a, b), "text".to_string()));
    }
    srt_check(ch, "S02.times", &subs)
}
fn s02_long(ch: &mut Ch) -> R {
    // Documents of every length.
    let n = if ch.flag() {
        *ch.pick(ch.tier.b(&[255, 256, 257, 999, 1000, 1001, 9_999, 10_001, 65_535, 65_537, 100_001][..], &[255, 256, 257, 999, 1000, 1001, 9_999, 10_001, 65_535, 65_537, 100_001, 1_000_001][..]))
    } else {
        ch.choose(130)
    };
    let subs: Vec<_> = (0..n as i64).map(|i| (span(i * 1500, i * 1500 + 1499), TEXTS[(i % 14) as usize].to_string())).collect();
    srt_check(ch, "S02.long", &subs)
}
fn s02_line(ch: &mut Ch) -> R {
    let n = *ch.pick(&[0usize, 1, 2, 9, 10, 99, 100, 12345, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]);
    let t = span(*ch.pick(&TIMES), *ch.pick(&TIMES));
    let s = *ch.pick(&TEXTS);
    let before: &[u8] = if ch.flag() { b"before" } else { b"" };
    let mut want = before.to_vec();
    cue(&mut want, Some(n as u128), &t, s, ',');
    let r = guard(|| {
        let mut o = before.to_vec();
        let r = srt::write_line(&mut o, n, &t, s);
        (r, o)
    });
    written("S02.line", h64(&want), "srt::write_line", r, &want)?;
    ch.walk(&[h64(&n), h64(&want)]);
    ch.eval(h64(&want), true);
    ch.validated(1);
    Ok(())
}
fn s02_text(ch: &mut Ch) -> R {
    text(ch, 0)
}
fn s03_text(ch: &mut Ch) -> R {
    text(ch, 1)
}
fn text(ch: &mut Ch, f: usize) -> R {
    // Texts of every length and the first characters, verbatim.
    const TOKENS: [&str; 12] = ["a", "\n", "\r", " ", "\t", "-->", "<", "&", "1", "\0", "\u{e9}", "\u{1f600}"];
    let (text, n): (String, usize) = match ch.choose(4) {
        3 => {
            // All words.
            let mut s = String::new();
            for _ in 0..ch.tier.b(5, 6) {
                let k = ch.choose(TOKENS.len() + 1);
                if k == 0 {
                    break;
                }
                s.push_str(TOKENS[k - 1]);
            }
            (s, 3)
        }
        0 => {
            let c = ch.choose(0x500) as u32;
            match char::from_u32(c) {
                Some(c) => (format!("a{c}b{c}"), c as usize),
                None => return Ok(()),
            }
        }
        1 => {
            let n = ch.choose(ch.tier.b(3000, 20000));
            ("x\n".repeat(n), n)
        }
        _ => {
            let n = *ch.pick(&[1023usize, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 1 << 20]);
            ("\u{e9}".repeat(n), n)
        }
    };
    let t = span(1, 2);
    {
        let mut want = vec![];
        cue(&mut want, (f == 0).then_some(1), &t, &text, [',', '.'][f]);
        let r = guard(|| {
            let mut o = vec![];
            let r = if f == 0 { srt::write_srt(&mut o, &[(t, text.clone())]) } else { webvtt::write_line(&mut o, &t, &text) };
            (r, o)
        });
        written(["S02.text", "S03.text"][f], h64(&want), ["write_srt", "webvtt::write_line"][f], r, &want)?;
        ch.eval(h64(&want), true);
        ch.validated(1);
    }
    ch.walk(&[h64(&n), h64(&text)]);
    Ok(())
}
fn s03_cues(ch: &mut Ch) -> R {
    // Words of cues into the same writer.
    let mut want = vec![];
    let mut cues = vec![];
    for _ in 0..ch.tier.b(2, 3) {
        let k = ch.choose(1 + 20 * TEXTS.len());
        if k == 0 {
            break;
        }
        let a = TIMES[(k - 1) % 20 % 9];
        let b = TIMES[((k - 1) % 20 * 2 + 1) % 9];
        cues.push((span(a, b), TEXTS[(k - 1) / 20]));
    }
    for (t, s) in &cues {
        cue(&mut want, None, t, s, '.');
    }
    let r = guard(|| {
        let mut o = vec![];
        let r = cues.iter().try_for_each(|(t, s)| webvtt::write_line(&mut o, t, s));
        (r, o)
    });
    written("S03.cues", h64(&want), "webvtt::write_line", r, &want)?;
    let mut tr = vec![h64("vtt")];
    for (i, s) in cues.iter().enumerate() {
        tr.push(h64(&(i, s.0.start, s.0.end, &s.1)));
    }
    ch.walk(&tr);
    ch.eval(h64(&want), !cues.is_empty());
    ch.validated(1);
    ch.sample(|| format!("S03.cues: {}", show(&want)));
    Ok(())
}
fn s03_times(ch: &mut Ch) -> R {
    let a = TIMES[ch.choose(9)] + ch.choose(3) as i64;
    let b = TIMES[ch.choose(9)] - ch.choose(3) as i64;
    let mut want = vec![];
    cue(&mut want, None, &span(a, b), "t", '.');
    let r = guard(|| {
        let mut o = vec![];
        let r = webvtt::write_line(&mut o, &span(a, b), "t");
        (r, o)
    });
    written("S03.times", h64(&want), "webvtt::write_line", r, &want)?;
    ch.walk(&[h64(&a), h64(&(a, b))]);
    ch.eval(h64(&want), true);
    ch.validated(1);
    Ok(())
}

// ================================================================ S04

/// A writer whose answers are chosen: each call may take less, be interrupted,
/// take nothing or fail.
struct Faulty<'a, 'b> {
    ch: &'a mut Ch<'b>,
    got: Vec<u8>,
    default: usize,
    stop: Option<ErrorKind>,
    /// It fails but once: what follows is taken.
    once: bool,
    calls: usize,
    tr: Vec<u64>,
}
const KINDS: [ErrorKind; ERROR_KINDS.len()] = ERROR_KINDS;
impl Write for Faulty<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.stop.is_some() {
            if self.once {
                self.got.extend(b);
                return Ok(b.len());
            }
            return Err(ErrorKind::Other.into());
        }
        self.calls += 1;
        let c = self.ch.dev(5 + KINDS.len());
        if c != 0 {
            self.tr.push(h64(&(self.got.len(), c)));
        }
        let n = match c {
            0 => self.default,
            1 => return Err(ErrorKind::Interrupted.into()),
            2 => 1,
            3 => b.len().div_ceil(2),
            4 => {
                self.stop = Some(ErrorKind::WriteZero);
                return Ok(0);
            }
            k => {
                self.stop = Some(KINDS[k - 5]);
                return Err(KINDS[k - 5].into());
            }
        };
        let n = n.min(b.len());
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn faulty(ch: &mut Ch, h: &str, want: &[u8], default: usize, f: impl Fn(&mut Faulty) -> io::Result<()>) -> R {
    let once = ch.flag();
    let mut w = Faulty { ch, got: vec![], default, stop: None, once, calls: 0, tr: vec![h64(&(want, default, once))] };
    let r = guard(|| f(&mut w));
    let Faulty { got, stop, tr, calls, .. } = w;
    let k = h64(&tr);
    let key = format!("{h}:{k:016x}");
    ch.walk(&tr);
    ch.eval(k, tr.len() > 1);
    let r = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "writing panics: {e}"),
    };
    match (stop, &r) {
        (None, Ok(())) if got == want => {}
        (None, _) => viol!(key, "without any failure of the writer ({calls} calls): {r:?}, wrote {}, expected {}", show(&got), show(want)),
        (Some(_), Ok(())) => viol!(key, "the writer failed after {} of {} bytes, and success is reported", got.len(), want.len()),
        (Some(k), Err(e)) => {
            if e.kind() != k {
                viol!(key, "the writer failed with {k:?}, reported as {e:?}");
            }
            if !want.starts_with(&got) {
                viol!(key, "what was written before the failure is not the start of the output: {}", show(&got));
            }
        }
    }
    ch.validated(1);
    ch.sample(|| format!("{h}: {} of {} bytes, stopped by {stop:?}", got.len(), want.len()));
    Ok(())
}
fn s04_srt(ch: &mut Ch) -> R {
    let n = ch.range(1, ch.tier.b(2, 3));
    let default = *ch.pick(&[usize::MAX, 7, 1]);
    let subs: Vec<_> = (0..n).map(|i| (span(i as i64 * 1000, 90 * 3_600_000), ["one", "two\nlines", ""][i].to_string())).collect();
    let want = srt_ref(&subs);
    faulty(ch, "S04.srt", &want, default, |w| srt::write_srt(w, &subs))
}
fn s04_lines(ch: &mut Ch) -> R {
    let vtt = ch.flag();
    let default = *ch.pick(&[usize::MAX, 5, 2, 1]);
    let s = *ch.pick(&["x", "a longer text\nof two lines", ""]);
    let t = span(-5, 3_600_123);
    let mut want = vec![];
    cue(&mut want, (!vtt).then_some(42), &t, s, if vtt { '.' } else { ',' });
    faulty(ch, "S04.lines", &want, default, |w| if vtt { webvtt::write_line(w, &t, s) } else { srt::write_line(w, 42, &t, s) })
}
/// Takes little at a time, and is interrupted as often as that before each time.
struct Stormy {
    got: Vec<u8>,
    at: usize,
    storm: usize,
    left: usize,
    chunk: usize,
}
impl Write for Stormy {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left > 0 && (self.at == usize::MAX || self.got.len() >= self.at) {
            self.left -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.at == usize::MAX {
            self.left = self.storm;
        }
        let n = self.chunk.min(b.len());
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn s04_storm(ch: &mut Ch) -> R {
    // Any number of interruptions in a row, before one of the writes or before all.
    let kind = ch.choose(3);
    let subs: Vec<_> = (0..2).map(|i| (span(i as i64 * 1000, 90 * 3_600_000), ["one", "two\nlines"][i].to_string())).collect();
    let mut want = vec![];
    match kind {
        0 => want = srt_ref(&subs),
        _ => cue(&mut want, (kind == 1).then_some(7), &subs[1].0, &subs[1].1, if kind == 1 { ',' } else { '.' }),
    }
    let storm = *ch.pick(&crate::p_idx::STORMS);
    let chunk = *ch.pick(&[1usize, 5, usize::MAX]);
    let all = storm < 300 && ch.flag();
    let at = if all { usize::MAX } else { ch.choose(want.len()) };
    let key = format!("S04.storm:{kind}:{storm}:{chunk}:{at}");
    let mut w = Stormy { got: vec![], at, storm, left: storm, chunk };
    let r = guard(|| {
        match kind {
            0 => srt::write_srt(&mut w, &subs),
            1 => srt::write_line(&mut w, 7, &subs[1].0, &subs[1].1),
            _ => webvtt::write_line(&mut w, &subs[1].0, &subs[1].1),
        }
        .map_err(|e| e.kind())
    });
    ch.walk(&[h64(&("storm", kind, at)), h64(&("storm", kind, at, storm, chunk))]);
    ch.eval(h64(&key), true);
    if r != Ok(Ok(())) || w.got != want {
        viol!(key, "interrupted {storm} times at {at}, writes of {chunk}: {r:?}, wrote {}, expected {}", show(&w.got), show(&want));
    }
    ch.validated(1);
    Ok(())
}
/// A cause of an error that can be told from others.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Cause(pub u32);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cause {}", self.0)
    }
}
impl std::error::Error for Cause {}
/// The errors of three kinds: of the system, with a cause, and simple ones.
pub fn some_error(k: usize) -> io::Error {
    match k {
        0..=5 => io::Error::from_raw_os_error([libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EACCES, libc::EFBIG, 5000][k]),
        6 => io::Error::other(Cause(7)),
        7 => io::Error::new(ErrorKind::BrokenPipe, Cause(8)),
        8 => io::Error::new(ErrorKind::UnexpectedEof, Cause(9)),
        9 => io::Error::new(ErrorKind::InvalidData, Cause(10)),
        10 => io::Error::new(ErrorKind::WouldBlock, "a text"),
        _ => ErrorKind::TimedOut.into(),
    }
}
pub const SOME_ERRORS: usize = 12;
/// What tells an error from others: kind, number of the system, cause, text.
pub fn face(e: &io::Error) -> (ErrorKind, Option<i32>, Option<Cause>, String) {
    (e.kind(), e.raw_os_error(), e.get_ref().and_then(|c| c.downcast_ref::<Cause>()).copied(), e.to_string())
}
struct Breaks {
    got: Vec<u8>,
    at: usize,
    k: usize,
    /// Fails but once, else for ever.
    once: bool,
}
impl Write for Breaks {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.at - self.got.len());
        if n == 0 && !b.is_empty() {
            if self.once {
                self.at = usize::MAX;
            }
            return Err(some_error(self.k));
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn s04_errors(ch: &mut Ch) -> R {
    // The error that is returned is the one of the output: kind, number, cause and text.
    let kind = ch.choose(3);
    let subs: Vec<_> = (0..3).map(|i| (span(i as i64 * 1000, 90 * 3_600_000), ["one", "two\nlines", ""][i].to_string())).collect();
    let mut want = vec![];
    match kind {
        0 => want = srt_ref(&subs),
        _ => cue(&mut want, (kind == 1).then_some(7), &subs[1].0, &subs[1].1, if kind == 1 { ',' } else { '.' }),
    }
    let at = ch.choose(want.len());
    let k = ch.choose(SOME_ERRORS);
    let once = ch.flag();
    let key = format!("S04.errors:{kind}:{at}:{k}:{once}");
    let mut w = Breaks { got: vec![], at, k, once };
    let r = guard(|| match kind {
        0 => srt::write_srt(&mut w, &subs),
        1 => srt::write_line(&mut w, 7, &subs[1].0, &subs[1].1),
        _ => webvtt::write_line(&mut w, &subs[1].0, &subs[1].1),
    });
    ch.walk(&[h64(&("errors", kind, at)), h64(&("errors", kind, at, k, once))]);
    ch.eval(h64(&key), true);
    match r {
        Ok(Err(e)) if face(&e) == face(&some_error(k)) && (w.got == want[..at] || once && want.starts_with(&w.got)) => {}
        o => viol!(key, "the output fails after {at} bytes with {:?}: {o:?}, wrote {}", some_error(k), show(&w.got)),
    }
    ch.validated(1);
    Ok(())
}
fn s04_full(ch: &mut Ch) -> R {
    // A slice too short by any number of bytes: what fits is the start of the output.
    let subs: Vec<_> = (0..3i64).map(|i| (span(i * 1000, i * 1000 + 900), TEXTS[2 + i as usize].to_string())).collect();
    let want = srt_ref(&subs);
    let n = ch.choose(want.len());
    let r = guard(|| {
        let mut a = vec![0u8; n];
        let mut c = &mut a[..];
        let r = srt::write_srt(&mut c, &subs).map_err(|e| e.kind());
        let left = c.len();
        (r, left, a)
    });
    ch.walk(&[h64(&("full", n))]);
    ch.eval(n as u64, true);
    match r {
        Ok((Err(ErrorKind::WriteZero), left, a)) if want.starts_with(&a[..n - left]) => {}
        o => viol!(format!("S04.full:{n}"), "writing {} bytes into {n}: {o:?}", want.len()),
    }
    ch.validated(1);
    Ok(())
}

// ================================================================ S05

fn interesting() -> Vec<i64> {
    let mut v = vec![i64::MAX, i64::MAX - 1, i64::MIN + 1, i64::MIN + 2];
    for k in 0..63 {
        for d in [-1, 0, 1] {
            v.extend([(1i64 << k) + d, -(1i64 << k) + d]);
        }
    }
    let mut p = 1i64;
    for _ in 0..18 {
        v.extend([p - 1, p, p + 1, -p, 3 * (p / 2)]);
        p *= 10;
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn s05_msecs(ch: &mut Ch) -> R {
    let vs = interesting();
    let a = *ch.pick(&vs);
    let mut n = 0;
    let r = guard(|| {
        for &b in &vs {
            n += 1;
            let (x, y) = (TimePoint::from_msecs(a), TimePoint::from_msecs(b));
            let s = TimeSpan::new(x, y);
            let ok = x.msecs() == a
                && (x == y) == (a == b)
                && x.cmp(&y) == a.cmp(&b)
                && x.partial_cmp(&y) == a.partial_cmp(&b)
                && (x < y) == (a < b)
                && (a == i64::MIN || (-x).msecs() == -a)
                && (x == y) == (h64(&x) == h64(&y))
                && s.start == x
                && s.end == y
                && s == TimeSpan { start: x, end: y }
                && (s == TimeSpan::new(y, x)) == (a == b)
                && (s == TimeSpan::new(x, x)) == (a == b);
            if !ok {
                return Some(b);
            }
        }
        None
    });
    ch.walk(&[h64(&a)]);
    ch.evals(n);
    match r {
        Ok(None) => {}
        o => viol!(format!("S05.msecs:{a}"), "times of {a} ms and another: {o:?}"),
    }
    ch.validated(n);
    Ok(())
}
fn s05_secs(ch: &mut Ch) -> R {
    // To seconds exactly (to the nearest number); from seconds to the millisecond before.
    let block = ch.choose(ch.tier.b(400_000, 4_000_000)) as i64;
    let mut n = 0;
    let r = guard(|| {
        for i in 0..100i64 {
            let ms = block * 100 + i;
            for ms in [ms, -ms] {
                n += 1;
                let s = TimePoint::from_msecs(ms).to_secs();
                if s != ms as f64 / 1000.0 {
                    return Some((ms, s));
                }
                // A quarter, a half and three quarters of a millisecond after (towards the sign).
                for q in [0.25f64, 0.5, 0.75] {
                    let x = s + q * 0.001 * if ms < 0 { -1.0 } else { 1.0 };
                    if TimePoint::from_secs(x).msecs() != ms {
                        return Some((ms, x));
                    }
                }
                let back = TimePoint::from_secs(s).msecs();
                // The nearest binary number may be under it.
                if (back - ms).abs() > 1 || back.abs() > ms.abs() {
                    return Some((ms, s));
                }
            }
        }
        None
    });
    ch.walk(&[h64(&("s", block / 36_000)), h64(&("s", block))]);
    ch.evals(n);
    match r {
        Ok(None) => {}
        o => viol!(format!("S05.secs:{block}"), "conversion between {} ms and seconds: (ms, seconds) = {o:?}", block * 100),
    }
    ch.validated(n);
    Ok(())
}
fn s05_whole(ch: &mut Ch) -> R {
    // Whole seconds and numbers that are exact in binary, up to the limits.
    let k = ch.choose(44);
    let d = ch.choose(5) as i64 - 2;
    let s = (1i64 << k) + d;
    let mut n = 0;
    let r = guard(|| {
        for (f, m) in [(0.0, 0i64), (0.5, 500), (0.25, 250), (0.125, 125), (0.75, 750)] {
            for neg in [false, true] {
                n += 1;
                let x = s as f64 + f;
                let t = s * 1000 + m;
                let (x, t) = if neg { (-x, -t) } else { (x, t) };
                // Exact as long as the product is.
                if t.abs() < 1 << 53 && TimePoint::from_secs(x).msecs() != t {
                    return Some((x, t));
                }
            }
        }
        None
    });
    ch.walk(&[h64(&k), h64(&s)]);
    ch.evals(n);
    match r {
        Ok(None) => {}
        o => viol!(format!("S05.whole:{s}"), "from {s} seconds: {o:?}"),
    }
    ch.validated(n);
    Ok(())
}

/// What a number of seconds may give: the exact product truncated, and the nearest product truncated.
fn from_secs_allowed(x: f64) -> [Option<i64>; 2] {
    let near = (x * 1000.0).trunc();
    let near = (near >= -(2f64.powi(63)) && near < 2f64.powi(63)).then_some(near as i64);
    if !x.is_finite() {
        return [None, None];
    }
    let bits = x.to_bits();
    let (e, m) = ((bits >> 52 & 0x7ff) as i32, bits & ((1 << 52) - 1));
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let exact = if m == 0 || e < -63 {
        Some(0)
    } else if e > 60 {
        None
    } else {
        let p = i128::from(m) * 1000;
        let p = if e < 0 { p >> -e } else { p << e };
        i64::try_from(if x < 0.0 { -p } else { p }).ok()
    };
    [exact, near]
}
fn s05_limits(ch: &mut Ch) -> R {
    // Every exponent x mantissas around each bit x both signs: with infinities and what is not a number.
    let e = ch.choose(2048) as u64;
    let mut ms: Vec<u64> = vec![0];
    for k in 0..52 {
        for j in [0, 1, 7, 20] {
            ms.extend([1u64 << k | j, (1u64 << k) - 1, ((1u64 << 52) - 1) & !(1u64 << k), ((1 << 52) - (1u64 << k)) | j]);
        }
    }
    ms.retain(|m| *m < 1 << 52);
    ms.sort_unstable();
    ms.dedup();
    let mut n = 0;
    for &m in &ms {
        for neg in [0u64, 1] {
            n += 1;
            let x = f64::from_bits(neg << 63 | e << 52 | m);
            let want = from_secs_allowed(x);
            let got = guard(|| TimePoint::from_secs(x).msecs());
            let ok = match &got {
                Ok(t) => want.contains(&Some(*t)),
                Err(_) => want.contains(&None),
            };
            if !ok {
                viol!(format!("S05.limits:{e}:{m}:{neg}"), "from {x:e} seconds: {got:?}, wanted one of {want:?}");
            }
        }
    }
    ch.walk(&[h64(&("e", e / 64)), h64(&("e", e))]);
    ch.evals(n);
    ch.validated(n);
    Ok(())
}

pub const H: &[Harness] = &[
    Harness { prop: "S01", name: "S01.digits", what: "hours around each number of digits x all minutes x all seconds x 10 (23) milliseconds x both signs x 3 formats", devs: (0, 0), serial: false, run: s01_digits },
    Harness { prop: "S01", name: "S01.days", what: "every millisecond of 2 (101) hours x both signs x 3 formats", devs: (0, 0), serial: false, run: s01_days },
    Harness { prop: "S01", name: "S01.extremes", what: "sums of powers of two, units and limits of the type x 3 formats", devs: (0, 0), serial: false, run: s01_extremes },
    Harness { prop: "S02", name: "S02.docs", what: "all documents of up to 3 (4) subtitles over 56 kinds x 3 ways to write", devs: (0, 0), serial: false, run: s02_docs },
    Harness { prop: "S02", name: "S02.times", what: "all times of documents of 2 subtitles over 9 values", devs: (0, 0), serial: false, run: s02_times },
    Harness { prop: "S02", name: "S02.long", what: "documents of every length to 129 and around powers of two and ten", devs: (0, 0), serial: false, run: s02_long },
    Harness { prop: "S02", name: "S02.line", what: "numbers x times x texts x what the writer holds", devs: (0, 0), serial: false, run: s02_line },
    Harness { prop: "S02", name: "S02.text", what: "characters and lengths of texts, all words of up to 5 (6) of 12 tokens", devs: (0, 0), serial: false, run: s02_text },
    Harness { prop: "S03", name: "S03.cues", what: "all words of up to 2 (3) cues over 280 kinds", devs: (0, 0), serial: false, run: s03_cues },
    Harness { prop: "S03", name: "S03.times", what: "pairs of times", devs: (0, 0), serial: false, run: s03_times },
    Harness { prop: "S03", name: "S03.text", what: "characters and lengths of texts, all words of up to 5 (6) of 12 tokens", devs: (0, 0), serial: false, run: s03_text },
    Harness { prop: "S04", name: "S04.srt", what: "every place for short, interrupted, refused and failing writes (failing once or for ever) within the deviation bound", devs: (2, 3), serial: false, run: s04_srt },
    Harness { prop: "S04", name: "S04.lines", what: "the same for one line of each format", devs: (2, 3), serial: false, run: s04_lines },
    Harness { prop: "S04", name: "S04.storm", what: "up to 70000 interruptions in a row before any byte or before all of them x write sizes", devs: (0, 0), serial: false, run: s04_storm },
    Harness { prop: "S04", name: "S04.errors", what: "a failure (once or for ever) after every number of bytes x 12 errors: kind, number, cause and text", devs: (0, 0), serial: false, run: s04_errors },
    Harness { prop: "S04", name: "S04.full", what: "buffers too short by every number of bytes", devs: (0, 0), serial: false, run: s04_full },
    Harness { prop: "S05", name: "S05.msecs", what: "pairs of times around powers of two and ten", devs: (0, 0), serial: false, run: s05_msecs },
    Harness { prop: "S05", name: "S05.secs", what: "every millisecond of 11 hours (111 hours), both signs, and quarters between", devs: (0, 0), serial: false, run: s05_secs },
    Harness { prop: "S05", name: "S05.limits", what: "numbers of seconds with every exponent and both signs x 300 mantissas around each bit, infinities and no numbers", devs: (0, 0), serial: false, run: s05_limits },
    Harness { prop: "S05", name: "S05.whole", what: "seconds around powers of two with binary fractions", devs: (0, 0), serial: false, run: s05_whole },
];
