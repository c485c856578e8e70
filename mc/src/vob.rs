//! VobSub: byte-level builder, independent reference decoder, and the reading
//! of the same bytes with the real library.

use crate::engine::{guard, h64, tell};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use subtile::image::ImageArea as _;
use subtile::time::TimeSpan;
use subtile::vobsub::{ErrorMissing, Sub, VobSubError, VobSubIndexedImage};

// ---------------------------------------------------------------- error kinds

pub const E_TIMING: u32 = 1;
pub const E_SHORT: u32 = 1 << 1;
pub const E_UNEXP_END: u32 = 1 << 2;
pub const E_U16: u32 = 1 << 3;
pub const E_CTRLSEQ: u32 = 1 << 4;
pub const E_BACK: u32 = 1 << 5;
pub const E_BIGGER: u32 = 1 << 6;
pub const E_CONTENT: u32 = 1 << 7;
pub const E_M_START: u32 = 1 << 8;
pub const E_M_AREA: u32 = 1 << 9;
pub const E_M_PAL: u32 = 1 << 10;
pub const E_M_ALPHA: u32 = 1 << 11;
pub const E_M_RLE: u32 = 1 << 12;
pub const E_SCAN: u32 = 1 << 13;
pub const E_IMAGE: u32 = 1 << 14;
pub const E_OTHER: u32 = 1 << 15;
pub const E_PES: u32 = 1 << 16;

pub fn kind(e: &VobSubError) -> u32 {
    tell(e);
    match e {
        VobSubError::MissingTimingForSubtitle => E_TIMING,
        VobSubError::PacketTooShort => E_SHORT,
        VobSubError::UnexpectedEndOfSubtitleData => E_UNEXP_END,
        VobSubError::BufferTooSmallForU16 => E_U16,
        VobSubError::ControlSequence(_) => E_CTRLSEQ,
        VobSubError::ControlOffsetWentBackwards => E_BACK,
        VobSubError::ControlOffsetBiggerThanPacket { .. } => E_BIGGER,
        VobSubError::Content(_) => E_CONTENT,
        VobSubError::MissingSubtitleParsing(m) => match m {
            ErrorMissing::StartTime => E_M_START,
            ErrorMissing::Area => E_M_AREA,
            ErrorMissing::Palette => E_M_PAL,
            ErrorMissing::AlphaPalette => E_M_ALPHA,
            ErrorMissing::RleOffset => E_M_RLE,
            _ => E_OTHER,
        },
        VobSubError::InvalidScanLineOffsets { .. } => E_SCAN,
        VobSubError::Image(_) => E_IMAGE,
        VobSubError::PESPacket(_) => E_PES,
        _ => E_OTHER,
    }
}

// ---------------------------------------------------------------- builder

#[derive(Clone, Debug, Hash)]
pub enum Cmd {
    Force,
    Start,
    Stop,
    Pal([u8; 4]),
    Alpha([u8; 4]),
    Coord(u16, u16, u16, u16), // x1 x2 y1 y2
    Rle(u16, u16),
    Raw(Vec<u8>),
}
impl Cmd {
    pub fn put(&self, o: &mut Vec<u8>) {
        match self {
            Cmd::Force => o.push(0),
            Cmd::Start => o.push(1),
            Cmd::Stop => o.push(2),
            Cmd::Pal(p) => o.extend([3, p[0] << 4 | p[1], p[2] << 4 | p[3]]),
            Cmd::Alpha(p) => o.extend([4, p[0] << 4 | p[1], p[2] << 4 | p[3]]),
            Cmd::Coord(a, b, c, d) => {
                o.push(5);
                for (a, b) in [(a, b), (c, d)] {
                    o.extend([(a >> 4) as u8, (a << 4) as u8 | (b >> 8) as u8, *b as u8]);
                }
            }
            Cmd::Rle(a, b) => {
                o.push(6);
                o.extend(a.to_be_bytes());
                o.extend(b.to_be_bytes());
            }
            Cmd::Raw(r) => o.extend(r),
        }
    }
    pub fn len(&self) -> usize {
        let mut v = Vec::new();
        self.put(&mut v);
        v.len()
    }
}

#[derive(Clone, Debug)]
pub struct Seq {
    pub date: u16,
    pub cmds: Vec<Cmd>,
    /// Value of the next field; `None`: the following sequence, or itself if it is the last one.
    pub next: Option<u16>,
    /// Bytes put after the end mark of this sequence.
    pub gap: Vec<u8>,
}
impl Seq {
    pub fn new(date: u16, cmds: Vec<Cmd>) -> Self {
        Seq { date, cmds, next: None, gap: vec![] }
    }
    pub fn len(&self) -> usize {
        5 + self.cmds.iter().map(Cmd::len).sum::<usize>() + self.gap.len()
    }
}

/// A subtitle packet: size, control offset, image data, control sequences.
pub fn spu(data: &[u8], seqs: &[Seq]) -> Vec<u8> {
    let ctrl = 4 + data.len();
    let mut o = vec![0, 0];
    o.extend((ctrl as u16).to_be_bytes());
    o.extend(data);
    let mut at = ctrl;
    for (i, s) in seqs.iter().enumerate() {
        let end = at + s.len();
        let next = s.next.unwrap_or(if i + 1 < seqs.len() { end as u16 } else { at as u16 });
        o.extend(s.date.to_be_bytes());
        o.extend(next.to_be_bytes());
        for c in &s.cmds {
            c.put(&mut o);
        }
        o.push(0xff);
        o.extend(&s.gap);
        at = end;
    }
    let n = o.len() as u16;
    o[..2].copy_from_slice(&n.to_be_bytes());
    o
}

/// The usual commands for an image.
pub fn std_cmds(pal: [u8; 4], alpha: [u8; 4], area: (u16, u16, u16, u16), rle: (u16, u16)) -> Vec<Cmd> {
    vec![
        Cmd::Start,
        Cmd::Pal(pal),
        Cmd::Alpha(alpha),
        Cmd::Coord(area.0, area.1, area.2, area.3),
        Cmd::Rle(rle.0, rle.1),
    ]
}

/// Nibble writer for RLE data.
#[derive(Clone, Default, Debug)]
pub struct Nib {
    pub b: Vec<u8>,
    half: bool,
}
impl Nib {
    pub fn nib(&mut self, n: u8) {
        if self.half {
            *self.b.last_mut().unwrap() |= n & 15;
        } else {
            self.b.push(n << 4);
        }
        self.half = !self.half;
    }
    pub fn align(&mut self) {
        self.half = false;
    }
    /// A run of `n` (0: fill to the end of the line) pixels in its shortest
    /// form, or in the 4-nibble form.
    pub fn run(&mut self, n: usize, c: u8, long: bool) {
        assert!(n < 256);
        let v = (n as u16) << 2 | u16::from(c);
        let k = if n == 0 || n >= 64 || long {
            4
        } else if n >= 16 {
            3
        } else if n >= 4 {
            2
        } else {
            1
        };
        for i in (0..k).rev() {
            self.nib((v >> (4 * i)) as u8 & 15);
        }
    }
}

/// Encode an image: even lines then odd lines; returns data and the offsets of the fields.
pub fn encode(w: usize, px: &[u8], long: bool, fill: bool) -> (Vec<u8>, (u16, u16)) {
    let mut f = [Nib::default(), Nib::default()];
    for (y, l) in px.chunks(w).enumerate() {
        let n = &mut f[y % 2];
        let mut x = 0;
        while x < w {
            let c = l[x];
            let e = l[x..].iter().position(|&p| p != c).map_or(w, |p| x + p);
            if e == w && (fill || e - x > 255) {
                n.run(0, c, false);
                x = e;
            } else {
                let r = (e - x).min(255);
                n.run(r, c, long);
                x += r;
            }
        }
        n.align();
    }
    let o1 = 4 + f[0].b.len();
    let mut d = f[0].b.clone();
    d.extend(&f[1].b);
    (d, (4, o1 as u16))
}

#[derive(Clone, Debug)]
pub struct Pack {
    pub scr: u64,
    pub ext: u16,
    pub rate: u32,
    pub stuff: u8,
    pub hdr: u8,
    pub flags: u8,
    pub pts: Option<u64>,
    pub dts: Option<u64>,
    pub hstuff: usize,
    /// What the header is stuffed with.
    pub hfill: u8,
    pub id: u8,
}
impl Default for Pack {
    fn default() -> Self {
        Pack { scr: 0x1234, ext: 0, rate: 10080 / 50, stuff: 0, hdr: 0x81, flags: 0, pts: None, dts: None, hstuff: 0, hfill: 0xff, id: 0x20 }
    }
}

pub fn stamp(tag: u8, v: u64) -> [u8; 5] {
    [
        tag << 4 | ((v >> 30) as u8 & 7) << 1 | 1,
        (v >> 22) as u8,
        ((v >> 15) as u8 & 0x7f) << 1 | 1,
        (v >> 7) as u8,
        (v as u8 & 0x7f) << 1 | 1,
    ]
}

impl Pack {
    pub fn put(&self, o: &mut Vec<u8>, data: &[u8]) {
        o.extend([0, 0, 1, 0xba]);
        // 2 bits '01', 33-bit clock with markers, 9-bit extension, marker.
        let s = self.scr;
        let bits: u64 = 1 << 46
            | (s >> 30 & 7) << 43
            | 1 << 42
            | (s >> 15 & 0x7fff) << 27
            | 1 << 26
            | (s & 0x7fff) << 11
            | 1 << 10
            | u64::from(self.ext & 0x1ff) << 1
            | 1;
        o.extend(&bits.to_be_bytes()[2..]);
        let r = self.rate << 2 | 3;
        o.extend(&r.to_be_bytes()[1..]);
        o.push(0xf8 | self.stuff);
        o.extend(std::iter::repeat(0xff).take(self.stuff as usize));
        o.extend([0, 0, 1, 0xbd]);
        let mut p = vec![self.hdr];
        let (f, h) = match (self.pts, self.dts) {
            (None, _) => (0, vec![]),
            (Some(p), None) => (0x80, stamp(2, p).to_vec()),
            (Some(p), Some(d)) => (0xc0, [stamp(3, p), stamp(1, d)].concat()),
        };
        p.push(f | self.flags);
        p.push((h.len() + self.hstuff) as u8);
        p.extend(h);
        p.extend(std::iter::repeat(self.hfill).take(self.hstuff));
        p.push(self.id);
        p.extend(data);
        assert!(p.len() < 65536);
        o.extend((p.len() as u16).to_be_bytes());
        o.extend(p);
    }
}

/// One subtitle in as few packets as possible.
pub fn put_simple(o: &mut Vec<u8>, pts: u64, spu: &[u8]) {
    let mut p = Pack { pts: Some(pts), ..Pack::default() };
    for c in spu.chunks(60_000) {
        p.put(o, c);
        p.pts = None;
    }
}

// ---------------------------------------------------------------- what is observed

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Shown {
    pub start: i64,
    pub end: i64,
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub pal: [u8; 4],
    pub alpha: [u8; 4],
    pub raw: Vec<u8>,
}
impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let raw: String = self.raw.iter().take(48).map(|b| if *b < 4 { (b'0' + b) as char } else { '?' }).collect();
        write!(
            f,
            "[{}..{} ms at {},{} {}x{} pal {:?} alpha {:?} {} px {raw}]",
            self.start, self.end, self.left, self.top, self.w, self.h, self.pal, self.alpha, self.raw.len()
        )
    }
}
pub type Item = Result<Shown, u32>;

pub fn shown(t: &TimeSpan, i: &VobSubIndexedImage) -> Shown {
    let a = i.area();
    Shown {
        start: t.start.msecs(),
        end: t.end.msecs(),
        left: a.left(),
        top: a.top(),
        w: a.width(),
        h: a.height(),
        pal: *i.palette(),
        alpha: *i.alpha(),
        raw: i.raw_image().to_vec(),
    }
}

thread_local! {
    static SCRATCH: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
pub static SCRATCH_DIR: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
static SCRATCH_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A file path of its own for the calling thread, in the scratch directory of this run.
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let n = SCRATCH_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                SCRATCH_DIR.get().expect("scratch dir").join(format!("f{n}"))
            })
            .clone()
    })
}

/// Names of files, as bytes.
pub const NAMES: [&[u8]; 30] = [
    b"x.sub", b"x.idx", b"x.sup", b"X.SUB", b"X.IDX", b"x.txt", b"x", b".sub", b"x.sub.idx", b"x y.sub", b" ", b"x\ny.idx", b"\xc3\xa9t\xc3\xa9.sub", b"\xe9t\xe9.sub", b"\xff",
    b"x\\y", b"-", b"%20#?*", b"x ", b" x", b"x\t", b"x.", b"~", b"~x", b"$HOME", b"${HOME}", b"file:x", b"\"x\"", b"x\r\n", b"C:x",
];
/// The path of name `k`, in a directory of its own next to `base`.
pub fn named(base: &Path, k: usize) -> PathBuf {
    use std::os::unix::ffi::OsStrExt as _;
    let d = base.with_extension(if k % 2 == 0 { "names" } else { "names.sub" });
    std::fs::create_dir_all(&d).expect("scratch directory");
    d.join(std::ffi::OsStr::from_bytes(NAMES[k]))
}

/// The number of ways to write a path.
pub const FORMS: usize = 5;
/// A path in the scratch directory, which is the current one, written in another way.
pub fn form(p: &Path, k: usize) -> PathBuf {
    let root = SCRATCH_DIR.get().expect("scratch dir");
    let rel = p.strip_prefix(root).expect("a path in the scratch directory");
    match k {
        0 => p.to_path_buf(),
        1 => rel.to_path_buf(),
        2 => Path::new(".").join(rel),
        3 => {
            std::fs::create_dir_all(root.join("up")).expect("scratch directory");
            Path::new("up/..").join(rel)
        }
        _ => {
            // A tilde is a letter as any other.
            std::fs::create_dir_all(root.join("~")).expect("scratch directory");
            Path::new("~/..").join(rel)
        }
    }
}

/// Runs `f` on the path of a pipe that delivers these parts one by one, each after the one before
/// has been taken. (At most 64 KiB in all.)
pub fn piped<T>(parts: &[&[u8]], f: impl FnOnce(&Path) -> T) -> T {
    use std::io::Write as _;
    use std::os::fd::{AsRawFd as _, FromRawFd as _, OwnedFd};
    use std::sync::atomic::{AtomicBool, Ordering};
    let mut fds = [0; 2];
    // SAFETY: `pipe2` fills in two descriptors that nobody else owns.
    let (r, w) = unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0, "harness: no pipe");
        (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))
    };
    let path = PathBuf::from(format!("/proc/self/fd/{}", r.as_raw_fd()));
    let done = AtomicBool::new(false);
    let mut w = std::fs::File::from(w);
    std::thread::scope(|s| {
        let (done, r) = (&done, &r);
        s.spawn(move || {
            for p in parts {
                if w.write_all(p).is_err() {
                    return;
                }
                let mut left: libc::c_int = 1;
                while left > 0 && !done.load(Ordering::Acquire) {
                    std::thread::yield_now();
                    // SAFETY: writes one integer.
                    if unsafe { libc::ioctl(r.as_raw_fd(), libc::FIONREAD, &mut left) } != 0 {
                        return;
                    }
                }
            }
        });
        struct Done<'a>(&'a AtomicBool);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.store(true, Ordering::Release);
            }
        }
        let _done = Done(done);
        f(&path)
    })
}
/// The parts of `b`: cut in two at `k`, or into single bytes (`k` beyond the end).
pub fn parts(b: &[u8], k: usize) -> Vec<&[u8]> {
    if k > b.len() { b.chunks(1).collect() } else { vec![&b[..k], &b[k..]] }
}

pub fn open_path(p: &Path) -> Sub {
    Sub::open(p).expect("Sub::open of a readable file")
}

/// Everything the library reads from the bytes of a `.sub` file.
/// `Err`: it panicked, never ends, or is not fused.
pub fn read(bytes: &[u8]) -> Result<Vec<Item>, String> {
    let p = scratch();
    std::fs::write(&p, bytes).unwrap_or_else(|e| panic!("harness: cannot write {p:?}: {e}"));
    guard(|| {
        let sub = Sub::open(&p).map_err(|e| format!("Sub::open of a readable file fails: {e:?}"))?;
        drain(&mut sub.subtitles::<(TimeSpan, VobSubIndexedImage)>(), bytes.len())
    })
    .unwrap_or_else(|p| Err(format!("panics: {p}")))
}

pub fn drain(
    it: &mut impl Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>>,
    len: usize,
) -> Result<Vec<Item>, String> {
    let mut out = Vec::new();
    for x in it.by_ref() {
        out.push(match x {
            Ok((t, i)) => Ok(shown(&t, &i)),
            Err(e) => Err(kind(&e)),
        });
        if out.len() > len + 4 {
            return Err(format!("the iterator does not end ({} items from {len} bytes)", out.len()));
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err("the iterator yields an item after its end".into());
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug)]
pub enum RImg {
    Exact(Vec<u8>),
    /// The data of the image end inside of a run: what is decoded is not specified.
    Loose,
    Bad,
}
#[derive(Clone, Debug)]
pub struct RSub {
    pub pts: u64,
    pub start: u16,
    pub end: Option<u16>,
    pub area: (u16, u16, u16, u16), // x1 y1 x2 y2
    pub pal: [u8; 4],
    pub alpha: [u8; 4],
    pub img: RImg,
}
/// `Err`: mask of the errors that may be reported.
pub type RItem = Result<RSub, u32>;

pub struct Reference {
    pub items: Vec<RItem>,
    /// Abstract states the decoder goes through.
    pub trace: Vec<u64>,
}

struct PesP<'a> {
    pts: Option<u64>,
    id: u8,
    data: &'a [u8],
}

fn stamp33(b: &[u8], tag: u8) -> Option<u64> {
    if b.len() < 5 || b[0] >> 4 != tag || b[0] & b[2] & b[4] & 1 == 0 {
        return None;
    }
    Some(
        u64::from(b[0] >> 1 & 7) << 30
            | u64::from(b[1]) << 22
            | u64::from(b[2] >> 1) << 15
            | u64::from(b[3]) << 7
            | u64::from(b[4] >> 1),
    )
}

enum Found<'a> {
    /// The packet and the length it takes.
    Packet(PesP<'a>, usize),
    /// The packet is longer than the data.
    Partial,
}

/// A pack at the start of `b`.
fn pack(b: &[u8]) -> Option<Found<'_>> {
    if b.len() < 14 || b[..4] != [0, 0, 1, 0xba] {
        return None;
    }
    let h = &b[4..14];
    if h[0] >> 6 != 1 || h[0] & 4 == 0 || h[2] & 4 == 0 || h[4] & 4 == 0 || h[5] & 1 == 0 || h[8] & 3 != 3 {
        return None;
    }
    let at = 14 + usize::from(h[9] & 7);
    let p = b.get(at..)?;
    if p.len() < 6 || p[..4] != [0, 0, 1, 0xbd] {
        return None;
    }
    let n = usize::from(p[4]) << 8 | usize::from(p[5]);
    let Some(body) = p.get(6..6 + n) else { return Some(Found::Partial) };
    if body.len() < 4 || body[0] >> 6 != 2 {
        return None;
    }
    let hl = usize::from(body[2]);
    let hd = body.get(3..3 + hl)?;
    let pts = match body[1] >> 6 {
        0 => None,
        2 => Some(stamp33(hd, 2)?),
        3 => {
            let p = stamp33(hd, 3)?;
            stamp33(hd.get(5..)?, 1)?;
            Some(p)
        }
        _ => return None,
    };
    let (&id, data) = body[3 + hl..].split_first()?;
    Some(Found::Packet(PesP { pts, id, data }, at + 6 + n))
}

pub fn reference(b: &[u8]) -> Reference {
    let mut r = Reference { items: vec![], trace: vec![] };
    let mut at = 0;
    // `Err`: the data end inside of a packet.
    let mut next = |trace: &mut Vec<u64>| -> Option<Result<PesP<'_>, ()>> {
        loop {
            let rest = b.get(at..)?;
            let s = rest.windows(4).position(|w| w == [0, 0, 1, 0xba])?;
            match pack(&rest[s..]) {
                Some(Found::Partial) => {
                    at = b.len();
                    trace.push(h64("partial"));
                    return Some(Err(()));
                }
                Some(Found::Packet(p, n)) => {
                    at += s + n;
                    trace.push(h64(&("pack", s.min(3), p.pts.is_some(), p.data.len(), p.id)));
                    return Some(Ok(p));
                }
                None => {
                    at += s + 4;
                    trace.push(h64("skip"));
                }
            }
        }
    };
    'subs: while let Some(f) = next(&mut r.trace) {
        let Ok(f) = f else {
            r.items.push(Err(E_PES));
            continue;
        };
        let Some(pts) = f.pts else {
            r.items.push(Err(E_TIMING));
            continue;
        };
        if f.data.len() < 2 {
            r.items.push(Err(E_SHORT));
            continue;
        }
        let wanted = usize::from(f.data[0]) << 8 | usize::from(f.data[1]);
        let mut d = f.data.to_vec();
        while d.len() < wanted {
            let Some(p) = next(&mut r.trace) else { break 'subs };
            let Ok(p) = p else {
                r.items.push(Err(E_PES));
                continue 'subs;
            };
            if p.id == f.id {
                d.extend(p.data);
            }
            r.trace.push(h64(&("collect", d.len(), wanted, p.id == f.id)));
        }
        d.truncate(wanted);
        let i = sub_ref(&d, pts, &mut r.trace);
        r.trace.push(h64(&("sub", r.items.len(), i.is_ok())));
        r.items.push(i);
    }
    r.trace.push(h64(&("end", r.items.len())));
    r
}

fn nibbles(b: &[u8]) -> [u8; 4] {
    // Stored from the entry 3 to the entry 0.
    [b[1] & 15, b[1] >> 4, b[0] & 15, b[0] >> 4]
}

fn sub_ref(d: &[u8], pts: u64, trace: &mut Vec<u64>) -> RItem {
    if d.len() < 2 {
        return Err(E_UNEXP_END);
    }
    if d.len() < 4 {
        return Err(E_U16 | E_UNEXP_END);
    }
    let ctrl = usize::from(d[2]) << 8 | usize::from(d[3]);
    let (mut start, mut end, mut area, mut pal, mut alpha, mut rle) = (None, None, None, None, None, None);
    let mut at = ctrl;
    loop {
        if at >= d.len() {
            return Err(E_BIGGER);
        }
        let s = &d[at..];
        if s.len() < 4 {
            return Err(E_CTRLSEQ);
        }
        let date = u16::from(s[0]) << 8 | u16::from(s[1]);
        let next = usize::from(s[2]) << 8 | usize::from(s[3]);
        // The whole sequence has to be well formed before any command counts.
        let mut cmds = vec![];
        let mut c = &s[4..];
        loop {
            let Some(&op) = c.first() else { return Err(E_CTRLSEQ) };
            if op == 0xff {
                break;
            }
            let n = match op {
                0..=2 => 1,
                3 | 4 => 3,
                5 => 7,
                6 => 5,
                _ => usize::MAX,
            };
            if n <= c.len() {
                cmds.push(&c[..n]);
                c = &c[n..];
            } else {
                // Not a command: skip to the end mark.
                let Some(p) = c.iter().position(|&b| b == 0xff) else { return Err(E_CTRLSEQ) };
                c = &c[p..];
            }
        }
        for c in cmds {
            let a = &c[1..];
            match c[0] {
                1 => start = start.or(Some(date)),
                2 => end = end.or(Some(date)),
                3 => pal = pal.or(Some(nibbles(a))),
                4 => alpha = alpha.or(Some(nibbles(a))),
                5 => {
                    let two = |b: &[u8]| {
                        (
                            u16::from(b[0]) << 4 | u16::from(b[1] >> 4),
                            u16::from(b[1] & 15) << 8 | u16::from(b[2]),
                        )
                    };
                    let ((x1, x2), (y1, y2)) = (two(a), two(&a[3..]));
                    if x2 <= x1 || y2 <= y1 {
                        return Err(E_CONTENT);
                    }
                    area = area.or(Some((x1, y1, x2, y2)));
                }
                6 => {
                    rle = Some((
                        usize::from(a[0]) << 8 | usize::from(a[1]),
                        usize::from(a[2]) << 8 | usize::from(a[3]),
                    ))
                }
                _ => {}
            }
        }
        trace.push(h64(&(
            "seq", date, start, end, area, pal, alpha, rle, next.cmp(&at) as i8,
        )));
        if next < at {
            return Err(E_BACK);
        }
        if next == at {
            break;
        }
        at = next;
    }
    let mut miss = 0;
    for (m, e) in [
        (start.is_none(), E_M_START),
        (area.is_none(), E_M_AREA),
        (pal.is_none(), E_M_PAL),
        (alpha.is_none(), E_M_ALPHA),
        (rle.is_none(), E_M_RLE),
    ] {
        if m {
            miss |= e;
        }
    }
    if miss != 0 {
        return Err(miss);
    }
    let (area, rle) = (area.unwrap(), rle.unwrap());
    let lim = ctrl + 2;
    if rle.0 > rle.1 || rle.1 > lim {
        return Err(E_SCAN);
    }
    let (w, h) = (usize::from(area.2 - area.0) + 1, usize::from(area.3 - area.1) + 1);
    Ok(RSub {
        pts,
        start: start.unwrap(),
        end,
        area,
        pal: pal.unwrap(),
        alpha: alpha.unwrap(),
        img: image_ref([&d[rle.0..lim], &d[rle.1..lim]], w, h, trace),
    })
}

pub fn image_ref(f: [&[u8]; 2], w: usize, h: usize, trace: &mut Vec<u64>) -> RImg {
    let mut px = Vec::with_capacity(w * h);
    let mut pos = [0usize; 2]; // in nibbles
    for y in 0..h {
        let b = f[y % 2];
        let p = &mut pos[y % 2];
        let mut x = 0;
        while x < w {
            let mut v = 0u32;
            let mut k = 0;
            // As long as the value is too small for the nibbles read, one more.
            loop {
                let Some(byte) = b.get(*p / 2) else {
                    return if k == 0 { RImg::Bad } else { RImg::Loose };
                };
                v = v << 4 | u32::from(if *p % 2 == 0 { byte >> 4 } else { byte & 15 });
                *p += 1;
                k += 1;
                if k == 4 || v >= [4, 16, 64][k - 1] {
                    break;
                }
            }
            let n = (v >> 2) as usize;
            let n = if n == 0 { w - x } else { n };
            if x + n > w {
                return RImg::Bad;
            }
            px.extend(std::iter::repeat((v & 3) as u8).take(n));
            x += n;
            if trace.len() < 400 {
                trace.push(h64(&("rle", x == w, k, n, y % 2, *p % 2)));
            }
        }
        *p += *p % 2;
    }
    RImg::Exact(px)
}

// ---------------------------------------------------------------- comparison

/// Is `ms` the time of tick `90 kHz pts` plus `date` hundredths?
pub fn time_ok(ms: i64, pts: u64, date: u64) -> bool {
    let t = pts + 900 * date; // in 1/90 ms
    let f = (t / 90) as i64;
    ms == f || (t % 90 == 0 && ms == f - 1)
}

pub fn agree(r: &RItem, i: &Item) -> Result<(), String> {
    match (r, i) {
        (Err(m), Err(k)) => {
            if m & k != 0 {
                Ok(())
            } else {
                Err(format!("another error ({k:#x}) than expected ({m:#x})"))
            }
        }
        (Err(m), Ok(s)) => Err(format!("a subtitle {s:?} where an error ({m:#x}) is due")),
        (Ok(r), Err(k)) => match r.img {
            RImg::Bad | RImg::Loose if *k == E_IMAGE => Ok(()),
            _ => Err(format!("an error ({k:#x}) where a subtitle is due: {}", brief(r))),
        },
        (Ok(r), Ok(s)) => {
            let end = match r.end {
                Some(e) => u64::from(e),
                None => u64::from(r.start) + 500,
            };
            let (x1, y1, x2, y2) = r.area;
            let what = if !time_ok(s.start, r.pts, r.start.into()) {
                "start"
            } else if !time_ok(s.end, r.pts, end) {
                "end"
            } else if (s.left, s.top, s.w, s.h) != (x1, y1, x2 - x1 + 1, y2 - y1 + 1) {
                "area"
            } else if s.pal != r.pal {
                "palette"
            } else if s.alpha != r.alpha {
                "alpha"
            } else {
                match &r.img {
                    RImg::Exact(p) if *p == s.raw => return Ok(()),
                    RImg::Loose
                        if s.raw.len() == usize::from(s.w) * usize::from(s.h)
                            && s.raw.iter().all(|&c| c < 4) =>
                    {
                        return Ok(())
                    }
                    RImg::Bad => "image (an error is due)",
                    _ => "image",
                }
            };
            Err(format!("wrong {what}: {s:?}, expected {}", brief(r)))
        }
    }
}

fn brief(r: &RSub) -> String {
    let img = match &r.img {
        RImg::Exact(p) => format!(
            "{} px {}",
            p.len(),
            p.iter().take(48).map(|b| (b'0' + b) as char).collect::<String>()
        ),
        o => format!("{o:?}"),
    };
    format!(
        "[pts {} + {}..{:?} cs, area {:?}, pal {:?}, alpha {:?}, {img}]",
        r.pts, r.start, r.end, r.area, r.pal, r.alpha
    )
}

pub fn agree_all(r: &[RItem], got: &Result<Vec<Item>, String>) -> Result<(), String> {
    let got = got.as_ref().map_err(Clone::clone)?;
    for (n, r) in r.iter().enumerate() {
        let Some(g) = got.get(n) else {
            return Err(format!(
                "item {n} is missing, got {} items: {}",
                got.len(),
                match r {
                    Ok(r) => brief(r),
                    Err(m) => format!("error {m:#x}"),
                }
            ));
        };
        agree(r, g).map_err(|e| format!("item {n}: {e}"))?;
    }
    if got.len() > r.len() {
        return Err(format!("{} items where {} are due, first extra one: {:?}", got.len(), r.len(), got[r.len()]));
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
