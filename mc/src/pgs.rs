//! Presentation graphic streams: builder, independent reference decoder, and
//! the reading of the same bytes with the real library.

use crate::engine::{guard, h64, tell};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom};
use subtile::image::ImageSize as _;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage};
use subtile::time::TimeSpan;
use subtile::SupParser;

pub const P_PAL: u32 = 1;
pub const P_IMG: u32 = 2;
pub const P_ODS: u32 = 4;
pub const P_PDS: u32 = 8;
pub const P_HDR: u32 = 16;
pub const P_SKIP: u32 = 32;
pub const P_READ: u32 = 64;
pub const P_OTHER: u32 = 128;
/// What follows is not specified, except that it ends.
pub const P_LOOSE: u32 = u32::MAX;

pub fn pkind(e: &PgsError) -> u32 {
    tell(e);
    match e {
        PgsError::MissingPalette => P_PAL,
        PgsError::MissingImage => P_IMG,
        PgsError::ODSParse(_) => P_ODS,
        PgsError::PDSParse(_) => P_PDS,
        PgsError::SegmentInvalidTypeCode { .. } | PgsError::SegmentPGMissing => P_HDR,
        PgsError::SegmentSkip { .. } => P_SKIP,
        PgsError::SegmentFailReadHeader => P_READ,
        _ => P_OTHER,
    }
}

// ---------------------------------------------------------------- builder

pub const PDS: u8 = 0x14;
pub const ODS: u8 = 0x15;
pub const PCS: u8 = 0x16;
pub const WDS: u8 = 0x17;
pub const END: u8 = 0x80;

pub fn seg(o: &mut Vec<u8>, pts: u32, dts: u32, ty: u8, data: &[u8]) {
    o.extend(b"PG");
    o.extend(pts.to_be_bytes());
    o.extend(dts.to_be_bytes());
    o.push(ty);
    assert!(data.len() < 65536);
    o.extend((data.len() as u16).to_be_bytes());
    o.extend(data);
}
pub fn pds(entries: &[[u8; 5]]) -> Vec<u8> {
    let mut v = vec![1, 2];
    for e in entries {
        v.extend(e);
    }
    v
}
/// Palette with an entry per colour id, whose luminance and alpha tell the id.
pub fn pal_of(ids: &[u8], salt: u8) -> Vec<u8> {
    let e: Vec<[u8; 5]> = ids.iter().map(|&i| entry(i, salt)).collect();
    pds(&e)
}
pub fn entry(id: u8, salt: u8) -> [u8; 5] {
    [id, id.wrapping_mul(3) ^ salt, 0x80, 0x81, id.wrapping_mul(5).wrapping_add(salt)]
}
pub fn ods_head(flag: u8, declared: u32, w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 1, 0, flag];
    v.extend(&declared.to_be_bytes()[1..]);
    v.extend(w.to_be_bytes());
    v.extend(h.to_be_bytes());
    v.extend(data);
    v
}
pub fn ods_full(w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    ods_head(0xc0, data.len() as u32 + 4, w, h, data)
}
pub fn ods_last(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 1, 0, 0x40];
    v.extend(data);
    v
}

/// A whole subtitle: shown at `t0`, cleared at `t1` (90 kHz).
pub fn put_sub(o: &mut Vec<u8>, t0: u32, t1: u32, pal: &[u8], w: u16, h: u16, data: &[u8], split: Option<usize>) {
    seg(o, t0, 0, PCS, &[7, 128, 4, 56, 16, 0, 0, 128, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]);
    seg(o, t0, 0, WDS, &[1, 0, 0, 0, 0, 0, 0, 0, 9, 9]);
    seg(o, t0, 0, PDS, pal);
    match split {
        None => seg(o, t0, 0, ODS, &ods_full(w, h, data)),
        Some(k) => {
            seg(o, t0, 0, ODS, &ods_head(0x80, data.len() as u32 + 4, w, h, &data[..k]));
            seg(o, t0, 0, ODS, &ods_last(&data[k..]));
        }
    }
    seg(o, t0, 0, END, &[]);
    seg(o, t1, 0, PCS, &[7, 128, 4, 56, 16, 0, 1, 0, 0, 0, 0]);
    seg(o, t1, 0, WDS, &[1, 0, 0, 0, 0, 0, 0, 0, 9, 9]);
    seg(o, t1, 0, END, &[]);
}

// ---------------------------------------------------------------- what is observed

/// At most this number of pixels of an image are read.
pub const LIM: usize = 5000;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct PShown {
    pub start: i64,
    pub end: i64,
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 2]>,
}
impl std::fmt::Debug for PShown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[{}..{} ms {}x{} px {:?}", self.start, self.end, self.w, self.h, &self.px[..self.px.len().min(12)])?;
        f.write_str(if self.px.len() > 12 { "...]" } else { "]" })
    }
}
pub type PItem = Result<PShown, u32>;

pub fn pshown(t: &TimeSpan, i: &RleEncodedImage) -> PShown {
    PShown {
        start: t.start.msecs(),
        end: t.end.msecs(),
        w: i.width(),
        h: i.height(),
        px: i.iter().take(LIM).map(|p| p.0).collect(),
    }
}

pub fn pread_with<R: BufRead + Seek>(reader: R, limit: usize) -> Result<Vec<PItem>, String> {
    guard(|| {
        let mut out = vec![];
        let mut it = SupParser::<R, DecodeTimeImage>::new(reader);
        for x in it.by_ref() {
            out.push(match x {
                Ok((t, i)) => Ok(pshown(&t, &i)),
                Err(e) => Err(pkind(&e)),
            });
            if out.len() > limit {
                return Err(format!("the iterator does not end ({} items)", out.len()));
            }
        }
        if it.next().is_some() {
            return Err(format!("the iterator goes on after its end ({} items)", out.len()));
        }
        Ok(out)
    })
    .unwrap_or_else(|p| Err(format!("panics: {p}")))
}
pub fn pread(b: &[u8]) -> Result<Vec<PItem>, String> {
    pread_with(Cursor::new(b), b.len() + 4)
}
pub type TItem = Result<(i64, i64), u32>;
pub fn tread_with<R: BufRead + Seek>(reader: R, limit: usize) -> Result<Vec<TItem>, String> {
    guard(|| {
        let mut out = vec![];
        let mut it = SupParser::<R, DecodeTimeOnly>::new(reader);
        for x in it.by_ref() {
            out.push(match x {
                Ok(t) => Ok((t.start.msecs(), t.end.msecs())),
                Err(e) => Err(pkind(&e)),
            });
            if out.len() > limit {
                return Err(format!("the iterator does not end ({} items)", out.len()));
            }
        }
        if it.next().is_some() {
            return Err(format!("the iterator goes on after its end ({} items)", out.len()));
        }
        Ok(out)
    })
    .unwrap_or_else(|p| Err(format!("panics: {p}")))
}
/// The first image of the bytes.
pub fn first_image(b: &[u8]) -> Result<RleEncodedImage, String> {
    guard(|| match SupParser::<_, DecodeTimeImage>::new(Cursor::new(b)).next() {
        Some(Ok((_, i))) => Ok(i),
        Some(Err(e)) => Err(format!("error {e:?} instead of an image")),
        None => Err("no subtitle".into()),
    })
    .unwrap_or_else(|p| Err(format!("panics: {p}")))
}

// ---------------------------------------------------------------- reference

pub struct PRef {
    pub items: Vec<PItem>,
    /// After the items, an error is due, then anything that ends.
    pub broken: Option<u32>,
    pub trace: Vec<u64>,
    /// Where each item ends.
    pub ends: Vec<usize>,
}

#[derive(Clone)]
struct Obj {
    w: u16,
    h: u16,
    data: Vec<u8>,
    len: usize,
}

pub fn pixels_ref(pal: &[u8], w: u16, h: u16, data: &[u8]) -> Vec<[u8; 2]> {
    pixels_upto(pal, w, h, data, LIM)
}
pub fn pixels_upto(pal: &[u8], w: u16, h: u16, data: &[u8], lim: usize) -> Vec<[u8; 2]> {
    let n = (usize::from(w) * usize::from(h)).min(lim);
    let colour = |c: u8| {
        pal[2..].chunks(5).find(|e| e[0] == c).map_or([255, 0], |e| [e[1], e[4]])
    };
    let mut px: Vec<[u8; 2]> = Vec::with_capacity(n);
    let mut i = 0;
    while px.len() < n {
        let run = (|| {
            let b = *data.get(i)?;
            if b != 0 {
                i += 1;
                return Some((b, 1));
            }
            let l = *data.get(i + 1)?;
            i += 2;
            let mut len = usize::from(l & 0x3f);
            if l & 0x40 != 0 {
                len = len << 8 | usize::from(*data.get(i)?);
                i += 1;
            }
            let mut c = 0;
            if l & 0x80 != 0 {
                c = *data.get(i)?;
                i += 1;
            }
            Some((c, len))
        })();
        match run {
            Some((c, k)) => {
                let k = k.min(n - px.len());
                px.extend(std::iter::repeat(colour(c)).take(k));
            }
            None => px.resize(n, [255, 0]),
        }
    }
    px
}

pub fn preference(b: &[u8]) -> PRef {
    let mut r = PRef { items: vec![], broken: None, trace: vec![], ends: vec![] };
    let mut at = 0;
    'subs: loop {
        let mut start: Option<i64> = None;
        let mut pal: Option<&[u8]> = None;
        let mut img: Option<(&[u8], Obj)> = None;
        let mut part: Option<Obj> = None;
        loop {
            let Some(h) = b.get(at..at + 13) else { break 'subs };
            at += 13;
            macro_rules! broken {
                ($e:expr) => {{
                    r.broken = Some($e);
                    r.trace.push(h64(&("broken", $e)));
                    return r;
                }};
            }
            if &h[..2] != b"PG" {
                broken!(P_HDR);
            }
            let ms = i64::from(u32::from_be_bytes(h[2..6].try_into().unwrap()) / 90);
            let size = usize::from(h[11]) << 8 | usize::from(h[12]);
            match h[10] {
                PCS | WDS => at += size,
                PDS => {
                    let Some(d) = b.get(at..at + size) else { broken!(P_PDS) };
                    if size < 2 || (size - 2) % 5 != 0 {
                        broken!(P_PDS);
                    }
                    pal = Some(d);
                    at += size;
                }
                ODS => {
                    let Some(d) = b.get(at..at + size) else { broken!(P_ODS) };
                    if size < 4 {
                        broken!(P_ODS);
                    }
                    let flag = d[3];
                    match part.take() {
                        None => {
                            if (flag != 0x80 && flag != 0xc0) || size < 11 {
                                broken!(P_ODS);
                            }
                            let len = usize::from(d[4]) << 16 | usize::from(d[5]) << 8 | usize::from(d[6]);
                            let data = d[11..].to_vec();
                            if len < 4 || data.len() > len - 4 || (flag == 0xc0 && data.len() != len - 4) {
                                broken!(P_ODS);
                            }
                            let be = |i: usize| u16::from(d[i]) << 8 | u16::from(d[i + 1]);
                            part = Some(Obj { w: be(7), h: be(9), data, len: len - 4 });
                        }
                        Some(mut o) => {
                            if flag != 0x40 || o.data.len() + size - 4 != o.len {
                                broken!(P_ODS);
                            }
                            o.data.extend(&d[4..]);
                            part = Some(o);
                        }
                    }
                    at += size;
                    if flag & 0x40 != 0 {
                        let o = part.take().unwrap();
                        let Some(p) = pal.take() else {
                            r.trace.push(h64("no palette"));
                            r.items.push(Err(P_PAL));
                            r.ends.push(at);
                            continue 'subs;
                        };
                        img = Some((p, o));
                    }
                }
                END => {
                    // An end segment has no content: what follows a declared one is open.
                    if size != 0 {
                        broken!(P_LOOSE);
                    }
                    match start {
                        None => start = Some(ms),
                        Some(t) => {
                            let i = match img.take() {
                                Some((p, o)) => Ok(PShown {
                                    start: t,
                                    end: ms,
                                    w: o.w.into(),
                                    h: o.h.into(),
                                    px: pixels_ref(p, o.w, o.h, &o.data),
                                }),
                                None => Err(P_IMG),
                            };
                            r.trace.push(h64(&("sub", i.is_ok(), pal.is_some(), part.is_some())));
                            r.items.push(i);
                            r.ends.push(at);
                            continue 'subs;
                        }
                    }
                }
                _ => broken!(P_HDR),
            }
            r.trace.push(h64(&(
                h[10],
                start.is_some(),
                pal.map(|p| p.len()),
                img.as_ref().map(|i| (i.1.w, i.1.h, i.1.len)),
                part.as_ref().map(|o| (o.data.len(), o.len)),
            )));
        }
    }
    r.trace.push(h64(&("end", r.items.len())));
    r
}

/// What comes after the spans that are due.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tail {
    End,
    Error,
    Loose,
}

/// The spans that the time-only decoder has to give: it does not look at images.
pub fn tref(b: &[u8]) -> (Vec<(i64, i64)>, Tail) {
    let mut at = 0;
    let mut out = vec![];
    let mut start = None;
    while let Some(h) = b.get(at..at + 13) {
        let size = usize::from(h[11]) << 8 | usize::from(h[12]);
        if &h[..2] != b"PG" || ![PDS, ODS, PCS, WDS, END].contains(&h[10]) {
            return (out, Tail::Error);
        }
        if h[10] == END && size > 0 {
            return (out, Tail::Loose);
        }
        at += 13 + size;
        if h[10] == END {
            let ms = i64::from(u32::from_be_bytes(h[2..6].try_into().unwrap()) / 90);
            match start.take() {
                None => start = Some(ms),
                Some(s) => out.push((s, ms)),
            }
        }
    }
    (out, Tail::End)
}

pub fn pagree(r: &PRef, got: &Result<Vec<PItem>, String>) -> Result<(), String> {
    let got = got.as_ref().map_err(Clone::clone)?;
    for (n, w) in r.items.iter().enumerate() {
        let Some(g) = got.get(n) else {
            return Err(format!("item {n} is missing ({} items): {w:?}", got.len()));
        };
        let ok = match (w, g) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a & b != 0,
            _ => false,
        };
        if !ok {
            let mut e = format!("item {n} is {g:?}, expected {w:?}");
            if let (Ok(a), Ok(b)) = (w, g) {
                if let Some(i) = (0..a.px.len().max(b.px.len())).find(|&i| a.px.get(i) != b.px.get(i)) {
                    e.push_str(&format!("; pixel {i} is {:?}, expected {:?}", b.px.get(i), a.px.get(i)));
                }
            }
            return Err(e);
        }
    }
    let n = r.items.len();
    match r.broken {
        Some(P_LOOSE) => Ok(()),
        None if got.len() > n => Err(format!("an item {:?} after the {n} that are due", got[n])),
        Some(m) => match got.get(n) {
            None => Err(format!("no error is reported after {n} items (expected {m:#x})")),
            Some(Ok(s)) => Err(format!("a subtitle {s:?} where an error is due, after {n} items")),
            Some(Err(_)) => Ok(()),
        },
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- reader with faults

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Chunk(usize),
    Interrupt,
}

/// A reader whose answers to each refill are planned.
#[derive(Debug)]
pub struct PlanReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    avail: usize,
    plan: &'a [Ev],
    next: usize,
    default: usize,
    /// Fail when refilling at this position or after it.
    pub fail_at: Option<(usize, io::ErrorKind)>,
    /// Fail again and again, not once.
    pub lasting: bool,
    /// Fail the seek of this number.
    pub fail_seek: Option<usize>,
    pub seeks: usize,
    pub failed: &'a std::cell::Cell<Option<usize>>,
}
impl<'a> PlanReader<'a> {
    pub fn new(data: &'a [u8], plan: &'a [Ev], default: usize, failed: &'a std::cell::Cell<Option<usize>>) -> Self {
        PlanReader { data, pos: 0, avail: 0, plan, next: 0, default, fail_at: None, lasting: false, fail_seek: None, seeks: 0, failed }
    }
}
impl Read for PlanReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for PlanReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            if let Some((p, k)) = self.fail_at {
                if self.pos >= p {
                    if !self.lasting {
                        self.fail_at = None;
                    }
                    self.failed.set(self.failed.get().or(Some(self.pos)));
                    return Err(io::Error::new(k, "planned"));
                }
            }
            let rest = self.data.len().saturating_sub(self.pos);
            let mut n = self.default;
            if let Some(e) = self.plan.get(self.next) {
                self.next += 1;
                match e {
                    Ev::Chunk(k) => n = *k,
                    Ev::Interrupt => return Err(io::ErrorKind::Interrupted.into()),
                }
            }
            self.avail = n.min(rest);
        }
        let p = self.pos.min(self.data.len());
        Ok(&self.data[p..p + self.avail])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.avail, "consumed more than is buffered");
        self.avail -= n;
        self.pos += n;
    }
}
impl Seek for PlanReader<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        if self.fail_seek == Some(self.seeks) {
            self.failed.set(Some(self.pos));
            return Err(io::Error::new(io::ErrorKind::Other, "planned"));
        }
        let p = match s {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => (self.pos as u64).checked_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
        };
        let p = p.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "seek before the start"))?;
        self.pos = p as usize;
        self.avail = 0;
        Ok(p)
    }
}
