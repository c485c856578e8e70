//! Independence of what is done at the same time: tasks on the same thread
//! (nested in one another, or item by item in turn) and on threads whose
//! schedule is controlled.
//!
//! A task passes *points*: calls of its reader, writer or conversion, the
//! items it takes, the messages the library logs, and the allocations that
//! the library makes. Other tasks run there.

use crate::engine::*;
use crate::pgs::{entry, first_image, ods_full, pal_of, pkind, preference, pshown, put_sub, seg, END, ODS, PDS};
use crate::viol;
use crate::vob::{agree_all, encode, kind, open_path, put_simple, reference, scratch, shown, spu, std_cmds, Cmd, Pack, Seq};
use image::{GrayImage, Luma, LumaA, Rgba};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::sync::atomic::{AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::time::{Duration, Instant};
use subtile::image::{dump_images, luma_a_to_luma_convertor, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleEncodedImage, RleToImage};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{Index, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};
use subtile::{srt, webvtt, SupParser};

use point::{lib, not_lib, with_hook, ALLOC, BLOCK, KINDS as POINTS, LOG, SHARED, USER};

/// A place where other tasks may run, between calls of the library.
fn point() {
    point::at(USER);
}
thread_local! {
    /// At this number of calls of the user's code: fail, or panic.
    static FAULT: Cell<Option<(usize, bool)>> = const { Cell::new(None) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
/// A point in the user's code, which may fail there.
fn user_point() -> io::Result<()> {
    not_lib(|| {
        point();
        CALLS.with(|u| u.set(u.get() + 1));
        match FAULT.with(Cell::get) {
            Some((0, true)) => {
                FAULT.with(|f| f.set(None));
                panic!("the user's code panics");
            }
            Some((0, false)) => {
                FAULT.with(|f| f.set(None));
                Err(io::ErrorKind::Other.into())
            }
            Some((n, k)) => {
                FAULT.with(|f| f.set(Some((n - 1, k))));
                Ok(())
            }
            None => Ok(()),
        }
    })
}
// ---------------------------------------------------------------- inputs

/// Used by several threads even if a type of the library were no longer made
/// for it: they never run at the same time.
struct Alone<T>(T);
unsafe impl<T> Sync for Alone<T> {}
unsafe impl<T> Send for Alone<T> {}

struct Inputs {
    vob: [Sub; 3],
    img: [VobSubIndexedImage; 2],
    pgs: [Vec<u8>; 3],
    pix: [RleEncodedImage; 2],
    idx: [Vec<u8>; 3],
    subs: Vec<(TimeSpan, String)>,
}
fn span(a: i64, b: i64) -> TimeSpan {
    TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b))
}
fn vob_file(k: usize) -> Vec<u8> {
    let mut o = vec![];
    for n in 0..2usize {
        if k == 1 {
            skipped(&mut o);
        }
        let px: Vec<u8> = (0..4).map(|i| ((i + n + k) % 4) as u8).collect();
        let (d, off) = encode(2, &px, n == 1, k == 1);
        let (x, y) = (10 * k as u16, 7 * n as u16);
        let s = spu(
            &d,
            &[
                Seq::new(n as u16, std_cmds([k as u8, 2, 1, 9], [15, 0, 9, n as u8], (x, x + 1, y, y + 1), off)),
                Seq::new(100 + 50 * k as u16, vec![Cmd::Stop]),
            ],
        );
        put_simple(&mut o, 90_000 * (1 + n as u64) + 900 * k as u64, &s);
    }
    o
}
/// The program stream also has other packets.
fn skipped(o: &mut Vec<u8>) {
    let n = o.len();
    Pack::default().put(o, &[1, 2, 3]);
    o[n + 17] = 0xe0;
}
/// Images with a line too long, a subtitle without area, then a good one.
fn damaged_vob() -> Vec<u8> {
    let mut o = vec![];
    skipped(&mut o);
    for n in 0..4usize {
        let (mut d, off) = encode(2, &[1, 2, 3, 1], false, false);
        if n < 2 {
            // A run of 3 pixels.
            d[n] = 0xd0;
        }
        let mut c = std_cmds([4, 2, 1, 9], [15, 0, 9, 7], (3, 4, 5, 6), off);
        if n == 2 {
            c.retain(|c| !matches!(c, Cmd::Coord(..)));
        }
        let s = spu(&d, &[Seq::new(0, c), Seq::new(70, vec![Cmd::Stop])]);
        put_simple(&mut o, 90_000 * (1 + n as u64), &s);
    }
    o
}
/// No palette, no image, a good one, then no segment at all.
fn damaged_pgs() -> Vec<u8> {
    let mut o = vec![];
    let pal = pal_of(&[1, 2], 77);
    seg(&mut o, 9000, 0, ODS, &ods_full(2, 1, &[1, 2]));
    seg(&mut o, 9000, 0, PDS, &pal);
    seg(&mut o, 9000, 0, END, &[]);
    seg(&mut o, 18_000, 0, END, &[]);
    put_sub(&mut o, 27_000, 36_000, &pal, 2, 1, &[2, 1], None);
    o.extend([b'P', b'H', 0, 0, 0, 0, 0, 0, 0, 0, 0x80, 0, 0]);
    o
}
fn inputs() -> &'static Inputs {
    static I: OnceLock<Box<Alone<Inputs>>> = OnceLock::new();
    let made = &I
        .get_or_init(|| {
            let p = scratch();
            let vob = [vob_file(0), vob_file(1), damaged_vob()].map(|b| {
                std::fs::write(&p, b).expect("scratch file");
                open_path(&p)
            });
            let img = [0, 1].map(|k| {
                let (_, i) = vob[k].subtitles::<(TimeSpan, VobSubIndexedImage)>().next().expect("subtitle").expect("valid");
                i
            });
            let ids = [0u8, 1, 2, 200];
            let pgs = [0u8, 1, 2].map(|k| {
                if k == 2 {
                    return damaged_pgs();
                }
                let mut o = vec![];
                put_sub(&mut o, 9000, 18_000, &pal_of(&ids, 3 + 40 * k), 2, 2, &[1, 2, 200, 1 + k], None);
                put_sub(&mut o, 27_000, 36_000, &pal_of(&ids, 9 + 40 * k), 3, 1, &[0, 0x82, 1 + k, 2], Some(2));
                o
            });
            let pix = [0, 1].map(|k| first_image(&pgs[k]).expect("image"));
            let idx = [0u8, 1, 2].map(|k| {
                let p: Vec<String> = (0..16u8).map(|i| format!("{:02x}{:02x}{:02x}", i * 7 + k, i, 255 - i)).collect();
                format!("# a comment\nsize: 7x7\npalette: {}\nid: {}, index: 0\n", p[..p.len() - k as usize / 2].join(", "), ["en", "fr", "de"][k as usize]).into_bytes()
            });
            let subs = vec![(span(1, 2000), "one\ntwo".to_string()), (span(3000, 4000), String::new()), (span(3_600_000, 3_600_001), "x".to_string())];
            Box::new(Alone(Inputs { vob, img, pgs, pix, idx, subs }))
        })
        .0;
    made
}
/// A task alone.
struct Alone1 {
    /// What it gives.
    out: String,
    /// Its points of each kind.
    points: [usize; POINTS],
    /// Its calls of the user's code.
    calls: usize,
}
impl Alone1 {
    fn of(&self, kinds: u8) -> usize {
        (0..POINTS).filter(|k| kinds >> k & 1 == 1).map(|k| self.points[k]).sum()
    }
}
struct Solo {
    res: Vec<Alone1>,
    items: Vec<Vec<String>>,
}
/// What each task gives alone, and how many points it passes.
fn solo() -> Result<&'static Solo, Viol> {
    static S: OnceLock<Result<Solo, Viol>> = OnceLock::new();
    S.get_or_init(|| {
        let i = inputs();
        let mut res = vec![];
        for t in 0..TASKS.len() {
            // The first time is not like the others, if something is kept.
            let _ = guard(|| task(t, i, 0));
            let n = std::rc::Rc::new(std::cell::Cell::new([0; POINTS]));
            let m = n.clone();
            CALLS.with(|u| u.set(0));
            let count = move |k: u8| {
                let mut a = m.get();
                a[k.trailing_zeros() as usize] += 1;
                m.set(a);
            };
            let r = with_hook(!0, count, || guard(|| task(t, i, 0)));
            match r {
                Ok(out) => {
                    if std::env::var_os("MC_POINTS").is_some() {
                        eprintln!("{t} {}: {:?}", TASKS[t], n.get()); 
                    }
                    res.push(Alone1 { out, points: n.get(), calls: CALLS.with(Cell::get) });
                }
                Err(e) => return Err(Viol { key: format!("X01.solo:{t}"), msg: format!("{} alone panics: {e}", TASKS[t]) }),
            }
        }
        let mut items = vec![];
        for k in 0..KINDS {
            let r = guard(|| {
                let mut it = stepper(k, i);
                let mut v = vec![];
                while let Some(x) = it() {
                    v.push(x);
                }
                v
            });
            match r {
                Ok(v) => items.push(v),
                Err(e) => return Err(Viol { key: format!("X01.solo:items {k}"), msg: format!("items {k} alone panic: {e}") }),
            }
        }
        known(i, &res)?;
        Ok(Solo { res, items })
    })
    .as_ref()
    .map_err(Clone::clone)
}

/// What the tasks give is what the formats say, not only the same every time.
fn known(i: &Inputs, res: &[Alone1]) -> R {
    let bad = |t: usize, want: &str| {
        viol!(format!("X01.solo:{t}"), "{} gives {}, expected {want}", TASKS[t], res[t].out)
    };
    let same = |t: usize, want: String| if res[t].out == want { Ok(()) } else { bad(t, &want) };
    for (k, t, b) in [(0, 0, vob_file(0)), (1, 1, vob_file(1)), (2, 17, damaged_vob())] {
        let want = reference(&b);
        let got = guard(|| {
            i.vob[k]
                .subtitles::<(TimeSpan, VobSubIndexedImage)>()
                .map(|x| x.map(|(t, i)| shown(&t, &i)).map_err(|e| kind(&e)))
                .collect::<Vec<_>>()
        });
        if let Err(e) = agree_all(&want.items, &got) {
            viol!(format!("X01.solo:{t}"), "{}: {e}", TASKS[t]);
        }
        let mut o = String::new();
        for x in got.iter().flatten() {
            let _ = match x {
                Ok(s) => write!(o, "{s:?};"),
                Err(e) => write!(o, "{e};"),
            };
        }
        same(t, o)?;
    }
    // The pixels of the VobSub images: palette and alpha of each.
    let px = |k: usize| -> Vec<(usize, u8)> {
        let (pal, al) = ([k, 2, 1, 9], [15u8, 0, 9, 0]);
        (0..4).map(|i| 3 - (i + k) % 4).map(|p| (pal[p], al[p])).collect()
    };
    let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
    let a: Vec<u8> = px(0).iter().flat_map(|&(c, a)| [(palette[c] >> 8) as u8, palette[c] as u8, a, 3]).collect();
    let b: Vec<u8> = px(1).iter().flat_map(|&(c, a)| [palette[c] as u8, a]).collect();
    let a = image::RgbaImage::from_raw(2, 2, a).expect("size");
    let b = image::GrayAlphaImage::from_raw(2, 2, b).expect("size");
    same(2, format!("{a:?} {b:?}"))?;
    let ocr = |k: usize, w: u32, px: &[bool]| {
        let o = opt(k as u32);
        let n = o.border;
        let h = px.len() as u32 / w;
        GrayImage::from_fn(w + 2 * n, h + 2 * n, |x, y| {
            let inside = x >= n && y >= n && x < w + n && y < h + n;
            if inside && px[((y - n) * w + x - n) as usize] {
                o.text_color
            } else {
                o.background_color
            }
        })
    };
    let text = |k: usize| px(k).iter().map(|&(c, a)| if k == 0 { c > 0 && a > 0 } else { c < 9 && a > 0 }).collect::<Vec<_>>();
    same(11, format!("{:?} {:?}", ocr(0, 2, &text(0)), ocr(1, 2, &text(1))))?;
    // PGS.
    let e = |c: u8, salt: u8| [entry(c, salt)[1], entry(c, salt)[4]];
    let pix = [[1u8, 2, 200, 1], [1, 2, 200, 2]];
    let pal = [3u8, 43];
    for (t, k) in [(3usize, 0usize), (13, 1)] {
        let c1 = k as u8 + 1;
        let one: Vec<[u8; 2]> = pix[k].iter().map(|&c| e(c, pal[k])).collect();
        let two = [e(c1, pal[k] + 6), e(c1, pal[k] + 6), e(2, pal[k] + 6)];
        same(t, format!("100 200 2x2 {one:?};300 400 3x1 {two:?};"))?;
    }
    same(4, "100 200;300 400;".into())?;
    let a = image::GrayAlphaImage::from_fn(2, 2, |x, y| LumaA(e(pix[0][(y * 2 + x) as usize], pal[0])));
    let b = GrayImage::from_fn(4, 4, |x, y| {
        if (1..3).contains(&x) && (1..3).contains(&y) {
            let [l, a] = e(pix[1][((y - 1) * 2 + x - 1) as usize], pal[1]);
            Luma([if l >= 7 && a >= 7 { 0 } else { 255 }])
        } else {
            Luma([250])
        }
    });
    same(5, format!("{a:?} {b:?}"))?;
    let conv = |k: usize, border: u32, back: u8| {
        GrayImage::from_fn(2 + 2 * border, 2 + 2 * border, |x, y| {
            let at = |v: u32| v.checked_sub(border).filter(|v| *v < 2);
            match (at(x), at(y)) {
                (Some(x), Some(y)) => {
                    let [l, a] = e(pix[k][(y * 2 + x) as usize], pal[k]);
                    Luma([if l >= 3 && a >= 60 { 0 } else { 255 }])
                }
                _ => Luma([back]),
            }
        })
    };
    same(14, format!("{:?} {:?}", conv(0, 2, 249), conv(1, 3, 248)))?;
    let mut o = String::new();
    for (n, &c) in pix[0].iter().enumerate() {
        let _ = write!(o, "{:?} {};", e(c, pal[0]), 3 - n);
    }
    same(9, o)?;
    let mut o = String::new();
    for x in preference(&damaged_pgs()).items {
        let _ = match x {
            Ok(s) => write!(o, "{} {} {}x{} {:?};", s.start, s.end, s.w, s.h, s.px),
            Err(e) => write!(o, "{e:?};"),
        };
    }
    if !res[18].out.starts_with(&o) {
        bad(18, &o)?;
    }
    // The others.
    for (t, k) in [(6usize, 0u8), (12, 1)] {
        let p: [image::Rgb<u8>; 16] = std::array::from_fn(|i| image::Rgb([i as u8 * 7 + k, i as u8, 255 - i as u8]));
        same(t, format!("{p:?} {:?}", Some(["en", "fr"][usize::from(k)])))?;
    }
    let s = "1\n00:00:00,001 --> 00:00:02,000\none\ntwo\n\n2\n00:00:03,000 --> 00:00:04,000\n\n\n";
    same(7, format!("Ok(()) {s:?}"))?;
    let s = "00:00:03.000 --> 00:00:04.000\n\n\n01:00:00.000 --> 01:00:00.001\nx\n\n";
    same(8, format!("Ok(()) {s:?}"))?;
    let s = "70\n00:00:00,001 --> 00:00:02,000\none\ntwo\n\n71\n00:00:03,000 --> 00:00:04,000\n\n\n72\n01:00:00,000 --> 01:00:00,001\nx\n\n";
    same(15, format!("Ok(()) {s:?}"))?;
    let s = "-00:00:00:001;00:00:00,000;00:00:00.001;3429:21:18:901;3429:21:18,902;3429:21:18.903;00:00:59:999;00:01:00,000;00:01:00.001;";
    same(16, format!("{:?} {s}", [true; 9]))?;
    same(10, "Ok(true) Ok(()) Some([5]) Some([6, 6]) None".into())
}

// ---------------------------------------------------------------- tasks

struct XRead<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    avail: usize,
}
impl<'a> XRead<'a> {
    fn new(data: &'a [u8], chunk: usize) -> Self {
        XRead { data, pos: 0, chunk, avail: 0 }
    }
}
impl Read for XRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.fill_buf()?.len().min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for XRead<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            user_point()?;
            self.avail = self.chunk.min(self.data.len() - self.pos);
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        self.avail -= n;
        self.pos += n;
    }
}
impl Seek for XRead<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        user_point()?;
        let p = match s {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => (self.pos as u64).saturating_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).saturating_add_signed(d),
        };
        self.pos = (p as usize).min(self.data.len());
        self.avail = 0;
        Ok(p)
    }
}
struct XWrite(Vec<u8>);
impl Write for XWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        user_point()?;
        not_lib(|| self.0.extend(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

thread_local! {
    /// The folder of the images of tasks at one time.
    static COMMON: RefCell<Option<std::path::PathBuf>> = const { RefCell::new(None) };
}
/// A folder that is missing, for the tasks on this thread.
struct Common(std::path::PathBuf);
impl Common {
    fn new() -> Self {
        let d = scratch().with_extension("xc");
        let _ = std::fs::remove_dir_all(&d);
        Self(d)
    }
    fn here(self) -> Self {
        COMMON.with(|c| *c.borrow_mut() = Some(self.0.clone()));
        self
    }
}
impl Drop for Common {
    fn drop(&mut self) {
        COMMON.with(|c| *c.borrow_mut() = None);
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The task that needs one.
const DUMP: usize = 10;
const TASKS: [&str; 20] = [
    "reading a VobSub file",
    "reading another VobSub file",
    "rendering a VobSub image",
    "reading a PGS file with images",
    "reading the times of another PGS file",
    "rendering a PGS image",
    "reading an index",
    "writing SRT",
    "writing WebVTT",
    "pixels of a PGS image",
    "dumping images",
    "an OCR image of a VobSub image",
    "reading another index",
    "reading another PGS file with images",
    "OCR images of PGS images",
    "writing other SRT lines",
    "formatting times",
    "reading a damaged VobSub file",
    "reading a damaged PGS file",
    "reading a bad index",
];
fn opt(k: u32) -> ToOcrImageOpt {
    ToOcrImageOpt { border: k + 1, text_color: Luma([1 + k as u8]), background_color: Luma([250 - k as u8]) }
}
/// A formatter's output with points.
struct XFmt(String);
impl std::fmt::Write for XFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        user_point().map_err(|_| std::fmt::Error)?;
        not_lib(|| self.0.push_str(s));
        Ok(())
    }
}
fn index(b: &[u8]) -> String {
    let r = lib(|| Index::read_index(BufReader::with_capacity(40, XRead::new(b, 30)), &|source| VobSubError::Io { source, path: "x".into() }));
    match r {
        Ok(i) => format!("{:?} {:?}", i.palette(), i.lang().as_ref().map(|l| l.lang().to_string())),
        Err(e) => format!("{e:?}"),
    }
}
fn images(b: &[u8]) -> String {
    let mut o = String::new();
    let mut it = SupParser::<_, DecodeTimeImage>::new(XRead::new(b, 24));
    while let Some(x) = lib(|| it.next()) {
        match x {
            Ok((t, i)) => {
                let s = pshown(&t, &i);
                let _ = write!(o, "{} {} {}x{} {:?};", s.start, s.end, s.w, s.h, s.px);
            }
            Err(e) => {
                let _ = write!(o, "{:?};", pkind(&e));
            }
        }
    }
    o
}
/// `inst` tells apart the tasks of one run.
fn task(t: usize, i: &Inputs, inst: usize) -> String {
    match t {
        0 | 1 | 17 => {
            let mut o = String::new();
            let mut it = i.vob[t.min(2)].subtitles::<(TimeSpan, VobSubIndexedImage)>();
            while let Some(x) = lib(|| it.next()) {
                let _ = match x {
                    Ok((t, i)) => write!(o, "{:?};", shown(&t, &i)),
                    Err(e) => write!(o, "{};", kind(&e)),
                };
            }
            o
        }
        2 => {
            let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
            let a = VobSubToImage::new(&i.img[0], &palette, |c: u16, a: u8| {
                let _ = user_point();
                Rgba([(c >> 8) as u8, c as u8, a, 3])
            });
            let a = lib(|| a.to_image());
            let b = VobSubToImage::new(&i.img[1], &palette, |c: u16, a: u8| {
                let _ = user_point();
                LumaA([c as u8, a])
            });
            let b = lib(|| b.to_image());
            format!("{a:?} {b:?}")
        }
        3 => images(&i.pgs[0]),
        13 => images(&i.pgs[1]),
        18 => images(&i.pgs[2]),
        4 => {
            let mut o = String::new();
            let mut it = SupParser::<_, DecodeTimeOnly>::new(XRead::new(&i.pgs[1], 40));
            while let Some(x) = lib(|| it.next()) {
                let _ = match x {
                    Ok(t) => write!(o, "{} {};", t.start.msecs(), t.end.msecs()),
                    Err(e) => write!(o, "{:?};", pkind(&e)),
                };
            }
            o
        }
        5 => {
            let f = luma_a_to_luma_convertor::<u8, LumaA<u8>>(7, 7);
            let a = RleToImage::new(&i.pix[0], |p: LumaA<u8>| {
                let _ = user_point();
                p
            });
            let a = lib(|| a.to_image());
            let b = RleToImage::new(&i.pix[1], |p: LumaA<u8>| {
                let _ = user_point();
                f(p)
            });
            let b = lib(|| b.image(&opt(0)));
            format!("{a:?} {b:?}")
        }
        14 => {
            let f = luma_a_to_luma_convertor::<u8, LumaA<u8>>(60, 3);
            let conv = |p: LumaA<u8>| {
                let _ = user_point();
                f(p)
            };
            let a = RleToImage::new(&i.pix[0], conv);
            let a = lib(|| a.image(&opt(1)));
            let b = RleToImage::new(&i.pix[1], conv);
            let b = lib(|| b.image(&opt(2)));
            format!("{a:?} {b:?}")
        }
        15 => {
            let mut w = XWrite(vec![]);
            let r = i.subs.iter().enumerate().try_for_each(|(k, (t, s))| lib(|| srt::write_line(&mut w, k + 70, t, s)));
            format!("{r:?} {:?}", String::from_utf8_lossy(&w.0))
        }
        16 => {
            let mut o = XFmt(String::new());
            let mut res = vec![];
            for t in [-1, 12_345_678_901, 59_999] {
                res.push(lib(|| write!(o, "{};", subtile::vobsub::TimePointIdx::from(TimePoint::from_msecs(t)))).is_ok());
                res.push(lib(|| write!(o, "{};", srt::TimePointSrt::from(TimePoint::from_msecs(t + 1)))).is_ok());
                res.push(lib(|| write!(o, "{};", webvtt::TimePointVtt::from(TimePoint::from_msecs(t + 2)))).is_ok());
            }
            format!("{res:?} {}", o.0)
        }
        6 => index(&i.idx[0]),
        12 => index(&i.idx[1]),
        19 => index(&i.idx[2]),
        7 => {
            let mut w = XWrite(vec![]);
            let r = lib(|| srt::write_srt(&mut w, &i.subs[..2]));
            format!("{r:?} {:?}", String::from_utf8_lossy(&w.0))
        }
        8 => {
            let mut w = XWrite(vec![]);
            let r = i.subs[1..].iter().try_for_each(|(t, s)| lib(|| webvtt::write_line(&mut w, t, s)));
            format!("{r:?} {:?}", String::from_utf8_lossy(&w.0))
        }
        9 => {
            let mut o = String::new();
            let mut it = i.pix[0].iter();
            while let Some(p) = lib(|| it.next()) {
                point();
                let _ = write!(o, "{:?} {};", p.0, it.len());
            }
            o
        }
        DUMP => {
            // In folders that are missing, or that another task is about to create too.
            let base = COMMON.with(|c| c.borrow().clone()).unwrap_or_else(|| {
                let d = scratch().with_extension("x");
                let _ = std::fs::remove_dir_all(&d);
                d
            });
            let none = lib(|| dump_images(base.join("no/images").to_str().expect("path"), std::iter::empty::<&GrayImage>()));
            let dir = base.join(format!("of/all/{inst}"));
            let _ = std::fs::remove_dir_all(&dir);
            let imgs = (0..2u32).map(|k| {
                let _ = user_point();
                not_lib(|| GrayImage::from_pixel(k + 1, 1, Luma([k as u8 + 5])))
            });
            let r = lib(|| dump_images(dir.to_str().expect("path"), imgs));
            let mut o = format!("{:?} {r:?}", none.map(|()| base.join("no/images").is_dir()));
            for k in 0..3 {
                let _ = write!(o, " {:?}", image::open(dir.join(format!("{k:06}.png"))).ok().map(|i| i.into_luma8().into_raw()));
            }
            let _ = std::fs::remove_dir_all(&dir);
            o
        }
        _ => {
            let p: [Luma<u8>; 16] = std::array::from_fn(|i| Luma([i as u8]));
            let a = lib(|| VobSubOcrImage::new(&i.img[0], &p).image(&opt(0)));
            point();
            let q: [Luma<u8>; 16] = std::array::from_fn(|i| Luma([(15 - i) as u8 / 7]));
            let b = lib(|| VobSubOcrImage::new(&i.img[1], &q).image(&opt(1)));
            format!("{a:?} {b:?}")
        }
    }
}

// ---------------------------------------------------------------- nested

fn differs(h: &str, what: String, got: &Result<String, String>, want: &str) -> R {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => viol!(h, "{what} gives {g}, alone {want}"),
        Err(e) => viol!(h, "{what} panics: {e}"),
    }
}
fn x01_nested(ch: &mut Ch) -> R {
    // At every point of each task, every other one runs.
    let i = inputs();
    let s = solo()?;
    let a = ch.choose(TASKS.len());
    let b = ch.choose(TASKS.len());
    let n = s.res[a].of(USER);
    if n == 0 {
        return Ok(());
    }
    let p = ch.choose(n);
    // A second time at another point (deviation: not, by default).
    let q = p + ch.dev(n - p);
    let _common = [a, b].contains(&DUMP).then(|| Common::new().here());
    let inner: std::rc::Rc<RefCell<Vec<Result<String, String>>>> = Default::default();
    let (sink, mut at) = (inner.clone(), 0usize);
    let got = with_hook(
        USER,
        move |_| {
            if at == p || (at == q && q > p) {
                sink.borrow_mut().push(guard(|| task(b, inputs(), 1)));
            }
            at += 1;
        },
        || guard(|| task(a, i, 0)),
    );
    let key = format!("X01.nested:{a}:{b}:{p}:{q}");
    differs(&key, format!("{} with {} inside at {p} and {q}", TASKS[a], TASKS[b]), &got, &s.res[a].out)?;
    let inner = inner.borrow();
    for r in inner.iter() {
        differs(&key, format!("{} inside of {} at {p} and {q}", TASKS[b], TASKS[a]), r, &s.res[b].out)?;
    }
    ch.walk(&[h64(&(a, p)), h64(&(a, b, p)), h64(&(a, b, p, q))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| format!("X01.nested: {} at point {p} and {q} of {}", TASKS[b], TASKS[a]));
    Ok(())
}

// ---------------------------------------------------------------- after failures

/// The task, whose user's code fails (or panics) at its `p`th call.
fn failing(t: usize, p: usize, panics: bool) -> Result<String, String> {
    FAULT.with(|f| f.set(Some((p, panics))));
    let r = guard(|| task(t, inputs(), 2));
    FAULT.with(|f| f.set(None));
    r
}
fn x01_after(ch: &mut Ch) -> R {
    // After a task that was stopped at any call of its reader, writer or
    // conversion, by an error or a panic, all tasks are as ever.
    let i = inputs();
    let s = solo()?;
    let a = ch.choose(TASKS.len());
    let n = s.res[a].calls;
    if n == 0 {
        return Ok(());
    }
    let p = ch.choose(n);
    let panics = ch.flag();
    let b = ch.choose(TASKS.len());
    let how = format!("{} stopped at call {p} by {}", TASKS[a], if panics { "a panic" } else { "an error" });
    let key = format!("X01.after:{a}:{p}:{panics}:{b}");
    let first = failing(a, p, panics);
    // Another one stopped too (deviation: not, by default).
    let c = ch.dev(1 + TASKS.len());
    let mut second = String::new();
    if c > 0 && s.res[c - 1].calls > 0 {
        let q = ch.choose(s.res[c - 1].calls);
        let _ = failing(c - 1, q, ch.flag());
        second = format!(", then {} stopped at {q}", TASKS[c - 1]);
    }
    let got = guard(|| task(b, i, 2));
    differs(&key, format!("{} after {how}{second}", TASKS[b]), &got, &s.res[b].out)?;
    let again = failing(a, p, panics);
    if first != again {
        viol!(key, "{how} gives {first:?}, the second time {again:?}");
    }
    let got = guard(|| task(a, i, 2));
    differs(&key, format!("{} after {how}{second}", TASKS[a]), &got, &s.res[a].out)?;
    ch.walk(&[h64(&(a, p, panics)), h64(&(a, p, panics, c)), h64(&(a, p, panics, b, c))]);
    ch.eval(h64(&(a, p, panics, b, &second)), true);
    ch.validated(1);
    ch.sample(|| format!("X01.after: {how}{second}, then {}", TASKS[b]));
    Ok(())
}

// ---------------------------------------------------------------- messages

fn x01_levels(ch: &mut Ch) -> R {
    // What is logged changes nothing.
    let i = inputs();
    let s = solo()?;
    let l = log::LevelFilter::iter().nth(ch.choose(6)).expect("level");
    let t = ch.choose(TASKS.len());
    log::set_max_level(l);
    let got = guard(|| task(t, i, 2));
    log::set_max_level(log::LevelFilter::Trace);
    let key = format!("X01.levels:{t}:{l}");
    differs(&key, format!("{} with the messages of level {l}", TASKS[t]), &got, &s.res[t].out)?;
    ch.walk(&[h64(&l), h64(&(l, t))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| format!("X01.levels: {} with {l}", TASKS[t]));
    Ok(())
}

// ---------------------------------------------------------------- standard output

/// Something else behind the standard output, and the standard error.
struct Redirect([i32; 2]);
impl Redirect {
    fn to(fd: i32) -> Self {
        unsafe {
            let saved = [libc::dup(1), libc::dup(2)];
            assert!(saved.iter().all(|&s| s >= 0), "dup");
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
            Self(saved)
        }
    }
}
impl Drop for Redirect {
    fn drop(&mut self) {
        use std::io::Write as _;
        let _ = std::io::stdout().flush();
        unsafe {
            for (k, s) in self.0.into_iter().enumerate() {
                libc::dup2(s, k as i32 + 1);
                libc::close(s);
            }
        }
    }
}
fn x01_output(ch: &mut Ch) -> R {
    // What stands behind the standard output changes nothing, and nothing is
    // written there: it is the user's, whose document may go there. Each call of
    // the user's code fails in turn, or none.
    use std::os::fd::AsRawFd as _;
    let s = solo()?;
    let what = ch.choose(4);
    let t = ch.choose(TASKS.len());
    let p = ch.choose(1 + s.res[t].calls);
    let run = || if p == 0 { guard(|| task(t, inputs(), 2)) } else { failing(t, p - 1, false) };
    let want = run();
    let path = scratch().with_extension("out");
    let file = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(match what {
        0 => &path,
        _ => std::path::Path::new("/dev/full"),
    });
    let file = file.map_err(|e| Viol { key: "scratch".into(), msg: e.to_string() })?;
    let got = match what {
        0 | 1 => {
            let _r = Redirect::to(file.as_raw_fd());
            run()
        }
        2 => {
            // A pipe that nobody reads.
            let (rd, wr) = std::io::pipe().expect("pipe");
            drop(rd);
            let _r = Redirect::to(wr.as_raw_fd());
            run()
        }
        _ => {
            // Something that can not be written at all.
            let null = std::fs::File::open("/dev/null").expect("/dev/null");
            let _r = Redirect::to(null.as_raw_fd());
            run()
        }
    };
    let key = format!("X01.output:{t}:{p}:{what}");
    let how = format!("{} (failing call: {p}), standard output: {}", TASKS[t], ["a file", "a full disk", "a closed pipe", "not writable"][what]);
    if got != want {
        viol!(key, "{how}: gives {got:?}, otherwise {want:?}");
    }
    if what == 0 {
        let o = std::fs::read(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
        if !o.is_empty() {
            viol!(key, "{how}: there is {:?}", String::from_utf8_lossy(&o));
        }
    }
    ch.walk(&[h64(&(what, t)), h64(&(what, t, p))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| format!("X01.output: {how}"));
    Ok(())
}

fn x01_silent(ch: &mut Ch) -> R {
    // Nothing is written to the standard output whatever the file: every byte
    // of four files damaged in every way, and every truncation.
    use std::os::fd::AsRawFd as _;
    let k = ch.choose(4);
    let b = match k {
        0 => crate::p_vob::small_file(),
        1 => crate::p_pgs::two_subs(),
        2 => crate::p_idx::small_file(),
        _ => crate::p_idx::IDX_MAGIC.to_vec(),
    };
    let at = ch.choose(b.len() + 1);
    let path = scratch().with_extension("out");
    let file = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&path);
    let file = file.map_err(|e| Viol { key: "scratch".into(), msg: e.to_string() })?;
    let from = scratch();
    let mut bad = None;
    let r = Redirect::to(file.as_raw_fd());
    for v in 0..=256usize {
        let mut m = b.clone();
        match m.get_mut(at) {
            Some(x) if v < 256 => *x = v as u8,
            _ => m.truncate(at),
        }
        std::fs::write(&from, &m).expect("scratch file");
        let _ = guard(|| match k {
            0 => open_path(&from).subtitles::<TimeSpan>().take(m.len()).count(),
            1 => {
                SupParser::<_, DecodeTimeImage>::new(Cursor::new(&m)).take(m.len()).flatten().map(|(_, i)| i.iter().count()).sum::<usize>()
                    + SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&m)).take(m.len()).count()
            }
            2 => usize::from(subtile::vobsub::Index::open(&from).is_ok()),
            _ => usize::from(subtile::vobsub::is_idx_file(&from).is_ok()) + usize::from(subtile::vobsub::is_sub_file(&from).is_ok()),
        });
        if file.metadata().map_or(0, |d| d.len()) > 0 {
            bad = Some(v);
            break;
        }
    }
    drop(r);
    let o = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let key = format!("X01.silent:{k}:{at}");
    if bad.is_some() || !o.is_empty() {
        viol!(key, "file {k} with byte {at} set to {bad:?}: there is {:?} on the standard output", String::from_utf8_lossy(&o));
    }
    ch.walk(&[h64(&("silent", k)), h64(&key)]);
    ch.evals(257);
    ch.validated(257);
    Ok(())
}

// ---------------------------------------------------------------- items in turn

const KINDS: usize = 9;
fn stepper<'a>(k: usize, i: &'a Inputs) -> Box<dyn FnMut() -> Option<String> + 'a> {
    match k {
        0 | 1 | 2 => {
            // Two over the same file.
            let mut it = i.vob[k / 2].subtitles::<(TimeSpan, VobSubIndexedImage)>();
            Box::new(move || it.next().map(|x| x.map_or_else(|e| format!("{}", kind(&e)), |(t, i)| format!("{:?}", shown(&t, &i)))))
        }
        3 | 4 => {
            let mut it = SupParser::<_, DecodeTimeImage>::new(io::Cursor::new(&i.pgs[k - 3][..]));
            Box::new(move || it.next().map(|x| x.map_or_else(|e| format!("{:?}", pkind(&e)), |(t, i)| format!("{:?}", pshown(&t, &i)))))
        }
        5 => {
            let mut it = SupParser::<_, DecodeTimeOnly>::new(io::Cursor::new(&i.pgs[0][..]));
            Box::new(move || it.next().map(|x| x.map_or_else(|e| format!("{:?}", pkind(&e)), |t| format!("{:?}", (t.start.msecs(), t.end.msecs())))))
        }
        6 => {
            let mut it = i.pix[0].iter();
            Box::new(move || it.next().map(|p| format!("{:?} {}", p.0, it.len())))
        }
        7 => {
            let mut it = i.pix[1].iter();
            Box::new(move || it.nth(1).map(|p| format!("{:?} {}", p.0, it.len())))
        }
        _ => {
            // Whole calls, one after the other.
            let mut n = 0;
            Box::new(move || {
                n += 1;
                let mut w = vec![];
                let r = match n {
                    1 => srt::write_srt(&mut w, &i.subs),
                    2 => webvtt::write_line(&mut w, &i.subs[0].0, &i.subs[0].1),
                    3 => srt::write_srt(&mut w, &i.subs[1..]),
                    _ => return None,
                };
                Some(format!("{r:?} {:?} {}", String::from_utf8_lossy(&w), if n == 2 { index(&i.idx[0]) } else { index(&i.idx[1]) }))
            })
        }
    }
}
fn x01_items(ch: &mut Ch) -> R {
    // Every way to take items of three of them in turn.
    let i = inputs();
    let s = solo()?;
    let a = ch.choose(KINDS);
    let b = ch.range(a, KINDS - 1);
    let c = ch.range(b, KINDS - 1);
    let ks = [a, b, c];
    let mut order = vec![];
    let r = guard(|| {
        let mut its: Vec<_> = ks.iter().map(|&k| (stepper(k, i), 0usize, k)).collect();
        let mut live: Vec<usize> = vec![0, 1, 2];
        while !live.is_empty() {
            let c = ch.choose(live.len());
            let t = live[c];
            order.push(t);
            let (f, n, k) = &mut its[t];
            let x = f();
            if x.as_ref() != s.items[*k].get(*n) {
                return Err(format!("item {n} of {k} is {x:?}, alone {:?}", s.items[*k].get(*n)));
            }
            *n += 1;
            if x.is_none() {
                live.remove(c);
            }
        }
        Ok(())
    });
    let key = format!("X01.items:{ks:?}:{order:?}");
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "kinds {ks:?} in turn {order:?}: {e}"),
        Err(e) => viol!(key, "kinds {ks:?} in turn {order:?}: {e}"),
    }
    let mut tr = vec![h64(&ks)];
    let mut pos = [0; 3];
    for t in order {
        pos[t] += 1;
        tr.push(h64(&(ks, pos)));
    }
    ch.walk(&tr);
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| key.clone());
    Ok(())
}

// ---------------------------------------------------------------- threads

/// A task has waited for another one.
static WAITED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Who of several threads runs. One of them does, the others wait: at the
/// points that the plan names, another one goes on.
struct Sched {
    /// Whose turn it is.
    cur: AtomicUsize,
    /// Points passed in all.
    step: AtomicUsize,
    /// The number of points at which the plan goes on.
    next: AtomicUsize,
    m: Mutex<Turn>,
    /// One for each thread and one for who looks after them.
    cv: Vec<Condvar>,
}
struct Turn {
    /// At this number of points, on to this task.
    plan: Vec<(usize, usize)>,
    done: Vec<bool>,
    /// Waits for its turn.
    waits: Vec<bool>,
    tid: Vec<i32>,
}
impl Sched {
    fn new(n: usize, first: usize, mut plan: Vec<(usize, usize)>) -> Self {
        plan.reverse();
        Sched {
            cur: AtomicUsize::new(first),
            step: AtomicUsize::new(0),
            next: AtomicUsize::new(plan.last().map_or(usize::MAX, |p| p.0)),
            m: Mutex::new(Turn { plan, done: vec![false; n], waits: vec![true; n], tid: vec![0; n] }),
            cv: (0..=n).map(|_| Condvar::new()).collect(),
        }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Turn> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize, mut g: std::sync::MutexGuard<'_, Turn>) {
        g.waits[me] = true;
        while self.cur.load(SeqCst) != me {
            g = self.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g.waits[me] = false;
    }
    fn go(&self, to: usize) {
        self.cur.store(to, SeqCst);
        self.cv[to].notify_one();
    }
    fn point(&self, me: usize) {
        if self.cur.load(SeqCst) == me {
            // Nobody else counts now.
            let n = self.step.load(Relaxed) + 1;
            self.step.store(n, Relaxed);
            if n != self.next.load(Relaxed) {
                return;
            }
            let mut g = self.lock();
            if let Some((_, to)) = g.plan.pop() {
                self.next.store(g.plan.last().map_or(usize::MAX, |p| p.0), Relaxed);
                if !g.done[to] && to != me {
                    self.go(to);
                }
            }
            self.wait(me, g);
        } else {
            self.wait(me, self.lock());
        }
    }
    fn end(&self, me: usize) {
        let mut g = self.lock();
        g.done[me] = true;
        if self.cur.load(SeqCst) == me {
            self.pass(&g);
        }
        self.cv[g.done.len()].notify_one();
    }
    /// On to the next one that has not ended.
    fn pass(&self, g: &Turn) {
        let (n, me) = (g.done.len(), self.cur.load(SeqCst));
        if let Some(to) = (1..=n).map(|k| (me + k) % n).find(|&k| !g.done[k]) {
            self.go(to);
        }
    }
    /// Until all have ended. One whose turn it is and that sleeps waits for
    /// another one in the library: another one goes on. Did that happen?
    fn look_after(&self) -> Result<bool, String> {
        let mut g = self.lock();
        let n = g.done.len();
        let mut blocked = false;
        let mut last = (usize::MAX, usize::MAX);
        let mut same = 0;
        let mut since = Instant::now();
        while g.done.iter().any(|d| !d) {
            // More often where it happens.
            let nap = if WAITED.load(Relaxed) { 100 } else { 2000 };
            g = self.cv[n].wait_timeout(g, Duration::from_micros(nap)).unwrap_or_else(|e| e.into_inner()).0;
            let cur = self.cur.load(SeqCst);
            let now = (cur, self.step.load(Relaxed));
            if now.1 != last.1 {
                since = Instant::now();
            }
            same = if now == last && !g.waits[cur] && !g.done[cur] && sleeps(g.tid[cur]) { same + 1 } else { 0 };
            last = now;
            if same >= 2 {
                blocked = true;
                WAITED.store(true, Relaxed);
                same = 0;
                self.pass(&g);
            }
            if since.elapsed() > Duration::from_secs(20) {
                return Err("the tasks do not end".into());
            }
        }
        Ok(blocked)
    }
}
fn sleeps(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(") ").next().is_some_and(|s| s.starts_with('S'))
}

/// A thread kept for the tasks of one explorer.
type Job = Box<dyn FnOnce() + Send>;
thread_local! {
    static POOL: RefCell<Vec<std::sync::mpsc::Sender<Job>>> = const { RefCell::new(Vec::new()) };
}
fn on_thread(n: usize, j: Job) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= n {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            let slot = current_slot();
            std::thread::spawn(move || {
                adopt_slot(slot);
                while let Ok(j) = rx.recv() {
                    j();
                }
            });
            p.push(tx);
        }
        p[n].send(j).expect("thread of the harness");
    });
}

/// Run the tasks with the switches of the plan at points of these kinds; what
/// each gives, and whether one waited for another.
fn schedule(ts: &[usize], kinds: u8, first: usize, plan: &[(usize, usize)]) -> Result<(Vec<Result<String, String>>, bool), String> {
    let s = Arc::new(Sched::new(ts.len(), first, plan.to_vec()));
    let common = ts.contains(&DUMP).then(Common::new);
    let out: Arc<Mutex<Vec<Option<Result<String, String>>>>> = Arc::new(Mutex::new(vec![None; ts.len()]));
    for (me, &t) in ts.iter().enumerate() {
        let (s, out) = (s.clone(), out.clone());
        let dir = common.as_ref().map(|c| c.0.clone());
        on_thread(
            me,
            Box::new(move || {
                COMMON.with(|c| *c.borrow_mut() = dir);
                let mut g = s.lock();
                g.tid[me] = unsafe { libc::gettid() };
                s.wait(me, g);
                let s2 = s.clone();
                let r = with_hook(kinds, move |_| s2.point(me), || guard(|| task(t, inputs(), 2 + me)));
                out.lock().unwrap_or_else(|e| e.into_inner())[me] = Some(r);
                s.end(me);
            }),
        );
    }
    let blocked = s.look_after()?;
    let out = out.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|r| r.clone().unwrap_or_else(|| Err("no result".into()))).collect();
    Ok((out, blocked))
}
fn threads(ch: &mut Ch, h: &str, ts: &[usize], kinds: u8) -> R {
    let s = solo()?;
    let n: usize = ts.iter().map(|&t| s.res[t].of(kinds)).sum();
    let first = ch.choose(ts.len());
    // Preemptions: at which points, to which task.
    let mut plan = vec![];
    let mut at = 0;
    loop {
        // One preemption only: later than the end of the first task it is none.
        let left = if kinds & BLOCK != 0 && at == 0 { s.res[ts[first]].of(kinds) } else { n - at };
        let k = ch.dev(1 + left * (ts.len() - 1));
        if k == 0 {
            break;
        }
        let step = at + 1 + (k - 1) / (ts.len() - 1);
        plan.push((step, (k - 1) % (ts.len() - 1)));
        at = step;
    }
    // The target among the others than the one that is running is not known
    // before it runs: it is counted from the first one.
    let mut who = first;
    for (_, to) in plan.iter_mut() {
        let others: Vec<usize> = (0..ts.len()).filter(|&k| k != who).collect();
        who = others[*to];
        *to = who;
    }
    let names: Vec<&str> = ts.iter().map(|&t| TASKS[t]).collect();
    let key = format!("{h}:{ts:?}:{first}:{plan:?}");
    let (out, blocked) = match schedule(ts, kinds, first, &plan) {
        Ok(o) => o,
        Err(e) => viol!(key, "{names:?} on threads, from {first}, switches (at point, to) {plan:?}: {e}"),
    };
    for (k, r) in out.iter().enumerate() {
        differs(&key, format!("{} as one of {names:?} on threads, from {first}, switches (at point, to) {plan:?}", names[k]), r, &s.res[ts[k]].out)?;
    }
    let mut tr = vec![h64(&(ts, first))];
    for k in 1..=plan.len() {
        tr.push(h64(&(ts, first, &plan[..k])));
    }
    ch.walk(&tr);
    ch.eval(h64(&key), true);
    ch.validated(u64::from(!blocked));
    ch.sample(|| format!("{h}: {names:?} from {first}, switches {plan:?}"));
    Ok(())
}
const CALLS_AND_SHARED: u8 = USER | LOG | ALLOC | SHARED;
fn x01_threads(ch: &mut Ch) -> R {
    inputs();
    let a = ch.choose(TASKS.len());
    let b = ch.range(a, TASKS.len() - 1);
    threads(ch, "X01.threads", &[a, b], CALLS_AND_SHARED)
}
fn x01_three(ch: &mut Ch) -> R {
    inputs();
    let a = ch.choose(TASKS.len());
    let b = ch.range(a, TASKS.len() - 1);
    let c = ch.range(b, TASKS.len() - 1);
    threads(ch, "X01.three", &[a, b, c], CALLS_AND_SHARED)
}
fn x01_blocks(ch: &mut Ch) -> R {
    inputs();
    let a = ch.choose(TASKS.len());
    let b = ch.range(a, TASKS.len() - 1);
    threads(ch, "X01.blocks", &[a, b], USER | LOG | ALLOC | BLOCK)
}

fn x01_file(ch: &mut Ch) -> R {
    // What happens to a file after it was opened changes nothing for a VobSub file, and the loss
    // of its name nothing for a PGS file.
    let sizes: Vec<usize> = [0usize, 1, 100, 600, 2000].into_iter().chain((11..ch.tier.b(23, 26)).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).collect();
    let n = *ch.pick(&sizes);
    let sup = ch.flag();
    let what = ch.choose(if sup { 3 } else { 6 });
    // Subtitles to this size, then zeros.
    let one = if sup {
        let mut o = vec![];
        put_sub(&mut o, 9000, 18_000, &pal_of(&[1, 2], 77), 2, 1, &[2, 1], None);
        o
    } else {
        vob_file(0)
    };
    let mut f = one.repeat((n / one.len()).min(300));
    if n > f.len() + one.len() {
        // Some of them at the end.
        if !sup {
            f.resize(n - 2 * one.len(), 0);
        } else {
            while f.len() + 70_000 < n {
                seg(&mut f, 7, 0, 0x17, &vec![5; 65_000]);
            }
        }
        f.extend(one.repeat(2));
    }
    if !sup {
        f.resize(n.max(f.len()), 0);
    }
    let p = scratch().with_extension("x01file");
    let q = scratch().with_extension("x01other");
    let _ = (std::fs::remove_file(&p), std::fs::remove_file(&q));
    std::fs::write(&p, &f).expect("scratch file");
    std::fs::write(&q, if sup { one.clone() } else { damaged_vob() }).expect("scratch file");
    let meddle = || match what {
        0 => std::fs::remove_file(&p).is_ok(),
        1 => std::fs::rename(&q, &p).is_ok(),
        2 => std::fs::rename(&p, &q).is_ok(),
        3 => std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(0)).is_ok(),
        4 => std::fs::OpenOptions::new().write(true).open(&p).and_then(|mut f| f.write_all(&damaged_vob())).is_ok(),
        _ => std::fs::OpenOptions::new().append(true).open(&p).and_then(|mut f| f.write_all(&one)).is_ok(),
    };
    let key = format!("X01.file:{n}:{sup}:{what}");
    let r = guard(|| {
        if sup {
            let it = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&p).map_err(|e| format!("{e:?}"))?;
            assert!(meddle(), "harness");
            let got: Vec<_> = it.map(|x| x.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e))).collect();
            crate::pgs::pagree(&preference(&f), &Ok(got))
        } else {
            let s = Sub::open(&p).map_err(|e| format!("{e:?}"))?;
            assert!(meddle(), "harness");
            let want = reference(&f).items;
            for _ in 0..2 {
                let got: Vec<_> = s.subtitles::<(TimeSpan, VobSubIndexedImage)>().map(|x| x.map(|(t, i)| shown(&t, &i)).map_err(|e| kind(&e))).collect();
                agree_all(&want, &Ok(got))?;
            }
            Ok(())
        }
    });
    let _ = (std::fs::remove_file(&p), std::fs::remove_file(&q));
    let how = ["removed", "replaced", "renamed", "emptied", "overwritten", "extended"][what];
    match r {
        Ok(Ok(())) => {}
        r => viol!(key, "a file of {} bytes that is {how} after it was opened: {r:?}", f.len()),
    }
    ch.walk(&[h64(&(sup, what)), h64(&(sup, what, n))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}

/// Files of one length that stand at one place one after the other: two of each format.
fn contents() -> &'static [Option<Vec<u8>>] {
    static C: OnceLock<Vec<Option<Vec<u8>>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for k in 0..2 {
            v.push(vob_file(k));
        }
        for k in 0..2u8 {
            let mut o = vec![];
            put_sub(&mut o, 9000 << k, 20_000 << k, &pal_of(&[1, 2], 70 + k), 2, 1, &[2 - k, 1 + k], None);
            v.push(o);
        }
        for k in 0..2u8 {
            let pal: Vec<String> = (0..16).map(|i| format!("{:02x}{:02x}{:02x}", k * 16 + i, 3 * i, k)).collect();
            v.push(format!("# VobSub index file, v7\npalette: {}\nid: {}, index: 0\n", pal.join(", "), ["fr", "nl"][k as usize]).into_bytes());
        }
        let n = v.iter().map(Vec::len).max().expect("files") + 40;
        for (k, o) in v.iter_mut().enumerate() {
            match k {
                0 | 1 => o.resize(n, 0),
                2 | 3 => seg(o, 7, 0, 0x17, &vec![5; n - o.len() - 13]),
                _ => o.resize(n, b'\n'),
            }
        }
        // A short one, and none.
        v.push(b"# V".to_vec());
        let mut v: Vec<_> = v.into_iter().map(Some).collect();
        v.push(None);
        v
    })
}
const OPENS: [&str; 5] = ["read as index", "read as .sub", "read as .sup", "probed as index", "probed as .sub"];
/// What is read from the file at `p` is what is in it now.
fn open_as(p: &std::path::Path, op: usize, now: Option<&[u8]>) -> Result<(), String> {
    let io = |r: Result<(), VobSubError>| match r {
        Err(VobSubError::Io { .. }) => Ok(()),
        r => Err(format!("{r:?} for a file that is not there")),
    };
    let index = |r: Result<Index, VobSubError>| r.map(|i| format!("{:?} {:?}", i.palette(), i.lang().as_ref().map(|l| l.lang().to_string()))).map_err(|e| kind(&e));
    let Some(b) = now else {
        return match op {
            0 => io(Index::open(p).map(drop)),
            1 => io(Sub::open(p).map(drop)),
            2 => match SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(p) {
                Err(subtile::pgs::PgsError::Io { .. }) => Ok(()),
                r => Err(format!("{:?} for a file that is not there", r.map(drop))),
            },
            3 => io(subtile::vobsub::is_idx_file(p).map(drop)),
            _ => io(subtile::vobsub::is_sub_file(p).map(drop)),
        };
    };
    match op {
        0 => {
            let want = index(Index::read_index(BufReader::new(b), &|source| VobSubError::Io { source, path: "x".into() }));
            let got = index(Index::open(p));
            if got == want { Ok(()) } else { Err(format!("{got:?}, expected {want:?}")) }
        }
        1 => {
            let s = Sub::open(p).map_err(|e| format!("{e:?}"))?;
            let got: Vec<_> = s.subtitles::<(TimeSpan, VobSubIndexedImage)>().map(|x| x.map(|(t, i)| shown(&t, &i)).map_err(|e| kind(&e))).collect();
            agree_all(&reference(b).items, &Ok(got))
        }
        2 => {
            let it = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(p).map_err(|e| format!("{e:?}"))?;
            let got: Vec<_> = it.map(|x| x.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e))).collect();
            crate::pgs::pagree(&preference(b), &Ok(got))
        }
        _ => {
            let (m, got) = if op == 3 { (&b"# VobSub index file"[..], subtile::vobsub::is_idx_file(p)) } else { (&b"\0\0\x01\xba"[..], subtile::vobsub::is_sub_file(p)) };
            match got {
                Ok(g) if b.len() >= m.len() && g == b.starts_with(m) => Ok(()),
                Err(VobSubError::Io { .. }) if b.len() < m.len() => Ok(()),
                g => Err(format!("{g:?}")),
            }
        }
    }
}
fn again(ch: &mut Ch, name: &str, steps: usize, what: &[usize], ops: &[usize]) -> R {
    let all = contents();
    let n = ch.range(1, steps);
    let p = scratch().with_extension("again");
    let _ = std::fs::remove_file(&p);
    let mut now: Option<&[u8]> = None;
    let mut did = vec![];
    let mut trace = vec![];
    let mut bad = None;
    for _ in 0..n {
        let k = ch.choose(what.len() + usize::from(!did.is_empty()));
        let op = *ch.pick(ops);
        if let Some(c) = what.get(k) {
            now = all[*c].as_deref();
            match now {
                Some(b) => std::fs::write(&p, b).expect("scratch file"),
                None => drop(std::fs::remove_file(&p)),
            }
        }
        did.push((k, OPENS[op]));
        trace.push(h64(&did));
        if bad.is_none() {
            bad = match guard(|| open_as(&p, op, now)) {
                Ok(Ok(())) => None,
                r => Some(format!("{r:?}")),
            };
        }
    }
    let _ = std::fs::remove_file(&p);
    ch.walk(&trace);
    ch.eval(h64(&did), true);
    if let Some(bad) = bad {
        viol!(format!("{name}:{did:?}"), "one path with (content, then how it is read) {did:?}: {bad}");
    }
    ch.validated(n as u64);
    Ok(())
}
fn x01_again(ch: &mut Ch) -> R {
    let n = ch.tier.b(3, 4);
    again(ch, "X01.again", n, &[0, 1, 2, 3, 4, 5, 7], &[0, 1, 2, 3, 4])
}
fn r01_again(ch: &mut Ch) -> R {
    let n = ch.tier.b(4, 5);
    again(ch, "R01.again", n, &[0, 2, 4, 6, 7], &[3, 4])
}
/// Few files may be open at once.
pub struct Files(u64);
impl Files {
    pub fn limit() -> Files {
        let most = std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.flatten().filter_map(|f| f.file_name().to_str().and_then(|n| n.parse::<u64>().ok())).max().unwrap_or(0));
        // SAFETY: plain calls; the harness is the only one that runs, and the limit is lifted on drop.
        unsafe {
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            assert_eq!(libc::getrlimit(libc::RLIMIT_NOFILE, &mut l), 0);
            let was = l.rlim_cur;
            l.rlim_cur = (most + 20).min(was);
            assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &l), 0);
            Files(was)
        }
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        // SAFETY: as above.
        unsafe {
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            l.rlim_cur = self.0;
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
    }
}
/// More readings than files may be open, of one file or a file that is not there.
fn often(ch: &mut Ch, name: &str, what: &[usize], ops: &[usize]) -> R {
    let all = contents();
    let (c, op) = (*ch.pick(what), *ch.pick(ops));
    let p = scratch().with_extension("often");
    let _ = std::fs::remove_file(&p);
    let now = all[c].as_deref();
    if let Some(b) = now {
        std::fs::write(&p, b).expect("scratch file");
    }
    let mut bad = None;
    {
        let _files = Files::limit();
        for k in 0..ch.tier.b(60, 600) {
            match guard(|| open_as(&p, op, now)) {
                Ok(Ok(())) => {}
                r => {
                    bad = Some((k, format!("{r:?}")));
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_file(&p);
    ch.walk(&[h64(&(c, op))]);
    ch.eval(h64(&(c, op)), true);
    if let Some((k, bad)) = bad {
        viol!(format!("{name}:{c}:{}", OPENS[op]), "content {c} {} after {k} times, when 20 files may be open: {bad}", OPENS[op]);
    }
    ch.validated(1);
    Ok(())
}
fn x01_often(ch: &mut Ch) -> R {
    often(ch, "X01.often", &[0, 1, 2, 3, 4, 5, 6, 7], &[0, 1, 2, 3, 4])
}
fn r01_often(ch: &mut Ch) -> R {
    often(ch, "R01.often", &[0, 1, 2, 3, 4, 5, 6, 7], &[3, 4])
}
fn i03_often(ch: &mut Ch) -> R {
    often(ch, "I03.often", &[0, 4, 5, 6, 7], &[0])
}
fn v05_often(ch: &mut Ch) -> R {
    often(ch, "V05.often", &[0, 1, 2, 4, 6, 7], &[1])
}

pub const H: &[Harness] = &[
    Harness { prop: "X01", name: "X01.often", what: "8 contents read or probed in one of 5 ways, more often than files may be open", devs: (0, 0), serial: true, run: x01_often },
    Harness { prop: "R01", name: "R01.often", what: "8 contents probed in one of 2 ways, more often than files may be open", devs: (0, 0), serial: true, run: r01_often },
    Harness { prop: "I03", name: "I03.often", what: "5 contents read as an index more often than files may be open", devs: (0, 0), serial: true, run: i03_often },
    Harness { prop: "V05", name: "V05.often", what: "6 contents read as .sub more often than files may be open", devs: (0, 0), serial: true, run: v05_often },
    Harness { prop: "X01", name: "X01.again", what: "all words of up to 3 (4) steps: one of 7 contents of one length, or none, written at a path, then read or probed in one of 5 ways", devs: (0, 0), serial: false, run: x01_again },
    Harness { prop: "R01", name: "R01.again", what: "all words of up to 4 (5) steps: one of 5 contents written at a path, or the same left, then probed in one of 2 ways", devs: (0, 0), serial: false, run: r01_again },
    Harness { prop: "X01", name: "X01.file", what: "files of sizes around powers of two that are removed, replaced or changed after they were opened", devs: (0, 0), serial: false, run: x01_file },
    Harness { prop: "X01", name: "X01.levels", what: "each of 20 tasks with the messages of each level", devs: (0, 0), serial: true, run: x01_levels },
    Harness { prop: "X01", name: "X01.silent", what: "every byte of 4 files in every way, every truncation: nothing on the standard output", devs: (0, 0), serial: true, run: x01_silent },
    Harness { prop: "X01", name: "X01.output", what: "each of 20 tasks, each of its calls failing, x 4 kinds of standard output", devs: (0, 0), serial: true, run: x01_output },
    Harness { prop: "X01", name: "X01.nested", what: "each of 20 tasks inside of each at every point (and at every pair of points)", devs: (1, 1), serial: false, run: x01_nested },
    Harness { prop: "X01", name: "X01.after", what: "each of 20 tasks after each stopped at every call of its user's code by an error or panic (and another one stopped)", devs: (0, 1), serial: false, run: x01_after },
    Harness { prop: "X01", name: "X01.items", what: "all interleavings of the items of three iterators over 9 kinds", devs: (0, 0), serial: false, run: x01_items },
    Harness { prop: "X01", name: "X01.threads", what: "all schedules of two of 20 tasks on threads, within the bound of preemptions", devs: (2, 3), serial: false, run: x01_threads },
    Harness { prop: "X01", name: "X01.three", what: "all schedules of three of 20 tasks on threads, within the bound of preemptions", devs: (1, 2), serial: false, run: x01_three },
    Harness { prop: "X01", name: "X01.blocks", what: "all schedules of two of 20 tasks on threads with one preemption, at any basic block of the library", devs: (1, 1), serial: false, run: x01_blocks },
];
