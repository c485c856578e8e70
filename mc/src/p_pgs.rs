//! Properties of the reading and rendering of presentation graphic streams.

use crate::engine::*;
use crate::pgs::*;
use crate::viol;
use crate::vob::{form, hex, named, parts, piped, scratch, FORMS, NAMES};
use image::{Luma, LumaA, Rgba};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::io::{self, BufRead, BufReader, Cursor, ErrorKind, Read, Seek, SeekFrom};
use subtile::image::{luma_a_to_luma_convertor, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, ReadError, ReadExt as _, RleToImage};
use subtile::SupParser;

pub fn check(ch: &mut Ch, h: &str, b: &[u8], nontrivial: bool) -> Result<PRef, Viol> {
    let r = preference(b);
    let got = pread(b);
    let k = h64(b);
    ch.walk(&r.trace);
    ch.eval(k, nontrivial);
    if let Err(e) = pagree(&r, &got) {
        viol!(format!("{h}:{k:016x}"), "{e}; stream {}", hex(b));
    }
    ch.validated(1);
    ch.sample(|| format!("{h}: {} items, broken {:?}, from {}", r.items.len(), r.broken, hex(b)));
    Ok(r)
}

pub const IDS: [u8; 6] = [0, 1, 2, 3, 200, 255];

/// Data with one byte per pixel, all of them colours of `IDS` other than 0.
pub fn flat(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| IDS[1 + (i * (k + 1) + i / 3) % 5]).collect()
}

// ================================================================ G01, G02

fn event(ch: &mut Ch, o: &mut Vec<u8>, n: usize, alts: usize) -> bool {
    let t = (n as u32 + 1) * 9000 + 45;
    match ch.choose(alts) {
        0 => return false,
        1 => seg(o, t, 1, END, &[]),
        2 => seg(o, t, 2, PDS, &pal_of(&IDS, 1)),
        3 => seg(o, t, 3, PDS, &pal_of(&[2, 1, 77], 50)),
        4 => seg(o, t, 4, ODS, &ods_full(3, 2, &flat(6, 0))),
        5 => seg(o, t, 5, ODS, &ods_full(2, 2, &[0, 4, 1])),
        6 => seg(o, t, 6, ODS, &ods_head(0x80, 4 + 6, 2, 3, &flat(4, 1))),
        7 => seg(o, t, 7, ODS, &ods_last(&[3, 2])),
        8 => seg(o, t, 8, PCS, b"PG\0\0\0\0\0\0\0\0\x80\0\0"),
        9 => seg(o, t, 9, WDS, &[]),
        _ => seg(o, t, 9, WDS, &[0; 300]),
    }
    true
}

fn g01_history(ch: &mut Ch) -> R {
    let mut o = vec![];
    for n in 0..ch.tier.b(7, 8) {
        if !event(ch, &mut o, n, 10) {
            break;
        }
    }
    check(ch, "G01.history", &o, true)?;
    Ok(())
}

fn g01_sets(ch: &mut Ch) -> R {
    // Histories of whole display sets, which need more segments to matter.
    let mut o = vec![];
    for n in 0..ch.tier.b(5, 6) {
        let t = (n as u32 + 1) * 90_000;
        match ch.choose(9) {
            0 => break,
            1 => put_sub(&mut o, t, t + 4500, &pal_of(&IDS, 9), 3, 2, &flat(6, n), None),
            2 => put_sub(&mut o, t, t + 4500, &pal_of(&IDS, 9), 4, 1, &flat(4, n), Some(2)),
            // A clear set alone.
            3 => {
                seg(&mut o, t, 0, PCS, &[0; 11]);
                seg(&mut o, t, 0, END, &[]);
            }
            // A show set alone.
            4 => {
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 3));
                seg(&mut o, t, 0, ODS, &ods_full(2, 1, &[1, 2]));
                seg(&mut o, t, 0, END, &[]);
            }
            // A show set with two palettes and two objects: the last ones count.
            5 => {
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 3));
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 30));
                seg(&mut o, t, 0, ODS, &ods_full(2, 1, &[1, 2]));
                seg(&mut o, t, 0, PDS, &pal_of(&[1, 2], 31));
                seg(&mut o, t, 0, ODS, &ods_full(1, 2, &[2, 1]));
                seg(&mut o, t, 0, END, &[]);
            }
            // An object without palette.
            6 => {
                seg(&mut o, t, 0, ODS, &ods_full(2, 1, &[1, 2]));
                seg(&mut o, t, 0, END, &[]);
            }
            // A palette that no image uses.
            7 => {
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 77));
                seg(&mut o, t, 0, END, &[]);
            }
            // A started object that is never completed.
            _ => {
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 78));
                seg(&mut o, t, 0, ODS, &ods_head(0x80, 4 + 6, 2, 3, &flat(4, 1)));
                seg(&mut o, t, 0, END, &[]);
            }
        }
    }
    check(ch, "G01.sets", &o, true)?;
    Ok(())
}

fn g01_fields(ch: &mut Ch) -> R {
    // Fields that do not matter, sizes of skipped segments, time stamps.
    let mut o = vec![];
    let data = flat(6, 1);
    let (mut t0, mut t1) = (90_000u32, 180_000u32);
    let (mut dts, mut objid, mut palid) = (0u32, [0u8, 1, 0], [1u8, 2]);
    let (mut pcs, mut wds) = (vec![0u8; 19], vec![1u8; 10]);
    match ch.choose(7) {
        0 => {
            let i = ch.choose(32);
            let j = ch.choose(32);
            t0 = 1 << i;
            t1 = 1 << j | 1 << i;
        }
        1 => {
            t0 = ch.choose(ch.tier.b(20000, 200000)) as u32;
            t1 = u32::MAX - t0;
        }
        2 => dts = *ch.pick(&[1, 0x5047_5047, u32::MAX]),
        3 => objid = *ch.pick(&[[0, 0, 0], [255, 255, 255], [0x80, 0x40, 0xc0], [b'P', b'G', 7]]),
        4 => palid = [ch.choose(256) as u8, *ch.pick(&[0, 5, 255])],
        5 => {
            let n = if ch.tier == Tier::Quick {
                let k = ch.choose(300);
                [k, 65535 - k][ch.choose(2)]
            } else {
                ch.choose(256) * 256 + ch.choose(256)
            };
            pcs = vec![0x50; n];
            wds = vec![0x47; 65535 - n];
        }
        _ => {
            // Skipped segments that hold segments.
            pcs.clear();
            seg(&mut pcs, 1, 1, *ch.pick(&[END, PDS, ODS, 0]), &[]);
            wds = pcs.repeat(3);
        }
    }
    for k in 0..2 {
        seg(&mut o, t0, dts, PCS, &pcs);
        seg(&mut o, t0, dts, WDS, &wds);
        let mut p = pal_of(&IDS, k);
        p[..2].copy_from_slice(&palid);
        seg(&mut o, t0, dts, PDS, &p);
        let mut q = ods_full(3, 2, &data);
        q[..3].copy_from_slice(&objid);
        seg(&mut o, t0 ^ 77, dts, ODS, &q);
        seg(&mut o, t0, dts, END, &[]);
        seg(&mut o, t1, dts, PCS, &pcs);
        seg(&mut o, t1, dts, END, &[]);
    }
    let r = check(ch, "G01.fields", &o, true)?;
    let w = (i64::from(t0 / 90), i64::from(t1 / 90));
    for i in &r.items {
        let i = i.as_ref().expect("reference");
        assert_eq!((i.start, i.end), w);
    }
    assert_eq!(r.items.len(), 2);
    Ok(())
}

fn time_only(ch: &mut Ch, h: &str, b: &[u8]) -> R {
    let (want, broken) = tref(b);
    let got = tread_with(Cursor::new(b), b.len() + 4);
    let key = format!("{h}:{:016x}", h64(b));
    let got = match got {
        Ok(g) => g,
        Err(e) => viol!(key, "time-only: {e}; stream {}", hex(b)),
    };
    let n = want.len();
    let same = got.len() >= n && got.iter().zip(&want).all(|(g, w)| g.as_ref().is_ok_and(|g| g == w));
    let tail = match broken {
        Tail::End => got.len() == n,
        Tail::Error => matches!(got.get(n), Some(Err(_))),
        Tail::Loose => true,
    };
    if !same || !tail {
        viol!(key, "time-only: {got:?}, expected {want:?}, then {broken:?}; stream {}", hex(b));
    }
    // Where the images have no error, both decoders give the same spans.
    let full = match pread(b) {
        Ok(f) => f,
        Err(e) => viol!(key, "{e}; stream {}", hex(b)),
    };
    if broken == Tail::End && full.iter().all(Result::is_ok) {
        let spans: Vec<(i64, i64)> = full.iter().flatten().map(|s| (s.start, s.end)).collect();
        let t: Vec<(i64, i64)> = got.iter().flatten().copied().collect();
        if spans != t {
            viol!(key, "spans with images {spans:?}, without {t:?}; stream {}", hex(b));
        }
    }
    let mut tr = vec![h64("t")];
    for (i, (s, e)) in want.iter().enumerate() {
        tr.push(h64(&("span", i, s, e, broken)));
    }
    ch.walk(&tr);
    ch.eval(h64(b), n > 0);
    ch.validated(1);
    ch.sample(|| format!("{h}: spans {want:?} from {}", hex(b)));
    Ok(())
}

fn g02_history(ch: &mut Ch) -> R {
    let mut o = vec![];
    for n in 0..ch.tier.b(7, 8) {
        if !event(ch, &mut o, n, 10) {
            break;
        }
    }
    time_only(ch, "G02.history", &o)
}

/// The streams whose images have no error: both readings give the same spans.
fn agree(h: &str, b: &[u8]) -> Result<bool, Viol> {
    let key = format!("{h}:{:016x}", h64(b));
    let full = match pread(b) {
        Ok(f) => f,
        Err(e) => viol!(key, "{e}; stream {}", hex(b)),
    };
    if full.iter().any(Result::is_err) {
        return Ok(false);
    }
    let want: Vec<TItem> = full.iter().flatten().map(|s| Ok((s.start, s.end))).collect();
    let got = tread_with(Cursor::new(b), b.len() + 4);
    if got.as_ref() != Ok(&want) {
        viol!(key, "spans with images {want:?}, without {got:?}; stream {}", hex(b));
    }
    Ok(!want.is_empty())
}
fn g02_ends(ch: &mut Ch) -> R {
    // Ends of display sets that declare a size, whatever follows them.
    let mut o = vec![];
    let n = ch.range(1, ch.tier.b(4, 5));
    for k in 0..n as u32 {
        if k % 2 == 0 {
            seg(&mut o, k * 900, 0, PDS, &pal_of(&IDS, 3));
            seg(&mut o, k * 900, 0, ODS, &ods_full(2, 1, &[1, 2]));
        }
        seg(&mut o, k * 900, 0, END, &[]);
        let size = *ch.pick(&[0u16, 1, 3, 12, 13, 14, 26, 39, 256, 65535]);
        let at = o.len() - 2;
        o[at..].copy_from_slice(&size.to_be_bytes());
        match ch.choose(3) {
            0 => {}
            1 => seg(&mut o, k * 900 + 90, 0, WDS, &[0x80; 13]),
            // What it declares.
            _ => o.extend(vec![0x50; usize::from(size.min(40))]),
        }
    }
    let some = agree("G02.ends", &o)?;
    ch.walk(&[h64(&n), h64(&(n, o.len())), h64(&o)]);
    ch.eval(h64(&o), some);
    ch.validated(1);
    ch.sample(|| format!("G02.ends: {}", hex(&o)));
    Ok(())
}
fn g02_bytes(ch: &mut Ch) -> R {
    // Every byte in every way.
    let mut o = two_subs();
    let at = ch.choose(o.len());
    let old = o[at];
    // And another one in some ways.
    let with = ch.range(at, o.len() - 1);
    for v in 0..=255u8 {
        if with != at {
            break;
        }
        o[at] = v;
        let some = agree("G02.bytes", &o)?;
        ch.eval(h64(&(at, v)), some);
        ch.validated(1);
    }
    for (a, b) in [(1u8, 1u8), (0xff, 0xff), (0xff, 1), (1, 0xff), (0x80, 0x80), (0x40, 0xc0), (0xc0, 0x40)] {
        let mut m = o.clone();
        m[at] = old ^ a;
        m[with] ^= b;
        let some = agree("G02.bytes", &m)?;
        ch.eval(h64(&(at, with, a, b)), some);
        ch.validated(1);
    }
    ch.walk(&[h64(&at), h64(&(at, with))]);
    Ok(())
}

fn g02_content(ch: &mut Ch) -> R {
    // The content of segments is not looked at; any size is skipped.
    let mut o = vec![];
    let n = ch.range(1, 3);
    for k in 0..n as u32 {
        let ty = *ch.pick(&[PDS, ODS, PCS, WDS]);
        let size = *ch.pick(&[0usize, 1, 2, 3, 12, 13, 255, 256, 4095, 8192, 8193, 65535]);
        seg(&mut o, k * 900, 0, ty, &vec![0x50 + k as u8; size]);
        seg(&mut o, k * 900, 0, END, &[]);
    }
    seg(&mut o, 12_345, 0, END, &[]);
    let (want, _) = tref(&o);
    let key = format!("G02.content:{:016x}", h64(&o));
    ch.walk(&[h64(&("spans", want.len())), h64(&o.len())]);
    ch.eval(h64(&o), true);
    let path = scratch();
    std::fs::write(&path, &o).expect("scratch file");
    let fc = Cell::new(None);
    for how in 0..4 {
        let got = match how {
            0 => tread_with(Cursor::new(&o[..]), o.len() + 4),
            1 => tread_with(BufReader::with_capacity(16, Cursor::new(&o[..])), o.len() + 4),
            2 => tread_with(PlanReader::new(&o, &[], 1000, &fc), o.len() + 4),
            _ => guard(|| {
                SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(&path)
                    .map_err(|e| format!("from_file fails: {e:?}"))
                    .map(|p| p.map(|r| r.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| pkind(&e))).take(9).collect())
            })
            .unwrap_or_else(|p| Err(format!("panics: {p}"))),
        };
        let w: Vec<TItem> = want.iter().map(|x| Ok(*x)).collect();
        if got.as_ref().ok() != Some(&w) {
            viol!(key, "time-only (reader {how}): {got:?}, expected {want:?}; stream {}", hex(&o));
        }
        ch.validated(1);
    }
    Ok(())
}

fn g02_fields(ch: &mut Ch) -> R {
    let i = ch.choose(32);
    let j = ch.choose(32);
    let mut o = vec![];
    for k in 0..3u32 {
        put_sub(&mut o, (1 << i) + k, (1u32 << j).wrapping_sub(k) | 1 << i, &pal_of(&IDS, 9), 3, 2, &flat(6, 1), [None, Some(2)][k as usize % 2]);
    }
    time_only(ch, "G02.fields", &o)
}

fn ends_at(ch: &mut Ch) -> Vec<u8> {
    // Display sets at all orders of times, earlier ones too.
    let times = [0u32, 44, 90, 91, 4_500, 90_000, 1 << 31, u32::MAX];
    let mut o = vec![];
    for n in 0..ch.tier.b(6, 7) {
        let k = ch.choose(times.len() + 1);
        if k == times.len() {
            break;
        }
        if n % 2 == 0 {
            seg(&mut o, times[k], 0, PDS, &pal_of(&IDS, 3));
            seg(&mut o, times[k], 7, ODS, &ods_full(2, 1, &[1, 2]));
        }
        seg(&mut o, times[k], 0, END, &[]);
    }
    o
}
fn g01_times(ch: &mut Ch) -> R {
    let o = ends_at(ch);
    check(ch, "G01.times", &o, true).map(drop)
}
fn g02_times(ch: &mut Ch) -> R {
    let o = ends_at(ch);
    time_only(ch, "G02.times", &o)
}

/// As many subtitles as that, of several kinds.
fn many(n: usize) -> Vec<u8> {
    let mut o = vec![];
    for k in 0..n {
        let t = k as u32 * 21_000;
        match k % 7 {
            // No image.
            3 if n % 2 == 0 => {
                seg(&mut o, t, 0, END, &[]);
                seg(&mut o, t + 9000, 0, END, &[]);
            }
            4 => put_sub(&mut o, t, t + 9000, &pal_of(&IDS, k as u8), 2, 2, &flat(4, k % 5), Some(k % 4)),
            _ => put_sub(&mut o, t, t + 9000, &pal_of(&IDS[k % 3..], k as u8), 3, 1, &flat(3, k % 5), None),
        }
    }
    o
}
fn how_many(ch: &mut Ch) -> usize {
    match ch.choose(2) {
        0 => ch.range(0, 64),
        _ => *ch.pick(ch.tier.b(
            &[127usize, 128, 129, 255, 256, 257, 500, 501, 999, 1000, 1001, 4095, 4097, 9_999, 10_001, 32_769, 65_535, 65_536, 65_537][..],
            &[127, 128, 129, 255, 256, 257, 500, 501, 999, 1000, 1001, 4095, 4097, 9_999, 10_001, 32_769, 65_535, 65_536, 65_537, 100_001, 200_000][..],
        )),
    }
}
fn g01_many(ch: &mut Ch) -> R {
    let n = how_many(ch);
    check(ch, "G01.many", &many(n), true).map(drop)
}
fn g02_many(ch: &mut Ch) -> R {
    let n = how_many(ch);
    // Every one has an image.
    time_only(ch, "G02.many", &many(n | 1))
}

/// A stream of more than 4 GiB: the block repeated between head and tail.
struct Far<'a> {
    parts: [(&'a [u8], u64); 3],
    pos: u64,
}
impl Far<'_> {
    fn len(&self) -> u64 {
        self.parts.iter().map(|(b, n)| b.len() as u64 * n).sum()
    }
}
impl std::io::Read for Far<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let f = self.fill_buf()?;
            let n = f.len().min(b.len());
            b[..n].copy_from_slice(&f[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Far<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let mut at = self.pos;
        for (b, n) in self.parts {
            let all = b.len() as u64 * n;
            if at < all {
                let k = (at % b.len() as u64) as usize;
                return Ok(&b[k..b.len().min(k + 8192)]);
            }
            at -= all;
        }
        Ok(&[])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
    }
}
impl Seek for Far<'_> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let to = match s {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len().checked_add_signed(d),
        };
        self.pos = to.ok_or(ErrorKind::InvalidInput)?;
        Ok(self.pos)
    }
}
fn far(ch: &mut Ch, h: &str, images: bool) -> R {
    // Subtitles beyond 2^24, 2^31 and 2^32 bytes, and one that spans all that.
    let bytes = *ch.pick(&[1u64 << 24, 1 << 31, 1 << 32, 5 << 32]);
    let within = ch.flag();
    let mut head = vec![];
    put_sub(&mut head, 90, 900, &pal_of(&IDS, 7), 2, 2, &flat(4, 1), None);
    if within {
        seg(&mut head, 9000, 0, PDS, &pal_of(&IDS, 9));
        seg(&mut head, 9000, 0, ODS, &ods_head(0x80, 4 + 6, 3, 2, &flat(6, 2)[..4]));
    }
    let mut block = vec![];
    seg(&mut block, 9, 9, *ch.pick(&[PCS, WDS]), &vec![0x50; 65_535]);
    let mut tail = vec![];
    if within {
        seg(&mut tail, 9000, 0, ODS, &ods_last(&flat(6, 2)[4..]));
        seg(&mut tail, 9000, 0, END, &[]);
        seg(&mut tail, 18_000, 0, END, &[]);
    }
    put_sub(&mut tail, 90_000, 180_000, &pal_of(&IDS, 11), 4, 1, &flat(4, 2), Some(1));
    let n = bytes / block.len() as u64 + 1;
    let make = || Far { parts: [(&head, 1), (&block, n), (&tail, 1)], pos: 0 };
    let buffered = ch.flag();
    let short = [&head[..], &block, &tail].concat();
    let key = format!("{h}:{bytes}:{within}:{buffered}");
    if images {
        let want = preference(&short);
        let got = if buffered { pread_with(BufReader::new(make()), 9) } else { pread_with(make(), 9) };
        if let Err(e) = pagree(&want, &got) {
            viol!(key, "a stream of {} bytes: {e}", make().len());
        }
    } else {
        let want: Vec<TItem> = tref(&short).0.into_iter().map(Ok).collect();
        let got = if buffered { tread_with(BufReader::new(make()), 9) } else { tread_with(make(), 9) };
        if got.as_ref() != Ok(&want) {
            viol!(key, "a stream of {} bytes: times {got:?}, expected {want:?}", make().len());
        }
    }
    ch.walk(&[h64(&bytes), h64(&key)]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}
fn g01_far(ch: &mut Ch) -> R {
    far(ch, "G01.far", true)
}
fn g02_far(ch: &mut Ch) -> R {
    far(ch, "G02.far", false)
}

fn g02_mixed(ch: &mut Ch) -> R {
    // Each subtitle read with or without its image, from the same reader.
    use subtile::pgs::PgsDecoder;
    let mut o = vec![];
    for n in 0..4u32 {
        let t = (n + 1) * 90_000;
        match ch.choose(5) {
            0 => break,
            1 => put_sub(&mut o, t, t + 4500, &pal_of(&IDS, 9), 3, 2, &flat(6, n as usize), None),
            2 => put_sub(&mut o, t, t + 4500, &pal_of(&IDS, 9), 4, 1, &flat(4, n as usize), Some(2)),
            3 => {
                // The end of the second set comes at once.
                seg(&mut o, t, 0, PDS, &pal_of(&IDS, 3));
                seg(&mut o, t, 0, ODS, &ods_full(2, 1, &[1, 2]));
                seg(&mut o, t, 0, END, &[]);
                seg(&mut o, t + 900, 0, END, &[]);
            }
            _ => {
                // The image comes in the second set.
                seg(&mut o, t, 0, END, &[]);
                seg(&mut o, t + 900, 0, WDS, &[7; 40]);
                seg(&mut o, t + 900, 0, PDS, &pal_of(&IDS, 3));
                seg(&mut o, t + 900, 0, ODS, &ods_full(2, 1, &[2, 1]));
                seg(&mut o, t + 900, 0, END, &[]);
            }
        }
    }
    let want = preference(&o);
    let how: Vec<bool> = want.items.iter().map(|_| ch.flag()).collect();
    let small = ch.flag();
    let key = format!("G02.mixed:{:016x}:{how:?}:{small}", h64(&o));
    let mut rd = BufReader::with_capacity(if small { 7 } else { 4096 }, Cursor::new(&o[..]));
    for (k, w) in want.items.iter().enumerate() {
        let w = w.as_ref().expect("the reference has images");
        let got = guard(|| {
            if how[k] {
                DecodeTimeImage::parse_next(&mut rd).map(|x| x.map(|(t, i)| pshown(&t, &i))).map_err(|e| pkind(&e))
            } else {
                DecodeTimeOnly::parse_next(&mut rd)
                    .map(|x| x.map(|t| PShown { start: t.start.msecs(), end: t.end.msecs(), ..w.clone() }))
                    .map_err(|e| pkind(&e))
            }
        });
        if got.as_ref() != Ok(&Ok(Some(w.clone()))) {
            viol!(key, "subtitle {k}, with images: {how:?}: {got:?}, expected {w:?}; stream {}", hex(&o));
        }
    }
    let end = guard(|| (matches!(DecodeTimeOnly::parse_next(&mut rd), Ok(None)), matches!(DecodeTimeImage::parse_next(&mut rd), Ok(None))));
    if end != Ok((true, true)) {
        viol!(key, "no end after {how:?}: {end:?}; stream {}", hex(&o));
    }
    ch.walk(&want.trace);
    ch.eval(h64(&key), !how.is_empty());
    ch.validated(1);
    ch.sample(|| format!("G02.mixed: {how:?} over {}", hex(&o)));
    Ok(())
}

fn g01_steps(ch: &mut Ch) -> R {
    // The ways of an iterator to go on.
    let mut o = vec![];
    for k in 0..6u32 {
        let t = k * 18_000;
        if k == 2 {
            seg(&mut o, t, 0, END, &[]);
            seg(&mut o, t + 900, 0, END, &[]);
        } else {
            put_sub(&mut o, t, t + 900, &pal_of(&IDS, k as u8), 3, 1, &flat(3, k as usize % 5), (k % 2 == 0).then_some(1));
        }
    }
    let want = preference(&o).items;
    if ch.flag() {
        let it = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&o[..]));
        let it = it.map(|x| x.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e)));
        steps(ch, "G01.steps", it, &want)
    } else {
        let want: Vec<TItem> = tref(&o).0.into_iter().map(Ok).collect();
        let it = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&o[..]));
        let it = it.map(|x| x.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| pkind(&e)));
        steps(ch, "G01.steps", it, &want)
    }
}

// ================================================================ G03

fn g03_file(pal: &[u8], segs: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    seg(&mut o, 90, 0, PDS, pal);
    for s in segs {
        seg(&mut o, 90, 0, ODS, s);
    }
    seg(&mut o, 900, 0, END, &[]);
    seg(&mut o, 9000, 0, END, &[]);
    o
}

fn g03_split(ch: &mut Ch) -> R {
    // All splits of small objects: the pixels are those of the whole.
    let n = ch.range(0, ch.tier.b(160, 400));
    let data = flat(n, n % 3);
    let (w, h) = if n == 0 { (2, 1) } else { (n as u16, 1) };
    let pal = pal_of(&IDS, 7);
    let whole = g03_file(&pal, &[ods_full(w, h, &data)]);
    let want = check(ch, "G03.split", &whole, true)?.items;
    for k in 0..=n {
        let b = g03_file(&pal, &[ods_head(0x80, n as u32 + 4, w, h, &data[..k]), ods_last(&data[k..])]);
        let r = check(ch, "G03.split", &b, true)?;
        assert!(format!("{:?}", r.items) == format!("{want:?}") && r.broken.is_none());
    }
    Ok(())
}

fn g03_declared(ch: &mut Ch) -> R {
    // Declared length against the data there is, for each flag.
    let n = ch.range(0, ch.tier.b(20, 80));
    let k = ch.choose(n + 1);
    let data = flat(n, 1);
    let pal = pal_of(&IDS, 7);
    let flags = [0u8, 0x40, 0x80, 0xc0, 0x20, 0xff, 0x81, 0x01];
    let f1 = *ch.pick(&flags);
    let f2 = *ch.pick(&flags);
    let second = ch.flag();
    for decl in [0, 1, 3, 4, n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, k + 3, k + 4, k + 5, 2 * n + 4, 0xff_ffff, 0x1_0004 + n, 0x100 + n + 4] {
        let mut segs = vec![ods_head(f1, decl as u32, 5, 3, if second { &data[..k] } else { &data })];
        if second {
            let mut l = ods_last(&data[k..]);
            l[3] = f2;
            segs.push(l);
        }
        check(ch, "G03.declared", &g03_file(&pal, &segs), true)?;
    }
    Ok(())
}

fn g03_bits(ch: &mut Ch) -> R {
    // Each bit of the declared length counts, in every fragmentation.
    let n = *ch.pick(&[0usize, 1, 5, 300]);
    let bit = ch.choose(24);
    let other = ch.choose(25);
    let decl = (n as u32 + 4) ^ 1 << bit ^ ((1 << other) & 0xff_ffff);
    let data = flat(n, 1);
    let pal = pal_of(&IDS, 7);
    let mut files = vec![g03_file(&pal, &[ods_head(0xc0, decl, 5, 3, &data)])];
    for k in [0, n / 2, n] {
        files.push(g03_file(&pal, &[ods_head(0x80, decl, 5, 3, &data[..k]), ods_last(&data[k..])]));
    }
    for f in files {
        check(ch, "G03.bits", &f, true)?;
    }
    Ok(())
}

fn g03_between(ch: &mut Ch) -> R {
    // All words of other segments around and between the fragments.
    let d = flat(9, 1);
    let mut o = vec![];
    let word = |ch: &mut Ch, o: &mut Vec<u8>, n: usize| {
        for _ in 0..n {
            match ch.choose(7) {
                0 => return,
                1 => seg(o, 100, 1, PCS, &[7, 128, 4, 56, 16, 0, 1, 0, 0, 0, 0]),
                2 => seg(o, 110, 1, WDS, &[1, 0, 0, 0, 0, 0, 0, 0, 9, 9]),
                3 => seg(o, 120, 1, PDS, &pal_of(&IDS, 99)),
                4 => seg(o, 990, 1, END, &[]),
                5 => seg(o, 130, 1, WDS, &[]),
                _ => seg(o, 140, 1, PCS, &[b'P'; 700]),
            }
        }
    };
    seg(&mut o, 90, 0, PDS, &pal_of(&IDS, 5));
    seg(&mut o, 90, 0, ODS, &ods_head(0x80, 4 + 9, 3, 3, &d[..4]));
    let n = ch.tier.b(5, 6);
    word(ch, &mut o, n);
    seg(&mut o, 90, 0, ODS, &ods_last(&d[4..]));
    word(ch, &mut o, 1);
    seg(&mut o, 900, 0, END, &[]);
    seg(&mut o, 9000, 0, END, &[]);
    put_sub(&mut o, 90_000, 99_000, &pal_of(&IDS, 200), 3, 2, &flat(6, 0), Some(2));
    check(ch, "G03.between", &o, true)?;
    Ok(())
}

fn g03_large(ch: &mut Ch) -> R {
    // Up to the largest fragments: lengths that need 2 and 3 bytes.
    let n = *ch.pick(&[250usize, 255, 256, 257, 4096, 32767, 32768, 65519, 65523, 65524, 65525, 65535, 65536, 65537, 100_000, 131_054, 131_055]);
    let k = *ch.pick(&[0usize, 1, 255, 256, 4096, 32768, 65523, 65524]);
    if k > n || n - k > 65531 {
        return Ok(());
    }
    let data: Vec<u8> = (0..n).map(|i| IDS[1 + (i * 7 + i / 256 + i / 65536) % 5]).collect();
    // A window of the data is seen through runs: the image shows all pixels.
    let (w, h) = ((n as u16).max(3), (n / 60000 + 1) as u16);
    let pal = pal_of(&IDS, 7);
    let mut files = vec![g03_file(&pal, &[ods_head(0x80, n as u32 + 4, w, h, &data[..k]), ods_last(&data[k..])])];
    if n <= 65524 {
        files.push(g03_file(&pal, &[ods_full(w, h, &data)]));
    }
    for b in files {
        let r = check(ch, "G03.large", &b[..], true)?;
        assert!(r.broken.is_none() && r.items.len() == 1);
        // All of the pixels, beyond what is read in general.
        let img = first_image(&b).map_err(|e| Viol { key: format!("G03.large:{n}:{k}"), msg: e })?;
        let px = guard(|| img.iter().map(|p| p.0).collect::<Vec<_>>());
        let total = usize::from(w) * usize::from(h);
        let ok = px.as_ref().is_ok_and(|px| {
            px.len() == total
                && px.iter().zip(&data).all(|(p, &c)| *p == [entry(c, 7)[1], entry(c, 7)[4]])
                && px.iter().skip(n).all(|p| *p == [255, 0])
        });
        if !ok {
            viol!(format!("G03.large:{n}:{k}"), "wrong pixels for an object of {n} bytes cut at {k}: {} pixels", px.map_or(0, |p| p.len()));
        }
    }
    Ok(())
}

fn g03_history(ch: &mut Ch) -> R {
    // Objects of several fragments, one after the other.
    let mut segs = vec![];
    let d = flat(9, 1);
    for _ in 0..ch.tier.b(6, 7) {
        segs.push(match ch.choose(8) {
            0 => break,
            1 => ods_full(3, 1, &d[..3]),
            2 => ods_head(0x80, 4 + 9, 3, 3, &d[..4]),
            3 => ods_last(&d[4..]),
            4 => ods_head(0x80, 4 + 5, 5, 1, &d[..5]),
            5 => ods_last(&[]),
            6 => ods_last(&d[5..]),
            _ => ods_head(0xc0, 4 + 9, 9, 1, &d[..8]),
        });
    }
    let mut o = vec![];
    for s in &segs {
        seg(&mut o, 90, 0, PDS, &pal_of(&IDS, segs.len() as u8));
        seg(&mut o, 90, 0, ODS, s);
    }
    seg(&mut o, 900, 0, END, &[]);
    seg(&mut o, 9000, 0, END, &[]);
    put_sub(&mut o, 90_000, 99_000, &pal_of(&IDS, 200), 3, 2, &flat(6, 0), None);
    check(ch, "G03.history", &o, true)?;
    Ok(())
}

// ================================================================ G04, G05

pub fn image_stream(pal: &[u8], w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    g03_file(pal, &[ods_full(w, h, data)])
}

#[derive(Clone, Copy, Debug)]
pub enum Code {
    One(u8),
    Short0(u8),
    Long0(u16),
    Short(u8, u8),
    Long(u16, u8),
    Eol,
}
pub fn put_code(o: &mut Vec<u8>, c: Code) {
    match c {
        Code::One(c) => o.push(c),
        Code::Short0(n) => o.extend([0, n & 0x3f]),
        Code::Long0(n) => o.extend([0, 0x40 | (n >> 8) as u8, n as u8]),
        Code::Short(n, c) => o.extend([0, 0x80 | n, c]),
        Code::Long(n, c) => o.extend([0, 0xc0 | (n >> 8) as u8, n as u8, c]),
        Code::Eol => o.extend([0, 0]),
    }
}

fn g04_codes(ch: &mut Ch) -> R {
    // All words of codes.
    let mut d = vec![];
    for _ in 0..ch.tier.b(5, 6) {
        let c = match ch.choose(15) {
            0 => break,
            1 => Code::One(1),
            2 => Code::One(255),
            3 => Code::Short0(1),
            4 => Code::Short0(5),
            5 => Code::Long0(2),
            6 => Code::Long0(256),
            7 => Code::Short(1, 2),
            8 => Code::Short(3, 0),
            9 => Code::Long(4, 3),
            10 => Code::Long(257, 200),
            11 => Code::Eol,
            12 => Code::Short(0, 1),
            13 => Code::One(9), // not in the palette
            _ => Code::Long0(0),
        };
        put_code(&mut d, c);
    }
    let (w, h) = *ch.pick(&[(4u16, 2u16), (3, 1), (20, 30)]);
    check(ch, "G04.codes", &image_stream(&pal_of(&IDS, 3), w, h, &d), true)?;
    Ok(())
}

fn g04_lengths(ch: &mut Ch) -> R {
    // Every run length in every form that can hold it.
    let n = ch.choose(16384) as u16;
    let (w, h) = *ch.pick(&[(16400u16, 1u16), (128, 40)]);
    let mut forms = vec![Code::Long0(n), Code::Long(n, 200)];
    if n < 64 {
        if n > 0 {
            forms.push(Code::Short0(n as u8));
        }
        forms.push(Code::Short(n as u8, 255));
    }
    for f in forms {
        let mut d = vec![1];
        put_code(&mut d, f);
        d.push(2);
        put_code(&mut d, Code::Eol);
        d.push(3);
        let b = image_stream(&pal_of(&IDS, 3), w, h, &d);
        check(ch, "G04.lengths", &b, true)?;
        if w > 16384 {
            // Beyond the pixels that are read in general.
            let key = format!("G04.lengths:{f:?}");
            let img = first_image(&b).map_err(|e| Viol { key: key.clone(), msg: e })?;
            let r = guard(|| img.iter().skip(usize::from(n)).take(4).map(|p| p.0).collect::<Vec<_>>());
            let c = |i: u8| [entry(i, 3)[1], entry(i, 3)[4]];
            let run = match f {
                Code::Long0(_) | Code::Short0(_) => c(0),
                Code::Long(_, k) | Code::Short(_, k) => c(k),
                _ => unreachable!(),
            };
            let want = [if n == 0 { c(1) } else { run }, c(2), c(3), [255, 0]];
            if r.as_ref().map(Vec::as_slice) != Ok(&want[..]) {
                viol!(key, "after a run {f:?}: {r:?}, expected {want:?}");
            }
        }
    }
    Ok(())
}

fn g04_data(ch: &mut Ch) -> R {
    // All data of up to 2 (3) bytes, then two more; all bytes are colours.
    let a = ch.choose(256) as u8;
    let tails: &[&[u8]] = &[&[], &[5], &[5, 0, 7]];
    let ids: Vec<u8> = (0..=255).collect();
    let pal = pal_of(&ids, 11);
    let mids: Vec<Option<u8>> = if ch.tier == Tier::Thorough {
        vec![Some(ch.choose(256) as u8)]
    } else {
        vec![None, Some(0), Some(0x40), Some(0x81), Some(0xc1)]
    };
    let (w, h) = *ch.pick(&[(5u16, 2u16), (70, 3)]);
    for m in mids {
        for z in 0..=255u8 {
            for t in tails {
                let mut d = vec![a];
                d.extend(m);
                d.push(z);
                d.extend(*t);
                check(ch, "G04.data", &image_stream(&pal, w, h, &d), true)?;
            }
        }
    }
    Ok(())
}

fn g04_encoded(ch: &mut Ch) -> R {
    // All small images, encoded line by line: the decoded image is the encoded one.
    let (w, h) = *ch.pick(ch.tier.b(&[(2, 2), (3, 2), (2, 3)][..], &[(2, 2), (3, 2), (2, 3), (4, 2), (3, 3)][..]));
    let colours: &[u8] = if w * h > 6 { &[0, 1, 255] } else { &[0, 1, 2, 255] };
    let px: Vec<u8> = (0..w * h).map(|_| *ch.pick(colours)).collect();
    let style = ch.choose(3);
    let mut d = vec![];
    for l in px.chunks(w) {
        let mut x = 0;
        while x < w {
            let c = l[x];
            let e = l[x..].iter().position(|&p| p != c).map_or(w, |p| x + p);
            let n = e - x;
            let code = match (c, style) {
                (0, 0) => Code::Short0(n as u8),
                (0, _) => Code::Long0(n as u16),
                (c, 0) if n < 3 => {
                    for _ in 1..n {
                        d.push(c);
                    }
                    Code::One(c)
                }
                (c, 1) => Code::Long(n as u16, c),
                (c, _) => Code::Short(n as u8, c),
            };
            put_code(&mut d, code);
            x = e;
        }
        put_code(&mut d, Code::Eol);
    }
    let r = check(ch, "G04.encoded", &image_stream(&pal_of(&IDS, 3), w as u16, h as u16, &d), true)?;
    let want: Vec<[u8; 2]> = px.iter().map(|&c| [entry(c, 3)[1], entry(c, 3)[4]]).collect();
    assert_eq!(r.items[0].as_ref().unwrap().px, want);
    Ok(())
}

fn g05_orders(ch: &mut Ch) -> R {
    // Entries in every order, with ids that are not their places.
    let mut ids = ch.pick(&[vec![0u8, 1, 2, 3], vec![3, 9, 254, 255, 1], vec![1, 0], vec![]]).clone();
    let mut order = vec![];
    while !ids.is_empty() {
        let k = ch.choose(ids.len());
        order.push(ids.remove(k));
    }
    let drop = ch.choose(order.len() + 1);
    order.truncate(order.len() - drop);
    let data: Vec<u8> = vec![1, 2, 3, 9, 254, 255, 0, 1, 1, 4];
    check(ch, "G05.orders", &image_stream(&pal_of(&order, 40), 5, 2, &data), true)?;
    Ok(())
}

fn g05_ids(ch: &mut Ch) -> R {
    // One entry of each id, looked up with every colour.
    let id = ch.choose(256) as u8;
    let y = *ch.pick(&[0u8, 1, 128, 255]);
    let a = *ch.pick(&[0u8, 1, 254, 255]);
    let other = *ch.pick(&[None, Some(id.wrapping_add(1)), Some(0)]);
    let mut e = vec![[id, y, 3, 4, a]];
    if let Some(o) = other {
        if o != id {
            e.push([o, 200, 1, 2, 100]);
        }
    }
    let mut d: Vec<u8> = (1..=255).collect();
    d.extend([0, 1]);
    check(ch, "G05.ids", &image_stream(&pds(&e), 16, 16, &d), true)?;
    Ok(())
}

fn g05_count(ch: &mut Ch) -> R {
    // Palettes of 0 to 256 entries, ascending, descending or scattered ids.
    let n = ch.choose(257);
    let k = ch.choose(3);
    let ids: Vec<u8> = (0..n).map(|i| [i, 255 - i, (i * 77) % 256][k] as u8).collect();
    let mut d: Vec<u8> = (1..=255).collect();
    d.extend([0, 1]);
    check(ch, "G05.count", &image_stream(&pal_of(&ids, 91), 16, 16, &d), true)?;
    Ok(())
}

// ================================================================ G06

fn g06_images(k: usize) -> (u16, u16, Vec<u8>) {
    match k {
        0 => (3, 2, flat(6, 0)),                            // exact
        1 => (3, 2, vec![0, 4, 1, 0, 0x81, 2]),             // exact, with runs
        2 => (3, 2, vec![1, 2]),                            // too short
        3 => (3, 2, vec![0, 0xc1, 0, 3, 1]),                // too long
        4 => (3, 2, vec![]),                                // no data
        5 => (0, 5, vec![1, 2, 3]),                         // no pixel
        6 => (5, 0, vec![]),
        7 => (3, 2, vec![1, 0, 0, 0, 0, 2, 0, 0x82]),       // cut inside of a code
        8 => (3, 2, vec![1, 0, 0x80, 3, 2, 0, 0x40, 0, 9]), // runs of no pixel
        _ => (1, 1, vec![0, 0x43, 0xff]),
    }
}

fn g06_ops(ch: &mut Ch) -> R {
    // All words of operations on the iterator.
    let (w, h, d) = g06_images(ch.choose(10));
    let pal = pal_of(&IDS, 3);
    let b = image_stream(&pal, w, h, &d);
    let want = pixels_ref(&pal, w, h, &d);
    let img = first_image(&b).map_err(|e| Viol { key: format!("G06.ops:{:016x}", h64(&b)), msg: e })?;
    let how = ch.choose(3);
    let mut ops = vec![];
    for _ in 0..ch.tier.b(5, 6) {
        let k = ch.choose(13);
        ops.push(k);
        if k == 0 || k >= 9 {
            break;
        }
    }
    let run = |mut it: subtile_iter::It<'_>| -> Result<(), String> {
        let mut pos = 0usize;
        let total = want.len();
        for &op in &ops {
            let left = total - pos.min(total);
            if it.len() != left || it.size_hint() != (left, Some(left)) {
                return Err(format!("after {pos} of {total} pixels: len {}, size hint {:?}", it.len(), it.size_hint()));
            }
            let at = |p: usize| want.get(p).copied();
            let (got, exp): (Vec<Option<[u8; 2]>>, Vec<Option<[u8; 2]>>) = match op {
                0 => break,
                1 => {
                    pos += 1;
                    (vec![it.next().map(|p| p.0)], vec![at(pos - 1)])
                }
                2 | 3 | 4 | 5 => {
                    let n = [0, 1, 2, 7][op - 2];
                    pos += n + 1;
                    (vec![it.nth(n).map(|p| p.0)], vec![at(pos - 1)])
                }
                6 => {
                    let g = it.by_ref().take(2).map(|p| Some(p.0)).collect();
                    let e = (pos..pos + 2).filter_map(at).map(Some).collect();
                    pos += 2;
                    (g, e)
                }
                7 => {
                    let g = it.by_ref().skip(1).step_by(2).take(2).map(|p| Some(p.0)).collect::<Vec<_>>();
                    let e = [pos + 1, pos + 3].into_iter().filter_map(at).map(Some).collect::<Vec<_>>();
                    // Not specified which ones an adaptor takes more: stop here.
                    return if g == e { Ok(()) } else { Err(format!("skip and step: {g:?}, expected {e:?}")) };
                }
                8 => {
                    let g = it.by_ref().find(|p| p.0 == [255, 0]).map(|p| p.0);
                    let e = (pos..total).find(|&p| want[p] == [255, 0]);
                    pos = e.map_or(total, |p| p + 1);
                    (vec![g], vec![e.map(|_| [255, 0])])
                }
                9 => return if it.count() == left { Ok(()) } else { Err("wrong count".into()) },
                10 => {
                    let (g, e) = (it.last().map(|p| p.0), if left > 0 { want.last().copied() } else { None });
                    return if g == e { Ok(()) } else { Err(format!("last: {g:?}, expected {e:?}")) };
                }
                11 => {
                    let g: Vec<_> = it.map(|p| p.0).collect();
                    return if g == want[pos.min(total)..] { Ok(()) } else { Err(format!("collect: {g:?}")) };
                }
                _ => {
                    let mut g = vec![];
                    it.for_each(|p| g.push(p.0));
                    return if g == want[pos.min(total)..] { Ok(()) } else { Err(format!("for_each: {g:?}")) };
                }
            };
            if got != exp {
                return Err(format!("op {op} gives {got:?}, expected {exp:?}"));
            }
            if pos > total {
                // After the end, there is nothing.
                if it.next().is_some() || it.len() != 0 {
                    return Err("a pixel after the end".into());
                }
            }
        }
        Ok(())
    };
    let r = guard(|| match how {
        0 => run(img.iter()),
        1 => run((&img).into_iter()),
        _ => run(img.pixels(|e| LumaA([e.luminance, e.transparency]))),
    });
    let key = format!("G06.ops:{:016x}", h64(&(&b, how, &ops)));
    let mut tr = vec![h64(&(w, h, &d))];
    for o in &ops {
        tr.push(h64(&(tr[tr.len() - 1], o)));
    }
    ch.walk(&tr);
    ch.eval(h64(&key), true);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "{w}x{h} image of {d:02x?}, operations {ops:?}: {e}; pixels {want:?}"),
        Err(e) => viol!(key, "{w}x{h} image of {d:02x?}, operations {ops:?} panics: {e}"),
    }
    ch.validated(1);
    ch.sample(|| format!("G06.ops: {w}x{h} of {d:02x?}, operations {ops:?}"));
    Ok(())
}
mod subtile_iter {
    pub type It<'a> = subtile_it::RlePix<'a>;
    mod subtile_it {
        pub type RlePix<'a> = <&'a subtile::pgs::RleEncodedImage as IntoIterator>::IntoIter;
    }
}

fn g06_sizes(ch: &mut Ch) -> R {
    // All sizes: exactly w*h pixels whatever the data.
    let w = *ch.pick(&[0u16, 1, 2, 3, 7, 8, 63, 64, 65, 255, 256, 257, 1023]);
    let h = *ch.pick(&[0u16, 1, 2, 3, 7, 8, 63, 64, 65, 255, 256, 257]);
    let k = ch.choose(7);
    let total = usize::from(w) * usize::from(h);
    let d: Vec<u8> = match k {
        0 => vec![],
        1 => vec![1; total.min(65000)],
        2 => [0, 0xff, 0xff, 2].repeat(total / 16383 + 2),
        3 => [0u8, 0x7f, 0xff].repeat(total / 16383),
        4 => vec![1; total.saturating_sub(1).min(65000)],
        5 => vec![1; (total + 1).min(65000)],
        _ => [0, 0].repeat(1000),
    };
    let pal = pal_of(&IDS, 3);
    let key = format!("G06.sizes:{w}x{h}:{k}");
    let img = first_image(&image_stream(&pal, w, h, &d)).map_err(|e| Viol { key: key.clone(), msg: e })?;
    let r = guard(|| {
        let it = img.iter();
        let l = it.len();
        let mut n = 0usize;
        for _ in it {
            n += 1;
            if n > total + 2 {
                break;
            }
        }
        (l, n, img.width(), img.height())
    });
    ch.walk(&[h64(&(w, h)), h64(&(w, h, k))]);
    ch.eval(h64(&key), total > 0);
    if r != Ok((total, total, w.into(), h.into())) {
        viol!(key, "{w}x{h} image, data {k}: (len, pixels, width, height) = {r:?}, expected {total} pixels");
    }
    check(ch, "G06.sizes", &image_stream(&pal, w, h, &d), true)?;
    Ok(())
}

fn g06_jumps(ch: &mut Ch) -> R {
    // Jumps over up to all pixels of an image of more than 65535, after some pixels.
    let (w, h) = *ch.pick(&[(300u16, 300u16), (65535, 3), (3, 65535), (1000, 140)]);
    let total = usize::from(w) * usize::from(h);
    let k = ch.choose(4);
    let d: Vec<u8> = match k {
        0 => (0..40000u32).map(|i| (i % 251 + 1) as u8).collect(),
        1 => (0..64000 / 4).flat_map(|i| [0, 0xc0 | (i % 64) as u8, (i * 7 % 256) as u8, (i % 253) as u8]).collect(),
        2 => (0..20u8).flat_map(|i| [0, 0xff, 0xff - i, i % 5]).collect(),
        _ => [0u8, 0x7f, 0xff, 9].repeat(20),
    };
    let jumps: Vec<usize> = {
        let mut v = vec![0, 1, 2, 3, 100, 10000, total - 2, total - 1, total, total + 1];
        for b in 6..18 {
            v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
        }
        v.extend([(1 << 32) - 1, 1 << 32, (1 << 32) + 1, usize::MAX]);
        v
    };
    let first = *ch.pick(&[0usize, 1, 255, 256, 65536]);
    let how = ch.choose(4);
    let n = *ch.pick(&jumps);
    let pal = pal_of(&(0..200).collect::<Vec<u8>>(), 3);
    let b = image_stream(&pal, w, h, &d);
    let want = pixels_upto(&pal, w, h, &d, usize::MAX);
    let key = format!("G06.jumps:{w}x{h}:{k}:{first}:{how}:{n}");
    let img = first_image(&b).map_err(|e| Viol { key: key.clone(), msg: e })?;
    let at = |p: Option<usize>| p.and_then(|p| want.get(p)).copied();
    let r = guard(|| {
        let mut it = img.iter();
        for (i, w) in want.iter().enumerate().take(first) {
            let p = it.next().map(|p| p.0);
            if p != Some(*w) {
                return Err(format!("pixel {i} is {p:?}, expected {w:?}"));
            }
        }
        let (got, pos) = match how {
            0 => (it.nth(n).map(|p| p.0), first.checked_add(n)),
            1 => {
                let mut s = it.skip(n);
                let got = s.next().map(|p| p.0);
                let exp = at(first.checked_add(n));
                let (l, m) = (s.len(), total.saturating_sub(first.saturating_add(n).saturating_add(1)));
                return if got == exp && l == m { Ok(()) } else { Err(format!("skip({n}) after {first} pixels gives {got:?}, expected {exp:?}; {l} left, expected {m}")) };
            }
            2 => {
                let got: Vec<_> = it.step_by(n.max(1)).take(5).map(|p| p.0).collect();
                let exp: Vec<_> = (0..5usize).filter_map(|i| at(i.checked_mul(n.max(1)).and_then(|j| j.checked_add(first)))).collect();
                return if got == exp { Ok(()) } else { Err(format!("step_by({n}) after {first} pixels gives {got:?}, expected {exp:?}")) };
            }
            _ => (it.by_ref().take(n).last().map(|p| p.0), n.checked_sub(1).map(|m| first.saturating_add(m).min(total - 1))),
        };
        let exp = at(pos);
        let left = total.saturating_sub(pos.map_or(usize::MAX, |p| p.saturating_add(1)));
        let left = if how == 3 && n == 0 { total - first } else { left };
        if got != exp || it.len() != left || it.size_hint() != (left, Some(left)) {
            return Err(format!("nth({n}) or take({n}) after {first} pixels gives {got:?}, expected {exp:?}; {:?} left, expected {left}", it.size_hint()));
        }
        // What follows.
        for i in 0..3 {
            let (p, e) = (it.next().map(|p| p.0), at(Some(total - left + i)));
            if p != e {
                return Err(format!("after nth({n}) or take({n}) after {first} pixels comes {p:?}, expected {e:?}"));
            }
        }
        Ok(())
    });
    ch.walk(&[h64(&(w, h)), h64(&(w, h, k, first)), h64(&key)]);
    ch.eval(h64(&key), true);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "{w}x{h} image, data {k}: {e}"),
        Err(e) => viol!(key, "{w}x{h} image, data {k}: jump {how} of {n} after {first} pixels panics: {e}"),
    }
    ch.validated(1);
    Ok(())
}

fn g06_types(ch: &mut Ch) -> R {
    types(ch, "G06.types")
}
fn g05_types(ch: &mut Ch) -> R {
    types(ch, "G05.types")
}
fn types(ch: &mut Ch, name: &str) -> R {
    // Pixels of other types than of 8 bits: all data of up to 4 tokens.
    let (w, h) = *ch.pick(&[(1u16, 1u16), (2, 2), (3, 2), (70, 1), (0, 2), (20, 30)]);
    let mut d = vec![];
    let tok: [&[u8]; 8] = [&[1], &[2], &[0xfe], &[0, 3], &[0, 0x82, 5], &[0, 0], &[0, 0x40, 0x41], &[0, 0xc1]];
    while d.len() < 16 {
        let k = ch.choose(9);
        if k == 8 {
            break;
        }
        d.extend(tok[k]);
        if d.len() > ch.tier.b(6, 9) {
            break;
        }
    }
    let pal = pal_of(&IDS, 3);
    let b = image_stream(&pal, w, h, &d);
    let want = pixels_upto(&pal, w, h, &d, 90000);
    let key = format!("{name}:{:016x}", h64(&b));
    let img = first_image(&b).map_err(|e| Viol { key: key.clone(), msg: e })?;
    // Each pixel tells its entry; those without one are white and transparent.
    macro_rules! typ {
        ($t:ty, $scale:expr, $min:expr, $max:expr) => {{
            let it = img.pixels::<$t>(|e| LumaA([<$t>::from(e.luminance) * $scale, <$t>::from(e.transparency) * $scale]));
            let len = it.len();
            let got: Vec<[$t; 2]> = it.map(|p| p.0).collect();
            // As no entry of this palette is white and transparent.
            let exp: Vec<[$t; 2]> = want.iter().map(|p| if *p == [255, 0] { [$max, $min] } else { [<$t>::from(p[0]) * $scale, <$t>::from(p[1]) * $scale] }).collect();
            if len != exp.len() || got != exp {
                let i = got.iter().zip(&exp).position(|(a, b)| a != b);
                return Err(format!("{}: {} pixels (announced {len}), expected {}; pixel {i:?} is {:?}, expected {:?}", stringify!($t), got.len(), exp.len(), i.map(|i| got[i]), i.map(|i| exp[i])));
            }
        }};
    }
    let r = guard(|| -> Result<(), String> {
        typ!(u8, 1, 0, 255);
        typ!(u16, 257, 0, 65535);
        typ!(u32, 16843009, 0, u32::MAX);
        typ!(u64, 3, 0, u64::MAX);
        typ!(i16, 100, i16::MIN, i16::MAX);
        typ!(i32, 1000, i32::MIN, i32::MAX);
        typ!(i64, 3, i64::MIN, i64::MAX);
        typ!(f32, 0.5, 0.0, 1.0);
        typ!(f64, 0.25, 0.0, 1.0);
        Ok(())
    });
    ch.walk(&[h64(&(w, h)), h64(&(w, h, &d))]);
    ch.eval(h64(&key), w > 0);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "{w}x{h} image of {d:02x?}: {e}"),
        Err(e) => viol!(key, "{w}x{h} image of {d:02x?} panics: {e}"),
    }
    ch.validated(1);
    Ok(())
}

// ================================================================ G07

pub fn rendered(ch: &mut Ch, h0: &str, w: u16, h: u16, d: &[u8], pal: &[u8], borders: &[u32], thr: (u8, u8)) -> R {
    let b = image_stream(pal, w, h, d);
    let want = pixels_upto(pal, w, h, d, usize::MAX);
    let key = format!("{h0}:{:016x}", h64(&b));
    let img = first_image(&b).map_err(|e| Viol { key: key.clone(), msg: e })?;
    let conv = |p: LumaA<u8>| Rgba([p.0[0], p.0[1], p.0[0] ^ 0x55, p.0[1] ^ 0x33]);
    // A copy of the image is rendered as the image is.
    let copy = match guard(|| img.clone()) {
        Ok(c) => c,
        Err(e) => viol!(key, "copying {w}x{h} of {} panics: {e}", hex(d)),
    };
    let r = guard(|| (RleToImage::new(&copy, conv).to_image(), RleToImage::new(&img, |p: LumaA<u8>| p).to_image()));
    let (a, c) = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "rendering {w}x{h} of {} panics: {e}", hex(d)),
    };
    let dim = (u32::from(w), u32::from(h));
    if a.dimensions() != dim || c.dimensions() != dim {
        viol!(key, "a {w}x{h} image is rendered as {:?}", a.dimensions());
    }
    for (i, p) in want.iter().enumerate() {
        let (x, y) = ((i % usize::from(w)) as u32, (i / usize::from(w)) as u32);
        if *a.get_pixel(x, y) != conv(LumaA(*p)) || c.get_pixel(x, y).0 != *p {
            viol!(key, "{w}x{h} of {}: pixel ({x},{y}) is {:?}, expected {p:?}", hex(d), c.get_pixel(x, y));
        }
    }
    for &border in borders {
        for (text, back) in [(0u8, 255u8), (77, 5)] {
            let opt = ToOcrImageOpt { border, text_color: Luma([text]), background_color: Luma([back]) };
            let (ta, tl) = thr;
            let luma = |p: LumaA<u8>| if p.0[1] >= ta && p.0[0] >= tl { Luma([0]) } else { Luma([255]) };
            let r = guard(|| {
                (
                    RleToImage::new(&img, luma).image(&opt),
                    RleToImage::new(&img, luma_a_to_luma_convertor::<u8, LumaA<u8>>(ta, tl)).image(&opt),
                )
            });
            let (g, g2) = match r {
                Ok(g) => g,
                Err(e) => viol!(key, "OCR image of {w}x{h}, border {border} panics: {e}"),
            };
            if g.dimensions() != (dim.0 + 2 * border, dim.1 + 2 * border) {
                viol!(key, "OCR image of {w}x{h}, border {border} is {:?}", g.dimensions());
            }
            for (x, y, p) in g.enumerate_pixels() {
                let inside = x >= border && y >= border && x < border + dim.0 && y < border + dim.1;
                let e = if inside {
                    luma(LumaA(want[((y - border) * dim.0 + x - border) as usize]))
                } else {
                    Luma([back])
                };
                if *p != e {
                    viol!(key, "OCR {w}x{h} of {}, border {border}: pixel ({x},{y}) is {p:?}, expected {e:?}", hex(d));
                }
            }
            if g2 != g {
                viol!(key, "OCR {w}x{h} of {}: the conversion of the library differs", hex(d));
            }
        }
    }
    ch.walk(&[h64(&(w, h)), h64(&b), h64(&(&b, borders, thr))]);
    ch.eval(h64(&(&b, borders, thr)), w > 0 && h > 0);
    ch.validated(1);
    ch.sample(|| format!("{h0}: {w}x{h} of {}", hex(d)));
    Ok(())
}

fn g07_small(ch: &mut Ch) -> R {
    let (w, h) = *ch.pick(ch.tier.b(&[(2, 2), (3, 2), (1, 4), (4, 1)][..], &[(2, 2), (3, 2), (2, 3), (1, 4), (4, 1), (4, 2)][..]));
    let colours: &[u8] = &[1, 2, 255, 9];
    let d: Vec<u8> = (0..w * h).map(|_| *ch.pick(colours)).collect();
    let borders: &[u32] = match ch.choose(3) {
        0 => &[0, 1],
        1 => &[5],
        _ if d.windows(2).all(|p| p[0] != p[1]) && d[0] == 1 && d[1] == 2 && d[2] == 255 => &[100, 127, 128, 255, 256, 257, 300, 600],
        _ => &[2, 10],
    };
    let thr = *ch.pick(&[(0u8, 0u8), (100, 3), (255, 255)]);
    // Entries that differ in both, in the alpha or in the luminance alone.
    let pal = match ch.choose(3) {
        0 => pal_of(&IDS, 3),
        k => pds(&IDS.map(|i| if k == 1 { [i, 77, 3, 4, i ^ 0x15] } else { [i, i ^ 0x15, 3, 4, 77] })),
    };
    rendered(ch, "G07.small", w as u16, h as u16, &d, &pal, borders, thr)
}
fn g07_shapes(ch: &mut Ch) -> R {
    let (w, h) = *ch.pick(&[(0u16, 0u16), (0, 4), (4, 0), (1, 1), (17, 5), (300, 3), (3, 300), (4999, 1), (1, 4999), (70, 71), (256, 16), (16, 256)]);
    let k = ch.choose(7);
    let n = usize::from(w) * usize::from(h);
    let d: Vec<u8> = match k {
        0 => flat(n, 1),
        1 => flat(n / 2, 2),
        2 => flat(n + 9, 0),
        3 => vec![],
        4 => {
            let mut v = vec![];
            for y in 0..h {
                put_code(&mut v, Code::Long(w, IDS[1 + usize::from(y) % 5]));
                put_code(&mut v, Code::Eol);
            }
            v
        }
        5 => {
            // The last line is not ended.
            let mut v = vec![];
            for y in 0..h {
                if y > 0 {
                    put_code(&mut v, Code::Eol);
                }
                put_code(&mut v, Code::Long(w, IDS[1 + usize::from(y) % 5]));
            }
            v
        }
        _ => [0u8, 3, 1, 0, 0x42, 0, 2, 0, 0x85, 255].repeat(n / 400 + 1),
    };
    let pal = *ch.pick(&[1u8, 90]);
    rendered(ch, "G07.shapes", w, h, &d, &pal_of(&IDS, pal), &[0, 1, 2, 5, 33], (16, 16))
}
fn g07_wide(ch: &mut Ch) -> R {
    // More pixels than 16 bits count.
    let (w, h) = *ch.pick(ch.tier.b(
        &[(256u16, 256u16), (257, 256), (300, 300), (65535, 2), (2, 65535), (1920, 1080)][..],
        &[(256, 256), (257, 256), (300, 300), (65535, 2), (2, 65535), (1920, 1080), (4096, 16), (16, 4097), (4096, 4096), (65535, 100), (100, 65535)][..],
    ));
    let k = ch.choose(2);
    let mut v = vec![];
    for y in 0..usize::from(h) {
        // A line: a long run, and single pixels at both ends.
        let (a, b) = (IDS[1 + y % 5], IDS[1 + (y / 5 + k) % 5]);
        v.push(b);
        let mut left = usize::from(w) - 2;
        while left > 0 {
            let n = left.min(if k == 0 { 16383 } else { 1000 });
            put_code(&mut v, Code::Long(n as u16, a));
            left -= n;
        }
        v.push(IDS[1 + (y + 1) % 5]);
        if k == 1 {
            put_code(&mut v, Code::Eol);
        }
        if v.len() > 60_000 {
            break;
        }
    }
    let b = *ch.pick(&[0u32, 5]);
    rendered(ch, "G07.wide", w, h, &v, &pal_of(&IDS, 7), &[b], (100, 30))
}

// ================================================================ G08, G11

pub fn two_subs() -> Vec<u8> {
    let mut o = vec![];
    put_sub(&mut o, 90_000, 180_000, &pal_of(&[0, 1, 2], 3), 3, 2, &[1, 2, 0, 2, 0, 0, 1, 1], None);
    put_sub(&mut o, 270_000, 360_045, &pal_of(&[2, 1], 5), 2, 2, &[0, 0x82, 1, 0, 0, 2, 2], Some(3));
    o
}

fn g08_bytes(ch: &mut Ch) -> R {
    let b = two_subs();
    let at = ch.choose(b.len());
    for v in 0..=255u8 {
        if v != b[at] {
            let mut m = b.clone();
            m[at] = v;
            check(ch, "G08.bytes", &m, true)?;
            // No panic and an end when only the times are read.
            time_only(ch, "G08.bytes", &m)?;
        }
    }
    Ok(())
}
fn g08_render(ch: &mut Ch) -> R {
    // Damaged objects are rendered without panic (images of moderate size).
    let b = two_subs();
    let at = ch.choose(b.len());
    for v in 0..=255u8 {
        let mut m = b.clone();
        m[at] = v;
        let r = guard(|| {
            let mut n = 0;
            for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&m[..])).take(m.len()) {
                if let Ok((_, i)) = x {
                    if u64::from(i.width()) * u64::from(i.height()) < 20_000 {
                        let a = RleToImage::new(&i, |p: LumaA<u8>| p).to_image();
                        let c = RleToImage::new(&i, luma_a_to_luma_convertor(1, 1)).image(&ToOcrImageOpt::default());
                        n += a.len() + c.len();
                    }
                }
            }
            n
        });
        ch.walk(&[h64(&("render", at)), h64(&("render", at, v))]);
        ch.eval(h64(&m), true);
        if let Err(e) = r {
            viol!(format!("G08.render:{at}:{v}"), "byte {at} set to {v:#04x}: {e}; stream {}", hex(&m));
        }
        ch.validated(1);
    }
    Ok(())
}
fn g08_big(ch: &mut Ch) -> R {
    // Images of all shapes, with few data or none, are rendered without panic.
    let side = [0u16, 1, 2, 3, 255, 256, 257, 4095, 4096, 32767, 32768, 65535];
    let (w, h) = (*ch.pick(&side), *ch.pick(&side));
    let px = u64::from(w) * u64::from(h);
    if px > ch.tier.b(5_000_000, 70_000_000) {
        return Ok(());
    }
    let d: &[u8] = ch.pick(&[&[][..], &[1, 2, 200], &[0, 0], &[0, 0xff, 0xff, 1], &[0, 0x7f, 0xff, 0, 0x43]]);
    let b = image_stream(&pal_of(&IDS, 3), w, h, d);
    let key = format!("G08.big:{w}x{h}:{d:?}");
    let r = guard(|| {
        let i = first_image(&b)?;
        let a = RleToImage::new(&i, |p: LumaA<u8>| p).to_image();
        let f = RleToImage::new(&i, luma_a_to_luma_convertor(1, 1));
        let c = f.image(&ToOcrImageOpt::default());
        Ok::<_, String>((a.dimensions(), f.to_image().dimensions(), c.dimensions(), i.iter().len()))
    });
    let (w, h) = (u32::from(w), u32::from(h));
    match r {
        Ok(Ok(r)) if r == ((w, h), (w, h), (w + 10, h + 10), px as usize) => {}
        Ok(Ok(r)) => viol!(key, "a {w}x{h} image is rendered as {r:?}"),
        Ok(Err(e)) => viol!(key, "{e}"),
        Err(e) => viol!(key, "rendering {w}x{h} of {d:?} panics: {e}"),
    }
    ch.walk(&[h64(&("big", w)), h64(&("big", w, h)), h64(&("big", w, h, d))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}
fn g08_pairs(ch: &mut Ch) -> R {
    let mut b = vec![];
    seg(&mut b, 90, 0, PDS, &pal_of(&[1], 3));
    seg(&mut b, 90, 0, ODS, &ods_full(2, 1, &[1, 2]));
    seg(&mut b, 900, 0, END, &[]);
    seg(&mut b, 900, 0, END, &[]);
    let i = ch.choose(b.len());
    let j = ch.choose(b.len());
    if j <= i {
        return Ok(());
    }
    let edge: &[u8] = ch.tier.b(&[0, 1, 2, 0x15, 0x40, 0x80, 0xff], &[0, 1, 2, 3, 4, 7, 11, 13, 0x14, 0x15, 0x16, 0x40, 0x47, 0x50, 0x80, 0xc0, 0xfe, 0xff]);
    for &v in edge {
        for &w in edge {
            let mut m = b.clone();
            m[i] = v;
            m[j] = w;
            check(ch, "G08.pairs", &m, true)?;
        }
    }
    Ok(())
}
fn g08_edit(ch: &mut Ch) -> R {
    let b = two_subs();
    let at = ch.choose(b.len() + 1);
    match ch.choose(4) {
        0 => {
            check(ch, "G08.edit", &b[..at], true)?;
            check(ch, "G08.edit", &b[at..], true)?;
        }
        1 => {
            for v in [0u8, 1, 0x40, 0x80, 0x50, 0xff] {
                for n in [1usize, 2, 5, 13] {
                    let mut m = b.clone();
                    m.splice(at..at, std::iter::repeat(v).take(n));
                    check(ch, "G08.edit", &m, true)?;
                }
            }
        }
        k => {
            for n in 1..=ch.tier.b(300, 1000) {
                if at + n <= b.len() {
                    let mut m = b.clone();
                    if k == 2 {
                        m.drain(at..at + n);
                    } else {
                        let t = b[at..at + n].to_vec();
                        m.splice(at..at, t);
                    }
                    check(ch, "G08.edit", &m, true)?;
                }
            }
        }
    }
    Ok(())
}
fn g08_sizes(ch: &mut Ch) -> R {
    // Every declared size of a segment of each type, against the bytes there are.
    let ty = *ch.pick(&[PDS, ODS, PCS, WDS, END]);
    let have = ch.range(0, ch.tier.b(60, 300));
    let flag = *ch.pick(&[0xc0u8, 0x80, 0x40]);
    for size in (0..80usize).chain([255, 256, 257, 65534, 65535]) {
        let mut o = vec![];
        seg(&mut o, 90, 0, PDS, &pal_of(&[1, 2], 4));
        let mut body = ods_head(flag, (have.max(11) - 11 + 4) as u32, 2, 1, &[1, 2, 1, 2, 1, 2, 1, 2, 1].repeat(8));
        body.truncate(have);
        let at = o.len();
        seg(&mut o, 90, 0, ty, &body);
        o[at + 11..at + 13].copy_from_slice(&(size as u16).to_be_bytes());
        check(ch, "G08.sizes", &o, true)?;
        seg(&mut o, 900, 0, END, &[]);
        seg(&mut o, 900, 0, END, &[]);
        check(ch, "G08.sizes", &o, true)?;
    }
    Ok(())
}

fn g11_cut(ch: &mut Ch) -> R {
    // Every length: the complete subtitles, then an end or an error, never a partial one.
    let layout = ch.choose(3);
    let mut o = vec![];
    let mut ends = vec![];
    for k in 0..4u32 {
        let d = flat(6 + 20 * layout, k as usize);
        put_sub(&mut o, 90_000 * k, 90_000 * k + 45_000, &pal_of(&IDS, k as u8), d.len() as u16, 1, &d, [None, Some(4), Some(0)][(layout + k as usize) % 3]);
        ends.push(o.len());
    }
    let full = preference(&o).items;
    assert!(full.len() == 4 && full.iter().all(Result::is_ok));
    let n = ch.choose(o.len() + 1);
    let k = ends.iter().filter(|&&e| e <= n).count();
    let key = format!("G11.cut:{layout}:{n}");
    let fc = Cell::new(None);
    for how in 0..3 {
        let c = &o[..n];
        let got = match how {
            0 => pread(c),
            1 => pread_with(BufReader::with_capacity(11, Cursor::new(c)), n + 4),
            _ => pread_with(PlanReader::new(c, &[], 5, &fc), n + 4),
        };
        let got = match got {
            Ok(g) => g,
            Err(e) => viol!(key, "cut to {n} bytes (reader {how}): {e}"),
        };
        let same = got.len() >= k && got[..k] == full[..k];
        let tail = got.len() == k || (got.len() == k + 1 && got[k].is_err());
        if !same || !tail {
            viol!(key, "cut to {n} bytes (reader {how}), {k} subtitles are complete: {got:?}; stream {}", hex(c));
        }
        let t = match tread_with(Cursor::new(c), n + 4) {
            Ok(g) => g,
            Err(e) => viol!(key, "cut to {n} bytes, time only: {e}"),
        };
        let spans: Vec<TItem> = full[..k].iter().map(|s| s.as_ref().map(|s| (s.start, s.end)).map_err(|e| *e)).collect();
        if t.len() < k || t[..k] != spans[..] || t[k..].iter().any(Result::is_ok) {
            viol!(key, "cut to {n} bytes, time only: {t:?}, expected {spans:?}");
        }
        ch.validated(1);
    }
    ch.walk(&[h64(&("cut", layout, k)), h64(&("cut", layout, n))]);
    ch.eval(h64(&key), true);
    Ok(())
}

/// A source that holds more later.
struct Growing {
    data: Rc<Vec<u8>>,
    len: Rc<Cell<usize>>,
    pos: usize,
}
impl Read for Growing {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (&self.data[self.pos.min(self.len.get())..self.len.get()]).read(buf)?;
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Growing {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(&self.data[self.pos.min(self.len.get())..self.len.get()])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Seek for Growing {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let to = match s {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => (self.pos as u64).checked_add_signed(d),
            SeekFrom::End(d) => (self.len.get() as u64).checked_add_signed(d),
        };
        self.pos = to.ok_or(ErrorKind::InvalidInput)? as usize;
        Ok(self.pos as u64)
    }
}

fn g11_grown(ch: &mut Ch) -> R {
    // A reading that has ended stays ended, whatever the source holds by then.
    let layout = ch.choose(3);
    let mut o = vec![];
    for k in 0..3u32 {
        let d = flat(6 + 20 * layout, k as usize);
        put_sub(&mut o, 90_000 * k, 90_000 * k + 45_000, &pal_of(&IDS, k as u8), d.len() as u16, 1, &d, [None, Some(4), Some(0)][(layout + k as usize) % 3]);
    }
    let n = ch.choose(o.len() + 1);
    let how = ch.choose(2);
    let times = ch.flag();
    let key = format!("G11.grown:{layout}:{n}:{how}:{times}");
    let o = Rc::new(o);
    fn ended<T>(mut it: impl Iterator<Item = T>, grow: &dyn Fn(usize)) -> (usize, Vec<bool>) {
        let n = it.by_ref().count();
        (n, (0..4).map(|k| { grow(k); it.next().is_some() }).collect())
    }
    let r = guard(|| {
        let len = Rc::new(Cell::new(n));
        let src = Growing { data: o.clone(), len: len.clone(), pos: 0 };
        // At once, or in parts.
        let grow = |k: usize| len.set(if layout == 1 { (n + k * 300).min(o.len()) } else { o.len() });
        match (how, times) {
            (0, false) => ended(SupParser::<_, DecodeTimeImage>::new(src), &grow),
            (0, true) => ended(SupParser::<_, DecodeTimeOnly>::new(src), &grow),
            (_, false) => ended(SupParser::<_, DecodeTimeImage>::new(BufReader::with_capacity(50, src)), &grow),
            (_, true) => ended(SupParser::<_, DecodeTimeOnly>::new(BufReader::with_capacity(50, src)), &grow),
        }
    });
    match r {
        Ok((k, after)) if k <= 4 && after == [false; 4] => {}
        r => viol!(key, "a source of {n} bytes that holds {} after the end was reported: {r:?} (items, whether there is another one)", o.len()),
    }
    ch.walk(&[h64(&(layout, n)), h64(&key)]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}

fn g11_segments(ch: &mut Ch) -> R {
    // Histories of segments, cut at every byte of the last one.
    let mut o = vec![];
    let mut last = 0;
    for n in 0..ch.tier.b(5, 6) {
        let at = o.len();
        if !event(ch, &mut o, n, 9) {
            break;
        }
        last = at;
    }
    for n in last..o.len() {
        check(ch, "G11.segments", &o[..n], true)?;
    }
    Ok(())
}

// ================================================================ G09, G10, G12

fn g09_stream() -> Vec<u8> {
    let mut o = vec![];
    put_sub(&mut o, 90_000, 180_000, &pal_of(&IDS, 3), 5, 2, &flat(10, 1), None);
    put_sub(&mut o, 270_000, 360_000, &pal_of(&IDS, 5), 3, 2, &flat(6, 0), Some(2));
    o
}

/// A stream whose segments hold what looks like segments of subtitles.
fn hollow_stream() -> Vec<u8> {
    let mut inner = vec![];
    put_sub(&mut inner, 1, 2, &pal_of(&IDS, 77), 2, 1, &flat(2, 1), None);
    let mut end = vec![];
    seg(&mut end, 5, 0, END, &[]);
    let mut o = vec![];
    for n in 0..2u32 {
        let t = 90_000 * (n + 1);
        seg(&mut o, t, 0, WDS, &[]);
        seg(&mut o, t, 0, PCS, &end);
        // Entries of a palette that spell the end of a display set.
        let mut e: Vec<[u8; 5]> = end.chunks(5).map(|c| std::array::from_fn(|i| c.get(i).copied().unwrap_or(0))).collect();
        e.extend(IDS.iter().map(|&i| entry(i, 7)));
        seg(&mut o, t, 0, PDS, &pds(&e));
        seg(&mut o, t, 0, WDS, &inner);
        // An image of many lines, the first pixels of which spell a subtitle.
        let data: Vec<u8> = inner.iter().copied().chain(flat(4, 1)).collect();
        seg(&mut o, t, 0, ODS, &ods_full(4, 3, &data));
        seg(&mut o, t, 0, END, &[]);
        seg(&mut o, t + 900, 0, PCS, &inner);
        seg(&mut o, t + 900, 0, END, &[]);
    }
    o
}

fn g09_chunks(ch: &mut Ch) -> R {
    // Every place for short reads and interruptions, within the deviation bound.
    let b = g09_stream();
    let default = *ch.pick(&[1usize, 2, 3, 5, 12, 13, 14, 19, 64, 1 << 20]);
    let mut plan = vec![];
    let fills = (b.len() / default + 40).min(ch.tier.b(200, 1000));
    for _ in 0..fills {
        plan.push(match ch.dev(6) {
            0 => Ev::Chunk(default),
            1 => Ev::Interrupt,
            2 => Ev::Chunk(1),
            3 => Ev::Chunk(2),
            4 => Ev::Chunk(13),
            _ => Ev::Chunk(1 << 20),
        });
        if ch.devs_left() == 0 {
            break;
        }
    }
    g09_compare(ch, "G09.chunks", &b, &plan, default)
}
fn g09_compare(ch: &mut Ch, h: &str, b: &[u8], plan: &[Ev], default: usize) -> R {
    let r = preference(b);
    let fc = Cell::new(None);
    let key = format!("{h}:{:016x}", h64(&(plan, default)));
    let got = pread_with(PlanReader::new(b, plan, default, &fc), b.len());
    if let Err(e) = pagree(&r, &got) {
        viol!(key, "read by {default} bytes with {plan:?}: {e}");
    }
    let (t, _) = tref(b);
    let t: Vec<TItem> = t.into_iter().map(Ok).collect();
    let got = tread_with(PlanReader::new(b, plan, default, &fc), b.len());
    if got.as_ref() != Ok(&t) {
        viol!(key, "time only, read by {default} bytes with {plan:?}: {got:?}, expected {t:?}");
    }
    let mut tr = vec![h64(&default)];
    for (i, e) in plan.iter().enumerate() {
        if *e != Ev::Chunk(default) {
            tr.push(h64(&(tr.last(), i, e)));
        }
    }
    ch.walk(&tr);
    ch.eval(h64(&key), true);
    ch.validated(2);
    ch.sample(|| format!("{h}: default {default}, {} planned", plan.len()));
    Ok(())
}
fn g09_words(ch: &mut Ch) -> R {
    // All words of answers for the first refills.
    let b = g09_stream();
    let default = *ch.pick(&[1usize, 7, 1 << 20]);
    let mut plan = vec![];
    for _ in 0..ch.tier.b(8, 9) {
        plan.push(match ch.choose(6) {
            0 => break,
            1 => Ev::Interrupt,
            2 => Ev::Chunk(1),
            3 => Ev::Chunk(12),
            4 => Ev::Chunk(13),
            _ => Ev::Chunk(33),
        });
    }
    g09_compare(ch, "G09.words", &b, &plan, default)
}
fn g09_storm(ch: &mut Ch) -> R {
    // Any number of interruptions in a row.
    let b = g09_stream();
    let default = *ch.pick(&[1usize, 7, 13, 1 << 20]);
    let at = ch.choose(b.len() / default + 2);
    let n = *ch.pick(&crate::p_idx::STORMS);
    if n > 1001 && at % 5 > 0 {
        return Ok(());
    }
    let mut plan = vec![Ev::Chunk(default); at];
    plan.extend(vec![Ev::Interrupt; n]);
    g09_compare(ch, "G09.storm", &b, &plan, default)
}
fn g09_errors(ch: &mut Ch) -> R {
    // The errors do not depend on the reads either.
    let b = g09_stream();
    let at = ch.choose(b.len());
    let how = ch.choose(5);
    let mut m = b.clone();
    match how {
        0 => m[at] = 0,
        1 => m[at] = 0xff,
        2 => m[at] ^= 1,
        3 => m[at] ^= 0x80,
        _ => m.truncate(at),
    }
    let (full, times) = (pread(&m), tread_with(Cursor::new(&m), m.len() + 4));
    let key = format!("G09.errors:{at}:{how}");
    for default in [1usize, 2, 7, 13, 14, 64] {
        for k in 0..3 {
            let fc = Cell::new(None);
            let plan: Vec<Ev> = (0..40).map(|i| if k > 0 && i % k == 0 { Ev::Interrupt } else { Ev::Chunk(default) }).collect();
            let plan: &[Ev] = if k == 0 { &[] } else { &plan };
            let got = pread_with(PlanReader::new(&m, plan, default, &fc), m.len());
            if got != full {
                viol!(key, "read by {default} bytes with {k}: {got:?}, at once {full:?}; stream {}", hex(&m));
            }
            let got = tread_with(PlanReader::new(&m, plan, default, &fc), m.len() + 4);
            if got != times {
                viol!(key, "time only, read by {default} bytes with {k}: {got:?}, at once {times:?}; stream {}", hex(&m));
            }
            let got = pread_with(BufReader::with_capacity(default, PlanReader::new(&m, plan, default, &fc)), m.len());
            if got != full {
                viol!(key, "through a buffer of {default} bytes with {k}: {got:?}, at once {full:?}; stream {}", hex(&m));
            }
        }
        ch.validated(9);
    }
    ch.walk(&[h64(&("e", at)), h64(&("e", at, how))]);
    ch.eval(h64(&key), true);
    Ok(())
}
fn g09_buffers(ch: &mut Ch) -> R {
    // Buffers of every capacity over readers that give every amount.
    let b = g09_stream();
    let cap = ch.range(1, ch.tier.b(2000, 9000));
    let r = preference(&b);
    let (t, _) = tref(&b);
    let t: Vec<TItem> = t.into_iter().map(Ok).collect();
    for inner in [1usize, 2, 7, 13, 1 << 20] {
        let fc = Cell::new(None);
        let plan = vec![Ev::Interrupt, Ev::Chunk(inner), Ev::Interrupt, Ev::Interrupt];
        for p in [&[][..], &plan[..]] {
            let key = format!("G09.buffers:{cap}:{inner}");
            let got = pread_with(BufReader::with_capacity(cap, PlanReader::new(&b, p, inner, &fc)), b.len());
            if let Err(e) = pagree(&r, &got) {
                viol!(key, "buffer of {cap} bytes over reads of {inner}: {e}");
            }
            let got = tread_with(BufReader::with_capacity(cap, PlanReader::new(&b, p, inner, &fc)), b.len());
            if got.as_ref() != Ok(&t) {
                viol!(key, "time only, buffer of {cap} bytes over reads of {inner}: {got:?}, expected {t:?}");
            }
            ch.validated(2);
        }
        ch.walk(&[h64(&cap), h64(&(cap, inner))]);
        ch.eval(h64(&(cap, inner)), true);
    }
    Ok(())
}
fn g09_large(ch: &mut Ch) -> R {
    // Segments larger than any buffer, from files and memory.
    let n = *ch.pick(&[8180usize, 8190, 8191, 8192, 8193, 16384, 65524]);
    let skip = *ch.pick(&[0usize, 8178, 8179, 8180, 8192, 40_000, 65535]);
    let mut o = vec![];
    seg(&mut o, 0, 0, PCS, &vec![0x50; skip]);
    let data: Vec<u8> = (0..n).map(|i| IDS[1 + (i / 7) % 5]).collect();
    put_sub(&mut o, 90_000, 180_000, &pal_of(&IDS, 3), 4000, 1, &data[n - 4000..], None);
    put_sub(&mut o, 90_000, 180_000, &pal_of(&IDS, 3), n as u16, 1, &data, None);
    seg(&mut o, 0, 0, WDS, &vec![0x50; skip]);
    put_sub(&mut o, 90_000, 180_000, &pal_of(&IDS, 3), n as u16, 1, &data, Some(n / 2));
    let r = preference(&o);
    assert!(r.items.len() == 3 && r.broken.is_none());
    let key = format!("G09.large:{n}:{skip}");
    let path = scratch();
    std::fs::write(&path, &o).expect("scratch file");
    let fc = Cell::new(None);
    for how in 0..4 {
        let got = match how {
            0 => pread_with(BufReader::new(Cursor::new(&o[..])), o.len()),
            1 => pread_with(PlanReader::new(&o, &[Ev::Interrupt], 100, &fc), o.len()),
            2 => pread_with(BufReader::with_capacity(600, PlanReader::new(&o, &[], 511, &fc)), o.len()),
            _ => guard(|| {
                SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&path)
                    .map_err(|e| format!("from_file fails: {e:?}"))
                    .map(|p| p.take(9).map(|r| r.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e))).collect())
            })
            .unwrap_or_else(|p| Err(format!("panics: {p}"))),
        };
        if let Err(e) = pagree(&r, &got) {
            viol!(key, "object of {n} bytes, skipped segments of {skip}, reader {how}: {e}");
        }
        ch.validated(1);
    }
    ch.walk(&[h64(&n), h64(&(n, skip))]);
    ch.eval(h64(&key), true);
    Ok(())
}

fn g10_fault(ch: &mut Ch) -> R {
    // A failure of the reader at every position.
    let hollow = ch.flag();
    let b = if hollow { hollow_stream() } else { g09_stream() };
    let r = preference(&b);
    let kind = *ch.pick(&ERROR_KINDS);
    let chunk = *ch.pick(&[1usize, 2, 7, 13, 32, 1 << 20]);
    let at = ch.choose(b.len() + 1);
    let how = ch.choose(3);
    let lasting = ch.flag();
    let failed = Cell::new(None);
    let key = format!("G10.fault:{hollow}:{kind:?}:{chunk}:{at}:{how}:{lasting}");
    let mk = || {
        let mut p = PlanReader::new(&b, &[], chunk, &failed);
        p.fail_at = Some((at, kind));
        p.lasting = lasting;
        p
    };
    for time in [false, true] {
        failed.set(None);
        let got: Result<Vec<Result<(i64, i64), u32>>, String> = if time {
            match how {
                0 => until_end_t(mk()),
                1 => until_end_t(BufReader::with_capacity(9, mk())),
                _ => until_end_t(BufReader::with_capacity(64, mk())),
            }
        } else {
            let f = match how {
                0 => until_end(mk()),
                1 => until_end(BufReader::with_capacity(9, mk())),
                _ => until_end(BufReader::with_capacity(64, mk())),
            };
            f.map(|v| {
                v.into_iter()
                    .enumerate()
                    .map(|(i, x)| x.map(|s| if r.items.get(i) == Some(&Ok(s.clone())) { (s.start, s.end) } else { (-1, i as i64) }))
                    .collect()
            })
        };
        let got = match got {
            Ok(g) => g,
            Err(e) => viol!(key, "reader failing at {at} ({kind:?}), reads of {chunk}: {e}"),
        };
        let Some(p) = failed.get() else {
            // It was skipped over.
            if got.len() != r.items.len() || got.iter().any(Result::is_err) {
                viol!(key, "nothing failed, but {got:?}");
            }
            continue;
        };
        let k = r.ends.iter().filter(|&&e| e <= p).count();
        let spans: Vec<(i64, i64)> = r.items[..k].iter().map(|i| i.as_ref().map(|s| (s.start, s.end)).unwrap()).collect();
        let ok = got.len() == k + 1 && got[k].is_err() && got.iter().flatten().eq(spans.iter());
        if !ok {
            viol!(key, "reader failing at {p} ({kind:?}), reads of {chunk}, time only: {time}: {got:?}, expected {spans:?} then an error");
        }
        ch.validated(1);
    }
    ch.walk(&[h64(&("fault", hollow, at)), h64(&("fault", hollow, at, chunk, how))]);
    ch.eval(h64(&key), true);
    ch.sample(|| format!("G10.fault: {key}, fails at {:?}", failed.get()));
    Ok(())
}
fn until_end<Rd: BufRead + Seek>(r: Rd) -> Result<Vec<PItem>, String> {
    let mut it = SupParser::<Rd, DecodeTimeImage>::new(r);
    guard(|| (0..50).map_while(|_| it.next()).map(|x| x.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e))).collect())
        .map_err(|p| format!("panics: {p}"))
}
fn until_end_t<Rd: BufRead + Seek>(r: Rd) -> Result<Vec<TItem>, String> {
    let mut it = SupParser::<Rd, DecodeTimeOnly>::new(r);
    guard(|| (0..50).map_while(|_| it.next()).map(|x| x.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| pkind(&e))).collect())
        .map_err(|p| format!("panics: {p}"))
}
fn g10_seek(ch: &mut Ch) -> R {
    // Every seek fails in turn; missing files.
    let hollow = ch.flag();
    let b = if hollow { hollow_stream() } else { g09_stream() };
    let r = preference(&b);
    let chunk = *ch.pick(&[1usize, 3, 14, 20]);
    let nth = ch.range(1, 14);
    for time in [false, true] {
        let failed = Cell::new(None);
        let mut p = PlanReader::new(&b, &[], chunk, &failed);
        p.fail_seek = Some(nth);
        let key = format!("G10.seek:{hollow}:{chunk}:{nth}:{time}");
        let got = if time {
            until_end_t(p)
        } else {
            until_end(p).map(|v| {
                v.into_iter()
                    .enumerate()
                    .map(|(i, x)| x.map(|s| if r.items.get(i) == Some(&Ok(s.clone())) { (s.start, s.end) } else { (-1, i as i64) }))
                    .collect()
            })
        };
        let got = match got {
            Ok(g) => g,
            Err(e) => viol!(key, "seek {nth} failing: {e}"),
        };
        let spans: Vec<(i64, i64)> = r.items.iter().map(|i| i.as_ref().map(|s| (s.start, s.end)).unwrap()).collect();
        let ok = match failed.get() {
            None => got.iter().flatten().eq(spans.iter()) && got.iter().all(Result::is_ok),
            Some(p) => {
                let k = r.ends.iter().filter(|&&e| e <= p).count();
                got.len() == k + 1 && got[k].is_err() && got.iter().flatten().eq(spans[..k].iter())
            }
        };
        if !ok {
            viol!(key, "seek {nth} failing at {:?}: {got:?}", failed.get());
        }
        ch.walk(&[h64(&("seek", hollow, nth)), h64(&("seek", hollow, nth, chunk, time))]);
        ch.eval(h64(&key), failed.get().is_some());
        ch.validated(1);
    }
    Ok(())
}
/// `n` segments of a kind.
fn run_of(o: &mut Vec<u8>, n: usize, k: usize) {
    for i in 0..n {
        match k {
            0 => seg(o, i as u32, 0, PCS, &[7, 128]),
            1 => seg(o, i as u32, 0, WDS, &[]),
            2 => seg(o, i as u32, 0, PDS, &pal_of(&IDS[..2], i as u8)),
            3 => seg(o, i as u32, 0, ODS, &ods_full(1, 1, &[1])),
            _ => seg(o, i as u32, 0, ODS, &ods_head(0x80, 5, 1, 1, &[])),
        }
    }
}
fn g08_long(ch: &mut Ch) -> R {
    // As many segments of a kind as that before an end of the set, or before the end of the stream.
    let n = *ch.pick(ch.tier.b(&[255usize, 256, 257, 4097, 65_535, 65_536, 65_537, 400_000][..], &[255, 256, 257, 4097, 65_535, 65_536, 65_537, 400_000, 2_000_000][..]));
    let k = ch.choose(5);
    let at = ch.choose(4);
    let mut o = vec![];
    if at == 1 {
        seg(&mut o, 5, 0, END, &[]);
    }
    run_of(&mut o, if at == 3 { n } else { n - 1 }, k);
    if at == 2 {
        // Good ones follow.
        put_sub(&mut o, 9000, 18_000, &pal_of(&IDS, 1), 3, 2, &flat(6, 0), None);
        seg(&mut o, 90_000, 0, END, &[]);
        run_of(&mut o, 3, k);
    }
    check(ch, "G08.long", &o, true)?;
    time_only(ch, "G08.long", &o)
}
/// The items of `b` from number `n` on.
fn r_items(b: &[u8], n: usize) -> Vec<PItem> {
    pread_with(Cursor::new(b), b.len()).unwrap_or_default().into_iter().skip(n).collect()
}
fn g09_pipes(ch: &mut Ch) -> R {
    // A file that is a pipe: it gives its bytes as it likes, and can't be moved in.
    let mut b = vec![];
    for k in 0..2u32 {
        let t = 9000 * (k + 1);
        seg(&mut b, t, 0, PDS, &pal_of(&IDS, 1 + k as u8));
        if k == 0 {
            seg(&mut b, t, 0, ODS, &ods_full(3, 2, &flat(6, 0)));
        } else {
            let d = flat(6, 1);
            seg(&mut b, t, 0, ODS, &ods_head(0x80, d.len() as u32 + 4, 3, 2, &d[..2]));
            seg(&mut b, t, 0, ODS, &ods_last(&d[2..]));
        }
        seg(&mut b, t, 0, END, &[]);
        seg(&mut b, t + 4500, 0, END, &[]);
    }
    // Segments are only skipped within what has arrived.
    let mut o = vec![];
    put_sub(&mut o, 9000, 18_000, &pal_of(&IDS, 1), 3, 2, &flat(6, 0), None);
    put_sub(&mut o, 27_000, 36_000, &pal_of(&IDS, 2), 3, 2, &flat(6, 2), Some(3));
    let (b, k) = if ch.flag() { (o, 0) } else { let k = ch.choose(b.len() + 2); (b, k) };
    let r = preference(&b);
    assert!(r.items.len() == 2 && r.broken.is_none());
    let got = piped(&parts(&b, k), |p| {
        guard(|| {
            SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(p)
                .map_err(|e| format!("from_file fails: {e:?}"))
                .map(|p| p.take(9).map(|r| r.map(|(t, i)| pshown(&t, &i)).map_err(|e| pkind(&e))).collect::<Vec<PItem>>())
        })
        .unwrap_or_else(|p| Err(format!("panics: {p}")))
    });
    ch.walk(&[h64(&b.len()), h64(&(b.len(), k))]);
    ch.eval(h64(&(b.len(), k)), true);
    // Fields that have not arrived can't be skipped in a pipe, which is reported.
    let stuck = k > 0 && matches!(&got, Ok(v) if v.last().is_some_and(|i| i.is_err()));
    let agreed = match &got {
        Ok(v) if stuck => {
            let good: Vec<PItem> = v.iter().filter(|i| i.is_ok()).cloned().collect();
            let n = good.len();
            match n + 1 == v.len() {
                // The rest is as if it were read.
                true => pagree(&r, &Ok([good, r_items(&b, n)].concat())),
                false => Err("more than one error".to_string()),
            }
        }
        _ => pagree(&r, &got),
    };
    if let Err(e) = agreed {
        viol!(format!("G09.pipes:{}:{k}", b.len()), "a pipe that delivers {} bytes cut at {k}: {e}", b.len());
    }
    let (t, _) = tref(&b);
    if k == 0 {
        let got = piped(&[&b[..]], |p| {
            guard(|| {
                SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(p)
                    .map_err(|e| format!("from_file fails: {e:?}"))
                    .map(|p| p.take(9).map(|r| r.map(|t| (t.start.msecs(), t.end.msecs())).map_err(|e| pkind(&e))).collect::<Vec<_>>())
            })
            .unwrap_or_else(|p| Err(format!("panics: {p}")))
        });
        let t: Vec<TItem> = t.into_iter().map(Ok).collect();
        if got.as_ref() != Ok(&t) {
            viol!(format!("G09.pipes:{}:times", b.len()), "times from a pipe: {got:?}, expected {t:?}");
        }
        ch.validated(1);
    }
    ch.validated(1);
    Ok(())
}
fn g10_open(ch: &mut Ch) -> R {
    let p = scratch();
    let f = ch.choose(FORMS);
    let p = match ch.choose(4 + NAMES.len()) {
        k @ 4.. => {
            // A name may be anything.
            let p = form(&named(&p, k - 4), f);
            let mut o = vec![];
            put_sub(&mut o, 9000, 18_000, &pal_of(&IDS, 1), 3, 2, &flat(6, 0), None);
            std::fs::write(&p, &o).expect("scratch file");
            let n = guard(|| {
                let a = SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(&p).map(|i| i.map(|s| s.is_ok()).collect::<Vec<_>>());
                let b = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&p).map(|i| i.map(|s| s.is_ok()).collect::<Vec<_>>());
                [a, b].map(|r| r.map_err(|e| e.to_string()))
            });
            let _ = std::fs::remove_file(&p);
            ch.walk(&[h64("open")]);
            ch.eval(h64(&p), true);
            if n != Ok([Ok(vec![true]), Ok(vec![true])]) {
                viol!(format!("G10.open:{}", k - 4), "{} gives {n:?}", p.display());
            }
            ch.validated(1);
            return Ok(());
        }
        0 => p.with_extension("missing"),
        1 => p.parent().expect("parent").join("no/such/dir"),
        2 => p.parent().expect("parent").join("missing/.."),
        _ => p.parent().expect("parent").join("missing/."),
    };
    let p = form(&p, f);
    let r = guard(|| {
        let a = SupParser::<BufReader<std::fs::File>, DecodeTimeOnly>::from_file(&p).map(drop);
        let b = SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&p).map(drop);
        [a, b].map(|r| match r {
            Err(subtile::pgs::PgsError::Io { source, path }) => path == p && source.kind() == ErrorKind::NotFound,
            _ => false,
        })
    });
    ch.walk(&[h64("open")]);
    ch.eval(h64(&p), true);
    if r != Ok([true, true]) {
        viol!("G10.open", "a missing file is not reported with its path: {r:?}");
    }
    ch.validated(1);
    Ok(())
}

fn g12_ops(ch: &mut Ch) -> R {
    // All words of reads and skips, over each kind of reader.
    let n = 40usize;
    let data: Vec<u8> = (0..n as u8).map(|i| i.wrapping_mul(7) ^ 0x31).collect();
    let kind = ch.choose(6);
    let default = if kind >= 3 { *ch.pick(&[1usize, 2, 5, 16]) } else { 1 << 20 };
    let intr = if kind == 4 { ch.choose(4) } else { 0 };
    let mut ops = vec![];
    for _ in 0..ch.tier.b(5, 6) {
        let k = ch.choose(13);
        if k == 12 {
            break;
        }
        ops.push(k);
    }
    let fc = Cell::new(None);
    let plan: Vec<Ev> = (0..12).map(|i| if intr > 0 && i % (intr + 1) == intr - 1 { Ev::Interrupt } else { Ev::Chunk(default) }).collect();
    let plan: &[Ev] = if intr > 0 { &plan } else { &[] };
    let key = format!("G12.ops:{kind}:{default}:{intr}:{ops:?}");
    fn go<Rd: BufRead + Seek>(mut r: Rd, data: &[u8], ops: &[usize]) -> Result<(), String> {
        let mut pos = 0usize;
        for &op in ops {
            let size = [0usize, 1, 2, 5, 17, 39][op % 6];
            if op < 6 {
                let mut buf = vec![0xee; size];
                let res = r.read_buffer(&mut buf);
                if pos + size <= data.len() {
                    if let Err(e) = res {
                        return Err(format!("read of {size} at {pos}: {e:?}"));
                    }
                    if buf != data[pos..pos + size] {
                        return Err(format!("read of {size} at {pos} gives {buf:02x?}"));
                    }
                    pos += size;
                } else if size > 0 {
                    return match res {
                        Err(ReadError::FailedReadBuffer { buffer_size, source })
                            if buffer_size == size && source.kind() == ErrorKind::UnexpectedEof =>
                        {
                            Ok(())
                        }
                        o => Err(format!("read of {size} at {pos} past the end: {o:?}")),
                    };
                }
            } else {
                if let Err(e) = r.skip_data(size) {
                    return Err(format!("skip of {size} at {pos}: {e:?}"));
                }
                pos += size;
            }
            if pos <= data.len() {
                match r.stream_position() {
                    Ok(p) if p == pos as u64 => {}
                    o => return Err(format!("position {o:?} instead of {pos} after {ops:?}")),
                }
            }
        }
        Ok(())
    }
    let r = guard(|| match kind {
        0 => go(Cursor::new(&data[..]), &data, &ops),
        1 => go(BufReader::with_capacity(4, Cursor::new(&data[..])), &data, &ops),
        2 => go(BufReader::with_capacity(16, Cursor::new(&data[..])), &data, &ops),
        3 | 4 => go(PlanReader::new(&data, plan, default, &fc), &data, &ops),
        _ => go(BufReader::with_capacity(7, PlanReader::new(&data, plan, default, &fc)), &data, &ops),
    });
    let mut tr = vec![h64(&(kind, default, intr))];
    let mut pos = 0;
    for o in &ops {
        pos += [0usize, 1, 2, 5, 17, 39][o % 6];
        tr.push(h64(&(kind, default, o, pos.min(41))));
    }
    ch.walk(&tr);
    ch.eval(h64(&key), !ops.is_empty());
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "reader {kind} ({default}), operations {ops:?}: {e}"),
        Err(e) => viol!(key, "reader {kind} ({default}), operations {ops:?} panics: {e}"),
    }
    ch.validated(1);
    ch.sample(|| key.clone());
    Ok(())
}

fn g12_faults(ch: &mut Ch) -> R {
    let data = [7u8; 40];
    let fc = Cell::new(None);
    let chunk = *ch.pick(&[1usize, 4, 64]);
    let at = ch.choose(12);
    let size = *ch.pick(&[1usize, 3, 10]);
    let op = ch.choose(3);
    let kind = *ch.pick(&ERROR_KINDS);
    let r = guard(|| {
        let mut r = PlanReader::new(&data, &[], chunk, &fc);
        if op == 2 {
            r.fail_seek = Some(1);
        } else {
            r.fail_at = Some((at, kind));
        }
        for i in 0..20 {
            let res = if op == 0 { r.read_buffer(&mut vec![0; size]) } else { r.skip_data(size) };
            let failed = fc.get().is_some();
            let ok = match (&res, op) {
                (Ok(()), _) => !failed,
                (Err(ReadError::FailedReadBuffer { source, buffer_size }), 0) => failed && source.kind() == kind && *buffer_size == size,
                (Err(ReadError::FailedFillBuf(e)), 1) => failed && e.kind() == kind,
                (Err(ReadError::FailedSeek(_)), 2) => failed,
                (Err(ReadError::FailedReadBuffer { source, .. }), _) => source.kind() == ErrorKind::UnexpectedEof && (i + 1) * size > 40,
                _ => false,
            };
            if !ok {
                return Err(format!("operation {i}: {res:?}, failure at {:?}", fc.get()));
            }
            if res.is_err() {
                break;
            }
        }
        Ok(())
    });
    let key = format!("G12.faults:{chunk}:{at}:{size}:{op}:{kind:?}");
    ch.walk(&[h64(&("f", chunk, at)), h64(&("f", chunk, at, size, op))]);
    ch.eval(h64(&key), fc.get().is_some());
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol!(key, "{key}: {e}"),
        Err(e) => viol!(key, "{key} panics: {e}"),
    }
    ch.validated(1);
    Ok(())
}

/// Gives some bytes, then fails with one of `some_error`; or every seek does.
struct Causes {
    pos: usize,
    at: usize,
    k: usize,
    seek: bool,
    buf: [u8; 4],
}
impl Read for Causes {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.fill_buf()?.len().min(b.len());
        b[..n].fill(7);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Causes {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = (self.at - self.pos).min(4);
        if n == 0 {
            return Err(crate::p_txt::some_error(self.k));
        }
        Ok(&self.buf[..n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Seek for Causes {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if self.seek {
            return Err(crate::p_txt::some_error(self.k));
        }
        let SeekFrom::Current(n) = to else { panic!("only relative seeks are expected") };
        self.pos = (self.pos as i64 + n) as usize;
        Ok(self.pos as u64)
    }
}
fn g12_causes(ch: &mut Ch) -> R {
    // The cause in the error is the error of the source: kind, number, cause and text.
    use crate::p_txt::{face, some_error, SOME_ERRORS};
    let k = ch.choose(SOME_ERRORS);
    let at = ch.choose(9);
    let seek = ch.flag();
    let size = ch.range(1, 12);
    let skip = ch.flag();
    let mut c = Causes { pos: 0, at, k, seek, buf: [7; 4] };
    let r = guard(|| if skip { c.skip_data(size) } else { c.read_buffer(&mut vec![0; size]) });
    let key = format!("G12.causes:{k}:{at}:{seek}:{size}:{skip}");
    ch.walk(&[h64(&("causes", at)), h64(&key)]);
    ch.eval(h64(&key), true);
    let want = face(&some_error(k));
    let ok = match r {
        Ok(Ok(())) => c.pos == size && (size <= at || (skip && at > 0 && !seek)),
        Ok(Err(ReadError::FailedReadBuffer { source, buffer_size })) => !skip && size > at && face(&source) == want && buffer_size == size,
        Ok(Err(ReadError::FailedFillBuf(e))) => skip && at == 0 && face(&e) == want,
        Ok(Err(ReadError::FailedSeek(e))) => skip && seek && size > at.min(4) && face(&e) == want,
        _ => false,
    };
    if !ok {
        viol!(key, "{} of {size} bytes from a source that fails after {at} bytes (seeks: {seek}) with {:?}: at {} comes another result", if skip { "skip" } else { "read" }, some_error(k), c.pos);
    }
    ch.validated(1);
    Ok(())
}

fn g12_huge(ch: &mut Ch) -> R {
    // Skips that no offset can hold, or that no position can.
    let k = ch.choose(4);
    let n = [usize::MAX, i64::MAX as usize + 1, i64::MAX as usize, 1 << 40][k];
    let r = guard(|| {
        let mut c = Cursor::new(vec![1u8; 10]);
        c.seek(SeekFrom::Start(2)).expect("seek");
        c.skip_data(n)
    });
    let ok = match (&r, k) {
        (Ok(Err(ReadError::InvalidSeekValue { value, .. })), 0 | 1) => *value == n,
        (Ok(_), 2 | 3) => true,
        _ => false,
    };
    ch.walk(&[h64(&n)]);
    ch.eval(h64(&n), true);
    if !ok {
        viol!(format!("G12.huge:{n}"), "skip of {n}: {r:?}");
    }
    ch.validated(1);
    Ok(())
}

// ================================================================ G13

/// A decoder of a user: each byte of the source tells what it gives.
struct Told;
/// What is given has the number of the call of the decoder.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Given(u64);
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
const TOLD: usize = 9;
fn told(k: u8, call: u64) -> Result<Option<Given>, PgsError> {
    Err(match k {
        0 => return Ok(Some(Given(call))),
        1 => return Ok(None),
        2 => PgsError::MissingImage,
        3 => PgsError::MissingPalette,
        4 => PgsError::SegmentPGMissing,
        5 => PgsError::SegmentInvalidTypeCode { value: call as u8 },
        6 => PgsError::SegmentFailReadHeader,
        7 => PgsError::Io { source: ErrorKind::TimedOut.into(), path: "p".into() },
        _ => PgsError::Io { source: io::Error::from_raw_os_error(5), path: "q".into() },
    })
}
impl PgsDecoder for Told {
    type Output = Given;
    fn parse_next<R: BufRead + Seek>(reader: &mut R) -> Result<Option<Given>, PgsError> {
        let call = CALLS.get();
        CALLS.set(call + 1);
        let mut b = [0];
        match reader.read_exact(&mut b) {
            Ok(()) => told(b[0], call),
            Err(_) => Ok(None),
        }
    }
}
fn g13_words(ch: &mut Ch) -> R {
    // All words of what the decoder gives, from memory, a buffer or a file.
    let n = ch.choose(ch.tier.b(6, 8));
    let word: Vec<u8> = (0..n).map(|_| ch.choose(TOLD) as u8).collect();
    // Items, and the number of calls after each.
    let mut want: Vec<(String, u64)> = vec![];
    let (mut ended, mut at) = (false, 0);
    let mut trace = vec![];
    for _ in 0..n + 3 {
        if !ended {
            let r = word.get(at as usize).map_or(Ok(None), |k| told(*k, at));
            at += 1;
            ended = matches!(&r, Ok(None) | Err(PgsError::SegmentFailReadHeader | PgsError::Io { .. }));
            want.push((format!("{:?}", r.transpose()), at));
        } else {
            want.push((format!("{:?}", None::<Result<Given, PgsError>>), at));
        }
        trace.push(h64(&("g13", ended, want.last().map(|w| w.0.clone()))));
    }
    ch.walk(&trace);
    let read = |it: &mut dyn Iterator<Item = Result<Given, PgsError>>| {
        CALLS.set(0);
        (0..n + 3).map(|_| (format!("{:?}", it.next()), CALLS.get())).collect::<Vec<_>>()
    };
    for form in 0..3 {
        let key = h64(&(form, &word));
        if form == 2 && n > 3 {
            continue;
        }
        let got = match form {
            0 => guard(|| read(&mut SupParser::<_, Told>::new(Cursor::new(&word[..])))),
            1 => guard(|| read(&mut SupParser::<_, Told>::new(BufReader::with_capacity(2, Cursor::new(&word[..]))))),
            _ => {
                let p = scratch();
                std::fs::write(&p, &word).expect("scratch file");
                let r = guard(|| match SupParser::<BufReader<std::fs::File>, Told>::from_file(&p) {
                    Ok(mut it) => read(&mut it),
                    Err(e) => vec![(format!("{e:?}"), 0)],
                });
                r
            }
        };
        ch.eval(key, n > 0);
        match got {
            Ok(g) if g == want => {}
            g => viol!(format!("G13.words:{form}:{word:?}"), "source {form}, decoder that gives {word:?}: {g:?}, wanted {want:?} (items and calls of the decoder)"),
        }
        ch.validated(1);
    }
    Ok(())
}
thread_local! {
    static SCRIPT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
/// What a decoder gives for a call: nothing, a byte, a text, or much.
trait Made: Sized + PartialEq + std::fmt::Debug {
    fn made(call: u64) -> Self;
}
impl Made for () {
    fn made(_: u64) {}
}
impl Made for u8 {
    fn made(call: u64) -> Self {
        call as u8
    }
}
impl Made for String {
    fn made(call: u64) -> Self {
        format!("{call}").repeat(call as usize % 3)
    }
}
impl Made for [u64; 40] {
    fn made(call: u64) -> Self {
        [call; 40]
    }
}
/// A decoder that does not read its source.
struct Scripted<T>(std::marker::PhantomData<T>);
impl<T: Made> PgsDecoder for Scripted<T> {
    type Output = T;
    fn parse_next<R: BufRead + Seek>(_: &mut R) -> Result<Option<T>, PgsError> {
        let call = CALLS.get();
        CALLS.set(call + 1);
        let k = SCRIPT.with_borrow(|s| s.get(call as usize).copied());
        k.map_or(Ok(None), |k| told(k, call)).map(|x| x.map(|_| T::made(call)))
    }
}
fn scripted<T: Made, S: BufRead + Seek>(source: S, word: &[u8]) -> Result<(), String> {
    SCRIPT.set(word.to_vec());
    CALLS.set(0);
    let mut it = SupParser::<S, Scripted<T>>::new(source);
    let (mut ended, mut at) = (false, 0u64);
    for i in 0..word.len() + 3 {
        let got = it.next();
        let want = if ended {
            Ok(None)
        } else {
            let r = word.get(at as usize).map_or(Ok(None), |k| told(*k, at)).map(|x| x.map(|_| T::made(at)));
            at += 1;
            ended = matches!(&r, Ok(None) | Err(PgsError::SegmentFailReadHeader | PgsError::Io { .. }));
            r
        };
        let want = want.transpose();
        if format!("{got:?}") != format!("{want:?}") || CALLS.get() != at {
            return Err(format!("item {i} is {got:?} after {} calls, expected {want:?} after {at}", CALLS.get()));
        }
    }
    Ok(())
}
/// A source that fails at everything.
struct Dead;
impl Read for Dead {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(ErrorKind::BrokenPipe.into())
    }
}
impl BufRead for Dead {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Err(ErrorKind::BrokenPipe.into())
    }
    fn consume(&mut self, _: usize) {}
}
impl Seek for Dead {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        Err(ErrorKind::BrokenPipe.into())
    }
}
fn g13_script(ch: &mut Ch) -> R {
    // A decoder that does not use its source, which is empty, has something, or fails.
    let n = ch.choose(ch.tier.b(5, 6));
    let word: Vec<u8> = (0..n).map(|_| ch.choose(TOLD) as u8).collect();
    let src = ch.choose(3);
    let ty = ch.choose(4);
    let r = guard(|| match src {
        0 => match ty {
            0 => scripted::<(), _>(io::empty(), &word),
            1 => scripted::<u8, _>(io::empty(), &word),
            2 => scripted::<String, _>(io::empty(), &word),
            _ => scripted::<[u64; 40], _>(io::empty(), &word),
        },
        1 => match ty {
            0 => scripted::<(), _>(Cursor::new([7; 3]), &word),
            1 => scripted::<u8, _>(Cursor::new([7; 3]), &word),
            2 => scripted::<String, _>(Cursor::new([7; 3]), &word),
            _ => scripted::<[u64; 40], _>(Cursor::new([7; 3]), &word),
        },
        _ => match ty {
            0 => scripted::<(), _>(Dead, &word),
            1 => scripted::<u8, _>(Dead, &word),
            2 => scripted::<String, _>(Dead, &word),
            _ => scripted::<[u64; 40], _>(Dead, &word),
        },
    });
    ch.walk(&(0..=n).map(|i| h64(&("g13s", src, ty, &word[..i]))).collect::<Vec<_>>());
    ch.eval(h64(&(src, ty, &word)), n > 0);
    match r {
        Ok(Ok(())) => {}
        r => viol!(format!("G13.script:{src}:{ty}:{word:?}"), "decoder that gives {word:?} and does not use its source (kind {src}), type {ty}: {r:?}"),
    }
    ch.validated(n as u64 + 3);
    Ok(())
}
fn g13_long(ch: &mut Ch) -> R {
    // Long words: one kind over and over, another one at a place in them.
    let k = [0u8, 2, 3, 4, 5][ch.choose(5)];
    let other = ch.choose(TOLD) as u8;
    let ns = [1usize, 2, 255, 256, 257, 499, 500, 501, 1000, 1001, 4096, 65535, 65536, 65537, 100_000];
    let at = *ch.pick(&ns) - 1;
    let n = 100_100u64;
    let mut word = vec![k; n as usize];
    word[at] = other;
    let kind = |r: &Option<Result<Given, PgsError>>| match r {
        None => u64::MAX,
        Some(Ok(Given(n))) => *n,
        Some(Err(e)) => u64::MAX - 1 - u64::from(pkind(e)),
    };
    let mut want = vec![];
    let mut calls = 0;
    let ends = [1, 6, 7, 8].contains(&other);
    for i in 0..n + 3 {
        let over = i as usize > at && ends || i >= n;
        let r = if over { None } else { told(word[i as usize], i).transpose() };
        calls += u64::from(i as usize <= at || !ends) * u64::from(i <= n);
        want.push(kind(&r));
    }
    let got = guard(|| {
        CALLS.set(0);
        let mut it = SupParser::<_, Told>::new(Cursor::new(&word[..]));
        let g: Vec<u64> = (0..n + 3).map(|_| kind(&it.next())).collect();
        (g, CALLS.get())
    });
    ch.walk(&[h64(&("g13", k)), h64(&("g13", k, other)), h64(&("g13", k, other, at))]);
    ch.eval(h64(&(k, other, at)), true);
    match got {
        Ok((g, c)) if g == want && c == calls => {}
        Ok((g, c)) => {
            let bad = (0..g.len()).find(|i| g[*i] != want[*i]);
            viol!(format!("G13.long:{k}:{other}:{at}"), "decoder that gives {k} {n} times, but {other} at {at}: first wrong item {bad:?}, {c} calls, wanted {calls}")
        }
        Err(e) => viol!(format!("G13.long:{k}:{other}:{at}"), "decoder that gives {k} {n} times, but {other} at {at}: panics: {e}"),
    }
    ch.validated(1);
    Ok(())
}

pub const H: &[Harness] = &[
    Harness { prop: "G13", name: "G13.words", what: "all words of up to 5 (7) of 9 kinds of what a user's decoder gives x 3 sources: items and calls of the decoder", devs: (0, 0), serial: false, run: g13_words },
    Harness { prop: "G13", name: "G13.script", what: "all words of up to 4 (5) of 9 kinds of what a decoder gives that does not use its source x 3 sources (one that fails) x 4 types", devs: (0, 0), serial: false, run: g13_script },
    Harness { prop: "G13", name: "G13.long", what: "100100 items of 5 kinds, one of 9 kinds at one of 15 places", devs: (0, 0), serial: false, run: g13_long },
    Harness { prop: "G01", name: "G01.history", what: "all histories of up to 7 (8) segments over 9 kinds", devs: (0, 0), serial: false, run: g01_history },
    Harness { prop: "G01", name: "G01.sets", what: "all histories of up to 5 (6) display sets over 8 kinds", devs: (0, 0), serial: false, run: g01_sets },
    Harness { prop: "G01", name: "G01.fields", what: "time stamps, ids, versions, sizes of skipped segments", devs: (0, 0), serial: false, run: g01_fields },
    Harness { prop: "G02", name: "G02.history", what: "all histories of up to 7 (8) segments over 9 kinds, both decoders", devs: (0, 0), serial: false, run: g02_history },
    Harness { prop: "G02", name: "G02.content", what: "types and sizes of 1..3 skipped segments x 4 readers", devs: (0, 0), serial: false, run: g02_content },
    Harness { prop: "G02", name: "G02.ends", what: "up to 4 (5) ends of display sets x 10 declared sizes x 3 kinds of what follows: both readings", devs: (0, 0), serial: false, run: g02_ends },
    Harness { prop: "G02", name: "G02.bytes", what: "every byte of a stream in every way, every pair of bytes in 7: both readings where the images have no error", devs: (0, 0), serial: false, run: g02_bytes },
    Harness { prop: "G02", name: "G02.fields", what: "time stamps of one or two bits", devs: (0, 0), serial: false, run: g02_fields },
    Harness { prop: "G01", name: "G01.steps", what: "all words of up to 3 ways to go on of the iterators of both decoders", devs: (0, 0), serial: false, run: g01_steps },
    Harness { prop: "G01", name: "G01.many", what: "streams of 0 to 64 subtitles and around powers of two and ten up to 65537 (200000)", devs: (0, 0), serial: false, run: g01_many },
    Harness { prop: "G01", name: "G01.far", what: "subtitles around and across 2^24 to 5*2^32 bytes of skipped segments", devs: (0, 0), serial: false, run: g01_far },
    Harness { prop: "G02", name: "G02.many", what: "streams of 1 to 65 subtitles and around powers of two and ten up to 65537 (200001)", devs: (0, 0), serial: false, run: g02_many },
    Harness { prop: "G02", name: "G02.far", what: "subtitles around and across 2^24 to 5*2^32 bytes of skipped segments", devs: (0, 0), serial: false, run: g02_far },
    Harness { prop: "G02", name: "G02.mixed", what: "all streams of up to 4 subtitles of 4 kinds x the decoder of each", devs: (0, 0), serial: false, run: g02_mixed },
    Harness { prop: "G01", name: "G01.times", what: "up to 6 (7) display sets at all orders of 8 times", devs: (0, 0), serial: false, run: g01_times },
    Harness { prop: "G02", name: "G02.times", what: "up to 6 (7) display sets at all orders of 8 times", devs: (0, 0), serial: false, run: g02_times },
    Harness { prop: "G03", name: "G03.split", what: "all splits of all objects of up to 160 (400) bytes", devs: (0, 0), serial: false, run: g03_split },
    Harness { prop: "G03", name: "G03.declared", what: "declared lengths x flags x fragments", devs: (0, 0), serial: false, run: g03_declared },
    Harness { prop: "G03", name: "G03.large", what: "object sizes and splits around the limits of the fields", devs: (0, 0), serial: false, run: g03_large },
    Harness { prop: "G03", name: "G03.bits", what: "each bit and pair of bits of the declared length, 4 sizes, all fragmentations", devs: (0, 0), serial: false, run: g03_bits },
    Harness { prop: "G03", name: "G03.between", what: "all words of up to 5 (6) of 6 other segments between the fragments, and one after them", devs: (0, 0), serial: false, run: g03_between },
    Harness { prop: "G03", name: "G03.history", what: "all histories of up to 6 (7) fragments over 7 kinds", devs: (0, 0), serial: false, run: g03_history },
    Harness { prop: "G04", name: "G04.codes", what: "all words of up to 5 (6) codes over 14 kinds x 3 shapes", devs: (0, 0), serial: false, run: g04_codes },
    Harness { prop: "G04", name: "G04.lengths", what: "all run lengths 0..16383 x all forms", devs: (0, 0), serial: false, run: g04_lengths },
    Harness { prop: "G04", name: "G04.data", what: "all data of 2 bytes and some of 3 (all of 3) x tails x shapes", devs: (0, 0), serial: false, run: g04_data },
    Harness { prop: "G04", name: "G04.encoded", what: "all small images x 3 encodings", devs: (0, 0), serial: false, run: g04_encoded },
    Harness { prop: "G05", name: "G05.orders", what: "all orders of the entries of 4 palettes, with entries missing", devs: (0, 0), serial: false, run: g05_orders },
    Harness { prop: "G05", name: "G05.ids", what: "an entry of each id looked up with all colours", devs: (0, 0), serial: false, run: g05_ids },
    Harness { prop: "G05", name: "G05.count", what: "palettes of 0 to 256 entries in 3 orders", devs: (0, 0), serial: false, run: g05_count },
    Harness { prop: "G06", name: "G06.ops", what: "all words of up to 5 (6) operations of the iterator x 10 images x 3 ways to get it", devs: (0, 0), serial: false, run: g06_ops },
    Harness { prop: "G06", name: "G06.jumps", what: "images of more than 65535 pixels: jumps of up to all pixels and beyond, of 4 kinds, after up to 65536 pixels", devs: (0, 0), serial: false, run: g06_jumps },
    Harness { prop: "G05", name: "G05.types", what: "all data of some 6 (9) bytes of 8 codes x shapes, as pixels of 9 types", devs: (0, 0), serial: false, run: g05_types },
    Harness { prop: "G06", name: "G06.types", what: "all data of some 6 (9) bytes of 8 codes x shapes, as pixels of 9 types", devs: (0, 0), serial: false, run: g06_types },
    Harness { prop: "G06", name: "G06.sizes", what: "sizes x data too short, exact, too long", devs: (0, 0), serial: false, run: g06_sizes },
    Harness { prop: "G07", name: "G07.small", what: "all images of up to 6 (8) pixels x palettes x borders x thresholds", devs: (0, 0), serial: false, run: g07_small },
    Harness { prop: "G07", name: "G07.wide", what: "images of more than 65535 pixels in 6 (11) shapes", devs: (0, 0), serial: false, run: g07_wide },
    Harness { prop: "G07", name: "G07.shapes", what: "shapes x data x borders", devs: (0, 0), serial: false, run: g07_shapes },
    Harness { prop: "G08", name: "G08.bytes", what: "every byte of a stream of 2 subtitles x all values, both decoders", devs: (0, 0), serial: false, run: g08_bytes },
    Harness { prop: "G08", name: "G08.render", what: "as G08.bytes, what is read is rendered", devs: (0, 0), serial: false, run: g08_render },
    Harness { prop: "G08", name: "G08.big", what: "rendering of images of all pairs of 12 widths and heights with 5 data, up to 5 (70) million pixels", devs: (0, 0), serial: false, run: g08_big },
    Harness { prop: "G08", name: "G08.pairs", what: "every pair of bytes x values of the format", devs: (0, 0), serial: false, run: g08_pairs },
    Harness { prop: "G08", name: "G08.edit", what: "every truncation, insertion, removal, repetition within the bounds", devs: (0, 0), serial: false, run: g08_edit },
    Harness { prop: "G08", name: "G08.sizes", what: "declared sizes x bytes there are x types", devs: (0, 0), serial: false, run: g08_sizes },
    Harness { prop: "G08", name: "G08.long", what: "up to 400000 (2000000) segments of 5 kinds in a row x where", devs: (0, 0), serial: false, run: g08_long },
    Harness { prop: "G09", name: "G09.chunks", what: "every place for short reads and interruptions within the deviation bound x 10 read sizes", devs: (2, 2), serial: false, run: g09_chunks },
    Harness { prop: "G09", name: "G09.words", what: "all words of answers for the first 8 (9) refills", devs: (0, 0), serial: false, run: g09_words },
    Harness { prop: "G09", name: "G09.storm", what: "up to 70000 interruptions in a row at every refill x read sizes", devs: (0, 0), serial: false, run: g09_storm },
    Harness { prop: "G09", name: "G09.errors", what: "every byte damaged in 4 ways, every cut x read sizes and interruptions", devs: (0, 0), serial: false, run: g09_errors },
    Harness { prop: "G09", name: "G09.buffers", what: "buffer capacities 1..2000 (9000) x read sizes", devs: (0, 0), serial: false, run: g09_buffers },
    Harness { prop: "G09", name: "G09.pipes", what: "a file that is a pipe, cut at every byte (then fields that have not arrived may be reported)", devs: (0, 0), serial: false, run: g09_pipes },
    Harness { prop: "G09", name: "G09.large", what: "objects and skipped segments around buffer sizes x 4 readers", devs: (0, 0), serial: false, run: g09_large },
    Harness { prop: "G10", name: "G10.fault", what: "a failure at every position x 36 kinds x read sizes x 3 readers, both decoders", devs: (0, 0), serial: false, run: g10_fault },
    Harness { prop: "G10", name: "G10.seek", what: "every seek failing", devs: (0, 0), serial: false, run: g10_seek },
    Harness { prop: "G10", name: "G10.open", what: "missing files", devs: (0, 0), serial: false, run: g10_open },
    Harness { prop: "G11", name: "G11.cut", what: "every length of 3 streams of 4 subtitles x 3 readers, both decoders", devs: (0, 0), serial: false, run: g11_cut },
    Harness { prop: "G11", name: "G11.grown", what: "every length of 3 streams of 3 subtitles, that have grown after their end x 2 readers x both readings", devs: (0, 0), serial: false, run: g11_grown },
    Harness { prop: "G11", name: "G11.segments", what: "all histories of up to 5 (6) segments, cut at every byte of the last one", devs: (0, 0), serial: false, run: g11_segments },
    Harness { prop: "G12", name: "G12.ops", what: "all words of up to 5 (6) reads and skips x 6 readers x read sizes", devs: (0, 0), serial: false, run: g12_ops },
    Harness { prop: "G12", name: "G12.faults", what: "failures of reads, refills and seeks", devs: (0, 0), serial: false, run: g12_faults },
    Harness { prop: "G12", name: "G12.causes", what: "reads and skips of 1 to 12 bytes from sources that fail after 0 to 8 bytes or when they seek x 12 errors: kind, number, cause and text", devs: (0, 0), serial: false, run: g12_causes },
    Harness { prop: "G12", name: "G12.huge", what: "skips beyond any offset", devs: (0, 0), serial: false, run: g12_huge },
];
