//! Sweeps: every value of one field, size or length, all else being fixed.

use crate::engine::*;
use crate::pgs::*;
use crate::vob::*;
use crate::{p_idx, p_pgs, p_txt, p_vob, viol};
use image::{ImageBuffer, Luma, LumaA};
use p_pgs::{flat, image_stream, put_code, Code, IDS};
use std::io::{self, BufRead, BufReader, Cursor, Seek};
use subtile::image::{dump_images, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{ReadError, ReadExt, RleToImage};
use subtile::vobsub::{VobSubIndexedImage, VobSubToImage};

/// The values of a block of `n`: all blocks below `limit` one after another.
fn block(ch: &mut Ch, limit: usize, n: usize) -> std::ops::Range<usize> {
    let b = ch.choose(limit.div_ceil(n));
    b * n..((b + 1) * n).min(limit)
}
/// All sizes up to `dense`, around powers of two and ten and of pictures, and one of `step`.
fn sizes(limit: usize, dense: usize, step: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..dense.min(limit + 1)).chain((dense..=limit).step_by(step)).collect();
    for b in 0..17 {
        v.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
    }
    for s in [100, 480, 576, 720, 1000, 1080, 1280, 1440, 1920, 2160, 3840, 10000, 20000, 30000, 40000, 50000, 60000] {
        v.extend([s - 1, s, s + 1]);
    }
    v.retain(|x| (1..=limit).contains(x));
    v.sort_unstable();
    v.dedup();
    v
}

/// Numbers up to `limit` that stand out: round ones and their neighbours, in both bases.
fn special(limit: u64) -> Vec<u64> {
    let mut v = vec![];
    for b in 0..64 {
        for m in [1u64, 3, 5, 7] {
            v.push((1u64 << b).saturating_mul(m));
        }
    }
    let mut t = 1u64;
    for _ in 0..20 {
        for m in 1..=99u64 {
            v.push(t.saturating_mul(m));
        }
        t = t.saturating_mul(10);
    }
    v.extend([u64::MAX, i64::MAX as u64, 86_399, 86_400, 65_279, 2_073_600, 8_294_400, 921_600, 414_720, 345_600, 86_399_999, 123_456_789]);
    let w: Vec<u64> = v.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).filter(|x| *x <= limit).collect();
    v = w;
    v.sort_unstable();
    v.dedup();
    v
}

// ================================================================ PGS

fn g01_skip(ch: &mut Ch) -> R {
    // Skipped segments of every size, before and between the others.
    let ty = *ch.pick(&[0x16u8, 0x17]);
    let mut o = vec![];
    for (k, n) in block(ch, 65536, 16).enumerate() {
        let t = (k as u32 + 1) * 9000;
        seg(&mut o, t, 0, ty, &vec![0x50; n]);
        seg(&mut o, t, 0, 0x14, &pal_of(&IDS, k as u8));
        seg(&mut o, t, 0, 0x15, &ods_full(3, 2, &flat(6, k)));
        seg(&mut o, t, 0, 0x80, &[]);
        seg(&mut o, t + 4500, 0, 0x80, &[]);
    }
    p_pgs::check(ch, "G01.skip", &o, true)?;
    Ok(())
}

fn g02_skip(ch: &mut Ch) -> R {
    // Segments of every kind and size.
    let ty = *ch.pick(&[0x14u8, 0x15, 0x16, 0x17]);
    let small = ch.flag();
    let mut o = vec![];
    let mut want = vec![];
    let b = block(ch, 65536, 16);
    let key = format!("G02.skip:{ty:02x}:{}", b.start);
    for (k, n) in b.enumerate() {
        let t = (k as u32 + 1) * 9000;
        seg(&mut o, t, 0, ty, &vec![0x50; n]);
        seg(&mut o, t, 0, 0x80, &[]);
        seg(&mut o, t + 4500, 0, 0x80, &[]);
        want.push(Ok((i64::from(t / 90), i64::from(t / 90 + 50))));
    }
    let got = if small {
        tread_with(BufReader::with_capacity(100, Cursor::new(&o[..])), o.len() + 4)
    } else {
        tread_with(BufReader::new(Cursor::new(&o[..])), o.len() + 4)
    };
    if got.as_ref() != Ok(&want) {
        viol!(key, "time-only: {got:?}, expected {want:?}");
    }
    ch.walk(&[h64(&key)]);
    ch.evals(16);
    ch.validated(16);
    Ok(())
}

fn g01_clock(ch: &mut Ch) -> R {
    // Time stamps: all of the blocks of 65536, both readings (the full one: some).
    let hi = match ch.tier {
        Tier::Quick => {
            let k = ch.choose(8192 + 64);
            if k < 8192 { k * 8 + k % 8 } else { [0, 65535, 0x7fff, 0x8000, 1, 2, 3, 0xff, 0x100, 0x101, 13, 54, 549, 5493, 54931, 4119][k % 16] }
        }
        Tier::Thorough => ch.choose(65536),
    } as u32;
    let mut o = Vec::with_capacity(65536 * 13);
    let mut want = Vec::with_capacity(32768);
    for lo in 0..65536u32 {
        let t = hi << 16 | lo;
        o.extend([0x50, 0x47]);
        o.extend(t.to_be_bytes());
        o.extend([0, 0, 0, 0, 0x80, 0, 0]);
        if lo % 2 == 1 {
            want.push(Ok((i64::from((t - 1) / 90), i64::from(t / 90))));
        }
    }
    let got = tread_with(Cursor::new(&o[..]), 40_000);
    if got.as_ref() != Ok(&want) {
        let w = got.map(|g| g.iter().zip(&want).enumerate().find(|(_, (a, b))| a != b).map(|(i, (a, b))| format!("subtitle {i} is {a:?}, expected {b:?}")).unwrap_or(format!("{} subtitles", g.len())));
        viol!(format!("G01.clock:{hi:04x}"), "times {hi:04x}0000..{hi:04x}ffff: {w:?}");
    }
    ch.walk(&[h64(&hi)]);
    ch.evals(65536);
    ch.validated(32768);
    Ok(())
}

fn g01_shown(ch: &mut Ch) -> R {
    // The same for the full reading, fewer of them.
    let hi = match ch.tier {
        Tier::Quick => *ch.pick(&[0u32, 1, 2, 0x7fff, 0x8000, 0xffff, 13, 549]),
        Tier::Thorough => (ch.choose(1024) * 64 + 5) as u32,
    };
    let q = ch.choose(64) as u32;
    let mut o = vec![];
    for lo in q * 1024..(q + 1) * 1024 {
        let t = hi << 16 | lo;
        seg(&mut o, 7, 7, 0x14, &pal_of(&[1], 2));
        seg(&mut o, 7, 7, 0x15, &ods_full(1, 1, &[1]));
        seg(&mut o, t, t, 0x80, &[]);
        seg(&mut o, t ^ 0x155, 0, 0x80, &[]);
    }
    p_pgs::check(ch, "G01.shown", &o, true)?;
    Ok(())
}

/// A stream of two subtitles, and which of its bytes mean nothing. There is a composition (or a
/// window) in each place where one can be.
fn with_ignored(ty: u8, n: usize) -> (Vec<u8>, Vec<usize>) {
    let mut o = vec![];
    let mut free = vec![];
    let head = |o: &mut Vec<u8>, free: &mut Vec<usize>, t: u32, ty: u8, d: &[u8], skip: &[usize], end: bool| {
        let at = o.len();
        // (The time of other segments than ends means nothing either.)
        free.extend((if end { at + 6 } else { at + 2 })..at + 10);
        seg(o, t, 0, ty, d);
        free.extend(skip.iter().map(|k| at + 13 + k));
    };
    let any: Vec<usize> = (0..n).collect();
    for k in 0..2u32 {
        let t = 9000 * (k + 1);
        let gap = |o: &mut Vec<u8>, free: &mut Vec<usize>| head(o, free, t, ty, &vec![0; n], &any, false);
        let d = flat(6, k as usize);
        gap(&mut o, &mut free);
        head(&mut o, &mut free, t, PDS, &pal_of(&IDS, k as u8), &[0, 1, 4, 5], false);
        gap(&mut o, &mut free);
        head(&mut o, &mut free, t, ODS, &ods_head(0x80, 10, 3, 2, &d[..2]), &[0, 1, 2], false);
        gap(&mut o, &mut free);
        head(&mut o, &mut free, t, ODS, &ods_last(&d[2..]), &[0, 1, 2], false);
        gap(&mut o, &mut free);
        head(&mut o, &mut free, t, END, &[], &[], true);
        gap(&mut o, &mut free);
        head(&mut o, &mut free, t + 900, END, &[], &[], true);
    }
    (o, free)
}

fn g01_ignored(ch: &mut Ch) -> R {
    // Every value of each byte that means nothing.
    let (mut o, free) = with_ignored(*ch.pick(&[0x16u8, 0x17]), *ch.pick(&[11usize, 19, 27, 10, 1]));
    let at = *ch.pick(&free);
    for v in 0..=255 {
        o[at] = v;
        let r = p_pgs::check(ch, "G01.ignored", &o, true)?;
        assert!(r.items.len() == 2 && r.items.iter().all(Result::is_ok));
    }
    Ok(())
}

fn g01_ignored2(ch: &mut Ch) -> R {
    // Some values of each pair of them.
    let (mut o, free) = with_ignored(0x16, *ch.pick(ch.tier.b(&[11usize][..], &[11, 19])));
    let vals = ch.tier.b(&[1u8, 0x40, 0x80, 0xc0, 0xff][..], &[1, 2, 0x40, 0x80, 0xc0, 0xff]);
    let i = ch.choose(free.len());
    let v = *ch.pick(vals);
    let old = o[free[i]];
    o[free[i]] = v;
    for j in i + 1..free.len() {
        let old = o[free[j]];
        for w in vals {
            o[free[j]] = *w;
            let r = p_pgs::check(ch, "G01.ignored2", &o, true)?;
            assert!(r.items.len() == 2 && r.items.iter().all(Result::is_ok));
        }
        o[free[j]] = old;
    }
    o[free[i]] = old;
    Ok(())
}

fn g06_runs(ch: &mut Ch) -> R {
    // Runs of every length, taken in several ways.
    let b = block(ch, 16383, 16);
    let pal = pal_of(&IDS, 3);
    for n in b.clone().map(|n| n + 1) {
        let extra = n % 4;
        let mut d = vec![1];
        put_code(&mut d, Code::Long(n as u16, 200));
        d.extend(flat(extra, 1));
        let total = 1 + n + extra;
        let (w, h) = if total % 2 == 0 { (total / 2, 2) } else { (1, total) };
        let want = pixels_upto(&pal, w as u16, h as u16, &d, usize::MAX);
        let key = format!("G06.runs:{n}");
        let img = first_image(&image_stream(&pal, w as u16, h as u16, &d)).map_err(|e| Viol { key: key.clone(), msg: e })?;
        let before = n % 7 * (n % 3);
        for how in 0..6 {
            let r = guard(|| {
                let mut it = img.iter();
                let mut got = vec![];
                for _ in 0..before {
                    got.extend(it.next().map(|p| p.0));
                }
                match how {
                    0 => it.fold((), |(), p| got.push(p.0)),
                    1 => it.for_each(|p| got.push(p.0)),
                    2 => got.extend(it.map(|p| p.0)),
                    3 => {
                        // (`try_fold`, then the rest.)
                        let mut k = 0;
                        let _ = it.try_fold((), |(), p| {
                            got.push(p.0);
                            k += 1;
                            if k < n / 2 + 1 { Ok(()) } else { Err(()) }
                        });
                        got.extend(it.map(|p| p.0));
                    }
                    4 => {
                        let mut other = img.iter();
                        (0..before).for_each(|_| drop(other.next()));
                        let k = other.count();
                        got.extend(it.map(|p| p.0));
                        assert_eq!(k, want.len() - before.min(want.len()), "count");
                    }
                    _ => {
                        let _ = it.by_ref().take(n / 3).for_each(|p| got.push(p.0));
                        let _ = it.all(|p| {
                            got.push(p.0);
                            true
                        });
                    }
                }
                got
            });
            if r.as_ref() != Ok(&want) {
                viol!(key, "a run of {n} pixels, {before} pixels one by one, then in way {how}: {:?}, expected {} pixels", r.map(|r| (r.len(), r.iter().zip(&want).position(|(a, b)| a != b))), want.len());
            }
        }
    }
    ch.walk(&[h64(&b.start)]);
    ch.evals(b.len() as u64 * 6);
    ch.validated(b.len() as u64 * 6);
    Ok(())
}
/// What means something to some subtitle format or program.
const MARKS: [&str; 72] = [
    "{\\an8}", "{\\an2}", "{\\b1}", "{\\i1}", "{y:i}", "{Y:b}", "{1}{1}", "{", "}", "\\N", "\\n", "\\h", "\\", "<i>", "</i>", "<b>", "</b>", "<u>", "</u>", "<font color=\"#ffffff\">",
    "</font>", "<v Roger>", "<c.red>", "<00:00:01.000>", "<ruby>", "<br>", "<br/>", "<BR>", "<script>", "&amp;", "&lt;", "&gt;", "&nbsp;", "&lrm;", "&#39;", "&", "NOTE", "NOTE a", "STYLE", "REGION",
    "WEBVTT", "WEBVTT - a", "X-TIMESTAMP-MAP=LOCAL:00:00:00.000,MPEGTS:0", "-->", "--", "- ", "->", "00:00:01,000 --> 00:00:02,000", "00:00:01.000 --> 00:00:02.000", "1", "42", "0", "#", "//", "%", "%s", "{}", "{text}",
    "$1", "\"", "'", "`", "...", "\u{2026}", "\u{266a}", "\u{feff}", "\u{200e}", "\u{202b}", "\u{a0}", "\u{2028}", "\u{fffd}", "\u{e9}e\u{301}",
];

fn marks(ch: &mut Ch, f: usize) -> R {
    // Marks at every place, alone and in pairs, in any case.
    let name = ["S02.marks", "S03.marks"][f];
    let a = *ch.pick(&MARKS);
    let case = ch.choose(3);
    let cased = |s: &str| match case {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s.to_uppercase(),
    };
    let a = cased(a);
    ch.walk(&[h64(&case), h64(&a)]);
    let mut texts = vec![];
    for b in MARKS.iter().map(|b| cased(b)).chain([String::new(), "a".into(), "a b".into()]) {
        for sep in ["", " ", "\n", "\r\n", "\n\n", "x", "\t"] {
            texts.push(format!("{a}{sep}{b}"));
            texts.push(format!("{sep}{a}{b}"));
            texts.push(format!("{b}{a}{sep}"));
            texts.push(format!("{a}{sep}some words{b}"));
            texts.push(format!("some {a}words{sep}{b}\nof two lines"));
            texts.push(format!("a{sep}{a}{sep}{b}{sep}{a}"));
        }
    }
    for t in texts {
        line_of(ch, name, f, &t)?;
    }
    Ok(())
}

fn s02_marks(ch: &mut Ch) -> R {
    marks(ch, 0)
}

fn s03_marks(ch: &mut Ch) -> R {
    marks(ch, 1)
}

/// One text is written.
fn line_of(ch: &mut Ch, name: &str, f: usize, text: &str) -> R {
    let t = p_txt::span(1, 2);
    let mut want = vec![];
    p_txt::cue(&mut want, (f == 0).then_some(1), &t, text, [',', '.'][f]);
    let r = guard(|| {
        let mut o = Vec::with_capacity(64);
        let r = if f == 0 { subtile::srt::write_line(&mut o, 1, &t, text) } else { subtile::webvtt::write_line(&mut o, &t, text) };
        (r, o)
    });
    let k = h64(text);
    p_txt::written(name, k, "write_line", r, &want)?;
    ch.eval(k, true);
    ch.validated(1);
    Ok(())
}

fn ascii(ch: &mut Ch, f: usize) -> R {
    // All texts of up to three (four) characters of ASCII.
    let name = ["S02.ascii", "S03.ascii"][f];
    let mut b = [ch.choose(128) as u8, ch.choose(128) as u8, 0, 0];
    for n in 0..128u8 {
        b[2] = n;
        line_of(ch, name, f, std::str::from_utf8(&b[..3]).expect("ascii"))?;
        if ch.tier == Tier::Thorough && (32..127).contains(&b[0]) && (32..127).contains(&b[1]) && (32..127).contains(&n) {
            for m in 32..127 {
                b[3] = m;
                line_of(ch, name, f, std::str::from_utf8(&b).expect("ascii"))?;
            }
        }
    }
    line_of(ch, name, f, std::str::from_utf8(&b[..2]).expect("ascii"))?;
    ch.walk(&[h64(&b[0]), h64(&b[..2])]);
    Ok(())
}

fn s02_ascii(ch: &mut Ch) -> R {
    ascii(ch, 0)
}

fn s03_ascii(ch: &mut Ch) -> R {
    ascii(ch, 1)
}

fn r01_before(ch: &mut Ch) -> R {
    // The text after anything of one or two bytes, and after what files may start with.
    let magic = [p_idx::IDX_MAGIC, p_idx::SUB_MAGIC][ch.choose(2)];
    let rest = b", v7 (do not modify this line!)\n";
    let k = ch.choose(257);
    let mut before: Vec<Vec<u8>> = vec![];
    if k < 256 {
        before.push(vec![k as u8]);
        before.extend((0..=255).map(|b| vec![k as u8, b]));
    } else {
        for s in [&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\0\0\0", b"\0\0\0\0", b"\r\n\r\n", b"    ", b"PK\x03\x04", b"\x1f\x8b\x08", b"RIFF", b"# ", b"## ", b"// ", b";", b"PG", b"\0\0\x01", b"\0\0\x01\xb9"] {
            for n in 1..4 {
                before.push(s.repeat(n));
            }
        }
        // As other encodings have it.
        let wide: Vec<u8> = magic.iter().flat_map(|b| [*b, 0]).collect();
        p_idx::probe_check(ch, "R01.before", &wide)?;
        p_idx::probe_check(ch, "R01.before", &[&b"\xff\xfe"[..], &wide].concat())?;
        p_idx::probe_check(ch, "R01.before", &wide[1..])?;
        p_idx::probe_check(ch, "R01.before", &[&b"\xfe\xff\0"[..], &wide].concat())?;
        let mut back = magic.to_vec();
        back.reverse();
        p_idx::probe_check(ch, "R01.before", &[&back[..], rest].concat())?;
    }
    for b in before {
        p_idx::probe_check(ch, "R01.before", &[&b[..], magic, rest].concat())?;
    }
    Ok(())
}

fn i01_lines(ch: &mut Ch) -> R {
    // Several lines with palettes, valid and not.
    let p = |k: u32| (0..16).map(|i| format!("{:06x}", i * 0x01_0203 + k * 0x0a_0b0c)).collect::<Vec<_>>().join(", ");
    let mut f = String::new();
    for _ in 0..ch.tier.b(5, 6) {
        match ch.choose(12) {
            0 => break,
            1 => f += &format!("palette: {}\n", p(0)),
            2 => f += &format!("palette: {}\r\n", p(1)),
            3 => f += &format!("palette: {}, 000000\n", p(2)),
            4 => f += &format!("palette: {}\n", &p(3)[8..]),
            5 => f += &format!("palette: {}x\n", p(4)),
            6 => f += "palette: \n",
            7 => f += "palette: 00\n",
            8 => f += &format!("Palette: {}\n", p(5)),
            9 => f += "id: en, index: 0\n",
            10 => f += &format!("#palette: {}\n", p(6)),
            _ => f += &format!(" palette: {}\n", p(7)),
        }
    }
    p_idx::check(ch, "I01.lines", f.as_bytes())?;
    Ok(())
}

fn g03_sizes(ch: &mut Ch) -> R {
    // Objects of every size: in one segment, with a first and with a last fragment of every size.
    let form = ch.choose(5);
    let mut o = vec![];
    let limit = match form {
        0 | 1 => 65525,
        2 | 3 => 65525,
        _ => 65532,
    };
    for (k, n) in block(ch, limit, 16).enumerate() {
        let (t, p) = ((k as u32 + 1) * 9000, pal_of(&IDS, k as u8));
        let d = flat(n + 5, k);
        match form {
            0 => put_sub(&mut o, t, t + 900, &p, n as u16, 1, &d[..n], None),
            1 => put_sub(&mut o, t, t + 900, &p, 1, n as u16, &d[..n], None),
            2 => put_sub(&mut o, t, t + 900, &p, (n / 2 + 3) as u16, 2, &d, Some(n)),
            3 => put_sub(&mut o, t, t + 900, &p, (n / 2 + 3) as u16, 2, &d, Some(5)),
            _ => {
                let d = flat(65524 + n, k);
                put_sub(&mut o, t, t + 900, &p, 1024, 128, &d, Some(65524));
            }
        }
    }
    p_pgs::check(ch, "G03.sizes", &o, true)?;
    Ok(())
}

fn g08_palettes(ch: &mut Ch) -> R {
    // Palette segments of every size, between two subtitles.
    let n = ch.choose(65536);
    if n >= 2 && (n - 2) % 5 == 0 && n > 2 + 5 * 256 {
        return Ok(()); // Ids that occur more than once.
    }
    let mut o = vec![];
    put_sub(&mut o, 900, 1800, &pal_of(&IDS, 1), 2, 1, &[1, 2], None);
    let mut p = vec![1, 2];
    for i in 0..=255u8 {
        p.extend(entry(i, 3));
    }
    p.resize(n, 9);
    put_sub(&mut o, 2700, 3600, &p, 2, 1, &[1, 2], None);
    p_pgs::check(ch, "G08.palettes", &o, true)?;
    Ok(())
}

fn g07_sizes(ch: &mut Ch) -> R {
    // Every width and height.
    let v = sizes(65535, ch.tier.b(2100, 65535), 13);
    let n = *ch.pick(&v) as u16;
    let k = ch.choose(2);
    let (w, h) = if k == 0 { (n, 1) } else { (1, n) };
    // Single pixels at both ends and a run between.
    let mut d = vec![1];
    let mut left = usize::from(n).saturating_sub(2);
    while left > 0 {
        let r = left.min(16383);
        put_code(&mut d, Code::Long(r as u16, 3));
        left -= r;
    }
    if n > 1 {
        d.push(200);
    }
    p_pgs::rendered(ch, "G07.sizes", w, h, &d, &pal_of(&IDS, 5), &[3], (60, 20))
}

/// All borders: 0 to 1100 (2100).
fn border(ch: &mut Ch) -> u32 {
    if ch.tier == Tier::Quick && ch.flag() {
        return *ch.pick(&[639, 640, 719, 720, 767, 768, 999, 1000, 1001, 1023, 1024, 1025, 1279, 1280, 2047, 2048, 2049]);
    }
    ch.choose(ch.tier.b(1101, 2101)) as u32
}

fn g07_borders(ch: &mut Ch) -> R {
    let b = border(ch);
    let img = first_image(&image_stream(&pal_of(&IDS, 5), 3, 2, &[1, 2, 3, 3, 1, 2])).map_err(|e| Viol { key: format!("G07.borders:{b}"), msg: e })?;
    let opt = ToOcrImageOpt { border: b, text_color: Luma([9]), background_color: Luma([200]) };
    let px: Vec<u8> = [1u8, 2, 3, 3, 1, 2].iter().map(|c| entry(*c, 5)[1]).collect();
    let g = match guard(|| RleToImage::new(&img, |p: LumaA<u8>| Luma([p.0[0]])).image(&opt)) {
        Ok(g) => g,
        Err(e) => viol!(format!("G07.borders:{b}"), "border {b}: panics: {e}"),
    };
    bordered(ch, "G07.borders", &g, b, (3, 2), 200, &px)
}
/// The picture has a border of `b` and inside it `px`.
fn bordered(ch: &mut Ch, h: &str, g: &ImageBuffer<Luma<u8>, Vec<u8>>, b: u32, dim: (u32, u32), back: u8, px: &[u8]) -> R {
    let (w, h2) = (dim.0 + 2 * b, dim.1 + 2 * b);
    if g.dimensions() != (w, h2) {
        viol!(format!("{h}:{b}"), "border {b}: the picture is {:?}", g.dimensions());
    }
    let raw = g.as_raw();
    let (b, w, iw) = (b as usize, w as usize, dim.0 as usize);
    for (y, line) in raw.chunks(w).enumerate() {
        let inside = y >= b && y < b + dim.1 as usize;
        let ok = if inside {
            line[..b].iter().all(|p| *p == back) && line[b + iw..].iter().all(|p| *p == back) && line[b..b + iw] == px[(y - b) * iw..(y - b + 1) * iw]
        } else {
            line.iter().all(|p| *p == back)
        };
        if !ok {
            viol!(format!("{h}:{b}"), "border {b}: line {y} is {:?}", &line[..line.len().min(60)]);
        }
    }
    ch.walk(&[h64(&b)]);
    ch.eval(h64(&b), true);
    ch.validated(1);
    Ok(())
}

fn g12_lengths(ch: &mut Ch) -> R {
    // Reads and skips of every length, after some bytes.
    let how = ch.choose(3);
    let before = *ch.pick(&[0usize, 1, 50]);
    let dense: usize = ch.tier.b(66_000, 300_000);
    let nb = dense.div_ceil(64);
    let far: Vec<usize> = special(9_000_000).iter().map(|x| *x as usize).filter(|x| *x > dense).collect();
    let k = ch.choose(nb + far.len());
    let b = if k < nb { k * 64..((k + 1) * 64).min(dense) } else { far[k - nb]..far[k - nb] + 1 };
    let src: Vec<u8> = (0..b.end + 200).map(|i| (i % 251) as u8 ^ (i >> 8) as u8).collect();
    fn go<R: BufRead + Seek>(mut r: R, src: &[u8], before: usize, n: usize) -> Result<(), String> {
        let mut x = vec![0; before];
        r.read_exact(&mut x).map_err(|e| format!("reading {before} bytes: {e:?}"))?;
        r.skip_data(n).map_err(|e| format!("skipping {n} bytes: {e:?}"))?;
        let mut y = [0; 3];
        r.read_exact(&mut y).map_err(|e| format!("reading after a skip of {n}: {e:?}"))?;
        if y != src[before + n..before + n + 3] {
            return Err(format!("after a skip of {n}, the next bytes are {y:?}, expected {:?}", &src[before + n..before + n + 3]));
        }
        r.seek(io::SeekFrom::Start(before as u64)).map_err(|e| e.to_string())?;
        let mut z = vec![0; n];
        ReadExt::read_buffer(&mut r, &mut z).map_err(|e| format!("reading {n} bytes: {e:?}"))?;
        if z[..] != src[before..before + n] {
            return Err(format!("the {n} bytes read are not those of the source"));
        }
        r.read_exact(&mut y).map_err(|e| format!("reading after a read of {n}: {e:?}"))?;
        if y != src[before + n..before + n + 3] {
            return Err(format!("after a read of {n}, the next bytes are {y:?}"));
        }
        // Some of the bytes are missing.
        for k in [1, n / 2, n] {
            if k == 0 || n == 0 {
                continue;
            }
            r.seek(io::SeekFrom::Start((src.len() + k - n) as u64)).map_err(|e| e.to_string())?;
            match ReadExt::read_buffer(&mut r, &mut z) {
                Err(ReadError::FailedReadBuffer { source, buffer_size }) if buffer_size == n && source.kind() == io::ErrorKind::UnexpectedEof => {}
                o => return Err(format!("reading {n} bytes of which {k} are missing: {o:?}")),
            }
        }
        Ok(())
    }
    for n in b.clone() {
        let c = Cursor::new(&src[..]);
        let r = guard(|| match how {
            0 => go(c, &src, before, n),
            1 => go(BufReader::with_capacity(100, c), &src, before, n),
            _ => go(BufReader::new(c), &src, before, n),
        });
        if !matches!(r, Ok(Ok(()))) {
            viol!(format!("G12.lengths:{how}:{before}:{n}"), "reader {how}: {r:?}");
        }
    }
    ch.walk(&[h64(&(how, before, b.start))]);
    ch.evals(b.len() as u64);
    ch.validated(b.len() as u64);
    Ok(())
}

fn g03_lengths(ch: &mut Ch) -> R {
    // Every declared length of an object, of which there are two fragments.
    let q = ch.tier.b(256, 8);
    let blocks = (1 << 13) / q;
    let k = ch.choose(blocks + 1);
    let some = if k == blocks { special((1 << 24) - 1) } else { vec![] };
    for i in 0..if k == blocks { some.len() } else { 2048 } {
        // (One of `q`.)
        let n = if k == blocks { some[i] as usize } else { (k * 2048 + i) * q + (k * 7 + i) % q } as u32;
        let mut o = vec![];
        seg(&mut o, 900, 0, 0x14, &pal_of(&IDS, 1));
        seg(&mut o, 900, 0, 0x15, &ods_head(0x80, n, 3, 2, &flat(4, 1)));
        seg(&mut o, 900, 0, 0x15, &ods_last(&[3, 200]));
        seg(&mut o, 900, 0, 0x80, &[]);
        seg(&mut o, 1800, 0, 0x80, &[]);
        let want = preference(&o);
        let got = pread(&o);
        if let Err(e) = pagree(&want, &got) {
            viol!(format!("G03.lengths:{n}"), "an object of declared length {n}: {e}; stream {}", hex(&o));
        }
        if i == 0 {
            ch.walk(&want.trace);
            ch.walk(&[h64(&n)]);
        }
    }
    ch.evals(2048);
    ch.validated(2048);
    Ok(())
}

fn g06_pairs(ch: &mut Ch) -> R {
    // Every width with every height.
    let m = ch.tier.b(160, 700);
    let w = ch.range(1, m) as u16;
    let pal = pal_of(&IDS, 3);
    for h in 1..=m as u16 {
        let n = usize::from(w) * usize::from(h);
        // Too short, exact or too long, in runs and single pixels.
        let k = (usize::from(w) + usize::from(h) * 5) % 7;
        let mut d = vec![1];
        let mut left = (n - 1).saturating_sub(k % 3);
        while left > 0 {
            let r = left.min(63 + k * 100);
            put_code(&mut d, Code::Long(r as u16, IDS[1 + left % 5]));
            left -= r;
        }
        if k % 2 == 1 {
            d.extend([200, 2, 3]);
        }
        let want = pixels_upto(&pal, w, h, &d, usize::MAX);
        let img = first_image(&image_stream(&pal, w, h, &d)).map_err(|e| Viol { key: format!("G06.pairs:{w}x{h}"), msg: e })?;
        let r = guard(|| {
            let it = img.iter();
            let len = it.len();
            let mut skip = img.iter();
            let half = skip.nth(n / 2).map(|p| p.0);
            (len, it.map(|p| p.0).collect::<Vec<_>>(), half, skip.len(), img.iter().count(), img.iter().last().map(|p| p.0))
        });
        let exp = (n, want.clone(), want.get(n / 2).copied(), n - n / 2 - 1, n, want.last().copied());
        if r.as_ref() != Ok(&exp) {
            viol!(format!("G06.pairs:{w}x{h}"), "{w}x{h}: {:?}", r.map(|r| (r.0, r.1.len(), r.1.iter().zip(&want).position(|(a, b)| a != b), r.2, r.3, r.4, r.5)));
        }
    }
    ch.walk(&[h64(&w)]);
    ch.evals(m as u64);
    ch.validated(m as u64);
    Ok(())
}

// ================================================================ VobSub

fn v01_lengths(ch: &mut Ch) -> R {
    // Subtitles of every size.
    let chunk = *ch.pick(&[65000usize, 2028]);
    let b = block(ch, 65536 - 64, 16);
    let mut o = vec![];
    for (k, n) in b.enumerate() {
        let (pts, d) = sized_at(n + 64, 90_000 * (k as u64 + 1));
        let mut p = Pack { pts: Some(pts), ..Pack::default() };
        for c in d.chunks(chunk) {
            p.put(&mut o, c);
            p.pts = None;
        }
    }
    let r = p_vob::check(ch, "V01.lengths", &o, true)?;
    assert!(r.items.iter().all(Result::is_ok));
    Ok(())
}
fn sized_at(n: usize, pts: u64) -> (u64, Vec<u8>) {
    p_vob::sized(n, pts)
}

fn v01_packets(ch: &mut Ch) -> R {
    // A subtitle in every number of packets.
    let n = ch.tier.b(700, 2100);
    let k = ch.range(1, n - 4);
    let (pts, d) = p_vob::sized(n, 180_000);
    let at_end = ch.flag();
    let mut o = vec![];
    let mut p = Pack { pts: Some(pts), ..Pack::default() };
    let first = if at_end { n - (k - 1) } else { 4 };
    p.put(&mut o, &d[..first]);
    p.pts = None;
    let mut at = first;
    for i in 1..k {
        let m = if at_end || i + 1 < k { 1 } else { n - at };
        p.put(&mut o, &d[at..at + m]);
        at += m;
    }
    if at < n {
        // (One packet, which is the first.)
        p.put(&mut o, &d[at..]);
    }
    let t = p_vob::three();
    put_simple(&mut o, t[1].0, &t[1].1);
    let r = p_vob::check(ch, "V01.packets", &o, true)?;
    assert!(r.items.len() == 2 && r.items.iter().all(Result::is_ok));
    Ok(())
}

/// A file of two subtitles in three packets each, and the bits of it that mean nothing.
fn vob_with_ignored(stuff: u8, hstuff: usize) -> (Vec<u8>, Vec<(usize, u8)>) {
    let mut o = vec![];
    let mut free: Vec<(usize, u8)> = vec![];
    let mut put = |o: &mut Vec<u8>, p: &Pack, d: &[u8], skip: &[usize]| {
        let p = Pack { stuff, hstuff, scr: (1 << 33) - 1, ext: 511, rate: (1 << 22) - 1, flags: 0x3f, hdr: 0xbf, ..p.clone() };
        let at = o.len();
        p.put(o, d);
        // (Only the marks of the pack header mean something.)
        for (k, m) in [0x3b, 0xff, 0xfb, 0xff, 0xfb, 0xfe, 0xff, 0xff, 0xfc, 0xf8].into_iter().enumerate() {
            free.push((at + 4 + k, m));
        }
        let mut x = at + 14;
        free.extend((x..x + usize::from(stuff)).map(|k| (k, 0xff)));
        x += usize::from(stuff) + 6;
        free.extend([(x, 0x3f), (x + 1, 0x3f)]);
        x += 3;
        if p.pts.is_some() {
            x += 5;
        }
        if p.dts.is_some() {
            free.extend([(x, 0x0e), (x + 1, 0xff), (x + 2, 0xfe), (x + 3, 0xff), (x + 4, 0xfe)]);
            x += 5;
        }
        free.extend((x..x + hstuff).map(|k| (k, 0xff)));
        x += hstuff + 1;
        free.extend(skip.iter().map(|k| (x + k, 0xff)));
    };
    for k in 0..2u64 {
        // Image data with bytes of no image around it, control sequences with bytes between them.
        let px = if k == 0 { [0, 1, 2, 3, 3, 2, 1, 0] } else { [3, 3, 0, 1, 1, 2, 2, 2] };
        let (d, f) = encode(4, &px, false, k == 0);
        let data = [&[0xaa, 0xbb][..], &d].concat();
        let mut cmds = std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), (f.0 + 2, f.1 + 2));
        cmds.insert(k as usize * 2, Cmd::Force);
        let mut s = [Seq::new(k as u16, cmds), Seq::new(150, vec![Cmd::Stop])];
        s[0].gap = vec![0x77, 0x33];
        s[1].gap = vec![0x55, 0x22];
        let sub = spu(&data, &s);
        let n = sub.len();
        let end = 4 + data.len() + s[0].len();
        let no_image = [4, 5, end - 2, end - 1, n - 2, n - 1];
        let (a, b) = (7 + k as usize * 2, end + 1);
        let more = [&sub[b..], &[1, 2, 3]].concat();
        let within = |from: usize, to: usize| -> Vec<usize> { no_image.iter().filter(|x| (from..to).contains(*x)).map(|x| x - from).collect() };
        let none = Pack::default();
        put(&mut o, &Pack { pts: Some(1000 + 90000 * k), dts: (k == 1).then_some(700), ..none.clone() }, &sub[..a], &within(0, a));
        put(&mut o, &Pack { id: 0x21, pts: (k == 0).then_some((1 << 33) - 1), ..none.clone() }, &[0xcc; 5], &[0, 1, 2, 3, 4]);
        put(&mut o, &Pack { pts: (k == 0).then_some(5), ..none.clone() }, &sub[a..b], &within(a, b));
        let mut w = within(b, n);
        w.extend([n - b, n - b + 1, n - b + 2]);
        put(&mut o, &none, &more, &w);
    }
    (o, free)
}

fn v01_ignored(ch: &mut Ch) -> R {
    // Every value of each byte that means nothing.
    let (mut o, free) = vob_with_ignored(*ch.pick(&[0u8, 1, 3, 7]), *ch.pick(&[0usize, 1, 6]));
    let want = reference(&o).items;
    assert!(want.len() == 2 && want.iter().all(Result::is_ok));
    let (at, mask) = *ch.pick(&free);
    let old = o[at];
    for v in 0..=255u8 {
        if v & !mask == 0 {
            o[at] = old & !mask | v;
            p_vob::check_items(ch, "V01.ignored", &o, &want)?;
        }
    }
    ch.walk(&[h64(&at), h64(&(at, mask))]);
    Ok(())
}

fn v01_ignored2(ch: &mut Ch) -> R {
    // Some values of each pair of them.
    let (mut o, free) = vob_with_ignored(*ch.pick(ch.tier.b(&[3u8][..], &[3, 7])), 6);
    let want = reference(&o).items;
    let vals = ch.tier.b(&[1u8, 0x40, 0x80, 0xba, 0][..], &[1, 2, 0x40, 0x80, 0xba, 0xbd, 0]);
    let i = ch.choose(free.len());
    let v = *ch.pick(vals);
    let put = |o: &mut Vec<u8>, k: usize, v: u8| {
        let (at, mask) = free[k];
        o[at] = o[at] & !mask | v & mask;
    };
    put(&mut o, i, v);
    for j in i + 1..free.len() {
        let old = o[free[j].0];
        for w in vals {
            put(&mut o, j, *w);
            p_vob::check_items(ch, "V01.ignored2", &o, &want)?;
        }
        o[free[j].0] = old;
    }
    ch.walk(&[h64(&i), h64(&(i, v))]);
    Ok(())
}

fn v01_rates(ch: &mut Ch) -> R {
    // Every bit rate of the pack header.
    let t = p_vob::three();
    let b = block(ch, 1 << 22, 1024);
    let mut o = vec![];
    for r in b {
        Pack { rate: r as u32, pts: Some(t[1].0), ..Pack::default() }.put(&mut o, &t[1].1);
    }
    p_vob::check(ch, "V01.rates", &o, true)?;
    Ok(())
}

fn small() -> (Vec<u8>, (u16, u16)) {
    encode(4, &[0, 1, 1, 2, 3, 3, 3, 0], false, true)
}

fn v02_next(ch: &mut Ch) -> R {
    // The second sequence at every distance.
    let (d, r) = small();
    let cmds = std_cmds([1, 2, 3, 4], [5, 6, 7, 8], (1, 4, 2, 3), r);
    let base = spu(&d, &[Seq::new(0, cmds.clone()), Seq::new(100, vec![Cmd::Stop])]).len();
    let later = ch.flag();
    let mut o = vec![];
    for (k, g) in block(ch, 65536 - base, 16).enumerate() {
        // All commands in the second sequence, or all in the first.
        let (a, b) = if later { (vec![Cmd::Stop], cmds.clone()) } else { (cmds.clone(), vec![Cmd::Stop]) };
        let s = [Seq { gap: vec![0x11 * (1 + k as u8 % 15); g], ..Seq::new(5, a) }, Seq::new(100, b)];
        put_simple(&mut o, 90_000 * (k as u64 + 1), &spu(&d, &s));
    }
    let r = p_vob::check(ch, "V02.next", &o, true)?;
    assert!(r.items.iter().all(Result::is_ok));
    Ok(())
}

fn v03_offsets(ch: &mut Ch) -> R {
    // The second field, or both, at every place.
    let px: Vec<u8> = (0..12).map(|i| (i * 7 / 3 % 4) as u8).collect();
    let (d, r) = encode(4, &px, false, true);
    let l0 = usize::from(r.1 - r.0);
    let both = ch.flag();
    let mut o = vec![];
    for (k, g) in block(ch, 65460, 16).enumerate() {
        let fill = vec![0x13 + k as u8; g];
        let (data, rle) = if both {
            ([&fill[..], &d].concat(), (r.0 + g as u16, r.1 + g as u16))
        } else {
            ([&d[..l0], &fill, &d[l0..]].concat(), (r.0, r.1 + g as u16))
        };
        p_vob::put_image(&mut o, 4, 3, &data, rle);
    }
    let r = p_vob::check(ch, "V03.offsets", &o, true)?;
    assert!(r.items.iter().all(Result::is_ok));
    Ok(())
}

fn v03_lines(ch: &mut Ch) -> R {
    // Lines of every number of codes, of every length of code.
    let form = ch.choose(6);
    let long = form >= 3;
    let b = block(ch, 4088, 8);
    let mut o = vec![];
    for w in b.map(|w| w + 2) {
        // Runs as long as possible in codes of one, two or three nibbles, or single pixels in the longest form.
        let r = if long { [1, 5, 17][form - 3] } else { [3, 15, 63][form] };
        let line = |y: usize| (0..w).map(move |x| ((x / r + y * 3 + x / r / 3) % 4) as u8);
        let n = if w % 3 == 0 { 3 } else { 2 };
        let px: Vec<u8> = (0..n).flat_map(line).collect();
        let (d, rle) = encode(w, &px, long, w % 2 == 0);
        p_vob::put_image(&mut o, w, n, &d, rle);
    }
    let r = p_vob::check(ch, "V03.lines", &o, true)?;
    assert!(r.items.iter().all(Result::is_ok));
    Ok(())
}

fn g04_many(ch: &mut Ch) -> R {
    // Objects of every number of codes, of every form, and of every width.
    let form = ch.choose(5);
    let mut o = vec![];
    for (k, w) in block(ch, ch.tier.b(4200, 65000), 16).enumerate() {
        let w = w + 1;
        let d: Vec<u8> = (0..w)
            .flat_map(|x| {
                let mut v = vec![];
                let c = IDS[(x + x / 5) % IDS.len()].max(1);
                match form {
                    0 => v.push(c),
                    1 => put_code(&mut v, Code::Long(1, c)),
                    2 => v.extend([0, 1]),
                    3 => v.extend([0, 0x81, c]),
                    _ if x % 3 == 1 => v.extend([0, 0]),
                    _ => v.push(c),
                }
                v
            })
            .collect();
        if d.len() > 65000 {
            continue;
        }
        let t = (k as u32 + 1) * 9000;
        put_sub(&mut o, t, t + 900, &pal_of(&IDS, k as u8), w as u16, 1, &d, None);
    }
    p_pgs::check(ch, "G04.many", &o, true)?;
    Ok(())
}

fn v04_seconds(ch: &mut Ch) -> R {
    // Every second of the clock, at some phases; thorough: every millisecond.
    let (d, r) = small();
    let cmds = std_cmds([1, 2, 3, 4], [5, 6, 7, 8], (1, 4, 2, 3), r);
    let mut o = vec![];
    if ch.tier == Tier::Quick {
        let date = *ch.pick(&[(0u16, None), (1, Some(99u16)), (100, None), (65535, Some(0))]);
        let phase = *ch.pick(&[0u64, 1, 45_000, 89_999]);
        let b = block(ch, 95_443, 256);
        for s in b {
            put_timed(&mut o, s as u64 * 90_000 + phase, &d, &cmds, date);
        }
    } else {
        let b = block(ch, 95_443_717, 4096);
        for m in b {
            let p = (m as u64 * 90 + [0, 89][m % 2]).min((1 << 33) - 1);
            put_timed(&mut o, p, &d, &cmds, (m as u16 % 7 * 50, None));
        }
    }
    let got = read(&o);
    let want = reference(&o);
    if let Err(e) = agree_all(&want.items, &got) {
        viol!(format!("V04.seconds:{:016x}", h64(&o)), "{e}");
    }
    ch.walk(&[h64(&o)]);
    ch.evals(want.items.len() as u64);
    ch.validated(want.items.len() as u64);
    Ok(())
}
fn put_timed(o: &mut Vec<u8>, pts: u64, d: &[u8], cmds: &[Cmd], date: (u16, Option<u16>)) {
    let mut s = vec![Seq::new(date.0, cmds.to_vec())];
    if let Some(e) = date.1 {
        s.push(Seq::new(e, vec![Cmd::Stop]));
    }
    put_simple(o, pts, &spu(d, &s));
}

fn v07_sizes(ch: &mut Ch) -> R {
    // Every width and height.
    let v = sizes(65534, ch.tier.b(4200, 65534), 7);
    let b = block(ch, v.len(), 8);
    let wide = ch.flag();
    let palette: [u16; 16] = std::array::from_fn(|i| i as u16 * 16 + 3);
    let (pal, alpha) = ([1u8, 15, 0, 7], [3u8, 0, 15, 9]);
    for n in v[b.clone()].iter().map(|n| n + 1) {
        let (w, h) = if wide { (n, 2) } else { (2, n) };
        let raw: Vec<u8> = (0..2 * n).map(|i| ((i * i / 3 + i / w) % 4) as u8).collect();
        let img = VobSubIndexedImage::new(p_vob::area(0, 0, w, h)?, pal, alpha, raw.clone());
        let a = match guard(|| VobSubToImage::new(&img, &palette, p_vob::conv_luma_a).to_image()) {
            Ok(a) => a,
            Err(e) => viol!(format!("V07.sizes:{w}x{h}"), "rendering {w}x{h} panics: {e}"),
        };
        let ok = a.dimensions() == (w as u32, h as u32)
            && a.as_raw().chunks(2).zip(&raw).all(|(g, p)| g == [palette[usize::from(pal[usize::from(*p)])] as u8, alpha[usize::from(*p)]]);
        if !ok {
            viol!(format!("V07.sizes:{w}x{h}"), "rendering {w}x{h} gives other pixels, or {:?}", a.dimensions());
        }
    }
    ch.walk(&[h64(&(wide, b.start))]);
    ch.evals(b.len() as u64);
    ch.validated(b.len() as u64);
    Ok(())
}

fn v08_sizes(ch: &mut Ch) -> R {
    let v = sizes(65534, ch.tier.b(2100, 65534), 13);
    let n = *ch.pick(&v) + 1;
    let (w, h) = if ch.flag() { (n, 2) } else { (2, n) };
    let raw: Vec<u8> = (0..2 * n).map(|i| ((i * i / 3 + i / w) % 4) as u8).collect();
    let (pal, alpha) = ([1u8, 15, 0, 7], [3u8, 0, 15, 9]);
    let img = VobSubIndexedImage::new(p_vob::area(0, 0, w, h)?, pal, alpha, raw.clone());
    let lum: [u8; 16] = std::array::from_fn(|i| if i == 7 { 0 } else { i as u8 });
    p_vob::v08_case(ch, "V08.sizes", &img, w, h, pal, alpha, &raw, lum, ToOcrImageOpt { border: 2, text_color: Luma([3]), background_color: Luma([250]) })
}

fn v08_borders(ch: &mut Ch) -> R {
    let b = border(ch);
    let raw = vec![0u8, 1, 2, 3, 3, 0];
    let img = VobSubIndexedImage::new(p_vob::area(5, 5, 3, 2)?, [1, 2, 3, 4], [15, 15, 0, 1], raw.clone());
    let lum: [u8; 16] = std::array::from_fn(|i| if i == 2 { 0 } else { 9 });
    let opt = ToOcrImageOpt { border: b, text_color: Luma([9]), background_color: Luma([200]) };
    let palette = lum.map(|l| Luma([l]));
    let g = match guard(|| subtile::vobsub::VobSubOcrImage::new(&img, &palette).image(&opt)) {
        Ok(g) => g,
        Err(e) => viol!(format!("V08.borders:{b}"), "border {b}: panics: {e}"),
    };
    bordered(ch, "V08.borders", &g, b, (3, 2), 200, &[9, 200, 200, 9, 9, 9])
}

// ================================================================ text, images

fn s02_numbers(ch: &mut Ch) -> R {
    // Every number.
    let some = special(u64::MAX);
    let k = ch.choose(ch.tier.b(256, 32768) + 1);
    let b: Vec<usize> = if k == 0 { some.iter().map(|n| *n as usize).collect() } else { ((k - 1) * 4096..k * 4096).collect() };
    let t = p_txt::span(1_234, 59_999);
    for n in b.iter().copied() {
        let mut o = Vec::with_capacity(64);
        let r = guard(|| subtile::srt::write_line(&mut o, n, &t, "x"));
        let want = format!("{n}\n00:00:01,234 --> 00:00:59,999\nx\n\n");
        if !matches!(r, Ok(Ok(()))) || o != want.as_bytes() {
            viol!(format!("S02.numbers:{n}"), "line {n}: {r:?}, written {:?}", String::from_utf8_lossy(&o));
        }
    }
    ch.walk(&[h64(&b[0])]);
    ch.evals(b.len() as u64);
    ch.validated(b.len() as u64);
    Ok(())
}

/// Texts of every length.
fn lengths(ch: &mut Ch, h: &str, srt: bool) -> R {
    let b = block(ch, ch.tier.b(66_000, 300_000), 32);
    let t = p_txt::span(1_234, 59_999);
    let all: Vec<u8> = (0..b.end).map(|i| b"abcdefghijklmnopqrstuvw xyz\n-->"[i % 31]).collect();
    for n in b.clone() {
        let s = std::str::from_utf8(&all[..n]).expect("ASCII");
        let mut want = vec![];
        let mut o = vec![];
        let subs = [(t, s.to_owned()), (t, "y".to_owned())];
        let r = guard(|| {
            if srt {
                subtile::srt::write_srt(&mut o, &subs)
            } else {
                subtile::webvtt::write_line(&mut o, &t, s)
            }
        });
        p_txt::cue(&mut want, srt.then_some(1), &t, s, if srt { ',' } else { '.' });
        if srt {
            p_txt::cue(&mut want, Some(2), &t, "y", ',');
        }
        if !matches!(r, Ok(Ok(()))) || o != want {
            viol!(format!("{h}:{n}"), "a text of {n} bytes: {r:?}, {} bytes written, expected {}", o.len(), want.len());
        }
    }
    ch.walk(&[h64(&b.start)]);
    ch.evals(b.len() as u64);
    ch.validated(b.len() as u64);
    Ok(())
}
fn s02_lengths(ch: &mut Ch) -> R {
    lengths(ch, "S02.lengths", true)
}
fn s03_lengths(ch: &mut Ch) -> R {
    lengths(ch, "S03.lengths", false)
}

/// Every character.
fn chars(ch: &mut Ch, h: &str, srt: bool) -> R {
    let b = block(ch, 0x11_0000, 1024);
    let t = p_txt::span(-1_234, 59_999);
    let mut n = 0;
    for c in b.clone().filter_map(|c| char::from_u32(c as u32)) {
        for s in [format!("{c}"), format!("a{c}\n{c}{c}")] {
            let mut want = vec![];
            let mut o = vec![];
            let r = guard(|| if srt { subtile::srt::write_line(&mut o, 7, &t, &s) } else { subtile::webvtt::write_line(&mut o, &t, &s) });
            p_txt::cue(&mut want, srt.then_some(7), &t, &s, if srt { ',' } else { '.' });
            if !matches!(r, Ok(Ok(()))) || o != want {
                viol!(format!("{h}:{:x}", c as u32), "the text {s:?}: {r:?}, written {:?}", String::from_utf8_lossy(&o));
            }
            n += 1;
        }
    }
    ch.walk(&[h64(&b.start)]);
    ch.evals(n);
    ch.validated(n);
    Ok(())
}
fn s02_chars(ch: &mut Ch) -> R {
    chars(ch, "S02.chars", true)
}
fn s03_chars(ch: &mut Ch) -> R {
    chars(ch, "S03.chars", false)
}

fn i02_scalars(ch: &mut Ch) -> R {
    // Every character, in lines that do not matter and in those that do.
    let b = block(ch, 0x11_0000, 256);
    for c in b.filter_map(|c| char::from_u32(c as u32)) {
        if c == '\n' || c == '\r' {
            continue;
        }
        let p = "palette: 000001, 000002, 000003, 000004, 000005, 000006, 000007, 000008, 000009, 00000a, 00000b, 00000c, 00000d, 00000e, 00000f, 000010";
        p_idx::check(ch, "I02.scalars", format!("# x{c}x\n{c}\n{p}\nx: {c}x\nid: en, index: {c}0\n{c}id: fr, index: 1\nid{c}: de, index: 2\n{c}").as_bytes())?;
        p_idx::check(ch, "I02.scalars", format!("{p}\nid: en, index: 0\nid: e{c}, index: 1\n").as_bytes())?;
        p_idx::check(ch, "I02.scalars", format!("id: en, index: 0\nid: {c}n, index: 1\n").as_bytes())?;
    }
    Ok(())
}

fn i02_numbers(ch: &mut Ch) -> R {
    // Every index, and languages, comments and foreign lines of every length.
    let k = ch.choose(4);
    let b = block(ch, ch.tier.b(20_000, 200_000), 64);
    for n in b {
        let f = match k {
            0 => format!("id: en, index: {n}\nalt: x\n"),
            1 => format!("id: {}, index: 0\n", "abcdefghijklmnopqrstuvwxyz".repeat(n / 26 + 1).split_at(n).0),
            2 => format!("id: fr, index: 1\n#{}\nid: de, index: 0\n", "x".repeat(n)),
            _ => format!("id: fr, index: 1\n{}: id: en, index: 0\n{}", "key ".repeat(n / 4 + 1).split_at(n).0, "\n".repeat(n % 300)),
        };
        p_idx::check(ch, "I02.numbers", f.as_bytes())?;
    }
    Ok(())
}

fn r01_lengths(ch: &mut Ch) -> R {
    // Files of every length.
    let v = sizes(66_000, ch.tier.b(2000, 20_000), 61);
    let n = *ch.pick(&v);
    let m = *ch.pick(&[p_idx::IDX_MAGIC, p_idx::SUB_MAGIC, b"# VobSub index fil\xe9", b"\0\0\x01\xbb"]);
    let mut f = m.to_vec();
    f.resize(m.len() + n - 1, b'\n');
    p_idx::probe_check(ch, "R01.lengths", &f)
}

fn m02_shapes(ch: &mut Ch) -> R {
    // Images of all small sizes, and long ones.
    let (w, h) = match ch.choose(2) {
        0 => (ch.range(1, 33) as u32, ch.range(1, 33) as u32),
        _ => {
            let n = *ch.pick(&[63u32, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 719, 720, 1023, 1024, 1025, 1920, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536]);
            let m = *ch.pick(&[1u32, 2, 3]);
            if ch.flag() { (n, m) } else { (m, n) }
        }
    };
    let a = ImageBuffer::from_fn(w, h, |x, y| Luma([(x * 7 + y * 13 + x * y) as u8]));
    let dir = scratch().with_extension("m02shapes");
    let _ = std::fs::remove_dir_all(&dir);
    let path = dir.to_str().expect("path").to_owned();
    let r = guard(|| dump_images(&path, [&a, &a]).map_err(|e| format!("{e:?}")));
    let back: Vec<_> = (0..2).map(|i| image::open(dir.join(format!("{i:06}.png"))).map(|i| i.into_luma8()).map_err(|e| e.to_string())).collect();
    let n = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
    let _ = std::fs::remove_dir_all(&dir);
    if !matches!(r, Ok(Ok(()))) || n != 2 || back.iter().any(|b| b.as_ref() != Ok(&a)) {
        viol!(format!("M02.shapes:{w}x{h}"), "two images of {w}x{h}: {r:?}, {n} files, same pixels: {:?}", back.iter().map(|b| b.as_ref().map(|b| *b == a)).collect::<Vec<_>>());
    }
    ch.walk(&[h64(&(w, h))]);
    ch.eval(h64(&(w, h)), true);
    ch.validated(1);
    Ok(())
}

fn v07_equal(ch: &mut Ch) -> R {
    // Images are equal if they show the same, and only then.
    let (w, h) = *ch.pick(&[(2usize, 2usize), (2, 3), (3, 2), (6, 4), (64, 48), (300, 7)]);
    let raw: Vec<u8> = (0..w * h).map(|i| ((i * 7 + i / w) % 4) as u8).collect();
    let (x, y) = *ch.pick(&[(0u16, 0u16), (7, 300), (65000, 60000)]);
    let (pal, alpha) = ([3u8, 0, 15, 7], [9u8, 15, 0, 1]);
    let mk = |x, y, w, h, p, a, r: &[u8]| p_vob::area(x, y, w, h).map(|q| VobSubIndexedImage::new(q, p, a, r.to_vec()));
    let a = mk(x, y, w, h, pal, alpha, &raw)?;
    let (mut p, mut q, mut r, mut at, mut size) = (pal, alpha, raw.clone(), (x, y), (w, h));
    let (k, n) = match ch.choose(5) {
        0 => {
            let (i, v) = (ch.choose(4), ch.choose(256) as u8);
            p[i] = v;
            (i, u16::from(v))
        }
        1 => {
            let (i, v) = (ch.choose(4), ch.choose(256) as u8);
            q[i] = v;
            (i, u16::from(v))
        }
        2 => {
            let (i, v) = (ch.choose(raw.len()), ch.choose(4) as u8);
            r[i] = v;
            (i, u16::from(v))
        }
        3 => {
            let d = *ch.pick(&[0u16, 1, 2, 5, 100, 200, 256, 512]);
            let i = ch.choose(2);
            if i == 0 { at.0 += d } else { at.1 += d }
            (i, d)
        }
        _ => {
            // The same pixels in another shape.
            let v: Vec<usize> = (2..=w * h / 2).filter(|d| (w * h) % d == 0).collect();
            let d = *ch.pick(&v);
            size = (d, w * h / d);
            (0, d as u16)
        }
    };
    if usize::from(at.0) + size.0 > 65536 || usize::from(at.1) + size.1 > 65536 {
        return Ok(());
    }
    let b = mk(at.0, at.1, size.0, size.1, p, q, &r)?;
    let same = p == pal && q == alpha && r == raw && at == (x, y) && size == (w, h);
    let key = format!("V07.equal:{w}x{h}:{x},{y}:{k}:{n}:{same}");
    let got = guard(|| {
        let c = b.clone();
        (a == b, b == a, a != b, b == c, c == a, format!("{a:?}").is_empty(), a == a.clone())
    });
    if got != Ok((same, same, !same, true, same, false, true)) {
        viol!(key, "{a:?} {:?} and {b:?} {:?}: {got:?}, the same: {same}", a.raw_image(), b.raw_image());
    }
    ch.walk(&[h64(&(w, h, x)), h64(&(w, h, x, same))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}

macro_rules! h {
    ($p:literal $n:literal $f:ident $w:literal) => {
        Harness { prop: $p, name: $n, what: $w, devs: (0, 0), serial: false, run: $f }
    };
}
pub const H: &[Harness] = &[
    h!("V01" "V01.lengths" v01_lengths "subtitles of every size x 2 packet sizes"),
    h!("V01" "V01.packets" v01_packets "a subtitle in every number of packets up to 696 (2096)"),
    h!("V01" "V01.rates" v01_rates "every bit rate of a pack header"),
    h!("V01" "V01.ignored" v01_ignored "every value of all that means nothing in packets of 2 subtitles"),
    h!("V01" "V01.ignored2" v01_ignored2 "5 (7) values of each pair of them"),
    h!("V02" "V02.next" v02_next "the second sequence at every distance"),
    h!("V03" "V03.offsets" v03_offsets "the second image field, or both, at every place"),
    h!("V03" "V03.lines" v03_lines "lines of every width up to 4089 in codes of each length"),
    h!("G04" "G04.many" g04_many "objects of every number of codes up to 4200 (65000), in 5 forms"),
    h!("V04" "V04.seconds" v04_seconds "every second of the clock x 4 phases x 4 dates (every millisecond)"),
    h!("V07" "V07.sizes" v07_sizes "every width and height up to 4200 and one of 7 up to 65535 (all)"),
    h!("V07" "V07.equal" v07_equal "pairs of images that differ in any one thing, or nothing"),
    h!("V08" "V08.sizes" v08_sizes "every width and height up to 2100 and one of 13 up to 65535 (all)"),
    h!("V08" "V08.borders" v08_borders "every border up to 1100 (2100)"),
    h!("G01" "G01.skip" g01_skip "skipped segments of every size"),
    h!("G01" "G01.clock" g01_clock "all time stamps of 8256 blocks of 65536 (all 2^32), times only"),
    h!("G01" "G01.ignored" g01_ignored "every value of each byte that means nothing, with a composition or window in every place"),
    h!("G01" "G01.ignored2" g01_ignored2 "5 (6) values of each pair of them"),
    h!("G01" "G01.shown" g01_shown "all time stamps of 8 (1024) blocks of 65536, with images"),
    h!("G02" "G02.skip" g02_skip "segments of every size x 4 types x 2 readers"),
    h!("G03" "G03.sizes" g03_sizes "objects, first and last fragments of every size"),
    h!("G03" "G03.lengths" g03_lengths "one of 256 (of 8) of all 2^24 declared lengths of an object of two fragments"),
    h!("G06" "G06.runs" g06_runs "runs of every length x 6 ways to take the pixels"),
    h!("G06" "G06.pairs" g06_pairs "every width with every height up to 160 (700)"),
    h!("G07" "G07.sizes" g07_sizes "every width and height up to 2100 and one of 13 up to 65535 (all)"),
    h!("G07" "G07.borders" g07_borders "every border up to 1100 (2100)"),
    h!("G08" "G08.palettes" g08_palettes "palette segments of every size"),
    h!("G12" "G12.lengths" g12_lengths "reads and skips of every length up to 66000 (300000) x 3 readers x 3 places"),
    h!("S02" "S02.numbers" s02_numbers "every number up to 2^20 (2^27)"),
    h!("S02" "S02.lengths" s02_lengths "texts of every length up to 66000 (300000)"),
    h!("S03" "S03.lengths" s03_lengths "texts of every length up to 66000 (300000)"),
    h!("S02" "S02.chars" s02_chars "every character"),
    h!("S03" "S03.chars" s03_chars "every character"),
    h!("S02" "S02.marks" s02_marks "pairs of 72 marks of subtitle formats in 6 forms x 7 separators x 3 cases"),
    h!("S03" "S03.marks" s03_marks "pairs of 72 marks of subtitle formats in 6 forms x 7 separators x 3 cases"),
    h!("S02" "S02.ascii" s02_ascii "all texts of 3 characters of ASCII (and of 4 printable ones)"),
    h!("S03" "S03.ascii" s03_ascii "all texts of 3 characters of ASCII (and of 4 printable ones)"),
    h!("R01" "R01.before" r01_before "the text after one or two bytes of any kind, or what other files start with"),
    h!("I01" "I01.lines" i01_lines "all words of up to 5 (6) of 11 lines with palettes, valid and not"),
    h!("I02" "I02.scalars" i02_scalars "every character in lines that matter and do not"),
    h!("I02" "I02.numbers" i02_numbers "every index, and languages, comments and keys of every length, up to 20000 (200000)"),
    h!("R01" "R01.lengths" r01_lengths "files of every length up to 2000 (20000) and one of 61 up to 66000"),
    h!("M02" "M02.shapes" m02_shapes "images of all sizes up to 33 x 33, and of widths or heights around powers of two up to 65536"),
];
