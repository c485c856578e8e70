//! Properties of the pixel conversions and of the dump of images.

use crate::engine::*;
use crate::viol;
use crate::vob::{form, named, scratch, FORMS, NAMES};
use image::{GrayImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use std::cell::Cell;
use std::path::Path;
use subtile::image::{dump_images, luma_a_to_luma, luma_a_to_luma_convertor, DumpError};
use subtile::SubtileError;

// ================================================================ M01

fn m01_all(ch: &mut Ch) -> R {
    // Every pixel with every pair of thresholds.
    let ta = ch.choose(256) as u8;
    let lums: Vec<u8> = if ch.tier == Tier::Quick {
        let b = ch.choose(2);
        (0..=255u8).filter(|x| usize::from(x & 1) == b).collect()
    } else {
        vec![ch.choose(256) as u8]
    };
    let mut n = 0u64;
    let r = guard(|| {
        for &tl in &lums {
            // Not for the compiler to prove.
            let f = std::hint::black_box(luma_a_to_luma_convertor::<u8, LumaA<u8>>(ta, tl));
            for a in 0..=255u8 {
                for l in 0..=255u8 {
                    let want = u8::from(a < ta || l < tl).wrapping_mul(255);
                    if f(LumaA([std::hint::black_box(l), a])).0[0] != want {
                        return Some((tl, l, a));
                    }
                }
            }
            n += 65536;
        }
        None
    });
    ch.walk(&[h64(&ta), h64(&(ta, lums[0]))]);
    ch.evals(n);
    match r {
        Ok(None) => {}
        o => viol!(format!("M01.all:{ta}"), "thresholds alpha {ta} and (luma, pixel luma, pixel alpha) = {o:?}: wrong"),
    }
    ch.validated(n);
    Ok(())
}

fn one<const A: u8, const L: u8>() -> Option<(u8, u8)> {
    for a in 0..=255u8 {
        for l in 0..=255u8 {
            let p = LumaA([l, a]);
            let want = Luma([if a >= A && l >= L { 0u8 } else { 255 }]);
            let p16 = LumaA([u16::from(l), u16::from(a)]);
            let want16 = Luma([if want.0[0] == 0 { 0u16 } else { u16::MAX }]);
            let big = LumaA([u16::from(l) << 8 | 0xff, u16::from(a) << 8 | 0xff]);
            let ok = luma_a_to_luma::<LumaA<u8>, u8, A, L>(p) == want
                && luma_a_to_luma::<&LumaA<u8>, u8, A, L>(&p) == want
                && luma_a_to_luma_convertor::<u8, &LumaA<u8>>(A, L)(&p) == want
                && luma_a_to_luma::<LumaA<u16>, u16, A, L>(p16) == want16
                // The smallest of these is 255, which reaches every threshold.
                && luma_a_to_luma::<LumaA<u16>, u16, A, L>(big) == Luma([0u16]);
            if !ok {
                return Some((l, a));
            }
        }
    }
    None
}
macro_rules! grid {
    ($($a:literal: [$($l:literal),*]);* $(;)?) => { &[$($(($a, $l, one::<$a, $l>),)*)*] };
}
type One = fn() -> Option<(u8, u8)>;
const GRID: &[(u8, u8, One)] = grid! {
    0: [0, 1, 2, 127, 128, 200, 254, 255];
    1: [0, 1, 2, 127, 128, 200, 254, 255];
    2: [0, 1, 2, 127, 128, 200, 254, 255];
    100: [0, 1, 2, 127, 128, 200, 254, 255];
    127: [0, 1, 2, 127, 128, 200, 254, 255];
    128: [0, 1, 2, 127, 128, 200, 254, 255];
    254: [0, 1, 2, 127, 128, 200, 254, 255];
    255: [0, 1, 2, 127, 128, 200, 254, 255];
};
fn m01_const(ch: &mut Ch) -> R {
    // Thresholds of the type: every pixel, by value and by reference, 8 and 16 bits.
    let &(a, l, f) = ch.pick(GRID);
    let r = guard(f);
    ch.walk(&[h64(&a), h64(&(a, l))]);
    ch.evals(65536);
    match r {
        Ok(None) => {}
        o => viol!(format!("M01.const:{a}:{l}"), "thresholds alpha {a}, luma {l} and (pixel luma, pixel alpha) = {o:?}: wrong"),
    }
    ch.validated(65536 * 5);
    Ok(())
}
/// Every pixel and every pair of thresholds of a list of numbers.
fn typed<P: image::Primitive + std::fmt::Debug>(vals: &[P]) -> Result<u64, String> {
    let (black, white) = (P::DEFAULT_MIN_VALUE, P::DEFAULT_MAX_VALUE);
    let mut n = 0;
    for &a in vals {
        for &l in vals {
            let p = LumaA([l, a]);
            for &ta in vals {
                for &tl in vals {
                    n += 1;
                    let want = if a >= ta && l >= tl { black } else { white };
                    let x = luma_a_to_luma_convertor::<P, LumaA<P>>(ta, tl)(std::hint::black_box(p)).0[0];
                    let y = luma_a_to_luma_convertor::<P, &LumaA<P>>(ta, tl)(std::hint::black_box(&p)).0[0];
                    if x != want || y != want {
                        return Err(format!("alpha {a:?} and luminance {l:?} with {ta:?} and {tl:?}: {x:?} or {y:?}, expected {want:?}"));
                    }
                }
            }
            let fixed = |t: u8, u: u8| {
                let (t, u) = (P::from(t).expect("a small number"), P::from(u).expect("a small number"));
                if a >= t && l >= u { black } else { white }
            };
            for (got, want, t) in [
                (luma_a_to_luma::<_, P, 0, 0>(p), fixed(0, 0), "0, 0"),
                (luma_a_to_luma::<_, P, 0, 1>(p), fixed(0, 1), "0, 1"),
                (luma_a_to_luma::<_, P, 1, 0>(p), fixed(1, 0), "1, 0"),
                (luma_a_to_luma::<_, P, 1, 127>(p), fixed(1, 127), "1, 127"),
                (luma_a_to_luma::<_, P, 100, 2>(p), fixed(100, 2), "100, 2"),
            ] {
                n += 1;
                if got.0[0] != want {
                    return Err(format!("alpha {a:?} and luminance {l:?} with {t}: {:?}, expected {want:?}", got.0[0]));
                }
            }
        }
    }
    Ok(n)
}
macro_rules! ints {
    ($t:ty) => {{
        let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1, 0, 1, 2, 99, 100, 101, 126, 127];
        for k in 6..<$t>::BITS {
            let b = (1 as $t).wrapping_shl(k);
            v.extend([b, b.wrapping_sub(1), (0 as $t).wrapping_sub(b)]);
        }
        v.push((0 as $t).wrapping_sub(1));
        v.sort_unstable();
        v.dedup();
        // The middle ones of wide numbers say little.
        let n = v.len();
        let v: Vec<$t> = v.into_iter().enumerate().filter(|(i, _)| n < 40 || i % 4 == 0 || *i < 6 || *i + 6 > n || (n / 2).abs_diff(*i) < 6).map(|(_, x)| x).collect();
        typed(&v)
    }};
}
macro_rules! floats {
    ($t:ty) => {
        typed(&[0.0, -0.0, 1e-30, 0.2, 0.5, 0.5 + <$t>::EPSILON, 0.7, 0.999, 1.0, 1.0 + <$t>::EPSILON, 1.5, 2.0, 100.0, 126.5, 127.0, 255.0, 1e9, 3e38, -0.1, -1.0, -3e38, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN])
    };
}
fn m01_types(ch: &mut Ch) -> R {
    // All types of pixels.
    let k = ch.choose(12);
    let r = guard(|| match k {
        0 => ints!(u8),
        1 => ints!(u16),
        2 => ints!(u32),
        3 => ints!(u64),
        4 => ints!(usize),
        5 => ints!(i8),
        6 => ints!(i16),
        7 => ints!(i32),
        8 => ints!(i64),
        9 => ints!(isize),
        10 => floats!(f32),
        _ => floats!(f64),
    });
    ch.walk(&[h64(&k)]);
    match r {
        Ok(Ok(n)) => {
            ch.evals(n);
            ch.validated(n);
            Ok(())
        }
        o => viol!(format!("M01.types:{k}"), "type {k}: {o:?}"),
    }
}
fn m01_wide(ch: &mut Ch) -> R {
    // 16 bits: around powers of two.
    let vals: Vec<u16> = {
        let mut v = vec![u16::MAX, u16::MAX - 1];
        for k in 0..16 {
            v.extend([1u16 << k, (1u16 << k) - 1, (1u16 << k) + 1]);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let ta = *ch.pick(&vals);
    let tl = *ch.pick(&vals);
    let mut n = 0u64;
    let r = guard(|| {
        let f = luma_a_to_luma_convertor::<u16, LumaA<u16>>(ta, tl);
        for &a in &vals {
            for &l in &vals {
                n += 1;
                let want = if a >= ta && l >= tl { 0 } else { u16::MAX };
                if f(LumaA([l, a])) != Luma([want]) {
                    return Some((l, a));
                }
            }
        }
        None
    });
    ch.walk(&[h64(&ta), h64(&(ta, tl))]);
    ch.evals(n);
    match r {
        Ok(None) => {}
        o => viol!(format!("M01.wide:{ta}:{tl}"), "thresholds alpha {ta}, luma {tl} and (pixel luma, pixel alpha) = {o:?}: wrong"),
    }
    ch.validated(n);
    Ok(())
}

// ================================================================ M02

const SIZES: [(u32, u32); 6] = [(1, 1), (3, 2), (17, 5), (1, 40), (300, 1), (0, 0)];
#[derive(Clone, Copy, Debug, Hash)]
enum Where {
    Existing,
    New,
    Nested,
    File,
    UnderFile,
    Slash,
    Link,
    /// Relative to the current directory.
    Rel(usize),
    /// In the current directory.
    Bare,
}
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = scratch().with_extension("dump");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn byte(i: u32, n: usize) -> u8 {
    ((i as usize * 97 + n * 31 + (i as usize / 7) * 11) % 256) as u8
}
/// What a dump has to leave: names and the pixels as RGBA.
fn listing(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

trait Px: image::Pixel<Subpixel: PartialEq + std::fmt::Debug + std::hash::Hash> + image::PixelWithColorType + PartialEq + 'static {
    const NAME: &'static str;
    fn mk(i: u32, n: usize) -> Self;
    fn load(p: &Path) -> Option<ImageBuffer<Self, Vec<Self::Subpixel>>>;
}
macro_rules! px {
    ($t:ty, $n:literal, $v:ident, $k:literal) => {
        impl Px for $t {
            const NAME: &'static str = $n;
            fn mk(i: u32, n: usize) -> Self {
                Self(std::array::from_fn(|c| byte(i * $k + c as u32, n)))
            }
            fn load(p: &Path) -> Option<ImageBuffer<Self, Vec<u8>>> {
                match image::open(p).ok()? {
                    image::DynamicImage::$v(i) => Some(i),
                    _ => None,
                }
            }
        }
    };
}
macro_rules! px16 {
    ($t:ty, $n:literal, $v:ident, $k:literal) => {
        impl Px for $t {
            const NAME: &'static str = $n;
            fn mk(i: u32, n: usize) -> Self {
                Self(std::array::from_fn(|c| u16::from(byte(i * $k + c as u32, n)) << 8 | u16::from(byte(i * $k + c as u32 + 5, n + 3))))
            }
            fn load(p: &Path) -> Option<ImageBuffer<Self, Vec<u16>>> {
                match image::open(p).ok()? {
                    image::DynamicImage::$v(i) => Some(i),
                    _ => None,
                }
            }
        }
    };
}
px16!(Luma<u16>, "luma of 16 bits", ImageLuma16, 1);
px16!(LumaA<u16>, "luma and alpha of 16 bits", ImageLumaA16, 2);
px16!(Rgb<u16>, "rgb of 16 bits", ImageRgb16, 3);
px16!(Rgba<u16>, "rgba of 16 bits", ImageRgba16, 4);
px!(Luma<u8>, "luma", ImageLuma8, 1);
px!(LumaA<u8>, "luma and alpha", ImageLumaA8, 2);
px!(Rgb<u8>, "rgb", ImageRgb8, 3);
px!(Rgba<u8>, "rgba", ImageRgba8, 4);

fn images<P: Px>(sizes: &[usize]) -> Vec<ImageBuffer<P, Vec<P::Subpixel>>> {
    sizes
        .iter()
        .enumerate()
        .map(|(n, &s)| {
            let (w, h) = SIZES[s];
            ImageBuffer::from_fn(w, h, |x, y| P::mk(y * w + x, n))
        })
        .collect()
}
fn dump<P: Px>(ch: &mut Ch, h: &str, wh: Where, sizes: &[usize], by_ref: bool, blocked: Option<usize>, stale: usize) -> R
where
    [P::Subpixel]: image::EncodableLayout,
{
    let dir = Dir::new();
    let root = &dir.0;
    let bare = Dir(scratch().with_extension("bare"));
    let _ = std::fs::remove_dir_all(&bare.0);
    let target = match wh {
        Where::Rel(f) => form(&root.join("new"), f),
        Where::Bare => form(&bare.0, 1),
        Where::Existing => root.clone(),
        Where::New => root.join("new"),
        Where::Nested => root.join("a/b/c d"),
        Where::Slash => root.join("e").join(""),
        Where::Link => {
            std::fs::create_dir_all(root.join("d")).expect("scratch directory");
            std::os::unix::fs::symlink("d", root.join("link")).expect("scratch link");
            root.join("link")
        }
        Where::File => root.join("file"),
        Where::UnderFile => root.join("file/x"),
    };
    std::fs::write(root.join("file"), b"keep").expect("scratch file");
    let dir_ok = !matches!(wh, Where::File | Where::UnderFile);
    if dir_ok && (stale > 0 || blocked.is_some()) {
        std::fs::create_dir_all(&target).expect("scratch directory");
        if stale == 2 {
            // Other images of the same sizes, up to the first that can not be written.
            for (n, i) in images::<P>(sizes).into_iter().enumerate().take_while(|(_, i)| i.width() > 0) {
                let (w, h) = i.dimensions();
                let other = ImageBuffer::<P, Vec<P::Subpixel>>::from_fn(w, h, |x, y| P::mk(y * w + x + 1, n + 1));
                other.save(target.join(format!("{n:06}.png"))).expect("scratch file");
            }
            std::fs::write(target.join("other.png"), b"other").expect("scratch file");
        }
        if stale == 1 {
            // What is there under the same name is replaced, the rest stays.
            std::fs::write(target.join("000000.png"), vec![b'z'; 100_000]).expect("scratch file");
            std::fs::write(target.join("other.png"), b"other").expect("scratch file");
        }
        if let Some(b) = blocked {
            let _ = std::fs::remove_file(target.join(format!("{b:06}.png")));
            std::fs::create_dir_all(target.join(format!("{b:06}.png"))).expect("scratch directory");
        }
    }
    let imgs = images::<P>(sizes);
    let path = target.to_str().expect("path");
    // How many images are asked for.
    let asked = Cell::new(0);
    let r = guard(|| {
        let count = || asked.set(asked.get() + 1);
        if by_ref { dump_images(path, imgs.iter().inspect(|_| count())) } else { dump_images(path, imgs.clone().into_iter().inspect(|_| count())) }.inspect_err(|e| tell(e))
    });
    let case = (P::NAME, format!("{wh:?}"), sizes, by_ref, blocked, stale);
    let key = format!("{h}:{:016x}", h64(&case));
    let r = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "dump {case:?} panics: {e}"),
    };
    // The first image that can not be written.
    let bad = sizes.iter().enumerate().find(|&(n, &s)| SIZES[s] == (0, 0) || blocked == Some(n)).map(|(n, _)| n);
    if !dir_ok {
        match &r {
            Err(SubtileError::ImageDump(DumpError::Folder { path, .. })) if *path == target => {}
            o => viol!(key, "dump {case:?} into what is no directory: {o:?}"),
        }
        if std::fs::read(root.join("file")).ok().as_deref() != Some(b"keep") {
            viol!(key, "dump {case:?} changed a file that was in the way");
        }
        ch.walk(&[h64(&"no directory"), h64(&key)]);
        ch.eval(h64(&key), true);
        ch.validated(1);
        return Ok(());
    }
    match (&r, bad) {
        (Ok(()), None) => {}
        (Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. })), Some(b)) if *filename == target.join(format!("{b:06}.png")) => {}
        o => viol!(key, "dump {case:?}: {o:?}"),
    }
    if let Some(b) = bad {
        if asked.get() != b + 1 {
            viol!(key, "dump {case:?} asks for {} images, though the one of number {b} can not be written", asked.get());
        }
    }
    let mut tr = vec![h64(&case)];
    for n in 0..bad.unwrap_or(sizes.len()) {
        let f = target.join(format!("{n:06}.png"));
        let got = P::load(&f);
        if got.as_ref() != Some(&imgs[n]) {
            viol!(key, "dump {case:?}: image {n} is not {} as given ({:?})", f.display(), got.map(|g| g.dimensions()));
        }
        // Nothing of an older file is left behind it.
        if !std::fs::read(&f).is_ok_and(|b| b.ends_with(b"IEND\xae\x42\x60\x82")) {
            viol!(key, "dump {case:?}: there is something behind the end of image {n}");
        }
        tr.push(h64(&(n, imgs[n].as_raw())));
    }
    // Nothing else appears; nothing else is touched.
    let mut names: Vec<String> = (0..sizes.len()).map(|n| format!("{n:06}.png")).collect();
    names.extend(["other.png", "000000.png", "file"].map(String::from));
    names.extend(blocked.map(|b| format!("{b:06}.png")));
    for l in listing(&target) {
        if !names.contains(&l) {
            viol!(key, "dump {case:?} leaves an entry {l:?}");
        }
        if let Some(b) = bad {
            let later = (b + 1..sizes.len()).any(|n| l == format!("{n:06}.png"));
            if later {
                viol!(key, "dump {case:?}: {l:?} is written after a failure");
            }
        }
    }
    if stale > 0 && std::fs::read(target.join("other.png")).ok().as_deref() != Some(b"other") {
        viol!(key, "dump {case:?} touches another file");
    }
    ch.walk(&tr);
    ch.eval(h64(&key), !sizes.is_empty());
    ch.validated(1);
    ch.sample(|| format!("{h}: {case:?}"));
    Ok(())
}
fn by_type(ch: &mut Ch, h: &str, wh: Where, sizes: &[usize], blocked: Option<usize>, stale: usize) -> R {
    let by_ref = ch.flag();
    match ch.choose(8) {
        4 => dump::<Luma<u16>>(ch, h, wh, sizes, by_ref, blocked, stale),
        5 => dump::<LumaA<u16>>(ch, h, wh, sizes, by_ref, blocked, stale),
        6 => dump::<Rgb<u16>>(ch, h, wh, sizes, by_ref, blocked, stale),
        7 => dump::<Rgba<u16>>(ch, h, wh, sizes, by_ref, blocked, stale),
        0 => dump::<Luma<u8>>(ch, h, wh, sizes, by_ref, blocked, stale),
        1 => dump::<LumaA<u8>>(ch, h, wh, sizes, by_ref, blocked, stale),
        2 => dump::<Rgb<u8>>(ch, h, wh, sizes, by_ref, blocked, stale),
        _ => dump::<Rgba<u8>>(ch, h, wh, sizes, by_ref, blocked, stale),
    }
}
fn m02_words(ch: &mut Ch) -> R {
    // All words of images, in every place.
    let wh = *ch.pick(&[Where::Existing, Where::New, Where::Nested, Where::Slash, Where::Link, Where::File, Where::UnderFile, Where::Rel(1), Where::Rel(2), Where::Rel(3), Where::Rel(4), Where::Bare]);
    let mut sizes = vec![];
    for _ in 0..ch.tier.b(3, 4) {
        let k = ch.choose(SIZES.len() + 1);
        if k == 0 {
            break;
        }
        sizes.push(k - 1);
    }
    let stale = ch.choose(3);
    by_type(ch, "M02.words", wh, &sizes, None, stale)
}
fn m02_blocked(ch: &mut Ch) -> R {
    // The file of each image in turn can not be written.
    let n = ch.range(1, ch.tier.b(8, 12));
    let b = ch.choose(n);
    let sizes: Vec<usize> = (0..n).map(|i| i % 5).collect();
    by_type(ch, "M02.blocked", Where::New, &sizes, Some(b), 0)
}
fn m02_sizes(ch: &mut Ch) -> R {
    // Images of any size and content; folders of any name.
    let (w, h) = *ch.pick(&[(1u32, 1u32), (2, 1), (255, 3), (256, 3), (257, 3), (1, 255), (3, 257), (1920, 1080), (4096, 33), (33, 4096), (65_535, 2), (65_536, 2), (70_000, 1), (1, 70_000), (640, 480)]);
    let kind = ch.choose(6);
    let (name, name2) = *ch.pick(&[("x", "x"), ("\u{e9}t\u{e9} \u{1f600}", "\u{e9}t\u{e9} \u{1f600}"), ("a.png", "a.png"), ("y/../z", "z"), ("a b\nc", "a b\nc"), ("%06d{}", "%06d{}"), ("\\", "\\")]);
    let v = |x: u32, y: u32, c: u32| match kind {
        0 => 0u8,
        1 => 255,
        2 => ((x + y) * 255) as u8,
        3 => (x / 16 * 16 + y + c) as u8,
        4 => byte(x * 7 + y * 13 + c, 5),
        _ => if x == w - 1 && y == h - 1 { 200 } else { c as u8 },
    };
    let dir = Dir::new();
    let path = dir.0.join(name);
    let at = dir.0.join(name2);
    let g = ImageBuffer::from_fn(w, h, |x, y| Luma([v(x, y, 0)]));
    let a = ImageBuffer::from_fn(w, h, |x, y| Rgba([0, 1, 2, 3].map(|c| v(x, y, c))));
    let path = path.to_str().expect("path");
    let key = format!("M02.sizes:{w}:{h}:{kind}:{name2}");
    let r = guard(|| {
        dump_images(path, [&g]).map_err(|e| e.to_string())?;
        let one = <Luma<u8> as Px>::load(&at.join("000000.png"));
        dump_images(path, [&a, &a]).map_err(|e| e.to_string())?;
        Ok::<_, String>([one.as_ref() == Some(&g), <Rgba<u8> as Px>::load(&at.join("000000.png")).as_ref() == Some(&a), <Rgba<u8> as Px>::load(&at.join("000001.png")).as_ref() == Some(&a)])
    });
    ch.walk(&[h64(&(w, h)), h64(&(w, h, kind))]);
    ch.eval(h64(&key), true);
    if r != Ok(Ok([true; 3])) {
        viol!(key, "images of {w}x{h} with {kind} dumped into {name:?} are not as given: {r:?}");
    }
    ch.validated(3);
    Ok(())
}
fn m02_names(ch: &mut Ch) -> R {
    // The name of the folder does not matter, nor how its path is written.
    let k = ch.choose(NAMES.len());
    let f = ch.choose(FORMS);
    let Ok(name) = std::str::from_utf8(NAMES[k]) else { return Ok(()) };
    let there = named(&scratch(), k);
    let target = form(&there, f);
    let path = target.to_str().expect("path");
    let before = ch.flag();
    if before {
        std::fs::create_dir_all(&there).expect("scratch directory");
    }
    let key = format!("M02.names:{k}:{f}:{before}");
    let imgs = images::<Rgb<u8>>(&[1, 2]);
    let r = guard(|| dump_images(path, &imgs).map_err(|e| e.to_string()));
    let got: Vec<_> = (0..2).map(|n| <Rgb<u8> as Px>::load(&there.join(format!("{n:06}.png"))).as_ref() == Some(&imgs[n])).collect();
    let beside = listing(there.parent().expect("parent"));
    let _ = std::fs::remove_dir_all(&there);
    ch.walk(&[h64(&key)]);
    ch.eval(h64(&key), true);
    if r != Ok(Ok(())) || got != [true; 2] || beside != [name] {
        viol!(key, "images dumped into {path:?}: {r:?}, there as given: {got:?}, in the directory above: {beside:?}");
    }
    ch.validated(1);
    Ok(())
}
/// Hands out images without saying how many, and again after the end.
struct Again<T>(std::vec::IntoIter<T>, bool, Option<T>, u8);
impl<T> Iterator for Again<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.1 {
            return self.2.take();
        }
        let n = self.0.next();
        self.1 = n.is_none();
        n
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.3 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            _ => (0, Some(self.0.len())),
        }
    }
}
fn m02_given(ch: &mut Ch) -> R {
    // However the images are given: what holds their pixels, how many bytes there are beyond them, and what iterates them.
    let n = ch.choose(4);
    let mut sizes = vec![];
    for _ in 0..n {
        sizes.push(*ch.pick(&[(1u32, 1u32), (3, 2), (17, 5), (1, 40)]));
    }
    let more = *ch.pick(&[0usize, 1, 2, 3, 4, 16, 17, 51, 300]);
    let how = ch.choose(7);
    type Rgb8<C> = ImageBuffer<Rgb<u8>, C>;
    let raw: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(k, (w, h))| (0..w * h * 3 + more as u32).map(|i| byte(i, k)).collect()).collect();
    let vecs: Vec<Rgb8<Vec<u8>>> = raw.iter().zip(&sizes).map(|(r, &(w, h))| ImageBuffer::from_raw(w, h, r.clone()).expect("long enough")).collect();
    let slices: Vec<Rgb8<&[u8]>> = raw.iter().zip(&sizes).map(|(r, &(w, h))| ImageBuffer::from_raw(w, h, &r[..]).expect("long enough")).collect();
    let dir = Dir::new();
    let path = dir.0.to_str().expect("path");
    let key = format!("M02.given:{sizes:?}:{more}:{how}");
    let r = guard(|| {
        match how {
            0 => dump_images(path, &vecs),
            1 => dump_images(path, slices.clone()),
            2 => dump_images(path, &slices),
            3 => dump_images(path, vecs.iter().cloned().map(std::rc::Rc::new)),
            4 => dump_images(path, vecs.iter().cloned().map(Box::new).collect::<std::collections::VecDeque<_>>()),
            k => dump_images(path, Again(vecs.iter().collect::<Vec<_>>().into_iter(), false, vecs.first(), k as u8 - 5)),
        }
        .map_err(|e| e.to_string())
    });
    ch.walk(&[h64(&(n, more)), h64(&(n, how))]);
    ch.eval(h64(&key), n > 0);
    if r != Ok(Ok(())) {
        viol!(key, "images of {sizes:?} in {more} bytes more than needed, given in way {how}, are not dumped: {r:?}");
    }
    let mut want = vec![];
    for (k, (&(w, h), r)) in sizes.iter().zip(&raw).enumerate() {
        let f = format!("{k:06}.png");
        let got = <Rgb<u8> as Px>::load(&dir.0.join(&f));
        if got.as_ref().map(|g| (g.dimensions(), &g.as_raw()[..])) != Some(((w, h), &r[..(w * h * 3) as usize])) {
            viol!(key, "images of {sizes:?} in {more} bytes more than needed, given in way {how}: number {k} is not as given");
        }
        want.push(f);
    }
    if listing(&dir.0) != want {
        viol!(key, "images of {sizes:?} given in way {how} leave {:?}", listing(&dir.0));
    }
    ch.validated(1);
    Ok(())
}
fn m02_often(ch: &mut Ch) -> R {
    // More images, dumps or failures than files may be open.
    let (how, n) = (ch.choose(4), ch.tier.b(60usize, 600));
    let v: Vec<GrayImage> = (0..n).map(|k| GrayImage::from_pixel(1, 2, Luma([k as u8]))).collect();
    let dir = Dir::new();
    let path = dir.0.to_str().expect("path");
    if how == 2 {
        std::fs::create_dir(dir.0.join("000001.png")).expect("scratch folder");
    }
    let key = format!("M02.often:{how}");
    let files = crate::p_x::Files::limit();
    let r = guard(|| {
        let r = |v: &[GrayImage]| dump_images(path, v).map_err(|e| format!("{e:?}"));
        match how {
            0 => r(&v),
            1 => (0..n).try_for_each(|k| r(&v[k..=k])),
            2 => (0..n).try_for_each(|_| match r(&v[..3]) {
                Err(e) if e.contains("Too many") => Err(e),
                Err(_) => Ok(()),
                Ok(()) => Err("a folder is replaced".into()),
            }),
            _ => (0..n).try_for_each(|k| subtile::image::dump_images(path, [&v[k], &v[0]]).map_err(|e| format!("{e:?}"))),
        }
    });
    drop(files);
    let want: Vec<String> = match how {
        0 => (0..n).map(|k| format!("{k:06}.png")).collect(),
        k => (0..[0, 1, 2, 2][k]).map(|k| format!("{k:06}.png")).collect(),
    };
    let got = listing(&dir.0);
    if how == 2 {
        let _ = std::fs::remove_dir(dir.0.join("000001.png"));
    }
    ch.walk(&[h64(&key)]);
    ch.eval(h64(&key), true);
    if r != Ok(Ok(())) || got != want {
        viol!(key, "{n} dumps (way {how}) when 20 files may be open: {r:?}, {} files", got.len());
    }
    ch.validated(1);
    Ok(())
}
/// No file grows beyond this size, as on a full disk.
struct Space;
impl Space {
    fn limit(n: u64) -> Space {
        // SAFETY: plain calls; the harness is the only one that runs, and the limit is lifted on drop.
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0);
            l.rlim_cur = n.min(l.rlim_max);
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
        }
        Space
    }
}
impl Drop for Space {
    fn drop(&mut self) {
        // SAFETY: as above.
        unsafe {
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
            l.rlim_cur = l.rlim_max;
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
}
/// Images that compress well and badly, of a byte to some blocks of a buffer.
const FILLS: [(u32, u32, bool); 7] = [(1, 1, false), (3, 2, true), (40, 30, true), (200, 100, false), (90, 91, true), (128, 128, true), (150, 150, true)];
fn m02_space(ch: &mut Ch) -> R {
    // The disk is full after any number of bytes of a file.
    let n = ch.range(1, 2);
    let ks: Vec<usize> = (0..n).map(|_| ch.choose(FILLS.len())).collect();
    let rgba = ch.flag();
    let noise = |i: u32, c: u32| ((u64::from(i * 4 + c) + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8;
    let val = |w: u32, on: bool| move |x: u32, y: u32, c: u32| if on { noise(y * w + x, c) } else { 7 };
    let g: Vec<GrayImage> = ks.iter().map(|&k| { let (w, h, on) = FILLS[k]; let v = val(w, on); ImageBuffer::from_fn(w, h, |x, y| Luma([v(x, y, 0)])) }).collect();
    let a: Vec<ImageBuffer<Rgba<u8>, Vec<u8>>> = ks.iter().map(|&k| { let (w, h, on) = FILLS[k]; let v = val(w, on); ImageBuffer::from_fn(w, h, |x, y| Rgba([0, 1, 2, 3].map(|c| v(x, y, c)))) }).collect();
    let dir = Dir::new();
    let path = dir.0.to_str().expect("path");
    let dump = || guard(|| if rgba { dump_images(path, &a) } else { dump_images(path, &g) }.inspect_err(|e| tell(e)));
    let file = |i: usize| dir.0.join(format!("{i:06}.png"));
    let intact = |i: usize| if rgba { <Rgba<u8> as Px>::load(&file(i)).as_ref() == Some(&a[i]) } else { <Luma<u8> as Px>::load(&file(i)).as_ref() == Some(&g[i]) };
    let key = format!("M02.space:{ks:?}:{rgba}");
    let r = dump();
    if !matches!(r, Ok(Ok(()))) || !(0..n).all(intact) {
        viol!(key, "images {ks:?} with space: {r:?}");
    }
    let lens: Vec<u64> = (0..n).map(|i| std::fs::metadata(file(i)).map_or(0, |m| m.len())).collect();
    let most = *lens.iter().max().unwrap_or(&0);
    // Every number of bytes up to the whole; for large files those around buffers and at the ends.
    let full = ch.tier.b([0, 600, 100][n], [0, 100_000, 1500][n]);
    for l in (0..=most).filter(|&l| l < full || (l + 1) % 4096 < 3 || l % 997 == 0 || lens.iter().any(|&x| l.abs_diff(x) < 30)) {
        for i in 0..n {
            let _ = std::fs::remove_file(file(i));
        }
        let r = {
            let _space = Space::limit(l);
            dump()
        };
        let bad = lens.iter().position(|&x| x > l);
        match (&r, bad) {
            (Ok(Ok(())), None) => {}
            (Ok(Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. }))), Some(b)) if *filename == file(b) => {}
            o => viol!(format!("{key}:{l}"), "images {ks:?} (files of {lens:?} bytes) with space for {l} bytes in a file: {o:?}"),
        }
        if let Some(i) = (0..bad.unwrap_or(n)).find(|&i| !intact(i)) {
            viol!(format!("{key}:{l}"), "images {ks:?} with space for {l} bytes in a file: image {i} is not as given");
        }
        if let Some(i) = (bad.unwrap_or(n)..n).skip(1).find(|&i| file(i).exists()) {
            viol!(format!("{key}:{l}"), "images {ks:?} with space for {l} bytes in a file: image {i} is written after a failure");
        }
        ch.walk(&[h64(&(&ks, rgba)), h64(&(&ks, rgba, l / 64)), h64(&(&ks, bad))]);
        ch.eval(h64(&(&ks, rgba, l)), true);
        ch.validated(1);
    }
    Ok(())
}
fn m02_many(ch: &mut Ch) -> R {
    // Names in the order of the images, beyond one digit.
    let n = *ch.pick(ch.tier.b(&[9usize, 10, 11, 99, 101, 257, 1001, 10_001, 65_538][..], &[9usize, 10, 11, 99, 101, 257, 1001, 10_001, 65_538, 100_001][..]));
    let dir = Dir::new();
    let imgs: Vec<GrayImage> = (0..n).map(|i| GrayImage::from_pixel(1 + (i % 3) as u32, 1, Luma([(i * 7) as u8]))).collect();
    let path = dir.0.to_str().expect("path");
    let r = guard(|| dump_images(path, imgs.iter()));
    let key = format!("M02.many:{n}");
    if !matches!(r, Ok(Ok(()))) {
        viol!(key, "dump of {n} images: {r:?}");
    }
    let l = listing(&dir.0);
    let want: Vec<String> = (0..n).map(|i| format!("{i:06}.png")).collect();
    if l != want {
        viol!(key, "dump of {n} images leaves {} entries, first wrong {:?}", l.len(), l.iter().zip(&want).find(|(a, b)| a != b));
    }
    for (i, img) in imgs.iter().enumerate() {
        if <Luma<u8> as Px>::load(&dir.0.join(&want[i])).as_ref() != Some(img) {
            viol!(key, "image {i} of {n} is not as given");
        }
    }
    ch.walk(&[h64(&n)]);
    ch.eval(n as u64, true);
    ch.validated(n as u64);
    Ok(())
}

pub const H: &[Harness] = &[
    Harness { prop: "M01", name: "M01.all", what: "every pixel with every pair of thresholds (2^32)", devs: (0, 0), serial: false, run: m01_all },
    Harness { prop: "M01", name: "M01.const", what: "every pixel with 64 pairs of thresholds of the type, 8 and 16 bits", devs: (0, 0), serial: false, run: m01_const },
    Harness { prop: "M01", name: "M01.types", what: "pixels and thresholds around powers of two of 12 types of numbers", devs: (0, 0), serial: false, run: m01_types },
    Harness { prop: "M01", name: "M01.wide", what: "16 bits: pixels and thresholds around powers of two", devs: (0, 0), serial: false, run: m01_wide },
    Harness { prop: "M02", name: "M02.often", what: "more images, dumps or failures than files may be open", devs: (0, 0), serial: true, run: m02_often },
    Harness { prop: "M02", name: "M02.words", what: "all words of up to 3 (4) images of 6 sizes x 8 types of pixels x places x what is there", devs: (0, 0), serial: false, run: m02_words },
    Harness { prop: "M02", name: "M02.blocked", what: "each image of up to 8 (12) in turn can not be written", devs: (0, 0), serial: false, run: m02_blocked },
    Harness { prop: "M02", name: "M02.sizes", what: "15 sizes up to 1920x1080 and 70000 long x 6 contents x 7 names of folders", devs: (0, 0), serial: false, run: m02_sizes },
    Harness { prop: "M02", name: "M02.names", what: "30 names of folders x 5 ways to write the path", devs: (0, 0), serial: false, run: m02_names },
    Harness { prop: "M02", name: "M02.given", what: "words of up to 3 images x what holds them x bytes beyond them x what iterates them", devs: (0, 0), serial: false, run: m02_given },
    Harness { prop: "M02", name: "M02.space", what: "the disk full after any number of bytes of a file: all pairs of 7 images of 2 types", devs: (0, 0), serial: true, run: m02_space },
    Harness { prop: "M02", name: "M02.many", what: "numbers of images around powers of ten", devs: (0, 0), serial: false, run: m02_many },
];
