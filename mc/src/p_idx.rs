//! Properties of index files and of the detection of files.

use crate::engine::*;
use crate::viol;
use crate::vob::{form, named, parts, piped, scratch, FORMS, NAMES};
use image::Rgb;
use std::cell::RefCell;
use std::io::BufRead as _;
use std::io::{self, BufReader, ErrorKind, Read};
use subtile::vobsub::{is_idx_file, is_sub_file, palette, palette_rgb_to_luminance, Index, Palette, VobSubError};

const DEFAULT: [u32; 16] = [
    0x000000, 0xf0f0f0, 0xcccccc, 0x999999, 0x3333fa, 0x1111bb, 0xfa3333, 0xbb1111, 0x33fa33, 0x11bb11, 0xfafa33, 0xbbbb11, 0xfa33fa, 0xbb11bb, 0x33fafa, 0x11bbbb,
];
type Pal = [[u8; 3]; 16];
fn default_pal() -> Pal {
    DEFAULT.map(|v| [(v >> 16) as u8, (v >> 8) as u8, v as u8])
}
fn pal_of(p: &Palette) -> Pal {
    p.map(|c| c.0)
}

fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
/// 16 colours separated by ", ", and how much of the text they are; `None` if there are not 16.
fn pal_ref(t: &[u8]) -> Option<(Pal, usize)> {
    let colour = |at: usize| -> Option<[u8; 3]> {
        let d = t.get(at..at + 6)?;
        let mut c = [0; 3];
        for k in 0..3 {
            c[k] = hexval(d[2 * k])? << 4 | hexval(d[2 * k + 1])?;
        }
        Some(c)
    };
    let mut all = vec![];
    let mut at = 0;
    if let Some(c) = colour(0) {
        all.push(c);
        at = 6;
        while t.get(at..at + 2) == Some(b", ") {
            let Some(c) = colour(at + 2) else { break };
            all.push(c);
            at += 8;
        }
    }
    all.try_into().ok().map(|p| (p, at))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Out {
    Pal,
    Io(ErrorKind),
    Other,
}
type Idx = Result<(Pal, Option<String>), Out>;

fn idx_ref(bytes: &[u8]) -> (Idx, Vec<u64>) {
    let mut pal = default_pal();
    let mut lang = None;
    let mut tr = vec![h64("idx")];
    for line in bytes.split_inclusive(|&b| b == b'\n') {
        let Ok(line) = std::str::from_utf8(line) else {
            tr.push(h64("not UTF-8"));
            return (Err(Out::Io(ErrorKind::InvalidData)), tr);
        };
        let line = line.trim_end();
        let mut kind = 0;
        if let Some((key, val)) = line.split_once(": ") {
            if key == "palette" {
                kind = 1;
                match pal_ref(val.as_bytes()) {
                    Some((p, n)) if n == val.len() => pal = p,
                    _ => {
                        tr.push(h64("bad palette"));
                        return (Err(Out::Pal), tr);
                    }
                }
            } else if key == "id" {
                kind = 2;
                lang = val.split_once(", index: ").and_then(|(l, _)| {
                    (!l.is_empty() && l.bytes().all(|b| b.is_ascii_lowercase())).then(|| l.to_string())
                });
            }
        }
        tr.push(h64(&(kind, pal, &lang)));
    }
    (Ok((pal, lang)), tr)
}

/// Has the reference two reasons to fail? Which one is reported is open then.
fn two_reasons(bytes: &[u8]) -> bool {
    std::str::from_utf8(bytes).is_err()
        && bytes.split_inclusive(|&b| b == b'\n').any(|l| {
            l.strip_prefix(b"palette: ").is_some_and(|v| {
                let v = v.trim_ascii_end();
                !pal_ref(v).is_some_and(|(_, n)| n == v.len())
            })
        })
}

fn show(i: Result<Index, VobSubError>) -> Idx {
    // One made of its parts has them.
    i.map(|i| Index::init(*i.palette(), i.lang().clone())).map(|i| (pal_of(i.palette()), i.lang().as_ref().map(|l| l.lang().to_string()))).inspect_err(|e| tell(e)).map_err(|e| match e {
        VobSubError::PaletteError(_) => Out::Pal,
        VobSubError::Io { source, .. } => Out::Io(source.kind()),
        _ => Out::Other,
    })
}
fn read_with<T: Read>(r: BufReader<T>) -> Result<Idx, String> {
    guard(|| {
        show(Index::read_index(r, &|source| VobSubError::Io { source, path: "x.idx".into() }))
    })
    .map_err(|p| format!("panics: {p}"))
}
fn read(b: &[u8]) -> Result<Idx, String> {
    read_with(BufReader::new(b))
}
fn quote(b: &[u8]) -> String {
    String::from_utf8_lossy(b).escape_debug().to_string()
}

pub fn check(ch: &mut Ch, h: &str, b: &[u8]) -> R {
    let (want, tr) = idx_ref(b);
    let got = read(b);
    let k = h64(b);
    ch.walk(&tr);
    ch.eval(k, true);
    let ok = match (&got, &want) {
        (Ok(Err(_)), Err(_)) if two_reasons(b) => true,
        (Ok(g), w) => g == w,
        _ => false,
    };
    if !ok {
        viol!(format!("{h}:{k:016x}"), "index \"{}\" is read as {got:?}, expected {want:?}", quote(b));
    }
    ch.validated(1);
    ch.sample(|| format!("{h}: \"{}\" gives {want:?}", quote(b)));
    Ok(())
}

fn line_of(p: &Pal, upper: bool) -> String {
    let v: Vec<String> = p.iter().map(|c| if upper { format!("{:02X}{:02X}{:02X}", c[0], c[1], c[2]) } else { format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2]) }).collect();
    v.join(", ")
}
fn pal_n(k: usize) -> Pal {
    std::array::from_fn(|i| [0, 1, 2].map(|c| ((i * 37 + c * 91 + k * 53) % 256) as u8))
}

// ================================================================ I01

fn pal_check(ch: &mut Ch, h: &str, t: &[u8]) -> R {
    // The function and a file with the text.
    let want = pal_ref(t);
    let k = h64(t);
    let got = guard(|| palette(t).map(|(r, p)| (pal_of(&p), r.len())).map_err(|_| ()));
    let w = want.map(|(p, n)| (p, t.len() - n)).ok_or(());
    if got.as_ref() != Ok(&w) {
        viol!(format!("{h}:{k:016x}"), "palette \"{}\" gives {got:?}, expected {w:?} (palette, bytes left)", quote(t));
    }
    ch.validated(1);
    if !t.contains(&b'\n') && !t.contains(&b'\r') && t.trim_ascii_end().len() == t.len() && !t.is_empty() {
        let mut f = b"palette: ".to_vec();
        f.extend(t);
        f.push(b'\n');
        check(ch, h, &f)?;
    } else {
        ch.walk(&[h64("palette"), h64(&w)]);
        ch.eval(k, true);
    }
    Ok(())
}
fn i01_bytes(ch: &mut Ch) -> R {
    // Every byte replaced by every value.
    let t = line_of(&pal_n(1), ch.flag());
    let at = ch.choose(t.len());
    for v in 0..=255u8 {
        let mut m = t.clone().into_bytes();
        m[at] = v;
        pal_check(ch, "I01.bytes", &m)?;
    }
    Ok(())
}
fn i01_colours(ch: &mut Ch) -> R {
    // Every value of every component, in each place and case.
    let at = ch.choose(16);
    let c = ch.choose(3);
    for v in 0..=255u8 {
        let mut p = pal_n(2);
        p[at][c] = v;
        let lower = line_of(&p, false);
        assert_eq!(pal_ref(lower.as_bytes()), Some((p, lower.len())));
        pal_check(ch, "I01.colours", lower.as_bytes())?;
        pal_check(ch, "I01.colours", line_of(&p, true).as_bytes())?;
        let mixed: String = lower.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        pal_check(ch, "I01.colours", mixed.as_bytes())?;
    }
    Ok(())
}
fn i01_count(ch: &mut Ch) -> R {
    // Any number of entries, with separators of other forms, cut anywhere.
    let n = ch.range(0, ch.tier.b(300, 3000));
    let sep = *ch.pick(&[", ", ",", " ", ",  ", " , ", "; ", ",\t", ""]);
    let t = vec!["0a1b2C"; n].join(sep);
    let tail = *ch.pick(&["", ",", ", ", ", 1", ", 12345", ", 1234567", " ", "0", ", zzzzzz", "\n"]);
    pal_check(ch, "I01.count", format!("{t}{tail}").as_bytes())
}
fn i01_case(ch: &mut Ch) -> R {
    // Every case of every digit of a colour, in each place.
    let at = ch.choose(16);
    let t = *ch.pick(&["abcdef", "ffffff", "a0b1c2", "0d9e8f", "fedcba"]);
    for m in 0..64u32 {
        let e: String = t.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        let mut v: Vec<String> = line_of(&pal_n(6), m % 2 == 0).split(", ").map(String::from).collect();
        v[at] = e;
        pal_check(ch, "I01.case", v.join(", ").as_bytes())?;
    }
    Ok(())
}
fn i01_cut(ch: &mut Ch) -> R {
    let t = line_of(&pal_n(3), false).into_bytes();
    let i = ch.choose(t.len() + 1);
    match ch.choose(3) {
        0 => {
            pal_check(ch, "I01.cut", &t[..i])?;
            pal_check(ch, "I01.cut", &t[i..])?;
        }
        1 => {
            for n in 1..=20 {
                if i + n <= t.len() {
                    let mut m = t.clone();
                    m.drain(i..i + n);
                    pal_check(ch, "I01.cut", &m)?;
                }
            }
        }
        _ => {
            for ins in [&b" "[..], b",", b", ", b"0", b"00", b"x", b", 123456", b"\xc3\xa9", b"\t"] {
                let mut m = t.clone();
                m.splice(i..i, ins.iter().copied());
                pal_check(ch, "I01.cut", &m)?;
            }
        }
    }
    Ok(())
}
fn i01_luma(ch: &mut Ch) -> R {
    // Every colour.
    let r = ch.choose(256);
    let mut n = 0;
    let res = guard(|| {
        for g in 0..256usize {
            for b in (0..256usize).step_by(16) {
                n += 16;
                let p: Palette = std::array::from_fn(|i| Rgb([r as u8, g as u8, (b + i) as u8]));
                let l = palette_rgb_to_luminance(&p);
                for (i, l) in l.iter().enumerate() {
                    if usize::from(l.0[0]) != (2126 * r + 7152 * g + 722 * (b + i)) / 10_000 {
                        return Some((g, b + i, l.0[0]));
                    }
                }
            }
        }
        None
    });
    ch.walk(&[h64(&("luma", r))]);
    ch.evals(n);
    match res {
        Ok(None) => {}
        o => viol!(format!("I01.luma:{r}"), "luminance of red {r}: (green, blue, luminance) = {o:?}"),
    }
    ch.validated(n);
    Ok(())
}

/// Two colours in all patterns of sixteen: read, and their luminance.
fn i01_mix(ch: &mut Ch) -> R {
    const C: [[u8; 3]; 6] = [[0, 0, 0], [255, 255, 255], [0xf0, 0xf0, 0xf0], [1, 2, 3], [0x33, 0x33, 0xfa], [255, 0, 0]];
    let (x, y) = (ch.choose(6), ch.choose(6));
    let high = ch.choose(256);
    if x == y && high > 0 {
        return Ok(());
    }
    let luma = |c: [u8; 3]| (2126 * u32::from(c[0]) + 7152 * u32::from(c[1]) + 722 * u32::from(c[2])) / 10_000;
    for low in 0..256usize {
        let m = high << 8 | low;
        let p: Palette = std::array::from_fn(|i| Rgb(C[if m >> i & 1 == 1 { y } else { x }]));
        let text = line_of(&p.map(|c| c.0), m % 3 == 0);
        let key = format!("I01.mix:{x}:{y}:{m}");
        match guard(|| (palette(text.as_bytes()).map(|(r, p)| (r.len(), p)).ok(), palette_rgb_to_luminance(&p))) {
            Ok((Some((0, q)), l)) if q == p && l.iter().zip(&p).all(|(l, c)| u32::from(l.0[0]) == luma(c.0)) => {}
            o => viol!(key, "palette {text}: read as, and its luminance: {o:?}"),
        }
        ch.walk(&[h64(&("mix", x, y, high)), h64(&("mix", x, y, m))]);
    }
    ch.evals(512);
    ch.validated(256);
    Ok(())
}

// ================================================================ I02

fn lines() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        format!("palette: {}", line_of(&pal_n(4), false)).into_bytes(),
        format!("palette: {}  \t", line_of(&pal_n(5), true)).into_bytes(),
        format!("palette: {}, 000000", line_of(&pal_n(6), true)).into_bytes(),
        format!("palette: {}x", line_of(&pal_n(6), true)).into_bytes(),
        format!("Palette: {}", line_of(&pal_n(7), true)).into_bytes(),
        format!(" palette: {}", line_of(&pal_n(7), true)).into_bytes(),
        format!("# palette: {}", line_of(&pal_n(7), true)).into_bytes(),
        format!("my palette: {}", line_of(&pal_n(7), true)).into_bytes(),
        format!("palette:{}", line_of(&pal_n(7), true)).into_bytes(),
    ];
    v.extend(
        [
            &b"id: en, index: 0"[..],
            b"id: fr, index: 12 ",
            b"id: jpn, index: ",
            b"id: --, index: 0",
            b"id: EN, index: 0",
            b"id: en index: 0",
            b"id: x1, index: 0",
            b"# id: de, index: 1",
            b"langidx: 0",
            b"# VobSub index file, v7",
            b"size: 720x576",
            b"timestamp: 00:00:01:101, filepos: 000000000",
            b"",
            b"custom colors: OFF, tridx: 1000, colors: 000000, 444444",
            b": no key",
            b"caf\xc3\xa9: 1",
            b"\xff\xfe",
        ]
        .map(<[u8]>::to_vec),
    );
    v
}
fn i02_words(ch: &mut Ch) -> R {
    // All words of lines.
    let ls = lines();
    let mut f = vec![];
    let end: &[u8] = [&b"\n"[..], b"\r\n", b" \n"][ch.choose(3)];
    for _ in 0..ch.tier.b(4, 5) {
        let k = ch.choose(ls.len() + 1);
        if k == 0 {
            break;
        }
        f.extend(&ls[k - 1]);
        f.extend(end);
    }
    check(ch, "I02.words", &f)?;
    // Without the last end of line.
    if f.len() >= end.len() && !f.is_empty() {
        f.truncate(f.len() - end.len());
        check(ch, "I02.words", &f)?;
    }
    Ok(())
}
fn i02_lang(ch: &mut Ch) -> R {
    // Languages of every first and second character, of every length.
    let (a, b) = (ch.choose(128) as u8, ch.choose(128) as u8);
    if a == b'\n' || b == b'\n' || a == b'\r' || b == b'\r' {
        return Ok(());
    }
    check(ch, "I02.lang", &[b"id: ", &[a, b][..], b", index: 3\n"].concat())?;
    check(ch, "I02.lang", &[b"id: en", &[a, b][..], b"index: 3\n"].concat())?;
    if a == b {
        for n in [1usize, 3, 23, 24, 25, 100, 1000] {
            check(ch, "I02.lang", format!("id: {}, index: 0\n", "q".repeat(n + usize::from(a))).as_bytes())?;
        }
        // Any index.
        for n in (0..3).map(|k| u128::from(a) * 3 + k).chain([10u128.pow(u32::from(a) % 38), (1 << a) - 1, 1 << a]) {
            check(ch, "I02.lang", format!("id: en, index: {n}\n").as_bytes())?;
            check(ch, "I02.lang", format!("id: en, index: 0{n}\nid: fr, index: {n} \n").as_bytes())?;
        }
    }
    Ok(())
}
fn i02_near(ch: &mut Ch) -> R {
    // After a good line: the same kind of line with one byte replaced, removed, inserted or repeated.
    let kind = ch.choose(2);
    let pal = line_of(&pal_n(11), false);
    let good = [format!("palette: {pal}"), "id: fr, index: 7".to_string()];
    let before = [format!("palette: {}\nid: en, index: 0\n", line_of(&pal_n(10), false)), String::new()];
    let b = before[ch.choose(2)].as_bytes();
    let g = good[kind].as_bytes();
    // All of the id line, the key of the palette and its first colours.
    let at = ch.choose(if kind == 0 { 26 } else { g.len() + 1 });
    let vals: Vec<u8> = (0..=255).collect();
    for v in vals {
        let mut f = b.to_vec();
        let mut m = g.to_vec();
        m.insert(at, v);
        f.extend(&m);
        f.push(b'\n');
        check(ch, "I02.near", &f)?;
        if at < g.len() {
            let mut f = b.to_vec();
            let mut m = g.to_vec();
            m[at] = v;
            f.extend(&m);
            f.push(b'\n');
            check(ch, "I02.near", &f)?;
        }
    }
    for n in 1..=(g.len() - at.min(g.len())).min(12) {
        let mut m = g.to_vec();
        m.drain(at..at + n);
        check(ch, "I02.near", &[b, &m, b"\n"].concat())?;
        let mut m = g.to_vec();
        let t = g[at..at + n].to_vec();
        m.splice(at..at, t);
        check(ch, "I02.near", &[b, &m, b"\n"].concat())?;
    }
    Ok(())
}
fn i02_unicode(ch: &mut Ch) -> R {
    // Characters beyond ASCII that are blanks, letters, digits or signs somewhere, at every place.
    let chars = [
        "\u{feff}", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{3000}", "\u{2003}", "\u{ad}", "é", "ß", "ſ", "ı", "İ", "\u{212a}", "\u{1d41a}", "ａ", "：", "，", "９", "٣", "а",
        "\u{301}", "中", "\u{1f600}", "\u{10ffff}", "\u{0}", "ª", "ʰ", "－", "\u{feff}\u{feff}", "éé", "\u{202e}",
    ];
    let c = *ch.pick(&chars);
    let good = [format!("palette: {}", line_of(&pal_n(11), false)), "id: fr, index: 7".to_string(), "# VobSub index file, v7".to_string(), String::new()];
    let g = &good[ch.choose(4)];
    let before = [format!("palette: {}\nid: en, index: 0\n", line_of(&pal_n(10), false)), String::new(), format!("{c}\n")];
    let b = &before[ch.choose(3)];
    let after = *ch.pick(&["", "id: de, index: 1\n"]);
    for at in 0..=g.len() {
        // What is blank at the end of a line is left open.
        if at < g.len() || !c.contains(char::is_whitespace) {
            check(ch, "I02.unicode", format!("{b}{}{c}{}\n{after}", &g[..at], &g[at..]).as_bytes())?;
        }
        if at < g.len() {
            if at + 1 < g.len() || !c.contains(char::is_whitespace) {
                check(ch, "I02.unicode", format!("{b}{}{c}{}\n{after}", &g[..at], &g[at + 1..]).as_bytes())?;
            }
        }
    }
    Ok(())
}
fn i02_long(ch: &mut Ch) -> R {
    // A real file's shape: any number of lines between, before and after.
    let n = *ch.pick(&[0usize, 1, 2, 10, 100, 300, 1000, 22_000, 66_000]);
    let at = ch.choose(3);
    let end = *ch.pick(&["\n", "\r\n"]);
    let stamp = |i: usize| format!("timestamp: 00:{:02}:{:02}:101, filepos: {:09x}{end}", i / 60, i % 60, i * 0x800);
    let mut f = format!("# VobSub index file, v7 (do not modify this line!){end}");
    for k in 0..3 {
        if k == at {
            f.push_str(&format!("palette: {}{end}", line_of(&pal_n(8), false)));
        }
        (0..n).for_each(|i| f.push_str(&stamp(i)));
        if k == 2 - at {
            f.push_str(&format!("id: sv, index: 0{end}"));
        }
    }
    f.push_str(&"x".repeat(n * 17));
    let path = scratch().with_extension("idx");
    std::fs::write(&path, &f).expect("scratch file");
    let (want, _) = idx_ref(f.as_bytes());
    assert_eq!(want, Ok((pal_n(8), Some("sv".to_string()))));
    let got = guard(|| show(Index::open(&path)));
    let _ = std::fs::remove_file(&path);
    if got.as_ref() != Ok(&want) {
        viol!(format!("I02.long:{n}:{at}"), "Index::open gives {got:?}, expected {want:?}");
    }
    check(ch, "I02.long", f.as_bytes())
}

fn i02_lines(ch: &mut Ch) -> R {
    // Lines of any length, whose ends look like lines that matter.
    let n = *ch.pick(ch.tier.b(
        &[100usize, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_536, 65_537, 131_072, 1_000_000, 1 << 20][..],
        &[100, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 65_537, 131_072, 262_144, 1_000_000, 1 << 20, 1 << 24][..],
    ));
    let pal = format!("palette: {}", line_of(&pal_n(4), false));
    let tail = [String::new(), pal.clone(), "id: fr, index: 1".to_string()][ch.choose(3)].clone();
    let fill = *ch.pick(&["#", " ", "a", "\u{e9}"]);
    let end = *ch.pick(&["\n", "\r\n"]);
    let k = ch.choose(4);
    // In a comment, after a key nobody knows, as a language, as an alternative name.
    let head = ["# ", "key: ", "id: ", "alt: "][k];
    let mut line = String::from(head);
    let m = n / fill.len();
    (0..m).for_each(|_| line.push_str(fill));
    line.push_str(&tail);
    let mut f = format!("# VobSub index file, v7{end}{line}{end}{pal}{end}");
    if k != 2 {
        f.push_str(&format!("id: sv, index: 0{end}"));
    }
    check(ch, "I02.lines", f.as_bytes())
}
fn i02_many(ch: &mut Ch) -> R {
    // Any number of the lines that matter: the last one of each counts.
    let n = match ch.choose(2) {
        0 => ch.range(1, 40),
        _ => *ch.pick(&[63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096, 10_000, 65_535, 65_536, 65_537]),
    };
    let kind = ch.choose(4);
    let mut f = String::new();
    for i in 0..n {
        if kind != 1 {
            f.push_str(&format!("palette: {}\n", line_of(&pal_n(i), false)));
        }
        if kind != 0 {
            let lang: String = [i / 676, i / 26, i].iter().map(|k| (b'a' + (k % 26) as u8) as char).collect();
            f.push_str(&format!("id: {lang}, index: {i}\n"));
        }
        // The last language but one is none.
        if kind == 3 && i + 2 == n {
            f.push_str("id: --, index: 0\n");
        }
    }
    check(ch, "I02.many", f.as_bytes())
}
fn i02_names(ch: &mut Ch) -> R {
    // The name of the file does not matter.
    let k = ch.choose(NAMES.len());
    let p = form(&named(&scratch(), k), ch.choose(FORMS));
    let f = format!("# VobSub index file, v7\npalette: {}\nid: sv, index: 0\n", line_of(&pal_n(k), false));
    std::fs::write(&p, &f).expect("scratch file");
    let got = guard(|| show(Index::open(&p)));
    let _ = std::fs::remove_file(&p);
    ch.walk(&[h64(&p)]);
    ch.eval(h64(&p), true);
    let want = Ok((pal_n(k), Some("sv".to_string())));
    if got.as_ref() != Ok(&want) {
        viol!(format!("I02.names:{k}"), "{} is read as {got:?}, expected {want:?}", p.display());
    }
    ch.validated(1);
    Ok(())
}

// ================================================================ I03

struct Chunks<'a, 'b> {
    data: &'a [u8],
    pos: usize,
    default: usize,
    /// Deviations that are not used.
    spare: u32,
    ch: &'a mut Ch<'b>,
}
impl Read for Chunks<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let c = if self.ch.devs_left() > self.spare { self.ch.dev(5) } else { 0 };
        let n = match c {
            0 => self.default,
            1 => return Err(ErrorKind::Interrupted.into()),
            2 => 1,
            3 => 2,
            _ => usize::MAX,
        };
        let n = n.min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn small_file() -> Vec<u8> {
    format!("# c\u{e9}\r\nid: fr, index: 0\npalette: {}\r\nid: en, index: 2\nx", line_of(&pal_n(9), true)).into_bytes()
}
fn i03_chunks(ch: &mut Ch) -> R {
    let f = small_file();
    let default = *ch.pick(&[1usize, 2, 3, 7, 16, 64, usize::MAX]);
    let cap = *ch.pick(&[1usize, 2, 5, 16, 8192]);
    let (want, tr) = idx_ref(&f);
    // The third one only where there are not too many reads.
    let spare = u32::from(ch.devs_left() == 3 && default.min(cap) < 3);
    let got = read_with(BufReader::with_capacity(cap, Chunks { data: &f, pos: 0, default, spare, ch: &mut *ch }));
    ch.walk(&tr);
    ch.eval(h64(&(default, cap, ch.devs_left())), true);
    if got.as_ref() != Ok(&want) {
        viol!(format!("I03.chunks:{default}:{cap}"), "read by {default} bytes into a buffer of {cap}: {got:?}, expected {want:?}");
    }
    ch.validated(1);
    Ok(())
}
struct Failing<'a> {
    data: &'a [u8],
    at: usize,
    chunk: usize,
    kind: ErrorKind,
    pos: usize,
    failed: &'a std::cell::Cell<bool>,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && !self.failed.get() {
            self.failed.set(true);
            return Err(io::Error::new(self.kind, "planned"));
        }
        let stop = if self.failed.get() { self.data.len() } else { self.at.min(self.data.len()) };
        let n = self.chunk.min(b.len()).min(stop - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Interrupts the read at `at` as often as that.
struct Storm<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    left: usize,
    chunk: usize,
}
impl Read for Storm<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && self.left > 0 {
            self.left -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let n = self.chunk.min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub const STORMS: [usize; 22] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 100, 256, 1001, 70_000];
fn i03_storm(ch: &mut Ch) -> R {
    // Any number of interruptions in a row.
    let f = small_file();
    let at = ch.choose(f.len() + 1);
    let n = *ch.pick(&STORMS);
    let chunk = *ch.pick(&[1usize, 7, usize::MAX]);
    let cap = *ch.pick(&[1usize, 16, 8192]);
    let (want, _) = idx_ref(&f);
    let got = read_with(BufReader::with_capacity(cap, Storm { data: &f, pos: 0, at, left: n, chunk }));
    ch.walk(&[h64(&("storm", at)), h64(&("storm", at, n))]);
    ch.eval(h64(&(at, n, chunk, cap)), true);
    if got.as_ref() != Ok(&want) {
        viol!(format!("I03.storm:{at}:{n}"), "interrupted {n} times at {at} (reads of {chunk}, buffer of {cap}): {got:?}, expected {want:?}");
    }
    ch.validated(1);
    Ok(())
}
fn i03_faults(ch: &mut Ch) -> R {
    // A failure at every position reaches the caller through its own conversion.
    let f = small_file();
    let at = ch.choose(f.len() + 1);
    let kind = *ch.pick(&ERROR_KINDS);
    let chunk = *ch.pick(&[1usize, 5, usize::MAX]);
    let cap = *ch.pick(&[1usize, 8, 8192]);
    let failed = std::cell::Cell::new(false);
    let got = read_with(BufReader::with_capacity(cap, Failing { data: &f, at, chunk, kind, pos: 0, failed: &failed }));
    ch.walk(&[h64(&("f", at)), h64(&("f", at, chunk, cap))]);
    ch.eval(h64(&(at, chunk, cap, kind as u8)), true);
    if got != Ok(Err(Out::Io(kind))) {
        viol!(format!("I03.faults:{at}"), "reader failing at {at} with {kind:?} (reads of {chunk}, buffer of {cap}): {got:?}");
    }
    // The conversion gets the very error.
    let seen = RefCell::new(vec![]);
    failed.set(false);
    let r = guard(|| {
        Index::read_index(
            BufReader::with_capacity(cap, Failing { data: &f, at, chunk, kind, pos: 0, failed: &failed }),
            &|e: io::Error| {
                seen.borrow_mut().push((e.kind(), e.get_ref().map(|s| s.to_string())));
                VobSubError::LangParsing
            },
        )
        .map(drop)
        .map_err(|e| matches!(e, VobSubError::LangParsing))
    });
    if r != Ok(Err(true)) || *seen.borrow() != [(kind, Some("planned".to_string()))] {
        viol!(format!("I03.faults:{at}"), "reader failing at {at} with {kind:?}: {r:?}, converted {:?}", seen.borrow());
    }
    ch.validated(2);
    Ok(())
}
fn i03_utf8(ch: &mut Ch) -> R {
    // Text that is not UTF-8, at every place; and text that is, whatever the reads.
    let f = small_file();
    let at = ch.choose(f.len() + 1);
    let seqs: [&[u8]; 16] = [
        b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xe0\x80\x80", b"\xf0\x9f\x98",
        b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc3\n\xa9", b"\xc3\xa9", b"\xf0\x9f\x98\x80",
    ];
    let path = scratch().with_extension("idx");
    for s in seqs {
        let mut m = f.clone();
        m.splice(at..at, s.iter().copied());
        check(ch, "I03.utf8", &m)?;
        let (want, _) = idx_ref(&m);
        let open = two_reasons(&m);
        let same = |g: &Result<Idx, String>| match g {
            Ok(Err(_)) if open => want.is_err(),
            Ok(g) => *g == want,
            _ => false,
        };
        for cap in [1usize, 3, 16] {
            let got = read_with(BufReader::with_capacity(cap, &m[..]));
            if !same(&got) {
                viol!(format!("I03.utf8:{:016x}", h64(&m)), "index \"{}\" by a buffer of {cap} is read as {got:?}, expected {want:?}", quote(&m));
            }
            ch.validated(1);
        }
        std::fs::write(&path, &m).expect("scratch file");
        let got = guard(|| match Index::open(&path) {
            Err(VobSubError::Io { source, path: p }) if p == path => Err(Out::Io(source.kind())),
            Err(VobSubError::Io { .. }) => Err(Out::Other),
            o => show(o),
        })
        .map_err(|p| format!("panics: {p}"));
        if !same(&got) {
            viol!(format!("I03.utf8:{:016x}", h64(&m)), "index \"{}\" in a file is read as {got:?}, expected {want:?}", quote(&m));
        }
        ch.validated(1);
    }
    let _ = std::fs::remove_file(&path);
    Ok(())
}
fn i03_pipes(ch: &mut Ch) -> R {
    // A pipe delivers its bytes as it likes.
    let b = small_file();
    let k = ch.choose(b.len() + 2);
    let (want, _) = idx_ref(&b);
    let got = piped(&parts(&b, k), |p| guard(|| show(Index::open(p))));
    ch.walk(&[h64(&k)]);
    ch.eval(h64(&k), true);
    if got.as_ref() != Ok(&want) {
        viol!(format!("I03.pipes:{k}"), "a pipe that delivers \"{}\" cut at {k} is read as {got:?}, expected {want:?}", quote(&b));
    }
    ch.validated(1);
    Ok(())
}
fn i03_ahead(ch: &mut Ch) -> R {
    // The reader that is given holds bytes already, and has given some before.
    let f = small_file();
    let cap = ch.range(1, f.len() + 2);
    let skip = ch.choose(4);
    let before = [&b""[..], b"z", b"id: zz, index: 9\n", b"palette: no\n\xff\xff\n0123456789"][skip];
    let (want, _) = idx_ref(&f);
    for chunk in [1usize, 7, usize::MAX] {
        let all = [before, &f[..]].concat();
        let mut r = BufReader::with_capacity(cap, Storm { data: &all, pos: 0, at: usize::MAX, left: 0, chunk });
        let mut head = vec![0; before.len()];
        r.read_exact(&mut head).expect("bytes");
        let held = r.fill_buf().expect("bytes").len();
        let got = read_with(r);
        ch.walk(&[h64(&("ahead", held)), h64(&("ahead", held, skip))]);
        ch.eval(h64(&(cap, skip, chunk)), true);
        if got.as_ref() != Ok(&want) {
            viol!(format!("I03.ahead:{cap}:{skip}:{chunk}"), "from a reader of {cap} bytes that holds {held}: {got:?}, expected {want:?}");
        }
        ch.validated(1);
    }
    Ok(())
}
fn i03_open(ch: &mut Ch) -> R {
    let base = scratch();
    let p = match ch.choose(3) {
        0 => base.with_extension("missing.idx"),
        1 => base.parent().expect("parent").join("no/such/x.idx"),
        _ => base.parent().expect("parent").to_path_buf(),
    };
    let p = form(&p, ch.choose(FORMS));
    let r = guard(|| match Index::open(&p).inspect_err(|e| tell(e)) {
        Err(VobSubError::Io { path, .. }) if path == p => None,
        o => Some(format!("{o:?}")),
    });
    ch.walk(&[h64(&p)]);
    ch.eval(h64(&p), true);
    if r != Ok(None) {
        viol!("I03.open", "opening {} gives {r:?}", p.display());
    }
    ch.validated(1);
    Ok(())
}

// ================================================================ R01

pub const IDX_MAGIC: &[u8] = b"# VobSub index file";
pub const SUB_MAGIC: &[u8] = &[0, 0, 1, 0xba];

pub fn probe_check(ch: &mut Ch, h: &str, b: &[u8]) -> R {
    let path = scratch();
    std::fs::write(&path, b).expect("scratch file");
    let k = h64(b);
    for (name, magic) in [("is_idx_file", IDX_MAGIC), ("is_sub_file", SUB_MAGIC)] {
        let got = guard(|| (if magic == IDX_MAGIC { is_idx_file(&path) } else { is_sub_file(&path) }).map_err(|e| matches!(e, VobSubError::Io { path: p, .. } if p == path)));
        let ok = match &got {
            // A file that is too short is no such file: refused or reported.
            Ok(Err(true)) | Ok(Ok(false)) if b.len() < magic.len() => true,
            Ok(Ok(v)) => b.len() >= magic.len() && *v == b.starts_with(magic),
            _ => false,
        };
        if !ok {
            viol!(format!("{h}:{k:016x}"), "{name} of a file of {} bytes \"{}\" gives {got:?}", b.len(), quote(&b[..b.len().min(40)]));
        }
        ch.validated(1);
    }
    ch.walk(&[h64(&b.len()), k]);
    ch.eval(k, true);
    ch.sample(|| format!("{h}: {} bytes \"{}\"", b.len(), quote(&b[..b.len().min(40)])));
    Ok(())
}
fn r01_bytes(ch: &mut Ch) -> R {
    let magic = [IDX_MAGIC, SUB_MAGIC][ch.choose(2)];
    let at = ch.choose(magic.len());
    let rest = ch.choose(ch.tier.b(3, 3));
    for v in 0..=255u8 {
        let mut f = magic.to_vec();
        f[at] = v;
        f.extend(vec![b'x'; [0, 40, 5000][rest]]);
        probe_check(ch, "R01.bytes", &f)?;
    }
    Ok(())
}
fn r01_pieces(ch: &mut Ch) -> R {
    // Every part of the magic, after and before something else.
    let magic = [IDX_MAGIC, SUB_MAGIC][ch.choose(2)];
    let n = ch.choose(magic.len() + 1);
    let tail: &[u8] = [&b""[..], b"#", b"\0", b" V", b"\xba", b"xxxxxxxxxxxxxxxxxxxxxxxxxx"][ch.choose(6)];
    probe_check(ch, "R01.pieces", &[&magic[..n], tail].concat())?;
    probe_check(ch, "R01.pieces", &[tail, &magic[..n]].concat())?;
    probe_check(ch, "R01.pieces", &[&magic[n..], tail].concat())?;
    probe_check(ch, "R01.pieces", &[&magic[..n], &magic[..], tail].concat())?;
    probe_check(ch, "R01.pieces", &magic[..n].to_ascii_uppercase())?;
    probe_check(ch, "R01.pieces", &magic.to_ascii_lowercase())
}
fn r01_names(ch: &mut Ch) -> R {
    // The name of the file does not matter, nor how its path is written.
    let k = ch.choose(NAMES.len());
    let p = form(&named(&scratch(), k), ch.choose(FORMS));
    let b: &[u8] = *ch.pick(&[IDX_MAGIC, SUB_MAGIC, b"# VobSub index files are text", b"\0\0\x01\xbd\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"]);
    // A link to a file is as good as the file.
    if ch.flag() {
        let target = scratch();
        std::fs::write(&target, b).expect("scratch file");
        std::os::unix::fs::symlink(&target, &p).expect("scratch link");
    } else {
        std::fs::write(&p, b).expect("scratch file");
    }
    let got = guard(|| [is_idx_file(&p), is_sub_file(&p)].map(|r| r.map_err(|e| e.to_string())));
    let _ = std::fs::remove_file(&p);
    ch.walk(&[h64(&p)]);
    ch.eval(h64(&(&p, b)), true);
    let want = [IDX_MAGIC, SUB_MAGIC].map(|m| if b.len() < m.len() { None } else { Some(b.starts_with(m)) });
    let ok = got.as_ref().is_ok_and(|g| g.iter().zip(want).all(|(g, w)| match w {
        Some(w) => *g == Ok(w),
        None => *g != Ok(true),
    }));
    if !ok {
        viol!(format!("R01.names:{k}"), "{} with \"{}\" is recognised as {got:?}, expected {want:?}", p.display(), quote(b));
    }
    ch.validated(2);
    Ok(())
}
fn r01_pipes(ch: &mut Ch) -> R {
    // How the bytes of the file arrive does not matter.
    let m = *ch.pick(&[IDX_MAGIC, SUB_MAGIC]);
    let mut b = m.to_vec();
    match ch.choose(4) {
        0 => b.extend(b" and more\n\0\x01"),
        1 => {}
        2 => b.truncate(ch.choose(m.len())),
        _ => b[ch.choose(m.len())] ^= 1,
    }
    let k = ch.choose(b.len() + 2);
    let idx = ch.flag();
    let (got, path) = piped(&parts(&b, k), |p| (guard(|| if idx { is_idx_file(p) } else { is_sub_file(p) }), p.to_path_buf()));
    let want = if idx { IDX_MAGIC } else { SUB_MAGIC };
    ch.walk(&[h64(&(&b, idx)), h64(&(&b, idx, k))]);
    ch.eval(h64(&(&b, idx, k)), true);
    let ok = match &got {
        Ok(Ok(r)) => *r == (b.len() >= want.len() && b.starts_with(want)),
        Ok(Err(VobSubError::Io { path: p, .. })) => b.len() < want.len() && *p == path,
        _ => false,
    };
    if !ok {
        viol!(format!("R01.pipes:{}:{k}:{idx}", quote(&b)), "a pipe with \"{}\" that arrive in parts (cut at {k}) is recognised as {got:?}", quote(&b));
    }
    ch.validated(1);
    Ok(())
}
fn r01_paths(ch: &mut Ch) -> R {
    let base = scratch();
    let dir = base.parent().expect("parent");
    let p = match ch.choose(3) {
        0 => dir.join("missing"),
        1 => dir.join("no/such/file"),
        _ => dir.to_path_buf(),
    };
    let p = form(&p, ch.choose(FORMS));
    let r = guard(|| [is_idx_file(&p), is_sub_file(&p)].map(|r| matches!(r, Err(VobSubError::Io { path, .. }) if path == p)));
    ch.walk(&[h64(&p)]);
    ch.eval(h64(&p), true);
    if r != Ok([true, true]) {
        viol!("R01.paths", "probing {} is not reported as an error with its path: {r:?}", p.display());
    }
    ch.validated(2);
    Ok(())
}

pub const H: &[Harness] = &[
    Harness { prop: "I01", name: "I01.bytes", what: "every byte of a palette x all values", devs: (0, 0), serial: false, run: i01_bytes },
    Harness { prop: "I01", name: "I01.colours", what: "every value of every component in each place and case", devs: (0, 0), serial: false, run: i01_colours },
    Harness { prop: "I01", name: "I01.case", what: "every case of every digit of 5 colours in each place", devs: (0, 0), serial: false, run: i01_case },
    Harness { prop: "I01", name: "I01.count", what: "0 to 300 (3000) entries x separators x ends", devs: (0, 0), serial: false, run: i01_count },
    Harness { prop: "I01", name: "I01.cut", what: "every truncation, removal and insertion within the bounds", devs: (0, 0), serial: false, run: i01_cut },
    Harness { prop: "I01", name: "I01.mix", what: "two of 6 colours in all patterns of sixteen, read and their luminance", devs: (0, 0), serial: false, run: i01_mix },
    Harness { prop: "I01", name: "I01.luma", what: "the luminance of every colour", devs: (0, 0), serial: false, run: i01_luma },
    Harness { prop: "I02", name: "I02.words", what: "all words of up to 4 (5) lines over 26 kinds x ends of line", devs: (0, 0), serial: false, run: i02_words },
    Harness { prop: "I02", name: "I02.lang", what: "pairs of characters in and around the language, lengths", devs: (0, 0), serial: false, run: i02_lang },
    Harness { prop: "I02", name: "I02.near", what: "every byte of a line that matters replaced, inserted, removed or repeated, after good lines", devs: (0, 0), serial: false, run: i02_near },
    Harness { prop: "I02", name: "I02.unicode", what: "33 characters beyond ASCII at every place of lines that matter and do not, after good lines", devs: (0, 0), serial: false, run: i02_unicode },
    Harness { prop: "I02", name: "I02.long", what: "files of up to 198000 lines, places of the lines that matter, from files", devs: (0, 0), serial: false, run: i02_long },
    Harness { prop: "I02", name: "I02.lines", what: "lines of up to 1 MiB (16 MiB) whose ends look like others", devs: (0, 0), serial: false, run: i02_lines },
    Harness { prop: "I02", name: "I02.many", what: "1 to 40 palettes and languages, and around powers of two and ten up to 65537", devs: (0, 0), serial: false, run: i02_many },
    Harness { prop: "I02", name: "I02.names", what: "names of files", devs: (0, 0), serial: false, run: i02_names },
    Harness { prop: "I03", name: "I03.chunks", what: "every place for short reads and interruptions within the deviation bound (the third one: not with reads of 1 or 2 bytes) x read sizes x buffers", devs: (2, 3), serial: false, run: i03_chunks },
    Harness { prop: "I03", name: "I03.storm", what: "up to 70000 interruptions in a row at every position x read sizes x buffers", devs: (0, 0), serial: false, run: i03_storm },
    Harness { prop: "I03", name: "I03.faults", what: "a failure at every position x 36 kinds x read sizes x buffers", devs: (0, 0), serial: false, run: i03_faults },
    Harness { prop: "I03", name: "I03.utf8", what: "every place of text that is not UTF-8, from buffers and files", devs: (0, 0), serial: false, run: i03_utf8 },
    Harness { prop: "I03", name: "I03.pipes", what: "a file that is a pipe: cut at every byte, or all single bytes", devs: (0, 0), serial: false, run: i03_pipes },
    Harness { prop: "I03", name: "I03.ahead", what: "buffers of every capacity that are filled when given x 4 texts read from them before x read sizes", devs: (0, 0), serial: false, run: i03_ahead },
    Harness { prop: "I03", name: "I03.open", what: "files that can not be read", devs: (0, 0), serial: false, run: i03_open },
    Harness { prop: "R01", name: "R01.bytes", what: "every byte of both magic numbers x all values x what follows", devs: (0, 0), serial: false, run: r01_bytes },
    Harness { prop: "R01", name: "R01.pieces", what: "every part of both magic numbers with something before or after", devs: (0, 0), serial: false, run: r01_pieces },
    Harness { prop: "R01", name: "R01.names", what: "names of files x contents", devs: (0, 0), serial: false, run: r01_names },
    Harness { prop: "R01", name: "R01.pipes", what: "pipes with both magic numbers, all their parts and near misses: cut at every byte, or all single bytes", devs: (0, 0), serial: false, run: r01_pipes },
    Harness { prop: "R01", name: "R01.paths", what: "missing files and directories", devs: (0, 0), serial: false, run: r01_paths },
];
