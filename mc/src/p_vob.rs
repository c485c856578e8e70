//! Properties of the reading and rendering of VobSub subtitles.

use crate::engine::*;
use crate::viol;
use crate::vob::*;
use image::{Luma, LumaA, Rgb, Rgba};
use std::cell::RefCell;
use subtile::content::{Area, AreaValues};
use subtile::time::TimeSpan;
use subtile::image::{ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::vobsub::{conv_to_rgba, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

/// Compare the library with the reference on the bytes of a `.sub` file.
pub fn check(ch: &mut Ch, h: &str, b: &[u8], nontrivial: bool) -> Result<Reference, Viol> {
    let r = reference(b);
    let got = read(b);
    let k = h64(b);
    ch.walk(&r.trace);
    ch.eval(k, nontrivial);
    if let Err(e) = agree_all(&r.items, &got) {
        viol!(format!("{h}:{k:016x}"), "{e}; file {}", hex(b));
    }
    ch.validated(1);
    ch.sample(|| format!("{h}: {} items from {}", r.items.len(), hex(b)));
    Ok(r)
}

/// As `check`, but what is expected is given.
pub fn check_items(ch: &mut Ch, h: &str, b: &[u8], want: &[RItem]) -> R {
    let got = read(b);
    let k = h64(b);
    ch.eval(k, true);
    if let Err(e) = agree_all(want, &got) {
        viol!(format!("{h}:{k:016x}"), "{e}; file {}", hex(b));
    }
    ch.validated(1);
    Ok(())
}

const PXA: [u8; 8] = [0, 1, 1, 2, 3, 3, 3, 0];
const PXB: [u8; 9] = [2, 2, 2, 1, 0, 3, 0, 0, 1];

/// Three different subtitles: (pts, packet).
pub fn three() -> Vec<(u64, Vec<u8>)> {
    let (d, o) = encode(4, &PXA, false, true);
    let a = spu(
        &d,
        &[
            Seq::new(0, std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), o)),
            Seq::new(150, vec![Cmd::Stop]),
        ],
    );
    let (d, o) = encode(3, &PXB, true, false);
    let b = spu(&d, &[Seq::new(7, std_cmds([5, 6, 7, 8], [1, 2, 3, 4], (0, 2, 0, 2), o))]);
    let (d, o) = encode(4, &PXA, true, false);
    let c = spu(
        &d,
        &[
            Seq::new(1, vec![Cmd::Force, Cmd::Pal([9, 10, 11, 12]), Cmd::Coord(100, 103, 300, 301)]),
            Seq::new(3, vec![Cmd::Start, Cmd::Alpha([0, 15, 15, 1]), Cmd::Rle(o.0, o.1)]),
            Seq::new(65535, vec![Cmd::Stop]),
        ],
    );
    vec![(90_000, a), (450_123, b), ((1 << 33) - 90 * 1000 * 1000, c)]
}

fn canonical(s: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (p, d) in s {
        put_simple(&mut o, *p, d);
    }
    o
}

// ================================================================ V01

const JUNK: [&[u8]; 10] = [
    &[],
    &[0],
    &[0, 0],
    &[0, 0, 1],
    &[0, 0, 1, 0xba],
    &[0xff; 7],
    // A padding packet.
    &[0, 0, 1, 0xbe, 0, 3, 0xff, 0xff, 0xff],
    // A pack without a packet of subtitles.
    &[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 3, 0xf3, 0xf8, 0, 0, 1, 0xe0, 0, 1, 0],
    // An MPEG-1 pack.
    &[0, 0, 1, 0xba, 0x21, 0, 1, 0, 1, 0x80, 0, 1],
    &[0, 0, 1, 0xbd, 0, 0],
];

/// How one packet is dressed: each departure from the plain form is a deviation.
fn dress(ch: &mut Ch, p: &mut Pack, first: bool, out: &mut Vec<u8>) {
    match ch.dev(26) {
        0 => {}
        k @ 1..=9 => out.extend(JUNK[k]),
        k @ 10..=16 => p.stuff = (k - 9) as u8,
        17 => p.hstuff = 1,
        18 => p.hstuff = 7,
        19 => p.hstuff = 200,
        20 => {
            p.hdr = 0xbf;
            p.flags = 0x3f;
        }
        21 => {
            if first {
                p.dts = Some(p.pts.unwrap() ^ 0x1_5555_5555);
            } else {
                p.pts = Some(77);
            }
        }
        22 => {
            if !first {
                p.pts = Some((1 << 33) - 1);
                p.dts = Some(5);
            } else {
                p.hdr = 0x80;
            }
        }
        23 => {
            p.scr = (1 << 33) - 1;
            p.ext = 511;
            p.rate = (1 << 22) - 1;
        }
        24 => {
            p.scr = 0;
            p.rate = 0;
        }
        // A packet of another stream before this one (not before a first one).
        25 => {
            if !first {
                Pack { id: p.id ^ 1, ..Pack::default() }.put(out, &[9, 9, 9]);
            } else {
                out.extend([0xba, 1, 0, 0]);
            }
        }
        _ => unreachable!(),
    }
}

fn v01_cuts(ch: &mut Ch) -> R {
    let subs = three();
    let want = reference(&canonical(&subs)).items;
    assert!(want.iter().all(Result::is_ok) && want.len() == 3);
    let which = ch.choose(3);
    let maxcuts = 2;
    let ncuts = ch.range(0, maxcuts);
    let n = subs[which].1.len();
    let mut cuts = vec![];
    let mut lo = 2;
    for _ in 0..ncuts {
        // An empty continuation packet is allowed.
        let c = ch.range(lo, n);
        cuts.push(c);
        lo = c;
    }
    let id = *ch.pick(&[0x20u8, 0x3f]);
    let mut o = vec![];
    for (i, (pts, d)) in subs.iter().enumerate() {
        let mut at = 0;
        let ends: Vec<usize> =
            if i == which { cuts.iter().copied().chain([n]).collect() } else { vec![d.len()] };
        for (k, &e) in ends.iter().enumerate() {
            // A packet after the whole subtitle was read would start another one.
            if k > 0 && at == d.len() {
                continue;
            }
            let mut p = Pack { id, pts: (k == 0).then_some(*pts), ..Pack::default() };
            dress(ch, &mut p, k == 0, &mut o);
            p.put(&mut o, &d[at..e]);
            at = e;
        }
    }
    let r = check(ch, "V01.cuts", &o, true)?;
    // The reference itself has to be independent of the packets.
    for (a, b) in want.iter().zip(&r.items) {
        assert_eq!(format!("{a:?}"), format!("{b:?}"), "reference depends on packets: {}", hex(&o));
    }
    assert_eq!(want.len(), r.items.len());
    Ok(())
}

/// A subtitle whose packet has `n` bytes (`n` >= 64): padded image data, long lines.
pub fn sized(n: usize, pts: u64) -> (u64, Vec<u8>) {
    let (d, o) = encode(4, &PXA, false, true);
    let cmds = std_cmds([1, 2, 3, 4], [5, 6, 7, 8], (1, 4, 2, 3), o);
    let base = spu(&d, &[Seq::new(0, cmds.clone()), Seq::new(100, vec![Cmd::Stop])]).len();
    let mut d = d;
    for i in 0..n - base {
        d.push((i as u8).wrapping_mul(7) | 1);
    }
    // The image is at the end of the data.
    let k = n - base;
    d.rotate_right(k);
    let cmds = std_cmds([1, 2, 3, 4], [5, 6, 7, 8], (1, 4, 2, 3), (o.0 + k as u16, o.1 + k as u16));
    (pts, spu(&d, &[Seq::new(0, cmds), Seq::new(100, vec![Cmd::Stop])]))
}

fn v01_sizes(ch: &mut Ch) -> R {
    let sizes: Vec<usize> = match ch.tier {
        Tier::Quick => {
            let mut v: Vec<usize> = (64..340).collect();
            v.extend([500, 511, 512, 1023, 1024, 1025, 2028, 2029, 2047, 2048, 2049, 4095, 4096, 8192]);
            v.extend([32767, 32768, 32769, 65279, 65280, 65281, 65518, 65519, 65533, 65534, 65535]);
            v
        }
        Tier::Thorough => (64..4400).chain((4400..65536).step_by(97)).chain(65500..65536).collect(),
    };
    let n = *ch.pick(&sizes);
    let chunk = *ch.pick(&[usize::MAX, 65000, 2028, 1024, 256, 255, 64, 17]);
    if n / chunk.min(60000) > 4000 {
        return Ok(());
    }
    let s = [three().remove(0), sized(n, 180_000), three().remove(1)];
    let mut o = vec![];
    for (pts, d) in &s {
        let mut p = Pack { pts: Some(*pts), ..Pack::default() };
        for c in d.chunks(chunk.min(65526)) {
            p.put(&mut o, c);
            p.pts = None;
        }
    }
    let r = check(ch, "V01.sizes", &o, true)?;
    assert!(r.items.len() == 3 && r.items.iter().all(Result::is_ok));
    Ok(())
}

fn v01_history(ch: &mut Ch) -> R {
    let subs = three();
    let a = &subs[0].1;
    let b = &subs[1].1;
    let mut o = vec![];
    let depth = ch.tier.b(4, 5);
    for _ in 0..depth {
        let p = |pts: Option<u64>, id| Pack { pts, id, ..Pack::default() };
        match ch.choose(13) {
            0 => break,
            1 => p(Some(1000), 0x20).put(&mut o, a),
            2 => p(Some(2000), 0x20).put(&mut o, &a[..9]),
            3 => p(None, 0x20).put(&mut o, &a[9..]),
            4 => p(None, 0x20).put(&mut o, &a[9..20]),
            5 => p(None, 0x20).put(&mut o, &a[20..]),
            6 => p(Some(3000), 0x21).put(&mut o, b),
            7 => p(Some(4000), 0x21).put(&mut o, &b[..2]),
            8 => p(None, 0x21).put(&mut o, &b[2..]),
            9 => p(Some(5000), 0x20).put(&mut o, &[0]),
            // More data than the subtitle has.
            10 => p(Some(6000), 0x20).put(&mut o, &[&b[..], &[1, 2, 3]].concat()),
            11 => o.extend(JUNK[7]),
            12 => p(Some(7000), 0x20).put(&mut o, &[0, 1]),
            _ => unreachable!(),
        }
    }
    check(ch, "V01.history", &o, true)?;
    Ok(())
}

fn v01_streams(ch: &mut Ch) -> R {
    // Packets of every other stream before each packet but the first one of a subtitle, for every own stream.
    let own = ch.choose(256) as u8;
    let all: Vec<u8> = match ch.tier {
        Tier::Quick => {
            let mut v: Vec<u8> = (0..8).map(|k| own ^ 1 << k).collect();
            v.extend([0, 0x1f, 0x20, 0x21, 0x3f, 0x40, 0x80, 0x81, 0xa0, 0xbd, 0xff, own.wrapping_add(1), own.wrapping_sub(1), own ^ 0xff]);
            v.sort_unstable();
            v.dedup();
            v.retain(|v| *v != own);
            v
        }
        Tier::Thorough => (0..=255).filter(|v| *v != own).collect(),
    };
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    for other in all {
        for (data, pts) in [(&[9u8, 9, 9][..], None), (&subs[1].1[..], Some(5)), (&[], None)] {
            let mut o = vec![];
            for (k, (t, d)) in subs.iter().enumerate() {
                let cut = 2 + k * 3;
                Pack { pts: Some(*t), id: own, ..Pack::default() }.put(&mut o, &d[..cut]);
                Pack { pts, id: other, ..Pack::default() }.put(&mut o, data);
                Pack { id: own, ..Pack::default() }.put(&mut o, &d[cut..]);
            }
            check_items(ch, "V01.streams", &o, &want)?;
        }
        ch.walk(&[h64(&own), h64(&(own, other))]);
    }
    Ok(())
}

fn v01_dress(ch: &mut Ch) -> R {
    // All that one packet can be dressed with at the same time.
    let which = ch.choose(3);
    let own = ch.choose(3);
    let mut dressed = Pack {
        stuff: *ch.pick(ch.tier.b(&[0u8, 1, 7][..], &[0, 1, 2, 3, 4, 5, 6, 7][..])),
        hstuff: *ch.pick(&[0usize, 1, 2, 9, 40]),
        hfill: *ch.pick(&[0xffu8, 0, 0x20, 0x55]),
        flags: *ch.pick(&[0u8, 0x3f, 0x20, 1]),
        hdr: *ch.pick(&[0x81u8, 0x80, 0xbf, 0x88]),
        ..Pack::default()
    };
    (dressed.scr, dressed.ext, dressed.rate) = *ch.pick(&[(0x1234, 0, 201), ((1 << 33) - 1, 511, (1 << 22) - 1), (0, 0, 1)]);
    let before = ch.choose(JUNK.len() + 1);
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut o = vec![];
    for (t, d) in &subs {
        for (k, part) in [&d[..2], &d[2..11], &d[11..]].into_iter().enumerate() {
            let mut p = if k == which { dressed.clone() } else { Pack::default() };
            p.pts = (k == 0).then_some(*t);
            if k == which {
                p.pts = if own > 0 { p.pts.or(Some(5)) } else { p.pts };
                p.dts = (own > 1).then_some(77);
                if before < JUNK.len() {
                    o.extend(JUNK[before]);
                } else if k > 0 {
                    Pack { id: 0x21, pts: Some(9), ..dressed.clone() }.put(&mut o, &[9, 9, 9]);
                }
            }
            p.put(&mut o, part);
        }
    }
    check_items(ch, "V01.dress", &o, &want)?;
    ch.walk(&[h64(&(which, own, before)), h64(&(which, own, before, dressed.stuff, dressed.hstuff, dressed.flags, dressed.hdr))]);
    Ok(())
}
fn v01_few(ch: &mut Ch) -> R {
    // Some departures at once, in packets of some cuts.
    let cuts: &[usize] = *ch.pick(&[&[2usize, 11][..], &[9], &[4, 5, 20]]);
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut o = vec![];
    for (pts, d) in &subs {
        let mut at = 0;
        for (k, &e) in cuts.iter().chain([&d.len()]).enumerate() {
            let mut p = Pack { pts: (k == 0).then_some(*pts), ..Pack::default() };
            dress(ch, &mut p, k == 0, &mut o);
            p.put(&mut o, &d[at..e]);
            at = e;
        }
    }
    check_items(ch, "V01.few", &o, &want)?;
    ch.walk(&[h64(cuts), h64(&o)]);
    Ok(())
}
fn v01_headers(ch: &mut Ch) -> R {
    // Packet headers of every length, for the first packet and the next one.
    let which = ch.choose(2);
    let stamps = ch.choose(3);
    let stuff = *ch.pick(ch.tier.b(&[0u8, 7][..], &[0, 1, 2, 3, 4, 5, 6, 7][..]));
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let own = if which == 0 { stamps.max(1) } else { stamps };
    for hstuff in 0..=255 - 5 * own {
        let mut o = vec![];
        for (t, d) in &subs {
            for (k, c) in [&d[..11], &d[11..]].into_iter().enumerate() {
                let mut p = Pack { pts: (k == 0).then_some(*t), ..Pack::default() };
                if k == which {
                    p.stuff = stuff;
                    p.hstuff = hstuff;
                    if own > 0 {
                        p.pts = p.pts.or(Some(5));
                    }
                    if own > 1 {
                        p.dts = Some(77);
                    }
                }
                p.put(&mut o, c);
            }
        }
        check_items(ch, "V01.headers", &o, &want)?;
        ch.walk(&[h64(&(which, own)), h64(&(which, own, stuff, hstuff))]);
    }
    Ok(())
}

fn v01_flags(ch: &mut Ch) -> R {
    // All flags of a packet header, bits and values of the fields of a pack header.
    let which = ch.choose(2);
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut cases = vec![];
    let plain = Pack::default();
    match ch.choose(4) {
        0 => {
            let hdr = 0x80 | ch.choose(64) as u8;
            cases.extend((0..64).map(|flags| Pack { hdr, flags, ..plain.clone() }));
        }
        1 => cases.extend((0..512).map(|ext| Pack { ext, ..plain.clone() })),
        2 => cases.extend((0..33 * 33).map(|k| Pack { scr: 1 << (k / 33) | 1 << (k % 33), ..plain.clone() })),
        _ => {
            // A rate of 0 is forbidden.
            cases.extend((0..22 * 22).map(|k| Pack { rate: 1 << (k / 22) | 1 << (k % 22), ..plain.clone() }));
            cases.extend((0..22).map(|k| Pack { rate: (1 << 22) - 1 - (1 << k), ..plain.clone() }));
        }
    }
    for c in cases {
        let mut o = vec![];
        for (t, d) in &subs {
            for (k, part) in [&d[..11], &d[11..]].into_iter().enumerate() {
                let p = if k == which { c.clone() } else { Pack::default() };
                Pack { pts: (k == 0).then_some(*t), ..p }.put(&mut o, part);
            }
        }
        check_items(ch, "V01.flags", &o, &want)?;
        ch.walk(&[h64(&which), h64(&(which, c.hdr, c.flags, c.ext, c.scr, c.rate))]);
    }
    Ok(())
}

fn v01_foreign(ch: &mut Ch) -> R {
    // Any number of packets of other streams between those of a subtitle.
    let n = match ch.choose(2) {
        0 => ch.range(0, 40),
        _ => *ch.pick(ch.tier.b(
            &[63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 4095, 4097, 10_001, 32_769, 65_535, 65_536, 65_537][..],
            &[63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 4095, 4097, 10_001, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073, 1_000_001][..],
        )),
    };
    let kind = ch.choose(3);
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut o = vec![];
    for (k, (t, d)) in subs.iter().enumerate() {
        let cut = 2 + k * 3;
        Pack { pts: Some(*t), ..Pack::default() }.put(&mut o, &d[..cut]);
        for i in 0..if k == 1 { n } else { n % 7 } {
            match kind {
                // Of a subtitle stream, of many, or empty.
                0 => Pack { pts: Some(i as u64), id: 0x21, ..Pack::default() }.put(&mut o, &[0, 5, 1]),
                1 => Pack { id: 0x21 + (i % 200) as u8, ..Pack::default() }.put(&mut o, &[i as u8; 9]),
                _ => Pack { id: 0x80, ..Pack::default() }.put(&mut o, &[]),
            }
        }
        Pack::default().put(&mut o, &d[cut..]);
    }
    check_items(ch, "V01.foreign", &o, &want)?;
    ch.walk(&[h64(&n), h64(&(n, kind))]);
    Ok(())
}

/// Bytes without a pack start code, of any length.
fn long_junk(n: usize, k: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match k {
        0 => vec![0x55; n],
        1 => vec![0; n],
        2 => (0..n).map(|i| [0, 0, 1][i % 3]).collect(),
        3 => (0..n).map(|i| (i * 7 + i / 256) as u8 | 2).collect(),
        _ => [0, 0, 1, 0xbe, 0xff, 0xff].into_iter().cycle().take(n).collect(),
    };
    // Nothing that would start a code with what follows.
    if let Some(l) = v.last_mut() {
        *l = 0xff;
    }
    v
}
fn long_sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..20).collect();
    let top = match t {
        Tier::Quick => 17,
        Tier::Thorough => 21,
    };
    for k in 5..=top {
        for d in 0..3 {
            v.push((1 << k) + d - 1);
        }
    }
    v.extend([2028, 4056, 10_000, 100_000]);
    v
}
fn v01_gaps(ch: &mut Ch) -> R {
    // Any amount of junk, wherever it may stand.
    let n = *ch.pick(&long_sizes(ch.tier));
    let at = ch.choose(6);
    let j = long_junk(n, ch.choose(5));
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut o = vec![];
    let mut k = 0;
    for (t, d) in subs.iter().take(2) {
        let mut p = Pack { pts: Some(*t), ..Pack::default() };
        for c in [&d[..7], &d[7..]] {
            if k == at {
                o.extend(&j);
            }
            p.put(&mut o, c);
            p.pts = None;
            k += 1;
        }
    }
    if at >= 4 {
        o.extend(&j);
    }
    if at == 4 {
        put_simple(&mut o, subs[2].0, &subs[2].1);
    }
    check_items(ch, "V01.gaps", &o, &want[..2 + usize::from(at == 4)])?;
    ch.walk(&[h64(&n), h64(&(n, at))]);
    Ok(())
}

/// The start codes of a program stream that have a meaning of their own, and borders.
const CODES: [u8; 16] = [0xb9, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf, 0xc0, 0xe0, 0xff, 0xb8, 0xb7, 0xb3, 0x00, 0x01, 0xb5, 0xf0];
fn v01_codes(ch: &mut Ch) -> R {
    // Whatever else has a start code between the packs: ends of programs, headers of systems, padding, video.
    let at = ch.choose(6);
    let mut j = vec![];
    let n = ch.range(1, ch.tier.b(2, 3));
    let mut tr = vec![h64(&at)];
    for _ in 0..n {
        let c = if n == 1 { ch.choose(256) as u8 } else { *ch.pick(&CODES) };
        if c == 0xba {
            return Ok(());
        }
        let f = ch.choose(5);
        j.extend([0, 0, 1, c]);
        match f {
            0 => {}
            1 => j.extend([0, 0]),
            2 => j.extend([0, 5, 0x55, 0x55, 0x55, 0x55, 0x55]),
            3 => {
                j.extend([0, 16]);
                j.extend([0; 16]);
            }
            _ => {
                j.extend([7, 0xec]);
                j.resize(j.len() + 0x7ec, 0xff);
            }
        }
        tr.push(h64(&(c, f)));
    }
    let subs = three();
    let want: Vec<RItem> = reference(&canonical(&subs)).items;
    let mut o = vec![];
    let mut k = 0;
    for (t, d) in subs.iter() {
        let mut p = Pack { pts: Some(*t), ..Pack::default() };
        for c in [&d[..7], &d[7..]] {
            if k == at {
                o.extend(&j);
            }
            p.put(&mut o, c);
            p.pts = None;
            k += 1;
        }
    }
    check_items(ch, "V01.codes", &o, &want)?;
    ch.walk(&tr);
    Ok(())
}

// ================================================================ V02

fn base_img() -> (Vec<u8>, (u16, u16)) {
    encode(4, &PXA, false, true)
}

fn single(seqs: &[Seq], data: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    put_simple(&mut o, 123_456, &spu(data, seqs));
    o
}

fn v02_permute(ch: &mut Ch) -> R {
    let (d, r) = base_img();
    let mut left = std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), r);
    left.push(Cmd::Stop);
    left.push(Cmd::Force);
    let mut cmds = vec![];
    while !left.is_empty() {
        let k = ch.choose(left.len());
        cmds.push(left.remove(k));
    }
    // In how many sequences: every place of one break, or one per command.
    let k = ch.choose(cmds.len() + 1);
    let seqs = if k == cmds.len() {
        cmds.iter().enumerate().map(|(i, c)| Seq::new(i as u16 * 10, vec![c.clone()])).collect()
    } else {
        let t = cmds.split_off(k);
        vec![Seq::new(5, cmds), Seq::new(250, t)]
    };
    let b = single(&seqs, &d);
    let r = check(ch, "V02.permute", &b, true)?;
    assert!(r.items.len() == 1 && r.items[0].is_ok());
    Ok(())
}

fn v02_repeat(ch: &mut Ch) -> R {
    // Each command zero, one or two times, with different values.
    let (d, r) = base_img();
    let alts = [
        [Cmd::Start, Cmd::Start],
        [Cmd::Pal([3, 2, 1, 0]), Cmd::Pal([7, 8, 9, 15])],
        [Cmd::Alpha([15, 0, 9, 4]), Cmd::Alpha([1, 2, 3, 5])],
        [Cmd::Coord(10, 13, 20, 21), Cmd::Coord(11, 14, 22, 23)],
        [Cmd::Rle(r.1, r.1), Cmd::Rle(r.0, r.1)],
        [Cmd::Stop, Cmd::Stop],
        [Cmd::Force, Cmd::Force],
    ];
    let mut s = [vec![], vec![]];
    for a in alts {
        match ch.choose(5) {
            0 => {}
            1 => s[0].push(a[0].clone()),
            2 => s[1].push(a[1].clone()),
            3 => {
                s[0].push(a[0].clone());
                s[1].push(a[1].clone());
            }
            _ => {
                s[0].push(a[1].clone());
                s[0].push(a[0].clone());
            }
        }
    }
    let [a, b] = s;
    let b = single(&[Seq::new(1, a), Seq::new(300, b)], &d);
    check(ch, "V02.repeat", &b, true)?;
    Ok(())
}

fn v02_again(ch: &mut Ch) -> R {
    // Each command three times, with the limits of its values, in one sequence or more.
    let (d, r) = base_img();
    let n = d.len() as u16 + 4;
    let words = [[0u8; 4], [15; 4], [3, 2, 1, 0], [0, 0, 0, 1], [8, 0, 0, 0]];
    let lists: [Vec<Cmd>; 4] = [
        words.map(Cmd::Pal).to_vec(),
        words.map(Cmd::Alpha).to_vec(),
        [(0, 3, 0, 1), (10, 13, 20, 21), (4092, 4095, 4094, 4095), (0, 3, 4094, 4095), (4092, 4095, 0, 1), (0, 0, 0, 0), (256, 259, 16, 17)]
            .map(|(a, b, c, d)| Cmd::Coord(a, b, c, d))
            .to_vec(),
        [(0, 0), (0, r.1), (r.0, 0), r, (r.1, r.0), (n, n), (n - 1, r.1), (0xffff, r.1), (r.0, 0xffff), (1, 1), (0x100, r.1)].map(|(a, b)| Cmd::Rle(a, b)).to_vec(),
    ];
    let k = ch.choose(4);
    let l = &lists[k];
    let w: [Cmd; 3] = std::array::from_fn(|_| ch.pick(l).clone());
    let place = ch.choose(4);
    let rest: Vec<Cmd> = std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), r)
        .into_iter()
        .filter(|c| match (c, k) {
            (Cmd::Pal(_), 0) | (Cmd::Alpha(_), 1) | (Cmd::Coord(..), 2) | (Cmd::Rle(..), 3) => false,
            _ => true,
        })
        .collect();
    let mut seqs = vec![Seq::new(0, rest)];
    for (i, c) in w.into_iter().enumerate() {
        if i > 0 && place & i != 0 {
            seqs.push(Seq::new(100 * i as u16, vec![]));
        }
        seqs.last_mut().expect("sequence").cmds.push(c);
    }
    check(ch, "V02.again", &single(&seqs, &d), true)?;
    Ok(())
}

fn v02_gaps(ch: &mut Ch) -> R {
    // Anything may stand between the sequences, of any size.
    let n = *ch.pick(&[
        0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096,
        4097, 8192, 10_000, 16_383, 16_384, 32_767, 32_768, 60_000, 65_000,
    ]);
    let (d, r) = base_img();
    let unit: &[u8] = *ch.pick(&[&[0][..], &[0xff], &[0x55], &[1], &[2, 0xff], &[3, 0x11, 0x11, 0xff], &[0, 9, 0, 0, 2, 0xff], &[6, 0, 4, 0, 4, 5]]);
    let at = ch.choose(3);
    let mut seqs = vec![
        Seq::new(5, vec![Cmd::Start, Cmd::Pal([3, 2, 1, 0])]),
        Seq::new(7, std_cmds([9, 9, 9, 9], [15, 0, 9, 4], (10, 13, 20, 21), r)),
        Seq::new(300, vec![Cmd::Stop]),
    ];
    let want = reference(&single(&seqs, &d)).items;
    let gap: Vec<u8> = unit.iter().copied().cycle().take(n).collect();
    seqs[at].gap = gap.clone();
    let b = single(&seqs, &d);
    let got = check(ch, "V02.gaps", &b, true)?;
    assert_eq!(format!("{want:?}"), format!("{:?}", got.items));
    // And between the image and the sequences.
    seqs[at].gap.clear();
    let b = single(&seqs, &[d, gap].concat());
    let got = check(ch, "V02.gaps", &b, true)?;
    assert_eq!(format!("{want:?}"), format!("{:?}", got.items));
    Ok(())
}

fn v02_words(ch: &mut Ch) -> R {
    // All words of commands and sequence breaks after a prefix.
    let (d, r) = base_img();
    let mut cur = match ch.choose(3) {
        0 => vec![],
        1 => std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), r),
        _ => vec![Cmd::Pal([1, 1, 2, 2]), Cmd::Alpha([4, 3, 2, 1]), Cmd::Rle(r.0, r.1)],
    };
    let mut seqs = vec![];
    let mut date = 10;
    for _ in 0..ch.tier.b(5, 6) {
        match ch.choose(13) {
            0 => break,
            1 => cur.push(Cmd::Start),
            2 => cur.push(Cmd::Stop),
            3 => cur.push(Cmd::Force),
            4 => cur.push(Cmd::Pal([9, 10, 11, 12])),
            5 => cur.push(Cmd::Alpha([0, 0, 15, 15])),
            6 => cur.push(Cmd::Coord(50, 53, 60, 61)),
            7 => cur.push(Cmd::Rle(r.0, r.1)),
            8 => cur.push(Cmd::Coord(50, 49, 60, 61)),
            9 => cur.push(Cmd::Rle(r.1, r.1)),
            10 => cur.push(Cmd::Raw(vec![7, 0, 2, 1, 2])), // unknown
            11 => cur.push(Cmd::Raw(vec![3, 0x12])),       // cut short
            _ => {
                seqs.push(Seq::new(date, std::mem::take(&mut cur)));
                date += 100;
            }
        }
    }
    seqs.push(Seq::new(date, cur));
    check(ch, "V02.words", &single(&seqs, &d), true)?;
    Ok(())
}

fn v02_links(ch: &mut Ch) -> R {
    let (d, r) = base_img();
    let mut seqs = vec![
        Seq::new(10, vec![Cmd::Start, Cmd::Pal([1, 2, 3, 4]), Cmd::Coord(10, 13, 20, 21)]),
        Seq::new(20, vec![Cmd::Alpha([5, 6, 7, 8]), Cmd::Rle(r.0, r.1), Cmd::Stop]),
        Seq::new(30, vec![Cmd::Stop, Cmd::Start, Cmd::Alpha([9, 9, 9, 9]), Cmd::Rle(r.0, r.1)]),
    ];
    let gap = ch.choose(3);
    for s in &mut seqs {
        s.gap = vec![0xff; gap];
    }
    let c = 4 + d.len();
    let at = [c, c + seqs[0].len(), c + seqs[0].len() + seqs[1].len()];
    let end = at[2] + seqs[2].len();
    let vals = [
        at[0], at[1], at[2], end, end - 1, end + 1, 0, 4, at[0] - 1, at[1] - 1, at[2] - 1, at[0] + 1, at[1] + 1,
        at[2] + 1, 0xffff, 0x8000 + at[1],
    ];
    for s in &mut seqs {
        s.next = Some(*ch.pick(&vals) as u16);
    }
    let mut p = spu(&d, &seqs);
    let init = match ch.choose(ch.tier.b(5, 1 + vals.len())) {
        0 => at[0],
        k => [at[1], at[2], end, 0, at[0] - 1, at[0] + 1, 3, 2, 1, 4, 5, end - 1, end - 3, end - 4, end + 1, 0xffff]
            [k - 1],
    };
    p[2..4].copy_from_slice(&(init as u16).to_be_bytes());
    let mut o = vec![];
    put_simple(&mut o, 5000, &p);
    check(ch, "V02.links", &o, true)?;
    Ok(())
}

fn v02_declared(ch: &mut Ch) -> R {
    // The subtitle ends where its first two bytes tell, whatever stands behind in its packets.
    let (d, r) = base_img();
    let mut all = std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), r);
    let stop = Seq::new(150, vec![Cmd::Stop]);
    let seqs = match ch.choose(4) {
        0 => vec![Seq::new(0, all), stop],
        1 => {
            let last = all.split_off(3);
            vec![Seq::new(0, all), stop, Seq::new(7, last)]
        }
        2 => vec![stop, Seq::new(0, all)],
        _ => {
            // The later ones add nothing.
            vec![Seq::new(0, all.clone()), stop.clone(), Seq::new(9, all), stop]
        }
    };
    let mut p = spu(&d, &seqs);
    let full = p.len();
    let size = ch.range(0, full + 3);
    p[..2].copy_from_slice(&(size as u16).to_be_bytes());
    p.extend(vec![[0u8, 0xff, 2][ch.choose(3)]; ch.choose(3)]);
    // In one packet, or in two.
    let cut = ch.choose(3);
    let cut = [p.len(), full / 2, full.min(size).max(3)][cut];
    let mut o = vec![];
    let mut k = Pack { pts: Some(5000), ..Pack::default() };
    k.put(&mut o, &p[..cut]);
    if cut < p.len() && cut < size {
        k.pts = None;
        k.put(&mut o, &p[cut..]);
    }
    if size <= p.len() {
        put_simple(&mut o, 90_000, &three()[0].1);
    }
    check(ch, "V02.declared", &o, true)?;
    Ok(())
}

fn v02_chain(ch: &mut Ch) -> R {
    // Long chains of sequences and long sequences.
    let (d, r) = base_img();
    let n = match ch.choose(2) {
        0 => ch.range(1, 300),
        _ => *ch.pick(&[511usize, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 10_000]),
    };
    let mut cmds = std_cmds([3, 2, 1, 0], [15, 0, 9, 4], (10, 13, 20, 21), r);
    let mut seqs: Vec<Seq>;
    match ch.choose(4) {
        // The content first, last, or at both ends.
        0 => {
            seqs = (0..n).map(|k| Seq::new(k as u16, vec![])).collect();
            seqs[0].cmds = cmds;
            seqs.push(Seq::new(300, vec![Cmd::Stop]));
        }
        1 => {
            seqs = (0..n).map(|k| Seq::new(k as u16, vec![])).collect();
            seqs.push(Seq::new(20, cmds));
            seqs.push(Seq::new(300, vec![Cmd::Stop]));
        }
        2 => {
            let late = cmds.split_off(3);
            seqs = (0..n).map(|k| Seq::new(k as u16, vec![])).collect();
            seqs[0].cmds = cmds;
            seqs.push(Seq::new(300, late));
        }
        // Many commands, the last ones count or not.
        _ => {
            let mut v = vec![Cmd::Force; n];
            let at = *ch.pick(&[0, n / 2, n]);
            v.splice(at..at, cmds);
            v.push(Cmd::Stop);
            seqs = vec![Seq::new(7, v)];
        }
    }
    let mut o = vec![];
    put_simple(&mut o, 900, &spu(&d, &seqs));
    check(ch, "V02.chain", &o, true)?;
    Ok(())
}

fn v02_values(ch: &mut Ch) -> R {
    // All palettes and alphas (batches of 256 per file), all coordinates.
    let (d, r) = base_img();
    let mut o = vec![];
    let fill = |n: usize| -> Vec<u8> { vec![0, 1].repeat(n) };
    match ch.choose(5) {
        k @ (0 | 1) => {
            let hi = ch.choose(256);
            for lo in 0..256 {
                let v = [(hi >> 4) as u8, hi as u8 & 15, (lo >> 4) as u8, lo as u8 & 15];
                let (p, a) = if k == 0 { (v, [8, 4, 2, 1]) } else { ([8, 4, 2, 1], v) };
                put_simple(&mut o, 900, &spu(&d, &[Seq::new(0, std_cmds(p, a, (10, 13, 20, 21), r))]));
            }
        }
        // Place, in each direction.
        2 => {
            let dir = ch.choose(2);
            let hi = ch.choose(16) as u16;
            for lo in 0..256u16 {
                let v = hi << 8 | lo;
                let area = if dir == 0 { (v, v.wrapping_add(3), 20, 21) } else { (20, 23, v, v.wrapping_add(1)) };
                if area.1 > 4095 || area.3 > 4095 {
                    continue;
                }
                put_simple(&mut o, 900, &spu(&d, &[Seq::new(0, std_cmds([1; 4], [2; 4], area, r))]));
            }
        }
        // Width and height, up to the whole range.
        k => {
            let block = ch.choose(ch.tier.b(12, 64));
            let sizes: Vec<u16> = match ch.tier {
                Tier::Quick => (0..12).map(|i| (block as u16 * 347 + i * 29 + 1).min(4095)).collect(),
                Tier::Thorough => (0..64).map(|i| (block as u16) * 64 + i).filter(|&v| v > 0).collect(),
            };
            for v in sizes {
                let (area, n) = if k == 3 { ((0, v, 0, 1), 1) } else { ((3, 4, 0, v), usize::from(v) / 2 + 1) };
                let d = fill(2 * n);
                put_simple(&mut o, 900, &spu(&d, &[Seq::new(0, std_cmds([1; 4], [2; 4], area, (4, 4 + 2 * n as u16)))]));
            }
        }
    }
    let r = check(ch, "V02.values", &o, true)?;
    assert!(r.items.iter().all(Result::is_ok));
    Ok(())
}

// ================================================================ V03

fn image_file(w: usize, h: usize, data: &[u8], rle: (u16, u16)) -> Vec<u8> {
    let mut o = vec![];
    put_image(&mut o, w, h, data, rle);
    o
}
pub fn put_image(o: &mut Vec<u8>, w: usize, h: usize, data: &[u8], rle: (u16, u16)) {
    let area = (7, 7 + w as u16 - 1, 9, 9 + h as u16 - 1);
    put_simple(o, 90, &spu(data, &[Seq::new(0, std_cmds([0, 1, 2, 3], [3, 2, 1, 0], area, rle))]));
}

fn v03_codes(ch: &mut Ch) -> R {
    // Every way to code the lines of a small image.
    let (w, h) = *ch.pick(ch.tier.b(&[(2, 2), (3, 2), (2, 3), (4, 2)][..], &[(2, 2), (3, 2), (2, 3), (2, 4), (4, 2), (6, 2), (3, 3)][..]));
    let mut f = [Nib::default(), Nib::default()];
    let mut want = vec![];
    let colours = if w * h > 7 { 2 } else { 4 };
    for y in 0..h {
        let mut x = 0;
        while x < w {
            let left = w - x;
            // Runs of 1..=left, short or long, or fill.
            let k = ch.choose(left * 2 + 1);
            let c = (ch.choose(colours) as u8).wrapping_mul(if colours == 2 { 3 } else { 1 });
            let (n, long) = if k == 0 { (0, false) } else { ((k + 1) / 2, k % 2 == 0) };
            f[y % 2].run(n, c, long);
            let n = if n == 0 { left } else { n };
            want.extend(std::iter::repeat(c).take(n));
            x += n;
        }
        f[y % 2].align();
    }
    let o1 = 4 + f[0].b.len() as u16;
    let d = [&f[0].b[..], &f[1].b[..]].concat();
    let b = image_file(w, h, &d, (4, o1));
    let r = check(ch, "V03.codes", &b, true)?;
    match &r.items[0] {
        Ok(RSub { img: RImg::Exact(p), .. }) => assert_eq!(*p, want),
        o => panic!("reference: {o:?}"),
    }
    Ok(())
}

fn v03_runs(ch: &mut Ch) -> R {
    // Every run length, form, colour and rest of the line, in one file each.
    let n = ch.range(1, 255);
    let mut o = vec![];
    for c in 0..4u8 {
        for long in [false, true] {
            for rest in [0usize, 1, 2, 3, 64, 255] {
                for before in [0usize, 1, 15] {
                    let w = before + n + rest;
                    if w < 2 {
                        continue;
                    }
                    let mut f = [Nib::default(), Nib::default()];
                    for (i, f) in f.iter_mut().enumerate() {
                        if before > 0 {
                            f.run(before, c ^ 1, false);
                        }
                        f.run(n, c ^ i as u8, long);
                        if rest > 0 {
                            f.run(if i == 0 { rest } else { 0 }, c ^ 2, false);
                        }
                    }
                    let d = [&f[0].b[..], &f[1].b[..]].concat();
                    put_image(&mut o, w, 2, &d, (4, 4 + f[0].b.len() as u16));
                }
            }
        }
    }
    // A run longer than the line.
    for w in [2usize, n.saturating_sub(1)] {
        if w >= 2 && n > w {
            let mut f = Nib::default();
            f.run(n, 1, false);
            f.align();
            f.run(0, 1, false);
            put_image(&mut o, w, 2, &f.b, (4, 4));
        }
    }
    check(ch, "V03.runs", &o, true)?;
    Ok(())
}

fn v03_data(ch: &mut Ch) -> R {
    // All data of two (three) bytes, for some shapes.
    let (w, h) = *ch.pick(&[(2, 2), (3, 2), (5, 3), (16, 2), (64, 2), (9, 4)]);
    let hi = ch.choose(256) as u8;
    let mid = if ch.tier == Tier::Thorough { Some(ch.choose(256) as u8) } else { None };
    let mut o = vec![];
    for lo in 0..=255u8 {
        let mut d = vec![hi];
        d.extend(mid);
        d.push(lo);
        let n = d.len() as u16;
        // Both fields are the same data, or the second is the last byte.
        put_image(&mut o, w, h, &d, if lo % 2 == 0 { (4, 4) } else { (4, 4 + n - 1) });
    }
    check(ch, "V03.data", &o, true)?;
    Ok(())
}

fn v03_fields(ch: &mut Ch) -> R {
    // Offsets of the fields: every pair around the data; heights of 2 to 9.
    let h = ch.range(2, ch.tier.b(12, 16));
    let w = *ch.pick(&[2, 3, 8]);
    let px: Vec<u8> = (0..w * h).map(|i| ((i * 7 + i / w) % 4) as u8).collect();
    let (mut d, r) = encode(w, &px, false, ch.flag());
    let lead = ch.choose(3);
    for _ in 0..lead {
        d.insert(0, 0x5a);
    }
    let lim = 4 + d.len() + 4;
    let mut o = vec![];
    let l = lead as u16;
    put_image(&mut o, w, h, &d, (r.0 + l, r.1 + l));
    let want = reference(&o);
    match &want.items[0] {
        Ok(RSub { img: RImg::Exact(p), .. }) => assert_eq!(*p, px),
        o => panic!("reference: {o:?}"),
    }
    let a = ch.choose(lim + 1) as u16;
    for b in 0..=lim as u16 {
        put_image(&mut o, w, h, &d, (a, b));
    }
    for b in [0x7fff, 0x8000, 0xfffe, 0xffff] {
        put_image(&mut o, w, h, &d, (a, b));
    }
    check(ch, "V03.fields", &o, true)?;
    Ok(())
}

fn v03_wide(ch: &mut Ch) -> R {
    // All widths, coded with full runs and with fills.
    let block = ch.choose(64);
    let step = 1;
    let mut o = vec![];
    for w in (block * 64..(block + 1) * 64).step_by(step) {
        let w = w + block % step;
        if !(2..=4090).contains(&w) && w != 4095 {
            continue;
        }
        let px: Vec<u8> = (0..w * 3).map(|i| ((i / 300 + i / w) % 4) as u8).collect();
        for fill in [false, true] {
            let (d, r) = encode(w, &px, false, fill);
            put_image(&mut o, w, 3, &d, r);
        }
        // Fills of whole lines and of all but 1, 2 and 63 pixels.
        let mut f = [Nib::default(), Nib::default()];
        for (y, before) in [0usize, 1, 2, 63].into_iter().enumerate() {
            let f = &mut f[y % 2];
            if (1..w).contains(&before) {
                f.run(before, y as u8 ^ 1, false);
            }
            f.run(0, y as u8, false);
            f.align();
        }
        put_image(&mut o, w, 4, &[&f[0].b[..], &f[1].b[..]].concat(), (4, 4 + f[0].b.len() as u16));
    }
    check(ch, "V03.wide", &o, true)?;
    Ok(())
}

fn v03_tall(ch: &mut Ch) -> R {
    // Any height, up to the largest images.
    let h = match ch.choose(2) {
        0 => ch.range(2, ch.tier.b(70, 600)),
        _ => *ch.pick(ch.tier.b(
            &[127usize, 128, 129, 255, 256, 257, 480, 511, 512, 513, 575, 576, 577, 720, 1023, 1024, 1025, 1080, 1081, 2047, 2048, 2049, 2160, 4095, 4096][..],
            &[719, 720, 721, 1023, 1024, 1025, 1079, 1080, 1081, 1200, 2047, 2048, 2049, 2160, 3000, 4093, 4094, 4095, 4096][..],
        )),
    };
    let w = *ch.pick(ch.tier.b(&[2usize, 3, 17, 300, 4096][..], &[2, 3, 4, 5, 15, 17, 64, 255, 256, 300, 720, 1920, 4095, 4096][..]));
    let k = ch.choose(2);
    let mut f = [Nib::default(), Nib::default()];
    for y in 0..h {
        let f = &mut f[y % 2];
        let c = ((y + y / 4 + y / 256) % 4) as u8;
        if k == 1 && w > 2 {
            // A pixel of another colour that moves along.
            let n = (y % (w - 1)).min(255);
            if n > 0 {
                f.run(n, c, false);
            }
            f.run(1, c ^ 1, false);
        }
        f.run(0, c, false);
        f.align();
    }
    let mut o = vec![];
    // The largest sizes do not leave any room.
    let area = (if w > 4000 { 0 } else { 7 }, if w > 4000 { w as u16 - 1 } else { w as u16 + 6 }, if h > 4000 { 0 } else { 9 }, if h > 4000 { h as u16 - 1 } else { h as u16 + 8 });
    let r = (4, 4 + f[0].b.len() as u16);
    let d = [&f[0].b[..], &f[1].b[..]].concat();
    put_simple(&mut o, 90, &spu(&d, &[Seq::new(0, std_cmds([0, 1, 2, 3], [3, 2, 1, 0], area, r))]));
    let r = check(ch, "V03.tall", &o, true)?;
    assert!(r.items.len() == 1 && r.items[0].is_ok());
    Ok(())
}

// ================================================================ V04

fn v04_pts(ch: &mut Ch) -> R {
    let (d, r) = base_img();
    let mut list: Vec<u64> = vec![];
    match ch.choose(3) {
        // One or two bits.
        0 => {
            let i = ch.choose(33);
            for j in 0..33 {
                list.push(1 << i | 1 << j);
                list.push(((1 << 33) - 1) & !(1 << i | 1 << j));
            }
        }
        // Around the borders of the fields and of the units.
        1 => {
            let b = *ch.pick(&[0u64, 90, 900, 9000, 90_000, 1 << 15, 1 << 16, 1 << 30, 1 << 31, 1 << 32, 1 << 33]);
            for k in 0..200 {
                list.push((b + k).saturating_sub(100) & ((1 << 33) - 1));
            }
        }
        // Sweep.
        _ => {
            let k = ch.choose(ch.tier.b(256, 8192)) as u64;
            let stride = (1u64 << 33) / ch.tier.b(256, 8192);
            for j in 0..256 {
                list.push((k * stride + j * 7919) & ((1 << 33) - 1));
            }
        }
    }
    let dates = *ch.pick(&[(0u16, Some(0u16)), (0, None), (1, Some(100)), (255, Some(256)), (65535, None), (300, Some(65535))]);
    let with_dts = ch.choose(3);
    let mut o = vec![];
    for (n, &pts) in list.iter().enumerate() {
        let cmds = std_cmds([0, 1, 2, 3], [3, 2, 1, 0], (7, 10, 9, 10), r);
        let mut s = vec![Seq::new(dates.0, cmds)];
        if let Some(e) = dates.1 {
            s.push(Seq::new(e, vec![Cmd::Stop]));
        }
        let p = Pack {
            pts: Some(pts),
            dts: match with_dts {
                0 => None,
                1 => Some(pts.wrapping_sub(3000) & ((1 << 33) - 1)),
                _ => Some(n as u64),
            },
            scr: [0, 1, pts, (1 << 33) - 1][n % 4],
            ext: [0, 1, 300, 511][n % 4],
            ..Pack::default()
        };
        p.put(&mut o, &spu(&d, &s));
    }
    let r = check(ch, "V04.pts", &o, true)?;
    // The reference is checked against the values that were coded.
    for (i, p) in r.items.iter().zip(&list) {
        let i = i.as_ref().unwrap();
        assert_eq!((i.pts, i.start, i.end), (*p, dates.0, dates.1));
    }
    assert_eq!(r.items.len(), list.len());
    Ok(())
}

fn v04_dates(ch: &mut Ch) -> R {
    let (d, r) = base_img();
    let hi = ch.choose(256) as u16;
    let pts = *ch.pick(&[0u64, 45, 89, 90, 1_234_567, (1 << 33) - 1]);
    let form = ch.choose(4);
    let mut o = vec![];
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        let mut cmds = std_cmds([0, 1, 2, 3], [3, 2, 1, 0], (7, 10, 9, 10), r);
        let s = match form {
            0 => vec![Seq::new(v, cmds)],
            1 => vec![Seq::new(0, cmds), Seq::new(v, vec![Cmd::Stop])],
            2 => vec![Seq::new(v, cmds), Seq::new(v.wrapping_add(1), vec![Cmd::Stop])],
            _ => {
                cmds.remove(0);
                vec![Seq::new(3, cmds), Seq::new(v, vec![Cmd::Start]), Seq::new(1, vec![Cmd::Stop])]
            }
        };
        Pack { pts: Some(pts), ..Pack::default() }.put(&mut o, &spu(&d, &s));
    }
    check(ch, "V04.dates", &o, true)?;
    Ok(())
}

/// Several subtitles: the time of each is its own.
fn v04_order(ch: &mut Ch) -> R {
    let (d, r) = base_img();
    let mut o = vec![];
    for _ in 0..3 {
        let pts = *ch.pick(&[90u64, 90_000, 89_000, 8_589_934_591]);
        let stop = *ch.pick(&[None, Some(0u16), Some(100), Some(1000)]);
        let start = *ch.pick(&[0u16, 50]);
        let mut s = vec![Seq::new(start, std_cmds([0, 1, 2, 3], [3, 2, 1, 0], (7, 10, 9, 10), r))];
        if let Some(e) = stop {
            s.push(Seq::new(e, vec![Cmd::Stop]));
        }
        Pack { pts: Some(pts), ..Pack::default() }.put(&mut o, &spu(&d, &s));
    }
    check(ch, "V04.order", &o, true)?;
    Ok(())
}

// ================================================================ V05

pub fn small_file() -> Vec<u8> {
    // Three subtitles, the second one in two packets with a DTS.
    let s = three();
    let mut o = vec![];
    put_simple(&mut o, s[0].0, &s[0].1);
    let k = s[1].1.len() / 2;
    Pack { pts: Some(s[1].0), dts: Some(4), stuff: 2, hstuff: 1, ..Pack::default() }.put(&mut o, &s[1].1[..k]);
    Pack::default().put(&mut o, &s[1].1[k..]);
    put_simple(&mut o, s[2].0, &s[2].1);
    o
}

fn v05_bytes(ch: &mut Ch) -> R {
    let b = small_file();
    let at = ch.choose(b.len());
    for v in 0..=255u8 {
        if v != b[at] {
            let mut m = b.clone();
            m[at] = v;
            check(ch, "V05.bytes", &m, true)?;
        }
    }
    Ok(())
}

const EDGE: [u8; 10] = [0, 1, 2, 3, 0x20, 0x7f, 0x80, 0xba, 0xbd, 0xff];

fn v05_pairs(ch: &mut Ch) -> R {
    // Two damaged bytes, with values of the format, in one subtitle.
    let (d, r) = base_img();
    let mut b = vec![];
    put_simple(&mut b, 7, &spu(&d, &[Seq::new(1, std_cmds([0, 1, 2, 3], [3, 2, 1, 0], (7, 10, 9, 10), r)), Seq::new(2, vec![Cmd::Stop])]));
    let i = ch.choose(b.len());
    let j = ch.choose(b.len());
    if j <= i {
        return Ok(());
    }
    let edge = ch.tier.b(&EDGE[1..7], &EDGE[..]);
    for &v in edge {
        for &w in edge {
            let mut m = b.clone();
            m[i] = v;
            m[j] = w;
            check(ch, "V05.pairs", &m, true)?;
        }
    }
    Ok(())
}

fn v05_edit(ch: &mut Ch) -> R {
    // Cut, inserted, removed or repeated parts.
    let b = small_file();
    let at = ch.choose(b.len() + 1);
    match ch.choose(4) {
        0 => check(ch, "V05.edit", &b[..at], true).map(drop),
        1 => {
            for v in EDGE {
                for n in [1usize, 2, 3, 7] {
                    let mut m = b.clone();
                    m.splice(at..at, std::iter::repeat(v).take(n));
                    check(ch, "V05.edit", &m, true)?;
                }
            }
            Ok(())
        }
        2 => {
            for n in 1..=ch.tier.b(60, 400) {
                if at + n <= b.len() {
                    let mut m = b.clone();
                    m.drain(at..at + n);
                    check(ch, "V05.edit", &m, true)?;
                }
            }
            Ok(())
        }
        _ => {
            for n in 1..=ch.tier.b(60, 400) {
                if at + n <= b.len() {
                    let mut m = b.clone();
                    let t = b[at..at + n].to_vec();
                    m.splice(at..at, t);
                    check(ch, "V05.edit", &m, true)?;
                }
            }
            Ok(())
        }
    }
}

fn v05_many(ch: &mut Ch) -> R {
    // As many subtitles as that, good ones and bad ones.
    let n = match ch.choose(2) {
        0 => ch.range(0, 64),
        _ => *ch.pick(ch.tier.b(
            &[127usize, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4097, 9_999, 10_001, 65_535, 65_536, 65_537][..],
            &[127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4097, 9_999, 10_001, 65_535, 65_536, 65_537, 100_001, 300_000][..],
        )),
    };
    let kinds = ch.choose(3);
    let mut o = vec![];
    let s = three();
    for k in 0..n {
        let mut d = s[k % 3].1.clone();
        if kinds == 1 || (kinds == 2 && k % 3 > 0) {
            // A link out of the subtitle, or an image that does not fit.
            let at = if k % 2 == 0 { 2 } else { 4 };
            d[at] = 0xff;
        }
        put_simple(&mut o, (k as u64 * 95_443) & ((1 << 33) - 1), &d);
    }
    check(ch, "V05.many", &o, true).map(drop)
}
fn v05_steps(ch: &mut Ch) -> R {
    // The ways of an iterator to go on.
    let mut o = vec![];
    for k in 0..6u64 {
        let mut d = three()[k as usize % 3].1.clone();
        if k == 2 {
            d[2] = 0xff;
        }
        put_simple(&mut o, k * 95_443, &d);
    }
    let want = read(&o);
    let r = reference(&o);
    if let Err(e) = agree_all(&r.items, &want) {
        viol!("V05.steps", "{e}; file {}", hex(&o));
    }
    let want = want.unwrap_or_default();
    let p = scratch();
    std::fs::write(&p, &o).expect("scratch file");
    let sub = open_path(&p);
    let it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
    steps(ch, "V05.steps", it.map(|x| x.map(|(t, i)| shown(&t, &i)).map_err(|e| kind(&e))), &want)
}

fn v05_broken(ch: &mut Ch) -> R {
    // As many broken packs and packets in a row as that, then a subtitle.
    let n = *ch.pick(ch.tier.b(&[1usize, 255, 256, 257, 4097, 65_537, 400_000][..], &[1, 255, 256, 257, 4097, 65_537, 400_000, 2_000_000][..]));
    let bad: &[u8] = *ch.pick(&[
        // No pack header; a pack of MPEG-1; no packet; a packet of another kind; a packet that is cut short; subtitles without a date.
        &[0, 0, 1, 0xba][..],
        JUNK[7],
        JUNK[8],
        &[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 3, 0xf3, 0xf8, 1],
        &[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 3, 0xf3, 0xf8, 0, 0, 1, 0xbd, 0, 4, 0x81, 0, 0, 0x20],
        &[0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 3, 0xf3, 0xf8, 0, 0, 1, 0xbd, 0, 5, 0x81, 0x80, 0, 0x20, 9],
    ]);
    let mut o = vec![];
    let s = three();
    let at = ch.choose(2);
    for (k, (t, d)) in s.iter().enumerate() {
        let mut p = Pack { pts: Some(*t), ..Pack::default() };
        if at == 1 {
            p.put(&mut o, &d[..9]);
            p.pts = None;
        }
        for _ in 0..if k == 1 { n } else { 1 } {
            o.extend(bad);
        }
        p.put(&mut o, if at == 1 { &d[9..] } else { d });
    }
    check(ch, "V05.broken", &o, true).map(drop)
}

/// Files that are not there, are no files, or hold nothing.
fn v05_pipes(ch: &mut Ch) -> R {
    // The file is a pipe that delivers its bytes as it likes.
    let mut b = vec![];
    let s = three();
    s.iter().for_each(|(t, d)| put_simple(&mut b, *t, d));
    let k = ch.choose(b.len() + 2);
    let got = piped(&parts(&b, k), |p| guard(|| Sub::open(p).map_err(|e| format!("{e:?}")).and_then(|s| drain(&mut s.subtitles::<(TimeSpan, VobSubIndexedImage)>(), b.len()))));
    ch.walk(&[h64(&k)]);
    ch.eval(h64(&k), true);
    let got = got.unwrap_or_else(|e| Err(format!("panics: {e}")));
    if let Err(e) = agree_all(&reference(&b).items, &got) {
        viol!(format!("V05.pipes:{k}"), "a pipe that delivers {} bytes cut at {k}: {e}", b.len());
    }
    ch.validated(1);
    Ok(())
}
fn v05_open(ch: &mut Ch) -> R {
    let base = scratch();
    let dir = base.parent().expect("parent");
    let f = ch.choose(FORMS);
    let (p, empty) = match ch.choose(4 + NAMES.len()) {
        k @ 4.. => {
            // A name may be anything.
            let p = form(&named(&base, k - 4), f);
            let mut b = vec![];
            let s = three();
            s.iter().for_each(|(t, d)| put_simple(&mut b, *t, d));
            std::fs::write(&p, &b).expect("scratch file");
            let got = guard(|| {
                Sub::open(&p).map_err(|e| format!("{e:?}")).and_then(|s| drain(&mut s.subtitles::<(TimeSpan, VobSubIndexedImage)>(), b.len()))
            });
            let _ = std::fs::remove_file(&p);
            ch.walk(&[h64(&p)]);
            ch.eval(h64(&p), true);
            let got = got.unwrap_or_else(|e| Err(format!("panics: {e}")));
            if let Err(e) = agree_all(&reference(&b).items, &got) {
                viol!(format!("V05.open:{}", k - 4), "{}: {e}", p.display());
            }
            ch.validated(1);
            return Ok(());
        }
        0 => (base.with_extension("missing.sub"), false),
        1 => (dir.join("no/such/x.sub"), false),
        2 => (dir.to_path_buf(), false),
        _ => {
            std::fs::write(&base, b"").expect("scratch file");
            (base, true)
        }
    };
    let p = form(&p, f);
    let r = guard(|| match Sub::open(&p).inspect_err(|e| tell(e)) {
        Err(VobSubError::Io { path, .. }) if path == p && !empty => None,
        Ok(s) if empty => s.subtitles::<(subtile::time::TimeSpan, VobSubIndexedImage)>().next().map(|_| "an item from nothing".to_string()),
        o => Some(format!("{:?}", o.map(|_| ()))),
    });
    ch.walk(&[h64(&p)]);
    ch.eval(h64(&p), true);
    if r != Ok(None) {
        viol!("V05.open", "opening {} gives {r:?}", p.display());
    }
    ch.validated(1);
    Ok(())
}

fn v05_tiny(ch: &mut Ch) -> R {
    // All packets of up to six bytes over the bytes of the format.
    let alpha = [0u8, 1, 2, 3, 4, 5, 6, 0xff];
    let n = ch.range(0, ch.tier.b(6, 8));
    let mut d = vec![0, 0, 0];
    let declared = ch.choose(3);
    let head = ch.choose(2);
    let mut body = vec![];
    for _ in 0..n {
        body.push(*ch.pick(&alpha));
    }
    d.clear();
    if head == 0 {
        let len = [n + 2, n, n + 4][declared] as u16;
        d.extend(len.to_be_bytes());
    }
    d.extend(body);
    let mut o = vec![];
    put_simple_any(&mut o, &d);
    check(ch, "V05.tiny", &o, true)?;
    Ok(())
}
fn put_simple_any(o: &mut Vec<u8>, d: &[u8]) {
    Pack { pts: Some(1), ..Pack::default() }.put(o, d);
}

fn v05_header(ch: &mut Ch) -> R {
    // Short streams over the bytes that headers are made of.
    let toks: [&[u8]; 11] = [
        &[0], &[1], &[0xba], &[0xbd], &[0, 0, 1, 0xba], &[0, 0, 1, 0xbd],
        &[0x44, 0, 4, 0, 4, 1, 0, 3, 0xf3, 0xf8],
        &[0, 10, 0x81, 0x80, 5], &[0x21, 0, 1, 0, 1, 0x20], &[0, 4, 0x81, 0, 0, 0x20], &[0xff],
    ];
    let mut o = vec![];
    for _ in 0..ch.tier.b(5, 6) {
        let k = ch.choose(toks.len() + 1);
        if k == toks.len() {
            break;
        }
        o.extend(toks[k]);
    }
    check(ch, "V05.header", &o, true)?;
    Ok(())
}

// ================================================================ V06

fn v06_cut(ch: &mut Ch) -> R {
    // Every length of a longer file: the subtitles that are complete, and nothing else.
    let s = three();
    let layout = ch.choose(4);
    let mut o = vec![];
    let mut ends = vec![];
    for k in 0..4 {
        let (pts, d) = &s[(k + layout) % 3];
        let chunk = [usize::MAX, 20, 7, 31][layout];
        let mut p = Pack { pts: Some(*pts + k as u64), ..Pack::default() };
        for c in d.chunks(chunk.min(6000)) {
            p.put(&mut o, c);
            p.pts = None;
        }
        ends.push(o.len());
    }
    let full = reference(&o).items;
    assert_eq!(full.len(), 4);
    let n = ch.choose(o.len() + 1);
    let k = ends.iter().filter(|&&e| e <= n).count();
    // What is cut inside of a packet is reported.
    let mut want = full[..k].to_vec();
    let got = read(&o[..n]);
    if matches!(&got, Ok(g) if g.len() == k + 1) {
        want.push(Err(u32::MAX));
    }
    if let Err(e) = agree_all(&want, &got) {
        viol!(format!("V06.cut:{layout}:{n}"), "cut to {n} bytes: {e}; file {}", hex(&o[..n]));
    }
    ch.eval(h64(&o[..n]), true);
    ch.validated(1);
    ch.walk(&[h64(&("cut", layout, k)), h64(&("in", layout, n))]);
    Ok(())
}

fn v06_damage(ch: &mut Ch) -> R {
    // One packet per subtitle; bytes of one are damaged: the others are intact.
    let s = three();
    let mut o = vec![];
    let mut at = vec![0];
    for (p, d) in &s {
        put_simple(&mut o, *p, d);
        at.push(o.len());
    }
    let full = reference(&o).items;
    let which = ch.choose(3);
    let off = ch.choose(at[which + 1] - at[which]);
    // The two lengths say where the next packet is.
    if (18..20).contains(&off) || (22..23).contains(&off) || (29..31).contains(&off) {
        return Ok(());
    }
    let pos = at[which] + off;
    for v in 0..=255u8 {
        let mut m = o.clone();
        m[pos] = v;
        let got = read(&m);
        ch.eval(h64(&m), true);
        ch.walk(&[h64(&("damage", which, off)), h64(&("damage", which, off, v))]);
        let fail = |e: String| Viol { key: format!("V06.damage:{:016x}", h64(&m)), msg: format!("{e}; file {}", hex(&m)) };
        let got = got.map_err(&fail)?;
        // The damaged one may be missing, an error, or shown differently.
        let mut left: Vec<&RItem> = full.iter().enumerate().filter(|(i, _)| *i != which).map(|x| x.1).collect();
        left.reverse();
        let mut extra = 0;
        for g in &got {
            match left.last() {
                Some(l) if agree(l, g).is_ok() => {
                    left.pop();
                }
                _ => extra += 1,
            }
        }
        if !left.is_empty() || extra > 1 {
            return Err(fail(format!(
                "byte {off} of the subtitle {which} set to {v:#04x} damages another subtitle: {got:?}"
            )));
        }
        ch.validated(1);
    }
    Ok(())
}

fn v06_ranges(ch: &mut Ch) -> R {
    // As above; every range of bytes is damaged.
    let s = three();
    let mut o = vec![];
    let mut at = vec![0];
    for (p, d) in &s {
        put_simple(&mut o, *p, d);
        at.push(o.len());
    }
    let full = reference(&o).items;
    let which = ch.choose(3);
    let n = at[which + 1] - at[which];
    let from = ch.choose(n);
    let how = ch.choose(6);
    for to in from + 2..=n {
        let mut m = o.clone();
        for off in from..to {
            if (18..20).contains(&off) || off == 22 || (29..31).contains(&off) {
                continue;
            }
            let p = &mut m[at[which] + off];
            *p = match how {
                0 => 0,
                1 => 0xff,
                2 => 1,
                3 => 0x55,
                4 => *p ^ 0xff,
                _ => p.wrapping_add(1),
            };
        }
        let codes = |b: &[u8]| b.windows(3).filter(|w| w == &[0, 0, 1]).count();
        if codes(&m) > codes(&o) {
            continue;
        }
        let got = read(&m);
        ch.eval(h64(&m), true);
        let fail = |e: String| Viol { key: format!("V06.ranges:{:016x}", h64(&m)), msg: format!("{e}; file {}", hex(&m)) };
        let got = got.map_err(&fail)?;
        let mut left: Vec<&RItem> = full.iter().enumerate().filter(|(i, _)| *i != which).map(|x| x.1).collect();
        left.reverse();
        let mut extra = 0;
        for g in &got {
            match left.last() {
                Some(l) if agree(l, g).is_ok() => {
                    left.pop();
                }
                _ => extra += 1,
            }
        }
        if !left.is_empty() || extra > 1 {
            return Err(fail(format!("damage {how} to the bytes {from}..{to} of the subtitle {which} damages another subtitle: {got:?}")));
        }
        ch.validated(1);
    }
    ch.walk(&[h64(&("ranges", which, from)), h64(&("ranges", which, from, how))]);
    Ok(())
}

/// As above; every pair of bytes is damaged.
fn v06_pairs(ch: &mut Ch) -> R {
    let s = three();
    let mut o = vec![];
    let mut at = vec![0];
    for (p, d) in &s {
        put_simple(&mut o, *p, d);
        at.push(o.len());
    }
    let full = reference(&o).items;
    let which = ch.choose(3);
    let n = at[which + 1] - at[which];
    let (a, b) = (ch.choose(n), ch.choose(n));
    let length = |off: usize| (18..20).contains(&off) || off == 22 || (29..31).contains(&off);
    if a >= b || length(a) || length(b) {
        return Ok(());
    }
    let codes = |b: &[u8]| b.windows(3).filter(|w| w == &[0, 0, 1]).count();
    let values: &[u8] = ch.tier.b(&[0, 1, 0x21, 0x7f, 0x80, 0xba, 0xff], &[0, 1, 2, 3, 5, 6, 0x10, 0x20, 0x21, 0x31, 0x40, 0x44, 0x7f, 0x80, 0x81, 0xba, 0xbd, 0xc0, 0xf8, 0xff]);
    let others: Vec<&RItem> = full.iter().enumerate().filter(|(i, _)| *i != which).map(|x| x.1).collect();
    for &v in values {
        for &w in values {
            let mut m = o.clone();
            (m[at[which] + a], m[at[which] + b]) = (v, w);
            if codes(&m) > codes(&o) {
                continue;
            }
            let got = read(&m);
            ch.eval(h64(&m), true);
            match got {
                Ok(g) if others_intact(&others, &g, 1) => {}
                g => viol!(
                    format!("V06.pairs:{:016x}", h64(&m)),
                    "bytes {a} and {b} of the subtitle {which} set to {v:#04x} and {w:#04x} damage another subtitle: {g:?}; file {}",
                    hex(&m)
                ),
            }
            ch.validated(1);
        }
    }
    ch.walk(&[h64(&("pairs", which, a)), h64(&("pairs", which, a, b))]);
    Ok(())
}

fn v06_junk(ch: &mut Ch) -> R {
    // Bytes that hold no start code, between the packs.
    let s = three();
    let mut o = vec![];
    let full = reference(&canonical(&s)).items;
    let alpha: [&[u8]; 8] = [&[], &[0], &[0, 0], &[1], &[0xba], &[0x50, 0x47], &[0, 0, 1, 0xbe, 0, 0], &[0xff]];
    for k in 0..4 {
        for _ in 0..ch.tier.b(1, 2) {
            let j: &[u8] = ch.pick(&alpha);
            o.extend(j);
        }
        if let Some((p, d)) = s.get(k) {
            put_simple(&mut o, *p, d);
        }
    }
    check_items(ch, "V06.junk", &o, &full)?;
    ch.walk(&reference(&o).trace);
    Ok(())
}

fn v06_lost(ch: &mut Ch) -> R {
    // Whole packs lost, repeated or replaced by bad ones (single packet subtitles).
    let s = three();
    let mut o = vec![];
    let mut want = vec![];
    let full = reference(&canonical(&s)).items;
    for _ in 0..4 {
        let k = ch.choose(7);
        match k {
            0..=2 => {
                put_simple(&mut o, s[k].0, &s[k].1);
                want.push(full[k].clone());
            }
            // Without a start code.
            3 => {
                let mut p = vec![];
                put_simple(&mut p, s[0].0, &s[0].1);
                o.extend(&p[4..]);
            }
            // Without a time.
            4 => {
                Pack::default().put(&mut o, &s[1].1);
                want.push(Err(E_TIMING));
            }
            // An image that can't be decoded.
            5 => {
                put_image(&mut o, 4, 2, &[0xf0, 0xf0, 0xf0], (4, 4));
                want.push(Err(E_IMAGE));
            }
            // A bad bounding box.
            _ => {
                let r = base_img();
                put_simple(&mut o, 3, &spu(&r.0, &[Seq::new(0, std_cmds([0; 4], [0; 4], (5, 5, 0, 9), r.1))]));
                want.push(Err(E_CONTENT));
            }
        }
    }
    check_items(ch, "V06.lost", &o, &want)?;
    ch.walk(&reference(&o).trace);
    Ok(())
}

/// Are the items of `left` in `got`, in order, with at most `most` others?
fn others_intact(left: &[&RItem], got: &[Item], most: usize) -> bool {
    let mut left = left.to_vec();
    left.reverse();
    let mut extra = 0;
    for g in got {
        match left.last() {
            Some(l) if agree(l, g).is_ok() => {
                left.pop();
            }
            _ => extra += 1,
        }
    }
    left.is_empty() && extra <= most
}

fn v06_multi(ch: &mut Ch) -> R {
    // Several packets per subtitle: what one packet holds is damaged, or the header of the first one.
    let s = three();
    let chunk = *ch.pick(&[9usize, 16, 31]);
    let full = reference(&canonical(&s)).items;
    let mut o = vec![];
    // Bytes that may be damaged: place and subtitle.
    let mut spots = vec![];
    for (i, (t, d)) in s.iter().enumerate() {
        let mut p = Pack { pts: Some(*t), ..Pack::default() };
        for (k, c) in d.chunks(chunk).enumerate() {
            let at = o.len();
            p.put(&mut o, c);
            let head = o.len() - at - c.len();
            if k == 0 {
                // But the lengths and the number of the stream, which say what belongs together.
                spots.extend((0..head - 1).filter(|x| !(18..20).contains(x) && *x != 22).map(|x| (i, at + x)));
            }
            // The first two bytes are the length of the subtitle.
            spots.extend((head..head + c.len()).filter(|x| k > 0 || *x >= head + 2).map(|x| (i, at + x)));
            p.pts = None;
        }
    }
    let (which, pos) = *ch.pick(&spots);
    let most = s[which].1.len().div_ceil(chunk);
    let left: Vec<&RItem> = full.iter().enumerate().filter(|(i, _)| *i != which).map(|x| x.1).collect();
    for v in 0..=255u8 {
        let mut m = o.clone();
        m[pos] = v;
        // The damage must not make a start code.
        let codes = |b: &[u8]| b.windows(4).filter(|w| *w == [0, 0, 1, 0xba]).count();
        if codes(&m) > codes(&o) {
            continue;
        }
        let got = read(&m);
        ch.eval(h64(&m), true);
        ch.walk(&[h64(&("multi", chunk, pos)), h64(&("multi", chunk, pos, v))]);
        let ok = got.as_ref().is_ok_and(|g| others_intact(&left, g, most));
        if !ok {
            viol!(format!("V06.multi:{:016x}", h64(&m)), "byte {pos}, of the subtitle {which}, set to {v:#04x} damages another subtitle: {got:?}; file {}", hex(&m));
        }
        ch.validated(1);
    }
    Ok(())
}

fn v06_small(ch: &mut Ch) -> R {
    // A small bad pack of every size, damaged at every byte, before, between and after the subtitles.
    let s = three();
    let full = reference(&canonical(&s)).items;
    let n = ch.range(0, ch.tier.b(120, 300));
    let pts = ch.flag().then_some(3);
    let at = ch.choose(4);
    let mut bad = vec![];
    Pack { pts, ..Pack::default() }.put(&mut bad, &vec![0; n]);
    let head = bad.len() - n;
    let off = ch.choose(head + 1);
    let values: &[u8] = if off == head || (18..20).contains(&off) || off == 22 { &[] } else { &[0, 1, 0x21, 0x40, 0x44, 0x7f, 0x80, 0xba, 0xbd, 0xc0, 0xe0, 0xff] };
    let left: Vec<&RItem> = full.iter().collect();
    for v in [None].into_iter().chain(values.iter().map(Some)) {
        let mut bad = bad.clone();
        if let Some(v) = v {
            bad[off] = *v;
        }
        let mut o = vec![];
        for k in 0..4 {
            if k == at {
                o.extend(&bad);
            }
            if let Some((t, d)) = s.get(k) {
                put_simple(&mut o, *t, d);
            }
        }
        let got = read(&o);
        ch.eval(h64(&o), true);
        ch.walk(&[h64(&("small", n, at)), h64(&("small", n, at, off, v))]);
        if !got.as_ref().is_ok_and(|g| others_intact(&left, g, 1)) {
            viol!(format!("V06.small:{:016x}", h64(&o)), "a bad pack of {} bytes (byte {off} is {v:?}) before the subtitle {at} damages a subtitle: {got:?}; file {}", bad.len(), hex(&o));
        }
        ch.validated(1);
    }
    Ok(())
}

fn v06_far(ch: &mut Ch) -> R {
    // Any amount of junk, before, between and after.
    let n = *ch.pick(&long_sizes(ch.tier));
    let at = ch.choose(4);
    let j = long_junk(n, ch.choose(5));
    let s = three();
    let full = reference(&canonical(&s)).items;
    let mut o = vec![];
    for k in 0..4 {
        if k == at {
            o.extend(&j);
        }
        if let Some((t, d)) = s.get(k) {
            put_simple(&mut o, *t, d);
        }
    }
    check_items(ch, "V06.far", &o, &full)?;
    ch.walk(&[h64(&("far", n)), h64(&("far", n, at))]);
    Ok(())
}

// ================================================================ V07, V08

pub fn area(x1: u16, y1: u16, w: usize, h: usize) -> Result<Area, Viol> {
    let v = AreaValues { x1, y1, x2: x1 + (w - 1) as u16, y2: y1 + (h - 1) as u16 };
    match guard(|| Area::try_from(v)) {
        Ok(Ok(a)) => Ok(a),
        o => viol!(format!("area:{v:?}"), "the valid area {v:?} is refused: {o:?}"),
    }
}

thread_local! {
    static CONV: RefCell<Vec<(u16, u8)>> = const { RefCell::new(Vec::new()) };
}
fn conv_u16(i: u16, a: u8) -> Rgba<u8> {
    CONV.with(|c| c.borrow_mut().push((i, a)));
    Rgba([(i >> 8) as u8, i as u8, a, a ^ 0x5a])
}
pub fn conv_luma_a(i: u16, a: u8) -> LumaA<u8> {
    LumaA([i as u8, a])
}

fn image_case(ch: &mut Ch, quick: &[(usize, usize)], thorough: &[(usize, usize)]) -> Result<(VobSubIndexedImage, usize, usize, [u8; 4], [u8; 4], Vec<u8>), Viol> {
    let (w, h) = *ch.pick(ch.tier.b(quick, thorough));
    let raw: Vec<u8> = if w * h <= 8 {
        (0..w * h).map(|_| ch.choose(4) as u8).collect()
    } else {
        let k = ch.choose(5);
        (0..w * h).map(|i| [i % 4, i / w % 4, (i * i / 7) % 4, 3, usize::from(i == w * h - 1)][k] as u8).collect()
    };
    let pal = *ch.pick(&[[0u8, 1, 2, 3], [15, 14, 13, 12], [7, 7, 0, 8], [5, 0, 10, 5]]);
    let alpha = *ch.pick(&[[0u8, 5, 10, 15], [15, 15, 15, 15], [1, 0, 0, 1], [255, 16, 0, 128]]);
    let (x, y) = *ch.pick(&[(0, 0), (100, 57)]);
    Ok((VobSubIndexedImage::new(area(x, y, w, h)?, pal, alpha, raw.clone()), w, h, pal, alpha, raw))
}

fn v07_render(ch: &mut Ch) -> R {
    let (img, w, h, pal, alpha, raw) = image_case(
        ch,
        &[(2, 2), (3, 2), (17, 5), (300, 3), (3, 300), (2, 2000), (256, 257), (4096, 17)],
        &[(2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (17, 5), (300, 3), (3, 300), (4096, 5), (5, 4096), (256, 257), (17, 4096), (4096, 17), (1920, 1080)],
    )?;
    let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
    let rgb: [Rgb<u8>; 16] = std::array::from_fn(|i| Rgb([i as u8 * 16, 255 - i as u8, i as u8]));
    let key = format!("V07.render:{:016x}", h64(&(w, h, pal, alpha, &raw)));
    CONV.with(|c| c.borrow_mut().clear());
    let r = guard(|| {
        // A copy of the image is the image.
        let copy = img.clone();
        let a = VobSubToImage::new(&img, &palette, conv_u16).to_image();
        let b = VobSubToImage::new(&copy, &palette, conv_luma_a).to_image();
        let c = VobSubToImage::new(&img, &rgb, conv_to_rgba).to_image();
        let same = copy == img && img == copy && copy.palette() == &pal && copy.alpha() == &alpha && copy.raw_image() == &raw[..];
        (a, b, c, same)
    });
    let (a, b, c, same) = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "rendering a {w}x{h} image panics: {e}"),
    };
    if !same {
        viol!(key, "the copy of a {w}x{h} image with palette {pal:?} and alpha {alpha:?} is another");
    }
    for d in [a.dimensions(), b.dimensions(), c.dimensions(), (img.width(), img.height())] {
        if d != (w as u32, h as u32) {
            viol!(key, "a {w}x{h} image is rendered as {d:?}");
        }
    }
    for (i, &p) in raw.iter().enumerate() {
        let (x, y) = ((i % w) as u32, (i / w) as u32);
        let (k, al) = (usize::from(pal[p as usize]), alpha[p as usize]);
        let v = palette[k];
        if a.get_pixel(x, y).0 != [(v >> 8) as u8, v as u8, al, al ^ 0x5a]
            || b.get_pixel(x, y).0 != [v as u8, al]
            || c.get_pixel(x, y).0 != [rgb[k].0[0], rgb[k].0[1], rgb[k].0[2], al]
        {
            viol!(
                key,
                "{w}x{h} pal {pal:?} alpha {alpha:?}: pixel ({x},{y}) of index {p} is {:?}, {:?}, {:?}; pixels {:?}",
                a.get_pixel(x, y), b.get_pixel(x, y), c.get_pixel(x, y), &raw[..raw.len().min(40)]
            );
        }
        if i < 64 {
            ch.state(h64(&("px", p, pal[p as usize], al)));
        }
    }
    CONV.with(|c| {
        for (i, a) in c.borrow().iter() {
            assert!(palette.contains(i) && alpha.contains(a));
        }
    });
    ch.restart();
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| format!("V07.render: {w}x{h} pal {pal:?} alpha {alpha:?} raw {:?}", &raw[..raw.len().min(12)]));
    Ok(())
}

fn v07_palette(ch: &mut Ch) -> R {
    // Every palette index in every place, every alpha.
    let v = [ch.choose(16) as u8, ch.choose(16) as u8];
    let slot = ch.choose(4);
    let mut o = 0u64;
    for x in 0..16u8 {
        for al in (0..16u8).chain([16, 17, 127, 128, 240, 254, 255]) {
            let mut pal = [v[0], v[1], x, 15 - x];
            pal.rotate_left(slot);
            let mut alpha = [al, v[0], 255 - al, v[1]];
            alpha.rotate_left(slot);
            let img = VobSubIndexedImage::new(area(1, 2, 4, 2)?, pal, alpha, vec![0, 1, 2, 3, 3, 2, 1, 0]);
            let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
            let r = guard(|| VobSubToImage::new(&img, &palette, conv_luma_a).to_image());
            let key = format!("V07.palette:{pal:?}{alpha:?}");
            let a = match r {
                Ok(r) => r,
                Err(e) => viol!(key, "rendering with palette {pal:?} panics: {e}"),
            };
            for (i, &p) in [0usize, 1, 2, 3, 3, 2, 1, 0].iter().enumerate() {
                let g = a.get_pixel(i as u32 % 4, i as u32 / 4).0;
                if g != [palette[usize::from(pal[p])] as u8, alpha[p]] {
                    viol!(key, "palette {pal:?} alpha {alpha:?}: pixel {i} of index {p} is {g:?}");
                }
            }
            o += 1;
            ch.walk(&[h64(&("pal", pal)), h64(&("alpha", alpha))]);
        }
    }
    ch.evals(o);
    ch.validated(o);
    Ok(())
}

/// The conversion to `Rgba` that the library supplies, for every colour and alpha.
fn v07_conv(ch: &mut Ch) -> R {
    let (r, g) = (ch.choose(256) as u8, ch.choose(256) as u8);
    let bad = guard(|| {
        for b in 0..=255u8 {
            for a in 0..=255u8 {
                if std::hint::black_box(conv_to_rgba(Rgb([r, g, b]), std::hint::black_box(a))).0 != [r, g, b, a] {
                    return Some((b, a));
                }
            }
        }
        None
    });
    ch.walk(&[h64(&("conv", r, g))]);
    ch.evals(65536);
    ch.validated(65536);
    match bad {
        Ok(None) => Ok(()),
        o => viol!(format!("V07.conv:{r}:{g}"), "colour [{r}, {g}, b] with alpha a: wrong or panics at (b, a) {o:?}"),
    }
}

/// Decoded from a file, then rendered.
fn v07_file(ch: &mut Ch) -> R {
    let (w, h) = *ch.pick(&[(2usize, 2usize), (4, 3), (31, 7)]);
    let k = ch.choose(6);
    let px: Vec<u8> = (0..w * h).map(|i| ((i * (k + 1) + i / w * k) % 4) as u8).collect();
    let (d, o) = encode(w, &px, ch.flag(), ch.flag());
    let pal = *ch.pick(&[[0u8, 5, 10, 15], [3, 3, 1, 0]]);
    let alpha = *ch.pick(&[[0u8, 5, 10, 15], [15, 15, 0, 0]]);
    let mut b = vec![];
    let a = (4u16, 4 + w as u16 - 1, 8u16, 8 + h as u16 - 1);
    put_simple(&mut b, 0, &spu(&d, &[Seq::new(0, std_cmds(pal, alpha, a, o))]));
    let want = reference(&b);
    let Ok(RSub { img: RImg::Exact(p), .. }) = &want.items[0] else { panic!("reference") };
    assert_eq!(*p, px);
    ch.walk(&want.trace);
    let key = format!("V07.file:{:016x}", h64(&b));
    let rgb: [Rgb<u8>; 16] = std::array::from_fn(|i| Rgb([i as u8 * 16, 255 - i as u8, i as u8]));
    let path = scratch();
    std::fs::write(&path, &b).unwrap();
    let r = guard(|| {
        let sub = open_path(&path);
        let x = sub.subtitles::<(subtile::time::TimeSpan, VobSubIndexedImage)>().next();
        x.map(|x| x.map(|(_, i)| VobSubToImage::new(&i, &rgb, conv_to_rgba).to_image()))
    });
    let img = match r {
        Ok(Some(Ok(i))) => i,
        o => viol!(key, "no image: {:?}; file {}", o.map(|o| o.map(|r| r.map(|_| ()))), hex(&b)),
    };
    if img.dimensions() != (w as u32, h as u32) {
        viol!(key, "a {w}x{h} image is rendered as {:?}", img.dimensions());
    }
    for (i, &p) in px.iter().enumerate() {
        // Entries are stored from the last to the first.
        let k = usize::from(pal[3 - usize::from(p)]);
        let want = [rgb[k].0[0], rgb[k].0[1], rgb[k].0[2], alpha[3 - usize::from(p)]];
        let g = img.get_pixel((i % w) as u32, (i / w) as u32).0;
        if g != want {
            viol!(key, "pixel {i} of index {p} is {g:?}, expected {want:?}; file {}", hex(&b));
        }
    }
    ch.eval(h64(&b), true);
    ch.validated(1);
    Ok(())
}

pub fn v08_case(ch: &mut Ch, h0: &str, img: &VobSubIndexedImage, w: usize, h: usize, pal: [u8; 4], alpha: [u8; 4], raw: &[u8], lum: [u8; 16], opt: ToOcrImageOpt) -> R {
    let key = format!("{h0}:{:016x}", h64(&(w, h, pal, alpha, raw, lum, opt.border, opt.text_color.0, opt.background_color.0)));
    let palette: [Luma<u8>; 16] = lum.map(|l| Luma([l]));
    let g = match guard(|| VobSubOcrImage::new(img, &palette).image(&opt)) {
        Ok(g) => g,
        Err(e) => viol!(key, "OCR image of {w}x{h} with border {} panics: {e}", opt.border),
    };
    let b = opt.border;
    if g.dimensions() != (w as u32 + 2 * b, h as u32 + 2 * b) {
        viol!(key, "OCR image of {w}x{h} with border {b} is {:?}", g.dimensions());
    }
    for (x, y, p) in g.enumerate_pixels() {
        let inside = x >= b && y >= b && x < b + w as u32 && y < b + h as u32;
        let text = inside && {
            let i = raw[((y - b) as usize) * w + (x - b) as usize] as usize;
            alpha[i] > 0 && lum[usize::from(pal[i])] > 0
        };
        let want = if text { opt.text_color } else { opt.background_color };
        if *p != want {
            viol!(
                key,
                "OCR {w}x{h} border {b} pal {pal:?} alpha {alpha:?} lum {lum:?}: pixel ({x},{y}) is {p:?}, expected {want:?}; raw {:?}",
                &raw[..raw.len().min(40)]
            );
        }
    }
    ch.walk(&[h64(&("ocr", w, h, b)), h64(&(pal, alpha, raw.len().min(9)))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    ch.sample(|| format!("{h0}: {w}x{h} border {b} pal {pal:?} alpha {alpha:?}"));
    Ok(())
}

fn v08_ocr(ch: &mut Ch) -> R {
    let (img, w, h, pal, alpha, raw) = image_case(
        ch,
        &[(2, 2), (3, 2), (17, 5), (300, 3), (3, 300), (256, 257)],
        &[(2, 2), (3, 2), (2, 3), (17, 5), (300, 3), (3, 300), (4096, 5), (5, 4096), (256, 257), (4096, 17)],
    )?;
    let plain = w * h < 8 && raw.iter().enumerate().all(|(i, &p)| usize::from(p) == i % 4) && pal[0] == 0;
    let big: &[u32] = if plain { &[65, 100, 127, 128, 129, 255, 256, 257, 300, 1000] } else { &[] };
    let border = *ch.pick(&[&[0u32, 1, 2, 5, 64], big].concat());
    let (t, g) = *ch.pick(&[(0u8, 255u8), (200, 3)]);
    let mut lum: [u8; 16] = std::array::from_fn(|i| (i as u8) * 17);
    lum[7] = 1;
    v08_case(ch, "V08.ocr", &img, w, h, pal, alpha, &raw, lum, ToOcrImageOpt { border, text_color: Luma([t]), background_color: Luma([g]) })
}

fn v08_classes(ch: &mut Ch) -> R {
    // Each colour: every alpha, every class of luminance.
    let l = [0u8, 1, 2, 127, 128, 254, 255];
    let slot = ch.choose(4);
    let mut alpha_v = ch.choose(20) as u8;
    if alpha_v > 15 {
        alpha_v = [16, 32, 128, 255][usize::from(alpha_v) - 16];
    }
    let lv = *ch.pick(&l);
    let idx = ch.choose(16) as u8;
    let others = *ch.pick(&[(0u8, 0u8), (15, 0), (0, 255), (15, 255), (240, 255)]);
    let border = *ch.pick(&[0u32, 3]);
    let mut pal = [(idx + 1) % 16; 4];
    pal[slot] = idx;
    let mut alpha = [others.0; 4];
    alpha[slot] = alpha_v;
    let mut lum = [others.1; 16];
    lum[usize::from(idx)] = lv;
    let raw = [0u8, 1, 2, 3, 3, 2, 1, 0];
    let img = VobSubIndexedImage::new(area(1, 2, 4, 2)?, pal, alpha, raw.to_vec());
    v08_case(ch, "V08.classes", &img, 4, 2, pal, alpha, &raw, lum, ToOcrImageOpt { border, ..ToOcrImageOpt::default() })
}

fn v08_default(ch: &mut Ch) -> R {
    let o = ToOcrImageOpt::default();
    if (o.border, o.text_color, o.background_color) != (5, Luma([0]), Luma([255])) {
        viol!("V08.default", "default OCR options are {o:?}");
    }
    ch.eval(1, true);
    ch.validated(1);
    ch.walk(&[1]);
    Ok(())
}

/// Corners of places on the screen.
const PLACES: [u16; 14] = [0, 1, 2, 3, 255, 256, 257, 719, 4095, 4096, 32767, 32768, 65533, 65535];

/// Images of these sizes in every place where they fit; rendered twice, and again after another one.
fn v07_places(ch: &mut Ch) -> R {
    let (w, h) = *ch.pick(ch.tier.b(
        &[(2usize, 2usize), (3, 5), (300, 2), (2, 300), (65535, 2), (2, 65535)][..],
        &[(2, 2), (3, 5), (2, 7), (300, 2), (2, 300), (720, 576), (65535, 2), (2, 65535), (65535, 9), (9, 65535)][..],
    ));
    let (x, y) = (*ch.pick(&PLACES), *ch.pick(&PLACES));
    if usize::from(x) + w > 65536 || usize::from(y) + h > 65536 {
        return Ok(());
    }
    let (pal, alpha) = ([3u8, 0, 15, 7], [9u8, 15, 0, 1]);
    let raw: Vec<u8> = (0..w * h).map(|i| ((i + i / w + i / 3) % 4) as u8).collect();
    let img = VobSubIndexedImage::new(area(x, y, w, h)?, pal, alpha, raw.clone());
    let other = VobSubIndexedImage::new(area(y / 2, x / 2, 2, 3)?, [1, 2, 3, 4], [4, 3, 2, 1], vec![3, 2, 1, 0, 3, 2]);
    let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
    let key = format!("V07.places:{w}x{h}:{x},{y}");
    let r = guard(|| {
        let c = VobSubToImage::new(&img, &palette, conv_luma_a);
        let a = c.to_image();
        let b = c.to_image();
        let _ = VobSubToImage::new(&other, &palette, conv_luma_a).to_image();
        (a, b, c.to_image())
    });
    let (a, b, c) = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "rendering a {w}x{h} image at ({x}, {y}) panics: {e}"),
    };
    if a.dimensions() != (w as u32, h as u32) {
        viol!(key, "a {w}x{h} image at ({x}, {y}) is rendered as {:?}", a.dimensions());
    }
    if a != b || a != c {
        viol!(key, "a {w}x{h} image at ({x}, {y}): rendering it again gives another picture");
    }
    for (i, (&p, g)) in raw.iter().zip(a.pixels()).enumerate() {
        if g.0 != [palette[usize::from(pal[usize::from(p)])] as u8, alpha[usize::from(p)]] {
            viol!(key, "{w}x{h} at ({x}, {y}): pixel {i} of index {p} is {:?}", g.0);
        }
    }
    ch.walk(&[h64(&("at", x, y)), h64(&("size", x, y, w, h))]);
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}
fn v08_places(ch: &mut Ch) -> R {
    let (w, h) = *ch.pick(&[(2usize, 2usize), (3, 5), (300, 2), (2, 300), (65535, 2), (2, 65535)]);
    let (x, y) = (*ch.pick(&PLACES), *ch.pick(&PLACES));
    if usize::from(x) + w > 65536 || usize::from(y) + h > 65536 {
        return Ok(());
    }
    let (pal, alpha) = ([3u8, 0, 15, 7], [9u8, 15, 0, 1]);
    let raw: Vec<u8> = (0..w * h).map(|i| ((i + i / w + i / 3) % 4) as u8).collect();
    let img = VobSubIndexedImage::new(area(x, y, w, h)?, pal, alpha, raw.clone());
    let lum: [u8; 16] = std::array::from_fn(|i| (i as u8 % 4) * 60);
    let big = w * h > 2000;
    for border in [0u32, 1, 2, 5, 11] {
        if big && border == 11 {
            continue;
        }
        v08_case(ch, &format!("V08.places:{x}:{y}"), &img, w, h, pal, alpha, &raw, lum, ToOcrImageOpt { border, ..ToOcrImageOpt::default() })?;
    }
    Ok(())
}

/// All quadruples of palette entries and alpha values over 3 and 4 values.
fn v07_mix(ch: &mut Ch) -> R {
    let pal: [u8; 4] = std::array::from_fn(|_| *ch.pick(&[0u8, 7, 15]));
    let raw = [0u8, 1, 2, 3, 3, 2, 1, 0];
    let palette: [u16; 16] = std::array::from_fn(|i| (i as u16 + 1) * 0x0f17);
    let mut n = 0;
    for k in 0..256usize {
        let alpha: [u8; 4] = std::array::from_fn(|i| [0u8, 1, 15, 255][k >> (2 * i) & 3]);
        let key = format!("V07.mix:{pal:?}{alpha:?}");
        for (w, h) in [(4usize, 2usize), (2, 4)] {
            let img = VobSubIndexedImage::new(area(1, 2, w, h)?, pal, alpha, raw.to_vec());
            let a = match guard(|| VobSubToImage::new(&img, &palette, conv_luma_a).to_image()) {
                Ok(r) => r,
                Err(e) => viol!(key, "rendering with palette {pal:?}, alpha {alpha:?} panics: {e}"),
            };
            for (i, &p) in raw.iter().enumerate() {
                let g = a.get_pixel((i % w) as u32, (i / w) as u32).0;
                if g != [palette[usize::from(pal[usize::from(p)])] as u8, alpha[usize::from(p)]] {
                    viol!(key, "palette {pal:?} alpha {alpha:?}: pixel {i} of index {p} is {g:?}");
                }
            }
            n += 1;
        }
        ch.walk(&[h64(&("pal", pal)), h64(&("alpha", alpha))]);
    }
    ch.evals(n);
    ch.validated(n);
    Ok(())
}
fn v08_mix(ch: &mut Ch) -> R {
    let pal: [u8; 4] = std::array::from_fn(|_| *ch.pick(&[0u8, 7, 8, 15]));
    let raw = [0u8, 1, 2, 3, 3, 2, 1, 0];
    for k in 0..256usize {
        let alpha: [u8; 4] = std::array::from_fn(|i| [0u8, 1, 15, 255][k >> (2 * i) & 3]);
        let img = VobSubIndexedImage::new(area(1, 2, 4, 2)?, pal, alpha, raw.to_vec());
        let mut lum = [9u8; 16];
        (lum[0], lum[8], lum[15]) = (0, 255, 1);
        v08_case(ch, "V08.mix", &img, 4, 2, pal, alpha, &raw, lum, ToOcrImageOpt { border: 1, text_color: Luma([200]), background_color: Luma([100]) })?;
    }
    Ok(())
}

/// One converter, used again and again with words of options.
fn v08_again(ch: &mut Ch) -> R {
    let opts: Vec<ToOcrImageOpt> = [(0u32, 0u8, 255u8), (5, 0, 255), (0, 255, 0), (5, 7, 7), (1, 3, 200), (300, 0, 255)]
        .iter()
        .map(|&(border, t, b)| ToOcrImageOpt { border, text_color: Luma([t]), background_color: Luma([b]) })
        .collect();
    let n = ch.tier.b(3, 4);
    let word: Vec<usize> = (0..n).map(|_| ch.choose(opts.len())).collect();
    let raw = [0u8, 1, 2, 3, 3, 2];
    let img = VobSubIndexedImage::new(area(1, 2, 3, 2)?, [1, 0, 9, 3], [15, 15, 0, 1], raw.to_vec());
    let palette: [Luma<u8>; 16] = std::array::from_fn(|i| Luma([i as u8]));
    let text = [true, false, false, true];
    let key = format!("V08.again:{word:?}");
    let r = guard(|| {
        let c = VobSubOcrImage::new(&img, &palette);
        word.iter().map(|&k| c.image(&opts[k])).collect::<Vec<_>>()
    });
    let r = match r {
        Ok(r) => r,
        Err(e) => viol!(key, "OCR images with options {word:?} panic: {e}"),
    };
    for (at, (g, &k)) in r.iter().zip(&word).enumerate() {
        let o = &opts[k];
        let b = o.border;
        if g.dimensions() != (3 + 2 * b, 2 + 2 * b) {
            viol!(key, "OCR image {at} of {word:?} is {:?}", g.dimensions());
        }
        for (x, y, p) in g.enumerate_pixels() {
            let t = x >= b && y >= b && x < b + 3 && y < b + 2 && text[usize::from(raw[((y - b) * 3 + x - b) as usize])];
            if *p != (if t { o.text_color } else { o.background_color }) {
                viol!(key, "OCR image {at} of {word:?}: pixel ({x},{y}) is {p:?}");
            }
        }
    }
    ch.walk(&word.iter().scan(0u64, |s, &k| { *s = h64(&(*s, k)); Some(*s) }).collect::<Vec<_>>());
    ch.eval(h64(&key), true);
    ch.validated(1);
    Ok(())
}

// ================================================================ A01

fn area_case(x1: u16, y1: u16, x2: u16, y2: u16) -> Result<bool, String> {
    let v = AreaValues { x1, y1, x2, y2 };
    let r = Area::try_from(v);
    let valid = x2 > x1 && y2 > y1;
    match r {
        Ok(_) if !valid => Err(format!("{v:?} is accepted")),
        Err(_) if valid => Err(format!("{v:?} is refused")),
        Err(_) => Ok(false),
        Ok(a) => {
            let (w, h) = (usize::from(x2 - x1) + 1, usize::from(y2 - y1) + 1);
            // A size of 65536 has no representation.
            if w > 65535 || h > 65535 {
                return Ok(false);
            }
            let s = a.size();
            let got = (usize::from(a.left()), usize::from(a.top()), usize::from(a.width()), usize::from(a.height()), s.w, s.h);
            if got == (x1.into(), y1.into(), w, h, w, h) {
                Ok(true)
            } else {
                Err(format!("{v:?}: left, top, width, height, size are {got:?}"))
            }
        }
    }
}

fn a01_grid(ch: &mut Ch) -> R {
    let mut v: Vec<u16> = vec![0, 1, 2, 3, 99, 100, 101, 719, 720, 1919, 65533, 65534, 65535];
    let step = ch.tier.b(2, 1);
    for k in (2..16).step_by(step) {
        let p = 1u32 << k;
        v.extend([p - 1, p, p + 1].map(|x| x as u16));
    }
    v.sort_unstable();
    v.dedup();
    let x1 = *ch.pick(&v);
    let y1 = *ch.pick(&v);
    let mut n = 0;
    for &x2 in &v {
        for &y2 in &v {
            match guard(|| area_case(x1, y1, x2, y2)) {
                Ok(Ok(_)) => n += 1,
                Ok(Err(e)) => viol!(format!("A01.grid:{x1},{y1},{x2},{y2}"), "{e}"),
                Err(e) => viol!(format!("A01.grid:{x1},{y1},{x2},{y2}"), "area {x1},{y1},{x2},{y2} panics: {e}"),
            }
        }
        ch.walk(&[h64(&(x1.cmp(&x2) as i8)), h64(&(x1, x2))]);
    }
    ch.evals(n);
    ch.validated(n);
    ch.sample(|| format!("areas from ({x1},{y1})"));
    Ok(())
}

fn a01_axis(ch: &mut Ch) -> R {
    // All pairs of one axis (quick: a sweep of the second value for some first ones).
    let vertical = ch.flag();
    let x1s: Vec<u16> = match ch.tier {
        Tier::Quick => {
            let k = ch.choose(64) as u16;
            vec![k * 1024, k * 1024 + 1, k * 1024 + 1023]
        }
        Tier::Thorough => {
            let k = ch.choose(2048) as u16;
            (0..32).map(|i| k * 32 + i).collect()
        }
    };
    let mut n = 0;
    for x1 in x1s {
        let r = guard(|| {
            for x2 in 0..=65535u16 {
                let r = if vertical { area_case(3, x1, 9, x2) } else { area_case(x1, 3, x2, 9) };
                if let Err(e) = r {
                    return Err((x2, e));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => n += 65536,
            Ok(Err((x2, e))) => viol!(format!("A01.axis:{x1},{x2}"), "{e}"),
            Err(e) => viol!(format!("A01.axis:{x1}"), "area from {x1} panics: {e}"),
        }
        ch.walk(&[h64(&("axis", vertical)), h64(&("axis", vertical, x1))]);
    }
    ch.evals(n);
    ch.validated(n);
    Ok(())
}

pub const H: &[Harness] = &[
    Harness { prop: "V01", name: "V01.cuts", what: "all cuts of a subtitle in up to 3 packets x all departures of the packet headers, stuffing, junk and foreign packets within the deviation bound", devs: (1, 2), serial: false, run: v01_cuts },
    Harness { prop: "V01", name: "V01.sizes", what: "subtitle sizes 64..65535 x packet sizes", devs: (0, 0), serial: false, run: v01_sizes },
    Harness { prop: "V01", name: "V01.history", what: "all histories of up to 4 (5) packets over 12 kinds of packets of two streams", devs: (0, 0), serial: false, run: v01_history },
    Harness { prop: "V01", name: "V01.streams", what: "every own stream x packets of other streams (quick: some 20 of them) between the packets", devs: (0, 0), serial: false, run: v01_streams },
    Harness { prop: "V01", name: "V01.gaps", what: "junk of up to 128 KiB (2 MiB) of 5 kinds at every place", devs: (0, 0), serial: false, run: v01_gaps },
    Harness { prop: "V01", name: "V01.codes", what: "all words of up to 2 (3) start codes x lengths between the packs (each of 255 alone, 16 in words)", devs: (0, 0), serial: false, run: v01_codes },
    Harness { prop: "V01", name: "V01.dress", what: "one of 3 packets with all combinations of stamps, stuffing, header bytes, flags, clocks and what stands before it", devs: (0, 0), serial: false, run: v01_dress },
    Harness { prop: "V01", name: "V01.few", what: "3 cuts of each of 3 subtitles x all departures of the packets within the deviation bound", devs: (2, 3), serial: false, run: v01_few },
    Harness { prop: "V01", name: "V01.headers", what: "all lengths of a packet header x time stamps x stuffing", devs: (0, 0), serial: false, run: v01_headers },
    Harness { prop: "V01", name: "V01.flags", what: "all flags of a packet header; all extensions, one or two bits of the clock and of the rate of a pack header", devs: (0, 0), serial: false, run: v01_flags },
    Harness { prop: "V01", name: "V01.foreign", what: "0 to 40 packets of other streams between those of a subtitle, and around powers of two and ten up to 65537 (1000001)", devs: (0, 0), serial: false, run: v01_foreign },
    Harness { prop: "V02", name: "V02.permute", what: "all 5040 orders of the 7 commands x all splits in sequences", devs: (0, 0), serial: false, run: v02_permute },
    Harness { prop: "V02", name: "V02.repeat", what: "each of 7 commands absent, in the first, second or both sequences, or twice: 5^7", devs: (0, 0), serial: false, run: v02_repeat },
    Harness { prop: "V02", name: "V02.again", what: "all words of 3 commands of a kind over the limits of its values x the sequences they are in", devs: (0, 0), serial: false, run: v02_again },
    Harness { prop: "V02", name: "V02.gaps", what: "8 kinds of bytes between sequences and before them x sizes up to 65000", devs: (0, 0), serial: false, run: v02_gaps },
    Harness { prop: "V02", name: "V02.words", what: "all words of up to 5 (6) commands, bad commands and sequence breaks after 3 prefixes", devs: (0, 0), serial: false, run: v02_words },
    Harness { prop: "V02", name: "V02.links", what: "3 sequences, all combinations of 16 next offsets and of start offsets", devs: (0, 0), serial: false, run: v02_links },
    Harness { prop: "V02", name: "V02.declared", what: "4 chains x every declared size x bytes behind x packets", devs: (0, 0), serial: false, run: v02_declared },
    Harness { prop: "V02", name: "V02.chain", what: "chains of up to 300 sequences and around powers of two, sequences of as many commands x where the content is", devs: (0, 0), serial: false, run: v02_chain },
    Harness { prop: "V02", name: "V02.values", what: "all 2^16 palettes and alphas, all positions, all widths and heights (quick: a subset of the sizes)", devs: (0, 0), serial: false, run: v02_values },
    Harness { prop: "V03", name: "V03.codes", what: "all ways to code all lines of small images", devs: (0, 0), serial: false, run: v03_codes },
    Harness { prop: "V03", name: "V03.runs", what: "all run lengths x forms x colours x rests of the line", devs: (0, 0), serial: false, run: v03_runs },
    Harness { prop: "V03", name: "V03.data", what: "all data of 2 (3) bytes for 6 shapes", devs: (0, 0), serial: false, run: v03_data },
    Harness { prop: "V03", name: "V03.fields", what: "all pairs of field offsets, heights of 2..12 (16)", devs: (0, 0), serial: false, run: v03_fields },
    Harness { prop: "V03", name: "V03.wide", what: "all widths up to 4095 (quick: one of 8)", devs: (0, 0), serial: false, run: v03_wide },
    Harness { prop: "V03", name: "V03.tall", what: "heights up to 70 (600) and around powers of two up to 4096 x widths up to 4096", devs: (0, 0), serial: false, run: v03_tall },
    Harness { prop: "V04", name: "V04.pts", what: "all time stamps of one or two bits set or clear, borders, a sweep; x dates x decode stamps", devs: (0, 0), serial: false, run: v04_pts },
    Harness { prop: "V04", name: "V04.dates", what: "all 65536 dates as start, stop or both x 6 time stamps", devs: (0, 0), serial: false, run: v04_dates },
    Harness { prop: "V04", name: "V04.order", what: "all histories of 3 subtitles over 32 timings", devs: (0, 0), serial: false, run: v04_order },
    Harness { prop: "V05", name: "V05.broken", what: "up to 400000 (2000000) broken packs of 6 kinds in a row", devs: (0, 0), serial: false, run: v05_broken },
    Harness { prop: "V05", name: "V05.bytes", what: "every byte of a file of 3 subtitles x all 255 other values", devs: (0, 0), serial: false, run: v05_bytes },
    Harness { prop: "V05", name: "V05.pairs", what: "every pair of bytes of a subtitle x values of the format", devs: (0, 0), serial: false, run: v05_pairs },
    Harness { prop: "V05", name: "V05.edit", what: "every truncation, insertion, removal and repetition within the bounds", devs: (0, 0), serial: false, run: v05_edit },
    Harness { prop: "V05", name: "V05.many", what: "files of 0 to 64 subtitles and around powers of two and ten up to 65537 (300000), good, bad and mixed", devs: (0, 0), serial: false, run: v05_many },
    Harness { prop: "V05", name: "V05.steps", what: "all words of up to 3 ways to go on of the iterator", devs: (0, 0), serial: false, run: v05_steps },
    Harness { prop: "V05", name: "V05.pipes", what: "a file that is a pipe: cut at every byte, or all single bytes", devs: (0, 0), serial: false, run: v05_pipes },
    Harness { prop: "V05", name: "V05.open", what: "files that can not be opened, and an empty one", devs: (0, 0), serial: false, run: v05_open },
    Harness { prop: "V05", name: "V05.tiny", what: "all subtitle packets of up to 6 (8) bytes over 8 byte values", devs: (0, 0), serial: false, run: v05_tiny },
    Harness { prop: "V05", name: "V05.header", what: "all streams of up to 5 (6) pieces of headers", devs: (0, 0), serial: false, run: v05_header },
    Harness { prop: "V06", name: "V06.cut", what: "every length of 4 files of 4 subtitles", devs: (0, 0), serial: false, run: v06_cut },
    Harness { prop: "V06", name: "V06.damage", what: "every byte (but lengths) of one of 3 subtitles x all values", devs: (0, 0), serial: false, run: v06_damage },
    Harness { prop: "V06", name: "V06.ranges", what: "every range of bytes of one subtitle x 6 kinds of damage", devs: (0, 0), serial: false, run: v06_ranges },
    Harness { prop: "V06", name: "V06.pairs", what: "every pair of bytes of one subtitle x 49 (400) values", devs: (0, 0), serial: false, run: v06_pairs },
    Harness { prop: "V06", name: "V06.junk", what: "all placements of junk without start code between the packs", devs: (0, 0), serial: false, run: v06_junk },
    Harness { prop: "V06", name: "V06.lost", what: "all histories of 4 good, bad or lost subtitles", devs: (0, 0), serial: false, run: v06_lost },
    Harness { prop: "V06", name: "V06.multi", what: "subtitles of several packets: every byte of their data and of the first packet's header x all values", devs: (0, 0), serial: false, run: v06_multi },
    Harness { prop: "V06", name: "V06.small", what: "bad packs of every size up to 120 (300), every byte of their header damaged, at every place", devs: (0, 0), serial: false, run: v06_small },
    Harness { prop: "V06", name: "V06.far", what: "junk of up to 128 KiB (2 MiB) of 5 kinds at every place", devs: (0, 0), serial: false, run: v06_far },
    Harness { prop: "V07", name: "V07.render", what: "all images of up to 6 (8) pixels, patterns for larger ones x palettes x alphas x places", devs: (0, 0), serial: false, run: v07_render },
    Harness { prop: "V07", name: "V07.places", what: "images of 6 (10) sizes in every of 196 places where they fit, rendered again and again", devs: (0, 0), serial: false, run: v07_places },
    Harness { prop: "V07", name: "V07.mix", what: "all palettes over 3 entries x all alphas over 4 values", devs: (0, 0), serial: false, run: v07_mix },
    Harness { prop: "V08", name: "V08.places", what: "images of 6 sizes in every of 196 places where they fit x borders", devs: (0, 0), serial: false, run: v08_places },
    Harness { prop: "V08", name: "V08.mix", what: "all palettes over 4 entries x all alphas over 4 values", devs: (0, 0), serial: false, run: v08_mix },
    Harness { prop: "V08", name: "V08.again", what: "all words of 3 (4) of 6 options with one converter", devs: (0, 0), serial: false, run: v08_again },
    Harness { prop: "V07", name: "V07.palette", what: "every palette index and alpha in every place", devs: (0, 0), serial: false, run: v07_palette },
    Harness { prop: "V07", name: "V07.conv", what: "the supplied conversion for all 2^32 colours and alphas", devs: (0, 0), serial: false, run: v07_conv },
    Harness { prop: "V07", name: "V07.file", what: "images read from files and rendered", devs: (0, 0), serial: false, run: v07_file },
    Harness { prop: "V08", name: "V08.ocr", what: "all images of up to 6 pixels, patterns for larger ones x palettes x borders x colours", devs: (0, 0), serial: false, run: v08_ocr },
    Harness { prop: "V08", name: "V08.classes", what: "every colour x every alpha x classes of luminance", devs: (0, 0), serial: false, run: v08_classes },
    Harness { prop: "V08", name: "V08.default", what: "the default options", devs: (0, 0), serial: false, run: v08_default },
    Harness { prop: "A01", name: "A01.grid", what: "all quadruples over the boundary values", devs: (0, 0), serial: false, run: a01_grid },
    Harness { prop: "A01", name: "A01.axis", what: "all pairs of one axis (quick: 192 first values)", devs: (0, 0), serial: false, run: a01_axis },
];
