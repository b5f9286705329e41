//! C12 typed descriptors, C13 descriptor lists.

use crate::cx::*;
use crate::desc::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::text::{rand_text, Text, PAGES};
use mpegts::psi::*;

// ---- C12 -------------------------------------------------------------------

/// builds, emits and compares; decodes canonical and reserved-bit variants
fn exact(cx: &mut Cx, d: &D) -> Res {
    let r = &mut cx.r;
    let want = d.enc();
    let l = build(std::slice::from_ref(d), r);
    let mut out = r.bytes(3);
    let head = out.clone();
    let n = l.assemble(&mut out);
    if out.len() < 3 || out[..3] != head[..] { return Err(format!("{:?}: output in front of the descriptor changed", d)); }
    if out[3..] != want[..] { return Err(format!("{:?}: emitted {}", d, diff(&out[3..], &want))); }
    if l.size() != want.len() || n != want.len() { return Err(format!("{:?}: announced {} bytes, reported {} written, {} emitted", d, l.size(), n, want.len())); }
    for canonical in [true, false] {
        let e = if canonical { want.clone() } else { d.enc_any(r) };
        let mut p = Descriptors::default();
        p.parse(&e);
        same_list(&p, std::slice::from_ref(d), &format!("decoding {}", hex(&e)))?;
        if p.size() != want.len() { return Err(format!("decoded {}: announced {} bytes, want {}", hex(&e), p.size(), want.len())); }
    }
    cx.count("descriptors_exact");
    cx.seen_bytes(&want);
    Ok(())
}

fn c12_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let tag = TYPED[(cx.index % 14) as usize];
    let max = if r.one_in(3) { 257 } else { r.urange(2, 257) };
    let d = match gen_typed(r, tag, max) { Some(d) => d, None => return Ok(()) };
    exact(cx, &d)?;
    cx.sample(|| format!("{:?}", d));
    Ok(())
}

/// full lists, to the last byte that fits
fn c12_full(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = cx.index / 8;
    let d = match cx.index % 8 {
        0 => { let n = (k % 64) as usize; D::X0A((0..n).map(|i| ([b'a' + (i % 26) as u8, b'b', b'c'], i as u8)).collect()) }
        1 => { let n = (k % 86) as usize; D::X41((0..n).map(|_| (r.e16(), r.e8())).collect()) }
        2 => { let n = (k % 64) as usize; D::X83((0..n).map(|_| (r.e16(), r.bits(1) as u8, r.bits(10) as u16)).collect()) }
        3 => { let n = (k % 20) as usize; D::X58((0..n).map(|_| Lto { code: *b"ITA", region: r.bits(6) as u8, pol: r.bits(1) as u8, off: r.edge(1439) as u16, change: rand_time(r), next: r.edge(1439) as u16 }).collect()) }
        4 => { let n = (k % 252) as usize; D::X09 { caid: r.e16(), pid: r.bits(13) as u16, data: r.bytes(n) } }
        5 => { let n = (k % 253) as usize; let prov = exact_text(r, n); let left = 252 - prov.enc().len(); let name = exact_text(r, left); D::X48 { st: r.e8(), prov, name } }
        6 => { let n = (k % 251) as usize; let name = exact_text(r, n); let left = 250 - name.enc().len(); let text = exact_text(r, left); D::X4D { lang: *b"deu", name, text } }
        _ => {
            // extended event: item list and text share the room
            let mut left = 249;
            let mut items = Vec::new();
            // (few long ones or many short ones)
            let (most, a_max, b_max) = if k % 3 == 0 { (125, r.urange(0, 3), r.urange(0, 2)) } else { (40, 20, 30) };
            for _ in 0..k / 3 % most {
                if left < 2 { break; }
                left -= 2;
                let a = rand_text(r, left.min(a_max));
                left -= a.enc().len();
                let b = if items.len() % 3 == 2 { Text::empty() } else { rand_text(r, left.min(b_max)) };
                left -= b.enc().len();
                items.push((a, b));
            }
            let text = exact_text(r, left);
            D::X4E { num: r.bits(4) as u8, last: r.bits(4) as u8, lang: *b"fra", items, text }
        }
    };
    exact(cx, &d)?;
    cx.sample(|| format!("{:02x} with {} bytes", d.tag(), d.len()));
    Ok(())
}

/// text emitted in exactly `n` bytes where possible
fn exact_text(r: &mut Rng, n: usize) -> Text {
    let cp = r.pick(&PAGES);
    let over = crate::text::selector(cp).len();
    if n <= over { return Text { cp: 0, data: vec![b'x'; n] }; }
    Text { cp, data: (0..n - over).map(|i| b'a' + (i % 26) as u8).collect() }
}

fn c12_0e(cx: &mut Cx) -> Res {
    let base = cx.index as u32 * 1024;
    for v in base..base + 1024 {
        let mut l = Descriptors::default();
        l.push(Desc0E { bitrate: v });
        let mut out = Vec::new();
        l.assemble(&mut out);
        let w = [0x0E, 3, 0xC0 | (v >> 16) as u8, (v >> 8) as u8, v as u8];
        if out != w { return Err(format!("bitrate {}: emitted {} want {}", v, hex(&out), hex(&w))); }
        let mut p = Descriptors::default();
        p.parse(&w);
        D::X0E(v).same(p.iter().next().ok_or("bitrate descriptor not decoded")?)?;
    }
    cx.add("descriptors_exact", 1024);
    cx.seen(cx.index);
    Ok(())
}

/// all 2^16 values of every two-byte field
fn c12_words(cx: &mut Cx) -> Res {
    for v in cx.index as u16 * 64..=cx.index as u16 * 64 + 63 {
        exact(cx, &D::X83(vec![(v.rotate_left(8), (v >> 15) as u8, v & 0x3FF)]))?;
        exact(cx, &D::X09 { caid: v, pid: v.rotate_left(4) & 0x1FFF, data: vec![v as u8] })?;
        exact(cx, &D::X41(vec![(v, (v >> 3) as u8), (!v, v as u8)]))?;
    }
    Ok(())
}

/// every value of every flag byte of the delivery descriptors
fn c12_delivery(cx: &mut Cx) -> Res {
    let b = cx.index as u8;
    let r = &mut cx.r;
    let mut v = Vec::new();
    for f in 0..16u8 {
        v.push(D::X43 {
            freq: r.edge(99_999_999) as u32, pos: r.edge(9999) as u16, we: b >> 7, pol: b >> 5 & 3, rof: b >> 3 & 3, s2: b >> 2 & 1, modu: b & 3,
            sr: r.edge(999_999) as u32, fec: f,
        });
        v.push(D::X44 { freq: r.edge(42_949_672) as u32, outer: f, modu: b, sr: r.edge(999_999) as u32, fec: b & 15 });
        let x = r.u8();
        v.push(D::X5A { freq: r.edge(429_496_729) as u32, bw: b >> 5, prio: b >> 4 & 1, ts: b >> 3 & 1, mpe: b >> 2 & 1, modu: x >> 6, hier: x >> 3 & 7, hp: x & 7, lp: f & 7, gi: b & 3, tm: f >> 2 & 3, other: b >> 1 & 1 });
        v.push(D::X5A { freq: r.edge(429_496_729) as u32, bw: x >> 5, prio: x & 1, ts: x >> 1 & 1, mpe: x >> 2 & 1, modu: b >> 6, hier: b >> 3 & 7, hp: b & 7, lp: x >> 3 & 7, gi: f & 3, tm: f >> 2, other: f & 1 });
        v.push(D::X5A { freq: r.edge(429_496_729) as u32, bw: f & 7, prio: f >> 3, ts: x >> 1 & 1, mpe: x >> 2 & 1, modu: f & 3, hier: x >> 3 & 7, hp: f & 7, lp: b >> 5, gi: b >> 3 & 3, tm: b >> 1 & 3, other: b & 1 });
    }
    for d in v { exact(cx, &d)?; }
    cx.sample(|| format!("flag byte {:02x} in satellite, cable and terrestrial delivery", b));
    Ok(())
}

/// every four-digit group of every BCD field
fn c12_digits(cx: &mut Cx) -> Res {
    let g = cx.index as u32; // 0..10000
    for d in [
        D::X43 { freq: g * 10_000, pos: g as u16, we: 0, pol: 1, rof: 2, s2: 0, modu: 1, sr: g * 100, fec: 3 },
        D::X43 { freq: g, pos: 9999 - g as u16, we: 1, pol: 2, rof: 1, s2: 1, modu: 2, sr: g, fec: 12 },
        D::X43 { freq: g * 100, pos: 0, we: 1, pol: 0, rof: 0, s2: 1, modu: 3, sr: 999_999 - g, fec: 0 },
        D::X44 { freq: (g * 10_000).min(42_949_672), outer: 2, modu: 3, sr: g, fec: 15 },
        D::X44 { freq: g * 100, outer: 1, modu: 5, sr: g * 100, fec: 4 },
    ] { exact(cx, &d)?; }
    Ok(())
}

/// every offset of the local time offset descriptor, every region
fn c12_offsets(cx: &mut Cx) -> Res {
    let off = cx.index as u16; // 0..1440
    for pol in 0..2 {
        let r = &mut cx.r;
        let d = D::X58(vec![
            Lto { code: *b"RUS", region: (off % 64) as u8, pol, off, change: rand_time(r), next: 1439 - off },
            Lto { code: *b"ESP", region: (off / 23 % 64) as u8, pol: 1 - pol, off: 1439 - off, change: rand_time(r), next: off },
        ]);
        exact(cx, &d)?;
    }
    Ok(())
}

/// one-byte fields and numbering
fn c12_bytes(cx: &mut Cx) -> Res {
    let b = cx.index as u8;
    let r = &mut cx.r;
    let t = rand_text(r, 40);
    let u = rand_text(r, 40);
    for d in [
        D::X52(b),
        D::X0A(vec![([b'a', b'b', b'c'], b), ([b'x', b'y', b'z'], !b)]),
        D::X48 { st: b, prov: t.clone(), name: u.clone() },
        D::X4E { num: b >> 4, last: b & 15, lang: *b"eng", items: vec![(t.clone(), u.clone())], text: u.clone() },
        D::X41(vec![(1, b)]),
    ] { exact(cx, &d)?; }
    Ok(())
}

/// three-letter codes are three plain bytes, whatever they are
fn c12_codes(cx: &mut Cx) -> Res {
    let a = cx.index as u8;
    for pos in 0..3 {
        let mut c = *b"eng";
        c[pos] = a;
        let list = [
            (0x0A, [&c[..], &[1]].concat()),
            (0x4D, [&c[..], &[0, 0]].concat()),
            (0x4E, [&[0x12], &c[..], &[0, 0]].concat()),
            (0x58, [&c[..], &[0x06, 0x01, 0x00, 0xC0, 0x79, 0x12, 0x45, 0x00, 0x02, 0x00]].concat()),
        ];
        for (tag, body) in list {
            let e = frame(tag, &body);
            let mut p = Descriptors::default();
            p.parse(&e);
            match D::dec(tag, &body) { Some(d) => same_list(&p, &[d], "code")?, None => continue }
            let mut out = Vec::new();
            p.assemble(&mut out);
            if out != e { return Err(format!("descriptor {} with code {:02x?} re-emitted as {}", hex(&e), c, hex(&out))); }
            if p.size() != e.len() { return Err(format!("descriptor {} announces {} bytes", hex(&e), p.size())); }
            cx.count("codes_kept");
        }
    }
    cx.seen(cx.index);
    Ok(())
}

pub fn c12() -> Vec<Workload> {
    vec![
        sweep("bitrates", 4096, 1, c12_0e),
        sweep("words", 1024, 1, c12_words),
        sweep("delivery_flags", 256, 1, c12_delivery),
        sweep("digits", 10_000, 3, c12_digits),
        sweep("offsets", 1440, 4, c12_offsets),
        sweep("bytes", 256, 4, c12_bytes),
        sweep("codes", 256, 8, c12_codes),
        random("full", 8 * 1200, 8 * 40_000, 16, c12_full),
        random("random", 210_000, 8_000_000, 42, c12_random),
    ]
}

// ---- C13 -------------------------------------------------------------------

/// what re-emission must give for a framed descriptor: its bytes where the
/// library cannot represent them, otherwise only tag and framing are judged
fn judge_list(cx: &mut Cx, wire: &[u8]) -> Res {
    // framing by the reference: stop at the first that does not fit
    let mut want: Vec<(u8, &[u8])> = Vec::new();
    let mut at = 0;
    while at + 2 <= wire.len() {
        let n = usize::from(wire[at + 1]);
        if at + 2 + n > wire.len() { break; }
        want.push((wire[at], &wire[at + 2..at + 2 + n]));
        at += 2 + n;
    }
    let mut l = Descriptors::default();
    l.parse(wire);
    let tags: Vec<u8> = l.iter().map(|d| d.tag()).collect();
    let wt: Vec<u8> = want.iter().map(|w| w.0).collect();
    if tags != wt { return Err(format!("loop {} read as tags {:02x?}, want {:02x?}", hex(wire), tags, wt)); }
    if l.len() != want.len() || l.is_empty() != want.is_empty() { return Err(format!("length {} / empty {} for {} descriptors", l.len(), l.is_empty(), want.len())); }
    let mut out = Vec::new();
    let n = l.assemble(&mut out);
    if l.size() != out.len() || n != out.len() { return Err(format!("loop {}: announces {} bytes, reports {} written, writes {}", hex(wire), l.size(), n, out.len())); }
    let got = desc_loop(&out).map_err(|e| format!("loop {} re-emitted as {}: {}", hex(wire), hex(&out), e))?;
    let mut next = got.iter();
    for (i, w) in want.iter().enumerate() {
        // a text the standard gives no reading for may come out longer than
        // a descriptor can hold, and is then left out
        if next.len() < want.len() - i && D::dec(w.0, w.1).is_none() && w.1.len() > 250 { continue; }
        let g = match next.next() { Some(g) => g, None => return Err(format!("loop {}: {} descriptors re-emitted of {}", hex(wire), got.len(), want.len())) };
        if g.0 != w.0 { return Err(format!("loop {}: tag {:02x} re-emitted as {:02x}", hex(wire), w.0, g.0)); }
        match D::dec(w.0, w.1) {
            Some(D::Raw(..)) => { if g.1 != w.1 { return Err(format!("descriptor {:02x} {} is not representable and must be kept, re-emitted as {}", w.0, hex(w.1), hex(&g.1))); } cx.count("kept_verbatim"); }
            _ => cx.count("typed_entries"),
        }
    }
    if next.len() > 0 { return Err(format!("loop {}: {} descriptors re-emitted of {}", hex(wire), got.len(), want.len())); }
    // what it was read as does not depend on its neighbours
    for (d, w) in l.iter().zip(&want) {
        let mut alone = Descriptors::default();
        alone.parse(&frame(w.0, w.1));
        let a: Vec<String> = alone.iter().map(|x| format!("{:?}", x)).collect();
        if a != [format!("{:?}", d)] { return Err(format!("descriptor {:02x} {} reads {:?} in its loop, {:?} alone", w.0, hex(w.1), d, a)); }
    }
    // a list takes further loops behind what it holds, the same one too
    if wire.len() < 400 && cx.r.one_in(8) {
        let mut twice = Descriptors::default();
        let k = cx.r.urange(2, 3);
        for _ in 0..k { twice.parse(wire); }
        let mut o = Vec::new();
        twice.assemble(&mut o);
        if twice.len() != k * want.len() || o != out.repeat(k) { return Err(format!("loop {} read {} times into one list gives {} descriptors, emitted as {}", hex(wire), k, twice.len(), hex(&o))); }
        cx.count("repeated_loops");
    }
    // clone
    let c = l.clone();
    let mut again = Vec::new();
    c.assemble(&mut again);
    if again != out || c.size() != l.size() { return Err(format!("clone of {} emits {}", hex(wire), hex(&again))); }
    cx.count("loops_judged");
    cx.seen_bytes(wire);
    Ok(())
}

/// every tag with every body length, between two neighbours
fn c13_frames(cx: &mut Cx) -> Res {
    let tag = (cx.index / 256) as u8;
    let len = (cx.index % 256) as usize;
    for style in 0..3 {
        let r = &mut cx.r;
        let body = match style { 0 => vec![0; len], 1 => vec![0xFF; len], _ => r.bytes(len) };
        let k = r.urange(0, 9);
        let b = r.bytes(k);
        let mut w = frame(0x52, &[r.u8()]);
        w.extend_from_slice(&frame(tag, &body));
        w.extend_from_slice(&frame(0xC7, &b));
        let cut = match style { 1 => r.urange(0, w.len()), _ => w.len() };
        judge_list(cx, &w[..cut])?;
    }
    cx.sample(|| format!("tag {:02x} length {}", tag, len));
    Ok(())
}

fn c13_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut w = Vec::new();
    for _ in 0..r.urange(0, 8) {
        match r.below(4) {
            0 => { let t = r.u8(); let n = r.count(255); w.extend_from_slice(&frame(t, &r.bytes(n))); }
            1 => { let t = r.pick(&TYPED); let n = r.count(40); w.extend_from_slice(&frame(t, &r.bytes(n))); }
            2 => if let Some(d) = gen_desc(r, 257) { w.extend_from_slice(&d.enc_any(r)); },
            _ => if let Some(d) = gen_desc(r, 60) {
                // nearly right
                let mut b = d.body();
                if !b.is_empty() {
                    match r.below(4) {
                        0 => { b.pop(); }
                        1 => if b.len() < 255 { b.push(r.u8()); },
                        2 => { let i = r.idx(b.len()); b[i] ^= 1 << r.below(8); }
                        _ => { let i = r.idx(b.len()); b[i] = r.e8(); }
                    }
                }
                w.extend_from_slice(&frame(d.tag(), &b));
            },
        }
    }
    match r.below(5) {
        0 => { let n = r.urange(0, w.len()); w.truncate(n); }
        1 => { let n = r.urange(0, 3); w.extend(r.bytes(n)); }
        2 => if !w.is_empty() { let i = r.idx(w.len()); w[i] = r.u8(); },
        _ => {}
    }
    judge_list(cx, &w)?;
    cx.sample(|| hex(&w));
    Ok(())
}

/// lists built from values: order, framing, oversize entries left out whole
fn c13_built(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    // (now and then far more than a section holds)
    let n = if !cfg!(miri) && r.one_in(100) { r.urange(100, 400) } else { r.urange(0, 7) };
    let mut l = Descriptors::default();
    let mut want: Vec<u8> = Vec::new();
    let mut left_out = 0;
    let mut tags = Vec::new();
    for _ in 0..n {
        if r.one_in(4) {
            // around and beyond the longest length a descriptor can announce
            let d = oversize(r);
            tags.push(d.tag());
            d.push(&mut l, r);
            let b = d.body();
            if b.len() <= 255 && fits(&d) { want.extend_from_slice(&frame(d.tag(), &b)); } else { left_out += 1; }
        } else if let Some(d) = gen_desc(r, 257) {
            tags.push(d.tag());
            d.push(&mut l, r);
            want.extend_from_slice(&d.enc());
        }
    }
    let got: Vec<u8> = l.iter().map(|d| d.tag()).collect();
    if got != tags { return Err(format!("list holds tags {:02x?}, want {:02x?}", got, tags)); }
    let mut out = Vec::new();
    let k = l.assemble(&mut out);
    if out != want { return Err(format!("list of tags {:02x?} ({} too long): emitted {}", tags, left_out, diff(&out, &want))); }
    if l.size() != want.len() || k != want.len() { return Err(format!("list of tags {:02x?}: announces {}, reports {}, writes {}", tags, l.size(), k, want.len())); }
    // emitting appends
    let mut twice = out.clone();
    l.assemble(&mut twice);
    if twice.len() != 2 * out.len() || twice[..out.len()] != out[..] || twice[out.len()..] != out[..] { return Err("emitting twice gave different bytes".into()); }
    cx.add("too_long_left_out", left_out);
    cx.count("lists_built");
    cx.seen_bytes(&want);
    cx.sample(|| format!("tags {:02x?}, {} too long", tags, left_out));
    Ok(())
}

/// inner one-byte lengths hold as well
fn fits(d: &D) -> bool {
    match d {
        D::X48 { prov, name, .. } => prov.enc().len() < 256 && name.enc().len() < 256,
        _ => true,
    }
}

fn oversize(r: &mut Rng) -> D {
    let over = r.pick(&[0usize, 0, 1, 1, 2, 3, 10, 60, 255, 300]);
    let txt = |n: usize| Text { cp: 0, data: vec![b'o'; n] };
    match r.below(8) {
        0 => D::Raw(0xC1, vec![0xAB; 255 + over]),
        1 => D::X09 { caid: 1, pid: 2, data: vec![3; 251 + over] },
        2 => D::X40(txt(255 + over)),
        3 => D::X41(vec![(1, 2); 85 + over]),
        4 => D::X0A(vec![(*b"eng", 1); 63 + over]),
        5 => D::X83(vec![(1, 1, 5); 63 + over]),
        6 => { let a = r.urange(0, 120); D::X48 { st: 1, prov: txt(a), name: txt(252 + over - a).clone() } }
        _ => { let a = r.urange(0, 120); D::X4D { lang: *b"eng", name: txt(a), text: txt(250 + over - a) } }
    }
}

/// a clone is independent of the original, both ways
fn c13_clone(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let v = gen_list(r, 500);
    let mut a = build(&v, r);
    let mut b = a.clone();
    let e = enc_list(&v);
    let emit = |l: &Descriptors| { let mut o = Vec::new(); l.assemble(&mut o); o };
    if emit(&b) != e { return Err(format!("clone emits {}", diff(&emit(&b), &e))); }
    for (x, y) in a.iter().zip(b.iter()) { if format!("{:?}", x) != format!("{:?}", y) { return Err(format!("clone shows {:?}, original {:?}", y, x)); } }
    let change = |l: &mut Descriptors, r: &mut Rng| -> Option<usize> {
        let i = if v.is_empty() { return None } else { r.idx(v.len()) };
        let d = l.get_mut(i)?;
        match v[i] {
            D::Raw(..) => d.downcast_mut::<DescRaw>().data.push(0x5A),
            D::X09 { .. } => d.downcast_mut::<Desc09>().caid ^= 0xFFFF,
            D::X0A(_) => d.downcast_mut::<Desc0A>().items.clear(),
            D::X0E(_) => d.downcast_mut::<Desc0E>().bitrate ^= 1,
            D::X41(_) => d.downcast_mut::<Desc41>().items.clear(),
            D::X43 { .. } => d.downcast_mut::<Desc43>().fec ^= 1,
            D::X52(_) => d.downcast_mut::<Desc52>().tag ^= 1,
            D::X83(_) => d.downcast_mut::<Desc83>().items.clear(),
            _ => return None,
        }
        Some(i)
    };
    if r.coin() { change(&mut b, r); b.push(Desc52 { tag: 9 }); if emit(&a) != e || a.len() != v.len() { return Err("changing a clone changed the original".into()); } }
    else { change(&mut a, r); a.push(Desc52 { tag: 9 }); if emit(&b) != e || b.len() != v.len() { return Err("changing the original changed the clone".into()); } }
    drop(a);
    b.iter().for_each(|d| { let _ = d.tag(); });
    cx.count("clones_compared");
    cx.seen_bytes(&e);
    cx.sample(|| format!("{} descriptors", v.len()));
    Ok(())
}

/// access by index
fn c13_access(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let v = gen_list(r, 300);
    let mut l = build(&v, r);
    for i in 0..v.len() + 3 {
        let g = l.get(i).map(|d| d.tag());
        if g != v.get(i).map(|d| d.tag()) { return Err(format!("entry {} is {:02x?}", i, g)); }
        if l.get_mut(i).is_some() != (i < v.len()) { return Err(format!("entry {} of {}", i, v.len())); }
    }
    if let Some(d) = v.first() { d.same(l.get(0).ok_or("no entry")?)?; }
    cx.count("lists_accessed");
    cx.seen_bytes(&enc_list(&v));
    Ok(())
}

/// loops far longer than a section holds
fn c13_long(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.long();
    let mut w = Vec::with_capacity(n + 300);
    let small = r.one_in(4);
    while w.len() < n {
        match r.below(4) {
            0 => if let Some(d) = gen_desc(r, if small { 20 } else { 257 }) { w.extend_from_slice(&d.enc_any(r)); },
            1 => { let t = r.pick(&TYPED); let k = r.count(40); w.extend_from_slice(&frame(t, &r.bytes(k))); }
            _ => { let t = r.u8(); let k = if small { r.urange(0, 3) } else { r.count(255) }; w.extend_from_slice(&frame(t, &r.bytes(k))); }
        }
    }
    if r.one_in(3) { w.truncate(n); }
    judge_list(cx, &w)?;
    cx.count("long_loops");
    cx.sample(|| format!("{} bytes", w.len()));
    Ok(())
}

pub fn c13() -> Vec<Workload> {
    vec![
        random("long", 50, 1_000, 1, c13_long),
        sweep("frames", 65536, 8, c13_frames),
        random("random", 150_000, 6_000_000, 30, c13_random),
        random("built", 80_000, 3_000_000, 20, c13_built),
        random("clone", 60_000, 2_000_000, 8, c13_clone),
        random("access", 20_000, 500_000, 10, c13_access),
    ]
}
