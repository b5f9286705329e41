//! C01 receive-path totality.

use crate::cx::*;
use crate::desc::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::tables::*;
use crate::text::{Text, PAGES};
use mpegts::psi::*;
use mpegts::textcode::StringDVB;
use mpegts::ts;

const KINDS: [Kind; 7] = [Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot];

/// memory a call may hold in addition to what it was given
fn mem_ok(what: &str, peak: usize, input: usize) -> Res {
    let limit = 96 * 1024 + 512 * input;
    if peak > limit { return Err(format!("{}: {} bytes of memory held while handling {} input bytes", what, peak, input)); }
    Ok(())
}

/// memory a parser may hold: no display or copies involved
fn parse_mem_ok(what: &str, peak: usize, input: usize) -> Res {
    let limit = 32 * 1024 + 256 * input;
    if peak > limit { return Err(format!("{}: {} bytes of memory held after parsing {} bytes", what, peak, input)); }
    Ok(())
}

/// everything a receiver may do with a descriptor list
fn use_descriptors(l: &Descriptors) -> usize {
    let c = l.clone();
    let mut out = Vec::new();
    c.assemble(&mut out);
    let mut n = l.size() + format!("{:?}", l).len() + out.len();
    for d in l.iter() { n += usize::from(d.tag()) + format!("{:?}", d.clone()).len(); }
    n
}

fn use_psi(cx: &mut Cx, p: &Psi, other: &Psi) -> Res {
    let q = p.clone();
    let _ = p == &q;
    let _ = p == other;
    let _ = other == p;
    let _ = p.check();
    if cx.r.one_in(16) { let _ = format!("{:?}", p); }
    Ok(())
}

/// parses a section as every table kind and uses the result
fn use_tables(cx: &mut Cx, p: &Psi) -> Res {
    for k in KINDS {
        let (_, peak) = peak_of(|| Lib::from_psi(k, p));
        parse_mem_ok("table parser", peak, p.buffer.len())?;
        let ((lib, parsed), peak) = peak_of(|| {
            let mut lib = Lib::from_psi(k, p);
            let one = lib.debug();
            lib.parse(p);
            (lib, one.len())
        });
        mem_ok("table parser", peak, p.buffer.len() * 8)?;
        let _ = parsed;
        match &lib {
            Lib::Pmt(x) => {
                use_descriptors(&x.descriptors);
                for i in &x.items { let _ = i.get_stream_type(); use_descriptors(&i.descriptors); }
            }
            Lib::Nit(x) => { use_descriptors(&x.descriptors); for i in &x.items { use_descriptors(&i.descriptors); } }
            Lib::Sdt(x) => for i in &x.items { use_descriptors(&i.descriptors); },
            Lib::Eit(x) => for i in &x.items { use_descriptors(&i.descriptors); let _ = i.clone(); },
            Lib::Tot(x) => { use_descriptors(&x.descriptors); }
            _ => {}
        }
        let nonempty = match &lib {
            Lib::Pat(x) => !x.items.is_empty(), Lib::Pmt(x) => x.pnr != 0 || !x.items.is_empty(), Lib::Nit(x) => x.table_id != 0, Lib::Sdt(x) => x.table_id != 0,
            Lib::Eit(x) => x.table_id != 0, Lib::Tdt(x) => x.time != 0, Lib::Tot(x) => x.time != 0 || !x.descriptors.is_empty(),
        };
        if nonempty { cx.count("sections_accepted_by_a_table"); }
        if k != Kind::Eit {
            let mut cc = 3;
            let mut dst = Vec::new();
            lib.emit(0x1FF, &mut cc, &mut dst);
        }
    }
    cx.count("sections_presented");
    Ok(())
}

fn hostile_packet(r: &mut Rng, cc: &mut u8) -> Pkt {
    let mut p = [0u8; 188];
    let fill = r.below(4);
    for b in p.iter_mut() { *b = match fill { 0 => 0xFF, 1 => 0, _ => r.u8() }; }
    p[0] = 0x47;
    p[1] = p[1] & 0x3F | if r.coin() { 0x40 } else { 0 };
    if !r.one_in(8) { *cc = (*cc + 1) & 15; } else { *cc = r.below(16) as u8; }
    p[3] = *cc | if r.one_in(10) { 0 } else { 0x10 } | if r.one_in(3) { 0x20 } else { 0 } | if r.one_in(16) { 0xC0 } else { 0 };
    let mut at = 4;
    if p[3] & 0x20 != 0 { p[4] = r.bits(8) as u8; if r.coin() { p[4] = r.range(170, 190) as u8; } at = 5 + usize::from(p[4]); }
    if at < 188 && p[1] & 0x40 != 0 {
        p[at] = match r.below(4) { 0 => 0, 1 => r.range(176, 190) as u8, 2 => (187 - at).min(255) as u8, _ => r.u8() };
        let s = at + 1 + usize::from(p[at]);
        // plausible section header at the pointer
        if s + 3 <= 188 && r.coin() {
            p[s] = r.pick(&[0u8, 2, 0x40, 0x42, 0x4E, 0x50, 0x70, 0x73, 0xFF]);
            let l = match r.below(5) { 0 => 0, 1 => r.below(16), 2 => 4095, 3 => r.below(400), _ => r.below(4096) };
            p[s + 1] = 0xB0 | (l >> 8) as u8;
            p[s + 2] = l as u8;
        }
    }
    p
}

fn mux_hostile(cx: &mut Cx) -> Res {
    let mut psi = Psi::default();
    let other = Psi::new(r_tid(&mut cx.r), 8, 3);
    let n = cx.r.urange(1, 60);
    let mut cc = cx.r.below(16) as u8;
    let mut h = 0u64;
    for _ in 0..n {
        let p = if cx.r.one_in(5) { let b = cx.r.bytes(188); let mut p = [0; 188]; p.copy_from_slice(&b); p } else { hostile_packet(&mut cx.r, &mut cc) };
        let before = psi.buffer.len();
        psi.mux(&p[..]);
        if psi.buffer.len() > 4098 + 2 * 184 || psi.buffer.capacity() > 64 * 1024 {
            return Err(format!("reassembly buffer grew to {} bytes (capacity {})", psi.buffer.len(), psi.buffer.capacity()));
        }
        h = crate::rng::mix(h ^ (psi.size as u64) << 20 ^ psi.buffer.len() as u64);
        if psi.buffer.len() != before { cx.count("reassembly_state_changes"); }
        use_psi(cx, &psi, &other)?;
        if cx.r.one_in(8) { use_tables(cx, &psi)?; }
        cx.count("packets_fed");
    }
    cx.seen(h);
    cx.sample(|| format!("{} hostile packets, final buffer {} of announced {}", n, psi.buffer.len(), psi.size));
    Ok(())
}

fn r_tid(r: &mut Rng) -> u8 { r.pick(&[0u8, 2, 0x40, 0x42, 0x4E, 0x70, 0x73]) }

/// every adaptation length x every pointer x unit start, as first packet and
/// after a started section
fn mux_offsets(cx: &mut Cx) -> Res {
    let af = cx.index as usize; // 0..=256 (256 = none)
    let r = &mut Rng::new(cx.index);
    for ptr in 0..256usize {
        for pusi in [false, true] {
            for state in 0..4u8 {
                let mut psi = Psi::default();
                match state {
                    1 | 2 | 3 => {
                        let mut sec = rand_section(r, if state == 1 { 300 } else { 60 });
                        if state == 3 { sec.truncate(2); }
                        let mut p = [0xFFu8; 188];
                        p[0] = 0x47; p[1] = 0x40; p[2] = 0x11; p[3] = 0x10; p[4] = 0;
                        let k = sec.len().min(183);
                        if state == 3 { p[4] = 181; p[186] = sec[0]; p[187] = sec[1]; } else { p[5..5 + k].copy_from_slice(&sec[..k]); }
                        psi.mux(&p[..]);
                    }
                    _ => {}
                }
                let mut p = [0x55u8; 188];
                p[0] = 0x47;
                p[1] = if pusi { 0x40 } else { 0 };
                p[2] = 0x11;
                p[3] = 0x11 | if af < 256 { 0x20 } else { 0 };
                let at = if af < 256 { p[4] = af as u8; 5 + af } else { 4 };
                if at < 188 { p[at] = ptr as u8; }
                psi.mux(&p[..]);
                let q = psi.clone();
                let _ = psi == q;
                let _ = psi.check();
                let off = ts::get_payload_offset(&p[..]);
                let _ = off;
                // second continuation
                p[3] = p[3] & 0xF0 | 2;
                p[1] = 0;
                psi.mux(&p[..]);
                let _ = psi.check();
                cx.count("packets_fed");
            }
        }
    }
    cx.seen(cx.index);
    cx.sample(|| format!("adaptation length {} with all 256 pointers, both unit-start values, 4 prior states", af));
    Ok(())
}

fn mux_mutated(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 5);
    let secs: Vec<Vec<u8>> = (0..n).map(|_| {
        let k = r.pick(&KINDS);
        let t = gen_table(r, k, false);
        t.encode(r, k.limit())
    }).flatten().collect();
    let secs: Vec<Vec<u8>> = secs.into_iter().take(8).collect();
    let (mut pk, _, _) = { let cc = r.below(16) as u8; cut(r, &secs, 0x100, cc, MIXED) };
    for _ in 0..r.urange(1, 12) {
        let i = r.idx(pk.len());
        match r.below(5) {
            0 => { pk.remove(i); if pk.is_empty() { break; } }
            1 => { let p = pk[i]; pk.insert(i, p); }
            2 => { let j = r.idx(pk.len()); pk.swap(i, j); }
            3 => { let k = r.idx(8); pk[i][k] = r.u8(); }
            _ => { let k = r.idx(188); pk[i][k] ^= 1 << r.below(8); }
        }
    }
    let mut psi = Psi::default();
    let other = psi_of(&secs[0]);
    let mut done = 0;
    for p in &pk {
        psi.mux(&p[..]);
        use_psi(cx, &psi, &other)?;
        cx.count("packets_fed");
        if psi.check() { done += 1; use_tables(cx, &psi)?; }
    }
    cx.add("sections_completed", done);
    cx.seen_bytes(&pk.concat());
    cx.sample(|| format!("{} sections in {} packets, mutated, {} checksums valid", secs.len(), pk.len(), done));
    Ok(())
}

fn reseal(mut s: Vec<u8>) -> Vec<u8> {
    if s.len() >= 8 { let n = s.len() - 4; let c = fcrc(&s[..n]).to_be_bytes(); s[n..].copy_from_slice(&c); }
    s
}

fn section_hostile(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = r.pick(&KINDS);
    let t = gen_table(r, k, false);
    let lim = if r.coin() { 4096 } else { k.limit() };
    let secs = t.encode(r, lim);
    let mut s = secs[r.idx(secs.len())].clone();
    for _ in 0..r.urange(1, 8) {
        let i = if r.coin() { r.idx(s.len().min(40)) } else { r.idx(s.len()) };
        match r.below(6) {
            0 => s[i] = 0xFF, 1 => s[i] = 0, 2 => s[i] = r.u8(), 3 => s[i] = s[i].wrapping_add(1), 4 => s[i] = s[i].wrapping_sub(1),
            _ => { let n = r.urange(0, s.len()); if n >= 8 { s.truncate(n); } }
        }
    }
    if r.one_in(3) { s[0] = r_tid(r); }
    let s = reseal(s);
    let mut p = psi_of(&s);
    match r.below(8) {
        0 => { p.buffer.truncate(p.buffer.len() - 1); }
        1 => { let n = r.urange(3, p.buffer.len()); p.buffer.truncate(n); }
        2 => { p.buffer.extend_from_slice(&[0xFF; 50]); }
        3 => { p.size = r.urange(0, 4098); }
        _ => {}
    }
    let other = psi_of(&s);
    use_psi(cx, &p, &other)?;
    use_tables(cx, &p)?;
    cx.seen_bytes(&p.buffer);
    cx.sample(|| format!("{:?} section with {} bytes after mutation, checksum {}", k, s.len(), p.check()));
    Ok(())
}

fn section_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(4) { 0 => r.urange(8, 24), 1 => r.urange(8, 200), 2 => r.urange(8, 4098), _ => r.urange(12, 40) };
    let mut s = r.bytes(n);
    match r.below(4) { 0 => for b in s.iter_mut() { *b |= 0xF0 }, 1 => for b in s.iter_mut() { *b &= 0x1F }, _ => {} }
    s[0] = if r.one_in(8) { r.u8() } else { r.pick(&[0u8, 2, 0x40, 0x41, 0x42, 0x46, 0x4E, 0x4F, 0x50, 0x6F, 0x70, 0x73]) };
    // make leading loop lengths plausible half of the time
    if r.coin() && n > 14 { s[8] &= 0xF0; s[10] &= 0xF0; }
    let s = reseal(s);
    let mut p = psi_of(&s);
    if r.one_in(8) { let n = r.urange(3, p.buffer.len()); p.buffer.truncate(n); }
    use_tables(cx, &p)?;
    cx.seen_bytes(&s);
    cx.sample(|| format!("random section {}", hex(&s)));
    Ok(())
}

/// every single-byte change of one template section per table, checksum redone
fn section_bytes(cx: &mut Cx) -> Res {
    let templates = 14;
    let ti = cx.index % templates;
    let pos0 = (cx.index / templates) as usize;
    let r = &mut Rng::new(777 + ti);
    let k = KINDS[(ti % 7) as usize];
    let mut t = gen_head(r, k);
    if k.has_desc() { t.desc = vec![D::Raw(0xA0, vec![1, 2]), D::X52(9)]; }
    if !matches!(k, Kind::Tdt | Kind::Tot) {
        for _ in 0..2 { let mut i = gen_item(r, k, 0); if k.item_has_desc() { i.desc = if ti < 7 { vec![D::X52(1)] } else { gen_list(r, 24) }; } t.items.push(i); }
    }
    let s = t.encode(r, 4096)[0].clone();
    if pos0 >= s.len() { return Ok(()); }
    for v in 0..=255u8 {
        let mut m = s.clone();
        m[pos0] = v;
        let m = if pos0 + 4 >= s.len() { m } else { reseal(m) };
        let mut p = psi_of(&m);
        use_tables(cx, &p)?;
        if pos0 == 1 || pos0 == 2 { p.size = 3 + (usize::from(m[1] & 15) << 8 | usize::from(m[2])); use_tables(cx, &p)?; }
        cx.seen_bytes(&m);
    }
    cx.sample(|| format!("{:?} template of {} bytes, byte {} through all values", k, s.len(), pos0));
    Ok(())
}

/// every tag with every length, several body patterns, alone and with
/// neighbours
fn loop_sweep(cx: &mut Cx) -> Res {
    let tag = (cx.index / 256) as u8;
    let len = (cx.index % 256) as usize;
    let r = &mut Rng::new(cx.index ^ 0xABCD);
    for pat in 0..6 {
        let body: Vec<u8> = match pat { 0 => vec![0; len], 1 => vec![0xFF; len], 2 => (0..len).map(|i| i as u8).collect(), 3 => (0..len).map(|i| (len - i) as u8).collect(), _ => r.bytes(len) };
        for cut in [0usize, 1, 2] {
            let mut b = frame(tag, &body);
            if cut == 2 { b.extend_from_slice(&[0x52, 1, 7]); }
            if cut == 1 { b.pop(); }
            let (n, peak) = peak_of(|| { let mut l = Descriptors::default(); l.parse(&b); use_descriptors(&l) });
            mem_ok("descriptor loop", peak, b.len() * 8)?;
            if n > 0 { cx.count("descriptor_lists_used"); }
        }
    }
    cx.seen(cx.index);
    cx.sample(|| format!("tag {:02x} length {}", tag, len));
    Ok(())
}

pub fn hostile_loop(r: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..r.urange(1, 8) {
        match r.below(4) {
            0 => { let n = r.count(255); let t = r.u8(); let body = r.bytes(n); b.extend_from_slice(&frame(t, &body)); }
            1 => { let t = r.pick(&TYPED); let n = r.count(60); let body: Vec<u8> = (0..n).map(|_| match r.below(3) { 0 => r.below(8) as u8, 1 => r.below(64) as u8, _ => r.u8() }).collect(); b.extend_from_slice(&frame(t, &body)); }
            _ => if let Some(d) = gen_desc(r, 257) {
                let mut e = d.enc_any(r);
                for _ in 0..r.urange(0, 3) { let i = r.urange(1, e.len() - 1); e[i] = match r.below(4) { 0 => 0xFF, 1 => 0, 2 => e[i].wrapping_add(1), _ => r.u8() }; }
                b.extend_from_slice(&e);
            },
        }
    }
    if r.one_in(3) { let n = r.urange(0, b.len()); b.truncate(n); }
    b
}

/// loops packed with the smallest descriptors of one tag: what is held must
/// follow the bytes received, not the number of entries times some buffer
fn loop_packed(cx: &mut Cx) -> Res {
    let tag = cx.index as u8;
    for len in [0usize, 1, 2, 3, 4, 5, 6, 8, 11, 13, 19] {
        for style in 0..3 {
            let r = &mut cx.r;
            let mut b = Vec::new();
            while b.len() < 4000 {
                let body = match style { 0 => vec![0; len], 1 => vec![0x20; len], _ => r.bytes(len) };
                b.extend_from_slice(&frame(tag, &body));
            }
            let (n, peak) = peak_of(|| { let mut l = Descriptors::default(); l.parse(&b); l.len() });
            parse_mem_ok("descriptor loop", peak, b.len())?;
            cx.add("descriptors_parsed", n as u64);
            cx.seen_bytes(&b);
        }
    }
    cx.sample(|| format!("loops of 4000 bytes packed with descriptors {:02x}", tag));
    Ok(())
}

/// sections packed with the smallest entries
fn section_packed(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = r.pick(&[Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tot]);
    let mut t = gen_head(r, k);
    let tag = r.u8();
    let n = r.urange(0, 3);
    let small = |r: &mut Rng| D::Raw(tag, r.bytes(n));
    if k == Kind::Tot { for _ in 0..190 { let d = small(r); t.desc.push(d); } }
    let room = r.pick(&[1000usize, 4000]);
    let mut used = 0;
    while k != Kind::Tot && used < room {
        let mut i = gen_item(r, k, 0);
        i.desc.clear();
        if k.item_has_desc() && r.coin() { i.desc.push(small(r)); }
        used += 14 + n;
        t.items.push(i);
    }
    for s in t.encode(r, 4096) {
        use_tables(cx, &psi_of(&s))?;
        cx.seen_bytes(&s);
    }
    cx.sample(|| format!("{:?} with {} smallest entries", k, t.items.len()));
    Ok(())
}

fn loop_hostile(cx: &mut Cx) -> Res {
    let b = hostile_loop(&mut cx.r);
    let (_, peak) = peak_of(|| { let mut l = Descriptors::default(); l.parse(&b); l });
    parse_mem_ok("descriptor loop", peak, b.len())?;
    let (n, peak) = peak_of(|| { let mut l = Descriptors::default(); l.parse(&b); let n = l.len(); use_descriptors(&l); n });
    mem_ok("descriptor loop", peak, b.len() * 8)?;
    cx.add("descriptors_parsed", n as u64);
    cx.seen_bytes(&b);
    cx.sample(|| format!("{} descriptors from {}", n, hex(&b)));
    Ok(())
}

/// loops and text fields far longer than a section holds
fn very_long(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = if cfg!(miri) { 300 } else if r.coin() { 1 << r.urange(16, 20) } else { r.urange(1 << 16, 1 << 20) };
    let (tag, len) = (if r.coin() { r.u8() } else { r.pick(&TYPED) }, r.pick(&[0usize, 0, 1, 2, 4, 11, 255]));
    let one = frame(tag, &r.bytes(len));
    let mut b = Vec::with_capacity(n + 300);
    while b.len() < n {
        if r.one_in(50) { let k = r.count(255); let t = r.u8(); b.extend_from_slice(&frame(t, &r.bytes(k))); }
        b.extend_from_slice(&one);
    }
    let (k, peak) = peak_of(|| { let mut l = Descriptors::default(); l.parse(&b); let k = l.len(); let c = l.clone(); let mut o = Vec::new(); c.assemble(&mut o); k + o.len().min(1) });
    mem_ok("long descriptor loop", peak, b.len())?;
    let m = if cfg!(miri) { 200 } else { 1 << r.urange(12, 18) };
    let mut t = r.bytes(m);
    t[0] = r.pick(&[1, 0x10, 0x15, 0x20, 0xC1, 0x41]);
    let ((), peak) = peak_of(|| { let s = StringDVB::from(&t[..]); let shown = s.to_string(); let _ = StringDVB::from_str(&shown, s.get_codepage()); });
    mem_ok("long text field", peak, t.len() * 16)?;
    cx.add("descriptors_parsed", k as u64);
    cx.count("texts_used");
    cx.seen_bytes(&b);
    cx.sample(|| format!("loop of {} bytes, text of {}", b.len(), t.len()));
    Ok(())
}

fn text_hostile(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(3) { 0 => r.urange(0, 5), 1 => r.urange(0, 40), _ => r.urange(0, 255) };
    let mut b = r.bytes(n);
    if n > 0 && r.coin() { b[0] = r.below(0x22) as u8; }
    if n > 2 && r.coin() { b[1] = r.below(2) as u8; b[2] = r.below(32) as u8; }
    if n > 0 && r.one_in(4) { b[0] = 0x15; for x in b[1..].iter_mut() { *x |= 0x80; } }
    use_text(cx, &b)?;
    cx.seen_bytes(&b);
    cx.sample(|| format!("text field {}", hex(&b)));
    Ok(())
}

fn use_text(cx: &mut Cx, b: &[u8]) -> Res {
    let ((), peak) = peak_of(|| {
        let s = StringDVB::from(b);
        let t = s.clone();
        let _ = s == t;
        let shown = s.to_string();
        let _ = format!("{:?}", s);
        let mut o = Vec::new();
        s.assemble(&mut o);
        s.assemble_sized(&mut o);
        let _ = StringDVB::from_str(&shown, s.get_codepage());
        for &p in &PAGES { let _ = StringDVB::from_str(&shown, p).size(); }
    });
    mem_ok("text field", peak, b.len() * 16)?;
    cx.count("texts_used");
    Ok(())
}

/// all first bytes, all three-byte selectors
fn text_selectors(cx: &mut Cx) -> Res {
    let a = cx.index as u8;
    for b in 0..=255u8 {
        use_text(cx, &[a, b])?;
        use_text(cx, &[a, 0, b, b'A', 0xC1, 0xFF])?;
        use_text(cx, &[0x10, a, b])?;
        use_text(cx, &[0x10, a, b, 0xC3, 0x28, 0x80])?;
    }
    use_text(cx, &[a])?;
    use_text(cx, &[])?;
    let _ = Text::empty();
    cx.seen(cx.index);
    cx.sample(|| format!("selector byte {:02x} with every second and third byte", a));
    Ok(())
}

fn packet_debug(cx: &mut Cx) -> Res {
    let mut cc = 0;
    let p = if cx.r.coin() { let b = cx.r.bytes(188); let mut p = [0; 188]; p.copy_from_slice(&b); p } else { hostile_packet(&mut cx.r, &mut cc) };
    let a = format!("{:?}", ts::TsPacket::new(&p[..]));
    let b = format!("{:?}", ts::TsAdaptation::new(&p[..]));
    let _ = format!("{:#?}", ts::TsPacket::new(&p[..]));
    cx.add("characters_printed", (a.len() + b.len()) as u64);
    cx.seen_bytes(&p);
    cx.sample(|| a);
    Ok(())
}

pub fn c01() -> Vec<Workload> {
    vec![
        sweep("mux_offsets", 257, 2, mux_offsets),
        sweep("section_bytes", 14 * 90, 14, section_bytes),
        sweep("loop_sweep", 65536, 20, loop_sweep),
        sweep("loop_packed", 256, 0, loop_packed),
        random("section_packed", 4_000, 100_000, 1, section_packed),
        random("very_long", 40, 800, 1, very_long),
        sweep("text_selectors", 256, 1, text_selectors),
        random("mux_hostile", 30_000, 1_200_000, 12, mux_hostile),
        random("mux_mutated", 6_000, 250_000, 8, mux_mutated),
        random("section_hostile", 60_000, 2_500_000, 20, section_hostile),
        random("section_random", 40_000, 1_500_000, 20, section_random),
        random("loop_hostile", 150_000, 6_000_000, 30, loop_hostile),
        random("text_hostile", 60_000, 2_000_000, 15, text_hostile),
        random("packet_debug", 60_000, 1_500_000, 20, packet_debug),
    ]
}
