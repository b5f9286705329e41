//! C06 checksum gate, C07-C09 table round trips, C10 dates and times,
//! C11 section framing.

use crate::cx::*;
use crate::desc::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::tables::*;
use mpegts::psi::*;

const KINDS: [Kind; 7] = [Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot];

// ---- C06 -------------------------------------------------------------------

fn c06_crc(cx: &mut Cx) -> Res {
    let n = cx.index as usize;
    for style in 0..4 {
        let b = match style { 0 => vec![0; n], 1 => vec![0xFF; n], _ => cx.r.bytes(n) };
        let (g, w) = (crc32b(&b), crc(&b));
        if g != w { return Err(format!("checksum of {} bytes {} is {:08x}, want {:08x}", n, hex(&b), g, w)); }
        if fcrc(&b) != w { panic!("reference checksums disagree"); }
        cx.seen(u64::from(w) ^ (n as u64) << 32);
        cx.count("checksums_compared");
    }
    cx.sample(|| format!("{} bytes, four fillings", n));
    Ok(())
}

/// strings longer than any section
fn c06_crc_long(cx: &mut Cx) -> Res {
    const N: [usize; 16] = [8191, 8192, 16_384, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 131_071, 131_072, 200_001, 262_147, 1_048_579];
    let n = N[cx.index as usize / 2];
    let b = if cx.index % 2 == 0 { cx.r.bytes(n) } else { vec![0xFF; n] };
    let (g, w) = (crc32b(&b), fcrc(&b));
    if g != w { return Err(format!("checksum of {} bytes is {:08x}, want {:08x}", n, g, w)); }
    cx.seen(u64::from(w) ^ (n as u64) << 32);
    cx.count("checksums_compared");
    cx.sample(|| format!("{} bytes", n));
    Ok(())
}

/// two-byte strings exhaustively: drives every table entry from every state
fn c06_crc_pairs(cx: &mut Cx) -> Res {
    let a = cx.index as u8;
    for b in 0..=255u8 {
        for pre in [&[][..], &[0x12, 0x9A, 0x01]] {
            let mut v = pre.to_vec();
            v.push(a);
            v.push(b);
            if crc32b(&v) != crc(&v) { return Err(format!("checksum of {} is {:08x}, want {:08x}", hex(&v), crc32b(&v), crc(&v))); }
            cx.count("checksums_compared");
        }
    }
    cx.seen(cx.index);
    Ok(())
}

fn c06_finalize(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(3) { 0 => r.urange(4, 20), 1 => r.urange(4, 1020), _ => r.urange(4, 4092) };
    let mut p = Psi::new(r.u8(), n, r.bits(5) as u8);
    let mut want = r.bytes(n);
    want[1] = r.u8();
    p.buffer = want.clone();
    p.finalize();
    let want = seal(want);
    if p.size != want.len() || p.buffer != want { return Err(format!("finalized {} bytes: size {}, {}", n, p.size, diff(&p.buffer, &want))); }
    if !p.check() { return Err("a finalized section is not reported valid".into()); }
    // changing a byte and finalizing again renews the checksum only
    let i = r.urange(3, want.len() - 1);
    if i < n {
        p.buffer[i] ^= 1 << r.below(8);
        if p.check() { return Err(format!("section with byte {} damaged is reported valid", i)); }
        let mut w = p.buffer.clone();
        let c = crc(&w[..n]).to_be_bytes();
        w[n..].copy_from_slice(&c);
        p.finalize();
        if p.buffer != w || p.size != w.len() { return Err(format!("finalized again: {}", diff(&p.buffer, &w))); }
    }
    cx.count("sections_finalized");
    cx.seen_bytes(&want);
    cx.sample(|| format!("header+body of {} bytes", n));
    Ok(())
}

/// valid exactly when at least eight bytes are announced, all are there and
/// the checksum matches
fn c06_validity(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(3) { 0 => r.urange(0, 14), 1 => r.urange(8, 300), _ => r.urange(8, 4098) };
    let mut b = r.bytes(n);
    if n >= 4 && !r.one_in(6) { let c = crc(&b[..n - 4]).to_be_bytes(); b[n - 4..].copy_from_slice(&c); }
    let mut p = psi_of(&b);
    let how = r.below(8);
    match how {
        0 => { if n > 3 { p.buffer.truncate(n - 1); } }
        1 => { if n > 4 { let k = r.urange(3, n - 1); p.buffer.truncate(k); } }
        2 => { let k = r.urange(1, 184); let x = r.bytes(k); p.buffer.extend_from_slice(&x); }
        3 => { if n > 0 { let i = r.idx(n); p.buffer[i] ^= 1 << r.below(8); } }
        4 => { if n > 0 { let i = r.idx(n); let k = r.urange(1, 4.min(n - i)); for x in &mut p.buffer[i..i + k] { *x = x.wrapping_add(r.range(1, 255) as u8); } } }
        5 => { if n > 0 { p.size = r.urange(0, n); } }
        _ => {}
    }
    let want = p.size >= 8 && p.buffer.len() >= p.size && crc(&p.buffer[..p.size - 4]).to_be_bytes() == p.buffer[p.size - 4..p.size];
    if p.check() != want { return Err(format!("announced {} bytes, {} present, change {}: valid={} want {}", p.size, p.buffer.len(), how, p.check(), want)); }
    cx.count(if want { "valid_sections" } else { "invalid_sections" });
    cx.seen_bytes(&p.buffer);
    cx.sample(|| format!("announced {} present {} -> {}", p.size, p.buffer.len(), want));
    Ok(())
}

fn snapshot(lib: &Lib, k: Kind) -> (String, Vec<u8>) {
    let mut cc = 0;
    let mut dst = Vec::new();
    if k != Kind::Eit { lib.emit(17, &mut cc, &mut dst); }
    (lib.debug(), dst)
}

/// sections that must be refused leave the table as it was
fn c06_gate(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = r.pick(&KINDS);
    let prior = gen_table(r, k, false);
    let mut lib = if r.one_in(4) { Lib::empty(k) } else { Lib::build(&prior, r) };
    let before = snapshot(&lib, k);
    let t = gen_table(r, k, false);
    let secs = t.encode(r, k.limit());
    let s = secs[r.idx(secs.len())].clone();
    let mut p = psi_of(&s);
    let mut how = r.below(8);
    if how == 7 && !k.has_desc() { how = r.below(7); }
    match how {
        7 => {
            // the table's own descriptor loop runs past the section, checksum right
            let at = if k == Kind::Pmt { 10 } else { 8 };
            let head = match k { Kind::Pmt => 12, Kind::Nit => 12, _ => 10 };
            let room = s.len() - 4 - head;
            let n = (room + 1 + match r.below(4) { 0 => 0, 1 => r.urange(0, 5), 2 => r.urange(0, 300), _ => r.urange(0, 4095) }).min(4095);
            let mut b = s[..s.len() - 4].to_vec();
            b[at] = b[at] & 0xF0 | (n >> 8) as u8;
            b[at + 1] = n as u8;
            let c = crc(&b).to_be_bytes();
            b.extend_from_slice(&c);
            p = psi_of(&b);
        }
        0 => { p.buffer.truncate(s.len() - 1); }
        1 => { let n = r.urange(3, s.len() - 1); p.buffer.truncate(n); }
        2 => {
            if k == Kind::Tdt { p.size = r.pick(&[7, 9, 12, 100]); } else { let i = r.urange(1, s.len() - 1); p.buffer[i] ^= 1 << r.below(8); }
        }
        3 => {
            // too short for its type, checksum right
            if k == Kind::Tdt { p.size = r.urange(0, 7); p.buffer.truncate(p.size.max(3)); }
            else {
                let n = r.urange(8, k.base() - 1);
                let mut b = s[..n - 4].to_vec();
                b[0] = s[0];
                b[2] = (n - 3) as u8;
                b[1] &= 0xF0;
                let c = crc(&b).to_be_bytes();
                b.extend_from_slice(&c);
                p = psi_of(&b);
            }
        }
        4 => {
            // foreign id, checksum right
            let mut b = s.clone();
            let own: Vec<u8> = own_ids(k);
            loop { b[0] = r.u8(); if !own.contains(&b[0]) { break; } }
            if k != Kind::Tdt { let n = b.len() - 4; let c = crc(&b[..n]).to_be_bytes(); b[n..].copy_from_slice(&c); }
            p = psi_of(&b);
        }
        5 => {
            if k == Kind::Tdt { p.buffer.truncate(r.urange(3, 7)); }
            else { let i = r.urange(1, s.len() - 2); let n = r.urange(2, 4.min(s.len() - i)); for x in &mut p.buffer[i..i + n] { *x = x.wrapping_add(r.range(1, 255) as u8); } }
        }
        _ => {
            // announces more than has arrived
            p.size = s.len() + r.urange(1, 200);
            // (a time section with more than its eight bytes, all there)
            if k == Kind::Tdt { p.size = 8 + r.urange(1, 200); if r.coin() { p.buffer.resize(p.size + r.urange(0, 3), 0xFF); p.buffer[2] = (p.size - 3) as u8; } }
        }
    }
    lib.parse(&p);
    let after = snapshot(&lib, k);
    if before != after { return Err(format!("{:?} table changed by a section it must refuse (case {}): {} announced, {}", k, how, p.size, hex(&p.buffer))); }
    cx.count(["refused_cut", "refused_cut", "refused_damaged", "refused_short", "refused_foreign", "refused_damaged", "refused_incomplete", "refused_overrun"][how as usize]);
    cx.seen_bytes(&p.buffer);
    cx.sample(|| format!("{:?}, refusal case {}", k, how));
    Ok(())
}

fn own_ids(k: Kind) -> Vec<u8> {
    match k {
        Kind::Pat => vec![0], Kind::Pmt => vec![2], Kind::Nit => vec![0x40, 0x41], Kind::Sdt => vec![0x42, 0x46], Kind::Eit => (0x4E..=0x6F).collect(),
        Kind::Tdt => vec![0x70], Kind::Tot => vec![0x73],
    }
}

/// every table id presented to every table type, correct checksum
fn c06_ids(cx: &mut Cx) -> Res {
    let k = KINDS[(cx.index / 256) as usize];
    let id = (cx.index % 256) as u8;
    let r = &mut cx.r;
    let mut t = gen_head(r, k);
    if !matches!(k, Kind::Tdt | Kind::Tot) { let mut i = gen_item(r, k, 20); i.id |= 1; t.items.push(i); t.ext |= 1; }
    t.time |= 1;
    let mut b = t.encode(r, k.limit())[0].clone();
    b[0] = id;
    if k != Kind::Tdt { let n = b.len() - 4; let c = crc(&b[..n]).to_be_bytes(); b[n..].copy_from_slice(&c); }
    let mut lib = Lib::empty(k);
    let before = lib.debug();
    lib.parse(&psi_of(&b));
    let changed = lib.debug() != before;
    let own = own_ids(k).contains(&id);
    if changed != own { return Err(format!("section with table id {:02x} {} by a {:?} table", id, if changed { "accepted" } else { "refused" }, k)); }
    cx.count(if own { "ids_accepted" } else { "ids_refused" });
    cx.seen(cx.index);
    Ok(())
}

/// every single-bit damage and every truncation of one section per kind
fn c06_bits(cx: &mut Cx) -> Res {
    let k = KINDS[(cx.index % 7) as usize];
    if k == Kind::Tdt { return Ok(()); }
    let r = &mut cx.r;
    let mut t = gen_head(r, k);
    if k.has_desc() { t.desc = gen_list(r, 30); }
    if k != Kind::Tot { t.items.push(gen_item(r, k, 30)); }
    let s = t.encode(r, k.limit())[0].clone();
    let mut lib = Lib::empty(k);
    let before = lib.debug();
    for i in 0..s.len() {
        for bit in 0..8 {
            let mut p = psi_of(&s);
            p.buffer[i] ^= 1 << bit;
            if p.check() { return Err(format!("section with bit {} of byte {} flipped is reported valid", bit, i)); }
            lib.parse(&p);
            cx.count("refused_damaged");
        }
        if i >= 3 {
            let mut p = psi_of(&s);
            p.buffer.truncate(i);
            lib.parse(&p);
            cx.count("refused_cut");
        }
    }
    if lib.debug() != before { return Err(format!("{:?} table changed by a damaged or cut section", k)); }
    lib.parse(&psi_of(&s));
    if lib.debug() == before && (t.ext != 0 || t.time != 0) { return Err(format!("{:?} table not changed by an intact section", k)); }
    cx.seen_bytes(&s);
    cx.sample(|| format!("{:?} section of {} bytes: every bit flipped, every truncation", k, s.len()));
    Ok(())
}

fn c06_equality(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mk = |r: &mut Rng| -> Psi {
        match r.below(6) {
            0 => Psi::default(),
            1 => { let n = r.urange(3, 30); Psi::new(r.u8(), n, 1) }
            2 => { let n = r.urange(8, 500); let s = rand_section(r, n); let mut p = psi_of(&s); let k = r.urange(3, n); p.buffer.truncate(k); p }
            3 => { let n = r.urange(8, 40); let s = rand_section(r, n); let mut p = psi_of(&s); p.size = r.urange(0, 50); p }
            _ => { let n = r.urange(8, 300); let s = rand_section(r, n); psi_of(&s) }
        }
    };
    let a = mk(r);
    let mut b = if r.coin() { a.clone() } else { mk(r) };
    match r.below(6) {
        0 => { if b.buffer.len() > 8 { let n = b.buffer.len(); let i = r.urange(0, n - 5); b.buffer[i] ^= 0x10; } }
        1 => { let n = b.buffer.len(); if n > 8 { let i = r.urange(n - 4, n - 1); b.buffer[i] ^= 1 << r.below(8); } }
        2 => { b.pid = 77; b.cc = 9; }
        3 => { b.buffer.extend_from_slice(&[0xFF; 7]); }
        4 => {
            // different contents, same size and checksum: equal by definition
            if b.size >= 8 && b.buffer.len() >= b.size { let i = r.urange(0, b.size - 5); b.buffer[i] ^= 0xFF; }
        }
        _ => {}
    }
    let (x, y) = (a == b, b == a);
    if x != y { return Err("comparison is not symmetric".into()); }
    if !(a == a.clone()) { return Err("a section differs from its copy".into()); }
    let stored = |p: &Psi| if p.size >= 4 && p.buffer.len() >= p.size { Some(p.buffer[p.size - 4..p.size].to_vec()) } else { None };
    if let (Some(c), Some(d)) = (stored(&a), stored(&b)) {
        let want = a.size == b.size && c == d;
        if x != want { return Err(format!("sizes {}/{}, stored checksums {}/{}: equal={}", a.size, b.size, hex(&c), hex(&d), x)); }
        cx.count(if want { "equal_pairs" } else { "unequal_pairs" });
    } else {
        if a.size != b.size && x { return Err(format!("sections of sizes {} and {} compare equal", a.size, b.size)); }
        cx.count("pairs_with_incomplete");
    }
    cx.seen(crate::rng::hash_bytes(&a.buffer) ^ crate::rng::hash_bytes(&b.buffer).rotate_left(7));
    cx.sample(|| format!("sizes {}/{} present {}/{} equal {}", a.size, b.size, a.buffer.len(), b.buffer.len(), x));
    Ok(())
}

pub fn c06() -> Vec<Workload> {
    vec![
        sweep("checksum_lengths", 4200, 8, c06_crc),
        sweep("checksum_long", 32, 0, c06_crc_long),
        sweep("checksum_pairs", 256, 1, c06_crc_pairs),
        sweep("table_ids", 7 * 256, 7, c06_ids),
        random("single_bits", 700, 30_000, 0, c06_bits),
        random("finalize", 60_000, 1_500_000, 8, c06_finalize),
        random("validity", 150_000, 4_000_000, 12, c06_validity),
        random("gate", 100_000, 3_000_000, 12, c06_gate),
        random("equality", 150_000, 4_000_000, 40, c06_equality),
    ]
}

// ---- C07 / C08 -------------------------------------------------------------

pub fn emit(t: &Tab, r: &mut Rng) -> Result<Vec<Vec<u8>>, String> {
    let lib = Lib::build(t, r);
    let pid = r.bits(13) as u16;
    let cc0 = r.below(16) as u8;
    let mut cc = cc0;
    let mut dst = Vec::new();
    lib.emit(pid, &mut cc, &mut dst);
    // the packets themselves are judged by C03; read leniently here
    let (secs, _) = depacketize(&dst, pid, cc0)?;
    Ok(secs)
}

fn summary(t: &Tab) -> String { format!("{:?} id {:02x} version {} ext {} with {} table descriptors and {} entries", t.kind, t.table_id, t.version, t.ext, t.desc.len(), t.items.len()) }

fn check_emit(cx: &mut Cx, t: &Tab) -> Res {
    let secs = emit(t, &mut cx.r)?;
    let dec = secs.iter().enumerate().map(|(i, s)| decode_section(t.kind, s).map_err(|e| format!("section {}: {}", i, e))).collect::<Result<Vec<_>, _>>()?;
    same_content(t, &dec).map_err(|e| format!("{}: {}", summary(t), e))?;
    cx.add("entries_emitted", t.items.len() as u64);
    cx.add("sections_decoded", secs.len() as u64);
    cx.seen_bytes(&secs.concat());
    cx.sample(|| format!("{} -> {} sections", summary(t), secs.len()));
    Ok(())
}

fn check_parse(cx: &mut Cx, t: &Tab) -> Res {
    let r = &mut cx.r;
    let limit = if t.kind == Kind::Eit { 4096 } else if r.one_in(6) { 4096 } else { 1024 };
    let secs = t.encode(r, limit);
    if secs.len() > 256 { return Ok(()); }
    let mut lib = Lib::empty(t.kind);
    let via = r.one_in(3) && secs.iter().map(|s| s.len()).sum::<usize>() < 40_000;
    if secs.len() == 1 && r.coin() && !via { lib = Lib::from_psi(t.kind, &psi_of(&secs[0])); } else { feed(r, &mut lib, &secs, via)?; }
    lib.same(t).map_err(|e| format!("{} in {} sections: {}", summary(t), secs.len(), e))?;
    cx.add("entries_parsed", t.items.len() as u64);
    cx.add("sections_parsed", secs.len() as u64);
    cx.seen_bytes(&secs.concat());
    cx.sample(|| format!("{} split over {} sections", summary(t), secs.len()));
    Ok(())
}

/// parsing into a table that already holds something appends
fn check_append(cx: &mut Cx, k: Kind) -> Res {
    let r = &mut cx.r;
    let a = gen_table(r, k, false);
    let b = gen_table(r, k, false);
    let mut lib = Lib::build(&a, r);
    let secs = b.encode(r, k.limit());
    feed(r, &mut lib, &secs, false)?;
    let mut want = b.clone();
    want.desc = [a.desc.clone(), b.desc.clone()].concat();
    want.items = [a.items.clone(), b.items.clone()].concat();
    lib.same(&want).map_err(|e| format!("{} appended to {}: {}", summary(&b), summary(&a), e))?;
    cx.count("appended");
    cx.seen_bytes(&secs.concat());
    cx.sample(|| format!("{} appended to {}", summary(&b), summary(&a)));
    Ok(())
}

/// emit, parse back through packets: what was built comes back
fn check_loop(cx: &mut Cx, t: &Tab) -> Res {
    let secs = emit(t, &mut cx.r)?;
    let mut lib = Lib::empty(t.kind);
    let r = &mut cx.r;
    feed(r, &mut lib, &secs, true)?;
    lib.same(t).map_err(|e| format!("{}, emitted and parsed back: {}", summary(t), e))?;
    cx.count("round_trips");
    cx.seen_bytes(&secs.concat());
    Ok(())
}

macro_rules! table_workloads {
    ($emit:ident, $emit_big:ident, $parse:ident, $parse_big:ident, $append:ident, $trip:ident, $kinds:expr) => {
        fn $emit(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); let t = gen_table(&mut cx.r, k, false); check_emit(cx, &t) }
        fn $emit_big(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); let t = gen_table(&mut cx.r, k, true); check_emit(cx, &t) }
        fn $parse(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); let t = gen_table(&mut cx.r, k, false); check_parse(cx, &t) }
        fn $parse_big(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); let t = gen_table(&mut cx.r, k, true); check_parse(cx, &t) }
        fn $append(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); check_append(cx, k) }
        fn $trip(cx: &mut Cx) -> Res { let k = cx.r.pick(&$kinds); let t = gen_table(&mut cx.r, k, false); check_loop(cx, &t) }
    };
}

table_workloads!(c07_emit, c07_emit_big, c07_parse, c07_parse_big, c07_append, c07_trip, [Kind::Pat, Kind::Pmt, Kind::Pmt]);
table_workloads!(c08_emit, c08_emit_big, c08_parse, c08_parse_big, c08_append, c08_trip, [Kind::Nit, Kind::Sdt]);

/// every number of programs, and every field bit
fn c07_counts(cx: &mut Cx) -> Res {
    let n = cx.index as usize;
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Pat);
    for _ in 0..n { t.items.push(gen_item(r, Kind::Pat, 0)); }
    check_emit(cx, &t)?;
    check_parse(cx, &t)
}

fn c07_huge(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.pick(&[64_768usize, 64_767, 40_000, 20_000, 253 * 128 + 1]);
    let mut t = gen_head(r, Kind::Pat);
    for _ in 0..n { t.items.push(gen_item(r, Kind::Pat, 0)); }
    check_emit(cx, &t)
}

/// every table/field value of the fixed parts, one at a time
fn fields(cx: &mut Cx, k: Kind) -> Res {
    let v = cx.index;
    let r = &mut cx.r;
    let mut t = gen_head(r, k);
    let mut it = gen_item(r, k, 20);
    t.version = (v % 32) as u8;
    match k {
        Kind::Pat => { t.ext = v as u16; it.id = (v as u16).rotate_left(3); it.id2 = v as u16 & 0x1FFF; }
        Kind::Pmt => { t.ext = v as u16; t.a = v as u16 & 0x1FFF; it.id = v as u16 & 0xFF; it.id2 = (v >> 3) as u16 & 0x1FFF; }
        Kind::Nit => { t.ext = v as u16; it.id = v as u16; it.id2 = (v as u16).rotate_left(5); t.table_id = 0x40 + (v & 1) as u8; }
        Kind::Sdt => {
            t.ext = v as u16; t.a = (v as u16).rotate_left(7); it.id = v as u16; t.table_id = if v & 1 == 0 { 0x42 } else { 0x46 };
            it.flags = [(v & 1) as u8, (v >> 1 & 1) as u8, (v >> 2 & 7) as u8, (v >> 5 & 1) as u8];
        }
        _ => {}
    }
    t.items.push(it);
    check_emit(cx, &t)?;
    check_parse(cx, &t)
}
fn c07_fields_pat(cx: &mut Cx) -> Res { fields(cx, Kind::Pat) }
fn c07_fields_pmt(cx: &mut Cx) -> Res { fields(cx, Kind::Pmt) }
fn c08_fields_nit(cx: &mut Cx) -> Res { fields(cx, Kind::Nit) }
fn c08_fields_sdt(cx: &mut Cx) -> Res { fields(cx, Kind::Sdt) }

/// table descriptors of every length with an entry that still fits, just
/// fits or no longer fits behind them
fn desc_lengths(cx: &mut Cx, k: Kind) -> Res {
    let dl = cx.index as usize;
    let room = k.limit() - k.base();
    if dl == 1 || dl > room { return Ok(()); }
    for delta in [-2i64, -1, 0, 1, 2, 40] {
        let r = &mut cx.r;
        let mut t = gen_head(r, k);
        if k.has_desc() { t.desc = exact_list(r, dl); }
        let left = if k.has_desc() { room - dl } else { room };
        let want = left as i64 + delta - k.item_head() as i64;
        let n = if want < 2 { 0 } else { (want as usize).min(k.max_item() - k.item_head()) };
        let mut it = gen_item(r, k, 0);
        it.desc = exact_list(r, n);
        t.items.push(it);
        if !k.has_desc() { let mut i = gen_item(r, k, 0); i.desc = exact_list(r, dl.min(k.max_item() - k.item_head())); t.items.push(i); }
        let last = gen_item(r, k, 30);
        t.items.push(last);
        check_emit(cx, &t)?;
        if delta == 0 { check_parse(cx, &t)?; }
    }
    Ok(())
}
fn c07_desc(cx: &mut Cx) -> Res { desc_lengths(cx, Kind::Pmt) }
fn c08_desc_nit(cx: &mut Cx) -> Res { desc_lengths(cx, Kind::Nit) }
fn c08_desc_sdt(cx: &mut Cx) -> Res { desc_lengths(cx, Kind::Sdt) }

pub fn c07() -> Vec<Workload> {
    vec![
        sweep("pat_counts", 1100, 3, c07_counts),
        sweep("pmt_descriptor_lengths", 1009, 3, c07_desc),
        sweep("pat_fields", 65536, 4, c07_fields_pat),
        sweep("pmt_fields", 65536, 4, c07_fields_pmt),
        random("pat_huge", 8, 120, 0, c07_huge),
        random("emit", 40_000, 1_500_000, 15, c07_emit),
        random("emit_big", 1_500, 50_000, 0, c07_emit_big),
        random("parse", 40_000, 1_500_000, 15, c07_parse),
        random("parse_big", 1_500, 50_000, 0, c07_parse_big),
        random("append", 25_000, 600_000, 8, c07_append),
        random("round_trip", 15_000, 500_000, 6, c07_trip),
    ]
}

pub fn c08() -> Vec<Workload> {
    vec![
        sweep("nit_descriptor_lengths", 1009, 3, c08_desc_nit),
        sweep("sdt_entry_lengths", 1005, 3, c08_desc_sdt),
        sweep("nit_fields", 65536, 4, c08_fields_nit),
        sweep("sdt_fields", 65536, 4, c08_fields_sdt),
        random("emit", 40_000, 1_500_000, 15, c08_emit),
        random("emit_big", 2_000, 60_000, 0, c08_emit_big),
        random("parse", 40_000, 1_500_000, 15, c08_parse),
        random("parse_big", 2_000, 60_000, 0, c08_parse_big),
        random("append", 25_000, 600_000, 8, c08_append),
        random("round_trip", 15_000, 500_000, 6, c08_trip),
    ]
}

// ---- C09 -------------------------------------------------------------------

const SEG: u64 = 3 * 3600;
const DAY: u64 = 86400;

/// chronologically ordered schedule within 64 days and eight sections per
/// segment
pub fn gen_schedule(r: &mut Rng, max_items: usize) -> Tab {
    let mut t = gen_head(r, Kind::Eit);
    t.table_id = r.pick(&[0x50u8, 0x60]) | r.below(16) as u8;
    let start = match r.below(6) {
        0 => r.below(24000) * DAY,
        1 => r.below(24000) * DAY + r.below(8) * SEG,
        2 => r.below(24000) * DAY + DAY - 1,
        _ => r.below(24000 * DAY),
    };
    let midnight = start / DAY * DAY;
    let first_seg = (start - midnight) / SEG;
    let n = match r.below(4) { 0 => 1, 1 => r.urange(1, 6), _ => r.urange(1, max_items) };
    let style = r.below(6);
    let fat = r.below(4);
    let mut at = start;
    // room bookkeeping per segment, on the safe side
    let mut seg = first_seg;
    let mut sections = 1;
    let mut used = 18;
    for i in 0..n {
        // back to back with the event before
        let follow = t.items.last().map(|x| x.start + u64::from(x.dur)).filter(|&x| x >= at);
        if let (true, Some(x)) = (r.one_in(4), follow) {
            at = x;
        } else if i > 0 {
            at += match style {
                0 => r.below(3600),
                1 => r.pick(&[0, SEG, SEG - 1, SEG + 1, 1]),
                2 => r.below(2 * SEG),
                3 => r.below(5 * DAY),
                4 => { let s = at / SEG * SEG + r.range(1, 40) * SEG; s - at + r.pick(&[0, 0, 1, SEG - 1]) }
                _ => if r.one_in(6) { r.below(10 * DAY) } else { r.below(5400) },
            };
        }
        let s = (at - midnight) / SEG;
        if s >= 512 || at > MAX_TIME { break; }
        let max = match fat { 0 => 0, 1 => 60, 2 => if r.one_in(5) { 4065 } else { 300 }, _ => 1500 };
        let mut it = gen_item(r, Kind::Eit, max);
        // an event may repeat the one before, in part or whole
        if let (true, Some(p)) = (r.one_in(8), t.items.last()) {
            match r.below(4) { 0 => it.id = p.id, 1 => it.desc = p.desc.clone(), 2 => it.dur = p.dur, _ => it = p.clone() }
        }
        it.start = at;
        let len = it.len(Kind::Eit);
        // the first segment's events may share the next one's sections
        let group = s.max(first_seg + 1);
        if group != seg { seg = group; sections = 1; used = 18; }
        if used + len >= 4096 { sections += 1; used = 18; }
        used += len;
        if sections > 8 { continue; }
        t.items.push(it);
    }
    if t.items.is_empty() { let mut it = gen_item(r, Kind::Eit, 0); it.start = start; t.items.push(it); }
    t
}

fn check_schedule(cx: &mut Cx, t: &Tab) -> Res {
    let secs = emit(t, &mut cx.r)?;
    let dec = secs.iter().enumerate().map(|(i, s)| decode_section(Kind::Eit, s).map_err(|e| format!("section {}: {}", i, e))).collect::<Result<Vec<_>, _>>()?;
    let what = || format!("{}, first {} last {}", summary(t), t.items[0].start, t.items[t.items.len() - 1].start);
    same_content(t, &dec).map_err(|e| format!("{}: {}", what(), e))?;
    let base = t.table_id & 0xF0;
    let midnight = t.items[0].start / DAY * DAY;
    let first_seg = ((t.items[0].start - midnight) / SEG) as usize;
    let mut prev: Option<(u8, u8)> = None;
    let mut per_seg: Vec<(usize, usize)> = vec![(0, 0); 520];
    let top = dec.iter().map(|d| d.table_id).max().unwrap_or(0);
    for (i, d) in dec.iter().enumerate() {
        let key = (d.table_id, d.num);
        match prev {
            None => if key != (base, 0) { return Err(format!("{}: first section is {:02x}/{}", what(), d.table_id, d.num)); },
            Some(p) => if key <= p { return Err(format!("{}: section {:02x}/{} follows {:02x}/{}", what(), d.table_id, d.num, p.0, p.1)); },
        }
        prev = Some(key);
        if d.table_id & 0xF0 != base { return Err(format!("{}: table id {:02x} outside {:02x}..{:02x}", what(), d.table_id, base, base | 15)); }
        let last = dec.iter().filter(|x| x.table_id == d.table_id).map(|x| x.num).max().unwrap_or(0);
        if d.last != last { return Err(format!("{}: section {:02x}/{} names {} as last section, highest emitted is {}", what(), d.table_id, d.num, d.last, last)); }
        if d.last_table != top { return Err(format!("{}: section {} names {:02x} as last table, highest emitted is {:02x}", what(), i, d.last_table, top)); }
        let seg = usize::from(d.table_id - base) * 32 + usize::from(d.num / 8);
        per_seg[seg].0 += 1;
        per_seg[seg].1 += d.items.len();
        for (it, _) in &d.items {
            let own = ((it.start - midnight) / SEG) as usize;
            if own > first_seg && own != seg { return Err(format!("{}: event starting at {} (segment {}) lies in {:02x}/{} (segment {})", what(), it.start, own, d.table_id, d.num, seg)); }
            if own == first_seg && seg != own && seg != own + 1 { return Err(format!("{}: event of the first segment {} lies in segment {}", what(), own, seg)); }
        }
    }
    let last_seg = ((t.items[t.items.len() - 1].start - midnight) / SEG) as usize;
    for (s, p) in per_seg.iter().enumerate() {
        if s <= last_seg && p.0 == 0 { return Err(format!("{}: no section for segment {}", what(), s)); }
        if p.1 == 0 && p.0 > 1 { return Err(format!("{}: {} sections for the empty segment {}", what(), p.0, s)); }
        if s > last_seg.max(first_seg + 1) && p.0 > 0 { return Err(format!("{}: sections for segment {} behind the last event", what(), s)); }
    }
    cx.add("events_emitted", t.items.len() as u64);
    cx.add("sections_decoded", dec.len() as u64);
    cx.add("empty_segments", per_seg.iter().filter(|p| p.0 == 1 && p.1 == 0).count() as u64);
    cx.add("tables_spanned", u64::from(top - base) + 1);
    cx.seen_bytes(&secs.concat());
    cx.sample(|| format!("{} -> {} sections up to table {:02x}", what(), dec.len(), top));
    Ok(())
}

fn c09_schedule(cx: &mut Cx) -> Res { let t = gen_schedule(&mut cx.r, 60); check_schedule(cx, &t) }
fn c09_schedule_long(cx: &mut Cx) -> Res { let t = gen_schedule(&mut cx.r, 1200); check_schedule(cx, &t) }

/// two events: every pair of segments
fn c09_pairs(cx: &mut Cx) -> Res {
    let first = cx.index % 8;
    let gap = cx.index / 8; // segments between the events, 0..
    let r = &mut cx.r;
    let day = r.below(24000) * DAY;
    let mut t = gen_head(r, Kind::Eit);
    t.table_id = if cx.index % 2 == 0 { 0x50 } else { 0x60 };
    let a = day + first * SEG + r.pick(&[0, 1, SEG / 2, SEG - 1]);
    let b = day + (first + gap) * SEG + r.pick(&[0, 1, SEG - 1]);
    if (b - day) / SEG >= 512 || b > MAX_TIME { return Ok(()); }
    for s in [a, b.max(a)] { let mut it = gen_item(r, Kind::Eit, 30); it.start = s; t.items.push(it); }
    check_schedule(cx, &t)
}

/// segments filled to exactly k sections
fn c09_fill(cx: &mut Cx) -> Res {
    let len = 12 + cx.index as usize; // entry length
    if len == 13 { return Ok(()); }
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Eit);
    t.table_id = 0x50;
    let day = r.below(20000) * DAY;
    let base = day + r.below(8) * SEG;
    for seg in 0..2u64 {
        let n = match len { 0..=40 => 700, 41..=400 => 70, _ => 8 };
        for i in 0..n {
            let mut it = gen_item(r, Kind::Eit, 0);
            it.start = base + (2 + seg) * SEG + (i as u64 * 7).min(SEG - 1);
            it.desc = exact_list(r, len - 12);
            t.items.push(it);
        }
    }
    let mut first = gen_item(r, Kind::Eit, 0);
    first.start = base + r.below(SEG);
    t.items.insert(0, first);
    check_schedule(cx, &t)
}

fn c09_pf(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Eit);
    t.table_id = r.pick(&[0x4E, 0x4F]);
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 | 3 => 2, 4 => r.urange(1, 20), _ => if r.one_in(40) { 256 } else { 3 } };
    for _ in 0..n { let m = r.pick(&[0, 40, 400, 4066]); t.items.push(gen_item(r, Kind::Eit, m)); }
    let secs = emit(&t, r)?;
    let dec = secs.iter().map(|s| decode_section(Kind::Eit, s)).collect::<Result<Vec<_>, _>>()?;
    same_content(&t, &dec).map_err(|e| format!("{}: {}", summary(&t), e))?;
    if dec.len() != n { return Err(format!("{} events in {} sections", n, dec.len())); }
    for (i, d) in dec.iter().enumerate() {
        if d.items.len() != 1 || usize::from(d.num) != i || usize::from(d.last) != n - 1 || d.last_table != t.table_id {
            return Err(format!("section {} of {}: {} events, number {} last {} last table {:02x}", i, n, d.items.len(), d.num, d.last, d.last_table));
        }
    }
    cx.add("events_emitted", n as u64);
    cx.add("sections_decoded", n as u64);
    cx.seen_bytes(&secs.concat());
    cx.sample(|| format!("{} -> {} sections", summary(&t), n));
    Ok(())
}

fn c09_parse(cx: &mut Cx) -> Res { let t = gen_table(&mut cx.r, Kind::Eit, false); check_parse(cx, &t) }
fn c09_parse_big(cx: &mut Cx) -> Res { let t = gen_table(&mut cx.r, Kind::Eit, true); check_parse(cx, &t) }
fn c09_append(cx: &mut Cx) -> Res { check_append(cx, Kind::Eit) }

/// every second of the day as start time and duration, every flag value
fn c09_fields(cx: &mut Cx) -> Res {
    let s = cx.index * 16;
    for k in 0..16 {
        let v = s + k;
        if v >= DAY { break; }
        let r = &mut cx.r;
        let mut t = gen_head(r, Kind::Eit);
        t.table_id = 0x4E + (v & 1) as u8;
        let mut it = gen_item(r, Kind::Eit, 0);
        it.id = v as u16;
        it.start = r.below(24000) * DAY + v;
        it.dur = ((v * 7919) % DAY) as u32;
        it.flags = [0, 0, (v & 7) as u8, (v >> 3 & 1) as u8];
        t.ext = v as u16;
        t.a = (v as u16).rotate_left(3);
        t.b = (v as u16).rotate_left(9);
        t.items.push(it);
        check_emit(cx, &t)?;
        check_parse(cx, &t)?;
    }
    Ok(())
}

pub fn c09() -> Vec<Workload> {
    vec![
        sweep("event_fields", 5400, 3, c09_fields),
        sweep("segment_pairs", 8 * 512, 6, c09_pairs),
        sweep("segment_fill", 4066, 0, c09_fill),
        random("schedule", 15_000, 500_000, 2, c09_schedule),
        random("schedule_long", 600, 20_000, 0, c09_schedule_long),
        random("present_following", 30_000, 800_000, 10, c09_pf),
        random("parse", 30_000, 1_000_000, 10, c09_parse),
        random("parse_big", 800, 25_000, 0, c09_parse_big),
        random("append", 15_000, 400_000, 6, c09_append),
    ]
}

// ---- C10 -------------------------------------------------------------------

fn c10_bcd(cx: &mut Cx) -> Res {
    // all eight-digit numbers, 10000 per case; four- and two-digit ones in case 0
    let hi = cx.index as u32;
    let digits = |v: u32| { let mut o = 0u32; let mut x = v; for i in 0..8 { o |= (x % 10) << (4 * i); x /= 10; } o };
    for lo in 0..10_000u32 {
        let v = hi * 10_000 + lo;
        let b = digits(v);
        if v.to_bcd() != b { return Err(format!("{} encodes to {:08x}, want {:08x}", v, v.to_bcd(), b)); }
        if b.from_bcd() != v { return Err(format!("{:08x} decodes to {}, want {}", b, b.from_bcd(), v)); }
        if hi == 0 {
            let (v, b) = (v as u16, b as u16);
            if v.to_bcd() != b || b.from_bcd() != v { return Err(format!("{} / {:04x}: {:04x} {}", v, b, v.to_bcd(), b.from_bcd())); }
            if v < 100 && ((v as u8).to_bcd() != b as u8 || (b as u8).from_bcd() != v as u8) { return Err(format!("{} / {:02x}", v, b)); }
        }
    }
    cx.add("numbers_converted", 10_000);
    cx.seen(cx.index);
    cx.sample(|| format!("numbers {:04}0000..{:04}9999", hi, hi));
    Ok(())
}

fn c10_clock(cx: &mut Cx) -> Res {
    let h = cx.index as u32;
    for m in 0..60u32 {
        let b = hm2((h * 60 + m) as u16);
        let w = u16::from_be_bytes(b);
        let v = (h * 60 + m) as u16;
        if v.to_bcd_time() != w { return Err(format!("{} minutes encode to {:04x}, want {:04x}", v, v.to_bcd_time(), w)); }
        if w.from_bcd_time() != v { return Err(format!("{:04x} decodes to {} minutes, want {}", w, w.from_bcd_time(), v)); }
        for s in 0..60u32 {
            let v = h * 3600 + m * 60 + s;
            let x = hms3(v);
            let w = u32::from(x[0]) << 16 | u32::from(x[1]) << 8 | u32::from(x[2]);
            if v.to_bcd_time() != w { return Err(format!("{} seconds encode to {:06x}, want {:06x}", v, v.to_bcd_time(), w)); }
            if w.from_bcd_time() != v { return Err(format!("{:06x} decodes to {} seconds, want {}", w, w.from_bcd_time(), v)); }
            cx.count("clock_readings_converted");
        }
    }
    cx.seen(cx.index);
    cx.sample(|| format!("every minute and second of hour {}", h));
    Ok(())
}

fn c10_mjd(cx: &mut Cx) -> Res {
    let day = cx.index;
    let m = (day + 40587) as u16;
    if m.from_mjd() != day * DAY { return Err(format!("date {} decodes to {}, want {}", m, m.from_mjd(), day * DAY)); }
    for s in [0, 1, 43199, 43200, 86398, 86399, cx.r.below(DAY)] {
        let g = (day * DAY + s).to_mjd();
        if g != m { return Err(format!("second {} has date {}, want {}", day * DAY + s, g, m)); }
        cx.count("dates_converted");
    }
    cx.seen(cx.index);
    cx.sample(|| format!("day {}", m));
    Ok(())
}

fn time_case(cx: &mut Cx, t: &Tab) -> Res {
    let r = &mut cx.r;
    let secs = emit(t, r)?;
    if secs.len() != 1 { return Err(format!("{} sections for one time", secs.len())); }
    let (g, d) = decode_time(t.kind, &secs[0])?;
    if g != t.time { return Err(format!("time {} emitted as {}", t.time, g)); }
    same_loop(&d, &t.desc, "descriptors")?;
    let own = t.encode(r, 1024);
    let mut lib = Lib::empty(t.kind);
    let via = r.coin();
    if via || t.kind == Kind::Tot { feed(r, &mut lib, &own, via)?; } else { lib.parse(&psi_of(&own[0])); }
    lib.same(t).map_err(|e| format!("time {} parsed: {}", t.time, e))?;
    // a table that holds a time already takes the new one, earlier or later
    let mut old = gen_head(r, t.kind);
    old.desc.clear();
    match r.below(4) { 0 => old.time = t.time.saturating_sub(r.range(1, 4000)), 1 => old.time = (t.time + r.range(1, 4000)).min(2_155_593_599), _ => {} }
    let was = old.time;
    let mut lib = Lib::build(&old, r);
    lib.parse(&psi_of(&own[0]));
    lib.same(t).map_err(|e| format!("time {} parsed into a table holding {}: {}", t.time, was, e))?;
    cx.count("times_replaced");
    cx.count("times_round_tripped");
    cx.seen(t.time ^ (t.desc.len() as u64) << 48);
    Ok(())
}

/// every day at changing times, TDT and TOT
fn c10_days(cx: &mut Cx) -> Res {
    for k in [Kind::Tdt, Kind::Tot] {
        let r = &mut cx.r;
        let mut t = gen_head(r, k);
        t.time = cx.index * DAY + (cx.index * 7919 + r.below(2)) % DAY;
        time_case(cx, &t)?;
    }
    let i = cx.index;
    cx.sample(|| format!("day {}", i + 40587));
    Ok(())
}

/// every second of one day
fn c10_seconds(cx: &mut Cx) -> Res {
    for s in cx.index * 60..cx.index * 60 + 60 {
        let r = &mut cx.r;
        let mut t = gen_head(r, if s & 1 == 0 { Kind::Tdt } else { Kind::Tot });
        t.time = r.below(24949) * DAY + s;
        time_case(cx, &t)?;
    }
    Ok(())
}

/// local time offsets: every minute count, both polarities
fn c10_offsets(cx: &mut Cx) -> Res {
    let off = cx.index as u16;
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Tot);
    for pol in 0..2u8 {
        let n = r.urange(1, 4);
        t.desc.push(D::X58((0..n).map(|i| Lto {
            code: *b"GBR", region: (i as u16 * 17 + off) as u8 & 63, pol, off, change: rand_time(r), next: 1439 - off,
        }).collect()));
    }
    time_case(cx, &t)?;
    cx.count("offsets_round_tripped");
    cx.sample(|| format!("offset {} minutes, next {}", off, 1439 - off));
    Ok(())
}

fn c10_random(cx: &mut Cx) -> Res {
    let k = cx.r.pick(&[Kind::Tdt, Kind::Tot, Kind::Tot]);
    let t = gen_table(&mut cx.r, k, false);
    time_case(cx, &t)?;
    cx.sample(|| format!("{:?} time {} with {} descriptors", k, t.time, t.desc.len()));
    Ok(())
}

pub fn c10() -> Vec<Workload> {
    vec![
        sweep("bcd_numbers", 10_000, 1, c10_bcd),
        sweep("clock", 24, 1, c10_clock),
        sweep("dates", 24949, 40, c10_mjd),
        sweep("days", 24949, 10, c10_days),
        sweep("seconds", 1440, 1, c10_seconds),
        sweep("offsets", 1440, 6, c10_offsets),
        random("tables", 60_000, 2_000_000, 15, c10_random),
    ]
}

// ---- C11 -------------------------------------------------------------------

fn check_frame(cx: &mut Cx, t: &Tab) -> Res {
    let secs = emit(t, &mut cx.r)?;
    let k = t.kind;
    let w = || summary(t);
    cx.add("sections_judged", secs.len() as u64);
    cx.seen_bytes(&secs.concat());
    if matches!(k, Kind::Tdt | Kind::Tot) {
        if secs.len() != 1 { return Err(format!("{}: {} sections", w(), secs.len())); }
        decode_time(k, &secs[0])?;
        if secs[0].len() > 1024 { return Err(format!("{}: section of {} bytes", w(), secs[0].len())); }
        cx.sample(|| format!("{} -> {} bytes", w(), secs[0].len()));
        return Ok(());
    }
    let dec = secs.iter().enumerate().map(|(i, s)| decode_section(k, s).map_err(|e| format!("{}: section {}: {}", w(), i, e))).collect::<Result<Vec<_>, _>>()?;
    let schedule = k == Kind::Eit && t.table_id >= 0x50;
    if t.items.is_empty() {
        let want = if k == Kind::Eit { 0 } else { 1 };
        if dec.len() != want { return Err(format!("{}: {} sections, want {}", w(), dec.len(), want)); }
    }
    for (i, d) in dec.iter().enumerate() {
        if d.len > k.limit() { return Err(format!("{}: section {} has {} bytes", w(), i, d.len)); }
        let id_ok = if schedule { d.table_id & 0xF0 == t.table_id & 0xF0 } else { d.table_id == t.table_id };
        if !id_ok || d.ext != t.ext || d.version != t.version || d.a != t.a || d.b != t.b { return Err(format!("{}: section {} carries id {:02x} ext {} version {} {} {}", w(), i, d.table_id, d.ext, d.version, d.a, d.b)); }
        if !schedule && (usize::from(d.num) != i || usize::from(d.last) != dec.len() - 1) { return Err(format!("{}: section {} of {} is numbered {}/{}", w(), i, dec.len(), d.num, d.last)); }
        if i + 1 < dec.len() && (k != Kind::Eit || schedule && dec[i + 1].table_id == d.table_id && dec[i + 1].num / 8 == d.num / 8) {
            if let Some((it, dl)) = dec[i + 1].items.first() {
                let len = k.item_head() + dl.iter().map(|x| 2 + x.1.len()).sum::<usize>();
                let limit = if k == Kind::Eit { k.limit() - 1 } else { k.limit() };
                if d.len + len <= limit { return Err(format!("{}: entry {} of {} bytes was put into section {} although section {} had only {} bytes", w(), it.id, len, i + 1, i, d.len)); }
            } else if k != Kind::Eit { return Err(format!("{}: section {} holds no entry", w(), i + 1)); }
        }
    }
    cx.sample(|| format!("{} -> sections of {:?} bytes", w(), dec.iter().map(|d| d.len).take(12).collect::<Vec<_>>()));
    Ok(())
}

fn c11_random(cx: &mut Cx) -> Res {
    let k = cx.r.pick(&KINDS);
    let t = if k == Kind::Eit {
        if cx.r.coin() { gen_schedule(&mut cx.r, 40) } else { let mut t = gen_table(&mut cx.r, k, false); t.table_id = 0x4E | (t.table_id & 1); t }
    } else { let big = cx.r.one_in(30); gen_table(&mut cx.r, k, big) };
    check_frame(cx, &t)
}

/// pairs of entries whose lengths meet the section limit from both sides
fn c11_boundary(cx: &mut Cx) -> Res {
    let kinds = [Kind::Pmt, Kind::Nit, Kind::Sdt];
    let k = kinds[(cx.index % 3) as usize];
    let dl = (cx.index / 3) as usize;
    let max = k.max_item() - k.item_head();
    if dl == 1 || dl > max { return Ok(()); }
    for delta in -3i64..=3 {
        for with_desc in [false, true] {
            if with_desc && !k.has_desc() { continue; }
            let r = &mut cx.r;
            let mut t = gen_head(r, k);
            let mut rest = k.limit() - k.base();
            if with_desc { let n = r.urange(2, 200); t.desc = exact_list(r, n); rest -= n; }
            let a = k.item_head() + dl;
            let want = rest as i64 - a as i64 + delta - k.item_head() as i64;
            let b = if want < 0 || want == 1 { 0 } else { (want as usize).min(max) };
            for n in [dl, b, 0, 5] { let mut it = gen_item(r, k, 0); it.desc = exact_list(r, n); t.items.push(it); }
            check_frame(cx, &t)?;
        }
    }
    Ok(())
}

fn c11_pat(cx: &mut Cx) -> Res {
    let n = cx.index as usize;
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Pat);
    for _ in 0..n { t.items.push(gen_item(r, Kind::Pat, 0)); }
    check_frame(cx, &t)
}

fn c11_eit(cx: &mut Cx) -> Res {
    // entries of one length filling a segment
    let dl = cx.index as usize;
    if dl == 1 { return Ok(()); }
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Eit);
    t.table_id = 0x50;
    let day = r.below(20000) * DAY;
    let n = (2 * 4078 / (12 + dl) + 2).min(300);
    for i in 0..n { let mut it = gen_item(r, Kind::Eit, 0); it.start = day + 5 * SEG + (i as u64 * 10).min(SEG - 1); it.desc = exact_list(r, dl); t.items.push(it); }
    check_frame(cx, &t)?;
    // present/following at the same lengths
    t.table_id = 0x4E;
    t.items.truncate(2);
    check_frame(cx, &t)
}

fn c11_tot(cx: &mut Cx) -> Res {
    let dl = cx.index as usize;
    if dl == 1 { return Ok(()); }
    let r = &mut cx.r;
    let mut t = gen_head(r, Kind::Tot);
    t.desc = exact_list(r, dl);
    check_frame(cx, &t)
}

/// tables without entries
fn c11_empty(cx: &mut Cx) -> Res {
    let k = KINDS[(cx.index % 7) as usize];
    let r = &mut cx.r;
    let mut t = gen_head(r, k);
    t.version = (cx.index / 7 % 32) as u8;
    if matches!(k, Kind::Tdt | Kind::Tot) { t.version = 0; }
    if k.has_desc() && r.coin() { t.desc = gen_list(r, 1000); }
    check_frame(cx, &t)
}

/// tables of up to 256 sections
fn c11_huge(cx: &mut Cx) -> Res {
    let k = [Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt][(cx.index % 4) as usize];
    let r = &mut cx.r;
    let want = match cx.index / 4 { 0 => 256, 1 => 255, 2 => 128, 3 => 129, 4 => 127, _ => r.urange(100, 256) };
    let mut t = gen_head(r, k);
    if k.has_desc() && r.coin() { t.desc = gen_list(r, 60); }
    let rest = k.limit() - k.base() - t.desc.iter().map(|d| d.len()).sum::<usize>();
    let room = (k.max_item() - k.item_head()).min(rest - k.item_head());
    // entries of one length; a section takes `per` of them
    let len = if k == Kind::Pat { 0 } else { let n = if r.coin() { room } else { r.urange(rest / 4, room) }; n.max(2) };
    let per = rest / (k.item_head() + len);
    for _ in 0..want * per - r.idx(per) {
        let mut it = gen_item(r, k, 0);
        if k.item_has_desc() { it.desc = exact_list(r, len); }
        t.items.push(it);
    }
    cx.count("tables_of_many_sections");
    check_frame(cx, &t)
}

pub fn c11() -> Vec<Workload> {
    vec![
        sweep("entry_boundaries", 3 * 1010, 6, c11_boundary),
        sweep("pat_counts", 1100, 3, c11_pat),
        sweep("eit_entry_lengths", 4066, 4, c11_eit),
        sweep("tot_descriptor_lengths", 1011, 4, c11_tot),
        sweep("many_sections", 120, 0, c11_huge),
        random("empty_tables", 3_000, 60_000, 14, c11_empty),
        random("random", 40_000, 1_500_000, 15, c11_random),
    ]
}
