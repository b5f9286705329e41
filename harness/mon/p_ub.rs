//! C02 workloads of its own: callers that misbehave in safe code, and deep use
//! of what was parsed. They are run under Miri, AddressSanitizer and in the
//! checked build; the oracle is the sanitizer (and std's own assertions), not
//! the functional outcome.

use crate::cx::*;
use crate::desc::*;
use crate::refm::*;
use crate::rng::Rng;
use crate::tables::*;
use mpegts::bytes::Bytes;
use mpegts::es::pes;
use mpegts::psi::*;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use mpegts::textcode::StringDVB;
use mpegts::ts;
use std::io::{self, ErrorKind, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// packet source that claims what it did not do
#[derive(Debug)]
struct Liar { script: Vec<u8>, at: usize }

impl TsRead for Liar {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        let s = self.script.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        match s {
            0 => Ok(0),
            1 => Ok(188),                                                   // filled nothing
            2 => { packet[0] = 0x47; Ok(188) }                              // filled one byte
            3 => { for b in packet.iter_mut() { *b = 7; } Ok(188) }
            4 => { packet[..100].copy_from_slice(&[9; 100]); Ok(100) }      // short
            5 => Err(io::Error::new(ErrorKind::Other, "x")),
            6 => { if packet.iter().map(|&b| u32::from(b)).sum::<u32>() == 1 { Ok(1) } else { Ok(188) } } // reads what it was given
            _ => Err(io::Error::new(ErrorKind::Interrupted, "i")),
        }
    }
}

fn ub_liar(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 8);
    let script: Vec<u8> = (0..n).map(|_| r.below(8) as u8).collect();
    let mut d = TsDrain::new(Liar { script, at: 0 });
    let mut sum = 0u64;
    for _ in 0..r.urange(2, 14) {
        let n = r.pick(&[0usize, 1, 3, 50, 187, 188, 300]);
        let mut buf = vec![0x11u8; n];
        if let Ok(x) = d.read(&mut buf) {
            // whatever is handed out gets used
            for &b in &buf[..x.min(n)] { if b == 0x47 { sum += 1; } else { sum += u64::from(b) << 1; } }
        }
    }
    let _ = format!("{:?}", d);
    cx.count("lying_sources");
    cx.seen(sum ^ cx.index);
    cx.sample(|| format!("lying packet source, checksum of handed-out bytes {}", sum));
    Ok(())
}

/// byte source that returns short, failing or untouched reads
#[derive(Debug)]
struct Odd { at: usize, script: Vec<u8> }

impl Read for Odd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = self.script.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        if self.at > 4000 { return Ok(0); }
        match s {
            0 => if self.at > 300 { Ok(0) } else { if let Some(b) = buf.first_mut() { *b = 0x47; } Ok(buf.len().min(1)) },
            1 => Ok(buf.len()), // untouched
            2 => { let n = buf.len() / 2; for b in &mut buf[..n] { *b = 0x47; } Ok(n.max(1).min(buf.len())) }
            3 => Err(io::Error::new(ErrorKind::Other, "x")),
            4 => Err(io::Error::new(ErrorKind::Interrupted, "i")),
            _ => { for b in buf.iter_mut() { *b = 0x47; } Ok(buf.len()) }
        }
    }
}

fn ub_reader(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 40);
    let script: Vec<u8> = (0..n).map(|_| r.range(0, 6) as u8).collect();
    let mut rd = TsReader::new(Odd { at: 0, script });
    let mut sum = 0u64;
    let mut buf = [0u8; 200];
    for _ in 0..8 {
        if let Ok(x) = rd.read(&mut buf) { for &b in &buf[..x.min(200)] { if b & 1 == 1 { sum += 1; } } }
    }
    let _ = format!("{:?}", rd);
    cx.count("odd_byte_sources");
    cx.seen(sum ^ cx.index << 20);
    Ok(())
}

/// a String that is not UTF-8 is undefined behaviour waiting to happen
fn utf8(s: &str) -> Res {
    let b: Vec<u8> = std::hint::black_box(s.as_bytes().to_vec());
    match std::str::from_utf8(&b) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("INVALID VALUE: a String holds bytes that are not UTF-8 ({}): {:02x?}", e, &b[..b.len().min(200)])),
    }
}

/// texts: displayed, cut, split and printed, whatever the bytes
fn ub_text(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(0, 40);
    let mut b = r.bytes(n);
    if n > 0 && !r.one_in(8) { b[0] = r.below(0x21) as u8; }
    if n > 3 && b[0] == 0x10 && r.coin() { b[1] = 0; b[2] = r.below(22) as u8; }
    if n > 0 && r.one_in(3) { b[0] = 0x15; let i = r.idx(n); if i > 0 { b[i] = r.pick(&[0xC3, 0xED, 0xF0, 0xF4, 0xFF, 0xE2, 0x80, 0xBF]); } }
    let t = StringDVB::from(b.as_slice());
    let s = t.to_string();
    utf8(&s)?;
    utf8(&format!("{:?}", t))?;
    let max = r.urange(1, 24);
    let u = StringDVB::from_str(&s, r.below(12) as u8);
    utf8(&u.to_string())?;
    for part in u.split(max) { utf8(&part.to_string())?; }
    let mut v = t.clone();
    v.truncate(max);
    utf8(&v.to_string())?;
    cx.count("texts");
    cx.seen(crate::rng::hash_str(&s) ^ n as u64);
    Ok(())
}

const KINDS: [Kind; 7] = [Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot];

/// receive, clone, mutate, print, re-emit and drop in varying orders
fn ub_lifecycle(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let k = r.pick(&KINDS);
    let t = gen_table(r, k, false);
    let mut secs = t.encode(r, k.limit());
    if r.coin() { let i = r.idx(secs.len()); let j = r.idx(secs[i].len()); secs[i][j] ^= 1 << r.below(8); if k != Kind::Tdt { let n = secs[i].len() - 4; let c = crc(&secs[i][..n]).to_be_bytes(); secs[i][n..].copy_from_slice(&c); } }
    let mut lib = Lib::empty(k);
    for s in &secs { lib.parse(&psi_of(s)); }
    let d = lib.debug();
    utf8(&d)?;
    let mut out = Vec::new();
    let mut cc = 3;
    if k != Kind::Eit { lib.emit(5, &mut cc, &mut out); }
    let mut psi = Psi::default();
    for p in out.chunks(188) { psi.mux(p); let _ = psi.check(); }
    let c = psi.clone();
    let same = c == psi;
    cx.count(if same { "lifecycles" } else { "lifecycles_unequal" });
    cx.seen(crate::rng::hash_str(&d));
    Ok(())
}

/// descriptor lists: clone chains with mutation through both
fn ub_descriptors(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let b = crate::p_recv::hostile_loop(r);
    let mut a = Descriptors::default();
    a.parse(&b);
    let mut c = a.clone();
    for i in 0..c.len() {
        if let Some(d) = c.get_mut(i) { if d.tag() == 0x52 && format!("{:?}", d).contains("Desc52") { d.downcast_mut::<Desc52>().tag ^= 1; } }
    }
    let e = c.clone();
    drop(c);
    let mut out = Vec::new();
    e.assemble(&mut out);
    a.assemble(&mut out);
    drop(a);
    let s = format!("{:?}", e);
    utf8(&s)?;
    cx.count("descriptor_lists");
    cx.seen(crate::rng::hash_str(&s) ^ out.len() as u64);
    Ok(())
}

/// descriptors asked for as every type, the wrong ones included
const AS_TYPES: [(&str, fn(&mut Descriptor) -> u64); 15] = [
    ("raw", |d| shown(d.downcast_ref::<DescRaw>()) ^ shown(d.downcast_mut::<DescRaw>())),
    ("09", |d| shown(d.downcast_ref::<Desc09>()) ^ shown(d.downcast_mut::<Desc09>())),
    ("0a", |d| shown(d.downcast_ref::<Desc0A>()) ^ shown(d.downcast_mut::<Desc0A>())),
    ("0e", |d| shown(d.downcast_ref::<Desc0E>()) ^ shown(d.downcast_mut::<Desc0E>())),
    ("40", |d| shown(d.downcast_ref::<Desc40>()) ^ shown(d.downcast_mut::<Desc40>())),
    ("41", |d| shown(d.downcast_ref::<Desc41>()) ^ shown(d.downcast_mut::<Desc41>())),
    ("43", |d| shown(d.downcast_ref::<Desc43>()) ^ shown(d.downcast_mut::<Desc43>())),
    ("44", |d| shown(d.downcast_ref::<Desc44>()) ^ shown(d.downcast_mut::<Desc44>())),
    ("48", |d| shown(d.downcast_ref::<Desc48>()) ^ shown(d.downcast_mut::<Desc48>())),
    ("4d", |d| shown(d.downcast_ref::<Desc4D>()) ^ shown(d.downcast_mut::<Desc4D>())),
    ("4e", |d| shown(d.downcast_ref::<Desc4E>()) ^ shown(d.downcast_mut::<Desc4E>())),
    ("52", |d| shown(d.downcast_ref::<Desc52>()) ^ shown(d.downcast_mut::<Desc52>())),
    ("58", |d| shown(d.downcast_ref::<Desc58>()) ^ shown(d.downcast_mut::<Desc58>())),
    ("5a", |d| shown(d.downcast_ref::<Desc5A>()) ^ shown(d.downcast_mut::<Desc5A>())),
    ("83", |d| shown(d.downcast_ref::<Desc83>()) ^ shown(d.downcast_mut::<Desc83>())),
];

fn ub_as_types(cx: &mut Cx) -> Res {
    let (as_i, have) = ((cx.index % 15) as usize, (cx.index / 15) as usize);
    let r = &mut cx.r;
    let v = if have == 0 { Some(D::Raw(r.u8(), vec![1, 2, 3])) } else { gen_typed(r, TYPED[have - 1], 60) };
    let v = match v { Some(v) => v, None => return Ok(()) };
    let mut l = Descriptors::default();
    if r.coin() { v.push(&mut l, r); } else { l.parse(&v.enc()); }
    let (name, f) = AS_TYPES[as_i];
    let d = match l.get_mut(0) { Some(d) => d, None => return Ok(()) };
    match catch_unwind(AssertUnwindSafe(|| f(d))) {
        Ok(h) => { cx.count("descriptors_handed_out"); cx.seen(h); }
        Err(_) => cx.count("wrong_type_refused"),
    }
    // still usable
    let mut out = Vec::new();
    l.assemble(&mut out);
    cx.seen(crate::rng::hash_bytes(&out) ^ cx.index);
    cx.sample(|| format!("descriptor {:02x} asked for as {}", v.tag(), name));
    Ok(())
}

/// header functions on packets placed at the end of an allocation
fn ub_edges(cx: &mut Cx) -> Res {
    let r: &mut Rng = &mut cx.r;
    let mut p = r.bytes(188).into_boxed_slice();
    p[0] = 0x47;
    p[3] |= 0x30;
    p[4] = r.pick(&[0, 1, 7, 181, 182, 183, 184, 200, 255]);
    let s = format!("{:?}", ts::TsPacket::new(&p));
    utf8(&s)?;
    ts::set_pcr(&mut p, 12345);
    let mut psi = Psi::default();
    psi.mux(&p);
    psi.mux(&p);
    cx.count("edge_packets");
    cx.seen(crate::rng::hash_str(&s) ^ psi.buffer.len() as u64);
    Ok(())
}

type Slice = fn(&mut [u8]) -> u64;

/// every public function that takes a byte slice
const SLICE_FNS: &[(&str, Slice)] = &[
    ("get_u16", |b| u64::from(b.get_u16())), ("get_u24", |b| u64::from(b.get_u24())), ("get_u32", |b| u64::from(b.get_u32())),
    ("set_u16", |b| { b.set_u16(0xA1B2); 0 }), ("set_u24", |b| { b.set_u24(0xA1_B2C3); 0 }), ("set_u32", |b| { b.set_u32(0xA1B2_C3D4); 0 }),
    ("is_sync", |b| u64::from(ts::is_sync(b))), ("is_error", |b| u64::from(ts::is_error(b))), ("is_payload", |b| u64::from(ts::is_payload(b))),
    ("is_pusi", |b| u64::from(ts::is_pusi(b))), ("is_adaptation", |b| u64::from(ts::is_adaptation(b))), ("is_scrambled", |b| u64::from(ts::is_scrambled(b))),
    ("get_payload_offset", |b| u64::from(ts::get_payload_offset(b))), ("get_adaptation_size", |b| u64::from(ts::get_adaptation_size(b))),
    ("get_pid", |b| u64::from(ts::get_pid(b))), ("get_cc", |b| u64::from(ts::get_cc(b))), ("is_pcr", |b| u64::from(ts::is_pcr(b))), ("get_pcr", |b| ts::get_pcr(b)),
    ("set_pid", |b| { ts::set_pid(b, 0x1234); 0 }), ("set_cc", |b| { ts::set_cc(b, 5); 0 }), ("set_pcr", |b| { ts::set_pcr(b, 99_999_999); 0 }),
    ("set_payload_0", |b| { ts::set_payload_0(b); 0 }), ("set_payload_1", |b| { ts::set_payload_1(b); 0 }),
    ("set_pusi_0", |b| { ts::set_pusi_0(b); 0 }), ("set_pusi_1", |b| { ts::set_pusi_1(b); 0 }),
    ("packet debug", |b| format!("{:?}", ts::TsPacket::new(b)).len() as u64), ("adaptation debug", |b| format!("{:?}", ts::TsAdaptation::new(b)).len() as u64),
    ("is_prefix", |b| u64::from(pes::is_prefix(b))), ("is_syntax_spec", |b| u64::from(pes::is_syntax_spec(b))), ("get_length", |b| u64::from(pes::get_length(b))),
    ("pes offset", |b| u64::from(pes::get_payload_offset(b))), ("is_pts", |b| u64::from(pes::is_pts(b))), ("get_pts", |b| pes::get_pts(b)),
    ("is_dts", |b| u64::from(pes::is_dts(b))), ("get_dts", |b| pes::get_dts(b)),
    ("crc32b", |b| u64::from(crc32b(&b[..]))),
    ("mux", |b| { let mut p = Psi::default(); p.mux(b); p.mux(b); p.buffer.iter().map(|&x| u64::from(x)).sum() }),
    ("mux in a section", |b| { let mut p = pending(150); into_packet(b, 0); p.mux(b); p.buffer.iter().map(|&x| u64::from(x)).sum() }),
    ("mux in a header", |b| { let mut p = pending(2); into_packet(b, 0); p.mux(b); p.buffer.iter().map(|&x| u64::from(x)).sum() }),
    ("mux at a boundary", |b| { let mut p = pending(150); into_packet(b, 0x40); p.mux(b); p.mux(b); p.buffer.iter().map(|&x| u64::from(x)).sum() }),
    ("mux near the end", |b| { let mut p = pending(495); into_packet(b, 0); p.mux(b); p.buffer.iter().map(|&x| u64::from(x)).sum() }),
    ("pmt entry", |b| shown(PmtItem::parse(b))), ("nit entry", |b| shown(NitItem::parse(b))),
    ("raw", |b| shown(DescRaw::parse(b))),
    ("09", |b| u64::from(Desc09::check(b)) + shown(Desc09::parse(b))), ("0a", |b| u64::from(Desc0A::check(b)) + shown(Desc0A::parse(b))),
    ("0e", |b| u64::from(Desc0E::check(b)) + shown(Desc0E::parse(b))), ("40", |b| u64::from(Desc40::check(b)) + shown(Desc40::parse(b))),
    ("41", |b| u64::from(Desc41::check(b)) + shown(Desc41::parse(b))), ("43", |b| u64::from(Desc43::check(b)) + shown(Desc43::parse(b))),
    ("44", |b| u64::from(Desc44::check(b)) + shown(Desc44::parse(b))), ("48", |b| u64::from(Desc48::check(b)) + shown(Desc48::parse(b))),
    ("4d", |b| u64::from(Desc4D::check(b)) + shown(Desc4D::parse(b))), ("4e", |b| u64::from(Desc4E::check(b)) + shown(Desc4E::parse(b))),
    ("52", |b| u64::from(Desc52::check(b)) + shown(Desc52::parse(b))), ("58", |b| u64::from(Desc58::check(b)) + shown(Desc58::parse(b))),
    ("5a", |b| u64::from(Desc5A::check(b)) + shown(Desc5A::parse(b))), ("83", |b| u64::from(Desc83::check(b)) + shown(Desc83::parse(b))),
    ("descriptors", |b| { let mut d = Descriptors::default(); d.parse(b); shown(d) }),
    ("text", |b| shown(StringDVB::from(&b[..]))),
    ("reader buffer", |b| { let src = [0x47u8; 400]; let mut r = TsReader::new(&src[..]); r.read(b).map(|n| n as u64).unwrap_or(0) }),
    ("drain buffer", |b| { let src = [0x47u8; 400]; let mut r = TsDrain::new(TsReader::new(&src[..])); r.read(b).map(|n| n as u64).unwrap_or(0) }),
];

/// reassembler in the middle of a section of 500 bytes
fn pending(have: usize) -> Psi {
    let mut p = Psi::default();
    p.pid = 5;
    p.buffer = vec![0x42, 0xF1, 0xF1];
    p.buffer.resize(have.max(3), 7);
    p.buffer.truncate(have);
    p.size = if have >= 3 { 500 } else { 0 };
    p
}

/// continuation packet of that section, as much of it as there is
fn into_packet(b: &mut [u8], pusi: u8) {
    for (x, v) in b.iter_mut().zip([0x47, pusi, 5, 0x11]) { *x = v; }
}

fn shown<T: std::fmt::Debug>(t: T) -> u64 { crate::rng::hash_str(&format!("{:?}", t)) }

const SHORT: u64 = 24;

/// slices of every small length in allocations of exactly that length: being
/// refused (a panic) is fine, reaching beyond the end is not
fn ub_short(cx: &mut Cx) -> Res {
    let (name, f) = SLICE_FNS[(cx.index / SHORT) as usize];
    let n = (cx.index % SHORT) as usize;
    let mut sum = 0;
    let mut refused = 0;
    for round in 0..4 {
        let mut b = match round { 0 => vec![0; n], 1 => vec![0xFF; n], _ => cx.r.bytes(n) };
        if round == 3 && n > 4 { b[3] = 0x30; b[4] = n as u8; }
        let mut b = b.into_boxed_slice();
        match catch_unwind(AssertUnwindSafe(|| f(&mut b))) { Ok(v) => sum ^= v, Err(_) => refused += 1 }
        // what was written is read
        sum ^= b.iter().fold(0, |a, &x| a * 3 + u64::from(x));
    }
    cx.add("short_slices_refused", refused);
    cx.add("short_slices_served", 4 - refused);
    cx.seen(sum ^ cx.index << 40);
    cx.sample(|| format!("{} on {} bytes", name, n));
    Ok(())
}

/// sections put together by hand through the public fields: announced size
/// and buffer need not agree
fn ub_hand_built(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 18, 20, 40, 183, 184, 185, 300]);
    let mut b = r.bytes(n);
    if n > 0 { b[0] = r.pick(&[0u8, 2, 0x40, 0x42, 0x4E, 0x50, 0x70, 0x73]); }
    if n > 8 && r.coin() { b.truncate(n - 4); b = seal(b); }
    let size = match r.below(5) { 0 => n, 1 => n + r.urange(1, 5), 2 => n.saturating_sub(r.urange(1, 5)), 3 => r.urange(0, 12), _ => r.pick(&[0usize, 4096, 70_000]) };
    let mut p = Psi::default();
    p.buffer = b.into_boxed_slice().into_vec();
    p.size = size;
    p.pid = r.bits(13) as u16;
    p.cc = r.below(16) as u8;
    let mut sum = 0u64;
    let mut refused = 0;
    let ops: [fn(&mut Psi) -> u64; 13] = [
        |p| u64::from(p.check()), |p| { let c = p.clone(); u64::from(c == *p) }, |p| { let o = Psi::default(); u64::from(o == *p) },
        |p| { let mut d = Vec::new(); p.demux(&mut d); crate::rng::hash_bytes(&d) }, |p| { let k = ts::NULL_PACKET; p.mux(k); 1 },
        |p| shown(Pat::from(&*p)), |p| shown(Pmt::from(&*p)), |p| shown(Nit::from(&*p)), |p| shown(Sdt::from(&*p)), |p| shown(Eit::from(&*p)),
        |p| { let mut t = Tdt::default(); t.parse(p); shown(t) }, |p| { let mut t = Tot::default(); t.parse(p); shown(t) },
        |p| { p.finalize(); crate::rng::hash_bytes(&p.buffer) },
    ];
    for _ in 0..r.urange(2, 6) {
        let op = ops[r.idx(ops.len())];
        match catch_unwind(AssertUnwindSafe(|| op(&mut p))) { Ok(v) => sum = sum.rotate_left(5) ^ v, Err(_) => refused += 1 }
    }
    for &x in &p.buffer { sum = sum.wrapping_mul(3) + u64::from(x); }
    cx.add("hand_built_refused", refused);
    cx.count("hand_built_sections");
    cx.seen(sum ^ (n as u64) << 50);
    Ok(())
}

pub fn c02() -> Vec<Workload> {
    vec![
        sweep("short_slices", SLICE_FNS.len() as u64 * SHORT, SLICE_FNS.len() as u64 * SHORT / 4, ub_short),
        sweep("descriptor_types", 225, 225, ub_as_types),
        random("hand_built", 20_000, 600_000, 60, ub_hand_built),
        random("lying_packet_source", 20_000, 600_000, 60, ub_liar),
        random("odd_byte_source", 10_000, 300_000, 25, ub_reader),
        random("lifecycle", 10_000, 300_000, 20, ub_lifecycle),
        random("descriptor_lists", 20_000, 600_000, 40, ub_descriptors),
        random("texts", 60_000, 1_500_000, 30, ub_text),
        random("edge_packets", 20_000, 600_000, 30, ub_edges),
    ]
}
