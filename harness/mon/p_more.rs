//! C23 byte and bit access, C24 repeatability, C25 debug view of a packet,
//! C26 whole multiplex, C27 named parameters.

use crate::cx::*;
use crate::desc::*;
use crate::p_tables::gen_schedule;
use crate::refm::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::tables::*;
use crate::text::{rand_char, rand_text, PAGES};
use mpegts::bytes::Bytes;
use mpegts::constants::*;
use mpegts::es::pes;
use mpegts::psi::*;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use mpegts::set_bits;
use mpegts::textcode::{lang, StringDVB};
use mpegts::ts;
use std::fmt;
use std::io::{self, ErrorKind, Read};
use std::panic::catch_unwind;

const KINDS: [Kind; 7] = [Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot];

// ---- C23 -------------------------------------------------------------------

/// stores and loads `v` as `n` bytes at `at`, everything else keeps its value
fn word(buf: &[u8], at: usize, n: usize, v: u32) -> Res {
    let mut b = buf.to_vec();
    let mut want = buf.to_vec();
    for k in 0..n { want[at + k] = (v >> (8 * (n - 1 - k))) as u8; }
    match n { 2 => b[at..].set_u16(v as u16), 3 => b[at..].set_u24(v), _ => b[at..].set_u32(v) }
    if b != want { return Err(format!("{:x} stored as {} bytes at {}: {}", v, n, at, diff(&b, &want))); }
    let exact = at + n;
    for s in [&want[at..], &want[at..exact]] {
        let g = match n { 2 => u32::from(s.get_u16()), 3 => s.get_u24(), _ => s.get_u32() };
        if g != v { return Err(format!("{} bytes {} read as {:x}", n, hex(&want[at..exact]), g)); }
    }
    Ok(())
}

/// every 16-bit value; every 24-bit value in steps of 256 cases
fn c23_words(cx: &mut Cx) -> Res {
    let i = cx.index as u32;
    let r = &mut cx.r;
    let (before, after) = (r.urange(0, 9), r.urange(0, 9));
    let buf = r.bytes(before + 4 + after);
    word(&buf[..before + 2 + after], before, 2, i)?;
    for low in 0..256 {
        let v = i << 8 | low;
        let mut b = [0xA5, 1, 2, 3, 0x5A];
        b[1..].set_u24(v);
        if b != [0xA5, (v >> 16) as u8, (v >> 8) as u8, v as u8, 0x5A] || b[1..].get_u24() != v { return Err(format!("{:06x} stored as {}", v, hex(&b))); }
    }
    word(&buf, before, 4, i << 16 | i)?;
    word(&buf, before, 4, i)?;
    word(&buf, before, 4, !i)?;
    cx.add("words_compared", 260);
    cx.seen(cx.index);
    cx.sample(|| format!("{:04x} and all 24-bit values above it", i));
    Ok(())
}

fn c23_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.pick(&[2usize, 3, 4, 4, 4]);
    let (before, after) = match r.below(200) { 0 => (r.long(), r.urange(0, 40)), 1 => (r.urange(0, 40), r.long()), _ => (r.urange(0, 40), r.urange(0, 40)) };
    let buf = match r.below(3) { 0 => vec![0; before + n + after], 1 => vec![0xFF; before + n + after], _ => r.bytes(before + n + after) };
    let v = r.bits(8 * n as u32) as u32;
    word(&buf, before, n, v)?;
    cx.count("words_compared");
    cx.seen(u64::from(v) << 8 | (n as u64) << 4 | (before as u64) << 40);
    cx.sample(|| format!("{:x} as {} bytes between {} and {}", v, n, before, after));
    Ok(())
}

/// (widths, packing function): fields from the most significant bit down
#[allow(clippy::type_complexity)]
const PACKS: [(u32, &[u32], fn(&[u64]) -> u64); 19] = [
    (8, &[8], |f| u64::from(set_bits!(8, f[0] as u8, 8))),
    (8, &[4, 4], |f| u64::from(set_bits!(8, f[0] as u8, 4, f[1] as u8, 4))),
    (8, &[1, 7], |f| u64::from(set_bits!(8, f[0] as u8, 1, f[1] as u8, 7))),
    (8, &[7, 1], |f| u64::from(set_bits!(8, f[0] as u8, 7, f[1] as u8, 1))),
    (8, &[1, 2, 2, 1, 2], |f| u64::from(set_bits!(8, f[0] as u8, 1, f[1] as u8, 2, f[2] as u8, 2, f[3] as u8, 1, f[4] as u8, 2))),
    (8, &[3, 1, 1, 1, 2], |f| u64::from(set_bits!(8, f[0] as u8, 3, f[1] as u8, 1, f[2] as u8, 1, f[3] as u8, 1, f[4] as u8, 2))),
    (8, &[2, 3, 3], |f| u64::from(set_bits!(8, f[0] as u8, 2, f[1] as u8, 3, f[2] as u8, 3))),
    (8, &[1, 1, 1, 1, 1, 1, 1, 1], |f| u64::from(set_bits!(8, f[0] as u8, 1, f[1] as u8, 1, f[2] as u8, 1, f[3] as u8, 1, f[4] as u8, 1, f[5] as u8, 1, f[6] as u8, 1, f[7] as u8, 1))),
    (16, &[1, 5, 10], |f| u64::from(set_bits!(16, f[0] as u16, 1, f[1] as u16, 5, f[2] as u16, 10))),
    (16, &[3, 13], |f| u64::from(set_bits!(16, f[0] as u16, 3, f[1] as u16, 13))),
    (32, &[4, 28], |f| u64::from(set_bits!(32, f[0] as u32, 4, f[1] as u32, 28))),
    (32, &[8, 8, 8, 8], |f| u64::from(set_bits!(32, f[0] as u32, 8, f[1] as u32, 8, f[2] as u32, 8, f[3] as u32, 8))),
    (64, &[31, 33], |f| set_bits!(64, f[0], 31, f[1], 33)),
    (64, &[1, 62, 1], |f| set_bits!(64, f[0], 1, f[1], 62, f[2], 1)),
    // words that are not filled: the lower bits stay free
    (8, &[3, 1], |f| u64::from(set_bits!(8, f[0] as u8, 3, f[1] as u8, 1))),
    (8, &[2], |f| u64::from(set_bits!(8, f[0] as u8, 2))),
    (16, &[1, 5], |f| u64::from(set_bits!(16, f[0] as u16, 1, f[1] as u16, 5))),
    (32, &[3, 3, 20], |f| u64::from(set_bits!(32, f[0] as u32, 3, f[1] as u32, 3, f[2] as u32, 20))),
    (64, &[7, 50], |f| set_bits!(64, f[0], 7, f[1], 50)),
];

fn c23_fields(cx: &mut Cx) -> Res {
    let (size, widths, f) = PACKS[(cx.index % PACKS.len() as u64) as usize];
    for _ in 0..16 {
        let r = &mut cx.r;
        let v: Vec<u64> = widths.iter().map(|&w| match r.below(4) { 0 => 0, 1 => u64::MAX >> (64 - w), _ => r.bits(w) }).collect();
        let mut want = 0u64;
        let mut left = size;
        for (x, w) in v.iter().zip(widths) { left -= w; want |= x << left; }
        let got = catch_unwind(|| f(&v)).map_err(|_| format!("packing {:x?} into widths {:?} panicked", v, widths))?;
        if got != want { return Err(format!("{:x?} packed into widths {:?} as {:x}, want {:x}", v, widths, got, want)); }
        cx.count("bit_fields_packed");
        cx.seen(want ^ (cx.index % PACKS.len() as u64) << 59);
    }
    cx.sample(|| format!("{} bits as {:?}", size, widths));
    Ok(())
}

pub fn c23() -> Vec<Workload> {
    vec![
        sweep("words", 65536, 4, c23_words),
        random("random", 300_000, 8_000_000, 40, c23_random),
        random("bit_fields", 100_000, 3_000_000, 38, c23_fields),
    ]
}

// ---- C24 -------------------------------------------------------------------

fn any_table(r: &mut Rng) -> Tab {
    let k = r.pick(&KINDS);
    if k == Kind::Eit && r.coin() { return gen_schedule(r, 12); }
    let mut t = gen_table(r, k, false);
    if k == Kind::Eit { t.table_id = r.pick(&[0x4E, 0x4F]); t.items.truncate(2); }
    t
}

const OPS: u64 = 12;

/// one piece of library work, everything it yields folded into a fingerprint
fn op(k: u64, seed: u64) -> u64 {
    let r = &mut Rng::new(seed);
    let mut h = 0u64;
    let mut add = |x: u64| h = mix(h ^ x).wrapping_add(1);
    match k {
        0 | 1 => {
            let t = any_table(r);
            let l = Lib::build(&t, r);
            let mut cc = r.below(16) as u8;
            let mut out = Vec::new();
            l.emit(r.bits(13) as u16, &mut cc, &mut out);
            add(hash_bytes(&out));
            add(u64::from(cc));
            add(hash_str(&l.debug()));
        }
        2 => {
            let t = any_table(r);
            let mut l = Lib::empty(t.kind);
            for s in t.encode(r, t.kind.limit()) { l.parse(&psi_of(&s)); }
            add(hash_str(&l.debug()));
        }
        3 => {
            let b = crate::p_recv::hostile_loop(r);
            let mut l = Descriptors::default();
            l.parse(&b);
            let mut out = Vec::new();
            l.assemble(&mut out);
            add(hash_bytes(&out));
            add(hash_str(&format!("{:?}", l.clone())));
            add(l.size() as u64);
        }
        4 => {
            let n = r.urange(0, 60);
            let mut b = r.bytes(n);
            if n > 0 { b[0] = r.below(0x30) as u8; }
            let s = StringDVB::from(&b[..]);
            add(hash_str(&s.to_string()));
            let mut t = s.clone();
            t.truncate(r.urange(0, 20));
            add(hash_bytes(t.as_bytes()));
            for p in s.split(r.urange(4, 30)) { add(hash_bytes(p.as_bytes())); }
        }
        5 => {
            let n = r.urange(0, 40);
            let s: String = (0..n).map(|_| rand_char(r)).collect();
            let s = StringDVB::from_str(&s, r.pick(&PAGES));
            add(hash_bytes(s.as_bytes()));
            let mut v = Vec::new();
            s.assemble_sized(&mut v);
            add(hash_bytes(&v));
            add(hash_str(&format!("{:?}", s)));
        }
        6 => {
            let mut p = Psi::default();
            let secs: Vec<Vec<u8>> = (0..3).map(|_| { let n = r.urange(8, 600); rand_section(r, n) }).collect();
            let (mut pk, _, _) = cut(r, &secs, 9, 3, CutOpts { af: 3, idle: 2, join: 8 });
            if r.coin() && pk.len() > 1 { let i = r.idx(pk.len()); pk.remove(i); }
            for x in &pk { p.mux(&x[..]); add(u64::from(p.check())); add(p.size as u64); add(hash_bytes(&p.buffer)); }
            add(u64::from(p == p.clone()));
        }
        7 => {
            let n = if r.one_in(8) { r.urange(300, 4096) } else { r.urange(0, 300) };
            let b = r.bytes(n);
            add(u64::from(crc32b(&b)));
            for _ in 0..4 { add(u64::from(r.below(400_000_000).to_mjd())); }
            add((r.below(60000) as u16).from_mjd());
            add(u64::from((r.below(86400) as u32).to_bcd_time()));
            add(hash_str(&format!("{:?}", lang::convert(r.pick(&["ru", "rus", "de", "ger", "deu", "xx", "eng", "fr"])))));
        }
        8 => {
            let mut p = r.bytes(188);
            p[3] |= 0x20;
            p[4] = r.range(7, 183) as u8;
            add(hash_str(&format!("{:?}", ts::TsPacket::new(&p))));
            add(ts::get_pcr(&p));
            add(u64::from(ts::is_pcr(&p)));
            add(pes::get_pts(&p));
            add(pes::get_dts(&p));
            let (a, b) = (r.below(ts::PCR_NONE), r.below(ts::PCR_NONE));
            add(ts::pcr_delta(a, b));
            ts::set_pcr(&mut p, a);
            add(hash_bytes(&p));
        }
        9 => {
            let mut d = Vec::new();
            for _ in 0..r.urange(0, 3) { let n = r.urange(0, 90); let j = r.bytes(n); d.extend_from_slice(&j); let mut p = r.bytes(188); p[0] = 0x47; d.extend_from_slice(&p); }
            let mut rd = TsReader::new(&d[..]);
            let mut b = [0u8; 188];
            while let Ok(188) = TsRead::read(&mut rd, &mut b) { add(hash_bytes(&b)); }
        }
        10 => {
            let n = r.urange(1, 20);
            let mut p = Psi::new(r.u8(), 8 + n, r.bits(5) as u8);
            let x = r.bytes(n);
            p.buffer[8..].copy_from_slice(&x);
            p.finalize();
            p.pid = r.bits(13) as u16;
            p.cc = r.below(16) as u8;
            let mut out = Vec::new();
            p.demux(&mut out);
            add(hash_bytes(&out));
        }
        _ => {
            let v = gen_list(r, 200);
            let l = build(&v, r);
            let i = PmtItem { stream_type: r.pick(&[5, 6, 2, 3, 0x81]), pid: 5, descriptors: l };
            add(hash_str(&format!("{:?} {:?}", i.get_stream_type(), i)));
        }
    }
    h
}

/// the same work yields the same result whatever was done before and whatever
/// goes on in other threads
fn c24_history(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let jobs: Vec<(u64, u64)> = (0..r.urange(2, 8)).map(|_| (r.below(OPS), r.u64())).collect();
    let first: Vec<u64> = jobs.iter().map(|&(k, s)| op(k, s)).collect();
    for &(k, s) in jobs.iter().rev() {
        let i = match jobs.iter().position(|&j| j == (k, s)) { Some(i) => i, None => continue };
        if op(k, s) != first[i] { return Err(format!("work {} of seed {:x} gave another result the second time, after {:?}", k, s, jobs)); }
        // unrelated work in between
        let (k2, s2) = (cx.r.below(OPS), cx.r.u64());
        op(k2, s2);
        if op(k, s) != first[i] { return Err(format!("work {} of seed {:x} gave another result after unrelated work", k, s)); }
        cx.count("work_repeated");
    }
    for f in &first { cx.seen(*f); }
    cx.sample(|| format!("{} pieces of work repeated", jobs.len()));
    Ok(())
}

fn c24_threads(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let jobs: Vec<(u64, u64)> = (0..r.urange(6, 24)).map(|_| (r.below(OPS), r.u64())).collect();
    let want: Vec<u64> = jobs.iter().map(|&(k, s)| op(k, s)).collect();
    let n = jobs.len();
    let res: Vec<std::thread::Result<Vec<u64>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4usize).map(|t| {
            let jobs = &jobs;
            // each thread in an order of its own
            sc.spawn(move || (0..n).map(|i| { let (k, s) = jobs[(i * [1, 5, 7, 11][t] + t * 3) % n]; op(k, s) }).collect::<Vec<_>>())
        }).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (t, x) in res.into_iter().enumerate() {
        let x = x.map_err(|_| "work that succeeds alone panicked beside other threads".to_string())?;
        for (i, g) in x.iter().enumerate() {
            let j = (i * [1, 5, 7, 11][t] + t * 3) % n;
            if *g != want[j] { return Err(format!("work {} of seed {:x} gave another result beside other threads", jobs[j].0, jobs[j].1)); }
            cx.count("work_done_in_parallel");
        }
    }
    for f in &want { cx.seen(*f); }
    cx.sample(|| format!("{} pieces of work in four threads", n));
    Ok(())
}

type Job = Box<dyn Fn() -> u64 + Sync>;

/// a piece of library work with everything else prepared beforehand
fn job(r: &mut Rng) -> Job {
    match r.below(9) {
        0 | 1 => { let n = r.pick(&[4usize, 20, 200, 1020, 3000, 4092]); let b = r.bytes(n); Box::new(move || u64::from(crc32b(&b))) }
        2 | 3 => {
            let t = any_table(r);
            let secs: Vec<Psi> = t.encode(r, t.kind.limit()).iter().map(|s| psi_of(s)).collect();
            Box::new(move || { let mut l = Lib::empty(t.kind); for s in &secs { l.parse(s); } hash_str(&l.debug()) })
        }
        4 => { let n = r.urange(1, 60); let mut b = r.bytes(n); b[0] = r.below(0x30) as u8; Box::new(move || hash_str(&StringDVB::from(&b[..]).to_string())) }
        5 => {
            let n = r.urange(1, 40);
            let s: String = (0..n).map(|_| rand_char(r)).collect();
            let cp = r.pick(&PAGES);
            Box::new(move || { let x = StringDVB::from_str(&s, cp); let mut v = Vec::new(); x.assemble_sized(&mut v); hash_bytes(&v) })
        }
        6 => { let s = r.pick(&["ru", "rus", "de", "ger", "deu", "xx", "eng", "fr", "zh", "chi"]); Box::new(move || hash_str(&format!("{:?}", lang::convert(s)))) }
        7 => { let b = crate::p_recv::hostile_loop(r); Box::new(move || { let mut l = Descriptors::default(); l.parse(&b); let mut out = Vec::new(); l.assemble(&mut out); hash_bytes(&out) }) }
        _ => { let (k, s) = (r.below(OPS), r.u64()); Box::new(move || op(k, s)) }
    }
}

/// in a fresh process: several threads do the same work for the first time at
/// the same moment; all must agree with each other and with doing it once more
pub fn cold(seed: u64) -> Res {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let mut r = Rng::new(seed);
    let n = r.urange(1, 4);
    let jobs: Vec<Job> = (0..n).map(|_| job(&mut r)).collect();
    const T: usize = 6;
    let gates: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let res: Vec<Vec<Option<u64>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..T).map(|_| {
            let (jobs, gates) = (&jobs, &gates);
            sc.spawn(move || (0..n).map(|i| {
                gates[i].fetch_add(1, Ordering::SeqCst);
                let mut spins = 0u32;
                while gates[i].load(Ordering::SeqCst) < T { spins += 1; if spins > 2000 { std::thread::yield_now(); } }
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jobs[i]())).ok()
            }).collect::<Vec<_>>())
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (i, j) in jobs.iter().enumerate() {
        // (work that panics on its own is judged elsewhere)
        let want = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j())) { Ok(w) => w, Err(_) => continue };
        for x in &res {
            match x.get(i) {
                Some(Some(g)) if *g == want => {}
                Some(Some(_)) => return Err(format!("work {} of seed {:x} gave another result when threads did it for the first time together", i, seed)),
                _ => return Err(format!("work {} of seed {:x} panicked when threads did it for the first time together", i, seed)),
            }
        }
    }
    Ok(())
}

fn c24_cold(cx: &mut Cx) -> Res {
    let seed = cx.r.u64();
    let exe = std::env::current_exe().expect("own executable");
    for _ in 0..3 {
        let o = std::process::Command::new(&exe).arg("--cold").arg(seed.to_string()).output().expect("fresh process");
        let s = String::from_utf8_lossy(&o.stdout).into_owned();
        match s.lines().next() {
            Some("OK") => {}
            Some(l) if l.starts_with("VIOLATED ") => return Err(l["VIOLATED ".len()..].to_string()),
            _ => panic!("a fresh process ended without a result: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)),
        }
        cx.count("fresh_processes");
    }
    cx.seen(seed);
    cx.sample(|| format!("first use in six threads, seed {:x}", seed));
    Ok(())
}

/// library work on plain bytes
const BYTE_WORK: [(&str, fn(&[u8]) -> u64); 10] = [
    ("checksum", |b| u64::from(crc32b(b))),
    ("descriptors", |b| { let mut l = Descriptors::default(); l.parse(b); let mut o = Vec::new(); l.assemble(&mut o); hash_bytes(&o) ^ hash_str(&format!("{:?}", l)) }),
    ("text", |b| { let s = StringDVB::from(b); hash_str(&s.to_string()) ^ s.split(9).iter().fold(0, |a, p| mix(a ^ hash_bytes(p.as_bytes()))) }),
    ("characters", |b| { let s: String = b[1..].iter().map(|&c| c as char).collect(); let s = StringDVB::from_str(&s, PAGES[b[0] as usize % PAGES.len()]); hash_bytes(s.as_bytes()) ^ u64::from(s.get_codepage()) }),
    ("section", |b| {
        let mut s = b.to_vec();
        s[0] = [0, 2, 0x40, 0x42, 0x4E, 0x73][b[0] as usize % 6];
        s[1] = 0xF0;
        let s = seal(s);
        KINDS.iter().fold(0, |a, &k| mix(a ^ hash_str(&Lib::from_psi(k, &psi_of(&s)).debug())))
    }),
    ("checked section", |b| { let mut p = Psi::default(); p.buffer = b.to_vec(); p.size = b.len(); let ok = p.check(); p.finalize(); u64::from(ok) ^ hash_bytes(&p.buffer) }),
    ("reassembly", |b| {
        let mut p = Psi::default();
        for (i, c) in b.chunks(180).enumerate() {
            let mut x = vec![0x47, if i == 0 { 0x40 } else { 0 }, 9, 0x10 | i as u8];
            if i == 0 { x.push(0); }
            x.extend_from_slice(c);
            x.resize(188, 0xFF);
            p.mux(&x);
        }
        hash_bytes(&p.buffer) ^ p.size as u64
    }),
    ("packet", |b| { let mut p = b.to_vec(); p.resize(188, 3); hash_str(&format!("{:?}", ts::TsPacket::new(&p))) ^ ts::get_pcr(&p) ^ pes::get_pts(&p) }),
    ("packet source", |b| { let mut d = b.to_vec(); d.extend_from_slice(&[1; 400]); let mut rd = TsReader::new(&d[..]); let mut x = [0u8; 188]; let n = TsRead::read(&mut rd, &mut x); hash_bytes(&x) ^ n.unwrap_or(7) as u64 }),
    ("language", |b| { let c = |i: usize| (b'a' + b[i] % 26) as char; let s: String = (0..2 + b[4] as usize % 2).map(c).collect(); hash_str(&format!("{:?}", lang::convert(&s))) }),
];

/// inputs that differ in one byte, in the very same place in memory: neither
/// result is taken for the other
fn c24_neighbours(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let (name, f) = BYTE_WORK[(cx.index % BYTE_WORK.len() as u64) as usize];
    let n = match r.below(3) { 0 => r.urange(8, 40), 1 => r.urange(40, 200), _ => r.urange(100, 900) };
    let mut b = match r.below(3) { 0 => crate::p_recv::hostile_loop(r), 1 => vec![0x41; n], _ => r.bytes(n) };
    b.resize(n.max(8), 0x41);
    if name == "text" && r.coin() { b[0] = r.pick(&[1, 2, 3, 5, 9, 11, 0x15, 0x41]); }
    let (i, bit) = (if r.one_in(3) { r.idx(8) } else { r.idx(b.len()) }, 1 << r.below(8));
    let m = r.urange(8, 900);
    let (u, v) = (r.bytes(m), r.bytes(m));
    f(&u);
    let one = f(&b);
    f(&v);
    b[i] ^= bit;
    let two = f(&b);
    b[i] ^= bit;
    if f(&b) != one { return Err(format!("{}: {} gives another result after the same with byte {} changed by {:02x}", name, hex(&b), i, bit)); }
    b[i] ^= bit;
    if f(&b) != two { return Err(format!("{}: {} gives another result after the same with byte {} changed by {:02x}", name, hex(&b), i, bit)); }
    cx.count(if one == two { "neighbours_alike" } else { "neighbours_different" });
    cx.seen(one ^ two.rotate_left(9));
    cx.sample(|| format!("{} of {} bytes, byte {} changed", name, b.len(), i));
    Ok(())
}

/// tables that differ in one field
fn c24_variants(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let t = any_table(r);
    let mut u = t.clone();
    match r.below(5) {
        0 if !matches!(t.kind, Kind::Tdt | Kind::Tot) => u.version ^= 1 << r.below(5),
        1 if !matches!(t.kind, Kind::Tdt | Kind::Tot) => u.ext ^= 1 << r.below(16),
        2 if !u.items.is_empty() => { let i = r.idx(u.items.len()); u.items[i].id ^= 1 << r.below(8); }
        3 if !u.items.is_empty() && t.kind != Kind::Pat => { let i = r.idx(u.items.len()); u.items[i].desc = if u.items[i].desc.is_empty() { vec![D::X52(r.u8())] } else { vec![] }; }
        _ if t.kind.has_desc() => u.desc = if u.desc.is_empty() { vec![D::X52(r.u8())] } else { vec![] },
        _ => {}
    }
    let (pid, cc0, seed) = (r.bits(13) as u16, r.below(16) as u8, r.u64());
    let work = |t: &Tab| { let l = Lib::build(t, &mut Rng::new(seed)); let (mut o, mut c) = (Vec::new(), cc0); l.emit(pid, &mut c, &mut o); (o, c, hash_str(&l.debug())) };
    let one = work(&t);
    op(r.below(OPS), r.u64());
    let two = work(&u);
    if work(&t) != one || work(&u) != two { return Err(format!("{:?}: emitted differently after a table that differs in one field", t.kind)); }
    cx.count(if one == two { "variants_alike" } else { "variants_different" });
    cx.seen_bytes(&two.0);
    Ok(())
}

/// emitting leaves the table and what the buffer held alone
fn c24_emit(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let t = any_table(r);
    let l = Lib::build(&t, r);
    let before = l.debug();
    let pid = r.bits(13) as u16;
    let cc0 = r.below(16) as u8;
    let (mut one, mut cc) = (Vec::new(), cc0);
    l.emit(pid, &mut cc, &mut one);
    let n = match r.below(4) { 0 => 0, 1 => r.urange(1, 187), 2 => 188, _ => r.urange(1, 1000) };
    let prefix = r.bytes(n);
    let mut two = prefix.clone();
    if r.coin() { two.reserve(r.urange(0, 4000)); }
    let mut cc2 = cc0;
    if r.coin() { op(0, r.u64()); }
    l.emit(pid, &mut cc2, &mut two);
    if two.len() < n || two[..n] != prefix[..] { return Err(format!("{:?}: bytes already in the buffer were changed", t.kind)); }
    if two[n..] != one[..] || cc2 != cc { return Err(format!("{:?} emitted again: {}", t.kind, diff(&two[n..], &one))); }
    if l.debug() != before { return Err(format!("{:?} changed by emitting it", t.kind)); }
    l.same(&t).map_err(|e| format!("{:?} changed by emitting it: {}", t.kind, e))?;
    // behind its own packets, from the same and from the following counter
    for again in [cc0, cc] {
        let (mut twice, mut c) = (one.clone(), again);
        l.emit(pid, &mut c, &mut twice);
        let mut want = one.clone();
        want.extend_from_slice(&one);
        for (i, p) in want[one.len()..].chunks_mut(188).enumerate() { p[3] = p[3] & 0xF0 | (again + (i % 16) as u8) & 15; }
        if twice != want { return Err(format!("{:?} emitted again behind its own packets: {}", t.kind, diff(&twice, &want))); }
    }
    // another counter and PID change nothing but counter and PID
    let (cc1, pid1) = (r.below(16) as u8, r.bits(13) as u16);
    let (mut three, mut c3) = (Vec::new(), cc1);
    l.emit(pid1, &mut c3, &mut three);
    let mut want = one.clone();
    for (i, p) in want.chunks_mut(188).enumerate() {
        p[1] = p[1] & 0xE0 | (pid1 >> 8) as u8;
        p[2] = pid1 as u8;
        p[3] = p[3] & 0xF0 | (cc1 + (i % 16) as u8) & 15;
    }
    if three != want { return Err(format!("{:?} on another PID from another counter: {}", t.kind, diff(&three, &want))); }
    cx.count("tables_emitted_again");
    cx.seen_bytes(&one);
    cx.sample(|| format!("{:?} in {} bytes", t.kind, one.len()));
    Ok(())
}

/// reading leaves the section alone, and its copy is independent
fn c24_sections(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let t = any_table(r);
    let secs = t.encode(r, t.kind.limit());
    let s = &secs[r.idx(secs.len())];
    let mut p = psi_of(s);
    p.pid = r.bits(13) as u16;
    p.cc = r.below(16) as u8;
    if r.coin() { let n = r.urange(1, 184); let x = r.bytes(n); p.buffer.extend_from_slice(&x); }
    let keep = (p.buffer.clone(), p.size, p.pid, p.cc);
    let a = Lib::from_psi(t.kind, &p).debug();
    for k in KINDS { let _ = Lib::from_psi(k, &p); }
    let _ = (p.check(), p == Psi::default());
    let mut c = p.clone();
    if (c.buffer.clone(), c.size, c.pid, c.cc) != keep || c != p || c.check() != p.check() { return Err("a copied section differs from the original".into()); }
    // what is done to the copy stays there
    let n = r.urange(8, 400);
    let other = rand_section(r, n);
    let (pk, _, _) = cut(r, &[other], 1, 0, CutOpts { af: 0, idle: 0, join: 0 });
    for x in &pk { c.mux(&x[..]); }
    c.buffer.iter_mut().for_each(|b| *b ^= 0xFF);
    if (p.buffer.clone(), p.size, p.pid, p.cc) != keep { return Err("a section was changed by reading it or by work on its copy".into()); }
    let b = Lib::from_psi(t.kind, &p).debug();
    if a != b { return Err(format!("{:?} section read differently the second time", t.kind)); }
    cx.count("sections_reread");
    cx.seen_bytes(s);
    Ok(())
}

/// two reassemblers fed the same packets one after the other, or in step, end
/// up alike; a third fed in between does not matter
fn c24_receivers(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut secs = Vec::new();
    for _ in 0..r.urange(1, 3) { let n = match r.below(3) { 0 => r.urange(8, 60), 1 => r.urange(100, 400), _ => r.urange(400, 1500) }; secs.push(rand_section(r, n)); }
    let (pid, cc0) = (r.bits(13) as u16, r.below(16) as u8);
    let (mut pk, _, _) = cut(r, &secs, pid, cc0, CutOpts { af: 3, idle: 3, join: 2 });
    if r.one_in(4) { let i = r.idx(pk.len()); let p = pk[i]; pk.insert(i, p); }
    let seen = |p: &Psi| (p.buffer.clone(), p.size, p.check());
    let mut alone = Psi::default();
    let mut want = Vec::new();
    for p in &pk { alone.mux(&p[..]); want.push(seen(&alone)); }
    let mut l: Vec<Psi> = (0..r.urange(2, 3)).map(|_| Psi::default()).collect();
    for (p, w) in pk.iter().zip(&want) {
        for (i, x) in l.iter_mut().enumerate() {
            x.mux(&p[..]);
            if seen(x) != *w { return Err(format!("receiver {} fed packet {} in step with others holds {} bytes of {}, alone {} of {}", i, hex(&p[..]), x.buffer.len(), x.size, w.0.len(), w.1)); }
        }
    }
    cx.add("packets_in_step", pk.len() as u64);
    cx.seen_bytes(&secs[0]);
    cx.sample(|| format!("{} packets into {} receivers in step", pk.len(), l.len()));
    Ok(())
}

/// texts: equal exactly when table and bytes agree; measuring, displaying and
/// emitting change nothing
fn c24_texts(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut t = rand_text(r, 60);
    // now and then longer than any field, with the difference anywhere
    if !t.data.is_empty() && r.one_in(16) {
        let n = r.urange(1, if cfg!(miri) { 2 } else { 40 });
        t.data = t.data.repeat(n);
    }
    if t.data.is_empty() { t.cp = r.pick(&PAGES); }
    let a = if t.data.is_empty() { StringDVB::from_str("", t.cp) } else { t.lib(r) };
    let u = if r.one_in(4) && t.cp != 21 { let mut u = t.clone(); u.cp = loop { let p = r.pick(&PAGES); if p != 21 && p != t.cp { break p; } }; u } else if r.coin() { t.clone() } else if r.coin() && !t.data.is_empty() { let mut u = t.clone(); let i = r.idx(u.data.len()); u.data[i] = if u.data[i] == b'x' { b'y' } else { b'x' }; u } else { rand_text(r, 60) };
    // (from bytes: the bytes of one table need not be assigned in the other)
    let b = if u.data.is_empty() { StringDVB::from_str("", u.cp) } else { StringDVB::from(&u.enc()[..]) };
    if !u.data.is_empty() && (b.get_codepage() != u.cp || b.as_bytes() != &u.data[..]) { return Err(format!("text {} of table {} read as {:?}", hex(&u.data), u.cp, b)); }
    // what another text showed before does not matter
    for (x, m) in [(&a, &t), (&b, &u), (&a, &t)] {
        let s = x.to_string();
        if s != m.show() { return Err(format!("text {} of table {} shows {:?}, want {:?}", hex(&m.data), m.cp, s, m.show())); }
    }
    let mut c = a.clone();
    if c.get_codepage() != a.get_codepage() || c.as_bytes() != a.as_bytes() { return Err(format!("copy of {:?} is {:?}", a, c)); }
    let (d, x) = (a.to_string(), format!("{:?}", a));
    let mut o = Vec::new();
    a.assemble(&mut o);
    a.assemble_sized(&mut o);
    let _ = (a.size(), a.is_empty(), a.split(9));
    let want = a.get_codepage() == b.get_codepage() && a.as_bytes() == b.as_bytes();
    if (a == b) != want || (b == a) != want { return Err(format!("{:?} and {:?} compare {} / {}", a, b, a == b, b == a)); }
    if c != a { return Err(format!("copy of {:?} differs", a)); }
    c.truncate(r.urange(0, 10));
    if a.to_string() != d || format!("{:?}", a) != x { return Err(format!("text {:?} changed by measuring, displaying or emitting it", d)); }
    if a.as_bytes() != &t.data[..] { return Err(format!("text {} changed to {}", hex(&t.data), hex(a.as_bytes()))); }
    cx.count(if want { "equal_texts" } else { "different_texts" });
    cx.seen_bytes(&o);
    Ok(())
}

pub fn c24() -> Vec<Workload> {
    vec![
        random("emit_again", 40_000, 1_200_000, 8, c24_emit),
        random("read_again", 40_000, 1_200_000, 8, c24_sections),
        random("texts", 60_000, 1_500_000, 10, c24_texts),
        random("in_step", 20_000, 600_000, 4, c24_receivers),
        random("neighbours", 60_000, 2_000_000, 10, c24_neighbours),
        random("variants", 15_000, 400_000, 3, c24_variants),
        random("history", 25_000, 800_000, 4, c24_history),
        random("threads", 3_000, 60_000, 1, c24_threads),
        random("first_use", 100, 2_000, 0, c24_cold),
    ]
}

// ---- C25 -------------------------------------------------------------------

struct RefAdaptation<'a>(&'a [u8]);
struct RefPacket<'a>(&'a [u8]);

impl fmt::Debug for RefAdaptation<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let p = self.0;
        if p[3] & 0x20 == 0 { return write!(f, "false"); }
        let mut s = f.debug_struct("TsAdaptation");
        s.field("length", &p[4]);
        if p[4] == 0 { return s.finish(); }
        for (i, n) in ["discontinuity", "random_access", "es_priority", "PCR_flag", "OPCR_flag", "splicing_point", "private_data", "af_extension"].iter().enumerate() {
            s.field(n, &(p[5] >> (7 - i) & 1 == 1));
        }
        if p[5] & 0x10 != 0 {
            let w = p[6..12].iter().fold(0u64, |a, &b| a << 8 | u64::from(b));
            s.field("pcr", &((w >> 15) * 300 + (w & 0x1FF)));
        }
        s.finish()
    }
}

impl fmt::Debug for RefPacket<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let p = self.0;
        f.debug_struct("TsPacket")
            .field("sync", &(p[0] == 0x47))
            .field("error", &(p[1] >> 7))
            .field("pusi", &(p[1] & 0x40 != 0))
            .field("pid", &(u16::from(p[1]) << 8 & 0x1F00 | u16::from(p[2])))
            .field("scrambling", &(p[3] >> 6))
            .field("adaptation", &RefAdaptation(p))
            .field("payload", &(p[3] & 0x10 != 0))
            .field("cc", &(p[3] & 0x0F))
            .finish()
    }
}

fn shown(cx: &mut Cx, p: &[u8]) -> Res {
    let keep = p.to_vec();
    for pretty in [false, true] {
        let fm = |a: &dyn fmt::Debug| if pretty { format!("{:#?}", a) } else { format!("{:?}", a) };
        let (g, w) = (fm(&ts::TsPacket::new(p)), fm(&RefPacket(p)));
        if g != w { return Err(format!("packet {} shown as {}, want {}", hex(&p[..12]), g, w)); }
        let (g, w) = (fm(&ts::TsAdaptation::new(p)), fm(&RefAdaptation(p)));
        if g != w { return Err(format!("adaptation field {} shown as {}, want {}", hex(&p[3..12]), g, w)); }
    }
    if keep != p { return Err("showing a packet changed it".into()); }
    cx.count("packets_shown");
    Ok(())
}

/// every value of the flag bytes
fn c25_flags(cx: &mut Cx) -> Res {
    let (b1, b3) = ((cx.index % 256) as u8, (cx.index / 256) as u8);
    for len in [0u8, 1, 7, 183] {
        let r = &mut cx.r;
        let mut p = r.packet();
        p[0] = if r.one_in(3) { r.u8() } else { 0x47 };
        p[1] = b1;
        p[3] = b3;
        p[4] = len;
        if len < 7 { p[5] &= 0xEF; }
        shown(cx, &p)?;
        cx.seen_bytes(&p[..12]);
    }
    cx.sample(|| format!("flag bytes {:02x} {:02x}", b1, b3));
    Ok(())
}

/// every adaptation size with every set of adaptation flags
fn c25_adaptation(cx: &mut Cx) -> Res {
    let len = (cx.index % 184) as u8;
    let flags = (cx.index / 184) as u8;
    let r = &mut cx.r;
    let mut p = r.packet();
    p[0] = 0x47;
    p[3] |= 0x20;
    p[4] = len;
    p[5] = if len < 7 { flags & 0xEF } else { flags };
    for v in 0..3 {
        match v { 0 => p[6..12].fill(0), 1 => p[6..12].fill(0xFF), _ => { let x = cx.r.bytes(6); p[6..12].copy_from_slice(&x); } }
        shown(cx, &p)?;
        cx.seen_bytes(&p[..12]);
    }
    cx.sample(|| format!("adaptation field of {} bytes with flags {:02x}", len, flags));
    Ok(())
}

/// longer buffers, packets the library itself has written
fn c25_written(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut p = vec![0xFFu8; 188];
    p[0] = 0x47;
    p[1] = r.u8() & 0xA0;
    p[3] = r.u8();
    let (pid, cc) = (r.bits(13) as u16, r.below(16) as u8);
    ts::set_pid(&mut p, pid);
    ts::set_cc(&mut p, cc);
    if r.coin() { ts::set_pusi_1(&mut p); } else { ts::set_pusi_0(&mut p); }
    if r.coin() { ts::set_payload_1(&mut p); } else { ts::set_payload_0(&mut p); }
    if p[3] & 0x20 != 0 {
        p[4] = r.range(7, 183) as u8;
        p[5] = r.u8() | 0x10;
        let v = r.edge(ts::PCR_MAX);
        ts::set_pcr(&mut p, v);
        if r.coin() { let n = r.urange(1, 400); let x = r.bytes(n); p.extend_from_slice(&x); }
    }
    shown(cx, &p)?;
    cx.seen_bytes(&p[..12]);
    cx.sample(|| format!("PID {} counter {}", pid, cc));
    Ok(())
}

pub fn c25() -> Vec<Workload> {
    vec![
        sweep("flags", 65536, 4, c25_flags),
        sweep("adaptation", 184 * 256, 4, c25_adaptation),
        random("written", 60_000, 2_000_000, 10, c25_written),
        random("debug", 60_000, 2_000_000, 15, crate::p_hdr::c18_debug),
    ]
}

// ---- C26 -------------------------------------------------------------------

/// byte source with changing read sizes and interruptions
#[derive(Debug)]
struct Bits { data: Vec<u8>, pos: usize, sizes: Vec<usize>, at: usize, calls: u64 }

impl Read for Bits {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 4_000_000 { violation_panic("byte source polled endlessly"); }
        let n = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if n == 0 { return Err(io::Error::new(ErrorKind::Interrupted, "again")); }
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn sizes(r: &mut Rng) -> Vec<usize> {
    let n = r.urange(1, 6);
    let mut v: Vec<usize> = (0..n).map(|_| match r.below(5) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => r.pick(&[187, 188, 189]), _ => r.urange(1, 400) }).collect();
    if v.iter().all(|&x| x == 0) { v.push(3); }
    v
}

/// now and then one of many sections
fn any_size(r: &mut Rng) -> Tab {
    if cfg!(miri) || !r.one_in(12) { return any_table(r); }
    let k = r.pick(&[Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt]);
    if r.one_in(5) { gen_huge(r, k) } else { gen_table(r, k, true) }
}

/// tables on several PIDs, rounds of new versions, packet by packet
/// interleaved with other traffic, through the readers and back
fn c26_multiplex(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 5);
    let mut pids: Vec<u16> = Vec::new();
    while pids.len() < n { let p = match r.below(3) { 0 => r.below(0x20) as u16, 1 => r.range(0x20, 0x1FFE) as u16, _ => r.pick(&[0u16, 0x10, 0x11, 0x12, 0x14, 0x100, 0x1FFE]) }; if !pids.contains(&p) { pids.push(p); } }
    // per PID: tables in the order they are sent, and their packets
    let mut tabs: Vec<Vec<Tab>> = Vec::new();
    let mut queue: Vec<Vec<Vec<u8>>> = Vec::new();
    for &pid in &pids {
        let mut cc = r.below(16) as u8;
        let mut ts = Vec::new();
        let mut out = Vec::new();
        for _ in 0..r.urange(1, 4) {
            let t = any_size(r);
            // (a guide without events has no sections)
            if t.kind == Kind::Eit && t.items.is_empty() { continue; }
            let l = Lib::build(&t, r);
            l.emit(pid, &mut cc, &mut out);
            ts.push(t);
        }
        if out.len() % 188 != 0 { return Err(format!("{} bytes emitted", out.len())); }
        tabs.push(ts);
        queue.push(out.chunks(188).map(|c| c.to_vec()).rev().collect());
    }
    // interleave
    let mut data = Vec::new();
    let mut total = 0;
    let junk = r.one_in(3);
    while queue.iter().any(|q| !q.is_empty()) {
        let i = r.idx(n);
        if let Some(p) = queue[i].pop() { data.extend_from_slice(&p); total += 1; }
        match r.below(8) {
            0 => { data.extend_from_slice(ts::NULL_PACKET); total += 1; }
            1 => {
                // somebody else's packet
                let pid = loop { let p = r.bits(13) as u16; if !pids.contains(&p) { break p; } };
                let x = r.bytes(184);
                let (cc, pusi) = (r.below(16) as u8, r.coin());
                let p = pkt(r, PktSpec { pid, cc, pusi, payload: true, af: None }, &x);
                data.extend_from_slice(&p);
                total += 1;
            }
            2 if junk => { let k = r.urange(1, 30); data.extend(r.bytes(k).into_iter().map(|b| if b == 0x47 { 0x48 } else { b })); }
            _ => {}
        }
    }
    let len = data.len();
    let s = sizes(r);
    let src = TsReader::new(Bits { data, pos: 0, sizes: s, at: 0, calls: 0 });
    // directly, or once more through the byte view of the packets
    let twice = r.coin();
    let mut rd: Box<dyn TsRead> = if twice { Box::new(TsReader::new(TsDrain::new(src))) } else { Box::new(src) };
    let mut psi: Vec<Psi> = pids.iter().map(|_| Psi::default()).collect();
    let mut got: Vec<Vec<Lib>> = pids.iter().map(|_| Vec::new()).collect();
    let mut left: Vec<usize> = vec![0; n];
    let mut packets = 0;
    let mut b = [0u8; 188];
    loop {
        match rd.read(&mut b) {
            Ok(188) => {}
            Ok(0) => break,
            x => return Err(format!("packet read gave {:?}", x)),
        }
        packets += 1;
        if packets > total { break; }
        let i = match pids.iter().position(|&p| p == ts::get_pid(&b)) { Some(i) => i, None => continue };
        psi[i].mux(&b);
        // (time sections carry no checksum)
        let time = psi[i].size == 8 && psi[i].buffer.len() >= 8 && psi[i].buffer[0] == 0x70;
        if !psi[i].check() && !time { continue; }
        // sections of one table follow each other; the first of the next one
        // comes when the last number has been seen
        if left[i] == 0 {
            let k = match tabs[i].get(got[i].len()) { Some(t) => t.kind, None => return Err(format!("PID {}: more tables than sent", pids[i])) };
            got[i].push(Lib::empty(k));
            left[i] = sections(&tabs[i][got[i].len() - 1], &psi[i].buffer);
        }
        left[i] = left[i].saturating_sub(1);
        if let Some(l) = got[i].last_mut() { l.parse(&psi[i]); }
        cx.count("sections_read_back");
    }
    if packets != total { return Err(format!("{} packets read of {} sent", packets, total)); }
    for i in 0..n {
        if got[i].len() != tabs[i].len() {
            let t = &tabs[i][got[i].len()];
            return Err(format!("PID {}: {} tables read back of {}, next {:?} of {} sections and {} items", pids[i], got[i].len(), tabs[i].len(), t.kind, sections(t, &[]), t.items.len()));
        }
        for (l, t) in got[i].iter().zip(&tabs[i]) {
            let mut want = t.clone();
            // (a schedule is read back under the id of its last sub-table)
            if let (Lib::Eit(x), Kind::Eit) = (l, t.kind) { if t.table_id >= 0x50 && x.table_id & 0xF0 == t.table_id & 0xF0 { want.table_id = x.table_id; } }
            l.same(&want).map_err(|e| format!("PID {} among {}: {:?} {}", pids[i], n, t.kind, e))?;
            cx.count("tables_read_back");
        }
    }
    cx.add("packets_read_back", packets);
    cx.seen(mix(len as u64 ^ cx.index << 32));
    cx.sample(|| format!("{} tables on {} PIDs in {} packets, twice {}", tabs.iter().map(|t| t.len()).sum::<usize>(), n, total, twice));
    Ok(())
}

/// how many sections the table beginning with this one has
fn sections(t: &Tab, _first: &[u8]) -> usize {
    let mut cc = 0;
    let mut out = Vec::new();
    let l = Lib::build(t, &mut Rng::new(1));
    l.emit(1, &mut cc, &mut out);
    out.chunks(188).filter(|p| p[1] & 0x40 != 0).count()
}

/// what was read back gives the same packets when emitted again
fn c26_relay(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let t = any_size(r);
    if t.kind == Kind::Eit && (t.table_id >= 0x50 || t.items.is_empty()) { return Ok(()); }
    let (pid, cc0) = (r.bits(13) as u16, r.below(16) as u8);
    let mut out = Vec::new();
    let mut cc = cc0;
    Lib::build(&t, r).emit(pid, &mut cc, &mut out);
    for hop in 0..3 {
        let mut l = Lib::empty(t.kind);
        let mut p = Psi::default();
        for x in out.chunks(188) { p.mux(x); if p.check() || t.kind == Kind::Tdt { l.parse(&p); } }
        let (mut next, mut c) = (Vec::new(), cc0);
        l.emit(pid, &mut c, &mut next);
        if next != out || c != cc { return Err(format!("{:?} relayed {} times: {}", t.kind, hop + 1, diff(&next, &out))); }
        cx.count("tables_relayed");
        out = next;
    }
    cx.seen_bytes(&out);
    cx.sample(|| format!("{:?} of {} packets relayed three times", t.kind, out.len() / 188));
    Ok(())
}

pub fn c26() -> Vec<Workload> {
    vec![
        random("multiplex", 12_000, 400_000, 2, c26_multiplex),
        random("relay", 40_000, 1_200_000, 8, c26_relay),
    ]
}

// ---- C27 -------------------------------------------------------------------

/// (group, name, value, code of the standard): EN 300 468 6.2.13
const CODES: [(u8, &str, u8, u8); 60] = [
    (0, "west", POSITION_WEST, 0), (0, "east", POSITION_EAST, 1),
    (1, "horizontal", POLARIZATION_H, 0), (1, "vertical", POLARIZATION_V, 1), (1, "left circular", POLARIZATION_L, 2), (1, "right circular", POLARIZATION_R, 3),
    (2, "roll-off 0.35", ROF_A035, 0), (2, "roll-off 0.25", ROF_A025, 1), (2, "roll-off 0.20", ROF_A020, 2),
    (3, "satellite auto", MODULATION_DVB_S_AUTO, 0), (3, "satellite QPSK", MODULATION_DVB_S_QPSK, 1), (3, "satellite 8PSK", MODULATION_DVB_S_8PSK, 2), (3, "satellite 16-QAM", MODULATION_DVB_S_16QAM, 3),
    (4, "inner undefined", FEC_NOT_DEFINED, 0), (4, "inner 1/2", FEC_1_2, 1), (4, "inner 2/3", FEC_2_3, 2), (4, "inner 3/4", FEC_3_4, 3), (4, "inner 5/6", FEC_5_6, 4), (4, "inner 7/8", FEC_7_8, 5),
    (4, "inner 8/9", FEC_8_9, 6), (4, "inner 3/5", FEC_3_5, 7), (4, "inner 4/5", FEC_4_5, 8), (4, "inner 9/10", FEC_9_10, 9), (4, "inner none", FEC_NONE, 15),
    (5, "outer undefined", FEC_OUTER_NOT_DEFINED, 0), (5, "outer none", FEC_OUTER_NO_CODING, 1), (5, "outer Reed-Solomon", FEC_OUTER_RS, 2),
    (6, "cable undefined", MODULATION_DVB_C_NOT_DEFINED, 0), (6, "cable 16-QAM", MODULATION_DVB_C_16_QAM, 1), (6, "cable 32-QAM", MODULATION_DVB_C_32_QAM, 2),
    (6, "cable 64-QAM", MODULATION_DVB_C_64_QAM, 3), (6, "cable 128-QAM", MODULATION_DVB_C_128_QAM, 4), (6, "cable 256-QAM", MODULATION_DVB_C_256_QAM, 5),
    (7, "8 MHz", BANDWIDTH_DVB_T_8MHZ, 0), (7, "7 MHz", BANDWIDTH_DVB_T_7MHZ, 1), (7, "6 MHz", BANDWIDTH_DVB_T_6MHZ, 2), (7, "5 MHz", BANDWIDTH_DVB_T_5MHZ, 3),
    (8, "terrestrial QPSK", MODULATION_DVB_T_QPSK, 0), (8, "terrestrial 16-QAM", MODULATION_DVB_T_16QAM, 1), (8, "terrestrial 64-QAM", MODULATION_DVB_T_64QAM, 2),
    (9, "non-hierarchical native", HIERARCHY_DVB_T_NON_NATIVE, 0), (9, "alpha 1 native", HIERARCHY_DVB_T_A1_NATIVE, 1), (9, "alpha 2 native", HIERARCHY_DVB_T_A2_NATIVE, 2), (9, "alpha 4 native", HIERARCHY_DVB_T_A4_NATIVE, 3),
    (9, "non-hierarchical in-depth", HIERARCHY_DVB_T_NON_IN_DEPTH, 4), (9, "alpha 1 in-depth", HIERARCHY_DVB_T_A1_IN_DEPTH, 5), (9, "alpha 2 in-depth", HIERARCHY_DVB_T_A2_IN_DEPTH, 6), (9, "alpha 4 in-depth", HIERARCHY_DVB_T_A4_IN_DEPTH, 7),
    (10, "rate 1/2", CODE_RATE_DVB_T_1_2, 0), (10, "rate 2/3", CODE_RATE_DVB_T_2_3, 1), (10, "rate 3/4", CODE_RATE_DVB_T_3_4, 2), (10, "rate 5/6", CODE_RATE_DVB_T_5_6, 3), (10, "rate 7/8", CODE_RATE_DVB_T_7_8, 4),
    (11, "guard 1/32", GUARD_INTERVAL_1_32, 0), (11, "guard 1/16", GUARD_INTERVAL_1_16, 1), (11, "guard 1/8", GUARD_INTERVAL_1_8, 2), (11, "guard 1/4", GUARD_INTERVAL_1_4, 3),
    (12, "2k", TRANSMISSION_MODE_2K, 0), (12, "8k", TRANSMISSION_MODE_8K, 1), (12, "4k", TRANSMISSION_MODE_4K, 2),
];

fn any_of(r: &mut Rng, group: u8) -> (&'static str, u8, u8) {
    let n = CODES.iter().filter(|c| c.0 == group).count();
    let k = r.idx(n);
    let c = CODES.iter().filter(|c| c.0 == group).nth(k).expect("listed");
    (c.1, c.2, c.3)
}

/// a transponder described with the named values reads as that transponder
fn c27_delivery(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let p: Vec<(&str, u8, u8)> = (0..13).map(|g| any_of(r, g)).collect();
    let v = |g: usize| p[g].1;
    let c = |g: usize| p[g].2;
    let (f, sr) = (r.below(99_999_999) as u32, r.below(1_000_000) as u32);
    let digits = |mut x: u32, n: usize| { let mut o = vec![0u8; n]; for b in o.iter_mut().rev() { *b = bcd2(u64::from(x % 100)); x /= 100; } o };
    let orb = r.below(9999) as u16;
    let (s2, low) = (r.below(2) as u8, r.below(16) as u8);
    let mut l = Descriptors::default();
    let mut want = Vec::new();
    match cx.index % 3 {
        0 => {
            l.push(Desc43 { frequency: f * 10, orbital_position: orb * 6, west_east_flag: v(0), polarization: v(1), rof: v(2), s2, modulation: v(3), symbol_rate: sr, fec: v(4) });
            want.extend_from_slice(&[0x43, 11]);
            want.extend(digits(f, 4));
            want.extend(digits(u32::from(orb), 2));
            want.push(c(0) << 7 | c(1) << 5 | c(2) << 3 | s2 << 2 | c(3));
            want.extend(digits(sr, 3));
            want.push(c(4));
        }
        1 => {
            let f = f % 42_949_672;
            l.push(Desc44 { frequency: f * 100, fec_outer: v(5), modulation: v(6), symbol_rate: sr, fec: v(4) });
            want.extend_from_slice(&[0x44, 11]);
            want.extend(digits(f, 4));
            want.extend_from_slice(&[0xFF, 0xF0 | c(5), c(6)]);
            want.extend(digits(sr, 3));
            want.push(c(4));
        }
        _ => {
            let lp = any_of(r, 10);
            l.push(Desc5A { frequency: f * 10, bandwidth: v(7), priority: low & 1, time_slicing: low >> 1 & 1, mpe_fec: low >> 2 & 1, modulation: v(8), hierarchy: v(9), code_rate_hp: v(10), code_rate_lp: lp.1, guard_interval: v(11), transmission: v(12), other_frequency_flag: low >> 3 });
            want.extend_from_slice(&[0x5A, 11]);
            want.extend_from_slice(&f.to_be_bytes());
            want.push(c(7) << 5 | (low & 1) << 4 | (low >> 1 & 1) << 3 | (low >> 2 & 1) << 2 | 3);
            want.push(c(8) << 6 | c(9) << 3 | c(10));
            want.push(lp.2 << 5 | c(11) << 3 | c(12) << 1 | low >> 3);
            want.extend_from_slice(&[0xFF; 4]);
        }
    }
    let mut got = Vec::new();
    l.assemble(&mut got);
    // fixed bits of the fourth cable octet are the descriptor property's concern
    if got != want { return Err(format!("{}: {}", p.iter().map(|x| x.0).collect::<Vec<_>>().join(", "), diff(&got, &want))); }
    cx.count("delivery_descriptors_compared");
    cx.seen_bytes(&got);
    cx.sample(|| hex(&got));
    Ok(())
}

/// every named value alone, and the PIDs set aside for tables
fn c27_names(cx: &mut Cx) -> Res {
    for (_, name, got, want) in CODES.iter() {
        if got != want { return Err(format!("{} is {}, the standard has {}", name, got, want)); }
        cx.count("names_compared");
        cx.seen(hash_str(name));
    }
    for (name, got, want) in [
        ("PAT PID", u64::from(PAT_PID), 0), ("NIT PID", u64::from(NIT_PID), 0x10), ("SDT PID", u64::from(SDT_PID), 0x11), ("EIT PID", u64::from(EIT_PID), 0x12),
        ("TDT PID", u64::from(TDT_PID), 0x14), ("TOT PID", u64::from(TOT_PID), 0x14),
    ] {
        if got != want { return Err(format!("{} is {}, want {}", name, got, want)); }
        cx.count("names_compared");
        cx.seen(hash_str(name));
    }
    cx.sample(|| "all names".into());
    Ok(())
}

/// each named character table selects the table of that name
fn c27_tables(cx: &mut Cx) -> Res {
    use mpegts::textcode as t;
    const NAMED: [(u8, &str, &str, u8); 16] = [
        (t::ISO6937, "", "\u{00C6}", 0xE1), (t::ISO8859_1, "\x10\x00\x01", "\u{00FF}", 0xFF), (t::ISO8859_2, "\x10\x00\x02", "\u{0159}", 0xF8), (t::ISO8859_3, "\x10\x00\x03", "\u{0127}", 0xB1),
        (t::ISO8859_4, "\x10\x00\x04", "\u{0138}", 0xA2), (t::ISO8859_5, "\x01", "\u{0416}", 0xB6), (t::ISO8859_6, "\x02", "\u{0628}", 0xC8), (t::ISO8859_7, "\x03", "\u{03BB}", 0xEB),
        (t::ISO8859_8, "\x04", "\u{05D0}", 0xE0), (t::ISO8859_9, "\x05", "\u{011E}", 0xD0), (t::ISO8859_10, "\x06", "\u{0138}", 0xFF), (t::ISO8859_11, "\x07", "\u{0E01}", 0xA1),
        (t::ISO8859_13, "\x09", "\u{0104}", 0xC0), (t::ISO8859_14, "\x0A", "\u{1E02}", 0xA1), (t::ISO8859_15, "\x0B", "\u{20AC}", 0xA4), (t::UTF8, "\x15", "\u{1F600}", 0),
    ];
    let (cp, sel, ch, byte) = NAMED[cx.index as usize];
    let mut want = sel.as_bytes().to_vec();
    want.push(b'A');
    if byte == 0 { want.extend_from_slice(ch.as_bytes()); } else { want.push(byte); }
    let text = format!("A{}", ch);
    let mut got = Vec::new();
    StringDVB::from_str(&text, cp).assemble(&mut got);
    if got != want { return Err(format!("{:?} in the table numbered {}: {}", text, cp, diff(&got, &want))); }
    let back = StringDVB::from(&want[..]).to_string();
    if back != text { return Err(format!("{} shown as {:?}, want {:?}", hex(&want), back, text)); }
    cx.count("character_tables_selected");
    cx.seen_bytes(&want);
    cx.sample(|| text.clone());
    Ok(())
}

pub fn c27() -> Vec<Workload> {
    vec![
        sweep("names", 1, 1, c27_names),
        sweep("tables", 16, 16, c27_tables),
        random("delivery", 60_000, 2_000_000, 12, c27_delivery),
    ]
}
