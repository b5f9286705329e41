//! C18 packet headers, C19 program clock, C20 PES headers, C21 stream
//! classification.

use crate::cx::*;
use crate::desc::{build, enc_list_any, gen_desc, D};
use crate::refm::*;
use crate::rng::Rng;
use mpegts::es::{pes, StreamType};
use mpegts::psi::*;
use mpegts::ts;

// ---- C18 -------------------------------------------------------------------

fn queries(p: &[u8]) -> Res {
    let w = |m: String| Err(format!("header {}: {}", hex(&p[..6]), m));
    macro_rules! is { ($q:ident, $v:expr) => { if ts::$q(p) != $v { return w(format!("{} is {:?}, want {:?}", stringify!($q), ts::$q(p), $v)); } } }
    let af = p[3] & 0x20 != 0;
    let pl = p[3] & 0x10 != 0;
    is!(is_sync, p[0] == 0x47);
    is!(is_error, p[1] & 0x80 != 0);
    is!(is_pusi, p[1] & 0x40 != 0);
    is!(get_pid, u16::from(p[1] & 31) * 256 + u16::from(p[2]));
    is!(is_scrambled, p[3] >> 6 != 0);
    is!(is_adaptation, af);
    is!(is_payload, pl);
    is!(get_cc, p[3] & 15);
    if af { is!(get_adaptation_size, p[4]); }
    let off = if !pl { 0 } else if !af { 4 } else if p[4] >= 183 { 0 } else { 5 + p[4] };
    is!(get_payload_offset, off);
    Ok(())
}

/// every value of the two flag bytes
fn c18_queries(cx: &mut Cx) -> Res {
    let (b1, b3) = ((cx.index % 256) as u8, (cx.index / 256) as u8);
    for b4 in [0u8, 1, 6, 7, 100, 181, 182, 183, 184, 250, 251, 255] {
        let r = &mut cx.r;
        let mut p = r.packet();
        p[0] = if r.one_in(4) { r.u8() } else { 0x47 };
        p[1] = b1;
        p[3] = b3;
        p[4] = b4;
        queries(&p)?;
        cx.count("headers_queried");
        cx.seen(u64::from(b1) << 16 | u64::from(b3) << 8 | u64::from(b4));
    }
    cx.sample(|| format!("flag bytes {:02x} {:02x}, twelve adaptation sizes", b1, b3));
    Ok(())
}

/// every PID, sync byte and adaptation size
fn c18_values(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut p = r.packet();
    let v = cx.index;
    p[1] = (v >> 8) as u8;
    p[2] = v as u8;
    if v < 256 { p[0] = v as u8; }
    queries(&p)?;
    p[4] = v as u8;
    for f in [0x00, 0x10, 0x20, 0x30] { p[3] = f; queries(&p)?; }
    cx.add("headers_queried", 5);
    cx.seen(v);
    Ok(())
}

fn setters(cx: &mut Cx, pid: u16) -> Res {
    let r = &mut cx.r;
    let orig = r.packet();
    let cc = (pid & 15) as u8;
    let runs: [(&str, fn(&mut [u8], u16), usize, u8, u8); 6] = [
        ("set_cc", |p, v| ts::set_cc(p, (v & 15) as u8), 3, 0x0F, cc),
        ("set_payload_0", |p, _| ts::set_payload_0(p), 3, 0x10, 0),
        ("set_payload_1", |p, _| ts::set_payload_1(p), 3, 0x10, 0x10),
        ("set_pusi_0", |p, _| ts::set_pusi_0(p), 1, 0x40, 0),
        ("set_pusi_1", |p, _| ts::set_pusi_1(p), 1, 0x40, 0x40),
        ("set_pid", |p, v| ts::set_pid(p, v), 1, 0x1F, (pid >> 8) as u8),
    ];
    for (name, f, at, mask, val) in runs {
        let mut p = orig.clone();
        f(&mut p, pid);
        let mut w = orig.clone();
        w[at] = w[at] & !mask | val;
        if name == "set_pid" { w[2] = pid as u8; }
        if p != w { return Err(format!("{}({}) on {}: {}", name, pid, hex(&orig[..6]), diff(&p, &w))); }
        queries(&p)?;
        cx.count("setters_judged");
    }
    cx.seen(u64::from(pid));
    Ok(())
}
fn c18_setters(cx: &mut Cx) -> Res { setters(cx, cx.index as u16) }

/// setters on the shortest slice that holds the header
fn c18_sequence(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut p = r.packet();
    let mut w = p.clone();
    for _ in 0..r.urange(2, 12) {
        let pid = r.bits(13) as u16;
        let cc = r.below(16) as u8;
        match r.below(6) {
            0 => { ts::set_pid(&mut p, pid); w[1] = w[1] & 0xE0 | (pid >> 8) as u8; w[2] = pid as u8; }
            1 => { ts::set_cc(&mut p, cc); w[3] = w[3] & 0xF0 | cc; }
            2 => { ts::set_payload_0(&mut p); w[3] &= 0xEF; }
            3 => { ts::set_payload_1(&mut p); w[3] |= 0x10; }
            4 => { ts::set_pusi_0(&mut p); w[1] &= 0xBF; }
            _ => { ts::set_pusi_1(&mut p); w[1] |= 0x40; }
        }
    }
    if p != w { return Err(format!("sequence of setters: {}", diff(&p, &w))); }
    queries(&p)?;
    cx.count("sequences_judged");
    cx.seen_bytes(&p[..5]);
    cx.sample(|| hex(&p[..5]));
    Ok(())
}

/// the debug form shows the same values
pub fn c18_debug(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut p = r.packet();
    if r.coin() { p[0] = 0x47; }
    match r.below(4) { 0 => p[4] = 0, 1 => p[4] = r.urange(1, 6) as u8, _ => {} }
    p[3] = r.u8();
    let d = format!("{:?}", ts::TsPacket::new(&p));
    // each field's value, wherever and however the field is placed
    let has = |k: &str, v: String| -> Res {
        let pat = format!("{}: ", k);
        let ok = d.match_indices(&pat).any(|(i, _)| {
            let rest = &d[i + pat.len()..];
            let pre = d[..i].chars().last().unwrap_or(' ');
            !pre.is_alphanumeric() && pre != '_' && rest.starts_with(&v) && !rest[v.len()..].starts_with(|c: char| c.is_alphanumeric())
        });
        if ok { Ok(()) } else { Err(format!("header {}: debug form {:?} does not show {} {}", hex(&p[..12]), d, k, v)) }
    };
    has("sync", (p[0] == 0x47).to_string())?;
    let e = p[1] >> 7;
    if has("error", e.to_string()).is_err() { has("error", (e == 1).to_string())?; }
    has("pusi", (p[1] & 0x40 != 0).to_string())?;
    has("pid", (u16::from(p[1] & 31) << 8 | u16::from(p[2])).to_string())?;
    has("scrambling", (p[3] >> 6).to_string())?;
    has("payload", (p[3] & 0x10 != 0).to_string())?;
    has("cc", (p[3] & 15).to_string())?;
    if p[3] & 0x20 == 0 { has("adaptation", "false".into())?; }
    else {
        let a = format!("{:?}", ts::TsAdaptation::new(&p));
        if !d.contains(&a) { return Err(format!("debug form {:?} lacks the adaptation field {:?}", d, a)); }
        has("length", p[4].to_string())?;
        if p[4] > 0 {
            for (i, k) in ["discontinuity", "random_access", "es_priority", "PCR_flag", "OPCR_flag", "splicing_point", "private_data", "af_extension"].iter().enumerate() {
                has(k, (p[5] >> (7 - i) & 1 == 1).to_string())?;
            }
            if p[5] & 0x10 != 0 && p[4] >= 7 { has("pcr", pcr_of(&p).to_string())?; }
        }
    }
    cx.count("debug_forms_judged");
    cx.seen_bytes(&p[..12]);
    cx.sample(|| d.clone());
    Ok(())
}

fn pcr_of(p: &[u8]) -> u64 {
    let v = p[6..12].iter().fold(0u64, |a, &b| a << 8 | u64::from(b));
    (v >> 15) * 300 + (v & 0x1FF)
}

fn c18_constants(cx: &mut Cx) -> Res {
    let n = ts::NULL_PACKET;
    if n.len() != 188 || n[0] != 0x47 || ts::get_pid(n) != 8191 || n[1] & 0xE0 != 0 || n[3] & 0xF0 != 0x10 || n[4..].iter().any(|&b| b != 0xFF) { return Err(format!("null packet is {}", hex(n))); }
    if ts::FILL_PACKET.len() != 188 || ts::FILL_PACKET.iter().any(|&b| b != 0xFF) { return Err(format!("stuffing packet is {}", hex(ts::FILL_PACKET))); }
    if ts::PACKET_SIZE != 188 || ts::PID_NULL != 8191 || ts::PID_NONE != 8192 { return Err("packet constants".into()); }
    cx.count("constants_compared");
    cx.seen(1);
    Ok(())
}

pub fn c18() -> Vec<Workload> {
    vec![
        sweep("constants", 1, 1, c18_constants),
        sweep("flag_bytes", 65536, 20, c18_queries),
        sweep("values", 65536, 20, c18_values),
        sweep("setters", 8192, 20, c18_setters),
        random("sequences", 60_000, 2_000_000, 20, c18_sequence),
    ]
}

// ---- C19 -------------------------------------------------------------------

const M: u64 = (1 << 33) * 300;
const HZ: u64 = 27_000_000;

fn rand_pcr(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(1000), 1 => M - 1 - r.below(1000), 2 => r.below(1 << 33) * 300 + r.pick(&[0, 1, 255, 256, 299]), 3 => r.edge(M - 1),
        4 => (1u64 << r.below(33)) * 300 + r.below(300), 5 => ((1u64 << 33) - 1 - (1 << r.below(33))) * 300 + r.below(300), _ => r.below(M),
    }
}

fn c19_present(cx: &mut Cx) -> Res {
    let (b3, b4) = ((cx.index % 256) as u8, (cx.index / 256) as u8);
    let mut p = cx.r.packet();
    for b5 in 0..=255u8 {
        if b5 % 64 == 0 { p = cx.r.packet(); }
        p[3] = b3;
        p[4] = b4;
        p[5] = b5;
        let want = b3 & 0x20 != 0 && b4 >= 7 && b5 & 0x10 != 0;
        if ts::is_pcr(&p) != want { return Err(format!("header {}: clock reference present {}, want {}", hex(&p[..6]), !want, want)); }
        cx.count("presence_judged");
    }
    cx.seen(cx.index);
    Ok(())
}

fn c19_store(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let v = rand_pcr(r);
    let orig = r.packet();
    let mut p = orig.clone();
    ts::set_pcr(&mut p, v);
    let mut w = orig.clone();
    let bits = (v / 300) << 15 | 0x7E00 | v % 300;
    w[6..12].copy_from_slice(&bits.to_be_bytes()[2..]);
    if p != w { return Err(format!("clock {}: {}", v, diff(&p, &w))); }
    if ts::get_pcr(&p) != v { return Err(format!("clock {} read back as {}", v, ts::get_pcr(&p))); }
    // reading ignores the reserved bits
    p[10] ^= r.u8() & 0x7E;
    if ts::get_pcr(&p) != v { return Err(format!("clock {} with other reserved bits read as {}", v, ts::get_pcr(&p))); }
    if ts::get_pcr(&orig) != pcr_of(&orig) { return Err(format!("bytes {} read as {}", hex(&orig[6..12]), ts::get_pcr(&orig))); }
    cx.count("clocks_stored");
    cx.seen(v);
    cx.sample(|| format!("clock {}", v));
    Ok(())
}

/// exact without wrap; one tick of tolerance across it
fn delta_ok(name: &str, last: u64, cur: u64, got: u64, m: u64) -> Res {
    let want = if cur >= last { cur - last } else { cur + m - last };
    let ok = if cur >= last { got == want } else { got <= want && want - got <= 1 || got == want + 1 };
    if ok { Ok(()) } else { Err(format!("{} from {} to {} is {}, want {}", name, last, cur, got, want)) }
}

/// a second value of a clock that counts modulo `m`: equal, a few ticks, a power
/// of two or up to `span` ticks away on either side, or the other end of the range
fn near(r: &mut Rng, a: u64, m: u64, span: u64) -> u64 {
    let d = match r.below(8) {
        0 => 0,
        1 => r.below(5),
        2 => (1 << r.below(33)) + r.below(3) - 1,
        3 => return r.below(5),
        4 => return m - 1 - r.below(5),
        _ => r.below(span),
    };
    if r.coin() { (a + d) % m } else { (a + m - d % m) % m }
}

fn c19_delta(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let a = if r.one_in(16) { if r.coin() { r.below(5) } else { M - 1 - r.below(5) } } else { rand_pcr(r) };
    let b = if r.below(3) == 0 { rand_pcr(r) } else { near(r, a, M, 3 * HZ) };
    delta_ok("difference", a, b, ts::pcr_delta(a, b), M)?;
    if ts::pcr_to_us(a) != a / 27 || ts::pcr_to_ms(a) != a / 27_000 { return Err(format!("{} is {} us, {} ms", a, ts::pcr_to_us(a), ts::pcr_to_ms(a))); }
    let d = match r.below(4) {
        0 | 1 => r.range(27_000, 10 * HZ),
        2 => r.range(27_000, 30_000),
        _ => (27_000 * r.range(1, 20_000) + r.below(3)).max(27_001) - 1,
    };
    let bytes = if r.coin() { r.below(1 << 32) } else { r.edge(1 << 40) };
    let want = bytes * 8 / (d / 27_000);
    if ts::pcr_delta_bitrate(d, bytes) != want { return Err(format!("{} bytes in {} ticks: {} kbit/s, want {}", bytes, d, ts::pcr_delta_bitrate(d, bytes), want)); }
    cx.count(if b >= a { "differences" } else { "differences_across_wrap" });
    cx.seen(a ^ b.rotate_left(20));
    cx.sample(|| format!("{} -> {}", a, b));
    Ok(())
}

fn c19_jitter(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let stc = rand_pcr(r);
    let pcr = match r.below(6) {
        5 => (stc + HZ + 3 - r.below(6)) % M,
        0 => rand_pcr(r),
        1 => (stc + r.below(HZ + 10)) % M,
        2 => (stc + M - r.below(HZ)) % M,
        3 => (stc + M + r.below(2000) - 1000) % M,
        _ => (stc + M - r.below(30 * HZ)) % M,
    };
    let e = pcr as i128 - stc as i128;
    let m = M as i128;
    let lead = ((e % m) + m) % m; // 0..M
    let hz = HZ as i128;
    // across the wrap the lead is only known to one tick
    if pcr < stc && (lead - hz).abs() <= 1 { return Ok(()); }
    let want = if lead <= hz { lead } else { lead - m };
    let exact = e == want;
    let got = ts::pcr_jitter_ns(pcr, stc) as i128;
    let tol = if exact { 1 } else { 39 };
    let w = want * 1000;
    if (got * 27 - w).abs() > tol * 27 { return Err(format!("jitter of {} against {} is {} ns, want {}", pcr, stc, got, w / 27)); }
    cx.count(if lead == hz { "jitter_one_second" } else if want >= 0 { "jitter_lead" } else { "jitter_lag" });
    cx.seen(pcr ^ stc.rotate_left(20));
    cx.sample(|| format!("clock {} expected {}: {} ns", pcr, stc, got));
    Ok(())
}

fn c19_stc(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let last = rand_pcr(r);
    let delta = if r.coin() { r.range(1, HZ) } else { r.edge(HZ) };
    let lb = match r.below(3) { 0 => r.range(1, 1000), 1 => r.range(1, 1_000_000_000), _ => 188 * r.range(1, 50_000) };
    let b = match r.below(3) { 0 => r.below(1000), 1 => r.below(1_000_000_001), _ => 188 * r.below(50_000) };
    let want = (u128::from(last) + u128::from(delta) * u128::from(b) / u128::from(lb)) % u128::from(M);
    let got = ts::pcr_to_stc(last, b, delta, lb);
    if u128::from(got) != want { return Err(format!("clock {} after {} bytes ({} ticks per {} bytes) is {}, want {}", last, b, delta, lb, got, want)); }
    cx.count(if want < u128::from(last) { "extrapolations_across_wrap" } else { "extrapolations" });
    cx.seen(last ^ b << 3 ^ delta << 31);
    cx.sample(|| format!("{} + {}*{}/{} = {}", last, delta, b, lb, got));
    Ok(())
}

/// all bases with one bit, all extensions
fn c19_bits(cx: &mut Cx) -> Res {
    let ext = cx.index % 300;
    for bit in 0..33 {
        for base in [1u64 << bit, (1 << 33) - 1 - (1 << bit), (1 << (bit + 1)) - 1] {
            let v = base * 300 + ext;
            let mut p = vec![0xA5u8; 188];
            ts::set_pcr(&mut p, v);
            if ts::get_pcr(&p) != v || pcr_of(&p) != v || p[10] & 0x7E != 0x7E { return Err(format!("clock {} stored as {}", v, hex(&p[6..12]))); }
            cx.count("clocks_stored");
        }
    }
    cx.seen(ext);
    Ok(())
}

fn c19_constants(cx: &mut Cx) -> Res {
    if ts::PCR_NONE != M || ts::PCR_MAX != M - 1 || ts::PCR_SYSTEM_CLOCK != HZ || ts::PCR_CLOCK_US != 27 || ts::PCR_CLOCK_MS != 27_000 { return Err("clock constants differ".into()); }
    cx.count("constants_compared");
    cx.seen(1);
    Ok(())
}

pub fn c19() -> Vec<Workload> {
    vec![
        sweep("constants", 1, 1, c19_constants),
        sweep("presence", 65536, 20, c19_present),
        sweep("bits", 300, 2, c19_bits),
        random("store", 250_000, 10_000_000, 40, c19_store),
        random("difference", 250_000, 10_000_000, 40, c19_delta),
        random("jitter", 250_000, 10_000_000, 40, c19_jitter),
        random("extrapolate", 250_000, 10_000_000, 40, c19_stc),
    ]
}

// ---- C20 -------------------------------------------------------------------

const NO_SYNTAX: [u8; 8] = [0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF];

fn pes_case(cx: &mut Cx, p: &[u8]) -> Res {
    let w = |m: String| Err(format!("PES start {}: {}", hex(&p[..20.min(p.len())]), m));
    macro_rules! is { ($q:ident, $v:expr) => { if pes::$q(p) != $v { return w(format!("{} is {:?}, want {:?}", stringify!($q), pes::$q(p), $v)); } } }
    is!(is_prefix, p[0] == 0 && p[1] == 0 && p[2] == 1);
    is!(get_length, u16::from(p[4]) << 8 | u16::from(p[5]));
    let syn = !NO_SYNTAX.contains(&p[3]);
    is!(is_syntax_spec, syn);
    is!(get_payload_offset, if syn { 9 + u16::from(p[8]) } else { 6 });
    if syn {
        is!(is_pts, p[7] & 0x80 != 0);
        is!(is_dts, p[7] & 0x40 != 0);
        let stamp = |i: usize| u64::from(p[i] >> 1 & 7) << 30 | u64::from(p[i + 1]) << 22 | u64::from(p[i + 2] >> 1) << 15 | u64::from(p[i + 3]) << 7 | u64::from(p[i + 4] >> 1);
        is!(get_pts, stamp(9));
        is!(get_dts, stamp(14));
    }
    cx.count("pes_starts_judged");
    cx.seen_bytes(&p[..19]);
    Ok(())
}

fn c20_ids(cx: &mut Cx) -> Res {
    let mut p = cx.r.packet();
    p[..3].copy_from_slice(&[0, 0, 1]);
    p[3] = (cx.index % 256) as u8;
    p[7] = (cx.index / 256) as u8;
    pes_case(cx, &p)?;
    p[8] = p[7];
    pes_case(cx, &p)?;
    cx.sample(|| format!("stream id {:02x}, flags {:02x}", p[3], p[7]));
    Ok(())
}

fn c20_prefix(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut p = r.packet();
    for i in 0..3 { p[i] = r.pick(&[0, 0, 1, 1, 2, 255]); }
    p[4] = (cx.index >> 8) as u8;
    p[5] = cx.index as u8;
    pes_case(cx, &p)
}

/// time stamps: every bit, every combination of marker and prefix bits
fn c20_stamps(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let v = match r.below(4) { 0 => 1u64 << r.below(33), 1 => (1 << 33) - 1 - (1 << r.below(33)), 2 => r.edge((1 << 33) - 1), _ => r.below(1 << 33) };
    let u = r.below(1 << 33);
    let mut p = r.packet();
    p[..4].copy_from_slice(&[0, 0, 1, 0xE0]);
    p[7] |= 0xC0;
    for (at, v) in [(9, v), (14, u)] {
        let m = r.u8();
        p[at] = (v >> 30 << 1) as u8 & 0x0E | m & 0xF1;
        p[at + 1] = (v >> 22) as u8;
        p[at + 2] = (v >> 14) as u8 & 0xFE | m >> 1 & 1;
        p[at + 3] = (v >> 7) as u8;
        p[at + 4] = (v << 1) as u8 | m >> 2 & 1;
    }
    if pes::get_pts(&p) != v || pes::get_dts(&p) != u { return Err(format!("time stamps {} {} read as {} {}", v, u, pes::get_pts(&p), pes::get_dts(&p))); }
    pes_case(cx, &p)?;
    let r = &mut cx.r;
    let b = if r.below(3) == 0 { u } else { near(r, v, 1 << 33, 900_000) };
    delta_ok("time stamp difference", v, b, pes::pts_delta(v, b), 1 << 33)?;
    if pes::pts_to_ms(v) != v / 90 { return Err(format!("{} is {} ms", v, pes::pts_to_ms(v))); }
    cx.count("time_stamps_read");
    cx.count(if b == v { "differences_of_equal" } else if b > v { "differences" } else { "differences_across_wrap" });
    cx.sample(|| format!("presentation {} decode {}", v, u));
    Ok(())
}

fn c20_constants(cx: &mut Cx) -> Res {
    if pes::PTS_NONE != 1 << 33 || pes::PTS_MAX != (1 << 33) - 1 || pes::PTS_CLOCK_MS != 90 { return Err("time stamp constants differ".into()); }
    cx.count("constants_compared");
    cx.seen(1);
    Ok(())
}

pub fn c20() -> Vec<Workload> {
    vec![
        sweep("constants", 1, 1, c20_constants),
        sweep("ids_and_flags", 65536, 30, c20_ids),
        sweep("lengths", 65536, 30, c20_prefix),
        random("time_stamps", 400_000, 15_000_000, 60, c20_stamps),
    ]
}

// ---- C21 -------------------------------------------------------------------

fn classify(st: u8, tags: &[u8]) -> StreamType {
    match st {
        0x01 | 0x02 | 0x10 | 0x1B | 0x24 => StreamType::VIDEO,
        0x03 | 0x04 | 0x0F | 0x11 => StreamType::AUDIO,
        0x05 => if tags.contains(&0x6F) { StreamType::AIT } else { StreamType::DATA },
        0x06 => {
            for t in tags {
                match t { 0x56 => return StreamType::TTX, 0x59 => return StreamType::SUB, 0x6A | 0x7A | 0x81 => return StreamType::AUDIO, _ => {} }
            }
            StreamType::DATA
        }
        _ => StreamType::DATA,
    }
}

fn class_case(cx: &mut Cx, st: u8, list: &[D]) -> Res {
    let r = &mut cx.r;
    let tags: Vec<u8> = list.iter().map(|d| d.tag()).collect();
    let want = classify(st, &tags);
    let pid = r.bits(13) as u16;
    let built = PmtItem { stream_type: st, pid, descriptors: build(list, r) };
    let b = enc_list_any(list, r);
    if b.len() > 1000 { return Ok(()); }
    let mut w = vec![st];
    w.extend_from_slice(&(r.bits(3) as u16 * 0x2000 | pid).to_be_bytes());
    w.extend_from_slice(&(0xF000 | b.len() as u16).to_be_bytes());
    w.extend_from_slice(&b);
    let parsed = PmtItem::parse(&w);
    // through a whole table as well
    let mut sec = vec![2, 0xB0, 0, 0, 1, 0xC1, 0, 0, 0xE1, 0, 0xF0, 0];
    sec.extend_from_slice(&w);
    let sec = seal(sec);
    let pmt = Pmt::from(&crate::tables::psi_of(&sec));
    let tabled = pmt.items.first().map(|i| i.get_stream_type());
    for (how, got) in [("built", Some(built.get_stream_type())), ("parsed", Some(parsed.get_stream_type())), ("from a table", tabled)] {
        if got.as_ref() != Some(&want) { return Err(format!("type {:02x} with descriptors {:02x?}, {}: {:?}, want {:?}", st, tags, how, got, want)); }
    }
    cx.count(match want { StreamType::VIDEO => "video", StreamType::AUDIO => "audio", StreamType::AIT => "application_information", StreamType::SUB => "subtitle", StreamType::TTX => "teletext", StreamType::DATA => "data" });
    cx.seen(crate::rng::hash_bytes(&tags) ^ u64::from(st));
    Ok(())
}

const MARKS: [u8; 6] = [0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F];

/// every type with every single tag
fn c21_pairs(cx: &mut Cx) -> Res {
    let st = (cx.index % 256) as u8;
    let tag = (cx.index / 256) as u8;
    let body = match cx.index % 3 { 0 => vec![], 1 => vec![0x56, 0x59, 0x6A], _ => { let n = cx.r.urange(3, 8); cx.r.body(n) } };
    let d = D::dec(tag, &body);
    let d = match d { Some(d) if d.body() == body => d, _ => return class_case(cx, st, &[]) };
    class_case(cx, st, &[d])?;
    cx.sample(|| format!("type {:02x} tag {:02x}", st, tag));
    Ok(())
}

/// every ordered pair of marking descriptors, in every type
fn c21_order(cx: &mut Cx) -> Res {
    let st = (cx.index % 256) as u8;
    let k = (cx.index / 256) as usize;
    let (a, b) = (MARKS[k / 6], MARKS[k % 6]);
    let r = &mut cx.r;
    let n = r.urange(0, 6);
    let mut l = vec![D::Raw(a, r.body(n)), D::Raw(b, r.body(3))];
    if r.coin() { l.insert(0, D::X52(0x6A)); }
    if r.coin() { l.insert(1, D::Raw(0xC8, vec![0x56, 0, 0x59, 0])); }
    class_case(cx, st, &l)
}

/// tags whose contents name a format or carry private data
const REGISTER: [u8; 10] = [0x05, 0x7B, 0x7C, 0x7F, 0x82, 0x05, 0x5F, 0x66, 0xFD, 0xC8];

/// descriptors that name a format, in every type: the classes depend on tags alone
fn c21_contents(cx: &mut Cx) -> Res {
    let st = (cx.index % 256) as u8;
    for _ in 0..6 {
        let r = &mut cx.r;
        let mut l = Vec::new();
        for _ in 0..r.urange(1, 3) { let n = r.pick(&[0usize, 1, 3, 4, 4, 4, 5, 8]); l.push(D::Raw(r.pick(&REGISTER), r.body(n))); }
        if r.one_in(3) { l.insert(0, D::Raw(r.pick(&MARKS), r.body(4))); }
        class_case(cx, st, &l)?;
    }
    Ok(())
}

fn c21_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let st = if r.one_in(3) { r.u8() } else { r.pick(&[5u8, 6, 6, 6, 0x80, 0x81, 0x1B, 0x0F]) };
    let mut l = Vec::new();
    for _ in 0..r.urange(0, 6) {
        if r.one_in(3) { let t = r.pick(&MARKS); let n = r.count(40); l.push(D::Raw(t, r.body(n))); }
        else if r.one_in(6) { let n = r.urange(3, 9); l.push(D::Raw(r.pick(&REGISTER), r.body(n))); }
        else if let Some(d) = gen_desc(r, 60) { l.push(d); }
    }
    class_case(cx, st, &l)?;
    cx.sample(|| format!("type {:02x} tags {:02x?}", st, l.iter().map(|d| d.tag()).collect::<Vec<_>>()));
    Ok(())
}

pub fn c21() -> Vec<Workload> {
    vec![
        sweep("types_and_tags", 65536, 20, c21_pairs),
        sweep("mark_order", 256 * 36, 10, c21_order),
        sweep("contents", 256 * 60, 10, c21_contents),
        random("random", 120_000, 4_000_000, 25, c21_random),
    ]
}
