//! Reference model of transport packets and sections, written from
//! ISO/IEC 13818-1 and EN 300 468. Shares no code with the library.

use crate::rng::Rng;

/// CRC-32/MPEG-2, bit by bit
pub fn crc(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for &x in b {
        c ^= u32::from(x) << 24;
        for _ in 0..8 { c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 }; }
    }
    c
}

/// byte-table CRC for bulk generation (table computed with `crc`'s polynomial)
pub fn fcrc(b: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = (i as u32) << 24;
            for _ in 0..8 { c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 }; }
            *e = c;
        }
        t
    });
    let mut c = 0xFFFF_FFFFu32;
    for &x in b { c = (c << 8) ^ t[((c >> 24) as u8 ^ x) as usize]; }
    c
}

/// register value that 32 further zero bits turn into `c`
pub fn crc_unshift(mut c: u32) -> u32 {
    for _ in 0..32 { c = if c & 1 == 1 { (c ^ 0x04C1_1DB7) >> 1 | 0x8000_0000 } else { c >> 1 }; }
    c
}

pub fn be16(b: &[u8], at: usize) -> Result<u16, String> {
    match (b.get(at), b.get(at + 1)) {
        (Some(&a), Some(&c)) => Ok(u16::from(a) << 8 | u16::from(c)),
        _ => Err(format!("field at {} lies beyond the {} bytes present", at, b.len())),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 { s.push_str(&format!("..({} bytes)", b.len())); break; }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// first difference of two byte strings, for messages
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let a = n.saturating_sub(4);
    format!("lengths {} / {} (got/want), first difference at {}: got ..{} want ..{}", got.len(), want.len(), n,
        hex(&got[a.min(got.len())..(n + 12).min(got.len())]), hex(&want[a.min(want.len())..(n + 12).min(want.len())]))
}

/// length field and checksum for a section given as header + body
/// (bytes 1 and 2 hold flags in the upper nibble)
pub fn seal(mut s: Vec<u8>) -> Vec<u8> {
    let len = s.len() + 4 - 3;
    s[1] = (s[1] & 0xF0) | (len >> 8) as u8 & 0x0F;
    s[2] = len as u8;
    let c = fcrc(&s);
    s.extend_from_slice(&c.to_be_bytes());
    s
}

/// arbitrary well-formed section of exactly `total` bytes (8..=4098)
pub fn rand_section(r: &mut Rng, total: usize) -> Vec<u8> {
    let mut s = Vec::with_capacity(total);
    s.push(match r.below(4) { 0 => 0xFF, 1 => 0x00, _ => r.u8() });
    s.push(r.u8());
    s.push(0);
    let style = r.below(4);
    while s.len() < total - 4 {
        s.push(match style { 0 => 0xFF, 1 => 0x00, 2 => 0x47, _ => r.u8() });
    }
    seal(s)
}

// ---- packets ---------------------------------------------------------------

pub type Pkt = [u8; 188];

#[derive(Clone, Copy)]
pub struct PktSpec { pub pid: u16, pub cc: u8, pub pusi: bool, pub payload: bool, pub af: Option<usize> }

/// payload room of a packet with the given adaptation field (its length byte
/// value), None = no adaptation field
pub fn room(af: Option<usize>) -> usize { match af { None => 184, Some(n) => 183 - n } }

pub fn pkt(r: &mut Rng, s: PktSpec, payload: &[u8]) -> Pkt {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = (s.pid >> 8) as u8 | if s.pusi { 0x40 } else { 0 } | if r.one_in(4) { 0x20 } else { 0 };
    p[2] = s.pid as u8;
    p[3] = s.cc & 15 | if s.payload { 0x10 } else { 0 } | if s.af.is_some() { 0x20 } else { 0 };
    let mut at = 4;
    if let Some(n) = s.af {
        p[4] = n as u8;
        // flags byte without optional fields most of the time, stuffing after
        if n > 0 { p[5] = if r.one_in(3) { r.u8() & 0xE0 } else { 0 }; }
        if n > 1 && r.one_in(4) { for b in p[6..5 + n].iter_mut() { *b = r.u8(); } }
        at = 5 + n;
    }
    p[at..at + payload.len()].copy_from_slice(payload);
    p
}

/// What a packet of a built stream does
#[derive(Clone, Debug)]
pub struct Note {
    /// index of the section whose last byte is in this packet
    pub completes: Option<usize>,
    /// index of the section that begins here, with its pointer value
    pub begins: Option<(usize, usize)>,
    pub payload: bool,
}

#[derive(Clone, Copy)]
pub struct CutOpts {
    /// chance (out of 16) of an adaptation field in a packet
    pub af: u64,
    /// chance (out of 16) of a payload-less packet in between
    pub idle: u64,
    /// chance (out of 16) of starting the next section behind a tail
    pub join: u64,
}

/// Cuts sections into a continuous packet stream: each packet begins at most
/// one section and completes at most one.
pub fn cut(r: &mut Rng, secs: &[Vec<u8>], pid: u16, cc0: u8, o: CutOpts) -> (Vec<Pkt>, Vec<Note>, u8) {
    let mut out = Vec::new();
    let mut notes = Vec::new();
    let mut cc = cc0 & 15; // counter of the next payload packet
    let mut cur: Option<(usize, usize)> = None; // section, bytes already sent
    let mut next = 0;
    loop {
        if cur.is_none() && next >= secs.len() { break; }
        if r.below(16) < o.idle {
            // adaptation only: counter repeats the previous one
            out.push(pkt(r, PktSpec { pid, cc: cc.wrapping_sub(1) & 15, pusi: false, payload: false, af: Some(183) }, &[]));
            notes.push(Note { completes: None, begins: None, payload: false });
            continue;
        }
        let af = if r.below(16) < o.af {
            Some(match r.below(4) { 0 => 0, 1 => r.urange(150, 181), 2 => 181, _ => r.urange(0, 181) })
        } else { None };
        let cap = room(af);
        match cur {
            None => {
                // needs pointer + at least one byte
                let s = &secs[next];
                let n = s.len().min(cap - 1);
                let mut pl = vec![0u8];
                pl.extend_from_slice(&s[..n]);
                pl.resize(cap, 0xFF);
                out.push(pkt(r, PktSpec { pid, cc, pusi: true, payload: true, af }, &pl));
                let done = n == s.len();
                notes.push(Note { completes: if done { Some(next) } else { None }, begins: Some((next, 0)), payload: true });
                cur = if done { None } else { Some((next, n)) };
                next += 1;
            }
            Some((si, sent)) => {
                let tail = &secs[si][sent..];
                let can_join = next < secs.len() && tail.len() + 2 <= cap && secs[next].len() > cap - 1 - tail.len();
                if tail.len() < cap && can_join && r.below(16) < o.join {
                    let s = &secs[next];
                    let n = cap - 1 - tail.len();
                    let mut pl = vec![tail.len() as u8];
                    pl.extend_from_slice(tail);
                    pl.extend_from_slice(&s[..n]);
                    out.push(pkt(r, PktSpec { pid, cc, pusi: true, payload: true, af }, &pl));
                    notes.push(Note { completes: Some(si), begins: Some((next, tail.len())), payload: true });
                    cur = Some((next, n));
                    next += 1;
                } else {
                    let n = tail.len().min(cap);
                    let mut pl = tail[..n].to_vec();
                    pl.resize(cap, 0xFF);
                    out.push(pkt(r, PktSpec { pid, cc, pusi: false, payload: true, af }, &pl));
                    let done = n == tail.len();
                    notes.push(Note { completes: if done { Some(si) } else { None }, begins: None, payload: true });
                    cur = if done { None } else { Some((si, sent + n)) };
                }
            }
        }
        cc = (cc + 1) & 15;
    }
    (out, notes, cc)
}

pub const PLAIN: CutOpts = CutOpts { af: 0, idle: 0, join: 0 };
pub const MIXED: CutOpts = CutOpts { af: 4, idle: 2, join: 10 };

/// Strict reading of what the library emits for sections: checks every header
/// rule and returns the sections and the next counter.
pub fn depacketize(ts: &[u8], pid: u16, cc0: u8) -> Result<(Vec<Vec<u8>>, u8), String> {
    if ts.len() % 188 != 0 { return Err(format!("emitted {} bytes, not a whole number of packets", ts.len())); }
    let mut cc = cc0;
    let mut secs: Vec<Vec<u8>> = Vec::new();
    let mut need = 0usize;
    for (i, p) in ts.chunks(188).enumerate() {
        if p[0] != 0x47 { return Err(format!("packet {}: sync byte {:02x}", i, p[0])); }
        if p[1] & 0x80 != 0 { return Err(format!("packet {}: error bit set", i)); }
        let got = u16::from(p[1] & 0x1F) << 8 | u16::from(p[2]);
        if got != pid { return Err(format!("packet {}: pid {} want {}", i, got, pid)); }
        if p[3] & 0xC0 != 0 { return Err(format!("packet {}: scrambling bits set", i)); }
        if p[3] & 0x30 != 0x10 { return Err(format!("packet {}: adaptation/payload bits {:02x}", i, p[3] & 0x30)); }
        if p[3] & 15 != cc { return Err(format!("packet {}: counter {} want {}", i, p[3] & 15, cc)); }
        cc = (cc + 1) & 15;
        let pusi = p[1] & 0x40 != 0;
        let mut pl = &p[4..];
        if need == 0 {
            if !pusi { return Err(format!("packet {}: no unit start where a section must begin", i)); }
            if pl[0] != 0 { return Err(format!("packet {}: pointer {}", i, pl[0])); }
            pl = &pl[1..];
            let len = 3 + (usize::from(pl[1] & 0x0F) << 8 | usize::from(pl[2]));
            need = len;
            secs.push(Vec::with_capacity(len));
        } else if pusi {
            return Err(format!("packet {}: unit start inside a section ({} bytes missing)", i, need));
        }
        let n = need.min(pl.len());
        if let Some(s) = secs.last_mut() { s.extend_from_slice(&pl[..n]); }
        need -= n;
        if let Some(k) = pl[n..].iter().position(|&b| b != 0xFF) { return Err(format!("packet {}: stuffing byte {:02x} after the section", i, pl[n + k])); }
    }
    if need != 0 { return Err(format!("last section lacks {} bytes", need)); }
    Ok((secs, cc))
}

/// Decoded section header of the long form
pub struct Hdr<'a> {
    pub table_id: u8, pub b1: u8, pub ext: u16, pub version: u8, pub current: bool, pub num: u8, pub last: u8, pub body: &'a [u8],
}

pub fn header(s: &[u8]) -> Result<Hdr<'_>, String> {
    if s.len() < 12 { return Err(format!("section of {} bytes is too short for the long form", s.len())); }
    let len = usize::from(s[1] & 0x0F) << 8 | usize::from(s[2]);
    if len + 3 != s.len() { return Err(format!("section announces {} bytes, has {}", len + 3, s.len())); }
    if s[1] & 0x80 == 0 { return Err("section syntax indicator not set".into()); }
    let want = crc(&s[..s.len() - 4]).to_be_bytes();
    if s[s.len() - 4..] != want { return Err(format!("checksum {} want {}", hex(&s[s.len() - 4..]), hex(&want))); }
    Ok(Hdr { table_id: s[0], b1: s[1], ext: u16::from(s[3]) << 8 | u16::from(s[4]), version: (s[5] >> 1) & 31, current: s[5] & 1 == 1, num: s[6], last: s[7], body: &s[8..s.len() - 4] })
}

/// splits a descriptor loop that must be filled exactly
pub fn desc_loop(b: &[u8]) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let mut v = Vec::new();
    let mut at = 0;
    while at < b.len() {
        if at + 2 > b.len() { return Err("descriptor loop ends inside a descriptor header".into()); }
        let n = usize::from(b[at + 1]);
        if at + 2 + n > b.len() { return Err(format!("descriptor {:02x} of length {} exceeds its loop", b[at], n)); }
        v.push((b[at], b[at + 2..at + 2 + n].to_vec()));
        at += 2 + n;
    }
    Ok(v)
}

// ---- calendar --------------------------------------------------------------

pub const MAX_TIME: u64 = (65535 - 40587) * 86400 + 86399;

pub fn bcd2(v: u64) -> u8 { (v / 10 % 10) as u8 * 16 + (v % 10) as u8 }
pub fn unbcd2(b: u8) -> u64 { u64::from(b >> 4) * 10 + u64::from(b & 15) }

/// MJD + hhmmss, five bytes
pub fn date5(t: u64) -> [u8; 5] {
    let d = (t / 86400 + 40587) as u16;
    let s = t % 86400;
    [(d >> 8) as u8, d as u8, bcd2(s / 3600), bcd2(s / 60 % 60), bcd2(s % 60)]
}

pub fn undate5(b: &[u8]) -> Result<u64, String> {
    if b.len() < 5 { return Err("date field cut".into()); }
    let d = u64::from(b[0]) << 8 | u64::from(b[1]);
    if d < 40587 { return Err(format!("date before 1970 (mjd {})", d)); }
    for &x in &b[2..5] { if x >> 4 > 9 || x & 15 > 9 { return Err(format!("time byte {:02x} is not BCD", x)); } }
    Ok((d - 40587) * 86400 + unbcd2(b[2]) * 3600 + unbcd2(b[3]) * 60 + unbcd2(b[4]))
}

pub fn hms3(s: u32) -> [u8; 3] { let s = u64::from(s); [bcd2(s / 3600), bcd2(s / 60 % 60), bcd2(s % 60)] }
pub fn hm2(m: u16) -> [u8; 2] { let m = u64::from(m); [bcd2(m / 60), bcd2(m % 60)] }

pub fn rand_time(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0, 1 => MAX_TIME, 2 => r.below(20000) * 86400 % MAX_TIME,
        3 => (r.below(24948) * 86400 + 86399).min(MAX_TIME),
        4 => r.below(400_000), 5 => MAX_TIME - r.below(400_000),
        _ => r.below(MAX_TIME + 1),
    }
}
