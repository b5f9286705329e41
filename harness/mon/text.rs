//! Reference model of DVB text fields (EN 300 468 annex A).

use crate::chartab::table;
use crate::rng::Rng;
use mpegts::textcode::StringDVB;

pub const UTF8: u8 = 21;
pub const PAGES: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

#[derive(Clone, Debug, PartialEq)]
pub struct Text { pub cp: u8, pub data: Vec<u8> }

pub fn selector(cp: u8) -> Vec<u8> {
    match cp { 0 => vec![], 1..=4 => vec![0x10, 0x00, cp], 5..=15 => vec![cp - 4], _ => vec![0x15] }
}

impl Text {
    pub fn empty() -> Text { Text { cp: 0, data: vec![] } }
    pub fn enc(&self) -> Vec<u8> {
        if self.data.is_empty() { return vec![]; }
        let mut v = selector(self.cp);
        v.extend_from_slice(&self.data);
        v
    }
    pub fn sized(&self) -> Vec<u8> { let e = self.enc(); let mut v = vec![e.len() as u8]; v.extend_from_slice(&e); v }
    /// what the text shows, by the reference tables
    pub fn show(&self) -> String { show(self.cp, &self.data) }
    /// reading of an encoded field; None where the standard gives no reading
    pub fn dec(b: &[u8]) -> Option<Text> {
        let q = || Text { cp: 0, data: vec![b'?'] };
        if b.is_empty() { return Some(Text::empty()); }
        Some(match b[0] {
            0x20..=0xFF => Text { cp: 0, data: b.to_vec() },
            0x15 => Text { cp: UTF8, data: b[1..].to_vec() },
            0x01..=0x0B if b[0] != 8 => Text { cp: b[0] + 4, data: b[1..].to_vec() },
            0x10 => {
                if b.len() < 3 { return None; }
                if b[1] == 0 && (1..=15).contains(&b[2]) && b[2] != 12 { Text { cp: b[2], data: b[3..].to_vec() } }
                else if b[1] != 0 || b[2] == 0 || b[2] == UTF8 { return None; }
                else { q() }
            }
            0x00 => return None,
            _ => q(),
        })
    }
    /// builds the library's value, by one of two routes
    pub fn lib(&self, r: &mut Rng) -> StringDVB {
        if self.cp != UTF8 && self.data.iter().any(|&b| (0x80..0xA0).contains(&b) || b >= 0xA0 && table(self.cp).map(|t| t[b as usize - 0xA0] == 0).unwrap_or(true)) || r.coin() {
            StringDVB::from(&self.enc()[..])
        } else {
            StringDVB::from_str(&self.show(), self.cp)
        }
    }
    pub fn same(&self, s: &StringDVB, what: &str) -> Result<(), String> {
        if self.data.is_empty() {
            if !s.is_empty() { return Err(format!("{}: text {:?} should be empty", what, s)); }
            return Ok(());
        }
        if s.get_codepage() != self.cp || s.as_bytes() != &self.data[..] {
            return Err(format!("{}: text table {} bytes {:02x?}, want table {} bytes {:02x?}", what, s.get_codepage(), s.as_bytes(), self.cp, self.data));
        }
        Ok(())
    }
}

pub fn show(cp: u8, data: &[u8]) -> String {
    if cp == UTF8 { return String::from_utf8_lossy(data).into_owned(); }
    let t = match table(cp) { Some(t) => t, None => return String::new() };
    let mut s = String::new();
    for &b in data {
        if b < 0x80 { s.push(b as char); }
        else if b >= 0xA0 {
            let u = t[b as usize - 0xA0];
            s.push(if u == 0 { '?' } else { char::from_u32(u32::from(u)).unwrap_or('?') });
        }
    }
    s
}

/// how a string is to be encoded in a table
pub fn encode(s: &str, cp: u8) -> Vec<u8> {
    if cp == UTF8 { return s.as_bytes().to_vec(); }
    let t = match table(cp) { Some(t) => t, None => return vec![] };
    let mut v = Vec::new();
    for c in s.chars() {
        let u = c as u32;
        if u < 0x80 { v.push(u as u8); }
        else if u >= 0xA0 {
            if let Some(k) = t.iter().position(|&x| x != 0 && u32::from(x) == u) { v.push(0xA0 + k as u8); continue; }
            match u {
                0xAB | 0xBB | 0x201C | 0x201D | 0x201F => v.push(b'"'),
                0x2018 | 0x2019 | 0x201B => v.push(b'\''),
                0x2026 => v.extend_from_slice(b"..."),
                _ => v.push(b'?'),
            }
        }
    }
    v
}

pub fn rand_char(r: &mut Rng) -> char {
    let u = match r.below(6) {
        0 | 1 => r.range(0x20, 0x7E),
        2 => r.range(0xA0, 0x7FF),
        3 => r.range(0x800, 0xD7FF),
        4 => r.range(0x10000, 0x10FFFF),
        _ => r.range(0x400, 0x45F),
    };
    char::from_u32(u as u32).unwrap_or('x')
}

/// text of at most `max` emitted bytes whose every code is assigned
pub fn rand_text(r: &mut Rng, max: usize) -> Text {
    let cp = if r.one_in(3) { 0 } else { r.pick(&PAGES) };
    let over = selector(cp).len();
    if max <= over || r.one_in(6) { return Text::empty(); }
    let cap = max - over;
    let n = match r.below(6) { 0 => cap, 1 => 1, 2 => r.urange(0, cap), _ => r.urange(0, cap.min(24)) };
    let mut data = Vec::new();
    if cp == UTF8 {
        loop {
            let mut buf = [0u8; 4];
            let e = rand_char(r).encode_utf8(&mut buf).as_bytes().to_vec();
            if data.len() + e.len() > n { break; }
            data.extend_from_slice(&e);
        }
    } else if let Some(t) = table(cp) {
        while data.len() < n {
            let b = r.u8();
            if (0x20..0x7F).contains(&b) || b >= 0xA0 && t[b as usize - 0xA0] != 0 { data.push(b); }
        }
    }
    if data.is_empty() { return Text::empty(); }
    // runs of one character; blanks and punctuation; words that come again
    if r.one_in(4) {
        match r.below(4) {
            3 => {
                let p = r.pick(&PHRASES).as_bytes();
                if data.len() >= p.len() {
                    let at = r.idx(data.len() - p.len() + 1);
                    if cp != UTF8 || data[at..at + p.len()].iter().all(|&x| x < 0x80) { data[at..at + p.len()].copy_from_slice(p); }
                }
            }
            0 => {
                let b = r.pick(b"..  --aaZ0_*,'!?");
                let (at, k) = (match r.below(3) { 0 => 0, 1 => data.len() - 1, _ => r.idx(data.len()) }, r.urange(1, 6));
                let end = data.len().min(at + k);
                if data[at..end].iter().all(|&x| x < 0x80 || cp != UTF8) { for x in data[at..end].iter_mut() { *x = b; } }
            }
            1 => for x in data.iter_mut() { if *x < 0x80 && r.one_in(4) { *x = r.pick(b"   .,:-") } },
            _ => {
                let k = data.len() / 2;
                let (a, b) = data.split_at_mut(k);
                if cp != UTF8 { b[..k].copy_from_slice(a); }
            }
        }
    }
    Text { cp, data }
}

/// sequences that invite being taken for something else
pub const PHRASES: [&str; 40] = ["&amp;", "&lt;", "&gt;", "&quot;", "&#39;", "&nbsp;", "%20", "\\n", "\\t", "\\", "...", "--", "---", "<<", ">>", "''", "``", "(c)", "(C)", "(R)", "(tm)", "1/2", "http://", "<b>", "</i>",
    "<br>", "{0}", "%s", "$1", "fi", "ae", "oe", "ss", "ij", "??", "?!", ":-)", "\"\"", "|", "~"];

pub fn rand_code(r: &mut Rng) -> [u8; 3] {
    match r.below(6) {
        0 => *b"eng", 1 => *b"rus",
        2 => *r.pick(&[b"und", b"mul", b"mis", b"zxx", b"qaa", b"nar", b"QAA", b"ENG", b"   ", b"GBR", b"deu", b"ger", b"???"]),
        _ => [r.range(0x20, 0x7E) as u8, r.range(0x20, 0x7E) as u8, r.range(0x20, 0x7E) as u8],
    }
}
