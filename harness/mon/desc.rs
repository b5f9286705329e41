//! Reference model of descriptors: encoder, decoder, generator and comparison
//! with the library's typed values.

use crate::refm::{bcd2, date5, hex, hm2, unbcd2, undate5};
use crate::rng::Rng;
use crate::text::{rand_code, rand_text, Text};
use mpegts::psi::*;
use mpegts::textcode::StringDVB;

#[derive(Clone, Debug, PartialEq)]
pub struct Lto { pub code: [u8; 3], pub region: u8, pub pol: u8, pub off: u16, pub change: u64, pub next: u16 }

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Raw(u8, Vec<u8>),
    X09 { caid: u16, pid: u16, data: Vec<u8> },
    X0A(Vec<([u8; 3], u8)>),
    X0E(u32),
    X40(Text),
    X41(Vec<(u16, u8)>),
    /// frequency in 10 kHz, position in 0.1 degree
    X43 { freq: u32, pos: u16, we: u8, pol: u8, rof: u8, s2: u8, modu: u8, sr: u32, fec: u8 },
    /// frequency in 100 Hz
    X44 { freq: u32, outer: u8, modu: u8, sr: u32, fec: u8 },
    X48 { st: u8, prov: Text, name: Text },
    X4D { lang: [u8; 3], name: Text, text: Text },
    X4E { num: u8, last: u8, lang: [u8; 3], items: Vec<(Text, Text)>, text: Text },
    X52(u8),
    X58(Vec<Lto>),
    /// frequency in 10 Hz
    X5A { freq: u32, bw: u8, prio: u8, ts: u8, mpe: u8, modu: u8, hier: u8, hp: u8, lp: u8, gi: u8, tm: u8, other: u8 },
    X83(Vec<(u16, u8, u16)>),
}

pub const TYPED: [u8; 14] = [0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];

fn bcd_bytes(mut v: u64, digits: usize) -> Vec<u8> {
    let mut out = vec![0u8; digits / 2];
    for b in out.iter_mut().rev() { *b = bcd2(v % 100); v /= 100; }
    out
}

fn unbcd(b: &[u8]) -> Option<u64> {
    let mut v = 0;
    for &x in b {
        if x >> 4 > 9 || x & 15 > 9 { return None; }
        v = v * 100 + unbcd2(x);
    }
    Some(v)
}

impl D {
    pub fn tag(&self) -> u8 {
        match self {
            D::Raw(t, _) => *t, D::X09 { .. } => 0x09, D::X0A(_) => 0x0A, D::X0E(_) => 0x0E, D::X40(_) => 0x40, D::X41(_) => 0x41,
            D::X43 { .. } => 0x43, D::X44 { .. } => 0x44, D::X48 { .. } => 0x48, D::X4D { .. } => 0x4D, D::X4E { .. } => 0x4E,
            D::X52(_) => 0x52, D::X58(_) => 0x58, D::X5A { .. } => 0x5A, D::X83(_) => 0x83,
        }
    }

    /// body and, per bit, whether the value carries no information for the
    /// library (reserved, or a digit the library does not model)
    fn layout(&self) -> (Vec<u8>, Vec<(usize, u8)>) {
        let mut b = Vec::new();
        let mut m = Vec::new();
        match self {
            D::Raw(_, d) => b.extend_from_slice(d),
            D::X09 { caid, pid, data } => {
                b.extend_from_slice(&caid.to_be_bytes());
                b.extend_from_slice(&(0xE000 | pid).to_be_bytes());
                m.push((2, 0xE0));
                b.extend_from_slice(data);
            }
            D::X0A(v) => for (c, t) in v { b.extend_from_slice(c); b.push(*t); },
            D::X0E(v) => { b.extend_from_slice(&(0xC0_0000 | v).to_be_bytes()[1..]); m.push((0, 0xC0)); }
            D::X40(t) => b.extend_from_slice(&t.enc()),
            D::X41(v) => for (s, t) in v { b.extend_from_slice(&s.to_be_bytes()); b.push(*t); },
            D::X43 { freq, pos, we, pol, rof, s2, modu, sr, fec } => {
                b.extend_from_slice(&bcd_bytes(u64::from(*freq), 8));
                b.extend_from_slice(&bcd_bytes(u64::from(*pos), 4));
                b.push(we << 7 | pol << 5 | rof << 3 | s2 << 2 | modu);
                b.extend_from_slice(&bcd_bytes(u64::from(*sr), 6));
                b.push(*fec);
                m.push((10, 0xF0));
            }
            D::X44 { freq, outer, modu, sr, fec } => {
                b.extend_from_slice(&bcd_bytes(u64::from(*freq), 8));
                b.push(0xFF);
                b.push(0xF0 | outer);
                b.push(*modu);
                b.extend_from_slice(&bcd_bytes(u64::from(*sr), 6));
                b.push(*fec);
                m.push((4, 0xFF)); m.push((5, 0xF0)); m.push((10, 0xF0));
            }
            D::X48 { st, prov, name } => { b.push(*st); b.extend_from_slice(&prov.sized()); b.extend_from_slice(&name.sized()); }
            D::X4D { lang, name, text } => { b.extend_from_slice(lang); b.extend_from_slice(&name.sized()); b.extend_from_slice(&text.sized()); }
            D::X4E { num, last, lang, items, text } => {
                b.push(num << 4 | last);
                b.extend_from_slice(lang);
                let mut it = Vec::new();
                for (d, t) in items { it.extend_from_slice(&d.sized()); it.extend_from_slice(&t.sized()); }
                b.push(it.len() as u8);
                b.extend_from_slice(&it);
                b.extend_from_slice(&text.sized());
            }
            D::X52(t) => b.push(*t),
            D::X58(v) => for l in v {
                b.extend_from_slice(&l.code);
                m.push((b.len(), 0x02));
                b.push(l.region << 2 | 2 | l.pol);
                b.extend_from_slice(&hm2(l.off));
                b.extend_from_slice(&date5(l.change));
                b.extend_from_slice(&hm2(l.next));
            },
            D::X5A { freq, bw, prio, ts, mpe, modu, hier, hp, lp, gi, tm, other } => {
                b.extend_from_slice(&freq.to_be_bytes());
                b.push(bw << 5 | prio << 4 | ts << 3 | mpe << 2 | 3);
                b.push(modu << 6 | hier << 3 | hp);
                b.push(lp << 5 | gi << 3 | tm << 1 | other);
                b.extend_from_slice(&[0xFF; 4]);
                m.push((4, 3));
                for i in 7..11 { m.push((i, 0xFF)); }
            }
            D::X83(v) => for (s, vis, lcn) in v {
                b.extend_from_slice(&s.to_be_bytes());
                m.push((b.len(), 0x7C));
                b.extend_from_slice(&(u16::from(*vis) << 15 | 0x7C00 | lcn).to_be_bytes());
            },
        }
        (b, m)
    }

    pub fn body(&self) -> Vec<u8> { self.layout().0 }

    /// tag, length, body as the standard lays it out (reserved bits one)
    pub fn enc(&self) -> Vec<u8> { frame(self.tag(), &self.body()) }

    /// the same with reserved bits drawn at random
    pub fn enc_any(&self, r: &mut Rng) -> Vec<u8> {
        let (mut b, m) = self.layout();
        for (i, k) in m { b[i] = b[i] & !k | r.u8() & k; }
        frame(self.tag(), &b)
    }

    pub fn len(&self) -> usize { 2 + self.body().len() }

    /// reading of a framed descriptor; `None` when a contained text has no
    /// reading defined by the standard
    pub fn dec(tag: u8, b: &[u8]) -> Option<D> {
        let raw = || D::Raw(tag, b.to_vec());
        let u16at = |i: usize| u16::from(b[i]) << 8 | u16::from(b[i + 1]);
        Some(match tag {
            0x09 if b.len() >= 4 => D::X09 { caid: u16at(0), pid: u16at(2) & 0x1FFF, data: b[4..].to_vec() },
            0x0A if b.len() % 4 == 0 => D::X0A(b.chunks(4).map(|c| ([c[0], c[1], c[2]], c[3])).collect()),
            0x0E if b.len() == 3 => D::X0E((u32::from(b[0]) << 16 | u32::from(b[1]) << 8 | u32::from(b[2])) & 0x3F_FFFF),
            0x40 => D::X40(Text::dec(b)?),
            0x41 if b.len() % 3 == 0 => D::X41(b.chunks(3).map(|c| (u16::from(c[0]) << 8 | u16::from(c[1]), c[2])).collect()),
            0x43 if b.len() == 11 => match (unbcd(&b[0..4]), unbcd(&b[4..6]), unbcd(&b[7..10])) {
                (Some(f), Some(p), Some(s)) => D::X43 {
                    freq: f as u32, pos: p as u16, we: b[6] >> 7, pol: b[6] >> 5 & 3, rof: b[6] >> 3 & 3, s2: b[6] >> 2 & 1, modu: b[6] & 3,
                    sr: s as u32, fec: b[10] & 15,
                },
                _ => raw(),
            },
            0x44 if b.len() == 11 => match (unbcd(&b[0..4]), unbcd(&b[7..10])) {
                (Some(f), Some(s)) if f * 100 <= u64::from(u32::MAX) => D::X44 { freq: f as u32, outer: b[5] & 15, modu: b[6], sr: s as u32, fec: b[10] & 15 },
                _ => raw(),
            },
            0x48 => {
                if b.len() < 3 { return Some(raw()); }
                let p = usize::from(b[1]);
                if 2 + p >= b.len() { return Some(raw()); }
                let n = usize::from(b[2 + p]);
                if 3 + p + n != b.len() { return Some(raw()); }
                D::X48 { st: b[0], prov: Text::dec(&b[2..2 + p])?, name: Text::dec(&b[3 + p..])? }
            }
            0x4D => {
                if b.len() < 5 { return Some(raw()); }
                let p = usize::from(b[3]);
                if 4 + p >= b.len() { return Some(raw()); }
                let n = usize::from(b[4 + p]);
                if 5 + p + n != b.len() { return Some(raw()); }
                D::X4D { lang: [b[0], b[1], b[2]], name: Text::dec(&b[4..4 + p])?, text: Text::dec(&b[5 + p..])? }
            }
            0x4E => {
                if b.len() < 6 { return Some(raw()); }
                let p = usize::from(b[4]);
                if 5 + p >= b.len() { return Some(raw()); }
                let n = usize::from(b[5 + p]);
                if 6 + p + n != b.len() { return Some(raw()); }
                let it = &b[5..5 + p];
                let mut at = 0;
                let mut items = Vec::new();
                let mut unread = false;
                while at < it.len() {
                    let a = usize::from(it[at]);
                    if at + 1 + a >= it.len() { return Some(raw()); }
                    let c = usize::from(it[at + 1 + a]);
                    if at + 2 + a + c > it.len() { return Some(raw()); }
                    match (Text::dec(&it[at + 1..at + 1 + a]), Text::dec(&it[at + 2 + a..at + 2 + a + c])) {
                        (Some(x), Some(y)) => items.push((x, y)),
                        _ => unread = true,
                    }
                    at += 2 + a + c;
                }
                if unread { return None; }
                D::X4E { num: b[0] >> 4, last: b[0] & 15, lang: [b[1], b[2], b[3]], items, text: Text::dec(&b[6 + p..])? }
            }
            0x52 if b.len() == 1 => D::X52(b[0]),
            0x58 if b.len() % 13 == 0 => {
                let mut v = Vec::new();
                for c in b.chunks(13) {
                    // dates before 1970, or digits that are no clock reading, have no value the library can hold
                    let ch = match undate5(&c[6..11]) { Ok(t) => t, Err(_) => return None };
                    let clock = |x: &[u8], h: u8| x[0] >> 4 < 10 && x[0] & 15 < 10 && x[1] >> 4 < 6 && x[1] & 15 < 10 && x[0] < h;
                    if !clock(&c[4..6], 0x24) || !clock(&c[11..13], 0x24) || !clock(&c[8..10], 0x24) || c[10] >= 0x60 { return None; }
                    v.push(Lto { code: [c[0], c[1], c[2]], region: c[3] >> 2, pol: c[3] & 1, off: (unbcd2(c[4]) * 60 + unbcd2(c[5])) as u16, change: ch, next: (unbcd2(c[11]) * 60 + unbcd2(c[12])) as u16 });
                }
                D::X58(v)
            }
            0x5A if b.len() == 11 => {
                let f = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
                if u64::from(f) * 10 > u64::from(u32::MAX) { return Some(raw()); }
                D::X5A {
                    freq: f, bw: b[4] >> 5, prio: b[4] >> 4 & 1, ts: b[4] >> 3 & 1, mpe: b[4] >> 2 & 1, modu: b[5] >> 6, hier: b[5] >> 3 & 7, hp: b[5] & 7,
                    lp: b[6] >> 5, gi: b[6] >> 3 & 3, tm: b[6] >> 1 & 3, other: b[6] & 1,
                }
            }
            0x83 if b.len() % 4 == 0 => D::X83(b.chunks(4).map(|c| (u16::from(c[0]) << 8 | u16::from(c[1]), c[2] >> 7, (u16::from(c[2]) << 8 | u16::from(c[3])) & 0x3FF)).collect()),
            _ => raw(),
        })
    }

    /// builds the library's value
    pub fn push(&self, l: &mut Descriptors, r: &mut Rng) {
        match self {
            D::Raw(t, d) => l.push(DescRaw { tag: *t, data: d.clone() }),
            D::X09 { caid, pid, data } => l.push(Desc09 { caid: *caid, pid: *pid, data: data.clone() }),
            D::X0A(v) => l.push(Desc0A { items: v.iter().map(|(c, t)| Desc0Ai { code: code(c), audio_type: *t }).collect() }),
            D::X0E(v) => l.push(Desc0E { bitrate: *v }),
            D::X40(t) => l.push(Desc40 { name: t.lib(r) }),
            D::X41(v) => l.push(Desc41 { items: v.iter().map(|(s, t)| Desc41i { service_id: *s, service_type: *t }).collect() }),
            D::X43 { freq, pos, we, pol, rof, s2, modu, sr, fec } => l.push(Desc43 {
                frequency: freq * 10, orbital_position: pos * 6, west_east_flag: *we, polarization: *pol, rof: *rof, s2: *s2, modulation: *modu,
                symbol_rate: *sr, fec: *fec,
            }),
            D::X44 { freq, outer, modu, sr, fec } => l.push(Desc44 { frequency: freq * 100, fec_outer: *outer, modulation: *modu, symbol_rate: *sr, fec: *fec }),
            D::X48 { st, prov, name } => l.push(Desc48 { service_type: *st, provider: prov.lib(r), name: name.lib(r) }),
            D::X4D { lang, name, text } => l.push(Desc4D { lang: code(lang), name: name.lib(r), text: text.lib(r) }),
            D::X4E { num, last, lang, items, text } => l.push(Desc4E {
                number: *num, last_number: *last, lang: code(lang), items: items.iter().map(|(a, b)| (a.lib(r), b.lib(r))).collect(), text: text.lib(r),
            }),
            D::X52(t) => l.push(Desc52 { tag: *t }),
            D::X58(v) => l.push(Desc58 {
                items: v.iter().map(|x| Desc58i {
                    country_code: code(&x.code), region_id: x.region, offset_polarity: x.pol, offset: x.off, time_of_change: x.change, next_offset: x.next,
                }).collect(),
            }),
            D::X5A { freq, bw, prio, ts, mpe, modu, hier, hp, lp, gi, tm, other } => l.push(Desc5A {
                frequency: freq * 10, bandwidth: *bw, priority: *prio, time_slicing: *ts, mpe_fec: *mpe, modulation: *modu, hierarchy: *hier,
                code_rate_hp: *hp, code_rate_lp: *lp, guard_interval: *gi, transmission: *tm, other_frequency_flag: *other,
            }),
            D::X83(v) => l.push(Desc83 { items: v.iter().map(|(s, vis, n)| Desc83i { service_id: *s, visible: *vis, lcn: *n }).collect() }),
        }
    }

    /// compares a descriptor held by the library with this one, field by field
    pub fn same(&self, d: &Descriptor) -> Result<(), String> {
        if d.tag() != self.tag() { return Err(format!("descriptor tag {:02x} want {:02x}", d.tag(), self.tag())); }
        let w = format!("descriptor {:02x}", self.tag());
        macro_rules! eq { ($($got:expr, $want:expr);* $(;)?) => { $( if $got != $want { return Err(format!("{}: {} is {:?}, want {:?}", w, stringify!($got), $got, $want)); } )* } }
        fn code_is(c: &StringDVB, want: &[u8; 3], w: &str) -> Result<(), String> {
            if c.as_bytes() != want { return Err(format!("{}: code {:02x?} want {:02x?}", w, c.as_bytes(), want)); }
            Ok(())
        }
        match self {
            D::Raw(t, data) => { let x = d.downcast_ref::<DescRaw>(); eq!(x.tag, *t; x.data, *data); }
            D::X09 { caid, pid, data } => { let x = d.downcast_ref::<Desc09>(); eq!(x.caid, *caid; x.pid, *pid; x.data, *data); }
            D::X0A(v) => {
                let x = d.downcast_ref::<Desc0A>();
                eq!(x.items.len(), v.len());
                for (a, b) in x.items.iter().zip(v) { code_is(&a.code, &b.0, &w)?; eq!(a.audio_type, b.1); }
            }
            D::X0E(v) => { let x = d.downcast_ref::<Desc0E>(); eq!(x.bitrate, *v); }
            D::X40(t) => { let x = d.downcast_ref::<Desc40>(); t.same(&x.name, &w)?; }
            D::X41(v) => {
                let x = d.downcast_ref::<Desc41>();
                eq!(x.items.len(), v.len());
                for (a, b) in x.items.iter().zip(v) { eq!(a.service_id, b.0; a.service_type, b.1); }
            }
            D::X43 { freq, pos, we, pol, rof, s2, modu, sr, fec } => {
                let x = d.downcast_ref::<Desc43>();
                eq!(x.frequency, freq * 10; x.orbital_position, pos * 6; x.west_east_flag, *we; x.polarization, *pol; x.rof, *rof; x.s2, *s2;
                    x.modulation, *modu; x.symbol_rate, *sr; x.fec, *fec);
            }
            D::X44 { freq, outer, modu, sr, fec } => {
                let x = d.downcast_ref::<Desc44>();
                eq!(x.frequency, freq * 100; x.fec_outer, *outer; x.modulation, *modu; x.symbol_rate, *sr; x.fec, *fec);
            }
            D::X48 { st, prov, name } => {
                let x = d.downcast_ref::<Desc48>();
                eq!(x.service_type, *st);
                prov.same(&x.provider, &w)?;
                name.same(&x.name, &w)?;
            }
            D::X4D { lang, name, text } => {
                let x = d.downcast_ref::<Desc4D>();
                code_is(&x.lang, lang, &w)?;
                name.same(&x.name, &w)?;
                text.same(&x.text, &w)?;
            }
            D::X4E { num, last, lang, items, text } => {
                let x = d.downcast_ref::<Desc4E>();
                eq!(x.number, *num; x.last_number, *last; x.items.len(), items.len());
                code_is(&x.lang, lang, &w)?;
                for (a, b) in x.items.iter().zip(items) { b.0.same(&a.0, &w)?; b.1.same(&a.1, &w)?; }
                text.same(&x.text, &w)?;
            }
            D::X52(t) => { let x = d.downcast_ref::<Desc52>(); eq!(x.tag, *t); }
            D::X58(v) => {
                let x = d.downcast_ref::<Desc58>();
                eq!(x.items.len(), v.len());
                for (a, b) in x.items.iter().zip(v) {
                    code_is(&a.country_code, &b.code, &w)?;
                    eq!(a.region_id, b.region; a.offset_polarity, b.pol; a.offset, b.off; a.time_of_change, b.change; a.next_offset, b.next);
                }
            }
            D::X5A { freq, bw, prio, ts, mpe, modu, hier, hp, lp, gi, tm, other } => {
                let x = d.downcast_ref::<Desc5A>();
                eq!(x.frequency, freq * 10; x.bandwidth, *bw; x.priority, *prio; x.time_slicing, *ts; x.mpe_fec, *mpe; x.modulation, *modu;
                    x.hierarchy, *hier; x.code_rate_hp, *hp; x.code_rate_lp, *lp; x.guard_interval, *gi; x.transmission, *tm; x.other_frequency_flag, *other);
            }
            D::X83(v) => {
                let x = d.downcast_ref::<Desc83>();
                eq!(x.items.len(), v.len());
                for (a, b) in x.items.iter().zip(v) { eq!(a.service_id, b.0; a.visible, b.1; a.lcn, b.2); }
            }
        }
        Ok(())
    }
}

pub fn frame(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag, body.len() as u8];
    v.extend_from_slice(body);
    v
}

fn code(c: &[u8; 3]) -> StringDVB {
    if c.iter().all(|b| (0x20..0x7F).contains(b)) { StringDVB::from_str(&c.iter().map(|&b| b as char).collect::<String>(), 0) } else { StringDVB::from(&c[..]) }
}

pub fn same_list(l: &Descriptors, want: &[D], what: &str) -> Result<(), String> {
    if l.len() != want.len() { return Err(format!("{}: {} descriptors, want {}", what, l.len(), want.len())); }
    for (i, (d, w)) in l.iter().zip(want).enumerate() { w.same(d).map_err(|e| format!("{}[{}]: {}", what, i, e))?; }
    Ok(())
}

/// compares a decoded descriptor loop with the expected descriptors
pub fn same_loop(got: &[(u8, Vec<u8>)], want: &[D], what: &str) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{}: {} descriptors on the wire, want {}", what, got.len(), want.len())); }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let b = w.body();
        if g.0 != w.tag() || g.1 != b { return Err(format!("{}[{}]: wire {:02x}:{} want {:02x}:{}", what, i, g.0, hex(&g.1), w.tag(), hex(&b))); }
    }
    Ok(())
}

pub fn build(v: &[D], r: &mut Rng) -> Descriptors {
    let mut l = Descriptors::default();
    for d in v { d.push(&mut l, r); }
    l
}

pub fn enc_list(v: &[D]) -> Vec<u8> { v.iter().flat_map(|d| d.enc()).collect() }
pub fn enc_list_any(v: &[D], r: &mut Rng) -> Vec<u8> { v.iter().flat_map(|d| d.enc_any(r)).collect() }

fn unknown_tag(r: &mut Rng) -> u8 {
    loop {
        let t = r.u8();
        if !TYPED.contains(&t) { return t; }
    }
}

/// typed descriptor with the given tag and a total length of at most `max`
/// (2..=257) bytes; None if no such descriptor fits
pub fn gen_typed(r: &mut Rng, tag: u8, max: usize) -> Option<D> {
    let max = max.min(257);
    let list = |r: &mut Rng, each: usize| { let m = (max - 2) / each; r.count(m) };
    Some(match tag {
        0x09 => { if max < 6 { return None; } let n = r.count(max - 6); D::X09 { caid: r.e16(), pid: r.bits(13) as u16, data: r.body(n) } }
        0x0A => { let n = list(r, 4); D::X0A((0..n).map(|_| (rand_code(r), r.e8())).collect()) }
        0x0E => { if max < 5 { return None; } D::X0E(r.bits(22) as u32) }
        0x40 => D::X40(rand_text(r, max - 2)),
        0x41 => { let n = list(r, 3); D::X41((0..n).map(|_| (r.e16(), r.e8())).collect()) }
        0x43 => {
            if max < 13 { return None; }
            D::X43 {
                freq: r.edge(99_999_999) as u32, pos: r.edge(9999) as u16, we: r.bits(1) as u8, pol: r.bits(2) as u8, rof: r.bits(2) as u8,
                s2: r.bits(1) as u8, modu: r.bits(2) as u8, sr: r.edge(999_999) as u32, fec: r.bits(4) as u8,
            }
        }
        0x44 => {
            if max < 13 { return None; }
            D::X44 { freq: r.edge(42_949_672) as u32, outer: r.bits(4) as u8, modu: r.e8(), sr: r.edge(999_999) as u32, fec: r.bits(4) as u8 }
        }
        0x48 => {
            if max < 5 { return None; }
            let prov = rand_text(r, max - 5);
            let left = max - 5 - prov.enc().len();
            let name = if r.one_in(8) && prov.enc().len() <= left { prov.clone() } else { rand_text(r, left) };
            D::X48 { st: r.e8(), prov, name }
        }
        0x4D => {
            if max < 7 { return None; }
            let name = rand_text(r, max - 7);
            let left = max - 7 - name.enc().len();
            let text = if r.one_in(8) && name.enc().len() <= left { name.clone() } else { rand_text(r, left) };
            D::X4D { lang: rand_code(r), name, text }
        }
        0x4E => {
            if max < 8 { return None; }
            let mut left = max - 8;
            let mut items = Vec::new();
            for _ in 0..r.urange(0, 5) {
                if left < 2 { break; }
                left -= 2;
                let a = rand_text(r, left.min(60));
                left -= a.enc().len();
                let b = if r.one_in(8) && a.enc().len() <= left { a.clone() } else { rand_text(r, left.min(80)) };
                left -= b.enc().len();
                items.push((a, b));
            }
            D::X4E { num: r.bits(4) as u8, last: r.bits(4) as u8, lang: rand_code(r), items, text: rand_text(r, left) }
        }
        0x52 => { if max < 3 { return None; } D::X52(r.e8()) }
        0x58 => {
            let n = list(r, 13);
            D::X58((0..n).map(|_| Lto {
                code: rand_code(r), region: r.bits(6) as u8, pol: r.bits(1) as u8, off: r.edge(1439) as u16, change: crate::refm::rand_time(r), next: r.edge(1439) as u16,
            }).collect())
        }
        0x5A => {
            if max < 13 { return None; }
            D::X5A {
                freq: r.edge(429_496_729) as u32, bw: r.bits(3) as u8, prio: r.bits(1) as u8, ts: r.bits(1) as u8, mpe: r.bits(1) as u8,
                modu: r.bits(2) as u8, hier: r.bits(3) as u8, hp: r.bits(3) as u8, lp: r.bits(3) as u8, gi: r.bits(2) as u8, tm: r.bits(2) as u8, other: r.bits(1) as u8,
            }
        }
        0x83 => { let n = list(r, 4); D::X83((0..n).map(|_| (r.e16(), r.bits(1) as u8, r.bits(10) as u16)).collect()) }
        _ => return None,
    })
}

pub fn gen_desc(r: &mut Rng, max: usize) -> Option<D> {
    if max < 2 { return None; }
    if r.one_in(3) {
        let t = unknown_tag(r);
        let n = r.count(max.min(257) - 2);
        return Some(D::Raw(t, r.body(n)));
    }
    let t = r.pick(&TYPED);
    gen_typed(r, t, max)
}

/// list whose encoded length is at most `max`
pub fn gen_list(r: &mut Rng, max: usize) -> Vec<D> {
    let mut v = Vec::new();
    let mut left = max;
    let n = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => r.urange(0, 6), _ => r.urange(0, 40) };
    for _ in 0..n {
        let cap = if r.one_in(3) { left } else { left.min(40) };
        match gen_desc(r, cap) {
            Some(d) => { left -= d.len(); v.push(d); }
            None => break,
        }
        // now and then one that is there already, whole or with other contents
        if r.one_in(6) {
            let k = if r.coin() { v.len() - 1 } else { r.idx(v.len()) };
            let d = if r.coin() { Some(v[k].clone()) } else { let t = v[k].tag(); if TYPED.contains(&t) { gen_typed(r, t, left.min(60).max(2)) } else { let n = r.count(20); Some(D::Raw(t, r.body(n))) } };
            if let Some(d) = d { if d.len() <= left { left -= d.len(); v.push(d); } }
        }
    }
    v
}

/// list whose encoded length is exactly `len` (0 or >= 2)
pub fn exact_list(r: &mut Rng, len: usize) -> Vec<D> {
    let mut v = if len > 60 { gen_list(r, len / 2) } else { vec![] };
    let mut left = len - enc_list(&v).len();
    while left > 0 {
        let mut n = left.min(257);
        if left > n && left - n < 2 { n -= 2; }
        let t = unknown_tag(r);
        v.push(D::Raw(t, r.body(n - 2)));
        left -= n;
    }
    v
}
