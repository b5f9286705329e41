//! Reference model of the SI/PSI tables: generator, independent encoder into
//! sections (arbitrary split, arbitrary reserved bits), independent decoder of
//! emitted sections, construction of and comparison with library values.

use crate::desc::*;
use crate::refm::*;
use crate::rng::Rng;
use mpegts::psi::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Pat, Pmt, Nit, Sdt, Eit, Tdt, Tot }

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    /// pnr (PAT, SDT), tsid (NIT), event id (EIT), stream type (PMT)
    pub id: u16,
    /// pid (PAT, PMT), onid (NIT)
    pub id2: u16,
    /// SDT: schedule flag, p/f flag, running, free CA; EIT: -, -, status, ca
    pub flags: [u8; 4],
    pub start: u64,
    pub dur: u32,
    pub desc: Vec<D>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tab {
    pub kind: Kind,
    pub table_id: u8,
    pub version: u8,
    /// table id extension: tsid (PAT, SDT), pnr (PMT, EIT), network id (NIT)
    pub ext: u16,
    /// PCR pid (PMT), onid (SDT, EIT)
    pub a: u16,
    /// tsid (EIT)
    pub b: u16,
    pub time: u64,
    pub desc: Vec<D>,
    pub items: Vec<Item>,
}

impl Kind {
    pub fn item_head(self) -> usize { match self { Kind::Pat => 4, Kind::Pmt | Kind::Sdt => 5, Kind::Nit => 6, Kind::Eit => 12, _ => 0 } }
    /// bytes of a section besides descriptors of the table and entries
    pub fn base(self) -> usize { match self { Kind::Pat => 12, Kind::Pmt => 16, Kind::Nit => 16, Kind::Sdt => 15, Kind::Eit => 18, Kind::Tdt => 8, Kind::Tot => 14 } }
    pub fn limit(self) -> usize { if self == Kind::Eit { 4096 } else { 1024 } }
    pub fn has_desc(self) -> bool { matches!(self, Kind::Pmt | Kind::Nit | Kind::Tot) }
    pub fn item_has_desc(self) -> bool { !matches!(self, Kind::Pat) }
    /// largest entry that fits a section of its own
    pub fn max_item(self) -> usize { self.limit() - self.base() - if self == Kind::Eit { 1 } else { 0 } }
}

impl Item {
    pub fn len(&self, k: Kind) -> usize { k.item_head() + self.desc.iter().map(|d| d.len()).sum::<usize>() }

    fn enc(&self, k: Kind, r: &mut Rng, any: bool) -> Vec<u8> {
        let mut v = Vec::new();
        let rb = |r: &mut Rng, m: u8| if any { r.u8() & m } else { m };
        let dl = if any { enc_list_any(&self.desc, r) } else { enc_list(&self.desc) };
        let l = dl.len() as u16;
        match k {
            Kind::Pat => {
                v.extend_from_slice(&self.id.to_be_bytes());
                v.push(rb(r, 0xE0) | (self.id2 >> 8) as u8);
                v.push(self.id2 as u8);
            }
            Kind::Pmt => {
                v.push(self.id as u8);
                v.push(rb(r, 0xE0) | (self.id2 >> 8) as u8);
                v.push(self.id2 as u8);
                v.push(rb(r, 0xF0) | (l >> 8) as u8);
                v.push(l as u8);
            }
            Kind::Nit => {
                v.extend_from_slice(&self.id.to_be_bytes());
                v.extend_from_slice(&self.id2.to_be_bytes());
                v.push(rb(r, 0xF0) | (l >> 8) as u8);
                v.push(l as u8);
            }
            Kind::Sdt => {
                v.extend_from_slice(&self.id.to_be_bytes());
                v.push(rb(r, 0xFC) | self.flags[0] << 1 | self.flags[1]);
                v.push(self.flags[2] << 5 | self.flags[3] << 4 | (l >> 8) as u8);
                v.push(l as u8);
            }
            Kind::Eit => {
                v.extend_from_slice(&self.id.to_be_bytes());
                v.extend_from_slice(&date5(self.start));
                v.extend_from_slice(&hms3(self.dur));
                v.push(self.flags[2] << 5 | self.flags[3] << 4 | (l >> 8) as u8);
                v.push(l as u8);
            }
            _ => {}
        }
        v.extend_from_slice(&dl);
        v
    }
}

pub fn gen_item(r: &mut Rng, k: Kind, max_desc: usize) -> Item {
    let mut it = Item { id: r.e16(), id2: r.e16(), flags: [0; 4], start: 0, dur: 0, desc: vec![] };
    match k {
        Kind::Pat => it.id2 &= 0x1FFF,
        Kind::Pmt => { it.id &= 0xFF; it.id2 &= 0x1FFF; }
        Kind::Sdt => it.flags = [r.bits(1) as u8, r.bits(1) as u8, r.bits(3) as u8, r.bits(1) as u8],
        Kind::Eit => {
            it.flags = [0, 0, r.bits(3) as u8, r.bits(1) as u8];
            it.start = rand_time(r);
            it.dur = r.edge(86399) as u32;
        }
        _ => {}
    }
    if k.item_has_desc() { it.desc = gen_list(r, max_desc); }
    // ids a kind does not have stay zero so that models compare equal
    match k { Kind::Sdt | Kind::Eit => it.id2 = 0, _ => {} }
    it
}

pub fn table_id(r: &mut Rng, k: Kind) -> u8 {
    match k {
        Kind::Pat => 0, Kind::Pmt => 2, Kind::Nit => r.pick(&[0x40, 0x41]), Kind::Sdt => r.pick(&[0x42, 0x46]),
        Kind::Eit => match r.below(3) { 0 => r.pick(&[0x4E, 0x4F]), 1 => 0x50 + r.below(16) as u8, _ => 0x60 + r.below(16) as u8 },
        Kind::Tdt => 0x70, Kind::Tot => 0x73,
    }
}

/// table header fields, no entries
pub fn gen_head(r: &mut Rng, k: Kind) -> Tab {
    let mut t = Tab { kind: k, table_id: table_id(r, k), version: r.bits(5) as u8, ext: r.e16(), a: r.e16(), b: r.e16(), time: 0, desc: vec![], items: vec![] };
    match k {
        Kind::Pat => { t.a = 0; t.b = 0; }
        Kind::Pmt => { t.a &= 0x1FFF; t.b = 0; }
        Kind::Nit => { t.a = 0; t.b = 0; }
        Kind::Sdt => t.b = 0,
        Kind::Eit => {}
        Kind::Tdt | Kind::Tot => { t.version = 0; t.ext = 0; t.a = 0; t.b = 0; t.time = rand_time(r); }
    }
    t
}

/// table of 128 to some 600 packets
pub fn gen_huge(r: &mut Rng, k: Kind) -> Tab {
    let mut t = gen_table(r, k, false);
    let each = r.urange(40, 400);
    let mut left = r.urange(128 * 184, 600 * 184);
    let room = k.max_item() - k.item_head();
    while left > 0 {
        // (no section is left mostly empty, so at most 256 of them)
        let mut i = gen_item(r, k, 0);
        if k.item_has_desc() { i.desc = exact_list(r, each.min(room)); }
        left = left.saturating_sub(i.len(k));
        t.items.push(i);
    }
    t
}

pub fn gen_table(r: &mut Rng, k: Kind, big: bool) -> Tab {
    let mut t = gen_head(r, k);
    if k.has_desc() {
        let max = k.limit() - k.base();
        t.desc = match r.below(4) { 0 => vec![], 1 => gen_list(r, max), _ => gen_list(r, max.min(120)) };
    }
    if matches!(k, Kind::Tdt | Kind::Tot) {
        // changes that fall on the time itself, or next to it
        let now = t.time;
        for d in t.desc.iter_mut() {
            if let D::X58(v) = d { for x in v.iter_mut() { if r.one_in(4) { x.change = (now + r.below(3)).saturating_sub(1).min(MAX_TIME); } } }
        }
        return t;
    }
    let n = if big { match k { Kind::Pat => r.urange(200, 2000), _ => r.urange(20, 120) } } else { match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.urange(1, 8), _ => r.urange(1, 24) } };
    let style = r.below(4);
    for _ in 0..n {
        let max = k.max_item() - k.item_head();
        let max = match style { 0 => 0, 1 => 30.min(max), 2 => if r.one_in(4) { max } else { 60.min(max) }, _ => if r.one_in(12) { max } else { 200.min(max) } };
        let mut it = gen_item(r, k, max);
        // entries that repeat an earlier one, in part or whole
        if !t.items.is_empty() && r.one_in(8) {
            let p = t.items[if r.coin() { t.items.len() - 1 } else { r.idx(t.items.len()) }].clone();
            match r.below(6) {
                5 => it.start = (p.start + u64::from(p.dur)).min(MAX_TIME),
                0 => it = p,
                1 => it.desc = p.desc,
                2 => { it.id = p.id; it.id2 = p.id2; }
                3 => { it.id = p.id; it.flags = p.flags; it.start = p.start; it.dur = p.dur; }
                _ => { let d = it.desc; it = p; it.desc = d; }
            }
        }
        t.items.push(it);
    }
    t
}

impl Tab {
    /// section without its items: header bytes up to where items begin
    fn sec_head(&self, r: &mut Rng, any: bool, num: u8, last: u8, desc: &[D], items: &[u8]) -> Vec<u8> {
        let rb = |r: &mut Rng, m: u8| if any { r.u8() & m } else { m };
        let mut v = vec![self.table_id];
        v.push(match self.kind {
            Kind::Tdt | Kind::Tot => rb(r, 0x70),
            Kind::Pat | Kind::Pmt => 0x80 | rb(r, 0x30),
            _ => 0x80 | rb(r, 0x70),
        });
        v.push(0);
        if matches!(self.kind, Kind::Tdt | Kind::Tot) {
            v.extend_from_slice(&date5(self.time));
        } else {
            v.extend_from_slice(&self.ext.to_be_bytes());
            v.push(rb(r, 0xC0) | self.version << 1 | 1);
            v.push(num);
            v.push(last);
        }
        let dl = if any { enc_list_any(desc, r) } else { enc_list(desc) };
        match self.kind {
            Kind::Pat | Kind::Tdt => {}
            Kind::Tot => { v.push(rb(r, 0xF0) | (dl.len() >> 8) as u8); v.push(dl.len() as u8); v.extend_from_slice(&dl); }
            Kind::Pmt => {
                v.push(rb(r, 0xE0) | (self.a >> 8) as u8);
                v.push(self.a as u8);
                v.push(rb(r, 0xF0) | (dl.len() >> 8) as u8);
                v.push(dl.len() as u8);
                v.extend_from_slice(&dl);
            }
            Kind::Nit => {
                v.push(rb(r, 0xF0) | (dl.len() >> 8) as u8);
                v.push(dl.len() as u8);
                v.extend_from_slice(&dl);
                v.push(rb(r, 0xF0) | (items.len() >> 8) as u8);
                v.push(items.len() as u8);
            }
            Kind::Sdt => { v.extend_from_slice(&self.a.to_be_bytes()); v.push(rb(r, 0xFF)); }
            Kind::Eit => {
                v.extend_from_slice(&self.b.to_be_bytes());
                v.extend_from_slice(&self.a.to_be_bytes());
                v.push(last);
                v.push(if self.table_id < 0x50 { self.table_id } else { self.table_id | 0x0F });
            }
        }
        v.extend_from_slice(items);
        v
    }

    /// independent encoding, split over sections at random points; every
    /// section is at most `limit` bytes. Descriptors of the table may be
    /// spread over the sections too.
    pub fn encode(&self, r: &mut Rng, limit: usize) -> Vec<Vec<u8>> {
        let k = self.kind;
        if k == Kind::Tdt { let mut s = self.sec_head(r, true, 0, 0, &[], &[]); s[2] = 5; return vec![s]; }
        if k == Kind::Tot { return vec![seal(self.sec_head(r, true, 0, 0, &self.desc, &[]))]; }
        let mut parts: Vec<(Vec<D>, Vec<u8>)> = vec![(vec![], vec![])];
        let mut used = k.base();
        let cutp = r.pick(&[0u64, 0, 1, 4]);
        for d in &self.desc {
            let n = d.len();
            if used + n > limit || r.below(16) < cutp { parts.push((vec![], vec![])); used = k.base(); }
            parts.last_mut().unwrap().0.push(d.clone());
            used += n;
        }
        for it in &self.items {
            let e = it.enc(k, r, true);
            if used + e.len() > limit || r.below(16) < cutp { parts.push((vec![], vec![])); used = k.base(); }
            used += e.len();
            parts.last_mut().unwrap().1.extend_from_slice(&e);
        }
        let last = (parts.len() - 1) as u8;
        parts.iter().enumerate().map(|(i, (d, e))| seal(self.sec_head(r, true, i as u8, last, d, e))).collect()
    }
}

// ---- decoding what the library emits ---------------------------------------

fn dec_items(k: Kind, b: &[u8]) -> Result<Vec<(Item, Vec<(u8, Vec<u8>)>)>, String> {
    let mut v = Vec::new();
    let mut at = 0;
    let h = k.item_head();
    while at < b.len() {
        if at + h > b.len() { return Err("entry cut by the end of the section".into()); }
        let e = &b[at..];
        let mut it = Item { id: be16(e, 0)?, id2: 0, flags: [0; 4], start: 0, dur: 0, desc: vec![] };
        let mut dl = 0;
        match k {
            Kind::Pat => it.id2 = be16(e, 2)? & 0x1FFF,
            Kind::Pmt => { it.id = u16::from(e[0]); it.id2 = be16(e, 1)? & 0x1FFF; dl = be16(e, 3)? & 0xFFF; }
            Kind::Nit => { it.id2 = be16(e, 2)?; dl = be16(e, 4)? & 0xFFF; }
            Kind::Sdt => { it.flags = [e[2] >> 1 & 1, e[2] & 1, e[3] >> 5, e[3] >> 4 & 1]; dl = be16(e, 3)? & 0xFFF; }
            Kind::Eit => {
                it.start = undate5(&e[2..7])?;
                for &x in &e[7..10] { if x >> 4 > 9 || x & 15 > 9 { return Err(format!("duration byte {:02x} is not BCD", x)); } }
                it.dur = (unbcd2(e[7]) * 3600 + unbcd2(e[8]) * 60 + unbcd2(e[9])) as u32;
                it.flags = [0, 0, e[10] >> 5, e[10] >> 4 & 1];
                dl = be16(e, 10)? & 0xFFF;
            }
            _ => {}
        }
        let n = h + usize::from(dl);
        if n > e.len() { return Err(format!("entry announces {} descriptor bytes, {} left in the section", dl, e.len() - h)); }
        v.push((it, desc_loop(&e[h..n])?));
        at += n;
    }
    Ok(v)
}

/// one emitted section, decoded
pub struct DecSec {
    pub table_id: u8, pub ext: u16, pub version: u8, pub num: u8, pub last: u8, pub a: u16, pub b: u16, pub seg_last: u8, pub last_table: u8, pub len: usize,
    pub desc: Vec<(u8, Vec<u8>)>, pub items: Vec<(Item, Vec<(u8, Vec<u8>)>)>,
    /// bytes of table descriptors plus entries
    pub used: usize,
}

pub fn decode_section(k: Kind, s: &[u8]) -> Result<DecSec, String> {
    let h = header(s)?;
    if !h.current { return Err("current flag not set".into()); }
    let mut d = DecSec { table_id: h.table_id, ext: h.ext, version: h.version, num: h.num, last: h.last, a: 0, b: 0, seg_last: 0, last_table: 0, len: s.len(), desc: vec![], items: vec![], used: s.len().saturating_sub(k.base()) };
    let b = h.body;
    match k {
        Kind::Pat => d.items = dec_items(k, b)?,
        Kind::Pmt => {
            d.a = be16(b, 0)? & 0x1FFF;
            let n = usize::from(be16(b, 2)? & 0xFFF);
            if 4 + n > b.len() { return Err("program descriptors exceed the section".into()); }
            d.desc = desc_loop(&b[4..4 + n])?;
            d.items = dec_items(k, &b[4 + n..])?;
        }
        Kind::Nit => {
            let n = usize::from(be16(b, 0)? & 0xFFF);
            if 4 + n > b.len() { return Err("network descriptors exceed the section".into()); }
            d.desc = desc_loop(&b[2..2 + n])?;
            let m = usize::from(be16(b, 2 + n)? & 0xFFF);
            if 4 + n + m != b.len() { return Err(format!("transport stream loop announces {} bytes, {} follow", m, b.len() - 4 - n)); }
            d.items = dec_items(k, &b[4 + n..])?;
        }
        Kind::Sdt => { d.a = be16(b, 0)?; if b.len() < 3 { return Err("SDT section too short".into()); } d.items = dec_items(k, &b[3..])?; }
        Kind::Eit => {
            if b.len() < 6 { return Err("EIT section too short".into()); }
            d.b = be16(b, 0)?;
            d.a = be16(b, 2)?;
            d.seg_last = b[4];
            d.last_table = b[5];
            d.items = dec_items(k, &b[6..])?;
        }
        _ => return Err("no long form".into()),
    }
    Ok(d)
}

/// TDT / TOT section
pub fn decode_time(k: Kind, s: &[u8]) -> Result<(u64, Vec<(u8, Vec<u8>)>), String> {
    if s.len() < 8 { return Err(format!("time section of {} bytes", s.len())); }
    let len = usize::from(s[1] & 0x0F) << 8 | usize::from(s[2]);
    if len + 3 != s.len() { return Err(format!("section announces {} bytes, has {}", len + 3, s.len())); }
    if s[1] & 0x80 != 0 { return Err("section syntax indicator set in a time table".into()); }
    let t = undate5(&s[3..8])?;
    if k == Kind::Tdt {
        if s[0] != 0x70 || s.len() != 8 { return Err(format!("time table id {:02x}, {} bytes", s[0], s.len())); }
        return Ok((t, vec![]));
    }
    if s[0] != 0x73 || s.len() < 14 { return Err(format!("time offset table id {:02x}, {} bytes", s[0], s.len())); }
    let want = crc(&s[..s.len() - 4]).to_be_bytes();
    if s[s.len() - 4..] != want { return Err("checksum of the time offset table is wrong".into()); }
    let n = usize::from(be16(s, 8)? & 0xFFF);
    if 14 + n != s.len() { return Err(format!("descriptor loop announces {} bytes, {} follow", n, s.len() - 14)); }
    Ok((t, desc_loop(&s[10..10 + n])?))
}

/// decoded sections carry exactly the table's content, once and in order
pub fn same_content(t: &Tab, secs: &[DecSec]) -> Result<(), String> {
    let mut desc = Vec::new();
    let mut items = Vec::new();
    for (i, s) in secs.iter().enumerate() {
        if t.kind != Kind::Eit || t.table_id < 0x50 {
            if s.table_id != t.table_id { return Err(format!("section {}: table id {:02x} want {:02x}", i, s.table_id, t.table_id)); }
        }
        if s.ext != t.ext { return Err(format!("section {}: identifier {} want {}", i, s.ext, t.ext)); }
        if s.version != t.version { return Err(format!("section {}: version {} want {}", i, s.version, t.version)); }
        if s.a != t.a || s.b != t.b { return Err(format!("section {}: header fields {},{} want {},{}", i, s.a, s.b, t.a, t.b)); }
        desc.extend_from_slice(&s.desc);
        items.extend(s.items.iter());
    }
    same_loop(&desc, &t.desc, "table descriptors")?;
    if items.len() != t.items.len() { return Err(format!("{} entries on the wire, want {}", items.len(), t.items.len())); }
    for (i, (g, w)) in items.iter().zip(&t.items).enumerate() {
        let bare = Item { desc: vec![], ..w.clone() };
        if g.0 != bare { return Err(format!("entry {}: wire {:?} want {:?}", i, g.0, bare)); }
        same_loop(&g.1, &w.desc, "entry descriptors").map_err(|e| format!("entry {}: {}", i, e))?;
    }
    Ok(())
}

// ---- library side ----------------------------------------------------------

pub enum Lib { Pat(Pat), Pmt(Pmt), Nit(Nit), Sdt(Sdt), Eit(Eit), Tdt(Tdt), Tot(Tot) }

impl Lib {
    pub fn empty(k: Kind) -> Lib {
        match k {
            Kind::Pat => Lib::Pat(Pat::default()), Kind::Pmt => Lib::Pmt(Pmt::default()), Kind::Nit => Lib::Nit(Nit::default()), Kind::Sdt => Lib::Sdt(Sdt::default()),
            Kind::Eit => Lib::Eit(Eit::default()), Kind::Tdt => Lib::Tdt(Tdt::default()), Kind::Tot => Lib::Tot(Tot::default()),
        }
    }
    pub fn from_psi(k: Kind, p: &Psi) -> Lib {
        match k {
            Kind::Pat => Lib::Pat(Pat::from(p)), Kind::Pmt => Lib::Pmt(Pmt::from(p)), Kind::Nit => Lib::Nit(Nit::from(p)), Kind::Sdt => Lib::Sdt(Sdt::from(p)),
            Kind::Eit => Lib::Eit(Eit::from(p)), Kind::Tdt => Lib::Tdt(Tdt::from(p)), Kind::Tot => Lib::Tot(Tot::from(p)),
        }
    }
    pub fn parse(&mut self, p: &Psi) {
        match self {
            Lib::Pat(x) => x.parse(p), Lib::Pmt(x) => x.parse(p), Lib::Nit(x) => x.parse(p), Lib::Sdt(x) => x.parse(p), Lib::Eit(x) => x.parse(p),
            Lib::Tdt(x) => x.parse(p), Lib::Tot(x) => x.parse(p),
        }
    }
    pub fn emit(&self, pid: u16, cc: &mut u8, dst: &mut Vec<u8>) {
        match self {
            Lib::Pat(x) => x.demux(pid, cc, dst), Lib::Pmt(x) => x.demux(pid, cc, dst), Lib::Nit(x) => x.demux(pid, cc, dst), Lib::Sdt(x) => x.demux(pid, cc, dst),
            Lib::Eit(x) => x.demux(pid, cc, dst), Lib::Tdt(x) => x.demux(pid, cc, dst), Lib::Tot(x) => x.demux(pid, cc, dst),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            Lib::Pat(x) => format!("{:?}", x), Lib::Pmt(x) => format!("{:?}", x), Lib::Nit(x) => format!("{:?}", x), Lib::Sdt(x) => format!("{:?}", x),
            Lib::Eit(x) => format!("{:?}", x), Lib::Tdt(x) => format!("{:?}", x), Lib::Tot(x) => format!("{:?}", x),
        }
    }

    pub fn build(t: &Tab, r: &mut Rng) -> Lib {
        match t.kind {
            Kind::Pat => Lib::Pat(Pat { version: t.version, tsid: t.ext, items: t.items.iter().map(|i| PatItem { pnr: i.id, pid: i.id2 }).collect() }),
            Kind::Pmt => Lib::Pmt(Pmt {
                version: t.version, pnr: t.ext, pcr: t.a, descriptors: build(&t.desc, r),
                items: t.items.iter().map(|i| PmtItem { stream_type: i.id as u8, pid: i.id2, descriptors: build(&i.desc, r) }).collect(),
            }),
            Kind::Nit => Lib::Nit(Nit {
                table_id: t.table_id, version: t.version, network_id: t.ext, descriptors: build(&t.desc, r),
                items: t.items.iter().map(|i| NitItem { tsid: i.id, onid: i.id2, descriptors: build(&i.desc, r) }).collect(),
            }),
            Kind::Sdt => Lib::Sdt(Sdt {
                table_id: t.table_id, version: t.version, tsid: t.ext, onid: t.a,
                items: t.items.iter().map(|i| SdtItem {
                    pnr: i.id, eit_schedule_flag: i.flags[0], eit_present_following_flag: i.flags[1], running_status: i.flags[2], free_ca_mode: i.flags[3],
                    descriptors: build(&i.desc, r),
                }).collect(),
            }),
            Kind::Eit => Lib::Eit(Eit {
                table_id: t.table_id, version: t.version, pnr: t.ext, tsid: t.b, onid: t.a,
                items: t.items.iter().map(|i| EitItem {
                    event_id: i.id, start: i.start, duration: i.dur, status: i.flags[2], ca_mode: i.flags[3], descriptors: build(&i.desc, r),
                }).collect(),
            }),
            Kind::Tdt => Lib::Tdt(Tdt { time: t.time }),
            Kind::Tot => Lib::Tot(Tot { time: t.time, descriptors: build(&t.desc, r) }),
        }
    }

    /// field by field comparison with the model
    pub fn same(&self, t: &Tab) -> Result<(), String> {
        macro_rules! eq { ($($got:expr, $want:expr);* $(;)?) => { $( if $got != $want { return Err(format!("{} is {:?}, want {:?}", stringify!($got), $got, $want)); } )* } }
        fn each<T>(items: &[T], want: &[Item], f: impl Fn(&T, &Item) -> Result<(), String>) -> Result<(), String> {
            if items.len() != want.len() { return Err(format!("{} entries parsed, want {}", items.len(), want.len())); }
            for (i, (a, b)) in items.iter().zip(want).enumerate() { f(a, b).map_err(|e| format!("entry {}: {}", i, e))?; }
            Ok(())
        }
        match self {
            Lib::Pat(x) => { eq!(x.version, t.version; x.tsid, t.ext); each(&x.items, &t.items, |a, b| { eq!(a.pnr, b.id; a.pid, b.id2); Ok(()) }) }
            Lib::Pmt(x) => {
                eq!(x.version, t.version; x.pnr, t.ext; x.pcr, t.a);
                same_list(&x.descriptors, &t.desc, "program descriptors")?;
                each(&x.items, &t.items, |a, b| { eq!(u16::from(a.stream_type), b.id; a.pid, b.id2); same_list(&a.descriptors, &b.desc, "descriptors") })
            }
            Lib::Nit(x) => {
                eq!(x.table_id, t.table_id; x.version, t.version; x.network_id, t.ext);
                same_list(&x.descriptors, &t.desc, "network descriptors")?;
                each(&x.items, &t.items, |a, b| { eq!(a.tsid, b.id; a.onid, b.id2); same_list(&a.descriptors, &b.desc, "descriptors") })
            }
            Lib::Sdt(x) => {
                eq!(x.table_id, t.table_id; x.version, t.version; x.tsid, t.ext; x.onid, t.a);
                each(&x.items, &t.items, |a, b| {
                    eq!(a.pnr, b.id; a.eit_schedule_flag, b.flags[0]; a.eit_present_following_flag, b.flags[1]; a.running_status, b.flags[2]; a.free_ca_mode, b.flags[3]);
                    same_list(&a.descriptors, &b.desc, "descriptors")
                })
            }
            Lib::Eit(x) => {
                eq!(x.table_id, t.table_id; x.version, t.version; x.pnr, t.ext; x.tsid, t.b; x.onid, t.a);
                each(&x.items, &t.items, |a, b| {
                    eq!(a.event_id, b.id; a.start, b.start; a.duration, b.dur; a.status, b.flags[2]; a.ca_mode, b.flags[3]);
                    same_list(&a.descriptors, &b.desc, "descriptors")
                })
            }
            Lib::Tdt(x) => { eq!(x.time, t.time); Ok(()) }
            Lib::Tot(x) => { eq!(x.time, t.time); same_list(&x.descriptors, &t.desc, "descriptors") }
        }
    }
}

/// a section handed to the library as if it had been reassembled
pub fn psi_of(sec: &[u8]) -> Psi {
    let mut p = Psi::default();
    p.buffer = sec.to_vec();
    p.size = sec.len();
    p
}

/// hands sections to the table either directly or through packets and the
/// library's reassembly
pub fn feed(r: &mut Rng, lib: &mut Lib, secs: &[Vec<u8>], via_packets: bool) -> Result<(), String> {
    if !via_packets {
        for s in secs { lib.parse(&psi_of(s)); }
        return Ok(());
    }
    let pid = r.bits(13) as u16;
    let cc = r.below(16) as u8;
    let (pk, notes, _) = cut(r, secs, pid, cc, PLAIN);
    let mut psi = Psi::default();
    for (p, n) in pk.iter().zip(&notes) {
        psi.mux(&p[..]);
        if n.completes.is_some() { lib.parse(&psi); }
    }
    Ok(())
}
