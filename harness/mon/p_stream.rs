//! C03 packetizing, C04 reassembly of intact streams, C05 reassembly under
//! faults.

use std::collections::HashSet;

use crate::cx::*;
use crate::refm::*;
use crate::rng::{hash_bytes, Rng};
use crate::tables::*;
use mpegts::psi::*;

// ---- C03 -------------------------------------------------------------------

/// the packets a section must be cut into
fn expected(sec: &[u8], pid: u16, cc: &mut u8) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    while at < sec.len() {
        let mut p = vec![0x47, (pid >> 8) as u8 | if at == 0 { 0x40 } else { 0 }, pid as u8, 0x10 | *cc];
        if at == 0 { p.push(0); }
        let n = (188 - p.len()).min(sec.len() - at);
        p.extend_from_slice(&sec[at..at + n]);
        p.resize(188, 0xFF);
        at += n;
        *cc = (*cc + 1) & 15;
        out.extend_from_slice(&p);
    }
    out
}

fn check_emit(sec: &[u8], extra: usize, pid: u16, cc0: u8, prior: &[u8]) -> Res {
    let mut psi = Psi::default();
    psi.buffer = sec.to_vec();
    psi.buffer.resize(sec.len() + extra, 0xA5);
    psi.size = sec.len();
    psi.pid = pid;
    psi.cc = cc0;
    let mut dst = prior.to_vec();
    psi.demux(&mut dst);
    let mut cc = cc0;
    let want = expected(sec, pid, &mut cc);
    if dst.len() < prior.len() || &dst[..prior.len()] != prior { return Err(format!("bytes already in the output were changed (size {}, pid {}, cc {})", sec.len(), pid, cc0)); }
    // the transport priority bit is left open
    let mut got = dst[prior.len()..].to_vec();
    for p in got.chunks_mut(188) { if p.len() > 1 { p[1] &= !0x20; } }
    if got != want { return Err(format!("section of {} bytes, pid {}, cc {}: {}", sec.len(), pid, cc0, diff(&got, &want))); }
    if psi.cc != cc { return Err(format!("counter left at {} want {} (section of {} bytes)", psi.cc, cc, sec.len())); }
    Ok(())
}

fn c03_sizes(cx: &mut Cx) -> Res {
    let n = cx.index as usize; // 0..=4096
    for cc in 0..16u8 {
        let sec = cx.r.body(n);
        let pn = cx.r.pick(&[0usize, 1, 188, 187, 376]);
        let prior = cx.r.bytes(pn);
        let pid = cx.r.bits(13) as u16;
        check_emit(&sec, 0, pid, cc, &prior)?;
        cx.count("sections_cut");
        cx.seen((n as u64) << 8 | u64::from(cc));
    }
    cx.sample(|| format!("section of {} bytes from every counter value", n));
    Ok(())
}

fn c03_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = match r.below(3) { 0 => r.urange(1, 400), 1 => { let k = r.urange(1, 22) * 184; (k + r.urange(0, 4)).saturating_sub(r.urange(0, 4)).clamp(1, 4096) } _ => r.urange(1, 4096) };
    let mut sec = match r.below(4) { 0 => vec![0xFF; n], 1 => vec![0x47; n], 2 => r.body(n), _ => r.bytes(n) };
    // one value towards the end
    if r.one_in(3) { let (k, b) = (r.idx(n), r.pick(&[0xFFu8, 0xFF, 0, 0x47])); for x in sec[k..].iter_mut() { *x = b; } }
    let sec = sec;
    let pn = if r.one_in(200) { r.long() } else { r.urange(0, 600) };
    let prior = r.bytes(pn);
    let extra = r.pick(&[0usize, 0, 1, 200]);
    let pid = r.bits(13) as u16;
    let cc = r.below(16) as u8;
    check_emit(&sec, extra, pid, cc, &prior)?;
    cx.count("sections_cut");
    cx.seen_bytes(&sec);
    cx.sample(|| format!("section of {} bytes, pid {}, cc {}, {} bytes already in the output", n, pid, cc, pn));
    Ok(())
}

/// one output that grows to hundreds of packets
fn c03_long_output(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let pid = r.bits(13) as u16;
    let mut cc = r.below(16) as u8;
    let (mut dst, mut want) = (Vec::new(), Vec::new());
    if r.one_in(3) { let n = r.urange(1, 400); dst = r.bytes(n); want = dst.clone(); }
    let n = r.urange(20, 120);
    let fill = r.u8();
    for _ in 0..n {
        let len = match r.below(3) { 0 => r.urange(1, 40), 1 => r.urange(1, 1024), _ => r.urange(1, 4096) };
        let sec = if r.coin() { vec![fill; len] } else { r.bytes(len) };
        let mut psi = Psi::default();
        psi.buffer = sec.clone();
        psi.size = len;
        psi.pid = pid;
        psi.cc = cc;
        psi.demux(&mut dst);
        want.extend_from_slice(&expected(&sec, pid, &mut cc));
        if psi.cc != cc { return Err(format!("counter left at {} want {} ({} packets in the output)", psi.cc, cc, want.len() / 188)); }
    }
    let skip = want.len() % 188;
    let from = skip.min(dst.len());
    for p in dst[from..].chunks_mut(188) { if p.len() > 1 { p[1] &= !0x20; } }
    for p in want[skip..].chunks_mut(188) { p[1] &= !0x20; }
    if dst != want { return Err(format!("{} sections in one output of {} bytes: {}", n, want.len(), diff(&dst, &want))); }
    cx.add("sections_cut", n as u64);
    cx.add("packets_in_long_outputs", (dst.len() / 188) as u64);
    cx.seen_bytes(&dst);
    cx.sample(|| format!("{} sections in one output of {} packets", n, dst.len() / 188));
    Ok(())
}

/// several tables after one another on one PID form one continuous stream
fn c03_tables(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let pid = r.bits(13) as u16;
    let cc0 = r.below(16) as u8;
    let mut cc = cc0;
    let mut dst = Vec::new();
    let mut kinds = Vec::new();
    for _ in 0..r.urange(1, 6) {
        let k = r.pick(&[Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot]);
        let big = !cfg!(miri) && k != Kind::Eit && r.one_in(24);
        let mut t = if big && r.one_in(4) && matches!(k, Kind::Pat | Kind::Pmt | Kind::Nit | Kind::Sdt) { gen_huge(r, k) } else { gen_table(r, k, big) };
        if k == Kind::Eit { t.table_id = 0x4E; t.items.truncate(4); }
        let before = dst.clone();
        let lib = Lib::build(&t, r);
        let n0 = dst.len();
        lib.emit(pid, &mut cc, &mut dst);
        if dst[..n0] != before[..] { return Err("emitting a table changed bytes already in the output".into()); }
        kinds.push(k);
    }
    let (secs, end) = depacketize(&dst, pid, cc0)?;
    if end != cc { return Err(format!("counter left at {} want {}", cc, end)); }
    // smallest number of packets
    let want: usize = secs.iter().map(|s| (s.len() + 1 + 183) / 184).sum();
    if dst.len() / 188 != want { return Err(format!("{} packets for sections that need {}", dst.len() / 188, want)); }
    cx.add("sections_cut", secs.len() as u64);
    cx.seen_bytes(&dst);
    cx.sample(|| format!("tables {:?} -> {} sections in {} packets from cc {}", kinds, secs.len(), dst.len() / 188, cc0));
    Ok(())
}

/// long sections through the table interface: the counter handed from section
/// to section and from table to table
fn c03_long_tables(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let pid = r.bits(13) as u16;
    let cc0 = (cx.index % 16) as u8;
    let (mut cc, mut dst) = (cc0, Vec::new());
    let n = 1 + (cx.index / 16) as usize; // 1..=4096, coarse
    let mut want = 0;
    for k in 0..2 {
        // one entry that makes the section about n bytes long
        let mut d = Descriptors::default();
        let mut left = if k == 0 { n.min(3900) } else { r.urange(0, 3900) };
        while left >= 2 { let b = (left - 2).min(r.urange(100, 255)); let body = r.bytes(b); left -= 2 + b; d.push(DescRaw { tag: 0x80, data: body }); }
        let size = d.size();
        let mut one = Vec::new();
        let mut cc1 = cc;
        let head = match r.below(4) {
            0 => { let t = Sdt { table_id: 0x42, version: 1, tsid: 1, onid: 2, items: vec![SdtItem { pnr: 7, descriptors: d, ..SdtItem::default() }] }; t.demux(pid, &mut cc, &mut dst); t.demux(pid, &mut cc1, &mut one); 11 + 5 }
            1 => { let t = Nit { table_id: 0x40, version: 1, network_id: 1, descriptors: d, items: vec![] }; t.demux(pid, &mut cc, &mut dst); t.demux(pid, &mut cc1, &mut one); 12 }
            2 => { let t = Pmt { version: 1, pnr: 1, pcr: 2, descriptors: d, items: vec![] }; t.demux(pid, &mut cc, &mut dst); t.demux(pid, &mut cc1, &mut one); 12 }
            _ => { let t = Eit { table_id: 0x4E, version: 1, pnr: 1, tsid: 2, onid: 3, items: vec![EitItem { event_id: 1, descriptors: d, ..EitItem::default() }] }; t.demux(pid, &mut cc, &mut dst); t.demux(pid, &mut cc1, &mut one); 14 + 12 }
        };
        // a PSI table may come as an empty first section in front
        let last = depacketize(&one, pid, (cc + 16 - (one.len() / 188 % 16) as u8) % 16)?.0;
        if cc1 != cc { return Err(format!("the same table from the same counter leaves {} and {}", cc, cc1)); }
        // (up to the longest section the table may use)
        if head + size + 4 <= if head == 26 { 4096 } else { 1024 } && last.last().map(|s| s.len()) != Some(head + size + 4) { return Err(format!("section lengths {:?}, last should be {}", last.iter().map(|s| s.len()).collect::<Vec<_>>(), head + size + 4)); }
        want += last.iter().map(|s| (s.len() + 1 + 183) / 184).sum::<usize>();
    }
    let (secs, end) = depacketize(&dst, pid, cc0)?;
    if end != cc { return Err(format!("counter left at {} want {}", cc, end)); }
    if dst.len() / 188 != want { return Err(format!("{} packets for sections that need {}", dst.len() / 188, want)); }
    cx.add("sections_cut", secs.len() as u64);
    cx.seen_bytes(&dst);
    cx.sample(|| format!("sections of {:?} bytes from counter {}", secs.iter().map(|s| s.len()).collect::<Vec<_>>(), cc0));
    Ok(())
}

pub fn c03() -> Vec<Workload> {
    vec![
        sweep("long_tables", 16 * 3900, 10, c03_long_tables),
        sweep("sizes", 4097, 12, c03_sizes),
        random("sections", 120_000, 3_000_000, 20, c03_random),
        random("long_output", 700, 20_000, 0, c03_long_output),
        random("tables", 15_000, 500_000, 10, c03_tables),
    ]
}

// ---- C04 -------------------------------------------------------------------

/// feeds an intact stream and checks the state after every packet
fn check_intact(cx: &mut Cx, psi: &mut Psi, secs: &[Vec<u8>], pk: &[Pkt], notes: &[Note], label: &str) -> Res {
    for (i, (p, n)) in pk.iter().zip(notes).enumerate() {
        let before = if n.payload { None } else { Some((psi.buffer.clone(), psi.size)) };
        psi.mux(&p[..]);
        cx.count("packets_fed");
        if let Some((b, s)) = before {
            if psi.buffer != b || psi.size != s { return Err(format!("{}: packet {} without payload changed the reassembly", label, i)); }
            continue;
        }
        match n.completes {
            Some(si) => {
                if !psi.check() { return Err(format!("{}: section {} of {} bytes not reported complete after its last packet {} ({:?}); buffer {} of {}", label, si, secs[si].len(), i, n, psi.buffer.len(), psi.size)); }
                if psi.size != secs[si].len() || psi.buffer.get(..psi.size) != Some(&secs[si][..]) {
                    return Err(format!("{}: section {} reported with other bytes: {}", label, si, diff(psi.buffer.get(..psi.size).unwrap_or(&[]), &secs[si])));
                }
                cx.count("sections_delivered");
            }
            None => if psi.check() { return Err(format!("{}: a section is reported complete after packet {} which completes none ({:?})", label, i, n)); },
        }
    }
    Ok(())
}

fn dirty(r: &mut Rng, psi: &mut Psi, style: u64) {
    match style {
        0 => {}
        1 => {
            // interrupted section
            let n = r.urange(190, 1200);
            let s = rand_section(r, n);
            let (pk, _, _) = { let cc = r.below(16) as u8; cut(r, &[s], 0x30, cc, MIXED) };
            let n = r.urange(1, pk.len());
            for p in &pk[..n] { psi.mux(&p[..]); }
        }
        2 => { for _ in 0..r.urange(1, 5) { let b = r.bytes(188); psi.mux(&b); } }
        _ => {
            // complete stream ending behind a joined tail
            let a = { let n = r.urange(200, 900); rand_section(r, n) };
            let b = { let n = r.urange(300, 900); rand_section(r, n) };
            let (pk, _, _) = { let cc = r.below(16) as u8; cut(r, &[a, b], 0x30, cc, CutOpts { af: 0, idle: 0, join: 16 }) };
            let n = r.urange(1, pk.len());
            for p in &pk[..n] { psi.mux(&p[..]); }
        }
    }
}

fn c04_sizes(cx: &mut Cx) -> Res {
    let n = cx.index as usize + 8; // 8..=4098
    let r = &mut cx.r;
    let other = { let m = r.urange(8, 600); rand_section(r, m) };
    let secs = vec![rand_section(r, n), other, rand_section(r, n)];
    for (k, o) in [PLAIN, CutOpts { af: 0, idle: 0, join: 16 }, MIXED].iter().enumerate() {
        let cc = cx.r.below(16) as u8;
        let (pk, notes, _) = cut(&mut cx.r, &secs, 0x20, cc, *o);
        let mut psi = Psi::default();
        check_intact(cx, &mut psi, &secs, &pk, &notes, "sizes")?;
        cx.seen((n as u64) << 2 | k as u64);
    }
    cx.sample(|| format!("sections of {} , {} , {} bytes cut three ways", n, secs[1].len(), n));
    Ok(())
}

/// every adaptation length in the packet that starts, continues or ends a
/// section
fn c04_adaptation(cx: &mut Cx) -> Res {
    let af = cx.index as usize; // 0..=182
    let r = &mut cx.r;
    for len in [8usize, 9, 40, 183, 184, 185, 300, 700] {
        for cc0 in [0u8, 15, 9] {
            let s = rand_section(r, len);
            let mut pk = Vec::new();
            let mut notes = Vec::new();
            let mut cc = cc0;
            let mut at = 0;
            let mut k = 0;
            while at < s.len() {
                let mut a = if k % 2 == 0 { Some(af) } else { None };
                if at == 0 && af > 181 { a = None; } // needs pointer and one byte
                let cap = room(a);
                let mut pl = Vec::new();
                if at == 0 { pl.push(0); }
                let n = (cap - pl.len()).min(s.len() - at);
                pl.extend_from_slice(&s[at..at + n]);
                pl.resize(cap, 0xFF);
                pk.push(pkt(r, PktSpec { pid: 5, cc, pusi: at == 0, payload: true, af: a }, &pl));
                notes.push(Note { completes: if at + n == s.len() { Some(0) } else { None }, begins: if at == 0 { Some((0, 0)) } else { None }, payload: true });
                at += n;
                cc = (cc + 1) & 15;
                k += 1;
                if k % 3 == 0 && at < s.len() {
                    let n = r.urange(0, 183);
                    pk.push(pkt(r, PktSpec { pid: 5, cc: cc.wrapping_sub(1) & 15, pusi: r_pusi(n), payload: false, af: Some(n) }, &[]));
                    notes.push(Note { completes: None, begins: None, payload: false });
                }
            }
            let mut psi = Psi::default();
            let secs = [s];
            cxadd(&mut psi, &secs, &pk, &notes)?;
        }
    }
    cx.add("sections_delivered", 24);
    cx.seen(cx.index);
    cx.sample(|| format!("adaptation length {} in every other packet, 8 section lengths, 3 counters", af));
    Ok(())
}

fn r_pusi(n: usize) -> bool { n % 5 == 0 }

fn cxadd(psi: &mut Psi, secs: &[Vec<u8>], pk: &[Pkt], notes: &[Note]) -> Res {
    for (i, (p, n)) in pk.iter().zip(notes).enumerate() {
        let before = (psi.buffer.clone(), psi.size);
        psi.mux(&p[..]);
        if !n.payload {
            if (psi.buffer.clone(), psi.size) != before { return Err(format!("packet {} without payload changed the reassembly", i)); }
            continue;
        }
        let done = psi.check();
        if done != n.completes.is_some() { return Err(format!("after packet {}/{} of a {}-byte section complete={} want {}", i, pk.len(), secs[0].len(), done, n.completes.is_some())); }
        if let Some(si) = n.completes {
            if psi.buffer.get(..psi.size) != Some(&secs[si][..]) { return Err(format!("section reported with other bytes: {}", diff(psi.buffer.get(..psi.size).unwrap_or(&[]), &secs[si]))); }
        }
    }
    Ok(())
}

/// every tail length in front of a following section, including headers cut
/// after one or two bytes
fn c04_pointer(cx: &mut Cx) -> Res {
    let tail = cx.index as usize + 1; // 1..=182
    for a in [tail + 183, tail + 183 + 184 * 3, tail + 183 + 184 * 15] {
        for b in [183 - tail + 1, 183 - tail + 2, 184, 400, 4000] {
            if b < 8 || b <= 183 - tail { continue; }
            for more in [0usize, 1] {
                let r = &mut cx.r;
                let mut secs = vec![rand_section(r, a), rand_section(r, b.max(8))];
                if more == 1 { let n = r.urange(8, 700); secs.push(rand_section(r, n)); }
                let cc = r.below(16) as u8;
                let (pk, notes, _) = cut(r, &secs, 7, cc, CutOpts { af: 0, idle: if more == 1 { 2 } else { 0 }, join: 16 });
                if !notes.iter().any(|n| matches!(n.begins, Some((1, p)) if p == tail)) { continue; }
                cx.count("joined_packets");
                let mut psi = Psi::default();
                check_intact(cx, &mut psi, &secs, &pk, &notes, "pointer")?;
                cx.seen((tail as u64) << 20 | (a as u64) << 8 | (b as u64 & 0x7F) << 1 | more as u64);
            }
        }
    }
    cx.sample(|| format!("next section begins behind a tail of {} bytes", tail));
    Ok(())
}

fn c04_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 12);
    let secs: Vec<Vec<u8>> = (0..n).map(|_| {
        let len = match r.below(6) { 0 => r.urange(8, 12), 1 => r.urange(8, 190), 2 => r.urange(175, 195), 3 => r.urange(8, 4098), 4 => { let k = r.urange(1, 20) * 184; (k + r.urange(0, 6)).saturating_sub(3).max(8) } _ => r.urange(8, 1024) };
        rand_section(r, len.min(4098))
    }).collect();
    let o = CutOpts { af: r.pick(&[0, 2, 8, 16]), idle: r.pick(&[0, 0, 1, 6]), join: r.pick(&[0, 8, 16, 16]) };
    let cc = r.below(16) as u8;
    let style = r.below(4);
    let mut psi = Psi::default();
    dirty(r, &mut psi, style);
    let (pk, notes, _) = cut(r, &secs, 0x1ABC, cc, o);
    check_intact(cx, &mut psi, &secs, &pk, &notes, "random")?;
    cx.seen_bytes(&pk.concat());
    cx.sample(|| format!("{} sections {:?} in {} packets, af {}/16 idle {}/16 join {}/16, prior state {}", n, secs.iter().map(|s| s.len()).collect::<Vec<_>>(), pk.len(), o.af, o.idle, o.join, style));
    Ok(())
}

/// joining a running stream: continuation packets of an unseen section, then
/// a pointer over its tail
fn c04_midstream(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let lead = { let n = r.urange(400, 3000); rand_section(r, n) };
    let next = { let n = r.urange(200, 2000); rand_section(r, n) };
    let third = { let n = r.urange(8, 2000); rand_section(r, n) };
    let secs = vec![lead, next, third];
    let cc = r.below(16) as u8;
    let opts = CutOpts { af: r.pick(&[0, 3]), idle: 1, join: r.pick(&[0, 16, 16]) };
    let (pk, notes, _) = cut(r, &secs, 0x99, cc, opts);
    // drop the packet that begins the first section and maybe some more
    let first_begin = match notes.iter().position(|n| matches!(n.begins, Some((1, _)))) { Some(i) => i, None => return Ok(()) };
    let zero = notes.iter().position(|n| matches!(n.begins, Some((0, _)))).unwrap_or(0);
    if zero >= first_begin { return Ok(()); }
    let skip = r.urange(zero + 1, first_begin);
    let mut psi = Psi::default();
    for i in skip..pk.len() {
        psi.mux(&pk[i][..]);
        if !notes[i].payload { continue; }
        match notes[i].completes {
            Some(0) | None => if psi.check() { return Err(format!("joining at packet {}: packet {} reported a section complete", skip, i)); },
            Some(si) => {
                if !psi.check() || psi.buffer.get(..psi.size) != Some(&secs[si][..]) { return Err(format!("joining at packet {}: section {} not delivered at packet {} ({:?})", skip, si, i, notes[i])); }
                cx.count("sections_delivered");
            }
        }
    }
    cx.seen_bytes(&pk.concat());
    cx.sample(|| format!("joined a stream of {} packets at packet {}", pk.len(), skip));
    Ok(())
}

/// a section without checksum (time table) is complete with its eight bytes
fn c04_time(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let t = rand_time(r);
    let mut s = vec![0x70, 0x70, 5];
    s.extend_from_slice(&date5(t));
    let af = r.urange(0, 181);
    let cap = room(Some(af));
    let mut psi = Psi::default();
    let style = r.below(4);
    dirty(r, &mut psi, style);
    let mut cc = r.below(16) as u8;
    let mut at = 0;
    while at < s.len() {
        let mut pl = if at == 0 { vec![0u8] } else { vec![] };
        let n = (cap - pl.len()).min(s.len() - at);
        pl.extend_from_slice(&s[at..at + n]);
        pl.resize(cap, 0xFF);
        let p = pkt(r, PktSpec { pid: 0x14, cc, pusi: at == 0, payload: true, af: Some(af) }, &pl);
        psi.mux(&p[..]);
        at += n;
        cc = (cc + 1) & 15;
    }
    if psi.size != 8 || psi.buffer.get(..8) != Some(&s[..]) { return Err(format!("time section reassembled to {} of {}", hex(&psi.buffer), psi.size)); }
    let got = Tdt::from(&psi).time;
    if got != t { return Err(format!("time {} want {}", got, t)); }
    cx.count("sections_delivered");
    cx.seen(t << 8 | af as u64);
    cx.sample(|| format!("time table with adaptation length {}", af));
    Ok(())
}

pub fn c04() -> Vec<Workload> {
    vec![
        sweep("sizes", 4091, 12, c04_sizes),
        sweep("adaptation", 183, 4, c04_adaptation),
        sweep("pointer", 182, 2, c04_pointer),
        random("random", 40_000, 1_500_000, 15, c04_random),
        random("midstream", 25_000, 800_000, 10, c04_midstream),
        random("time", 20_000, 300_000, 10, c04_time),
    ]
}

// ---- C05 -------------------------------------------------------------------

/// section whose contents imitate complete sections wherever a packet payload
/// (or a pointer target inside it) may start
fn nested(r: &mut Rng, total: usize, fakes: &mut HashSet<u64>) -> Vec<u8> {
    let mut s = vec![r.pick(&[0u8, 2, 0x42, 0x50]), 0xB0, 0];
    let body = total - 7;
    let mut b: Vec<u8> = Vec::with_capacity(body);
    while b.len() < body {
        let left = body - b.len();
        let at = 3 + b.len();
        // packet payload boundaries for a section starting behind pointer 0
        let next = if at < 183 { 183 } else { 183 + (at - 183 + 183) / 184 * 184 };
        if at == next || r.one_in(3) {
            let n = r.urange(8, 60);
            if left >= n + 1 {
                if r.coin() { b.push(0); } // imitates a zero pointer
                if body - b.len() >= n {
                    let f = rand_section(r, n);
                    fakes.insert(hash_bytes(&f));
                    b.extend_from_slice(&f);
                    continue;
                }
            }
            let k = left.min(5);
            b.extend(r.bytes(k));
        } else {
            let k = (next - at).min(left).min(r.urange(1, 200));
            b.extend(r.bytes(k));
        }
    }
    b.truncate(body);
    s.extend_from_slice(&b);
    seal(s)
}

struct Stream { secs: Vec<Vec<u8>>, sent: HashSet<u64>, pk: Vec<Pkt>, notes: Vec<Note>, cc: u8 }

fn stream(r: &mut Rng, n: usize, imitate: bool, o: CutOpts, cc0: u8, max: usize) -> Stream {
    let mut fakes = HashSet::new();
    let secs: Vec<Vec<u8>> = (0..n).map(|_| {
        let len = match r.below(4) { 0 => r.urange(8, 60), 1 => r.urange(150, 400), _ => r.urange(190, max) };
        if imitate && len > 40 { nested(r, len, &mut fakes) } else { rand_section(r, len) }
    }).collect();
    let sent = secs.iter().map(|s| hash_bytes(s)).collect();
    let (pk, notes, cc) = cut(r, &secs, 0x77, cc0, o);
    Stream { secs, sent, pk, notes, cc }
}

/// no reported section but one that was sent
fn judge(cx: &mut Cx, psi: &Psi, sent: &HashSet<u64>, what: impl Fn() -> String) -> Res {
    if psi.check() {
        let b = match psi.buffer.get(..psi.size) { Some(b) => b, None => return Err(format!("{}: complete with {} of {} bytes", what(), psi.buffer.len(), psi.size)) };
        if !sent.contains(&hash_bytes(b)) { return Err(format!("{}: reported a section that was never sent: {}", what(), hex(b))); }
        cx.count("sections_reported_under_fault");
    }
    Ok(())
}

/// clean suffix: every section begun with a zero pointer must arrive
fn recover(cx: &mut Cx, psi: &mut Psi, cc: u8, sent: &mut HashSet<u64>, gap: bool, what: &str) -> Res {
    let r = &mut cx.r;
    let cc0 = if gap { (cc + r.range(1, 14) as u8) & 15 } else { cc };
    let n = r.urange(2, 5);
    let o = CutOpts { af: r.pick(&[0, 4]), idle: r.pick(&[0, 2]), join: r.pick(&[0, 16, 10]) };
    let s = stream(r, n, r_bool(cx.index), o, cc0, 900);
    sent.extend(s.sent.iter());
    let zero: HashSet<usize> = s.notes.iter().filter_map(|n| match n.begins { Some((i, 0)) => Some(i), _ => None }).collect();
    for (i, (p, n)) in s.pk.iter().zip(&s.notes).enumerate() {
        psi.mux(&p[..]);
        judge(cx, psi, sent, || format!("{}, clean packet {}", what, i))?;
        if let Some(si) = n.completes {
            if zero.contains(&si) {
                if !psi.check() || psi.buffer.get(..psi.size) != Some(&s.secs[si][..]) {
                    return Err(format!("{}: after the faults stopped, section {} (begun with a zero pointer) was not delivered at its last packet {}", what, si, i));
                }
                cx.count("sections_recovered");
            }
        }
    }
    Ok(())
}

fn r_bool(i: u64) -> bool { i % 2 == 0 }

/// every single fault (drop, duplicate, swap with the next, delay by two) at
/// every packet of a short stream
fn c05_single(cx: &mut Cx) -> Res {
    let imitate = !cx.index.is_multiple_of_3();
    let r = &mut cx.r;
    let n = r.urange(2, 4);
    let o = CutOpts { af: r.pick(&[0, 0, 4]), idle: r.pick(&[0, 0, 2]), join: r.pick(&[0, 16, 16, 8]) };
    let cc0 = r.below(16) as u8;
    let s = stream(r, n, imitate, o, cc0, 1100);
    for i in 0..s.pk.len() {
        for fault in 0..5u64 {
            let mut pk = s.pk.clone();
            match fault {
                0 => { pk.remove(i); }
                1 => { let p = pk[i]; pk.insert(i, p); }
                2 => { if i + 1 >= pk.len() { continue; } pk.swap(i, i + 1); }
                3 => { if i + 2 >= pk.len() { continue; } let p = pk.remove(i); pk.insert(i + 2, p); }
                _ => { if i + 2 >= pk.len() { continue; } pk.remove(i); pk.remove(i); }
            }
            let mut psi = Psi::default();
            let mut sent = s.sent.clone();
            for (j, p) in pk.iter().enumerate() {
                psi.mux(&p[..]);
                judge(cx, &psi, &sent, || format!("fault {} at packet {} of {}, packet {}", ["drop", "duplicate", "swap", "delay by two", "drop two"][fault as usize], i, s.pk.len(), j))?;
            }
            recover(cx, &mut psi, s.cc, &mut sent, fault == 3, "single fault")?;
            cx.count(["fault_drop", "fault_duplicate", "fault_swap", "fault_delay", "fault_drop_two"][fault as usize]);
            cx.seen(hash_bytes(&pk.concat()));
        }
    }
    cx.sample(|| format!("{} sections in {} packets (imitating contents: {}), every single fault at every packet", n, s.pk.len(), imitate));
    Ok(())
}

trait Mult3 { fn is_multiple_of_3(&self) -> bool; }
impl Mult3 for u64 { fn is_multiple_of_3(&self) -> bool { self % 3 == 0 } }

/// random bursts of sequence faults
fn c05_multi(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(2, 9);
    let o = CutOpts { af: r.pick(&[0, 3, 8]), idle: r.pick(&[0, 1, 4]), join: r.pick(&[0, 8, 16]) };
    let cc0 = r.below(16) as u8;
    let s = stream(r, n, !r_one(cx.index), o, cc0, 1500);
    // sequence of source indexes, faults kept well inside one counter cycle
    let mut ix: Vec<usize> = (0..s.pk.len()).collect();
    let mut faults = Vec::new();
    for _ in 0..r.urange(1, 5) {
        if ix.len() < 3 { break; }
        let i = r.idx(ix.len());
        match r.below(4) {
            0 => { let k = r.urange(1, 2).min(ix.len() - i); ix.drain(i..i + k); faults.push(format!("drop {}x{}", i, k)); }
            1 => { let v = ix[i]; ix.insert(i, v); faults.push(format!("dup {}", i)); }
            2 => { if i + 1 < ix.len() { ix.swap(i, i + 1); faults.push(format!("swap {}", i)); } }
            _ => { let v = ix.remove(i); let j = (i + r.urange(1, 2)).min(ix.len()); ix.insert(j, v); faults.push(format!("delay {}->{}", i, j)); }
        }
    }
    let mut psi = Psi::default();
    let mut sent = s.sent.clone();
    for &i in &ix {
        psi.mux(&s.pk[i][..]);
        judge(cx, &psi, &sent, || format!("faults [{}] in {} packets", faults.join(", "), s.pk.len()))?;
    }
    let gap = cx.r.coin();
    recover(cx, &mut psi, s.cc, &mut sent, gap, &format!("faults [{}]", faults.join(", ")))?;
    cx.add("faults_injected", faults.len() as u64);
    cx.seen(hash_bytes(&ix.iter().map(|&i| i as u8).collect::<Vec<_>>()) ^ hash_bytes(&s.pk.concat()));
    cx.sample(|| format!("{} packets with {}", s.pk.len(), faults.join(", ")));
    Ok(())
}

fn r_one(i: u64) -> bool { i % 5 == 0 }

/// byte damage in header and payload; contents do not imitate sections, since
/// a damaged unit-start flag cannot be told from a real one
fn c05_damage(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(1, 6);
    let o = CutOpts { af: r.pick(&[0, 3]), idle: r.pick(&[0, 1]), join: r.pick(&[0, 8, 16]) };
    let cc0 = r.below(16) as u8;
    let s = stream(r, n, false, o, cc0, 1500);
    let mut pk = s.pk.clone();
    let mut where_ = Vec::new();
    for _ in 0..r.urange(1, 6) {
        let i = r.idx(pk.len());
        match r.below(6) {
            0 => { let b = r.idx(188); let bit = r.below(8); pk[i][b] ^= 1 << bit; where_.push(format!("{}:{}^{}", i, b, bit)); }
            1 => { let b = r.urange(1, 8); pk[i][b] = r.u8(); where_.push(format!("{}:{}", i, b)); }
            2 => { let a = r.idx(188); let k = r.urange(1, 188 - a); for x in &mut pk[i][a..a + k] { *x = r.u8(); } where_.push(format!("{}:{}+{}", i, a, k)); }
            3 => { pk[i][1] ^= 0x40; where_.push(format!("{}:unit start", i)); }
            4 => { pk[i][3] ^= 0x20; where_.push(format!("{}:adaptation flag", i)); }
            _ => { pk[i][3] = pk[i][3] & 0xF0 | r.below(16) as u8; where_.push(format!("{}:counter", i)); }
        }
    }
    let mut psi = Psi::default();
    let mut sent = s.sent.clone();
    for p in &pk {
        psi.mux(&p[..]);
        judge(cx, &psi, &sent, || format!("damage [{}]", where_.join(", ")))?;
    }
    recover(cx, &mut psi, s.cc, &mut sent, false, &format!("damage [{}]", where_.join(", ")))?;
    cx.add("faults_injected", where_.len() as u64);
    cx.seen(hash_bytes(&pk.concat()));
    cx.sample(|| format!("{} packets damaged at {}", pk.len(), where_.join(", ")));
    Ok(())
}

/// every single-bit damage of every byte of a two-section stream
fn c05_bits(cx: &mut Cx) -> Res {
    let mut r = Rng::new(99 + cx.index % 4);
    let o = CutOpts { af: if cx.index % 2 == 0 { 0 } else { 8 }, idle: 0, join: if cx.index % 4 < 2 { 16 } else { 0 } };
    let s = stream(&mut r, 2, false, o, 14, 420);
    let pi = (cx.index / 4) as usize;
    if pi >= s.pk.len() { return Ok(()); }
    for byte in 0..188 {
        for bit in 0..8 {
            let mut pk = s.pk.clone();
            pk[pi][byte] ^= 1 << bit;
            let mut psi = Psi::default();
            let mut sent = s.sent.clone();
            for p in &pk { psi.mux(&p[..]); judge(cx, &psi, &sent, || format!("bit {} of byte {} of packet {}", bit, byte, pi))?; }
            recover(cx, &mut psi, s.cc, &mut sent, false, "single bit")?;
            cx.count("faults_injected");
            cx.seen((pi as u64) << 32 | (byte as u64) << 8 | bit | (cx.index % 4) << 40);
        }
    }
    cx.sample(|| format!("all 1504 single-bit changes of packet {} of {}", pi, s.pk.len()));
    Ok(())
}

/// a section begins only where a unit start is flagged: packets without the
/// flag carrying complete sections are ignored in every state
fn c05_no_start(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut psi = Psi::default();
    let mut sent: HashSet<u64> = HashSet::new();
    let mut cc = r.below(16) as u8;
    let prior = r.below(3);
    if prior > 0 {
        let n = r.urange(8, 700);
        let s = rand_section(r, n);
        sent.insert(hash_bytes(&s));
        let (pk, _, c) = cut(r, &[s], 1, cc, PLAIN);
        let k = if prior == 1 { pk.len() } else { r.urange(1, pk.len()) };
        for p in &pk[..k] { psi.mux(&p[..]); }
        cc = if prior == 1 { c } else { (cc + k as u8) & 15 };
    }
    if r.one_in(4) { cc = r.below(16) as u8; }
    let steps = r.urange(1, 6);
    for i in 0..steps {
        let r = &mut cx.r;
        let n = r.urange(8, 180);
        let s = rand_section(r, n);
        let mut pl = Vec::new();
        if r.coin() { pl.push(0); }
        pl.extend_from_slice(&s);
        pl.truncate(184);
        pl.resize(184, 0xFF);
        let p = pkt(r, PktSpec { pid: 1, cc, pusi: false, payload: true, af: None }, &pl);
        psi.mux(&p[..]);
        judge(cx, &psi, &sent, || format!("packet {} without unit start, prior state {}", i, prior))?;
        cc = if cx.r.one_in(5) { cx.r.below(16) as u8 } else { (cc + 1) & 15 };
        cx.count("startless_packets");
        cx.seen_bytes(&p);
    }
    recover(cx, &mut psi, cc, &mut sent, false, "packets without unit start")?;
    cx.sample(|| format!("continuation packets holding whole sections, prior state {}", prior));
    Ok(())
}

/// a packet whose adaptation field leaves no payload carries no part of a
/// section, whatever its bytes look like
fn c05_no_room(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut psi = Psi::default();
    let mut sent: HashSet<u64> = HashSet::new();
    let mut cc = r.below(16) as u8;
    let prior = r.below(3);
    if prior > 0 {
        let n = r.urange(8, 700);
        let s = rand_section(r, n);
        sent.insert(hash_bytes(&s));
        let (pk, _, c) = cut(r, &[s], 1, cc, PLAIN);
        let k = if prior == 1 { pk.len() } else { r.urange(1, pk.len()) };
        for p in &pk[..k] { psi.mux(&p[..]); }
        cc = if prior == 1 { c } else { (cc + k as u8) & 15 };
    }
    for i in 0..r.urange(1, 4) {
        let r = &mut cx.r;
        let mut p: Pkt = [0xFF; 188];
        let pusi = !r.one_in(3);
        let af = r.pick(&[3u8, 3, 3, 2, 0]);
        p[0] = 0x47;
        p[1] = if pusi { 0x40 } else { 0 };
        p[2] = 1;
        p[3] = af << 4 | cc;
        let at = match r.below(4) { 0 => 72, 1 => r.urange(5, 8), _ => r.urange(5, 176) };
        let n = r.urange(8, 188 - at);
        let s = rand_section(r, n);
        if r.coin() { for x in &mut p[4..at] { *x = 0; } }
        p[at - 1] = 0;
        p[at..at + n].copy_from_slice(&s);
        p[4] = if af == 3 { r.urange(183, 255) as u8 } else { r.u8() };
        psi.mux(&p[..]);
        judge(cx, &psi, &sent, || format!("packet {} without payload ({}), prior state {}", i, hex(&p[..5]), prior))?;
        if psi.buffer.windows(n).any(|w| w == &s[..]) { return Err(format!("packet {} without payload ({}), prior state {}: its bytes were taken up", i, hex(&p[..5]), prior)); }
        if af == 3 || r_bool(cx.r.below(2)) { cc = (cc + 1) & 15; }
        cx.count("payloadless_packets");
        cx.seen_bytes(&p);
    }
    recover(cx, &mut psi, cc, &mut sent, false, "packets without payload")?;
    cx.sample(|| format!("adaptation fields that fill the packet and hold whole sections, prior state {}", prior));
    Ok(())
}

/// sections of one layout that are interchangeable piece by piece: cut at the
/// same offsets, and with the same checksum register at every cut, so a
/// splice of pieces of different sections has a matching checksum
fn twin(r: &mut Rng, base: &[u8], cuts: &[usize]) -> Vec<u8> {
    let n = base.len() - 4;
    let mut s = base.to_vec();
    for x in &mut s[3..n] { *x = r.u8(); }
    let mut from = 0;
    for &c in cuts {
        if c < 7 { s[..c].copy_from_slice(&base[..c]); from = c; continue; }
        if c - from < 4 { s[from..c].copy_from_slice(&base[from..c]); from = c; continue; }
        // four bytes in front of the cut bring the register to base's value
        let want = fcrc(&base[..c]);
        let have = fcrc(&s[..c - 4]);
        s[c - 4..c].copy_from_slice(&(have ^ crc_unshift(want)).to_be_bytes());
        from = c;
    }
    let c = fcrc(&s[..n]).to_be_bytes();
    s[n..].copy_from_slice(&c);
    s
}

/// periods of identical layout, see `twin`; packets are losing, swapping and
/// repeating within less than a counter cycle
fn c05_interchange(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let count = r.urange(1, 3);
    let lens: Vec<usize> = (0..count).map(|_| match r.below(4) { 0 => r.urange(30, 180), 1 => r.urange(370, 560), _ => r.urange(190, 420) }).collect();
    let join: Vec<bool> = (0..count).map(|_| !r.one_in(4)).collect();
    let periods = r.urange(3, 5);
    // adaptation fields by place in the period
    let fields = r.one_in(3);
    let afs: Vec<Option<usize>> = (0..64).map(|_| if fields && r.one_in(3) { Some(match r.below(3) { 0 => r.urange(0, 2), 1 => r.urange(1, 30), _ => r.urange(7, 120) }) } else { None }).collect();
    // layout: (pointer, pieces), a piece being (section, from, to)
    let mut lay: Vec<(Option<usize>, Vec<(usize, usize, usize)>)> = Vec::new();
    let mut place: Vec<usize> = Vec::new();
    for p in 0..periods {
        let begin = lay.len();
        for i in 0..count {
            let id = p * count + i;
            let n = lens[i];
            // behind the tail of the section before where that leaves room
            let tail = match lay.last() { Some((None, v)) if v.len() == 1 && i > 0 => Some(v[0].2 - v[0].1), _ => None };
            let mut at = match tail {
                Some(t) if join[i] && t + 2 <= room(afs[lay.len() - 1 - begin]) && n > room(afs[lay.len() - 1 - begin]) - 1 - t => {
                    let l = lay.len() - 1;
                    let k = room(afs[l - begin]) - 1 - t;
                    lay[l].0 = Some(t);
                    lay[l].1.push((id, 0, k));
                    k
                }
                _ => { let k = n.min(room(afs[lay.len() - begin]) - 1); lay.push((Some(0), vec![(id, 0, k)])); k }
            };
            while at < n { let k = (n - at).min(room(afs[lay.len() - begin])); lay.push((None, vec![(id, at, at + k)])); at += k; }
        }
        place.extend(0..lay.len() - begin);
    }
    // a last piece shorter than the checksum would pin the checksum itself
    let cuts: Vec<Vec<usize>> = (0..count).map(|i| lay.iter().flat_map(|l| &l.1).filter(|p| p.0 == i && p.2 < lens[i]).map(|p| p.2).collect()).collect();
    if (0..count).any(|i| cuts[i].iter().any(|&c| c + 4 > lens[i])) { return Ok(()); }
    let base: Vec<Vec<u8>> = lens.iter().map(|&n| rand_section(r, n)).collect();
    let secs: Vec<Vec<u8>> = (0..periods * count).map(|id| twin(r, &base[id % count], &cuts[id % count])).collect();
    if secs.iter().any(|s| fcrc(s) != 0) { panic!("reference section with a wrong checksum"); }
    let sent: HashSet<u64> = secs.iter().map(|s| hash_bytes(s)).collect();
    let cc0 = r.below(16) as u8;
    let pk: Vec<Pkt> = lay.iter().enumerate().map(|(i, (ptr, v))| {
        let mut pl = Vec::new();
        if let Some(t) = ptr { pl.push(*t as u8); }
        for &(id, a, b) in v { pl.extend_from_slice(&secs[id][a..b]); }
        let af = afs[place[i]];
        pl.resize(room(af), 0xFF);
        let mut p = pkt(r, PktSpec { pid: 0x77, cc: (cc0 + (i % 16) as u8) & 15, pusi: ptr.is_some(), payload: true, af }, &pl);
        // (the flags say something about clocks, not about the sections)
        if af.unwrap_or(0) > 0 && r.coin() { p[5] = r.u8(); }
        p
    }).collect();
    let n = pk.len();
    let run = |cx: &mut Cx, ix: &[usize], what: &dyn Fn() -> String| -> Res {
        // a step of a whole counter cycle cannot be told from none
        if ix.windows(2).any(|w| w[1] != w[0] + 1 && (w[1] + 16 * n - w[0] - 1) % 16 == 0) { return Ok(()); }
        let mut psi = Psi::default();
        for &i in ix { psi.mux(&pk[i][..]); judge(cx, &psi, &sent, what)?; }
        cx.count("spliceable_streams");
        Ok(())
    };
    for i in 1..n {
        for d in 1..=15.min(n - i) {
            let ix: Vec<usize> = (0..n).filter(|&x| x < i || x >= i + d).collect();
            run(cx, &ix, &|| format!("interchangeable sections {:?}: packets {}..{} of {} lost", lens, i, i + d, n))?;
            cx.count("losses");
        }
    }
    for _ in 0..20 {
        let (i, d) = (cx.r.idx(n), cx.r.urange(1, 14));
        if i + d >= n { continue; }
        let mut ix: Vec<usize> = (0..n).collect();
        match cx.r.below(4) {
            0 => ix.swap(i, i + d),
            1 => ix.insert(i + 1, i + d),
            2 => ix.insert(i + d, i),
            _ => { let v = ix.remove(i); ix.insert(i + d, v); }
        }
        run(cx, &ix, &|| format!("interchangeable sections {:?}: packets {} and {} of {} exchanged or repeated", lens, i, i + d, n))?;
        cx.count("exchanges");
    }
    for _ in 0..10 {
        let mut ix: Vec<usize> = (0..n).collect();
        for _ in 0..cx.r.urange(2, 4) {
            let i = cx.r.idx(ix.len());
            match cx.r.below(3) {
                0 => { let k = cx.r.urange(1, 6).min(ix.len() - i); ix.drain(i..i + k); }
                1 => { let v = ix[cx.r.idx(ix.len())]; ix.insert(i, v); }
                _ => { let j = cx.r.idx(ix.len()); ix.swap(i, j); }
            }
            if ix.is_empty() { break; }
        }
        run(cx, &ix, &|| format!("interchangeable sections {:?} in order {:?}", lens, ix))?;
    }
    cx.seen_bytes(&pk.concat());
    cx.sample(|| format!("{} periods of interchangeable sections {:?} in {} packets", periods, lens, n));
    Ok(())
}

pub fn c05() -> Vec<Workload> {
    vec![
        random("interchange", 2_000, 80_000, 1, c05_interchange),
        sweep("single_bits", 4 * 9, 1, c05_bits),
        random("single_faults", 4_000, 120_000, 2, c05_single),
        random("fault_bursts", 60_000, 2_000_000, 7, c05_multi),
        random("damage", 60_000, 2_000_000, 8, c05_damage),
        random("no_unit_start", 60_000, 1_500_000, 8, c05_no_start),
        random("no_room", 60_000, 1_500_000, 8, c05_no_room),
    ]
}
