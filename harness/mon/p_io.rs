//! C16 packet reader, C17 draining reader.

use crate::cx::*;
use crate::refm::hex;
use crate::rng::Rng;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read};
use std::rc::Rc;

// ---- C16 -------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Step { Give(usize), Fail(ErrorKind) }

/// byte source with a script of read sizes and failures
#[derive(Debug)]
struct Source { data: Vec<u8>, pos: usize, script: Vec<Step>, at: usize, calls: u64, failures: u64, interrupts: u64, eofs: u64 }

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 200_000 + 4 * self.data.len() as u64 { violation_panic("byte source polled endlessly"); }
        if buf.is_empty() { return Ok(0); }
        let step = if self.script.is_empty() { Step::Give(usize::MAX) } else { let s = self.script[self.at % self.script.len()].clone(); self.at += 1; s };
        match step {
            Step::Fail(k) => {
                if k == ErrorKind::Interrupted { self.interrupts += 1; } else { self.failures += 1; }
                Err(io::Error::new(k, format!("failure {}", self.failures)))
            }
            Step::Give(n) => {
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
                if n == 0 { self.eofs += 1; if self.eofs > 64 { violation_panic("source polled endlessly at its end"); } }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

const KINDS: [ErrorKind; 6] = [ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidData];

fn rand_data(r: &mut Rng) -> Vec<u8> {
    let mut d = Vec::new();
    for _ in 0..r.urange(0, 9) {
        match r.below(8) {
            6 => {
                // packets with particular headers: null packets, low numbers, single bits
                for _ in 0..r.urange(1, 3) {
                    let mut p = r.body(188);
                    let h = (r.bits(3) as u16) << 13 | match r.below(4) { 0 => 0x1FFF, 1 => r.below(32) as u16, _ => r.bits(13) as u16 };
                    p[0] = 0x47;
                    p[1..3].copy_from_slice(&h.to_be_bytes());
                    p[3] = r.e8();
                    d.extend(p);
                }
            }
            7 => {
                // the same packet again, at once or with another in between
                let mut p = r.body(188);
                p[0] = 0x47;
                let mut q = r.bytes(188);
                q[0] = 0x47;
                for _ in 0..r.urange(2, 4) {
                    d.extend(&p);
                    if r.one_in(3) { d.extend(&q); }
                    if r.one_in(4) { p[3] = p[3] & 0xF0 | p[3].wrapping_add(1) & 0x0F; }
                }
            }
            0 => { let n = r.urange(0, 400); d.extend(r.bytes(n)); }
            1 => { let n = r.urange(0, 30); d.extend(std::iter::repeat(0x47).take(n)); }
            2 => { let n = r.urange(0, 300); d.extend(r.bytes(n).into_iter().filter(|&b| b != 0x47)); }
            _ => { let mut p = r.bytes(188); p[0] = 0x47; if r.one_in(5) { for x in p[1..].iter_mut() { if r.one_in(4) { *x = 0x47; } } } d.extend(p); }
        }
    }
    if r.one_in(3) { let mut p = r.bytes(188); p[0] = 0x47; let n = r.urange(0, 188); d.extend(&p[..n]); }
    d
}

fn rand_script(r: &mut Rng, errors: bool) -> Vec<Step> {
    let n = r.urange(1, 12);
    let mut v: Vec<Step> = (0..n).map(|_| {
        if errors && r.one_in(4) { Step::Fail(if r.coin() { ErrorKind::Interrupted } else { r.pick(&KINDS) }) }
        else { Step::Give(match r.below(5) { 0 => 1, 1 => usize::MAX, 2 => r.urange(1, 4), 3 => r.pick(&[187, 188, 186, 94]), _ => r.urange(1, 200) }) }
    }).collect();
    if !v.iter().any(|s| matches!(s, Step::Give(_))) { v.push(Step::Give(usize::MAX)); }
    v
}

fn drive(cx: &mut Cx, data: Vec<u8>, script: Vec<Step>) -> Res {
    let src = Source { data, pos: 0, script, at: 0, calls: 0, failures: 0, interrupts: 0, eofs: 0 };
    let mut rd = TsReader::new(src);
    let extra = cx.r.pick(&[0usize, 0, 1, 100]);
    let mut packets = 0;
    let mut buf = vec![0u8; 188 + extra];
    let mut ends = 0;
    for call in 0..20_000 {
        for b in buf.iter_mut() { *b = 0xA5; }
        let start = rd.get_ref().pos;
        let fails = rd.get_ref().failures;
        let res = rd.read(&mut buf);
        let s = rd.get_ref();
        let w = |m: &str| format!("call {} from byte {} of {}: {} (script {:?})", call, start, s.data.len(), m, s.script);
        if buf[188..].iter().any(|&b| b != 0xA5) { return Err(w("bytes behind the packet were written")); }
        let sync = s.data[start..].iter().position(|&b| b == 0x47).map(|i| i + start);
        match res {
            Ok(188) => {
                let at = match sync { Some(a) if a + 188 <= s.data.len() => a, _ => return Err(w("delivered a packet that is not there")) };
                if buf[..188] != s.data[at..at + 188] { return Err(w(&format!("delivered {} instead of the bytes at {}", hex(&buf[..188]), at))); }
                if s.pos != at + 188 { return Err(w(&format!("source was read to {} for the packet at {}", s.pos, at))); }
                if s.failures != fails { return Err(w("an error of the source was swallowed")); }
                packets += 1;
            }
            Ok(0) => {
                if s.failures != fails { return Err(w("an error of the source was reported as its end")); }
                if s.pos != s.data.len() { return Err(w(&format!("end reported at byte {}", s.pos))); }
                if let Some(a) = sync { if a + 188 <= s.data.len() { return Err(w(&format!("packet at {} not delivered", a))); } }
                ends += 1;
                if ends >= 2 { break; }
            }
            Ok(n) => return Err(w(&format!("returned {}", n))),
            Err(e) => {
                if e.kind() == ErrorKind::Interrupted { return Err(w("an interruption was passed on")); }
                if s.failures != fails + 1 { return Err(w(&format!("error {} without one failure of the source", e))); }
                let k = match &s.script[(s.at + s.script.len() - 1) % s.script.len()] { Step::Fail(k) => *k, _ => return Err(w("an error after the source went on")) };
                if e.kind() != k || e.to_string() != format!("failure {}", s.failures) { return Err(w(&format!("error {:?} {} came out as {:?} {}", k, s.failures, e.kind(), e))); }
                cx.count("errors_passed_on");
            }
        }
    }
    let s = rd.into_inner();
    if ends < 2 && s.failures == 0 { return Err("end of input never reported".into()); }
    cx.add("packets_delivered", packets);
    cx.add("interruptions_retried", s.interrupts);
    cx.add("source_reads", s.calls);
    cx.seen(crate::rng::hash_bytes(&s.data) ^ s.calls);
    cx.sample(|| format!("{} bytes, {} packets, {} reads, {} errors, {} interruptions", s.data.len(), packets, s.calls, s.failures, s.interrupts));
    Ok(())
}

fn c16_chunks(cx: &mut Cx) -> Res { let d = rand_data(&mut cx.r); let s = rand_script(&mut cx.r, false); drive(cx, d, s) }
fn c16_errors(cx: &mut Cx) -> Res { let d = rand_data(&mut cx.r); let s = rand_script(&mut cx.r, true); drive(cx, d, s) }

/// every fixed read size, every amount of junk before and between packets
fn c16_sizes(cx: &mut Cx) -> Res {
    let size = 1 + (cx.index % 190) as usize;
    let junk = (cx.index / 190) as usize;
    let mut d = vec![0x11; junk];
    for k in 0..4u8 {
        let mut p: Vec<u8> = (0..188u32).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k)).collect();
        p[0] = 0x47;
        d.extend(p);
        d.extend(std::iter::repeat(0x22).take(if k % 2 == 0 { junk % 5 } else { 0 }));
    }
    drive(cx, d, vec![Step::Give(size)])
}

/// end of input after every byte of a packet
fn c16_cut(cx: &mut Cx) -> Res {
    let n = cx.index as usize;
    let mut d: Vec<u8> = (0..188 * 2).map(|i| i as u8).collect();
    d[0] = 0x47;
    d[188] = 0x47;
    d.truncate(n);
    for s in [vec![], vec![Step::Give(1)], vec![Step::Give(7), Step::Fail(ErrorKind::Interrupted)]] { drive(cx, d.clone(), s)?; }
    Ok(())
}

/// one failure after every number of reads
fn c16_one_failure(cx: &mut Cx) -> Res {
    let at = (cx.index % 64) as usize;
    let kind = [ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::Other][(cx.index / 64 % 3) as usize];
    let size = [1usize, 3, 40, 188, 1000][(cx.index / 192 % 5) as usize];
    let mut s = vec![Step::Give(size); at];
    s.push(Step::Fail(kind));
    s.extend(vec![Step::Give(size); 2000]);
    let d = rand_data(&mut cx.r);
    drive(cx, d, s)
}

/// long silences, long stretches of packets
fn c16_long(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let mut d = Vec::new();
    for _ in 0..r.urange(1, 4) {
        let n = r.long();
        match r.below(4) {
            0 => for _ in 0..n / 188 { let at = d.len(); d.extend(r.bytes(188)); d[at] = 0x47; },
            1 => { let b = r.pick(&[0x00u8, 0x46, 0x48, 0xFF]); d.extend(std::iter::repeat(b).take(n)); }
            2 => d.extend(r.bytes(n).into_iter().map(|b| if b == 0x47 { 0x46 } else { b })),
            _ => d.extend(r.bytes(n)),
        }
        let at = d.len();
        d.extend(r.bytes(188));
        d[at] = 0x47;
    }
    let s = match r.below(4) { 0 => rand_script(r, false), 1 => { let mut s = vec![Step::Give(usize::MAX); r.urange(1, 70)]; s.push(Step::Fail(r.pick(&[ErrorKind::Interrupted, ErrorKind::WouldBlock]))); s } _ => vec![] };
    drive(cx, d, s)
}

pub fn c16() -> Vec<Workload> {
    vec![
        random("long", 60, 1_500, 1, c16_long),
        sweep("read_sizes", 190 * 20, 6, c16_sizes),
        sweep("cut_off", 377, 8, c16_cut),
        sweep("one_failure", 64 * 3 * 5, 10, c16_one_failure),
        random("chunks", 60_000, 2_000_000, 15, c16_chunks),
        random("errors", 60_000, 2_000_000, 5, c16_errors),
    ]
}

// ---- C17 -------------------------------------------------------------------

#[derive(Debug, Clone)]
enum Ev { Packet(Vec<u8>), Fail(ErrorKind), End }

#[derive(Debug, Default)]
struct Log { given: Vec<u8>, failed: u64, ended: u64, calls: u64, last: Option<ErrorKind>, touched: bool }

#[derive(Debug)]
struct Packets { script: Vec<Ev>, at: usize, log: Rc<RefCell<Log>> }

impl TsRead for Packets {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        l.touched = true;
        if l.calls > 100_000 { violation_panic("packet source polled endlessly"); }
        let e = self.script.get(self.at).cloned().unwrap_or(Ev::End);
        self.at += 1;
        match e {
            Ev::Packet(p) => { if packet.len() < 188 { violation_panic("packet source given a buffer shorter than a packet"); } packet[..188].copy_from_slice(&p); l.given.extend_from_slice(&p); Ok(188) }
            Ev::Fail(k) => { l.failed += 1; l.last = Some(k); Err(io::Error::new(k, format!("failure {}", l.failed))) }
            Ev::End => { l.ended += 1; Ok(0) }
        }
    }
}

fn drain_case(cx: &mut Cx, script: Vec<Ev>, sizes: &[usize]) -> Res {
    let log = Rc::new(RefCell::new(Log::default()));
    let total: usize = script.iter().filter(|e| matches!(e, Ev::Packet(_))).count() * 188;
    let mut d = TsDrain::new(Packets { script, at: 0, log: log.clone() });
    let mut got: Vec<u8> = Vec::new();
    let mut k = 0;
    let mut finished = 0;
    for step in 0..(total + 200) * sizes.len() * 2 + 400 {
        let n = sizes[k % sizes.len()];
        k += 1;
        let mut buf = vec![0xEE; n];
        let (f0, e0, given0) = { let l = log.borrow(); (l.failed, l.ended, l.given.len()) };
        log.borrow_mut().touched = false;
        let res = d.read(&mut buf);
        let l = log.borrow();
        let w = |m: &str| format!("read {} with {} bytes after {} of {}: {}", step, n, got.len(), total, m);
        match res {
            Ok(x) if x > n => return Err(w(&format!("returned {}", x))),
            Ok(0) => {
                if l.failed != f0 { return Err(w("an error was swallowed")); }
                if n == 0 {
                    if l.given.len() != given0 && got.len() + 188 < l.given.len() { return Err(w("packets were taken for an empty buffer")); }
                } else {
                    if l.ended == e0 { return Err(w("end reported though the source did not end")); }
                    if got.len() != l.given.len() { return Err(w(&format!("end reported with {} bytes outstanding", l.given.len() - got.len()))); }
                    if got.len() == total { finished += 1; if finished > 1 { break; } }
                }
            }
            Ok(x) => {
                if l.failed != f0 { return Err(w("an error was swallowed")); }
                let a = got.len();
                if l.given.get(a..a + x) != Some(&buf[..x]) { return Err(w(&format!("returned {} which is not what follows in the packets", hex(&buf[..x])))); }
                got.extend_from_slice(&buf[..x]);
                cx.count("reads_judged");
            }
            Err(e) => {
                if l.failed != f0 + 1 || l.last != Some(e.kind()) || e.to_string() != format!("failure {}", l.failed) { return Err(w(&format!("error {:?} {} is not that of the source", e.kind(), e))); }
                cx.count("errors_passed_on");
            }
        }
    }
    if got.len() != total && sizes.iter().any(|&n| n > 0) { return Err(format!("only {} of {} bytes delivered with buffer sizes {:?}", got.len(), total, sizes)); }
    cx.add("bytes_drained", got.len() as u64);
    cx.seen(crate::rng::hash_bytes(&got) ^ crate::rng::hash_bytes(&sizes.iter().map(|&s| s as u8).collect::<Vec<_>>()));
    cx.sample(|| format!("{} bytes through buffers {:?}", got.len(), sizes));
    Ok(())
}

fn packets(r: &mut Rng, n: usize, errors: bool) -> Vec<Ev> {
    let mut v = Vec::new();
    for _ in 0..n {
        if errors && r.one_in(4) { v.push(if r.one_in(4) { Ev::End } else { Ev::Fail(if r.one_in(3) { ErrorKind::Interrupted } else { r.pick(&KINDS) }) }); }
        let mut p = r.bytes(188);
        p[0] = 0x47;
        v.push(Ev::Packet(p));
    }
    v
}

/// every fixed buffer size
fn c17_sizes(cx: &mut Cx) -> Res {
    let n = cx.index as usize;
    let s = packets(&mut cx.r, 4, false);
    let sizes = if n == 0 { vec![0, 1] } else { vec![n] };
    drain_case(cx, s, &sizes)?;
    if n > 0 { let s = packets(&mut cx.r, 3, true); drain_case(cx, s, &[n, 0, 188, n])?; }
    Ok(())
}

fn rand_sizes(r: &mut Rng) -> Vec<usize> {
    let n = r.urange(1, 10);
    let mut v: Vec<usize> = (0..n).map(|_| match r.below(7) { 0 => 0, 1 => 1, 2 => r.pick(&[187, 188, 189]), 3 => r.urange(1, 10), 4 => r.urange(188, 600), _ => r.urange(1, 187) }).collect();
    if v.iter().all(|&x| x == 0) { v.push(5); }
    v
}

fn c17_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(0, 8);
    let e = r.coin();
    let s = packets(r, n, e);
    let z = rand_sizes(r);
    drain_case(cx, s, &z)
}

/// buffers that take many packets at once, many packets through small ones
fn c17_long(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = if cfg!(miri) { 6 } else { r.urange(1, 800) };
    let e = r.one_in(3);
    let s = packets(r, n, e);
    let k = r.urange(1, 4);
    let z: Vec<usize> = (0..k).map(|_| if r.one_in(4) { r.urange(1, 400) } else { r.long() }).map(|x| x.max(1)).collect();
    drain_case(cx, s, &z)
}

/// on top of the packet reader: junk removed, packets concatenated
fn c17_stacked(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let data = rand_data(r);
    let mut want = Vec::new();
    let mut at = 0;
    while let Some(i) = data[at..].iter().position(|&b| b == 0x47) {
        if at + i + 188 > data.len() { break; }
        want.extend_from_slice(&data[at + i..at + i + 188]);
        at += i + 188;
    }
    let script = rand_script(r, false);
    let sizes = rand_sizes(r);
    let mut d = TsDrain::new(TsReader::new(Source { data, pos: 0, script, at: 0, calls: 0, failures: 0, interrupts: 0, eofs: 0 }));
    let mut got = Vec::new();
    let mut k = 0;
    loop {
        let n = sizes[k % sizes.len()];
        k += 1;
        let mut buf = vec![0; n];
        let x = d.read(&mut buf).map_err(|e| format!("error {} from a source without errors", e))?;
        if x > n { return Err(format!("read of {} bytes returned {}", n, x)); }
        if x == 0 && n > 0 { break; }
        got.extend_from_slice(&buf[..x]);
        if got.len() > want.len() || k > 200_000 { break; }
    }
    if got != want { return Err(format!("{} bytes through buffers {:?}, want {}", got.len(), sizes, want.len())); }
    cx.add("bytes_drained", got.len() as u64);
    cx.seen_bytes(&got);
    cx.sample(|| format!("{} bytes of packets through buffers {:?}", want.len(), sizes));
    Ok(())
}

fn c17_helpers(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(0, 12);
    let s = packets(r, n, false);
    let want: Vec<u8> = s.iter().flat_map(|e| match e { Ev::Packet(p) => p.clone(), _ => vec![] }).collect();
    let log = Rc::new(RefCell::new(Log::default()));
    let mut d = TsDrain::new(Packets { script: s, at: 0, log });
    let mut out = Vec::new();
    let head = r.urange(0, want.len());
    let mut h = vec![0; head];
    d.read_exact(&mut h).map_err(|e| format!("reading {} of {} bytes: {}", head, want.len(), e))?;
    out.extend(h);
    d.read_to_end(&mut out).map_err(|e| e.to_string())?;
    if out != want { return Err(format!("{} bytes read to the end, want {}", out.len(), want.len())); }
    cx.add("bytes_drained", out.len() as u64);
    cx.seen_bytes(&out);
    Ok(())
}

pub fn c17() -> Vec<Workload> {
    vec![
        random("long", 300, 6_000, 1, c17_long),
        sweep("buffer_sizes", 600, 6, c17_sizes),
        random("random", 50_000, 1_500_000, 20, c17_random),
        random("stacked", 40_000, 1_200_000, 10, c17_stacked),
        random("helpers", 20_000, 600_000, 10, c17_helpers),
    ]
}
