//! C14 character tables, C15 text sizes, C22 language codes.

use crate::chartab::table;
use crate::cx::*;
use crate::langs::LANGS;
use crate::refm::hex;
use crate::rng::Rng;
use crate::text::*;
use mpegts::textcode::{lang, StringDVB};

fn emit(s: &StringDVB) -> Vec<u8> { let mut v = Vec::new(); s.assemble(&mut v); v }

// ---- C14 -------------------------------------------------------------------

/// every byte of every table, alone and behind other bytes
fn c14_bytes(cx: &mut Cx) -> Res {
    let cp = PAGES[(cx.index / 256) as usize];
    let b = (cx.index % 256) as u8;
    if cp == UTF8 { return Ok(()); }
    for pre in [&b""[..], b"a", b"\xC1"] {
        let mut data = pre.to_vec();
        data.push(b);
        data.push(b'z');
        if cp == 0 && data[0] < 0x20 { continue; }
        // every selector that denotes the table
        let mut forms = vec![selector(cp)];
        if cp > 4 { forms.push(vec![0x10, 0, cp]); }
        for f in forms {
            let e = [&f[..], &data].concat();
            let s = StringDVB::from(&e[..]);
            if s.get_codepage() != cp || s.as_bytes() != &data[..] { return Err(format!("field {} read as table {} bytes {}", hex(&e), s.get_codepage(), hex(s.as_bytes()))); }
            let want = show(cp, &data);
            if s.to_string() != want { return Err(format!("table {} bytes {} displayed as {:?}, want {:?}", cp, hex(&data), s.to_string(), want)); }
            let dbg = format!("{:?}", s);
            if !dbg.contains(&format!("{:?}", want)) { return Err(format!("debug form {} does not show {:?}", dbg, want)); }
            cx.count("bytes_displayed");
        }
    }
    cx.seen(cx.index);
    cx.sample(|| format!("table {} byte {:02x}", cp, b));
    Ok(())
}

/// every Unicode character into every table
fn c14_chars(cx: &mut Cx) -> Res {
    let base = cx.index as u32 * 256;
    for u in base..base + 256 {
        let c = match char::from_u32(u) { Some(c) => c, None => continue };
        let s: String = ['a', c, 'b'].iter().collect();
        for &cp in &PAGES {
            let x = StringDVB::from_str(&s, cp);
            if x.get_codepage() != cp { return Err(format!("U+{:04X} in table {} gives table {}", u, cp, x.get_codepage())); }
            let got = x.as_bytes();
            if cp == UTF8 {
                if got != s.as_bytes() { return Err(format!("U+{:04X} in UTF-8 gives {}", u, hex(got))); }
            } else if (0x80..0xA0).contains(&u) {
                // no code of its own; must not turn into something else visible
                let shown = x.to_string();
                let rest: String = shown.chars().filter(|&k| k != c && k != '?').collect();
                if rest != "ab" { return Err(format!("U+{:04X} in table {} gives {:?}", u, cp, shown)); }
            } else {
                let want = encode(&s, cp);
                let dup = || {
                    // codes assigned twice may be encoded either way
                    got.len() == 3 && got[0] == b'a' && got[2] == b'b' && got[1] >= 0xA0
                        && table(cp).map(|t| u32::from(t[got[1] as usize - 0xA0]) == u).unwrap_or(false)
                };
                if got != &want[..] && !dup() { return Err(format!("U+{:04X} in table {} gives {}, want {}", u, cp, hex(got), hex(&want))); }
            }
            cx.count("characters_encoded");
        }
    }
    cx.seen(cx.index);
    cx.sample(|| format!("characters U+{:04X}..U+{:04X} in sixteen tables", base, base + 255));
    Ok(())
}

const EDGY: [char; 26] = ['\u{FEFF}', '\u{FFFE}', '\u{FFFD}', '\u{FFFF}', '\u{A0}', '\u{AD}', '\u{200B}', '\u{200E}', '\u{2028}', '\u{3000}', '\u{E000}', '\u{F8FF}', '\u{10FFFF}',
    '\u{D7FF}', '\u{20}', '\u{7E}', '\u{7F}', '\u{80}', '\u{85}', '\u{9F}', '\u{301}', '\u{0}', '\t', '\n', '\u{0C}', '\u{1F}'];

const COMPOSED: [&str; 12] = ["e\u{301}", "a\u{308}", "u\u{308}", "A\u{30A}", "n\u{303}", "c\u{327}", "\u{418}\u{306}", "\u{1F1E9}\u{1F1EA}", "x\u{200D}y", "\u{2026}\u{2026}", "\r\n", "\u{FB01}"];

/// encode, emit with selector, parse, display
fn c14_round(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let (cp, s) = if r.one_in(20) {
        // a table that does not exist is replaced by UTF-8
        let cp = loop { let c = r.u8(); if !PAGES.contains(&c) { break c; } };
        let n = r.urange(1, 60);
        (cp, (0..n).map(|_| rand_char(r)).collect::<String>())
    } else if r.coin() {
        let t = rand_text(r, 200);
        (t.cp, t.show())
    } else {
        let n = r.urange(1, 60);
        (r.pick(&PAGES), (0..n).map(|_| rand_char(r)).collect::<String>())
    };
    // characters that invite special treatment, at the ends and inside
    let mut s = s;
    if r.one_in(4) {
        for _ in 0..r.urange(1, 3) {
            let c: String = match r.below(4) { 0 => r.pick(&PHRASES).to_string(), 1 => r.pick(&COMPOSED).to_string(), _ => r.pick(&EDGY).to_string() };
            let ends: Vec<usize> = s.char_indices().map(|(i, _)| i).chain(Some(s.len())).collect();
            let at = match r.below(4) { 0 | 1 => 0, 2 => s.len(), _ => ends[r.idx(ends.len())] };
            s.insert_str(at, &c);
        }
        cx.count("texts_with_edge_characters");
    }
    let s = s;
    if s.chars().next().map(|c| c < ' ').unwrap_or(false) { return Ok(()); }
    // (the same once characters missing from the table are left out)
    if PAGES.contains(&cp) && encode(&s, cp).first().map(|&b| b < 0x20).unwrap_or(false) { return Ok(()); }
    let x = StringDVB::from_str(&s, cp);
    let e = emit(&x);
    let y = StringDVB::from(&e[..]);
    let want = if PAGES.contains(&cp) { show(cp, &encode(&s, cp)) } else { s.clone() };
    if x.to_string() != want { return Err(format!("{:?} in table {} displays as {:?}, want {:?}", s, cp, x.to_string(), want)); }
    if y.to_string() != want { return Err(format!("{:?} in table {}, emitted and parsed, displays as {:?}, want {:?}", s, cp, y.to_string(), want)); }
    if !s.is_empty() && PAGES.contains(&cp) && (y.get_codepage() != cp || y.as_bytes() != x.as_bytes() || !e.starts_with(&selector(cp))) {
        return Err(format!("{:?} in table {} emitted as {}", s, cp, hex(&e)));
    }
    cx.count("texts_round_tripped");
    cx.seen_bytes(&e);
    cx.sample(|| format!("table {} {:?}", cp, s));
    Ok(())
}

/// selectors of tables that are not supported
fn c14_unsupported(cx: &mut Cx) -> Res {
    let first = (cx.index % 256) as u8;
    let third = (cx.index / 256) as u8;
    for tail in [&b"Hello"[..], b"\xC0\xE0", b""] {
        let e = if first == 0x10 { [&[0x10, 0, third], tail].concat() } else { [&[first], tail].concat() };
        if first != 0x10 && third != 0 { return Ok(()); }
        let t = match Text::dec(&e) { Some(t) => t, None => continue };
        let s = StringDVB::from(&e[..]);
        if s.to_string() != t.show() { return Err(format!("field {} displayed as {:?}, want {:?}", hex(&e), s.to_string(), t.show())); }
        cx.count(if t.data == b"?" { "unsupported_selectors" } else { "supported_selectors" });
    }
    cx.seen(cx.index);
    Ok(())
}

/// broken UTF-8 is displayed with replacement characters, never lost
fn c14_utf8(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(0, 40);
    let mut b = vec![0x15];
    for _ in 0..n { if r.coin() { let mut k = [0; 4]; let c = rand_char(r); b.extend_from_slice(c.encode_utf8(&mut k).as_bytes()); } else { b.push(r.u8()); } }
    let s = StringDVB::from(&b[..]);
    let want = String::from_utf8_lossy(&b[1..]);
    if s.to_string() != want { return Err(format!("UTF-8 field {} displayed as {:?}", hex(&b), s.to_string())); }
    if s.as_bytes() != &b[1..] { return Err(format!("UTF-8 field {} kept as {}", hex(&b), hex(s.as_bytes()))); }
    cx.count("utf8_fields");
    cx.seen_bytes(&b);
    Ok(())
}

/// every pair of bytes, respectively of the first 256 characters, in every table
fn c14_pairs(cx: &mut Cx) -> Res {
    let cp = PAGES[(cx.index / 256) as usize];
    let a = (cx.index % 256) as u8;
    for b in 0..=255u8 {
        if cfg!(miri) && b % 32 != 10 { continue; }
        if cp != UTF8 {
            if cp == 0 && a < 0x20 { continue; }
            let data = [a, b];
            let e = [&selector(cp)[..], &data].concat();
            let s = StringDVB::from(&e[..]);
            let want = show(cp, &data);
            if s.to_string() != want || s.as_bytes() != data || emit(&s) != e { return Err(format!("table {} bytes {} displayed as {:?}, want {:?}", cp, hex(&data), s.to_string(), want)); }
        }
        let t: String = [a as char, b as char].iter().collect();
        if cp != UTF8 && t.chars().any(|c| ('\u{80}'..'\u{A0}').contains(&c)) { continue; }
        let x = StringDVB::from_str(&t, cp);
        let want = show(cp, &encode(&t, cp));
        if x.to_string() != want { return Err(format!("{:?} in table {} gives {:?}, want {:?}", t, cp, x.to_string(), want)); }
        let x = StringDVB::from_str(&format!("x{}y", t), cp);
        if x.to_string() != format!("x{}y", want) { return Err(format!("x{:?}y in table {} gives {:?}", t, cp, x.to_string())); }
        cx.count("pairs_compared");
    }
    cx.seen(cx.index);
    cx.sample(|| format!("table {} byte {:02x} in front of every byte", cp, a));
    Ok(())
}

/// texts as received: any bytes of a table, with control codes, blanks and punctuation
fn c14_received(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let cp = loop { let c = r.pick(&PAGES); if c != UTF8 { break c; } };
    let n = if r.one_in(8) { r.urange(1, 250) } else { r.urange(1, 24) };
    let codes = match r.below(4) { 0 => vec![0x86, 0x87], 1 => vec![0x8A], 2 => (0..3).map(|_| r.u8()).collect(), _ => vec![0x86, 0x87, 0x8A, 0x8D, 0x85, 0x0A, 0x0D] };
    let mut data: Vec<u8> = (0..n).map(|_| match r.below(8) {
        0 | 1 => r.pick(&codes),
        2 => r.pick(b" .,:;-!?'\"()/&%+\xA0\xAD"),
        3 => r.range(0x80, 0x9F) as u8,
        4 => r.range(0xA0, 0xFF) as u8,
        5 => r.range(0x20, 0x7E) as u8,
        6 => r.pick(b"aeXZ09"),
        _ => r.u8(),
    }).collect();
    // runs of one byte
    if r.one_in(4) { let (at, k) = (r.idx(n), r.urange(1, 5)); let b = data[at]; for _ in 0..k { data.insert(at, b); } }
    if cp == 0 && data[0] < 0x20 { data[0] = b'A'; }
    let e = [&selector(cp)[..], &data].concat();
    let s = StringDVB::from(&e[..]);
    let want = show(cp, &data);
    if s.to_string() != want { return Err(format!("table {} bytes {} displayed as {:?}, want {:?}", cp, hex(&data), s.to_string(), want)); }
    if s.get_codepage() != cp || s.as_bytes() != &data[..] || emit(&s) != e { return Err(format!("field {} read as table {} bytes {}", hex(&e), s.get_codepage(), hex(s.as_bytes()))); }
    // and as part of what a user writes back
    let t = want.clone();
    let x = StringDVB::from_str(&t, cp);
    let again = show(cp, &encode(&t, cp));
    if x.to_string() != again && !t.chars().any(|c| ('\u{80}'..'\u{A0}').contains(&c)) { return Err(format!("{:?} in table {} gives {:?}, want {:?}", t, cp, x.to_string(), again)); }
    cx.count("texts_received");
    cx.seen_bytes(&e);
    cx.sample(|| format!("table {} bytes {}", cp, hex(&data)));
    Ok(())
}

/// texts far longer than a descriptor holds
fn long_string(r: &mut Rng) -> (u8, String) {
    let cp = if r.coin() { UTF8 } else { r.pick(&PAGES) };
    let n = r.long();
    let mut s = String::with_capacity(n + 4);
    if r.coin() {
        // one character over and over, shifted
        let c = match table(cp) { Some(t) => { let u = t[r.idx(96)]; char::from_u32(u32::from(u)).filter(|&c| c != '\0').unwrap_or('q') } None => r.pick(&['é', 'Ж', '€', '漢', '𝄞', 'x']) };
        for _ in 0..r.below(4) { s.push('a'); }
        while s.len() < n { s.push(c); }
    } else {
        s.push('a');
        while s.len() < n { s.push(rand_char(r)); }
    }
    (cp, s)
}

fn c14_long(cx: &mut Cx) -> Res {
    let (cp, s) = long_string(&mut cx.r);
    let x = StringDVB::from_str(&s, cp);
    let bytes = encode(&s, cp);
    let at = |a: &[u8], b: &[u8]| a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    if x.get_codepage() != cp || x.as_bytes() != &bytes[..] { return Err(format!("{} bytes of text in table {}: {} bytes, want {}, first difference at {}", s.len(), cp, x.as_bytes().len(), bytes.len(), at(x.as_bytes(), &bytes))); }
    let want = show(cp, &bytes);
    let y = StringDVB::from(&emit(&x)[..]);
    for (k, shown) in [x.to_string(), y.to_string()].iter().enumerate() {
        if *shown != want { return Err(format!("{} bytes of text in table {}, {}, display differently from byte {}", s.len(), cp, ["built", "emitted and parsed"][k], at(shown.as_bytes(), want.as_bytes()))); }
    }
    if y.as_bytes() != &bytes[..] { return Err(format!("{} bytes of text in table {} come back as {} bytes", s.len(), cp, y.as_bytes().len())); }
    cx.count("long_texts");
    cx.seen_bytes(&bytes);
    cx.sample(|| format!("{} bytes in table {}", bytes.len(), cp));
    Ok(())
}

pub fn c14() -> Vec<Workload> {
    vec![
        sweep("pairs", 16 * 256, 32, c14_pairs),
        random("long", 250, 4_000, 2, c14_long),
        sweep("bytes", 16 * 256, 32, c14_bytes),
        sweep("characters", 0x1100, 2, c14_chars),
        sweep("selectors", 65536, 20, c14_unsupported),
        random("round_trip", 150_000, 5_000_000, 25, c14_round),
        random("received", 150_000, 4_000_000, 15, c14_received),
        random("utf8", 60_000, 2_000_000, 15, c14_utf8),
    ]
}

// ---- C15 -------------------------------------------------------------------

fn boundary(cp: u8, b: &[u8], i: usize) -> bool { cp != UTF8 || i == 0 || i >= b.len() || b[i] & 0xC0 != 0x80 }

fn sizes(x: &StringDVB) -> Res {
    let e = emit(x);
    if x.size() != e.len() { return Err(format!("{:?} announces {} bytes, emits {}", x, x.size(), hex(&e))); }
    let want = if x.as_bytes().is_empty() { vec![] } else { [&selector(x.get_codepage())[..], x.as_bytes()].concat() };
    if e != want { return Err(format!("{:?} emits {} want {}", x, hex(&e), hex(&want))); }
    let mut v = vec![0x77, 0x78];
    x.assemble_sized(&mut v);
    if e.len() < 256 && (v.len() != e.len() + 3 || v[..2] != [0x77, 0x78] || usize::from(v[2]) != e.len() || v[3..] != e[..]) { return Err(format!("{:?} with length emits {}", x, hex(&v))); }
    if x.is_empty() != x.as_bytes().is_empty() { return Err(format!("{:?} empty={}", x, x.is_empty())); }
    Ok(())
}

fn shorten(cx: &mut Cx, x: &StringDVB, limit: usize) -> Res {
    let mut y = x.clone();
    y.truncate(limit);
    let (o, n) = (x.as_bytes(), y.as_bytes());
    let w = || format!("table {} bytes {} shortened to {} gives {}", x.get_codepage(), hex(o), limit, hex(n));
    if y.get_codepage() != x.get_codepage() { return Err(w()); }
    sizes(&y)?;
    if o.len() <= limit {
        if n != o { return Err(w()); }
        cx.count("left_unchanged");
        return Ok(());
    }
    if n.len() > limit { return Err(w()); }
    let valid = std::str::from_utf8(o).is_ok();
    if limit >= 3 {
        if x.get_codepage() == UTF8 && !valid {
            // broken UTF-8: prefix and dots
            if !n.ends_with(b"...") || !o.starts_with(&n[..n.len() - 3]) { return Err(w()); }
        } else {
            let mut k = limit - 3;
            while !boundary(x.get_codepage(), o, k) { k -= 1; }
            let want = [&o[..k], b"..."].concat();
            if n != &want[..] { return Err(format!("{}, want {}", w(), hex(&want))); }
        }
    } else {
        // no room for three dots: a prefix, perhaps with what dots fit
        let dots = n.iter().rev().take_while(|&&b| b == b'.').count();
        if !(0..=dots).any(|d| o.starts_with(&n[..n.len() - d]) && boundary(x.get_codepage(), o, n.len() - d)) { return Err(w()); }
    }
    if valid && x.get_codepage() == UTF8 && std::str::from_utf8(n).is_err() { return Err(w()); }
    cx.count("shortened");
    Ok(())
}

fn divide(cx: &mut Cx, x: &StringDVB, limit: usize) -> Res {
    let cp = x.get_codepage();
    let o = x.as_bytes();
    let v = x.split(limit);
    let w = || format!("table {} bytes {} split by {} gives {:?}", cp, hex(o), limit, v.iter().map(|p| hex(p.as_bytes())).collect::<Vec<_>>());
    let cat: Vec<u8> = v.iter().flat_map(|p| p.as_bytes().to_vec()).collect();
    let room = selector(cp).len() + if cp == UTF8 { std::str::from_utf8(o).map(|s| s.chars().map(|c| c.len_utf8()).max().unwrap_or(1)).unwrap_or(4) } else { 1 };
    if limit < room && !o.is_empty() {
        // no room for a character: only has to end, in one piece or another
        cx.count("split_without_room");
        return Ok(());
    }
    if cat != o { return Err(w()); }
    if o.is_empty() {
        if v.len() != 1 || !v[0].is_empty() || v[0].get_codepage() != cp { return Err(w()); }
        return Ok(());
    }
    let mut at = 0;
    let valid = std::str::from_utf8(o).is_ok();
    for p in &v {
        if p.get_codepage() != cp || p.is_empty() || p.size() > limit { return Err(w()); }
        sizes(p)?;
        at += p.as_bytes().len();
        if valid && !boundary(cp, o, at) { return Err(w()); }
        // the next character would not have fitted
        if (valid || cp != UTF8) && at < o.len() {
            let mut next = at + 1;
            while !boundary(cp, o, next) { next += 1; }
            if p.size() + next - at <= limit { return Err(format!("{}: a piece has room for more", w())); }
        }
    }
    cx.add("pieces_judged", v.len() as u64);
    Ok(())
}

fn rand_string(r: &mut Rng) -> StringDVB {
    match r.below(8) {
        0 => StringDVB::default(),
        1 => StringDVB::from_str("", r.pick(&PAGES)),
        2 => { let n = r.urange(1, 300); let mut b = vec![0x15]; b.extend(r.bytes(n)); StringDVB::from(&b[..]) }
        3 | 4 => {
            // multi-byte characters of one width, shifted
            let w = r.pick(&['é', 'Ж', '€', '漢', '𝄞', 'x']);
            let n = r.urange(1, 90);
            let k = r.urange(0, 4);
            let s: String = std::iter::repeat('a').take(k).chain(std::iter::repeat(w).take(n)).collect();
            StringDVB::from_str(&s, UTF8)
        }
        5 => { let n = r.urange(1, 100); let s: String = (0..n).map(|_| rand_char(r)).collect(); StringDVB::from_str(&s, r.pick(&PAGES)) }
        _ => { let m = r.pick(&[10usize, 100, 255, 600]); let t = rand_text(r, m); t.lib(r) }
    }
}

fn c15_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let x = rand_string(r);
    sizes(&x)?;
    let n = x.as_bytes().len();
    let mut limits: Vec<usize> = (0..8).collect();
    for d in 0..5 { limits.push((n + 2).saturating_sub(d)); limits.push((x.size() + 2).saturating_sub(d)); }
    for _ in 0..4 { limits.push(r.urange(0, n + 3)); }
    limits.push(255);
    limits.push(1 << 20);
    limits.push(usize::MAX);
    for &l in &limits {
        shorten(cx, &x, l)?;
        divide(cx, &x, l)?;
    }
    cx.add("limits_tried", limits.len() as u64);
    cx.seen_bytes(&emit(&x));
    cx.sample(|| format!("{:?} with {} limits", x, limits.len()));
    Ok(())
}

/// all limits for texts of every width pattern in every table
fn c15_sweep(cx: &mut Cx) -> Res {
    let cp = PAGES[(cx.index % 16) as usize];
    let pat = cx.index / 16;
    let s: String = if cp == UTF8 { (0..12).map(|i| ['a', 'é', '€', '𝄞'][((pat >> (2 * (i % 6))) & 3) as usize]).collect() } else { (0..12).map(|i| (b'a' + ((i + pat) % 26) as u8) as char).collect() };
    let x = StringDVB::from_str(&s, cp);
    sizes(&x)?;
    for l in 0..x.size() + 4 {
        shorten(cx, &x, l)?;
        divide(cx, &x, l)?;
        cx.count("limits_tried");
    }
    cx.seen(cx.index);
    cx.sample(|| format!("{:?} with every limit", x));
    Ok(())
}

/// every length up to and beyond what a length byte holds
fn c15_lengths(cx: &mut Cx) -> Res {
    let cp = PAGES[(cx.index % 16) as usize];
    let n = (cx.index / 16) as usize;
    let x = StringDVB::from_str(&"q".repeat(n), cp);
    sizes(&x)?;
    let y = StringDVB::from(&emit(&x)[..]);
    sizes(&y)?;
    if y.as_bytes() != x.as_bytes() { return Err(format!("{} characters in table {} come back as {}", n, cp, hex(y.as_bytes()))); }
    cx.count("sizes_compared");
    cx.seen(cx.index);
    Ok(())
}

/// fields as received, including selectors of unsupported tables
fn c15_received(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let n = r.urange(0, 40);
    let mut b = r.bytes(n);
    if !b.is_empty() && r.coin() { b[0] = r.below(0x20) as u8; }
    if Text::dec(&b).is_none() { return Ok(()); }
    let x = StringDVB::from(&b[..]);
    sizes(&x)?;
    for l in 0..n + 3 { shorten(cx, &x, l)?; divide(cx, &x, l)?; }
    cx.count("fields_received");
    cx.seen_bytes(&b);
    Ok(())
}

fn c15_long(cx: &mut Cx) -> Res {
    let (cp, s) = long_string(&mut cx.r);
    let x = StringDVB::from_str(&s, cp);
    let e = emit(&x);
    if x.size() != e.len() || !e.starts_with(&selector(cp)) || &e[selector(cp).len()..] != x.as_bytes() { return Err(format!("{} bytes in table {} announce {} and emit {}", x.as_bytes().len(), cp, x.size(), e.len())); }
    // a short one behind what a long buffer already holds
    let y = rand_string(&mut cx.r);
    let f = emit(&y);
    if f.len() < 256 {
        let mut v = e.clone();
        y.assemble_sized(&mut v);
        if !v.starts_with(&e) || v[e.len()..] != [&[f.len() as u8][..], &f].concat()[..] { return Err(format!("{:?} with length, emitted behind {} bytes, gives {}", y, e.len(), hex(&v[e.len().min(v.len())..]))); }
        let mut v = e.clone();
        y.assemble(&mut v);
        if !v.starts_with(&e) || v[e.len()..] != f[..] { return Err(format!("{:?} emitted behind {} bytes gives {}", y, e.len(), hex(&v[e.len().min(v.len())..]))); }
        cx.count("behind_long_buffers");
    }
    let n = x.as_bytes().len();
    let r = &mut cx.r;
    for l in [n, n + 1, n - 1, r.urange(0, n), r.urange(0, n), r.urange(5, 300), 255, 256, 4096, r.long(), r.long()] {
        shorten(cx, &x, l)?;
        if l >= 40 { divide(cx, &x, l)?; }
    }
    cx.count("long_texts");
    cx.seen_bytes(&e);
    cx.sample(|| format!("{} bytes in table {}", n, cp));
    Ok(())
}

pub fn c15() -> Vec<Workload> {
    vec![
        random("long", 40, 1_000, 2, c15_long),
        sweep("limits", 16 * 4096, 24, c15_sweep),
        sweep("lengths", 16 * 300, 32, c15_lengths),
        random("random", 60_000, 2_000_000, 10, c15_random),
        random("received", 60_000, 2_000_000, 6, c15_received),
    ]
}

// ---- C22 -------------------------------------------------------------------

fn want_code(s: &str) -> Option<&'static str> {
    match s.len() {
        2 => LANGS.iter().find(|l| l[0] == s).map(|l| l[2]),
        3 => LANGS.iter().find(|l| l[1] == s || l[2] == s).map(|l| l[0]),
        _ => None,
    }
}

fn code(cx: &mut Cx, s: &str) -> Res {
    let (g, w) = (lang::convert(s), want_code(s));
    if g != w { return Err(format!("{:?} converts to {:?}, want {:?}", s, g, w)); }
    cx.count(if w.is_some() { "codes_converted" } else { "codes_refused" });
    Ok(())
}

fn c22_letters(cx: &mut Cx) -> Res {
    let a = (b'a' + cx.index as u8) as char;
    code(cx, &a.to_string())?;
    for b in 'a'..='z' {
        let two: String = [a, b].iter().collect();
        code(cx, &two)?;
        code(cx, &two.to_uppercase())?;
        for c in 'a'..='z' {
            let three = format!("{}{}", two, c);
            code(cx, &three)?;
            code(cx, &three.to_uppercase())?;
            code(cx, &format!("{}{}{}", a, b.to_ascii_uppercase(), c))?;
            if !cfg!(miri) { for d in ['a', 'n', ' ', '\0'] { code(cx, &format!("{}{}", three, d))?; } }
        }
    }
    for l in LANGS.iter().filter(|l| l[0].starts_with(a)) {
        // there and back, by both codes
        for c in &l[1..] { if lang::convert(c) != Some(l[0]) { return Err(format!("{:?} converts to {:?}, want {:?}", c, lang::convert(c), l[0])); } }
        if lang::convert(l[0]) != Some(l[2]) { return Err(format!("{:?} converts to {:?}", l[0], lang::convert(l[0]))); }
        cx.count("languages_both_ways");
    }
    cx.seen(cx.index);
    cx.sample(|| format!("all codes starting with {:?}", a));
    Ok(())
}

fn c22_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r;
    let s: String = match r.below(6) {
        0 => { let n = r.urange(0, 6); (0..n).map(|_| r.range(0x20, 0x7E) as u8 as char).collect() }
        1 => { let n = r.urange(0, 4); (0..n).map(|_| rand_char(r)).collect() }
        2 => { let l = r.pick(&LANGS); let mut s = l[r.idx(3)].to_string(); let k = r.pick(&[" ", "\0", "x", "é", "-", "_US"]); if r.coin() { s.push_str(k) } else { s.insert_str(0, k) } s }
        3 => { let l = r.pick(&LANGS); let mut b = l[r.idx(3)].as_bytes().to_vec(); let i = r.idx(b.len()); b[i] = r.range(0x20, 0x7E) as u8; String::from_utf8(b).unwrap_or_default() }
        4 => { let n = r.urange(7, 300); "eng".repeat(n)[..n].to_string() }
        _ => { let l = r.pick(&LANGS); l[r.idx(3)].to_string() }
    };
    code(cx, &s)?;
    cx.seen_bytes(s.as_bytes());
    cx.sample(|| format!("{:?}", s));
    Ok(())
}

pub fn c22() -> Vec<Workload> {
    vec![sweep("letters", 26, 1, c22_letters), random("strings", 300_000, 10_000_000, 60, c22_random)]
}
