mod chartab;
mod cx;
mod desc;
mod langs;
mod p_desc;
mod p_hdr;
mod p_io;
mod p_more;
mod p_recv;
mod p_stream;
mod p_tables;
mod p_text;
mod p_ub;
mod refm;
mod rng;
mod tables;
mod text;

use cx::*;

#[global_allocator]
static A: Counting = Counting;

fn workloads(p: &str) -> Option<Vec<Workload>> {
    Some(match p {
        "C01" => p_recv::c01(),
        "C02" => p_ub::c02(),
        "C03" => p_stream::c03(),
        "C04" => p_stream::c04(),
        "C05" => p_stream::c05(),
        "C06" => p_tables::c06(),
        "C07" => p_tables::c07(),
        "C08" => p_tables::c08(),
        "C09" => p_tables::c09(),
        "C10" => p_tables::c10(),
        "C11" => p_tables::c11(),
        "C12" => p_desc::c12(),
        "C13" => p_desc::c13(),
        "C14" => p_text::c14(),
        "C15" => p_text::c15(),
        "C16" => p_io::c16(),
        "C17" => p_io::c17(),
        "C18" => p_hdr::c18(),
        "C19" => p_hdr::c19(),
        "C20" => p_hdr::c20(),
        "C21" => p_hdr::c21(),
        "C22" => p_text::c22(),
        "C23" => p_more::c23(),
        "C24" => p_more::c24(),
        "C25" => p_more::c25(),
        "C26" => p_more::c26(),
        "C27" => p_more::c27(),
        _ => return None,
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(prop: &str, seed: u64, r: &Report) -> String {
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    format!(
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"observations\":{},\"counts\":{{{}}},\"workloads\":{{{}}},\"samples\":{},\"failures\":{},\"errors\":{}}}\n",
        js(prop), seed, r.evaluations, r.distinct, r.observations,
        r.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        r.per_workload.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        list(r.samples.iter().map(|s| js(s)).collect()),
        list(r.failures.iter().take(400).map(|f| format!("{{\"workload\":{},\"index\":{},\"what\":{}}}", js(&f.workload), f.index, js(&f.what))).collect()),
        list(r.errors.iter().map(|s| js(s)).collect()),
    )
}

fn die(m: &str) -> ! { eprintln!("vh: {}", m); std::process::exit(2) }

fn main() {
    let mut prop = String::new();
    let mut seed = 1u64;
    let mut tier = Tier::Quick;
    let mut out = String::new();
    let mut threads = 8usize;
    let mut only = String::new();
    let mut skip = String::new();
    let mut index: Option<u64> = None;
    let mut keep = false;
    let mut mult = 1u64;
    let mut list = false;
    let mut trace = false;
    let (mut from, mut to) = (0u64, u64::MAX);
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_else(|| die("missing value"));
        match a.as_str() {
            "--prop" => prop = v(),
            "--seed" => seed = v().parse().unwrap_or_else(|_| die("bad seed")),
            "--tier" => tier = match v().as_str() { "quick" => Tier::Quick, "thorough" => Tier::Thorough, "tiny" => Tier::Tiny, _ => die("bad tier") },
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap_or_else(|_| die("bad threads")),
            "--only" => only = v(),
            "--skip" => skip = v(),
            "--index" => index = Some(v().parse().unwrap_or_else(|_| die("bad index"))),
            "--keep-going" => keep = true,
            "--mult" => mult = v().parse().unwrap_or_else(|_| die("bad mult")),
            "--trace" => trace = true,
            "--from" => from = v().parse().unwrap_or_else(|_| die("bad from")),
            "--to" => to = v().parse().unwrap_or_else(|_| die("bad to")),
            "--list" => list = true,
            "--cold" => {
                let s = v().parse().unwrap_or_else(|_| die("bad seed"));
                match p_more::cold(s) { Ok(()) => println!("OK"), Err(e) => println!("VIOLATED {}", e) }
                return;
            }
            _ => die("unknown argument"),
        }
    }
    let mut wls = workloads(&prop).unwrap_or_else(|| die("unknown property"));
    if !only.is_empty() && only.bytes().all(|b| b.is_ascii_digit()) { let i: usize = only.parse().unwrap_or(0); if i >= wls.len() { die("no such workload"); } let n = wls[i].name; wls.retain(|w| w.name == n); }
    else if !only.is_empty() { wls.retain(|w| w.name == only); if wls.is_empty() { die("no such workload"); } }
    // memory-safety runs scale the tiny tier, never beyond the quick one; the
    // quick tier never grows beyond the thorough one
    for w in wls.iter_mut() {
        match tier {
            Tier::Quick => w.quick = (w.quick * mult).min(w.thorough),
            Tier::Thorough => if !w.sweep { w.thorough *= mult },
            Tier::Tiny => w.tiny = (w.tiny * mult).min(w.quick),
        }
    }
    wls.retain(|w| !skip.split(',').any(|s| s == w.name));
    if list { for w in &wls { println!("{} {}", w.name, w.cases(tier)); } return; }
    if let Some(i) = index {
        match run_one(&prop, &wls[0], seed, i) {
            Outcome::Ok => println!("OK"),
            Outcome::Violation(w) => { println!("VIOLATED {}", w); std::process::exit(1); }
            Outcome::HarnessError(e) => die(&e),
        }
        return;
    }
    let rep = run(&prop, &wls, &Opts { seed, tier, threads, keep_going: keep, trace, from, to });
    let text = report(&prop, seed, &rep);
    if out.is_empty() { print!("{}", text); } else if std::fs::write(&out, text).is_err() { die("cannot write the report"); }
    if !rep.errors.is_empty() { die(&rep.errors[0]); }
    if !rep.failures.is_empty() { std::process::exit(1); }
}
