//! Executable form of the contracts in /verif/contracts, run against the real crate.
//! Used to replay and to search for concrete failing inputs, and as the bounded stand-in.
#[macro_use]
mod core;
mod whitespace;
mod gram;
mod parsers;
mod vals;
mod index;
mod de;
mod entry;
use crate::core::*;
use std::io::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let group = a[1].clone();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    let out = a.get(4).cloned();
    let trace = a.get(5).map(|p| std::fs::File::create(p).unwrap());
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let mut ctx = Ctx::new(seed, thorough, trace);
    let cur = ctx.current.clone();
    let out2 = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = cur.lock().unwrap();
        if c.1.elapsed() > Duration::from_secs(25) {
            let mut p = c.0.splitn(2, '\t');
            let site = p.next().unwrap_or("").to_string();
            let input = p.next().unwrap_or("").to_string();
            let s = format!(
                "{{\"evaluations\":0,\"distinct\":0,\"samples\":[],\"failures\":[{{\"key\":{},\"input\":{},\"detail\":\"no answer within 25 s\"}}]}}\n",
                js(&site), js(&input)
            );
            if let Some(o) = &out2 { let _ = std::fs::write(o, s); } else { print!("{}", s); }
            std::process::exit(3);
        }
    });
    let t0 = Instant::now();
    // a roomy stack: nesting depth itself is outside the properties
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        for g in group.split(',') {
            match g {
                "whitespace" => whitespace::run(&mut ctx),
                "strings" => parsers::strings(&mut ctx),
                "heredocs" => parsers::heredocs(&mut ctx),
                "numbers" => parsers::numbers(&mut ctx),
                "literals" => parsers::literals(&mut ctx),
                "exprs" => parsers::exprs(&mut ctx),
                "bodies" => parsers::bodies(&mut ctx),
                "valdocs" => parsers::valdocs(&mut ctx),
                "index" => index::index(&mut ctx),
                "deexpr" => de::expr(&mut ctx),
                "dedoc" => de::docs(&mut ctx),
                "total" => entry::total(&mut ctx),
                "entry" => entry::entry(&mut ctx),
                "errors" => entry::errors(&mut ctx),
                "machine" => entry::machine(&mut ctx),
                "merge" => vals::merge(&mut ctx),
                "flags" => vals::flags(&mut ctx),
                "lens" => vals::lens(&mut ctx),
                "kinds" => vals::kinds(&mut ctx),
                "pairs" => vals::pairs(&mut ctx),
                "owned" => vals::owned(&mut ctx),
                "construct" => vals::construct(&mut ctx),
                _ => { eprintln!("unknown group {}", g); std::process::exit(2) }
            }
        }
        ctx
    }).unwrap();
    let ctx = h.join().expect("battery itself failed");
    let f: Vec<String> = ctx.failures.iter().map(|f| format!("{{\"key\":{},\"input\":{},\"detail\":{},\"count\":{}}}", js(&f.key), js(&f.input), js(&short2(&f.detail)), ctx.nfail[&f.key])).collect();
    let s: Vec<String> = ctx.samples.iter().map(|s| js(s)).collect();
    let line = format!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"failures\":[{}],\"wall_s\":{:.2}}}\n",
        ctx.evaluations, ctx.distinct.len(), s.join(","), f.join(","), t0.elapsed().as_secs_f64());
    match out { Some(o) => std::fs::File::create(o).unwrap().write_all(line.as_bytes()).unwrap(), None => print!("{}", line) }
    std::process::exit(if ctx.failures.is_empty() { 0 } else { 1 });
}
fn short2(s: &str) -> String { if s.len() > 1500 { s.chars().take(1500).collect::<String>() + "…" } else { s.to_string() } }
