#![allow(unused_imports, unused_mut, dead_code)]
//! Bounded examination of the real crates, property by property. Usage:
//!   vp-harness <property> <out.json> [--only <case>]
//! VERIF_SEED and VERIF_TIER select the random inputs and the depth. The file lists the cases tried, the
//! violations found (with the case that reproduces each one) and the known findings observed.
mod core;
mod gipa;
mod p_apps;
mod p_base;
mod p_gipa;
mod p_sipp;
mod p_tipa;
use crate::core::*;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (prop, out) = (args[1].clone(), args[2].clone());
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let limit: u64 = std::env::var("VP_HARNESS_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 240 });
    if std::env::var("VP_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let start = std::time::Instant::now();
    let mut c = Ctx {
        prop: prop.clone(),
        seed,
        thorough,
        only,
        cases: 0,
        samples: vec![],
        violations: vec![],
        known: vec![],
        deadline: start + std::time::Duration::from_secs(limit),
        skipped: 0,
        shard: std::env::var("VP_SHARD")
            .ok()
            .and_then(|s| s.split_once('/').and_then(|(k, n)| Some((k.parse().ok()?, n.parse().ok()?))))
            .unwrap_or((0, 1)),
        claims: std::env::var_os("VP_CLAIMS").map(Into::into),
        index: 0,
    };
    let o2 = out.clone();
    watchdog(move |id| {
        let case = id.splitn(2, " :: ").nth(1).unwrap_or(id);
        let t = format!(
            "{{\"cases\": 0, \"skipped\": 0, \"hooks\": {}, \"seconds\": 0, \"samples\": [], \"known\": [], \"violations\": [{{\"case\": {}, \"msg\": {}}}]}}\n",
            cfg!(vp_hooks),
            js(case),
            js(&format!("no answer within {} s", CASE_LIMIT))
        );
        let _ = std::fs::write(&o2, t);
    });
    match prop.as_str() {
        #[cfg(feature = "C01")]
        "C01" => p_base::c01(&mut c),
        #[cfg(feature = "C02")]
        "C02" => p_base::c02(&mut c),
        #[cfg(feature = "C03")]
        "C03" => p_base::c03(&mut c),
        #[cfg(feature = "C04")]
        "C04" => p_gipa::c04(&mut c),
        #[cfg(feature = "C05")]
        "C05" => p_gipa::c05(&mut c),
        #[cfg(feature = "C06")]
        "C06" => p_gipa::c06(&mut c),
        #[cfg(feature = "C07")]
        "C07" => p_gipa::c07(&mut c),
        #[cfg(feature = "C08")]
        "C08" => p_tipa::c08(&mut c),
        #[cfg(feature = "C09")]
        "C09" => p_tipa::c09(&mut c),
        #[cfg(feature = "C10")]
        "C10" => p_tipa::c10(&mut c),
        #[cfg(feature = "C11")]
        "C11" => p_tipa::c11(&mut c),
        #[cfg(feature = "C12")]
        "C12" => p_tipa::c12(&mut c),
        #[cfg(feature = "C13")]
        "C13" => p_apps::c13(&mut c),
        #[cfg(feature = "C14")]
        "C14" => p_apps::c14(&mut c),
        #[cfg(feature = "C15")]
        "C15" => p_apps::c15(&mut c),
        #[cfg(feature = "C16")]
        "C16" => p_apps::c16(&mut c),
        #[cfg(feature = "C17")]
        "C17" => p_apps::c17(&mut c),
        #[cfg(feature = "C18")]
        "C18" => p_apps::c18(&mut c),
        #[cfg(feature = "C19")]
        "C19" => p_apps::c19(&mut c),
        #[cfg(feature = "C20")]
        "C20" => p_sipp::c20(&mut c),
        #[cfg(feature = "C21")]
        "C21" => p_sipp::c21(&mut c),
        #[cfg(feature = "C22")]
        "C22" => p_sipp::c22(&mut c),
        #[cfg(feature = "C23")]
        "C23" => p_sipp::c23(&mut c),
        #[cfg(feature = "C24")]
        "C24" => p_gipa::c24(&mut c),
        #[cfg(feature = "C25")]
        "C25" => p_apps::c25(&mut c),
        #[cfg(feature = "C26")]
        "C26" => p_gipa::c26(&mut c),
        #[cfg(feature = "C27")]
        "C27" => p_gipa::c27(&mut c),
        _ => panic!("unknown property"),
    }
    let vs: Vec<String> = c.violations.iter().map(|v| format!("{{\"case\": {}, \"msg\": {}}}", js(&v.case), js(&v.msg))).collect();
    let t = format!(
        "{{\"cases\": {}, \"skipped\": {}, \"hooks\": {}, \"seconds\": {:.1}, \"samples\": {}, \"known\": {}, \"violations\": [{}]}}\n",
        c.cases,
        c.skipped,
        cfg!(vp_hooks),
        start.elapsed().as_secs_f64(),
        list(&c.samples),
        list(&c.known),
        vs.join(", ")
    );
    std::fs::write(&out, t).unwrap();
}
