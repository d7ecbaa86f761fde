//! Evidence, replay and known-finding files.
use crate::driver::{Batch, Res};
use std::path::{Path, PathBuf};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Listed findings of a property: (key, text).
pub fn known(verif: &Path, prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif.join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        let l = l.trim();
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let mut p = r.splitn(3, ' ');
        let (id, key, text) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
        if id == prop {
            if let Some(k) = key.strip_prefix("key=") {
                out.push((k.to_string(), text.to_string()));
            }
        }
    }
    out
}

pub fn evidence(
    verif: &Path,
    prop: &str,
    tier: &str,
    seed: u64,
    b: &Batch,
    planned: u64,
    repeated: u64,
    wall: f64,
    viol: bool,
) {
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0).round() as u64;
    let mut faults = vec![];
    let mut others = vec![];
    for (k, n) in &b.st {
        if k.starts_with("fault: ") || k.starts_with("fired: ") || k.starts_with("configured: ") {
            faults.push(format!("{}: {}", js(k), n));
        } else {
            others.push(format!("{}: {}", js(k), n));
        }
    }
    let samples: Vec<String> = b.samples.iter().take(3).map(|(i, s)| js(&format!("run {}: {}", i, s))).collect();
    let sim = b.st.get("simulated seconds").cloned().unwrap_or(0);
    let (real, stub) = crate::worlds::components(prop);
    let found: Vec<String> = b.found.iter().map(|(k, (n, d))| format!("{}: {}", js(k), js(&format!("{} runs; {}", n, d)))).collect();
    let assume: Vec<String> = crate::worlds::assumptions(prop).iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_planned\": {},\n  \"runs_nontrivial\": {},\n  \"stopped_by_time_cap\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"runs_repeated_for_determinism\": {},\n  \"batch_digest\": {},\n  \"faults\": {{{}}},\n  \"counters\": {{{}}},\n  \"simulated_seconds\": {},\n  \"known_findings_met\": {{{}}},\n  \"slowest_run_ms\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        seed,
        b.runs,
        b.shapes.len(),
        js(crate::worlds::rule(prop)),
        samples.join(", "),
        planned,
        b.nontrivial,
        b.capped,
        per_h(b.runs),
        per_h(b.runs),
        repeated,
        js(&format!("{:016x}", b.digest)),
        faults.join(", "),
        others.join(", "),
        sim,
        found.join(", "),
        b.slowest_ms,
        js(real),
        js(stub),
        assume.join(", "),
        wall,
        if viol { b.viols.len() } else { 0 }
    );
    let _ = std::fs::write(dir.join(format!("{}.json", prop)), s);
}

pub fn replay_file(verif: &Path, prop: &str, seed: u64, run: u64, tape: Option<&Vec<u64>>, r: &Res) -> PathBuf {
    let dir = verif.join("out").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-seed{}-run{}.json", prop, seed, run));
    let (c, d) = r.viol.clone().unwrap_or_default();
    let t = match tape {
        Some(t) => format!("[{}]", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        None => "null".into(),
    };
    let s = format!(
        "{{\n\"property\": {},\n\"verif_seed\": {},\n\"run\": {},\n\"class\": {},\n\"detail\": {},\n\"digest\": \"{:016x}\",\n\"execution\": {},\n\"choices\": {}\n}}\n",
        js(prop), seed, run, js(&c), js(&d), r.log, js(&r.sample), t
    );
    let _ = std::fs::write(&f, s);
    f
}

pub struct Replay {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub log: u64,
    pub tape: Option<Vec<u64>>,
}
pub fn parse_replay(s: &str) -> Option<Replay> {
    let field = |k: &str| -> Option<String> {
        let p = format!("\"{}\": ", k);
        s.lines().find_map(|l| l.strip_prefix(&p)).map(|l| l.trim_end_matches(',').to_string())
    };
    let text = |k: &str| -> Option<String> {
        let v = field(k)?;
        let v = v.strip_prefix('"')?.strip_suffix('"')?;
        Some(v.replace("\\\"", "\"").replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\"))
    };
    let c = field("choices")?;
    Some(Replay {
        prop: text("property")?,
        seed: field("verif_seed")?.parse().ok()?,
        run: field("run")?.parse().ok()?,
        class: text("class")?,
        log: u64::from_str_radix(&text("digest")?, 16).ok()?,
        tape: if c == "null" {
            None
        } else {
            Some(c.trim_start_matches('[').trim_end_matches(']').split(',').filter_map(|x| x.trim().parse().ok()).collect())
        },
    })
}
