//! Replays behaviours of the TLA+ specification into velato.
//!
//! `velato-conformance replay PROP CASES OUT PROGRESS [TRACE]`
//! `velato-conformance load PROP LINES OUT PROGRESS SHARD SHARDS`
//! `velato-conformance alone OPERATION`
//! `velato-conformance assets TRACE FILE...`

mod calls;
mod check;
mod cmp;
mod concur;
mod doc;
mod expect;
mod geom;
mod inject;
mod load;
mod record;
mod scene;
mod session;

use check::{Stats, check};
use serde_json::{Value as J, json};
use session::Case;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static BEAT: AtomicU64 = AtomicU64::new(0);
const STUCK: Duration = Duration::from_secs(60);
const MAX_REPORTED: usize = 20;

/// A line of TLC output that carries a case.
fn case_of(line: &str) -> Option<J> {
    let text = if line.starts_with("\"CASE ") { serde_json::from_str::<String>(line).ok()? } else { return None };
    // the specification is written in ASCII and marks other characters
    let text = text.replace("~u~", "\u{e9}").replace("~U~", "\u{1d11e}");
    serde_json::from_str(text.strip_prefix("CASE ")?).ok()
}

fn replay(prop: &str, cases: &str, out: &str, progress: &str, trace: Option<&str>) {
    let mut full: BTreeMap<u64, J> = BTreeMap::new();
    let mut variants: BTreeMap<u64, Vec<J>> = BTreeMap::new();
    for line in std::io::BufReader::new(std::fs::File::open(cases).unwrap()).lines() {
        let Some(c) = case_of(&line.unwrap()) else { continue };
        let cno = c["cno"].as_u64().unwrap();
        let v = if c.get("sched").is_some() { json!({"cuts": c["cuts"], "sched": c["sched"]}) } else { c["cuts"].clone() };
        variants.entry(cno).or_default().push(v);
        if c.get("docs").is_some() {
            full.insert(cno, c);
        }
    }
    let mut st = Stats::default();
    let mut tr = Vec::new();
    let mut found = Vec::new();
    for (cno, raw) in full {
        BEAT.fetch_add(1, Ordering::Relaxed);
        std::fs::write(progress, cno.to_string()).unwrap();
        let case = Case::parse(raw);
        let vs = variants.remove(&cno).unwrap_or_default();
        for f in check(prop, &case, &vs, &mut st, &mut tr) {
            if found.len() < MAX_REPORTED {
                found.push(json!({"case": cno, "family": case.fam, "op": f.op, "what": f.what,
                    "documents": case.json, "repeaters": case.reps,
                    "operation": case.raw["ops"].get(f.op.wrapping_sub(1)),
                    "expected": case.raw["out"].get(f.op.wrapping_sub(1))}));
            }
        }
    }
    if let Some(t) = trace {
        std::fs::write(t, tr.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
    }
    let summary = json!({"cases": st.cases, "renders": st.renders, "calls": st.calls, "draws": st.draws,
        "sink_failures": st.failures, "families": st.families, "found": found});
    let mut f = std::fs::File::create(out).unwrap();
    f.write_all(summary.to_string().as_bytes()).unwrap();
    std::fs::write(progress, "done").unwrap();
}

/// Identifies a document of the grammar: starting document and edits.
fn load_id(line: &J) -> String {
    let edits = expect::list(&line["edits"]);
    edits.iter().fold(line["site"].to_string(), |s, e| format!("{s}/{}", e["n"]))
}

/// A share of the documents of the grammar specification.
fn load(prop: &str, lines: &str, out: &str, progress: &str, shard: usize, shards: usize) {
    let mut bases: BTreeMap<u64, J> = BTreeMap::new();
    let mut mine = BTreeSet::new();
    for line in std::io::BufReader::new(std::fs::File::open(lines).unwrap()).lines() {
        let line = line.unwrap();
        if line.contains("\\\"text\\\":")
            && let Some(c) = case_of(&line)
            && c.get("text").is_some()
        {
            bases.insert(c["site"].as_u64().unwrap(), c["text"].clone());
        }
        // a document is printed once for every way that leads to it
        let mut h = DefaultHasher::new();
        line.hash(&mut h);
        if line.starts_with("\"CASE ") && h.finish() as usize % shards == shard {
            mine.insert(line);
        }
    }
    let (mut n, mut renders, mut kinds, mut found) = (0, 0, BTreeMap::<String, u64>::new(), Vec::new());
    for line in mine {
        let Some(c) = &case_of(&line) else { continue };
        let id = &load_id(c);
        BEAT.fetch_add(1, Ordering::Relaxed);
        std::fs::write(progress, id).unwrap();
        let base = &bases[&c["site"].as_u64().unwrap()];
        let doc = load::document(c, base);
        n += 1;
        *kinds.entry(format!("document {}", c["expect"].as_str().unwrap())).or_default() += 1;
        match load::check(prop, c, &doc) {
            Ok(r) => renders += r,
            Err(what) if found.len() < MAX_REPORTED => {
                let what = match expect::list(&c["edits"]).last() {
                    None => what,
                    Some(_) => format!("{what}; edits {}", expect::list(&c["edits"]).iter().map(|e| format!("{} at {} becomes {}", e["what"], e["p"], load::text_of(&e["w"]))).collect::<Vec<_>>().join(", ")),
                };
                found.push(json!({"case": id, "family": "load", "what": what, "text": load::text_of(&doc), "line": c, "base": base}));
            }
            Err(_) => {}
        }
    }
    let summary = json!({"cases": n, "renders": renders, "families": kinds, "found": found});
    std::fs::write(out, summary.to_string()).unwrap();
    std::fs::write(progress, "done").unwrap();
}

/// Prints the calls of one operation of the case on standard input.
fn alone(i: usize) {
    let case = Case::parse(serde_json::from_reader(std::io::stdin()).unwrap());
    let op = &case.ops[i];
    let c = case.load(op.doc).unwrap_or_else(|e| panic!("{e}"));
    match session::fresh(&c, op) {
        Ok(evs) => print!("{evs:?}"),
        Err(e) => print!("{e}"),
    }
}

/// Token traces of real animations at a range of frames.
fn assets(trace: &str, files: &[String]) {
    let mut tr = Vec::new();
    for file in files {
        let Ok(Ok(comp)) = std::fs::read(file).map(velato::Composition::from_slice) else { continue };
        let mut r = velato::Renderer::new();
        let n = 6;
        for k in 0..=n {
            let f = comp.frames.start + (comp.frames.end - comp.frames.start) * k as f64 / n as f64;
            let t = kurbo::Affine::new([2.0, 0.0, 0.0, 2.0, k as f64, 1.0]);
            let mut sink = record::Recorder::default();
            r.append(&comp, f, t, 1.0, &mut sink);
            let name = std::path::Path::new(file).file_name().unwrap().to_string_lossy().into_owned();
            check::tokens(&mut tr, &format!("{name}@{f}"), &sink.evs, &comp, t);
        }
    }
    std::fs::write(trace, tr.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let progress = args.get(4).cloned();
    let worker = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || match args[0].as_str() {
            "replay" => replay(&args[1], &args[2], &args[3], &args[4], args.get(5).map(String::as_str)),
            "load" => load(&args[1], &args[2], &args[3], &args[4], args[5].parse().unwrap(), args[6].parse().unwrap()),
            "alone" => alone(args[1].parse().unwrap()),
            "assets" => assets(&args[1], &args[2..]),
            x => panic!("{x}"),
        })
        .unwrap();
    let mut last = (u64::MAX, Instant::now());
    while !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(10));
        let beat = BEAT.load(Ordering::Relaxed);
        if beat != last.0 {
            last = (beat, Instant::now());
        } else if last.1.elapsed() > STUCK {
            if let Some(p) = progress {
                let at = std::fs::read_to_string(&p).unwrap_or_default();
                let _ = std::fs::write(p, format!("{at} stuck"));
            }
            std::process::exit(9);
        }
    }
    if let Err(e) = worker.join() {
        eprintln!("harness failure: {}", session::message(e));
        std::process::exit(10);
    }
}
