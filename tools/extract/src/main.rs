//! Extracts the functions of /repo mechanically into one Verus file, with the
//! contracts of /verif/contracts injected. See DESIGN.md ("Extraction").
mod contracts;
mod desugar;
mod emit;
mod macros;
mod module;
mod names;

use std::collections::{BTreeMap, BTreeSet};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = "/repo".to_string();
    let mut cdir = "/verif/contracts".to_string();
    let mut out = "/tmp/out.rs".to_string();
    let mut map = "/tmp/out.json".to_string();
    let mut degrade = BTreeSet::new();
    let mut record = false;
    let mut edits = serde_json::Value::Null;
    let mut probe: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone(); i += 1 }
            "--contracts" => { cdir = args[i + 1].clone(); i += 1 }
            "--out" => { out = args[i + 1].clone(); i += 1 }
            "--map" => { map = args[i + 1].clone(); i += 1 }
            "--degrade" => { for k in args[i + 1].split(',').filter(|k| !k.is_empty()) { degrade.insert(k.to_string()); } i += 1 }
            "--edits" => { if let Ok(t) = std::fs::read_to_string(&args[i + 1]) { edits = serde_json::from_str(&t).unwrap(); } i += 1 }
            "--record" => record = true,
            "--vacuity" => { probe = Some(args[i + 1].clone()); i += 1 }
            other => panic!("unknown argument {other}"),
        }
        i += 1;
    }
    let mut contracts = contracts::load(&cdir);
    for (k, c) in contracts.fns.iter_mut() {
        let e = edits.get(k).map(|e| contracts::Edit {
            drop: e["drop"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            sub: e["sub"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string(), x[2].as_str().unwrap().to_string())).collect()).unwrap_or_default(),
        });
        c.mark(e.as_ref());
        c.edited = e.map_or(false, |e| !e.drop.is_empty());
    }
    let baseline: BTreeMap<String, module::Baseline> = if record { BTreeMap::new() } else { module::load_baseline(&format!("{cdir}/baseline.json")) };
    let mut ex = module::Extractor::new(repo, cdir.clone(), contracts, baseline, degrade, probe);
    let text = ex.run();
    std::fs::write(&out, &text).unwrap();
    if record {
        module::save_baseline(&format!("{cdir}/baseline.json"), &ex.known());
    }
    std::fs::write(&map, serde_json::to_string_pretty(&ex.report()).unwrap()).unwrap();
}
