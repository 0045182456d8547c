use crate::explore::*;
use serde_json::json;
use std::io::Write;
use std::path::PathBuf;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
    property: String,
    family: String,
    key: String,
    case: Option<Vec<usize>>,
    text: String,
}

fn known(id: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) else {
        return out;
    };
    for l in s.lines() {
        let Some(rest) = l.trim().strip_prefix("known: ") else {
            continue;
        };
        let (head, text) = rest.split_once(" -- ").unwrap_or((rest, ""));
        let mut k = Known {
            property: String::new(),
            family: String::new(),
            key: String::new(),
            case: None,
            text: text.to_string(),
        };
        for w in head.split_whitespace() {
            match w.split_once('=') {
                Some(("property", v)) => k.property = v.into(),
                Some(("family", v)) => k.family = v.into(),
                Some(("key", v)) => k.key = v.into(),
                Some(("case", v)) => {
                    k.case = Some(v.split(',').filter_map(|x| x.parse().ok()).collect())
                }
                _ => {}
            }
        }
        if k.property == id {
            out.push(k);
        }
    }
    out
}

/// Writes evidence and replays, prints the verdict. Exits the process.
pub fn finish(run: &Run, hung: bool) -> ! {
    let viols = run.viols.lock().unwrap().clone();
    let fams = run.fams.lock().unwrap().clone();
    let kn = known(&run.id);
    let mut printed_known = vec![false; kn.len()];
    let mut fresh: Vec<&Violation> = vec![];
    for v in &viols {
        let k = kn.iter().position(|k| {
            k.family == v.family
                && k.key == v.key
                && k.case.as_ref().map(|c| *c == v.case).unwrap_or(true)
        });
        match k {
            Some(i) => {
                if !printed_known[i] {
                    printed_known[i] = true;
                    println!("KNOWN-FINDING: property={} {}", run.id, kn[i].text);
                }
            }
            None => fresh.push(v),
        }
    }
    let dir = verif().join("replays");
    let mut lines = vec![];
    let mut seen = std::collections::HashSet::new();
    for v in &fresh {
        let sig = format!("{}/{}", v.family, v.key);
        if !seen.insert(sig) || lines.len() >= 12 {
            continue;
        }
        let _ = std::fs::create_dir_all(&dir);
        let name = format!(
            "{}-{}-{}.json",
            run.id,
            v.family.replace(|c: char| !c.is_alphanumeric(), "_"),
            v.key.replace(|c: char| !c.is_alphanumeric(), "_")
        );
        let p = dir.join(name);
        let doc = json!({
            "property": run.id, "tier": format!("{:?}", run.tier), "family": v.family, "case": v.case,
            "key": v.key, "what": v.msg,
            "rerun": format!("{} replay {}", "bash /verif/check.sh", p.display()),
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap());
        eprintln!("  {} [{}] case {:?}: {}", v.family, v.key, v.case, v.msg);
        lines.push(format!(
            "VIOLATION property={} replay={}",
            run.id,
            p.display()
        ));
    }
    if run.replay.is_none() {
        let mut t = Stats::default();
        let mut famj = vec![];
        let mut samples = vec![];
        let mut states = 0u64;
        for (n, s) in &fams {
            t.evaluations += s.evaluations;
            t.transitions += s.transitions;
            t.checks += s.checks;
            t.distinct += s.distinct;
            // grid families: distinct observed result states; bfs families: distinct system states
            states += if s.depth > 0 { s.states } else { s.distinct };
            for x in &s.samples {
                samples.push(json!(format!("{n}: {x}")));
            }
            famj.push(json!({
                "family": n,
                "bounds": s.dims.iter().map(|d| format!("{}={}", d.0, d.1)).collect::<Vec<_>>(),
                "space": s.states, "depth": s.depth, "executions": s.evaluations,
                "implementation_steps": s.transitions, "oracle_comparisons": s.checks,
                "distinct_outcomes": s.distinct, "classes": s.classes, "complete": s.exhausted,
            }));
        }
        if samples.is_empty() {
            samples.push(json!("see families"));
        }
        let ev = json!({
            "property": run.id,
            "tier": if run.thorough() {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": t.transitions,
                "traces_validated_against_impl": t.evaluations,
                "oracle_comparisons": t.checks,
                "distinct_outcomes": t.distinct,
                "exhaustive": !hung && fams.iter().all(|f| f.1.exhausted),
                "rule": "every point of each listed finite alphabet product, or every operation sequence up to the listed depth, executed on the code built from /repo and compared with an independent reference model; states counts distinct observed results (grids) or distinct system states (breadth-first search)",
                "families": famj,
                "samples": samples,
                "known_findings_hit": printed_known.iter().filter(|x| **x).count(),
            },
            "wall_s": run.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let evd = verif().join("evidence");
        let _ = std::fs::create_dir_all(&evd);
        let _ = std::fs::write(
            evd.join(format!("{}.json", run.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
    }
    for l in &lines {
        println!("{l}");
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if fresh.is_empty() { 0 } else { 1 });
}

/// Parses the command line, runs the property's exploration and reports.
pub fn main_with(dispatch: impl Fn(&Run) -> bool) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (id, tier, replay) = match args.first().map(|s| s.as_str()) {
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay json");
            let tier = if v["tier"] == "Thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            (
                v["property"].as_str().unwrap().to_string(),
                tier,
                Some(Replay {
                    family: v["family"].as_str().unwrap().into(),
                    case: v["case"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|x| x.as_u64().unwrap() as usize)
                        .collect(),
                }),
            )
        }
        Some(id) => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let tier = match args.get(1).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                Some("quick") => Tier::Quick,
                _ => tier,
            };
            (id.to_string(), tier, None)
        }
        None => {
            eprintln!("usage: vmc <PROPERTY> [quick|thorough] | vmc replay <file>");
            std::process::exit(2);
        }
    };
    let run = Run::new(&id, tier, replay);
    if !dispatch(&run) {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    }
    if run.replay.is_some() && !run.replay_hit() {
        eprintln!("replay: family not found");
        std::process::exit(2);
    }
    finish(&run, false);
}
