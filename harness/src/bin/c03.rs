//! C03: only shape- and unit-compatible programs compile, and all compatible ones do.
//! Every program of the bounded set in probe/src/lib.rs is handed to the type checker with the
//! library as it is now; its verdict (accepted, rejected) is compared with the expected one.
use cglmc::Ctx;
use std::collections::{BTreeMap, HashSet};
use std::process::Command;

fn main() {
    let ctx = Ctx::start("C03");
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let out = Command::new("cargo")
        .args(["check", "--offline", "--locked", "--message-format=short"])
        .current_dir(format!("{root}/probe"))
        .env("CARGO_TERM_COLOR", "never")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            eprintln!("ERROR: cannot run cargo: {e}");
            std::process::exit(2);
        }
    };
    let text = String::from_utf8_lossy(&out.stderr).to_string() + &String::from_utf8_lossy(&out.stdout);
    let mut rejected: HashSet<usize> = HashSet::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("src/lib.rs:") {
            let mut it = rest.splitn(3, ':');
            let line = it.next().and_then(|x| x.parse::<usize>().ok());
            let _col = it.next();
            let msg = it.next().unwrap_or("");
            if let Some(n) = line {
                if msg.trim_start().starts_with("error") {
                    rejected.insert(n);
                }
            }
        }
    }
    let src = std::fs::read_to_string(format!("{root}/probe/src/lib.rs")).unwrap();
    let mut fam: BTreeMap<String, Vec<(usize, bool, String)>> = BTreeMap::new();
    for (i, l) in src.lines().enumerate() {
        if let Some(p) = l.rfind("// ") {
            let mut it = l[p + 3..].split(' ');
            let verdict = it.next().unwrap();
            let family = it.next().unwrap_or("");
            if verdict == "accept" || verdict == "reject" {
                fam.entry(family.to_string()).or_default().push((i + 1, verdict == "accept", l[..p].trim().to_string()));
            }
        }
    }
    let finished = text.contains("could not compile `cglprobe`");
    if !finished {
        eprintln!("{}", text.lines().rev().take(20).collect::<Vec<_>>().join("\n"));
        eprintln!("ERROR: the type checker did not get as far as the programs");
        std::process::exit(2);
    }
    ctx.bound("shapes 1..=4 in every position, all value/reference operand forms, both angle units, scalar-type mixes");
    ctx.bound("the program set is the committed probe/src/lib.rs, one program per line");
    for (name, list) in &fam {
        ctx.section(name, |s| {
            for (line, accept, text) in list {
                s.case(|| format!("probe line {line}: {text}"), |c| {
                    c.same("the type checker's verdict", if rejected.contains(line) { "rejected" } else { "accepted" }, if *accept { "accepted" } else { "rejected" });
                });
            }
        });
    }
    ctx.finish();
}
