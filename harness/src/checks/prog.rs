//! Checks whose executions are programs: the library built in several configurations (C21), and
//! programs that use the compile-time macros (C19).
use crate::gen::Gen;
use crate::rt::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const IDS: [&str; 2] = ["C19", "C21"];
pub fn rule(id: &str) -> &'static str {
    match id {
        "C21" => "generated, mutated and boundary inputs are given to the same program built with der-parser in nine feature and optimization configurations; the digests of everything the library answers (all entry points and combinators, accessors, printing, iteration, visiting; optional operations among the configurations that have them) are compared; non-trivial: an input whose common digest is new",
        _ => super::oid::RULE,
    }
}
pub fn run(id: &str, a: &RunArgs, root: &Path) -> Report {
    match id {
        "C21" => c21(a, root),
        _ => super::oid::c19(a, root),
    }
}
/// cargo, with a private target directory and nothing inherited that changes the build
pub fn cargo(dir: &Path, target: &Path) -> Command {
    let mut c = Command::new("cargo");
    c.current_dir(dir).env("CARGO_TARGET_DIR", target).env("CARGO_NET_OFFLINE", "true").env_remove("RUSTC_WRAPPER").env_remove("RUSTFLAGS").stdin(Stdio::null());
    c
}
/// the compiler refused the sources (as opposed to: the build could not be carried out)
pub fn compile_error(log: &str) -> bool {
    !log.contains("(signal:") && log.lines().any(|l| l.starts_with("error[E") || l.starts_with("error: could not compile") || l.starts_with("error: proc macro panicked") || l.contains("custom attribute panicked"))
}
fn tail(s: &str, n: usize) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join("\n")
}

const CONFIGS: [(&str, &str, bool); 9] = [
    ("no features", "", false),
    ("std", "std", false),
    ("bigint", "bigint", false),
    ("as_bitvec", "as_bitvec", false),
    ("unstable", "unstable,std", false),
    ("serialize", "serialize", false),
    ("all", "std,bigint,as_bitvec,unstable,serialize", false),
    ("no features, optimized", "", true),
    ("all, optimized", "std,bigint,as_bitvec,unstable,serialize", true),
];

fn c21(a: &RunArgs, root: &Path) -> Report {
    let mut rep = Report::default();
    let scratch = a.scratch.join("c21");
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    // ---- build the program once per configuration, in parallel
    let bins: Vec<Result<PathBuf, (bool, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = CONFIGS
            .iter()
            .enumerate()
            .map(|(k, (_, feats, opt))| {
                let target = root.join(format!("build/feat/{k}"));
                s.spawn(move || {
                    // decided by contents, not by modification times
                    let _ = cargo(&root.join("feat"), &target).args(["clean", "-q", "--offline", "-p", "der-parser", "-p", "sut", "-p", "feat"]).output();
                    let mut c = cargo(&root.join("feat"), &target);
                    c.args(["build", "-q", "--offline", "--locked", "--features", feats]);
                    if *opt {
                        c.arg("--release");
                    }
                    let o = c.output().map_err(|e| (false, e.to_string()))?;
                    if o.status.success() {
                        Ok(target.join(if *opt { "release/feat" } else { "debug/feat" }))
                    } else {
                        let log = String::from_utf8_lossy(&o.stderr).into_owned();
                        Err((compile_error(&log), log))
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("build thread")).collect()
    });
    let refused: Vec<usize> = (0..CONFIGS.len()).filter(|&k| matches!(&bins[k], Err((true, _)))).collect();
    let broken: Vec<usize> = (0..CONFIGS.len()).filter(|&k| matches!(&bins[k], Err((false, _)))).collect();
    let text = |k: usize| bins[k].as_ref().err().map(|e| tail(&e.1, 30)).unwrap_or_default();
    if !broken.is_empty() || refused.len() == CONFIGS.len() {
        rep.inconclusive = Some(format!("the program could not be built: {}", text(*broken.first().unwrap_or(&0))));
        return rep;
    }
    if let Some(&k) = refused.first() {
        rep.message = format!("with features [{}] the library does not compile, with others it does:\n{}", CONFIGS[k].0, text(k));
        let p = a.replays.join(format!("C21-{}.txt", a.seed));
        let _ = std::fs::create_dir_all(&a.replays);
        let _ = std::fs::write(&p, &rep.message);
        rep.violation = Some(p);
        return rep;
    }
    let bins: Vec<PathBuf> = bins.into_iter().map(|b| b.unwrap()).collect();
    // ---- rounds of inputs
    let (rounds, n) = match a.tier {
        Tier::Quick => (2u64, 8000usize),
        Tier::Thorough => (20, 12000),
    };
    let mut seen = std::collections::HashSet::new();
    let mut common_kinds = 0u64;
    for round in 0..rounds {
        let mut inputs: Vec<Vec<u8>> = vec![];
        if round == 0 {
            super::parse::C06.fixed(Tier::Quick, &mut |c| inputs.push(c.input));
            crate::gen::big_cases(if a.tier == Tier::Quick { 70_000 } else { 1 << 20 }, &mut |c| inputs.push(c.input));
        }
        let mut g = Gen::new(a.seed.wrapping_mul(0x1_0001) ^ 0x21 ^ (round << 40));
        let base = inputs.len();
        while inputs.len() < n + base {
            let mut v = g.input();
            if g.r.chance(1, 3) && inputs.len() > 4 {
                let o = inputs[g.r.below(inputs.len())].clone();
                crate::gen::mutate(&mut g, &mut v, &o, 4096);
            }
            v.truncate(4096);
            inputs.push(v);
        }
        let mut file = vec![];
        for i in &inputs {
            file.extend((i.len() as u32).to_le_bytes());
            file.extend(i);
        }
        let f = scratch.join(format!("inputs{round}"));
        std::fs::write(&f, &file).expect("inputs");
        let outs: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = bins
                .iter()
                .map(|b| {
                    let f = &f;
                    s.spawn(move || {
                        let o = Command::new(b).arg(f).stdin(Stdio::null()).output().map_err(|e| format!("cannot run: {e}"))?;
                        if !o.status.success() {
                            return Err(format!("ended with {}", o.status));
                        }
                        Ok(String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("run thread")).collect()
        });
        let failed: Vec<usize> = (0..bins.len()).filter(|&k| outs[k].is_err()).collect();
        if failed.len() == bins.len() {
            rep.inconclusive = Some(format!("no configuration runs: {:?}", outs[0]));
            return rep;
        }
        if let Some(&k) = failed.first() {
            // which input? the first one on which this configuration alone ends abnormally
            for (j, i) in inputs.iter().enumerate() {
                let o = Command::new(&bins[k]).arg(&f).args(["show", &j.to_string()]).stdin(Stdio::null()).stdout(Stdio::null()).status();
                if o.is_ok_and(|s| !s.success()) {
                    rep.message = format!("with [{}] the process {} on an input that other configurations handle", CONFIGS[k].0, outs[k].as_ref().err().unwrap());
                    let p = a.replays.join(format!("C21-{}.txt", a.seed));
                    write_replay(&p, "C21", &Case::new(i.clone(), k as u64), &rep.message);
                    rep.violation = Some(p);
                    return rep;
                }
            }
            rep.inconclusive = Some(format!("[{}] {}", CONFIGS[k].0, outs[k].as_ref().err().unwrap()));
            return rep;
        }
        let outs: Vec<Vec<String>> = outs.into_iter().map(|o| o.unwrap()).collect();
        for (j, i) in inputs.iter().enumerate() {
            rep.evals += 1;
            let cols: Vec<Vec<&str>> = outs.iter().map(|o| o.get(j).map(|l| l.split_whitespace().collect()).unwrap_or_default()).collect();
            if cols.iter().any(|c| c.len() != 4) {
                rep.inconclusive = Some("short output".into());
                return rep;
            }
            for part in 0..4 {
                let with: Vec<usize> = (0..bins.len()).filter(|&k| cols[k][part] != "-").collect();
                if let Some(&k) = with.iter().find(|&&k| cols[k][part] != cols[with[0]][part]) {
                    let show = |k: usize| Command::new(&bins[k]).arg(&f).args(["show", &j.to_string()]).stdin(Stdio::null()).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                    let (x, y) = (show(with[0]), show(k));
                    // operations only one of the two has follow the common ones, each on a line of its own
                    let name = |l: &str| l.split(':').next().unwrap_or("").to_string();
                    let diff = x.lines().find_map(|l| y.lines().find(|m| name(m) == name(l) && *m != l).map(|m| (l, m)));
                    let (l, m) = diff.unwrap_or(("?", "?"));
                    rep.message = format!("[{}] and [{}] differ: {} / {}", CONFIGS[with[0]].0, CONFIGS[k].0, l.chars().take(400).collect::<String>(), m.chars().take(400).collect::<String>());
                    let p = a.replays.join(format!("C21-{}.txt", a.seed));
                    write_replay(&p, "C21", &Case::new(i.clone(), k as u64), &rep.message);
                    rep.violation = Some(p);
                    return rep;
                }
                rep.counts.entry(format!("comparisons_{}", ["common", "bigint", "as_bitvec", "serialize"][part])).and_modify(|c| *c += with.len() as u64 - 1).or_insert(with.len() as u64 - 1);
            }
            if seen.insert(cols[0][0].to_string()) {
                common_kinds += 1;
            }
            if rep.samples.len() < 6 && j % 1777 == 5 {
                rep.samples.push(format!("input[{}]={}", i.len(), hex(&i[..i.len().min(40)])));
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    rep.distinct = common_kinds;
    rep.counts.insert("configurations".into(), bins.len() as u64);
    let _ = std::fs::remove_dir_all(&scratch);
    rep
}
