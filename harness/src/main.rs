mod api;
mod checks;
mod gen;
mod model;
mod rng;
mod rt;
mod snap;

#[global_allocator]
static ALLOC: rt::CountAlloc = rt::CountAlloc;

use std::path::PathBuf;

fn usage() -> ! {
    eprintln!("usage: dermon run <ID> | one <ID> <replay> | replay <file> | worker .. | list");
    std::process::exit(2)
}
fn find(id: &str) -> &'static dyn rt::Check {
    checks::all().into_iter().find(|c| c.id() == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).cloned().unwrap_or_else(|| usage());
    let code = match arg(1).as_str() {
        "list" => {
            let mut v: Vec<&str> = checks::all().iter().map(|c| c.id()).collect();
            v.extend(checks::prog::IDS);
            v.sort();
            println!("{}", v.join("\n"));
            0
        }
        "run" => run(&arg(2)),
        "worker" => rt::main_worker(
            find(&arg(2)),
            rt::WorkerArgs {
                shard: arg(3).parse().unwrap(),
                nshards: arg(4).parse().unwrap(),
                seed: arg(5).parse().unwrap(),
                tier: if arg(6) == "thorough" { rt::Tier::Thorough } else { rt::Tier::Quick },
                secs: arg(7).parse().unwrap(),
                dir: PathBuf::from(arg(8)),
            },
        ),
        "one" => rt::main_one(find(&arg(2)), &PathBuf::from(arg(3))),
        "digests" => checks::misc::digests(arg(2).parse().unwrap(), arg(3).parse().unwrap(), &arg(4)),
        "replay" => {
            let f = PathBuf::from(arg(2));
            let t = std::fs::read_to_string(&f).unwrap_or_default();
            let id = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or_else(|| usage()).to_string();
            rt::main_one(find(&id), &f)
        }
        _ => usage(),
    };
    std::process::exit(code);
}
fn run(id: &str) -> i32 {
    let prog = checks::prog::IDS.contains(&id);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { rt::Tier::Thorough } else { rt::Tier::Quick };
    let args = rt::RunArgs {
        seed,
        tier,
        secs: std::env::var("DERMON_SECS").ok().and_then(|s| s.parse().ok()),
        workers: std::env::var("DERMON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8)),
        evidence: root.join("evidence").join(format!("{id}.json")),
        replays: root.join("replays"),
        scratch: std::env::var("DERMON_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| root.join("build/scratch")),
        label: String::new(),
    };
    let t0 = std::time::Instant::now();
    let rep = if prog {
        let rep = checks::prog::run(id, &args, &root);
        rt::write_evidence(id, checks::prog::rule(id), &args, &rep, t0.elapsed().as_secs_f64(), &[]);
        rep
    } else {
        let ck = find(id);
        let mut rep = rt::run_parallel(ck, &args);
        if rep.violation.is_none() && rep.inconclusive.is_none() {
            ck.after(&args, &mut rep);
        }
        rt::write_evidence(id, ck.rule(), &args, &rep, t0.elapsed().as_secs_f64(), &ck.assumptions());
        rep
    };
    if let Some(p) = &rep.violation {
        println!("{}", rep.message.chars().take(2000).collect::<String>());
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if let Some(m) = &rep.inconclusive {
        eprintln!("INCONCLUSIVE property={id}: {m}");
        return 2;
    }
    if rep.distinct == 0 {
        eprintln!("INCONCLUSIVE property={id}: nothing was observed");
        return 2;
    }
    println!("held property={id} evaluations={} distinct_nontrivial={} wall={:.1}s", rep.evals, rep.distinct, t0.elapsed().as_secs_f64());
    0
}
