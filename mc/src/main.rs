mod engine;
mod hook;
mod keys;
mod models;
mod props;
mod sched;
mod util;

use engine::*;
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")))
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(r: &Runner, sub: &str, msg: &str, tape: &[u32]) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{}-{}.json", r.prop, sub.replace(|c: char| !c.is_alphanumeric(), "_"));
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"sub\": {}, \"message\": {}, \"tape\": [{}], \"how\": {}}}\n",
        esc(&r.prop),
        esc(if r.thorough { "thorough" } else { "quick" }),
        esc(sub),
        esc(msg),
        t.join(", "),
        esc("./check <property> --replay <this file> executes this tape on the real code again, twice")
    );
    let _ = std::fs::write(format!("{dir}/{name}"), text);
    format!("replays/{name}")
}

fn write_evidence(r: &Runner, violations: usize) {
    let subs = r.subs.lock().unwrap().clone();
    let states = r.states.lock().unwrap().len();
    let nodes: u64 = subs.iter().map(|s| s.nodes).sum();
    let runs: u64 = subs.iter().map(|s| s.executions + s.nested - s.abandoned).sum();
    let exhaustive = !subs.is_empty() && subs.iter().all(|s| s.complete) && violations == 0;
    let samples: Vec<String> = r.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
    let (bounds, assumptions) = props::describe(&r.prop, r.thorough);
    let parts: Vec<String> = subs
        .iter()
        .map(|s| {
            let cl: Vec<String> = s.classes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            format!(
                "{{\"name\": {}, \"executions\": {}, \"nested_executions\": {}, \"tree_nodes\": {}, \"max_choices\": {}, \"abandoned\": {}, \"diverged\": {}, \"set_free\": {}, \"complete\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
                esc(&s.name), s.executions, s.nested, s.nodes, s.max_depth, s.abandoned, s.diverged, s.freerun, s.complete, s.wall, cl.join(", ")
            )
        })
        .collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let assumptions: Vec<String> = assumptions.iter().map(|s| esc(s)).collect();
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {}, \"bounds\": {}, \"rule\": {}, \"subchecks\": [{}], \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        esc(&r.prop),
        esc(if r.thorough { "thorough" } else { "quick" }),
        seed,
        states,
        nodes,
        runs,
        exhaustive,
        esc(bounds),
        esc("states: distinct observed results (inputs with outputs, populations, traces); transitions: edges of the explored choice trees; traces: complete executions of /repo's code that were judged"),
        parts.join(", "),
        samples.join(", "),
        assumptions.join(", "),
        r.start.elapsed().as_secs_f64(),
        violations
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{}.tmp{}", r.prop, std::process::id());
    if std::fs::write(&tmp, text).is_ok() {
        let _ = std::fs::rename(&tmp, format!("{dir}/{}.json", r.prop));
    }
}

static FINISHED: AtomicBool = AtomicBool::new(false);

/// Prints the verdict and ends the process.
pub fn finish(r: &Runner) -> ! {
    if FINISHED.swap(true, SeqCst) {
        std::thread::sleep(Duration::from_secs(3600));
    }
    let v = r.violation.lock().unwrap();
    for k in r.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", r.prop, k);
    }
    write_evidence(r, v.is_some() as usize);
    let mut code = 0;
    if let Some(v) = &*v {
        let path = write_replay(r, &v.sub, &v.msg, &v.tape);
        println!("{}: {}", v.sub, v.msg);
        println!("VIOLATION property={} replay={}", r.prop, path);
        code = 1;
    } else {
        let subs = r.subs.lock().unwrap();
        let ex: u64 = subs.iter().map(|s| s.executions + s.nested).sum();
        println!(
            "property {} held on {} executions ({} sub-checks, {}), {:.1} s",
            r.prop,
            ex,
            subs.len(),
            if subs.iter().all(|s| s.complete) { "all complete" } else { "not all complete" },
            r.start.elapsed().as_secs_f64()
        );
    }
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// A supervisor process reports crashes (stack overflow, abort) of the code under test.
fn supervise(r: &Runner) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new(exe)
        .args(std::env::args().skip(1))
        .env("MC_CHILD", "1")
        .status()
        .expect("cannot start the explorer");
    match (status.code(), status.signal()) {
        (Some(c), _) => std::process::exit(c),
        (_, Some(s)) if s == 11 || s == 6 || s == 4 || s == 7 || s == 8 => {
            r.report("process", &format!("the process died with signal {s} (abort or stack overflow)"), vec![]);
            finish(r)
        }
        (_, s) => {
            eprintln!("explorer ended by signal {s:?}");
            std::process::exit(3)
        }
    }
}

/// The seams must be linked in (they are lost if cargo resolves to other versions).
fn self_test() {
    let mut ctx = Ctx::new(&Opts::default(), &[]);
    ctx.workers = 77;
    set_current(&mut ctx);
    let rayon_seam = rayon::current_num_threads() == 77;
    let n = rand::Rng::gen_range(&mut hook::McRng::new(), 0..5);
    set_current(std::ptr::null_mut());
    if !rayon_seam || n != 0 || ctx.tape.len() != 1 || ctx.tape[0].n != 5 {
        eprintln!("the patched dependencies are not in use");
        std::process::exit(2)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_else(|| {
        eprintln!("usage: mc <property> [--replay <file>] [--sub <name>]");
        std::process::exit(2)
    });
    #[cfg(feature = "F01")]
    if args.len() == 3 && args[1] == "--call" {
        // part of F01: a call in a process of its own
        std::panic::set_hook(Box::new(|_| ()));
        mc_hook::set(&hook::HOOK);
        keys::reset();
        props::first_call(args[2].parse().unwrap_or(0));
        return;
    }
    let mut replay = None;
    let mut only = None;
    let mut thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut i = 1;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let field = |k: &str| -> String {
                    let at = text.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
                    text[at..].to_string()
                };
                let sub = field("sub");
                let sub = sub[1..].split('"').next().unwrap().to_string();
                thorough = field("tier").starts_with("\"thorough");
                let tape = field("tape");
                let tape = tape[1..tape.find(']').unwrap()].split(',').filter_map(|x| x.trim().parse().ok()).collect();
                replay = Some((sub, tape));
            }
            "--sub" => only = Some(args[i + 1].clone()),
            a => {
                eprintln!("unknown argument {a}");
                std::process::exit(2)
            }
        }
        i += 2;
    }
    let known = std::fs::read_to_string(format!("{}/known-findings.txt", root()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // finding: property=<id> match=<prefix of "sub: message"> | <what fails>
            let rest = l.strip_prefix("finding: property=")?;
            let (id, rest) = rest.split_once(" match=")?;
            let (m, what) = rest.split_once(" | ")?;
            Some((id.to_string(), m.to_string(), what.to_string()))
        })
        .filter(|k| k.0 == prop)
        .collect::<Vec<_>>();
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 });
    let r: &'static Runner = Box::leak(Box::new(Runner {
        prop: prop.clone(),
        thorough,
        start: Instant::now(),
        deadline: Instant::now() + Duration::from_secs(budget),
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16),
        replay,
        only,
        subs: Mutex::new(Vec::new()),
        states: Mutex::new(Default::default()),
        samples: Mutex::new(Vec::new()),
        violation: Mutex::new(None),
        known: known.iter().map(|k| (k.0.clone(), k.1.clone())).collect(),
        known_text: known.iter().map(|k| k.2.clone()).collect(),
        known_hit: Mutex::new(Vec::new()),
        stop: AtomicBool::new(false),
        replayed: AtomicBool::new(false),
    }));
    if std::env::var("MC_CHILD").is_err() {
        supervise(r)
    }
    std::panic::set_hook(Box::new(|info| {
        if !controlled() {
            eprintln!("harness: {info}");
        }
    }));
    mc_hook::set(&hook::HOOK);
    keys::reset();
    self_test();
    start_watchdog(r, 60);
    if !props::run(&prop, r) {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    }
    if r.replay.is_some() && !r.replayed.load(SeqCst) {
        eprintln!("the replay file names no sub-check of this property");
        std::process::exit(2)
    }
    if FOREIGN.load(SeqCst) != 0 {
        eprintln!("note: some code ran on a thread outside the explorer's control; these executions were not judged");
    }
    finish(r)
}
