use crate::engine::*;
use crate::report::*;
use crate::{Check, Level, Scenario, Tier};
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
const HANG_EXIT: i32 = 97;

fn map_slots(path: &Path) -> Vec<Slot> {
    use std::os::fd::AsRawFd;
    let bytes = SLOTS * SLOT_WORDS * 8;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
    f.set_len(bytes as u64).expect("slots");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            bytes,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    (0..SLOTS).map(|i| Slot(unsafe { (p as *mut u64).add(i * SLOT_WORDS) })).collect()
}

fn hang_secs() -> u64 {
    std::env::var("MC_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

/// Time that passes in small steps only: a machine standing still does not count.
struct Patience {
    at: Instant,
    spent: Duration,
}

impl Patience {
    fn new() -> Self {
        Patience { at: Instant::now(), spent: Duration::ZERO }
    }
    fn spent(&mut self) -> Duration {
        self.spent += self.at.elapsed().min(Duration::from_secs(1));
        self.at = Instant::now();
        self.spent
    }
}

/// ends the process when one execution makes no progress for too long
fn watchdog(slots: Vec<Slot>) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Patience)> = slots.iter().map(|s| (s.ticks(), Patience::new())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in slots.iter().enumerate() {
                let t = s.ticks();
                if t != last[i].0 {
                    last[i] = (t, Patience::new());
                } else if last[i].1.spent().as_secs() >= hang_secs() && s.current().is_some() {
                    eprintln!("engine: execution in slot {i} makes no progress");
                    let _ = std::io::stdout().flush();
                    unsafe { libc::_exit(HANG_EXIT) };
                }
            }
        }
    });
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_DATA, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

struct Args {
    property: String,
    tier: Tier,
    mode: Mode,
    only: Option<String>,
}

enum Mode {
    Supervise,
    Worker(PathBuf),
    One { scenario: usize, choices: PathBuf },
    Replay(PathBuf),
}

fn usage() -> ! {
    eprintln!("usage: <harness> PROPERTY [--tier quick|thorough] [--only SCENARIO] | --replay FILE");
    std::process::exit(2)
}

fn parse() -> Args {
    let mut a = std::env::args().skip(1);
    let mut property = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut mode = Mode::Supervise;
    let mut only = None;
    let mut one = None;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--tier" => {
                tier = match a.next().as_deref() {
                    Some("quick") => Tier::Quick,
                    Some("thorough") => Tier::Thorough,
                    _ => usage(),
                }
            }
            "--only" => only = a.next(),
            "--worker" => mode = Mode::Worker(a.next().unwrap_or_else(|| usage()).into()),
            "--one" => one = a.next().and_then(|s| s.parse().ok()),
            "--choices" => {
                mode = Mode::One {
                    scenario: one.unwrap_or_else(|| usage()),
                    choices: a.next().unwrap_or_else(|| usage()).into(),
                }
            }
            "--replay" => {
                let p: PathBuf = a.next().unwrap_or_else(|| usage()).into();
                let r = read_replay(&p).unwrap_or_else(|| usage());
                property = r.property;
                tier = if r.tier == "thorough" { Tier::Thorough } else { Tier::Quick };
                mode = Mode::Replay(p);
            }
            _ if property.is_empty() => property = x,
            _ => usage(),
        }
    }
    Args { property, tier, mode, only }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// removes the scratch directories (`/dev/shm/mc-<what>-<pid>`) of processes that have ended
fn sweep() {
    for e in std::fs::read_dir("/dev/shm").into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let pid = name.strip_prefix("mc-").and_then(|n| n.rsplit_once('-')).and_then(|(_, pid)| pid.parse::<u32>().ok());
        if pid.is_some_and(|pid| pid != std::process::id() && !std::path::Path::new("/proc").join(pid.to_string()).exists()) {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
}

pub fn main(checks: Vec<Check>) -> ! {
    let args = parse();
    if matches!(args.mode, Mode::Supervise | Mode::Replay(_)) {
        sweep();
    }
    let Some(check) = checks.into_iter().find(|c| c.property == args.property) else {
        eprintln!("unknown property {:?}", args.property);
        std::process::exit(2)
    };
    let code = match &args.mode {
        Mode::Supervise => supervise(&check, &args),
        Mode::Worker(slots) => worker(&check, &args, slots),
        Mode::One { scenario, choices } => one(&check, args.tier, *scenario, choices),
        Mode::Replay(p) => replay(&check, args.tier, p),
    };
    let _ = std::io::stdout().flush();
    if matches!(args.mode, Mode::Supervise) {
        sweep();
    }
    std::process::exit(code)
}

struct ScenarioReport {
    name: String,
    what: String,
    deviations: u32,
    stats: Stats,
    wall: f64,
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    tier: Tier,
    reports: &[ScenarioReport],
    samples: &[String],
    known_hits: &[String],
    violations: usize,
    wall: f64,
    note: Option<&str>,
) {
    let sum = |f: fn(&Stats) -> u64| reports.iter().map(|r| f(&r.stats)).sum::<u64>();
    let complete = !reports.is_empty() && reports.iter().all(|r| r.stats.complete);
    let scen: Vec<String> = reports
        .iter()
        .map(|r| {
            format!(
                "{{\"scenario\":{},\"explored\":{},\"deviation_bound\":{},\"executions\":{},\"operations\":{},\"distinct_states\":{},\"distinct_outcomes\":{},\"merged\":{},\"longest_choice_sequence\":{},\"complete\":{},\"wall_s\":{:.2}}}",
                esc(&r.name), esc(&r.what), r.deviations, r.stats.executions, r.stats.transitions, r.stats.states,
                r.stats.outcomes, r.stats.pruned, r.stats.max_choices, r.stats.complete, r.wall
            )
        })
        .collect();
    let samples: Vec<String> = samples.iter().take(12).map(|s| esc(s)).collect();
    let level = match check.level {
        Level::ModelChecking => "model_checking",
        Level::FaultEnumeration => "fault_enumeration",
    };
    let coverage = match check.level {
        Level::ModelChecking => format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}",
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.executions)
        ),
        Level::FaultEnumeration => format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{}",
            sum(|s| s.executions),
            sum(|s| s.outcomes)
        ),
    };
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| esc(s)).collect();
    let hits: Vec<String> = known_hits.iter().map(|s| esc(s)).collect();
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{},\"rule\":{},\"exhaustive\":{},\"scenarios\":{},\"samples\":{},\"known_findings_hit\":{}{}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(check.property),
        esc(tier_name(tier)),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        esc(level),
        coverage,
        esc(check.rule),
        complete,
        arr(&scen),
        arr(&samples),
        arr(&hits),
        note.map(|n| format!(",\"note\":{}", esc(n))).unwrap_or_default(),
        arr(&assumptions),
        wall,
        violations
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", check.property)), text) {
        eprintln!("cannot write evidence: {e}");
    }
}

fn budget(tier: Tier) -> Duration {
    Duration::from_secs(
        std::env::var("MC_BUDGET_SECS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(tier.of(300, 3000)),
    )
}

fn run_verbose(idx: usize, sc: &Scenario, trace: &[Choice], slot: Slot) -> Executed {
    let (a, b) = (Seen::new(), Seen::new());
    execute(idx, sc, trace, true, true, &a, &b, slot, 0)
}

fn worker(check: &Check, args: &Args, slot_path: &Path) -> i32 {
    install_panic_hook();
    limit_memory();
    let slots = map_slots(slot_path);
    watchdog(slots.clone());
    let known = Known::load();
    let scenarios = (check.scenarios)(args.tier);
    let workers = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .min(SLOTS);
    let start = Instant::now();
    let deadline = start + budget(args.tier);
    let mut reports = vec![];
    let mut samples = vec![];
    let mut hits = vec![];
    for (i, sc) in scenarios.iter().enumerate() {
        if let Some(o) = &args.only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let t = Instant::now();
        let ex = explore(i, sc, workers, deadline, &|s| known.has(check.property, s), &slots);
        if let Verdict::Engine(e) = ex.verdict {
            eprintln!("engine error: {e}");
            return 2;
        }
        let wall = t.elapsed().as_secs_f64();
        eprintln!(
            "{} {}: {} executions, {} operations, {} states, {} outcomes, {} merged, longest {} choices, {}{:.1}s",
            check.property, sc.name, ex.stats.executions, ex.stats.transitions, ex.stats.states, ex.stats.outcomes,
            ex.stats.pruned, ex.stats.max_choices, if ex.stats.complete { "" } else { "NOT COMPLETE, " }, wall
        );
        for s in ex.sample.iter().take(2) {
            let r = run_verbose(i, sc, s, slots[SLOTS - 1]);
            if !matches!(r.result, Ok(Ok(_))) || r.trace != *s {
                eprintln!("engine error: sample of {} does not replay: {:?}", sc.name, s);
                return 2;
            }
            samples.push(format!("{}: {}", sc.name, if r.notes.is_empty() { choices_text(s) } else { r.notes.join("; ") }));
        }
        reports.push(ScenarioReport {
            name: sc.name.clone(),
            what: sc.what.clone(),
            deviations: sc.deviations,
            stats: ex.stats,
            wall,
        });
        for f in ex.found {
            // the same choices must fail in the same way, twice
            let mut notes = vec![];
            for _ in 0..2 {
                let r = run_verbose(i, sc, &f.trace, slots[SLOTS - 1]);
                match &r.result {
                    Ok(Err(v)) if v.sig == f.violation.sig => notes = r.notes,
                    other => {
                        let got = match other {
                            Ok(Ok(_)) => "no violation".to_string(),
                            Ok(Err(v)) => format!("{} ({})", v.sig, v.msg),
                            Err(e) => e.clone(),
                        };
                        eprintln!(
                            "engine error: violation {:?} ({}) of scenario {} does not replay: {got}; choices {}",
                            f.violation.sig, f.violation.msg, sc.name, choices_text(&f.trace)
                        );
                        return 2;
                    }
                }
            }
            if known.has(check.property, &f.violation.sig) {
                if !hits.contains(&f.violation.sig) {
                    hits.push(f.violation.sig.clone());
                }
                continue;
            }
            let p = write_replay(
                check.property, tier_name(args.tier), &sc.name, &f.violation.sig, &f.violation.msg, &f.trace, &notes,
            );
            println!("scenario {}: [{}] {}", sc.name, f.violation.sig, f.violation.msg);
            for n in &notes {
                println!("    {n}");
            }
            println!("VIOLATION property={} replay={}", check.property, p.display());
            write_evidence(check, args.tier, &reports, &samples, &hits, 1, start.elapsed().as_secs_f64(), Some(&f.violation.msg));
            return 1;
        }
    }
    known.print(check.property);
    write_evidence(check, args.tier, &reports, &samples, &hits, 0, start.elapsed().as_secs_f64(), None);
    0
}

fn one(check: &Check, tier: Tier, scenario: usize, choices: &Path) -> i32 {
    install_panic_hook();
    limit_memory();
    let scenarios = (check.scenarios)(tier);
    let trace = parse_choices(&std::fs::read_to_string(choices).unwrap_or_default());
    let (a, b) = (Seen::new(), Seen::new());
    // the notes go out as they are made, so that they survive a crash
    let ex = execute(scenario, &scenarios[scenario], &trace, true, true, &a, &b, Slot::NONE, 0);
    match ex.result {
        Ok(Ok(_)) => 0,
        Ok(Err(v)) => {
            println!("[{}] {}", v.sig, v.msg);
            1
        }
        Err(e) => {
            println!("{e}");
            2
        }
    }
}

fn replay(check: &Check, tier: Tier, path: &Path) -> i32 {
    install_panic_hook();
    let r = read_replay(path).unwrap_or_else(|| usage());
    let scenarios = (check.scenarios)(tier);
    let Some(i) = scenarios.iter().position(|s| s.name == r.scenario) else {
        eprintln!("no scenario {:?}", r.scenario);
        return 2;
    };
    let ex = run_verbose(i, &scenarios[i], &r.choices, Slot::NONE);
    for n in &ex.notes {
        println!("    {n}");
    }
    match ex.result {
        Ok(Ok(_)) => {
            println!("no violation");
            0
        }
        Ok(Err(v)) => {
            println!("[{}] {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", check.property, path.display());
            1
        }
        Err(e) => {
            println!("engine error: {e}");
            2
        }
    }
}

fn supervise(check: &Check, args: &Args) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", check.property, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let code = supervise_in(check, args, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn spawn_wait(mut cmd: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().ok()?;
    let mut t = Patience::new();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if t.spent() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// What an exploration came to: its exit code, or why it ended early with no execution to blame.
fn supervise_in(check: &Check, args: &Args, dir: &Path, start: Instant) -> i32 {
    for attempt in 0..2 {
        match explore_in(check, args, dir, start, attempt) {
            Ok(code) => return code,
            // a processor that stood still looks like an execution that does not end
            Err(what) if attempt == 0 => eprintln!("{what}, and no single execution reproduces it; once more"),
            Err(what) => eprintln!("engine error: {what}, and no single execution reproduces it"),
        }
    }
    2
}

fn explore_in(check: &Check, args: &Args, dir: &Path, start: Instant, attempt: u32) -> Result<i32, String> {
    let exe = std::env::current_exe().expect("exe");
    let slot_path = dir.join(format!("slots{attempt}"));
    let slots = map_slots(&slot_path);
    let mut cmd = Command::new(&exe);
    cmd.arg(check.property).args(["--tier", tier_name(args.tier)]).arg("--worker").arg(&slot_path);
    cmd.env("TMPDIR", dir);
    if let Some(o) = &args.only {
        cmd.arg("--only").arg(o);
    }
    let status = match spawn_wait(cmd, budget(args.tier) * 2 + Duration::from_secs(120)) {
        Some(s) => s,
        None => {
            eprintln!("engine error: worker process overran its budget");
            return Ok(2);
        }
    };
    match status.code() {
        Some(c) if c != HANG_EXIT => return Ok(c),
        _ => {}
    }
    let what = match status.signal() {
        Some(s) => format!("the process died of signal {s}"),
        None => "an execution did not terminate".to_string(),
    };
    eprintln!("{what}; looking for the execution responsible");
    let known = Known::load();
    let scenarios = (check.scenarios)(args.tier);
    for s in &slots {
        let Some((sc, choices)) = s.current() else { continue };
        let cf = dir.join("choices");
        let _ = std::fs::write(&cf, choices_text(&choices));
        let mut same = 0;
        for _ in 0..2 {
            let mut cmd = Command::new(&exe);
            cmd.arg(check.property).args(["--tier", tier_name(args.tier), "--one"]);
            cmd.arg(sc.to_string()).arg("--choices").arg(&cf).env("TMPDIR", dir);
            cmd.stdout(Stdio::null());
            let r = spawn_wait(cmd, Duration::from_secs(hang_secs() * 3 / 2));
            let bad = match (&r, status.signal()) {
                (None, None) => true,
                (Some(r), Some(_)) => r.signal().is_some(),
                _ => false,
            };
            if bad {
                same += 1;
            }
        }
        if same < 2 {
            continue;
        }
        let name = scenarios.get(sc).map(|s| s.name.clone()).unwrap_or_default();
        let sig = match status.signal() {
            Some(n) => format!("crash: signal {n} in {name}"),
            None => format!("hang in {name}"),
        };
        if known.has(check.property, &sig) {
            eprintln!("engine error: listed crash {sig} stops the exploration");
            return Ok(2);
        }
        let msg = format!("{what} in this execution");
        let p = write_replay(check.property, tier_name(args.tier), &name, &sig, &msg, &choices, &[]);
        println!("scenario {name}: [{sig}] {msg}");
        println!("VIOLATION property={} replay={}", check.property, p.display());
        let stats = Stats { executions: 1, ..Default::default() };
        write_evidence(
            check,
            args.tier,
            &[ScenarioReport { name, what: "crashed".into(), deviations: 0, stats, wall: 0.0 }],
            &[choices_text(&choices)],
            &[],
            1,
            start.elapsed().as_secs_f64(),
            Some(&msg),
        );
        return Ok(1);
    }
    Err(what)
}
