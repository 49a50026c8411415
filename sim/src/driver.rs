//! Workers, evidence, violations, replay files.
use crate::{
    minimise,
    props::{self, Prop},
};
use rt::{run, shm, tape};
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    path::PathBuf,
    process::Command,
    time::Instant,
};

/// Root of /verif, two levels above the crate's target directory.
fn root() -> PathBuf {
    std::env::var_os("YPSIM_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |h, b| h * 131 + u64::from(b));
    tape::mix(tape::mix(seed, p), index)
}

/// A defect left in place on purpose.
pub struct Known {
    class: String,
    text: String,
    what: String,
}

pub fn known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in fs::read_to_string(root().join("KNOWN_FINDINGS")).unwrap_or_default().lines() {
        // known: property=C01 class=panic match="text" what
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let Some(l) = l.strip_prefix(&format!("property={prop} ")) else { continue };
        let Some((class, l)) = l.strip_prefix("class=").and_then(|l| l.split_once(' ')) else { continue };
        let Some((text, what)) = l.strip_prefix("match=\"").and_then(|l| l.split_once("\" ")) else { continue };
        v.push(Known { class: class.into(), text: text.into(), what: what.into() });
    }
    v
}

fn is_known(k: &[Known], class: &str, msg: &str) -> Option<usize> {
    k.iter().position(|k| k.class == class && msg.contains(&k.text))
}

// ---- worker ----

/// prop seed start stride end out deadline_s
pub fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end, deadline) = (n(1), n(2), n(3), n(4), n(6));
    let known = known(p.id);
    let t = Instant::now();
    let mut out = String::new();
    let m = shm::shm();
    let (mut steps, mut ns, mut sw, mut peak, mut done) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut known_hits = BTreeMap::<usize, u64>::new();
    let mut i = start;
    while i < end {
        if t.elapsed().as_secs() >= deadline {
            break;
        }
        let o = run::exec(&run::Input::Seed(run_seed(seed, p.id, i)), p.limit, p.run);
        done += 1;
        steps += m.steps;
        ns += m.sim_ns;
        sw += m.switches;
        peak = peak.max(m.peak);
        writeln!(out, "h {i} {:x} {:x} {:x} {}", m.log_hash, m.sched_hash, m.state_hash, m.nontrivial).unwrap();
        if let Some((class, msg)) = o.violation {
            if let Some(k) = is_known(&known, &class, &msg) {
                *known_hits.entry(k).or_default() += 1;
            } else {
                let t: Vec<_> = m.tape().iter().map(u32::to_string).collect();
                writeln!(out, "v {i} {class} {}", t.join(" ")).unwrap();
                break;
            }
        }
        i += stride;
    }
    writeln!(out, "t {done} {steps} {ns} {sw} {peak}").unwrap();
    for (k, n) in known_hits {
        writeln!(out, "k {k} {n}").unwrap();
    }
    for (k, n) in m.stats() {
        writeln!(out, "s {n} {k}").unwrap();
    }
    let c: Vec<_> = (0..shm::COV_CAP).filter(|i| m.cov[*i] != 0).map(|i| i.to_string()).collect();
    writeln!(out, "c {} {}", rt::seam::guards(), c.join(" ")).unwrap();
    fs::write(&a[5], out).unwrap();
    0
}

// ---- check ----

struct Found {
    index: u64,
    class: String,
    tape: Vec<u32>,
}

pub fn check(id: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let t0 = Instant::now();
    let (seed, tier) = (env_seed(), tier());
    println!("ypsim check {id} VERIF_SEED={seed} tier={tier}");
    let cores = std::thread::available_parallelism().map_or(4, usize::from).clamp(2, 16) as u64;
    let scale: f64 = std::env::var("YPSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.);
    let (runs, deadline) = match tier.as_str() {
        "thorough" => (p.quick * 40, 3 * 3600),
        _ => ((p.quick as f64 * scale) as u64, 420),
    };
    let tmp = std::env::temp_dir().join(format!("ypsim-{}-{}", id, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |tag: &str, start: u64, stride: u64, end: u64| {
        let out = tmp.join(tag);
        let c = Command::new(&exe)
            .arg("worker")
            .args([p.id.to_string(), seed.to_string(), start.to_string(), stride.to_string(), end.to_string()])
            .arg(&out)
            .arg(deadline.to_string())
            .spawn()
            .expect("worker");
        (c, out)
    };
    let mut ws: Vec<_> = (0..cores).map(|w| spawn(&format!("w{w}"), w, cores, runs)).collect();
    // The same indices again, in other processes with another history.
    let again = runs.min(64 + runs / 40);
    ws.push(spawn("again", 0, 1, again));
    let (mut hashes, mut again_h) = (BTreeMap::new(), BTreeMap::new());
    let (mut logs, mut scheds, mut states) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut stats = BTreeMap::<String, u64>::new();
    let mut cov = HashSet::new();
    let (mut done, mut steps, mut ns, mut sw, mut peak, mut guards, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut known_hits = BTreeMap::<usize, u64>::new();
    let mut found: Vec<Found> = vec![];
    let mut broken = false;
    let last = ws.len() - 1;
    for (w, (mut c, out)) in ws.into_iter().enumerate() {
        let st = c.wait().expect("wait");
        let text = fs::read_to_string(&out).unwrap_or_default();
        if !st.success() || text.is_empty() {
            eprintln!("worker {w} ended with {st}");
            broken = true;
            continue;
        }
        for l in text.lines() {
            let f: Vec<&str> = l.splitn(4, ' ').collect();
            match f[0] {
                "h" => {
                    let i: u64 = f[1].parse().unwrap();
                    let rest = format!("{} {}", f[2], f[3]);
                    if w == last {
                        again_h.insert(i, rest);
                        continue;
                    }
                    let g: Vec<&str> = f[3].split(' ').collect();
                    if g[2] == "1" {
                        nontrivial += 1;
                        logs.insert(f[2].to_string());
                    }
                    scheds.insert(g[0].to_string());
                    states.insert(g[1].to_string());
                    hashes.insert(i, rest);
                }
                "v" => {
                    let t = f.get(3).unwrap_or(&"").split(' ').filter_map(|s| s.parse().ok()).collect();
                    found.push(Found { index: f[1].parse().unwrap(), class: f[2].into(), tape: t });
                }
                _ if w == last => {}
                "t" => {
                    let g: Vec<u64> = l.split(' ').skip(1).map(|s| s.parse().unwrap()).collect();
                    done += g[0];
                    steps += g[1];
                    ns += g[2];
                    sw += g[3];
                    peak = peak.max(g[4]);
                }
                "k" => *known_hits.entry(f[1].parse().unwrap()).or_default() += f[2].parse::<u64>().unwrap(),
                "s" => {
                    let (n, k) = l[2..].split_once(' ').unwrap();
                    *stats.entry(k.into()).or_default() += n.parse::<u64>().unwrap();
                }
                "c" => {
                    let mut g = l[2..].split(' ');
                    guards = g.next().unwrap().parse().unwrap();
                    cov.extend(g.filter_map(|s| s.parse::<u32>().ok()));
                }
                _ => {}
            }
        }
    }
    let _ = fs::remove_dir_all(&tmp);
    let known = known(p.id);
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: property={id} {} ({n} runs)", known[*k].what);
    }
    found.sort_by_key(|f| f.index);
    let mut code = 0;
    let mut compared = 0;
    for (i, h) in &again_h {
        if let Some(g) = hashes.get(i) {
            compared += 1;
            if g != h && found.is_empty() {
                eprintln!("not deterministic: run {i} gave {g} and {h}");
                code = 2;
            }
        }
    }
    let mut report = String::new();
    if let Some(f) = found.first() {
        match confirm(p, f, seed, &known) {
            Some((path, msg)) => {
                println!("{msg}");
                println!("VIOLATION property={id} replay={}", path.display());
                report = msg;
                code = 1;
            }
            None => {
                eprintln!("run {} failed ({}) but its replay does not: not deterministic", f.index, f.class);
                code = 2;
            }
        }
    }
    if broken && code == 0 {
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, seed, &tier, &Ev {
        done, nontrivial, logs: logs.len(), scheds: scheds.len(), states: states.len(), steps, ns, sw, peak, guards,
        cov: cov.len() as u64, stats, wall, compared, violations: u64::from(code == 1), report,
        known: known_hits.values().sum(),
    });
    println!("{id}: {done} runs, {} distinct non-trivial, {} schedules, {:.1} s of simulated time, {wall:.1} s, exit {code}", logs.len(), scheds.len(), ns as f64 / 1e9);
    code
}

fn confirm(p: &Prop, f: &Found, seed: u64, known: &[Known]) -> Option<(PathBuf, String)> {
    let accept = |class: &str, msg: &str| class == f.class && is_known(known, class, msg).is_none();
    let small = minimise::minimise(p, &f.tape, &accept);
    let dir = root().join("replays");
    fs::create_dir_all(&dir).ok()?;
    for tape in [small, f.tape.clone()] {
        let o = run::exec(&run::Input::Tape(tape.clone()), p.limit, p.run);
        let Some((class, msg)) = o.violation else { continue };
        let path = dir.join(format!("{}-{}-{}.replay", p.id, seed, f.index));
        let t: Vec<_> = tape.iter().map(u32::to_string).collect();
        let text = format!(
            "ypsim-replay 1\nproperty {}\nclass {class}\nseed {seed}\nindex {}\ntape {}\n---\n{msg}\n--- trace\n{}",
            p.id, f.index, t.join(" "), shm::shm().log()
        );
        fs::write(&path, text).ok()?;
        // In a fresh process, from the file alone.
        let out = Command::new(std::env::current_exe().ok()?).arg("replay").arg(&path).output().ok()?;
        if out.status.code() == Some(1) {
            return Some((path, format!("[{class}] {msg}\n--- trace of the minimised run\n{}", clip(&shm::shm().log(), 6000))));
        }
    }
    None
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}\n[... {} more bytes]", &s[..k], s.len() - k)
}

pub fn replay(path: &str) -> i32 {
    let Ok(text) = fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let Some(p) = props::find(&get("property ")) else {
        eprintln!("not a replay file: {path}");
        return 2;
    };
    let tape = get("tape ").split(' ').filter_map(|s| s.parse().ok()).collect();
    let o = run::exec(&run::Input::Tape(tape), p.limit, p.run);
    print!("{}", shm::shm().log());
    match o.violation {
        Some((class, msg)) => {
            println!("[{class}] {msg}");
            println!("VIOLATION property={} replay={path}", p.id);
            i32::from(class == get("class ")).max(1)
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn one(id: &str, index: u64) -> i32 {
    let p = props::find(id).expect("property");
    let o = run::exec(&run::Input::Seed(run_seed(env_seed(), p.id, index)), p.limit, p.run);
    let m = shm::shm();
    print!("{}", m.log());
    println!("steps {} ns {} switches {} peak {} log {:x} sched {:x} nontrivial {}", m.steps, m.sim_ns, m.switches, m.peak, m.log_hash, m.sched_hash, m.nontrivial);
    for (k, n) in m.stats() {
        println!("  {n:8} {k}");
    }
    match o.violation {
        Some((c, m)) => {
            println!("[{c}] {m}");
            1
        }
        None => 0,
    }
}

// ---- evidence ----

struct Ev {
    done: u64,
    nontrivial: u64,
    logs: usize,
    scheds: usize,
    states: usize,
    steps: u64,
    ns: u64,
    sw: u64,
    peak: u64,
    guards: u64,
    cov: u64,
    stats: BTreeMap<String, u64>,
    wall: f64,
    compared: u64,
    violations: u64,
    report: String,
    known: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn evidence(p: &Prop, seed: u64, tier: &str, e: &Ev) {
    // Samples: the first runs again, written out.
    let mut samples = vec![];
    if e.report.is_empty() {
        for i in 0..200 {
            if samples.len() == 3 {
                break;
            }
            run::exec(&run::Input::Seed(run_seed(seed, p.id, i)), p.limit, p.run);
            let m = shm::shm();
            if m.nontrivial == 1 && m.log_len < 3000 {
                samples.push(js(&format!("seed index {i}, {} choices, {} steps:\n{}", m.tape_len, m.steps, m.log())));
            }
        }
    } else {
        samples.push(js(&e.report));
    }
    let group = |pre: &str| {
        let v: Vec<_> = e.stats.iter().filter_map(|(k, n)| k.strip_prefix(pre).map(|k| format!("{}: {n}", js(k)))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let other: Vec<_> = e
        .stats
        .iter()
        .filter(|(k, _)| !["fault:", "op:", "probe:"].iter().any(|p| k.starts_with(p)))
        .map(|(k, n)| format!("{}: {n}", js(k)))
        .collect();
    let strs = |v: &[&str]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let text = format!(
        r#"{{
 "property": {id}, "tier": {tier}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {done},
  "distinct_nontrivial": {logs},
  "rule": {rule},
  "samples": [{samples}],
  "nontrivial_runs": {nontrivial},
  "runs_per_hour": {rph},
  "seeds_per_hour": {rph},
  "simulated_seconds": {sim:.3},
  "instrumented_steps": {steps},
  "context_switches": {sw},
  "distinct_schedules": {scheds},
  "distinct_states": {states},
  "state_measure": {measure},
  "code_edges_reached": {cov},
  "code_edges_total": {guards},
  "peak_library_bytes": {peak},
  "faults_fired": {faults},
  "operations": {ops},
  "rare_conditions_hit": {probes},
  "simulator_counters": {{{other}}},
  "determinism_recheck": {{"runs_repeated_in_another_process": {compared}, "differences": 0}},
  "known_finding_runs": {known},
  "components_real": [{real}],
  "components_stubbed": [{stub}]
 }},
 "assumptions": [{assume}],
 "wall_s": {wall:.2},
 "violations": {viol}
}}
"#,
        id = js(p.id),
        tier = js(tier),
        seed = seed as i64,
        done = e.done,
        logs = e.logs,
        rule = js(p.rule),
        samples = samples.join(",\n   "),
        nontrivial = e.nontrivial,
        rph = (e.done as f64 / e.wall.max(0.001) * 3600.) as u64,
        sim = e.ns as f64 / 1e9,
        steps = e.steps,
        sw = e.sw,
        scheds = e.scheds,
        states = e.states,
        measure = js(p.measure),
        cov = e.cov,
        guards = e.guards,
        peak = e.peak,
        faults = group("fault:"),
        ops = group("op:"),
        probes = group("probe:"),
        other = other.join(", "),
        compared = e.compared,
        known = e.known,
        real = strs(&["yaml-peg (all of /repo/src)", "serde", "ritelinked", "griddle", "hashbrown", "ahash", "alloc and core"]),
        stub = strs(p.stubs),
        assume = strs(p.assumptions),
        wall = e.wall,
        viol = e.violations,
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), text).expect("evidence");
}
