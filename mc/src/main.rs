//! Bounded exhaustive exploration of nobject-rs against reference state machines.
//!
//!   mc check ID        explore property ID (tier from VERIF_TIER), write evidence, exit 0 / 1
//!   mc replay FILE     run a recorded violation again, exit 1 if it still fails
//!
//! The other subcommands are the child processes of these.

mod alloc;
mod cost;
mod explore;
mod grammar;
mod layout;
mod monitor;
mod mtl;
mod mtlm;
mod obj;
mod objm;
mod pure;
mod relate;
mod run;
mod shared;
mod small;
mod text;
mod values;
mod whole;

use run::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

/// The exploration stops there, and says so in the evidence, however slow the machine is.
const CAP_QUICK: Duration = Duration::from_secs(600);
const CAP_THOROUGH: Duration = Duration::from_secs(3600);

fn both(mut a: Vec<Task>, b: Vec<Task>) -> Vec<Task> {
    a.extend(b);
    a
}

pub fn tasks(prop: &str, th: bool) -> Option<Vec<Task>> {
    Some(match prop {
        "P01" => text::p01(th),
        "P02" => whole::p02(th),
        "P03" => whole::p03(th),
        "P04" => text::p04(th),
        "P05" => both(obj::p05(th), small::p05(th)),
        "P06" => both(obj::p06(th), small::p06(th)),
        "P07" => both(obj::p07(th), small::p07(th)),
        "P08" => both(obj::p08(th), small::p08(th)),
        "P09" => both(obj::p09(th), small::p09(th)),
        "P10" => both(obj::p10(th), small::p10(th)),
        "P11" => both(obj::p11(th), small::p11(th)),
        "P12" => text::p12(th),
        "P13" => layout::p13(th),
        "P14" => layout::p14(th),
        "P15" => both(mtl::p15(th), small::p15(th)),
        "P16" => both(mtl::p16(th), small::p16(th)),
        "P17" => both(mtl::p17(th), small::p17(th)),
        "P18" => both(mtl::p18(th), small::p18(th)),
        "P19" => both(mtl::p19(th), small::p19(th)),
        "P20" => relate::p20(th),
        "P21" => relate::p21(th),
        "P22" => pure::p22(th),
        "P23" => cost::p23(th),
        "P24" => both(obj::p24(th), small::p24(th)),
        "P26" => values::p26(th),
        "P27" => monitor::p27(th),
        "P28" => monitor::p28(th),
        "P25" => relate::p25(th),
        _ => return None,
    })
}

// ------------------------------------------------------------------------------------- plain text records

pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b' ' | b'.' | b'_' | b'/' | b':' | b'-' | b'#' => o.push(b as char),
            _ => write!(o, "%{b:02x}").unwrap(),
        }
    }
    o
}

pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

fn fmt_name(f: Fmt) -> &'static str {
    match f {
        Fmt::Obj => "obj",
        Fmt::Mtl => "mtl",
    }
}

fn write_violation(v: &Violation) -> String {
    let docs: Vec<String> = v.docs.iter().map(|d| enc(d)).collect();
    [
        format!("kind={}", v.kind),
        format!("fmt={}", fmt_name(v.fmt)),
        format!("family={}", enc(&v.family)),
        format!("mask={}", v.mask),
        format!("docs={}", docs.join(",")),
        format!("expected={}", enc(&v.expected)),
        format!("actual={}", enc(&v.actual)),
    ]
    .join("\t")
}

fn read_violation(line: &str) -> Violation {
    let m: BTreeMap<&str, &str> = line.split(['\t', '\n']).filter_map(|x| x.split_once('=')).collect();
    let get = |k: &str| m.get(k).copied().unwrap_or("");
    Violation {
        family: dec(get("family")),
        kind: get("kind").into(),
        fmt: if get("fmt") == "mtl" { Fmt::Mtl } else { Fmt::Obj },
        docs: get("docs").split(',').map(dec).collect(),
        expected: dec(get("expected")),
        actual: dec(get("actual")),
        mask: get("mask").parse().unwrap_or(0),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        format!("{} [...]", s.chars().take(n).collect::<String>())
    } else {
        s.to_string()
    }
}

// ------------------------------------------------------------------------------------------------- worker

/// Known findings: lines "finding: property=ID case=SIGNATURE | text".
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let path = verif().join("known_findings.txt");
    let mut m = BTreeMap::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = line.strip_prefix(&format!("finding: property={prop} case=")) else { continue };
        if let Some((sig, text)) = rest.split_once(" | ") {
            m.insert(dec(sig), text.to_string());
        }
    }
    m
}

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

fn worker(prop: &str, tier: Tier, dir: &str) {
    limit_memory(AS_LIMIT);
    let tasks = tasks(prop, tier == Tier::Thorough).expect("no such property");
    quiet_panics();
    // What is only done for a logger that wants to know it all has to be total, too.
    if prop == "P01" {
        cost::listen();
    }
    let sh = Shared::new(tier, Slots::open(dir, false), known_findings(prop).into_keys().collect(), None);
    let cap = if tier == Tier::Quick { CAP_QUICK } else { CAP_THOROUGH };
    let finished = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            let t = Instant::now();
            while !finished.load(SeqCst) {
                if t.elapsed() > cap {
                    capped.store(true, SeqCst);
                    sh.stop.store(true, SeqCst);
                }
                // One that was found is enough, when the others take long.
                if t.elapsed() > Duration::from_secs(60) && !sh.violations.lock().unwrap().is_empty() {
                    sh.stop.store(true, SeqCst);
                }
                sleep_ms(20);
            }
        });
        run_tasks(&sh, &tasks);
        finished.store(true, SeqCst);
    });
    let mut out = String::new();
    let sets = sh.sets.lock().unwrap();
    writeln!(out, "docs {}", sh.docs.load(SeqCst)).unwrap();
    writeln!(out, "states {}", sets.0.len() as u64 + sh.more.0.load(SeqCst)).unwrap();
    writeln!(out, "transitions {}", sets.1.len() as u64 + sh.more.1.load(SeqCst)).unwrap();
    writeln!(out, "outcomes {}", sets.2.len()).unwrap();
    writeln!(out, "capped {}", capped.load(SeqCst) || sh.cut.load(SeqCst)).unwrap();
    for (f, n) in sh.families.lock().unwrap().iter() {
        writeln!(out, "family {n} {}", enc(f)).unwrap();
    }
    for (f, t) in sh.samples.lock().unwrap().iter() {
        writeln!(out, "sample {}", enc(&format!("{f}: {t}"))).unwrap();
    }
    for k in sh.known_seen.lock().unwrap().iter() {
        writeln!(out, "known {}", enc(k)).unwrap();
    }
    for v in sh.violations.lock().unwrap().iter() {
        writeln!(out, "violation {}", write_violation(v)).unwrap();
    }
    std::fs::write(format!("{dir}/result"), out).unwrap();
}

// ---------------------------------------------------------------------------------------- one document alone

/// Loads one document in a process of its own and says what came out, as text.
fn one(fmt: Fmt, path: &str, mask: u32) {
    limit_memory(AS_LIMIT);
    quiet_panics();
    let text = std::fs::read_to_string(path).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    // On a thread, with the stack a thread has.
    std::thread::spawn(move || tx.send(outcome(fmt, &text, mask)));
    print!("{}", rx.recv().unwrap());
}

/// What a load came back with.
pub enum Loaded {
    Obj(Result<Result<nobject_rs::Model, nobject_rs::ObjError>, String>),
    Mtl(Result<Result<Vec<nobject_rs::Material>, nobject_rs::ObjError>, String>),
}

pub fn load(fmt: Fmt, text: &str) -> Loaded {
    match fmt {
        Fmt::Obj => Loaded::Obj(call(|| nobject_rs::load_obj(text))),
        Fmt::Mtl => Loaded::Mtl(call(|| nobject_rs::load_mtl(text))),
    }
}

pub fn show(loaded: Loaded, mask: u32) -> String {
    match loaded {
        Loaded::Obj(r) => match r {
            Ok(Ok(m)) => objm::show(&objm::of_model(&m), mask),
            Ok(Err(e)) => explore::short(e),
            Err(p) => p,
        },
        Loaded::Mtl(r) => match r {
            Ok(Ok(m)) => mtlm::show(&mtlm::of_materials(&m), mask),
            Ok(Err(e)) if mtlm::is_new_material_error(&e) => "Err NewMaterial".into(),
            Ok(Err(e)) => explore::short(e),
            Err(p) => p,
        },
    }
}

pub fn outcome(fmt: Fmt, text: &str, mask: u32) -> String {
    show(load(fmt, text), mask)
}

/// Runs `one` in a child process; a crash or a hang is an outcome, too.
fn alone(fmt: Fmt, text: &str, mask: u32, dir: &str, logged: bool) -> String {
    let path = format!("{dir}/alone");
    std::fs::write(&path, text).unwrap();
    let out = format!("{dir}/alone.out");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args([if logged { "one-logged" } else { "one" }, fmt_name(fmt), &path, &mask.to_string()])
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return if st.success() { std::fs::read_to_string(&out).unwrap_or_default() } else { format!("crash: the process ended with {st}") };
        }
        if t.elapsed().as_millis() as u64 > HANG_MS {
            let _ = c.kill();
            let _ = c.wait();
            return format!("hang: no result after {} s", HANG_MS / 1000);
        }
        sleep_ms(5);
    }
}

fn is_crash(o: &str) -> bool {
    o.starts_with("panic:") || o.starts_with("crash:") || o.starts_with("hang:")
}

// -------------------------------------------------------------------------------------------------- check

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Scratch {
    let d = format!("{}/mc-{}-{}", std::env::temp_dir().display(), std::process::id(), unix_ms());
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}

fn check(prop: &str, tier: Tier) -> i32 {
    let start = Instant::now();
    let dir = scratch();
    let slots = Slots::open(&dir.0, true);
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["worker", prop, tname, &dir.0]).spawn().unwrap();
    let mut ended = None;
    let suspects: Vec<(Fmt, String, u64)> = loop {
        if let Some(st) = child.try_wait().unwrap() {
            if st.success() {
                break vec![];
            }
            ended = Some(format!("{st}"));
            break (0..WORKERS).filter_map(|w| slots.busy(w)).collect();
        }
        let late: Vec<_> = (0..WORKERS).filter_map(|w| slots.busy(w)).filter(|b| b.2 > HANG_MS).collect();
        if !late.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            ended = Some("hang".into());
            break late;
        }
        sleep_ms(50);
    };
    let mut r = BTreeMap::<String, Vec<String>>::new();
    let mut violations = vec![];
    if let Some(how) = ended {
        for (fmt, text, _) in &suspects {
            let actual = alone(*fmt, text, objm::ALL | mtlm::ALL, &dir.0, prop == "P01");
            if is_crash(&actual) {
                violations.push(Violation {
                    family: "containment".into(),
                    kind: "doc".into(),
                    fmt: *fmt,
                    docs: vec![text.clone()],
                    expected: "Ok or Err".into(),
                    actual,
                    mask: objm::ALL,
                });
                break;
            }
        }
        if violations.is_empty() {
            eprintln!("mc: the explorer ended ({how}) and no document it was loading fails alone");
            return 2;
        }
    } else {
        for line in std::fs::read_to_string(format!("{}/result", dir.0)).unwrap().lines() {
            let (k, x) = line.split_once(' ').unwrap();
            if k == "violation" {
                violations.push(read_violation(x));
            } else {
                r.entry(k.into()).or_default().push(x.to_string());
            }
        }
    }
    violations.sort_by_key(|v| v.docs.iter().map(String::len).sum::<usize>());
    let num = |k: &str| r.get(k).and_then(|v| v[0].parse::<u64>().ok()).unwrap_or(0);
    let list = |k: &str| r.get(k).cloned().unwrap_or_default();

    let known = known_findings(prop);
    let mut seen: HashSet<String> = HashSet::new();
    for k in list("known") {
        let sig = dec(&k);
        if seen.insert(sig.clone()) {
            println!("KNOWN-FINDING: property={prop} {}", known.get(&sig).cloned().unwrap_or(sig));
        }
    }
    let rdir = verif().join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    for (i, v) in violations.iter().enumerate() {
        let path = rdir.join(format!("{prop}-{i}.txt"));
        std::fs::write(&path, format!("property={prop}\n{}\n", write_violation(v).replace('\t', "\n"))).unwrap();
        println!("VIOLATION property={prop} replay={}", path.display());
        println!("  family {}, {} {}", v.family, v.kind, fmt_name(v.fmt));
        for d in &v.docs {
            println!("  document {}", clip(&format!("{d:?}"), 600));
        }
        println!("  expected {}", clip(&format!("{:?}", v.expected), 600));
        println!("  actual   {}", clip(&format!("{:?}", v.actual), 600));
    }

    let mut e = String::new();
    writeln!(e, "{{\n \"property\": {},\n \"tier\": \"{tname}\",", json(prop)).unwrap();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    writeln!(e, " \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{").unwrap();
    writeln!(e, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},", num("states"), num("transitions"), num("docs")).unwrap();
    if num("outcomes") > 0 {
        writeln!(e, "  \"distinct_outcomes\": {},", num("outcomes")).unwrap();
    }
    writeln!(e, "  \"exhaustive\": {},", violations.is_empty() && list("capped").first().is_some_and(|c| c == "false")).unwrap();
    let fams: Vec<String> = list("family").iter().map(|f| f.split_once(' ').unwrap()).map(|(n, f)| format!("   {}: {n}", json(&dec(f)))).collect();
    writeln!(e, "  \"documents_by_family\": {{\n{}\n  }},", fams.join(",\n")).unwrap();
    let samples: Vec<String> = list("sample").iter().map(|f| format!("   {}", json(&dec(f)))).collect();
    writeln!(e, "  \"samples\": [\n{}\n  ]\n }},", samples.join(",\n")).unwrap();
    writeln!(e, " \"assumptions\": [\n  \"states are those of the reference machine, told apart by a 64 bit hash; every explored history was also loaded by the code under test\",\n  \"nothing is said about documents outside the alphabets and bounds described in DESIGN.md\"\n ],").unwrap();
    writeln!(e, " \"violations\": {},\n \"wall_s\": {:.2}\n}}", violations.len(), start.elapsed().as_secs_f64()).unwrap();
    let edir = verif().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{prop}.json")), e).unwrap();
    println!(
        "{prop} {tname}: {} documents, {} states, {} transitions, {} violations, {:.1} s{}",
        num("docs"),
        num("states"),
        num("transitions"),
        violations.len(),
        start.elapsed().as_secs_f64(),
        if list("capped").first().is_some_and(|c| c == "true") { " (cut short)" } else { "" }
    );
    i32::from(!violations.is_empty())
}

fn replay(path: &str) -> i32 {
    let v = read_violation(&std::fs::read_to_string(path).unwrap());
    let dir = scratch();
    let relation = v.kind != "doc";
    let actual = if relation { still(path) } else { alone(v.fmt, &v.docs[0], v.mask, &dir.0, v.expected == "Ok or Err") };
    let ok = match v.expected.as_str() {
        _ if relation => actual == "holds",
        "Ok or Err" => !is_crash(&actual),
        "Err" => actual.starts_with("Err"),
        e => actual == e,
    };
    for d in &v.docs {
        println!("document {d:?}");
    }
    println!("expected {:?}\nactual   {:?}\n{}", v.expected, actual, if ok { "holds" } else { "violated" });
    i32::from(!ok)
}

/// What a recorded violation of a relation between loads comes to now, in a process of its own.
fn still(path: &str) -> String {
    let o = Command::new(std::env::current_exe().unwrap()).args(["again", path]).stderr(Stdio::null()).output().unwrap();
    if o.status.success() {
        String::from_utf8_lossy(&o.stdout).into_owned()
    } else {
        format!("crash: the process ended with {}", o.status)
    }
}

fn again(path: &str) -> String {
    let v = read_violation(&std::fs::read_to_string(path).unwrap());
    quiet_panics();
    match &v.kind[..] {
        "prefix" | "concat" | "first error" | "kind of error" => relate::relation(&v.kind, v.fmt, &v.docs),
        "calls" | "memory" | "growth" | "total" => monitor::relation(&v.kind, v.fmt, &v.docs[0]),
        "type" | "loaded" => values::relation(&v.kind, v.fmt, &v.docs),
        "bytes" | "work" | "work while logging" => cost::relation(&v.kind, v.fmt, &v.docs),
        _ => pure::again(&v.kind, &v.docs),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| &s[..]).collect();
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a[..] {
        ["check", p] => check(p, tier(&std::env::var("VERIF_TIER").unwrap_or_default())),
        ["worker", p, t, dir] => {
            worker(p, tier(t), dir);
            0
        },
        [how @ ("one" | "one-logged"), f, path, mask] => {
            if how == "one-logged" {
                cost::listen();
            }
            one(if f == "mtl" { Fmt::Mtl } else { Fmt::Obj }, path, mask.parse().unwrap());
            0
        },
        ["load", f, path, ref logged @ ..] => {
            cost::load(f, path, !logged.is_empty());
            0
        },
        ["pure", mode, shard, of, t] => {
            print!("{}", pure::explore(mode, shard.parse().unwrap(), of.parse().unwrap(), t == "thorough"));
            0
        },
        ["monitor", kind, space, shard, of, t, ref tell @ ..] => {
            monitor::TELL.store(!tell.is_empty(), SeqCst);
            let go = || monitor::explore(monitor::kind_of(kind), space, shard.parse().unwrap(), of.parse().unwrap(), t == "thorough");
            if kind == "total" {
                cost::listen();
                monitor::small_stack(go)
            } else {
                go()
            }
            0
        },
        ["unoptimized", f, path] => {
            quiet_panics();
            cost::listen();
            let text = std::fs::read_to_string(path).unwrap();
            let fmt = if f == "obj" { Fmt::Obj } else { Fmt::Mtl };
            monitor::small_stack(|| print!("{}", monitor::watch(monitor::Kind::Total, fmt, &text).unwrap_or("holds".into())));
            0
        },
        ["again", path] => {
            print!("{}", again(path));
            0
        },
        ["replay", path] => replay(path),
        _ => {
            eprintln!("usage: mc check ID | mc replay FILE");
            2
        },
    };
    std::process::exit(code);
}
