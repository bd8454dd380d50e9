//! Cost (P23): a document of twice as many statements asks for at most twice as much memory, and takes at most
//! twice as many instructions to load.

use crate::alloc;
use crate::run::*;
use crate::{mtl, mtlm, obj, objm};
use std::process::{Command, Stdio};

/// Wants to be told everything.
struct Listener;

impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

/// A logger that takes everything and writes it nowhere.
pub fn listen() {
    log::set_logger(&Listener).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}

/// Loads a file and nothing else (what is counted by valgrind).
pub fn load(fmt: &str, path: &str, logged: bool) {
    if logged {
        listen();
    }
    let text = std::fs::read_to_string(path).unwrap();
    if fmt == "obj" {
        std::hint::black_box(&nobject_rs::load_obj(&text).is_ok());
    } else {
        std::hint::black_box(&nobject_rs::load_mtl(&text).is_ok());
    }
}

/// Kinds of documents: a name, the format, and line number i.
#[derive(Clone)]
pub struct Kind {
    pub name: String,
    pub fmt: Fmt,
    pub head: String,
    lines: Vec<String>,
}

impl Kind {
    /// @ stands for the number of the line, % for one of 997 numbers.
    fn new(name: &str, fmt: Fmt, lines: &[&str]) -> Kind {
        let head = if fmt == Fmt::Mtl { "newmtl first\n" } else { "" };
        Kind { name: name.into(), fmt, head: head.into(), lines: lines.iter().map(|s| s.to_string()).collect() }
    }
    pub fn text(&self, n: usize) -> String {
        let mut t = self.head.clone();
        for i in 0..n {
            let l = &self.lines[i % self.lines.len()];
            t.push_str(&l.replace('@', &(1_000_000 + i).to_string()).replace('%', &(1000 + i % 997).to_string()));
            t.push('\n');
        }
        t
    }
}

fn kinds() -> Vec<Kind> {
    let mut r: Vec<Kind> = vec![];
    for s in obj::full(1) {
        r.push(Kind::new(&format!("{:?}", s.text), Fmt::Obj, &[&s.text]));
    }
    for s in mtl::full(1) {
        r.push(Kind::new(&format!("{:?}", s.text), Fmt::Mtl, &[&s.text]));
    }
    r
}

/// Documents whose lines all differ, and mixtures.
fn mixtures() -> Vec<Kind> {
    use Fmt::*;
    let o = |name: &str, l: &[&str]| Kind::new(name, Obj, l);
    let m = |name: &str, l: &[&str]| Kind::new(name, Mtl, l);
    let mut r = vec![
        o("distinct vertices", &["v @ 2 3"]),
        o("distinct normals", &["vn @ 2 3"]),
        o("distinct textures", &["vt @ 2"]),
        o("distinct faces", &["f 1 2 @"]),
        o("distinct lines", &["l 1 @"]),
        o("distinct points", &["p @"]),
        o("relative faces", &["v 1 2 3", "v 1 2 4", "v 1 2 5", "f -1 -2 -3"]),
        o("relative faces only", &["f -1/-1/-1 -2/-2/-2 -3/-3/-3"]),
        o("relative lines and points", &["v 1 2 3", "l -1 -2", "p -1"]),
        o("distinct groups", &["g g@"]),
        o("distinct groups with faces", &["g g@", "f 1 2 3"]),
        o("groups of three names", &["g a@ b@ c@", "f 1 2 3"]),
        o("two groups in turn", &["g a", "f 1 2 3", "g b", "f 1 2 3"]),
        o("distinct materials", &["usemtl m@"]),
        o("distinct groups and materials", &["g g@", "usemtl m@", "f 1 2 3"]),
        o("distinct maps", &["usemap m@"]),
        o("distinct libraries", &["mtllib l@.mtl"]),
        o("distinct texture libraries", &["maplib l@.map"]),
        o("distinct objects", &["o o@", "v 1 2 3"]),
        o("distinct smoothing groups", &["s @", "f 1 2 3"]),
        o("mesh", &["v @ 1 2", "vt 0.5 0.5", "vn 0 0 1", "f 1/1/1 2/2/2 3/3/3"]),
        o("refused at the end", &["v 1 2 3", "f 1 2 3", "g a@"]),
        o("comments", &["# a comment @", "", "v 1 2 3"]),
        o("all kinds", &[]),
        o("groups come back to", &["g g%", "f 1 2 3"]),
        o("groups come back to with materials", &["g g% h%", "usemtl m@", "f 1 2 3", "l 1 2"]),
        o("distinct groups with settings", &["g g@", "usemtl m@", "usemap t@", "s 1", "lod 3", "bevel on", "c_interp on", "d_interp off", "f 1 2 3", "p 1"]),
        o("distinct settings", &["usemtl m@", "f 1 2 3", "usemap t@", "lod 3", "lod 4", "bevel on", "bevel off"]),
        o("shadow and trace objects", &["shadow_obj s@.obj", "trace_obj t@.obj"]),
        o("trailing comments", &["\tv 1 2 3 # @", " f  1 2 3  # g g@", "   ", "#"]),
        o("other line ends", &["v 1 2 3\r", "g g@\r", "f 1 2 3\r", "\r"]),
        o("long lines", &["f 1/1/1 2/2/2 3/3/3 4/4/4 5/5/5 6/6/6 7/7/7 8/8/8 9/9/9", "l 1/1 2/2 3/3 4 5 6 7 8 9", "p 1 2 3 4 5 6 7 8 9"]),
        o("elements of a mesh in reverse", &["f @ -1 1", "v 1 2 3", "vt 1", "vn 1 2 3", "l -1 1"]),
        m("distinct materials", &["newmtl m@"]),
        m("distinct materials with colours", &["newmtl m@", "Kd 1 1 1"]),
        m("equal materials", &["newmtl m", "Ns 1"]),
        m("distinct map files", &["map_Kd f@.png"]),
        m("distinct materials with maps", &["newmtl m@", "map_Kd -o 1 1 1 f@.png"]),
        m("distinct spectral files", &["Ka spectral f@.rfl"]),
        m("comments", &["# a comment @", "", "Ns 1"]),
        m("refused at the end", &["newmtl m@", "Ns 1", "Kd 1 1 1"]),
        m("all kinds", &[]),
        m("equal names come back to", &["newmtl m%", "Kd 1 1 1", "map_Kd f%.png"]),
        m("materials with everything", &["newmtl m@", "Ka 1 1 1", "Kd 1 1 1", "Ks 1 1 1", "Tf 1 1 1", "Ns 1", "Ni 1", "d 1", "illum 2", "map_Ka a@.png", "map_Kd -s 1 1 1 d@.png", "bump -bm 1 b@.png", "refl -type sphere r@.png"]),
        m("trailing comments", &["\tNs 1 # @", " Kd 1 1 1  # newmtl g@", "   ", "#"]),
        m("other line ends", &["newmtl m@\r", "Kd 1 1 1\r", "\r"]),
    ];
    for k in &mut r {
        if k.lines.is_empty() {
            k.lines = match k.fmt {
                Obj => obj::full(1).into_iter().map(|s| s.text).collect(),
                Mtl => mtl::full(1).into_iter().map(|s| s.text).collect(),
            };
        }
    }
    r
}

/// The documents of a kind with n and with 2 n statements.
fn pair(k: &Kind, n: usize) -> [String; 2] {
    let end = if k.name.starts_with("refused") { "foo\n" } else { "" };
    [k.text(n) + end, k.text(2 * n) + end]
}

fn bytes(fmt: Fmt, text: &str) -> u64 {
    let (before, _) = alloc::counters();
    match fmt {
        Fmt::Obj => drop(std::hint::black_box(nobject_rs::load_obj(text))),
        Fmt::Mtl => drop(std::hint::black_box(nobject_rs::load_mtl(text))),
    }
    alloc::counters().0 - before
}

/// Instructions of a process that loads the text.
fn work(fmt: Fmt, text: &str, logged: bool) -> Result<u64, String> {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let i = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let path = format!("{}/mc-cost-{}-{i}", std::env::temp_dir().display(), std::process::id());
    std::fs::write(&path, text).unwrap();
    let o = Command::new("valgrind")
        .args(["--tool=callgrind", "--callgrind-out-file=/dev/null"])
        .arg(std::env::current_exe().unwrap())
        .args(["load", if fmt == Fmt::Obj { "obj" } else { "mtl" }, &path])
        .args(logged.then_some("logged"))
        .stdout(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&path);
    let o = o.map_err(|e| format!("valgrind: {e}"))?;
    let err = String::from_utf8_lossy(&o.stderr);
    let n = err.lines().find_map(|l| l.split_once("Collected : ")).and_then(|(_, n)| n.trim().parse().ok());
    match n {
        Some(n) if o.status.success() => Ok(n),
        _ => Err(format!("valgrind failed: {}", err.lines().last().unwrap_or(""))),
    }
}

/// The most that twice as many statements may take.
fn bytes_allowed(one: u64) -> u64 {
    one * 22 / 10 + 65_536
}
fn work_allowed(one: u64, none: u64) -> u64 {
    let one = one.saturating_sub(none);
    none + one * 206 / 100 + 200_000
}

pub fn relation(kind: &str, fmt: Fmt, docs: &[String]) -> String {
    let (a, b, allowed) = if kind == "bytes" {
        let (a, b) = (bytes(fmt, &docs[0]), bytes(fmt, &docs[1]));
        (a, b, bytes_allowed(a))
    } else {
        let logged = kind == "work while logging";
        let (a, b) = (work(fmt, &docs[0], logged).unwrap(), work(fmt, &docs[1], logged).unwrap());
        (a, b, work_allowed(a, work(fmt, "", logged).unwrap()))
    };
    if b <= allowed {
        "holds".into()
    } else {
        format!("{kind}: {a} for {} bytes of text, {b} for {}", docs[0].len(), docs[1].len())
    }
}

fn verdict(w: &mut W, kind: &str, k: &Kind, n: usize, docs: [String; 2], a: u64, b: u64, allowed: u64) {
    // A document measured, and a doubling.
    w.state(hash_of(&(kind, &docs[0])));
    w.state(hash_of(&(kind, &docs[1])));
    w.transition(hash_of(&(kind, &k.name, k.fmt, n)));
    if b > allowed {
        let v = Violation {
            family: format!("{}: {}", w.family, k.name),
            kind: kind.into(),
            fmt: k.fmt,
            docs: docs.to_vec(),
            expected: format!("at most {allowed} for {} statements", 2 * n),
            actual: format!("{a} for {n} statements, {b} for {}", 2 * n),
            mask: 0,
        };
        w.violation(v);
    }
}

fn traffic(family: &str, kinds: Vec<Kind>, sizes: &'static [usize]) -> Vec<Task> {
    kinds
        .into_iter()
        .map(|k| {
            task(family, move |w| {
                w.sample(&k.text(2));
                for &n in sizes {
                    let docs = pair(&k, n);
                    let mut v = vec![];
                    for d in &docs {
                        // A panic is found by other checks.
                        v.push(call(|| bytes(k.fmt, d)).unwrap_or(0));
                    }
                    w.add(2, 0, 0);
                    verdict(w, "bytes", &k, n, docs, v[0], v[1], bytes_allowed(v[0]));
                    if w.stopped() {
                        return;
                    }
                }
            })
        })
        .collect()
}

fn instructions(family: &str, kinds: Vec<Kind>, sizes: &'static [usize], logged: bool) -> Vec<Task> {
    let name = if logged { "work while logging" } else { "work" };
    kinds
        .into_iter()
        .map(|k| {
            task(family, move |w| {
                w.sample(&k.text(2));
                let none = work(k.fmt, "", logged).unwrap();
                for &n in sizes {
                    let docs = pair(&k, n);
                    let (a, b) = (work(k.fmt, &docs[0], logged).unwrap(), work(k.fmt, &docs[1], logged).unwrap());
                    w.add(2, 0, 0);
                    if std::env::var("MC_SHOW").is_ok() {
                        eprintln!("{:>8} {:>12} {:>12} {:.4} {:?} {}", n, a - none, b - none, (b - none) as f64 / (a - none) as f64, k.fmt, k.name);
                    }
                    verdict(w, name, &k, n, docs, a, b, work_allowed(a, none));
                    if w.stopped() {
                        return;
                    }
                }
            })
        })
        .collect()
}

pub fn p23(th: bool) -> Vec<Task> {
    let mut t = vec![];
    // The memory first, which takes less time.
    let sizes: &'static [usize] = if th { &[64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[64, 128, 256, 512, 1024, 2048, 4096, 8192] };
    t.extend(traffic("memory-of-one-kind", kinds(), sizes));
    t.extend(traffic("memory-of-mixtures", mixtures(), sizes));
    // Each kind in turn with each other.
    let o: Vec<objm::Stmt> = obj::kinds(1);
    let m: Vec<mtlm::Stmt> = mtl::kinds(1);
    let two = |fmt: Fmt, a: &str, b: &str| Kind::new(&format!("{a:?} and {b:?}"), fmt, &[a, b]);
    let mut pairs = vec![];
    for a in &o {
        for b in &o {
            pairs.push(two(Fmt::Obj, &a.text, &b.text));
        }
    }
    for a in &m {
        for b in &m {
            pairs.push(two(Fmt::Mtl, &a.text, &b.text));
        }
    }
    t.extend(traffic("memory-of-two-kinds", pairs, if th { &[128, 1024, 8192] } else { &[1024] }));
    let sizes: &'static [usize] = if th { &[1024, 4096, 16384, 65536] } else { &[8192] };
    t.extend(instructions("instructions-of-mixtures", mixtures(), sizes, false));
    t.extend(instructions("instructions-while-logging", mixtures(), if th { &[1024, 4096, 16384] } else { &[4096] }, true));
    t.extend(instructions("instructions-of-one-kind", kinds(), if th { &[1024, 4096, 16384] } else { &[4096] }, false));
    t
}
