//! Purity (P22): what a load returns is compared with what the same load returns in a process that has done
//! nothing else, after every history, in every interleaving, under every logger and in every place.
//!
//! A history is a path in a tree of processes: each load happens in a child forked from the process that has
//! done the loads before it, so every history is exactly what it says it is.

use crate::alloc;
use crate::objm;
use crate::run::*;
use crate::shared::{self, Access};
use crate::{dec, enc, load, mtlm, outcome, show, Loaded};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

const ALL: u32 = objm::ALL | mtlm::ALL;
/// A load that takes longer than this does not come back.
const LOAD_S: u32 = 20;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn close(fd: i32) -> i32;
}

/// What `f` says in a child process.
fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { close(fds[0]) };
        let text = f();
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(text.as_bytes());
        drop(out);
        unsafe { _exit(0) };
    }
    unsafe { close(fds[1]) };
    let mut text = vec![];
    let _ = std::io::Read::read_to_end(&mut unsafe { std::fs::File::from_raw_fd(fds[0]) }, &mut text);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    match status {
        0 => Ok(String::from_utf8_lossy(&text).into_owned()),
        14 => Err(format!("hang: no result after {LOAD_S} s")),
        s => Err(format!("crash: the process ended with status {s}")),
    }
}

type Doc = (Fmt, &'static str);

/// Documents of both formats, accepted and refused, that share lines, names, lengths and beginnings.
const DOCS: [Doc; 34] = [
    (Fmt::Obj, "v 1 2 3\nf 1 2 3\n"),
    (Fmt::Obj, "v 1 2 4\nf 1 2 3\n"),
    (Fmt::Obj, "v 1 2 3\nf 1 2 4\n"),
    (Fmt::Obj, "g a\nusemtl m\nf 1 2 3\n"),
    (Fmt::Obj, "g a\nf 1 2 3\ng b\nf 4 5 6\n"),
    (Fmt::Obj, "s 1\nf 1 2 3\ns 2\n"),
    (Fmt::Obj, "f 1 2 3\n"),
    (Fmt::Obj, "p 1\nl 1 2\n"),
    (Fmt::Obj, "s on\nf 1 2 3\n"),
    (Fmt::Obj, "g default\nbevel on\nlod 7\nusemap t\np 1\n"),
    (Fmt::Obj, "mtllib a.mtl\nmaplib a.map\nshadow_obj s.obj\ntrace_obj t.obj\n"),
    (Fmt::Obj, "v 1 2 3\nv 4 5 6\nvn 0 0 1\nvt 0.5\nf -1 -2 -1/-1\n"),
    (Fmt::Obj, "v 1 2\n"),
    (Fmt::Obj, "v 1 2 3\nfoo\n"),
    (Fmt::Obj, "g a\nf 1 2 3\ns foo\n"),
    (Fmt::Obj, "s on\ns foo\n"),
    (Fmt::Obj, ""),
    (Fmt::Obj, "d 1\n"),
    (Fmt::Obj, "o x\n# c\n\ng a b\np 1 2\n"),
    (Fmt::Mtl, "newmtl a\nKd 1 0 0\n"),
    (Fmt::Mtl, "newmtl a\nKd 0 1 0\n"),
    (Fmt::Mtl, "newmtl b\nKd 1 0 0\n"),
    (Fmt::Mtl, "newmtl a\nnewmtl a\nNs 5\n"),
    (Fmt::Mtl, "newmtl a\nmap_Kd -o 1 2 3 -clamp on f.png\n"),
    (Fmt::Mtl, "newmtl a\nmap_Kd f.png\nbump -bm 2 b.png\nrefl -type sphere r.png\n"),
    (Fmt::Mtl, "newmtl a\nbump b.png\nrefl r.png\nd -halo 0.5\nillum 2\n"),
    (Fmt::Mtl, "d 1\n"),
    (Fmt::Mtl, "newmtl a\nd 1\n"),
    (Fmt::Mtl, "newmtl a\nKd 1\n"),
    (Fmt::Mtl, "newmtl a\nfoo\n"),
    (Fmt::Mtl, "newmtl a\nKa spectral f.rfl\nKs xyz 1\nmap_aat on\n"),
    (Fmt::Mtl, ""),
    (Fmt::Mtl, "p 1\nl 1 2\n"),
    (Fmt::Mtl, "# c\n\nnewmtl m\nTf 1 1 1\nsharpness 9\nNi 1.5\nTr 1\n"),
];

/// Documents that differ in one value only, and are of the same length: by the kind of statement the value is
/// for, and by the way the value is written.
fn families() -> Vec<Vec<(Fmt, String)>> {
    let numbers = [
        ("1", "2"),
        ("12", "34"),
        ("-1", "-2"),
        ("+1", "+2"),
        ("0.5", "0.7"),
        ("-.5", "-.7"),
        ("5.", "7."),
        ("1e1", "2e1"),
        ("1.5e1", "1.5e2"),
        ("1.5E-1", "1.7E-1"),
        ("1.5e+1", "1.5e-1"),
        ("0.123456789", "0.123456781"),
        ("4294967296", "4294967297"),
        ("99999999999", "88888888888"),
    ];
    let whole = [("1", "2"), ("12", "13"), ("2147483646", "2147483647")];
    let names = [("a", "b"), ("a", "A"), ("material_one", "material_two"), ("é", "ü"), ("1", "2"), ("x.y", "x-y")];
    let switch = [("on ", "off"), ("ON ", "On ")];
    let odd = [("x", "y"), ("1.5.5", "1.5.6")];
    let (n, i, s, w, o): (&[_], &[_], &[_], &[_], &[_]) = (&numbers, &whole, &names, &switch, &odd);
    let obj: [(&str, &[(&str, &str)]); 34] = [
        ("v @ @ @\n", n),
        ("v 1 2 3 @\n", &n[..2]),
        ("vn @ 0 @\n", &n[..5]),
        ("vt @\nvt @ @\n", n),
        ("f @ @ @\n", i),
        ("f @/1/2 3//@ 4/@\n", &i[..2]),
        ("v 1 2 3\nv 1 2 3\nf -@ -@ -@\n", &i[..1]),
        ("l @ 1/@\n", i),
        ("p @ @\n", i),
        ("g @\nf 1 2 3\n", s),
        ("g x @\np 1\ng x\np 2\n", s),
        ("g @\ng y\nl 1 2\n", &s[..2]),
        ("usemtl @\n", s),
        ("g g\nusemtl @\nf 1 2 3\n", &s[..2]),
        ("usemap @\n", s),
        ("mtllib @\n", s),
        ("maplib @\n", s),
        ("shadow_obj @\n", s),
        ("trace_obj @\n", s),
        ("o @\np 1\n", s),
        ("s @\nf 1 2 3\n", i),
        ("s @\nf 1 2 3\n", &w[..1]),
        ("bevel @\n", w),
        ("c_interp @\n", w),
        ("d_interp @\n", w),
        ("lod @\n", &i[..2]),
        ("# @\nv 1 2 3\n", s),
        ("v @ 2\n", &n[..2]),
        ("v 1 2 @\n", o),
        ("f 1 2 @\n", o),
        ("s @\n", o),
        ("bevel @\n", o),
        ("foo @\n", s),
        ("lod @\n", &n[4..5]),
    ];
    let mtl: [(&str, &[(&str, &str)]); 42] = [
        ("newmtl @\n", s),
        ("newmtl @\nnewmtl @\nNs 1\n", &s[..2]),
        ("newmtl m\nKa @ @ @\n", n),
        ("newmtl m\nKd @ 1 @\n", &n[..5]),
        ("newmtl m\nKs 1 @ 1\n", &n[..5]),
        ("newmtl m\nKe 1 1 @\n", &n[..2]),
        ("newmtl m\nTf xyz @ @\n", &n[..5]),
        ("newmtl m\nKd xyz @\n", &n[..2]),
        ("newmtl m\nKd spectral @ 2\n", &s[..4]),
        ("newmtl m\nKd spectral f.rfl @\n", &n[..5]),
        ("newmtl m\nNs @\n", n),
        ("newmtl m\nNi @\n", &n[..2]),
        ("newmtl m\nTr @\n", &n[..5]),
        ("newmtl m\nsharpness @\n", &n[..5]),
        ("newmtl m\nillum @\n", i),
        ("newmtl m\nd @\n", &n[..5]),
        ("newmtl m\nd -halo @\n", &n[..5]),
        ("newmtl m\nmap_aat @\n", w),
        ("newmtl m\nmap_Ka @\nmap_Kd @\n", &s[..4]),
        ("newmtl m\nmap_Ks @\nmap_Ns @\n", &s[..2]),
        ("newmtl m\nmap_d @\ndisp @\n", &s[..2]),
        ("newmtl m\ndecal @\nbump @\n", &s[..2]),
        ("newmtl m\nrefl @\nmap_Kd @\n", &s[..2]),
        ("newmtl m\nbump -bm @ b\n", &n[..5]),
        ("newmtl m\nrefl -type @ r\n", &s[..3]),
        ("newmtl m\nmap_d -imfchan @ r\n", &s[..3]),
        ("newmtl m\nmap_Kd -mm @ @ x\n", n),
        ("newmtl m\nmap_Kd -o @ x\nmap_d -s @ @ y\n", &n[..5]),
        ("newmtl m\nmap_Kd -t @ @ @ x\n", &n[..5]),
        ("newmtl m\nmap_Kd -texres @ x\n", i),
        ("newmtl m\nmap_Kd -clamp @ x\n", w),
        ("newmtl m\nmap_Kd -cc @ -blendu @ x\n", w),
        ("newmtl m\nmap_Ns -blendv @ x\nmap_Ka -blendv on y\n", w),
        ("newmtl m\nmap_Kd -boost @ x\n", &n[..2]),
        ("# @\nnewmtl m\n", &s[..2]),
        ("newmtl m\nKd @ 1\n", &n[..2]),
        ("newmtl m\nKd 1 1 @\n", o),
        ("newmtl m\nNs @\n", o),
        ("newmtl m\nmap_aat @\n", o),
        ("Ns @\n", &n[..2]),
        ("newmtl m\nfoo @\n", &s[..2]),
        ("newmtl m\nmap_Kd -clamp @ x\n", o),
    ];
    let mut all = vec![];
    for (fmt, templates) in [(Fmt::Obj, &obj[..]), (Fmt::Mtl, &mtl[..])] {
        for (t, values) in templates {
            for (a, b) in *values {
                let mut f = vec![(fmt, t.replace('@', a)), (fmt, t.replace('@', b))];
                if t.matches('@').count() > 1 {
                    f.push((fmt, t.replacen('@', a, 1).replace('@', b)));
                }
                all.push(f);
            }
        }
    }
    all
}

fn show_doc(d: &(Fmt, String)) -> String {
    format!("{}:{}", if d.0 == Fmt::Obj { "obj" } else { "mtl" }, d.1)
}

fn read_doc(s: &str) -> (Fmt, String) {
    let (f, t) = s.split_once(':').unwrap();
    (if f == "obj" { Fmt::Obj } else { Fmt::Mtl }, t.to_string())
}

/// A load with a time limit (the process dies of it).
fn timed(fmt: Fmt, text: &str) -> String {
    unsafe { alarm(LOAD_S) };
    let o = outcome(fmt, text, ALL);
    unsafe { alarm(0) };
    o
}

/// Outcomes of single loads in fresh processes.
#[derive(Default, Clone)]
struct Base(BTreeMap<(u8, String), (String, u64)>);

impl Base {
    fn add(&mut self, d: &(Fmt, String)) {
        let key = (d.0 as u8, d.1.clone());
        if !self.0.contains_key(&key) {
            let out = in_child(|| {
                let (_, before) = alloc::counters();
                let r = timed(d.0, &d.1);
                format!("{} {r}", alloc::counters().1 - before)
            });
            let (n, r) = match &out {
                Ok(o) => o.split_once(' ').unwrap(),
                Err(e) => ("0", &e[..]),
            };
            self.0.insert(key, (r.to_string(), n.parse().unwrap()));
        }
    }
    fn of(docs: &[(Fmt, String)]) -> Base {
        let mut b = Base::default();
        docs.iter().for_each(|d| b.add(d));
        b
    }
    fn get(&self, d: &(Fmt, String)) -> &str {
        &self.0[&(d.0 as u8, d.1.clone())].0
    }
    /// How often the load asks for memory.
    fn calls(&self, d: &(Fmt, String)) -> u64 {
        self.0[&(d.0 as u8, d.1.clone())].1
    }
}

/// What one process of this exploration found, sent up as text.
#[derive(Default)]
struct Found {
    loads: u64,
    states: u64,
    transitions: u64,
    /// kind, docs, expected, actual
    bad: Vec<[String; 4]>,
    blocked: u64,
    /// How many stops of its plan each thread came to.
    stopped: [u64; 2],
    /// Pairs of loads without a common place in static memory, and with one.
    apart: u64,
    common: u64,
    /// Parts that were not explored to their bounds.
    cut: u64,
}

impl Found {
    fn text(&self) -> String {
        let mut t = format!(
            "{} {} {} {} {} {} {} {} {}\n",
            self.loads, self.states, self.transitions, self.blocked, self.stopped[0], self.stopped[1], self.apart, self.common, self.cut
        );
        for b in self.bad.iter().take(3) {
            t += &format!("{}\n", b.iter().map(|x| enc(x)).collect::<Vec<_>>().join("\t"));
        }
        t
    }
    fn add(&mut self, text: &str) {
        let mut lines = text.lines();
        let n: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
        if n.len() == 9 {
            self.loads += n[0];
            self.states += n[1];
            self.transitions += n[2];
            self.blocked += n[3];
            self.stopped = [n[4], n[5]];
            self.apart += n[6];
            self.common += n[7];
            self.cut += n[8];
        }
        for l in lines {
            let v: Vec<String> = l.split('\t').map(dec).collect();
            self.bad.push([v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()]);
        }
    }
    fn fail(&mut self, kind: &str, docs: &[(Fmt, String)], expected: &str, actual: &str) {
        let docs: Vec<String> = docs.iter().map(|d| enc(&show_doc(d))).collect();
        self.bad.push([kind.into(), docs.join(","), expected.into(), actual.into()]);
    }
    fn enough(&self) -> bool {
        self.bad.len() >= 3
    }
}

// -------------------------------------------------------------------------------- one history of each kind

/// A process that holds an earlier text at the address of the next.
static BUFFER: Mutex<String> = Mutex::new(String::new());

fn from_buffer(fmt: Fmt, text: &str) -> String {
    let mut b = BUFFER.lock().unwrap();
    if b.capacity() < 4096 {
        b.reserve(4096);
    }
    b.clear();
    b.push_str(text);
    timed(fmt, &b)
}

struct Rec {
    inner: Mutex<Option<(Fmt, String)>>,
    outcomes: Mutex<Vec<String>>,
    calls: AtomicU64,
}
thread_local! { static NESTED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

static LOGGER: Rec = Rec { inner: Mutex::new(None), outcomes: Mutex::new(Vec::new()), calls: AtomicU64::new(0) };

impl log::Log for Rec {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        self.calls.fetch_add(1, SeqCst);
        let _ = format!("{}", r.args());
        let inner = self.inner.lock().unwrap().clone();
        if let Some((f, t)) = inner {
            // A load within a load within a load is enough.
            if NESTED.get() < 2 {
                NESTED.set(NESTED.get() + 1);
                let o = outcome(f, &t, ALL);
                NESTED.set(NESTED.get() - 1);
                self.outcomes.lock().unwrap().push(o);
            }
        }
    }
    fn flush(&self) {}
}

fn install_logger(level: log::LevelFilter, inner: Option<(Fmt, String)>) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(level);
    *LOGGER.inner.lock().unwrap() = inner;
}

/// Turns of two threads: each runs until its next stop, then the other.
struct Gate {
    turn: Mutex<usize>,
    wake: Condvar,
    /// Nobody waits any more: the other thread cannot go on before this one does.
    free: AtomicBool,
    blocked: AtomicU64,
    done: [AtomicBool; 2],
    plan: Mutex<[Vec<u64>; 2]>,
}
static GATE: Gate = Gate {
    turn: Mutex::new(0),
    wake: Condvar::new(),
    free: AtomicBool::new(false),
    blocked: AtomicU64::new(0),
    done: [AtomicBool::new(false), AtomicBool::new(false)],
    plan: Mutex::new([Vec::new(), Vec::new()]),
};
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(9) }; }

fn await_turn(me: usize) {
    let mut t = GATE.turn.lock().unwrap();
    while *t != me && !GATE.free.load(SeqCst) {
        let (g, late) = GATE.wake.wait_timeout(t, Duration::from_millis(500)).unwrap();
        t = g;
        if late.timed_out() && *t != me {
            GATE.free.store(true, SeqCst);
            GATE.blocked.fetch_add(1, SeqCst);
            GATE.wake.notify_all();
        }
    }
}

fn pass_turn(me: usize) {
    let mut t = GATE.turn.lock().unwrap();
    if !GATE.done[1 - me].load(SeqCst) {
        *t = 1 - me;
        GATE.wake.notify_all();
    }
}

fn at_stop() {
    let me = ME.get();
    pass_turn(me);
    await_turn(me);
    let next = {
        let mut p = GATE.plan.lock().unwrap();
        if p[me].is_empty() { 0 } else { p[me].remove(0) }
    };
    if next > 0 && !GATE.free.load(SeqCst) {
        alloc::stop_after(next, at_stop);
    }
}

/// Two loads on two threads. `plans` are the numbers of memory requests between the stops of each thread.
fn interleaved(docs: &[(Fmt, String)], plans: [Vec<u64>; 2]) -> (Vec<String>, u64) {
    *GATE.plan.lock().unwrap() = plans;
    let results: Vec<String> = std::thread::scope(|s| {
        let h: Vec<_> = (0..2)
            .map(|me| {
                let d = docs[me].clone();
                s.spawn(move || {
                    ME.set(me);
                    await_turn(me);
                    let first = {
                        let mut p = GATE.plan.lock().unwrap();
                        if p[me].is_empty() { 0 } else { p[me].remove(0) }
                    };
                    if first > 0 {
                        alloc::stop_after(first, at_stop);
                    }
                    let o = outcome(d.0, &d.1, ALL);
                    alloc::never_stop();
                    GATE.done[me].store(true, SeqCst);
                    pass_turn(me);
                    o
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic: of a thread".into())).collect()
    });
    (results, GATE.blocked.load(SeqCst))
}

/// Loads on threads that stay, one load at a time.
fn on_threads(docs: &[(Fmt, String)], threads: &[usize]) -> Vec<String> {
    let n = threads.iter().max().unwrap() + 1;
    std::thread::scope(|s| {
        let (tx, rx) = std::sync::mpsc::channel::<String>();
        let lanes: Vec<_> = (0..n)
            .map(|_| {
                let (jobs, todo) = std::sync::mpsc::channel::<(Fmt, String)>();
                let tx = tx.clone();
                s.spawn(move || {
                    for (f, t) in todo {
                        tx.send(outcome(f, &t, ALL)).unwrap();
                    }
                });
                jobs
            })
            .collect();
        docs.iter()
            .zip(threads)
            .map(|(d, &t)| {
                lanes[t].send(d.clone()).unwrap();
                rx.recv().unwrap()
            })
            .collect()
    })
}

/// Loads that are given as parts of one larger text: what stands before and behind them is not theirs.
fn placed(d: &(Fmt, String), offset: usize, around: usize) -> String {
    let noise = ["x", "v 9 9 9\n", "newmtl zzz\n", "é", "\n# ", " 9", "\\\n"][around];
    let before: String = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef".chars().take(offset).collect();
    let text = format!("{before}{}{noise}", d.1);
    timed(d.0, &text[offset..offset + d.1.len()])
}

/// Runs one history in this process: the first step that does not load as it does alone.
fn run(kind: &str, docs: &[(Fmt, String)], base: &Base, found: &mut Found) {
    let words: Vec<&str> = kind.split(' ').collect();
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
    found.loads += docs.len() as u64;
    let outs: Vec<String> = match words[0] {
        "history" => docs.iter().map(|d| timed(d.0, &d.1)).collect(),
        "buffer" => docs.iter().map(|d| from_buffer(d.0, &d.1)).collect(),
        "threads" => {
            unsafe { alarm(LOAD_S) };
            on_threads(docs, &nums(words[1]).iter().map(|&x| x as usize).collect::<Vec<_>>())
        },
        "interleaved" => {
            unsafe { alarm(LOAD_S) };
            let (o, blocked) = interleaved(docs, [nums(words[1]), nums(words.get(2).unwrap_or(&""))]);
            found.blocked += blocked;
            o
        },
        "shared" | "shared-after" => {
            unsafe { alarm(LOAD_S) };
            let n = docs.len() - 2;
            let mut o: Vec<String> = docs[..n].iter().map(|d| timed(d.0, &d.1)).collect();
            let plan = |i: usize| -> [u64; 4] { std::array::from_fn(|k| nums(words.get(i).unwrap_or(&"")).get(k).copied().unwrap_or(0)) };
            let loads = [0, 1].map(|i| {
                let d = docs[n + i].clone();
                let b: Box<dyn FnOnce() -> Loaded + Send> = Box::new(move || load(d.0, &d.1));
                b
            });
            let (r, turns) = shared::interleave(loads, [plan(1), plan(2)]);
            found.blocked += turns.blocked.load(SeqCst);
            found.stopped = [turns.stops[0].load(SeqCst), turns.stops[1].load(SeqCst)];
            o.extend(r.into_iter().map(|r| r.map_or("panic: of a thread".into(), |l| show(l, ALL))));
            o
        },
        "placed" => docs.iter().map(|d| placed(d, words[1].parse().unwrap(), words[2].parse().unwrap())).collect(),
        "repeated" => {
            // The last document after so many loads of the ones before it.
            let n: u64 = words[1].parse().unwrap();
            let mut last = vec![];
            for i in 0..n {
                last = docs[..docs.len() - 1].iter().map(|d| timed(d.0, &d.1)).collect::<Vec<_>>();
                found.loads += last.len() as u64;
                if i > 0 && docs.iter().zip(&last).any(|(d, o)| base.get(d) != o) {
                    break;
                }
            }
            last.push(timed(docs.last().unwrap().0, &docs.last().unwrap().1));
            last
        },
        "logger" => {
            // The first document is loaded by the logger, if there is one.
            let level = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Trace][words[1].parse::<usize>().unwrap()];
            let nested = words[2] == "1";
            install_logger(level, nested.then(|| docs[0].clone()));
            let mut o: Vec<String> = vec![];
            for d in &docs[1..] {
                LOGGER.outcomes.lock().unwrap().clear();
                o.push(timed(d.0, &d.1));
                for i in LOGGER.outcomes.lock().unwrap().iter() {
                    found.loads += 1;
                    if i != base.get(&docs[0]) {
                        found.fail(kind, docs, base.get(&docs[0]), &format!("within the logger: {i}"));
                    }
                }
            }
            o.insert(0, base.get(&docs[0]).to_string());
            o
        },
        "panicked" => {
            // A load of every document, each on a stack of its own that ends with a panic.
            for d in &docs[..docs.len() - 1] {
                let d = d.clone();
                let _ = std::thread::spawn(move || {
                    let _o = outcome(d.0, &d.1, ALL);
                    panic!("as planned");
                })
                .join();
            }
            let last = docs.last().unwrap();
            let mut o: Vec<String> = docs[..docs.len() - 1].iter().map(|d| base.get(d).to_string()).collect();
            o.push(timed(last.0, &last.1));
            o
        },
        k => panic!("unknown history {k}"),
    };
    unsafe { alarm(0) };
    for (i, o) in outs.iter().enumerate() {
        if o != base.get(&docs[i]) {
            found.fail(kind, docs, base.get(&docs[i]), &format!("load {} of {}: {o}", i + 1, docs.len()));
            return;
        }
    }
}

/// As `run`, in a process of its own.
fn run_apart(kind: &str, docs: &[(Fmt, String)], base: &Base, found: &mut Found) {
    let r = in_child(|| {
        let mut f = Found { states: 1, transitions: docs.len() as u64, ..Default::default() };
        run(kind, docs, base, &mut f);
        f.text()
    });
    match r {
        Ok(t) => found.add(&t),
        Err(e) => found.fail(kind, docs, "Ok or Err", &e),
    }
}

/// Says whether a recorded violation is still there.
pub fn again(kind: &str, docs: &[String]) -> String {
    let docs: Vec<_> = docs.iter().map(|d| read_doc(d)).collect();
    let base = Base::of(&docs);
    let mut f = Found::default();
    if let Some(rest) = kind.strip_prefix("environment ") {
        let o = elsewhere(rest.parse().unwrap(), &docs[0]);
        return if o == base.get(&docs[0]) { "holds".into() } else { o };
    }
    run_apart(kind, &docs, &base, &mut f);
    f.bad.first().map_or("holds".into(), |b| b[3].clone())
}

// ---------------------------------------------------------------------------------------------- environments

const ENVIRONMENTS: usize = 9;

/// The same load in another place: other variables, other directories, other files, other input.
fn elsewhere(which: usize, d: &(Fmt, String)) -> String {
    let dir = format!("{}/mc-env-{}-{}-{which}", std::env::temp_dir().display(), std::process::id(), unix_ms());
    let sub = format!("{dir}/cwd");
    std::fs::create_dir_all(&sub).unwrap();
    let path = format!("{dir}/doc");
    std::fs::write(&path, &d.1).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["one", if d.0 == Fmt::Obj { "obj" } else { "mtl" }, &path, &ALL.to_string()]).stdin(Stdio::null()).stderr(Stdio::null());
    match which {
        0 => {
            c.env_clear();
        },
        1 => {
            c.env("LANG", "de_DE.UTF-8").env("LC_ALL", "de_DE.UTF-8").env("LC_NUMERIC", "de_DE.UTF-8").env("TZ", "Asia/Tokyo");
        },
        2 => {
            c.env("LC_ALL", "tr_TR.UTF-8").env("LANG", "tr_TR.UTF-8");
        },
        3 => {
            c.env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full").env("DEBUG", "1").env("VERBOSE", "1");
        },
        4 => {
            c.current_dir("/");
        },
        5 => {
            // The files a document names are there.
            for (n, t) in [("a.mtl", "newmtl other\nKd 9 9 9\n"), ("a.map", "x"), ("s.obj", "v 9 9 9\n"), ("t.obj", "v 9 9 9\n"), ("f.png", "x"), ("b.png", "x"), ("r.png", "x"), ("f.rfl", "x"), ("m", "x"), ("t", "x")] {
                std::fs::write(format!("{sub}/{n}"), t).unwrap();
            }
            c.current_dir(&sub);
        },
        6 => {
            c.current_dir(&sub).env("HOME", &sub).env("TMPDIR", &sub).env("PWD", "/nowhere");
        },
        7 => {
            c.stdin(std::fs::File::open(&path).unwrap());
        },
        _ => {
            c.env("MALLOC_PERTURB_", "165").env("RUST_MIN_STACK", "1048576").env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0");
        },
    }
    let o = c.output().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if o.status.success() {
        String::from_utf8_lossy(&o.stdout).into_owned()
    } else {
        format!("crash: {}", o.status)
    }
}

// ------------------------------------------------------------------------------------------------- explorers

/// All histories below the ones so far, as a tree of processes.
fn tree(kind: &str, docs: &[(Fmt, String)], path: &mut Vec<(Fmt, String)>, depth: usize, base: &Base, only: Option<(usize, usize)>) -> Found {
    let mut f = Found::default();
    for (i, d) in docs.iter().enumerate() {
        if f.enough() {
            break;
        }
        if only.is_some_and(|(shard, n)| i % n != shard) {
            continue;
        }
        path.push(d.clone());
        let r = in_child(|| {
            let mut g = Found { loads: 1, states: 1, transitions: 1, ..Default::default() };
            let o = if kind == "buffer" { from_buffer(d.0, &d.1) } else { timed(d.0, &d.1) };
            if o != base.get(d) {
                g.fail(kind, path, base.get(d), &format!("load {} of {}: {o}", path.len(), path.len()));
            } else if depth > 1 {
                let below = tree(kind, docs, path, depth - 1, base, None);
                g.add(&below.text());
            }
            g.text()
        });
        match r {
            Ok(t) => f.add(&t),
            Err(e) => f.fail(kind, path, "Ok or Err", &e),
        }
        path.pop();
    }
    f
}

fn own(docs: &[Doc]) -> Vec<(Fmt, String)> {
    docs.iter().map(|d| (d.0, d.1.to_string())).collect()
}

/// Documents of one length, most of them different in one place only.
fn of_one_length() -> Vec<(Fmt, String)> {
    let mut v = own(&DOCS);
    v.retain(|d| !d.1.is_empty() && d.1.len() <= 40);
    for t in ["g a\nf 1 2 3\nf 1 2 3\n", "g b\nf 1 2 3\nf 1 2 3\n", "g a\nf 1 2 3\nf 1 2 9\n", "g a\nf 1 2 x\nf 1 2 3\n"] {
        v.push((Fmt::Obj, t.into()));
    }
    for d in &mut v {
        while d.1.len() < 41 {
            d.1.push('\n');
        }
    }
    v
}

type Places = BTreeSet<Access>;

/// Where a load accesses static memory, and how often, after others.
fn footprint(before: &[(Fmt, String)], d: &(Fmt, String)) -> (Places, u64) {
    let out = in_child(|| {
        before.iter().for_each(|d| drop(timed(d.0, &d.1)));
        unsafe { alarm(LOAD_S) };
        let (r, accesses) = shared::trace(|| load(d.0, &d.1));
        unsafe { alarm(0) };
        drop(r);
        let places: Places = accesses.iter().copied().collect();
        let mut t = format!("{}", accesses.len());
        for p in places {
            t += &format!(" {}:{}", p.addr, p.write as u8);
        }
        t
    });
    let out = out.unwrap_or_default();
    let mut w = out.split(' ');
    let n = w.next().and_then(|n| n.parse().ok()).unwrap_or(0);
    let places = w.filter_map(|p| p.split_once(':').map(|(a, b)| Access { addr: a.parse().unwrap(), write: b == "1" })).collect();
    (places, n)
}

/// Whether one writes what the other reads or writes.
fn meet(a: &Places, b: &Places) -> bool {
    let has = |s: &Places, addr: usize| s.range(Access { addr, write: false }..=Access { addr, write: true }).next().is_some();
    a.iter().any(|p| p.write && has(b, p.addr)) || b.iter().any(|p| p.write && has(a, p.addr))
}

/// The schedules of the last two loads with one stop, at an access up to `far.0`, and with two, at accesses up to
/// `far.1` of either, and some with three; apart from those up to `done`.
fn stops(docs: &[(Fmt, String)], done: (u64, u64), far: (u64, u64), base: &Base, left: &mut u64, f: &mut Found) {
    let kind = if docs.len() > 2 { "shared-after" } else { "shared" };
    let mut go = |f: &mut Found, plan: String| {
        if *left == 0 || f.enough() || f.blocked > 64 {
            return None;
        }
        *left -= 1;
        f.stopped = [0, 0];
        run_apart(&format!("{kind} {plan}"), docs, base, f);
        Some(f.stopped)
    };
    for k in done.0 + 1..=far.0 {
        match go(f, format!("{k}")) {
            None => return,
            Some([0, _]) => break,
            _ => {},
        }
    }
    for k in 1..=far.1 {
        for l in 1..=far.1 {
            if k <= done.1 && l <= done.1 {
                continue;
            }
            match go(f, format!("{k} {l}")) {
                None => return,
                Some([_, 0]) => break,
                _ => {},
            }
            for m in k + 1..=far.1.min(12) {
                if go(f, format!("{k},{m} {l}")).is_none() {
                    return;
                }
            }
        }
    }
}

/// Sequences of thread numbers of length n, the first use of each in order.
fn lanes(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                let m = v.iter().max().map_or(0, |m| m + 1).min(2);
                (0..=m).map(move |t| [&v[..], &[t]].concat())
            })
            .collect();
    }
    r
}

fn each_sequence(docs: &[(Fmt, String)], n: usize, mut f: impl FnMut(&[(Fmt, String)])) {
    crate::obj::power(docs.len(), n, |c| {
        f(&c.iter().map(|&i| docs[i].clone()).collect::<Vec<_>>());
        true
    });
}

/// One part of the exploration, in a process without threads.
pub fn explore(mode: &str, shard: usize, of: usize, th: bool) -> String {
    limit_memory(AS_LIMIT);
    quiet_panics();
    let docs = own(&DOCS);
    let few: Vec<_> = [0, 3, 5, 8, 10, 12, 15, 19, 23, 26, 28].map(|i| docs[i].clone()).to_vec();
    let mut f = Found::default();
    let mut turn = 0;
    let mut mine = || {
        turn += 1;
        turn % of == shard
    };
    match mode {
        "histories" => {
            let base = Base::of(&docs);
            f = tree("history", &docs, &mut vec![], if th { 4 } else { 3 }, &base, Some((shard, of)));
            let t = tree("history", &few, &mut vec![], if th { 5 } else { 4 }, &base, Some((shard, of)));
            f.add(&t.text());
        },
        "one buffer" => {
            let docs = of_one_length();
            let base = Base::of(&docs);
            f = tree("buffer", &docs, &mut vec![], if th { 4 } else { 3 }, &base, Some((shard, of)));
        },
        "repeated" => {
            let base = Base::of(&docs);
            for (i, a) in docs.iter().enumerate() {
                for b in &docs {
                    if mine() && !f.enough() {
                        for n in [2, 16, 257] {
                            run_apart(&format!("repeated {n}"), &[a.clone(), b.clone()], &base, &mut f);
                        }
                    }
                }
                // Counters of 16 bits.
                if mine() && !f.enough() {
                    let n = match (th, i) {
                        (true, 0 | 12 | 19 | 29) => 300_000,
                        (true, _) | (_, 0 | 12 | 19 | 29) => 70_001,
                        _ => 5_000,
                    };
                    run_apart(&format!("repeated {n}"), &[a.clone(), few[1].clone()], &base, &mut f);
                    run_apart(&format!("repeated {n}"), &[a.clone(), few[7].clone(), few[8].clone()], &base, &mut f);
                }
            }
            // Many documents, none twice.
            for n in [64usize, 300, 1100, 5000] {
                if mine() {
                    let many: Vec<(Fmt, String)> =
                        (0..n).map(|i| if i % 2 == 0 { (Fmt::Obj, format!("g n{i}\nusemtl m{i}\nv {i} 0 0\nf 1 2 3\n")) } else { (Fmt::Mtl, format!("newmtl n{i}\nNs {i}\n")) }).collect();
                    let base = Base::of(&docs);
                    let r = in_child(|| {
                        let mut g = Found { loads: n as u64, states: 1, transitions: n as u64, ..Default::default() };
                        for d in &many {
                            timed(d.0, &d.1);
                        }
                        for d in &docs {
                            let o = timed(d.0, &d.1);
                            if o != base.get(d) {
                                g.fail("history", &[&many[..], std::slice::from_ref(d)].concat(), base.get(d), &o);
                                break;
                            }
                        }
                        g.text()
                    });
                    match r {
                        Ok(t) => f.add(&t),
                        Err(e) => f.fail("history", &many, "Ok or Err", &e),
                    }
                }
            }
        },
        "placed" => {
            let base = Base::of(&docs);
            for d in &docs {
                for offset in 0..=17 {
                    for around in 0..7 {
                        if mine() && !f.enough() {
                            run_apart(&format!("placed {offset} {around}"), std::slice::from_ref(d), &base, &mut f);
                        }
                    }
                }
            }
        },
        "threads" => {
            let base = Base::of(&docs);
            for n in 2..=if th { 4 } else { 3 } {
                for lane in lanes(n) {
                    let kind = format!("threads {}", lane.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    each_sequence(if n == 2 { &docs } else { &few }, n, |c| {
                        if mine() && !f.enough() {
                            run_apart(&kind, c, &base, &mut f);
                        }
                    });
                }
            }
        },
        "panicked" => {
            let base = Base::of(&docs);
            each_sequence(&docs, 2, |c| {
                if mine() && !f.enough() {
                    run_apart("panicked", c, &base, &mut f);
                }
            });
        },
        "logger" => {
            let base = Base::of(&docs);
            for level in 0..3 {
                each_sequence(&docs, 2, |c| {
                    if mine() && !f.enough() {
                        let mut x = vec![docs[0].clone()];
                        x.extend_from_slice(c);
                        run_apart(&format!("logger {level} 0"), &x, &base, &mut f);
                    }
                });
                // Each document loaded by the logger, while those that log are loaded.
                let loud: Vec<_> = docs.iter().filter(|d| d.1.contains("s on")).cloned().collect();
                for inner in &docs {
                    for a in &loud {
                        for b in if th { &docs } else { &few } {
                            if mine() && !f.enough() {
                                run_apart(&format!("logger {level} 1"), &[inner.clone(), a.clone(), b.clone()], &base, &mut f);
                            }
                        }
                    }
                }
            }
        },
        "interleaved" => {
            let base = Base::of(&docs);
            // One stop of the first thread, everywhere.
            let some: Vec<_> = if th { docs.clone() } else { few.clone() };
            for a in &some {
                for b in &some {
                    for k in 1..=base.calls(a) {
                        if mine() && !f.enough() && f.blocked < 64 {
                            run_apart(&format!("interleaved {k}"), &[a.clone(), b.clone()], &base, &mut f);
                        }
                    }
                }
            }
            // Two stops: of the first, then of the second.
            let short: Vec<(Fmt, String)> = vec![
                (Fmt::Obj, "g a\np 1\n".into()),
                (Fmt::Obj, "s on\n".into()),
                (Fmt::Obj, "v 1 2\n".into()),
                (Fmt::Mtl, "newmtl a\nNs 1\n".into()),
                (Fmt::Mtl, "newmtl b\nd 1\n".into()),
                (Fmt::Mtl, "d 1\n".into()),
            ];
            let base = Base::of(&short);
            for (i, a) in short.iter().enumerate() {
                for (j, b) in short.iter().enumerate() {
                    // In the quick check, each with itself and its neighbour.
                    if !th && (j + 6 - i) % 6 > 1 {
                        continue;
                    }
                    let (n, m) = (base.calls(a), base.calls(b));
                    let step = if th { 1 } else { 3 };
                    for k in (1..=n).step_by(step) {
                        for l in (1..=m).step_by(step) {
                            if mine() && !f.enough() && f.blocked < 64 {
                                run_apart(&format!("interleaved {k} {l}"), &[a.clone(), b.clone()], &base, &mut f);
                            }
                        }
                    }
                }
            }
        },
        "variants" => {
            let all: Vec<_> = families().concat();
            let base = Base::of(&all);
            // One of each kind after one of each kind; and all of one kind after one another, below.
            let firsts: Vec<_> = if th { all.clone() } else { families().iter().map(|f| f[0].clone()).collect() };
            for kind in ["history", "buffer"] {
                let t = tree(kind, &firsts, &mut vec![], 2, &base, Some((shard, of)));
                f.add(&t.text());
            }
            for family in families() {
                if !mine() || f.enough() {
                    continue;
                }
                for kind in ["history", "buffer"] {
                    let t = tree(kind, &family, &mut vec![], if th { 5 } else { 3 }, &base, None);
                    f.add(&t.text());
                }
                for kind in ["threads 0,1", "threads 0,1,0"] {
                    each_sequence(&family, kind.len() / 2 - 3, |c| run_apart(kind, c, &base, &mut f));
                }
                for a in &family {
                    for offset in if th { 0..=17 } else { 0..=3 } {
                        for around in 0..7 {
                            run_apart(&format!("placed {offset} {around}"), std::slice::from_ref(a), &base, &mut f);
                        }
                    }
                    for b in &family {
                        for k in 1..=base.calls(a) {
                            if !f.enough() && f.blocked < 64 {
                                run_apart(&format!("interleaved {k}"), &[a.clone(), b.clone()], &base, &mut f);
                            }
                        }
                    }
                }
            }
        },
        "shared" => {
            let mut families = families();
            families.insert(0, few.clone());
            families.insert(1, docs.clone());
            let mut all = families.concat();
            all.sort_by(|a, b| (a.0 as u8, &a.1).cmp(&(b.0 as u8, &b.1)));
            all.dedup();
            let base = Base::of(&all);
            let cold: BTreeMap<_, _> = all.iter().map(|d| (show_doc(d), footprint(&[], d))).collect();
            f.states += all.len() as u64;
            // Nearby stops of all pairs first, then those further on, as far as the number of schedules allows.
            let mut left = if th { 400_000 } else { 3_000 };
            let mut pairs = vec![];
            for (i, family) in families.iter().enumerate() {
                for a in family {
                    let warm = |d: &(Fmt, String)| footprint(std::slice::from_ref(a), d).0;
                    for b in family {
                        if !mine() {
                            continue;
                        }
                        if meet(&cold[&show_doc(a)].0, &cold[&show_doc(b)].0) {
                            pairs.push(vec![a.clone(), b.clone()]);
                        }
                        // After a load of one of them.
                        if i > 0 && meet(&warm(a), &warm(b)) {
                            pairs.push(vec![a.clone(), a.clone(), b.clone()]);
                            pairs.push(vec![a.clone(), b.clone(), a.clone()]);
                        }
                    }
                }
            }
            let mut before = (0, 0);
            for far in [(6, 2), (12, 6), (60, 12), (400, 24), (4000, 120)] {
                for p in &pairs {
                    stops(p, before, far, &base, &mut left, &mut f);
                }
                before = far;
            }
            if left == 0 && !f.enough() {
                f.cut += 1;
            }
            // How many of all pairs can matter to one another at all.
            if shard == 0 {
                (f.apart, f.common) = (0, 0);
                for a in &all {
                    for b in &all {
                        match meet(&cold[&show_doc(a)].0, &cold[&show_doc(b)].0) {
                            true => f.common += 1,
                            false => f.apart += 1,
                        }
                    }
                }
            }
        },
        "environments" => {
            let base = Base::of(&docs);
            for d in &docs {
                for e in 0..ENVIRONMENTS {
                    if mine() && !f.enough() {
                        f.loads += 1;
                        f.states += 1;
                        f.transitions += 1;
                        let o = elsewhere(e, d);
                        if o != base.get(d) {
                            f.fail(&format!("environment {e}"), std::slice::from_ref(d), base.get(d), &o);
                        }
                    }
                }
            }
        },
        m => panic!("unknown part {m}"),
    }
    f.text()
}

pub fn p22(th: bool) -> Vec<Task> {
    let mut t = vec![];
    for (mode, shards) in [
        ("interleaved", 16),
        ("shared", 16),
        ("variants", 16),
        ("histories", 17),
        ("one buffer", 11),
        ("repeated", 8),
        ("threads", 8),
        ("logger", 8),
        ("panicked", 4),
        ("placed", 4),
        ("environments", 4),
    ] {
        for shard in 0..shards {
            t.push(task(mode, move |w| {
                let out = Command::new(std::env::current_exe().unwrap())
                    .args(["pure", mode, &shard.to_string(), &shards.to_string(), if th { "thorough" } else { "quick" }])
                    .stderr(Stdio::inherit())
                    .output()
                    .unwrap();
                assert!(out.status.success(), "the explorer of {mode} failed");
                let mut f = Found::default();
                f.add(&String::from_utf8_lossy(&out.stdout));
                w.add(f.loads, f.states, f.transitions);
                if mode != "shared" {
                    w.sample(&format!("{} histories", f.states));
                }
                if f.cut > 0 {
                    w.cut_short();
                }
                if shard == 0 && f.apart + f.common > 0 {
                    w.sample(&format!("{} pairs of loads without a common place in static memory, {} with", f.apart, f.common));
                }
                for b in f.bad {
                    let v = Violation {
                        family: w.family.clone(),
                        kind: b[0].clone(),
                        fmt: Fmt::Obj,
                        docs: b[1].split(',').map(dec).collect(),
                        expected: b[2].clone(),
                        actual: b[3].clone(),
                        mask: 0,
                    };
                    w.violation(v);
                }
            }));
        }
    }
    t
}
