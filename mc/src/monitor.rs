//! Monitors: the explorations of other properties again, each load watched for what it does besides returning a
//! result. P27: calls of the operating system other than for memory. P28: memory that stays in use.
//!
//! The explorations run in processes with one thread each.

use crate::alloc;
use crate::explore::*;
use crate::obj::power;
use crate::run::*;
use crate::{dec, enc, mtl, obj, whole};
use nobject_rs::{load_mtl, load_obj};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Calls,
    Memory,
    /// Whether it returns, in code that is not optimized (P01).
    Total,
}

// ------------------------------------------------------------------------------------------- system calls

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Op {
    code: u16,
    yes: u8,
    no: u8,
    k: u32,
}
#[repr(C)]
struct Program {
    len: u16,
    ops: *const Op,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn prctl(what: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

/// The file the findings go to.
const REPORT: i32 = 777;
/// The number of the last call that was refused.
static CALLED: AtomicI64 = AtomicI64::new(-1);
/// Each document goes to REPORT before it is loaded. (A refused call ends the process if signals are blocked at that
/// point, as they are where a thread or a process is started.)
pub static TELL: AtomicBool = AtomicBool::new(false);

extern "C" fn on_call(_: i32, info: *const u8, context: *mut u8) {
    unsafe {
        // si_syscall; the call fails with EPERM.
        CALLED.store(*(info.add(24) as *const i32) as i64, SeqCst);
        *(context.add(40) as *mut i64).add(13) = -1;
    }
}

/// From now on this thread can ask for memory, and write to REPORT. Everything else is noted and fails.
fn refuse_calls() {
    const LOAD: u16 = 0x20;
    const EQ: u16 = 0x15;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    let op = |code, yes, no, k| Op { code, yes, no, k };
    // brk, munmap, mremap, madvise, mprotect, futex, rt_sigreturn, rt_sigprocmask, sigaltstack, sched_yield,
    // getrandom (the keys of hash maps), clock_gettime, exit_group, exit.
    let free = [12, 11, 25, 28, 10, 202, 15, 14, 131, 24, 318, 228, 231, 60];
    let mut ops = vec![op(LOAD, 0, 0, 0)];
    for c in free {
        ops.push(op(EQ, 0, 1, c));
        ops.push(op(RET, 0, 0, ALLOW));
    }
    // mmap without a file.
    ops.extend([op(EQ, 0, 3, 9), op(LOAD, 0, 0, 16 + 8 * 4), op(EQ, 0, 4, u32::MAX), op(RET, 0, 0, ALLOW)]);
    ops.extend([op(EQ, 0, 2, 1), op(LOAD, 0, 0, 16), op(EQ, 1, 0, REPORT as u32), op(RET, 0, 0, TRAP), op(RET, 0, 0, ALLOW)]);
    let a = SigAction { handler: on_call as *const () as usize, mask: [0; 16], flags: 0x4000_0004u32 as i32, restorer: 0 };
    let p = Program { len: ops.len() as u16, ops: ops.as_ptr() };
    unsafe {
        assert_eq!(sigaction(31, &a, std::ptr::null_mut()), 0);
        assert_eq!(prctl(38 /* PR_SET_NO_NEW_PRIVS */, 1, 0, 0, 0), 0);
        assert_eq!(prctl(22 /* PR_SET_SECCOMP */, 2, &p as *const Program as usize, 0, 0), 0, "no system call filter");
    }
}

fn name_of(call: i64) -> String {
    let known = [
        (0, "read"),
        (1, "write"),
        (2, "open"),
        (3, "close"),
        (4, "stat"),
        (5, "fstat"),
        (6, "lstat"),
        (9, "mmap of a file"),
        (21, "access"),
        (35, "nanosleep"),
        (41, "socket"),
        (56, "clone"),
        (57, "fork"),
        (79, "getcwd"),
        (230, "clock_nanosleep"),
        (257, "openat"),
        (262, "newfstatat"),
        (332, "statx"),
        (435, "clone3"),
    ];
    known.iter().find(|k| k.0 == call).map_or(format!("system call {call}"), |k| k.1.to_string())
}

// -------------------------------------------------------------------------------------------------- watching

fn load_once(fmt: Fmt, text: &str) -> Result<(), String> {
    call(|| match fmt {
        Fmt::Obj => drop(load_obj(text)),
        Fmt::Mtl => drop(load_mtl(text)),
    })
}

/// One load, and what is wrong with it.
pub fn watch(kind: Kind, fmt: Fmt, text: &str) -> Option<String> {
    if TELL.load(Relaxed) {
        let line = format!("{}\t{}\n", if fmt == Fmt::Obj { "obj" } else { "mtl" }, enc(text));
        unsafe { write(REPORT, line.as_ptr().cast(), line.len()) };
    }
    match kind {
        Kind::Total => load_once(fmt, text).err(),
        Kind::Calls => {
            CALLED.store(-1, SeqCst);
            let _ = load_once(fmt, text);
            match CALLED.load(SeqCst) {
                -1 => None,
                n => Some(format!("calls {}", name_of(n))),
            }
        },
        Kind::Memory => {
            // What is made once, or replaced, is no growth.
            let mut before = alloc::in_use();
            let mut grown = vec![];
            for _ in 0..5 {
                let _ = load_once(fmt, text);
                let now = alloc::in_use();
                if now <= before {
                    return None;
                }
                grown.push(now - before);
                before = now;
            }
            Some(format!("{grown:?} bytes stay in use"))
        },
    }
}

/// More and more documents, no two alike: the memory in use after all, less that after the first half.
fn growth(fmt: Fmt, docs: &dyn Fn(usize) -> String, n: usize) -> Option<String> {
    let mut half = 0;
    for i in 0..n {
        if i == n / 2 {
            half = alloc::in_use();
        }
        let d = docs(i);
        let _ = load_once(fmt, &d);
    }
    let grown = alloc::in_use() - half;
    (grown >= (n / 2) as i64).then(|| format!("{grown} bytes more in use after {} more documents", n - n / 2))
}

fn templates(fmt: Fmt) -> &'static [&'static str] {
    match fmt {
        Fmt::Obj => &[
            "v @ 2 3\n",
            "v 0.@ 1e@ -@\n",
            "vn @ 0 1\n",
            "vt @\n",
            "f @ 1 2\n",
            "l @/1 2\n",
            "p @\n",
            "g g@\n",
            "g g@ h@ i@\n",
            "g g@\nf 1 2 3\n",
            "usemtl m@\n",
            "usemap m@\n",
            "mtllib m@\n",
            "maplib m@\n",
            "shadow_obj m@\n",
            "trace_obj m@\n",
            "o m@\n",
            "o a long name of an object @\n",
            "o m@.obj\n",
            "o m.@\n",
            "o m_@_Mesh\n",
            "usemtl m@.001\n",
            "usemtl M:m @ (x)\n",
            "usemap m@.png\n",
            "mtllib dir/m@.mtl\n",
            "maplib m@.map\n",
            "shadow_obj ./m@.obj\n",
            "trace_obj m@.obj\n",
            "g g.@ h_@ -@\n",
            "usemap m@.png\nusemap off\n",
            "f 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 x@\n",
            "usemtl a\nfoo a statement which nobody knows, with a long text behind it, so that the error which tells of it is a long one, too @\n",
            "v 1 2 3 4 5 6 7 8 9 @\n",
            "lod 300@\n",
            "bevel on@\n",
            "f @/@/@/@ 1 2\n",
            "s @\n",
            "# @\n",
            "foo@\n",
            "v @ x\n",
            "s x@\n",
            "lod @\n",
            "v 1 2 3\ng g@\nv 1 2\n",
        ],
        Fmt::Mtl => &[
            "newmtl m@\n",
            "newmtl m@\nKd 1 1 1\n",
            "newmtl m\nKd @ 0.@ 1\n",
            "newmtl m\nKa spectral f@.rfl\n",
            "newmtl m\nNs @\n",
            "newmtl m\nd 0.@\n",
            "newmtl m\nd -halo 0.@\n",
            "newmtl m\nmap_Kd f@.png\n",
            "newmtl m\nmap_d -imfchan c@ f.png\n",
            "newmtl m\nrefl -type t@ f.png\n",
            "newmtl m\nbump -bm @ f@.png\n",
            "newmtl m\ndisp -clamp on f@.png\n",
            "newmtl m\nmap_Kd -o @ -texres @ f.png\n",
            "newmtl m\nillum @\n",
            "newmtl m\nfoo@\n",
            "newmtl m.@\n",
            "newmtl m@.001\nmap_Ks dir/f@.png\n",
            "newmtl m\nmap_Ka f.png\nmap_Ka f@.png\n",
            "newmtl m\nrefl -type sphere f@.png\n",
            "newmtl m\nrefl -type t@.x f.png\n",
            "newmtl m\ndecal -imfchan @.x f.png\n",
            "newmtl m\nbump f.png -texres 1 -o 1 2 3 -s 1 2 3 -t 1 2 3 -mm 0 1 -clamp on -blendu on -blendv off -imfchan m -bm 1 -boost 3 x@ y\n",
            "newmtl m\nfoo a statement which nobody knows, with a long text behind it, so that the error which tells of it is a long one, too @\n",
            "newmtl m\nmap_aat on@\n",
            "newmtl m\nillum 99999999999@\n",
            "newmtl m\nKd 1 2 3 4 5 6 7 8 9 @\n",
            "newmtl m\nmap_Kd -clamp on -clamp off -o 1 -o @ f.png\n",
            "newmtl m@\nKd x\n",
            "Ns @\n",
            "# @\n",
        ],
    }
}

/// What is loaded again and again with other names and numbers for each @, and how often.
fn distinct(th: bool) -> Vec<(Fmt, String, usize)> {
    let times = if th { 10 } else { 1 };
    let mut r = vec![];
    for fmt in [Fmt::Obj, Fmt::Mtl] {
        r.extend(templates(fmt).iter().map(|d| (fmt, d.to_string(), 20_000 * times)));
        // All good lines, in every rotation, once and often, with a refused one at the end.
        let g = good(fmt);
        for i in 0..g.len() {
            for rev in [false, true] {
                let mut l = g.clone();
                l.rotate_left(i);
                if rev {
                    l.reverse();
                }
                let head = if fmt == Fmt::Mtl { "newmtl first@\n" } else { "" };
                let one = l.concat().replace('@', &format!("{i}@"));
                r.push((fmt, format!("{head}{one}"), 1500 * times));
                r.push((fmt, format!("{head}{one}{}", one.replace('@', "7@")), 1500 * times));
                r.push((fmt, format!("{head}{one}foo@\n"), 1500 * times));
                let many: String = (0..40).map(|j| one.replace('@', &format!("{j}@"))).collect();
                r.push((fmt, format!("{head}{many}"), 60 * times));
                r.push((fmt, format!("{head}{many}v x@\n"), 60 * times));
            }
        }
    }
    r
}

/// Every statement of the vocabulary and every refused line, in each of its words another number each time.
fn worded() -> Vec<(Fmt, String)> {
    let mut seen = std::collections::BTreeSet::new();
    let mut add = |fmt: Fmt, head: &str, lines: Vec<String>| {
        for l in lines {
            let words: Vec<&str> = l.split(' ').collect();
            for (i, x) in words.iter().enumerate() {
                let mut put = |at: usize| {
                    let mut all: Vec<String> = words.iter().map(|x| x.to_string()).collect();
                    all[i].insert(at, '@');
                    seen.insert((fmt == Fmt::Mtl, format!("{head}{}\n", all.join(" "))));
                };
                put(x.len());
                x.rfind('.').into_iter().for_each(&mut put);
            }
        }
    };
    let texts = |s: Vec<crate::objm::Stmt>| -> Vec<String> { s.into_iter().map(|s| s.text).filter(|s| s.len() < 300 && !s.contains('@')).collect() };
    let mtexts = |s: Vec<crate::mtlm::Stmt>| -> Vec<String> { s.into_iter().map(|s| s.text).filter(|s| s.len() < 300 && !s.contains('@')).collect() };
    add(Fmt::Obj, "v 1 2 3\nv 4 5 6\ng a b\ns 1\n", texts([obj::vocabulary(), whole::bad_obj()].concat()));
    add(Fmt::Mtl, "newmtl m\nKd 1 2 3\nmap_Kd f.png\n", mtexts([mtl::vocabulary(), whole::bad_mtl()].concat()));
    seen.into_iter().map(|(m, d)| (if m { Fmt::Mtl } else { Fmt::Obj }, d)).collect()
}

// -------------------------------------------------------------------------------------------------- processes

fn spaces(prop: &str, th: bool) -> Vec<Task> {
    match prop {
        "bad lines" => {
            let mut t = vec![];
            let bad = whole::bad_obj();
            t.extend((0..bad.len()).map(|i| {
                let s = bad[i].clone();
                task("bad-lines", move |w| doc::<Obj>(w, std::slice::from_ref(&s), 0))
            }));
            let bad = whole::bad_mtl();
            t.extend((0..bad.len()).map(|i| {
                let s = bad[i].clone();
                task("bad-lines", move |w| doc::<Mtl>(w, &[mtl::new("a"), s.clone()], 0))
            }));
            t
        },
        "sequences" => {
            let d = if th { 4 } else { 3 };
            let mut t = sequences("sequences-obj", Space::<Obj> { table: obj::table(d, obj::full), depth: d, mask: 0, pre: vec![], post: vec![] });
            t.extend(sequences("sequences-mtl", Space::<Mtl> { table: mtl::table(d, mtl::full), depth: d, mask: 0, pre: vec![], post: vec![] }));
            t
        },
        "lines" => lines(th),
        "long" => long(th, None),
        "deep" => long(th, Some(if th { 65_537 } else { 10_001 })),
        "names" => names(th),
        "arguments" => arguments(th),
        "short" => short(th),
        // What all of them have in common is explored once.
        p => crate::tasks(p, false).unwrap().into_iter().filter(|t| ["P10", "P16"].contains(&p) || !["vocabulary", "four-kinds"].iter().any(|f| t.family.starts_with(f))).collect(),
    }
}

/// All short texts, and documents which are nothing but the name of a file or look like an order.
fn short(th: bool) -> Vec<Task> {
    const WHOLE: [&str; 48] = [
        "/etc/hostname", "/etc/passwd", "/proc/self/maps", "/dev/null", "/dev/stdin", "/tmp", "Cargo.toml", "mc/Cargo.toml", "../repo/Cargo.toml", ".", "..", "./", "a.obj", "a.mtl", "model.obj", "cube.mtl", "C:\\a.obj", "\\\\host\\a.obj",
        "~/.profile", "~", "$HOME", "${HOME}", "%TEMP%", "`ls`", "$(ls)", "|ls", "!ls", "@a.obj", "<a.obj", "--help", "-h", "-v", "--version", "file:///etc/passwd", "http://localhost/a.obj", "https://localhost", "localhost:80",
        "127.0.0.1:80", "data:,v 1 2 3", "stdin", "STDIN", "con", "#!/bin/sh", "#include \"a.obj\"", "include a.obj", "call a.obj", "csh ls", "debug",
    ];
    let mut t = vec![];
    for first in 0..=128u8 {
        t.push(task("short", move |w| {
            let mut all = vec![];
            if first == 128 {
                all.push(String::new());
                for x in WHOLE {
                    all.extend(["", "\n", " ", "\nv 1 2 3\n", "\nnewmtl a\n"].map(|e| format!("{x}{e}")));
                    all.extend([format!("# {x}"), format!("newmtl a\n# {x}\n"), format!(" {x}"), format!("\n{x}"), format!("\"{x}\"")]);
                }
            } else {
                let c = first as char;
                all.push(c.to_string());
                for d in 0..128u8 {
                    all.push(format!("{c}{}", d as char));
                    if th {
                        all.extend((32..127u8).map(|e| format!("{c}{}{}", d as char, e as char)));
                    }
                }
            }
            for x in &all {
                see(w, Fmt::Obj, x);
                see(w, Fmt::Mtl, x);
            }
        }));
    }
    t
}

/// Every kind of line, good, odd or refused, among each other.
fn lines(th: bool) -> Vec<Task> {
    const OBJ: [&str; 32] = [
        "s on", "s ON", "s off", "s 1", "s -1", "f -1 -1 -1", "f -1/-1/-1 -1//-1 -2", "f 1//2 1 1/2", "f 0 0 0", "f 1", "f", "l -1 -2/-1", "l 1", "p -1", "p 0", "g", "g a a", "usemap off", "bevel on", "lod 300", "lod 0", "vp 1 2 3",
        "v 1e99 1 1", "v 1 2 3 1", "v 1 2", "vt 1", "vn 0 0 0", "foo", "cstype bezier", "call x.obj", "csh -ls", "# c",
    ];
    const MTL: [&str; 30] = [
        "newmtl a", "newmtl", "Kd 1 1 1", "Kd 1", "Ka xyz 1", "Ka xyz 1 2 3", "Tf spectral a.rfl", "Tf spectral a.rfl 9", "d 0.5", "d -halo 0.5", "d -halo", "Tr 0.5", "Ns 1e99", "Ni 1", "illum 2", "illum 99", "illum -1", "map_aat on",
        "map_Kd a.png", "map_Kd -blendu on -cc off a.png", "map_d -imfchan m a.png", "bump -bm 1 a.png", "bump a.png -bm 2 -mm 0 1", "disp a.png", "refl -type sphere a.png", "refl -type cube_top -o 1 a.png", "decal -texres 512 a.png",
        "map_Kd", "foo", "# c",
    ];
    let mut t = vec![];
    for (fmt, menu) in [(Fmt::Obj, &OBJ[..]), (Fmt::Mtl, &MTL[..])] {
        for a in 0..menu.len() {
            for b in 0..menu.len() {
                t.push(task("lines", move |w| {
                    for n in 0..=if th { 2 } else { 1 } {
                        power(menu.len(), n, |c| {
                            for head in ["", if fmt == Fmt::Mtl { "newmtl first\n" } else { "v 1 2 3\n" }] {
                                let text: String = [a, b].iter().chain(c).map(|&i| menu[i].to_string() + "\n").collect();
                                see(w, fmt, &format!("{head}{text}"));
                                if n == 0 {
                                    see(w, fmt, &format!("{head}{}\n", menu[a]));
                                    see(w, fmt, &format!("{head}{} {}", menu[a], menu[b]));
                                }
                            }
                            !w.stopped()
                        });
                    }
                }));
            }
        }
    }
    t
}

/// Good and refused documents of many lines: of one kind, of all kinds, of names that are all different.
fn long(th: bool, only: Option<usize>) -> Vec<Task> {
    let mut t = vec![];
    let mut lens = vec![5, 20, 50, 100, 101, 128, 129, 256, 257, 300, 500, 512, 513, 1000, 1001, 1025, 3000, 5000, 10_001, 65_537];
    if th {
        lens.extend([2049, 4097, 8193, 30_000, 100_000]);
    }
    if let Some(n) = only {
        lens = vec![n];
    }
    let blank = ["", "# c", " ", "\t# c"].map(String::from);
    let objs: Vec<String> = obj::kinds(1).iter().map(|s| s.text.clone()).chain(blank.clone()).collect();
    let mtls: Vec<String> = mtl::kinds(1).iter().map(|s| s.text.clone()).chain(blank).collect();
    for (fmt, kinds, templates) in [(Fmt::Obj, objs, good(Fmt::Obj)), (Fmt::Mtl, mtls, good(Fmt::Mtl))] {
        let head = if fmt == Fmt::Mtl { "newmtl first\n" } else { "" };
        for n in lens.clone() {
            for k in kinds.clone() {
                t.push(task("long", move |w| {
                    for end in ["", "foo\n"] {
                        see(w, fmt, &format!("{head}{}{end}", format!("{k}\n").repeat(n)));
                        if k.trim().is_empty() || k.contains('#') {
                            see(w, fmt, &format!("{}{head}{end}", format!("{k}\n").repeat(n)));
                        }
                    }
                }));
            }
            let (kinds, templates) = (kinds.clone(), templates.clone());
            t.push(task("long", move |w| {
                for end in ["", "foo\n", "v 1\n", "Kd x\n"] {
                    let all: String = kinds.iter().cycle().take(n).map(|k| format!("{k}\n")).collect();
                    see(w, fmt, &format!("{head}{all}{end}"));
                    let all: String = (0..n).map(|i| templates[i % templates.len()].replace('@', &(1000 + i).to_string())).collect();
                    see(w, fmt, &format!("{head}{all}{end}"));
                }
            }));
        }
    }
    t
}

/// Lines of many arguments.
fn arguments(th: bool) -> Vec<Task> {
    let obj = ["f 1 1 1@ 1", "f 1/2/3 1/2/3@ 1//2", "l 1 1@ 1", "l 1/1@ 1", "p 1@ 1", "g a@ b", "g@ a", "usemtl a@ a", "# @ 1", "v 1 2 3@ 1", "foo@ x", "f 1@ x", "mtllib@ a.mtl"];
    let mtl = [
        "map_Kd f.png@ -cc on", "map_Kd@ -o 1", "bump f.png@ -bm 1", "refl f.png@ -type a", "map_d f.png@ -imfchan l", "disp f.png@ -mm 0 1", "decal f.png@ -blendu on -s 1 2 3", "Kd 1 1 1@ 1", "Kd@ x", "newmtl a@ a", "# @ x", "foo@ 1", "map_Kd@ a.png",
    ];
    let lens = if th { vec![10, 100, 1000, 3000, 10_000] } else { vec![10, 100, 1000, 3000] };
    let mut t = vec![];
    for n in lens {
        for (fmt, forms) in [(Fmt::Obj, &obj[..]), (Fmt::Mtl, &mtl[..])] {
            for f in forms {
                let (head, arg) = f.split_once('@').unwrap();
                let text = format!("{}{head}{}\n", if fmt == Fmt::Mtl { "newmtl first\n" } else { "" }, arg.repeat(n));
                t.push(task("arguments", move |w| see(w, fmt, &text)));
            }
        }
    }
    t
}

/// P01: what could end the stack of a thread in a build without optimization.
pub fn unoptimized_loads(th: bool) -> Vec<Task> {
    watched(Kind::Total, &["deep", "names", "arguments"], th)
}

/// Bytes of a name which are no ends of characters, wherever one looks.
pub fn wide_names(th: bool, see: fn(&mut W, Fmt, &str)) -> Vec<Task> {
    let mut units = vec![];
    for c in ["é", "€", "😀", "\u{301}"] {
        units.extend((0..c.len()).map(|n| ("a".repeat(n), c)));
    }
    names_of(th, units, see)
}

fn see(w: &mut W, fmt: Fmt, text: &str) {
    match fmt {
        Fmt::Obj => drop(w.obj(text)),
        Fmt::Mtl => drop(w.mtl(text)),
    }
}

/// Names and words of every length, where a statement has one and where none belongs.
fn names(th: bool) -> Vec<Task> {
    names_of(th, ["a", "é", "a b", "../", ".mtl", "/dev/", "7"].map(|u| (String::new(), u)).to_vec(), see)
}

fn names_of(th: bool, units: Vec<(String, &'static str)>, see: fn(&mut W, Fmt, &str)) -> Vec<Task> {
    let obj = [
        "o @", "g @", "g a @", "g @ b", "usemtl @", "usemap @", "mtllib @", "maplib @", "shadow_obj @", "trace_obj @", "# @", "@", "v 1 2 @", "f 1 2 @", "s @", "lod @", "bevel @", "usemtl a # @", "g a\nusemtl @\nf 1 2 3",
    ];
    let mtl = [
        "newmtl @", "map_Kd @", "bump -bm 1 @", "refl -type sphere @", "refl -type @ f.png", "map_d -imfchan @ f.png", "Ka spectral @", "Ka spectral @ 2", "# @", "@", "Ka @ 1 1", "Ns @", "illum @", "map_Kd a.png @", "map_Kd -@ 1 f.png",
        "newmtl a\nnewmtl @\nmap_Kd @",
    ];
    let lens: Vec<usize> = (1..=if th { 2100 } else { 300 }).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]).chain(if th { vec![65_535, 65_536] } else { vec![] }).collect();
    let mut t = vec![];
    for (fmt, forms) in [(Fmt::Obj, &obj[..]), (Fmt::Mtl, &mtl[..])] {
        for &f in forms {
            let (f, lens, units) = (f.to_string(), lens.clone(), units.clone());
            t.push(task("names", move |w| {
                for n in &lens {
                    for (start, unit) in &units {
                        let name: String = start.chars().chain(unit.chars().cycle()).take(*n).collect();
                        let head = if fmt == Fmt::Mtl { "newmtl first\n" } else { "" };
                        see(w, fmt, &format!("{head}{}\n", f.replace('@', &name)));
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }));
        }
    }
    t
}

/// The templates of one line that are loaded.
fn good(fmt: Fmt) -> Vec<&'static str> {
    let ok = |d: &str| {
        let d = d.replace('@', "1000");
        match fmt {
            Fmt::Obj => load_obj(&d).is_ok(),
            Fmt::Mtl => load_mtl(&format!("newmtl m\n{d}")).is_ok(),
        }
    };
    templates(fmt).iter().map(|d| d.strip_prefix("newmtl m\n").unwrap_or(d)).filter(|d| ok(d)).collect()
}

/// One shard of the exploration of a space, watched.
pub fn explore(kind: Kind, space: &str, shard: usize, of: usize, th: bool) {
    limit_memory(AS_LIMIT);
    let mut t = if space == "distinct" { vec![] } else { spaces(space, th) };
    quiet_panics();
    let sh = Shared::alone(kind);
    let mut w = W::new(&sh, 0);
    let mut wrong: Vec<(Fmt, String, String)> = vec![];
    unsafe { assert_eq!(dup2(1, REPORT), REPORT) };
    if kind == Kind::Calls {
        refuse_calls();
    }
    if space == "distinct" {
        for (i, (fmt, d, n)) in distinct(th).into_iter().enumerate() {
            // One is enough, for what is kept may make all that follows slow.
            if i % of == shard && wrong.is_empty() {
                if let Some(x) = growth(fmt, &|i| d.replace('@', &(1000 + i).to_string()), n) {
                    wrong.push((fmt, format!("{n} {d}"), x));
                }
                w.add(n as u64, 0, 0);
            }
        }
        for (i, (fmt, d)) in worded().into_iter().enumerate() {
            if i % of == shard && wrong.is_empty() {
                let grown = |n: usize| growth(fmt, &|i| d.replace('@', &(1000 + i).to_string()), n);
                // Doublings are at 896 and 1024, in the second half.
                let n = if th { 20_000 } else { 1300 };
                // A table of a limited size is no growth.
                if let Some(x) = grown(n).and_then(|_| grown(40_000)) {
                    wrong.push((fmt, format!("40000 {d}"), x));
                }
                w.add(n as u64, 0, 0);
            }
        }
    }
    let mut i = 0;
    while let Some(x) = t.pop() {
        if i % of == shard && !w.stopped() {
            w.begin_family(&x.family);
            (x.run)(&mut w);
        }
        i += 1;
    }
    w.flush();
    wrong.extend(std::mem::take(&mut *sh.watched.lock().unwrap()));
    let sets = sh.sets.lock().unwrap();
    let mut out = format!("{} {} {}\n", sh.docs.load(SeqCst), sets.0.len(), sets.1.len());
    for (f, d, x) in wrong.iter().take(3) {
        out += &format!("{}\t{}\t{}\n", if *f == Fmt::Obj { "obj" } else { "mtl" }, enc(d), enc(x));
    }
    out += "end\n";
    unsafe { write(REPORT, out.as_ptr().cast(), out.len()) };
    // Nothing of what a process does at its end.
    std::process::exit(0);
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Calls => "calls",
        Kind::Memory => "memory",
        Kind::Total => "total",
    }
}

pub fn kind_of(s: &str) -> Kind {
    match s {
        "calls" => Kind::Calls,
        "total" => Kind::Total,
        _ => Kind::Memory,
    }
}

/// Decides one document again, in this process (for replays).
pub fn relation(kind: &str, fmt: Fmt, doc: &str) -> String {
    let k = kind_of(kind);
    if k == Kind::Total && std::env::current_exe().ok() != Some(unoptimized()) {
        let path = format!("{}/again-{}", std::env::temp_dir().display(), std::process::id());
        std::fs::write(&path, doc).unwrap();
        let out = Command::new(unoptimized()).args(["unoptimized", if fmt == Fmt::Obj { "obj" } else { "mtl" }, &path]).stderr(Stdio::null()).output();
        let _ = std::fs::remove_file(&path);
        return match out {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
            Ok(o) => format!("the process ended with {}", o.status),
            Err(_) => "no unoptimized build, use run.sh".into(),
        };
    }
    if k == Kind::Calls {
        unsafe { assert_eq!(dup2(1, REPORT), REPORT) };
        refuse_calls();
    }
    let r = if kind == "growth" {
        let (n, d) = doc.split_once(' ').unwrap();
        growth(fmt, &|i| d.replace('@', &(1000 + i).to_string()), n.parse().unwrap())
    } else {
        watch(k, fmt, doc)
    };
    let r = r.unwrap_or("holds".into());
    if k == Kind::Calls {
        unsafe { write(REPORT, r.as_ptr().cast(), r.len()) };
        return String::new();
    }
    r
}

const SIGSYS: i32 = 31;
const SIGKILL: i32 = 9;

/// The explorer as it is built without optimization, for P01 (by run.sh).
fn unoptimized() -> std::path::PathBuf {
    format!("{}/build/unoptimized/mc", std::env::var("VERIF_DIR").unwrap_or("/verif".into())).into()
}

/// On a stack of the size threads have.
pub fn small_stack(f: impl FnOnce() + Send) {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).unwrap().join()).unwrap()
}

fn found(space: &str, kind: &str, fmt: Fmt, doc: String, actual: String) -> Violation {
    Violation { family: space.into(), kind: kind.into(), fmt, docs: vec![doc], expected: "holds".into(), actual, mask: 0 }
}

/// Runs one shard: what it says, and the signal that ended it.
fn process(w: &mut W, kind: Kind, space: &str, shard: usize, of: usize, th: bool, tell: bool) -> (String, Option<i32>) {
    let exe = if kind == Kind::Total { unoptimized() } else { std::env::current_exe().unwrap() };
    let mut c = Command::new(exe)
        .args(["monitor", kind_name(kind), space, &shard.to_string(), &of.to_string(), if th { "thorough" } else { "quick" }])
        .args(tell.then_some("tell"))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        // The end of it is enough.
        let (mut s, mut part) = (vec![], vec![0; 1 << 16]);
        while let Ok(n @ 1..) = std::io::Read::read(&mut out, &mut part) {
            s.extend_from_slice(&part[..n]);
            if tell && s.len() > 8 << 20 {
                s.drain(..s.len() - (4 << 20));
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let limit = Duration::from_secs(if th { 3000 } else { 300 });
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > limit || w.stopped() {
            let _ = c.kill();
            break c.wait().unwrap();
        }
        sleep_ms(5);
    };
    (reader.join().unwrap(), std::os::unix::process::ExitStatusExt::signal(&status))
}

fn watched(kind: Kind, of_spaces: &[&'static str], th: bool) -> Vec<Task> {
    let mut t = vec![];
    for &space in of_spaces {
        let of = WORKERS;
        for shard in 0..of {
            t.push(task(space, move |w| {
                let (mut text, mut signal) = process(w, kind, space, shard, of, th, false);
                let ended = |s: Option<i32>| s.is_some_and(|s| if kind == Kind::Total { s != SIGKILL } else { s == SIGSYS });
                if ended(signal) {
                    // It ended at the last document it tells about.
                    (text, signal) = process(w, kind, space, shard, of, th, true);
                    let last = text.lines().last().and_then(|l| l.split_once('\t'));
                    if let (true, Some((f, d))) = (ended(signal), last) {
                        let fmt = if f == "mtl" { Fmt::Mtl } else { Fmt::Obj };
                        let what = if kind == Kind::Total { format!("the process is ended by signal {}", signal.unwrap_or(0)) } else { "starts a thread or a process".into() };
                        w.violation(found(space, kind_name(kind), fmt, dec(d), what));
                        return;
                    }
                }
                let mut lines = text.lines();
                let n: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
                // A process that crashed or did not come back: found by P01.
                if n.len() != 3 || !text.ends_with("end\n") {
                    w.cut_short();
                    return;
                }
                w.add(n[0], n[1], n[2]);
                w.sample(space);
                for l in lines.filter(|l| *l != "end") {
                    let x: Vec<&str> = l.split('\t').collect();
                    let fmt = if x[0] == "mtl" { Fmt::Mtl } else { Fmt::Obj };
                    let what = if space == "distinct" { "growth" } else { kind_name(kind) };
                    w.violation(found(space, what, fmt, dec(x[1]), dec(x[2])));
                }
            }));
        }
    }
    t
}

const THOROUGH: [&str; 23] =
    ["bad lines", "lines", "short", "sequences", "long", "names", "P02", "P03", "P01", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P15", "P16", "P17", "P18", "P19"];

pub fn p27(th: bool) -> Vec<Task> {
    watched(Kind::Calls, if th { &THOROUGH } else { &["bad lines", "lines", "short", "sequences", "long", "names", "P12", "P10", "P16", "P06", "P17", "P05", "P11", "P15", "P18"] }, th)
}

pub fn p28(th: bool) -> Vec<Task> {
    let mut t = watched(Kind::Memory, &["distinct"], th);
    t.extend(watched(Kind::Memory, if th { &THOROUGH } else { &["bad lines", "lines", "short", "sequences", "long", "names", "P10", "P11", "P07", "P12", "P16", "P17", "P18"] }, th));
    t
}
