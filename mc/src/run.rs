//! Running documents through the real loaders: containment, counting, reporting.
//!
//! The explorer is a child process. Each of its worker threads keeps the document it is about to load in a
//! slot of a shared memory map, so that the parent can say which document was being loaded when the child
//! died (abort, stack overflow, out of memory) or when a load does not come back.

use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration};

use crate::monitor::{watch, Kind};
use nobject_rs::{Material, Model, ObjError};

pub const WORKERS: usize = 8;
pub const SLOT: usize = 1 << 16;
pub const HANG_MS: u64 = 20_000;
/// Address space of a process that runs the code under test.
pub const AS_LIMIT: u64 = 12 << 30;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Obj,
    Mtl,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// ------------------------------------------------------------------------------------------------ slots

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9 /* RLIMIT_AS */, &[bytes, bytes]);
        setrlimit(4 /* RLIMIT_CORE */, &[0, 0]);
    }
}

/// The shared map: per worker a header (busy counter, start time, length, format) and the document.
pub struct Slots {
    base: *mut u8,
    dir: String,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

const HEAD: usize = 64;

impl Slots {
    pub fn open(dir: &str, create: bool) -> Slots {
        use std::os::fd::AsRawFd;
        let path = format!("{dir}/slots");
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).unwrap();
        if create {
            f.set_len((WORKERS * (SLOT + HEAD)) as u64).unwrap();
        }
        let base = unsafe { mmap(std::ptr::null_mut(), WORKERS * (SLOT + HEAD), 3, 1 /* MAP_SHARED */, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap failed");
        Slots { base, dir: dir.to_string() }
    }
    /// In the place of slots.
    pub fn none() -> Slots {
        Slots { base: std::ptr::null_mut(), dir: String::new() }
    }
    fn at(&self, w: usize) -> *mut u8 {
        unsafe { self.base.add(w * (SLOT + HEAD)) }
    }
    fn word(&self, w: usize, i: usize) -> &AtomicU64 {
        unsafe { &*(self.at(w).add(i * 8) as *const AtomicU64) }
    }
    pub fn begin(&self, w: usize, fmt: Fmt, text: &str) {
        let n = text.len();
        if n > SLOT {
            std::fs::write(format!("{}/big{w}", self.dir), text).unwrap();
        } else {
            unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), self.at(w).add(HEAD), n) };
        }
        self.word(w, 1).store(unix_ms(), Relaxed);
        self.word(w, 2).store(n as u64, Relaxed);
        self.word(w, 3).store(fmt as u64, Relaxed);
        self.word(w, 0).store(1, Release);
    }
    pub fn end(&self, w: usize) {
        self.word(w, 0).store(0, Release);
    }
    /// The document worker `w` is loading, and for how long it has been at it.
    pub fn busy(&self, w: usize) -> Option<(Fmt, String, u64)> {
        if self.word(w, 0).load(Acquire) == 0 {
            return None;
        }
        let n = self.word(w, 2).load(Relaxed) as usize;
        let fmt = if self.word(w, 3).load(Relaxed) == 0 { Fmt::Obj } else { Fmt::Mtl };
        let ms = unix_ms().saturating_sub(self.word(w, 1).load(Relaxed));
        let bytes = if n > SLOT {
            std::fs::read(format!("{}/big{w}", self.dir)).ok()?
        } else {
            unsafe { std::slice::from_raw_parts(self.at(w).add(HEAD), n).to_vec() }
        };
        Some((fmt, String::from_utf8_lossy(&bytes).into_owned(), ms))
    }
}

pub fn unix_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

// ------------------------------------------------------------------------------------------- violations

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    /// What a replay does: "doc" loads one document and compares, others name a relation (see replay.rs).
    pub kind: String,
    pub fmt: Fmt,
    pub docs: Vec<String>,
    pub expected: String,
    pub actual: String,
    /// What is compared (names of the parts of the result).
    pub mask: u32,
}

impl Violation {
    /// Identity used by the known-findings file.
    pub fn signature(&self) -> String {
        let docs: Vec<String> = self.docs.iter().map(|d| {
            if d.len() > 300 { format!("[{} bytes, hash {:016x}]", d.len(), hash_of(d)) } else { format!("{d:?}") }
        }).collect();
        format!("{}:{:?}:{}", self.kind, self.fmt, docs.join("|"))
    }
}

// ------------------------------------------------------------------------------------------------ hashing

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x51_7c_c1_b7_27_22_0a_95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        let mut z = self.0.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
#[derive(Default, Clone, Copy)]
pub struct Id(u64);
impl Hasher for Id {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<Id>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------------------------ context

/// Shared by the workers of one check.
pub struct Shared {
    pub cut: AtomicBool,
    pub tier: Tier,
    pub slots: Slots,
    pub stop: AtomicBool,
    pub next: AtomicUsize,
    pub violations: Mutex<Vec<Violation>>,
    pub docs: AtomicU64,
    /// States and transitions counted elsewhere (in processes of their own, all of them distinct).
    pub more: (AtomicU64, AtomicU64),
    pub sets: Mutex<(IdSet, IdSet, IdSet)>,
    pub families: Mutex<std::collections::BTreeMap<String, u64>>,
    pub samples: Mutex<std::collections::BTreeMap<String, String>>,
    pub known: HashSet<String>,
    pub known_seen: Mutex<HashSet<String>>,
    /// Loads are watched, not compared.
    pub monitor: Option<Kind>,
    pub watched: Mutex<Vec<(Fmt, String, String)>>,
}

impl Shared {
    pub fn new(tier: Tier, slots: Slots, known: HashSet<String>, monitor: Option<Kind>) -> Shared {
        Shared {
            cut: AtomicBool::new(false),
            tier,
            slots,
            stop: AtomicBool::new(false),
            next: AtomicUsize::new(0),
            violations: Mutex::default(),
            docs: AtomicU64::new(0),
            more: Default::default(),
            sets: Mutex::default(),
            families: Mutex::default(),
            samples: Mutex::default(),
            known,
            known_seen: Mutex::default(),
            monitor,
            watched: Mutex::default(),
        }
    }
    /// For a process that only watches.
    pub fn alone(kind: Kind) -> Shared {
        Shared::new(Tier::Quick, Slots::none(), HashSet::new(), Some(kind))
    }
}

/// One worker.
pub struct W<'a> {
    pub sh: &'a Shared,
    pub id: usize,
    pub family: String,
    pub docs: u64,
    fam_docs: u64,
    states: IdSet,
    transitions: IdSet,
    outcomes: IdSet,
}

/// What came out of a load: the result, or the message of a panic.
pub type Out<T> = Result<Result<T, ObjError>, String>;

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}

pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| format!("panic: {}", l.borrow())))
}

impl<'a> W<'a> {
    pub fn new(sh: &'a Shared, id: usize) -> Self {
        W { sh, id, family: String::new(), docs: 0, fam_docs: 0, states: IdSet::default(), transitions: IdSet::default(), outcomes: IdSet::default() }
    }
    pub fn thorough(&self) -> bool {
        self.sh.tier == Tier::Thorough
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
    pub fn obj(&mut self, text: &str) -> Out<Model> {
        self.docs += 1;
        self.fam_docs += 1;
        if let Some(k) = self.sh.monitor {
            return self.watch(k, Fmt::Obj, text);
        }
        self.sh.slots.begin(self.id, Fmt::Obj, text);
        let r = call(|| nobject_rs::load_obj(text));
        self.sh.slots.end(self.id);
        r
    }
    pub fn mtl(&mut self, text: &str) -> Out<Vec<Material>> {
        self.docs += 1;
        self.fam_docs += 1;
        if let Some(k) = self.sh.monitor {
            return self.watch(k, Fmt::Mtl, text);
        }
        self.sh.slots.begin(self.id, Fmt::Mtl, text);
        let r = call(|| nobject_rs::load_mtl(text));
        self.sh.slots.end(self.id);
        r
    }
    /// Nothing is returned that could be compared with anything.
    fn watch<T>(&mut self, kind: Kind, fmt: Fmt, text: &str) -> Out<T> {
        if let Some(x) = watch(kind, fmt, text) {
            let mut v = self.sh.watched.lock().unwrap();
            v.push((fmt, text.to_string(), x));
            if v.len() >= 3 {
                self.sh.stop.store(true, SeqCst);
            }
        }
        Err(String::new())
    }
    pub fn watching(&self) -> bool {
        self.sh.monitor.is_some()
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn transition(&mut self, h: u64) {
        self.transitions.insert(h);
    }
    /// A distinct observed outcome (evidence that the exploration is not vacuous).
    pub fn outcome(&mut self, h: u64) {
        self.outcomes.insert(h);
    }
    pub fn add(&mut self, loads: u64, states: u64, transitions: u64) {
        self.docs += loads;
        self.fam_docs += loads;
        self.sh.more.0.fetch_add(states, Relaxed);
        self.sh.more.1.fetch_add(transitions, Relaxed);
    }
    /// A part of the space of this task was left out.
    pub fn cut_short(&mut self) {
        self.sh.cut.store(true, SeqCst);
    }
    pub fn sample(&mut self, text: &str) {
        let mut s = self.sh.samples.lock().unwrap();
        if !s.contains_key(&self.family) {
            s.insert(self.family.clone(), text.chars().take(300).collect());
        }
    }
    pub fn violation(&mut self, v: Violation) {
        if self.watching() {
            return;
        }
        let sig = v.signature();
        if self.sh.known.contains(&sig) {
            self.sh.known_seen.lock().unwrap().insert(sig);
            return;
        }
        let mut vs = self.sh.violations.lock().unwrap();
        vs.push(v);
        if vs.len() >= 3 {
            self.sh.stop.store(true, SeqCst);
        }
    }
    pub fn begin_family(&mut self, name: &str) {
        self.flush();
        self.family = name.to_string();
    }
    pub fn flush(&mut self) {
        if self.fam_docs > 0 {
            *self.sh.families.lock().unwrap().entry(self.family.clone()).or_default() += self.fam_docs;
            self.fam_docs = 0;
        }
        self.sh.docs.fetch_add(std::mem::take(&mut self.docs), Relaxed);
        if self.states.len() + self.transitions.len() + self.outcomes.len() > 0 {
            let mut s = self.sh.sets.lock().unwrap();
            s.0.extend(self.states.drain());
            s.1.extend(self.transitions.drain());
            s.2.extend(self.outcomes.drain());
        }
    }
}

/// A unit of exploration that one worker does.
pub struct Task {
    pub family: String,
    pub run: Box<dyn Fn(&mut W) + Send + Sync>,
}

pub fn task(family: &str, run: impl Fn(&mut W) + Send + Sync + 'static) -> Task {
    Task { family: family.to_string(), run: Box::new(run) }
}

pub fn run_tasks(sh: &Shared, tasks: &[Task]) {
    std::thread::scope(|s| {
        for id in 0..WORKERS {
            // 2 MB, as a thread of a user of the library has by default.
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
                let mut w = W::new(sh, id);
                loop {
                    let i = sh.next.fetch_add(1, SeqCst);
                    if i >= tasks.len() || w.stopped() {
                        break;
                    }
                    w.begin_family(&tasks[i].family);
                    (tasks[i].run)(&mut w);
                }
                w.flush();
            }).unwrap();
        }
    });
}

pub fn sleep_ms(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
