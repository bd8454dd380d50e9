//! Exhaustive exploration of statement sequences, each checked against the reference machine on the real
//! loader.

use crate::run::*;
use crate::{mtlm, objm};
use std::sync::Arc;

/// One of the two formats: its reference machine and its loader.
pub trait Format: 'static {
    type Stmt: Clone + Send + Sync + 'static;
    type State: Clone + Default;
    const FMT: Fmt;
    fn text(s: &Self::Stmt) -> &str;
    fn apply(st: &mut Self::State, s: &Self::Stmt);
    fn hash(st: &Self::State) -> u64;
    fn expected(st: &Self::State, mask: u32) -> String;
    /// Loads the text and compares.
    fn check(w: &mut W, text: &str, st: &Self::State, mask: u32) -> bool;
}

pub struct Obj;
pub struct Mtl;

pub fn short(e: impl std::fmt::Display) -> String {
    let s: String = e.to_string().chars().take(200).collect();
    format!("Err {s}")
}

impl Format for Obj {
    type Stmt = objm::Stmt;
    type State = objm::State;
    const FMT: Fmt = Fmt::Obj;
    fn text(s: &objm::Stmt) -> &str {
        &s.text
    }
    fn apply(st: &mut objm::State, s: &objm::Stmt) {
        st.apply(&s.sem)
    }
    fn hash(st: &objm::State) -> u64 {
        st.hash()
    }
    fn expected(st: &objm::State, mask: u32) -> String {
        if st.bad {
            "Err".into()
        } else {
            objm::show(st, mask)
        }
    }
    fn check(w: &mut W, text: &str, st: &objm::State, mask: u32) -> bool {
        let actual = match w.obj(text) {
            Ok(Ok(m)) if !st.bad && objm::same(st, &m, mask) => return true,
            Ok(Err(_)) if st.bad => return true,
            Ok(Ok(m)) => objm::show(&objm::of_model(&m), if st.bad { objm::ALL } else { mask }),
            Ok(Err(e)) => short(e),
            Err(p) => p,
        };
        fail::<Obj>(w, text, st, mask, actual);
        false
    }
}

impl Format for Mtl {
    type Stmt = mtlm::Stmt;
    type State = mtlm::State;
    const FMT: Fmt = Fmt::Mtl;
    fn text(s: &mtlm::Stmt) -> &str {
        &s.text
    }
    fn apply(st: &mut mtlm::State, s: &mtlm::Stmt) {
        st.apply(&s.sem)
    }
    fn hash(st: &mtlm::State) -> u64 {
        st.hash()
    }
    fn expected(st: &mtlm::State, mask: u32) -> String {
        if st.bad {
            "Err".into()
        } else if st.orphan {
            "Err NewMaterial".into()
        } else {
            mtlm::show(st, mask)
        }
    }
    fn check(w: &mut W, text: &str, st: &mtlm::State, mask: u32) -> bool {
        let refused = st.bad || st.orphan;
        let actual = match w.mtl(text) {
            Ok(Ok(m)) if !refused && mtlm::same(st, &m, mask) => return true,
            Ok(Err(_)) if st.bad => return true,
            Ok(Err(e)) if st.orphan && mtlm::is_new_material_error(&e) => return true,
            Ok(Ok(m)) => mtlm::show(&mtlm::of_materials(&m), if refused { mtlm::ALL } else { mask }),
            Ok(Err(e)) => short(e),
            Err(p) => p,
        };
        fail::<Mtl>(w, text, st, mask, actual);
        false
    }
}

fn fail<F: Format>(w: &mut W, text: &str, st: &F::State, mask: u32, actual: String) {
    if w.watching() {
        return;
    }
    let v = Violation {
        family: w.family.clone(),
        kind: "doc".into(),
        fmt: F::FMT,
        docs: vec![text.to_string()],
        expected: F::expected(st, mask),
        actual,
        mask,
    };
    w.violation(v);
}

/// Loads one document made of statements, counting the states and transitions of the reference machine.
pub fn doc<F: Format>(w: &mut W, stmts: &[F::Stmt], mask: u32) {
    let mut st = F::State::default();
    let mut text = String::new();
    let mut h = F::hash(&st);
    for s in stmts {
        F::apply(&mut st, s);
        text.push_str(F::text(s));
        text.push('\n');
        let g = F::hash(&st);
        w.state(g);
        w.transition(hash_of(&(h, F::text(s))));
        h = g;
    }
    w.sample(&text);
    F::check(w, &text, &st, mask);
}

/// As `doc`, for long documents: only the final state is counted.
pub fn long_doc<F: Format>(w: &mut W, stmts: impl Iterator<Item = F::Stmt>, mask: u32) {
    let mut st = F::State::default();
    let mut text = String::new();
    for s in stmts {
        F::apply(&mut st, &s);
        text.push_str(F::text(&s));
        text.push('\n');
    }
    let h = F::hash(&st);
    w.state(h);
    w.transition(hash_of(&(h, 1u8)));
    F::check(w, &text, &st, mask);
}

pub struct Space<F: Format> {
    /// Alphabet by position; the last one stands for all later positions.
    pub table: Vec<Vec<F::Stmt>>,
    pub depth: usize,
    pub mask: u32,
    /// Statements before and after each sequence.
    pub pre: Vec<F::Stmt>,
    pub post: Vec<F::Stmt>,
}

impl<F: Format> Space<F> {
    fn at(&self, pos: usize) -> &[F::Stmt] {
        &self.table[pos.min(self.table.len() - 1)]
    }
    fn visit(&self, w: &mut W, text: &mut String, st: &F::State) {
        let n = text.len();
        if self.post.is_empty() {
            F::check(w, text, st, self.mask);
        } else {
            let mut st = st.clone();
            for p in &self.post {
                F::apply(&mut st, p);
                text.push_str(F::text(p));
                text.push('\n');
            }
            F::check(w, text, &st, self.mask);
            text.truncate(n);
        }
    }
    fn step(&self, w: &mut W, text: &mut String, st: &F::State, h: u64, s: &F::Stmt) -> (F::State, u64) {
        let mut next = st.clone();
        F::apply(&mut next, s);
        text.push_str(F::text(s));
        text.push('\n');
        let g = F::hash(&next);
        w.state(g);
        w.transition(hash_of(&(h, F::text(s))));
        (next, g)
    }
    fn go(&self, w: &mut W, pos: usize, text: &mut String, st: &F::State, h: u64) {
        self.visit(w, text, st);
        if pos == self.depth || w.stopped() {
            return;
        }
        let n = text.len();
        for s in self.at(pos) {
            let (next, g) = self.step(w, text, st, h, s);
            self.go(w, pos + 1, text, &next, g);
            text.truncate(n);
        }
    }
    fn start(&self, w: &mut W) -> (String, F::State, u64) {
        let (mut text, mut st) = (String::new(), F::State::default());
        let mut h = F::hash(&st);
        w.state(h);
        for s in &self.pre {
            let (a, b) = self.step(w, &mut text, &st, h, s);
            st = a;
            h = b;
        }
        (text, st, h)
    }
}

/// All sequences of length 0..=depth. One task for each first and second statement.
pub fn sequences<F: Format>(family: &str, space: Space<F>) -> Vec<Task>
where
    Space<F>: Send + Sync,
{
    let space = Arc::new(space);
    let mut tasks = vec![];
    let s0 = space.clone();
    tasks.push(task(family, move |w| {
        // Sequences of length 0 and 1.
        let (mut text, st, h) = s0.start(w);
        s0.visit(w, &mut text, &st);
        let n = text.len();
        if s0.depth == 0 {
            return;
        }
        for s in s0.at(0) {
            let (next, _) = s0.step(w, &mut text, &st, h, s);
            s0.visit(w, &mut text, &next);
            w.sample(&text);
            text.truncate(n);
        }
    }));
    if space.depth < 2 {
        return tasks;
    }
    for i in 0..space.at(0).len() {
        for j in 0..space.at(1).len() {
            let sp = space.clone();
            tasks.push(task(family, move |w| {
                let (mut text, st, h) = sp.start(w);
                let (st, h) = sp.step(w, &mut text, &st, h, &sp.at(0)[i]);
                let (st, h) = sp.step(w, &mut text, &st, h, &sp.at(1)[j]);
                sp.go(w, 2, &mut text, &st, h);
            }));
        }
    }
    tasks
}

/// As `sequences`, with one task for each first statement.
pub fn sequences_by_first<F: Format>(family: &str, space: Space<F>) -> Vec<Task>
where
    Space<F>: Send + Sync,
{
    let space = Arc::new(space);
    let first = |i: usize| {
        let sp = space.clone();
        task(family, move |w| {
            let (mut text, st, h) = sp.start(w);
            let (st, h) = sp.step(w, &mut text, &st, h, &sp.at(0)[i]);
            w.sample(&text);
            sp.go(w, 1, &mut text, &st, h);
        })
    };
    (0..space.at(0).len()).map(first).collect()
}

/// Lengths at which counters, buffers and tables of an implementation may change their behaviour.
pub fn lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    let mut b = 64;
    while b <= if thorough { 65536 } else { 4096 } {
        v.extend([b - 1, b, b + 1]);
        b *= 2;
    }
    v.extend([50, 99, 100, 101, 200, 500, 999, 1000, 1001, 2000, 5000, 10000]);
    if !thorough {
        v.push(65537);
    } else {
        v.extend([100_000, 200_001]);
    }
    v
}
