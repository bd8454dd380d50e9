//! Reference state machine for OBJ documents. It works on statements, never on text.

use nobject_rs::Model;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

pub type R = (i32, Option<i32>, Option<i32>);

/// What a statement means.
#[derive(Clone, Debug)]
pub enum Sem {
    V(f32, f32, f32, Option<f32>),
    Vn(f32, f32, f32),
    Vt(f32, Option<f32>, Option<f32>),
    F(Vec<R>),
    L(Vec<(i32, Option<i32>)>),
    P(Vec<i32>),
    G(Vec<String>),
    UseMtl(String),
    /// None: off
    UseMap(Option<String>),
    Bevel(bool),
    CInterp(bool),
    DInterp(bool),
    Lod(u8),
    S(i32),
    MtlLib(String),
    MapLib(String),
    Shadow(String),
    Trace(String),
    Obj,
    /// No statement (blank line, comment).
    Nop,
    /// A line which has to be refused.
    Bad,
}

#[derive(Clone, Debug)]
pub struct Stmt {
    pub text: String,
    pub sem: Sem,
}

pub fn st(text: impl Into<String>, sem: Sem) -> Stmt {
    Stmt { text: text.into(), sem }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct GroupM {
    pub mtl: String,
    pub bevel: bool,
    pub c: bool,
    pub d: bool,
    pub lod: u8,
    pub map: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Elems {
    pub faces: Vec<(Vec<R>, i32)>,
    pub lines: Vec<Vec<(i32, Option<i32>)>>,
    pub points: Vec<Vec<i32>>,
    pub settings: GroupM,
}

#[derive(Clone, Debug)]
pub struct State {
    pub v: Vec<(f32, f32, f32, Option<f32>)>,
    pub vn: Vec<(f32, f32, f32)>,
    pub vt: Vec<(f32, Option<f32>, Option<f32>)>,
    pub groups: BTreeMap<String, Elems>,
    pub mtllibs: Vec<String>,
    pub maplibs: Vec<String>,
    pub shadow: Option<String>,
    pub trace: Option<String>,
    pub active: Vec<String>,
    pub smooth: i32,
    pub bad: bool,
    /// Of a loaded model: what is wrong with its maps.
    pub odd: Vec<String>,
}

impl Default for State {
    fn default() -> Self {
        State {
            v: vec![],
            vn: vec![],
            vt: vec![],
            groups: [("default".to_string(), Elems::default())].into_iter().collect(),
            mtllibs: vec![],
            maplibs: vec![],
            shadow: None,
            trace: None,
            active: vec!["default".to_string()],
            smooth: 0,
            bad: false,
            odd: vec![],
        }
    }
}

fn resolve(i: i32, n: usize) -> i32 {
    if i < 0 {
        let r = n as i64 + 1 + i as i64;
        if r >= 1 {
            return r as i32;
        }
    }
    i
}

impl State {
    fn each(&mut self, mut f: impl FnMut(&mut Elems)) {
        for a in &self.active {
            f(self.groups.get_mut(a).unwrap());
        }
    }
    pub fn apply(&mut self, sem: &Sem) {
        match sem {
            Sem::V(x, y, z, w) => self.v.push((*x, *y, *z, *w)),
            Sem::Vn(x, y, z) => self.vn.push((*x, *y, *z)),
            Sem::Vt(u, v, w) => self.vt.push((*u, *v, *w)),
            Sem::F(refs) => {
                let (a, b, c) = (self.v.len(), self.vt.len(), self.vn.len());
                let refs: Vec<R> = refs.iter().map(|r| (resolve(r.0, a), r.1.map(|i| resolve(i, b)), r.2.map(|i| resolve(i, c)))).collect();
                let s = self.smooth;
                self.each(|e| e.faces.push((refs.clone(), s)));
            },
            Sem::L(refs) => {
                let (a, b) = (self.v.len(), self.vt.len());
                let refs: Vec<_> = refs.iter().map(|r| (resolve(r.0, a), r.1.map(|i| resolve(i, b)))).collect();
                self.each(|e| e.lines.push(refs.clone()));
            },
            Sem::P(refs) => {
                let a = self.v.len();
                let refs: Vec<_> = refs.iter().map(|r| resolve(*r, a)).collect();
                self.each(|e| e.points.push(refs.clone()));
            },
            Sem::G(names) => {
                self.active.clear();
                for n in names {
                    if !self.active.contains(n) {
                        self.active.push(n.clone());
                    }
                    self.groups.entry(n.clone()).or_default();
                }
            },
            Sem::UseMtl(n) => self.each(|e| e.settings.mtl = n.clone()),
            Sem::UseMap(n) => self.each(|e| e.settings.map = n.clone()),
            Sem::Bevel(b) => self.each(|e| e.settings.bevel = *b),
            Sem::CInterp(b) => self.each(|e| e.settings.c = *b),
            Sem::DInterp(b) => self.each(|e| e.settings.d = *b),
            Sem::Lod(l) => self.each(|e| e.settings.lod = *l),
            Sem::S(n) => self.smooth = *n,
            Sem::MtlLib(n) => self.mtllibs.push(n.clone()),
            Sem::MapLib(n) => self.maplibs.push(n.clone()),
            Sem::Shadow(n) => self.shadow = Some(n.clone()),
            Sem::Trace(n) => self.trace = Some(n.clone()),
            Sem::Obj | Sem::Nop => {},
            Sem::Bad => self.bad = true,
        }
    }
    /// Canonical form of the whole state, hidden parts included.
    pub fn hash(&self) -> u64 {
        let mut h = crate::run::Fx::default();
        let f = |h: &mut crate::run::Fx, x: f32| h.write_u32(x.to_bits());
        let o = |h: &mut crate::run::Fx, x: Option<f32>| match x {
            None => h.write_u64(1 << 40),
            Some(x) => h.write_u32(x.to_bits()),
        };
        h.write_usize(self.v.len());
        for (x, y, z, w) in &self.v {
            f(&mut h, *x);
            f(&mut h, *y);
            f(&mut h, *z);
            o(&mut h, *w);
        }
        h.write_usize(self.vn.len());
        for (x, y, z) in &self.vn {
            f(&mut h, *x);
            f(&mut h, *y);
            f(&mut h, *z);
        }
        h.write_usize(self.vt.len());
        for (x, y, z) in &self.vt {
            f(&mut h, *x);
            o(&mut h, *y);
            o(&mut h, *z);
        }
        for (n, e) in &self.groups {
            n.hash(&mut h);
            e.faces.hash(&mut h);
            e.lines.hash(&mut h);
            e.points.hash(&mut h);
            let s = &e.settings;
            (&s.mtl, s.bevel, s.c, s.d, s.lod, &s.map).hash(&mut h);
        }
        (&self.mtllibs, &self.maplibs, &self.shadow, &self.trace, &self.active, self.smooth, self.bad).hash(&mut h);
        h.finish()
    }
}

// What to compare.
pub const DATA: u32 = 1;
/// Number of elements per group, and the names of the groups.
pub const MEMBERS: u32 = 2;
pub const REFS: u32 = 4;
pub const SMOOTH: u32 = 8;
pub const SETTINGS: u32 = 16;
pub const ATTRS: u32 = 32;
pub const ALL: u32 = 63;
/// The names under which there are faces, lines and points.
pub const KEYS: u32 = 64;

pub fn feq(a: f32, b: f32) -> bool {
    a == b || a.to_bits() == b.to_bits()
}
pub fn oeq(a: Option<f32>, b: Option<f32>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => feq(a, b),
        _ => false,
    }
}

/// Compares the parts `mask` of a loaded model with the reference state.
pub fn same(e: &State, m: &Model, mask: u32) -> bool {
    if mask & DATA != 0 {
        let v = e.v.len() == m.vertices.len()
            && e.v.iter().zip(&m.vertices).all(|(a, b)| feq(a.0, b.x) && feq(a.1, b.y) && feq(a.2, b.z) && oeq(a.3, b.w));
        let n = e.vn.len() == m.normals.len() && e.vn.iter().zip(&m.normals).all(|(a, b)| feq(a.0, b.x) && feq(a.1, b.y) && feq(a.2, b.z));
        let t = e.vt.len() == m.textures.len() && e.vt.iter().zip(&m.textures).all(|(a, b)| feq(a.0, b.u) && oeq(a.1, b.v) && oeq(a.2, b.w));
        if !(v && n && t) {
            return false;
        }
    }
    if mask & (MEMBERS | REFS | SMOOTH) != 0 {
        if mask & MEMBERS != 0 && (m.groups.len() != e.groups.len() || !e.groups.keys().all(|k| m.groups.contains_key(k))) {
            return false;
        }
        let (mut nf, mut nl, mut np) = (0, 0, 0);
        for (name, x) in &e.groups {
            let f = m.faces.get(name).map_or(&[][..], |v| &v[..]);
            let l = m.lines.get(name).map_or(&[][..], |v| &v[..]);
            let p = m.points.get(name).map_or(&[][..], |v| &v[..]);
            nf += f.len();
            nl += l.len();
            np += p.len();
            if f.len() != x.faces.len() || l.len() != x.lines.len() || p.len() != x.points.len() {
                return false;
            }
            if mask & SMOOTH != 0 && !x.faces.iter().zip(f).all(|(a, b)| a.1 == b.smoothing_group) {
                return false;
            }
            if mask & REFS != 0 {
                let ok = x.faces.iter().zip(f).all(|(a, b)| {
                    a.0.len() == b.elements.len()
                        && a.0.iter().zip(&b.elements).all(|(r, e)| r.0 == e.vertex_index && r.1 == e.texture_index && r.2 == e.normal_index)
                }) && x.lines.iter().zip(l).all(|(a, b)| {
                    a.len() == b.elements.len() && a.iter().zip(&b.elements).all(|(r, e)| r.0 == e.vertex_index && r.1 == e.texture_index)
                }) && x.points.iter().zip(p).all(|(a, b)| *a == b.elements);
                if !ok {
                    return false;
                }
            }
        }
        // Nothing under any other name.
        if nf != m.faces.values().map(Vec::len).sum::<usize>()
            || nl != m.lines.values().map(Vec::len).sum::<usize>()
            || np != m.points.values().map(Vec::len).sum::<usize>()
        {
            return false;
        }
    }
    if mask & KEYS != 0 && !odd_keys(m).is_empty() {
        return false;
    }
    if mask & SETTINGS != 0 {
        for (name, x) in &e.groups {
            let s = &x.settings;
            match m.groups.get(name) {
                Some(g)
                    if g.material_name == s.mtl
                        && g.bevel == s.bevel
                        && g.c_interp == s.c
                        && g.d_interp == s.d
                        && g.lod == s.lod
                        && g.texture_map == s.map => {},
                _ => return false,
            }
        }
    }
    if mask & ATTRS != 0 && (e.mtllibs != m.material_libs || e.maplibs != m.texture_libs || e.shadow != m.shadow_obj || e.trace != m.trace_obj) {
        return false;
    }
    true
}

/// Names under which there is a list without elements, or one for no group.
fn odd_keys(m: &Model) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    let mut keys = |what: &str, name: &String, n: usize| {
        if n == 0 {
            r.push(format!("empty {what} of {name:?}"));
        }
        if !m.groups.contains_key(name) {
            r.push(format!("{what} of unknown {name:?}"));
        }
    };
    m.faces.iter().for_each(|(k, v)| keys("faces", k, v.len()));
    m.lines.iter().for_each(|(k, v)| keys("lines", k, v.len()));
    m.points.iter().for_each(|(k, v)| keys("points", k, v.len()));
    if !m.groups.contains_key("default") {
        r.push("no default group".into());
    }
    r.sort();
    r
}

/// The reference state of a loaded model (for printing, and for comparing two loads).
pub fn of_model(m: &Model) -> State {
    let mut s = State { groups: BTreeMap::new(), active: vec![], ..State::default() };
    s.v = m.vertices.iter().map(|v| (v.x, v.y, v.z, v.w)).collect();
    s.vn = m.normals.iter().map(|v| (v.x, v.y, v.z)).collect();
    s.vt = m.textures.iter().map(|v| (v.u, v.v, v.w)).collect();
    for (n, g) in &m.groups {
        s.groups.entry(n.clone()).or_default().settings =
            GroupM { mtl: g.material_name.clone(), bevel: g.bevel, c: g.c_interp, d: g.d_interp, lod: g.lod, map: g.texture_map.clone() };
    }
    for (n, l) in &m.faces {
        s.groups.entry(n.clone()).or_default().faces =
            l.iter().map(|f| (f.elements.iter().map(|e| (e.vertex_index, e.texture_index, e.normal_index)).collect(), f.smoothing_group)).collect();
    }
    for (n, l) in &m.lines {
        s.groups.entry(n.clone()).or_default().lines = l.iter().map(|f| f.elements.iter().map(|e| (e.vertex_index, e.texture_index)).collect()).collect();
    }
    for (n, l) in &m.points {
        s.groups.entry(n.clone()).or_default().points = l.iter().map(|f| f.elements.clone()).collect();
    }
    s.mtllibs = m.material_libs.clone();
    s.maplibs = m.texture_libs.clone();
    s.shadow = m.shadow_obj.clone();
    s.trace = m.trace_obj.clone();
    s.odd = odd_keys(m);
    s
}

fn idx(o: Option<i32>) -> String {
    o.map_or("-".into(), |i| i.to_string())
}
fn flt(o: Option<f32>) -> String {
    o.map_or("-".into(), |f| format!("{:?}", f + 0.0))
}

/// The parts `mask` of a state as text. Equal texts if and only if `same`.
pub fn show(s: &State, mask: u32) -> String {
    let mut o = String::from("Ok\n");
    if mask & DATA != 0 {
        for v in &s.v {
            writeln!(o, "v {} {} {} {}", flt(Some(v.0)), flt(Some(v.1)), flt(Some(v.2)), flt(v.3)).unwrap();
        }
        for v in &s.vn {
            writeln!(o, "vn {} {} {}", flt(Some(v.0)), flt(Some(v.1)), flt(Some(v.2))).unwrap();
        }
        for v in &s.vt {
            writeln!(o, "vt {} {} {}", flt(Some(v.0)), flt(v.1), flt(v.2)).unwrap();
        }
    }
    for (n, e) in &s.groups {
        if mask & MEMBERS != 0 {
            writeln!(o, "group {n:?}").unwrap();
        }
        if mask & (MEMBERS | REFS | SMOOTH) != 0 {
            for f in &e.faces {
                write!(o, "face in {n:?}").unwrap();
                if mask & REFS != 0 {
                    for r in &f.0 {
                        write!(o, " {}/{}/{}", r.0, idx(r.1), idx(r.2)).unwrap();
                    }
                }
                if mask & SMOOTH != 0 {
                    write!(o, " smoothing {}", f.1).unwrap();
                }
                o.push('\n');
            }
            for l in &e.lines {
                write!(o, "line in {n:?}").unwrap();
                if mask & REFS != 0 {
                    for r in l {
                        write!(o, " {}/{}", r.0, idx(r.1)).unwrap();
                    }
                }
                o.push('\n');
            }
            for p in &e.points {
                write!(o, "points in {n:?}").unwrap();
                if mask & REFS != 0 {
                    for r in p {
                        write!(o, " {r}").unwrap();
                    }
                }
                o.push('\n');
            }
        }
        if mask & SETTINGS != 0 {
            writeln!(o, "settings of {n:?}: {:?}", e.settings).unwrap();
        }
    }
    if mask & ATTRS != 0 {
        writeln!(o, "mtllibs {:?} maplibs {:?} shadow {:?} trace {:?}", s.mtllibs, s.maplibs, s.shadow, s.trace).unwrap();
    }
    if mask & KEYS != 0 {
        for x in &s.odd {
            writeln!(o, "{x}").unwrap();
        }
    }
    o
}
