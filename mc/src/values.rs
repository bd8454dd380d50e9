//! The types a load returns, as values (P26): equality, clones, constructors and conversions, over all
//! combinations of a grid of field values. Equality of tuples is the specification of equality.

use crate::obj::power;
use crate::explore::lengths;
use crate::run::*;
use crate::{mtl, mtlm, obj, objm};
use nobject_rs::*;
use std::fmt::Debug;

const F: [f32; 12] = [0.0, -0.0, 1.0, -1.0, 0.5, 1.0 + f32::EPSILON, 1.0e-7, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NAN, 16777216.0];
const SOME: [f32; 6] = [0.0, -0.0, 1.0, 1.0 + f32::EPSILON, 1.0e-7, f32::NAN];
const I: [i32; 7] = [0, 1, -1, 2, 257, i32::MAX, i32::MIN];

fn opt<T: Copy>(v: &[T]) -> Vec<Option<T>> {
    std::iter::once(None).chain(v.iter().map(|x| Some(*x))).collect()
}

#[derive(Default)]
struct Report {
    wrong: Vec<String>,
    checked: u64,
    values: u64,
}
impl Report {
    fn is(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.checked += 1;
        if !ok && self.wrong.len() < 3 {
            self.wrong.push(what());
        }
    }
    /// Equality of all pairs, and of clones.
    fn equality<T: Clone + PartialEq + Debug, U: PartialEq + Debug>(&mut self, all: &[(U, T)]) {
        self.values += all.len() as u64;
        for (a, x) in all {
            let c = x.clone();
            self.is(format!("{c:?}") == format!("{x:?}"), || format!("the clone of {x:?} is {c:?}"));
            for (b, y) in all {
                self.is((x == y) == (a == b) && (x != y) == (a != b), || format!("{x:?} == {y:?} is {}", x == y));
            }
        }
    }
    /// The text of a tuple tells all values apart.
    fn same<U: Debug>(&mut self, what: &str, expected: &U, actual: &U) {
        let (e, a) = (format!("{expected:?}"), format!("{actual:?}"));
        self.is(e == a, || format!("{what}: {e} became {a}"));
    }
}

macro_rules! product {
    ([$($done:ident)*] $x:ident in $v:expr $(, $y:ident in $w:expr)*; $r:ident) => {
        for $x in $v.iter().cloned() {
            product!([$($done)* $x] $($y in $w),*; $r);
        }
    };
    ([$($done:ident)*]; $r:ident) => {
        $r.push(($($done.clone(),)*));
    };
}

/// A type with one field after another: in a tuple, in the constructor, in both conversions.
macro_rules! record {
    ($r:ident, $t:ident { $($f:ident: $grid:expr, $few:expr);+ }) => {{
        let mut all = vec![];
        product!([] $($f in $grid),+; all);
        for tuple in &all {
            let ($($f,)+) = tuple.clone();
            let literal = $t { $($f: $f.clone()),+ };
            let new = $t::new($($f.clone()),+);
            $r.same(concat!(stringify!($t), "::new"), tuple, &($(new.$f.clone(),)+));
            let from = $t::from(one!($($f.clone()),+));
            $r.same(concat!(stringify!($t), "::from"), tuple, &($(from.$f.clone(),)+));
            let unone!($($f),+) = literal.into();
            $r.same(concat!(stringify!($t), "::into"), tuple, &($($f,)+));
        }
        $r.values += all.len() as u64;
        let mut few = vec![];
        product!([] $($f in $few),+; few);
        let pairs: Vec<_> = few.into_iter().map(|tuple| {
            let ($($f,)+) = tuple.clone();
            (tuple, $t { $($f),+ })
        }).collect();
        $r.equality(&pairs);
    }};
}
macro_rules! one {
    ($e:expr) => { $e };
    ($($e:expr),+) => { ($($e),+) };
}
macro_rules! unone {
    ($p:pat) => { $p };
    ($($p:pat),+) => { ($($p),+) };
}

fn names() -> Vec<String> {
    ["", "a", "A", "a ", "é", "default"].map(String::from).to_vec()
}
fn opt_names() -> Vec<Option<String>> {
    std::iter::once(None).chain(names().into_iter().map(Some)).collect()
}

fn face_elements() -> Vec<FaceElement> {
    let mut r = vec![];
    for v in [1, -1] {
        for t in [None, Some(1), Some(2)] {
            for n in [None, Some(1), Some(2)] {
                r.push(FaceElement { vertex_index: v, texture_index: t, normal_index: n });
            }
        }
    }
    r
}

fn lists<T: Clone>(of: &[T], depth: usize) -> Vec<Vec<T>> {
    let mut r = vec![];
    for n in 0..=depth {
        power(of.len(), n, |c| {
            r.push(c.iter().map(|&i| of[i].clone()).collect());
            true
        });
    }
    r
}

/// All combinations of two fields of a type, and each one alone, from an empty and from a full value.
fn fields<T: Clone + PartialEq + Debug>(r: &mut Report, bases: &[T], set: &[(&str, Vec<Box<dyn Fn(&mut T)>>)]) {
    for base in bases {
        // What a value is: the last choice for each field.
        let mut all: Vec<(Vec<usize>, T)> = vec![(vec![0; set.len()], base.clone())];
        for i in 0..set.len() {
            for a in 0..set[i].1.len() {
                let mut x = base.clone();
                set[i].1[a](&mut x);
                let mut k = vec![0; set.len()];
                k[i] = a + 1;
                all.push((k.clone(), x.clone()));
                for j in i + 1..set.len() {
                    for b in 0..set[j].1.len() {
                        let mut y = x.clone();
                        set[j].1[b](&mut y);
                        let mut l = k.clone();
                        l[j] = b + 1;
                        all.push((l, y));
                    }
                }
            }
        }
        r.equality(&all);
    }
}

macro_rules! sets {
    ($t:ty; $($f:ident = $($v:expr),+);+) => {
        vec![$((stringify!($f), vec![$(Box::new(|x: &mut $t| x.$f = $v) as Box<dyn Fn(&mut $t)>),+])),+]
    };
}

fn cc() -> ColorCorrectedMap {
    ColorCorrectedMap { file_name: "f".into(), ..Default::default() }
}
fn ncc() -> NonColorCorrectedMap {
    NonColorCorrectedMap { file_name: "f".into(), ..Default::default() }
}

const TYPES: [&str; 14] =
    ["Vertex", "Normal", "Texture", "Group", "FaceElement", "Face", "LineElement", "Line", "Point", "ColorCorrectedMap", "NonColorCorrectedMap", "BumpMap and ReflectionMap", "colours and dissolve", "Material"];

fn explore(name: &str) -> Report {
    let mut rep = Report::default();
    let r = &mut rep;
    let flags = [false, true];
    match name {
        "Vertex" => {
            record!(r, Vertex { x: F, SOME; y: F, SOME[..4]; z: F, SOME[..4]; w: opt(&F), opt(&SOME) });
            r.same("Vertex::default", &Vertex { x: 0.0, y: 0.0, z: 0.0, w: None }, &Vertex::default());
        },
        "Normal" => {
            record!(r, Normal { x: F, F; y: F, SOME; z: F, SOME });
            r.same("Normal::default", &Normal { x: 0.0, y: 0.0, z: 0.0 }, &Normal::default());
        },
        "Texture" => {
            record!(r, Texture { u: F, SOME; v: opt(&F), opt(&SOME); w: opt(&F), opt(&SOME) });
            r.same("Texture::default", &Texture { u: 0.0, v: None, w: None }, &Texture::default());
        },
        "Group" => {
            record!(r, Group { material_name: names(), names()[..4]; bevel: flags, flags; c_interp: flags, flags; d_interp: flags, flags;
                lod: [0u8, 1, 100, 255], [0u8, 1, 255]; texture_map: opt_names(), opt_names()[..4] });
            let none = Group { material_name: String::new(), bevel: false, c_interp: false, d_interp: false, lod: 0, texture_map: None };
            r.same("Group::default", &none, &Group::default());
        },
        "FaceElement" => {
            record!(r, FaceElement { vertex_index: I, I; texture_index: opt(&I), opt(&I); normal_index: opt(&I), opt(&I) });
            r.same("FaceElement::default", &FaceElement { vertex_index: 0, texture_index: None, normal_index: None }, &FaceElement::default());
        },
        "Face" => {
            let few: Vec<FaceElement> = face_elements().into_iter().step_by(3).collect();
            record!(r, Face { elements: lists(&face_elements(), 2), lists(&few, 3); smoothing_group: I, I[..4] });
            r.same("Face::default", &Face { elements: vec![], smoothing_group: 0 }, &Face::default());
        },
        "LineElement" => {
            record!(r, LineElement { vertex_index: I, I; texture_index: opt(&I), opt(&I) });
            r.same("LineElement::default", &LineElement { vertex_index: 0, texture_index: None }, &LineElement::default());
        },
        "Line" => {
            let e: Vec<LineElement> = [1, 2, -1].iter().flat_map(|&v| opt(&[1, 2]).into_iter().map(move |t| LineElement { vertex_index: v, texture_index: t })).collect();
            record!(r, Line { elements: lists(&e, 3), lists(&e, 3) });
            r.same("Line::default", &Line { elements: vec![] }, &Line::default());
        },
        "Point" => {
            record!(r, Point { elements: lists(&I, 3), lists(&I, 3) });
            r.same("Point::default", &Point { elements: vec![] }, &Point::default());
        },
        "ColorCorrectedMap" => {
            let full = ColorCorrectedMap {
                file_name: "x".into(),
                blend_u: Some(false),
                blend_v: Some(false),
                color_correct: Some(false),
                clamp: Some(false),
                texture_range: Some((9.0, 9.0)),
                offset: Some((9.0, None, None)),
                scale: Some((9.0, None, None)),
                turbulance: Some((9.0, None, None)),
                texture_res: Some(9),
            };
            let empty = ColorCorrectedMap { file_name: String::new(), blend_u: None, blend_v: None, color_correct: None, clamp: None, texture_range: None, offset: None, scale: None, turbulance: None, texture_res: None };
            r.same("ColorCorrectedMap::default", &empty, &ColorCorrectedMap::default());
            let s = sets!(ColorCorrectedMap;
                file_name = "a".into(), "A".into(), "a ".into(); blend_u = Some(true); blend_v = Some(true); color_correct = Some(true); clamp = Some(true);
                texture_range = Some((1.0, 2.0)), Some((2.0, 1.0)), Some((1.0, 2.0 + 2.0 * f32::EPSILON));
                offset = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, None, Some(0.0))), Some((1.0, Some(1.0), Some(2.0)));
                scale = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, Some(2.0), Some(1.0)));
                turbulance = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, Some(0.0), Some(0.0)));
                texture_res = Some(0), Some(1), Some(-1));
            fields(r, &[ColorCorrectedMap::default(), full], &s);
        },
        "NonColorCorrectedMap" => {
            let full = NonColorCorrectedMap {
                file_name: "x".into(),
                blend_u: Some(false),
                blend_v: Some(false),
                clamp: Some(false),
                imf_chan: Some("x".into()),
                texture_range: Some((9.0, 9.0)),
                offset: Some((9.0, None, None)),
                scale: Some((9.0, None, None)),
                turbulance: Some((9.0, None, None)),
                texture_res: Some(9),
            };
            let empty = NonColorCorrectedMap { file_name: String::new(), blend_u: None, blend_v: None, clamp: None, imf_chan: None, texture_range: None, offset: None, scale: None, turbulance: None, texture_res: None };
            r.same("NonColorCorrectedMap::default", &empty, &NonColorCorrectedMap::default());
            let s = sets!(NonColorCorrectedMap;
                file_name = "a".into(), "A".into(), "a ".into(); blend_u = Some(true); blend_v = Some(true); clamp = Some(true); imf_chan = Some("r".into()), Some("R".into()), Some(String::new());
                texture_range = Some((1.0, 2.0)), Some((2.0, 1.0)), Some((1.0, 2.0 + 2.0 * f32::EPSILON));
                offset = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, None, Some(0.0))), Some((1.0, Some(1.0), Some(2.0)));
                scale = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, Some(2.0), Some(1.0)));
                turbulance = Some((1.0, None, None)), Some((1.0, Some(0.0), None)), Some((1.0, Some(0.0), Some(0.0)));
                texture_res = Some(0), Some(1), Some(-1));
            fields(r, &[NonColorCorrectedMap::default(), full], &s);
        },
        "BumpMap and ReflectionMap" => {
            r.same("BumpMap::default", &BumpMap { bump_multiplier: None, map_settings: None }, &BumpMap::default());
            r.same("ReflectionMap::default", &ReflectionMap { reflection_type: String::new(), map_settings: None }, &ReflectionMap::default());
            let s = sets!(BumpMap; bump_multiplier = Some(0.0), Some(1.0), Some(1.0 + f32::EPSILON);
                map_settings = Some(NonColorCorrectedMap::default()), Some(ncc()), Some(NonColorCorrectedMap { clamp: Some(true), ..ncc() }), Some(NonColorCorrectedMap { clamp: Some(false), ..ncc() }));
            fields(r, &[BumpMap::default()], &s);
            let s = sets!(ReflectionMap; reflection_type = "sphere".into(), "Sphere".into(), "cube_top".into();
                map_settings = Some(ColorCorrectedMap::default()), Some(cc()), Some(ColorCorrectedMap { clamp: Some(true), ..cc() }), Some(ColorCorrectedMap { clamp: Some(false), ..cc() }));
            fields(r, &[ReflectionMap::default()], &s);
        },
        "colours and dissolve" => {
            let mut all = vec![];
            for a in F {
                for b in SOME {
                    all.push(((0, a, b, 0.0, String::new()), ColorType::Rgb(a, b, 0.0)));
                    all.push(((0, 5.0, a, b, String::new()), ColorType::Rgb(5.0, a, b)));
                    all.push(((1, a, b, 0.0, String::new()), ColorType::CieXyz(a, b, 0.0)));
                    all.push(((1, 5.0, a, b, String::new()), ColorType::CieXyz(5.0, a, b)));
                }
                for n in names() {
                    all.push(((2, a, 0.0, 0.0, n.clone()), ColorType::Spectral(n, a)));
                }
            }
            r.equality(&all);
            let d: Vec<_> = F.iter().flat_map(|&f| [((0, f), DisolveType::Alpha(f)), ((1, f), DisolveType::Halo(f))]).collect();
            r.equality(&d);
        },
        _ => {
            let empty = Material {
                name: String::new(),
                ambient: None,
                diffuse: None,
                specular: None,
                emissive_coefficient: None,
                specular_exponent: None,
                disolve: None,
                transparancy: None,
                transmission_factor: None,
                sharpness: None,
                index_of_refraction: None,
                illumination_mode: None,
                texture_map_ambient: None,
                texture_map_diffuse: None,
                texture_map_specular: None,
                shininess_map: None,
                disolve_map: None,
                displacement_map: None,
                decal: None,
                bump_map: None,
                reflection_map: None,
                anti_alias_map: None,
            };
            r.same("Material::default", &empty, &Material::default());
            let s = sets!(Material;
                name = "a".into(), "A".into(), "b".into();
                ambient = Some(ColorType::Rgb(1.0, 2.0, 3.0)), Some(ColorType::CieXyz(1.0, 2.0, 3.0));
                diffuse = Some(ColorType::Rgb(1.0, 2.0, 3.0)), Some(ColorType::Rgb(1.0, 2.0, 3.0 + 3.0 * f32::EPSILON));
                specular = Some(ColorType::Rgb(1.0, 2.0, 3.0)), Some(ColorType::Spectral("f".into(), 1.0));
                emissive_coefficient = Some(ColorType::Rgb(1.0, 2.0, 3.0)), Some(ColorType::Spectral("f".into(), 2.0));
                specular_exponent = Some(0.0), Some(1.0);
                disolve = Some(DisolveType::Alpha(1.0)), Some(DisolveType::Halo(1.0)), Some(DisolveType::Halo(0.5));
                transparancy = Some(0.0), Some(1.0);
                transmission_factor = Some(ColorType::Rgb(1.0, 2.0, 3.0)), Some(ColorType::Rgb(3.0, 2.0, 1.0));
                sharpness = Some(0.0), Some(1.0);
                index_of_refraction = Some(0.0), Some(1.0);
                illumination_mode = Some(0), Some(1), Some(u32::MAX);
                texture_map_ambient = Some(ColorCorrectedMap::default()), Some(cc());
                texture_map_diffuse = Some(ColorCorrectedMap::default()), Some(cc());
                texture_map_specular = Some(ColorCorrectedMap::default()), Some(cc());
                shininess_map = Some(NonColorCorrectedMap::default()), Some(ncc());
                disolve_map = Some(NonColorCorrectedMap::default()), Some(ncc());
                displacement_map = Some(NonColorCorrectedMap::default()), Some(ncc());
                decal = Some(NonColorCorrectedMap::default()), Some(ncc());
                bump_map = Some(BumpMap::default()), Some(BumpMap { bump_multiplier: Some(1.0), map_settings: None });
                reflection_map = Some(ReflectionMap::default()), Some(ReflectionMap { reflection_type: "sphere".into(), map_settings: None });
                anti_alias_map = Some(false), Some(true));
            fields(r, &[Material::default()], &s);
        },
    }
    rep
}

/// What is wrong with loaded values: copies that differ, or equality that is not that of the reference machine.
fn loaded(fmt: Fmt, docs: &[String]) -> Report {
    let mut r = Report::default();
    match fmt {
        Fmt::Obj => {
            for d in docs {
                let Ok(Ok(m)) = call(|| load_obj(d)) else { continue };
                let c = m.clone();
                let (a, b) = (objm::show(&objm::of_model(&m), objm::ALL | objm::KEYS), objm::show(&objm::of_model(&c), objm::ALL | objm::KEYS));
                r.is(a == b, || format!("{a} has the clone {b}"));
                r.values += 1;
            }
        },
        Fmt::Mtl => {
            let all: Vec<_> = docs.iter().filter_map(|d| Some((mtlm::of_materials(call(|| load_mtl(d)).ok()?.as_ref().ok()?), call(|| load_mtl(d)).ok()?.ok()?))).collect();
            r.values += all.len() as u64;
            for (a, x) in &all {
                let c = x.clone();
                let (s, t) = (mtlm::show(a, mtlm::ALL), mtlm::show(&mtlm::of_materials(&c), mtlm::ALL));
                r.is(s == t, || format!("{s} has the clone {t}"));
                for (b, y) in &all {
                    let same = a.mats.len() == b.mats.len() && a.mats.iter().zip(&b.mats).all(|(a, b)| mtlm::same_mat(a, b, mtlm::ALL));
                    r.is((x == y) == same && (x != y) != same, || format!("{x:?} == {y:?} is {}", x == y));
                }
            }
        },
    }
    r
}

/// Decides one part again (for replays).
pub fn relation(kind: &str, fmt: Fmt, docs: &[String]) -> String {
    let r = if kind == "type" { explore(&docs[0]) } else { loaded(fmt, docs) };
    r.wrong.first().cloned().unwrap_or("holds".into())
}

fn report(w: &mut W, kind: &str, fmt: Fmt, docs: Vec<String>, r: Report) {
    w.add(r.values, r.values, r.checked);
    for x in r.wrong {
        let v = Violation { family: w.family.clone(), kind: kind.into(), fmt, docs: docs.clone(), expected: "holds".into(), actual: x, mask: 0 };
        w.violation(v);
    }
}

pub fn p26(th: bool) -> Vec<Task> {
    let mut t: Vec<Task> = TYPES
        .into_iter()
        .map(|name| {
            task("types", move |w| {
                w.sample(name);
                let r = explore(name);
                report(w, "type", Fmt::Obj, vec![name.into()], r);
            })
        })
        .collect();
    // Everything that is loaded from one or two statements.
    let lines = |v: &[mtlm::Stmt], u: &[mtlm::Stmt]| -> Vec<String> {
        let mut r: Vec<String> = v.iter().map(|s| format!("newmtl m\n{}\n", s.text)).collect();
        r.extend(v.iter().flat_map(|a| u.iter().map(move |b| format!("newmtl m\n{}\n{}\n", a.text, b.text))));
        r
    };
    let (one, two) = (mtl::full(1), mtl::full(2));
    let all = lines(&one, &[]).into_iter().chain(lines(&two, &[])).collect::<Vec<_>>();
    let pairs = lines(&mtl::kinds(1), &mtl::kinds(2));
    for docs in [all, pairs] {
        t.push(task("loaded-materials", move |w| {
            w.sample(&docs[0]);
            let r = loaded(Fmt::Mtl, &docs);
            report(w, "loaded", Fmt::Mtl, docs.clone(), r);
        }));
    }
    // Whole models and materials of every length: of one kind of statement, and of all kinds by turns.
    let kinds = obj::kinds(1).len();
    for k in 0..=kinds {
        t.push(task("long-models", move |w| {
            for n in lengths(w.thorough()).into_iter().filter(|&n| n <= if k == kinds { 1025 } else { 10_000 }) {
                let text: String = (0..n).flat_map(|i| obj::kinds(i + 1).into_iter().enumerate().filter(|(j, _)| k == kinds || *j == k).map(|(_, s)| s.text + "\n").collect::<Vec<_>>()).collect();
                let r = loaded(Fmt::Obj, std::slice::from_ref(&text));
                report(w, "loaded", Fmt::Obj, vec![text], r);
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    t.push(task("long-materials", move |w| {
        for n in lengths(w.thorough()).into_iter().filter(|&n| n <= 1025) {
            let kinds = mtl::kinds(1).len();
            let full: String = (0..n).map(|i| format!("newmtl m{i}\n") + &mtl::kinds(i + 1).into_iter().map(|s| s.text + "\n").collect::<String>()).collect();
            let sparse: String = (0..n).map(|i| format!("newmtl m{i}\n{}\n", mtl::kinds(i + 1)[i % kinds].text)).collect();
            let less: String = sparse.lines().take(2 * n.saturating_sub(1)).map(|l| format!("{l}\n")).collect();
            let docs = vec![full, sparse, less];
            let r = loaded(Fmt::Mtl, &docs);
            report(w, "loaded", Fmt::Mtl, docs, r);
            if w.stopped() {
                return;
            }
        }
    }));
    let (a, b) = (obj::full(1), obj::full(2));
    for x in a {
        let b = b.clone();
        t.push(task("loaded-models", move |w| {
            let mut docs = vec![format!("{}\n", x.text)];
            for y in &b {
                docs.push(format!("{}\n{}\n", x.text, y.text));
                if th {
                    docs.extend(b.iter().map(|z| format!("{}\n{}\n{}\n", x.text, y.text, z.text)));
                }
            }
            w.sample(&docs[0]);
            let r = loaded(Fmt::Obj, &docs);
            report(w, "loaded", Fmt::Obj, docs, r);
        }));
    }
    t
}
