//! Relations between the loads of different documents (P20, P21). No reference machine takes part in these:
//! the loads are compared with each other.

use crate::explore::*;
use crate::mtlm::{of_materials, same_mat};
use crate::obj::power;
use crate::objm::{feq, oeq, of_model};
use crate::run::*;
use crate::{mtl, mtlm, obj, objm, small, whole};
use nobject_rs::{Material, MaterialError, Model, ObjError};
use std::collections::BTreeMap;
use std::sync::Arc;

fn v_eq(a: &(f32, f32, f32, Option<f32>), b: &(f32, f32, f32, Option<f32>)) -> bool {
    feq(a.0, b.0) && feq(a.1, b.1) && feq(a.2, b.2) && oeq(a.3, b.3)
}
fn n_eq(a: &(f32, f32, f32), b: &(f32, f32, f32)) -> bool {
    feq(a.0, b.0) && feq(a.1, b.1) && feq(a.2, b.2)
}
fn t_eq(a: &(f32, Option<f32>, Option<f32>), b: &(f32, Option<f32>, Option<f32>)) -> bool {
    feq(a.0, b.0) && oeq(a.1, b.1) && oeq(a.2, b.2)
}
fn all_eq<T>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b))
}

/// What is left of each list of `long` behind those of `short`; None if they are not prefixes.
fn rest(short: &objm::State, long: &objm::State) -> Result<objm::State, String> {
    fn tail<T: Clone>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool, what: &str) -> Result<Vec<T>, String> {
        if a.len() > b.len() || !all_eq(a, &b[..a.len()], eq) {
            return Err(format!("{what} changed"));
        }
        Ok(b[a.len()..].to_vec())
    }
    let mut r = objm::State { groups: BTreeMap::new(), ..Default::default() };
    r.v = tail(&short.v, &long.v, v_eq, "vertices")?;
    r.vn = tail(&short.vn, &long.vn, n_eq, "normals")?;
    r.vt = tail(&short.vt, &long.vt, t_eq, "textures")?;
    r.mtllibs = tail(&short.mtllibs, &long.mtllibs, |a, b| a == b, "material libraries")?;
    r.maplibs = tail(&short.maplibs, &long.maplibs, |a, b| a == b, "texture libraries")?;
    let none = objm::Elems::default();
    for name in short.groups.keys() {
        if !long.groups.contains_key(name) {
            return Err(format!("group {name:?} is gone"));
        }
    }
    for (name, e) in &long.groups {
        let s = short.groups.get(name).unwrap_or(&none);
        r.groups.insert(
            name.clone(),
            objm::Elems {
                faces: tail(&s.faces, &e.faces, |a, b| a == b, &format!("faces of {name:?}"))?,
                lines: tail(&s.lines, &e.lines, |a, b| a == b, &format!("lines of {name:?}"))?,
                points: tail(&s.points, &e.points, |a, b| a == b, &format!("points of {name:?}"))?,
                settings: Default::default(),
            },
        );
    }
    Ok(r)
}

/// Whether a document and a longer one that starts with it load as they have to.
fn obj_prefix(a: &Out<Model>, ab: &Out<Model>) -> Result<(), String> {
    match (a, ab) {
        (Err(p), _) | (_, Err(p)) => Err(p.clone()),
        (Ok(Err(_)), Ok(Err(_))) | (Ok(Ok(_)), Ok(Err(_))) => Ok(()),
        (Ok(Err(e)), Ok(Ok(_))) => Err(format!("the first part is refused ({}), the whole is not", short(e))),
        (Ok(Ok(a)), Ok(Ok(ab))) => rest(&of_model(a), &of_model(ab)).map(|_| ()),
    }
}

fn obj_concat(a: &Out<Model>, b: &Out<Model>, ab: &Out<Model>) -> Result<(), String> {
    obj_prefix(a, ab)?;
    let (Ok(Ok(a)), Ok(Ok(b))) = (a, b) else {
        return match b {
            Err(p) => Err(p.clone()),
            Ok(_) => Ok(()),
        };
    };
    let ab = match ab {
        Ok(Ok(ab)) => ab,
        Ok(Err(e)) => return Err(format!("both parts load, the whole does not: {}", short(e))),
        Err(p) => return Err(p.clone()),
    };
    let r = rest(&of_model(a), &of_model(ab))?;
    let b = of_model(b);
    let lists = all_eq(&r.v, &b.v, v_eq) && all_eq(&r.vn, &b.vn, n_eq) && all_eq(&r.vt, &b.vt, t_eq) && r.mtllibs == b.mtllibs && r.maplibs == b.maplibs;
    if !lists {
        return Err("a list is not the concatenation of those of the parts".into());
    }
    let none = objm::Elems::default();
    for name in r.groups.keys().chain(b.groups.keys()) {
        let (x, y) = (r.groups.get(name).unwrap_or(&none), b.groups.get(name).unwrap_or(&none));
        if x.faces != y.faces || x.lines != y.lines || x.points != y.points {
            return Err(format!("the lists of group {name:?} are not the concatenations of those of the parts"));
        }
    }
    Ok(())
}

fn mtl_concat(a: &Out<Vec<Material>>, b: &Out<Vec<Material>>, ab: &Out<Vec<Material>>) -> Result<(), String> {
    for p in [a, b, ab] {
        if let Err(p) = p {
            return Err(p.clone());
        }
    }
    let (Ok(a), Ok(b), Ok(ab)) = (a, b, ab) else { unreachable!() };
    for x in [a, b] {
        if let (Err(e), Ok(_)) = (x, ab) {
            if !mtlm::is_new_material_error(e) {
                return Err(format!("a part is refused ({}), the whole is not", short(e)));
            }
        }
    }
    let (Ok(a), Ok(b)) = (a, b) else { return Ok(()) };
    match ab {
        Err(e) => Err(format!("both parts load, the whole does not: {}", short(e))),
        Ok(ab) => {
            let (a, b, ab) = (of_materials(a).mats, of_materials(b).mats, of_materials(ab).mats);
            if a.len() + b.len() != ab.len() {
                return Err(format!("{} and {} materials apart, {} together", a.len(), b.len(), ab.len()));
            }
            match a.iter().chain(&b).zip(&ab).position(|(x, y)| !same_mat(x, y, mtlm::ALL)) {
                Some(i) => Err(format!("material {i} differs")),
                None => Ok(()),
            }
        },
    }
}

/// Decides one relation from scratch (for replays).
pub fn relation(kind: &str, fmt: Fmt, docs: &[String]) -> String {
    let obj = |t: &str| call(|| nobject_rs::load_obj(t));
    let mtl = |t: &str| call(|| nobject_rs::load_mtl(t));
    let r = match (kind, fmt) {
        ("prefix", Fmt::Obj) => obj_prefix(&obj(&docs[0]), &obj(&docs[1])),
        ("concat", Fmt::Obj) => obj_concat(&obj(&docs[0]), &obj(&docs[1]), &obj(&docs.concat())),
        ("first error", _) => same_error(&refusal(fmt, &docs[0]), &refusal(fmt, &docs[1]), true),
        ("kind of error", _) => same_error(&refusal(fmt, &docs[0]), &refusal(fmt, &docs[1]), false),
        ("concat", Fmt::Mtl) => mtl_concat(&mtl(&docs[0]), &mtl(&docs[1]), &mtl(&docs.concat())),
        _ => panic!("unknown relation {kind}"),
    };
    r.map_or_else(|e| e, |_| "holds".into())
}

fn broken(w: &mut W, kind: &str, fmt: Fmt, docs: &[&str], why: String) {
    let v = Violation {
        family: w.family.clone(),
        kind: kind.into(),
        fmt,
        docs: docs.iter().map(|d| d.to_string()).collect(),
        expected: "holds".into(),
        actual: why,
        mask: 0,
    };
    w.violation(v);
}

/// A state of these explorations is what a document loads as.
fn seen_obj(w: &mut W, o: &Out<Model>) -> u64 {
    let h = match o {
        Ok(Ok(m)) => of_model(m).hash(),
        Ok(Err(_)) => 1,
        Err(_) => 2,
    };
    w.state(h);
    h
}
fn seen_mtl(w: &mut W, o: &Out<Vec<Material>>) -> u64 {
    let h = match o {
        Ok(Ok(m)) => of_materials(m).hash(),
        Ok(Err(_)) => 1,
        Err(_) => 2,
    };
    w.state(h);
    h
}

/// All sequences of lines; each document with the one a line shorter.
fn grow(w: &mut W, lines: &[String], depth: usize, text: &mut String, parent: &Out<Model>, h: u64) {
    if depth == 0 || w.stopped() {
        return;
    }
    let n = text.len();
    for l in lines {
        text.push_str(l);
        text.push('\n');
        let child = w.obj(text);
        let g = seen_obj(w, &child);
        w.transition(hash_of(&(h, g, l)));
        if let Err(why) = obj_prefix(parent, &child) {
            let (a, b) = (text[..n].to_string(), text.clone());
            broken(w, "prefix", Fmt::Obj, &[&a, &b], why);
        }
        w.sample(text);
        grow(w, lines, depth - 1, text, &child, g);
        text.truncate(n);
    }
}

fn growing(family: &str, lines: Arc<Vec<String>>, depth: usize) -> Vec<Task> {
    (0..lines.len())
        .flat_map(|i| {
            let lines = lines.clone();
            (0..lines.len()).map(move |j| (lines.clone(), i, j))
        })
        .map(|(lines, i, j)| {
            task(family, move |w| {
                let mut text = String::new();
                let none = w.obj(&text);
                let h = seen_obj(w, &none);
                if j == 0 {
                    grow(w, &lines[i..=i], 1, &mut text, &none, h);
                }
                text = format!("{}\n", lines[i]);
                let one = w.obj(&text);
                let h = seen_obj(w, &one);
                if depth < 2 {
                    return;
                }
                grow(w, &lines[j..=j], 1, &mut text, &one, h);
                text.push_str(&format!("{}\n", lines[j]));
                let two = w.obj(&text);
                let h = seen_obj(w, &two);
                grow(w, &lines, depth - 2, &mut text, &two, h);
            })
        })
        .collect()
}

/// Documents of up to `depth` lines.
fn up_to(lines: &[String], depth: usize, head: &str) -> Vec<String> {
    let mut r = vec![];
    for n in 0..=depth {
        power(lines.len(), n, |c| {
            r.push(head.to_string() + &c.iter().map(|&i| format!("{}\n", lines[i])).collect::<String>());
            true
        });
    }
    r
}

fn pairs(family: &str, fmt: Fmt, first: Arc<Vec<String>>, second: Arc<Vec<String>>) -> Vec<Task> {
    let step = (first.len() / 64).max(1);
    (0..first.len())
        .step_by(step)
        .map(|at| {
            let (first, second) = (first.clone(), second.clone());
            task(family, move |w| {
                let mine = &first[at..(at + step).min(first.len())];
                match fmt {
                    Fmt::Obj => {
                        let x: Vec<_> = mine.iter().map(|d| w.obj(d)).collect();
                        for b in second.iter() {
                            let y = w.obj(b);
                            for (a, x) in mine.iter().zip(&x) {
                                let z = w.obj(&[&a[..], b].concat());
                                let h = seen_obj(w, &z);
                                w.transition(hash_of(&(a, h)));
                                if let Err(why) = obj_concat(x, &y, &z) {
                                    broken(w, "concat", fmt, &[a, b], why);
                                }
                            }
                            w.sample(&format!("{}+ {b}", mine[0]));
                            if w.stopped() {
                                return;
                            }
                        }
                    },
                    Fmt::Mtl => {
                        let x: Vec<_> = mine.iter().map(|d| w.mtl(d)).collect();
                        for b in second.iter() {
                            let y = w.mtl(b);
                            for (a, x) in mine.iter().zip(&x) {
                                let z = w.mtl(&[&a[..], b].concat());
                                let h = seen_mtl(w, &z);
                                w.transition(hash_of(&(a, h)));
                                if let Err(why) = mtl_concat(x, &y, &z) {
                                    broken(w, "concat", fmt, &[a, b], why);
                                }
                            }
                            w.sample(&format!("{}+ {b}", mine[0]));
                            if w.stopped() {
                                return;
                            }
                        }
                    },
                }
            })
        })
        .collect()
}

fn texts(v: &[objm::Stmt]) -> Vec<String> {
    v.iter().map(|s| s.text.clone()).collect()
}
fn mtexts(v: &[mtlm::Stmt]) -> Vec<String> {
    v.iter().map(|s| s.text.clone()).collect()
}

/// Documents of many parts alike or different, with what may be between and behind them.
fn separated(fmt: Fmt) -> Vec<Task> {
    let (parts, between): (Vec<&str>, [&str; 8]) = match fmt {
        Fmt::Obj => (
            vec![
                "v 1 2 3\n", "g a\nf 1 2 3\n", "g a b c\nf 1 2 3\nl 1 2\np 1\n", "g b c d e\ns 3\nf 1 2 3\nusemtl x\n", "g default\nl 1 2\n", "o x\nv 1 2 3\nv 4 5 6\ng x\nf 1 2 1\n", "mtllib a.mtl\nmtllib b.mtl\n", "vt 1\nvn 1 2 3\n", "g c b a\np 7\n",
                "g a\nlod 3\nbevel on\nusemap t\n",
            ],
            ["", "\n", "\n\n", "# c\n", "\r\n", "\t\n", "#\n\n#\n", "g default\n"],
        ),
        Fmt::Mtl => (
            vec![
                "newmtl a\n", "newmtl a\nKd 1 1 1\n", "newmtl b\nKd 1 1 1\nNs 3\n", "newmtl c\nmap_Kd a.png\nd 0.5\n", "newmtl a\nnewmtl b\nnewmtl c\nillum 1\n", "newmtl b\nbump -bm 2 a.png\nrefl -type sphere b.png\n", "newmtl A\nKd 2 2 2\n",
                "newmtl a b\nTr 1\nKe spectral a.rfl\n",
            ],
            ["", "\n", "\n\n", "# c\n", "\r\n", "\t\n", "#\n\n#\n", "# newmtl z\n"],
        ),
    };
    let parts: Vec<String> = parts.into_iter().map(String::from).collect();
    let mut t = vec![];
    for a in 0..parts.len() {
        let parts = parts.clone();
        t.push(task("separated", move |w| {
            for n in [1, 2, 3, 4, 7, 20] {
                for step in [0, 1, 3] {
                    for sep in between {
                        let first: String = (0..n).map(|i| format!("{}{sep}", parts[(a + step * i) % parts.len()])).collect();
                        for m in [1, 2, 5] {
                            for b in 0..parts.len() {
                                // The second part names its group and its smoothing group.
                                let head = if fmt == Fmt::Obj { "g z\ns 9\n" } else { "" };
                                let second: String = head.to_string() + &(0..m).map(|i| format!("{}{sep}", parts[(b + step * i) % parts.len()])).collect::<String>();
                                for end in ["", "\n", "\n\n"] {
                                    let (b, all) = (format!("{second}{end}"), format!("{first}{second}{end}"));
                                    w.transition(hash_of(&all));
                                    let wrong = match fmt {
                                        Fmt::Obj => obj_concat(&w.obj(&first), &w.obj(&b), &w.obj(&all)),
                                        Fmt::Mtl => mtl_concat(&w.mtl(&first), &w.mtl(&b), &w.mtl(&all)),
                                    };
                                    if let Err(why) = wrong {
                                        broken(w, "concat", fmt, &[&first, &b], why);
                                    }
                                }
                            }
                        }
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    t
}

const ODD_OBJ: [&str; 14] =
    ["g a b c", "g b c d a", "f -1 -1 -1", "f -1/-1/-1 -1//-1 -2", "l -1 -2/-1", "p -1", "v 1 2", "foo", "v 1 2 3 x", "g", "s on", "# c", "\t \t", "f 2147483647 2147483647/2147483647 1"];
const ODD_MTL: [&str; 6] = ["Kd 1", "foo", "map_Kd", "# c", "\t ", "d -halo"];

pub fn p20(th: bool) -> Vec<Task> {
    let all: Vec<String> = texts(&obj::full(1)).into_iter().chain(ODD_OBJ.map(String::from)).collect();
    let some: Vec<String> = texts(&obj::kinds(2)).into_iter().chain(ODD_OBJ[..8].iter().map(|s| s.to_string())).collect();
    let mut t = vec![];
    t.extend(growing("line-by-line", Arc::new(all.clone()), if th { 4 } else { 3 }));
    t.extend(growing("line-by-line-of-kinds", Arc::new(some.clone()), if th { 5 } else { 4 }));
    t.extend(growing("line-by-line-of-vocabulary", Arc::new(texts(&obj::vocabulary())), if th { 3 } else { 2 }));
    let small = [small::few_elements(), vec![obj::g(&["a"]), obj::g(&["b"]), obj::g(&["a", "b"]), obj::s(1), obj::usemtl("a"), obj::o("a"), obj::v(&["0", "0", "0"]), obj::v(&["1", "0", "0"])]].concat();
    t.extend(growing("line-by-line-small", Arc::new(texts(&small)), if th { 5 } else { 4 }));
    // Concatenations: the second part names its group and its smoothing group, and has no relative references.
    let plain: Vec<String> = texts(&obj::full(3)).into_iter().chain(["v 1 2", "foo", "g c", "s on"].map(String::from)).collect();
    for head in ["g a\ns 1\n", "g b c\ns off\n", "g default\ns 7\n"] {
        t.extend(pairs("two-parts", Fmt::Obj, Arc::new(up_to(&all, 2, "")), Arc::new(up_to(&plain, 1, head))));
        t.extend(pairs("two-parts", Fmt::Obj, Arc::new(up_to(&all, 1, "")), Arc::new(up_to(&plain, 2, head))));
        if th {
            t.extend(pairs("two-parts-of-kinds", Fmt::Obj, Arc::new(up_to(&some, 2, "")), Arc::new(up_to(&texts(&obj::kinds(3)), 2, head))));
        }
    }
    // Long documents, cut everywhere a counter may change its behaviour.
    for a in 0..some.len() {
        let some = some.clone();
        t.push(task("long-first-part", move |w| {
            for n in lengths(w.thorough()).into_iter().filter(|&n| n <= 70_000) {
                let first = format!("{}\n", some[a]).repeat(n);
                let x = w.obj(&first);
                let seconds: Vec<&String> = if n <= 300 { some.iter().collect() } else { some.iter().step_by(9).collect() };
                for b in seconds {
                    let all = format!("{first}{b}\n");
                    let y = w.obj(&all);
                    w.transition(hash_of(&(n, a, b)));
                    if let Err(why) = obj_prefix(&x, &y) {
                        broken(w, "prefix", Fmt::Obj, &[&first, &all], why);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    for n in lengths(th).into_iter().filter(|&n| n > 0 && n <= 20_000) {
        let plain: Vec<String> = texts(&obj::kinds(1));
        t.push(task("long-parts", move |w| {
            let first: String = plain.iter().cycle().take(n).map(|l| format!("{l}\n")).collect();
            for m in [1, n / 2, n, 2 * n] {
                let second = "g z\ns 3\n".to_string() + &plain.iter().cycle().take(m).map(|l| format!("{l}\n")).collect::<String>();
                let (x, y, z) = (w.obj(&first), w.obj(&second), w.obj(&[&first[..], &second].concat()));
                w.transition(hash_of(&(n, m)));
                if let Err(why) = obj_concat(&x, &y, &z) {
                    broken(w, "concat", Fmt::Obj, &[&first, &second], why);
                }
            }
        }));
    }
    // What a later smoothing group, group or element does to the elements there are.
    let few: Vec<objm::Stmt> = vec![
        obj::s(1), obj::s(2), obj::s_off(), obj::g(&["a"]), obj::g(&["b"]), obj::g(&["a", "b"]), obj::g(&["default"]), obj::fv(&[1, 2, 3]), obj::fv(&[1, 2, 3, 4]), obj::fv(&[1, 2, 3, 4, 5]), obj::fv(&[1, 2, 3, 4, 5, 6]), obj::lv(&[1, 2]), obj::lv(&[2, 3, 4]), obj::lv(&[1, 2, 3, 1]),
        obj::p(&[1]), obj::p(&[2, 3]), obj::p(&[1, 2, 3, 4]), obj::v(&["1", "2", "3"]),
    ];
    t.extend(growing("line-by-line-of-elements", Arc::new(texts(&few)), if th { 5 } else { 4 }));
    // Every kind, all lines different, one more each time.
    for a in 0..obj::kinds(1).len() {
        t.push(task("one-more", move |w| {
            for other in [None, Some(1), Some(3), Some(7)] {
                let line = |i: usize| {
                    let k = obj::kinds(i);
                    k[if i % 2 == 1 { a } else { other.map_or(a, |o| (a + o) % k.len()) }].text.clone() + "\n"
                };
                let mut now = String::new();
                let mut x = w.obj(&now);
                let more = if w.thorough() { 1100 } else { 300 };
                for i in 1..=more {
                    let longer = now.clone() + &line(i);
                    let y = w.obj(&longer);
                    w.transition(hash_of(&(a, other, i)));
                    if let Err(why) = obj_prefix(&x, &y) {
                        broken(w, "prefix", Fmt::Obj, &[&now, &longer], why);
                    }
                    (now, x) = (longer, y);
                    if w.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    t.extend(separated(Fmt::Obj));
    // Every bad line is refused before anything, too.
    let bad = Arc::new(texts(&whole::bad_obj()));
    let tails = Arc::new(up_to(&some, 1, "g a\ns 1\n"));
    t.extend(pairs("bad-first-part", Fmt::Obj, Arc::new(bad.iter().map(|b| format!("{b}\n")).collect()), tails));
    t
}

pub fn p21(th: bool) -> Vec<Task> {
    let all: Vec<String> = mtexts(&mtl::full(1)).into_iter().chain(ODD_MTL.map(String::from)).collect();
    let some: Vec<String> = mtexts(&mtl::kinds(2)).into_iter().chain(ODD_MTL[..2].iter().map(|s| s.to_string())).collect();
    let mut t = vec![];
    for head in ["newmtl b\n", "newmtl m1\n", "# c\n\nnewmtl m1\n"] {
        t.extend(pairs("two-parts", Fmt::Mtl, Arc::new(up_to(&all, 2, "")), Arc::new(up_to(&all, 1, head))));
        t.extend(pairs("two-parts", Fmt::Mtl, Arc::new(up_to(&all, 1, "newmtl m1\n")), Arc::new(up_to(&all, 2, head))));
        if th {
            t.extend(pairs("two-parts-of-kinds", Fmt::Mtl, Arc::new(up_to(&some, 2, "newmtl m1\n")), Arc::new(up_to(&some, 2, head))));
        }
    }
    let kinds: Vec<String> = mtexts(&mtl::kinds(3));
    t.extend(pairs("three-then-kinds", Fmt::Mtl, Arc::new(up_to(&kinds, if th { 3 } else { 2 }, "newmtl m1\n")), Arc::new(up_to(&some, 1, "newmtl m2\n"))));
    t.extend(pairs("three-then-kinds", Fmt::Mtl, Arc::new(up_to(&kinds, if th { 3 } else { 2 }, "newmtl a\n")), Arc::new(up_to(&some, 1, "newmtl b\n"))));
    // Three attributes, then nothing or one of a few.
    t.extend(pairs("four-then-few", Fmt::Mtl, Arc::new(up_to(&mtexts(&mtl::kinds(1)), 3, "newmtl a\n")), Arc::new(vec!["newmtl a\n".into(), "newmtl b\nKd 1 1 1\n".into(), "newmtl b\nmap_Kd b.png\n".into()])));
    for n in lengths(th).into_iter().filter(|&n| n > 0 && n <= 20_000) {
        let kinds = kinds.clone();
        t.push(task("long-parts", move |w| {
            let lines = |m: usize| -> String { kinds.iter().cycle().take(m).map(|l| format!("{l}\n")).collect() };
            let first = "newmtl first\n".to_string() + &lines(n);
            for m in [1, n / 2, n, 2 * n] {
                let second = "newmtl second\n".to_string() + &lines(m);
                let (x, y, z) = (w.mtl(&first), w.mtl(&second), w.mtl(&[&first[..], &second].concat()));
                w.transition(hash_of(&(n, m)));
                if let Err(why) = mtl_concat(&x, &y, &z) {
                    broken(w, "concat", Fmt::Mtl, &[&first, &second], why);
                }
            }
        }));
    }
    t.extend(separated(Fmt::Mtl));
    let heads = |h: &str| -> Arc<Vec<String>> { Arc::new(mtexts(&mtl::vocabulary()).iter().map(|l| format!("{h}{l}\n")).collect()) };
    t.extend(pairs("vocabulary", Fmt::Mtl, heads("newmtl a\n"), heads("newmtl b\n")));
    let bad: Vec<String> = mtexts(&whole::bad_mtl());
    let one = up_to(&some, 1, "newmtl x\n");
    t.extend(pairs("bad-first-part", Fmt::Mtl, Arc::new(bad.iter().map(|b| format!("newmtl y\n{b}\n")).collect()), Arc::new(one.clone())));
    t.extend(pairs("bad-second-part", Fmt::Mtl, Arc::new(one), Arc::new(bad.iter().map(|b| format!("newmtl y\n{b}\n")).collect())));
    t
}

// ------------------------------------------------------------------------------------------------ P25

/// What a refused document says: the kind of the error, and its text. A document that loads says nothing.
type Refusal = Result<Option<(&'static str, String)>, String>;

fn says(e: &ObjError) -> (&'static str, String) {
    let kind = match e {
        ObjError::Tokenize(_) => "Tokenize",
        ObjError::ModelParse(_) => "ModelParse",
        ObjError::MaterialParse(MaterialError::NewMaterial) => "NewMaterial",
        ObjError::MaterialParse(_) => "MaterialParse",
        ObjError::UnexpectedToken(_) => "UnexpectedToken",
        _ => "another",
    };
    (kind, format!("{e}\n{e:?}"))
}

fn refusal(fmt: Fmt, text: &str) -> Refusal {
    match fmt {
        Fmt::Obj => call(|| nobject_rs::load_obj(text).err().map(|e| says(&e))),
        Fmt::Mtl => call(|| nobject_rs::load_mtl(text).err().map(|e| says(&e))),
    }
}

fn refused(w: &mut W, fmt: Fmt, text: &str) -> Refusal {
    let r = match fmt {
        Fmt::Obj => w.obj(text).and_then(|r| call(|| r.err().map(|e| says(&e)))),
        Fmt::Mtl => w.mtl(text).and_then(|r| call(|| r.err().map(|e| says(&e)))),
    };
    w.state(hash_of(&r));
    r
}

fn same_error(a: &Refusal, b: &Refusal, text: bool) -> Result<(), String> {
    let (a, b) = match (a, b) {
        (Err(p), _) | (_, Err(p)) => return Err(p.clone()),
        (Ok(a), Ok(b)) => (a, b),
    };
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), _) | (_, Some(a)) if a.1.trim().is_empty() => Err("an error without any text".into()),
        (Some(x), Some(y)) if x.0 == y.0 && (!text || x.1 == y.1) => Ok(()),
        _ => Err(format!("{a:?} and {b:?}").chars().take(400).collect()),
    }
}

/// What each refused line says alone, and behind and before others.
fn errors(fmt: Fmt, bad: Vec<String>, good: Vec<String>, heads: Vec<String>, th: bool) -> Vec<Task> {
    let (bad, good, heads) = (Arc::new(bad), Arc::new(good), Arc::new(heads));
    let mut t = vec![];
    for i in 0..bad.len() {
        let (bad, good, heads) = (bad.clone(), good.clone(), heads.clone());
        t.push(task("one-refused-line", move |w| {
            let check = |w: &mut W, kind: &str, text: &str, x: &Refusal, whole: &str, exact: bool| {
                let y = refused(w, fmt, whole);
                w.transition(hash_of(&(text, whole)));
                if let Err(why) = same_error(x, &y, exact) {
                    broken(w, kind, fmt, &[text, whole], why);
                }
            };
            let alone = format!("{}{}\n", heads[0], bad[i]);
            w.sample(&alone);
            let a = refused(w, fmt, &alone);
            for head in heads.iter() {
                let mut first = vec![head.clone()];
                first.extend(good.iter().map(|g| format!("{head}{g}\n")));
                // Behind a document which has several of everything, in this order and in the other.
                first.push(head.clone() + &good.iter().cycle().take(5 * good.len()).map(|g| format!("{g}\n")).collect::<String>());
                first.push(head.clone() + &good.iter().flat_map(|g| [g; 5]).rev().map(|g| format!("{g}\n")).collect::<String>());
                if w.thorough() {
                    first.extend(good.iter().flat_map(|g| good.iter().map(move |h| format!("{head}{g}\n{h}\n"))));
                }
                for (n, f) in first.iter().enumerate() {
                    let part = format!("{f}{}\n", bad[i]);
                    check(w, "kind of error", &alone, &a, &part, false);
                    let p = refused(w, fmt, &part);
                    for g in good.iter() {
                        check(w, "first error", &part, &p, &format!("{part}{g}\n"), true);
                    }
                    // Another refused line behind it.
                    let step = if n == 0 { 1 } else if w.thorough() { 31 } else { 151 };
                    for b in bad.iter().skip((i + n) % step).step_by(step) {
                        check(w, "first error", &part, &p, &format!("{part}{b}\n"), true);
                        if n > 0 {
                            check(w, "first error", &part, &p, &format!("{part}{}\n{b}\n{}\n", good[n % good.len()], good[(n + i) % good.len()]), true);
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    // Lines of every sort behind it: every statement of the vocabulary, comments with every unusual character.
    let odd = (0..0xA0u32).chain([0x2028, 0x2029, 0x3000, 0xFEFF, 0xFFFD, 0x1F600]).filter_map(char::from_u32).filter(|c| !c.is_alphanumeric());
    let mut later: Vec<String> = odd.flat_map(|c| [format!("#{c}"), format!("# c{c}d"), format!("{c}"), format!("g {c}"), format!("newmtl {c}"), format!("foo{c}")]).collect();
    later.extend(match fmt {
        Fmt::Obj => texts(&obj::vocabulary()),
        Fmt::Mtl => mtexts(&mtl::vocabulary()),
    });
    let later = Arc::new(later);
    for i in (0..bad.len()).step_by(if th { 3 } else { 17 }) {
        let (bad, good, heads, later) = (bad.clone(), good.clone(), heads.clone(), later.clone());
        t.push(task("later-lines", move |w| {
            for before in [String::new(), format!("{}\n", good[i % good.len()])] {
                let part = format!("{}{before}{}\n", heads[0], bad[i]);
                let p = refused(w, fmt, &part);
                for l in later.iter() {
                    let whole = format!("{part}{l}\n");
                    let q = refused(w, fmt, &whole);
                    w.transition(hash_of(&whole));
                    if let Err(why) = same_error(&p, &q, true) {
                        broken(w, "first error", fmt, &[&part, &whole], why);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    for n in lengths(th).into_iter().filter(|&n| n <= if th { 70_000 } else { 5_000 }) {
        let (bad, good, heads) = (bad.clone(), good.clone(), heads.clone());
        t.push(task("long-documents", move |w| {
            let lines: String = heads[0].clone() + &good.iter().cycle().take(n).map(|g| format!("{g}\n")).collect::<String>();
            for (i, b) in bad.iter().enumerate().step_by(if n > 100 { 97 } else { 11 }) {
                let part = format!("{lines}{b}\n");
                let p = refused(w, fmt, &part);
                let alone = refused(w, fmt, &format!("{}{b}\n", heads[0]));
                if let Err(why) = same_error(&alone, &p, false) {
                    broken(w, "kind of error", fmt, &[&format!("{}{b}\n", heads[0]), &part], why);
                }
                for c in [&good[i % good.len()], &bad[(i + 1) % bad.len()], &bad[i * 7 % bad.len()]] {
                    let whole = format!("{part}{}", format!("{c}\n").repeat(n));
                    let q = refused(w, fmt, &whole);
                    w.transition(hash_of(&(n, b, c)));
                    if let Err(why) = same_error(&p, &q, true) {
                        broken(w, "first error", fmt, &[&part, &whole], why);
                    }
                    if w.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    t
}

pub fn p25(th: bool) -> Vec<Task> {
    let mut t = errors(Fmt::Obj, texts(&whole::bad_obj()), texts(&obj::kinds(1)), vec![String::new(), "# c\n\n".into()], th);
    let bad = mtexts(&whole::bad_mtl());
    let bad = if th { bad } else { bad.into_iter().step_by(2).collect() };
    t.extend(errors(Fmt::Mtl, bad, mtexts(&mtl::kinds(1)), vec!["newmtl x\n".into()], th));
    // A statement before the first newmtl, and what follows it.
    let orphans: Vec<String> = mtexts(&mtl::kinds(2)).into_iter().filter(|s| !s.starts_with("newmtl") && !s.is_empty() && !s.starts_with('#')).collect();
    t.extend(errors(Fmt::Mtl, orphans, vec!["".into(), "# newmtl c".into(), " \t".into()], vec![String::new()], th));
    let after = Arc::new(mtexts(&whole::bad_mtl()));
    for o in mtexts(&mtl::kinds(2)).into_iter().filter(|s| !s.starts_with("newmtl") && !s.is_empty() && !s.starts_with('#')) {
        let after = after.clone();
        t.push(task("no-newmtl", move |w| {
            let part = format!("{o}\n");
            let p = refused(w, Fmt::Mtl, &part);
            for b in after.iter().map(|s| &s[..]).chain(["newmtl a", "newmtl a\nNs 1", "newmtl a\nfoo"]) {
                let whole = format!("{part}{b}\n");
                let q = refused(w, Fmt::Mtl, &whole);
                w.transition(hash_of(&whole));
                if let Err(why) = same_error(&p, &q, true) {
                    broken(w, "first error", Fmt::Mtl, &[&part, &whole], why);
                }
            }
        }));
    }
    t
}
