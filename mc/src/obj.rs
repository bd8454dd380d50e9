//! Statement alphabets and explorations of the OBJ properties.

use crate::explore::*;
use crate::objm::{self, st, Sem, Stmt, R};
use crate::run::*;
use std::sync::Arc;

pub fn fl(lit: &str) -> f32 {
    lit.parse().unwrap()
}

pub fn v(c: &[&str]) -> Stmt {
    st(format!("v {}", c.join(" ")), Sem::V(fl(c[0]), fl(c[1]), fl(c[2]), c.get(3).map(|x| fl(x))))
}
pub fn vn(c: &[&str]) -> Stmt {
    st(format!("vn {}", c.join(" ")), Sem::Vn(fl(c[0]), fl(c[1]), fl(c[2])))
}
pub fn vt(c: &[&str]) -> Stmt {
    st(format!("vt {}", c.join(" ")), Sem::Vt(fl(c[0]), c.get(1).map(|x| fl(x)), c.get(2).map(|x| fl(x))))
}
pub fn rtext(r: &R) -> String {
    match r {
        (a, None, None) => format!("{a}"),
        (a, Some(t), None) => format!("{a}/{t}"),
        (a, None, Some(n)) => format!("{a}//{n}"),
        (a, Some(t), Some(n)) => format!("{a}/{t}/{n}"),
    }
}
pub fn f(refs: &[R]) -> Stmt {
    st(format!("f {}", refs.iter().map(rtext).collect::<Vec<_>>().join(" ")), Sem::F(refs.to_vec()))
}
pub fn l(refs: &[(i32, Option<i32>)]) -> Stmt {
    st(format!("l {}", refs.iter().map(|r| rtext(&(r.0, r.1, None))).collect::<Vec<_>>().join(" ")), Sem::L(refs.to_vec()))
}
pub fn fv(is: &[i32]) -> Stmt {
    f(&is.iter().map(|&i| (i, None, None)).collect::<Vec<_>>())
}
pub fn lv(is: &[i32]) -> Stmt {
    l(&is.iter().map(|&i| (i, None)).collect::<Vec<_>>())
}
pub fn p(refs: &[i32]) -> Stmt {
    st(format!("p {}", refs.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(" ")), Sem::P(refs.to_vec()))
}
pub fn g(names: &[&str]) -> Stmt {
    st(format!("g {}", names.join(" ")), Sem::G(names.iter().map(|s| s.to_string()).collect()))
}
pub fn usemtl(n: &str) -> Stmt {
    st(format!("usemtl {n}"), Sem::UseMtl(n.into()))
}
pub fn usemap(n: &str) -> Stmt {
    st(format!("usemap {n}"), Sem::UseMap(if n.eq_ignore_ascii_case("off") { None } else { Some(n.into()) }))
}
pub fn onoff(b: bool) -> &'static str {
    if b {
        "on"
    } else {
        "off"
    }
}
pub fn bevel(b: bool) -> Stmt {
    st(format!("bevel {}", onoff(b)), Sem::Bevel(b))
}
pub fn cint(b: bool) -> Stmt {
    st(format!("c_interp {}", onoff(b)), Sem::CInterp(b))
}
pub fn dint(b: bool) -> Stmt {
    st(format!("d_interp {}", onoff(b)), Sem::DInterp(b))
}
pub fn lod(n: u8) -> Stmt {
    st(format!("lod {n}"), Sem::Lod(n))
}
pub fn s(n: i32) -> Stmt {
    st(format!("s {n}"), Sem::S(n))
}
pub fn s_off() -> Stmt {
    st("s off", Sem::S(0))
}
pub fn mtllib(n: &str) -> Stmt {
    st(format!("mtllib {n}"), Sem::MtlLib(n.into()))
}
pub fn maplib(n: &str) -> Stmt {
    st(format!("maplib {n}"), Sem::MapLib(n.into()))
}
pub fn shadow(n: &str) -> Stmt {
    st(format!("shadow_obj {n}"), Sem::Shadow(n.into()))
}
pub fn trace(n: &str) -> Stmt {
    st(format!("trace_obj {n}"), Sem::Trace(n.into()))
}
pub fn o(n: &str) -> Stmt {
    st(format!("o {n}"), Sem::Obj)
}
pub fn nop(t: &str) -> Stmt {
    st(t, Sem::Nop)
}

/// Numbers that differ from position to position, so that no two entries can be confused.
fn n(k: usize, i: usize) -> String {
    format!("{}.{}5", k, i)
}

pub fn data(k: usize) -> Vec<Stmt> {
    let (a, b, c, d) = (n(k, 1), n(k, 2), n(k, 3), n(k, 4));
    vec![v(&[&a, &b, &c]), v(&[&a, &b, &c, &d]), vn(&[&a, &b, &c]), vt(&[&a]), vt(&[&a, &b]), vt(&[&a, &b, &c])]
}

pub fn elements(k: usize) -> Vec<Stmt> {
    let i = 10 * k as i32;
    vec![
        f(&[(i + 1, None, None), (i + 2, None, None), (i + 3, None, None)]),
        f(&[(i + 1, Some(i + 4), None), (i + 2, None, Some(i + 5)), (i + 3, Some(i + 6), Some(i + 7)), (i + 9, None, None)]),
        l(&[(i + 1, None), (i + 2, Some(i + 3))]),
        p(&[i + 1]),
        p(&[i + 1, i + 2, i + 3]),
    ]
}

pub fn settings(k: usize) -> Vec<Stmt> {
    vec![
        usemtl(&format!("m{k}")),
        usemap(&format!("t{k}")),
        usemap("off"),
        bevel(true),
        bevel(false),
        cint(true),
        cint(false),
        dint(true),
        dint(false),
        lod(k as u8),
    ]
}

pub fn attrs(k: usize) -> Vec<Stmt> {
    vec![mtllib(&format!("l{k}.mtl")), maplib(&format!("l{k}.map")), shadow(&format!("s{k}.obj")), trace(&format!("t{k}.obj")), o(&format!("o{k}"))]
}

pub fn groups() -> Vec<Stmt> {
    vec![g(&["a"]), g(&["b"]), g(&["a", "b"]), g(&["default"])]
}

/// Every kind of statement.
pub fn full(k: usize) -> Vec<Stmt> {
    let mut r = data(k);
    r.extend(elements(k));
    r.extend(groups());
    r.extend(settings(k));
    r.extend([s(k as i32), s(0), s_off()]);
    r.extend(attrs(k));
    r.extend([nop(""), nop("# v 9 9 9")]);
    r
}

/// One statement of each kind.
pub fn kinds(k: usize) -> Vec<Stmt> {
    let (d, e, x) = (data(k), elements(k), settings(k));
    let mut r = vec![d[1].clone(), d[2].clone(), d[4].clone(), e[1].clone(), e[2].clone(), e[4].clone()];
    r.extend([g(&["a"]), g(&["a", "b"]), x[0].clone(), x[1].clone(), bevel(true), cint(true), dint(true), lod(k as u8), s(k as i32)]);
    r.extend(attrs(k));
    r
}

const NAMES: [&str; 24] = ["a", "b", "A", "ab", "a_b", "a.1", "default", "defaults", "Default","None", "none", "off", "on", "1", "0", "m", "Material", "Material.001", "(null)", "null", "x/y", "é", "a b", "a b c"];

/// Statements of every kind with values of every sort: zero, one, equal, ordered and far ones, lists of every
/// small length, names that could mean something.
pub fn vocabulary() -> Vec<Stmt> {
    let mut r = vec![];
    let same = |x: &'static str| [x; 4];
    for x in ["0", "1", "-1", "0.5"] {
        r.extend([v(&same(x)[..3]), v(&same(x)), vn(&same(x)[..3]), vt(&same(x)[..1]), vt(&same(x)[..2]), vt(&same(x)[..3])]);
    }
    r.extend([v(&["0", "0", "1"]), v(&["1", "2", "3"]), v(&["1", "2", "3", "1"]), v(&["3", "2", "1", "0"]), v(&["1e30", "-1e-30", "100000"]), vn(&["0", "0", "1"]), vt(&["0", "1"]), vt(&["1", "0", "0"])]);
    r.extend([v(&["12.345678", "-0.000001", "99999.99"]), vn(&["0.577350", "0.577350", "0.577350"]), vn(&["0.7071", "-0.7071", "0.0000"]), vn(&["0.000000", "1.000000", "-0.000000"])]);
    r.extend([vt(&["0.625000", "0.500000"]), vt(&["-0.25", "1.25"]), vt(&["1.000001", "0.333333", "0.000000"]), v(&["1.000000", "-1.000000", "1.000000", "1.000000"])]);
    let lists: [&[i32]; 22] = [
        &[1, 2, 3],
        &[3, 2, 1],
        &[2, 3, 4],
        &[1, 3, 4],
        &[1, 1, 1],
        &[1, 2, 1],
        &[1, 2, 2],
        &[1, 2, 3, 4],
        &[1, 2, 3, 1],
        &[4, 3, 2, 1],
        &[1, 2, 3, 4, 1],
        &[1, 2, 3, 4, 3, 2],
        &[1, 2, 3, 4, 1, 2, 3],
        &[1, 2, 3, 4, 4, 3, 2, 1],
        &[1, 2, 3, 4, 1, 2, 3, 4, 1],
        &[1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4],
        &[-1, -2, -3],
        &[-4, -3, -2],
        &[-4, -3, -2, -1],
        &[1, -1, 2],
        &[-1, -1, -1, 1],
        &[1000, 70000, 2147483647],
    ];
    for is in lists {
        r.push(fv(is));
        r.push(p(is));
        r.push(lv(is));
    }
    for is in [&[1, 2, 3][..], &[1, 2, 3, 4], &[-1, -2, -3], &[1, 2, 3, 4, 1]] {
        r.push(f(&is.iter().map(|&i| (i, Some(i), None)).collect::<Vec<_>>()));
        r.push(f(&is.iter().map(|&i| (i, None, Some(i))).collect::<Vec<_>>()));
        r.push(f(&is.iter().map(|&i| (i, Some(i), Some(i))).collect::<Vec<_>>()));
        r.push(f(&is.iter().enumerate().map(|(k, &i)| (i, (k % 2 == 0).then_some(i), (k % 3 == 0).then_some(1))).collect::<Vec<_>>()));
        r.push(l(&is.iter().map(|&i| (i, Some(i))).collect::<Vec<_>>()));
        r.push(l(&is.iter().enumerate().map(|(k, &i)| (i, (k % 2 == 0).then_some(1))).collect::<Vec<_>>()));
    }
    for is in [&[1][..], &[2], &[-1], &[1, 1], &[1, 2], &[2, 1], &[-2, -1]] {
        r.push(p(is));
        if is.len() > 1 {
            r.push(lv(is));
        }
    }
    for x in NAMES {
        r.push(g(&x.split(' ').collect::<Vec<_>>()));
        r.extend([usemtl(x), usemap(x), mtllib(x), maplib(x), shadow(x), trace(x), o(x)]);
    }
    r.extend([g(&["b", "a"]), g(&["a", "a"]), g(&["a", "default"]), g(&["a", "b", "c", "d", "e"]), mtllib("a.mtl b.mtl"), mtllib("m.mtl"), maplib("m.mtl")]);
    for b in [true, false] {
        r.extend([bevel(b), cint(b), dint(b)]);
    }
    r.extend([0, 1, 2, 10, 100, 101, 127, 128, 255].map(lod));
    r.extend([0, 1, 2, 3, 10, 31, 32, 33, 255, 256, 65535, 65536, -1, -2, i32::MAX, i32::MIN].map(s));
    r.extend([s_off(), nop(""), nop("# g x"), nop("#")]);
    r
}

/// Every two statements of the vocabulary one after the other, in the middle of a document.
pub fn vocabulary_pairs(mask: u32, th: bool) -> Vec<Task> {
    let mut data = vec![];
    for x in ["1", "2", "3", "4"] {
        data.extend([v(&[x, "0", "1"]), vt(&[x, "0"]), vn(&["0", x, "0"])]);
    }
    let post = vec![fv(&[1, 2, 3]), lv(&[1, 2]), p(&[1])];
    let mut pres = vec![
        vec![g(&["a", "b", "c"]), s(3), usemtl("m"), usemap("t"), bevel(true), cint(true), dint(true), lod(3), lv(&[1, 2, 3]), mtllib("m.mtl"), maplib("m.map"), shadow("s.obj"), trace("t.obj")],
        vec![],
    ];
    if th {
        pres.push(vec![g(&["a"]), fv(&[1, 2, 3]), s(1), g(&["b"]), usemtl("None"), p(&[2]), s_off()]);
        pres.push(vec![s(-1), g(&["default", "a"]), lod(100), lv(&[1, 2]), fv(&[1, 2, 3, 4])]);
    }
    let mut t = vec![];
    let none = Space::<Obj> { table: vec![vocabulary()], depth: 2, mask, pre: vec![], post: vec![] };
    t.extend(sequences_by_first("vocabulary", none));
    // Four statements of any kinds.
    let d = if th { 5 } else { 4 };
    t.extend(sequences("four-kinds", Space::<Obj> { table: table(d, kinds), depth: d, mask, pre: vec![], post: vec![] }));
    t.extend(sequences("four-kinds-equal-values", Space::<Obj> { table: table(1, kinds), depth: d, mask, pre: vec![], post: vec![] }));
    for pre in pres {
        let pre = [&data[..], &pre].concat();
        t.extend(sequences_by_first("vocabulary", Space::<Obj> { table: vec![vocabulary()], depth: 2, mask, pre: pre.clone(), post: post.clone() }));
        if th {
            let some = |k: usize| vocabulary().into_iter().skip(k).step_by(5).collect();
            t.extend(sequences_by_first("vocabulary", Space::<Obj> { table: (0..3).map(some).collect(), depth: 3, mask, pre, post: post.clone() }));
        }
    }
    t
}

pub fn table(depth: usize, f: impl Fn(usize) -> Vec<Stmt>) -> Vec<Vec<Stmt>> {
    (1..=depth.max(1)).map(f).collect()
}

fn space(table: Vec<Vec<Stmt>>, depth: usize, mask: u32) -> Space<Obj> {
    Space { table, depth, mask, pre: vec![], post: vec![] }
}

/// Documents of one statement kind repeated, then every kind once: counts, long lists and long files.
pub fn pump(family: &str, alphabet: Arc<Vec<Stmt>>, tails: Arc<Vec<Stmt>>, mask: u32, thorough: bool) -> Vec<Task> {
    let mut tasks = vec![];
    for i in 0..alphabet.len() {
        for n in lengths(thorough) {
            let (alphabet, tails) = (alphabet.clone(), tails.clone());
            tasks.push(task(family, move |w| {
                let tails: &[Stmt] = if n <= 40 { &tails } else { &tails[..1] };
                for t in tails {
                    if w.stopped() {
                        return;
                    }
                    long_doc::<Obj>(w, std::iter::repeat_n(alphabet[i].clone(), n).chain([t.clone()]), mask);
                }
            }));
        }
    }
    tasks
}

/// The same with numbers and names that differ from statement to statement.
pub fn pump_distinct(family: &str, gen: fn(usize) -> Stmt, tail: Stmt, mask: u32, lens: &[usize]) -> Vec<Task> {
    lens.iter()
        .map(|&n| {
            let tail = tail.clone();
            task(family, move |w| long_doc::<Obj>(w, (1..=n).map(gen).chain([tail.clone()]), mask))
        })
        .collect()
}

pub const VALUES: [&str; 12] = ["0", "1", "-1", "0.5", "2", "-0.25", "1e-10", "1000", "100000.5", "3.4e38", "-0.0", "255"];

pub fn p05(th: bool) -> Vec<Task> {
    let mut t = vec![];
    let m = objm::DATA;
    // All orders of the data statements among one of each other kind; distinct and equal values.
    let mix = |k: usize| {
        let mut r = data(k);
        let e = elements(k);
        r.extend([e[1].clone(), e[2].clone(), g(&["a"]), s(k as i32), usemtl("m"), o("x")]);
        r
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("data-order", space(table(d, mix), d, m)));
    t.extend(sequences("data-order-equal-values", space(table(1, mix), d, m)));
    t.extend(sequences("among-all-kinds", space(table(4, full), if th { 4 } else { 3 }, m)));
    // Every combination of component values; as the only entry and between two others.
    let vals = if th { &VALUES[..] } else { &VALUES[..8] };
    let mut tuples: Vec<Vec<&'static str>> = vec![vec![]];
    let mut all: Vec<Vec<&'static str>> = vec![];
    for _ in 0..4 {
        tuples = tuples.iter().flat_map(|t| vals.iter().map(move |x| [&t[..], &[*x]].concat())).collect();
        all.extend(tuples.iter().cloned());
    }
    // What programs write: directions of a length near one, corners, places on a texture.
    let exported = [
        "0.577350 0.577350 0.577350", "0.5774 -0.5774 0.5774", "0.7071 0.7071 0.0000", "-0.707107 0.000000 0.707107", "0.6 0.8 0", "-0.3333 0.6667 0.6667", "0.000000 1.000000 -0.000000", "0.0000 -1.0000 0.0000",
        "0.99999 0.00001 0", "1.000001 0 0", "0.999 0 0.0447", "0.267261 0.534522 0.801784", "0.8944 0.4472 0.0", "0 0 1.0002", "1.000000 -1.000000 0.999999", "0.001 0.001 0.001", "12.345678 -0.000001 99999.99",
        "0.625000 0.500000", "0.333333 0.666667", "1.000001 0.999999", "-0.25 1.25", "0.5", "1.5", "-0.0001", "1.000000 1.000000 1.000000 1.000000", "0.8 0.2 0.1 0.5", "255 128 0 1", "1 2 3 0.999999",
    ];
    all.extend(exported.iter().map(|x| x.split(' ').collect()));
    for chunk in all.chunks(200) {
        let chunk = chunk.to_vec();
        t.push(task("component-values", move |w| {
            for c in &chunk {
                let mut stmts = vec![];
                match c.len() {
                    1 | 2 => stmts.push(vt(c)),
                    3 => stmts.extend([v(c), vn(c), vt(c)]),
                    _ => stmts.push(v(c)),
                }
                for x in stmts {
                    doc::<Obj>(w, std::slice::from_ref(&x), m);
                    let two = [x.clone(), x.clone()];
                    doc::<Obj>(w, &two, m);
                    let among = [v(&["7", "8", "9"]), vt(&["7", "8"]), vn(&["7", "8", "9"]), x, v(&["7", "8", "9", "6"]), vt(&["7"]), vn(&["9", "8", "7"])];
                    doc::<Obj>(w, &among, m);
                }
            }
        }));
    }
    t.extend(pump("repeated", Arc::new(kinds(1)), Arc::new(data(2)), m, th));
    t.extend(pump("repeated", Arc::new(data(1)), Arc::new(data(1)), m, th));
    let lens = lengths(th);
    t.extend(pump_distinct("repeated-distinct", |k| data(k)[k % 6].clone(), v(&["1", "2", "3"]), m, &lens));
    t.extend(pump_distinct("repeated-distinct-v", |k| data(k)[0].clone(), v(&["1", "2", "3", "4"]), m, &lens));
    t.extend(pump_distinct("repeated-distinct-vn", |k| data(k)[2].clone(), v(&["1", "2", "3"]), m, &lens));
    t.extend(pump_distinct("repeated-distinct-vt", |k| data(k)[5].clone(), v(&["1", "2", "3"]), m, &lens));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub const INDICES: [i32; 15] = [1, 2, 3, 9, 10, 100, 255, 256, 32767, 32768, 65535, 65536, 16777216, 16777217, 2147483647];

/// A reference in each of its written forms: v, v/, v//, v/t, v/t/, v//n, v/t/n.
fn forms(a: i32, b: i32, c: i32) -> Vec<(String, R)> {
    vec![
        (format!("{a}"), (a, None, None)),
        (format!("{a}/{b}"), (a, Some(b), None)),
        (format!("{a}//{c}"), (a, None, Some(c))),
        (format!("{a}/{b}/{c}"), (a, Some(b), Some(c))),
        (format!("{a}/"), (a, None, None)),
        (format!("{a}//"), (a, None, None)),
        (format!("{a}/{b}/"), (a, Some(b), None)),
    ]
}

fn face_of(rs: &[(String, R)]) -> Stmt {
    st(format!("f {}", rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join(" ")), Sem::F(rs.iter().map(|r| r.1).collect()))
}

fn line_of(rs: &[(String, R)]) -> Stmt {
    st(format!("l {}", rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join(" ")), Sem::L(rs.iter().map(|r| (r.1 .0, r.1 .1)).collect()))
}

/// Calls `f` with every element of `0..base` to the power `len`.
pub fn power(base: usize, len: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut a = vec![0; len];
    loop {
        if !f(&a) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            a[i] += 1;
            if a[i] < base {
                break;
            }
            a[i] = 0;
        }
    }
}

pub fn p06(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let mut t = vec![];
    // All faces of 3 to 5 (6) references over all forms, distinct and equal indices.
    for len in 3..=(if th { 6 } else { 5 }) {
        for first in 0..7 {
            for equal in [false, true] {
                t.push(task("face-forms", move |w| {
                    power(7, len - 1, |c| {
                        let r: Vec<_> = (0..len)
                            .map(|i| {
                                let k = if equal { 7 } else { 10 * (i as i32 + 1) };
                                let form = if i == 0 { first } else { c[i - 1] };
                                let fs = if equal { forms(k, k, k) } else { forms(k + 1, k + 2, k + 3) };
                                fs[form].clone()
                            })
                            .collect();
                        doc::<Obj>(w, &[face_of(&r)], m);
                        !w.stopped()
                    });
                }));
            }
        }
    }
    t.push(task("line-forms", move |w| {
        for len in 2..=8 {
            for equal in [false, true] {
                power(3, len, |c| {
                    let r: Vec<_> = (0..len)
                        .map(|i| {
                            let k = if equal { 7 } else { 10 * (i as i32 + 1) };
                            let fs = if equal { forms(k, k, k) } else { forms(k + 1, k + 2, k + 3) };
                            fs[[0, 1, 4][c[i]]].clone()
                        })
                        .collect();
                    doc::<Obj>(w, &[line_of(&r)], m);
                    !w.stopped()
                });
            }
        }
    }));
    // Every combination of index values in one reference, at each place of a face or line.
    for &a in &INDICES {
        t.push(task("index-values", move |w| {
            for &b in &INDICES {
                for &c in &INDICES {
                    for (i, fm) in forms(a, b, c).into_iter().enumerate() {
                        for place in 0..3 {
                            let mut r = vec![("1".to_string(), (1, None, None)), ("2/4/6".to_string(), (2, Some(4), Some(6)))];
                            r.insert(place, fm.clone());
                            doc::<Obj>(w, &[face_of(&r)], m);
                            if matches!(i, 0 | 1 | 4) {
                                let mut r = vec![("1".to_string(), (1, None, None)), ("2/4".to_string(), (2, Some(4), None))];
                                r.insert(place, fm.clone());
                                doc::<Obj>(w, &[line_of(&r)], m);
                            }
                        }
                    }
                    doc::<Obj>(w, &[p(&[a, b, c])], m);
                }
                doc::<Obj>(w, &[p(&[a, b])], m);
            }
            doc::<Obj>(w, &[p(&[a])], m);
        }));
    }
    // Any number of references: one form throughout, two forms alternating, one form with one exception.
    let mut counts: Vec<usize> = (3..=70).collect();
    counts.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    if th {
        counts.extend(71..300);
        counts.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    for n in counts {
        t.push(task("many-references", move |w| {
            for x in 0..7 {
                for y in 0..7 {
                    if n > 300 && x != y {
                        continue;
                    }
                    let r: Vec<_> = (0..n as i32).map(|i| forms(i + 1, i + 2, i + 3)[if i % 2 == 0 { x } else { y }].clone()).collect();
                    doc::<Obj>(w, &[face_of(&r)], m);
                    if matches!(x, 0 | 1 | 4) && matches!(y, 0 | 1 | 4) {
                        doc::<Obj>(w, &[line_of(&r)], m);
                    }
                    if n <= 70 && x != y {
                        for at in [n - 1, n / 2] {
                            let r: Vec<_> = (0..n).map(|i| forms(i as i32 + 1, i as i32 + 2, i as i32 + 3)[if i == at { y } else { x }].clone()).collect();
                            doc::<Obj>(w, &[face_of(&r)], m);
                        }
                    }
                }
            }
            doc::<Obj>(w, &[p(&(1..=n as i32).collect::<Vec<_>>())], m);
            doc::<Obj>(w, &[p(&vec![3; n])], m);
        }));
    }
    // Elements after each other and after every other kind of statement.
    let els = |k: usize| {
        let i = 10 * k as i32;
        let mut r: Vec<Stmt> = forms(i + 1, i + 2, i + 3).iter().map(|x| face_of(&[x.clone(), forms(i + 4, i + 5, i + 6)[3].clone(), x.clone()])).collect();
        r.extend([l(&[(i + 1, None), (i + 2, None)]), l(&[(i + 1, Some(i + 2)), (i + 3, None), (i + 4, Some(i + 5))]), p(&[i + 1]), p(&[i + 1, i + 2])]);
        r
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("element-order", space(table(d, els), d, m)));
    t.extend(sequences("element-order-equal", space(table(1, els), d - 1, m)));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m)));
    t.extend(pump("repeated", Arc::new(kinds(1)), Arc::new(elements(2)), m, th));
    t.extend(pump_distinct("repeated-distinct", |k| elements(k)[k % 5].clone(), p(&[7]), m, &lengths(th)));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p07(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let mut t = vec![];
    // For all list lengths and all valid relative references of every form, followed by more data.
    let max = if th { 6 } else { 4 };
    for nv in 1..=max {
        for nt in 0..=max {
            t.push(task("all-lengths", move |w| {
                for nn in 0..=max {
                    let mut pre: Vec<Stmt> = vec![];
                    for i in 0..nv.max(nt).max(nn) {
                        if i < nv {
                            pre.push(data(i as usize + 1)[0].clone());
                        }
                        if i < nt {
                            pre.push(data(i as usize + 1)[4].clone());
                        }
                        if i < nn {
                            pre.push(data(i as usize + 1)[2].clone());
                        }
                    }
                    let after = [data(9)[0].clone(), data(9)[2].clone(), data(9)[4].clone(), data(8)[0].clone()];
                    let run = |w: &mut W, x: Stmt| {
                        let mut d = pre.clone();
                        d.push(x);
                        doc::<Obj>(w, &d, m);
                        d.extend(after.iter().cloned());
                        doc::<Obj>(w, &d, m);
                    };
                    for a in 1..=nv {
                        for b in 0..=nt {
                            for c in 0..=nn {
                                if w.stopped() {
                                    return;
                                }
                                let r = (-a, (b > 0).then_some(-b), (c > 0).then_some(-c));
                                // Relative throughout, mixed with positive references, at each place.
                                for place in 0..3 {
                                    for q in [(-1, None, None), (1, None, None), (1, Some(2), Some(3))] {
                                        let mut rs = vec![q, (nv, None, None)];
                                        rs.insert(place, r);
                                        run(w, f(&rs));
                                    }
                                }
                                run(w, f(&[r, r, r]));
                                // Relative in one slot only.
                                if b > 0 && c > 0 {
                                    for bits in 0..8 {
                                        let pick = |bit: i32, x: i32| if bits & bit != 0 { -x } else { x };
                                        let q = (pick(1, a), Some(pick(2, b)), Some(pick(4, c)));
                                        run(w, f(&[q, (1, None, None), q]));
                                    }
                                }
                                if c == 0 {
                                    run(w, l(&[(r.0, r.1), (1, None)]));
                                    run(w, l(&[(1, Some(1)), (r.0, r.1)]));
                                }
                                if c == 0 && b == 0 {
                                    run(w, p(&[-a]));
                                    run(w, p(&[1, -a, 2]));
                                    run(w, p(&[-a, -a]));
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // Relative references at every moment of a growing file, groups and settings in between.
    let mix = |k: usize| {
        let (d, rel) = (data(k), |r: R| f(&[r, (1, None, None), r]));
        vec![
            d[0].clone(),
            d[2].clone(),
            d[4].clone(),
            rel((-1, None, None)),
            rel((-1, Some(-1), Some(-1))),
            rel((-2, None, Some(-1))),
            l(&[(-1, None), (-2, Some(-1))]),
            p(&[-1, -2]),
            p(&[1]),
            g(&["a"]),
            g(&["b", "c"]),
            s(k as i32),
            usemtl("x"),
        ]
    };
    let d = if th { 6 } else { 5 };
    let pre = vec![data(20)[0].clone(), data(21)[0].clone(), data(20)[2].clone(), data(20)[4].clone()];
    t.extend(sequences("growing", Space::<Obj> { table: table(d, mix), depth: d, mask: m, pre, post: vec![] }));
    // Long lists.
    for n in lengths(th) {
        if n == 0 {
            continue;
        }
        t.push(task("long-lists", move |w| {
            let k = n as i32;
            for last in [f(&[(-1, None, None), (-k, None, None), (-(k + 1) / 2, None, None)]), l(&[(-1, None), (-k, None)]), p(&[-1, -k])] {
                long_doc::<Obj>(w, (1..=n).map(|i| data(i)[0].clone()).chain([last]), m);
            }
            let last = f(&[(-1, Some(-1), Some(-1)), (-1, Some(-k), Some(-k)), (1, Some(1), Some(-k))]);
            long_doc::<Obj>(w, (1..=n).flat_map(|i| [data(i)[2].clone(), data(i)[5].clone()]).chain([data(1)[0].clone(), last]), m);
        }));
        // Every offset in every kind and slot, when the lists are alike and when they differ.
        for (nv, nt, nn) in [(n, n, n), (n, 2 * n, 3 * n + 1), (3 * n, n, 2 * n), (2 * n + 1, 3 * n, n)] {
            t.push(task("every-offset", move |w| {
                let pre: Vec<Stmt> = (1..=nv).map(|i| data(i)[0].clone()).chain((1..=nt).map(|i| data(i)[4].clone())).chain((1..=nn).map(|i| data(i)[2].clone())).collect();
                let offs = |n: usize| -> Vec<i32> {
                    let n = n as i32;
                    (1..=n).filter(|&o| n <= 300 || o < 70 || n - o < 20 || (o & (o - 1)) == 0 || o % 1000 == 0 && n < 20_000).map(|o| -o).collect()
                };
                let (vs, ts, ns) = (offs(nv), offs(nt), offs(nn));
                let mut last = vec![];
                for (i, &v) in vs.iter().enumerate() {
                    last.extend([p(&[v]), p(&[v, 1]), p(&[1, 2, v]), p(&[v, v])]);
                    last.extend([l(&[(v, None), (1, None)]), l(&[(1, None), (v, None)]), l(&[(v, Some(1)), (v, Some(2)), (1, None)])]);
                    last.extend([f(&[(v, None, None); 3]), f(&[(1, None, None), (v, Some(1), None), (2, None, None)]), f(&[(1, None, Some(1)), (2, None, Some(2)), (v, None, Some(3)), (v, Some(1), Some(1))])]);
                    let (a, b) = (ts[i % ts.len()], ns[i % ns.len()]);
                    last.extend([f(&[(v, Some(a), None), (1, None, None), (v, Some(a), Some(b))]), f(&[(v, None, Some(b)), (v, None, None), (1, Some(a), None)])]);
                }
                for &a in &ts {
                    last.extend([l(&[(1, Some(a)), (2, None)]), l(&[(1, None), (2, Some(a))]), l(&[(-1, Some(a)), (1, Some(a))])]);
                    last.extend([f(&[(1, Some(a), None); 3]), f(&[(1, Some(a), Some(1)), (2, Some(1), Some(1)), (3, Some(a), Some(1))])]);
                }
                for &b in &ns {
                    last.extend([f(&[(1, None, Some(b)); 3]), f(&[(1, Some(1), Some(b)), (2, Some(1), Some(1)), (3, Some(1), Some(b))])]);
                }
                long_doc::<Obj>(w, pre.into_iter().chain(last), m);
            }));
        }
    }

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p08(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let mut t = vec![];
    let mix = |k: usize| {
        let e = elements(k);
        let mut r = vec![e[0].clone(), e[2].clone(), e[3].clone()];
        r.extend(groups());
        r.extend([g(&["b", "c", "a"]), g(&["c", "default"]), usemtl("m"), s(1)]);
        r
    };
    let d = if th { 7 } else { 6 };
    t.extend(sequences("groups", space(table(d, mix), d, m)));
    // Names that are easily confused, doubled names, several elements in one group.
    let names = |k: usize| {
        let e = elements(k);
        vec![
            e[0].clone(),
            e[2].clone(),
            e[3].clone(),
            g(&["a"]),
            g(&["A"]),
            g(&["ab"]),
            g(&["a", "a"]),
            g(&["a", "A", "ab", "a"]),
            g(&["Default"]),
            g(&["1", "2"]),
            g(&["1"]),
            g(&["off"]),
            g(&["é", "è"]),
            g(&["default", "a"]),
            g(&["ab", "a"]),
            g(&["b", "ab", "a"]),
        ]
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("similar-names", space(table(d, names), d, m)));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", Space::<Obj> { table: table(d, full), depth: d, mask: m, pre: vec![], post: vec![elements(9)[0].clone(), elements(9)[2].clone(), elements(9)[3].clone()] }));
    // Elements of all lengths, in one group and in several, and one after the other for long.
    let sized = |k: usize| {
        let i = 10 * k as i32;
        let e = |n: i32| (1..=n).map(|j| i + j).collect::<Vec<_>>();
        vec![fv(&e(3)), fv(&e(4)), fv(&e(5)), lv(&e(2)), lv(&e(3)), p(&e(1)), p(&e(2))]
    };
    let d = if th { 7 } else { 6 };
    for pre in [vec![], vec![g(&["a", "b"])], vec![g(&["a"]), s(1)], vec![g(&["c", "b", "a"]), usemtl("m")]] {
        t.extend(sequences("sizes", Space::<Obj> { table: table(d, sized), depth: d, mask: m, pre, post: vec![] }));
    }
    for pre in [vec![], vec![g(&["a", "b"])]] {
        for (a, b) in [(1, 0), (3, 1), (5, 2), (2, 0), (3, 4)] {
            let lens: Vec<usize> = lengths(th).into_iter().filter(|&n| n <= 20_000).collect();
            let pre = pre.clone();
            t.extend(lens.chunks(8).map(|c| {
                let (c, pre) = (c.to_vec(), pre.clone());
                task("sizes-for-long", move |w| {
                    for &n in &c {
                        long_doc::<Obj>(w, pre.iter().cloned().chain((1..=n).map(|k| sized(k)[(a * k + b * (k / 7)) % 7].clone())), m);
                    }
                })
            }));
        }
    }
    // Many groups, many names on one statement, coming back to each of them.
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025] {
        t.push(task("many-groups", move |w| {
            let names: Vec<String> = (0..n).map(|i| format!("g{i}")).collect();
            let names: Vec<&str> = names.iter().map(|s| &s[..]).collect();
            let el = |i: usize| elements(i + 1)[[0, 2, 3][i % 3]].clone();
            let mut one = vec![];
            for (i, x) in names.iter().enumerate() {
                one.extend([g(&[x]), el(i)]);
            }
            let mut back = one.clone();
            for (i, x) in names.iter().enumerate().rev() {
                back.extend([g(&[x]), el(i + 3), el(i + 4)]);
            }
            doc::<Obj>(w, &one, m);
            doc::<Obj>(w, &back, m);
            if n <= 300 {
                doc::<Obj>(w, &[g(&names), el(0), el(1), el(2), g(&["x"]), el(3), el(4), el(5)], m);
                doc::<Obj>(w, &[el(6), g(&names), el(0), el(1), el(2), g(&names[..1]), el(3)], m);
                // Growing sets of active groups.
                if n <= 65 {
                    let grow: Vec<Stmt> = (1..=n).flat_map(|k| [g(&names[..k]), el(k)]).collect();
                    doc::<Obj>(w, &grow, m);
                }
            }
        }));
    }
    t.extend(pump("repeated", Arc::new(kinds(1)), Arc::new(elements(2)), m, th));
    let lens = lengths(th);
    t.extend(pump_distinct("alternating", |k| if k % 2 == 0 { elements(k)[[0, 2, 3][k % 3]].clone() } else { groups()[k / 2 % 4].clone() }, p(&[7]), m, &lens));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p09(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::SMOOTH;
    let mut t = vec![];
    let mix = |k: usize| {
        let e = elements(k);
        vec![e[0].clone(), e[1].clone(), s(k as i32), s(1), s(0), s_off(), g(&["a"]), g(&["a", "b"]), g(&["default"]), usemtl("m"), data(k)[0].clone(), e[2].clone()]
    };
    let d = if th { 7 } else { 6 };
    t.extend(sequences("smoothing", space(table(d, mix), d, m)));
    let d = if th { 4 } else { 3 };
    // Every kind of statement between s and f, and after f.
    for pre in [vec![], vec![s(5)], vec![s(7), elements(1)[0].clone()], vec![s(9), s_off()]] {
        t.extend(sequences("among-all-kinds", Space::<Obj> { table: table(d, full), depth: d, mask: m, pre, post: vec![elements(9)[0].clone()] }));
    }
    // Values.
    t.push(task("values", move |w| {
        let mut vals: Vec<i32> = (0..=1100).collect();
        vals.extend([4095, 4096, 32767, 32768, 65535, 65536, 16777216, 16777217, 1 << 30, i32::MAX]);
        vals.extend([-1, -2, -3, -10, -128, -129, -255, -256, -32768, -32769, -65536, i32::MIN + 1, i32::MIN]);
        for &a in &vals {
            doc::<Obj>(w, &[s(a), elements(1)[0].clone()], m);
            for b in [s(0), s_off(), s(1)] {
                doc::<Obj>(w, &[s(a), elements(1)[0].clone(), b, elements(2)[0].clone(), s(a), elements(3)[1].clone()], m);
            }
        }
        for a in [2, 3, 32, 33, 100] {
            for b in [1, 2, 3, 32, 33, 100] {
                for c in [0, 1, 2, 32] {
                    doc::<Obj>(w, &[s(a), elements(1)[0].clone(), s(b), elements(2)[0].clone(), g(&["x"]), elements(3)[0].clone(), s(c), g(&["default"]), elements(4)[0].clone()], m);
                }
            }
        }
    }));
    let fs = Arc::new(vec![elements(2)[0].clone()]);
    let mut ks = kinds(1);
    ks.extend([s_off(), s(0)]);
    t.extend(pump("repeated", Arc::new(ks), fs, m, th));
    t.extend(pump_distinct("alternating", |k| if k % 2 == 0 { elements(k)[k % 2].clone() } else { s((k / 2) as i32) }, elements(1)[0].clone(), m, &lengths(th)));
    t.extend(pump_distinct("once-then-faces", |k| if k == 1 { s(3) } else { elements(k)[0].clone() }, elements(1)[0].clone(), m, &lengths(th)));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p10(th: bool) -> Vec<Task> {
    let m = objm::SETTINGS;
    let mut t = vec![];
    let mix = |k: usize| {
        let mut r = settings(k);
        r.extend(groups());
        r.push(elements(k)[0].clone());
        r
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("settings", space(table(d, mix), d, m)));
    // The same values again and again (nothing may toggle).
    t.extend(sequences("settings-equal-values", space(table(1, mix), d - 1, m)));
    let deep = |k: usize| vec![usemtl(&format!("m{k}")), usemap(&format!("t{k}")), usemap("off"), bevel(k % 2 == 0), lod(k as u8), g(&["a"]), g(&["b"]), g(&["b", "a", "c"]), g(&["default"])];
    let d = if th { 7 } else { 6 };
    t.extend(sequences("settings-deep", space(table(d, deep), d, m)));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m)));
    t.push(task("values", move |w| {
        for a in 0..=255u8 {
            for b in [0, 1, 100, 255] {
                doc::<Obj>(w, &[lod(a)], m);
                doc::<Obj>(w, &[lod(a), lod(b)], m);
                doc::<Obj>(w, &[g(&["a", "b"]), lod(a), g(&["b"]), lod(b), g(&["c"]), g(&["a"])], m);
            }
        }
    }));
    t.push(task("names", move |w| {
        let names = [
            "off.png", "off", "OFF", "oFf", "offset", "off2", "of", "o", "on", "ON", "none", "null", "default", "0", "1", "x", "X", "é", "a b", "off x", "x off", "-off", "\"off\"", "m", "M", "m ", "mm",
            "(null)", "off#", "true", "false", "./off", "t.png", "T.png", "t.PNG",
        ];
        for a in names {
            for b in names {
                let (a, b) = (a.trim(), b.trim());
                doc::<Obj>(w, &[usemtl(a), usemap(b), bevel(true)], m);
                doc::<Obj>(w, &[usemap(a), usemap(b)], m);
                doc::<Obj>(w, &[usemtl(a), usemtl(b)], m);
                doc::<Obj>(w, &[g(&["a"]), usemap(a), usemtl(a), g(&["b"]), usemap(b), usemtl(b), g(&["a"])], m);
                doc::<Obj>(w, &[g(&["a", "b"]), usemap(a), g(&["b"]), usemap(b), g(&["b", "a"]), usemtl(a)], m);
            }
        }
    }));
    // Names of groups that could be taken for each other.
    let alike = |k: usize| vec![g(&["a"]), g(&["A"]), g(&["ab"]), g(&["a", "b"]), g(&["default"]), g(&["Default"]), g(&["a_b"]), g(&["a.b"]), g(&["a1"]), usemtl(&format!("m{k}")), usemap(&format!("t{k}")), lod(k as u8 + 1), bevel(k % 2 == 0), cint(k % 2 == 0), dint(k % 2 == 0)];
    let d = if th { 5 } else { 4 };
    t.extend(sequences("similar-groups", space(table(d, alike), d, m)));
    for n in [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] {
        t.push(task("many-groups", move |w| {
            let names: Vec<String> = (0..n).map(|i| format!("g{i}")).collect();
            let names: Vec<&str> = names.iter().map(|s| &s[..]).collect();
            let set = |k: usize| vec![usemtl(&format!("m{k}")), usemap(&format!("t{k}")), bevel(k % 2 == 0), cint(k % 3 == 0), dint(k % 5 == 0), lod((k % 256) as u8)];
            let mut d = set(7);
            for (i, x) in names.iter().enumerate() {
                d.push(g(&[x]));
                d.extend(set(i));
            }
            for x in names.iter().rev() {
                d.push(g(&[x]));
            }
            doc::<Obj>(w, &d, m);
            if n <= 300 {
                let mut d = vec![g(&names)];
                d.extend(set(30));
                d.push(g(&["default"]));
                d.extend(set(15));
                d.push(g(&names[n / 2..]));
                d.extend(set(1));
                doc::<Obj>(w, &d, m);
            }
        }));
    }
    let mut ks = kinds(1);
    ks.extend(settings(3));
    t.extend(pump("repeated", Arc::new(ks), Arc::new(settings(2)), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p11(th: bool) -> Vec<Task> {
    let m = objm::ATTRS;
    let mut t = vec![];
    let mix = |k: usize| {
        let mut r = attrs(k);
        r.extend([mtllib("x"), maplib("x"), shadow("x"), trace("x"), g(&["x"]), usemtl("x"), usemap("y")]);
        r
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("attributes", space(table(d, mix), d, m)));
    let only = |k: usize| {
        let mut r = attrs(k);
        r.truncate(4);
        r
    };
    t.extend(sequences("attributes-deep", space(table(8, only), if th { 9 } else { 8 }, m)));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m)));
    t.extend(pump("repeated", Arc::new(kinds(1)), Arc::new(attrs(2)), m, th));
    t.extend(pump_distinct("repeated-distinct", |k| attrs(k)[k % 5].clone(), shadow("z"), m, &lengths(th)));

    t.extend(vocabulary_pairs(m, th));
    t
}

pub fn p24(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::KEYS;
    let mut t = vec![];
    let mix = |k: usize| {
        let e = elements(k);
        let mut r = vec![e[0].clone(), e[2].clone(), e[3].clone()];
        r.extend(groups());
        r.extend([g(&["c"]), usemtl("m"), usemap("t"), bevel(true), lod(3), s(1), o("d"), nop("# g e")]);
        r
    };
    let d = if th { 6 } else { 5 };
    t.extend(sequences("groups", space(table(d, mix), d, m)));
    let d = if th { 4 } else { 3 };
    t.extend(sequences("among-all-kinds", space(table(d, full), d, m)));
    t.extend(sequences("kinds", space(table(d + 1, kinds), d + 1, m)));
    // Several groups active at once, and what comes while they are.
    for n in [3, 4, 5, 9] {
        let names: Vec<String> = (0..n).map(|i| format!("g{i}")).collect();
        let names: Vec<&str> = names.iter().map(|x| &x[..]).collect();
        let d = if th { 4 } else { 3 };
        t.extend(sequences("several-active", Space::<Obj> { table: table(d, full), depth: d, mask: m, pre: vec![g(&names)], post: vec![] }));
    }
    for e in 0..4 {
        // Of many groups, those that get an element and those that do not.
        t.push(task("some-of-many", move |w| {
            for n in lengths(w.thorough()).into_iter().filter(|&n| n <= 20_000) {
                for every in [1, 2, 3, 7, 100] {
                    let lines = (0..n).flat_map(|i| {
                        let mut l = vec![g(&[&format!("g{i}")])];
                        if i % every == 0 {
                            let x = elements(i + 1);
                            l.push(x[[0, 2, 3, i % 5][e]].clone());
                        }
                        l
                    });
                    long_doc::<Obj>(w, lines, m);
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    t.extend(pump("repeated", Arc::new(kinds(1)), Arc::new(mix(2)), m, th));

    t.extend(vocabulary_pairs(m, th));
    t
}
