//! The explorations over small constant values: every document of a few statements in which the numbers and
//! names are equal, in order, out of order, zero and one, so that every relation between them occurs. (The
//! other explorations give each statement values of its own.)

use crate::explore::*;
use crate::mtl::{self, alpha, bm, bool_opt, halo, illum, map, mm, new, ost, rgb, scalar, spectral, texres, ty, xyz};
use crate::mtlm;
use crate::obj::*;
use crate::objm::{self, Stmt, R};
use crate::run::*;

fn objs(family: &str, menu: Vec<Stmt>, depth: usize, mask: u32, pre: Vec<Stmt>) -> Vec<Task> {
    sequences(family, Space::<Obj> { table: vec![menu], depth, mask, pre, post: vec![] })
}

fn mtls(family: &str, menu: Vec<mtlm::Stmt>, depth: usize, mask: u32) -> Vec<Task> {
    sequences(family, Space::<Mtl> { table: vec![menu], depth, mask, pre: vec![new("a")], post: vec![] })
}

/// Every reference whose indices are of these lists (0: left out).
fn refs(vs: &[i32], ts: &[i32], ns: &[i32]) -> Vec<R> {
    let some = |i: i32| (i != 0).then_some(i);
    let mut r = vec![];
    for &a in vs {
        for &b in ts {
            for &c in ns {
                r.push((a, some(b), some(c)));
            }
        }
    }
    r
}

/// Every face of `len` references of a list, after the statements of `pre`.
fn faces(family: &str, opts: &[R], len: usize, pre: &[Stmt], mask: u32) -> Vec<Task> {
    opts.iter()
        .map(|&first| {
            let (opts, pre) = (opts.to_vec(), pre.to_vec());
            task(family, move |w| {
                let mut d = pre.clone();
                power(opts.len(), len - 1, |c| {
                    let r: Vec<R> = std::iter::once(first).chain(c.iter().map(|&i| opts[i])).collect();
                    d.truncate(pre.len());
                    d.push(f(&r));
                    doc::<Obj>(w, &d, mask);
                    !w.stopped()
                });
            })
        })
        .collect()
}

fn lines(family: &str, opts: &[R], len: usize, pre: &[Stmt], mask: u32) -> Task {
    let (opts, pre) = (opts.to_vec(), pre.to_vec());
    task(family, move |w| {
        let mut d = pre.clone();
        power(opts.len(), len, |c| {
            let r: Vec<_> = c.iter().map(|&i| (opts[i].0, opts[i].1)).collect();
            d.truncate(pre.len());
            d.push(l(&r));
            doc::<Obj>(w, &d, mask);
            !w.stopped()
        });
    })
}

fn points(family: &str, opts: &[i32], len: usize, pre: &[Stmt], mask: u32) -> Task {
    let (opts, pre) = (opts.to_vec(), pre.to_vec());
    task(family, move |w| {
        let mut d = pre.clone();
        power(opts.len(), len, |c| {
            let r: Vec<i32> = c.iter().map(|&i| opts[i]).collect();
            d.truncate(pre.len());
            d.push(p(&r));
            doc::<Obj>(w, &d, mask);
            !w.stopped()
        });
    })
}

/// Elements over few entries, in either order, of each size.
pub fn few_elements() -> Vec<Stmt> {
    let same = |form: fn(i32) -> R, is: [i32; 3]| f(&is.map(form));
    vec![
        p(&[1]),
        p(&[2]),
        p(&[1, 2]),
        p(&[2, 1]),
        lv(&[1, 2]),
        lv(&[2, 1]),
        lv(&[2, 3]),
        lv(&[1, 2, 3]),
        lv(&[3, 2, 1]),
        l(&[(1, Some(1)), (2, Some(2))]),
        fv(&[1, 2, 3]),
        fv(&[3, 2, 1]),
        fv(&[2, 3, 1]),
        fv(&[1, 2, 3, 4]),
        same(|i| (i, Some(i), None), [1, 2, 3]),
        same(|i| (i, None, Some(1)), [1, 2, 3]),
    ]
}

fn data_menu() -> Vec<Stmt> {
    vec![
        v(&["0", "0", "0"]),
        v(&["1", "0", "0"]),
        v(&["0", "0", "0", "0"]),
        v(&["0", "0", "0", "1"]),
        v(&["1", "1", "1", "2"]),
        vn(&["0", "0", "0"]),
        vn(&["0", "0", "1"]),
        vn(&["1", "0", "0"]),
        vt(&["0"]),
        vt(&["1"]),
        vt(&["0", "0"]),
        vt(&["0", "1"]),
        vt(&["0", "0", "0"]),
        vt(&["1", "1", "1"]),
    ]
}

fn zigzag(n: i32) -> Vec<Vec<i32>> {
    let up: Vec<i32> = (1..=n).collect();
    let down: Vec<i32> = (1..=n).rev().collect();
    let zig: Vec<i32> = (1..=n).map(|i| if i % 2 == 0 { n + 1 - i / 2 } else { i / 2 + 1 }).collect();
    let bounce: Vec<i32> = (1..=n).map(|i| (i - 1) % 3 + 1).collect();
    let closed: Vec<i32> = (1..n).chain([1]).collect();
    let twice: Vec<i32> = (1..=n).map(|i| (i + 1) / 2).collect();
    let big: Vec<i32> = (1..=n).map(|i| i32::MAX - i * 7919).collect();
    vec![up, down, zig, bounce, closed, twice, big]
}

pub fn p05(th: bool) -> Vec<Task> {
    let mut menu = data_menu();
    let mut t = objs("small-values", menu.clone(), if th { 5 } else { 4 }, objm::DATA, vec![]);
    menu.extend([fv(&[1, 2, 3]), fv(&[-1, -1, -1]), g(&["a"]), s(1), usemtl("a"), o("a")]);
    t.extend(objs("small-values-among", menu, if th { 5 } else { 4 }, objm::DATA, vec![]));
    t
}

pub fn p06(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let three = refs(&[1, 2, 3], &[0, 1, 2, 3], &[0, 1, 2, 3]);
    let two = refs(&[1, 2], &[0, 1, 2], &[0, 1, 2]);
    let vt = refs(&[1, 2, 3], &[0, 1, 2, 3], &[0]);
    let vt2 = refs(&[1, 2], &[0, 1, 2], &[0]);
    let vs = refs(&[1, 2, 3], &[0], &[0]);
    let mut t = faces("small-faces", &three, 3, &[], m);
    t.extend(faces("small-faces", &two, 4, &[], m));
    t.extend(faces("small-faces", &vt2, 5, &[], m));
    t.extend(faces("small-faces", &vt2, 6, &[], m));
    if th {
        t.extend(faces("small-faces", &two, 5, &[], m));
        t.extend(faces("small-faces", &three, 4, &[], m));
    }
    for n in 3..=(if th { 11 } else { 9 }) {
        t.extend(faces("small-polygons", &vs, n, &[], m));
    }
    for n in 2..=4 {
        t.push(lines("small-lines", &vt, n, &[], m));
    }
    for n in 5..=6 {
        t.push(lines("small-lines", &vt2, n, &[], m));
    }
    for n in 2..=(if th { 11 } else { 9 }) {
        t.push(lines("small-lines", &vs, n, &[], m));
        t.push(points("small-points", &[1, 2, 3], n, &[], m));
    }
    for n in 1..=5 {
        t.push(points("small-points", &[1, 2, 3, 4, 5], n, &[], m));
    }
    t.extend(objs("small-elements", few_elements(), if th { 5 } else { 4 }, m, vec![]));
    // Many references in other orders than the ascending one, each slot in an order of its own.
    let counts: Vec<i32> = (3..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
    t.extend(counts.into_iter().map(|n| {
        task("orders", move |w| {
            let zs = zigzag(n);
            for a in &zs {
                doc::<Obj>(w, &[p(a)], m);
                doc::<Obj>(w, &[fv(a)], m);
                doc::<Obj>(w, &[lv(a)], m);
                for b in &zs {
                    let two: Vec<(i32, Option<i32>)> = a.iter().zip(b).map(|(&x, &y)| (x, Some(y))).collect();
                    doc::<Obj>(w, &[l(&two)], m);
                    doc::<Obj>(w, &[f(&two.iter().map(|r| (r.0, r.1, None)).collect::<Vec<_>>())], m);
                    doc::<Obj>(w, &[f(&two.iter().map(|r| (r.0, None, r.1)).collect::<Vec<_>>())], m);
                    for c in &zs {
                        let r: Vec<R> = two.iter().zip(c).map(|(x, &n)| (x.0, x.1, Some(n))).collect();
                        doc::<Obj>(w, &[f(&r)], m);
                        if w.stopped() {
                            return;
                        }
                    }
                }
            }
        })
    }));
    t
}

pub fn p07(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let pre = [v(&["0", "0", "0"]), vt(&["0"]), vn(&["0", "0", "0"]), v(&["1", "0", "0"]), v(&["0", "0", "0"]), vt(&["0"]), vn(&["0", "0", "0"])];
    let few = refs(&[1, 3, -1, -3], &[0, 1, -1, -2], &[0, 1, -1, -2]);
    let mut t = faces("small-relative", &few, 3, &pre, m);
    let two = refs(&[1, 2, 3, -1, -2, -3], &[0, 1, 2, -1, -2], &[0]);
    for n in 2..=(if th { 4 } else { 3 }) {
        t.push(lines("small-relative", &two, n, &pre, m));
    }
    if th {
        t.extend(faces("small-relative", &refs(&[1, 2, 3, -1, -2, -3], &[0, 1, 2, -1, -2], &[0, 1, 2, -1, -2]), 3, &pre, m));
    }
    for n in 1..=6 {
        t.push(points("small-relative", &[1, 2, 3, -1, -2, -3], n, &pre, m));
    }
    let vs = refs(&[1, 2, 3, -1, -2, -3], &[0], &[0]);
    for n in 3..=(if th { 7 } else { 6 }) {
        t.extend(faces("small-relative", &vs, n, &pre, m));
    }
    let rel = |x: R| f(&[x, x, x]);
    let menu = vec![
        v(&["0", "0", "0"]),
        vt(&["0"]),
        vn(&["0", "0", "0"]),
        rel((-1, None, None)),
        rel((-1, Some(-1), None)),
        rel((-1, None, Some(-1))),
        rel((-1, Some(-1), Some(-1))),
        fv(&[-1, -2, 1]),
        fv(&[1, 1, 1]),
        lv(&[-1, 1]),
        lv(&[1, -1]),
        l(&[(-1, Some(-1)), (-2, Some(-2))]),
        p(&[-1]),
        p(&[-2, -1]),
        p(&[1]),
    ];
    t.extend(objs("small-growing", menu, if th { 5 } else { 4 }, m, pre.to_vec()));
    t
}

pub fn p08(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::REFS;
    let mut menu = few_elements();
    menu.extend([g(&["a"]), g(&["b"]), g(&["a", "b"]), g(&["default"]), s(1), s(2), s_off()]);
    let mut t = objs("small-elements", menu, if th { 5 } else { 4 }, m, vec![]);
    let menu = vec![
        fv(&[1, 2, 3]),
        fv(&[3, 2, 1]),
        fv(&[1, 2, 3, 4]),
        lv(&[1, 2]),
        lv(&[1, 2, 3]),
        p(&[1]),
        p(&[2]),
        s(1),
        s(2),
        g(&["a"]),
        g(&["b"]),
        g(&["b", "a"]),
    ];
    t.extend(objs("small-elements-deep", menu, if th { 6 } else { 5 }, m, vec![]));
    t
}

pub fn p09(th: bool) -> Vec<Task> {
    let m = objm::MEMBERS | objm::SMOOTH;
    let menu = vec![
        fv(&[1, 2, 3]),
        fv(&[3, 2, 1]),
        fv(&[1, 2, 3, 4]),
        fv(&[1, 2, 3, 4, 5]),
        f(&[(1, Some(1), Some(1)), (2, Some(2), Some(2)), (3, Some(3), Some(3))]),
        s(1),
        s(2),
        s(0),
        s_off(),
        g(&["a"]),
        g(&["off"]),
        g(&["on", "0"]),
        g(&["default"]),
        usemtl("off"),
        usemap("off"),
        lv(&[1, 2]),
    ];
    let mut t = objs("small-values", menu, if th { 6 } else { 5 }, m, vec![]);
    // Every number of corners, before and after each change of the smoothing group.
    t.push(task("corners", move |w| {
        for n in 3..=70 {
            let poly = fv(&(1..=n).collect::<Vec<_>>());
            for a in [s(1), s(2), s(0), s_off(), s(7)] {
                for b in [s(1), s(2), s(0), s_off(), s(8)] {
                    for x in [fv(&[1, 2, 3]), poly.clone()] {
                        doc::<Obj>(w, &[x.clone(), a.clone(), poly.clone(), b.clone(), x.clone(), poly.clone()], m);
                        doc::<Obj>(w, &[a.clone(), poly.clone(), g(&["a"]), x.clone(), b.clone(), g(&["default"]), poly.clone()], m);
                    }
                }
            }
        }
    }));
    // Every name, and words that mean something to `s`, as the names of a group, material, map and object.
    t.push(task("names", move |w| {
        let names = ["off", "on", "OFF", "On", "0", "1", "2", "-1", "s", "S", "f", "none", "default", "Default", "smooth", "a"];
        for x in names {
            for sep in [g(&[x]), g(&["z", x]), g(&[x, "z"]), usemtl(x), usemap(x), o(x), mtllib(x), maplib(x), shadow(x), trace(x)] {
                for a in [s(1), s(2), s(0), s_off()] {
                    for b in [s(1), s(3), s_off()] {
                        let t = [fv(&[1, 2, 3]), fv(&[1, 2, 3, 4, 5])];
                        doc::<Obj>(w, &[a.clone(), sep.clone(), t[0].clone(), b.clone(), t[1].clone()], m);
                        doc::<Obj>(w, &[sep.clone(), a.clone(), t[1].clone(), sep.clone(), t[0].clone(), b.clone(), sep.clone(), t[1].clone()], m);
                    }
                }
            }
        }
    }));
    t
}

pub fn p10(th: bool) -> Vec<Task> {
    let menu = vec![
        usemtl("a"),
        usemtl("b"),
        usemap("a"),
        usemap("b"),
        usemap("off"),
        bevel(true),
        bevel(false),
        cint(true),
        dint(true),
        dint(false),
        lod(0),
        lod(1),
        g(&["a"]),
        g(&["b"]),
        g(&["a", "b"]),
        g(&["default"]),
    ];
    let mut t = objs("small-values", menu, if th { 5 } else { 4 }, objm::SETTINGS, vec![]);
    let on = vec![usemtl("a"), usemap("a"), bevel(true), cint(true), dint(true), lod(1)];
    let menu = vec![usemtl("a"), usemtl("b"), usemap("off"), usemap("b"), bevel(false), cint(false), dint(false), lod(0), g(&["a"]), g(&["default"]), g(&["a", "default"])];
    t.extend(objs("everything-set", menu, if th { 6 } else { 5 }, objm::SETTINGS, on));
    // All combinations of all settings, twice, in one group.
    for a in 0..96usize {
        t.push(task("all-combinations", move |w| {
            let all = |i: usize| {
                let b = |k: usize| i >> k & 1 == 1;
                vec![usemtl(if b(0) { "a" } else { "b" }), bevel(b(1)), cint(b(2)), dint(b(3)), lod(b(4) as u8), usemap(["a", "off", "b"][i / 32])]
            };
            for b in 0..96 {
                let (x, mut y) = (all(a), all(b));
                doc::<Obj>(w, &[&x[..], &y[..]].concat(), objm::SETTINGS);
                y.reverse();
                doc::<Obj>(w, &[&x[..], &[g(&["a", "default"])], &y[..]].concat(), objm::SETTINGS);
                // One after the other, in each order.
                for i in 0..6 {
                    for j in 0..6 {
                        doc::<Obj>(w, &[&x[..], &[y[i].clone(), y[j].clone()]].concat(), objm::SETTINGS);
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }));
    }
    t
}

pub fn p11(th: bool) -> Vec<Task> {
    let mut menu = vec![];
    for x in ["a", "b"] {
        menu.extend([mtllib(x), maplib(x), shadow(x), trace(x), o(x), g(&[x]), usemtl(x), usemap(x)]);
    }
    let mut t = objs("small-names", menu, if th { 5 } else { 4 }, objm::ATTRS, vec![]);
    let mut menu = vec![];
    for x in ["a", "b"] {
        menu.extend([mtllib(x), maplib(x), shadow(x), trace(x), o(x)]);
    }
    t.extend(objs("small-names-deep", menu, if th { 6 } else { 5 }, objm::ATTRS, vec![]));
    t
}

pub fn p24(th: bool) -> Vec<Task> {
    let mut menu = few_elements();
    menu.extend([g(&["a"]), g(&["b"]), g(&["a", "b"]), g(&["default"]), s(1), usemtl("a")]);
    objs("small-elements", menu, if th { 5 } else { 4 }, objm::MEMBERS | objm::KEYS, vec![])
}

fn small_colors() -> Vec<mtlm::Stmt> {
    (0..5)
        .flat_map(|i| {
            vec![
                rgb(i, &["0", "0", "0"]),
                rgb(i, &["1", "1", "1"]),
                rgb(i, &["0", "0", "1"]),
                xyz(i, &["0"]),
                xyz(i, &["1"]),
                xyz(i, &["1", "1"]),
                xyz(i, &["1", "1", "1"]),
                xyz(i, &["1", "0", "0"]),
                spectral(i, "a", None),
                spectral(i, "a", Some("1")),
                spectral(i, "a", Some("0")),
                spectral(i, "b", None),
            ]
        })
        .collect()
}

fn small_scalars() -> Vec<mtlm::Stmt> {
    let mut r = vec![];
    for x in ["0", "1", "2"] {
        r.extend((0..4).map(|i| scalar(i, x)));
        r.extend([alpha(x), halo(x), illum(x.parse().unwrap())]);
    }
    r.extend([mtl::aat(true), mtl::aat(false)]);
    r
}

fn small_maps() -> Vec<mtlm::Stmt> {
    let off = [bool_opt("-blendu", false)];
    let some = [bool_opt("-clamp", true), ost('o', &["1"]), ost('s', &["1", "1"]), mm("0", "1"), texres(0)];
    let mut r = vec![];
    for i in 0..9 {
        r.extend([map(i, "a", &[]), map(i, "b", &[]), map(i, "a", &off), map(i, "a", &some)]);
    }
    r.extend([map(mtlm::BUMP, "a", &[bm("0")]), map(mtlm::BUMP, "a", &[bm("1")]), map(mtlm::REFL, "a", &[ty("sphere")]), map(mtlm::REFL, "a", &[ty("a")])]);
    r
}

pub fn p15(th: bool) -> Vec<Task> {
    let mut menu = vec![new("a"), new("b")];
    for i in 0..5 {
        menu.extend([rgb(i, &["0", "0", "0"]), rgb(i, &["1", "1", "1"])]);
    }
    for x in ["0", "1"] {
        menu.extend((0..4).map(|i| scalar(i, x)));
        menu.extend([alpha(x), halo(x), illum(x.parse().unwrap())]);
    }
    menu.extend((0..9).map(|i| map(i, "a", &[])));
    menu.extend([map(0, "b", &[]), map(1, "b", &[]), mtl::aat(true), mtl::aat(false)]);
    let mut t = mtls("small-values", menu, if th { 4 } else { 3 }, mtlm::ALL);
    let menu = vec![
        new("a"),
        new("b"),
        rgb(0, &["1", "1", "1"]),
        rgb(1, &["1", "1", "1"]),
        rgb(1, &["0", "0", "0"]),
        scalar(0, "0"),
        scalar(1, "0"),
        scalar(1, "1"),
        alpha("1"),
        alpha("0"),
        halo("0"),
        illum(0),
        illum(2),
        map(1, "a", &[]),
        map(0, "a", &[]),
        map(4, "a", &[]),
        mtl::aat(true),
    ];
    t.extend(mtls("small-values-deep", menu, if th { 5 } else { 4 }, mtlm::ALL));
    t
}

pub fn p16(th: bool) -> Vec<Task> {
    let mut menu = small_colors();
    menu.extend([new("b"), scalar(1, "1"), alpha("0"), illum(0), illum(2), map(0, "a", &[])]);
    let d = if th { 4 } else { 3 };
    mtls("small-values", menu, d, mtlm::COLS)
}

pub fn p17(th: bool) -> Vec<Task> {
    let mut menu = small_scalars();
    let mut t = mtls("small-values", menu.clone(), if th { 5 } else { 4 }, mtlm::SCALS);
    menu.extend([new("b"), map(4, "a", &[]), map(3, "a", &[]), map(8, "a", &[]), rgb(4, &["1", "1", "1"]), rgb(1, &["0", "0", "0"]), rgb(2, &["0", "0", "0"])]);
    t.extend(mtls("small-values-among", menu, if th { 4 } else { 3 }, mtlm::SCALS));
    t
}

pub fn p18(th: bool) -> Vec<Task> {
    let mut menu = small_maps();
    menu.push(new("b"));
    let mut t = mtls("small-values", menu.clone(), if th { 4 } else { 3 }, mtlm::MAPBITS);
    menu.extend([mtl::aat(true), mtl::aat(false), illum(0), illum(3), alpha("0"), alpha("1"), halo("1"), scalar(0, "0"), scalar(3, "1"), rgb(0, &["1", "1", "1"]), rgb(1, &["0", "0", "0"])]);
    t.extend(mtls("small-values-among", menu, 3, mtlm::MAPBITS));
    // Options of which every two have equal values.
    t.extend((0..9usize).map(|i| {
        task("equal-options", move |w| {
            let vals = [&["0"][..], &["1"], &["0", "0"], &["1", "1"], &["0", "1"], &["0", "0", "0"], &["1", "1", "1"], &["0", "1", "0"]];
            let mut menu = vec![];
            for x in ['o', 's', 't'] {
                menu.extend(vals.iter().map(|v| ost(x, v)));
            }
            menu.extend([mm("0", "0"), mm("0", "1"), mm("1", "1"), mm("1", "0"), texres(0), texres(1), mtl::boost("0"), mtl::boost("1"), mtl::imf("r"), mtl::imf("m")]);
            for o in ["-blendu", "-blendv", "-cc", "-clamp"] {
                menu.extend([bool_opt(o, true), bool_opt(o, false)]);
            }
            for n in 2..=3 {
                power(menu.len(), n, |c| {
                    let os: Vec<mtl::O> = c.iter().map(|&k| menu[k].clone()).collect();
                    doc::<Mtl>(w, &[new("a"), map(i, "a", &os)], mtlm::MAPBITS);
                    !w.stopped()
                });
            }
        })
    }));
    t
}

pub fn p19(th: bool) -> Vec<Task> {
    let mut menu = vec![new("b")];
    for i in [0, 4, mtlm::BUMP, mtlm::REFL] {
        menu.extend([map(i, "a", &[]), map(i, "b", &[])]);
        menu.extend(["0", "1", "2"].map(|x| map(i, "a", &[bm(x)])));
        menu.extend(["sphere", "a"].map(|x| map(i, "a", &[ty(x)])));
        menu.push(map(i, "a", &[bm("1"), ty("sphere")]));
    }
    mtls("small-values", menu, if th { 4 } else { 3 }, mtlm::EXTRA)
}
