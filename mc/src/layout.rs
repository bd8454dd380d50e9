//! Layout (P13, P14): documents are rendered in every layout up to a number of deviations from the plain one
//! (one blank between words, LF at the end of each line), and mean what the plain one means.

use crate::explore::*;
use crate::obj::power;
use crate::run::*;
use crate::{mtl, mtlm, obj, objm};
use std::sync::Arc;

const INDENTS: [&str; 5] = ["", " ", "\t", "    ", " \t "];
const GAPS: [&str; 5] = [" ", "  ", "\t", " \t ", "\t\t"];
const TRAILS: [&str; 10] = ["", " ", "\t", "   ", " # c", "\t#c", " #", "  # 1 2 # \"x\"", " # é λ", " \t# on"];
const ENDS: [&str; 2] = ["\n", "\r\n"];
const INSERTS: [&str; 10] = ["", "\n", "\n\n", " \n", "\t \t\n", "# c\n", "#\n", "#v 9 9 9\n", " \t# newmtl x\n", "\r\n#c\r\n"];
/// Of all lines at once: ends, gaps, indents, trails, case.
const GLOBALS: usize = 12;

#[derive(Clone, Copy)]
enum Site {
    Indent(usize),
    Case(usize, usize),
    Gap(usize, usize),
    Trail(usize),
    End(usize),
    Insert,
    Final,
    Global,
}

struct Line {
    words: Vec<(String, bool)>,
}

/// A document, and all places of it where its layout can differ.
pub struct Layout {
    lines: Vec<Line>,
    sites: Vec<Site>,
    /// For each site, its alternatives besides the plain one.
    deviations: Vec<(usize, usize)>,
}

fn any_case(i: usize, w: &str) -> bool {
    i == 0 || ["on", "off", "spectral", "xyz"].contains(&w) || (w.starts_with('-') && w.as_bytes().get(1).is_some_and(|c| c.is_ascii_alphabetic()))
}

fn recase(w: &str, how: usize) -> String {
    match how {
        0 => w.to_string(),
        1 => w.to_ascii_uppercase(),
        2 => w.to_ascii_lowercase(),
        3 => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => w.chars().enumerate().map(|(i, c)| if i + 1 == w.len() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

impl Layout {
    pub fn new<'a>(stmts: impl Iterator<Item = &'a str>) -> Layout {
        let lines: Vec<Line> =
            stmts.map(|s| Line { words: s.split(' ').enumerate().map(|(i, w)| (w.to_string(), any_case(i, w))).collect() }).collect();
        let mut sites = vec![];
        for (i, l) in lines.iter().enumerate() {
            sites.push(Site::Insert);
            sites.push(Site::Indent(i));
            for (j, w) in l.words.iter().enumerate() {
                if j > 0 {
                    sites.push(Site::Gap(i, j));
                }
                if w.1 {
                    sites.push(Site::Case(i, j));
                }
            }
            sites.push(Site::Trail(i));
            sites.push(Site::End(i));
        }
        sites.push(Site::Insert);
        sites.push(Site::Final);
        sites.push(Site::Global);
        let deviations = sites.iter().enumerate().flat_map(|(k, s)| (1..count(s)).map(move |a| (k, a))).collect();
        Layout { lines, sites, deviations }
    }

    /// The text with the given choices.
    fn render(&self, choices: &[(usize, usize)]) -> String {
        let pick = |site: usize| choices.iter().find(|c| c.0 == site).map_or(0, |c| c.1);
        let global = pick(self.sites.len() - 1);
        let or = |site: usize, globals: &[(usize, usize)]| match pick(site) {
            0 => globals.iter().find(|g| g.0 == global).map_or(0, |g| g.1),
            x => x,
        };
        let mut t = String::new();
        let mut site = 0;
        let last = self.lines.len() - 1;
        for (i, l) in self.lines.iter().enumerate() {
            let ins = INSERTS[or(site, &[(10, 1), (11, 5)])];
            t.push_str(ins);
            t.push_str(INDENTS[or(site + 1, &[(3, 2), (4, 4), (9, 1)])]);
            site += 2;
            for (j, w) in l.words.iter().enumerate() {
                if j > 0 {
                    t.push_str(GAPS[or(site, &[(2, 2), (9, 1)])]);
                    site += 1;
                }
                if w.1 {
                    t.push_str(&recase(&w.0, or(site, &[(7, 1), (8, 2), (9, 1)])));
                    site += 1;
                } else {
                    t.push_str(&w.0);
                }
            }
            t.push_str(TRAILS[or(site, &[(5, 4), (6, 1), (9, 4)])]);
            let end = ENDS[or(site + 1, &[(1, 1), (9, 1)])];
            site += 2;
            // Without an end, the last line has to be the last one.
            let more = pick(self.sites.len() - 3);
            if i < last || more > 0 || pick(self.sites.len() - 2) == 0 {
                t.push_str(end);
            }
        }
        let more = INSERTS[pick(site)];
        t.push_str(if pick(site + 1) == 1 { more.strip_suffix('\n').unwrap_or(more) } else { more });
        t
    }
}

fn count(s: &Site) -> usize {
    match s {
        Site::Indent(_) => INDENTS.len(),
        Site::Case(..) => 5,
        Site::Gap(..) => GAPS.len(),
        Site::Trail(_) => TRAILS.len(),
        Site::End(_) => ENDS.len(),
        Site::Insert => INSERTS.len(),
        Site::Final => 2,
        Site::Global => GLOBALS,
    }
}

/// All layouts of a document with up to `depth` deviations.
fn layouts<F: Format>(w: &mut W, stmts: &[F::Stmt], depth: usize, mask: u32) {
    let mut st = F::State::default();
    for s in stmts {
        F::apply(&mut st, s);
    }
    let h = F::hash(&st);
    w.state(h);
    let lay = Layout::new(stmts.iter().map(F::text));
    let plain = lay.render(&[]);
    w.sample(&plain);
    w.transition(hash_of(&(h, &plain)));
    F::check(w, &plain, &st, mask);
    fn go<F: Format>(w: &mut W, lay: &Layout, from: usize, chosen: &mut Vec<(usize, usize)>, depth: usize, st: &F::State, h: u64, mask: u32) {
        for i in from..lay.deviations.len() {
            let d = lay.deviations[i];
            if chosen.last().is_some_and(|c| c.0 == d.0) {
                continue;
            }
            chosen.push(d);
            let text = lay.render(chosen);
            if chosen.len() == 1 {
                w.transition(hash_of(&(h, &text)));
            }
            F::check(w, &text, st, mask);
            if chosen.len() < depth && !w.stopped() {
                go::<F>(w, lay, i + 1, chosen, depth, st, h, mask);
            }
            chosen.pop();
        }
    }
    go::<F>(w, &lay, 0, &mut vec![], depth, &st, h, mask);
}

/// All documents of up to `len` statements, each in all layouts with up to `depth` deviations.
fn documents<F: Format>(family: &str, table: Arc<Vec<Vec<F::Stmt>>>, pre: Arc<Vec<F::Stmt>>, len: usize, depth: usize, mask: u32) -> Vec<Task> {
    let mut t = vec![];
    let n = table[0].len();
    let split = len.min(2);
    power(n, split, |c| {
        let (table, pre, c) = (table.clone(), pre.clone(), c.to_vec());
        t.push(task(family, move |w| {
            power(n, len - split, |rest| {
                let d: Vec<F::Stmt> = pre.iter().cloned().chain(c.iter().chain(rest).enumerate().map(|(i, &x)| table[i][x].clone())).collect();
                layouts::<F>(w, &d, depth, mask);
                !w.stopped()
            });
        }));
        true
    });
    t
}

/// One statement in the full product of all choices (but those of whole lines around it).
fn product<F: Format>(family: &str, alphabet: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, max_gaps: usize, mask: u32) -> Vec<Task> {
    let mut t = vec![];
    for i in 0..alphabet.len() {
        for indent in 0..INDENTS.len() {
            let (alphabet, pre) = (alphabet.clone(), pre.clone());
            t.push(task(family, move |w| {
                let d: Vec<F::Stmt> = pre.iter().cloned().chain([alphabet[i].clone()]).collect();
                let mut st = F::State::default();
                for s in &d {
                    F::apply(&mut st, s);
                }
                let line = pre.len();
                let lay = Layout::new(d.iter().map(F::text));
                let words = &lay.lines[line].words;
                let free: Vec<(usize, usize)> = lay
                    .sites
                    .iter()
                    .enumerate()
                    .filter_map(|(k, s)| match s {
                        // Of long statements, only the first gaps and the last.
                        Site::Gap(l, j) if *l == line && (*j < max_gaps || *j + 1 == words.len()) => Some((k, GAPS.len())),
                        Site::Case(l, j) if *l == line => Some((k, if *j == 0 { 5 } else { 3 })),
                        Site::Trail(l) if *l == line => Some((k, TRAILS.len())),
                        Site::End(l) if *l == line => Some((k, 2)),
                        Site::Final => Some((k, 2)),
                        _ => None,
                    })
                    .collect();
                let indent_site = lay.sites.iter().position(|s| matches!(s, Site::Indent(l) if *l == line)).unwrap();
                let mut choice: Vec<(usize, usize)> = free.iter().map(|f| (f.0, 0)).collect();
                choice.push((indent_site, indent));
                w.state(F::hash(&st));
                loop {
                    let text = lay.render(&choice);
                    w.transition(hash_of(&text));
                    F::check(w, &text, &st, mask);
                    let mut k = 0;
                    while k < free.len() {
                        choice[k].1 += 1;
                        if choice[k].1 < free[k].1 {
                            break;
                        }
                        choice[k].1 = 0;
                        k += 1;
                    }
                    if k == free.len() || w.stopped() {
                        return;
                    }
                }
            }));
        }
    }
    t
}

/// Long documents in each layout of all lines at once.
fn long<F: Format>(family: &str, alphabet: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, mask: u32, th: bool) -> Vec<Task> {
    let mut t = vec![];
    for n in lengths(th).into_iter().filter(|&n| n > 0 && n <= if th { 20_000 } else { 2_000 }) {
        let (alphabet, pre) = (alphabet.clone(), pre.clone());
        t.push(task(family, move |w| {
            let d: Vec<F::Stmt> = pre.iter().cloned().chain(alphabet.iter().cycle().take(n).cloned()).collect();
            let mut st = F::State::default();
            for s in &d {
                F::apply(&mut st, s);
            }
            let lay = Layout::new(d.iter().map(F::text));
            for g in 0..GLOBALS {
                let text = lay.render(&[(lay.sites.len() - 1, g)]);
                w.transition(hash_of(&(n, g)));
                F::check(w, &text, &st, mask);
            }
            // Many comments or blank lines in one place.
            for ins in INSERTS {
                let text: String = d.iter().map(|s| format!("{}\n", F::text(s))).collect();
                let at = text[..text.len() / 2].rfind('\n').map_or(0, |i| i + 1);
                w.transition(hash_of(&(n, ins)));
                for more in [ins.repeat(n), ins.to_string()] {
                    let head: String = pre.iter().map(|s| format!("{}\n", F::text(s))).collect();
                    for at in [0, head.len(), at, text.len()] {
                        let t2 = format!("{}{more}{}", &text[..at], &text[at..]);
                        F::check(w, &t2, &st, mask);
                        F::check(w, &t2.replace('\n', "\r\n").replace("\r\r", "\r"), &st, mask);
                        if let Some(t2) = t2.strip_suffix('\n') {
                            F::check(w, t2, &st, mask);
                        }
                    }
                }
            }
            // A long comment, a long run of blanks.
            for long in [format!("{} # {}", " ".repeat(n), "c ".repeat(n)), "\t".repeat(n), format!(" #{}", "#".repeat(n)), format!(" # {}", "é".repeat(n))] {
                let text: String = d.iter().take(40).map(|s| format!("{}{long}\n", F::text(s))).collect();
                let mut st = F::State::default();
                for s in d.iter().take(40) {
                    F::apply(&mut st, s);
                }
                w.transition(hash_of(&text));
                F::check(w, &text, &st, mask);
            }
        }));
    }
    t
}

/// Indents, gaps and ends of any length.
fn blanks<F: Format>(family: &str, alphabet: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, few: bool, mask: u32) -> Vec<Task> {
    let mut lens: Vec<usize> = (1..=70).chain([79, 80, 100, 127, 128, 129, 255, 256, 257, 1000, 1024]).collect();
    if few {
        lens.retain(|n| n % 16 == 0 || [2, 3, 4, 8].contains(n));
    }
    (0..alphabet.len())
        .map(|i| {
            let (alphabet, pre, lens) = (alphabet.clone(), pre.clone(), lens.clone());
            task(family, move |w| {
                let mut st = F::State::default();
                for s in pre.iter().chain([&alphabet[i]]) {
                    F::apply(&mut st, s);
                }
                w.state(F::hash(&st));
                let head: String = pre.iter().map(|s| format!("{}\n", F::text(s))).collect();
                let line = F::text(&alphabet[i]);
                let gaps: Vec<usize> = line.match_indices(' ').map(|x| x.0).collect();
                for &n in &lens {
                    for b in [" ".repeat(n), "\t".repeat(n), " \t".repeat(n), format!("{}\t", " ".repeat(n)), format!("\t{}", " ".repeat(n))] {
                        w.transition(hash_of(&(&b, line)));
                        let mut texts = vec![format!("{head}{b}{line}"), format!("{head}{line}{b}"), format!("{head}{b}{line}{b}\n"), format!("{head}{line}{b}# {line}\n"), format!("{head}{b}\n{line}\r\n{b}\r\n"), format!("{head}{b}#{b}c\n{line}\n{b}# c")];
                        for &g in &gaps {
                            texts.push(format!("{head}{}{b}{}\n", &line[..g], &line[g + 1..]));
                            texts.push(format!("{head}{}{b}{} # c", &line[..g], &line[g + 1..]));
                        }
                        texts.push(format!("{head}{b}{}{b}\n", line.replace(' ', &b)));
                        for t in texts {
                            F::check(w, &t, &st, mask);
                        }
                    }
                }
            })
        })
        .collect()
}

/// Keywords, options and switches in every mixture of upper and lower case.
fn cases<F: Format>(family: &str, alphabet: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, mask: u32) -> Vec<Task> {
    (0..alphabet.len())
        .map(|i| {
            let (alphabet, pre) = (alphabet.clone(), pre.clone());
            task(family, move |w| {
                let mut st = F::State::default();
                for s in pre.iter().chain([&alphabet[i]]) {
                    F::apply(&mut st, s);
                }
                w.state(F::hash(&st));
                let head: String = pre.iter().map(|s| format!("{}\n", F::text(s))).collect();
                let words: Vec<&str> = F::text(&alphabet[i]).split(' ').collect();
                for (k, x) in words.iter().enumerate().filter(|(k, x)| any_case(*k, x)) {
                    let letters: Vec<usize> = x.bytes().enumerate().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
                    for how in 0..1u32 << letters.len() {
                        let mut b = x.to_ascii_lowercase().into_bytes();
                        for (bit, &i) in letters.iter().enumerate() {
                            if how >> bit & 1 == 1 {
                                b[i].make_ascii_uppercase();
                            }
                        }
                        let mut words = words.clone();
                        let y = String::from_utf8(b).unwrap();
                        words[k] = &y;
                        let line = words.join(" ");
                        w.transition(hash_of(&line));
                        F::check(w, &format!("{head}{line}\n"), &st, mask);
                        F::check(w, &format!("{head}\t{}  ", words.join("\t")), &st, mask);
                    }
                }
            })
        })
        .collect()
}

/// Comments that begin with any character, hold statements, or look like something else, on lines of their own and
/// behind statements.
fn comments<F: Format>(family: &str, alphabet: Arc<Vec<F::Stmt>>, pre: Arc<Vec<F::Stmt>>, mask: u32) -> Vec<Task> {
    let starts: Vec<String> = (0..0x80u32).chain([0xa0, 0xe9, 0xfeff, 0x3bb, 0x2028, 0x1f600]).filter_map(char::from_u32).filter(|c| !['\n', '\r'].contains(c)).map(String::from).collect();
    let more = ["", "v 9 9 9", " v 9 9 9", " newmtl x", "Kd 9 9 9", "foo", "!", "#", " # f 1 2 3", "-*- x -*-", "include \"x.obj\"", "//", "\\", " \\", "*/", "'\"", " MTKCOLOR 9 9 9", "MRGB 9", " g x", " usemtl x", " s 9", "endif", " 99"];
    starts
        .into_iter()
        .map(|start| {
            let (alphabet, pre) = (alphabet.clone(), pre.clone());
            task(family, move |w| {
                for i in 0..alphabet.len() {
                    let mut st = F::State::default();
                    for s in pre.iter().chain([&alphabet[i]]) {
                        F::apply(&mut st, s);
                    }
                    w.state(F::hash(&st));
                    let head: String = pre.iter().map(|s| format!("{}\n", F::text(s))).collect();
                    let line = F::text(&alphabet[i]);
                    // All contents around one statement, one around each.
                    let some = if i == 0 { more.len() } else { 3 };
                    for c in more[..some].iter().flat_map(|m| [format!("#{start}{m}"), format!("# c{start}{m}"), format!("# {m}{start}")]) {
                        let mut texts = vec![];
                        for indent in INDENTS {
                            texts.extend([format!("{head}{indent}{c}\n{line}\n"), format!("{indent}{c}\n{head}{line}\n"), format!("{head}{line}\n{indent}{c}"), format!("{head}{line}\r\n{indent}{c}\r\n")]);
                            texts.push(format!("{head}{indent}{c}\n\n{indent}{c}\n{line}\n{indent}{c}\n"));
                        }
                        for gap in GAPS {
                            texts.extend([format!("{head}{line}{gap}{c}\n"), format!("{head}{line}{gap}{c}\r\n{gap}{c}"), format!("{head} {line}{gap}{c}")]);
                        }
                        w.transition(hash_of(&(&c, line)));
                        for t in texts {
                            F::check(w, &t, &st, mask);
                        }
                    }
                    if w.stopped() {
                        return;
                    }
                }
            })
        })
        .collect()
}

/// Documents without any statement.
fn empty<F: Format>(family: &str, depth: usize, mask: u32) -> Vec<Task> {
    let parts = ["\n", "\r\n", " ", "\t", "# c", "#", "#v 1 2 3"];
    (0..parts.len())
        .map(|a| {
            task(family, move |w| {
                let st = F::State::default();
                if a == 0 {
                    F::check(w, "", &st, mask);
                }
                for n in 0..depth {
                    power(parts.len(), n, |c| {
                        let text: String = std::iter::once(&a).chain(c).map(|&i| parts[i]).collect();
                        w.transition(hash_of(&text));
                        F::check(w, &text, &st, mask);
                        !w.stopped()
                    });
                }
            })
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn explore<F: Format>(deep: bool, kinds: fn(usize) -> Vec<F::Stmt>, all: Vec<F::Stmt>, rich: Vec<F::Stmt>, pre: Vec<F::Stmt>, mask: u32, th: bool) -> Vec<Task> {
    let table: Arc<Vec<Vec<F::Stmt>>> = Arc::new((1..=3).map(kinds).collect());
    let pre = Arc::new(pre);
    let all = Arc::new(all);
    let mut t = vec![];
    t.extend(documents::<F>("one-statement", Arc::new(vec![all.to_vec()]), pre.clone(), 1, if th && deep { 4 } else if th || deep { 3 } else { 2 }, mask));
    t.extend(documents::<F>("two-statements", table.clone(), pre.clone(), 2, 2, mask));
    t.extend(documents::<F>("three-statements", table.clone(), pre.clone(), 3, if th { 2 } else { 1 }, mask));
    t.extend(product::<F>("full-product", all.clone(), pre.clone(), if th { 3 } else if deep { 2 } else { 1 }, mask));
    for chunk in 0..8 {
        let rich = rich.clone();
        t.push(task("all-kinds-in-one", move |w| {
            let n = rich.len();
            let d: Vec<F::Stmt> = rich.iter().cycle().skip(chunk * n / 8).take(n / if w.thorough() { 2 } else if deep { 3 } else { 8 }).cloned().collect();
            layouts::<F>(w, &d, 2, mask);
        }));
    }
    t.extend(long::<F>("long-documents", table_first(&table), pre.clone(), mask, th));
    // With nothing before it, and with one of everything, of some twice.
    let much = Arc::new([&pre[..], &table[0][..], &table[1][..], &table[2][..]].concat());
    for (pre, few) in [(pre, false), (much, !th)] {
        t.extend(blanks::<F>("blanks", all.clone(), pre.clone(), few, mask));
        t.extend(cases::<F>("every-case", if few { table_first(&table) } else { all.clone() }, pre.clone(), mask));
        if !few {
            t.extend(comments::<F>("comments", table_first(&table), pre.clone(), mask));
        }
    }
    t.extend(empty::<F>("no-statements", if th { 7 } else { 5 }, mask));
    t
}

fn table_first<S: Clone>(t: &Arc<Vec<Vec<S>>>) -> Arc<Vec<S>> {
    Arc::new(t[0].clone())
}

pub fn p13(th: bool) -> Vec<Task> {
    fn single(v: Vec<objm::Stmt>) -> Vec<objm::Stmt> {
        v.into_iter().filter(|s| !s.text.is_empty() && !s.text.starts_with('#')).collect()
    }
    let all = single(obj::full(1));
    explore::<Obj>(true, obj::kinds, all.clone(), all, vec![], objm::ALL, th)
}

pub fn p14(th: bool) -> Vec<Task> {
    // The material is part of every document, but the statements before the first newmtl are not at stake here.
    let all: Vec<mtlm::Stmt> = mtl::full(1).into_iter().chain(extra()).filter(|s| !s.text.is_empty() && !s.text.starts_with('#')).collect();
    explore::<Mtl>(false, few, all.clone(), all, vec![mtl::new("m")], mtlm::ALL, th)
}

fn extra() -> Vec<mtlm::Stmt> {
    let mut r = vec![];
    for m in [1, 3, mtlm::BUMP, mtlm::REFL] {
        for o in mtl::options(1) {
            r.push(mtl::map(m, "f.png", &[o.clone()]));
        }
        r.push(mtl::map_at(m, mtlm::MAPS[m], "f.png", &[mtl::bool_opt("-blendu", true), mtl::ost('o', &["1", "2"])], 0));
        r.push(mtl::map_at(m, mtlm::MAPS[m], "f.png", &[mtl::bool_opt("-clamp", false), mtl::mm("0", "1")], 1));
    }
    r
}

/// One statement of each kind, for longer documents.
fn few(k: usize) -> Vec<mtlm::Stmt> {
    let c = mtl::colors(k, 0);
    let d = mtl::colors(k, 4);
    let s = mtl::scalars(k);
    let o = mtl::options(k);
    vec![
        mtl::new(&format!("n{k}")),
        c[0].clone(),
        c[2].clone(),
        c[5].clone(),
        d[3].clone(),
        s[0].clone(),
        s[4].clone(),
        s[5].clone(),
        s[6].clone(),
        s[7].clone(),
        mtl::map(1, "f.png", &[]),
        mtl::map(3, "g.png", &[o[0].clone(), o[6].clone()]),
        mtl::map(mtlm::BUMP, "h.png", &[o[14].clone()]),
        mtl::map_at(mtlm::REFL, "refl", "i.png", &[o[15].clone(), o[3].clone()], 1),
    ]
}
