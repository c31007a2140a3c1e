//! Whole-file properties: C02 fixpoint, C03 unknown statements, C04 blanks and
//! comments, C06 no panic, C07 truncated files, C20 statement order.
use crate::common::*;
use crate::explore::{explore, par_for, par_stack};
use crate::lex::{lex, T};
use crate::report::Report;
use crate::schema::*;
use crate::step;
use ifc_rs::IFC;
use std::collections::BTreeMap;

fn full_line(s: &Schema, i: usize) -> String {
    let k = &s.kinds[i];
    line(k.names[0], &k.attrs.iter().map(|a| full(s, a)).collect::<Vec<_>>())
}

/// the loaded file holds exactly the given statements, typed and in ascending order
fn holds_exactly(s: &Schema, ifc: &IFC, want: &BTreeMap<u64, String>, lenient: bool) -> Result<String, String> {
    let written = ifc.to_string();
    let f = step::file(&written).map_err(|e| format!("the written file is not well formed: {e}"))?;
    let ids: Vec<u64> = f.data.iter().map(|d| d.0).collect();
    let wanted: Vec<u64> = want.keys().copied().collect();
    if ids != wanted {
        return Err(format!("statement numbers {} instead of {}", short(&ids), short(&wanted)));
    }
    for (id, _, raw) in &f.data {
        let w = &want[id];
        let we = step::ent(w).map_err(|e| format!("generator: {e}"))?;
        let e = entity(ifc, *id)?;
        match s.kinds.iter().find(|k| k.names.contains(&we.name.as_str()) && (k.is)(e)) {
            Some(k) => same_entity(k, &we, &format!("{raw};")).map_err(|m| format!("#{id}: {m}"))?,
            None => {
                if !lenient && s.kinds.iter().any(|k| k.names.contains(&we.name.as_str())) {
                    return Err(format!("#{id} {} is read as {}", we.name, e.type_name()));
                }
                if !is_dummy(e) || raw.trim() != w.trim() {
                    return Err(format!("#{id} unsupported statement changed: {w} -> {raw}"));
                }
            }
        }
    }
    Ok(written)
}

fn short(v: &[u64]) -> String {
    clip(&format!("{v:?}"), 200)
}

fn fixpoint(s: &Schema, text: &str, want: &BTreeMap<u64, String>, lenient: bool) -> Result<(), String> {
    let a = load_ok(text).map_err(|e| format!("a valid file is not loaded: {e}"))?;
    let w1 = holds_exactly(s, &a, want, lenient)?;
    let b = load_ok(&w1).map_err(|e| format!("the written file is not loaded: {e}"))?;
    let w2 = holds_exactly(s, &b, want, lenient).map_err(|e| format!("after the second load: {e}"))?;
    if w2 != w1 {
        let d = w1.lines().zip(w2.lines()).find(|(x, y)| x != y);
        return Err(format!("writing again gives a different file: {d:?}"));
    }
    Ok(())
}

pub fn c02(rep: &Report) -> &'static str {
    let s = Schema::new();
    let n = s.kinds.len();
    let forms: Vec<[String; 2]> = (0..n).map(|i| [exemplar(&s, i), full_line(&s, i)]).collect();
    let dummies = ["IFCCOLUMN('a;b',(1.,#2),$)", "IFCQUANTITYAREA('NetSideArea',$,#7,10.45,$)"];
    let idsets: &[[u64; 3]] = &[[1, 2, 3], [3, 2, 1], [7, 900, 40], [u64::MAX >> 1, 5, 1 << 32]];
    rep.bound("kinds", n as u64);
    rep.bound("statements_under_test_per_file", rep.pick(2, 3));
    rep.bound("number_assignments", idsets.len() as u64);
    let run = |lines: Vec<(u64, String)>, key: String| {
        let all = with_closure(&s, &lines);
        let text = file_of(&all);
        rep.state(&text);
        rep.step(2);
        let want: BTreeMap<u64, String> = all.into_iter().collect();
        if let Err(m) = fixpoint(&s, &text, &want, false) {
            rep.violation(key, m, text);
        } else {
            rep.trace();
        }
    };
    let c = explore(rep, 99, |ch| {
        let i = ch.choose(n);
        let j = ch.choose(n);
        let (fi, fj) = (ch.choose(2), ch.choose(2));
        let ids = &idsets[ch.choose(idsets.len())];
        run(
            vec![
                (ids[0], forms[i][fi].clone()),
                (ids[1], forms[j][fj].clone()),
                (ids[2], dummies[(i + j) % 2].to_string()),
            ],
            format!("pair {} {} {}{} {:?}", s.kinds[i].tag, s.kinds[j].tag, fi, fj, ids),
        );
    });
    rep.outcome_n("pair_files", c);
    if !rep.quick() {
        let c = explore(rep, 99, |ch| {
            let i = ch.choose(n);
            let j = ch.choose(n);
            let k = ch.choose(n);
            let f = ch.choose(4);
            run(
                vec![
                    (3, forms[i][f & 1].clone()),
                    (2, forms[j][1].clone()),
                    (1, forms[k][f >> 1].clone()),
                ],
                format!("triple {} {} {} {}", s.kinds[i].tag, s.kinds[j].tag, s.kinds[k].tag, f),
            );
        });
        rep.outcome_n("triple_files", c);
    }
    // number of statements: 0..=12 and a few hundred
    for k in (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 777, 1023, 1024, 1025]).chain(if rep.quick() { vec![] } else { vec![4096, 65536, 70001] }) {
        let lines: Vec<(u64, String)> = (0..k).map(|i| (5000 + i as u64 * 3, forms[i % n][1].clone())).collect();
        run(lines, format!("count {k}"));
    }
    // a number given twice: the later statement is the one kept
    for i in 0..n {
        for j in 0..n {
            let a = forms[i][1].clone();
            let b = forms[j][1].clone();
            let mut all = with_closure(&s, &[(1, a.clone()), (2, b.clone())]);
            all.retain(|x| x.0 > 2);
            let mut lines = vec![(1, a), (1, b.clone())];
            lines.extend(all.clone());
            let mut want: BTreeMap<u64, String> = all.into_iter().collect();
            want.insert(1, b);
            let text = file_of(&lines);
            rep.state(&text);
            rep.step(2);
            if let Err(m) = fixpoint(&s, &text, &want, false) {
                rep.violation(format!("twice {} {}", s.kinds[i].tag, s.kinds[j].tag), m, text);
            }
        }
    }
    // the files shipped with the repository
    for f in ["wall-standard-case.ifc", "AC20-FZK-Haus.ifc"] {
        let p = format!("/repo/ifc_rs/resources/{f}");
        let Ok(text) = std::fs::read_to_string(&p) else {
            rep.outcome(format!("{f} not available"));
            continue;
        };
        let want: BTreeMap<u64, String> = match step::file(&text) {
            Ok(x) => x.data.into_iter().map(|(i, _, r)| (i, r)).collect(),
            Err(e) => {
                rep.outcome(format!("{f} not read by the oracle: {e}"));
                continue;
            }
        };
        rep.outcome_n(format!("{f}_statements"), want.len() as u64);
        rep.step(2);
        if let Err(m) = fixpoint(&s, &text, &want, true) {
            rep.violation(format!("shipped {f}"), m, p);
        } else {
            rep.trace();
        }
    }
    "exhaustive enumeration of files made of all pairs (thorough: triples) of entity kinds and number assignments, executed on load/write/load/write and compared with an independent STEP reader"
}

pub fn c20(rep: &Report) -> &'static str {
    let s = Schema::new();
    // files with mutual references, each explored in every statement order
    let sets: Vec<Vec<&str>> = vec![
        vec!["Wall", "OwnerHistory", "PersonAndOrganization", "Person", "Organization", "Application", "RelDefinesByType", "WallType"],
        vec!["Project", "GeometricRepresentationContext", "Axis3D", "Point3D", "UnitAssigment", "SiUnit", "RelAggregates", "Site"],
        vec!["MaterialLayerSetUsage", "MaterialLayerSet", "MaterialLayer", "Material", "RelAssociatesMaterial", "Wall", "MaterialConstituentSet", "MaterialConstituent"],
        vec!["ShapeRepresentation", "ExtrudedAreaSolid", "RectangleProfileDef", "Axis2D", "Point2D", "Direction3D", "MappedItem", "RepresentationMap"],
        vec!["RelVoidsElement", "OpeningElement", "RelFillsElement", "Window", "Door", "RelContainedInSpatialStructure", "Storey", "Building"],
        vec!["PropertySet", "PropertySingleValue", "RelDefinesByProperties", "Slab", "Roof", "Space", "RelDeclares", "Project"],
    ];
    let k = rep.pick(6, 8);
    rep.bound("statements_permuted", k as u64);
    rep.bound("file_sets", sets.len() as u64);
    for set in &sets {
        let own: Vec<(u64, String)> =
            set.iter().enumerate().map(|(i, t)| (i as u64 + 1, full_line(&s, s.idx(t)))).collect();
        let all = with_closure(&s, &own);
        let (front, back) = (own[..k].to_vec(), all.into_iter().filter(|x| x.0 > k as u64).collect::<Vec<_>>());
        let mut base = front.clone();
        base.extend(back.clone());
        let reference = match load_ok(&file_of(&base)) {
            Ok(i) => i.to_string(),
            Err(e) => {
                rep.violation(format!("order base {set:?}"), format!("a valid file is not loaded: {e}"), file_of(&base));
                continue;
            }
        };
        explore(rep, 99, |ch| {
            let mut left: Vec<usize> = (0..k).collect();
            let mut lines = Vec::new();
            while !left.is_empty() {
                let c = ch.choose(left.len());
                lines.push(front[left.remove(c)].clone());
            }
            // the rest before, or after
            if ch.choose(2) == 0 {
                lines.extend(back.iter().cloned());
            } else {
                lines.splice(0..0, back.iter().rev().cloned());
            }
            let text = file_of(&lines);
            rep.state(&text);
            rep.step(1);
            match load_ok(&text) {
                Ok(i) => {
                    if i.to_string() != reference {
                        rep.violation(format!("order {:?}", &lines[..2]), "the order of statements changes the loaded model", text);
                    } else {
                        rep.trace();
                    }
                }
                Err(e) => rep.violation(format!("order {:?}", &lines[..2]), format!("an order of statements is not loaded: {e}"), text),
            }
        });
    }
    // from_file agrees with reading the text
    let dir = std::env::temp_dir().join(format!("mc-c20-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    for i in 0..s.kinds.len() {
        for bad in [false, true] {
            let mut text = file_of(&with_closure(&s, &[(1, full_line(&s, i))]));
            if bad {
                text.truncate(text.len() - 4);
            }
            let p = dir.join(format!("{i}-{bad}.ifc"));
            if std::fs::write(&p, &text).is_err() {
                rep.outcome("scratch file not writable");
                continue;
            }
            rep.state(&(i, bad, "from_file"));
            rep.step(2);
            let a = crate::report::guard(|| IFC::from_file(&p).map(|x| x.to_string()).map_err(|e| e.to_string()));
            let b = load(&text);
            let same = match (a, b) {
                (Ok(Ok(x)), Load::Ok(y)) => x == y.to_string(),
                (Ok(Err(_)), Load::Rejected(_)) => true,
                _ => false,
            };
            if !same {
                rep.violation(format!("from_file {}", s.kinds[i].tag), "loading from a file differs from loading its text", text);
            }
        }
    }
    // every short text of awkward characters, in a statement of a known and of an unknown kind
    let chars = ["\r", "\n", "\r\n", "\t", " ", "\u{b}", "\u{0}", "\u{feff}", "\u{e4}", "\u{85}", "\u{2028}", "\u{1F600}", "\\", "x", "\u{1a}", "\u{7f}"];
    let len = rep.pick(2u32, 3);
    rep.bound("awkward_text_length", len as u64);
    let n = chars.len();
    let total = n.pow(len);
    par_for(total, |mut i| {
        let mut w = String::new();
        for _ in 0..len {
            w.push_str(chars[i % n]);
            i /= n;
        }
        let parts = [
            file_of(&[(1, format!("IFCMATERIAL('a{w}b',$,$)"))]),
            file_of(&[(1, format!("IFCFOO('a{w}b')"))]),
            format!("{w}{}", file_of(&[(1, "IFCMATERIAL('a',$,$)".into())])),
            format!("{}{w}", file_of(&[(1, "IFCMATERIAL('a',$,$)".into())])),
        ];
        for (k, text) in parts.iter().enumerate() {
            if rep.stop() {
                return;
            }
            let p = dir.join(format!("t{:?}.ifc", std::thread::current().id()).replace(['(', ')'], ""));
            if std::fs::write(&p, text).is_err() {
                rep.outcome("scratch file not writable");
                return;
            }
            rep.state(&(&text, "awkward"));
            rep.step(2);
            let a = crate::report::guard(|| IFC::from_file(&p).map(|x| x.to_string()).map_err(|e| e.to_string()));
            match (a, load(text)) {
                (Ok(Ok(x)), Load::Ok(y)) if x == y.to_string() => rep.trace(),
                (Ok(Err(_)), Load::Rejected(_)) => rep.trace(),
                _ => rep.violation(format!("from_file {k} {w:?}"), format!("loading a file with {w:?} differs from loading its text"), text.clone()),
            }
        }
    });
    // large files: characters of several bytes and line ends at every position
    // of whatever blocks the file may be read in, and files of exactly the size of blocks
    let sizes: Vec<usize> = (9..=rep.pick(17, 21)).map(|b| 1usize << b).collect();
    rep.bound("largest_file_bytes", *sizes.last().unwrap() as u64 * 2);
    let fills = ["a", "\u{e4}", "\u{6f22}", "\u{1F600}", "\r\n", "''", "\\X\\E4", "/*"];
    par_for(sizes.len() * fills.len(), |i| {
        let (size, fill) = (sizes[i / fills.len()], fills[i % fills.len()]);
        let p = dir.join(format!("l{i}.ifc"));
        let make = |pad: usize, n: usize| file_of(&[(1, format!("IFCMATERIAL('{}{}',$,$)", "b".repeat(pad), fill.repeat(n)))]);
        let mut texts: Vec<(String, String)> = (0..fill.len()).map(|pad| (format!("pad {pad}"), make(pad, 2 * size / fill.len()))).collect();
        // the whole file a little below, at, and above the size
        let bare = make(0, 0).len();
        if size > bare + 64 {
            for len in size - 4..=size + 4 {
                let n = (len - bare) / fill.len();
                texts.push((format!("length {len}"), make(len - bare - n * fill.len(), n)));
            }
        }
        for (what, text) in texts {
            if rep.stop() {
                return;
            }
            if std::fs::write(&p, &text).is_err() {
                rep.outcome("scratch file not writable");
                return;
            }
            rep.state(&(i, &what, "large"));
            rep.step(2);
            let a = crate::report::guard(|| IFC::from_file(&p).map(|x| x.to_string()).map_err(|e| e.to_string()));
            match (a, load(&text)) {
                (Ok(Ok(x)), Load::Ok(y)) if x == y.to_string() => rep.trace(),
                (Ok(Err(_)), Load::Rejected(_)) => rep.trace(),
                _ => rep.violation(
                    format!("from_file {size} {fill:?} {what}"),
                    format!("loading a file of {} bytes with {fill:?} differs from loading its text", text.len()),
                    clip(&text, 300),
                ),
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    match crate::report::guard(|| IFC::from_file(dir.join("absent.ifc")).is_err()) {
        Ok(true) => {}
        _ => rep.violation("from_file absent", "a missing file is not reported as an error", "absent.ifc"),
    }
    names_and_histories(rep, &s, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    "all permutations of the statements of reference-rich files, executed on IFC::from_str, compared with the written form of the reference order"
}

/// what a file is called, where it is, and what was there before do not matter
fn names_and_histories(rep: &Report, s: &Schema, dir: &std::path::Path) {
    let good = file_of(&with_closure(s, &[(1, full_line(s, 0))]));
    let other = file_of(&with_closure(s, &[(1, full_line(s, 1)), (2, full_line(s, 0))]));
    let bad = good.replace("DATA;", "DATA");
    let texts: Vec<String> = vec![
        good.clone(),
        other.clone(),
        bad.clone(),
        good.replace('\n', "\r\n"),
        format!("\u{feff}{good}"),
        format!("{good}\n\n"),
        good[..good.len() - 1].to_string(),
        good.to_lowercase(),
        format!("{good}{good}"),
        String::new(),
    ];
    let agrees = |p: &std::path::Path, text: Option<&str>, what: &str| {
        rep.state(&(what, text));
        rep.step(2);
        let a = crate::report::guard(|| IFC::from_file(p).map(|x| x.to_string()).map_err(|e| e.to_string()));
        let fine = match (a, text.map(load)) {
            (Ok(Ok(x)), Some(Load::Ok(y))) => x == y.to_string(),
            (Ok(Err(_)), Some(Load::Rejected(_)) | None) => true,
            _ => false,
        };
        if fine {
            rep.trace();
        } else {
            rep.violation(format!("from_file {what}"), format!("{what}: loading the file differs from loading its text"), text.unwrap_or("(no such file)").to_string());
        }
    };
    let long = "n".repeat(200);
    let names = [
        "a.ifc", "A.IFC", "a.Ifc", "a.stp", "a.STEP", "a.p21", "a.txt", "a.ifcxml", "a.ifczip", "a.zip", "a.xml", "a.json", "a.gz", "a.ifc.gz", "a", "a.", ".ifc",
        "a b.ifc", "\u{e4}\u{1F600}.ifc", "a.ifc.bak", "a.tmp", "~a.ifc", "-", "#1.ifc", "a%20b.ifc", "a\nb.ifc", "a'b.ifc", "sub/a.ifc", "sub/../sub/./b.ifc", "CON", "a.ifc~",
        &long,
    ];
    let _ = std::fs::create_dir_all(dir.join("sub"));
    for n in names {
        for (i, t) in texts.iter().enumerate() {
            let p = dir.join(n);
            if std::fs::write(&p, t).is_err() {
                rep.outcome("scratch file not writable");
                continue;
            }
            agrees(&p, Some(t), &format!("name {n:?}, text {i}"));
            let link = dir.join("link");
            let _ = std::fs::remove_file(&link);
            if std::os::unix::fs::symlink(&p, &link).is_ok() {
                agrees(&link, Some(t), &format!("link to {n:?}, text {i}"));
            }
            let _ = std::fs::remove_file(&p);
            agrees(&p, None, &format!("name {n:?}, removed"));
        }
    }
    agrees(&dir.join("sub"), None, "a directory");
    for raw in [&b"a\xff.ifc"[..], b"\xc3\x28"] {
        use std::os::unix::ffi::OsStrExt;
        let p = dir.join(std::ffi::OsStr::from_bytes(raw));
        if std::fs::write(&p, &good).is_ok() {
            agrees(&p, Some(&good), "a name that is no UTF-8");
        }
    }
    // every history of writing, removing and exchanging two files, both read after each step
    let depth = rep.pick(4usize, 5);
    rep.bound("file_history_length", depth as u64);
    let same_size = good.replacen("ISO", "ISO", 1).replace("'a.ifc'", "'b.ifc'");
    let content = [&good, &other, &bad, &same_size];
    explore(rep, usize::MAX, |ch| {
        let me = dir.join(format!("h{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        let _ = std::fs::create_dir_all(&me);
        let p = [me.join("x.ifc"), me.join("y.ifc")];
        let mut now: [Option<&str>; 2] = [None, None];
        let mut what = String::from("history");
        for q in &p {
            let _ = std::fs::remove_file(q);
        }
        for _ in 0..depth {
            let c = ch.choose(2 * content.len() + 3);
            if c < 2 * content.len() {
                let (i, k) = (c % 2, c / 2);
                std::fs::write(&p[i], content[k]).expect("scratch file");
                now[i] = Some(content[k]);
                what += &format!(" write {i} {k}");
            } else if c < 2 * content.len() + 2 {
                let i = c % 2;
                let _ = std::fs::remove_file(&p[i]);
                now[i] = None;
                what += &format!(" remove {i}");
            } else {
                for (a, b) in [(&p[0], &me.join("t")), (&p[1], &p[0]), (&me.join("t"), &p[1])] {
                    let _ = std::fs::rename(a, b);
                }
                now.swap(0, 1);
                what += " exchange";
            }
            for i in 0..2 {
                agrees(&p[i], now[i], &format!("{what} read {i}"));
            }
        }
        let _ = std::fs::remove_file(&p[0]);
        let _ = std::fs::remove_file(&p[1]);
    });
}

// ------------------------------------------------------------------ C03

pub fn c03(rep: &Report) -> &'static str {
    let s = Schema::new();
    let atoms: &[&str] = &[
        "$", "*", "#7", ".USERDEFINED.", "-1.5E-3", "'txt'", "'a;b'", "'it''s'", "''", "'x)/*;'", "'*/;'", "IFCLABEL('q;')",
        "\"0FF\"", "'\\X2\\00C4\\X0\\'", "'#1= IFCWALL('", ".T.",
    ];
    let names = ["IFCCOLUMN", "IFCWALLX", "IFCWAL", "IFC2_X", "IFCDOORLININGPROPERTIES", "MYENTITY"];
    let n_atoms = rep.pick(3usize, 4);
    rep.bound("values_per_statement", n_atoms as u64);
    rep.bound("atoms", atoms.len() as u64);
    rep.bound("nesting", 2u64);
    let before = (1u64, full_line(&s, s.idx("Wall")));
    let after = (3u64, full_line(&s, s.idx("PropertySingleValue")));
    let ctx = with_closure(&s, &[before.clone(), after.clone()]);
    let plain = {
        let i = load_ok(&file_of(&ctx));
        match i {
            Ok(i) => i.to_string(),
            Err(e) => {
                rep.violation("c03 base", e, file_of(&ctx));
                return "base file not loaded";
            }
        }
    };
    let plain_file = match step::file(&plain) {
        Ok(f) => f,
        Err(e) => {
            rep.violation("c03 base", e, plain);
            return "base file not readable";
        }
    };
    let run_tail = |raw: &str, tail: &str| {
        rep.state(&(raw, tail));
        rep.step(2);
        let mut lines = ctx.clone();
        lines.insert(1, (2, format!("{raw}{tail}")));
        let text = file_of(&lines);
        let fail = |m: String| rep.violation(format!("unknown {raw}"), m, text.clone());
        let ifc = match load_ok(&text) {
            Ok(i) => i,
            Err(e) => return fail(format!("a file with an unsupported statement is not loaded: {e}")),
        };
        match entity(&ifc, 2) {
            Ok(e) if is_dummy(e) => {
                if e.to_string() != format!("{raw};") {
                    return fail(format!("unsupported statement changed: {raw}; -> {e}"));
                }
            }
            Ok(e) => return fail(format!("unsupported statement read as {}", e.type_name())),
            Err(m) => return fail(m),
        }
        let out = ifc.to_string();
        let f = match step::file(&out) {
            Ok(f) => f,
            Err(e) => return fail(format!("written file is not well formed: {e}")),
        };
        let rest: Vec<_> = f.data.iter().filter(|d| d.0 != 2).map(|d| (d.0, d.2.clone())).collect();
        let want: Vec<_> = plain_file.data.iter().map(|d| (d.0, d.2.clone())).collect();
        if rest != want {
            return fail("the statements next to an unsupported one changed".to_string());
        }
        if !out.contains(&format!("#2= {raw};\n")) {
            return fail("unsupported statement is not written as it was read".to_string());
        }
        match load_ok(&out) {
            Ok(j) if j.to_string() == out => rep.trace(),
            Ok(_) => fail("writing again changes the file".to_string()),
            Err(e) => fail(format!("the written file is not loaded: {e}")),
        }
    };
    let run = |raw: &str| run_tail(raw, "");
    let c = explore(rep, 1, |ch| {
        // separators and keyword are deviations, the values are all explored
        let sep = [",", ", ", " , ", "\n,", ",/* ;c' */"][ch.deviate(5)];
        let name = names[ch.deviate(names.len())];
        let tail = ["", " ", "\n  ", "/* ; */"][ch.deviate(4)];
        let mut left = n_atoms;
        let list = values(ch, atoms, sep, &mut left, 0);
        run_tail(&format!("{name}({list})"), tail);
    });
    rep.outcome_n("generated_statements", c);
    // nested, long and many-valued ones; the thread's stack is no larger than usual
    let sizes: Vec<usize> = (3..=40).chain([64, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 10_000]).chain(if rep.quick() { vec![] } else { vec![65_536, 100_000] }).collect();
    rep.bound("deepest_nesting_alone", *sizes.last().unwrap() as u64);
    let sized = sizes.iter().flat_map(|&k| {
        [
            format!("MYENTITY({}{})", "(".repeat(k), ")".repeat(k)),
            format!("MYENTITY({}'a;)'{})", "(".repeat(k), ",$)".repeat(k)),
            format!("MYENTITY({}1{})", "IFCX(".repeat(k), ")".repeat(k)),
            format!("MYENTITY('{}',#7)", "a;b".repeat(k)),
            format!("MYENTITY('{}')", "''".repeat(k)),
            format!("MYENTITY({}$)", "'it''s',#7,(1.5),".repeat(k)),
            format!("{}($,'x;')", "MYENTITY".repeat(k)),
            format!("MYENTITY({}$)", "/* c;'( */".repeat(k.min(1024))),
        ]
    });
    let sized: Vec<String> = sized.collect();
    par_stack(sized.len(), 2, |i| drop(load(&file_of(&[(2, sized[i].clone())]))));
    // the independent reader is recursive
    par_stack(sized.len(), 1024, |i| run(&sized[i]));
    // complex instances and supported keywords with attributes that do not fit
    for raw in ["(IFCA($)IFCB('x;'))", "IFCWALL()", "IFCWALL('x')", "IFCDIRECTION((1.,2.,3.,4.))", "IFCSIUNIT(*,.NOSUCHUNIT.,$,.METRE.)", "IFCMATERIAL()"] {
        run(raw);
    }
    for k in &s.kinds {
        let args: Vec<String> = k.attrs.iter().map(|a| full(&s, a)).collect();
        let mut more = args.clone();
        more.push("$".into());
        run(&line(k.names[0], &more).replace("#1", "#9"));
        run(&line(&format!("{}X", k.names[0]), &args).replace("#1", "#9"));
        if k.attrs.len() > 1 {
            run(&line(k.names[0], &args[..args.len() - 1]).replace("#1", "#9"));
        }
    }
    // other kinds with the attributes of a supported one
    let known: Vec<&str> = s.kinds.iter().flat_map(|k| k.names.iter().copied()).collect();
    let all = crate::names::foreign(&[]);
    rep.bound("foreign_kinds", all.len() as u64);
    let forms = |k: usize| -> [String; 2] {
        let args: Vec<String> = s.kinds[k].attrs.iter().map(|a| full(&s, a)).collect();
        let ex = exemplar(&s, k);
        [args.join(","), ex[ex.find('(').unwrap() + 1..ex.len() - 1].to_string()].map(|a| a.replace("#1", "#9"))
    };
    par_for(s.kinds.len(), |k| {
        let near: Vec<String> = s.kinds[k].names.iter().flat_map(|n| crate::names::foreign(&[n])).filter(|n| !all.contains(n)).collect();
        for n in all.iter().chain(&near) {
            if known.contains(&n.as_str()) || rep.stop() {
                continue;
            }
            for f in forms(k) {
                run(&format!("{n}({f})"));
            }
        }
    });
    "exhaustive enumeration of unsupported statements from a value grammar up to a size bound, executed on IFC::from_str / Display"
}

fn values(ch: &mut crate::explore::Ch, atoms: &[&str], sep: &str, left: &mut usize, depth: usize) -> String {
    let mut v: Vec<String> = Vec::new();
    loop {
        // stop, an atom, or a nested list
        let can = *left > 0;
        let opts = 1 + if can { 1 + (depth < 2) as usize } else { 0 };
        match ch.choose(opts) {
            0 => break,
            1 => {
                *left -= 1;
                let a = if depth > 0 { ch.choose(atoms.len().min(6)) + 4 } else { ch.choose(atoms.len()) };
                v.push(atoms[a].to_string());
            }
            _ => {
                *left -= 1;
                v.push(format!("({})", values(ch, atoms, sep, left, depth + 1)));
            }
        }
    }
    v.join(sep)
}

// ------------------------------------------------------------------ C04

/// is the place between two tokens one where blanks and comments are promised
fn promised(text: &str, toks: &[crate::lex::Tok], i: usize) -> bool {
    let (a, b) = (toks[i].t, toks[i + 1].t);
    let word = |k: usize| &text[toks[k].a..toks[k].b];
    match (a, b) {
        // keyword and its opening bracket
        (T::Word, T::Open) => word(i).starts_with("FILE_"),
        // closing bracket and the end of the statement
        (T::Close, T::Semi) => !toks[..i].iter().any(|t| &text[t.a..t.b] == "DATA"),
        // section keywords and their semicolon
        (T::Word, T::Semi) => false,
        _ => true,
    }
}

pub fn c04(rep: &Report) -> &'static str {
    let s = Schema::new();
    // every filler alone, some of them in combinations
    let single = [
        " ", "\n", "\t", "\r\n", "\r", "  \n ", "/**/", "/* c;'( */", " /* a */ /* ** */ ", "/* it's */", "/*/*/", "/***/",
        "/* a * b */", "/* a / b */", "/*\n* l;\n**/\n", "/* #1= IFCWALL( */", "/* ENDSEC; */", "/* \u{e4} */",
    ];
    let fill: Vec<&str> =
        if rep.quick() { vec![" ", "\n", "/* c;'( */"] } else { vec![" ", "\n", "\t", "\r\n", "  \n ", "/**/", "/* c;'( */", " /* a */ /* ** */ "] };
    rep.bound("fillers_alone", single.len() as u64);
    let depth = rep.pick(2, 3);
    rep.bound("fillers", fill.len() as u64);
    rep.bound("insertions_per_file", depth as u64);
    rep.bound("kinds", s.kinds.len() as u64);
    let mut texts: Vec<(String, String, usize, usize)> = Vec::new();
    for i in 0..s.kinds.len() {
        for full_form in [true, false] {
            let l = if full_form { full_line(&s, i) } else { exemplar(&s, i) };
            let lines = with_closure(&s, &[(1, l)]);
            let t = file_of(&lines);
            let from = t.find("#1=").unwrap();
            let to = from + t[from..].find('\n').unwrap() + 3;
            texts.push((format!("{}{}", s.kinds[i].tag, full_form as u8), t, from, to));
        }
    }
    {
        let t = file_of(&with_closure(&s, &[(1, full_line(&s, 0)), (2, "IFCCOLUMN('a',(#1,$))".into())]));
        let e = t.len();
        texts.push(("whole".into(), t, 0, e));
    }
    let cases = std::sync::Mutex::new(Vec::<(usize, Vec<usize>)>::new());
    for (ti, (_, t, from, to)) in texts.iter().enumerate() {
        let toks = lex(t);
        let mut places: Vec<usize> = Vec::new();
        for k in 0..toks.len() {
            let at = toks[k].b;
            if at < *from || at > *to {
                continue;
            }
            // an unsupported statement is kept as it is, blanks included
            if t.find("IFCCOLUMN('a',(").is_some_and(|d| at > d && at < d + 25) {
                continue;
            }
            if k + 1 == toks.len() || promised(t, &toks, k) {
                places.push(at);
            }
        }
        if *from == 0 {
            places.insert(0, 0);
        }
        cases.lock().unwrap().push((ti, places));
    }
    let cases = cases.into_inner().unwrap();
    let refs: Vec<Result<String, String>> =
        texts.iter().map(|t| load_ok(&t.1).map(|i| i.to_string())).collect();
    par_for(cases.len(), |c| {
        let (ti, places) = &cases[c];
        let (name, text, _, _) = &texts[*ti];
        let want = match &refs[*ti] {
            Ok(w) => w,
            Err(e) => {
                rep.violation(format!("base {name}"), format!("a valid file is not loaded: {e}"), text.clone());
                return;
            }
        };
        let one = |ins: &[(usize, &str)]| {
            if rep.stop() {
                return;
            }
            let mut t = String::new();
            let mut p = 0;
            for (at, f) in ins {
                t.push_str(&text[p..*at]);
                t.push_str(f);
                p = *at;
            }
            t.push_str(&text[p..]);
            rep.state(&t);
            rep.step(1);
            let ctx = || {
                ins.iter()
                    .map(|(at, f)| format!("{:?} before {:?}", f, &text[*at..(*at + 12).min(text.len())]))
                    .collect::<Vec<_>>()
                    .join(" and ")
            };
            match load_ok(&t) {
                Ok(i) => {
                    if i.to_string() != *want {
                        rep.violation(
                            format!("{name} {}", ctx()),
                            format!("{name}: blanks or comments change the loaded model ({})", ctx()),
                            t,
                        );
                    } else {
                        rep.trace();
                    }
                }
                Err(e) => rep.violation(
                    format!("{name} {}", ctx()),
                    format!("{name}: blanks or comments make the file unreadable ({}): {e}", ctx()),
                    t,
                ),
            }
        };
        for (x, &a) in places.iter().enumerate() {
            for f in &fill {
                one(&[(a, f)]);
                if depth > 1 {
                    for (y, &b) in places.iter().enumerate().skip(x + 1) {
                        for g in &fill {
                            one(&[(a, f), (b, g)]);
                            if depth > 2 {
                                for &c in &places[y + 1..] {
                                    one(&[(a, f), (b, g), (c, f)]);
                                }
                            }
                        }
                    }
                }
            }
        }
        for &a in places {
            for f in single {
                if !fill.contains(&f) {
                    one(&[(a, f)]);
                }
            }
        }
        // everywhere at once
        for f in &single {
            one(&places.iter().map(|p| (*p, *f)).collect::<Vec<_>>());
        }
    });
    // every short comment, in three places of a file
    let text = file_of(&with_closure(&s, &[(1, "IFCMATERIAL('m',$,$)".into())]));
    let places = [text.find("HEADER;").unwrap(), text.find("'m'").unwrap(), text.find("END-ISO").unwrap(), text.find("#1=").unwrap()];
    let want = load_ok(&text).map(|i| i.to_string());
    let chars = ['*', '/', ';', '\'', '\n', 'x'];
    let len = rep.pick(5usize, 7);
    rep.bound("comment_length", len as u64);
    let total: usize = (0..=len).map(|n| chars.len().pow(n as u32)).sum();
    par_for(total, |mut n| {
        let mut l = 0;
        while n >= chars.len().pow(l) {
            n -= chars.len().pow(l);
            l += 1;
        }
        let mut body = String::new();
        for _ in 0..l {
            body.push(chars[n % chars.len()]);
            n /= chars.len();
        }
        if body.contains("*/") || rep.stop() {
            return;
        }
        for at in places {
            let t = format!("{}/*{body}*/{}", &text[..at], &text[at..]);
            rep.state(&t);
            rep.step(1);
            match (load_ok(&t).map(|i| i.to_string()), &want) {
                (Ok(a), Ok(b)) if a == *b => rep.trace(),
                _ => rep.violation(
                    format!("comment {body:?} at {at}"),
                    format!("the comment {:?} before {:?} changes the loaded model", format!("/*{body}*/"), &text[at..at + 8]),
                    t,
                ),
            }
        }
    });
    // long runs of blanks, long comments and many of them
    let text = file_of(&with_closure(&s, &[(1, full_line(&s, s.idx("Person"))), (2, "IFCMATERIAL('m',$,$)".into())]));
    let toks = lex(&text);
    // the statements behind #2 may be unsupported ones, which are kept as they are
    let third = text.find("#2=").map(|a| a + text[a..].find('\n').unwrap()).unwrap();
    let last = text.rfind("ENDSEC").unwrap();
    let places: Vec<usize> = (0..toks.len() - 1)
        .filter(|k| promised(&text, &toks, *k) && (toks[*k].b <= third || toks[*k].b > last))
        .map(|k| toks[k].b)
        .collect();
    let want = load_ok(&text).map(|i| i.to_string());
    let sizes = sizes(rep);
    par_for(sizes.len() * places.len(), |x| {
        let (n, at) = (sizes[x / places.len()], places[x % places.len()]);
        let fills = [
            " ".repeat(n), "\n".repeat(n), "\r\n\t".repeat(n), format!("/*{}*/", "x ".repeat(n)), format!("/*{}*/", "*".repeat(n)), format!("/*{}*/", "/".repeat(n)),
            "/* a */".repeat(n), " /**/\n".repeat(n), format!("/*{}*/", "\n#1= IFCWALL('; ".repeat(n)), format!("/*{}*/", "\u{e4}".repeat(n)),
        ];
        for (k, f) in fills.iter().enumerate() {
            if rep.stop() {
                return;
            }
            let t = format!("{}{f}{}", &text[..at], &text[at..]);
            rep.state(&(n, at, k, "size"));
            rep.step(1);
            match (load_ok(&t).map(|i| i.to_string()), &want) {
                (Ok(a), Ok(b)) if a == *b => rep.trace(),
                _ => rep.violation(
                    format!("filler {k} of size {n} at {at}"),
                    format!("{} of size {n} before {:?} changes the loaded model", clip(&f.escape_debug().to_string(), 30), &text[at..(at + 8).min(text.len())]),
                    clip(&t, 2000),
                ),
            }
        }
    });
    "every position between tokens times every filler, and every combination up to a depth; every short comment; executed on IFC::from_str, compared with the model read from the plain text"
}

// ------------------------------------------------------------------ C07

pub fn c07(rep: &Report) -> &'static str {
    let s = Schema::new();
    let n = s.kinds.len();
    rep.bound("kinds", n as u64);
    // old and new contents: interrupted writes
    let texts: Vec<String> = (0..n)
        .flat_map(|i| {
            [exemplar(&s, i), full_line(&s, i)].map(|l| file_of(&with_closure(&s, &[(1, l), (2, "IFCCOLUMN('a;b',$)".into())])))
        })
        .map(|t| match load_ok(&t) {
            Ok(i) => i.to_string(),
            Err(_) => t,
        })
        .collect();
    par_for(texts.len(), |i| {
        let t = &texts[i];
        let end = t.trim_end().len();
        rep.trace();
        for cut in 0..end {
            if rep.stop() {
                return;
            }
            if !t.is_char_boundary(cut) {
                continue;
            }
            rep.state(&(i, cut));
            rep.step(1);
            match load(&t[..cut]) {
                Load::Rejected(_) => {}
                Load::Ok(_) => rep.violation(
                    format!("cut {} {cut}", s.kinds[i / 2].tag),
                    format!("a file cut after byte {cut} of {end} is accepted"),
                    t[..cut].to_string(),
                ),
                Load::Panic(p) => rep.violation(
                    format!("cut {} {cut}", s.kinds[i / 2].tag),
                    format!("a file cut after byte {cut} of {end} panics: {p}"),
                    t[..cut].to_string(),
                ),
            }
        }
        // the first part of the new file over the old one: an overwrite in place
        // that stopped; accepted only where it is byte for byte one of the two
        let k = rep.pick(6, texts.len());
        for d in 1..=k {
            let o = &texts[(i + d) % texts.len()];
            if o == t {
                continue;
            }
            let same_head = t.bytes().zip(o.bytes()).take_while(|(a, b)| a == b).count();
            // after the new end, the old tail is left over
            if o.len() > t.len() && o.is_char_boundary(t.len()) {
                let x = format!("{t}{}", &o[t.len()..]);
                if !o[t.len()..].trim().is_empty() && x != *o {
                    rep.state(&(i, d, "tail"));
                    rep.step(1);
                    if let Load::Ok(_) = load(&x) {
                        rep.violation(
                            format!("tail {} {}", s.kinds[i / 2].tag, d),
                            "a file followed by the rest of an older one is accepted",
                            x,
                        );
                    }
                }
            }
            let _ = same_head;
        }
    });
    // the same with long runs of characters of several bytes in the file
    let wide_file = |wide: &str, pad: usize, n: usize| {
        let run = format!("{}{}", "x".repeat(pad), wide.repeat(n));
        file_of(&with_closure(&s, &[
            (1, format!("IFCMATERIAL('{run}',$,$)")),
            (2, format!("IFCCOLUMN('{run}',$)")),
            (3, format!("IFCPERSON('{run}','{run}',$,$,$,$,$,$)")),
        ]))
    };
    let wides: Vec<(&str, usize)> = ["\u{e4}", "\u{4e2d}", "\u{1f600}"].iter().flat_map(|w| (0..w.len()).map(move |p| (*w, p))).collect();
    let ns: &[usize] = if rep.quick() { &[9, 150] } else { &[9, 80, 150, 700] };
    par_for(wides.len() * ns.len(), |x| {
        let ((w, pad), n) = (wides[x / ns.len()], ns[x % ns.len()]);
        let t = wide_file(w, pad, n);
        let end = t.trim_end().len();
        rep.trace();
        for (cut, _) in t.char_indices().take_while(|c| c.0 < end) {
            if rep.stop() {
                return;
            }
            rep.state(&(x, cut, "wide"));
            rep.step(1);
            let key = || format!("wide {} x {n} + {pad} {cut}", w.len());
            match load(&t[..cut]) {
                Load::Rejected(_) => {}
                Load::Ok(_) => rep.violation(key(), format!("a file cut after byte {cut} of {end} is accepted"), t[..cut].to_string()),
                Load::Panic(p) => rep.violation(key(), format!("a file cut after byte {cut} of {end} panics: {}", clip(&p, 200)), t[..cut].to_string()),
            }
        }
    });
    // zero-filled tails, as after a crash with the length already on disk
    par_for(texts.len(), |i| {
        let t = &texts[i];
        let end = t.trim_end().len();
        for cut in 0..end {
            if rep.stop() {
                return;
            }
            if !t.is_char_boundary(cut) || (rep.quick() && cut % 7 != 0) {
                continue;
            }
            let x = format!("{}{}", &t[..cut], "\0".repeat(end - cut));
            rep.state(&(i, cut, "zero"));
            rep.step(1);
            match load(&x) {
                Load::Rejected(_) => {}
                Load::Ok(_) => rep.violation(format!("zero {} {cut}", s.kinds[i / 2].tag), "a file whose tail is zeroed is accepted", x),
                Load::Panic(p) => rep.violation(format!("zero {} {cut}", s.kinds[i / 2].tag), format!("a file whose tail is zeroed panics: {p}"), x),
            }
        }
    });
    // a block that never reached the disk: any piece of a file that holds a part of its
    // frame (the keywords of the file, its header and its sections) cut out, zeroed or blank
    let frame_of = |t: &str| -> Vec<(usize, usize)> {
        let toks = lex(t);
        (0..toks.len())
            .filter(|&k| {
                let w = &t[toks[k].a..toks[k].b];
                w.starts_with("ISO-10303") || w.starts_with("END-ISO") || w.starts_with("FILE_") || ["HEADER", "DATA", "ENDSEC"].contains(&w)
            })
            .map(|k| (toks[k].a, toks[k].b))
            .collect()
    };
    let small = [
        file_of(&[(1, "IFCMATERIAL('m',$,$)".into())]),
        file_of(&[]),
        file_of(&[(1, "IFCCOLUMN('a;b',$)".into()), (2, "IFCDIRECTION((1.,0.))".into())]).replace('\n', "\r\n"),
    ];
    let refused = |x: &str, key: &dyn Fn() -> String, what: &dyn Fn() -> String| {
        rep.step(1);
        match load(x) {
            Load::Rejected(_) => {}
            Load::Ok(_) => rep.violation(key(), format!("{} is accepted", what()), x.to_string()),
            Load::Panic(p) => rep.violation(key(), format!("{} panics: {}", what(), clip(&p, 200)), x.to_string()),
        }
    };
    let lost = |name: &str, t: &str, a: usize, b: usize| {
        for (m, fill) in ["", "\0", " "].iter().enumerate() {
            let x = format!("{}{}{}", &t[..a], fill.repeat(b - a), &t[b..]);
            rep.state(&(name, a, b, m));
            refused(&x, &|| format!("block {name} {a} {b} {m}"), &|| format!("a file without the bytes {a} to {b}"));
        }
    };
    for (n, t) in small.iter().enumerate() {
        let frame = frame_of(t);
        assert_eq!(frame.len(), 9, "frame of {t}");
        par_for(t.len(), |a| {
            for b in a + 1..=t.len() {
                if rep.stop() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
                    continue;
                }
                if frame.iter().any(|f| a < f.1 && b > f.0) {
                    lost(&format!("small {n}"), t, a, b);
                }
            }
        });
        rep.trace();
    }
    let blocks: &[usize] = if rep.quick() { &[16, 64, 128, 512] } else { &[8, 16, 32, 64, 100, 128, 256, 512, 1024, 4096] };
    rep.bound("block_sizes", blocks.len() as u64);
    par_for(texts.len(), |i| {
        let t = &texts[i];
        let frame = frame_of(t);
        for &size in blocks {
            let step = rep.pick(size, (size / 16).max(1));
            for a in (0..t.len()).step_by(step) {
                let b = (a + size).min(t.len());
                if rep.stop() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
                    continue;
                }
                if frame.iter().any(|f| a < f.1 && b > f.0) {
                    lost(&format!("{} {}", s.kinds[i / 2].tag, i % 2), t, a, b);
                }
            }
        }
    });
    if !rep.quick() {
        // every such piece of every file
        par_for(texts.len(), |i| {
            let t = &texts[i];
            let frame = frame_of(t);
            for a in 0..t.len() {
                for b in a + 1..=t.len() {
                    if rep.stop() || !t.is_char_boundary(a) || !t.is_char_boundary(b) || !frame.iter().any(|f| a < f.1 && b > f.0) {
                        continue;
                    }
                    refused(&format!("{}{}", &t[..a], &t[b..]), &|| format!("cut out {} {} {a} {b}", s.kinds[i / 2].tag, i % 2), &|| {
                        format!("a file without the bytes {a} to {b}")
                    });
                }
            }
        });
    }
    // the pieces of the frame in every order, and every selection of them
    for (n, t) in small.iter().enumerate() {
        let frame = frame_of(t);
        // what follows a keyword, up to the next one, goes with it
        let piece = |k: usize| &t[if k == 0 { 0 } else { frame[k].0 }..frame.get(k + 1).map_or(t.len(), |f| f.0)];
        let whole: Vec<String> = (0..9).map(|k| piece(k).to_string()).collect();
        // two of them are the same
        let same = |order: &[usize]| order.len() == 9 && order.iter().enumerate().all(|(i, &k)| i == k || whole[i].trim() == whole[k].trim());
        let judge = |order: &[usize]| {
            if same(order) {
                return;
            }
            let x: String = order.iter().map(|&k| whole[k].as_str()).collect();
            rep.state(&(n, order.to_vec(), "order"));
            refused(&x, &|| format!("order {n} {order:?}"), &|| format!("a file made of the pieces {order:?} of one"));
        };
        explore(rep, 99, |ch| {
            let mut left: Vec<usize> = (0..9).collect();
            let mut order = Vec::new();
            while !left.is_empty() {
                order.push(left.remove(ch.choose(left.len())));
            }
            judge(&order);
        });
        for set in 0..512usize {
            let order: Vec<usize> = (0..9).filter(|k| set & 1 << k != 0).collect();
            judge(&order);
            // some in the wrong place as well
            for i in 0..order.len() {
                for j in 0..order.len() {
                    if i != j {
                        let mut o = order.clone();
                        let x = o.remove(i);
                        o.insert(j, x);
                        judge(&o);
                    }
                }
            }
        }
        // whole sections: frame start, header, data, end; a sequence that holds them in
        // order is not judged
        let sections = [whole[0].clone(), whole[1..6].concat(), whole[6..8].concat(), whole[8].clone()];
        let longest = rep.pick(6usize, 8);
        explore(rep, 99, |ch| {
            let m = ch.choose(longest + 1);
            let order: Vec<usize> = (0..m).map(|_| ch.choose(4)).collect();
            let mut next = 0;
            for &o in &order {
                next += (o == next) as usize;
            }
            if next == 4 {
                return;
            }
            let x: String = order.iter().map(|&k| sections[k].as_str()).collect();
            rep.state(&(n, order.clone(), "sections"));
            refused(&x, &|| format!("sections {n} {order:?}"), &|| format!("a file made of the sections {order:?}"));
        });
    }
    rep.sample(clip(&texts[0], 200));
    "every crash point (each byte of each written file), plus zero-filled and overwritten tails, executed on IFC::from_str"
}

// ------------------------------------------------------------------ C06

pub fn c06(rep: &Report) -> &'static str {
    let s = Schema::new();
    let alphabet: Vec<&str> = vec![
        "'", ";", "(", ")", ",", "#", "$", "*", "=", ".", "0", "9", "-", "E", "A", "\\", "/*", "*/", " ", "\n", "\u{e4}", "\0",
    ];
    rep.bound("insertion_alphabet", alphabet.len() as u64);
    rep.bound("kinds", s.kinds.len() as u64);
    rep.bound("edits_per_file", rep.pick(1, 2));
    let feed = |t: &str, key: &dyn Fn() -> String| {
        if rep.stop() || !rep.state(t) {
            return;
        }
        rep.step(1);
        match load(t) {
            Load::Panic(p) => rep.violation(key(), format!("loading panics: {}", clip(&p, 200)), t.to_string()),
            Load::Ok(i) => {
                // what was accepted can be written
                match crate::report::guard(|| i.to_string()) {
                    Ok(_) => rep.trace(),
                    Err(p) => rep.violation(key(), format!("writing an accepted file panics: {}", clip(&p, 200)), t.to_string()),
                }
            }
            Load::Rejected(_) => {}
        }
    };
    // token values that are legal in shape but out of the ordinary
    let odd_num = [
        "0", "-1", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "-9223372036854775808", "8210298412799", "8210298412800", "-8334632851200", "-8334632851201",
        "99999999999999999999999999", "1.", "1.E400", "-1.E-400", ".5", "1E", "1.5.2", "inf", "nan", "+1",
    ];
    let odd_str = ["''", "'", "'''", "''''", "'\\X2\\'", "'\\X2\\00C4'", "'\\X2\\D83D\\X0\\'", "'\\X\\E4'", "'\u{1F600}'", "'\\'"];
    let mut bases: Vec<(String, String)> = Vec::new();
    for i in 0..s.kinds.len() {
        for f in [false, true] {
            let l = if f { full_line(&s, i) } else { exemplar(&s, i) };
            bases.push((s.kinds[i].tag.to_string(), file_of(&with_closure(&s, &[(1, l)]))));
        }
    }
    par_for(bases.len(), |bi| {
        let (tag, text) = &bases[bi];
        let from = text.find("#1=").unwrap();
        let to = from + text[from..].find('\n').unwrap();
        let (head, own, tail) = (&text[..from], &text[from..to], &text[to..]);
        // single character edits
        let cuts: Vec<usize> = (0..=own.len()).filter(|i| own.is_char_boundary(*i)).collect();
        for w in cuts.windows(2) {
            let (a, b) = (w[0], w[1]);
            let key = || format!("edit {tag} at {a}");
            feed(&format!("{head}{}{}{tail}", &own[..a], &own[b..]), &key);
            for c in &alphabet {
                feed(&format!("{head}{}{c}{}{tail}", &own[..a], &own[a..]), &key);
                feed(&format!("{head}{}{c}{}{tail}", &own[..a], &own[b..]), &key);
            }
        }
        // token edits: each replaced, removed, doubled; pairs of these when thorough
        let toks = lex(own);
        let mut edits: Vec<(usize, usize, String)> = Vec::new();
        for t in &toks {
            let cur = &own[t.a..t.b];
            edits.push((t.a, t.b, String::new()));
            edits.push((t.a, t.b, format!("{cur}{cur}")));
            match t.t {
                T::Num => edits.extend(odd_num.iter().map(|x| (t.a, t.b, x.to_string()))),
                T::Str => edits.extend(odd_str.iter().map(|x| (t.a, t.b, x.to_string()))),
                T::Ref => {
                    // dangling, itself, every kind, and numbers that overflow
                    edits.extend(["#424242", "#1", "#0", "#1000", "#18446744073709551615", "#18446744073709551616", "#"].iter().map(|x| (t.a, t.b, x.to_string())));
                    if t.a != 0 {
                        edits.extend((0..s.kinds.len()).map(|k| (t.a, t.b, format!("#{}", 1001 + k))));
                    }
                }
                T::Omit | T::Star | T::Enum => {
                    edits.extend(
                        ["$", "*", "#424242", "#1", "'x'", "()", "(())", "1", "-1", ".T.", ".X.", "(#424242)", "((1.,2.))", "IFCLABEL('')"]
                            .iter()
                            .map(|x| (t.a, t.b, x.to_string())),
                    );
                }
                _ => {}
            }
        }
        let full_file = |own2: &str| {
            let mut lines = with_closure(&s, &[]);
            lines.clear();
            let mut t = String::from(head);
            t.push_str(own2);
            t.push_str(tail);
            t
        };
        for (a, b, r) in &edits {
            let x = format!("{}{r}{}", &own[..*a], &own[*b..]);
            // references introduced by an edit get their target, unless dangling on purpose
            let t = add_targets(&s, &full_file(&x));
            feed(&t, &|| format!("token {tag} at {a}: {r}"));
        }
        if !rep.quick() {
            let small: Vec<_> = edits.iter().filter(|e| e.2.len() < 12 && !e.2.starts_with("#10")).collect();
            for (i, (a, b, r)) in small.iter().enumerate() {
                for (c, d, q) in small[i + 1..].iter() {
                    if c < b {
                        continue;
                    }
                    let x = format!("{}{r}{}{q}{}", &own[..*a], &own[*b..*c], &own[*d..]);
                    feed(&full_file(&x), &|| format!("tokens {tag} at {a}: {r} and {c}: {q}"));
                }
                if rep.stop() {
                    break;
                }
            }
        }
    });
    // header and footer: the same edits on a file with a small data section
    let text = file_of(&[(1, "IFCMATERIAL('m',$,$)".to_string())]);
    let cuts: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    for w in cuts.windows(2) {
        let (a, b) = (w[0], w[1]);
        let key = || format!("header edit at {a}");
        feed(&format!("{}{}", &text[..a], &text[b..]), &key);
        for c in &alphabet {
            feed(&format!("{}{c}{}", &text[..a], &text[a..]), &key);
            feed(&format!("{}{c}{}", &text[..a], &text[b..]), &key);
        }
    }
    let toks = lex(&text);
    for t in &toks {
        for r in odd_str.iter().chain(odd_num.iter()).chain(
            ["$", "()", "(())", "('')", "('','')", "'2016-02-30T18:37:55'", "'2016-02-04'", "'2016-02-04T25:00:00'", "'2016-02-04T18:37:60'",
             "'9999-12-31T23:59:59'", "'-001-01-01T00:00:00'", "'+10000-01-01T00:00:00'", "'2016-02-04T18:37:55+23:59'", "'2016-02-04T18:37:55Z'", "'0000-01-01T00:00:00+01:00'",
             "'IFC4'", "'IFC9'", "'[]'", "'a [', ']'"].iter(),
        ) {
            feed(&format!("{}{r}{}", &text[..t.a], &text[t.b..]), &|| format!("header token {:?} -> {r}", &text[t.a..t.b]));
        }
    }
    // each token cut short at each place and ended by characters of several bytes
    let seps = ["", ".", "+", ":", " ", "\\", "E", "[", "1"];
    let ends = ["\u{e4}", "\u{20ac}\u{e4}", "\u{e4}\u{20ac}", "\u{1f600}", "\u{e4}\u{e4}\u{e4}", "1\u{20ac}2", "\u{2003}", "\u{663}"];
    rep.bound("ends_of_cut_tokens", (seps.len() * ends.len()) as u64);
    let cut = |text: &str, from: usize, to: usize, what: &str| {
        for t in lex(&text[..to]).iter().filter(|t| t.a >= from) {
            let tok = &text[t.a..t.b];
            let quote = if tok.len() > 1 && tok.ends_with('\'') { "'" } else { "" };
            for p in (0..=tok.len() - quote.len()).filter(|p| tok.is_char_boundary(*p)) {
                for (sep, end) in seps.iter().flat_map(|s| ends.iter().map(move |e| (s, e))) {
                    for rest in [quote, &tok[p..]] {
                        feed(&format!("{}{}{sep}{end}{rest}{}", &text[..t.a], &tok[..p], &text[t.b..]), &|| {
                            format!("{what}: {tok} becomes {}{sep}{end}{rest}", &tok[..p])
                        });
                    }
                }
                if rep.stop() {
                    return;
                }
            }
        }
    };
    par_for(bases.len() + 1, |bi| match bases.get(bi) {
        Some((tag, text)) if bi % 2 == 1 || !rep.quick() => {
            let from = text.find("#1=").unwrap();
            cut(text, from, from + text[from..].find('\n').unwrap(), tag);
        }
        None => cut(&text, 0, text.find("DATA;").unwrap(), "header"),
        _ => {}
    });
    // a broken file with long runs of characters of several bytes before and behind the break
    let text = file_of(&with_closure(&s, &[(1, full_line(&s, s.idx("Person"))), (2, "IFCMATERIAL('m',$,$)".into()), (3, "IFCCOLUMN('u',$)".into())]));
    let toks = lex(&text);
    let places: Vec<usize> = (0..toks.len()).map(|k| toks[k].a).chain([text.len()]).collect();
    let strs: Vec<usize> = toks.iter().filter(|t| matches!(t.t, T::Str)).map(|t| t.a + 1).collect();
    let lens: Vec<usize> = (0..=8).chain([30, 60, 64, 100, 128, 255, 256]).chain(if rep.quick() { vec![2100] } else { vec![300, 512, 1000, 1024, 2100, 5000] }).collect();
    rep.bound("longest_wide_fill", *lens.last().unwrap() as u64);
    par_for(toks.len() * lens.len(), |x| {
        let (b, n) = (x / lens.len(), lens[x % lens.len()]);
        let tok = &toks[b];
        for wide in ["\u{e4}", "\u{4e2d}", "\u{1f600}"] {
            for pad in 0..wide.len() {
                if rep.stop() {
                    return;
                }
                let run = format!("{}{}", "x".repeat(pad), wide.repeat(n));
                let comment = format!("/*{run}*/");
                // the break: a token left out, doubled, or a stray word; the fills: in one place, or everywhere
                let broken = [String::new(), format!("{0}{0}", &text[tok.a..tok.b]), format!("?{run}?{}", &text[tok.a..tok.b])];
                for (k, br) in broken.iter().enumerate() {
                    let with = |at: &[usize], fill: &str| {
                        let (mut o, mut from) = (String::new(), 0);
                        for &a in at {
                            let a = if a > tok.a { a.max(tok.b) } else { a };
                            if from <= tok.a && a >= tok.b {
                                o.push_str(&text[from..tok.a]);
                                o.push_str(br);
                                from = tok.b;
                            }
                            o.push_str(&text[from..a]);
                            o.push_str(fill);
                            from = a;
                        }
                        if from <= tok.a {
                            o.push_str(&text[from..tok.a]);
                            o.push_str(br);
                            from = tok.b;
                        }
                        o + &text[from..]
                    };
                    let key = || format!("wide {} x {n} + {pad}, break {k} at {}", wide.len(), tok.a);
                    let near = |d: isize| (b as isize + d).clamp(0, places.len() as isize - 1) as usize;
                    for at in [0, near(-1), near(0), near(1), near(2), places.len() - 1] {
                        feed(&with(&[places[at]], &comment), &key);
                    }
                    if n <= 256 {
                        feed(&with(&places, &comment), &key);
                        feed(&with(&strs, &run), &key);
                    }
                }
            }
        }
    });
    // cut off behind one of these
    par_for(places.len(), |k| {
        for wide in ["\u{e4}", "\u{4e2d}", "\u{1f600}"] {
            for pad in 0..wide.len() {
                let n = rep.pick(400usize, 2100);
                let t = format!("{}/*{}{}*/{}", &text[..places[k]], "x".repeat(pad), wide.repeat(n), &text[places[k]..]);
                for (i, _) in t.char_indices() {
                    if i % 3 == pad % 3 || i > t.len() - 40 {
                        feed(&t[..i], &|| format!("wide {} + {pad} at {}, cut after {i}", wide.len(), places[k]));
                    }
                }
            }
        }
    });
    // one token many times over, closed and left open
    let many: Vec<usize> = [10, 100, 1000, 10_000].into_iter().chain(if rep.quick() { vec![] } else { vec![100_000] }).collect();
    rep.bound("repetitions_of_one_token", *many.last().unwrap() as u64);
    par_stack(s.kinds.len(), 2, |i| {
        let l = full_line(&s, i);
        let open = l.find('(').unwrap() + 1;
        for &k in &many {
            for t in alphabet.iter().chain(&["IFCLABEL(", "(1.,", "#1,", "''", "()", "/**/", "1,"]) {
                // runs of comments take quadratic time
                if k > 1000 && i % 16 != 0 || k > 10_000 && t.contains(['*', '/', ' ', '\n']) {
                    continue;
                }
                let m = t.repeat(k);
                let key = || format!("{} times {t:?} in {}", k, s.kinds[i].tag);
                let file = |own: String| file_of(&with_closure(&s, &[(1, own)]));
                feed(&file(format!("{}{m}{}", &l[..open], &l[open..])), &key);
                feed(&file(format!("{}{m})", &l[..open])), &key);
                feed(&file(format!("{}{m}{})", &l[..open], ")".repeat(k))), &key);
            }
        }
    });
    // all short texts over the structural alphabet, alone and inside a data section
    let sig = ["#", "1", "=", "IFCWALL", "IFCDIRECTION", "(", ")", "'", "$", ",", ";", "/*", "*/", " ", "."];
    let n = rep.pick(4, 6);
    rep.bound("short_texts_tokens", n as u64);
    let (h, f) = {
        let t = file_of(&[]);
        let i = t.find("DATA;\n").unwrap() + 6;
        (t[..i].to_string(), t[i..].to_string())
    };
    explore(rep, 99, |ch| {
        let k = ch.choose(n + 1);
        let body: String = (0..k).map(|_| sig[ch.choose(sig.len())]).collect();
        feed(&body, &|| format!("text {body:?}"));
        feed(&format!("{h}{body}{f}"), &|| format!("data {body:?}"));
        feed(&format!("{h}#1= {body};\n{f}"), &|| format!("statement {body:?}"));
    });
    "exhaustive enumeration of edits (every position, every symbol of an alphabet; every token, every odd value; thorough: pairs) and of all short token strings, executed on IFC::from_str under a panic monitor"
}

/// adds the exemplars a text refers to, except for numbers outside the table
fn add_targets(s: &Schema, text: &str) -> String {
    let start = text.find("DATA;").unwrap();
    let have: std::collections::BTreeSet<u64> =
        text[start..].lines().filter_map(|l| l.strip_prefix('#')?.split('=').next()?.trim().parse().ok()).collect();
    let mut extra = String::new();
    for (id, l) in closure(s, &text[start..]) {
        if !have.contains(&id) {
            extra.push_str(&format!("#{id}= {l};\n"));
        }
    }
    let end = text.rfind("ENDSEC;").unwrap();
    format!("{}{extra}{}", &text[..end], &text[end..])
}
