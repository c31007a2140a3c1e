//! C01: every supported entity round trips through the file format.
use crate::common::*;
use crate::explore::{explore, par_for};
use crate::report::Report;
use crate::schema::*;
use crate::step;

pub fn c01(rep: &Report) -> &'static str {
    let s = Schema::new();
    let bound = rep.pick(2, 3);
    rep.bound("deviations_from_default_attributes", bound as u64);
    rep.bound("entity_kinds", s.kinds.len() as u64);
    let choices: Vec<Vec<Vec<String>>> =
        s.kinds.iter().map(|k| k.attrs.iter().map(|a| alts(&s, a, !rep.quick())).collect()).collect();
    rep.bound(
        "attribute_alternatives",
        choices.iter().flatten().map(|c| c.len() as u64).sum::<u64>(),
    );
    let n = explore(rep, bound, |ch| {
        let i = ch.choose(s.kinds.len());
        let kind = &s.kinds[i];
        let name = kind.names[ch.choose(kind.names.len())];
        let args: Vec<String> = choices[i].iter().map(|c| c[ch.deviate(c.len())].clone()).collect();
        let text = line(name, &args);
        rep.state(&text);
        check(rep, &s, kind, &text);
    });
    // everything present at once, and everything inherited at once
    for kind in &s.kinds {
        for star in [false, true] {
            let args: Vec<String> = kind
                .attrs
                .iter()
                .map(|a| match a {
                    K::Opt(_) if star => "*".to_string(),
                    a => full(&s, a),
                })
                .collect();
            let text = line(kind.names[0], &args);
            rep.state(&text);
            check(rep, &s, kind, &text);
        }
    }
    // lists and texts of every length up to a bound, and lengths around powers of two
    let lens: Vec<usize> = (0..=rep.pick(40usize, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001]).chain(if rep.quick() { vec![] } else { vec![4095, 4096, 4097, 65535, 65536, 65537] }).collect();
    rep.bound("longest_list_or_text", *lens.last().unwrap() as u64);
    let sized: Vec<(usize, usize)> = s
        .kinds
        .iter()
        .enumerate()
        .flat_map(|(i, k)| k.attrs.iter().enumerate().filter(|(_, a)| long(&s, a, 1).is_some()).map(move |(j, _)| (i, j)).collect::<Vec<_>>())
        .collect();
    par_for(sized.len() * lens.len(), |x| {
        let (i, j) = sized[x % sized.len()];
        let kind = &s.kinds[i];
        for rest in 0..2 {
            let args: Vec<String> = kind
                .attrs
                .iter()
                .enumerate()
                .map(|(a, k)| if a == j { long(&s, k, lens[x / sized.len()]).unwrap() } else if rest == 0 { minimal(&s, k) } else { full(&s, k) })
                .collect();
            let text = line(kind.names[0], &args);
            rep.state(&text);
            check(rep, &s, kind, &text);
        }
    });
    // the schema's own form of a wall's predefined type
    for name in ["IFCWALL", "IFCWALLSTANDARDCASE"] {
        for lit in ["MOVABLE", "PARAPET", "PARTITIONING", "PLUMBINGWALL", "SHEAR", "SOLIDWALL", "STANDARD", "POLYGONAL", "ELEMENTEDWALL", "USERDEFINED", "NOTDEFINED"] {
            let text = format!("{name}('0$WU4A9R19$vKWO$AdOnKA',$,'w',$,$,$,$,$,.{lit}.);");
            let file = file_of(&[(1, text[..text.len() - 1].to_string())]);
            rep.state(&text);
            rep.step(1);
            let r = load_ok(&file).and_then(|i| {
                let e = entity(&i, 1)?;
                let back = e.to_string();
                let kept = back.replace(' ', "") == text.replace(' ', "");
                Ok((e.type_name().ends_with("Wall"), e.type_name().ends_with("Dummy"), kept, back))
            });
            match r {
                Ok((true, _, true, _)) => rep.trace(),
                Ok((_, true, true, _)) => rep.violation(
                    format!("wall-predefined-type-literal-{lit}"),
                    format!("{name} with the predefined type .{lit}. is not read as a wall but kept unsupported"),
                    file,
                ),
                Ok((.., back)) => rep.violation(text, format!("is written as {back}"), file),
                Err(e) => rep.violation(text, e, file),
            }
        }
    }
    rep.outcome_n("executions", n);
    "stateless exhaustive enumeration of attribute choices up to a deviation bound, executed on IFC::from_str / Display, compared with an independent STEP reader"
}

/// a list or text of the given length, no two neighbours alike
fn long(s: &Schema, k: &K, n: usize) -> Option<String> {
    match k {
        K::Opt(e) => long(s, e, n),
        K::Str => Some(format!("'{}'", (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect::<String>())),
        K::List(e) => {
            let item = |i: usize| match &**e {
                K::Vec2 => format!("({}.,{}.5)", i, i % 7),
                K::Vec3 => format!("({}.,{}.5,-{}.25)", i, i % 7, i % 3),
                K::Int => format!("{}", i as i64 * 37 % 101 - 50),
                K::Str => format!("'{}'", "t".repeat(i % 5)),
                e => {
                    let a = alts(s, e, false);
                    a[i % a.len()].clone()
                }
            };
            Some(format!("({})", (0..n).map(item).collect::<Vec<_>>().join(",")))
        }
        _ => None,
    }
}

fn check(rep: &Report, s: &Schema, kind: &Kind, text: &str) {
    let own = vec![(1u64, text.to_string())];
    let file = file_of(&with_closure(s, &own));
    let want = step::ent(text).expect("generated text is well formed");
    let fail = |what: String| {
        rep.violation(format!("{}: {text}", kind.tag), format!("{} {what}", kind.tag), file.clone());
    };
    let ifc = match load_ok(&file) {
        Ok(i) => i,
        Err(e) => return fail(format!("a valid file is not loaded: {e}")),
    };
    rep.step(1);
    let e = match entity(&ifc, 1) {
        Ok(e) => e,
        Err(e) => return fail(e),
    };
    if !(kind.is)(e) {
        return fail(format!("is read as {}", e.type_name()));
    }
    let out = e.to_string();
    if let Err(m) = same_entity(kind, &want, &out) {
        return fail(m);
    }
    // written file: loads again to the same entity text
    let written = ifc.to_string();
    rep.step(1);
    let again = match load_ok(&written) {
        Ok(i) => i,
        Err(m) => return fail(format!("the written file is not loaded: {m}")),
    };
    rep.step(1);
    match entity(&again, 1) {
        Ok(e2) if (kind.is)(e2) && e2.to_string() == out => {}
        Ok(e2) => return fail(format!("changes when written and read once more: {out} -> {e2}")),
        Err(m) => return fail(m),
    }
    rep.trace();
    if want.args.len() > 6 {
        rep.sample(format!("#1= {text}; -> {out}"));
    }
}

/// where a kind-restricted reference sits in an entity: attribute, whether in a list
fn ref_spots(kind: &Kind) -> Vec<(usize, Kinds, bool)> {
    fn inner(k: &K) -> Option<(Kinds, bool)> {
        match k {
            K::Ref(a) if !a.is_empty() => Some((a, false)),
            K::Opt(e) => inner(e),
            K::List(e) => inner(e).map(|(a, _)| (a, true)),
            _ => None,
        }
    }
    kind.attrs.iter().enumerate().filter_map(|(i, k)| inner(k).map(|(a, l)| (i, a, l))).collect()
}

/// C05: a file is accepted exactly if every kind-restricted reference names a
/// statement of an allowed kind (or an unsupported statement).
pub fn c05(rep: &Report) -> &'static str {
    let s = Schema::new();
    let n = s.kinds.len();
    let spots: Vec<(usize, usize, Kinds, bool)> = s
        .kinds
        .iter()
        .enumerate()
        .flat_map(|(i, k)| ref_spots(k).into_iter().map(move |(a, al, l)| (i, a, al, l)))
        .collect();
    rep.bound("entity_kinds", n as u64);
    rep.bound("restricted_reference_attributes", spots.len() as u64);
    let list_len = rep.pick(3usize, 4);
    rep.bound("list_length", list_len as u64);
    const DANGLING: u64 = 900_000;
    let ok_target = |allowed: Kinds, id: u64, own: u64, own_tag: &str| -> bool {
        if id == own {
            return allowed.contains(&own_tag);
        }
        if id == DANGLING {
            return false;
        }
        id == Schema::DUMMY_ID || allowed.iter().any(|t| s.id(t) == id)
    };
    let run = |lines: Vec<(u64, String)>, accept: bool, what: String| {
        for order in 0..2 {
            let mut all = with_closure(&s, &lines);
            if order == 1 {
                all.reverse();
            }
            let file = file_of(&all);
            rep.state(&file);
            rep.step(1);
            match (load(&file), accept) {
                (Load::Ok(_), true) => {
                    rep.trace();
                    rep.outcome("accepted")
                }
                (Load::Rejected(_), false) => {
                    rep.trace();
                    rep.outcome("rejected")
                }
                (Load::Ok(_), false) => rep.violation(what.clone(), format!("{what}: a reference to the wrong kind, or to nothing, is accepted"), file),
                (Load::Rejected(e), true) => rep.violation(what.clone(), format!("{what}: an allowed reference is rejected: {}", clip(&e, 200)), file),
                (Load::Panic(p), _) => rep.violation(what.clone(), format!("{what}: panics: {}", clip(&p, 200)), file),
            }
        }
    };
    // every restricted attribute times every kind of target
    par_for(spots.len(), |x| {
        let (i, a, allowed, list) = spots[x];
        let kind = &s.kinds[i];
        let mut targets: Vec<u64> = (0..n).map(|k| 1001 + k as u64).collect();
        targets.extend([Schema::DUMMY_ID, DANGLING, 1]);
        for form in 0..2 {
            let base: Vec<String> =
                kind.attrs.iter().map(|k| if form == 0 { minimal(&s, k) } else { full(&s, k) }).collect();
            for name in kind.names {
                for t in &targets {
                    let ok = ok_target(allowed, *t, 1, kind.tag);
                    let good = format!("#{}", s.id(allowed[0]));
                    let forms: Vec<String> = if list {
                        vec![format!("(#{t})"), format!("({good},#{t})"), format!("(#{t},{good})"), format!("({good},{good},#{t},{good})")]
                    } else {
                        vec![format!("#{t}")]
                    };
                    for f in forms {
                        let mut args = base.clone();
                        args[a] = f.clone();
                        run(vec![(1, line(name, &args))], ok, format!("{} attribute {} = {f}", kind.tag, a + 1));
                    }
                }
            }
        }
    });
    // every list of references up to a length, elements from good, bad, unknown and dangling
    for &(i, a, allowed, list) in &spots {
        if !list {
            continue;
        }
        let kind = &s.kinds[i];
        let bad = s.kinds.iter().position(|k| !allowed.contains(&k.tag)).unwrap();
        let mut dom: Vec<u64> = allowed.iter().take(2).map(|t| s.id(t)).collect();
        dom.extend([1001 + bad as u64, Schema::DUMMY_ID, DANGLING]);
        explore(rep, 99, |ch| {
            let len = ch.choose(list_len + 1);
            let v: Vec<u64> = (0..len).map(|_| dom[ch.choose(dom.len())]).collect();
            let mut args: Vec<String> = kind.attrs.iter().map(|k| minimal(&s, k)).collect();
            args[a] = format!("({})", v.iter().map(|x| format!("#{x}")).collect::<Vec<_>>().join(","));
            let ok = v.iter().all(|t| ok_target(allowed, *t, 1, kind.tag));
            run(vec![(1, line(kind.names[0], &args))], ok, format!("{} attribute {} = {}", kind.tag, a + 1, args[a]));
        });
    }
    // long lists, one of them wrong at every place, or at selected places of very long ones
    let lens: Vec<usize> = (2..=rep.pick(36, 80)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025]).collect();
    rep.bound("longest_list", *lens.last().unwrap() as u64);
    let lists: Vec<_> = spots.iter().filter(|x| x.3).collect();
    par_for(lists.len() * lens.len(), |x| {
        let &(i, a, allowed, _) = lists[x % lists.len()];
        let len = lens[x / lists.len()];
        let kind = &s.kinds[i];
        let bad = s.kinds.iter().position(|k| !allowed.contains(&k.tag)).unwrap() as u64 + 1001;
        let good: Vec<u64> = allowed.iter().take(3).map(|t| s.id(t)).collect();
        let places: Vec<usize> = if len < 60 {
            (0..len).collect()
        } else {
            let mut v = vec![0, 1, 2, len / 2, len - 2, len - 1];
            v.extend((2..).map(|b| 1usize << b).take_while(|b| *b < len).flat_map(|b| [b - 1, b]));
            v
        };
        let spot = |wrong: Option<(usize, u64)>| {
            let v: Vec<String> = (0..len)
                .map(|j| match wrong {
                    Some((k, t)) if k == j => format!("#{t}"),
                    _ => format!("#{}", good[j % good.len()]),
                })
                .collect();
            let mut args: Vec<String> = kind.attrs.iter().map(|k| minimal(&s, k)).collect();
            args[a] = format!("({})", v.join(","));
            let what = format!("{} attribute {}: {len} references, {wrong:?} wrong", kind.tag, a + 1);
            run(vec![(1, line(kind.names[0], &args))], wrong.is_none(), what);
        };
        spot(None);
        for k in places {
            if rep.stop() {
                return;
            }
            spot(Some((k, if k % 2 == 0 { bad } else { DANGLING })));
            if len < 20 {
                spot(Some((k, if k % 2 == 1 { bad } else { DANGLING })));
            }
        }
    });
    // the same target is referred to rightly elsewhere in the file, and the same wrong
    // statement is there twice
    par_for(spots.len(), |x| {
        let (i, a, allowed, list) = spots[x];
        let kind = &s.kinds[i];
        let with = |t: u64| {
            let mut args: Vec<String> = kind.attrs.iter().map(|k| minimal(&s, k)).collect();
            args[a] = if list { format!("(#{t})") } else { format!("#{t}") };
            line(kind.names[0], &args)
        };
        for k in 0..n {
            if rep.stop() {
                return;
            }
            let t = 1001 + k as u64;
            let ok = ok_target(allowed, t, 500_000, kind.tag);
            for &(j, b, _, l2) in spots.iter().filter(|y| y.2.contains(&s.kinds[k].tag)).take(3) {
                let other = &s.kinds[j];
                let mut args: Vec<String> = other.attrs.iter().map(|k| minimal(&s, k)).collect();
                args[b] = if l2 { format!("(#{t})") } else { format!("#{t}") };
                let right = line(other.names[0], &args);
                let what = format!("{} attribute {} = #{t}, which is right in {} attribute {}", kind.tag, a + 1, other.tag, b + 1);
                run(vec![(1, right.clone()), (500_000, with(t)), (600_000, right)], ok, what);
            }
            run(vec![(1, with(t)), (500_000, with(t))], ok, format!("{} attribute {} = #{t}, twice", kind.tag, a + 1));
            // a right one before, between and behind
            let g = with(s.id(allowed[0]));
            run(vec![(1, g.clone()), (2, with(t)), (500_000, g.clone()), (500_001, with(t)), (500_002, g)], ok, format!("{} attribute {} = #{t}, among right ones", kind.tag, a + 1));
        }
    });
    // one wrong reference in files of all sizes, at selected places
    let mut many: Vec<usize> = (2..=40).collect();
    for c in (6..=rep.pick(13, 17)).map(|b| 1usize << b).chain([100, 500, 1000, 5000, 10_000]) {
        many.extend([c - 1, c, c + 1, c + 2, c + 3]);
    }
    rep.bound("largest_file_with_one_wrong_reference", *many.iter().max().unwrap() as u64);
    par_for(many.len() * 2, |x| {
        let (len, dense) = (many[x / 2], x % 2 == 0);
        let mut places = vec![0, 1, 2, len / 4, len / 3, len / 2, len - 1, len - 2, len.saturating_sub(3), len.saturating_sub(4), len.saturating_sub(5)];
        places.extend((2..).map(|b| 1usize << b).take_while(|b| *b < len).flat_map(|b| [b - 1, b]));
        places.sort();
        places.dedup();
        places.retain(|p| *p < len);
        let id = |k: usize| if dense { k + 1 } else { 3 * k + 7 };
        let right = "IFCMATERIALLAYER(#{},1.,.F.,$,$,$,$)";
        for (n_wrong, &p) in places.iter().enumerate().map(|(i, p)| (i % 2, p)).chain([(2, &0usize)]) {
            if rep.stop() {
                return;
            }
            let mut t = String::new();
            for k in 0..len {
                let l = if k == p && n_wrong < 2 {
                    // nothing there, or itself
                    right.replace("{}", &if n_wrong == 0 { 1_000_000 } else { id(k) }.to_string())
                } else if k % 5 == 4 {
                    right.replace("{}", &id(k - k % 5).to_string())
                } else {
                    "IFCMATERIAL('m',$,$)".to_string()
                };
                t.push_str(&format!("#{}= {l};\n", id(k)));
            }
            let t = file_of(&[]).replace("DATA;\n", &format!("DATA;\n{t}"));
            // a right reference to where the wrong one is would be wrong as well
            let ok = n_wrong == 2;
            rep.state(&(len, dense, p, n_wrong));
            rep.step(1);
            let what = || format!("{len} statements, the one at {p} wrong in the way {n_wrong}");
            match (load(&t), ok) {
                (Load::Ok(_), true) | (Load::Rejected(_), false) => rep.trace(),
                (Load::Ok(_), false) => rep.violation(what(), format!("{}: accepted", what()), clip(&t, 3000)),
                (Load::Rejected(e), true) => rep.violation(what(), format!("{len} right statements are rejected: {}", clip(&e, 200)), clip(&t, 3000)),
                (Load::Panic(m), _) => rep.violation(what(), format!("{}: panics: {}", what(), clip(&m, 200)), clip(&t, 3000)),
            }
        }
    });
    // one wrong reference anywhere in a file of correct statements of every kind:
    // the whole attribute tuple with each subset of up to two attributes wrong
    explore(rep, rep.pick(2, 3), |ch| {
        let i = ch.choose(n);
        let kind = &s.kinds[i];
        let mut ok = true;
        let mut args = Vec::new();
        for (a, k) in kind.attrs.iter().enumerate() {
            let spot = ref_spots(kind).into_iter().find(|x| x.0 == a);
            args.push(match spot {
                Some((_, allowed, list)) => {
                    let bad = s.kinds.iter().rposition(|k| !allowed.contains(&k.tag)).unwrap() as u64 + 1001;
                    let dom = [Some(s.id(allowed[0])), None, Some(bad), Some(DANGLING), Some(Schema::DUMMY_ID)];
                    let c = dom[ch.deviate(5)];
                    match c {
                        None => minimal(&s, k),
                        Some(t) => {
                            ok &= ok_target(allowed, t, 1, kind.tag);
                            if list { format!("(#{t})") } else { format!("#{t}") }
                        }
                    }
                }
                None => full(&s, k),
            });
        }
        // among other statements: alone, with a correct twin before or after it
        let twin = line(kind.names[0], &kind.attrs.iter().map(|k| full(&s, k)).collect::<Vec<_>>());
        let own = line(kind.names[0], &args);
        let key = format!("{} {}", kind.tag, own);
        match ch.choose(3) {
            0 => run(vec![(1, own)], ok, key),
            1 => run(vec![(1, own), (2, twin)], ok, key),
            _ => run(vec![(2, own), (1, twin)], ok, key),
        }
    });
    "exhaustive enumeration of reference attribute x target kind (and of reference lists up to a length), executed on IFC::from_str, accept/reject compared with the hand-written reference table"
}
