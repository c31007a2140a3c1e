//! C10 numbers, C11 texts, C12 enumeration literals.
use crate::common::*;
use crate::explore::par_for;
use crate::report::Report;
use crate::schema::*;
use crate::step::{self, V};
use ifc_rs::prelude::*;

/// every attribute of every kind with the shape wanted, as (kind, attribute)
fn spots(s: &Schema, want: fn(&K) -> bool) -> Vec<(usize, usize)> {
    fn has(k: &K, want: fn(&K) -> bool) -> bool {
        want(k)
            || match k {
                K::Opt(e) | K::List(e) => has(e, want),
                _ => false,
            }
    }
    let mut v = Vec::new();
    for (i, k) in s.kinds.iter().enumerate() {
        for (a, x) in k.attrs.iter().enumerate() {
            if has(x, want) {
                v.push((i, a));
            }
        }
    }
    v
}

/// the innermost shape of an attribute and how deep in lists it sits
fn leaf(k: &K) -> (&K, usize) {
    match k {
        K::Opt(e) => leaf(e),
        K::List(e) => {
            let (l, n) = leaf(e);
            (l, n + 1)
        }
        k => (k, 0),
    }
}

fn wrap(text: String, depth: usize) -> String {
    format!("{}{text}{}", "(".repeat(depth), ")".repeat(depth))
}

fn file_with(s: &Schema, i: usize, a: usize, text: &str) -> (String, String) {
    let k = &s.kinds[i];
    let mut args: Vec<String> = k.attrs.iter().map(|x| minimal(s, x)).collect();
    args[a] = text.to_string();
    let l = line(k.names[0], &args);
    (file_of(&with_closure(s, &[(1, l.clone())])), l)
}

// ------------------------------------------------------------------ C10

/// is the text a legal real number of the exchange format
fn legal_real(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (m, e) = match t.split_once('E') {
        Some((m, e)) => (m, Some(e)),
        None => (t, None),
    };
    let Some((a, b)) = m.split_once('.') else { return false };
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    !a.is_empty()
        && digits(a)
        && digits(b)
        && e.is_none_or(|e| {
            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
            !e.is_empty() && digits(e)
        })
}

fn significant(lit: &str) -> usize {
    let m = lit.split('E').next().unwrap();
    let d: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
    d.trim_start_matches('0').trim_end_matches('0').len()
}

/// the number `out` is what `lit` is written as
fn real_kept(lit: &str, out: &str) -> Result<(), String> {
    if !legal_real(out) {
        return Err(format!("{lit} is written as {out}, which is not a real number of the format"));
    }
    let (a, b): (f64, f64) = (lit.parse().unwrap(), out.parse().unwrap());
    let exact = significant(lit) <= 15;
    if a != b && (exact || (a - b).abs() > 5.001e-15 * a.abs()) {
        return Err(format!("{lit} became {out}"));
    }
    if a == 0. && b != 0. {
        return Err(format!("{lit} became {out}"));
    }
    Ok(())
}

/// number tokens of a text, in order
fn numbers(t: &str) -> Vec<String> {
    crate::lex::lex(t).into_iter().filter(|x| x.t == crate::lex::T::Num).map(|x| t[x.a..x.b].to_string()).collect()
}

pub fn c10(rep: &Report) -> &'static str {
    let s = Schema::new();
    let signs = ["", "-"];
    let ints = ["0", "1", "9", "10", "123", "999999", "99999999", "1234567890123456", "9007199254740993"];
    let fracs = [
        "", "0", "5", "05", "001", "1234567890", "12345678901", "9999999999", "99999999999", "99999999999999999",
        "000000000012345678901", "3333333333333333", "25000000000000000001", "9999999995", "00000000015",
    ];
    let exps = ["", "E0", "E5", "E-5", "E+5", "E-1", "E1", "E-17", "E20", "E-290", "E280", "E-320", "E14", "E15", "E16", "E-10", "E-11"];
    let mut lits: Vec<String> = Vec::new();
    for e in exps {
        for f in fracs {
            for i in ints {
                for g in signs {
                    lits.push(format!("{g}{i}.{f}{e}"));
                }
            }
        }
    }
    lits.push("1.7976931348623157E308".into());
    lits.push("2.2250738585072014E-308".into());
    lits.push("4.9E-324".into());
    lits.push("+1.5".into());
    rep.bound("real_literals", lits.len() as u64);
    let sp = spots(&s, |k| matches!(k, K::Real | K::Vec2 | K::Vec3 | K::Value | K::Angle));
    rep.bound("attributes_with_reals", sp.len() as u64);
    // every literal in every attribute (and every place of a vector) that holds reals
    par_for(sp.len() * lits.len(), |x| {
        let (i, a) = sp[x % sp.len()];
        let lit = &lits[x / sp.len()];
        // in the quick run the wide product is thinned out deterministically only
        // for literals with unusual exponents in vectors
        if rep.stop() {
            return;
        }
        let k = &s.kinds[i];
        let (lf, depth) = leaf(&k.attrs[a]);
        let forms: Vec<(String, usize)> = match lf {
            K::Vec2 => vec![(format!("({lit},2.5)"), 0), (format!("(2.5,{lit})"), 1)],
            K::Vec3 => vec![(format!("({lit},2.5,7.)"), 0), (format!("(2.5,{lit},7.)"), 1), (format!("(2.5,7.,{lit})"), 2)],
            K::Value => vec![(format!("IFCREAL({lit})"), 0), (format!("IFCTHERMALTRANSMITTANCEMEASURE({lit})"), 0)],
            K::Angle => vec![(format!("IFCPLANEANGLEMEASURE({lit})"), 0)],
            _ => vec![(lit.clone(), 0)],
        };
        for (f, _) in forms {
            let (file, l) = file_with(&s, i, a, &wrap(f.clone(), depth));
            rep.state(&l);
            rep.step(2);
            let key = format!("{} {} {f}", k.tag, a + 1);
            let r = (|| -> Result<(), String> {
                let ifc = load_ok(&file)?;
                let e = entity(&ifc, 1)?;
                if !(k.is)(e) {
                    return Err(format!("is read as {}", e.type_name()));
                }
                let out = e.to_string();
                let (want, got) = (numbers(&l), numbers(&out));
                if want.len() != got.len() {
                    return Err(format!("{l} became {out}"));
                }
                for (w, g) in want.iter().zip(&got) {
                    if *w == *lit {
                        real_kept(w, g)?;
                    } else if w.parse::<f64>().ok() != g.parse::<f64>().ok() {
                        return Err(format!("{w} next to {lit} became {g}"));
                    }
                }
                // no drift: the written number is kept from then on
                let (file2, _) = (ifc.to_string(), ());
                let again = load_ok(&file2)?;
                let out2 = entity(&again, 1)?.to_string();
                if out != out2 {
                    return Err(format!("drifts when written and read again: {out} -> {out2}"));
                }
                Ok(())
            })();
            match r {
                Ok(()) => rep.trace(),
                Err(m) => rep.violation(key, m, file),
            }
        }
    });
    // long runs of consecutive numbers, many to a file
    let batch = |key: String, nums: Vec<String>| {
        if rep.stop() {
            return;
        }
        rep.state(&key);
        rep.step(nums.len() as u64);
        let n = nums.len() / 2;
        let pts: Vec<String> = (0..n).map(|j| format!("({},{})", nums[2 * j], nums[2 * j + 1])).collect();
        let file = file_of(&[(1, format!("IFCCARTESIANPOINTLIST2D(({}),$)", pts.join(",")))]);
        let r = (|| -> Result<(), String> {
            let ifc = load_ok(&file)?;
            let out = entity(&ifc, 1)?.to_string();
            let out = out.strip_prefix("IFCCARTESIANPOINTLIST2D").ok_or("wrong keyword")?;
            let got = numbers(out);
            if got.len() != 2 * n {
                return Err(format!("{} numbers became {}", 2 * n, got.len()));
            }
            for (w, g) in nums.iter().zip(&got) {
                real_kept(w, g)?;
            }
            let again = entity(&*load_ok(&ifc.to_string())?, 1)?.to_string();
            if let Some((a, b)) = got.iter().zip(&numbers(&again)).find(|(a, b)| a != b) {
                return Err(format!("drifts when written and read again: {a} -> {b}"));
            }
            rep.trace();
            Ok(())
        })();
        if let Err(m) = r {
            rep.violation(key, m, clip(&file, 400));
        }
    };
    let per = 1000usize;
    // k / 10^d for all k below a limit: every short decimal
    let limit = rep.pick(200_000usize, 3_000_000);
    rep.bound("short_decimals_per_scale", limit as u64);
    let scales = [0usize, 1, 2, 3, 5, 8, 10, 12, 15];
    par_for(scales.len() * (limit / per), |x| {
        let d = scales[x % scales.len()];
        let b = x / scales.len() * per;
        let nums: Vec<String> = (b..b + per)
            .map(|k| {
                let t = format!("{k:0w$}", w = d + 1);
                let (i, f) = t.split_at(t.len() - d);
                format!("{}{i}.{f}", if k % 3 == 1 { "-" } else { "" })
            })
            .collect();
        batch(format!("decimals {d} from {b}"), nums);
    });
    // 11 to 17 significant digits at every decimal position
    let heads: Vec<u64> = (0..rep.pick(400, 6000)).map(|j| 1_000_003 * (j + 1) + j * j * 7).collect();
    par_for(19, |d| {
        for chunk in heads.chunks(250) {
            let mut nums = Vec::new();
            for h in chunk {
                for tail in ["0001", "4999999", "5000001", "9999999999"] {
                    let t = format!("{h:07}{tail}");
                    let t = if t.len() <= d { format!("{t:0>w$}", w = d + 1) } else { t };
                    let (i, f) = t.split_at(t.len() - d);
                    let i = if i.is_empty() { "0" } else { i };
                    nums.push(format!("{i}.{f}"));
                }
            }
            batch(format!("digits {d} from {}", chunk[0]), nums);
        }
    });
    // whole numbers and timestamps are kept exactly
    let edge: Vec<i64> = (0..63)
        .flat_map(|b| [1i64 << b, (1i64 << b) - 1, -(1i64 << b), -(1i64 << b) - 1, (1i64 << b) + 1])
        .chain((0..19).flat_map(|p| { let t = 10i64.pow(p); [t, t - 1, t + 1, -t, 1 - t] }))
        .chain([i64::MAX, i64::MIN, 0])
        .collect();
    let isp = spots(&s, |k| matches!(k, K::Int));
    let tsp = spots(&s, |k| matches!(k, K::Time));
    rep.bound("whole_numbers", edge.len() as u64);
    for (sp, time) in [(&isp, false), (&tsp, true)] {
        for &(i, a) in sp {
            for &n in &edge {
                if time && !(-8_000_000_000_000..=8_000_000_000_000).contains(&n) {
                    continue;
                }
                let k = &s.kinds[i];
                let (_, depth) = leaf(&k.attrs[a]);
                let (file, l) = file_with(&s, i, a, &wrap(n.to_string(), depth));
                rep.state(&l);
                rep.step(1);
                let ok = load_ok(&file).and_then(|ifc| {
                    let e = entity(&ifc, 1)?;
                    // a number no attribute of the kind can hold leaves the object
                    // unsupported: kept as written, never changed to another number
                    let fits = time || i32::try_from(n).is_ok();
                    if !(k.is)(e) && (fits || !is_dummy(e)) {
                        return Err(format!("is read as {}", e.type_name()));
                    }
                    if numbers(&e.to_string()) != numbers(&l) {
                        return Err(format!("{l} became {e}"));
                    }
                    Ok(())
                });
                match ok {
                    Ok(()) => rep.trace(),
                    Err(m) => rep.violation(format!("{} {} {n}", k.tag, a + 1), m, file),
                }
            }
        }
    }
    // numbers given through the programming interface
    for l in &lits {
        let v: f64 = l.parse().unwrap();
        rep.step(1);
        for (what, out) in [
            ("point", Point2D::from(bevy_math::DVec2::new(v, 1.)).to_string()),
            ("point in space", Point3D::from(bevy_math::DVec3::new(1., 2., v)).to_string()),
            ("layer", MaterialLayer::new(v, false).to_string()),
        ] {
            let n = numbers(&out);
            let got = match what {
                "point" => &n[n.len() - 2],
                "point in space" => &n[n.len() - 1],
                _ => &n[0],
            };
            // the decimal digits of the value itself, not of the literal
            if !legal_real(got) || !{
                let b: f64 = got.parse().unwrap();
                b == v || (b - v).abs() <= 5.001e-15 * v.abs()
            } {
                rep.violation(format!("{what} from {l}"), format!("{v:e} is written as {got}"), out.clone());
            }
        }
    }
    rep.sample("1234567890123456.9999999999E-17 in every real attribute");
    "exhaustive enumeration of number literals (sign x digits x fraction x exponent) in every numeric attribute and of all short decimals, executed on the reader and writer, compared with an independent decimal oracle"
}

// ------------------------------------------------------------------ C11

const SYMS: &[&str] = &[
    "a", "Z", "0", " ", ";", ",", "(", ")", "#", "$", "*", "=", "/", "/*", "*/", ".", "\"", "\\", "&", "_", "-", "\u{c4}", "\u{e4}", "\u{d6}",
    "\u{f6}", "\u{dc}", "\u{fc}", "\u{df}", "\u{e9}", "\u{6f22}", "\u{1f600}", "\\X2\\00C4\\X0\\", "\\X2\\00fc\\X0\\", "\\X2\\00DF\\X0\\", "\\X2\\6F22\\X0\\",
    "\\X\\E4", "\\S\\D", "\n", "\t", "ENDSEC;", "#1= IFCWALL(",
];

const QUOTE_FINDING: &str = "apostrophe-read-as-unsupported";

/// an umlaut as it is directly behind the code of one that lacks its last
/// backslash: coded, its first backslash completes the other
fn completes(body: &str) -> bool {
    ["00C4", "00E4", "00D6", "00F6", "00DC", "00FC", "00DF"].iter().any(|c| {
        let code = format!("\\X2\\{c}\\X0");
        body.match_indices(&code).any(|(i, _)| body[i + code.len()..].starts_with(['\u{c4}', '\u{e4}', '\u{d6}', '\u{f6}', '\u{dc}', '\u{fc}', '\u{df}']))
    })
}
pub fn c11(rep: &Report) -> &'static str {
    let s = Schema::new();
    let sp = spots(&s, |k| matches!(k, K::Str));
    rep.bound("symbols", SYMS.len() as u64);
    rep.bound("attributes_with_texts", sp.len() as u64);
    let len_one = rep.pick(3usize, 4);
    rep.bound("text_length_in_one_attribute", len_one as u64);
    rep.bound("text_length_in_every_attribute", rep.pick(1u64, 2));
    let texts = |n: usize| -> Vec<String> {
        let mut v = vec![String::new()];
        let mut from = 0;
        for _ in 0..n {
            let to = v.len();
            for i in from..to {
                for c in SYMS {
                    v.push(format!("{}{c}", v[i]));
                }
            }
            from = to;
        }
        v
    };
    let check = |i: usize, a: usize, body: &str| {
        if rep.stop() {
            return;
        }
        let k = &s.kinds[i];
        let (_, depth) = leaf(&k.attrs[a]);
        let t = format!("'{body}'");
        let form = if depth > 0 { format!("('x',{t},'y;')") } else { t.clone() };
        let (file, l) = file_with(&s, i, a, &form);
        rep.step(2);
        let r = (|| -> Result<(), String> {
            let ifc = load_ok(&file)?;
            let e = entity(&ifc, 1)?;
            if !(k.is)(e) {
                return Err(format!("is read as {}", e.type_name()));
            }
            let want = step::ent(&l)?;
            let out = e.to_string();
            same_entity(k, &want, &out)?;
            let w1 = ifc.to_string();
            let f = step::file(&w1)?;
            if f.data.iter().filter(|d| d.0 < 1000).count() != 1 {
                return Err("statements appeared or vanished".into());
            }
            let again = load_ok(&w1)?;
            if entity(&again, 1)?.to_string() != out {
                return Err(format!("changes when written and read once more: {out}"));
            }
            Ok(())
        })();
        match r {
            Ok(()) => rep.trace(),
            Err(m) if completes(body) && m.contains("and became") => rep.violation(
                "unfinished-code-before-umlaut",
                format!("{t}: {m}"),
                file,
            ),
            Err(m) => rep.violation(format!("{} {} {body:?}", k.tag, a + 1), format!("{t}: {m}"), file),
        }
    };
    // short texts in every attribute that holds one
    let short = texts(rep.pick(1, 2));
    par_for(sp.len() * short.len(), |x| {
        let (i, a) = sp[x / short.len()];
        rep.state(&(i, a, &short[x % short.len()]));
        check(i, a, &short[x % short.len()]);
    });
    // longer ones in one
    let long = texts(len_one);
    let (mi, person) = (s.idx("Material"), s.idx("Person"));
    par_for(long.len(), |x| {
        rep.state(&long[x]);
        check(mi, 0, &long[x]);
        if long.len() < 200_000 {
            check(person, 4, &long[x]);
        }
    });
    // long texts, and many characters that need care in one
    let sized = sizes(rep);
    let units = ["a", "\\X2\\00E4\\X0\\", "\\X2\\00C4\\X0\\b", ";", "\u{e4}", "a\\X2\\03A9\\X0\\", "#1,", " ", "\\"];
    par_for(sized.len() * units.len(), |x| {
        let (n, u) = (sized[x / units.len()], units[x % units.len()]);
        for body in [u.repeat(n), format!("{}{u}", "z".repeat(n)), format!("{u}{}{u}", "y ".repeat(n))] {
            rep.state(&body);
            check(mi, 0, &body);
            check(person, 4, &body);
        }
    });
    // every character in coded form, and what is nearly one
    rep.bound("coded_characters", 65536);
    let mut near: Vec<String> = (0..65536).map(|c| format!("\\X2\\{c:04X}\\X0\\")).collect();
    for code in ["00C4", "00E4", "00D6", "00F6", "00DC", "00FC", "00DF"] {
        let full: Vec<char> = format!("\\X2\\{code}\\X0\\").chars().collect();
        let with = |i: usize, skip: usize, c: &str| -> String {
            full[..i].iter().collect::<String>() + c + &full[i + skip..].iter().collect::<String>()
        };
        for i in 0..=full.len() {
            for c in ["", "0", "1", "2", "4", "9", "A", "C", "D", "F", "c", "d", "f", "x", "X", "\\", " ", ";", "\u{e4}"] {
                near.push(with(i, 0, c));
                if i < full.len() {
                    near.push(with(i, 1, c));
                }
            }
        }
    }
    par_for(near.len(), |x| {
        rep.state(&near[x]);
        check(mi, 0, &near[x]);
        if x >= 65536 {
            check(person, 4, &near[x]);
            check(mi, 0, &format!("{}{}", near[x], near[x]));
        }
    });
    // in memory a text is plain unicode for the umlauts
    let pairs = [
        ("\\X2\\00C4\\X0\\", "\u{c4}"), ("\\X2\\00E4\\X0\\", "\u{e4}"), ("\\X2\\00D6\\X0\\", "\u{d6}"), ("\\X2\\00F6\\X0\\", "\u{f6}"),
        ("\\X2\\00DC\\X0\\", "\u{dc}"), ("\\X2\\00FC\\X0\\", "\u{fc}"), ("\\X2\\00DF\\X0\\", "\u{df}"),
    ];
    par_for(sized.len() * pairs.len(), |x| {
        let (n, (c, u)) = (sized[x / pairs.len()], pairs[x % pairs.len()]);
        let (coded, plain) = (format!("a{}", format!("{c}b").repeat(n)), format!("a{}", format!("{u}b").repeat(n)));
        rep.state(&coded);
        rep.step(1);
        let (file, _) = file_with(&s, mi, 0, &format!("'{coded}'"));
        let r = load_ok(&file).and_then(|ifc| {
            let e = entity(&ifc, 1)?;
            let m = e.downcast_ref::<Material>().ok_or("not a material")?;
            match m.material.custom() {
                Some(t) if t.0 == plain => {}
                t => return Err(format!("{n} times {c} is {:?} in memory", t.map(|t| clip(&t.0, 200)))),
            }
            let out = Material::new(plain.as_str()).to_string();
            if out != format!("IFCMATERIAL('{coded}',$,$);") {
                return Err(format!("{n} times {u} is written as {}", clip(&out, 200)));
            }
            Ok(())
        });
        match r {
            Ok(()) => rep.trace(),
            Err(m) => rep.violation(format!("umlaut {c} times {n}"), m, file),
        }
    });
    for (c1, u1) in pairs {
        for (c2, u2) in pairs {
            for (l, m, r) in [("", "", ""), ("a", "b", "c"), (";", "#1", "\\")] {
                let coded = format!("{l}{c1}{m}{c2}{r}");
                let plain = format!("{l}{u1}{m}{u2}{r}");
                rep.state(&coded);
                rep.step(1);
                let (file, _) = file_with(&s, mi, 0, &format!("'{coded}'"));
                let r = load_ok(&file).and_then(|ifc| {
                    let e = entity(&ifc, 1)?;
                    let m = e.downcast_ref::<Material>().ok_or("not a material")?;
                    if m.material.custom().map(|t| t.0.as_str()).unwrap_or("?") != plain {
                        return Err(format!("{coded} is {:?} in memory", m.material.custom().map(|t| t.0.as_str()).unwrap_or("?")));
                    }
                    let out = Material::new(plain.as_str()).to_string();
                    if out != format!("IFCMATERIAL('{coded}',$,$);") {
                        return Err(format!("{plain:?} is written as {out}"));
                    }
                    Ok(())
                });
                match r {
                    Ok(()) => rep.trace(),
                    Err(m) => rep.violation(format!("umlaut {coded}"), m, file),
                }
            }
        }
    }
    // texts set through the programming interface, quotes included: what is
    // written is one legal statement holding exactly that text
    let mut given = texts(2);
    for n in &sized {
        given.extend(["a", "\u{e4}", "\u{df}x", ";", "\u{3a9}"].map(|u| u.repeat(*n)));
        given.push(format!("{}\u{fc}", "b".repeat(*n)));
    }
    given.retain(|t| !t.contains("\\X"));
    let q: Vec<String> = ["'", "''", "'''", "a'b", "';", "',$", "','", "')", "'$", "x'#1= IFCWALL('", "\\'", "'/*", "*/'"].iter().map(|t| t.to_string()).collect();
    let mut with_q: Vec<String> = Vec::new();
    for a in &q {
        for b in [""].iter().chain(SYMS.iter().filter(|t| !t.contains("\\X"))) {
            with_q.push(format!("{a}{b}"));
            with_q.push(format!("{b}{a}"));
            with_q.push(format!("{a}{b}{a}"));
        }
    }
    rep.bound("texts_with_quotes", with_q.len() as u64);
    par_for(given.len() + with_q.len(), |x| {
        let quoted = x >= given.len();
        let t = if quoted { &with_q[x - given.len()] } else { &given[x] };
        rep.state(&(t, "api"));
        rep.step(2);
        let mut ifc = ifc_rs::IFC::default();
        let key = |w: &str| format!("{w} {t:?}");
        let m = Material::new(t.as_str()).description(t.as_str());
        let id = ifc.data.insert_new(m);
        let p = ifc.data.insert_new(Person::empty().add_middle_name("a").add_middle_name(t.as_str()).given_name(t.as_str()));
        let out = ifc.to_string();
        let r = (|| -> Result<(), String> {
            let f = step::file(&out)?;
            let args: Vec<&Vec<V>> = f.data.iter().map(|d| &d.1.args).collect();
            if f.data.len() != 2 {
                return Err(format!("2 statements became {}", f.data.len()));
            }
            let want = V::Str(t.clone());
            if args[0][..] != [want.clone(), want.clone(), V::Omit] {
                return Err(format!("written as {}", f.data[0].2));
            }
            if args[1][2] != want || args[1][3] != V::List(vec![V::Str("a".into()), want.clone()]) || args[1].len() != 8 {
                return Err(format!("written as {}", f.data[1].2));
            }
            let again = load_ok(&out)?;
            if again.to_string() != out {
                return Err("the written file changes when loaded and written".into());
            }
            Ok(())
        })();
        if let Err(m) = r {
            rep.violation(key("given text"), format!("{t:?} {m}"), out);
            return;
        }
        // and it is read back as the typed object with that text
        match load_ok(&out) {
            Ok(again) => {
                let (a, b) = (again.data.get_untyped(id), again.data.get_untyped(p));
                let same = a.downcast_ref::<Material>().is_some_and(|m| m.material.custom().map(|t| t.0.as_str()).unwrap_or("?") == *t) && b.downcast_ref::<Person>().is_some();
                if same {
                    rep.trace();
                } else if quoted && is_dummy(a) && is_dummy(b) {
                    rep.violation(QUOTE_FINDING, format!("an object with the text {t:?} is read back as an unsupported object"), out);
                } else {
                    rep.violation(key("read back"), format!("the text {t:?} is not read back"), out);
                }
            }
            Err(m) => rep.violation(key("reload"), m, out),
        }
    });
    // quoted quotes in a file: never split, dropped or moved to another attribute
    for &(i, a) in &sp {
        for body in ["''", "a''b", "''''", "x'';y", "''),#1= IFCWALL(''", "a''", "''b"] {
            let k = &s.kinds[i];
            let (_, depth) = leaf(&k.attrs[a]);
            let t = format!("'{body}'");
            let form = if depth > 0 { format!("('x',{t},'y;')") } else { t.clone() };
            let (file, l) = file_with(&s, i, a, &form);
            rep.state(&l);
            rep.step(1);
            let key = format!("{} {} {body}", k.tag, a + 1);
            match load_ok(&file) {
                Ok(ifc) => {
                    let r = entity(&ifc, 1).and_then(|e| {
                        let (w, g) = (step::ent(&l)?, step::ent(&e.to_string())?);
                        if w.args.len() != g.args.len() || (w.args[a] != g.args[a]) {
                            return Err(format!("{l} became {e}"));
                        }
                        Ok(is_dummy(e))
                    });
                    match r {
                        Ok(false) => rep.trace(),
                        Ok(true) => rep.violation(QUOTE_FINDING, "an object with a quoted quote is read as an unsupported object", file),
                        Err(m) => rep.violation(key, m, file),
                    }
                }
                Err(m) => rep.violation(key, m, file),
            }
        }
    }
    rep.sample("'\\X2\\00C4\\X0\\;#1= IFCWALL(' in every text attribute");
    "exhaustive enumeration of texts over a symbol alphabet up to a length in every text attribute, executed on reader, writer and setters, compared with an independent decoder"
}

// ------------------------------------------------------------------ C12

pub fn c12(rep: &Report) -> &'static str {
    let s = Schema::new();
    let en: Vec<(usize, usize)> = spots(&s, |k| matches!(k, K::En(_) | K::SEn(_) | K::Bool | K::Dim));
    let mut literals: Vec<String> = Vec::new();
    let add = |x: &str, v: &mut Vec<String>| {
        if !v.iter().any(|y| y == x) {
            v.push(x.to_string());
        }
    };
    let own_of = |k: &K| -> Vec<String> {
        match leaf(k).0 {
            K::En(l) | K::SEn(l) => l.iter().map(|x| x.to_string()).collect(),
            K::Bool => [".TRUE.", ".FALSE.", ".UNKNOWN.", ".T.", ".F.", ".U."].iter().map(|x| x.to_string()).collect(),
            _ => ["1", "2", "3"].iter().map(|x| x.to_string()).collect(),
        }
    };
    for &(i, a) in &en {
        for l in own_of(&s.kinds[i].attrs[a]) {
            add(&l, &mut literals);
        }
    }
    rep.bound("enumeration_attributes", en.len() as u64);
    rep.bound("literals", literals.len() as u64);
    // near misses of a literal
    let near = |l: &str| -> Vec<String> {
        let q = if l.starts_with('\'') { '\'' } else { '.' };
        if !l.starts_with(['\'', '.']) {
            return vec!["0".into(), "4".into(), "12".into(), "-1".into(), "33".into()];
        }
        let body = l.trim_matches(q).to_string();
        let chars: Vec<char> = body.chars().collect();
        let mut v: Vec<String> = Vec::new();
        for i in 0..chars.len() {
            let mut c = chars.clone();
            c.remove(i);
            v.push(c.iter().collect());
            let mut c = chars.clone();
            c.insert(i, chars[i]);
            v.push(c.iter().collect());
            let mut c = chars.clone();
            c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
            v.push(c.iter().collect());
            if i + 1 < chars.len() {
                let mut c = chars.clone();
                c.swap(i, i + 1);
                v.push(c.iter().collect());
                v.push(chars[..=i].iter().collect());
            }
        }
        for x in ["X", "_", "1", " "] {
            v.push(format!("{body}{x}"));
            v.push(format!("{x}{body}"));
        }
        v.push(format!("{body}{body}"));
        v.push(body.to_lowercase());
        v.retain(|x| !x.trim().is_empty() && (q == '\'' || (x.chars().next().unwrap().is_ascii_alphabetic() && !x.contains(' '))));
        v.into_iter().map(|x| format!("{q}{x}{q}")).collect()
    };
    let probe = |i: usize, a: usize, lit: &str, own: bool| {
        let k = &s.kinds[i];
        let (_, depth) = leaf(&k.attrs[a]);
        for name in k.names {
            let mut args: Vec<String> = k.attrs.iter().map(|x| full(&s, x)).collect();
            args[a] = wrap(lit.to_string(), depth);
            let l = line(name, &args);
            let file = file_of(&with_closure(&s, &[(1, l.clone())]));
            if !rep.state(&l) {
                continue;
            }
            rep.step(1);
            let key = format!("{} {} {lit}", k.tag, a + 1);
            let r = (|| -> Result<&'static str, String> {
                let ifc = load_ok(&file)?;
                let e = entity(&ifc, 1)?;
                let out = e.to_string();
                if is_dummy(e) {
                    if own {
                        return Err(format!("the literal {lit} is not supported"));
                    }
                    if out != format!("{l};") {
                        return Err(format!("{l} became {out}"));
                    }
                    return Ok("kept verbatim");
                }
                if !(k.is)(e) {
                    return Err(format!("is read as {}", e.type_name()));
                }
                same_entity(k, &step::ent(&l)?, &out)?;
                let w = ifc.to_string();
                if load_ok(&w)?.to_string() != w {
                    return Err("changes when written and read once more".into());
                }
                Ok("typed")
            })();
            match r {
                Ok(o) => {
                    rep.trace();
                    rep.outcome(o);
                }
                Err(m) => rep.violation(key, format!("{} attribute {}: {m}", k.tag, a + 1), file),
            }
        }
    };
    par_for(en.len(), |x| {
        let (i, a) = en[x];
        let own = own_of(&s.kinds[i].attrs[a]);
        for l in &own {
            probe(i, a, l, true);
        }
        for l in own.iter().flat_map(|l| near(l)).chain(literals.iter().cloned()) {
            if !own.contains(&l) {
                probe(i, a, &l, false);
            }
        }
        if !rep.quick() {
            // near misses of near misses
            for l in own.iter().flat_map(|l| near(l)).flat_map(|l| near(&l)) {
                if rep.stop() {
                    return;
                }
                if !own.contains(&l) {
                    probe(i, a, &l, false);
                }
            }
        }
    });
    // every own literal with one other attribute at a time absent, or all of them
    par_for(en.len(), |x| {
        let (i, a) = en[x];
        let k = &s.kinds[i];
        let least: Vec<String> = k.attrs.iter().map(|t| minimal(&s, t)).collect();
        let most: Vec<String> = k.attrs.iter().map(|t| full(&s, t)).collect();
        let (_, depth) = leaf(&k.attrs[a]);
        for l in own_of(&k.attrs[a]) {
            for b in 0..=2 * k.attrs.len() + 1 {
                let mut args = if b <= k.attrs.len() { most.clone() } else { least.clone() };
                match b {
                    _ if b == k.attrs.len() => args = least.clone(),
                    _ if b < k.attrs.len() => args[b] = least[b].clone(),
                    _ if b <= 2 * k.attrs.len() => args[b - k.attrs.len() - 1] = most[b - k.attrs.len() - 1].clone(),
                    _ => args = most.clone(),
                }
                args[a] = wrap(l.clone(), depth);
                let own = line(k.names[0], &args);
                if !rep.state(&own) || rep.stop() {
                    continue;
                }
                rep.step(1);
                let file = file_of(&with_closure(&s, &[(1, own.clone())]));
                let r = (|| -> Result<(), String> {
                    let ifc = load_ok(&file)?;
                    let e = entity(&ifc, 1)?;
                    if !(k.is)(e) {
                        return Err(format!("is read as {}", e.type_name()));
                    }
                    same_entity(k, &step::ent(&own)?, &e.to_string())
                })();
                match r {
                    Ok(()) => rep.trace(),
                    Err(m) => rep.violation(format!("{} {} {l}", k.tag, a + 1), format!("{} attribute {} next to others: {m}", k.tag, a + 1), file),
                }
            }
        }
    });
    crate::p_variants::check(rep);
    // all literals of two enumerations of one statement together
    for (i, k) in s.kinds.iter().enumerate() {
        let mine: Vec<usize> = en.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
        for (n, &a) in mine.iter().enumerate() {
            for &b in &mine[n + 1..] {
                for x in own_of(&k.attrs[a]) {
                    for y in own_of(&k.attrs[b]) {
                        let mut args: Vec<String> = k.attrs.iter().map(|t| minimal(&s, t)).collect();
                        args[a] = x.clone();
                        args[b] = y.clone();
                        let l = line(k.names[0], &args);
                        if !rep.state(&l) {
                            continue;
                        }
                        rep.step(1);
                        let file = file_of(&with_closure(&s, &[(1, l.clone())]));
                        let r = load_ok(&file).and_then(|ifc| {
                            let e = entity(&ifc, 1)?;
                            if !(k.is)(e) {
                                return Err(format!("is read as {}", e.type_name()));
                            }
                            same_entity(k, &step::ent(&l)?, &e.to_string())
                        });
                        match r {
                            Ok(()) => rep.trace(),
                            Err(m) => rep.violation(format!("{} {x} {y}", k.tag), m, file),
                        }
                    }
                }
            }
        }
    }
    "exhaustive enumeration of every literal, every near miss and every literal of another enumeration in every enumeration attribute, executed on the reader and writer, compared with the hand-written tables"
}
