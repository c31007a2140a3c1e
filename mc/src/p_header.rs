//! C13: the header and the end marker of a file.
use crate::common::*;
use crate::explore::{explore, par_for};
use crate::report::Report;
use crate::step::{self, V};
use ifc_rs::IFC;

/// one view definition: how it is written, and its name and items
struct View(String, String, Vec<String>);

/// days since 1970-01-01 of a civil date
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// the time in UTC to the second, as the header writes it
fn utc(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, off_min: i64) -> String {
    let t = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s - off_min * 60;
    let (y, mo, d) = civil(t.div_euclid(86400));
    let r = t.rem_euclid(86400);
    format!("{y:04}-{mo:02}-{d:02}T{:02}:{:02}:{:02}", r / 3600, r / 60 % 60, r % 60)
}

fn q(t: &str) -> String {
    format!("'{}'", t.replace('\'', "''"))
}
fn list(v: &[String]) -> String {
    format!("({})", v.join(","))
}
fn texts(l: &[&str]) -> V {
    V::List(l.iter().map(|t| V::Str(t.to_string())).collect())
}

struct Model {
    descs: Vec<(String, Vec<String>)>,
    name: String,
    time: String,
    authors: Vec<String>,
    orgs: Vec<String>,
    rest: [String; 3],
    schemas: Vec<&'static str>,
}

impl Model {
    fn header(&self) -> Vec<step::Ent> {
        let descs = if self.descs.is_empty() {
            texts(&[""])
        } else {
            V::List(self.descs.iter().map(|(n, i)| V::Str(format!("{n} [{}]", i.join(", ")))).collect())
        };
        let strs = |v: &[String]| V::List(v.iter().map(|t| V::Str(t.clone())).collect());
        vec![
            step::Ent { name: "FILE_DESCRIPTION".into(), args: vec![descs, V::Str("2;1".into())] },
            step::Ent {
                name: "FILE_NAME".into(),
                args: vec![
                    V::Str(self.name.clone()),
                    V::Str(self.time.clone()),
                    strs(&self.authors),
                    strs(&self.orgs),
                    V::Str(self.rest[0].clone()),
                    V::Str(self.rest[1].clone()),
                    V::Str(self.rest[2].clone()),
                ],
            },
            step::Ent { name: "FILE_SCHEMA".into(), args: vec![texts(&self.schemas)] },
        ]
    }
    /// compares the loaded header, field by field
    fn in_memory(&self, ifc: &IFC) -> Result<(), String> {
        let h = &ifc.header;
        let descs: Vec<(String, Vec<String>)> =
            h.description.descriptions.iter().map(|d| (d.name.clone(), d.items.clone())).collect();
        if descs != self.descs {
            return Err(format!("the descriptions are {descs:?} in memory"));
        }
        if h.name.name.0 != self.name {
            return Err(format!("the file name is {:?} in memory", h.name.name.0));
        }
        let t = h.name.timestamp.0.format("%Y-%m-%dT%H:%M:%S").to_string();
        if t != self.time {
            return Err(format!("the time is {t} in memory instead of {}", self.time));
        }
        let a: Vec<&String> = h.name.author.iter().map(|a| &a.0).collect();
        let o: Vec<&String> = h.name.organization.iter().map(|a| &a.0).collect();
        if a != self.authors.iter().collect::<Vec<_>>() || o != self.orgs.iter().collect::<Vec<_>>() {
            return Err(format!("the authors are {a:?} and the organizations {o:?} in memory"));
        }
        let r = [&h.name.preprocessor_version.0, &h.name.originating_system.0, &h.name.authorization.0];
        if r != [&self.rest[0], &self.rest[1], &self.rest[2]] {
            return Err(format!("preprocessor, system and authorization are {r:?} in memory"));
        }
        let s: Vec<String> = h.schema.0.iter().map(|s| s.to_string()).collect();
        if s != self.schemas {
            return Err(format!("the schemas are {s:?} in memory"));
        }
        Ok(())
    }
}

const DATA: &str = "#7= IFCCARTESIANPOINT((1.,2.));\n#9= IFCFOREIGN('header',#7);";

fn check(rep: &Report, file: &str, m: &Model) -> Result<(), String> {
    rep.step(2);
    let ifc = load_ok(file)?;
    m.in_memory(&ifc)?;
    let out = ifc.to_string();
    let f = step::file(&out).map_err(|e| format!("the written file is not well formed: {e}"))?;
    let want = m.header();
    if f.header.len() != want.len() {
        return Err(format!("{} header statements are written", f.header.len()));
    }
    for (w, g) in want.iter().zip(&f.header) {
        // the umlaut codes are raw text in the header
        if step::ent(&w.to_string())? != *g {
            return Err(format!("written as {g} instead of {w}"));
        }
    }
    if f.data.len() != 2 || f.data[1].2 != "IFCFOREIGN('header',#7)" {
        return Err("the data section changed".into());
    }
    let again = load_ok(&out).map_err(|e| format!("the written file is {e}"))?;
    if again.to_string() != out {
        return Err("changes when written again".into());
    }
    m.in_memory(&again)?;
    // the serializable form keeps everything, too
    let js = serde_json::to_string(&ifc.header).map_err(|e| e.to_string())?;
    let mut back = IFC::default();
    back.header = serde_json::from_str(&js).map_err(|e| format!("the serialized header is not read back: {e}"))?;
    if back.header != ifc.header {
        return Err("the header changes through its serializable form".into());
    }
    let js = serde_json::to_string(&ifc.footer).map_err(|e| e.to_string())?;
    back.footer = serde_json::from_str(&js).map_err(|e| format!("the serialized footer is not read back: {e}"))?;
    if back.footer != ifc.footer {
        return Err("the footer changes through its serializable form".into());
    }
    rep.trace();
    Ok(())
}

fn base() -> Model {
    Model {
        descs: vec![("ViewDefinition".into(), vec!["CoordinationView".into()])],
        name: "a.ifc".into(),
        time: "2016-02-04T18:37:55".into(),
        authors: vec!["me".into()],
        orgs: vec!["org".into()],
        rest: ["pre".into(), "sys".into(), "auth".into()],
        schemas: vec!["IFC4"],
    }
}

fn file(descs: &str, name: &str, time: &str, authors: &[String], orgs: &[String], rest: &[String; 3], schemas: &str) -> String {
    format!(
        "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION({descs},'2;1');\nFILE_NAME({name},'{time}',{},{},{},{},{});\nFILE_SCHEMA({schemas});\nENDSEC;\n\nDATA;\n{DATA}\nENDSEC;\n\nEND-ISO-10303-21;\n",
        list(authors), list(orgs), rest[0], rest[1], rest[2]
    )
}

fn times() -> Vec<(String, Option<String>)> {
    let mut v: Vec<(String, Option<String>)> = Vec::new();
    v.push(("2016-02-04T18:37:55".into(), Some("2016-02-04T18:37:55".into())));
    let offs: &[(&str, Option<i64>)] = &[
        ("", Some(0)), ("Z", Some(0)), ("+00:00", Some(0)), ("-00:00", Some(0)), ("+01:00", Some(60)), ("-01:00", Some(-60)), ("+05:30", Some(330)),
        ("-03:30", Some(-210)), ("+14:00", Some(840)), ("-12:00", Some(-720)), ("+23:59", Some(1439)), ("-23:59", Some(-1439)), ("+24:00", None),
        ("+1:00", None), ("x", None), (" ", None), ("+01:60", None),
    ];
    for y in [1, 999, 1582, 1900, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 9998] {
        for m in 0..=13i64 {
            let n = if (1..=12).contains(&m) { month_len(y, m) } else { 31 };
            for d in [0, 1, 28, 29, 30, 31, 32] {
                let ok = (1..=12).contains(&m) && d >= 1 && d <= n;
                for (h, mi, s) in [(0, 0, 0), (23, 59, 59), (12, 30, 1), (24, 0, 0), (0, 60, 0), (0, 0, 61)] {
                    let ok = ok && h < 24 && mi < 60 && s < 60;
                    let offs = if (d == 1 || d == n) && ok { offs } else { &offs[..1] };
                    for (o, off) in offs {
                        for frac in ["", ".5", ".999999999"] {
                            if !frac.is_empty() && !(o.is_empty() || *o == "+01:00") {
                                continue;
                            }
                            let t = format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{frac}{o}");
                            let want = off.filter(|_| ok).map(|off| utc(y, m, d, h, mi, s, off));
                            v.push((t, want));
                        }
                    }
                }
            }
        }
    }
    for bad in ["", "now", "2016-02-04", "18:37:55", "2016-2-4T18:37:55", "2016-02-04T18:37", "20160204T183755", "2016-02-04T18:37:55Zx", "x2016-02-04T18:37:55", "2016/02/04T18:37:55", "$"] {
        v.push((bad.into(), None));
    }
    v
}

fn views() -> Vec<View> {
    let v = |w: &str, n: &str, i: &[&str]| View(w.into(), n.into(), i.iter().map(|s| s.to_string()).collect());
    vec![
        v("ViewDefinition [CoordinationView]", "ViewDefinition", &["CoordinationView"]),
        v("ViewDefinition []", "ViewDefinition", &[]),
        v("ViewDefinition[A,B]", "ViewDefinition", &["A", "B"]),
        v("ViewDefinition [A_V2.0, QuantityTakeOff,  x]", "ViewDefinition", &["A_V2.0", "QuantityTakeOff", "x"]),
        v("Option [, A]", "Option", &["A"]),
        v("Option [A, , B,]", "Option", &["A", "B"]),
        v("Option [Global Unique Identifiers (GUID): Keep existing]", "Option", &["Global Unique Identifiers (GUID): Keep existing"]),
        v("Option [Drawing Scale: 100.000000; /x]", "Option", &["Drawing Scale: 100.000000; /x"]),
        v("Exchange-Requirement:1.0_x [\u{fc}ber #1= $]", "Exchange-Requirement:1.0_x", &["\u{fc}ber #1= $"]),
        v("Gr\u{f6}\u{df}e [a]", "Gr\u{f6}\u{df}e", &["a"]),
    ]
}

pub fn c13(rep: &Report) -> &'static str {
    let words: Vec<&str> = vec![
        "x", "", " ", "a b", "it's", "'", "''", "a';", "',$,'", "(", ")", ";", ",", "$", "*", "[a]", "/*", "*/", "/* c */", "HEADER;", "ENDSEC;", "DATA;",
        "END-ISO-10303-21;", "#1= IFCWALL()", "\u{c4}\u{df}", "\\X2\\00C4\\X0\\", "\\\\srv\\a.ifc", "\n", "a\tb", "\u{6f22}", "2;1", "\"", "ISO-10303-21;",
    ];
    let views = views();
    let b = base();
    let schema_forms: Vec<(&str, &'static str)> = vec![
        ("IFC4", "IFC4"), ("IFC2X3", "IFC2X3"), ("IFC4X3_ADD2", "IFC4X3_ADD2"), ("IFC2x3", "IFC2X3"), ("ifc2x3", "IFC2X3"), ("Ifc2X3", "IFC2X3"),
        ("IFC4x2", "IFC4"), ("IFC4X2", "IFC4"), ("IFC4X3", "IFC4X3_ADD2"), ("IFC4x3", "IFC4X3_ADD2"), ("ifc4", "IFC4"), ("Ifc4", "IFC4"), ("IFC4x3_ADD2", "IFC4X3_ADD2"),
        ("ifc4x3", "IFC4X3_ADD2"),
    ];
    let times = times();
    let dev = rep.pick(2, 3);
    rep.bound("deviations_from_the_plain_header", dev as u64);
    rep.bound("texts", words.len() as u64);
    rep.bound("times", times.len() as u64);

    // 1. the header grammar as a choice tree
    let n = explore(rep, dev, |ch| {
        let mut m = base();
        let word = |ch: &mut crate::explore::Ch, d: &str| -> String {
            match ch.deviate(words.len() + 1) {
                0 => d.to_string(),
                i => words[i - 1].to_string(),
            }
        };
        // descriptions: the usual one, none (in two spellings), or 1..2 of any form
        let c = ch.deviate(2 + views.len() * 2);
        let descs_text = match c {
            0 => "('ViewDefinition [CoordinationView]')".to_string(),
            1 => {
                m.descs.clear();
                "('')".to_string()
            }
            i => {
                let i = i - 2;
                let mut l = vec![&views[i % views.len()]];
                if i >= views.len() {
                    l.push(&views[ch.choose(views.len())]);
                }
                m.descs = l.iter().map(|v| (v.1.clone(), v.2.clone())).collect();
                list(&l.iter().map(|v| q(&v.0)).collect::<Vec<_>>())
            }
        };
        m.name = word(ch, &b.name);
        let name = if m.name.is_empty() && ch.choose(2) == 1 { "$".to_string() } else { q(&m.name) };
        for part in [0, 1] {
            let first = word(ch, "me");
            let mut l = vec![first];
            match ch.deviate(3) {
                0 => {}
                1 => l.push("second".into()),
                _ => l.extend(["".to_string(), "third's".into()]),
            }
            if part == 0 {
                m.authors = l;
            } else {
                m.orgs = l;
            }
        }
        for k in 0..3 {
            m.rest[k] = word(ch, &b.rest[k]);
        }
        let i = ch.deviate(schema_forms.len());
        let mut forms = vec![schema_forms[i]];
        match ch.deviate(3) {
            0 => {}
            1 => forms.push(schema_forms[1]),
            _ => forms.extend([schema_forms[2], schema_forms[0]]),
        }
        m.schemas = forms.iter().map(|f| f.1).collect();
        let t = ch.deviate(4);
        let (ttext, twant) = [
            ("2016-02-04T18:37:55", "2016-02-04T18:37:55"),
            ("2016-02-04T18:37:55Z", "2016-02-04T18:37:55"),
            ("2016-02-29T00:30:00+01:00", "2016-02-28T23:30:00"),
            ("1999-12-31T23:59:59.75-05:00", "2000-01-01T04:59:59"),
        ][t];
        m.time = twant.into();
        let f = file(
            &descs_text,
            &name,
            ttext,
            &m.authors.iter().map(|a| q(a)).collect::<Vec<_>>(),
            &m.orgs.iter().map(|a| q(a)).collect::<Vec<_>>(),
            &[q(&m.rest[0]), q(&m.rest[1]), q(&m.rest[2])],
            &list(&forms.iter().map(|f| q(f.0)).collect::<Vec<_>>()),
        );
        rep.state(&f);
        if let Err(e) = check(rep, &f, &m) {
            rep.violation(format!("header {:?}", ch.path()), e, f);
        }
    });
    rep.bound("headers", n);

    // 2. every time of the alphabet
    par_for(times.len(), |i| {
        if rep.stop() {
            return;
        }
        let (t, want) = &times[i];
        let one = |v: &str| vec![q(v)];
        let f = file("('ViewDefinition [CoordinationView]')", "'a.ifc'", t, &one("me"), &one("org"), &[q("pre"), q("sys"), q("auth")], "('IFC4')");
        rep.state(&f);
        let r = match want {
            Some(w) => {
                let mut m = base();
                m.time = w.clone();
                check(rep, &f, &m)
            }
            None => {
                rep.step(1);
                match load(&f) {
                    Load::Rejected(_) => Ok(()),
                    Load::Panic(p) => Err(format!("panics: {p}")),
                    Load::Ok(i) => Err(format!("the time {t:?}, which does not exist, is read as {}", i.header.name.timestamp.0)),
                }
            }
        };
        rep.outcome(if want.is_some() { "time kept" } else { "impossible time" });
        if let Err(e) = r {
            rep.violation(format!("time {t:?}"), e, f);
        }
    });

    // 3. all symbol sequences in every text of the header
    let syms = ["a", " ", "''", ";", ",", "(", ")", "$", "/*", "*/", "\\X2\\00C4\\X0\\", "\u{e4}", "\n", "ENDSEC;", "#1=", "[", "]"];
    let len = rep.pick(3usize, 5);
    rep.bound("text_length", len as u64);
    let total: usize = (0..=len).map(|l| syms.len().pow(l as u32)).sum();
    par_for(total, |x| {
        if rep.stop() {
            return;
        }
        let (mut l, mut x) = (0usize, x);
        while x >= syms.len().pow(l as u32) {
            x -= syms.len().pow(l as u32);
            l += 1;
        }
        let mut t = String::new();
        for _ in 0..l {
            t.push_str(syms[x % syms.len()]);
            x /= syms.len();
        }
        let plain = t.replace("''", "'");
        let spots: &[usize] = if l < len { &[0, 1, 2, 3, 4, 5] } else { &[0] };
        for &sp in spots {
            let mut m = base();
            let one = |v: &str| vec![q(v)];
            let (mut name, mut a, mut o, mut r) = (q("a.ifc"), one("me"), one("org"), [q("pre"), q("sys"), q("auth")]);
            let w = format!("'{t}'");
            match sp {
                0 => (name, m.name) = (w, plain.clone()),
                1 => (a[0], m.authors[0]) = (w, plain.clone()),
                2 => (o[0], m.orgs[0]) = (w, plain.clone()),
                k => (r[k - 3], m.rest[k - 3]) = (w, plain.clone()),
            }
            let f = file("('ViewDefinition [CoordinationView]')", &name, "2016-02-04T18:37:55", &a, &o, &r, "('IFC4')");
            rep.state(&(sp, &t));
            if let Err(e) = check(rep, &f, &m) {
                rep.violation(format!("header text {sp} {t:?}"), e, f);
            }
        }
    });

    // long lists and long texts
    let sized = sizes(rep);
    par_for(sized.len() * 10, |x| {
        if rep.stop() {
            return;
        }
        let (n, k) = (sized[x / 10], x % 10);
        let mut m = base();
        let one = |v: &str| vec![q(v)];
        let (mut name, mut a, mut o, mut r) = (q("a.ifc"), one("me"), one("org"), [q("pre"), q("sys"), q("auth")]);
        let mut views = "('ViewDefinition [CoordinationView]')".to_string();
        let words: Vec<String> = (0..n).map(|i| format!("w{i}{}", ["", ", x", ";", " y"][i % 4])).collect();
        let plain: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
        let text: String = words.concat();
        match k {
            0 => (a, m.authors) = (words.iter().map(|w| q(w)).collect(), words.clone()),
            1 => (o, m.orgs) = (words.iter().map(|w| q(w)).collect(), words.clone()),
            2 => {
                views = list(&plain.iter().map(|w| q(&format!("{w} [{w}a, {w}b]"))).collect::<Vec<_>>());
                m.descs = plain.iter().map(|w| (w.clone(), vec![format!("{w}a"), format!("{w}b")])).collect();
            }
            3 => {
                views = format!("('ViewDefinition [{}]')", plain.join(", "));
                m.descs = vec![("ViewDefinition".into(), plain.clone())];
            }
            4 => (name, m.name) = (q(&text), text.clone()),
            5 => (a[0], m.authors[0]) = (q(&text), text.clone()),
            6 => (o[0], m.orgs[0]) = (q(&text), text.clone()),
            k => (r[k - 7], m.rest[k - 7]) = (q(&text), text.clone()),
        }
        let f = file(&views, &name, "2016-02-04T18:37:55", &a, &o, &r, "('IFC4')");
        rep.state(&(n, k, "size"));
        if let Err(e) = check(rep, &f, &m) {
            rep.violation(format!("header list or text {k} of size {n}"), clip(&e, 500), clip(&f, 3000));
        }
    });

    // 4. a header made by a program
    par_for(words.len() * words.len(), |x| {
        let (a, c) = (words[x % words.len()], words[x / words.len()]);
        let mut m = base();
        (m.name, m.authors, m.orgs) = (a.into(), vec![c.into(), a.into()], vec![format!("{a}{c}")]);
        m.rest = [c.into(), format!("{c}{a}"), a.into()];
        let mut ifc = IFC::default();
        rep.state(&(a, c, "api"));
        let h = &mut ifc.header;
        h.name.name.0 = a.into();
        h.name.author[0].0 = c.into();
        let mut second = h.name.author[0].clone();
        second.0 = a.into();
        h.name.author.push(second);
        h.name.organization[0].0 = format!("{a}{c}");
        h.name.preprocessor_version.0 = c.into();
        h.name.originating_system.0 = format!("{c}{a}");
        h.name.authorization.0 = a.into();
        m.time = h.name.timestamp.0.format("%Y-%m-%dT%H:%M:%S").to_string();
        m.descs.clear();
        m.schemas = vec!["IFC4X3_ADD2"];
        let out = ifc.to_string();
        rep.step(2);
        let r = (|| {
            let f = step::file(&out)?;
            for (w, g) in m.header().iter().zip(&f.header) {
                if step::ent(&w.to_string())? != *g {
                    return Err(format!("written as {g} instead of {w}"));
                }
            }
            let again = load_ok(&out)?;
            m.in_memory(&again)?;
            if again.to_string() != out {
                return Err("changes when read and written again".to_string());
            }
            Ok(())
        })();
        match r {
            Ok(()) => rep.trace(),
            Err(e) => rep.violation(format!("program header {a:?} {c:?}"), e, out),
        }
    });

    // 5. what is not a header or an end marker of the format is refused
    let good = file("('ViewDefinition [CoordinationView]')", "'a.ifc'", "2016-02-04T18:37:55", &[q("me")], &[q("org")], &[q("pre"), q("sys"), q("auth")], "('IFC4')");
    for (from, to) in [
        ("ISO-10303-21;\nHEADER", "ISO-10303-22;\nHEADER"), ("ISO-10303-21;\nHEADER", "ISO-10303-21\nHEADER"), ("ISO-10303-21;\nHEADER", "HEADER"),
        ("'2;1'", "'2;2'"), ("'2;1'", "'3;1'"), ("'2;1'", "''"), ("('IFC4')", "('IFC5')"), ("('IFC4')", "('IFC')"), ("('IFC4')", "('IFC4 ADD')"), ("('IFC4')", "('IFC4X3_ADD1')"),
        ("('IFC4')", "('AP214')"), ("('IFC4')", "('IFC2X2')"), ("('IFC4')", "('IFC44')"), ("END-ISO-10303-21;", "END-ISO-10303-22;"), ("END-ISO-10303-21;", "ISO-10303-21;"),
        ("END-ISO-10303-21;", "END-ISO-10303-21"), ("END-ISO-10303-21;", ""), ("END-ISO-10303-21;", "END-ISO-10303-21;x"), ("END-ISO-10303-21;", "END-ISO-10303-21; END-ISO-10303-21;"),
        ("FILE_SCHEMA(('IFC4'));", ""), ("FILE_NAME", "FILENAME"), ("'pre',", ""), ("'auth'", "'auth','more'"), ("FILE_DESCRIPTION(('ViewDefinition [CoordinationView]'),'2;1');\n", ""),
        ("HEADER;\n", ""), ("HEADER;\n", "HEADER;\nHEADER;\n"),
    ] {
        let f = good.replacen(from, to, 1);
        assert!(f != good);
        rep.state(&f);
        rep.step(1);
        match load(&f) {
            Load::Rejected(_) => rep.trace(),
            Load::Panic(p) => rep.violation(format!("damaged {from} {to}"), format!("panics: {p}"), f),
            Load::Ok(_) => rep.violation(format!("damaged {from} {to}"), format!("accepted with {to:?} in place of {from:?}"), f),
        }
    }
    rep.sample("FILE_NAME($,'1999-12-31T23:59:59.75-05:00',('me','','third''s'),...)");
    "exhaustive exploration of the header grammar as a choice tree (deviation bounded), all calendar edges, all symbol sequences in every header text, executed on the real reader and writer, compared with an independent reader and calendar"
}
