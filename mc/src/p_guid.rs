//! C09: globally unique ids keep their text, valid ones are exactly those accepted.
use crate::common::*;
use crate::explore::par_for;
use crate::report::{guard, Report};
use crate::schema::*;
use ifc_rs::parser::IFCParse;
use ifc_rs::prelude::*;

const ALPHA: &[u8; 64] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$";

fn parse(t: &str) -> Result<Option<String>, String> {
    guard(|| IfcGloballyUniqueId::parse().parse(t).ok().map(|g| g.to_string()))
}

pub fn c09(rep: &Report) -> &'static str {
    let s = Schema::new();
    let bases: Vec<[u8; 22]> = [
        "0000000000000000000000", "3$$$$$$$$$$$$$$$$$$$$$", "0DWgwt6o1FOx7466fPk$jl", "1abcdefghijklmnopqrstu", "2VWXYZ_$0918273645FEDC",
    ]
    .iter()
    .map(|b| b.as_bytes().try_into().unwrap())
    .collect();
    let dev = rep.pick(2, 3);
    rep.bound("positions", 22u64);
    rep.bound("characters", 64u64);
    rep.bound("positions_changed_together", dev as u64);
    let check = |g: &[u8]| {
        let t = format!("'{}'", std::str::from_utf8(g).unwrap());
        rep.step(1);
        match parse(&t) {
            Ok(Some(o)) if o == t => rep.trace(),
            Ok(Some(o)) => rep.violation(format!("guid {t}"), format!("{t} became {o}"), t.clone()),
            Ok(None) => rep.violation(format!("guid {t}"), format!("the valid id {t} is not accepted"), t.clone()),
            Err(p) => rep.violation(format!("guid {t}"), format!("{t} panics: {p}"), t.clone()),
        }
    };
    // all pairs (thorough: triples) of positions with all characters
    let nb = if rep.quick() { bases.len() } else { 1 };
    let pairs: Vec<(usize, usize)> = (0..22).flat_map(|i| (i + 1..22).map(move |j| (i, j))).collect();
    par_for(pairs.len(), |x| {
        let (i, j) = pairs[x];
        for b in &bases[..] {
            for c in ALPHA {
                if i == 0 && !b"0123".contains(c) {
                    continue;
                }
                for d in ALPHA {
                    let mut g = *b;
                    g[i] = *c;
                    g[j] = *d;
                    rep.state(&g);
                    check(&g);
                }
            }
        }
        if dev > 2 {
            // a third position within the same or the next group of four
            for b in &bases[2..2 + nb] {
                for k in j + 1..(j + 5).min(22) {
                    for c in ALPHA.iter().filter(|c| i > 0 || b"0123".contains(c)) {
                        for d in ALPHA {
                            for e in ALPHA {
                                if rep.stop() {
                                    return;
                                }
                                let mut g = *b;
                                g[i] = *c;
                                g[j] = *d;
                                g[k] = *e;
                                check(&g);
                            }
                        }
                    }
                }
            }
        }
    });
    // anything else is not an id: wrong characters at every position, wrong lengths
    let refuse = |t: String| {
        rep.state(&t);
        rep.step(1);
        match parse(&t) {
            Ok(None) => rep.trace(),
            Ok(Some(o)) => rep.violation(format!("guid {t}"), format!("{t} is accepted as {o}"), t.clone()),
            Err(p) => rep.violation(format!("guid {t}"), format!("{t} panics: {p}"), t.clone()),
        }
    };
    for b in &bases {
        let g = std::str::from_utf8(b).unwrap();
        for i in 0..22 {
            for c in (0u8..128).map(|c| c as char).chain(['ä', '\u{ff10}', '\u{212a}']) {
                if ALPHA.contains(&(c as u8)) && c.is_ascii() {
                    continue;
                }
                refuse(format!("'{}{c}{}'", &g[..i], &g[i + 1..]));
            }
        }
        for n in (0..22).chain(23..50) {
            refuse(format!("'{}'", g.chars().cycle().take(n).collect::<String>()));
        }
        refuse(g.to_string());
        refuse(format!("'{g}"));
        refuse(format!("{g}'"));
    }
    // in every entity that has one, every position and character
    let with: Vec<&Kind> = s.kinds.iter().filter(|k| matches!(k.attrs.first(), Some(K::Guid))).collect();
    rep.bound("entity_kinds_with_id", with.len() as u64);
    par_for(with.len() * 22, |x| {
        let k = with[x / 22];
        let i = x % 22;
        for c in ALPHA {
            if i == 0 && !b"0123".contains(c) {
                continue;
            }
            let mut g = bases[2];
            g[i] = *c;
            let t = format!("'{}'", std::str::from_utf8(&g).unwrap());
            let mut args: Vec<String> = k.attrs.iter().map(|a| minimal(&s, a)).collect();
            args[0] = t.clone();
            let file = file_of(&with_closure(&s, &[(1, line(k.names[0], &args))]));
            rep.state(&(k.tag, &t));
            rep.step(1);
            let key = format!("{} {t}", k.tag);
            match load_ok(&file) {
                Ok(ifc) => match entity(&ifc, 1) {
                    Ok(e) if (k.is)(e) && e.to_string().contains(&format!("({t},")) => rep.trace(),
                    Ok(e) => rep.violation(key, format!("the id {t} became {}", clip(&e.to_string(), 80)), file),
                    Err(m) => rep.violation(key, m, file),
                },
                Err(m) => rep.violation(key, m, file),
            }
        }
    });
    // generated ids: valid version 4 ids, all different, kept when read again
    let n = rep.pick(2000, 100_000);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let t = IfcGloballyUniqueId::new_v4().to_string();
        let body = t.trim_matches('\'').to_string();
        let v: Option<Vec<u32>> = body.bytes().map(|c| ALPHA.iter().position(|a| *a == c).map(|p| p as u32)).collect();
        let bits: Option<u128> = v.and_then(|v| {
            (v.len() == 22 && v[0] < 4).then(|| v.iter().fold(0u128, |a, d| (a << 6) | *d as u128))
        });
        let ok = bits.is_some_and(|u| (u >> 76) & 0xf == 4 && (u >> 62) & 3 == 2);
        if !ok || t.len() != 24 {
            rep.violation("generated", format!("a generated id is not a valid version 4 id: {t}"), "IfcGloballyUniqueId::new_v4()");
        }
        if !seen.insert(t.clone()) {
            rep.violation("generated twice", "the same id was generated twice", "IfcGloballyUniqueId::new_v4()");
        }
        check(body.as_bytes());
    }
    // the same from several threads, one after the other and at the same time
    for (threads, at_once) in [(4, false), (8, true)] {
        let made = || (0..n / 20).map(|_| IfcGloballyUniqueId::new_v4().to_string()).collect::<Vec<_>>();
        let ids: Vec<String> = std::thread::scope(|s| {
            let mut running = vec![];
            let mut out = vec![];
            for _ in 0..threads {
                let t = s.spawn(made);
                if at_once {
                    running.push(t);
                } else {
                    out.extend(t.join().unwrap_or_default());
                }
            }
            running.into_iter().for_each(|t| out.extend(t.join().unwrap_or_default()));
            out
        });
        rep.step(ids.len() as u64);
        if ids.len() != threads * (n / 20) {
            rep.violation("generated in threads", "new_v4 panicked in another thread", "IfcGloballyUniqueId::new_v4()");
        }
        if ids.into_iter().any(|i| !seen.insert(i)) {
            rep.violation("generated in threads", "two threads generated the same id", "IfcGloballyUniqueId::new_v4()");
        }
    }
    rep.sample(format!("{} -> {:?}", "'0DWgwt6o1FOx7466fPk$jl'", parse("'0DWgwt6o1FOx7466fPk$jl'")));
    "exhaustive enumeration of id texts (all characters at all pairs of positions of several base ids; all invalid characters and lengths), executed on the id reader and writer and on every entity that carries an id"
}
