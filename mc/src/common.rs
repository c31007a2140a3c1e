//! Helpers shared by the properties: loading through the public entry point,
//! attribute alternatives, and the comparison of attribute values.
use crate::report::{guard, note_load, Report};
use crate::schema::*;
use crate::step::{self, V};
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::str::FromStr;

/// sizes of lists and texts: all small ones, and those around powers of two and ten
pub fn sizes(rep: &Report) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=rep.pick(36, 140)).collect();
    for c in [64usize, 100, 128, 256, 500, 512, 1000, 1024].into_iter().chain(if rep.quick() { vec![] } else { vec![2048, 4096, 8192, 10_000, 16_384, 65_536] }) {
        v.extend([c - 1, c, c + 1]);
    }
    v.sort();
    v.dedup();
    rep.bound("largest_size_alone", *v.last().unwrap() as u64);
    v
}

pub enum Load {
    Ok(Box<IFC>),
    Rejected(String),
    Panic(String),
}

pub fn load(text: &str) -> Load {
    note_load(text, true);
    let r = guard(|| IFC::from_str(text));
    note_load("", false);
    match r {
        Ok(Ok(i)) => Load::Ok(Box::new(i)),
        Ok(Err(e)) => Load::Rejected(format!("{e:#}")),
        Err(p) => Load::Panic(p),
    }
}

pub fn load_ok(text: &str) -> Result<Box<IFC>, String> {
    match load(text) {
        Load::Ok(i) => Ok(i),
        Load::Rejected(e) => Err(format!("rejected: {}", clip(&e, 300))),
        Load::Panic(p) => Err(format!("panicked: {}", clip(&p, 300))),
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn entity(ifc: &IFC, id: u64) -> Result<&dyn IfcType, String> {
    if !ifc.data.contains(&Id(id as usize)) {
        return Err(format!("#{id} is missing after loading"));
    }
    Ok(ifc.data.get_untyped(Id(id as usize)))
}

/// texts to put in an attribute position; the first is the default
pub fn alts(s: &Schema, k: &K, rich: bool) -> Vec<String> {
    let mut v = vec![minimal(s, k)];
    let mut more: Vec<String> = match k {
        K::Guid => GUIDS[1..].iter().map(|g| format!("'{g}'")).collect(),
        K::Str => ["''", "'B;#1= (x,$)'"].iter().map(|s| s.to_string()).collect(),
        K::Real => ["-0.25", "0.", "1.23456789012345E-5"].iter().map(|s| s.to_string()).collect(),
        K::Int => ["0", "-7", "123456789"].iter().map(|s| s.to_string()).collect(),
        K::Time => vec!["0".into(), "2147483648".into()],
        K::Bool => [".FALSE.", ".UNKNOWN.", ".T.", ".F.", ".U."].iter().map(|s| s.to_string()).collect(),
        K::En(l) | K::SEn(l) => l[..l.len() - 1].iter().map(|s| s.to_string()).collect(),
        K::Dim => vec!["2".into(), "1".into()],
        K::Vec2 => vec!["(-2.5,7.)".into(), "(0.1,1.E-7)".into()],
        K::Vec3 => vec!["(-2.5,7.,0.125)".into(), "(0.1,0.,1.E-7)".into()],
        K::Ref(a) => {
            if a.is_empty() {
                vec![format!("#{}", s.id("Person")), format!("#{}", s.id("Wall"))]
            } else {
                let mut v: Vec<String> = a[1..].iter().map(|t| format!("#{}", s.id(t))).collect();
                v.push(format!("#{}", Schema::DUMMY_ID));
                v
            }
        }
        K::Value => [
            "IFCBOOLEAN(.TRUE.)", "IFCREAL(-2.5)", "IFCIDENTIFIER('i d')", "IFCTHERMALTRANSMITTANCEMEASURE(0.24)",
            "IfcLabel('x')",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect(),
        K::Angle => vec!["IFCPLANEANGLEMEASURE(0.0174532925199433)".into()],
        K::List(e) => {
            let a = alts(s, e, rich);
            let mut v: Vec<String> = a.iter().map(|x| format!("({x})")).collect();
            let b = a.get(1).unwrap_or(&a[0]);
            v.push(format!("({},{b})", a[0]));
            v.push(format!("({b},{})", a[0]));
            if rich {
                v.push(format!("({b},{},{b})", a[0]));
            }
            v
        }
        K::Opt(e) => {
            let mut v = alts(s, e, rich);
            v.push("*".into());
            v
        }
    };
    v.append(&mut more);
    v
}

/// a text per attribute that is as unlike the default as possible
pub fn full(s: &Schema, k: &K) -> String {
    match k {
        K::Opt(e) => full(s, e),
        K::List(e) => {
            let a = full(s, e);
            format!("({a},{})", minimal(s, e))
        }
        K::Str => "'full;(#7)'".into(),
        _ => {
            let a = alts(s, k, false);
            a.get(1).unwrap_or(&a[0]).clone()
        }
    }
}

/// does the kind contain an attribute written as a list of references
fn num_eq(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 5e-15 * a.abs().max(b.abs())
}

pub fn v_eq(k: &K, want: &V, got: &V) -> bool {
    match (want, got) {
        // a dimension outside 1..3 where it is inherited anyway
        (V::Num(a), V::Inh) if matches!(k, K::Dim) && !(1.0..=3.0).contains(a) => true,
        (V::Num(a), V::Num(b)) => match k {
            K::Real | K::Vec2 | K::Vec3 | K::Value | K::Angle => num_eq(*a, *b),
            _ => a == b,
        },
        (V::Enum(a), V::Enum(b)) => match k {
            K::Bool | K::Value => bool_long(a) == bool_long(b),
            _ => a == b,
        },
        (V::List(a), V::List(b)) => {
            let e = elem(k);
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| v_eq(e, x, y))
        }
        (V::Typed(n, a), V::Typed(m, b)) => {
            n.eq_ignore_ascii_case(m) && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| v_eq(k, x, y))
        }
        _ => want == got,
    }
}

fn elem(k: &K) -> &K {
    match k {
        K::List(e) => e,
        _ => k,
    }
}

fn strip(k: &K) -> &K {
    match k {
        K::Opt(e) => e,
        _ => k,
    }
}

fn bool_long(s: &str) -> &str {
    match s {
        ".T." => ".TRUE.",
        ".F." => ".FALSE.",
        ".U." => ".UNKNOWN.",
        x => x,
    }
}

/// compares a written entity with the attribute values it was read from
pub fn same_entity(kind: &Kind, want: &step::Ent, got_text: &str) -> Result<(), String> {
    let got = step::ent(got_text).map_err(|e| format!("written text is not well formed: {e}: {got_text}"))?;
    if got.name != kind.names[0] {
        return Err(format!("written under the keyword {} instead of {}", got.name, kind.names[0]));
    }
    if got.args.len() != want.args.len() {
        return Err(format!("{} attributes became {}: {got_text}", want.args.len(), got.args.len()));
    }
    for (i, (w, g)) in want.args.iter().zip(&got.args).enumerate() {
        if !v_eq(strip(&kind.attrs[i]), w, g) {
            return Err(format!("attribute {} was {w} and became {g}", i + 1));
        }
    }
    Ok(())
}

/// the data-section lines for an entity under test plus everything it refers to
pub fn with_closure(s: &Schema, own: &[(u64, String)]) -> Vec<(u64, String)> {
    let all: String = own.iter().map(|(_, t)| t.as_str()).collect::<Vec<_>>().join(" ");
    let mut v: Vec<(u64, String)> = own.to_vec();
    for (id, t) in closure(s, &all) {
        if !v.iter().any(|x| x.0 == id) {
            v.push((id, t));
        }
    }
    v
}
