//! C08: the object store against a reference map, over all operation sequences.
use crate::common::*;
use crate::explore::explore;
use crate::report::{guard, Report};
use crate::step;
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::any::TypeId;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
enum M {
    Person(String),
    Material(String),
    Set(Option<String>),
    Dummy(String),
}

impl M {
    fn text(&self) -> String {
        match self {
            M::Person(n) => format!("IFCPERSON($,$,'{n}',$,$,$,$,$);"),
            M::Material(n) => format!("IFCMATERIAL('{n}',$,$);"),
            M::Set(n) => match n {
                None => "IFCMATERIALLAYERSET((),$,$);".into(),
                Some(n) => format!("IFCMATERIALLAYERSET((),'{n}',$);"),
            },
            M::Dummy(t) => format!("{t};"),
        }
    }
    fn tid(&self) -> TypeId {
        match self {
            M::Person(_) => TypeId::of::<Person>(),
            M::Material(_) => TypeId::of::<Material>(),
            M::Set(_) => TypeId::of::<MaterialLayerSet>(),
            M::Dummy(_) => TypeId::of::<Dummy>(),
        }
    }
}

const BASES: [&str; 4] = [
    "",
    "#7= IFCPERSON($,$,'a',$,$,$,$,$);\n#3= IFCMATERIAL('b',$,$);\n",
    "#1= IFCMATERIAL('x',$,$);\n#2= IFCCOLUMN('u');\n#4= IFCMATERIALLAYERSET((),'s',$);\n",
    "#4= IFCMATERIAL('first',$,$);\n#4= IFCPERSON($,$,'second',$,$,$,$,$);\n",
];

fn base_model(i: usize) -> BTreeMap<usize, M> {
    let mut m = BTreeMap::new();
    match i {
        1 => {
            m.insert(7, M::Person("a".into()));
            m.insert(3, M::Material("b".into()));
        }
        2 => {
            m.insert(1, M::Material("x".into()));
            m.insert(2, M::Dummy("IFCCOLUMN('u')".into()));
            m.insert(4, M::Set(Some("s".into())));
        }
        3 => {
            m.insert(4, M::Person("second".into()));
        }
        _ => {}
    }
    m
}

const IDS: [usize; 3] = [1, 2, 4];

struct Sys {
    ifc: IFC,
    model: BTreeMap<usize, M>,
}

fn observe(sys: &Sys) -> Result<(), String> {
    let d = &sys.ifc.data;
    let m = &sys.model;
    let high = m.keys().copied().filter(|k| *k >= 12);
    for id in (0..12usize).chain(high).chain([m.keys().max().map_or(12, |k| k + 1)]) {
        if d.contains(&Id(id)) != m.contains_key(&id) {
            return Err(format!("contains(#{id}) is {}", d.contains(&Id(id))));
        }
        let t = d.try_get_untyped(Id(id)).ok().map(|t| t.to_string());
        if t != m.get(&id).map(M::text) {
            return Err(format!("#{id} holds {t:?} instead of {:?}", m.get(&id).map(M::text)));
        }
        if let Some(v) = m.get(&id) {
            let x = d.get_untyped(Id(id));
            if x.to_string() != v.text() || x.type_id() != v.tid() {
                return Err(format!("#{id} holds {x} instead of {}", v.text()));
            }
            let typed = match v {
                M::Person(_) => d.get::<Person>(TypedId::new(Id(id))).to_string(),
                M::Material(_) => d.get::<Material>(TypedId::new(Id(id))).to_string(),
                M::Set(_) => d.get::<MaterialLayerSet>(TypedId::new(Id(id))).to_string(),
                M::Dummy(_) => d.get::<Dummy>(TypedId::new(Id(id))).to_string(),
            };
            if typed != v.text() {
                return Err(format!("typed access to #{id} gives {typed}"));
            }
        }
    }
    fn all<T: IfcType>(ifc: &IFC) -> (Vec<(usize, String)>, Vec<usize>) {
        (
            ifc.data.find_all_of_type::<T>().map(|(i, t)| (i.id().0, t.to_string())).collect(),
            ifc.data.id_of::<T>().map(|i| i.id().0).collect(),
        )
    }
    let of = |t: TypeId| -> Vec<(usize, String)> {
        m.iter().filter(|x| x.1.tid() == t).map(|(i, v)| (*i, v.text())).collect()
    };
    for (name, (got, ids), want) in [
        ("persons", all::<Person>(&sys.ifc), of(TypeId::of::<Person>())),
        ("materials", all::<Material>(&sys.ifc), of(TypeId::of::<Material>())),
        ("layer sets", all::<MaterialLayerSet>(&sys.ifc), of(TypeId::of::<MaterialLayerSet>())),
        ("unsupported", all::<Dummy>(&sys.ifc), of(TypeId::of::<Dummy>())),
        ("walls", all::<Wall>(&sys.ifc), vec![]),
    ] {
        if got != want {
            return Err(format!("the {name} found are {got:?} instead of {want:?}"));
        }
        if ids != want.iter().map(|w| w.0).collect::<Vec<_>>() {
            return Err(format!("the numbers of the {name} are {ids:?}"));
        }
    }
    Ok(())
}

/// one operation on both sides; false: the alternative does not exist
fn apply(sys: &mut Sys, op: usize, n: usize) -> Result<String, String> {
    let d = &mut sys.ifc.data;
    let m = &mut sys.model;
    let name = format!("n{n}");
    let took = |old: Option<Box<dyn IfcType>>, want: Option<M>, what: &str| -> Result<(), String> {
        let (a, b) = (old.map(|x| x.to_string()), want.map(|x| x.text()));
        if a != b {
            return Err(format!("{what} returns {a:?} instead of {b:?}"));
        }
        Ok(())
    };
    let fresh = |id: usize, m: &BTreeMap<usize, M>| -> Result<(), String> {
        if m.contains_key(&id) || m.keys().any(|k| *k > id) {
            return Err(format!("a new object got the number {id} although {:?} are in use", m.keys().collect::<Vec<_>>()));
        }
        Ok(())
    };
    Ok(match op {
        0 => {
            let id = d.insert_new(Person::empty().given_name(&name)).id().0;
            fresh(id, m)?;
            m.insert(id, M::Person(name));
            format!("insert_new(person) -> {id}")
        }
        1 => {
            let id = d.insert_new(Material::new(&name)).id().0;
            fresh(id, m)?;
            m.insert(id, M::Material(name));
            format!("insert_new(material) -> {id}")
        }
        2..=4 => {
            let id = IDS[op - 2];
            let old = d.insert(Id(id), Person::empty().given_name(&name));
            took(old, m.insert(id, M::Person(name)), "insert")?;
            format!("insert(#{id}, person)")
        }
        5..=7 => {
            let id = IDS[op - 5];
            let old = d.insert(TypedId::<Material>::new(Id(id)), Material::new(&name));
            took(old, m.insert(id, M::Material(name)), "insert")?;
            format!("insert(#{id}, material)")
        }
        8..=10 => {
            let id = IDS[op - 8];
            took(d.remove(Id(id)), m.remove(&id), "remove")?;
            format!("remove(#{id})")
        }
        11..=12 => {
            let id = IDS[op - 10];
            d.insert_if_not_exists::<MaterialLayerSet>(Id(id));
            m.entry(id).or_insert(M::Set(None));
            format!("insert_if_not_exists(#{id}, layer set)")
        }
        13..=14 => {
            // change an object in place
            let id = IDS[op - 12];
            match m.get_mut(&id) {
                Some(M::Material(t)) => {
                    *d.get_mut::<Material>(TypedId::new(Id(id))) = Material::new(&name);
                    *t = name;
                }
                Some(M::Person(t)) => {
                    *d.get_mut::<Person>(TypedId::new(Id(id))) = Person::empty().given_name(&name);
                    *t = name;
                }
                Some(M::Set(t)) => {
                    let p = d.get_mut::<MaterialLayerSet>(TypedId::new(Id(id)));
                    *p = MaterialLayerSet::new().name(&name);
                    *t = Some(name);
                }
                _ => {}
            }
            format!("get_mut(#{id})")
        }
        15 => {
            // adding a part through its owner inserts the part as well
            let n2 = format!("l{n}");
            let layer = MaterialLayer::new(1., false).material(Material::new(&n2), &mut sys.ifc);
            let id = *m.keys().max().unwrap_or(&0) + 1;
            drop(layer);
            let got: Vec<usize> = sys
                .ifc
                .data
                .id_of::<Material>()
                .map(|i| i.id().0)
                .filter(|i| !m.contains_key(i))
                .collect();
            if got.len() != 1 {
                return Err(format!("a material given in place was inserted {} times", got.len()));
            }
            fresh(got[0], m)?;
            let _ = id;
            m.insert(got[0], M::Material(n2));
            "material given in place".to_string()
        }
        _ => {
            // take everything out and build a new store from it
            let ids: Vec<usize> = m.keys().copied().collect();
            let mut items: Vec<(Id, Box<dyn IfcType>)> =
                ids.iter().filter_map(|i| d.remove(Id(*i)).map(|x| (Id(*i), x))).collect();
            items.reverse();
            sys.ifc.data = items.into();
            "rebuild".to_string()
        }
    })
}

const OPS: usize = 17;

pub fn c08(rep: &Report) -> &'static str {
    let depth = rep.pick(4, 5);
    rep.bound("operations", OPS as u64);
    rep.bound("sequence_length", depth as u64);
    rep.bound("starting_states", BASES.len() as u64);
    let files: Vec<String> = BASES
        .iter()
        .map(|b| {
            let t = crate::schema::file_of(&[]);
            t.replace("DATA;\n", &format!("DATA;\n{b}"))
        })
        .collect();
    explore(rep, 99, |ch| {
        let b = ch.choose(BASES.len());
        let mut sys = match load_ok(&files[b]) {
            Ok(i) => Sys { ifc: *i, model: base_model(b) },
            Err(e) => {
                rep.violation(format!("base {b}"), e, files[b].clone());
                return;
            }
        };
        let mut hist: Vec<String> = vec![format!("start from {:?}", BASES[b])];
        let mut key = vec![b];
        for n in 0..depth {
            let op = ch.choose(OPS);
            key.push(op);
            let r = guard(|| apply(&mut sys, op, n).and_then(|h| observe(&sys).map(|_| h.clone()).map_err(|e| format!("after {h}: {e}"))));
            rep.step(1);
            match r {
                Ok(Ok(h)) => hist.push(h),
                Ok(Err(m)) => {
                    rep.violation(format!("history {key:?}"), m.clone(), format!("{}\n{m}", hist.join("\n")));
                    return;
                }
                Err(p) => {
                    rep.violation(format!("history {key:?}"), format!("panics: {p}"), format!("{}\nop {op} panics: {p}", hist.join("\n")));
                    return;
                }
            }
            rep.state(&(&sys.model.keys().copied().collect::<Vec<_>>(), key.clone()));
        }
        // what is written is what is stored, in ascending order
        let text = sys.ifc.to_string();
        match step::file(&text) {
            Ok(f) => {
                let got: Vec<(u64, String)> = f.data.iter().map(|d| (d.0, format!("{};", d.2))).collect();
                let want: Vec<(u64, String)> = sys.model.iter().map(|(i, v)| (*i as u64, v.text())).collect();
                if got != want {
                    rep.violation(format!("written {key:?}"), format!("written {got:?} instead of {want:?}"), hist.join("\n"));
                    return;
                }
            }
            Err(e) => {
                rep.violation(format!("written {key:?}"), e, format!("{}\n{text}", hist.join("\n")));
                return;
            }
        }
        rep.trace();
        if key.iter().sum::<usize>() % 4001 == 7 {
            rep.sample(hist.join("; "));
        }
    });
    // the same one or two operations over and over
    let long = rep.pick(150usize, 700);
    rep.bound("length_of_repeating_histories", long);
    crate::explore::par_for(OPS * OPS * BASES.len(), |x| {
        let (a, c, b) = (x % OPS, x / OPS % OPS, x / OPS / OPS);
        if rep.stop() {
            return;
        }
        let Ok(ifc) = load_ok(&files[b]) else { return };
        let mut sys = Sys { ifc: *ifc, model: base_model(b) };
        let mut hist = vec![format!("start from {:?}", BASES[b])];
        for n in 0..long {
            // mostly the first
            let op = if n % 5 == 4 { c } else { a };
            let r = guard(|| {
                let h = apply(&mut sys, op, n)?;
                if n < 12 || n % 16 == 0 || n + 1 == long || [63, 65, 127, 129, 255, 257, 511, 513].contains(&n) {
                    observe(&sys).map_err(|e| format!("after {h}: {e}"))?;
                }
                Ok::<String, String>(h)
            })
            .unwrap_or_else(|p| Err(format!("panics: {p}")));
            rep.step(1);
            match r {
                Ok(h) => hist.push(h),
                Err(m) => {
                    rep.violation(format!("repeating {a} {c} from {b}"), clip(&m, 500), format!("{}\n{m}", hist.join("\n")));
                    return;
                }
            }
        }
        rep.state(&(a, c, b, "repeating"));
        let written = step::file(&sys.ifc.to_string()).map(|f| f.data.iter().map(|d| (d.0, format!("{};", d.2))).collect::<Vec<_>>());
        let want: Vec<(u64, String)> = sys.model.iter().map(|(i, v)| (*i as u64, v.text())).collect();
        if written.as_ref() != Ok(&want) {
            rep.violation(format!("repeating {a} {c} from {b} written"), "what is written is not what is stored".to_string(), hist.join("\n"));
            return;
        }
        rep.trace();
    });
    // a store made of a list of objects: the last one with a number stays
    let items = rep.pick(5usize, 6);
    rep.bound("objects_in_a_list", items as u64);
    explore(rep, 99, |ch| {
        let n = ch.choose(items + 1);
        let mut list: Vec<(Id, Box<dyn IfcType>)> = Vec::new();
        let mut model = BTreeMap::new();
        let mut key = Vec::new();
        for k in 0..n {
            let (i, kind) = (ch.choose(3), ch.choose(2));
            let t = format!("o{k}");
            let (x, m): (Box<dyn IfcType>, M) = if kind == 0 {
                (Box::new(Person::empty().given_name(&t)), M::Person(t))
            } else {
                (Box::new(Material::new(&t)), M::Material(t))
            };
            list.push((Id(IDS[i]), x));
            model.insert(IDS[i], m);
            key.push((IDS[i], kind));
        }
        rep.state(&(&key, "list"));
        rep.step(1);
        let r = guard(|| {
            let mut ifc = IFC::default();
            ifc.data = list.into();
            let mut sys = Sys { ifc, model };
            observe(&sys)?;
            // and goes on like any other
            apply(&mut sys, n % 3, 90)?;
            observe(&sys)
        });
        match r {
            Ok(Ok(())) => rep.trace(),
            Ok(Err(m)) | Err(m) => rep.violation(format!("list {key:?}"), clip(&m, 400), format!("{key:?}\n{m}")),
        }
    });
    // looking for what is not there never yields something else
    let sys = {
        let mut ifc = IFC::default();
        ifc.data.insert(Id(5), Material::new("m"));
        ifc
    };
    for id in [4usize, 5, 6] {
        rep.state(&(id, "absent"));
        if guard(|| sys.data.get::<Person>(TypedId::new(Id(id))).to_string()).is_ok() {
            rep.violation(format!("wrong type #{id}"), "typed access to an object of another type, or to nothing, yields a value", format!("{id}"));
        }
        if id != 5 && guard(|| sys.data.get_untyped(Id(id)).to_string()).is_ok() {
            rep.violation(format!("absent #{id}"), "access to an unused number yields a value", format!("{id}"));
        }
    }
    "all operation sequences up to a length from several starting files, executed on DataMap, every observation after every step compared with a reference map"
}
