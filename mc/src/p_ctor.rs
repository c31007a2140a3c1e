//! C23: objects made by constructors and setters, over all sequences of
//! setters up to a length, against the attribute list they should produce.
use crate::common::*;
use crate::explore::par_for;
use crate::report::{guard, Report};
use crate::step::{self, V};
use ifc_rs::prelude::*;
use ifc_rs::IFC;

/// the attributes a statement should have; `'@@n'` stands for a reference to
/// the n-th object that was given in place of a reference
#[derive(Clone, Default)]
struct M {
    args: Vec<String>,
    news: Vec<&'static str>,
}
impl M {
    fn set(&mut self, i: usize, v: &str) {
        self.args[i] = v.into();
    }
    fn push(&mut self, i: usize, v: &str) {
        let a = &mut self.args[i];
        *a = match a.as_str() {
            "$" | "()" => format!("({v})"),
            _ => format!("{},{v})", &a[..a.len() - 1]),
        };
    }
    fn inline(&mut self, text: &'static str) -> String {
        self.news.push(text);
        format!("'@@{}'", self.news.len() - 1)
    }
}

struct Op<T> {
    name: &'static str,
    run: Run<T>,
    model: Model,
    /// 1: an unusual value, 2: a rarely tried one
    extra: u8,
}
type Run<T> = Box<dyn Fn(T, &mut IFC) -> T + Sync>;
type Model = Box<dyn Fn(&mut M) + Sync>;
struct Case<T> {
    name: &'static str,
    make: fn(&mut IFC) -> T,
    init: fn(&mut M),
    ops: Vec<Op<T>>,
    /// how many of `ops` (at the start) are used in long sequences; the rest,
    /// setters with unusual values, only in sequences of at most two
    long: usize,
    /// the same for sequences of at most two
    some: usize,
}

fn ty<T: IfcType>(i: usize) -> TypedId<T> {
    TypedId::new(Id(i))
}

fn eq(want: &V, got: &V, m: &M, file: &step::File) -> Result<(), String> {
    match (want, got) {
        (V::Str(s), V::Ref(r)) if s.starts_with("@@") => {
            let n: usize = s[2..].parse().unwrap();
            let e = file.data.iter().find(|e| e.0 == *r).ok_or("the object given in place is not in the file")?;
            let w = step::ent(m.news[n])?;
            if w.name == e.1.name && w.args == e.1.args {
                Ok(())
            } else {
                Err(format!("#{r} is {} instead of {}", e.2, m.news[n]))
            }
        }
        (V::List(a), V::List(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(a, b)| eq(a, b, m, file))
        }
        _ if want == got => Ok(()),
        _ => Err(format!("is {got} instead of {want}")),
    }
}

fn check<T: IfcType>(c: &Case<T>, seq: &[usize]) -> Result<(), (String, String)> {
    let mut m = M::default();
    (c.init)(&mut m);
    for o in seq {
        (c.ops[*o].model)(&mut m);
    }
    let mut text = String::new();
    let r = guard(|| -> Result<(String, u64), String> {
        let mut ifc = IFC::default();
        // something that was there before
        let before = ifc.data.insert_new(Material::new("before"));
        let mut t = (c.make)(&mut ifc);
        for o in seq {
            t = (c.ops[*o].run)(t, &mut ifc);
        }
        let id = ifc.data.insert_new(t).id().0 as u64;
        if ifc.data.get(before).to_string() != "IFCMATERIAL('before',$,$);" {
            return Err("another object changed".into());
        }
        Ok((ifc.to_string(), id))
    })
    .unwrap_or_else(|p| Err(format!("panicked: {p}")));
    let r = r.and_then(|(t, id)| {
        text = t;
        let f = step::file(&text)?;
        let e = f.data.iter().find(|e| e.0 == id).ok_or("the object is not in the file")?;
        let want = step::ent(&format!("{}({})", c.name, m.args.join(",")))?;
        if e.1.name != c.name || e.1.args.len() != want.args.len() {
            return Err(format!("written as {}", e.2));
        }
        for (i, (w, g)) in want.args.iter().zip(&e.1.args).enumerate() {
            // a new global identifier
            if w == &V::Str("@GUID".into()) {
                match g {
                    V::Str(s) if s.len() == 22 => continue,
                    _ => return Err(format!("attribute {i} is {g}")),
                }
            }
            eq(w, g, &m, &f).map_err(|e| format!("attribute {} {e}", i + 1))?;
        }
        if f.data.len() != 2 + m.news.len() {
            return Err(format!("the file has {} objects instead of {}", f.data.len(), 2 + m.news.len()));
        }
        Ok(())
    });
    r.map_err(|e| (e, text))
}

fn all<T: IfcType>(rep: &Report, c: &Case<T>, depth: usize) {
    sequences(rep, c, c.long, depth);
    if c.long < c.some {
        sequences(rep, c, c.some, rep.pick(2, 3));
    }
    if c.some < c.ops.len() {
        sequences(rep, c, c.ops.len(), rep.pick(1, 2));
    }
    rep.outcome(c.name);
}
fn sequences<T: IfcType>(rep: &Report, c: &Case<T>, n: usize, depth: usize) {
    // the first setter is the unit of parallel work
    let run = |seq: &[usize]| {
        rep.state(&(c.name, seq));
        rep.step(1 + seq.len() as u64);
        match check(c, seq) {
            Ok(()) => rep.trace(),
            Err((e, text)) => {
                let names: Vec<&str> = seq.iter().map(|o| c.ops[*o].name).collect();
                rep.violation(format!("{} {}", c.name, names.join(" ")), clip(&e, 300), text)
            }
        }
    };
    run(&[]);
    par_for(n, |first| {
        let mut seq = vec![first];
        loop {
            run(&seq);
            // next sequence in depth-first order that starts with `first`
            if seq.len() < depth {
                seq.push(0);
                continue;
            }
            while seq.len() > 1 && seq[seq.len() - 1] == n - 1 {
                seq.pop();
            }
            if seq.len() == 1 {
                break;
            }
            *seq.last_mut().unwrap() += 1;
        }
    });
}

macro_rules! op {
    ($t:ty, $n:expr, |$x:ident, $i:ident| $run:expr, |$m:ident| $model:expr) => {
        Op::<$t> { name: $n, run: Box::new(|$x, $i: &mut IFC| { let _ = &$i; $run }), model: Box::new(|$m| { $model; }), extra: 0 }
    };
}
/// one setter with several unusual values, and how each is written
macro_rules! vals {
    ($t:ty, $at:expr, [$(($v:expr, $w:expr)),* $(,)?], |$x:ident, $val:ident| $run:expr) => {
        vec![$(Op::<$t> {
            name: concat!(stringify!($run), " with ", stringify!($v)),
            run: Box::new(|$x, _| { let $val = $v; $run }),
            model: Box::new(|m| m.set($at, $w)),
            extra: 1,
        }),*]
    };
}
/// one setter with each of many values, made at run time
fn each<T: 'static, A: Copy + Sync + 'static>(at: usize, what: &str, f: fn(T, A) -> T, values: &[(A, &'static str)], few: usize) -> Vec<Op<T>> {
    let op = |(i, (v, w)): (usize, &(A, &'static str))| {
        let (v, w) = (*v, *w);
        Op::<T> {
            name: kept(format!("{what} with {}", clip(w, 60))),
            run: Box::new(move |x, _| f(x, v)),
            model: Box::new(move |m| m.set(at, w)),
            extra: 1 + (i >= few) as u8,
        }
    };
    values.iter().enumerate().map(op).collect()
}
fn text_values() -> Vec<(&'static str, &'static str)> {
    let v = [
        "", " ", "$", "#1, (*);", "\u{e4} \u{6f22}", // the first few
        " x ", "\tx", "x\n", "*", "NULL", "0", "a  b", "ABC abc", "it's", "''", "'", "a\\b", "\u{1F600}", "e\u{301}",
    ];
    let long = [31, 32, 63, 64, 127, 128, 255, 256, 257, 1024, 5000, 70000].map(wide);
    v.into_iter().chain(long).map(|t| (t, kept(format!("'{}'", t.replace('\'', "''"))))).collect()
}
const REALS: &[(f64, &str)] = &[
    (0., "0."), (-1.5, "-1.5"), (1e-7, "1.E-7"), (1e20, "1.E20"), (123456.789012345, "123456.789012345"), (1000., "1000."), // the first few
    (1., "1."), (-1., "-1."), (0.1, "0.1"), (0.5, "0.5"), (1.5e-10, "1.5E-10"), (1e-15, "1.E-15"), (1e-100, "1.E-100"), (1e100, "1.E100"), (1e15, "1.E15"), (1e16, "1.E16"),
    (0.333333333333333, "0.333333333333333"), (1.00000000001, "1.00000000001"), (0.99999999999999, "0.99999999999999"), (100., "100."), (1.25, "1.25"), (-0.001, "-0.001"),
    (65536.5, "65536.5"), (4294967296., "4294967296."), (9007199254740992., "9007199254740992."), (1e-9, "1.E-9"), (0.05, "0.05"), (2., "2."),
];
macro_rules! texts {
    ($t:ty, $at:expr, |$x:ident, $val:ident| $run:expr) => {
        each::<$t, &'static str>($at, stringify!($run), |$x, $val| $run, &text_values(), 5)
    };
}
macro_rules! reals {
    ($t:ty, $at:expr, |$x:ident, $val:ident| $run:expr) => {
        each::<$t, f64>($at, stringify!($run), |$x, $val| $run, REALS, 6)
    };
}
/// setters every object with a global identifier has
macro_rules! root {
    ($t:ty) => {{
        let mut v = texts!($t, 2, |x, v| RootBuilder::name(x, v));
        v.extend(texts!($t, 3, |x, v| RootBuilder::description(x, v)));
        v.extend(vec![
            op!($t, "name", |x, i| RootBuilder::name(x, "other"), |m| m.set(2, "'other'")),
            op!($t, "description", |x, i| RootBuilder::description(x, "desc"), |m| m.set(3, "'desc'")),
            op!($t, "owner", |x, i| x.owner_history(ty::<OwnerHistory>(70), i), |m| m.set(1, "#70")),
            op!(
                $t, "owner in place",
                |x, i| x.owner_history(OwnerHistory::new(ChangeAction::Added, time(5)), i),
                |m| { let r = m.inline("IFCOWNERHISTORY($,$,$,.ADDED.,$,$,$,5)"); m.set(1, &r) }
            ),
        ]);
        v
    }};
}
macro_rules! product {
    ($t:ty) => {{
        let mut v = root!($t);
        v.extend(texts!($t, 4, |x, v| x.object_type(v)));
        v.extend([
            op!($t, "object_type", |x, i| x.object_type("otype"), |m| m.set(4, "'otype'")),
            op!($t, "placement", |x, i| x.object_placement(ty::<LocalPlacement>(71), i), |m| m.set(5, "#71")),
            op!(
                $t, "placement in place",
                |x, i| { let p = LocalPlacement::new(ty::<Axis3D>(72), i); x.object_placement(p, i) },
                |m| { let r = m.inline("IFCLOCALPLACEMENT($,#72)"); m.set(5, &r) }
            ),
            op!($t, "shape", |x, i| x.representation(ty::<ProductDefinitionShape>(73), i), |m| m.set(6, "#73")),
            op!(
                $t, "shape in place",
                |x, i| x.representation(ProductDefinitionShape::new().name("pds"), i),
                |m| { let r = m.inline("IFCPRODUCTDEFINITIONSHAPE('pds',$,())"); m.set(6, &r) }
            ),
        ]);
        v
    }};
}
macro_rules! element {
    ($t:ty) => {{
        let mut v = product!($t);
        v.extend(texts!($t, 7, |x, v| x.tag(v)));
        v.push(op!($t, "tag", |x, i| x.tag("tag"), |m| m.set(7, "'tag'")));
        v
    }};
}
macro_rules! spatial {
    ($t:ty) => {{
        let mut v = product!($t);
        v.extend(texts!($t, 7, |x, v| x.long_name(v)));
        v.push(op!($t, "long_name", |x, i| x.long_name("long"), |m| m.set(7, "'long'")));
        v.push(op!($t, "composition", |x, i| x.composition_type(CompositionTypeEnum::Comples), |m| m.set(8, ".COMPLEX.")));
        v.push(op!($t, "composition 2", |x, i| x.composition_type(CompositionTypeEnum::Partial), |m| m.set(8, ".PARTIAL.")));
        v
    }};
}
macro_rules! etype {
    ($t:ty) => {{
        let mut v = root!($t);
        v.extend(texts!($t, 7, |x, v| x.tag(v)));
        v.extend(texts!($t, 8, |x, v| x.element_type(v)));
        v.push(op!($t, "tag", |x, i| x.tag("tag"), |m| m.set(7, "'tag'")));
        v.push(op!($t, "element_type", |x, i| x.element_type("etype"), |m| m.set(8, "'etype'")));
        v
    }};
}

/// a text of many characters, no two parts of it alike
fn wide(n: usize) -> &'static str {
    let mut s = String::new();
    let mut i = 0;
    while s.len() < n {
        s += &format!("{i} ");
        i += 1;
    }
    s.truncate(n - 1);
    kept(s + "z")
}
fn kept(s: String) -> &'static str {
    static K: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut k = K.lock().unwrap();
    if let Some(t) = k.get(s.as_str()) {
        return t;
    }
    let t: &'static str = s.leak();
    k.insert(t);
    t
}

fn time(s: i64) -> IfcTimestamp {
    let t = format!("IFCOWNERHISTORY($,$,$,.ADDED.,$,$,$,{s})");
    let f = format!("{}\nDATA;\n#1= {t};\nENDSEC;\n{}", crate::schema::HEADER, crate::schema::FOOTER);
    let ifc = load_ok(&f).expect("an owner history loads");
    ifc.data.get(ty::<OwnerHistory>(1)).creation_date.clone()
}

fn address() -> PostalAddress {
    let f = crate::schema::file_of(&[(1, "IFCPOSTALADDRESS($,$,$,$,('street'),$,$,$,$,$)".into())]);
    load_ok(&f).expect("an address loads").data.get(ty::<PostalAddress>(1)).clone()
}
fn telecom() -> TelecomAddress {
    let f = crate::schema::file_of(&[(1, "IFCTELECOMADDRESS($,$,$,('1'),$,$,$,$)".into())]);
    load_ok(&f).expect("an address loads").data.get(ty::<TelecomAddress>(1)).clone()
}
fn role() -> ActorRole {
    let f = crate::schema::file_of(&[(1, "IFCACTORROLE(.ARCHITECT.,$,'r')".into())]);
    load_ok(&f).expect("a role loads").data.get(ty::<ActorRole>(1)).clone()
}
const ADDRESS: &str = "IFCPOSTALADDRESS($,$,$,$,('street'),$,$,$,$,$)";
const TELECOM: &str = "IFCTELECOMADDRESS($,$,$,('1'),$,$,$,$)";
const ROLE: &str = "IFCACTORROLE(.ARCHITECT.,$,'r')";

pub fn c23(rep: &Report) -> &'static str {
    let depth = rep.pick(4, 5);
    rep.bound("setters_per_sequence", depth);
    rep.assume("setters of restricted references are given identifiers without checking that the object exists, as the interface allows");
    macro_rules! case {
        ($name:expr, |$i:ident| $make:expr, $init:expr, $base:expr, [$($ops:tt)*]) => {
            case!($name, |$i| $make, $init, $base, [$($ops)*], [])
        };
        ($name:expr, |$i:ident| $make:expr, $init:expr, $base:expr, [$($ops:tt)*], [$($more:expr),* $(,)?]) => {{
            let mut ops = $base;
            ops.extend(vec![$($ops)*]);
            $(ops.extend($more);)*
            ops.sort_by_key(|o| o.extra);
            let long = ops.iter().filter(|o| o.extra == 0).count();
            let some = ops.iter().filter(|o| o.extra < 2).count();
            all(rep, &Case {
                name: $name,
                make: |$i| { let _ = &$i; $make },
                init: |m| {
                    let init: &str = $init;
                    // objects the constructor is given in place follow ` & `
                    let mut parts = init.split(" & ");
                    m.args = split(parts.next().unwrap());
                    m.news = parts.map(|t| &*t.to_string().leak()).collect();
                },
                ops,
                long,
                some,
            }, depth);
        }};
    }
    const EL: &str = "'@GUID',$,'n',$,$,$,$,$";
    const SP: &str = "'@GUID',$,'n',$,$,$,$,$,$";
    const TY: &str = "'@GUID',$,'n',$,$,$,$,$,$";
    fn with(a: &str, b: &str) -> String {
        format!("{a},{b}")
    }

    case!("IFCWALL", |i| Wall::new("n"), &with(EL, "$"), element!(Wall), [
        op!(Wall, "type", |x, i| x.predefined_type(ty::<WallType>(80), i), |m| m.set(8, "#80")),
    ]);
    case!("IFCSLAB", |i| Slab::new("n"), &with(EL, "$"), element!(Slab), [
        op!(Slab, "type", |x, i| x.predefined_type(SlabTypeEnum::Roof), |m| m.set(8, ".ROOF.")),
        op!(Slab, "type 2", |x, i| x.predefined_type(SlabTypeEnum::Floor), |m| m.set(8, ".FLOOR.")),
    ]);
    case!("IFCROOF", |i| Roof::new("n"), &with(EL, "$"), element!(Roof), [
        op!(Roof, "type", |x, i| x.predefined_type(RoofTypeEnum::FlatRoof), |m| m.set(8, ".FLAT_ROOF.")),
        op!(Roof, "type 2", |x, i| x.predefined_type(RoofTypeEnum::HipRoof), |m| m.set(8, ".HIP_ROOF.")),
    ]);
    case!("IFCOPENINGELEMENT", |i| OpeningElement::new("n"), &with(EL, "$"), element!(OpeningElement), [
        op!(OpeningElement, "type", |x, i| x.predefined_type(OpeningElementTypeEnum::Opening), |m| m.set(8, ".OPENING.")),
        op!(OpeningElement, "type 2", |x, i| x.predefined_type(OpeningElementTypeEnum::Recess), |m| m.set(8, ".RECESS.")),
    ]);
    case!("IFCSHADINGDEVICE", |i| ShadingDevice::new("n"), &with(EL, "$"), element!(ShadingDevice), [
        op!(ShadingDevice, "type", |x, i| x.predefined_type(ShadingDeviceTypeEnum::Awning), |m| m.set(8, ".AWNING.")),
        op!(ShadingDevice, "type 2", |x, i| x.predefined_type(ShadingDeviceTypeEnum::Shutter), |m| m.set(8, ".SHUTTER.")),
    ]);
    case!("IFCWINDOW", |i| Window::new("n"), &with(EL, "$,$,$,$,$"), element!(Window), [
        op!(Window, "height", |x, i| x.overall_height(1.5), |m| m.set(8, "1.5")),
        op!(Window, "width", |x, i| x.overall_width(2.5), |m| m.set(9, "2.5")),
        op!(Window, "type", |x, i| x.predefined_type(WindowTypeEnum::Skylight), |m| m.set(10, ".SKYLIGHT.")),
        op!(Window, "partitioning", |x, i| x.partitioning_type(WindowPartitioningTypeEnum::SinglePanel), |m| m.set(11, ".SINGLE_PANEL.")),
    ], [
        reals!(Window, 8, |x, v| x.overall_height(v)),
        reals!(Window, 9, |x, v| x.overall_width(v)),
    ]);
    case!("IFCDOOR", |i| Door::new("n"), &with(EL, "$,$,$,$,$"), element!(Door), [
        op!(Door, "height", |x, i| x.overall_height(1.5), |m| m.set(8, "1.5")),
        op!(Door, "width", |x, i| x.overall_width(2.5), |m| m.set(9, "2.5")),
        op!(Door, "type", |x, i| x.predefined_type(DoorTypeEnum::Gate), |m| m.set(10, ".GATE.")),
        op!(Door, "operation", |x, i| x.operation_type(DoorOperationTypeEnum::SingleSwingLeft), |m| m.set(11, ".SINGLE_SWING_LEFT.")),
    ], [
        reals!(Door, 8, |x, v| x.overall_height(v)),
        reals!(Door, 9, |x, v| x.overall_width(v)),
    ]);
    case!("IFCSITE", |i| Site::new("n"), &with(SP, "$,$,$,$,$"), spatial!(Site), [
        op!(Site, "latitude", |x, i| x.ref_latitude(vec![1, 2, -3]), |m| m.set(9, "(1,2,-3)")),
        op!(Site, "longitude", |x, i| x.ref_longitude(vec![4, 5]), |m| m.set(10, "(4,5)")),
        op!(Site, "elevation", |x, i| x.ref_elevation(6.5), |m| m.set(11, "6.5")),
        op!(Site, "land title", |x, i| x.land_title_number("lt"), |m| m.set(12, "'lt'")),
        op!(Site, "address", |x, i| x.site_address(ty::<PostalAddress>(81), i), |m| m.set(13, "#81")),
        op!(Site, "address in place", |x, i| x.site_address(address(), i), |m| { let r = m.inline(ADDRESS); m.set(13, &r) }),
    ], [
        vals!(Site, 9, [(vec![], "()"), (vec![0], "(0)"), (vec![0, 0, 0], "(0,0,0)"), (vec![-52, 0, 0, 0], "(-52,0,0,0)"), (vec![1, 2, 3, 0], "(1,2,3,0)"), (vec![0, 1, 0, -999999], "(0,1,0,-999999)")], |x, v| x.ref_latitude(v)),
        vals!(Site, 10, [(vec![], "()"), (vec![0], "(0)"), (vec![0, 0, 0], "(0,0,0)"), (vec![-52, 0, 0, 0], "(-52,0,0,0)"), (vec![1, 2, 3, 0], "(1,2,3,0)"), (vec![0, 1, 0, -999999], "(0,1,0,-999999)")], |x, v| x.ref_longitude(v)),
        reals!(Site, 11, |x, v| x.ref_elevation(v)),
        texts!(Site, 12, |x, v| x.land_title_number(v)),
    ]);
    case!("IFCBUILDING", |i| Building::new("n"), &with(SP, "$,$,$"), spatial!(Building), [
        op!(Building, "ref height", |x, i| x.elevation_of_ref_height(1.5), |m| m.set(9, "1.5")),
        op!(Building, "terrain", |x, i| x.elevation_of_terrain(2.5), |m| m.set(10, "2.5")),
        op!(Building, "address", |x, i| x.building_address(ty::<PostalAddress>(81), i), |m| m.set(11, "#81")),
        op!(Building, "address in place", |x, i| x.building_address(address(), i), |m| { let r = m.inline(ADDRESS); m.set(11, &r) }),
    ], [
        reals!(Building, 9, |x, v| x.elevation_of_ref_height(v)),
        reals!(Building, 10, |x, v| x.elevation_of_terrain(v)),
    ]);
    case!("IFCBUILDINGSTOREY", |i| Storey::new("n"), &with(SP, "$"), spatial!(Storey), []);
    case!("IFCSPACE", |i| Space::new("n"), &with(SP, "$,$"), spatial!(Space), [
        op!(Space, "type", |x, i| x.predefined_type(SpaceTypeEnum::Internal), |m| m.set(9, ".INTERNAL.")),
        op!(Space, "flooring", |x, i| x.elevation_with_flooring(3.5), |m| m.set(10, "3.5")),
    ], [
        reals!(Space, 10, |x, v| x.elevation_with_flooring(v)),
    ]);
    case!("IFCWALLTYPE", |i| WallType::new("n", WallTypeEnum::Solidwall), &with(TY, ".SOLIDWALL."), etype!(WallType), []);
    case!("IFCSLABTYPE", |i| SlabType::new("n", SlabTypeEnum::Floor), &with(TY, ".FLOOR."), etype!(SlabType), []);
    case!("IFCROOFTYPE", |i| RoofType::new("n", RoofTypeEnum::HipRoof), &with(TY, ".HIP_ROOF."), etype!(RoofType), []);
    case!("IFCSHADINGDEVICETYPE", |i| ShadingDeviceType::new("n", ShadingDeviceTypeEnum::Shutter), &with(TY, ".SHUTTER."), etype!(ShadingDeviceType), []);
    case!("IFCSPACETYPE", |i| SpaceType::new("n", SpaceTypeEnum::External), &with(TY, ".EXTERNAL.,$"), etype!(SpaceType), []);
    case!("IFCWINDOWTYPE", |i| WindowType::new("n", WindowTypeEnum::Skylight, WindowPartitioningTypeEnum::SinglePanel),
        &with(TY, ".SKYLIGHT.,.SINGLE_PANEL.,$,$"), etype!(WindowType), []);
    case!("IFCDOORTYPE", |i| DoorType::new("n", DoorTypeEnum::Gate, DoorOperationTypeEnum::SingleSwingLeft),
        &with(TY, ".GATE.,.SINGLE_SWING_LEFT.,$,$"), etype!(DoorType), []);
    case!("IFCPROJECT", |i| Project::new("n"), "'@GUID',$,'n',$,$,$,$,(),$", root!(Project), [
        op!(Project, "object_type", |x, i| x.object_type("otype"), |m| m.set(4, "'otype'")),
        op!(Project, "long_name", |x, i| x.long_name("long"), |m| m.set(5, "'long'")),
        op!(Project, "phase", |x, i| x.phase("ph"), |m| m.set(6, "'ph'")),
        op!(Project, "context", |x, i| x.add_context(ty::<GeometricRepresentationContext>(82), i), |m| m.push(7, "#82")),
        op!(Project, "context in place",
            |x, i| { let c = GeometricRepresentationContext::new(DimensionCount::Two, ty::<Axis3D>(83), i); x.add_context(c, i) },
            |m| { let r = m.inline("IFCGEOMETRICREPRESENTATIONCONTEXT('Body','Model',2,$,#83,$)"); m.push(7, &r) }),
        op!(Project, "units", |x, i| x.unit_assignment(ty::<UnitAssigment>(84), i), |m| m.set(8, "#84")),
        op!(Project, "units in place", |x, i| { let u = UnitAssigment::new([], i); x.unit_assignment(u, i) },
            |m| { let r = m.inline("IFCUNITASSIGNMENT(())"); m.set(8, &r) }),
    ], [
        texts!(Project, 4, |x, v| x.object_type(v)),
        texts!(Project, 5, |x, v| x.long_name(v)),
        texts!(Project, 6, |x, v| x.phase(v)),
    ]);

    // people
    case!("IFCORGANIZATION", |i| Organization::new("id", "n", None), "'id','n',$,$,$", vec![], [
        op!(Organization, "role", |x, i| x.add_role(ty::<ActorRole>(85), i), |m| m.push(3, "#85")),
        op!(Organization, "role in place", |x, i| x.add_role(role(), i), |m| { let r = m.inline(ROLE); m.push(3, &r) }),
        op!(Organization, "postal", |x, i| x.add_address::<PostalAddress>(ty::<PostalAddress>(81), i), |m| m.push(4, "#81")),
        op!(Organization, "telecom", |x, i| x.add_address(telecom(), i), |m| { let r = m.inline(TELECOM); m.push(4, &r) }),
    ]);
    case!("IFCORGANIZATION", |i| Organization::new(None, "n", "d"), "$,'n','d',$,$", vec![], [
        op!(Organization, "postal", |x, i| x.add_address(address(), i), |m| { let r = m.inline(ADDRESS); m.push(4, &r) }),
    ]);
    case!("IFCPERSON", |i| Person::empty(), "$,$,$,$,$,$,$,$", vec![], [
        op!(Person, "id", |x, i| x.id("i"), |m| m.set(0, "'i'")),
        op!(Person, "family", |x, i| x.family_name("f"), |m| m.set(1, "'f'")),
        op!(Person, "given", |x, i| x.given_name("g"), |m| m.set(2, "'g'")),
        op!(Person, "middle", |x, i| x.add_middle_name("m"), |m| m.push(3, "'m'")),
        op!(Person, "middle 2", |x, i| x.add_middle_name("m2"), |m| m.push(3, "'m2'")),
        op!(Person, "prefix", |x, i| x.add_prefix_title("p"), |m| m.push(4, "'p'")),
        op!(Person, "prefix 2", |x, i| x.add_prefix_title("p2"), |m| m.push(4, "'p2'")),
        op!(Person, "suffix", |x, i| x.add_suffix_title("s"), |m| m.push(5, "'s'")),
        op!(Person, "suffix 2", |x, i| x.add_suffix_title("s2"), |m| m.push(5, "'s2'")),
        op!(Person, "role", |x, i| x.add_role(ty::<ActorRole>(85), i), |m| m.push(6, "#85")),
        op!(Person, "role in place", |x, i| x.add_role(role(), i), |m| { let r = m.inline(ROLE); m.push(6, &r) }),
        op!(Person, "postal", |x, i| x.add_address::<PostalAddress>(ty::<PostalAddress>(81), i), |m| m.push(7, "#81")),
        op!(Person, "telecom", |x, i| x.add_address(telecom(), i), |m| { let r = m.inline(TELECOM); m.push(7, &r) }),
    ], [
        texts!(Person, 0, |x, v| x.id(v)),
        texts!(Person, 1, |x, v| x.family_name(v)),
        texts!(Person, 2, |x, v| x.given_name(v)),
    ]);
    case!("IFCPERSONANDORGANIZATION", |i| PersonAndOrganization::new(ty(86), ty(87)), "#86,#87,$", vec![], [
        op!(PersonAndOrganization, "role", |x, i| x.add_role(ty::<ActorRole>(85), i), |m| m.push(2, "#85")),
        op!(PersonAndOrganization, "role in place", |x, i| x.add_role(role(), i), |m| { let r = m.inline(ROLE); m.push(2, &r) }),
    ]);
    case!("IFCAPPLICATION", |i| Application::new(ty(87), "v", "full", "ident"), "#87,'v','full','ident'", vec![], [
        op!(Application, "nothing", |x, i| x, |m| { let _ = m; }),
    ]);
    case!("IFCOWNERHISTORY", |i| OwnerHistory::new(ChangeAction::Deleted, time(77)), "$,$,$,.DELETED.,$,$,$,77", vec![], [
        op!(OwnerHistory, "user", |x, i| x.owning_user(ty::<PersonAndOrganization>(88), i), |m| { m.set(0, "#88"); m.set(5, "#88") }),
        op!(OwnerHistory, "user in place", |x, i| x.owning_user(PersonAndOrganization::new(ty(86), ty(87)), i),
            |m| { let r = m.inline("IFCPERSONANDORGANIZATION(#86,#87,$)"); m.set(0, &r); m.set(5, &r) }),
        op!(OwnerHistory, "application", |x, i| x.owning_application(ty::<Application>(89), i), |m| { m.set(1, "#89"); m.set(6, "#89") }),
        op!(OwnerHistory, "application in place", |x, i| x.owning_application(Application::new(ty(87), "v", "f", "i"), i),
            |m| { let r = m.inline("IFCAPPLICATION(#87,'v','f','i')"); m.set(1, &r); m.set(6, &r) }),
        op!(OwnerHistory, "state", |x, i| x.state(AccessState::Locked), |m| m.set(2, ".LOCKED.")),
        op!(OwnerHistory, "modified", |x, i| x.last_modified_date(time(78)), |m| m.set(4, "78")),
        op!(OwnerHistory, "modifying user", |x, i| x.last_modifying_user(ty::<PersonAndOrganization>(90), i), |m| m.set(5, "#90")),
        op!(OwnerHistory, "modifying application", |x, i| x.last_modifying_application(ty::<Application>(91), i), |m| m.set(6, "#91")),
    ]);

    // materials
    case!("IFCMATERIAL", |i| Material::new("n"), "'n',$,$", vec![], [
        op!(Material, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
        op!(Material, "category", |x, i| x.category("c"), |m| m.set(2, "'c'")),
        op!(Material, "category 2", |x, i| x.category("c2"), |m| m.set(2, "'c2'")),
    ], [
        texts!(Material, 1, |x, v| x.description(v)),
        texts!(Material, 2, |x, v| x.category(v)),
    ]);
    case!("IFCMATERIALLAYER", |i| MaterialLayer::new(0.25, true), "$,0.25,.TRUE.,$,$,$,$", vec![], [
        op!(MaterialLayer, "material", |x, i| x.material(ty::<Material>(92), i), |m| m.set(0, "#92")),
        op!(MaterialLayer, "material in place", |x, i| x.material(Material::new("im"), i), |m| { let r = m.inline("IFCMATERIAL('im',$,$)"); m.set(0, &r) }),
        op!(MaterialLayer, "name", |x, i| x.name("n"), |m| m.set(3, "'n'")),
        op!(MaterialLayer, "description", |x, i| x.description("d"), |m| m.set(4, "'d'")),
        op!(MaterialLayer, "category", |x, i| x.category("c"), |m| m.set(5, "'c'")),
        op!(MaterialLayer, "priority", |x, i| x.priority(7), |m| m.set(6, "7")),
    ], [
        texts!(MaterialLayer, 3, |x, v| x.name(v)),
        texts!(MaterialLayer, 4, |x, v| x.description(v)),
        texts!(MaterialLayer, 5, |x, v| x.category(v)),
        vals!(MaterialLayer, 6, [(0, "0"), (-1, "-1"), (i64::MAX, "9223372036854775807"), (i64::MIN, "-9223372036854775808")], |x, v| x.priority(v)),
    ]);
    case!("IFCMATERIALLAYER", |i| MaterialLayer::new(2., false), "$,2.,.FALSE.,$,$,$,$", vec![], [
        op!(MaterialLayer, "priority", |x, i| x.priority(-7), |m| m.set(6, "-7")),
    ]);
    case!("IFCMATERIALLAYERSET", |i| MaterialLayerSet::new(), "(),$,$", vec![], [
        op!(MaterialLayerSet, "name", |x, i| x.name("n"), |m| m.set(1, "'n'")),
        op!(MaterialLayerSet, "description", |x, i| x.description("d"), |m| m.set(2, "'d'")),
        op!(MaterialLayerSet, "layer", |x, i| x.add_layer(ty::<MaterialLayer>(93), i), |m| m.push(0, "#93")),
        op!(MaterialLayerSet, "layer 2", |x, i| x.add_layer(ty::<MaterialLayer>(94), i), |m| m.push(0, "#94")),
        op!(MaterialLayerSet, "layer in place", |x, i| x.add_layer(MaterialLayer::new(1., false), i),
            |m| { let r = m.inline("IFCMATERIALLAYER($,1.,.FALSE.,$,$,$,$)"); m.push(0, &r) }),
    ], [
        texts!(MaterialLayerSet, 1, |x, v| x.name(v)),
        texts!(MaterialLayerSet, 2, |x, v| x.description(v)),
    ]);
    case!("IFCMATERIALLAYERSETUSAGE",
        |i| MaterialLayerSetUsage::new(ty::<MaterialLayerSet>(95), LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Negative, -0.5, i),
        "#95,.AXIS2.,.NEGATIVE.,-0.5,$", vec![], [
        op!(MaterialLayerSetUsage, "extent", |x, i| x.reference_extent(2.5), |m| m.set(4, "2.5")),
        op!(MaterialLayerSetUsage, "extent 2", |x, i| x.reference_extent(3.5), |m| m.set(4, "3.5")),
    ], [
        reals!(MaterialLayerSetUsage, 4, |x, v| x.reference_extent(v)),
    ]);
    case!("IFCMATERIALLAYERSETUSAGE",
        |i| MaterialLayerSetUsage::new(MaterialLayerSet::new().name("in place"), LayerSetDirectionEnum::Axis3, DirectionSenseEnum::Positive, 0.5, i),
        "'@@0',.AXIS3.,.POSITIVE.,0.5,$ & IFCMATERIALLAYERSET((),'in place',$)",
        vec![op!(MaterialLayerSetUsage, "extent", |x, i| x.reference_extent(2.5), |m| m.set(4, "2.5"))], []);
    case!("IFCMATERIALCONSTITUENT", |i| MaterialConstituent::new(ty(96)), "$,$,#96,$,$", vec![], [
        op!(MaterialConstituent, "material", |x, i| x.material(ty::<Material>(92), i), |m| m.set(2, "#92")),
        op!(MaterialConstituent, "material in place", |x, i| x.material(Material::new("im"), i), |m| { let r = m.inline("IFCMATERIAL('im',$,$)"); m.set(2, &r) }),
        op!(MaterialConstituent, "name", |x, i| x.name("n"), |m| m.set(0, "'n'")),
        op!(MaterialConstituent, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
        op!(MaterialConstituent, "category", |x, i| x.category("c"), |m| m.set(4, "'c'")),
        op!(MaterialConstituent, "fraction", |x, i| x.fraction(0.75), |m| m.set(3, "0.75")),
    ], [
        texts!(MaterialConstituent, 0, |x, v| x.name(v)),
        texts!(MaterialConstituent, 1, |x, v| x.description(v)),
        texts!(MaterialConstituent, 4, |x, v| x.category(v)),
        reals!(MaterialConstituent, 3, |x, v| x.fraction(v)),
    ]);
    case!("IFCMATERIALCONSTITUENTSET", |i| MaterialConstituentSet::new(), "$,$,()", vec![], [
        op!(MaterialConstituentSet, "name", |x, i| x.name("n"), |m| m.set(0, "'n'")),
        op!(MaterialConstituentSet, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
        op!(MaterialConstituentSet, "constituent", |x, i| x.add_constituent(ty::<MaterialConstituent>(97), i), |m| m.push(2, "#97")),
        op!(MaterialConstituentSet, "constituent in place", |x, i| x.add_constituent(MaterialConstituent::new(ty(96)), i),
            |m| { let r = m.inline("IFCMATERIALCONSTITUENT($,$,#96,$,$)"); m.push(2, &r) }),
    ], [
        texts!(MaterialConstituentSet, 0, |x, v| x.name(v)),
        texts!(MaterialConstituentSet, 1, |x, v| x.description(v)),
    ]);

    // geometry
    case!("IFCLOCALPLACEMENT", |i| LocalPlacement::new(ty::<Axis2D>(60), i), "$,#60", vec![], [
        op!(LocalPlacement, "relative", |x, i| x.relative_to(ty::<LocalPlacement>(61), i), |m| m.set(0, "#61")),
        op!(LocalPlacement, "relative in place", |x, i| { let p = LocalPlacement::new(ty::<Axis3D>(62), i); x.relative_to(p, i) },
            |m| { let r = m.inline("IFCLOCALPLACEMENT($,#62)"); m.set(0, &r) }),
    ]);
    case!("IFCRECTANGLEPROFILEDEF", |i| RectangleProfileDef::new(ProfileType::Curve, 1.5, 2.5), ".CURVE.,$,$,1.5,2.5", vec![], [
        op!(RectangleProfileDef, "name", |x, i| x.profile_name("p"), |m| m.set(1, "'p'")),
        op!(RectangleProfileDef, "position", |x, i| x.position(ty::<Axis2D>(63), i), |m| m.set(2, "#63")),
        op!(RectangleProfileDef, "position 3d", |x, i| x.position(ty::<Axis3D>(64), i), |m| m.set(2, "#64")),
    ], [
        texts!(RectangleProfileDef, 1, |x, v| x.profile_name(v)),
    ]);
    case!("IFCARBITRARYCLOSEDPROFILEDEF", |i| ArbitraryClosedProfileDef::new(ProfileType::Area, ty::<PolyLine>(65), i), ".AREA.,$,#65", vec![], [
        op!(ArbitraryClosedProfileDef, "name", |x, i| x.profile_name("p"), |m| m.set(1, "'p'")),
    ], [
        texts!(ArbitraryClosedProfileDef, 1, |x, v| x.profile_name(v)),
    ]);
    case!("IFCEXTRUDEDAREASOLID", |i| ExtrudedAreaSolid::new(ty::<RectangleProfileDef>(66), ty::<Direction3D>(67), 4.5, i), "#66,$,#67,4.5", vec![], [
        op!(ExtrudedAreaSolid, "position", |x, i| x.position(ty::<Axis3D>(64), i), |m| m.set(1, "#64")),
        op!(ExtrudedAreaSolid, "position 2", |x, i| x.position(ty::<Axis3D>(68), i), |m| m.set(1, "#68")),
    ]);
    case!("IFCSHAPEREPRESENTATION", |i| ShapeRepresentation::new(ty::<GeometricRepresentationSubContext>(40), RepresentationIdentifier::Body, RepresentationType::SweptSolid, i),
        "#40,'Body','SweptSolid',()", vec![], [
        op!(ShapeRepresentation, "line", |x, i| x.add_item(PolyLine::from(std::iter::empty::<Point2D>(), &mut IFC::default()), i),
            |m| { let r = m.inline("IFCPOLYLINE(())"); m.push(3, &r) }),
        op!(ShapeRepresentation, "solid", |x, i| { let s = ExtrudedAreaSolid::new(ty::<RectangleProfileDef>(66), ty::<Direction3D>(67), 4.5, i); x.add_item(s, i) },
            |m| { let r = m.inline("IFCEXTRUDEDAREASOLID(#66,$,#67,4.5)"); m.push(3, &r) }),
        op!(ShapeRepresentation, "mapped", |x, i| { let s = MappedItem::new::<CartesianTransformationOperator3D>(ty::<RepresentationMap>(41), ty::<CartesianTransformationOperator3D>(42), i); x.add_item(s, i) },
            |m| { let r = m.inline("IFCMAPPEDITEM(#41,#42)"); m.push(3, &r) }),
    ]);
    case!("IFCPRODUCTDEFINITIONSHAPE", |i| ProductDefinitionShape::new(), "$,$,()", vec![], [
        op!(ProductDefinitionShape, "name", |x, i| x.name("n"), |m| m.set(0, "'n'")),
        op!(ProductDefinitionShape, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
        op!(ProductDefinitionShape, "shape", |x, i| x.add_representation(ty::<ShapeRepresentation>(43), i), |m| m.push(2, "#43")),
        op!(ProductDefinitionShape, "shape 2", |x, i| x.add_representation(ty::<ShapeRepresentation>(44), i), |m| m.push(2, "#44")),
        op!(ProductDefinitionShape, "shape in place", |x, i| { let s = ShapeRepresentation::new(ty::<GeometricRepresentationSubContext>(40), RepresentationIdentifier::Body, RepresentationType::SweptSolid, i); x.add_representation(s, i) },
            |m| { let r = m.inline("IFCSHAPEREPRESENTATION(#40,'Body','SweptSolid',())"); m.push(2, &r) }),
    ], [
        texts!(ProductDefinitionShape, 0, |x, v| x.name(v)),
        texts!(ProductDefinitionShape, 1, |x, v| x.description(v)),
    ]);
    case!("IFCGEOMETRICREPRESENTATIONCONTEXT", |i| GeometricRepresentationContext::new(DimensionCount::Three, ty::<Axis3D>(45), i),
        "'Body','Model',3,$,#45,$", vec![], [
        op!(GeometricRepresentationContext, "precision", |x, i| x.precision(0.5), |m| m.set(3, "0.5")),
        op!(GeometricRepresentationContext, "north", |x, i| x.true_north(ty::<Direction2D>(46), i), |m| m.set(5, "#46")),
        op!(GeometricRepresentationContext, "north 3d", |x, i| x.true_north(ty::<Direction3D>(47), i), |m| m.set(5, "#47")),
    ], [
        reals!(GeometricRepresentationContext, 3, |x, v| x.precision(v)),
    ]);
    case!("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", |i| GeometricRepresentationSubContext::derive(ty::<GeometricRepresentationContext>(48), GeometricProjection::PlanView, i),
        "'Body','Model',*,*,*,*,#48,$,.PLAN_VIEW.,$", vec![], [
        op!(GeometricRepresentationSubContext, "scale", |x, i| x.target_scale(0.5), |m| m.set(7, "0.5")),
        op!(GeometricRepresentationSubContext, "view", |x, i| x.user_defined_target_view("v"), |m| m.set(9, "'v'")),
    ], [
        reals!(GeometricRepresentationSubContext, 7, |x, v| x.target_scale(v)),
        texts!(GeometricRepresentationSubContext, 9, |x, v| x.user_defined_target_view(v)),
    ]);
    case!("IFCCARTESIANTRANSFORMATIONOPERATOR3D",
        |i| CartesianTransformationOperator3D::new(ty::<Point3D>(30), (ty::<Direction3D>(31), ty::<Direction3D>(32), ty::<Direction3D>(33)), 1.5, i),
        "#31,#32,#30,1.5,#33", vec![op!(CartesianTransformationOperator3D, "nothing", |x, i| x, |m| { let _ = m; })], []);
    case!("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM",
        |i| CartesianTransformationOperator3DnonUniform::new(ty::<Point3D>(30), (ty::<Direction3D>(31), ty::<Direction3D>(32), ty::<Direction3D>(33)), (1.5, 2.5, 3.5), i),
        "#31,#32,#30,1.5,#33,2.5,3.5", vec![op!(CartesianTransformationOperator3DnonUniform, "nothing", |x, i| x, |m| { let _ = m; })], []);
    case!("IFCMAPPEDITEM",
        |i| MappedItem::new::<CartesianTransformationOperator3DnonUniform>(ty::<RepresentationMap>(34), ty::<CartesianTransformationOperator3DnonUniform>(35), i),
        "#34,#35", vec![op!(MappedItem, "nothing", |x, i| x, |m| { let _ = m; })], []);
    case!("IFCREPRESENTATIONMAP", |i| RepresentationMap::new(ty::<Axis3D>(36), ty::<ShapeRepresentation>(37), i),
        "#36,#37", vec![op!(RepresentationMap, "nothing", |x, i| x, |m| { let _ = m; })], []);

    // relations
    const RR: &str = "'@GUID',$,'n',$";
    case!("IFCRELAGGREGATES", |i| RelAggregates::new("n", Id(20), [Id(21), Id(22)]), &with(RR, "#20,(#21,#22)"), root!(RelAggregates), []);
    case!("IFCRELASSOCIATESMATERIAL", |i| RelAssociatesMaterial::new("n", ty::<MaterialConstituentSet>(23), i), &with(RR, "(),#23"), root!(RelAssociatesMaterial), [
        op!(RelAssociatesMaterial, "wall", |x, i| x.relate_obj(ty::<Wall>(24), i), |m| m.push(4, "#24")),
        op!(RelAssociatesMaterial, "slab type", |x, i| x.relate_obj(ty::<SlabType>(25), i), |m| m.push(4, "#25")),
        op!(RelAssociatesMaterial, "roof", |mut_x, i| { let mut x = mut_x; x.relate_push(ty::<Roof>(26), i); x }, |m| m.push(4, "#26")),
    ]);
    case!("IFCRELCONTAINEDINSPATIALSTRUCTURE", |i| RelContainedInSpatialStructure::new("n", ty::<Storey>(27), i), &with(RR, "(),#27"), root!(RelContainedInSpatialStructure), [
        op!(RelContainedInSpatialStructure, "wall", |x, i| x.relate_structure(ty::<Wall>(24), i), |m| m.push(4, "#24")),
        op!(RelContainedInSpatialStructure, "slab", |x, i| x.relate_structure(ty::<Slab>(28), i), |m| m.push(4, "#28")),
    ]);
    case!("IFCRELDECLARES", |i| RelDeclares::new("n", ty::<Project>(20), i), &with(RR, "#20,()"), root!(RelDeclares), [
        op!(RelDeclares, "wall type", |x, i| x.relate_definition(ty::<WallType>(24), i), |m| m.push(5, "#24")),
        op!(RelDeclares, "slab type", |x, i| x.relate_definition(ty::<SlabType>(25), i), |m| m.push(5, "#25")),
    ]);
    case!("IFCRELDEFINESBYTYPE", |i| RelDefinesByType::new("n", ty::<WallType>(20), i), &with(RR, "(),#20"), root!(RelDefinesByType), [
        op!(RelDefinesByType, "wall", |x, i| x.relate_obj(ty::<Wall>(24), i), |m| m.push(4, "#24")),
        op!(RelDefinesByType, "wall 2", |x, i| x.relate_obj(ty::<Wall>(25), i), |m| m.push(4, "#25")),
    ]);
    case!("IFCRELDEFINESBYPROPERTIES", |i| RelDefinesByProperties::new("n", ty::<PropertySet>(20), i), &with(RR, "(),#20"), root!(RelDefinesByProperties), [
        op!(RelDefinesByProperties, "wall", |x, i| x.relate_obj(ty::<Wall>(24), i), |m| m.push(4, "#24")),
        op!(RelDefinesByProperties, "storey", |x, i| x.relate_obj(ty::<Storey>(25), i), |m| m.push(4, "#25")),
    ]);
    case!("IFCRELVOIDSELEMENT", |i| RelVoidsElement::new("n", ty::<Wall>(20), ty::<OpeningElement>(21), i), &with(RR, "#20,#21"), root!(RelVoidsElement), []);
    case!("IFCRELFILLSELEMENT", |i| RelFillsElement::new("n", ty::<OpeningElement>(20), ty::<Window>(21), i), &with(RR, "#20,#21"), root!(RelFillsElement), []);

    // properties and units
    case!("IFCPROPERTYSET", |i| PropertySet::new("n", [ty(50), ty(51)]), &with(RR, "(#50,#51)"), root!(PropertySet), []);
    case!("IFCPROPERTYSINGLEVALUE", |i| PropertySingleValue::new("n", IfcValue::Bool(BoolValue(true.into())), None), "'n',$,IFCBOOLEAN(.TRUE.),$", vec![], [
        op!(PropertySingleValue, "name", |x, i| x.name("n2"), |m| m.set(0, "'n2'")),
        op!(PropertySingleValue, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
    ], [
        texts!(PropertySingleValue, 0, |x, v| x.name(v)),
        texts!(PropertySingleValue, 1, |x, v| x.description(v)),
    ]);
    case!("IFCPROPERTYSINGLEVALUE", |i| PropertySingleValue::new("n", IfcValue::Real(2.5.into()), Some(Id(52))), "'n',$,IFCREAL(2.5),#52", vec![], [
        op!(PropertySingleValue, "description", |x, i| x.description("d"), |m| m.set(1, "'d'")),
    ]);
    case!("IFCUNITASSIGNMENT", |i| UnitAssigment::new([ty::<SiUnit>(53).into(), ty::<SiUnit>(54).into()], i), "(#53,#54)",
        vec![op!(UnitAssigment, "nothing", |x, i| x, |m| { let _ = m; })], []);
    case!("IFCSIUNIT", |i| SiUnit::new(IfcUnitEnum::LengthUnit, IfcPrefix::Milli, IfcUnitName::Metre), "*,.LENGTHUNIT.,.MILLI.,.METRE.",
        vec![op!(SiUnit, "nothing", |x, i| x, |m| { let _ = m; })], []);
    case!("IFCSIUNIT", |i| SiUnit::new(None, None, IfcUnitName::Radian), "*,$,$,.RADIAN.",
        vec![op!(SiUnit, "nothing", |x, i| x, |m| { let _ = m; })], []);
    "explicit-state enumeration of all setter sequences up to a length for every constructible kind, the written attributes compared with a model"
}

/// splits attributes at the top level commas
fn split(s: &str) -> Vec<String> {
    let (mut d, mut out, mut cur) = (0, vec![], String::new());
    for c in s.chars() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    out.push(cur);
    out
}
