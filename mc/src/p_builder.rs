//! C15-C19, C24: what a builder program writes, against a model derived from
//! the program alone. The output is read by the independent reader.
use crate::common::*;
use crate::explore::explore;
use crate::plan::{self, *};
use crate::report::{guard, Report};
use crate::schema::is_dummy;
use crate::step::{self, Ent, V};
use ifc_rs::prelude::{ApplicationInfo, IfcProjectBuilder, Organization, OwnerInfo, Person};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------- expected model

#[derive(Clone, Debug)]
enum Prof {
    Rect(f64, f64),
    /// either way round: (x, {y, depth})
    RectEither(f64),
    Poly(Vec<P3>),
}
#[derive(Clone, Debug)]
struct Solid {
    prof: Prof,
    dir: P3,
    depth: f64,
}
/// p -> t + m p, with the columns of m
#[derive(Clone, Copy, Debug)]
struct Aff {
    t: P3,
    m: [P3; 3],
}

#[derive(Clone, Debug)]
struct Obj {
    name: String,
    kw: &'static str,
    parent: String,
    p: P3,
    solid: Option<Solid>,
    axis: Option<P3>,
    /// effective local transformation
    aff: Vec<Aff>,
}

/// name, value, name of the property that is its unit
type PropV = (String, V, Option<String>);

#[derive(Default)]
struct Model {
    objs: Vec<Obj>,
    aggregates: Vec<(String, String)>,
    contained: Vec<(String, String)>,
    /// name, keyword, literals
    types: Vec<(String, &'static str, Vec<&'static str>)>,
    typed: Vec<(String, String)>,
    mats: Vec<(String, String)>,
    voids: Vec<(String, String)>,
    fills: Vec<(String, String)>,
    /// object, property set name
    props: Vec<(String, String)>,
    psets: Vec<(String, Vec<PropV>)>,
    layers: Vec<(f64, bool)>,
    sets: Vec<Vec<usize>>,
    usages: Vec<(usize, usize, usize, f64)>,
    csets: Vec<Vec<usize>>,
    storeys: usize,
    style: usize,
}

fn add(a: P3, b: P3) -> P3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn scale(a: P3, k: f64) -> P3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(a: P3) -> P3 {
    scale(a, 1. / (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt())
}
impl Aff {
    const ID: Aff = Aff { t: [0.; 3], m: [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] };
    fn of(t: &Tr) -> Aff {
        let m = match t.rot {
            0 => Aff::ID.m,
            1 => {
                let (s, c) = 1f64.sin_cos();
                [[c, s, 0.], [-s, c, 0.], [0., 0., 1.]]
            }
            2 => {
                let (s, c) = (-0.5f64).sin_cos();
                [[1., 0., 0.], [0., c, s], [0., -s, c]]
            }
            3 => AXES.map(unit),
            4 => [unit(MIRROR[0]), unit(MIRROR[1]), [0., 0., 1.]],
            k if k < 5 + ANGLES => {
                let u = unit(AXIS[(k - 5) / ANGLE.len()]);
                let (s, c) = ANGLE[(k - 5) % ANGLE.len()].sin_cos();
                // Rodrigues
                Aff::ID.m.map(|v| {
                    let dot = u[0] * v[0] + u[1] * v[1] + u[2] * v[2];
                    let cross = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
                    add(add(scale(v, c), scale(cross, s)), scale(u, dot * (1. - c)))
                })
            }
            k => {
                let a = axes2(k);
                [0, 1, 2].map(|i| a[i].map_or(Aff::ID.m[i], unit))
            }
        };
        Aff { t: t.t, m }
    }
    fn lin(&self, p: P3) -> P3 {
        add(add(scale(self.m[0], p[0]), scale(self.m[1], p[1])), scale(self.m[2], p[2]))
    }
    fn at(&self, p: P3) -> P3 {
        add(self.t, self.lin(p))
    }
    /// self after other
    fn after(&self, o: &Aff) -> Aff {
        Aff { t: self.at(o.t), m: o.m.map(|c| self.lin(c)) }
    }
    /// seen from a frame that is moved by `l`
    fn within(&self, l: P3) -> Aff {
        Aff { t: sub(self.at(l), l), m: self.m }
    }
}

fn z0(c: &[P2]) -> Vec<P3> {
    c.iter().map(|p| [p[0], p[1], 0.]).collect()
}
fn vv(v: &Val) -> V {
    match v {
        Val::Label(s) => V::Typed("IFCLABEL".into(), vec![V::Str(s.clone())]),
        Val::Ident(s) => V::Typed("IFCIDENTIFIER".into(), vec![V::Str(s.clone())]),
        Val::Real(x) => V::Typed("IFCREAL".into(), vec![V::Num(*x)]),
        Val::Thermal(x) => V::Typed("IFCTHERMALTRANSMITTANCEMEASURE".into(), vec![V::Num(*x)]),
        Val::Bool(b) => V::Typed("IFCBOOLEAN".into(), vec![V::Enum(if *b { ".T." } else { ".F." }.into())]),
    }
}
fn vals(v: &[Prop]) -> Vec<PropV> {
    v.iter().enumerate().map(|(i, p)| (p.name.clone(), vv(&p.val), p.unit.then(|| v[i - 1].name.clone()))).collect()
}

const Z: P3 = [0., 0., 1.];

fn kw(k: Kind) -> &'static str {
    match k {
        Kind::Wall => "IFCWALL",
        Kind::Slab => "IFCSLAB",
        Kind::Roof => "IFCROOF",
        Kind::Shading => "IFCSHADINGDEVICE",
        Kind::Space => "IFCSPACE",
        Kind::Window => "IFCWINDOW",
        Kind::Opening => "IFCOPENINGELEMENT",
    }
}
fn type_kw(k: Kind) -> &'static str {
    match k {
        Kind::Wall => "IFCWALLTYPE",
        Kind::Slab => "IFCSLABTYPE",
        Kind::Roof => "IFCROOFTYPE",
        Kind::Shading => "IFCSHADINGDEVICETYPE",
        Kind::Space => "IFCSPACETYPE",
        Kind::Window => "IFCWINDOWTYPE",
        Kind::Opening => unreachable!(),
    }
}

impl Model {
    fn new(plan: &Plan) -> Model {
        let mut m = Model { style: plan.style, ..Model::default() };
        let mut tn: BTreeMap<Kind, Vec<String>> = BTreeMap::new();
        let obj = |m: &mut Model, name: &str, kw, parent: &str, p, solid, axis| {
            m.objs.push(Obj { name: name.into(), kw, parent: parent.into(), p, solid, axis, aff: vec![] });
        };
        for s in &plan.sites {
            obj(&mut m, &s.name, "IFCSITE", "", s.p, None, None);
            m.aggregates.push((plan.project.clone(), s.name.clone()));
            for b in &s.buildings {
                obj(&mut m, &b.name, "IFCBUILDING", &s.name, b.p, None, None);
                m.aggregates.push((s.name.clone(), b.name.clone()));
                for st in &b.storeys {
                    m.storeys += 1;
                    obj(&mut m, &st.name, "IFCBUILDINGSTOREY", &b.name, [0., 0., st.elev], None, None);
                    m.aggregates.push((b.name.clone(), st.name.clone()));
                    m.props.push((st.name.clone(), "StoreyProperties".into()));
                    m.psets.push((
                        "StoreyProperties".into(),
                        vec![("Storey Height".into(), V::Typed("IFCREAL".into(), vec![V::Num(st.elev)]), None)],
                    ));
                    for op in &st.ops {
                        match op {
                            Op::LayerSet { new, list } => {
                                m.layers.extend(new);
                                m.sets.push(list.clone());
                            }
                            Op::Usage { set, dir, sense, off } => m.usages.push((*set, *dir, *sense, *off)),
                            Op::ConstSet { list, .. } => m.csets.push(list.clone()),
                            Op::Type { kind, set, variant, part, name } => {
                                let mut l = vec![literal(*kind, *variant)];
                                if *kind == Kind::Window {
                                    l.push(PART[*part].1);
                                }
                                m.types.push((name.clone(), type_kw(*kind), l));
                                tn.entry(*kind).or_default().push(name.clone());
                                if !matches!(kind, Kind::Window | Kind::Space) {
                                    m.mats.push((format!("set {set}"), name.clone()));
                                }
                            }
                            Op::Props { name, vals: v, to } => {
                                m.psets.push((name.clone(), vals(v)));
                                for t in to {
                                    m.props.push((t.clone(), name.clone()));
                                }
                            }
                            Op::Transform { target, tr } => {
                                let o = m.objs.iter_mut().find(|o| o.name == *target).unwrap();
                                o.aff.push(Aff::of(tr));
                            }
                            Op::Elem { shape, name, usage, typ, p, subs } => {
                                m.elem(&tn, &st.name, shape, name, *usage, *typ, *p, subs)
                            }
                        }
                    }
                }
            }
        }
        m
    }

    #[allow(clippy::too_many_arguments)]
    fn elem(
        &mut self,
        tn: &BTreeMap<Kind, Vec<String>>,
        storey: &str,
        shape: &Shape,
        name: &str,
        usage: usize,
        typ: usize,
        p: P3,
        subs: &[Sub],
    ) {
        let kind = shape.kind();
        let thick: f64 =
            if kind == Kind::Space { 0. } else { self.sets[self.usages[usage].0].iter().map(|l| self.layers[*l].0).sum() };
        let (solid, axis) = match shape {
            Shape::VWall { h, l } => {
                (Solid { prof: Prof::Rect(*l, thick), dir: Z, depth: *h }, Some([1., 0., 0.]))
            }
            Shape::VArbWall { c } => (
                Solid {
                    prof: Prof::Poly(c.iter().map(|p| [p[0], 0., p[1]]).collect()),
                    dir: [0., 1., 0.],
                    depth: thick,
                },
                Some([1., 0., 0.]),
            ),
            Shape::ArbWall { c, d } => (
                Solid { prof: Prof::Poly(c.clone()), dir: unit(*d), depth: thick },
                // a vertical direction leaves none, and the x axis is taken
                Some(if cross(*d, Z) == [0.; 3] { [1., 0., 0.] } else { unit(cross(*d, Z)) }),
            ),
            Shape::HSlab { c } | Shape::HRoof { c } => (Solid { prof: Prof::Poly(z0(c)), dir: Z, depth: thick }, None),
            Shape::VSlab { s, e, h } => {
                let d = cross([s[0] - e[0], s[1] - e[1], 0.], Z);
                let c = vec![[s[0], s[1], *h], [s[0], s[1], 0.], [e[0], e[1], 0.], [e[0], e[1], *h]];
                (Solid { prof: Prof::Poly(c), dir: unit(d), depth: thick }, None)
            }
            Shape::ArbSlab { c, d } => (Solid { prof: Prof::Poly(c.clone()), dir: unit(*d), depth: thick }, None),
            // which of height and thickness is extruded is not claimed
            Shape::Shading { h, l: _ } => (Solid { prof: Prof::RectEither(thick), dir: Z, depth: *h }, None),
            Shape::Space { c, h } => (Solid { prof: Prof::Poly(z0(c)), dir: Z, depth: *h }, None),
        };
        let edir = solid.dir;
        let solid = match (shape, solid) {
            (Shape::Shading { l, .. }, s) => Solid { prof: s.prof, dir: [*l, 0., 0.], depth: s.depth },
            (_, s) => s,
        };
        let first = self.objs.len();
        self.objs.push(Obj { name: name.into(), kw: kw(kind), parent: storey.into(), p, solid: Some(solid), axis, aff: vec![] });
        if kind == Kind::Space {
            self.aggregates.push((storey.into(), name.into()));
        } else {
            self.contained.push((storey.into(), name.into()));
            self.mats.push((format!("usage {usage}"), name.into()));
        }
        self.typed.push((tn[&kind][typ].clone(), name.into()));

        let mut last: Option<Aff> = None;
        let opening = |m: &mut Model, n: &str, p: P3, prof: Prof, dir: P3, depth: f64| {
            m.objs.push(Obj {
                name: n.into(),
                kw: "IFCOPENINGELEMENT",
                parent: name.into(),
                p,
                solid: Some(Solid { prof, dir, depth }),
                axis: None,
                aff: vec![],
            });
            m.voids.push((name.into(), n.into()));
        };
        let window = |m: &mut Model, n: &str, p: P3, prof: Prof, dirs: (P3, P3), depth: f64, w: &Win| {
            let on = format!("OpeningElementOfWindow{n}");
            opening(m, &on, p, prof.clone(), dirs.0, depth);
            m.objs.push(Obj {
                name: n.into(),
                kw: "IFCWINDOW",
                parent: on.clone(),
                p: [0.; 3],
                solid: Some(Solid { prof, dir: dirs.1, depth }),
                axis: None,
                aff: vec![],
            });
            m.fills.push((on, n.into()));
            m.contained.push((storey.into(), n.into()));
            m.mats.push((format!("const {}", w.cset), n.into()));
            m.typed.push((tn[&Kind::Window][w.wtype].clone(), n.into()));
        };
        for s in subs {
            match s {
                Sub::WOpen { name: n, h, l, p, d } => {
                    opening(self, n, *p, Prof::Rect(*l, thick), d.map(unit).unwrap_or(Z), *h)
                }
                Sub::WWin { name: n, h, w, p, d, win } => {
                    window(self, n, *p, Prof::Rect(*w, thick), (Z, unit(*d)), *h, win)
                }
                Sub::SOpen { name: n, h, l, p } => opening(self, n, *p, Prof::Rect(*l, *h), edir, thick),
                Sub::SOpenH { name: n, c } => opening(self, n, [0.; 3], Prof::Poly(z0(c)), Z, thick),
                Sub::SOpen3 { name: n, c } => opening(self, n, [0.; 3], Prof::Poly(c.clone()), edir, thick),
                Sub::SWin { name: n, h, w, p, win } => {
                    window(self, n, *p, Prof::Rect(*w, *h), (edir, edir), thick, win)
                }
                Sub::SWinH { name: n, c, win } => window(self, n, [0.; 3], Prof::Poly(z0(c)), (Z, Z), thick, win),
                Sub::SWin3 { name: n, c, win } => {
                    window(self, n, [0.; 3], Prof::Poly(c.clone()), (edir, edir), thick, win)
                }
                Sub::Props { name: n, vals: v } => {
                    self.psets.push((n.clone(), vals(v)));
                    self.props.push((name.into(), n.clone()));
                }
                Sub::Transform(t) => last = Some(Aff::of(t)),
            }
        }
        if let Some(a) = last {
            for i in first..self.objs.len() {
                let within = match self.objs[i].kw {
                    "IFCOPENINGELEMENT" => self.objs[i].p,
                    "IFCWINDOW" => {
                        let par = &self.objs[i].parent;
                        self.objs[first..].iter().find(|o| o.name == *par).unwrap().p
                    }
                    _ => [0.; 3],
                };
                self.objs[i].aff.push(a.within(within));
            }
        }
    }
}

// ------------------------------------------------------------------ the output

struct Out {
    by: BTreeMap<u64, Ent>,
    order: Vec<u64>,
    header: Vec<Ent>,
}
type R<T> = Result<T, String>;

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-11 * a.abs().max(b.abs()).max(1.)
}
/// numbers that are written as they were given
fn raw(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-13 * a.abs().max(b.abs())
}
fn raw3(a: P3, b: P3) -> bool {
    (0..3).all(|i| raw(a[i], b[i]))
}
fn num(x: f64) -> String {
    if x == 0. { "0".into() } else { format!("{x:.12e}") }
}
fn close3(a: P3, b: P3) -> bool {
    (0..3).all(|i| close(a[i], b[i]))
}

impl Out {
    fn read(text: &str) -> R<Out> {
        let f = step::file(text).map_err(|e| format!("the output is not well formed: {e}"))?;
        let mut by = BTreeMap::new();
        let mut order = vec![];
        for (id, e, _) in f.data {
            if by.insert(id, e).is_some() {
                return Err(format!("#{id} is written twice"));
            }
            order.push(id);
        }
        Ok(Out { by, order, header: f.header })
    }
    fn all<'a>(&'a self, kw: &'a str) -> impl Iterator<Item = (u64, &'a Ent)> + 'a {
        self.order.iter().map(|i| (*i, &self.by[i])).filter(move |(_, e)| e.name == kw)
    }
    fn get(&self, v: &V, what: &str) -> R<(u64, &Ent)> {
        match v {
            V::Ref(i) => self.by.get(i).map(|e| (*i, e)).ok_or_else(|| format!("{what}: #{i} is not defined")),
            v => Err(format!("{what} is {v}, not a reference")),
        }
    }
    fn get_kw(&self, v: &V, kw: &str, what: &str) -> R<(u64, &Ent)> {
        let (i, e) = self.get(v, what)?;
        if e.name == kw { Ok((i, e)) } else { Err(format!("{what} is {e}, not {kw}")) }
    }
    fn named<'a>(&'a self, kw: &'a str, name: &str) -> R<(u64, &'a Ent)> {
        let v: Vec<_> = self.all(kw).filter(|(_, e)| e.args.get(2) == Some(&V::Str(name.into()))).collect();
        match v.len() {
            1 => Ok(v[0]),
            n => Err(format!("{n} objects {kw} named '{name}' instead of one")),
        }
    }
    fn name_of(&self, v: &V) -> R<String> {
        let (i, e) = self.get(v, "related object")?;
        match e.args.get(2) {
            Some(V::Str(s)) => Ok(s.clone()),
            _ => Err(format!("related object #{i} {e} has no name")),
        }
    }
    fn list<'a>(&self, v: &'a V, what: &str) -> R<&'a [V]> {
        match v {
            V::List(l) => Ok(l),
            v => Err(format!("{what} is {v}, not a list")),
        }
    }
    fn nums(&self, v: &V, what: &str) -> R<Vec<f64>> {
        self.list(v, what)?
            .iter()
            .map(|x| match x {
                V::Num(n) => Ok(*n),
                x => Err(format!("{what} holds {x}")),
            })
            .collect()
    }
    fn vec3(&self, v: &V, what: &str) -> R<P3> {
        let n = self.nums(v, what)?;
        match n.len() {
            2 => Ok([n[0], n[1], 0.]),
            3 => Ok([n[0], n[1], n[2]]),
            _ => Err(format!("{what} has {} coordinates", n.len())),
        }
    }
    fn point(&self, v: &V, what: &str) -> R<P3> {
        let (_, e) = self.get_kw(v, "IFCCARTESIANPOINT", what)?;
        self.vec3(&e.args[0], what)
    }
    fn direction(&self, v: &V, what: &str) -> R<P3> {
        let (_, e) = self.get_kw(v, "IFCDIRECTION", what)?;
        self.vec3(&e.args[0], what)
    }
    /// the location of an axis placement that is not turned
    fn axis(&self, v: &V, what: &str) -> R<P3> {
        let (_, e) = self.get(v, what)?;
        let l = self.point(&e.args[0], what)?;
        match e.name.as_str() {
            "IFCAXIS2PLACEMENT3D" => {
                if e.args[1] != V::Omit && !close3(self.direction(&e.args[1], what)?, Z)
                    || e.args[2] != V::Omit && !close3(self.direction(&e.args[2], what)?, [1., 0., 0.])
                {
                    return Err(format!("{what} is turned: {e}"));
                }
            }
            "IFCAXIS2PLACEMENT2D" => {
                if e.args[1] != V::Omit && !close3(self.direction(&e.args[1], what)?, [1., 0., 0.]) {
                    return Err(format!("{what} is turned: {e}"));
                }
            }
            _ => return Err(format!("{what} is {e}")),
        }
        Ok(l)
    }
}

fn same<T: Ord + Clone + std::fmt::Debug>(what: &str, mut want: Vec<T>, mut got: Vec<T>) -> R<()> {
    want.sort();
    got.sort();
    if want == got {
        return Ok(());
    }
    // report the difference
    let (mut missing, mut extra) = (vec![], got.clone());
    for w in &want {
        match extra.iter().position(|g| g == w) {
            Some(i) => {
                extra.remove(i);
            }
            None => missing.push(w.clone()),
        }
    }
    Err(format!("{what}: missing {missing:?}, not expected {extra:?}"))
}

// ----------------------------------------------------------------- the oracles

/// relation pairs (relating name, related name) of all relations of a kind
fn pairs(o: &Out, rel: &str, relating: usize, related: usize) -> R<Vec<(String, String)>> {
    let mut v = vec![];
    for (i, e) in o.all(rel) {
        if e.args.len() <= relating.max(related) {
            return Err(format!("#{i} {e} has too few attributes"));
        }
        let one;
        let l: &[V] = match &e.args[related] {
            V::List(l) => l,
            x => {
                one = [x.clone()];
                &one
            }
        };
        for r in l {
            v.push((o.name_of(&e.args[relating])?, o.name_of(r)?));
        }
    }
    Ok(v)
}

fn hierarchy(m: &Model, p: &Plan, o: &Out) -> R<()> {
    // every object once, of its kind, and no others
    let mut kinds: BTreeSet<&str> =
        ["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCPROJECT", "IFCDOOR"].into_iter().collect();
    for k in [Kind::Wall, Kind::Slab, Kind::Roof, Kind::Shading, Kind::Space, Kind::Window, Kind::Opening] {
        kinds.insert(kw(k));
    }
    let mut want: Vec<(String, String)> = m.objs.iter().map(|x| (x.kw.to_string(), x.name.clone())).collect();
    want.push(("IFCPROJECT".into(), p.project.clone()));
    let mut got = vec![];
    for k in kinds {
        for (i, e) in o.all(k) {
            match e.args.get(2) {
                Some(V::Str(s)) => got.push((k.to_string(), s.clone())),
                _ => return Err(format!("#{i} {e} has no name")),
            }
        }
    }
    same("objects", want, got)?;
    same("objects decomposed (IFCRELAGGREGATES)", m.aggregates.clone(), pairs(o, "IFCRELAGGREGATES", 4, 5)?)?;
    same(
        "elements contained (IFCRELCONTAINEDINSPATIALSTRUCTURE)",
        m.contained.clone(),
        pairs(o, "IFCRELCONTAINEDINSPATIALSTRUCTURE", 5, 4)?,
    )?;
    same("openings (IFCRELVOIDSELEMENT)", m.voids.clone(), pairs(o, "IFCRELVOIDSELEMENT", 4, 5)?)?;
    same("fillings (IFCRELFILLSELEMENT)", m.fills.clone(), pairs(o, "IFCRELFILLSELEMENT", 4, 5)?)
}

fn relations(m: &Model, o: &Out) -> R<()> {
    same("objects of types (IFCRELDEFINESBYTYPE)", m.typed.clone(), pairs(o, "IFCRELDEFINESBYTYPE", 5, 4)?)?;
    same("openings (IFCRELVOIDSELEMENT)", m.voids.clone(), pairs(o, "IFCRELVOIDSELEMENT", 4, 5)?)?;
    same("fillings (IFCRELFILLSELEMENT)", m.fills.clone(), pairs(o, "IFCRELFILLSELEMENT", 4, 5)?)?;
    // types
    let mut got = vec![];
    for k in [Kind::Wall, Kind::Slab, Kind::Roof, Kind::Shading, Kind::Space, Kind::Window] {
        for (i, e) in o.all(type_kw(k)) {
            let V::Str(n) = &e.args[2] else { return Err(format!("#{i} {e} has no name")) };
            let lits = if k == Kind::Window { &e.args[9..11] } else { &e.args[9..10] };
            got.push((n.clone(), type_kw(k).to_string(), lits.iter().map(|v| v.to_string()).collect::<Vec<_>>()));
        }
    }
    let want = m
        .types
        .iter()
        .map(|(n, k, l)| (n.clone(), k.to_string(), l.iter().map(|s| s.to_string()).collect::<Vec<_>>()))
        .collect();
    same("types", want, got)?;
    Ok(())
}

fn text(v: &V) -> R<String> {
    match v {
        V::Str(s) => Ok(s.clone()),
        v => Err(format!("{v} where a text was expected")),
    }
}

/// describes a layer set by its layers
fn layers_of(o: &Out, v: &V) -> R<String> {
    let (_, e) = o.get_kw(v, "IFCMATERIALLAYERSET", "layer set")?;
    let mut s = vec![];
    for l in o.list(&e.args[0], "layers")? {
        let (_, l) = o.get_kw(l, "IFCMATERIALLAYER", "layer")?;
        let (_, mat) = o.get_kw(&l.args[0], "IFCMATERIAL", "material of a layer")?;
        let V::Num(t) = l.args[1] else { return Err(format!("thickness of {l}")) };
        let vent = match &l.args[2] {
            V::Enum(e) if e == ".T." || e == ".TRUE." => true,
            V::Enum(e) if e == ".F." || e == ".FALSE." => false,
            _ => return Err(format!("ventilation of {l}")),
        };
        s.push(format!("{} of {} {} {vent}", text(&l.args[3])?, text(&mat.args[0])?, num(t)));
    }
    Ok(s.join(" | "))
}
fn want_layers(m: &Model, k: usize) -> String {
    m.sets[k]
        .iter()
        .map(|j| (j, m.layers[*j]))
        .map(|(j, (t, v))| format!("{} of {} {} {v}", plan::part(m.style, "layer", *j), plan::part(m.style, "mat", *j), num(t)))
        .collect::<Vec<_>>()
        .join(" | ")
}
fn want_mat(m: &Model, key: &str) -> String {
    let (k, n) = key.split_once(' ').unwrap();
    let n: usize = n.parse().unwrap();
    match k {
        "set" => format!("set [{}]", want_layers(m, n)),
        "usage" => {
            let (s, d, se, off) = m.usages[n];
            format!("usage {} {} {} [{}]", DIR[d].1, SENSE[se].1, num(off), want_layers(m, s))
        }
        _ => {
            let c: Vec<String> = m.csets[n]
                .iter()
                .map(|j| format!("{} of {}", plan::part(m.style, "const", *j), plan::part(m.style, "cmat", *j)))
                .collect();
            format!("const [{}]", c.join(" | "))
        }
    }
}

fn materials(m: &Model, o: &Out) -> R<()> {
    let describe = |v: &V| -> R<String> {
        let (i, e) = o.get(v, "material")?;
        match e.name.as_str() {
            "IFCMATERIALLAYERSET" => Ok(format!("set [{}]", layers_of(o, v)?)),
            "IFCMATERIALLAYERSETUSAGE" => {
                let V::Num(off) = e.args[3] else { return Err(format!("offset of {e}")) };
                Ok(format!("usage {} {} {} [{}]", e.args[1], e.args[2], num(off), layers_of(o, &e.args[0])?))
            }
            "IFCMATERIALCONSTITUENTSET" => {
                let mut c = vec![];
                for x in o.list(&e.args[2], "constituents")? {
                    let (_, x) = o.get_kw(x, "IFCMATERIALCONSTITUENT", "constituent")?;
                    let (_, mat) = o.get_kw(&x.args[2], "IFCMATERIAL", "material of a constituent")?;
                    c.push(format!("{} of {}", text(&x.args[0])?, text(&mat.args[0])?));
                }
                Ok(format!("const [{}]", c.join(" | ")))
            }
            _ => Err(format!("#{i} {e} is not a material")),
        }
    };
    let mut got = vec![];
    for (_, e) in o.all("IFCRELASSOCIATESMATERIAL") {
        let d = describe(&e.args[5])?;
        for r in o.list(&e.args[4], "objects of a material")? {
            got.push((d.clone(), o.name_of(r)?));
        }
    }
    let want = m.mats.iter().map(|(k, n)| (want_mat(m, k), n.clone())).collect();
    same("materials (IFCRELASSOCIATESMATERIAL)", want, got)?;
    // every set, usage and constituent set once
    let mut want: Vec<String> = (0..m.sets.len()).map(|k| want_mat(m, &format!("set {k}"))).collect();
    want.extend((0..m.usages.len()).map(|k| want_mat(m, &format!("usage {k}"))));
    want.extend((0..m.csets.len()).map(|k| want_mat(m, &format!("const {k}"))));
    let mut got = vec![];
    for k in ["IFCMATERIALLAYERSET", "IFCMATERIALLAYERSETUSAGE", "IFCMATERIALCONSTITUENTSET"] {
        for (i, _) in o.all(k) {
            got.push(describe(&V::Ref(i))?);
        }
    }
    same("material sets", want, got)
}

/// representations of an object that are its own: (identifier, mappings outermost first, items)
struct Rep<'a> {
    ident: String,
    maps: Vec<Aff>,
    kind: String,
    items: Vec<(u64, &'a Ent)>,
}

fn reps<'a>(o: &'a Out, e: &Ent) -> R<Vec<Rep<'a>>> {
    let (_, pds) = o.get_kw(&e.args[6], "IFCPRODUCTDEFINITIONSHAPE", "representation")?;
    let mut out = vec![];
    for r in o.list(&pds.args[2], "representations")? {
        let mut cur = o.get_kw(r, "IFCSHAPEREPRESENTATION", "representation")?;
        let ident = text(&cur.1.args[1])?;
        let mut maps = vec![];
        loop {
            let e = cur.1;
            let (_, ctx) = o.get(&e.args[0], "context of a representation")?;
            if ctx.name != "IFCGEOMETRICREPRESENTATIONSUBCONTEXT" && ctx.name != "IFCGEOMETRICREPRESENTATIONCONTEXT" {
                return Err(format!("context of {e} is {ctx}"));
            }
            if text(&e.args[1])? != ident {
                return Err(format!("a representation '{}' is mapped as '{ident}'", text(&e.args[1])?));
            }
            let kind = text(&e.args[2])?;
            let items: Vec<(u64, &Ent)> =
                o.list(&e.args[3], "items")?.iter().map(|x| o.get(x, "item")).collect::<R<_>>()?;
            if kind != "MappedRepresentation" {
                out.push(Rep { ident, maps, kind, items });
                break;
            }
            if items.len() != 1 || items[0].1.name != "IFCMAPPEDITEM" {
                return Err(format!("items of the mapped representation {e}"));
            }
            let it = items[0].1;
            let (_, map) = o.get_kw(&it.args[0], "IFCREPRESENTATIONMAP", "mapping source")?;
            let origin = o.axis(&map.args[0], "mapping origin")?;
            let (_, t) = o.get(&it.args[1], "mapping target")?;
            if t.name != "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM" {
                return Err(format!("mapping target {t}"));
            }
            for k in [3, 5, 6] {
                if !matches!(t.args[k], V::Omit) && t.args[k] != V::Num(1.) {
                    return Err(format!("the mapping scales: {t}"));
                }
            }
            let a = Aff {
                t: o.point(&t.args[2], "translation")?,
                m: [
                    o.direction(&t.args[0], "first axis")?,
                    o.direction(&t.args[1], "second axis")?,
                    o.direction(&t.args[4], "third axis")?,
                ],
            };
            maps.push(a.after(&Aff { t: origin, m: Aff::ID.m }));
            cur = o.get_kw(&map.args[1], "IFCSHAPEREPRESENTATION", "mapped representation")?;
        }
    }
    Ok(out)
}

fn solid_is(o: &Out, want: &Solid, e: &Ent) -> R<()> {
    if e.name != "IFCEXTRUDEDAREASOLID" {
        return Err(format!("body is {e}"));
    }
    if e.args[1] != V::Omit {
        let at = o.axis(&e.args[1], "position of the solid")?;
        if !close3(at, [0.; 3]) {
            return Err(format!("the solid is moved by {at:?}"));
        }
    }
    let (_, prof) = o.get(&e.args[0], "profile")?;
    if prof.args[0] != V::Enum(".AREA.".into()) {
        return Err(format!("profile {prof} is not an area"));
    }
    let dir = o.direction(&e.args[2], "direction")?;
    let V::Num(depth) = e.args[3] else { return Err(format!("depth of {e}")) };
    let want_dir = if matches!(want.prof, Prof::RectEither(_)) { Z } else { want.dir };
    if !close3(dir, want_dir) {
        return Err(format!("extruded along {dir:?} instead of {want_dir:?}"));
    }
    match &want.prof {
        Prof::Rect(..) | Prof::RectEither(_) => {
            if prof.name != "IFCRECTANGLEPROFILEDEF" {
                return Err(format!("profile is {prof}"));
            }
            let (V::Num(x), V::Num(y)) = (&prof.args[3], &prof.args[4]) else { return Err(format!("size of {prof}")) };
            let at = if prof.args[2] == V::Omit { [0.; 3] } else { o.axis(&prof.args[2], "position of the profile")? };
            let ok = match &want.prof {
                Prof::Rect(a, b) => raw(*x, *a) && raw(*y, *b) && raw(depth, want.depth),
                Prof::RectEither(b) => {
                    // the length is carried in `dir` for this form
                    raw(*x, want.dir[0])
                        && (raw(*y, *b) && raw(depth, want.depth) || raw(*y, want.depth) && raw(depth, *b))
                }
                _ => unreachable!(),
            };
            if !ok {
                return Err(format!("rectangle {x} x {y} extruded by {depth} instead of {want:?}"));
            }
            if !raw3(at, [x / 2., y / 2., 0.]) {
                return Err(format!("centre of the rectangle {x} x {y} is {at:?}"));
            }
        }
        Prof::Poly(c) => {
            if prof.name != "IFCARBITRARYCLOSEDPROFILEDEF" {
                return Err(format!("profile is {prof}"));
            }
            let (_, curve) = o.get_kw(&prof.args[2], "IFCINDEXEDPOLYCURVE", "outline")?;
            let (_, pl) = o.get(&curve.args[0], "points")?;
            if pl.name != "IFCCARTESIANPOINTLIST2D" && pl.name != "IFCCARTESIANPOINTLIST3D" {
                return Err(format!("points are {pl}"));
            }
            let got: Vec<P3> =
                o.list(&pl.args[0], "points")?.iter().map(|p| o.vec3(p, "point")).collect::<R<_>>()?;
            if got.len() != c.len() || !got.iter().zip(c).all(|(a, b)| raw3(*a, *b)) {
                return Err(format!("outline {got:?} instead of {c:?}"));
            }
            if !raw(depth, want.depth) {
                return Err(format!("extruded by {depth} instead of {}", want.depth));
            }
        }
    }
    Ok(())
}

fn geometry(m: &Model, o: &Out) -> R<()> {
    for x in &m.objs {
        let at = |e: String| format!("{} '{}': {e}", x.kw, x.name);
        let (_, e) = o.named(x.kw, &x.name)?;
        let (_, lp) = o.get_kw(&e.args[5], "IFCLOCALPLACEMENT", "placement").map_err(at)?;
        let loc = o.axis(&lp.args[1], "placement").map_err(at)?;
        if !raw3(loc, x.p) {
            return Err(at(format!("placed at {loc:?} instead of {:?}", x.p)));
        }
        if x.kw == "IFCSITE" {
            if lp.args[0] != V::Omit {
                return Err(at(format!("placed relative to {}", lp.args[0])));
            }
        } else {
            let pk = m.objs.iter().find(|y| y.name == x.parent).unwrap();
            let (_, pe) = o.named(pk.kw, &pk.name)?;
            if lp.args[0] != pe.args[5] {
                return Err(at(format!(
                    "placed relative to {} instead of the placement {} of '{}'",
                    lp.args[0], pe.args[5], pk.name
                )));
            }
        }
        let Some(want) = &x.solid else {
            if e.args[6] != V::Omit {
                return Err(at(format!("has a representation {}", e.args[6])));
            }
            continue;
        };
        let rs = reps(o, e).map_err(at)?;
        let mut idents: Vec<&str> = rs.iter().map(|r| r.ident.as_str()).collect();
        idents.sort();
        if idents != if x.axis.is_some() { vec!["Axis", "Body"] } else { vec!["Body"] } {
            return Err(at(format!("representations {idents:?}")));
        }
        for r in &rs {
            if r.items.len() != 1 {
                return Err(at(format!("{} items in '{}'", r.items.len(), r.ident)));
            }
            let it = r.items[0].1;
            if r.ident == "Body" {
                if r.kind != "SweptSolid" {
                    return Err(at(format!("body of the kind {}", r.kind)));
                }
                solid_is(o, want, it).map_err(at)?;
            } else {
                if r.kind != "Curve2D" || it.name != "IFCPOLYLINE" {
                    return Err(at(format!("axis {} {it}", r.kind)));
                }
                let pts: Vec<P3> = o
                    .list(&it.args[0], "points")
                    .map_err(at)?
                    .iter()
                    .map(|p| o.point(p, "point"))
                    .collect::<R<_>>()
                    .map_err(at)?;
                if pts.len() != 2 || !close3(pts[0], [0.; 3]) || !close3(pts[1], x.axis.unwrap()) {
                    return Err(at(format!("axis {pts:?} instead of 0 to {:?}", x.axis.unwrap())));
                }
            }
        }
    }
    Ok(())
}

fn transforms(m: &Model, o: &Out) -> R<()> {
    for x in &m.objs {
        let Some(_) = &x.solid else { continue };
        let at = |e: String| format!("{} '{}': {e}", x.kw, x.name);
        let (_, e) = o.named(x.kw, &x.name)?;
        let want = x.aff.iter().fold(Aff::ID, |acc, a| a.after(&acc));
        for r in reps(o, e).map_err(at)? {
            let got = r.maps.iter().rev().fold(Aff::ID, |acc, a| a.after(&acc));
            for p in [[0.; 3], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [3., -2., 0.5]] {
                if !close3(got.at(p), want.at(p)) {
                    return Err(at(format!(
                        "{:?} of the {} is moved to {:?} instead of {:?}",
                        p,
                        r.ident,
                        got.at(p),
                        want.at(p)
                    )));
                }
            }
        }
    }
    Ok(())
}

fn output(text: &str, o: &Out) -> R<()> {
    // order, references, unique ids
    if o.order.windows(2).any(|w| w[0] >= w[1]) {
        return Err("the identifiers are not in ascending order".into());
    }
    fn walk(o: &Out, id: u64, v: &V) -> R<()> {
        match v {
            V::Ref(i) if !o.by.contains_key(i) => Err(format!("#{id} refers to #{i}, which is not defined")),
            V::List(l) | V::Typed(_, l) => l.iter().try_for_each(|x| walk(o, id, x)),
            _ => Ok(()),
        }
    }
    let mut seen = BTreeSet::new();
    for (id, e) in &o.by {
        e.args.iter().try_for_each(|v| walk(o, *id, v))?;
        let root = e.name.starts_with("IFCREL")
            || e.name.ends_with("TYPE")
            || matches!(
                e.name.as_str(),
                "IFCPROJECT" | "IFCSITE" | "IFCBUILDING" | "IFCBUILDINGSTOREY" | "IFCWALL" | "IFCSLAB" | "IFCROOF"
                    | "IFCSHADINGDEVICE" | "IFCSPACE" | "IFCWINDOW" | "IFCOPENINGELEMENT" | "IFCPROPERTYSET"
            );
        if root {
            match e.args.first() {
                Some(V::Str(s)) if s.len() == 22 && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$') && s.as_bytes()[0] <= b'3' => {
                    if !seen.insert(s.clone()) {
                        return Err(format!("the globally unique identifier {s} is used twice"));
                    }
                }
                _ => return Err(format!("#{id} {e} has no legal globally unique identifier")),
            }
        }
    }
    // it loads, every statement is understood, and it is written as it was
    let ifc = load_ok(text).map_err(|e| format!("the output does not load: {e}"))?;
    for id in &o.order {
        // a text with a quote is kept unsupported when loaded: a finding of C11
        if is_dummy(entity(&ifc, *id)?) && !o.by[id].args.iter().any(quoted) {
            return Err(format!("#{id} {} is not understood when loaded", o.by[id]));
        }
    }
    let again = guard(|| ifc.to_string()).map_err(|e| format!("writing again panicked: {e}"))?;
    if again != text {
        let d = again.lines().zip(text.lines()).find(|(a, b)| a != b);
        return Err(format!("written again, the output differs: {d:?}"));
    }
    let names: Vec<&str> = o.header.iter().map(|h| h.name.as_str()).collect();
    if names != ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"] {
        return Err(format!("header {names:?}"));
    }
    Ok(())
}

fn v_same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(x), V::Num(y)) => raw(*x, *y),
        (V::Enum(x), V::Enum(y)) => {
            let l = |s: &str| s.replace(".TRUE.", ".T.").replace(".FALSE.", ".F.");
            l(x) == l(y)
        }
        (V::Typed(n, x), V::Typed(k, y)) => n == k && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| v_same(p, q)),
        _ => a == b,
    }
}

fn properties(m: &Model, p: &Plan, o: &Out, t0: i64, t1: i64) -> R<()> {
    same(
        "objects with properties (IFCRELDEFINESBYPROPERTIES)",
        m.props.iter().map(|(o, s)| (shown(s).to_string(), o.clone())).collect(),
        pairs(o, "IFCRELDEFINESBYPROPERTIES", 5, 4)?,
    )?;
    // every property set once, with its properties in order
    let mut left: Vec<&(String, Vec<PropV>)> = m.psets.iter().collect();
    for (i, e) in o.all("IFCPROPERTYSET") {
        let mut got = vec![];
        for x in o.list(&e.args[4], "properties")? {
            let (_, x) = o.get_kw(x, "IFCPROPERTYSINGLEVALUE", "property")?;
            let unit = match &x.args[3] {
                V::Omit => None,
                u => Some(text(&o.get_kw(u, "IFCPROPERTYSINGLEVALUE", "unit of a property")?.1.args[0])?),
            };
            got.push((text(&x.args[0])?, x.args[2].clone(), unit));
        }
        let name = text(&e.args[2])?;
        let pos = left.iter().position(|(n, v)| {
            shown(n) == name && v.len() == got.len() && v.iter().zip(&got).all(|(a, b)| a.0 == b.0 && a.2 == b.2 && v_same(&a.1, &b.1))
        });
        match pos {
            Some(k) => {
                left.remove(k);
            }
            None => return Err(format!("property set #{i} '{name}' holds {got:?}, wanted one of {left:?}")),
        }
    }
    if !left.is_empty() {
        return Err(format!("missing property sets {left:?}"));
    }
    // the properties of a storey belong to it
    for (i, e) in o.all("IFCRELDEFINESBYPROPERTIES") {
        let (_, set) = o.get(&e.args[5], "property set")?;
        if text(&set.args[2])? != "StoreyProperties" {
            continue;
        }
        let (_, pv) = o.get(&o.list(&set.args[4], "properties")?[0], "property")?;
        for r in o.list(&e.args[4], "objects")? {
            let n = o.name_of(r)?;
            let x = m.objs.iter().find(|x| x.name == n).ok_or(format!("#{i}: no object {n}"))?;
            if !v_same(&pv.args[2], &V::Typed("IFCREAL".into(), vec![V::Num(x.p[2])])) {
                return Err(format!("storey '{n}' got the height {}", pv.args[2]));
            }
        }
    }
    // project: context, units
    let (_, pr) = o.named("IFCPROJECT", &p.project)?;
    let ctx = o.list(&pr.args[7], "contexts")?;
    if ctx.len() != 1 {
        return Err(format!("{} contexts", ctx.len()));
    }
    let (cid, c) = o.get_kw(&ctx[0], "IFCGEOMETRICREPRESENTATIONCONTEXT", "context")?;
    if c.args[2] != V::Num(3.) || o.axis(&c.args[4], "world coordinate system")? != [0.; 3] {
        return Err(format!("context {c}"));
    }
    let subs: Vec<_> = o.all("IFCGEOMETRICREPRESENTATIONSUBCONTEXT").collect();
    if subs.len() != 1 || subs[0].1.args[6] != V::Ref(cid) {
        return Err(format!("sub contexts {:?}", subs.iter().map(|s| s.1.to_string()).collect::<Vec<_>>()));
    }
    let (_, ua) = o.get_kw(&pr.args[8], "IFCUNITASSIGNMENT", "units")?;
    let mut units = vec![];
    for u in o.list(&ua.args[0], "units")? {
        let (_, u) = o.get_kw(u, "IFCSIUNIT", "unit")?;
        units.push(format!("{} {} {}", u.args[1], u.args[2], u.args[3]));
    }
    same(
        "units",
        vec![".LENGTHUNIT. $ .METRE.".into(), ".PLANEANGLEUNIT. $ .RADIAN.".into(), ".TIMEUNIT. $ .SECOND.".into()],
        units,
    )?;
    // owner
    let hs: Vec<_> = o.all("IFCOWNERHISTORY").collect();
    if hs.len() != 1 {
        return Err(format!("{} owner histories", hs.len()));
    }
    let (hid, h) = hs[0];
    let (_, po) = o.get_kw(&h.args[0], "IFCPERSONANDORGANIZATION", "owning user")?;
    let (_, person) = o.get_kw(&po.args[0], "IFCPERSON", "person")?;
    let (_, org) = o.get_kw(&po.args[1], "IFCORGANIZATION", "organisation")?;
    let (_, app) = o.get_kw(&h.args[1], "IFCAPPLICATION", "application")?;
    let (_, dev) = o.get_kw(&app.args[0], "IFCORGANIZATION", "developer")?;
    let got = [&dev.args[1], &app.args[1], &app.args[2], &app.args[3], &person.args[2], &person.args[1], &org.args[1]];
    for (i, g) in got.iter().enumerate() {
        if **g != V::Str(p.info[i].clone()) {
            return Err(format!("owner and application: {g} instead of '{}'", p.info[i]));
        }
    }
    for k in [4, 7] {
        match h.args[k] {
            V::Num(t) if (t0 as f64 - 1.) <= t && t <= (t1 as f64 + 1.) => {}
            _ => return Err(format!("time {} of the owner history", h.args[k])),
        }
    }
    if h.args[3] != V::Enum(".ADDED.".into()) {
        return Err(format!("change action {}", h.args[3]));
    }
    for x in &m.objs {
        let (_, e) = o.named(x.kw, &x.name)?;
        if e.args[1] != V::Ref(hid) {
            return Err(format!("{} '{}' has the owner history {}", x.kw, x.name, e.args[1]));
        }
    }
    for (n, k, _) in &m.types {
        let (_, e) = o.named(k, n)?;
        if e.args[1] != V::Ref(hid) {
            return Err(format!("{k} '{n}' has the owner history {}", e.args[1]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the checks

fn shape_of(p: &Plan) -> String {
    let mut k: Vec<String> = vec![];
    for s in &p.sites {
        k.push("site".into());
        for b in &s.buildings {
            k.push("building".into());
            for st in &b.storeys {
                k.push("storey".into());
                for op in &st.ops {
                    match op {
                        Op::Elem { shape, subs, .. } => {
                            let n = format!("{shape:?}");
                            k.push(n[..n.find(' ').unwrap_or(n.len())].to_string());
                            for s in subs {
                                let n = format!("{s:?}");
                                k.push(n[..n.find([' ', '(']).unwrap_or(n.len())].to_string());
                            }
                        }
                        Op::Transform { .. } => k.push("transform".into()),
                        Op::Props { .. } => k.push("props".into()),
                        _ => {}
                    }
                }
            }
        }
    }
    k.join(" ")
}

fn factorial(n: usize) -> usize {
    (1..=n).product()
}
/// objects that share a name: their ids and the names the plan knows them by
type Twins = (Vec<u64>, Vec<String>);
fn twins(m: &Model, o: &Out) -> Vec<Twins> {
    let mut by: BTreeMap<(&str, &str), Vec<&String>> = BTreeMap::new();
    for (k, n) in m.objs.iter().map(|x| (x.kw, &x.name)).chain(m.types.iter().map(|t| (t.1, &t.0))) {
        by.entry((k, shown(n))).or_default().push(n);
    }
    let mut out = vec![];
    for ((k, n), names) in by {
        if names.len() == 1 && names[0] == n {
            continue;
        }
        let ids: Vec<u64> = o.all(k).filter(|(_, e)| e.args.get(2) == Some(&V::Str(n.into()))).map(|x| x.0).collect();
        // another number of objects is for the oracle to report
        if ids.len() == names.len() {
            out.push((ids, names.into_iter().cloned().collect()));
        }
    }
    out
}
fn rename(o: &mut Out, groups: &[Twins], perm: &[usize]) {
    for ((ids, names), k) in groups.iter().zip(perm) {
        let mut names = names.clone();
        let mut k = *k;
        for id in ids {
            let n = names.len();
            let name = names.remove(k % n);
            k /= n;
            o.by.get_mut(id).unwrap().args[2] = V::Str(name);
        }
    }
}

/// the operations to explore further than the rest, and how far (quick, thorough)
struct Focus {
    what: &'static str,
    mask: u32,
    bound: (usize, usize),
    /// starts from a project that already has several of everything
    rich: bool,
    /// the operations to choose from, when not all
    ops: &'static [usize],
}

fn run_all(
    rep: &Report,
    focus: &[Focus],
    check: impl Fn(&Model, &Plan, &str, &Out, i64, i64) -> R<()> + Sync,
) -> &'static str {
    rep.bound("operation_alphabet", "storey, building, site, 3 wall forms, 3 slab forms, roof, shading device, space, layer set, usage, 6 types, constituent set, property set, transform; within walls: opening (vertical, directed), window, property set, transform; within slabs: rectangular, horizontal and free opening and window, transform");
    rep.assume("hash seeds of the builder's maps are not controlled: the oracle does not depend on the order in which relations are written");
    let one = |p: Plan, path: Vec<u16>| {
        if rep.stop() {
            return;
        }
        let t0 = now();
        let key = shape_of(&p);
        rep.state(&format!("{p:?}"));
        let steps: usize =
            p.sites.iter().flat_map(|s| &s.buildings).flat_map(|b| &b.storeys).map(|s| 1 + s.ops.len()).sum();
        rep.step(1 + steps as u64);
        let r = guard(|| plan::run(&p)).map_err(|e| format!("the builder panicked: {e}")).and_then(|text| {
            let t1 = now();
            let m = Model::new(&p);
            let mut o = Out::read(&text).map_err(|e| format!("{e}\n{text}"))?;
            // objects of the same name: which is which is not known, so that
            // one way to tell them apart has to satisfy the model
            let groups = twins(&m, &o);
            let mut perm: Vec<usize> = vec![0; groups.len()];
            let mut first = None;
            loop {
                rename(&mut o, &groups, &perm);
                match check(&m, &p, &text, &o, t0, t1) {
                    Ok(()) => return Ok(()),
                    Err(e) => first = first.or(Some(e)),
                }
                let mut i = 0;
                while i < perm.len() && perm[i] + 1 == factorial(groups[i].0.len()) {
                    perm[i] = 0;
                    i += 1;
                }
                if i == perm.len() {
                    return Err(first.unwrap());
                }
                perm[i] += 1;
            }
        });
        match r {
            Ok(()) => rep.trace(),
            Err(e) => rep.violation(clip(&key, 120), e, format!("{p:#?}\npath {path:?}")),
        }
        if rep.states.load(std::sync::atomic::Ordering::Relaxed) % 9973 == 1 {
            rep.sample(format!("{key}; path {path:?}"));
        }
    };
    let general = Focus { what: "everything", mask: !0, bound: (3, 4), rich: false, ops: &[] };
    let body = |ch: &mut crate::explore::Ch, f: &Focus| {
        ch.mask = f.mask;
        ch.ops = f.ops;
        one(plan::gen(ch, f.rich), ch.path());
    };
    let onto = Focus { what: "everything, onto a rich project", mask: !0, bound: (3, 4), rich: true, ops: &[] };
    // all names, and all numbers, of another sort
    rep.bound("sorts_of_names_and_numbers", plan::STYLES as u64);
    for style in 1..=plan::STYLES {
        for rich in [false, true] {
            let mask = if rich { 0 } else { !0 };
            explore(rep, rep.pick(2, 3), |ch| {
                ch.mask = mask;
                one(plan::restyle(plan::gen(ch, rich), style), ch.path());
            });
        }
    }
    // long lists: layers, constituents, outlines, properties
    for n in sizes(rep) {
        if n > rep.pick(520, 1025) {
            break;
        }
        // everything that has a list, once
        let few = n > 20 && n != 33;
        for rich in [false, true] {
            if rich && n > 70 {
                break;
            }
            explore(rep, if few || rich { 1 } else { 2 }, |ch| {
                ch.mask = 0;
                one(plan::stretch(plan::gen(ch, rich), n), ch.path());
            });
        }
    }
    // one operation many times over, within its surroundings
    let counts: Vec<usize> = (2..=12).chain([17, 33, 65, 129]).chain(if rep.quick() { vec![] } else { vec![257, 513, 1025] }).collect();
    rep.bound("repetitions_of_one_operation", *counts.last().unwrap() as u64);
    let many: Vec<(Vec<u16>, Vec<u16>, Vec<u16>)> = {
        let mut v: Vec<(Vec<u16>, Vec<u16>, Vec<u16>)> = vec![];
        for x in [1, 2, 3, 6, 7, 8, 13, 14, 18] {
            v.push((vec![], vec![x], vec![]));
        }
        for x in [4, 9, 10, 5, 11, 12] {
            v.push((vec![], vec![x, 0], vec![]));
            // each with a window and an opening
            v.push((vec![], vec![x, 2, 1, 0], vec![]));
            // each in a storey, a building and a site of its own
            for y in 1..=3 {
                v.push((vec![], vec![y, x, 2, 0], vec![]));
            }
            for sub in 1..=(if matches!(x, 4 | 9 | 10) { 5 } else { 7 }) {
                v.push((vec![x], vec![sub], vec![0]));
            }
            v.push((vec![x, 2, 1, 0], vec![17, 0], vec![]));
        }
        for k in 0..6 {
            v.push((vec![], vec![15, k], vec![]));
        }
        v.push((vec![6, 4, 1, 2, 0], vec![16, 0], vec![]));
        v.push((vec![6, 4, 1, 2, 0], vec![16, 2], vec![]));
        // new materials and types for every element
        v.push((vec![], vec![13, 18, 15, 0, 15, 5, 4, 2, 0], vec![]));
        v.push((vec![], vec![13, 18, 15, 1, 15, 5, 5, 2, 0], vec![]));
        v
    };
    crate::explore::par_for(many.len() * counts.len(), |x| {
        let (a, b, c) = &many[x % many.len()];
        let mut path = a.clone();
        for _ in 0..counts[x / many.len()] {
            path.extend(b);
        }
        path.extend(c);
        one(plan::gen(&mut crate::explore::Ch::script(&path), false), path.clone());
    });
    // rotations by all angles, and axes given one by one
    if focus.iter().any(|f| f.mask == TR) {
        rep.bound("rotations", ROTS as u64);
        let paths: [&[u16]; 6] = [
            &[4, 4, 0, 1, 0],
            &[5, 3, 0, 1, 0],
            &[4, 1, 2, 4, 1, 1, 0],
            &[5, 1, 2, 3, 1, 1, 0],
            &[6, 17, 0, 0, 1],
            &[4, 2, 4, 0, 1, 0, 17, 0, 1, 2],
        ];
        let second = rep.pick(12, 100);
        crate::explore::par_for(paths.len() * (ROTS - 5), |x| {
            let (path, a) = (paths[x % paths.len()], 5 + x / paths.len());
            for b in 0..if path.contains(&2) && path.contains(&17) { second } else { 1 } {
                let b = 5 + b * (ROTS - 5) / second;
                let mut ch = crate::explore::Ch::script(path);
                ch.mask = TR;
                one(plan::rotated(plan::gen(&mut ch, false), a, b), vec![path[0], a as u16, b as u16]);
            }
        });
    }
    for f in focus.iter().chain([&onto, &general]) {
        let bound = rep.pick(f.bound.0, f.bound.1);
        rep.bound(&format!("deviations: {}", f.what), bound);
        let n = explore(rep, bound, |ch| body(ch, f));
        rep.bound(&format!("programs: {}", f.what), n);
    }
    "stateless exhaustive exploration of builder programs (choice tree, bounded by operations plus deviating parameters), output compared with a model of the program"
}
fn quoted(v: &V) -> bool {
    match v {
        V::Str(s) => s.contains('\''),
        V::List(l) | V::Typed(_, l) => l.iter().any(quoted),
        _ => false,
    }
}
fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

const OPS: Focus = Focus { what: "operations alone", mask: 0, bound: (4, 4), rich: false, ops: &[] };

pub fn c15(rep: &Report) -> &'static str {
    let places = Focus { what: "places and their names", mask: NAME | PLACE, bound: (5, 6), rich: false, ops: &[1, 2, 3, 8] };
    run_all(rep, &[Focus { what: "operations and names", mask: NAME, bound: (3, 4), rich: false, ops: &[] }, places, OPS], |m, p, _, o, _, _| {
        hierarchy(m, p, o)
    })
}
pub fn c16(rep: &Report) -> &'static str {
    let mats = Focus { what: "a wall, a slab, materials", mask: MAT, bound: (5, 5), rich: false, ops: &[4, 5, 13, 14, 18] };
    run_all(rep, &[Focus { what: "operations and materials", mask: MAT, bound: (4, 4), rich: false, ops: &[] }, mats], |m, _, _, o, _, _| {
        relations(m, o)?;
        materials(m, o)
    })
}
pub fn c17(rep: &Report) -> &'static str {
    let solids = Focus { what: "a wall, a slab, forms and placements", mask: GEO | PLACE, bound: (5, 5), rich: false, ops: &[4, 5] };
    run_all(rep, &[Focus { what: "operations and placements", mask: PLACE, bound: (3, 4), rich: false, ops: &[] }, solids, OPS], |m, _, _, o, _, _| {
        geometry(m, o)
    })
}
pub fn c18(rep: &Report) -> &'static str {
    run_all(
        rep,
        &[
            Focus { what: "operations and transformations", mask: TR, bound: (4, 4), rich: false, ops: &[] },
            Focus { what: "a wall, a slab, transformations", mask: TR, bound: (6, 6), rich: false, ops: &[4, 5, 17] },
        ],
        |m, _, _, o, _, _| transforms(m, o),
    )
}
pub fn c19(rep: &Report) -> &'static str {
    run_all(rep, &[Focus { what: "operations alone", mask: 0, bound: (3, 4), rich: false, ops: &[] }], |_, _, t, o, _, _| output(t, o))
}
/// the texts a project is opened with: which of them are equal, and which of
/// those that may be left out are given
fn authorship(rep: &Report) {
    let words = ["Ada", "", "B. & Co", "#1", "0.1", "D\u{e4}v; #3", "$"];
    let n = explore(rep, usize::MAX, |ch| {
        // developer, version, name, short name, given name, family name, organisation, project
        let mut part: Vec<usize> = vec![];
        for _ in 0..7 {
            let top = part.iter().max().map_or(0, |m| m + 1);
            part.push(ch.choose(top + 1));
        }
        let t: Vec<&str> = part.iter().map(|i| words[*i]).collect();
        let some = |c: usize, t: &[&'static str]| match c {
            0 => None,
            1 => Some("other"),
            _ => Some(t[0]),
        };
        let (id, desc) = match ch.choose(4) {
            0 => (None, None),
            1 => (some(1, &t), None),
            2 => (None, some(2, &t)),
            _ => (some(2, &t), some(1, &t)),
        };
        let form = ch.choose(7);
        let sites = ch.choose(2);
        let key = format!("{t:?} {id:?} {desc:?} person {form} sites {sites}");
        if !rep.state(&key) {
            return;
        }
        let made = guard(|| {
            let mut p = Person::empty();
            if form != 6 {
                p = p.given_name(t[4]).family_name(t[5]);
            }
            if form & 1 != 0 {
                p = p.id(t[5]);
            }
            if form & 2 != 0 {
                p = p.add_middle_name(t[4]).add_middle_name("m");
            }
            if form & 4 != 0 {
                p = p.add_prefix_title("Dr").add_suffix_title(t[0]);
            }
            let mut b = IfcProjectBuilder::new(
                ApplicationInfo { developer: Organization::new(id, t[0], desc), version: t[1], name: t[2], short_name: t[3] },
                OwnerInfo { owner: p, organization_name: t[6] },
                t[0],
            );
            for _ in 0..sites {
                let _ = b.new_site(t[6], bevy_math::DVec3::ZERO);
            }
            b.build()
        });
        rep.step(3);
        let check = || -> R<()> {
            let written = made.clone().map_err(|p| format!("panics: {p}"))?;
            let f = step::file(&written).map_err(|e| format!("what is written is not well formed: {e}"))?;
            let at = |v: &V, kw: &str| -> R<&Ent> {
                let V::Ref(i) = v else { return Err(format!("{v} instead of a reference to {kw}")) };
                f.data.iter().find(|x| x.0 == *i && x.1.name == kw).map(|x| &x.1).ok_or(format!("#{i} is no {kw}"))
            };
            let s = |x: &str| V::Str(x.to_string());
            let o = |x: Option<&str>| x.map_or(V::Omit, s);
            let l = |b: bool, x: &[&str]| if b { V::List(x.iter().map(|x| s(x)).collect()) } else { V::Omit };
            let hs: Vec<_> = f.data.iter().filter(|x| x.1.name == "IFCOWNERHISTORY").collect();
            if hs.len() != 1 {
                return Err(format!("{} owner histories", hs.len()));
            }
            let h = &hs[0].1;
            let po = at(&h.args[0], "IFCPERSONANDORGANIZATION")?;
            let app = at(&h.args[1], "IFCAPPLICATION")?;
            let want_person = vec![
                if form & 1 != 0 { s(t[5]) } else { V::Omit },
                if form != 6 { s(t[5]) } else { V::Omit },
                if form != 6 { s(t[4]) } else { V::Omit },
                l(form & 2 != 0, &[t[4], "m"]),
                l(form & 4 != 0, &["Dr"]),
                l(form & 4 != 0, &[t[0]]),
                V::Omit,
                V::Omit,
            ];
            let want = [
                ("person", at(&po.args[0], "IFCPERSON")?.args.clone(), want_person),
                ("organization", at(&po.args[1], "IFCORGANIZATION")?.args.clone(), vec![V::Omit, s(t[6]), V::Omit, V::Omit, V::Omit]),
                ("developer", at(&app.args[0], "IFCORGANIZATION")?.args.clone(), vec![o(id), s(t[0]), o(desc), V::Omit, V::Omit]),
                ("application", app.args[1..].to_vec(), vec![s(t[1]), s(t[2]), s(t[3])]),
            ];
            for (what, got, want) in want {
                if got != want {
                    return Err(format!("{what} {} instead of {}", V::List(got), V::List(want)));
                }
            }
            for kw in ["IFCPROJECT", "IFCSITE"] {
                for (i, e, _) in f.data.iter().filter(|x| x.1.name == kw) {
                    let name = if kw == "IFCSITE" { t[6] } else { t[0] };
                    if e.args[1] != V::Ref(hs[0].0) || e.args[2] != s(name) {
                        return Err(format!("#{i}= {e} instead of the name '{name}' and the owner history #{}", hs[0].0));
                    }
                }
            }
            Ok(())
        };
        match check() {
            Ok(()) => rep.trace(),
            Err(e) => rep.violation(format!("authorship {key}"), format!("project opened with {key}: {e}"), made.unwrap_or_default()),
        }
    });
    rep.bound("authorship_programs", n);
}

pub fn c24(rep: &Report) -> &'static str {
    authorship(rep);
    let sets = Focus { what: "a wall, property sets, names and values", mask: VALUE | NAME, bound: (5, 5), rich: false, ops: &[4, 16] };
    run_all(rep, &[Focus { what: "operations and values", mask: VALUE, bound: (3, 4), rich: false, ops: &[] }, sets, OPS], |m, p, _, o, t0, t1| {
        properties(m, p, o, t0, t1)
    })
}
