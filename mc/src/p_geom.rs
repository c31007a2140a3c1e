//! C14: geometry made by constructors, conversions and shape helpers: all
//! programs up to a number of deviations, against the statements they should
//! yield, written out to the last point.
use crate::common::*;
use crate::explore::{explore, Ch};
use crate::report::{guard, Report};
use crate::step::{self, V};
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::BTreeMap;

fn ent(name: &str, args: Vec<V>) -> V {
    V::Typed(name.into(), args)
}
fn enu(s: &str) -> V {
    V::Enum(format!(".{s}."))
}
fn list(v: &[f64]) -> V {
    V::List(v.iter().map(|x| V::Num(*x)).collect())
}
fn typed<T: IfcType>(id: u64) -> TypedId<T> {
    TypedId::new(Id(id as usize))
}

/// runs a program on the real objects and keeps what they should look like
struct Prog<'c, 'd> {
    ch: &'c mut Ch<'d>,
    ifc: IFC,
    n: usize,
    /// objects made, and their statements with references replaced
    made: Vec<(u64, V)>,
    /// objects the map should hold beyond those before
    count: usize,
    /// the last object of a sort that has an identifier
    last: BTreeMap<&'static str, (u64, V)>,
    sub: u64,
    /// how many of `VALUES` a number may be
    values: usize,
    /// a list that is longer than else (points, items, steps), and its length
    sized: (usize, usize),
    log: Vec<String>,
}

/// objects that are there before: a context and subcontexts
const BASE: [(u64, &str); 5] = [
    (1, "IFCCARTESIANPOINT((0.,0.,0.))"),
    (2, "IFCAXIS2PLACEMENT3D(#1,$,$)"),
    (3, "IFCGEOMETRICREPRESENTATIONCONTEXT('Body','Model',3,$,#2,$)"),
    (4, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT('Body','Model',*,*,*,*,#3,$,.MODEL_VIEW.,$)"),
    (5, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT('Axis','Model',*,*,*,*,#3,$,.GRAPH_VIEW.,$)"),
];

/// the numbers to begin with are used together with more else
const VALUES: [f64; 40] = [
    0., 123456.789012345, 1., -1., 0.1, -0., 1e-7, 1e20, -1000., //
    1.5e-10, -1.5e-10, 2.5e-13, 1e-15, 1e-100, 1e100, 0.333333333333333, 0.1234567890123, 1.00000000001, 0.9999999999, 0.99999999999999,
    1e-9, 1.000001, 99.5, 100.49999, 32768.5, 65536., 4294967296., -2147483648.5, 9007199254740992., 1e15, 1e16, 123456789.123456, 0.5, 0.05, 0.005,
    0.0005, 0.00005, 1000.0005, -0.1, 3.14159265358979,
];
const FEW: usize = 9;
/// the sorts of constructions
const STEPS: usize = 19;

impl Prog<'_, '_> {
    fn num(&mut self) -> f64 {
        self.n += 1;
        match self.ch.deviate(self.values + 1) {
            0 => self.n as f64 + [0., 0.5, 0.25, -100.125][self.n % 4],
            k => VALUES[k - 1],
        }
    }
    fn vec2(&mut self) -> DVec2 {
        DVec2::new(self.num(), self.num())
    }
    fn vec3(&mut self) -> DVec3 {
        DVec3::new(self.num(), self.num(), self.num())
    }
    /// an object given in place, or by the identifier it gets before, or an
    /// object of the same sort that is there already
    fn give<T: IfcType>(&mut self, sort: &'static str, make: impl FnOnce(&mut Self) -> (T, V)) -> (IdOr<T>, V) {
        let k = self.ch.deviate(if self.last.contains_key(sort) { 3 } else { 2 });
        if k == 2 {
            let (id, v) = self.last[sort].clone();
            return (typed::<T>(id).into(), v);
        }
        let (t, v) = make(self);
        self.count += 1;
        if k == 0 {
            return (t.into(), v);
        }
        let id = self.ifc.data.insert_new(t);
        self.last.insert(sort, (id.id().0 as u64, v.clone()));
        (id.into(), v)
    }
    /// an object that is always given in place
    fn here<T>(&mut self, (t, v): (T, V)) -> (T, V) {
        self.count += 1;
        (t, v)
    }
    fn point2(&mut self) -> (Point2D, V) {
        let p = self.vec2();
        (p.into(), ent("IFCCARTESIANPOINT", vec![list(&[p.x, p.y])]))
    }
    fn point3(&mut self) -> (Point3D, V) {
        let p = self.vec3();
        (p.into(), ent("IFCCARTESIANPOINT", vec![list(&[p.x, p.y, p.z])]))
    }
    /// directions are written with length 1
    fn direction3(&mut self) -> (Direction3D, V) {
        let (d, v) = self.unit3();
        (d.into(), v)
    }
    fn unit3(&mut self) -> (DVec3, V) {
        let d = match self.ch.deviate(9) {
            0 => DVec3::new(0., 3., -4.),
            1 => DVec3::X,
            2 => DVec3::Y,
            3 => DVec3::Z,
            4 => -DVec3::Z,
            5 => DVec3::new(2., 10., 11.),
            6 => DVec3::new(1e-3, 0., 0.),
            7 => DVec3::new(-2e5, 0., 2e5),
            _ => DVec3::ONE,
        };
        let l = (d.x * d.x + d.y * d.y + d.z * d.z).sqrt();
        (d, ent("IFCDIRECTION", vec![list(&[d.x / l, d.y / l, d.z / l])]))
    }
    fn direction2(&mut self) -> (Direction2D, V) {
        let (x, y) = [(3., 4.), (1., 0.), (0., -1.), (-5., 12.), (1., 1.), (1e-3, 0.)][self.ch.deviate(6)];
        let l = f64::sqrt(x * x + y * y);
        (DVec2::new(x, y).into(), ent("IFCDIRECTION", vec![list(&[x / l, y / l])]))
    }
    fn axis2(&mut self) -> (Axis2D, V) {
        let p = self.point2();
        let (p, v) = self.here(p);
        (Axis2D::new(p, &mut self.ifc), ent("IFCAXIS2PLACEMENT2D", vec![v, V::Omit]))
    }
    fn axis3(&mut self) -> (Axis3D, V) {
        let p = self.point3();
        let (p, v) = self.here(p);
        (Axis3D::new(p, &mut self.ifc), ent("IFCAXIS2PLACEMENT3D", vec![v, V::Omit, V::Omit]))
    }
    /// a list of points; each may be the one before once more
    fn coords<T: Clone>(&mut self, mut make: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let long = self.sized.0 == 0;
        let n = if long { self.sized.1 } else { [2, 0, 1, 3, 4][self.ch.deviate(5)] };
        let mut v: Vec<T> = Vec::new();
        for i in 0..n {
            let k = if long && i % 7 == 6 { 1 + i / 7 % 2 } else if i == 0 { 0 } else { self.ch.deviate(if i > 1 { 3 } else { 2 }) };
            let p = match k {
                0 => make(self),
                1 => v[i - 1].clone(),
                _ => v[0].clone(),
            };
            v.push(p);
        }
        v
    }
    fn coords2(&mut self) -> (Vec<DVec2>, V) {
        let c = self.coords(|p| p.vec2());
        let v = V::List(c.iter().map(|p| list(&[p.x, p.y])).collect());
        (c, v)
    }
    fn coords3(&mut self) -> (Vec<DVec3>, V) {
        let c = self.coords(|p| p.vec3());
        let v = V::List(c.iter().map(|p| list(&[p.x, p.y, p.z])).collect());
        (c, v)
    }
    fn polyline(&mut self) -> (PolyLine, V) {
        let (l, v) = if self.ch.deviate(2) == 0 {
            let (c, v) = self.coords3();
            (PolyLine::from(c.into_iter().map(Point3D::from), &mut self.ifc), v)
        } else {
            let (c, v) = self.coords2();
            (PolyLine::from(c.into_iter().map(Point2D::from), &mut self.ifc), v)
        };
        let V::List(v) = v else { unreachable!() };
        self.count += v.len();
        let v = v.into_iter().map(|c| ent("IFCCARTESIANPOINT", vec![c])).collect();
        (l, ent("IFCPOLYLINE", vec![V::List(v)]))
    }
    fn indexed(&mut self) -> (IndexedPolyCurve, V) {
        self.count += 1;
        let (c, v) = if self.ch.deviate(2) == 0 {
            let (c, v) = self.coords2();
            (
                IndexedPolyCurve::new(PointList2D::new(c.into_iter()), &mut self.ifc),
                ent("IFCCARTESIANPOINTLIST2D", vec![v, V::Omit]),
            )
        } else {
            let (c, v) = self.coords3();
            (
                IndexedPolyCurve::new(PointList3D::new(c.into_iter()), &mut self.ifc),
                ent("IFCCARTESIANPOINTLIST3D", vec![v, V::Omit]),
            )
        };
        (c, ent("IFCINDEXEDPOLYCURVE", vec![v, V::Omit, V::Omit]))
    }
    fn area(&mut self) -> (ProfileType, V) {
        if self.ch.deviate(2) == 0 { (ProfileType::Area, enu("AREA")) } else { (ProfileType::Curve, enu("CURVE")) }
    }
    fn rectangle(&mut self) -> (RectangleProfileDef, V) {
        let (ty, vt) = self.area();
        let (x, y) = (self.num(), self.num());
        let mut r = RectangleProfileDef::new(ty, x, y);
        let mut at = V::Omit;
        match self.ch.deviate(3) {
            0 => {
                let (a, v) = self.give("axis2", Self::axis2);
                at = v;
                r = r.position(a, &mut self.ifc);
            }
            1 => {
                let (a, v) = self.give("axis3", Self::axis3);
                at = v;
                r = r.position(a, &mut self.ifc);
            }
            _ => {}
        }
        (r, ent("IFCRECTANGLEPROFILEDEF", vec![vt, V::Omit, at, V::Num(x), V::Num(y)]))
    }
    fn arbitrary(&mut self) -> (ArbitraryClosedProfileDef, V) {
        let (ty, vt) = self.area();
        let (p, v) = if self.ch.deviate(2) == 0 {
            let (c, v) = self.give("polyline", Self::polyline);
            (ArbitraryClosedProfileDef::new(ty, c, &mut self.ifc), v)
        } else {
            let (c, v) = self.give("indexed", Self::indexed);
            (ArbitraryClosedProfileDef::new(ty, c, &mut self.ifc), v)
        };
        (p, ent("IFCARBITRARYCLOSEDPROFILEDEF", vec![vt, V::Omit, v]))
    }
    fn solid(&mut self) -> (ExtrudedAreaSolid, V) {
        let rect = self.ch.deviate(2) == 0;
        let (s, vp, vd, h) = if rect {
            let (p, vp) = self.give("rectangle", Self::rectangle);
            let (d, vd) = self.give("direction3", Self::direction3);
            let h = self.num();
            (ExtrudedAreaSolid::new(p, d, h, &mut self.ifc), vp, vd, h)
        } else {
            let (p, vp) = self.give("arbitrary", Self::arbitrary);
            let (d, vd) = self.give("direction3", Self::direction3);
            let h = self.num();
            (ExtrudedAreaSolid::new(p, d, h, &mut self.ifc), vp, vd, h)
        };
        let (s, at) = if self.ch.deviate(2) == 1 {
            let (a, v) = self.give("axis3", Self::axis3);
            (s.position(a, &mut self.ifc), v)
        } else {
            (s, V::Omit)
        };
        (s, ent("IFCEXTRUDEDAREASOLID", vec![vp, at, vd, V::Num(h)]))
    }
    fn context(&mut self) -> (TypedId<GeometricRepresentationSubContext>, V) {
        let id = self.sub + self.ch.deviate(2) as u64;
        (typed(id), V::Ref(id))
    }
    fn shape(&mut self, depth: usize) -> (ShapeRepresentation, V) {
        let (c, vc) = self.context();
        let (i, vi) = [
            (RepresentationIdentifier::Body, "Body"),
            (RepresentationIdentifier::Axis, "Axis"),
            (RepresentationIdentifier::Surface, "Surface"),
        ][self.ch.deviate(3)]
        .clone();
        let (t, vt) = [
            (RepresentationType::SweptSolid, "SweptSolid"),
            (RepresentationType::Surface, "Surface"),
            (RepresentationType::MappedRepresentation, "MappedRepresentation"),
        ][self.ch.deviate(3)]
        .clone();
        let mut s = ShapeRepresentation::new(c, i, t, &mut self.ifc);
        let mut items = vec![];
        let n = if self.sized.0 == 1 && depth == 0 { self.sized.1 } else { [1, 0, 2, 3][self.ch.deviate(4)] };
        for _ in 0..n {
            match self.ch.deviate(if depth == 0 { 3 } else { 2 }) {
                0 => {
                    let x = self.solid();
                    let (x, v) = self.here(x);
                    s = s.add_item(x, &mut self.ifc);
                    items.push(v);
                }
                1 => {
                    let x = self.polyline();
                    let (x, v) = self.here(x);
                    s = s.add_item(x, &mut self.ifc);
                    items.push(v);
                }
                _ => {
                    let x = self.mapped();
                    let (x, v) = self.here(x);
                    s = s.add_item(x, &mut self.ifc);
                    items.push(v);
                }
            }
        }
        let v = ent("IFCSHAPEREPRESENTATION", vec![vc, V::Str(vi.into()), V::Str(vt.into()), V::List(items)]);
        (s, v)
    }
    fn map(&mut self) -> (RepresentationMap, V) {
        let (a, va) = self.give("axis3", Self::axis3);
        let (s, vs) = self.give("shape", |p| p.shape(1));
        (RepresentationMap::new(a, s, &mut self.ifc), ent("IFCREPRESENTATIONMAP", vec![va, vs]))
    }
    fn mapped(&mut self) -> (MappedItem, V) {
        let (m, vm) = self.give("map", Self::map);
        if self.ch.deviate(2) == 0 {
            let (t, vt) = self.give("uniform", Self::uniform);
            (MappedItem::new(m, t, &mut self.ifc), ent("IFCMAPPEDITEM", vec![vm, vt]))
        } else {
            let (t, vt) = self.give("nonuniform", Self::nonuniform);
            (MappedItem::new(m, t, &mut self.ifc), ent("IFCMAPPEDITEM", vec![vm, vt]))
        }
    }
    fn uniform(&mut self) -> (CartesianTransformationOperator3D, V) {
        let (o, vo) = self.give("point3", Self::point3);
        let (x, vx) = self.give("direction3", Self::direction3);
        let (y, vy) = self.give("direction3", Self::direction3);
        let (z, vz) = self.give("direction3", Self::direction3);
        let s = self.num();
        (
            CartesianTransformationOperator3D::new(o, (x, y, z), s, &mut self.ifc),
            ent("IFCCARTESIANTRANSFORMATIONOPERATOR3D", vec![vx, vy, vo, V::Num(s), vz]),
        )
    }
    fn nonuniform(&mut self) -> (CartesianTransformationOperator3DnonUniform, V) {
        let (o, vo) = self.give("point3", Self::point3);
        let (x, vx) = self.give("direction3", Self::direction3);
        let (y, vy) = self.give("direction3", Self::direction3);
        let (z, vz) = self.give("direction3", Self::direction3);
        let (a, b, c) = (self.num(), self.num(), self.num());
        (
            CartesianTransformationOperator3DnonUniform::new(o, (x, y, z), (a, b, c), &mut self.ifc),
            ent("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", vec![vx, vy, vo, V::Num(a), vz, V::Num(b), V::Num(c)]),
        )
    }
    fn placement(&mut self) -> (LocalPlacement, V) {
        let (mut p, va) = match self.ch.deviate(2) {
            0 => {
                let (a, v) = self.give("axis3", Self::axis3);
                (LocalPlacement::new(a, &mut self.ifc), v)
            }
            _ => {
                let (a, v) = self.give("axis2", Self::axis2);
                (LocalPlacement::new(a, &mut self.ifc), v)
            }
        };
        let mut rel = V::Omit;
        if self.ch.deviate(2) == 1 {
            let (a, v) = self.give("placement", |p| {
                let (a, v) = p.give("axis3", Self::axis3);
                (LocalPlacement::new(a, &mut p.ifc), ent("IFCLOCALPLACEMENT", vec![V::Omit, v]))
            });
            p = p.relative_to(a, &mut self.ifc);
            rel = v;
        }
        (p, ent("IFCLOCALPLACEMENT", vec![rel, va]))
    }
    /// a placement relative to that of a product
    fn relative(&mut self) -> (LocalPlacement, V) {
        let (p, vp) = self.give("placement", Self::placement);
        macro_rules! rel {
            ($t:ident) => {{
                // several products, of which only one is meant
                let other = $t::new("other").object_placement(typed::<LocalPlacement>(2), &mut self.ifc);
                let other = self.ifc.data.insert_new(other);
                let x = $t::new("n").object_placement(p, &mut self.ifc);
                let id = self.ifc.data.insert_new(x);
                let mut last = $t::new("last");
                if self.ch.deviate(2) == 1 {
                    last = last.object_placement(typed::<LocalPlacement>(2), &mut self.ifc);
                }
                self.ifc.data.insert_new(last);
                self.count += 3;
                let _ = other;
                let (a, va) = self.give("axis3", Self::axis3);
                (LocalPlacement::new_relative(a, id, &mut self.ifc), va)
            }};
        }
        let (l, va) = match self.ch.deviate(6) {
            0 => rel!(Site),
            1 => rel!(Building),
            2 => rel!(Storey),
            3 => rel!(OpeningElement),
            4 => rel!(Wall),
            _ => rel!(Slab),
        };
        (l, ent("IFCLOCALPLACEMENT", vec![vp, va]))
    }
    /// the ready-made product shapes
    fn product_shape(&mut self, k: usize) -> (ProductDefinitionShape, V) {
        let (vc, profile, dir, h, s);
        let swept = |vc: V, profile: V, dir: V, h: f64| {
            let solid = ent("IFCEXTRUDEDAREASOLID", vec![profile, V::Omit, dir, V::Num(h)]);
            let shape = ent(
                "IFCSHAPEREPRESENTATION",
                vec![vc, V::Str("Body".into()), V::Str("SweptSolid".into()), V::List(vec![solid])],
            );
            ent("IFCPRODUCTDEFINITIONSHAPE", vec![V::Omit, V::Omit, V::List(vec![shape])])
        };
        let curve = |kind: &str, v: V| {
            let l = ent(kind, vec![v, V::Omit]);
            let c = ent("IFCINDEXEDPOLYCURVE", vec![l, V::Omit, V::Omit]);
            ent("IFCARBITRARYCLOSEDPROFILEDEF", vec![enu("AREA"), V::Omit, c])
        };
        // representation, solid, profile, direction and two more
        self.count += 6;
        match k {
            0 => {
                let (l, hh, t) = (self.num(), self.num(), self.num());
                let (d, vd) = self.direction3();
                let (c, v) = self.context();
                (vc, dir, h) = (v, vd, hh);
                let at = ent("IFCCARTESIANPOINT", vec![list(&[l * 0.5, t * 0.5])]);
                let at = ent("IFCAXIS2PLACEMENT2D", vec![at, V::Omit]);
                profile = ent("IFCRECTANGLEPROFILEDEF", vec![enu("AREA"), V::Omit, at, V::Num(l), V::Num(t)]);
                s = ProductDefinitionShape::new_rectangular_shape(l, hh, t, d, c, &mut self.ifc);
            }
            1 => {
                let (x, v) = self.coords2();
                h = self.num();
                let (c, v2) = self.context();
                vc = v2;
                dir = ent("IFCDIRECTION", vec![list(&[0., 0., 1.])]);
                profile = curve("IFCCARTESIANPOINTLIST2D", v);
                s = ProductDefinitionShape::new_horizontal_arbitrary_shape(x.into_iter(), h, c, &mut self.ifc);
            }
            2 => {
                let (x, _) = self.coords2();
                h = self.num();
                let (c, v2) = self.context();
                vc = v2;
                dir = ent("IFCDIRECTION", vec![list(&[0., 1., 0.])]);
                let v = V::List(x.iter().map(|p| list(&[p.x, 0., p.y])).collect());
                profile = curve("IFCCARTESIANPOINTLIST3D", v);
                s = ProductDefinitionShape::new_vertical_arbitrary_shape(x.into_iter(), h, c, &mut self.ifc);
            }
            _ => {
                let (x, v) = self.coords3();
                h = self.num();
                let (d, vd) = self.unit3();
                let (c, v2) = self.context();
                (vc, dir) = (v2, vd);
                profile = curve("IFCCARTESIANPOINTLIST3D", v);
                s = ProductDefinitionShape::new_arbitrary_shape(x.into_iter(), h, d, c, &mut self.ifc);
            }
        }
        (s, swept(vc, profile, dir, h))
    }
    fn put<T: IfcType>(&mut self, sort: &'static str, (t, v): (T, V)) {
        self.count += 1;
        let id = self.ifc.data.insert_new(t).id().0 as u64;
        self.log.push(format!("{sort} is #{id}"));
        self.last.insert(sort, (id, v.clone()));
        self.made.push((id, v));
    }
    fn step(&mut self, k: Option<usize>) {
        macro_rules! put {
            ($s:literal, $f:ident $(, $a:expr)?) => {{
                let x = self.$f($($a)?);
                self.put($s, x)
            }};
        }
        match k.unwrap_or_else(|| self.ch.deviate(STEPS)) {
            k @ 0..=3 => put!("product shape", product_shape, k),
            4 => put!("shape", shape, 0),
            5 => put!("solid", solid),
            6 => put!("mapped", mapped),
            7 => put!("relative", relative),
            8 => put!("placement", placement),
            9 => put!("map", map),
            10 => put!("polyline", polyline),
            11 => put!("indexed", indexed),
            12 => put!("rectangle", rectangle),
            13 => put!("arbitrary", arbitrary),
            14 => put!("axis2", axis2),
            15 => put!("axis3", axis3),
            16 => put!("direction2", direction2),
            17 => put!("direction3", direction3),
            _ => put!("point3", point3),
        }
    }
}

/// a statement with its references replaced by what they refer to
fn expand(f: &BTreeMap<u64, step::Ent>, v: &V, base: u64, depth: usize) -> Result<V, String> {
    if depth > 60 {
        return Err("references go round".into());
    }
    Ok(match v {
        V::Ref(n) if *n > base => {
            let e = f.get(n).ok_or(format!("#{n} does not exist"))?;
            V::Typed(e.name.clone(), e.args.iter().map(|a| expand(f, a, base, depth + 1)).collect::<Result<_, _>>()?)
        }
        V::List(l) => V::List(l.iter().map(|a| expand(f, a, base, depth + 1)).collect::<Result<_, _>>()?),
        v => v.clone(),
    })
}
fn near(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(a), V::Num(b)) => (a - b).abs() <= 1e-13 * a.abs().max(b.abs()),
        (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(a, b)),
        (V::Typed(n, a), V::Typed(m, b)) => n == m && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| near(a, b)),
        _ => a == b,
    }
}

pub fn c14(rep: &Report) -> &'static str {
    let bound = rep.pick(3, 4);
    rep.bound("deviations", bound + 1);
    rep.bound("deviations_with_9_numbers", bound);
    rep.bound("deviations_with_40_numbers", rep.pick(2, 3));
    rep.bound("objects_made_per_program", 3);
    rep.assume("directions are not the zero vector");
    rep.assume("products given as reference of a placement have one");
    let base: Vec<(u64, String)> = BASE.iter().map(|(i, t)| (*i, t.to_string())).collect();
    let text = crate::schema::file_of(&base);
    let body = |ch: &mut Ch, values: usize, sized: (usize, usize)| {
        let mut out = String::new();
        let mut log = vec![];
        let r = guard(|| -> Result<(), String> {
            // objects before may leave a gap and be followed by others
            let mut p = Prog {
                ch,
                ifc: *load_ok(&text)?,
                n: 0,
                made: vec![],
                count: BASE.len(),
                last: BTreeMap::new(),
                sub: 4,
                values,
                sized,
                log: vec![],
            };
            if p.ch.deviate(2) == 1 {
                p.ifc.data.insert(Id(50), Material::new("far"));
                p.count += 1;
            }
            let n = if sized.0 == 2 { sized.1 } else { [1, 2, 3][p.ch.deviate(3)] };
            // many steps are all of the same sort
            let all = (sized.0 == 2).then(|| p.ch.deviate(STEPS));
            for _ in 0..n {
                p.step(all);
            }
            rep.step(p.count as u64);
            out = p.ifc.to_string();
            log = std::mem::take(&mut p.log);
            let f = step::file(&out)?;
            if f.data.len() != p.count {
                return Err(format!("the file has {} objects instead of {}", f.data.len(), p.count));
            }
            for ((i, t), got) in BASE.iter().zip(&f.data) {
                if *i != got.0 || *t != got.2 {
                    return Err(format!("the object #{i} before is now #{}= {}", got.0, got.2));
                }
            }
            let m: BTreeMap<u64, step::Ent> = f.data.into_iter().map(|(i, e, _)| (i, e)).collect();
            for (id, want) in &p.made {
                let got = expand(&m, &V::Ref(*id), BASE.len() as u64, 0)?;
                if !near(want, &got) {
                    return Err(format!("#{id} is\n{got}\ninstead of\n{want}"));
                }
            }
            Ok(())
        })
        .unwrap_or_else(|e| Err(format!("panicked: {e}")));
        rep.state(&out);
        match r {
            Ok(()) => {
                rep.trace();
                if ch.path().len() % 41 == 0 {
                    rep.sample(clip(&log.join(", "), 300));
                }
            }
            Err(e) => rep.violation(format!("{:?}", ch.path()), clip(&e, 900), out.clone()),
        }
    };
    let mut n = explore(rep, bound, |ch| body(ch, FEW, (9, 0)));
    n += explore(rep, rep.pick(2, 3), |ch| body(ch, VALUES.len(), (9, 0)));
    n += explore(rep, bound + 1, |ch| body(ch, 2, (9, 0)));
    // long lists of points and items, and long programs
    for size in sizes(rep) {
        for list in 0..3 {
            n += explore(rep, if [9, 33].contains(&size) || !rep.quick() && size <= 40 { 2 } else { 1 }, |ch| {
                ch.limit = 24;
                body(ch, 2, (list, size))
            });
        }
    }
    directions(rep);
    rep.bound("programs", n);
    "stateless exhaustive exploration of geometry construction programs (choice tree, deviation-bounded); the written statements, with references replaced by what they refer to, compared with a model"
}

/// every direction with components of a table, among them ones of nearly length one
fn directions(rep: &Report) {
    let mut c = vec![0., 1., -1., 1.00005, 0.99995, 1.000001, -1.0000000001, 0.6, -0.8, 1e-9, 1e-5, 0.01, 1e5];
    if !rep.quick() {
        c.extend([0.5, 0.999, 1.1, 2., -3., 1e-15, -1e-3, 0.014, 1e10, -1e15, 1e100, 1e-100, 0.70710678118, 0.5773502692, 12., 1e-7, -0.]);
    }
    rep.bound("direction_components", c.len() as u64);
    let n = c.len();
    crate::explore::par_for(n * n * (n + 1), |x| {
        let (a, b, k) = (c[x % n], c[x / n % n], x / n / n);
        let v: Vec<f64> = if k == n { vec![a, b] } else { vec![a, b, c[k]] };
        // scaled first, the squares may be out of range
        let m = v.iter().fold(0f64, |m, x| m.max(x.abs()));
        if m == 0. || rep.stop() {
            return;
        }
        let l = v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt();
        let want: Vec<f64> = v.iter().map(|x| x / m / l).collect();
        let got = guard(|| {
            if k == n {
                Direction2D::from(DVec2::new(a, b)).to_string()
            } else {
                Direction3D::from(DVec3::new(a, b, c[k])).to_string()
            }
        });
        rep.state(&(x, "direction"));
        rep.step(1);
        let ok = match &got {
            Ok(t) => match step::ent(t.trim_end_matches(';')) {
                Ok(e) => match &e.args[..] {
                    [V::List(l)] if l.len() == want.len() => l.iter().zip(&want).all(|(g, w)| matches!(g, V::Num(g) if (g - w).abs() < 1e-12)),
                    _ => false,
                },
                Err(_) => false,
            },
            Err(_) => false,
        };
        if ok {
            rep.trace();
        } else {
            rep.violation(format!("direction {v:?}"), format!("the direction {v:?} is written as {got:?} instead of {want:?}"), format!("{v:?}"));
        }
    });
}
