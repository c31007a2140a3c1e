//! C22: the resolving accessors (mappings, shapes, items, contexts,
//! placements) against a model of the geometry written in the file.
use crate::common::*;
use crate::explore::{explore, Ch};
use crate::report::{guard, Report};
use crate::schema::*;
use crate::step;
use ifc_rs::prelude::*;
use ifc_rs::IFC;

type R<T> = Result<T, String>;

/// a file under construction; every number in it is used once
struct Gen<'c, 'd> {
    ch: &'c mut Ch<'d>,
    lines: Vec<(u64, String)>,
    n: u64,
    down: bool,
    main: u64,
    sub: u64,
    dummies: usize,
    /// what the numbers are: all different, or coinciding in some way
    mode: usize,
    /// optional attributes are given and items are nested unless chosen otherwise
    rich: bool,
    /// a list that is longer than else, and by how much
    sized: Option<(usize, usize)>,
    /// the last object of a sort, which may be used again
    last: std::collections::BTreeMap<&'static str, (u64, String)>,
}

impl Gen<'_, '_> {
    fn add(&mut self, text: String) -> u64 {
        let k = self.lines.len() as u64;
        let top = if self.sized.is_some() { 2_000_000 } else { 5000 };
        let id = if self.down { top - 2 * k } else if k < 4000 { 3 + 2 * k } else { 2003 + 2 * k };
        self.lines.push((id, text));
        id
    }
    /// a deviating choice with its own default in a rich scene
    fn dev(&mut self, n: usize, rich: usize) -> usize {
        (self.ch.deviate(n) + if self.rich { rich } else { 0 }) % n
    }
    fn len<const N: usize>(&mut self, list: usize, small: [usize; N], rich: usize) -> usize {
        match self.sized {
            Some((l, n)) if l == list => n,
            _ => small[self.dev(N, rich)],
        }
    }
    fn num(&mut self) -> f64 {
        self.n += 1;
        match self.mode {
            1 => return 0.,
            2 => return 1.,
            3 => return -0.,
            4 => return self.n as f64 / 1024.,
            5 => return 123456789.5 + self.n as f64,
            _ => {}
        }
        match self.n % 4 {
            0 => self.n as f64 + 0.5,
            1 => self.n as f64,
            2 => -(self.n as f64),
            _ => self.n as f64 / 8.,
        }
    }
    fn vec(&mut self, n: usize) -> Vec<f64> {
        let mut v: Vec<f64> = (0..n).map(|_| self.num()).collect();
        match self.mode {
            6 => v[n - 1] = 0.,
            7 => v[0] = 0.,
            8 => v = vec![v[0]; n],
            _ => {}
        }
        v
    }
    /// a new object, or the last one of its sort once more
    fn share(&mut self, sort: &'static str, make: impl FnOnce(&mut Self) -> (u64, String)) -> (u64, String) {
        if let Some(x) = self.last.get(sort) {
            if self.ch.deviate(2) == 1 {
                return x.clone();
            }
        }
        let x = make(self);
        self.last.insert(sort, x.clone());
        x
    }
    fn point(&mut self, dim: usize) -> (u64, String) {
        self.share(["", "", "point2", "point3"][dim], |g| {
            let v = g.vec(dim);
            (g.add(format!("IFCCARTESIANPOINT({})", tuple(&v))), nums(&v))
        })
    }
    fn dir(&mut self, dim: usize) -> (u64, String) {
        self.share(["", "", "dir2", "dir3"][dim], |g| {
            let v = g.vec(dim);
            (g.add(format!("IFCDIRECTION({})", tuple(&v))), nums(&v))
        })
    }
    /// an optional attribute: its text and what the accessor gives; omitted by default
    fn opt(&mut self, make: impl FnOnce(&mut Self) -> (String, String)) -> (String, String) {
        if self.dev(2, 1) == 0 {
            return ("$".into(), "-".into());
        }
        make(self)
    }
    fn opt_dir(&mut self, dim: usize) -> (String, String) {
        self.opt(|g| {
            let (i, e) = g.dir(dim);
            (format!("#{i}"), e)
        })
    }
    fn opt_num(&mut self) -> (String, String) {
        self.opt(|g| {
            let v = g.num();
            (real(v), nums(&[v]))
        })
    }
    fn axis2(&mut self) -> (u64, String) {
        self.share("axis2", Self::new_axis2)
    }
    fn new_axis2(&mut self) -> (u64, String) {
        let (l, el) = self.point(2);
        let (x, ex) = self.opt_dir(2);
        (self.add(format!("IFCAXIS2PLACEMENT2D(#{l},{x})")), format!("axis2 {el} x {ex}"))
    }
    fn axis3(&mut self) -> (u64, String) {
        self.share("axis3", Self::new_axis3)
    }
    fn new_axis3(&mut self) -> (u64, String) {
        let (l, el) = self.point(3);
        let (z, ez) = self.opt_dir(3);
        let (x, ex) = self.opt_dir(3);
        (self.add(format!("IFCAXIS2PLACEMENT3D(#{l},{z},{x})")), format!("axis3 {el} z {ez} x {ex}"))
    }
    fn points(&mut self, dim: usize) -> (Vec<u64>, String) {
        let n = self.len(0, [2, 1, 3], 2);
        let mut ids = Vec::new();
        let mut e = format!("points{dim}");
        for _ in 0..n {
            let (i, v) = self.point(dim);
            ids.push(i);
            e += &format!(" {v}");
        }
        (ids, e)
    }
    fn polyline(&mut self, dim: usize) -> (u64, String) {
        self.share(["", "", "line2", "line3"][dim], |g| g.new_polyline(dim))
    }
    fn new_polyline(&mut self, dim: usize) -> (u64, String) {
        let (mut ids, mut e) = self.points(dim);
        if self.ch.deviate(2) == 1 {
            // closed: the first point once more
            ids.push(ids[0]);
            let first = e.split(' ').nth(1).unwrap().to_string();
            e += &format!(" {first}");
        }
        (self.add(format!("IFCPOLYLINE({})", refs_text(&ids))), e)
    }
    fn profile(&mut self) -> (u64, String) {
        self.share("profile", Self::new_profile)
    }
    fn new_profile(&mut self) -> (u64, String) {
        let k = self.dev(7, 1 + self.n as usize % 6);
        let ty = [".AREA.", ".CURVE."][self.ch.deviate(2)];
        match k {
            0 | 1 | 2 => {
                let (p, e) = match k {
                    0 => ("$".into(), "-".into()),
                    1 => {
                        let (i, e) = self.axis2();
                        (format!("#{i}"), e)
                    }
                    _ => {
                        let (i, e) = self.axis3();
                        (format!("#{i}"), e)
                    }
                };
                let (x, y) = (self.num(), self.num());
                let id = self.add(format!("IFCRECTANGLEPROFILEDEF({ty},$,{p},{},{})", real(x), real(y)));
                (id, format!("rectangle {} at {e}", nums(&[x, y])))
            }
            _ => {
                let (c, e) = match k {
                    3 | 4 => self.polyline(k - 1),
                    _ => {
                        let dim = k - 3;
                        let n = self.len(1, [2, 1, 3], 2);
                        let vs: Vec<Vec<f64>> = (0..n).map(|_| self.vec(dim)).collect();
                        let l = self.add(format!(
                            "IFCCARTESIANPOINTLIST{dim}D(({}),$)",
                            vs.iter().map(|v| tuple(v)).collect::<Vec<_>>().join(",")
                        ));
                        let id = self.add(format!("IFCINDEXEDPOLYCURVE(#{l},$,.F.)"));
                        (id, vs.iter().fold(format!("points{dim}"), |s, v| s + " " + &nums(v)))
                    }
                };
                let id = self.add(format!("IFCARBITRARYCLOSEDPROFILEDEF({ty},$,#{c})"));
                (id, format!("arbitrary {ty} {e}"))
            }
        }
    }
    fn solid(&mut self) -> (u64, String) {
        self.share("solid", Self::new_solid)
    }
    fn new_solid(&mut self) -> (u64, String) {
        let (p, ep) = self.profile();
        let (a, ea) = self.opt(|g| {
            let (i, e) = g.axis3();
            (format!("#{i}"), e)
        });
        let (d, ed) = self.dir(3);
        let h = self.num();
        let id = self.add(format!("IFCEXTRUDEDAREASOLID(#{p},{a},#{d},{})", real(h)));
        (id, format!("solid [{ep}] at {ea} along {ed} by {}", nums(&[h])))
    }
    fn transform(&mut self) -> (u64, String) {
        self.share("transform", Self::new_transform)
    }
    fn new_transform(&mut self) -> (u64, String) {
        let non = self.dev(2, 1) == 1;
        let (x, ex) = self.opt_dir(3);
        let (y, ey) = self.opt_dir(3);
        let (o, eo) = self.opt(|g| {
            let (i, e) = g.point(3);
            (format!("#{i}"), e)
        });
        let (s, es) = self.opt_num();
        let (z, ez) = self.opt_dir(3);
        let base = format!("x {ex} y {ey} z {ez} by {eo} scale {es}");
        if non {
            let (s2, es2) = self.opt_num();
            let (s3, es3) = self.opt_num();
            let t = format!("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM({x},{y},{o},{s},{z},{s2},{s3})");
            (self.add(t), format!("nonuniform {base} {es2} {es3}"))
        } else {
            (self.add(format!("IFCCARTESIANTRANSFORMATIONOPERATOR3D({x},{y},{o},{s},{z})")), format!("uniform {base}"))
        }
    }
    fn mapped(&mut self, depth: usize) -> (u64, String) {
        self.share(["mapped0", "mapped1", "mapped2"][depth], |g| g.new_mapped(depth))
    }
    fn new_mapped(&mut self, depth: usize) -> (u64, String) {
        let (o, eo) = self.axis3();
        let (r, er) = self.shape(depth + 1);
        let m = self.add(format!("IFCREPRESENTATIONMAP(#{o},#{r})"));
        let (t, et) = self.transform();
        (self.add(format!("IFCMAPPEDITEM(#{m},#{t})")), format!("mapped from {eo} {{{er}}} by {et}"))
    }
    fn shape(&mut self, depth: usize) -> (u64, String) {
        self.share(["shape0", "shape1", "shape2"][depth], |g| g.new_shape(depth))
    }
    fn new_shape(&mut self, depth: usize) -> (u64, String) {
        let (c, ec) = [(self.sub, "sub"), (self.main, "main")][self.ch.deviate(2)];
        let n = if depth == 0 { self.len(2, [1, 0, 2, 3], 2) } else { [1, 0, 2, 3][self.dev(4, 2)] };
        let mut ids = Vec::new();
        let mut e = vec![];
        for nth in 0..n {
            let kinds = if depth < 2 { 4 } else { 3 };
            let k = self.dev(kinds, if nth == 0 { kinds - 1 } else { nth - 1 });
            let (i, x) = match k {
                0 => self.solid(),
                1 => {
                    let (i, x) = self.polyline(3);
                    (i, format!("line {x}"))
                }
                2 => {
                    self.dummies += 1;
                    let t = format!("IFCBOUNDINGBOX(#1,{},2.,3.)", self.dummies);
                    (self.add(t.clone()), format!("unsupported {t}"))
                }
                _ => self.mapped(depth),
            };
            ids.push(i);
            e.push(x);
        }
        let id = self.add(format!("IFCSHAPEREPRESENTATION(#{c},'Body',$,{})", refs_text(&ids)));
        let of = |p: &str| e.iter().filter(|x| x.starts_with(p)).cloned().collect::<Vec<_>>().join(";");
        let e = format!(
            "shape in {ec}(context) items <{}> solids <{}> lines <{}> mapped <{}>",
            e.join(";"),
            of("solid"),
            of("line"),
            of("mapped")
        );
        (id, e)
    }
}

fn real(v: f64) -> String {
    let s = format!("{v:?}");
    s.strip_suffix('0').filter(|s| s.ends_with('.')).map(String::from).unwrap_or(s)
}
fn tuple(v: &[f64]) -> String {
    format!("({})", v.iter().map(|x| real(*x)).collect::<Vec<_>>().join(","))
}
fn nums(v: &[f64]) -> String {
    v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",")
}
fn refs_text(v: &[u64]) -> String {
    format!("({})", v.iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(","))
}

/// numbers of a written point or direction
fn coords(t: &impl ToString) -> String {
    let text = t.to_string();
    match step::ent(text.trim_end_matches(';')) {
        Ok(e) => match &e.args[0] {
            step::V::List(l) => nums(
                &l.iter().map(|v| if let step::V::Num(x) = v { *x } else { f64::NAN }).collect::<Vec<_>>(),
            ),
            _ => text,
        },
        Err(_) => text,
    }
}
fn oc<T: ToString>(t: &Option<T>) -> String {
    t.as_ref().map(coords).unwrap_or("-".into())
}
fn on(t: Option<f64>) -> String {
    t.map(|x| nums(&[x])).unwrap_or("-".into())
}
fn axis2(a: &MappedAxis2D) -> String {
    format!("axis2 {} x {}", coords(a.location), oc(&a.local_x))
}
fn axis3(a: &MappedAxis3D) -> String {
    format!("axis3 {} z {} x {}", coords(a.location), oc(&a.local_z), oc(&a.local_x))
}
fn points(p: &Points) -> String {
    match p {
        Points::D2(v) => v.iter().fold("points2".into(), |s, p| s + " " + &nums(&[p.x, p.y])),
        Points::D3(v) => v.iter().fold("points3".into(), |s, p| s + " " + &nums(&[p.x, p.y, p.z])),
    }
}
fn solid(s: &ExtrudedAreaSolid, ifc: &IFC) -> String {
    let m = s.mappings(ifc);
    let p = match &m.profile_def {
        MappedProfileDef::Rectangle(r) => {
            let at = match &r.axis {
                None => "-".into(),
                Some(AxisMappings::D2(a)) => axis2(a),
                Some(AxisMappings::D3(a)) => axis3(a),
            };
            format!("rectangle {} at {at}", nums(&[r.x_dim, r.y_dim]))
        }
        MappedProfileDef::Arbitrary(a) => format!("arbitrary {} {}", a.profile_type, points(&a.points)),
    };
    let at = m.position.as_ref().map(axis3).unwrap_or("-".into());
    format!("solid [{p}] at {at} along {} by {}", coords(m.extruded_direction), nums(&[m.depth]))
}
fn line_item(l: &PolyLine, ifc: &IFC) -> String {
    format!("line {}", points(&l.points(ifc)))
}
fn mapped(m: &MappedItem, ifc: &IFC) -> String {
    let ((origin, repr), t) = m.mappings(ifc);
    macro_rules! base {
        ($b:expr) => {
            format!(
                "x {} y {} z {} by {} scale {}",
                oc(&$b.axis_x),
                oc(&$b.axis_y),
                oc(&$b.axis_z),
                oc(&$b.translation),
                on($b.scale)
            )
        };
    }
    let t = match t {
        MappedTransform::Uniform(u) => format!("uniform {}", base!(u)),
        MappedTransform::NonUniform(u) => format!("nonuniform {} {} {}", base!(u), on(u.scale_y), on(u.scale_z)),
    };
    format!("mapped from {} {{{}}} by {t}", axis3(&origin), shape(repr, ifc))
}
fn shape(s: &ShapeRepresentation, ifc: &IFC) -> String {
    let items: Vec<String> = s
        .items(ifc)
        .map(|i| match i {
            ShapeItemEnum::MappedItem(m) => mapped(m, ifc),
            ShapeItemEnum::ExtrudedAreaSolid(s) => solid(s, ifc),
            ShapeItemEnum::Dummy(d) => format!("unsupported {}", d.to_string().trim_end_matches(';')),
            ShapeItemEnum::Other(o) => match o.downcast_ref::<PolyLine>() {
                Some(l) => line_item(l, ifc),
                None => format!("other {o}"),
            },
        })
        .collect();
    let context = match s.context_of_items.0 as u64 {
        1 => "main",
        2 => "sub",
        _ => "?",
    };
    let parent = std::ptr::eq(s.parent_context(ifc), ifc.data.get(TypedId::new(Id(1))));
    format!(
        "shape in {context}({}) items <{}> solids <{}> lines <{}> mapped <{}>",
        if parent { "context" } else { "another context" },
        items.join(";"),
        s.items_of::<ExtrudedAreaSolid>(ifc).map(|x| solid(x, ifc)).collect::<Vec<_>>().join(";"),
        s.items_of::<PolyLine>(ifc).map(|x| line_item(x, ifc)).collect::<Vec<_>>().join(";"),
        s.items_of::<MappedItem>(ifc).map(|x| mapped(x, ifc)).collect::<Vec<_>>().join(";"),
    )
}

const PRODUCTS: [&str; 11] = [
    "Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice", "OpeningElement", "Site", "Building", "Storey", "Space",
];

fn typed<T: IfcType>(id: u64) -> TypedId<T> {
    TypedId::new(Id(id as usize))
}

/// what the accessors of a product say
fn product(ifc: &IFC, kind: &str, id: u64) -> String {
    let shapes = |p: &Product| p.shapes(ifc).iter().map(|s| shape(s, ifc)).collect::<Vec<_>>().join(" | ");
    let pid = |i: Option<Id>| i.map(|i| i.0.to_string()).unwrap_or("-".into());
    macro_rules! with {
        ($t:ident) => {
            shapes(ifc.data.get(typed::<$t>(id)))
        };
    }
    macro_rules! transformable {
        ($t:ident) => {
            pid(ifc.data.get(typed::<$t>(id)).shape().map(|i| i.id()))
        };
    }
    macro_rules! placed {
        ($t:ident) => {
            pid(ifc.get_placement_id(typed::<$t>(id)))
        };
    }
    let kinds = |t: &dyn IfcType| match t.to_structure() {
        None => "none".to_string(),
        Some(s) => match s.structure_type() {
            None => "untyped".into(),
            Some(StructureType::Wall(x)) => format!("Wall {}", same(x, t)),
            Some(StructureType::Slab(x)) => format!("Slab {}", same(x, t)),
            Some(StructureType::Roof(x)) => format!("Roof {}", same(x, t)),
            Some(StructureType::Window(x)) => format!("Window {}", same(x, t)),
            Some(StructureType::Door(x)) => format!("Door {}", same(x, t)),
            Some(StructureType::ShadingDevice(x)) => format!("ShadingDevice {}", same(x, t)),
        },
    };
    let s = kinds(ifc.data.get_untyped(Id(id as usize)));
    let (sh, tr, pl) = match kind {
        "Wall" => (with!(Wall), transformable!(Wall), placed!(Wall)),
        "Slab" => (with!(Slab), transformable!(Slab), placed!(Slab)),
        "Roof" => (with!(Roof), transformable!(Roof), "?".into()),
        "Window" => (with!(Window), transformable!(Window), "?".into()),
        "Door" => (with!(Door), transformable!(Door), "?".into()),
        "ShadingDevice" => (with!(ShadingDevice), transformable!(ShadingDevice), "?".into()),
        "OpeningElement" => (with!(OpeningElement), transformable!(OpeningElement), placed!(OpeningElement)),
        "Site" => (with!(Site), "?".into(), placed!(Site)),
        "Building" => (with!(Building), "?".into(), placed!(Building)),
        "Storey" => (with!(Storey), "?".into(), placed!(Storey)),
        _ => (with!(Space), "?".into(), "?".into()),
    };
    format!("{kind} structure {s} shape {tr} placement {pl}: {sh}")
}
fn same<T: IfcType>(a: &T, b: &dyn IfcType) -> bool {
    b.downcast_ref::<T>().is_some_and(|b| std::ptr::eq(a, b))
}

fn scene(s: &Schema, ch: &mut Ch, rich: bool, sized: Option<(usize, usize)>) -> (String, &'static str, u64, String) {
    let mut g = Gen { ch, lines: vec![], n: 0, down: false, main: 1, sub: 2, dummies: 0, mode: 0, rich, sized, last: Default::default() };
    g.down = g.ch.deviate(2) == 1;
    g.mode = g.ch.deviate(9);
    let kind = PRODUCTS[g.ch.deviate(PRODUCTS.len())];
    let k = &s.kinds[s.idx(kind)];
    let mut args: Vec<String> = k
        .attrs
        .iter()
        .map(|a| if matches!(a, K::Ref(_)) { "#9000".into() } else { minimal(s, a) })
        .collect();
    let place = match g.dev(4, 1) {
        0 => None,
        1 => Some(g.axis3().0),
        2 => Some(g.point(3).0),
        _ => {
            let (a, _) = g.axis3();
            Some(g.add(format!("IFCLOCALPLACEMENT($,#{a})")))
        }
    };
    let n = match g.sized {
        Some((3, n)) => n,
        _ => [1usize, 0, 2, 3, 9999][g.ch.deviate(5)],
    };
    let mut ids = vec![];
    let mut e = vec![];
    if n != 9999 {
        for _ in 0..n {
            let (i, x) = g.shape(0);
            ids.push(i);
            e.push(x);
        }
    }
    let repr = (n != 9999).then(|| g.add(format!("IFCPRODUCTDEFINITIONSHAPE($,$,{})", refs_text(&ids))));
    let opt = |i: Option<u64>| i.map(|i| format!("#{i}")).unwrap_or("$".into());
    let pid = |i: Option<u64>| i.map(|i| i.to_string()).unwrap_or("-".into());
    args[5] = opt(place);
    args[6] = opt(repr);
    let id = g.add(line(k.names[0], &args));
    let structure = match kind {
        "Site" | "Building" | "Storey" | "Space" => "untyped".to_string(),
        "OpeningElement" => "none".into(),
        k => format!("{k} true"),
    };
    let tr = if ["Site", "Building", "Storey", "Space"].contains(&kind) { "?".into() } else { pid(repr) };
    let pl = if ["Wall", "Slab", "OpeningElement", "Site", "Building", "Storey"].contains(&kind) {
        pid(place)
    } else {
        "?".into()
    };
    let want = format!("{kind} structure {structure} shape {tr} placement {pl}: {}", e.join(" | "));
    let mut lines = vec![
        (1u64, "IFCGEOMETRICREPRESENTATIONCONTEXT($,'Model',3,$,#9001,$)".to_string()),
        (2, "IFCGEOMETRICREPRESENTATIONSUBCONTEXT('Body','Model',*,*,*,*,#1,$,.MODEL_VIEW.,$)".into()),
        (9000, "IFCCOLUMN('x')".into()),
        (9001, "IFCAXIS2PLACEMENT3D(#9002,$,$)".into()),
        (9002, "IFCCARTESIANPOINT((0.,0.,0.))".into()),
        // a second pair, which no shape uses
        (9003, "IFCGEOMETRICREPRESENTATIONCONTEXT($,'Plan',3,$,#9001,$)".into()),
    ];
    lines.extend(g.lines);
    (file_of(&lines), kind, id, want)
}

pub fn c22(rep: &Report) -> &'static str {
    let s = Schema::new();
    let bound = rep.pick(4, 6);
    rep.bound("deviations", bound);
    rep.bound("nesting_of_mapped_items", 2);
    rep.assume("lines have at least one point, all of one dimension, as the standard demands");
    let body = |ch: &mut Ch, rich: bool, sized: Option<(usize, usize)>| {
        let (text, kind, id, want) = scene(&s, ch, rich, sized);
        rep.state(&text);
        rep.step(text.lines().count() as u64);
        let r: R<()> = load_ok(&text).and_then(|ifc| {
            let got = guard(|| product(&ifc, kind, id)).map_err(|p| format!("panicked: {p}"))?;
            if got == want { Ok(()) } else { Err(format!("resolved to\n{got}\ninstead of\n{want}")) }
        });
        match r {
            Ok(()) => rep.trace(),
            Err(e) => rep.violation(format!("{kind} {:?}", ch.path()), e, text),
        }
        if ch.path().len() % 89 == 0 {
            rep.sample(clip(&want, 300));
        }
    };
    // scenes in which nearly everything is given, first
    let rich = rep.pick(2, 3);
    rep.bound("deviations_from_a_rich_scene", rich);
    let n = explore(rep, rich, |ch| body(ch, true, None));
    rep.bound("rich_scenes", n);
    let n = explore(rep, bound, |ch| body(ch, false, None));
    rep.bound("scenes", n);
    // long lists of points, coordinates, items and shapes
    for n in sizes(rep) {
        for list in 0..4 {
            // the profile that has the list is one or two choices away
            explore(rep, if [9, 33].contains(&n) || !rep.quick() && n <= 40 { 2 } else { 1 }, |ch| {
                ch.limit = 24;
                body(ch, false, Some((list, n)))
            });
        }
    }
    "stateless exhaustive exploration of geometry scenes (choice tree, deviation-bounded), accessor results compared with the model that wrote the scene"
}
