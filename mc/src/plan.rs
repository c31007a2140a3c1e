//! Plans of builder programs: a choice tree generates them, an executor runs
//! them on the real builder. Nothing here knows what the builder should write.
use crate::explore::Ch;
use bevy_math::{DQuat, DVec2, DVec3};
use ifc_rs::prelude::*;
use std::collections::BTreeMap;

pub type P2 = [f64; 2];
pub type P3 = [f64; 3];

#[derive(Clone, Debug)]
pub enum Shape {
    VWall { h: f64, l: f64 },
    VArbWall { c: Vec<P2> },
    ArbWall { c: Vec<P3>, d: P3 },
    HSlab { c: Vec<P2> },
    VSlab { s: P2, e: P2, h: f64 },
    ArbSlab { c: Vec<P3>, d: P3 },
    HRoof { c: Vec<P2> },
    Shading { h: f64, l: f64 },
    Space { c: Vec<P2>, h: f64 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Wall,
    Slab,
    Roof,
    Shading,
    Space,
    Window,
    Opening,
}

impl Shape {
    pub fn kind(&self) -> Kind {
        match self {
            Shape::VWall { .. } | Shape::VArbWall { .. } | Shape::ArbWall { .. } => Kind::Wall,
            Shape::HSlab { .. } | Shape::VSlab { .. } | Shape::ArbSlab { .. } => Kind::Slab,
            Shape::HRoof { .. } => Kind::Roof,
            Shape::Shading { .. } => Kind::Shading,
            Shape::Space { .. } => Kind::Space,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tr {
    pub t: P3,
    /// 0: none, 1: quaternion about z, 2: quaternion about x, 3: explicit axes
    pub rot: usize,
}

#[derive(Clone, Debug)]
pub enum Val {
    Label(String),
    Real(f64),
    Bool(bool),
    Ident(String),
    Thermal(f64),
}

#[derive(Clone, Debug)]
pub struct Prop {
    pub name: String,
    pub val: Val,
    /// the property before it is named as its unit
    pub unit: bool,
}

#[derive(Clone, Debug)]
pub struct Win {
    pub cset: usize,
    pub wtype: usize,
}

#[derive(Clone, Debug)]
pub enum Sub {
    /// wall openings: `d` is None for the vertical form
    WOpen { name: String, h: f64, l: f64, p: P3, d: Option<P3> },
    WWin { name: String, h: f64, w: f64, p: P3, d: P3, win: Win },
    SOpen { name: String, h: f64, l: f64, p: P3 },
    SOpenH { name: String, c: Vec<P2> },
    SOpen3 { name: String, c: Vec<P3> },
    SWin { name: String, h: f64, w: f64, p: P3, win: Win },
    SWinH { name: String, c: Vec<P2>, win: Win },
    SWin3 { name: String, c: Vec<P3>, win: Win },
    Props { name: String, vals: Vec<Prop> },
    Transform(Tr),
}

#[derive(Clone, Debug)]
pub enum Op {
    /// new layers, and which of all layers so far the set lists
    LayerSet { new: Vec<(f64, bool)>, list: Vec<usize> },
    Usage { set: usize, dir: usize, sense: usize, off: f64 },
    /// new constituents, and which of all constituents so far the set lists
    ConstSet { new: usize, list: Vec<usize> },
    Type { kind: Kind, set: usize, variant: usize, part: usize, name: String },
    Elem { shape: Shape, name: String, usage: usize, typ: usize, p: P3, subs: Vec<Sub> },
    Props { name: String, vals: Vec<Prop>, to: Vec<String> },
    Transform { target: String, tr: Tr },
}

#[derive(Clone, Debug)]
pub struct Storey {
    pub name: String,
    pub elev: f64,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug)]
pub struct BuildingP {
    pub name: String,
    pub p: P3,
    pub storeys: Vec<Storey>,
}
#[derive(Clone, Debug)]
pub struct SiteP {
    pub name: String,
    pub p: P3,
    pub buildings: Vec<BuildingP>,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub project: String,
    /// developer, version, name, short name, given name, family name, organisation
    pub info: [String; 7],
    pub sites: Vec<SiteP>,
    /// the sort of names and numbers
    pub style: usize,
}

// ------------------------------------------------------------------ executor

macro_rules! lits {
    ($n:ident, $t:ident, $($v:ident = $l:expr),* $(,)?) => {
        pub const $n: &[($t, &str)] = &[$(($t::$v, $l)),*];
    };
}
lits!(WALL, WallTypeEnum, NotDefined = ".NOTDEFINED.", Movable = ".MOVABLE.", Parapet = ".PARAPET.",
    Partitioning = ".PARTITIONING.", Plumbingwall = ".PLUMBINGWALL.", Shear = ".SHEAR.", Solidwall = ".SOLIDWALL.",
    Standard = ".STANDARD.", Polygonal = ".POLYGONAL.", Elementedwall = ".ELEMENTEDWALL.",
    Retainingwall = ".RETAININGWALL.", UserDefined = ".USERDEFINED.");
lits!(SLAB, SlabTypeEnum, NotDefined = ".NOTDEFINED.", Floor = ".FLOOR.", Roof = ".ROOF.", Landing = ".LANDING.",
    BaseSlab = ".BASESLAB.", UserDefined = ".USERDEFINED.");
lits!(ROOF, RoofTypeEnum, NotDefined = ".NOTDEFINED.", FlatRoof = ".FLAT_ROOF.", ShedRoof = ".SHED_ROOF.",
    GableRoof = ".GABLE_ROOF.", HipRoof = ".HIP_ROOF.", HippedGableRoof = ".HIPPED_GABLE_ROOF.",
    GambrelRoof = ".GAMBREL_ROOF.", MansardRoof = ".MANSARD_ROOF.", BarrelRoof = ".BARREL_ROOF.",
    RainbowRoof = ".RAINBOW_ROOF.", ButterflyRoof = ".BUTTERFLY_ROOF.", PavilionRoof = ".PAVILION_ROOF.",
    DomeRoof = ".DOME_ROOF.", UserDefined = ".USERDEFINED.");
// the variant called Parking is the standard's JALOUSIE
lits!(SHADING, ShadingDeviceTypeEnum, NotDefined = ".NOTDEFINED.", Awning = ".AWNING.", Parking = ".JALOUSIE.",
    Shutter = ".SHUTTER.", UserDefined = ".USERDEFINED.");
lits!(SPACE, SpaceTypeEnum, NotDefined = ".NOTDEFINED.", Space = ".SPACE.", Parking = ".PARKING.", Gfa = ".GFA.",
    Internal = ".INTERNAL.", External = ".EXTERNAL.", UserDefined = ".USERDEFINED.");
lits!(WINDOW, WindowTypeEnum, NotDefined = ".NOTDEFINED.", Window = ".WINDOW.", Skylight = ".SKYLIGHT.",
    Lightdome = ".LIGHTDOME.", UserDefined = ".USERDEFINED.");
lits!(PART, WindowPartitioningTypeEnum, NotDefined = ".NOTDEFINED.", SinglePanel = ".SINGLE_PANEL.",
    DoublePanelVertical = ".DOUBLE_PANEL_VERTICAL.", DoublePanelHorizontal = ".DOUBLE_PANEL_HORIZONTAL.",
    TriplePanelVertical = ".TRIPLE_PANEL_VERTICAL.", TriplePanelHorizontal = ".TRIPLE_PANEL_HORIZONTAL.",
    TriplePanelBottom = ".TRIPLE_PANEL_BOTTOM.", TriplePanelTop = ".TRIPLE_PANEL_TOP.",
    TriplePanelLeft = ".TRIPLE_PANEL_LEFT.", TriplePanelRight = ".TRIPLE_PANEL_RIGHT.", UserDefined = ".USERDEFINED.");
lits!(DIR, LayerSetDirectionEnum, Axis2 = ".AXIS2.", Axis1 = ".AXIS1.", Axis3 = ".AXIS3.");
lits!(SENSE, DirectionSenseEnum, Positive = ".POSITIVE.", Negative = ".NEGATIVE.");

pub fn variants(k: Kind) -> usize {
    match k {
        Kind::Wall => WALL.len(),
        Kind::Slab => SLAB.len(),
        Kind::Roof => ROOF.len(),
        Kind::Shading => SHADING.len(),
        Kind::Space => SPACE.len(),
        Kind::Window => WINDOW.len(),
        Kind::Opening => unreachable!(),
    }
}
pub fn literal(k: Kind, v: usize) -> &'static str {
    match k {
        Kind::Wall => WALL[v].1,
        Kind::Slab => SLAB[v].1,
        Kind::Roof => ROOF[v].1,
        Kind::Shading => SHADING[v].1,
        Kind::Space => SPACE[v].1,
        Kind::Window => WINDOW[v].1,
        Kind::Opening => unreachable!(),
    }
}

/// the name given to the builder: what follows the mark tells objects of the
/// same name apart in the plan
pub fn shown(name: &str) -> &str {
    name.split('\u{1}').next().unwrap()
}

fn v2(p: &P2) -> DVec2 {
    DVec2::new(p[0], p[1])
}
fn v3(p: &P3) -> DVec3 {
    DVec3::new(p[0], p[1], p[2])
}
fn c2(c: &[P2]) -> Vec<DVec2> {
    c.iter().map(v2).collect()
}
fn c3(c: &[P3]) -> Vec<DVec3> {
    c.iter().map(v3).collect()
}
/// the axes given explicitly for rotation 3: not of unit length
pub const AXES: [P3; 3] = [[0., 2., 0.], [-1., 0., 0.], [0., 0., 0.5]];
/// rotation 4: mirrored and skewed axes, the z axis left as it is
pub const MIRROR: [P3; 2] = [[-1., 0., 0.], [0., 3., 4.]];

/// rotations 5 and on: about an axis by an angle
pub const AXIS: [P3; 7] =
    [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., -1.], [1. / 3., 2. / 3., -2. / 3.], [0., 0.6, 0.8], [-0.6, 0., 0.8]];
pub const ANGLE: [f64; 20] = [
    1e-6, 1e-5, 1e-4, 1e-3, 2e-3, 0.01, 0.1, 0.5, 1., 1.5, 1.5707963267948966, 2., 3., 3.141592653589793, 4., 4.71238898038469, 6.2821,
    6.283, -1e-3, -1.5707963267948966,
];
pub const ANGLES: usize = AXIS.len() * ANGLE.len();
/// rotations behind those: some of the axes given, some left as they are
pub const AXES2: [Option<P3>; 8] = [
    None,
    Some([0., 0., 1.]),
    Some([1., 0., 0.]),
    Some([0., -1., 0.]),
    Some([0.9999, 0.0001, 0.]),
    Some([1e-7, 0., -1e-7]),
    Some([2e7, 1e7, -2e7]),
    Some([0.1, 0.2, 0.3]),
];
pub const ROTS: usize = 5 + ANGLES + AXES2.len() * AXES2.len() * AXES2.len();
/// which axes one of those gives
pub fn axes2(rot: usize) -> [Option<P3>; 3] {
    let (k, n) = (rot - 5 - ANGLES, AXES2.len());
    [AXES2[k % n], AXES2[k / n % n], AXES2[k / n / n]]
}
/// the plan with other rotations in place of the first and the second one
pub fn rotated(mut p: Plan, a: usize, b: usize) -> Plan {
    let f = |t: &mut Tr| {
        t.rot = match t.rot {
            1 => a,
            2 => b,
            r => r,
        }
    };
    for op in p.sites.iter_mut().flat_map(|s| &mut s.buildings).flat_map(|b| &mut b.storeys).flat_map(|s| &mut s.ops) {
        match op {
            Op::Transform { tr, .. } => f(tr),
            Op::Elem { subs, .. } => {
                for s in subs {
                    if let Sub::Transform(t) = s {
                        f(t)
                    }
                }
            }
            _ => {}
        }
    }
    p
}

fn tr(t: &Tr) -> TransformParameter {
    let p = TransformParameter::default();
    let p = match t.rot {
        0 => p,
        1 => p.rotation(DQuat::from_rotation_z(1.0)),
        2 => p.rotation(DQuat::from_rotation_x(-0.5)),
        3 => p.x_rotation(v3(&AXES[0])).y_rotation(v3(&AXES[1])).z_rotation(v3(&AXES[2])),
        4 => p.x_rotation(v3(&MIRROR[0])).y_rotation(v3(&MIRROR[1])).z_rotation(DVec3::ZERO),
        k if k < 5 + ANGLES => {
            p.rotation(DQuat::from_axis_angle(v3(&AXIS[(k - 5) / ANGLE.len()]).normalize(), ANGLE[(k - 5) % ANGLE.len()]))
        }
        k => {
            let [x, y, z] = axes2(k);
            let p = x.iter().fold(p, |p, x| p.x_rotation(v3(x)));
            let p = z.iter().fold(p, |p, z| p.z_rotation(v3(z)));
            y.iter().fold(p, |p, y| p.y_rotation(v3(y)))
        }
    };
    if t.t == [0.; 3] { p } else { p.translation(v3(&t.t)) }
}

fn val(v: &Val) -> IfcValue {
    match v {
        Val::Label(s) => IfcValue::Label(LabelValue(s.as_str().into())),
        Val::Real(x) => IfcValue::Real(RealValue((*x).into())),
        Val::Bool(b) => IfcValue::Bool(BoolValue((*b).into())),
        Val::Ident(s) => IfcValue::Identifier(IdentifierValue(s.as_str().into())),
        Val::Thermal(x) => IfcValue::ThermalTransmittance(ThermalTransmittanceValue((*x).into())),
    }
}

#[derive(Clone, Copy)]
enum Obj {
    Wall(TypedId<Wall>),
    Slab(TypedId<Slab>),
    Roof(TypedId<Roof>),
    Shading(TypedId<ShadingDevice>),
    Space(TypedId<Space>),
    Window(TypedId<Window>),
    Opening(TypedId<OpeningElement>),
}

#[derive(Default)]
struct Env {
    layers: Vec<TypedId<MaterialLayer>>,
    consts: Vec<TypedId<MaterialConstituent>>,
    sets: Vec<TypedId<MaterialLayerSet>>,
    usages: Vec<TypedId<MaterialLayerSetUsage>>,
    csets: Vec<TypedId<MaterialConstituentSet>>,
    wall: Vec<TypedId<WallType>>,
    slab: Vec<TypedId<SlabType>>,
    roof: Vec<TypedId<RoofType>>,
    shading: Vec<TypedId<ShadingDeviceType>>,
    space: Vec<TypedId<SpaceType>>,
    window: Vec<TypedId<WindowType>>,
    objs: BTreeMap<String, Obj>,
}

/// runs the plan on the real builder and returns what it writes
pub fn run(p: &Plan) -> String {
    let mut b = IfcProjectBuilder::new(
        ApplicationInfo {
            developer: Organization::new(None, p.info[0].as_str(), None),
            version: &p.info[1],
            name: &p.info[2],
            short_name: &p.info[3],
        },
        OwnerInfo {
            owner: Person::empty().given_name(p.info[4].as_str()).family_name(p.info[5].as_str()),
            organization_name: &p.info[6],
        },
        &p.project,
    );
    let mut env = Env::default();
    for s in &p.sites {
        let mut sb = b.new_site(shown(&s.name), v3(&s.p));
        for bu in &s.buildings {
            let mut bb = sb.new_building(shown(&bu.name), v3(&bu.p));
            for st in &bu.storeys {
                let mut stb = bb.new_storey(shown(&st.name), st.elev);
                for op in &st.ops {
                    exec(&mut stb, &mut env, op, p.style);
                }
            }
        }
    }
    b.build()
}

fn exec(st: &mut IfcStoreyBuilder<'_>, env: &mut Env, op: &Op, style: usize) {
    match op {
        Op::LayerSet { new, list } => {
            for (t, v) in new {
                let k = env.layers.len();
                let id = st.material_layer(&part(style, "mat", k), MaterialLayer::new(*t, *v).name(part(style, "layer", k).as_str()));
                env.layers.push(id);
            }
            let id = st.material_layer_set(list.iter().map(|i| env.layers[*i]));
            env.sets.push(id);
        }
        Op::Usage { set, dir, sense, off } => {
            let id = st.material_layer_set_usage(env.sets[*set], DIR[*dir].0, SENSE[*sense].0, *off);
            env.usages.push(id);
        }
        Op::ConstSet { new, list } => {
            for _ in 0..*new {
                let k = env.consts.len();
                let id = st.material_constituent(&part(style, "cmat", k), &part(style, "const", k));
                env.consts.push(id);
            }
            let id = st.material_constituent_set(list.iter().map(|i| env.consts[*i]));
            env.csets.push(id);
        }
        Op::Type { kind, set, variant, part, name } => match kind {
            Kind::Wall => {
                let id = st.wall_type(env.sets[*set], shown(name), WALL[*variant].0);
                env.wall.push(id)
            }
            Kind::Slab => {
                let id = st.slab_type(env.sets[*set], shown(name), SLAB[*variant].0);
                env.slab.push(id)
            }
            Kind::Roof => {
                let id = st.roof_type(env.sets[*set], shown(name), ROOF[*variant].0);
                env.roof.push(id)
            }
            Kind::Shading => {
                let id = st.shading_device_type(env.sets[*set], shown(name), SHADING[*variant].0);
                env.shading.push(id)
            }
            Kind::Space => {
                let id = st.space_type(shown(name), SPACE[*variant].0);
                env.space.push(id)
            }
            Kind::Window => {
                let id = st.window_type(shown(name), WINDOW[*variant].0, PART[*part].0);
                env.window.push(id)
            }
            Kind::Opening => unreachable!(),
        },
        Op::Elem { shape, name, usage, typ, p, subs } => elem(st, env, shape, name, *usage, *typ, p, subs),
        Op::Props { name, vals, to } => {
            let mut pb = st.add_properties(shown(name));
            let mut last = None;
            for p in vals {
                last = Some(pb.single_property(&p.name, val(&p.val), last.filter(|_| p.unit)).id());
            }
            let set = pb.finish();
            for t in to {
                match env.objs[t] {
                    Obj::Wall(i) => st.relate_properties_object(set, i),
                    Obj::Slab(i) => st.relate_properties_object(set, i),
                    Obj::Roof(i) => st.relate_properties_object(set, i),
                    Obj::Shading(i) => st.relate_properties_object(set, i),
                    Obj::Space(i) => st.relate_properties_object(set, i),
                    Obj::Window(i) => st.relate_properties_object(set, i),
                    Obj::Opening(i) => st.relate_properties_object(set, i),
                }
            }
        }
        Op::Transform { target, tr: t } => match env.objs[target] {
            Obj::Wall(i) => st.transform(i, &tr(t)),
            Obj::Slab(i) => st.transform(i, &tr(t)),
            Obj::Roof(i) => st.transform(i, &tr(t)),
            Obj::Shading(i) => st.transform(i, &tr(t)),
            Obj::Window(i) => st.transform(i, &tr(t)),
            Obj::Opening(i) => st.transform(i, &tr(t)),
            Obj::Space(_) => unreachable!("spaces are not transformable"),
        },
    }
}

#[allow(clippy::too_many_arguments)]
fn elem(st: &mut IfcStoreyBuilder<'_>, env: &mut Env, shape: &Shape, name: &str, usage: usize, typ: usize, p: &P3, subs: &[Sub]) {
    let placement = v3(p);
    let Env { usages, csets, wall, slab, roof, shading, space, window, objs, .. } = env;
    match shape {
        Shape::VWall { .. } | Shape::VArbWall { .. } | Shape::ArbWall { .. } => {
            let (u, t) = (usages[usage], wall[typ]);
            let mut w = match shape {
                Shape::VWall { h, l } => st.vertical_wall(u, t, shown(name), VerticalWallParameter { height: *h, length: *l, placement }),
                Shape::VArbWall { c } => {
                    st.vertical_arbitrary_wall(u, t, shown(name), VerticalArbitraryWallParameter { coords: c2(c), placement })
                }
                Shape::ArbWall { c, d } => st.arbitrary_wall(
                    u,
                    t,
                    shown(name),
                    ArbitraryWallParameter { coords: c3(c), direction: v3(d), placement },
                ),
                _ => unreachable!(),
            };
            for s in subs {
                match s {
                    Sub::WOpen { name, h, l, p, d: None } => {
                        let i = w.vertical_opening(shown(name), OpeningParameter { height: *h, length: *l, placement: v3(p) });
                        objs.insert(name.clone(), Obj::Opening(i));
                    }
                    Sub::WOpen { name, h, l, p, d: Some(d) } => {
                        let i = w.opening(
                            shown(name),
                            CustomDirectionOpeningParameter { height: *h, length: *l, placement: v3(p), direction: v3(d) },
                        );
                        objs.insert(name.clone(), Obj::Opening(i));
                    }
                    Sub::WWin { name, h, w: wi, p, d, win } => {
                        let i = w.window_with_opening(
                            csets[win.cset],
                            window[win.wtype],
                            shown(name),
                            WindowParameter { height: *h, width: *wi, placement: v3(p) },
                            Direction3D::from(v3(d)),
                        );
                        objs.insert(name.clone(), Obj::Window(i));
                    }
                    Sub::Props { name, vals } => {
                        let mut pb = w.add_properties(shown(name));
                        let mut last = None;
                        for p in vals {
                            last = Some(pb.single_property(&p.name, val(&p.val), last.filter(|_| p.unit)).id());
                        }
                    }
                    Sub::Transform(t) => w.transform(tr(t)),
                    _ => unreachable!(),
                }
            }
            objs.insert(name.to_string(), Obj::Wall(w.finish()));
        }
        Shape::HSlab { .. } | Shape::VSlab { .. } | Shape::ArbSlab { .. } => {
            let (u, t) = (usages[usage], slab[typ]);
            let mut w = match shape {
                Shape::HSlab { c } => {
                    st.horizontal_arbitrary_slab(u, t, shown(name), HorizontalArbitrarySlabParameter { coords: c2(c), placement })
                }
                Shape::VSlab { s, e, h } => st.vertical_slab(
                    u,
                    t,
                    shown(name),
                    VerticalSlabParameter { start: v2(s), end: v2(e), height: *h, placement },
                ),
                Shape::ArbSlab { c, d } => st.arbitrary_slab(
                    u,
                    t,
                    shown(name),
                    ArbitrarySlabParameter { coords: c3(c), direction: v3(d), placement },
                ),
                _ => unreachable!(),
            };
            for s in subs {
                match s {
                    Sub::SOpen { name, h, l, p } => {
                        let i = w.rect_opening(shown(name), OpeningParameter { height: *h, length: *l, placement: v3(p) });
                        objs.insert(name.clone(), Obj::Opening(i));
                    }
                    Sub::SOpenH { name, c } => {
                        let i = w.horizontal_arbitrary_opening(shown(name), HorizontalArbitraryOpeningParameter { coords: c2(c) });
                        objs.insert(name.clone(), Obj::Opening(i));
                    }
                    Sub::SOpen3 { name, c } => {
                        let i = w.arbitrary_opening(shown(name), ArbitraryOpeningParameter { coords: c3(c) });
                        objs.insert(name.clone(), Obj::Opening(i));
                    }
                    Sub::SWin { name, h, w: wi, p, win } => {
                        let i = w.window_with_opening(
                            csets[win.cset],
                            window[win.wtype],
                            shown(name),
                            WindowParameter { height: *h, width: *wi, placement: v3(p) },
                        );
                        objs.insert(name.clone(), Obj::Window(i));
                    }
                    Sub::SWinH { name, c, win } => {
                        let i = w.horizontal_arbitrary_window_with_opening(
                            csets[win.cset],
                            window[win.wtype],
                            shown(name),
                            HorizontalArbitraryWindowParameter { coords: c2(c) },
                        );
                        objs.insert(name.clone(), Obj::Window(i));
                    }
                    Sub::SWin3 { name, c, win } => {
                        let i = w.arbitrary_window_with_opening(
                            csets[win.cset],
                            window[win.wtype],
                            shown(name),
                            ArbitraryWindowParameter { coords: c3(c) },
                        );
                        objs.insert(name.clone(), Obj::Window(i));
                    }
                    Sub::Transform(t) => w.transform(tr(t)),
                    _ => unreachable!(),
                }
            }
            objs.insert(name.to_string(), Obj::Slab(w.finish()));
        }
        Shape::HRoof { c } => {
            let i = st.horizontal_arbitrary_roof(
                usages[usage],
                roof[typ],
                shown(name),
                HorizontalArbitraryRoofParameter { coords: c2(c), placement },
            );
            objs.insert(name.to_string(), Obj::Roof(i));
        }
        Shape::Shading { h, l } => {
            let i = st.vertical_shading_device(
                usages[usage],
                shading[typ],
                shown(name),
                VerticalShadingDeviceParameter { height: *h, length: *l, placement },
            );
            objs.insert(name.to_string(), Obj::Shading(i));
        }
        Shape::Space { c, h } => {
            let i = st.space(space[typ], shown(name), SpaceParameter { coords: c2(c), height: *h, placement });
            objs.insert(name.to_string(), Obj::Space(i));
        }
    }
}

// ----------------------------------------------------------------- generator

/// groups of parameters
pub const GEO: u32 = 1;
pub const PLACE: u32 = 2;
pub const TR: u32 = 4;
pub const MAT: u32 = 8;
pub const NAME: u32 = 16;
pub const VALUE: u32 = 32;

const PLACES: [P3; 4] = [[0., 0., 0.], [1.5, -2.25, 3.], [0.1, 0.2, -0.3], [-1000.125, 1e-5, 12345.678]];
const TRANS: [P3; 3] = [[1., 1., 0.], [-2.5, 0.125, 7.], [0., 0., 0.]];

fn place(ch: &mut Ch) -> P3 {
    PLACES[ch.dev_in(PLACE, PLACES.len())]
}
fn coords2(ch: &mut Ch) -> Vec<P2> {
    match ch.dev_in(GEO, 4) {
        0 => vec![[0., 0.], [0., 1.], [1., 1.], [1., 0.]],
        1 => vec![[0., 0.], [0., 4.], [2., 6.], [4., 4.], [4., 0.], [0., 0.]],
        2 => vec![[-0.5, 0.1], [1.25, 1e-7], [1. / 3., -2.]],
        _ => vec![],
    }
}
fn coords3(ch: &mut Ch) -> Vec<P3> {
    match ch.dev_in(GEO, 3) {
        0 => vec![[0., 0., 0.], [0., 1., 0.5], [1., 1., 0.5], [1., 0., 0.]],
        1 => vec![[-0.5, 0.1, 2.], [1.25, 1e-7, -3.], [1. / 3., -2., 0.]],
        _ => vec![[7., 8., 9.]],
    }
}
fn dir(ch: &mut Ch) -> P3 {
    [[0., 0., 1.], [0., 1., 0.], [1., 2., -2.], [-0.1, 0., 0.]][ch.dev_in(GEO, 4)]
}
/// arbitrary walls derive an axis from their direction
fn hdir(ch: &mut Ch) -> P3 {
    [[0., 1., 0.], [1., 0., 0.], [3., 4., 0.], [1., 2., -2.], [0., 0., -2.]][ch.dev_in(GEO, 5)]
}
fn size(ch: &mut Ch, base: f64) -> f64 {
    [base, base + 0.125, 1. / 3., 0.][ch.dev_in(GEO, 4)]
}
fn transform(ch: &mut Ch) -> Tr {
    Tr { t: TRANS[ch.dev_in(TR, TRANS.len())], rot: ch.dev_in(TR, 5) }
}

struct Gen {
    plan: Plan,
    n: usize,
    sets: usize,
    usages: usize,
    csets: usize,
    types: BTreeMap<Kind, usize>,
    objs: Vec<(String, Kind)>,
    layers: usize,
    consts: usize,
    /// the last name given to an object of a kind
    named: BTreeMap<String, String>,
}

impl Gen {
    fn name(&mut self, ch: &mut Ch, what: &str) -> String {
        self.n += 1;
        let n = self.n;
        let before = self.named.get(what);
        let name = match ch.dev_in(NAME, if before.is_some() { 3 } else { 2 }) {
            0 => format!("{what} {n}"),
            1 => format!("{what} {n} Gr\u{f6}\u{df}e, (#1= $); /* * */"),
            _ => format!("{}\u{1}{n}", shown(before.unwrap())),
        };
        self.named.insert(what.into(), name.clone());
        name
    }
    fn next(&mut self, what: &str) -> String {
        self.n += 1;
        format!("{what} {}", self.n)
    }
    fn site(&mut self, ch: &mut Ch) {
        let name = self.name(ch, "site");
        let p = place(ch);
        self.plan.sites.push(SiteP { name, p, buildings: vec![] });
    }
    fn building(&mut self, ch: &mut Ch) {
        if self.plan.sites.is_empty() {
            self.site(ch);
        }
        let name = self.name(ch, "building");
        let p = place(ch);
        self.plan.sites.last_mut().unwrap().buildings.push(BuildingP { name, p, storeys: vec![] });
    }
    fn storey(&mut self, ch: &mut Ch) {
        if self.plan.sites.last().is_none_or(|s| s.buildings.is_empty()) {
            self.building(ch);
        }
        let name = self.name(ch, "storey");
        let elev = [0., 2.75, -3.5, 0.1][ch.dev_in(PLACE, 4)];
        let b = self.plan.sites.last_mut().unwrap().buildings.last_mut().unwrap();
        b.storeys.push(Storey { name, elev, ops: vec![] });
    }
    fn ops(&mut self, ch: &mut Ch) -> &mut Vec<Op> {
        if self.plan.sites.last().is_none_or(|s| s.buildings.last().is_none_or(|b| b.storeys.is_empty())) {
            self.storey(ch);
        }
        &mut self.plan.sites.last_mut().unwrap().buildings.last_mut().unwrap().storeys.last_mut().unwrap().ops
    }
    fn push(&mut self, ch: &mut Ch, op: Op) {
        self.ops(ch).push(op);
    }
    fn layer_set(&mut self, ch: &mut Ch) {
        let l = self.layers;
        let (new, list) = match self.sets {
            0 => match ch.dev_in(MAT, 5) {
                0 => (vec![(0.3, false)], vec![l]),
                1 => (vec![(0.02, true), (0.24, false), (0.015, false)], vec![l, l + 1, l + 2]),
                2 => (vec![], vec![]),
                // the same layer more than once, and not in the order of creation
                3 => (vec![(0.02, true), (0.24, false)], vec![l + 1, l, l + 1]),
                _ => (vec![(0.02, true)], vec![l, l]),
            },
            n => {
                let new = if n == 1 { vec![(0.125, false), (0.25, true)] } else { vec![(0.1 * n as f64, true)] };
                let mut list: Vec<usize> = (l..l + new.len()).collect();
                if l > 0 && ch.dev_in(MAT, 2) == 1 {
                    // shares a layer with an earlier set
                    list.insert(1, l - 1);
                }
                (new, list)
            }
        };
        self.layers += new.len();
        self.sets += 1;
        self.push(ch, Op::LayerSet { new, list });
    }
    /// a new usage of the newest set, or of an older one
    fn usage(&mut self, ch: &mut Ch) {
        if self.sets == 0 {
            self.layer_set(ch);
        }
        let set = self.sets - 1 - ch.dev_in(MAT, self.sets);
        let k = self.usages;
        let (dir, sense) = (ch.dev_in(MAT, DIR.len()), ch.dev_in(MAT, SENSE.len()));
        self.usages += 1;
        self.push(ch, Op::Usage { set, dir, sense, off: 0.25 * k as f64 });
    }
    fn cset(&mut self, ch: &mut Ch) {
        let c = self.consts;
        let (new, list) = match ch.dev_in(MAT, if c > 0 { 6 } else { 5 }) {
            0 => (2, vec![c, c + 1]),
            1 => (1, vec![c]),
            2 => (0, vec![]),
            3 => (3, vec![c, c + 1, c + 2]),
            4 => (2, vec![c + 1, c, c + 1]),
            _ => (1, vec![c - 1, c]),
        };
        self.consts += new;
        self.csets += 1;
        self.push(ch, Op::ConstSet { new, list });
    }
    fn typ(&mut self, ch: &mut Ch, kind: Kind) {
        if self.sets == 0 && !matches!(kind, Kind::Space | Kind::Window) {
            self.layer_set(ch);
        }
        let set = if self.sets == 0 { 0 } else { self.sets - 1 - ch.dev_in(MAT, self.sets) };
        let variant = ch.dev_in(VALUE, variants(kind));
        let part = if kind == Kind::Window { ch.dev_in(VALUE, PART.len()) } else { 0 };
        let name = self.name(ch, &format!("{kind:?} type"));
        *self.types.entry(kind).or_default() += 1;
        self.push(ch, Op::Type { kind, set, variant, part, name });
    }
    fn a_usage(&mut self, ch: &mut Ch) -> usize {
        if self.usages == 0 {
            self.usage(ch);
        }
        self.usages - 1 - ch.dev_in(MAT, self.usages)
    }
    fn a_type(&mut self, ch: &mut Ch, kind: Kind) -> usize {
        if self.types.get(&kind).is_none_or(|n| *n == 0) {
            self.typ(ch, kind);
        }
        let n = self.types[&kind];
        n - 1 - ch.dev_in(MAT, n)
    }
    /// what windows need must exist before the wall or slab is begun
    fn win_ready(&mut self, ch: &mut Ch) {
        if self.csets == 0 {
            self.cset(ch);
        }
        if self.types.get(&Kind::Window).is_none_or(|n| *n == 0) {
            self.typ(ch, Kind::Window);
        }
    }
    fn win(&mut self, ch: &mut Ch) -> Win {
        let c = self.csets;
        let t = self.types[&Kind::Window];
        Win { cset: c - 1 - ch.dev_in(MAT, c), wtype: t - 1 - ch.dev_in(MAT, t) }
    }
    fn props(&mut self, ch: &mut Ch) -> Vec<Prop> {
        let mut v: Vec<Prop> = vec![];
        let n = [1, 2, 0, 3][ch.dev_in(VALUE, 4)];
        for i in 0..n {
            // the name, or name and value, of the property before it; or that one as the unit
            let like = if i > 0 { ch.dev_in(VALUE, 4) } else { 0 };
            let val = if like == 2 {
                v[i - 1].val.clone()
            } else {
                match ch.dev_in(VALUE, 14) {
                    0 => Val::Label(if like == 1 { "another".into() } else { "a label, (b)".into() }),
                    1 => Val::Real(-2.5),
                    2 => Val::Bool(true),
                    3 => Val::Bool(false),
                    4 => Val::Ident("id; #2".into()),
                    5 => Val::Thermal(0.24),
                    6 => Val::Label(String::new()),
                    7 => Val::Ident("it's '".into()),
                    8 => Val::Real(0.),
                    9 => Val::Real(1e-7),
                    10 => Val::Real(-123456789012345.),
                    11 => Val::Thermal(-0.000123456789),
                    12 => Val::Thermal(1e20),
                    _ => Val::Thermal(3.),
                }
            };
            let name = if like == 1 || like == 2 { v[i - 1].name.clone() } else { self.next("prop") };
            v.push(Prop { name, val, unit: like == 3 });
        }
        v
    }
    /// a project that already has several of everything, no two alike
    fn rich(&mut self) {
        let ch = &mut Ch::script(&[]);
        self.storey(ch);
        for (new, list) in [(vec![(0.3, false)], vec![0]), (vec![(0.125, false), (0.25, true)], vec![1, 2]), (vec![(0.2, true)], vec![3, 0])] {
            self.layers += new.len();
            self.sets += 1;
            self.push(ch, Op::LayerSet { new, list });
        }
        for (set, dir, sense, off) in [(1, 0, 0, 0.), (2, 1, 1, 0.25), (0, 2, 0, -0.5)] {
            self.usages += 1;
            self.push(ch, Op::Usage { set, dir, sense, off });
        }
        for (new, list) in [(2, vec![0, 1]), (1, vec![2])] {
            self.consts += new;
            self.csets += 1;
            self.push(ch, Op::ConstSet { new, list });
        }
        use Kind::*;
        for (i, kind) in [Wall, Slab, Roof, Shading, Space, Window, Wall, Slab, Window].into_iter().enumerate() {
            let name = self.name(ch, &format!("{kind:?} type"));
            *self.types.entry(kind).or_default() += 1;
            let part = if kind == Window { 1 + i / 4 } else { 0 };
            self.push(ch, Op::Type { kind, set: i % 3, variant: i / 5 + 1, part, name });
        }
        let sq: Vec<P2> = vec![[0., 0.], [0., 3.], [2., 3.], [2., 0.]];
        let names: Vec<String> = (0..13).map(|i| self.next(&format!("rich {i}"))).collect();
        let n = |i: usize| names[i].clone();
        let win = |cset, wtype| Win { cset, wtype };
        let vals = vec![
            Prop { name: "a".into(), val: Val::Label("A".into()), unit: false },
            Prop { name: "b".into(), val: Val::Real(-2.5), unit: true },
        ];
        let wall = Op::Elem {
            shape: Shape::VWall { h: 3., l: 5. },
            name: n(0),
            usage: 0,
            typ: 0,
            p: [1., 2., 0.5],
            subs: vec![
                Sub::WOpen { name: n(1), h: 0.5, l: 0.75, p: [1., 0., 1.], d: None },
                Sub::WWin { name: n(2), h: 0.6, w: 0.8, p: [2., 0., 1.], d: [0., 0., 1.], win: win(0, 0) },
                Sub::Props { name: n(3), vals: vals.clone() },
                Sub::WWin { name: n(4), h: 0.7, w: 0.9, p: [3.5, 0., 1.25], d: [0., 0., 1.], win: win(1, 1) },
            ],
        };
        let slab = Op::Elem {
            shape: Shape::HSlab { c: sq.clone() },
            name: n(5),
            usage: 1,
            typ: 0,
            p: [0., 0., 3.],
            subs: vec![
                Sub::SWin { name: n(6), h: 0.6, w: 0.8, p: [0.5, 0.5, 0.], win: win(1, 0) },
                Sub::SOpen { name: n(7), h: 0.4, l: 0.3, p: [1.5, 0.5, 0.] },
            ],
        };
        let props = Op::Props { name: n(8), vals, to: vec![n(0), n(5)] };
        let roof = Op::Elem { shape: Shape::HRoof { c: sq.clone() }, name: n(9), usage: 1, typ: 0, p: [0., 0., 6.], subs: vec![] };
        for op in [wall, slab, props, roof] {
            self.push(ch, op);
        }
        self.building(ch);
        self.storey(ch);
        let space = Op::Elem { shape: Shape::Space { c: sq, h: 2.75 }, name: n(10), usage: 0, typ: 0, p: [4., 0., 0.], subs: vec![] };
        let wall = Op::Elem { shape: Shape::VWall { h: 2., l: 4. }, name: n(11), usage: 1, typ: 1, p: [0.; 3], subs: vec![] };
        let slab = Op::Elem {
            shape: Shape::VSlab { s: [0., 0.], e: [3., 0.], h: 2. },
            name: n(12),
            usage: 2,
            typ: 1,
            p: [0., 0., 0.25],
            subs: vec![],
        };
        for op in [space, wall, slab] {
            self.push(ch, op);
        }
        for (i, k) in [(0, Wall), (1, Opening), (2, Window), (4, Window), (5, Slab), (6, Window), (7, Opening), (9, Roof)] {
            self.objs.push((n(i), k));
        }
        for (i, k) in [(10, Space), (11, Wall), (12, Slab)] {
            self.objs.push((n(i), k));
        }
    }
    fn elem(&mut self, ch: &mut Ch, which: usize) {
        let kind = [Kind::Wall, Kind::Slab, Kind::Roof, Kind::Shading, Kind::Space, Kind::Wall, Kind::Wall, Kind::Slab, Kind::Slab][which];
        let usage = if kind == Kind::Space { 0 } else { self.a_usage(ch) };
        let typ = self.a_type(ch, kind);
        if matches!(kind, Kind::Wall | Kind::Slab) {
            self.win_ready(ch);
        }
        let name = self.name(ch, &format!("{kind:?}"));
        let shape = match which {
            0 => Shape::VWall { h: size(ch, 2.), l: size(ch, 4.) },
            1 => Shape::HSlab { c: coords2(ch) },
            2 => Shape::HRoof { c: coords2(ch) },
            3 => Shape::Shading { h: size(ch, 0.5), l: size(ch, 3.) },
            4 => Shape::Space { c: coords2(ch), h: size(ch, 2.5) },
            5 => Shape::VArbWall { c: coords2(ch) },
            6 => Shape::ArbWall { c: coords3(ch), d: hdir(ch) },
            7 => {
                let e: [P2; 3] = [[3., 0.], [0.5, -2.], [-1., 1.]];
                Shape::VSlab { s: [[0., 0.], [0.25, 7.]][ch.dev_in(GEO, 2)], e: e[ch.dev_in(GEO, 3)], h: size(ch, 2.) }
            }
            _ => Shape::ArbSlab { c: coords3(ch), d: dir(ch) },
        };
        let p = place(ch);
        let mut subs = vec![];
        let mut made = vec![(name.clone(), kind)];
        if kind == Kind::Wall {
            loop {
                match ch.deviate(6) {
                    0 => break,
                    1 => {
                        let n = self.name(ch, "opening");
                        subs.push(Sub::WOpen { name: n.clone(), h: size(ch, 0.5), l: size(ch, 0.75), p: place1(ch), d: None });
                        made.push((n, Kind::Opening));
                    }
                    2 => {
                        let n = self.name(ch, "window");
                        subs.push(Sub::WWin {
                            name: n.clone(),
                            h: size(ch, 0.5),
                            w: size(ch, 0.75),
                            p: place1(ch),
                            d: dir(ch),
                            win: self.win(ch),
                        });
                        made.push((n, Kind::Window));
                    }
                    3 => {
                        let name = self.name(ch, "pset");
                        subs.push(Sub::Props { name, vals: self.props(ch) });
                    }
                    4 => subs.push(Sub::Transform(transform(ch))),
                    _ => {
                        let n = self.name(ch, "opening");
                        subs.push(Sub::WOpen { name: n.clone(), h: size(ch, 0.5), l: size(ch, 0.75), p: place1(ch), d: Some(dir(ch)) });
                        made.push((n, Kind::Opening));
                    }
                }
            }
        } else if kind == Kind::Slab {
            loop {
                match ch.deviate(8) {
                    0 => break,
                    1 => {
                        let n = self.name(ch, "opening");
                        subs.push(Sub::SOpen { name: n.clone(), h: size(ch, 0.5), l: size(ch, 0.75), p: place1(ch) });
                        made.push((n, Kind::Opening));
                    }
                    2 => {
                        let n = self.name(ch, "window");
                        subs.push(Sub::SWin { name: n.clone(), h: size(ch, 0.5), w: size(ch, 0.75), p: place1(ch), win: self.win(ch) });
                        made.push((n, Kind::Window));
                    }
                    3 => subs.push(Sub::Transform(transform(ch))),
                    4 => {
                        let n = self.name(ch, "opening");
                        subs.push(Sub::SOpenH { name: n.clone(), c: coords2(ch) });
                        made.push((n, Kind::Opening));
                    }
                    5 => {
                        let n = self.name(ch, "opening");
                        subs.push(Sub::SOpen3 { name: n.clone(), c: coords3(ch) });
                        made.push((n, Kind::Opening));
                    }
                    6 => {
                        let n = self.name(ch, "window");
                        subs.push(Sub::SWinH { name: n.clone(), c: coords2(ch), win: self.win(ch) });
                        made.push((n, Kind::Window));
                    }
                    _ => {
                        let n = self.name(ch, "window");
                        subs.push(Sub::SWin3 { name: n.clone(), c: coords3(ch), win: self.win(ch) });
                        made.push((n, Kind::Window));
                    }
                }
            }
        }
        self.push(ch, Op::Elem { shape, name, usage, typ, p, subs });
        self.objs.extend(made);
    }
}
fn place1(ch: &mut Ch) -> P3 {
    [[2., 0., 0.5], [0., 0., 0.], [0.1, -0.2, 0.3]][ch.dev_in(PLACE, 3)]
}

/// one plan per execution of the choice tree; every operation and every
/// parameter that is not the default costs one deviation
pub fn gen(ch: &mut Ch, rich: bool) -> Plan {
    let info = match ch.dev_in(VALUE, 2) {
        0 => ["dev", "0.0.1", "app", "short", "Luigi", "Mario", "org"],
        _ => ["D\u{e4}v; #3", "", "a,p,p", "()", "", "$", "*"],
    };
    let mut g = Gen {
        plan: Plan { project: "project".into(), info: info.map(String::from), sites: vec![], style: 0 },
        n: 0,
        sets: 0,
        usages: 0,
        csets: 0,
        types: BTreeMap::new(),
        objs: vec![],
        layers: 0,
        consts: 0,
        named: BTreeMap::new(),
    };
    if rich {
        g.rich();
    }
    loop {
        let op = match ch.ops {
            [] => ch.deviate(19),
            ops => [0].iter().chain(ops).nth(ch.deviate(1 + ops.len())).copied().unwrap(),
        };
        match op {
            0 => break,
            1 => g.storey(ch),
            2 => g.building(ch),
            3 => g.site(ch),
            x @ 4..=12 => g.elem(ch, x - 4),
            13 => {
                g.layer_set(ch);
                g.usage(ch);
            }
            14 => g.usage(ch),
            15 => {
                let k = [Kind::Wall, Kind::Slab, Kind::Roof, Kind::Shading, Kind::Space, Kind::Window];
                let k = k[ch.choose(k.len())];
                g.typ(ch, k);
            }
            16 => {
                let vals = g.props(ch);
                let name = g.name(ch, "pset");
                let mut to: Vec<String> = vec![];
                // the newest objects first; none and all of them, too
                let objs: Vec<String> = g.objs.iter().rev().map(|o| o.0.clone()).collect();
                match ch.deviate(objs.len() + 2) {
                    0 => to.extend(objs.first().cloned()),
                    1 => {}
                    2 => to = objs,
                    i => to.push(objs[i - 2].clone()),
                }
                g.push(ch, Op::Props { name, vals, to });
            }
            17 => {
                let t: Vec<String> = g.objs.iter().rev().filter(|o| o.1 != Kind::Space).map(|o| o.0.clone()).collect();
                if !t.is_empty() {
                    let target = t[ch.deviate(t.len())].clone();
                    let tr = transform(ch);
                    g.push(ch, Op::Transform { target, tr });
                }
            }
            _ => g.cset(ch),
        }
    }
    g.plan
}

// ------------------------------------------------------- other names, numbers

pub const STYLES: usize = 12;

/// the i-th of a sort of names, all different
fn styled(style: usize, i: usize) -> String {
    const SPECIAL: [&str; 14] =
        ["$", "*", "#1", ".T.", "()", "1.", "it's", "''", "a,b", ";", "/*", "*/", "ENDSEC;", "IFCWALL()"];
    let k = i / 4;
    match style {
        0 => format!("n{i}"),
        // blanks around and within
        1 => [format!("n {k}"), format!(" n {k}"), format!("n {k} "), format!("n  {k}")][i % 4].clone(),
        // case
        2 => [format!("name {k}"), format!("NAME {k}"), format!("Name {k}"), format!("nAME {k}")][i % 4].clone(),
        // a long start or end in common
        3 => format!("{}{i}", "x".repeat(300)),
        4 => format!("{i}{}", "y\u{e4}".repeat(2500)),
        5 => SPECIAL.get(i).map(|s| s.to_string()).unwrap_or(format!("{}{i}", SPECIAL[i % SPECIAL.len()])),
        // equal when normalised
        6 => [format!("\u{e9}\u{df}K{k}"), format!("e\u{301}\u{df}K{k}"), format!("\u{e9}ssK{k}"), format!("\u{e9}\u{df}\u{212a}{k}")][i % 4].clone(),
        // equal as numbers
        7 => [format!("{k}"), format!("0{k}"), format!("{k}.0"), format!("+{k}")][i % 4].clone(),
        8 => [format!("a\tb{k}"), format!("a\nb{k}"), format!("a\\b{k}"), format!("a\"b{k}")][i % 4].clone(),
        // lengths around the powers of two
        9 => {
            let n = [15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257][i % 12];
            let d = format!("{i}");
            format!("{d}{}", "z".repeat(n - d.len()))
        }
        // one of them empty
        10 => if i == 3 { String::new() } else { format!("n{i}") },
        _ => if i == 0 { String::new() } else { format!("\u{1F600}{i}\u{6f22}") },
    }
}
/// names of materials, layers and constituents
pub fn part(style: usize, what: &str, k: usize) -> String {
    if style == 0 { format!("{what} {k}") } else { styled(style, k) }
}
fn restyled(style: usize, x: f64) -> f64 {
    match style % 6 {
        0 => x / 7.,
        1 => x * 1e-9,
        2 => x * 1e9,
        3 => x + 1e-9,
        4 => x + 1e6,
        _ => x * 1e-12 + x,
    }
}

/// the same plan with other names and numbers
pub fn restyle(mut p: Plan, style: usize) -> Plan {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut name = |n: &mut String| {
        let i = seen.len();
        *n = seen
            .entry(n.clone())
            // objects of the same name keep one that tells them apart
            .or_insert_with(|| styled(style, i))
            .clone();
    };
    let f = |x: &mut f64| *x = restyled(style, *x);
    let f3 = |p: &mut P3| p.iter_mut().for_each(f);
    let c2 = |c: &mut Vec<P2>| c.iter_mut().for_each(|p| p.iter_mut().for_each(f));
    let c3 = |c: &mut Vec<P3>| c.iter_mut().for_each(|p| p.iter_mut().for_each(f));
    let vals = |v: &mut Vec<Prop>| {
        for (i, p) in v.iter_mut().enumerate() {
            p.name = part(style, "prop", i);
            match &mut p.val {
                Val::Label(s) | Val::Ident(s) => *s = styled(style, i + 1),
                Val::Real(x) | Val::Thermal(x) => f(x),
                Val::Bool(_) => {}
            }
        }
    };
    p.style = style;
    p.project = styled(style, 1);
    for (i, x) in p.info.iter_mut().enumerate() {
        *x = styled(style, i);
    }
    for s in &mut p.sites {
        name(&mut s.name);
        f3(&mut s.p);
        for b in &mut s.buildings {
            name(&mut b.name);
            f3(&mut b.p);
            for st in &mut b.storeys {
                name(&mut st.name);
                f(&mut st.elev);
                for op in &mut st.ops {
                    match op {
                        Op::LayerSet { new, .. } => new.iter_mut().for_each(|l| f(&mut l.0)),
                        Op::Usage { off, .. } => f(off),
                        Op::ConstSet { .. } => {}
                        Op::Type { name: n, .. } => name(n),
                        Op::Props { name: n, vals: v, to } => {
                            name(n);
                            vals(v);
                            to.iter_mut().for_each(&mut name);
                        }
                        Op::Transform { target, tr } => {
                            name(target);
                            f3(&mut tr.t);
                        }
                        Op::Elem { shape, name: n, p, subs, .. } => {
                            name(n);
                            f3(p);
                            match shape {
                                Shape::VWall { h, l } | Shape::Shading { h, l } => {
                                    f(h);
                                    f(l);
                                }
                                Shape::HSlab { c } | Shape::HRoof { c } | Shape::VArbWall { c } => c2(c),
                                Shape::Space { c, h } => {
                                    c2(c);
                                    f(h);
                                }
                                Shape::ArbWall { c, .. } | Shape::ArbSlab { c, .. } => c3(c),
                                Shape::VSlab { s, e, h } => {
                                    s.iter_mut().chain(e).for_each(f);
                                    f(h);
                                }
                            }
                            for s in subs {
                                match s {
                                    Sub::WOpen { name: n, h, l, p, .. } | Sub::SOpen { name: n, h, l, p } => {
                                        name(n);
                                        f(h);
                                        f(l);
                                        f3(p);
                                    }
                                    Sub::WWin { name: n, h, w, p, .. } | Sub::SWin { name: n, h, w, p, .. } => {
                                        name(n);
                                        f(h);
                                        f(w);
                                        f3(p);
                                    }
                                    Sub::SOpenH { name: n, c } | Sub::SWinH { name: n, c, .. } => {
                                        name(n);
                                        c2(c);
                                    }
                                    Sub::SOpen3 { name: n, c } | Sub::SWin3 { name: n, c, .. } => {
                                        name(n);
                                        c3(c);
                                    }
                                    Sub::Props { name: n, vals: v } => {
                                        name(n);
                                        vals(v);
                                    }
                                    Sub::Transform(t) => f3(&mut t.t),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    p
}

/// the same plan with lists of (at least) this length: layers, constituents,
/// outlines and properties
pub fn stretch(mut p: Plan, n: usize) -> Plan {
    let c2 = |c: &mut Vec<P2>| (c.len()..n).for_each(|i| c.push([i as f64 * 0.5, ((i * i) % 17) as f64 - 3.25]));
    let c3 = |c: &mut Vec<P3>| (c.len()..n).for_each(|i| c.push([i as f64 * 0.5, ((i * i) % 17) as f64 - 3.25, (i % 5) as f64]));
    let vals = |v: &mut Vec<Prop>| {
        for i in v.len()..n {
            let val = match i % 4 {
                0 => Val::Real(i as f64 / 8.),
                1 => Val::Label(format!("value {i}")),
                2 => Val::Bool(i % 3 == 0),
                _ => Val::Thermal(i as f64 / 4.),
            };
            v.push(Prop { name: format!("prop {i}"), val, unit: false });
        }
    };
    // where the layers and constituents of the plan are in the new one
    let (mut layers, mut consts): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let (mut l, mut k) = (0, 0);
    let moved = |at: &[usize], list: &mut Vec<usize>, from: usize, to: usize| {
        list.iter_mut().for_each(|i| *i = at[*i]);
        for i in from..to {
            if list.len() < n {
                list.push(i);
                // some of them once more
                if i % 5 == 0 && list.len() < n {
                    list.push(i - i % 3);
                }
            }
        }
    };
    for st in p.sites.iter_mut().flat_map(|s| &mut s.buildings).flat_map(|b| &mut b.storeys) {
        for op in &mut st.ops {
            match op {
                Op::LayerSet { new, list } => {
                    let own = new.len();
                    layers.extend(l..l + own);
                    for i in own..n {
                        new.push(((1 + i % 7) as f64 / 64., i % 2 == 0));
                    }
                    moved(&layers, list, l + own, l + new.len());
                    l += new.len();
                }
                Op::ConstSet { new, list } => {
                    let own = *new;
                    consts.extend(k..k + own);
                    *new = own.max(n);
                    moved(&consts, list, k + own, k + *new);
                    k += *new;
                }
                Op::Props { vals: v, .. } => vals(v),
                Op::Elem { shape, subs, .. } => {
                    match shape {
                        Shape::HSlab { c } | Shape::HRoof { c } | Shape::VArbWall { c } | Shape::Space { c, .. } => c2(c),
                        Shape::ArbWall { c, .. } | Shape::ArbSlab { c, .. } => c3(c),
                        _ => {}
                    }
                    for s in subs {
                        match s {
                            Sub::SOpenH { c, .. } | Sub::SWinH { c, .. } => c2(c),
                            Sub::SOpen3 { c, .. } | Sub::SWin3 { c, .. } => c3(c),
                            Sub::Props { vals: v, .. } => vals(v),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    p
}
