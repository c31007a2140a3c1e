//! C25: the public fields of a loaded object are the file's attributes, and
//! what is assigned to a field is what is written.
use crate::common::*;
use crate::explore::{explore, par_for};
use crate::report::Report;
use crate::schema::*;
use crate::step::{self, V};
use ifc_rs::prelude::*;
use ifc_rs::IFC;
use std::collections::BTreeMap;
use std::fmt::Display;

struct Field {
    tag: &'static str,
    name: &'static str,
    /// position of the attribute
    at: usize,
    /// the field as text, and its value where a program can take it out
    get: fn(&dyn IfcType) -> (String, Option<V>),
    /// exchanges the field of the objects #1 of two models
    swap: Option<fn(&mut IFC, &mut IFC)>,
}

fn shown(x: &impl Display) -> String {
    x.to_string()
}
fn of<T: IfcType>(t: &dyn IfcType) -> &T {
    t.downcast_ref::<T>().expect("checked to be of this kind")
}
fn one<T: IfcType>(i: &mut IFC) -> &mut T {
    i.data.get_mut(TypedId::<T>::new(Id(1)))
}
fn text(s: &str) -> V {
    V::Str(s.to_string())
}
fn id(i: Id) -> V {
    V::Ref(i.0 as u64)
}
fn any<'a, T: 'a>(it: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> V) -> V {
    V::List(it.into_iter().map(f).collect())
}

/// the value in a field: `d` only as text; `s` text, `r` real, `n` integer,
/// `i` id, `t` typed id, `u` unique id as text, `o..` optional, `l.` list of
macro_rules! val {
    (d $x:expr) => { None };
    (s $x:expr) => { Some(text(&$x.0)) };
    (r $x:expr) => { Some(V::Num($x.0)) };
    (n $x:expr) => { Some(V::Num($x.0 as f64)) };
    (e $x:expr) => { Some(V::Num($x as f64)) };
    (i $x:expr) => { Some(id($x)) };
    (t $x:expr) => { Some(id($x.id())) };
    (w $x:expr) => { $x.id().map(|y| id(y.id())) };
    (c $x:expr) => { Some(V::Num($x.0.timestamp() as f64)) };
    (ls $x:expr) => { Some(any(&$x.0, |y| text(&y.0))) };
    (ln $x:expr) => { Some(any(&$x.0, |y| V::Num(y.0 as f64))) };
    (li $x:expr) => { Some(any(&$x.0, |y| id(*y))) };
    (lt $x:expr) => { Some(any(&$x.0, |y| id(y.id()))) };
    (v2 $x:expr) => { Some(any(&$x.0, |y| V::List(vec![V::Num(y.x), V::Num(y.y)]))) };
    (v3 $x:expr) => { Some(any(&$x.0, |y| V::List(vec![V::Num(y.x), V::Num(y.y), V::Num(y.z)]))) };
    (od $x:expr) => { opt!($x, _y, None) };
    (os $x:expr) => { opt!($x, y, val!(s y)) };
    (or $x:expr) => { opt!($x, y, val!(r y)) };
    (on $x:expr) => { opt!($x, y, val!(n y)) };
    (oc $x:expr) => { opt!($x, y, val!(c y)) };
    (oi $x:expr) => { opt!($x, y, val!(i *y)) };
    (ot $x:expr) => { opt!($x, y, val!(t y)) };
    (ow $x:expr) => { opt!($x, y, val!(w y)) };
    (ols $x:expr) => { opt!($x, y, val!(ls y)) };
    (oln $x:expr) => { opt!($x, y, val!(ln y)) };
    (oli $x:expr) => { opt!($x, y, val!(li y)) };
    (olt $x:expr) => { opt!($x, y, val!(lt y)) };
}
macro_rules! opt {
    ($x:expr, $y:pat, $e:expr) => {
        match ($x.custom(), $x.is_custom(), $x.is_omitted(), $x.is_inherited()) {
            (Some($y), true, false, false) => $e,
            (None, false, true, false) => Some(V::Omit),
            (None, false, false, true) => Some(V::Inh),
            _ => Some(text("an optional parameter that is in no or several states")),
        }
    };
}

macro_rules! fields {
    ($v:ident $t:ident mut: $($at:literal $c:ident $f:ident),* $(,)?) => { $(
        $v.push(Field {
            tag: stringify!($t), name: stringify!($f), at: $at,
            get: |x| { let x = of::<$t>(x); (shown(&x.$f), val!($c x.$f)) },
            swap: Some(|a, b| std::mem::swap(&mut one::<$t>(a).$f, &mut one::<$t>(b).$f)),
        });
    )* };
    ($v:ident $t:ident: $($at:literal $c:ident $f:ident),* $(,)?) => { $(
        $v.push(Field {
            tag: stringify!($t), name: stringify!($f), at: $at,
            get: |x| { let x = of::<$t>(x); (shown(&x.$f), val!($c x.$f)) },
            swap: None,
        });
    )* };
}
macro_rules! root { ($v:ident $($t:ident)* $(; mut $($m:ident)*)?) => {
    $(fields!($v $t: 0 d global_id, 1 ot owner_history, 2 os name, 3 os description);)*
    $($(fields!($v $m mut: 0 d global_id, 1 ot owner_history, 2 os name, 3 os description);)*)?
}; }

fn fields() -> Vec<Field> {
    let mut v = Vec::new();
    // what is inherited
    root!(v WallType SlabType RoofType WindowType DoorType SpaceType ShadingDeviceType RelAggregates RelAssociatesMaterial
        RelContainedInSpatialStructure RelDeclares RelDefinesByType RelDefinesByProperties PropertySet;
        mut Wall Slab Roof Building Storey Site OpeningElement Window Project Space Door ShadingDevice);
    macro_rules! product { ($($t:ident)*) => { $(
        fields!(v $t mut: 4 os object_type, 5 oi object_placement, 6 ot representation);
    )* }; }
    product!(Wall Slab Roof OpeningElement Window Door ShadingDevice Building Storey Site Space);
    macro_rules! element { ($($t:ident)*) => { $( fields!(v $t mut: 7 os tag); )* }; }
    element!(Wall Slab Roof OpeningElement Window Door ShadingDevice);
    macro_rules! spatial { ($($t:ident)*) => { $( fields!(v $t mut: 7 os long_name, 8 od composition_type); )* }; }
    spatial!(Building Storey Site Space);
    macro_rules! types { ($($t:ident)*) => { $(
        fields!(v $t: 4 oi applicable_occurence, 5 oli has_property_sets, 6 olt representation_maps, 7 os tag, 8 os element_type);
    )* }; }
    types!(WallType SlabType RoofType WindowType DoorType ShadingDeviceType);
    fields!(v SpaceType: 4 oi applicable_occurence, 5 oli has_property_sets, 6 olt representation_maps, 7 os tag, 8 os element_type);
    // objects
    fields!(v ActorRole mut: 0 d role, 1 os user_defined_role, 2 os description);
    fields!(v PostalAddress mut: 0 os purpose, 1 os description, 2 os user_defined_purpose, 3 os internal_location, 4 ols address_lines,
        5 os postal_box, 6 ols town, 7 os region, 8 os postal_code, 9 os country);
    fields!(v TelecomAddress mut: 0 os purpose, 1 os description, 2 os user_defined_purpose, 3 ols telephone_numbers,
        4 ols facsimile_numbers, 5 os pager_number, 6 ols email_addresses, 7 os homepage_url);
    fields!(v Application mut: 0 t application_developer, 1 s version, 2 s application_full_name, 3 s application_identifier);
    fields!(v Organization mut: 0 os id, 1 s name, 2 os description, 3 olt roles, 4 oli addresses);
    fields!(v OwnerHistory mut: 0 ot owning_user, 1 ot owning_application, 2 od state, 3 d change_action, 4 oc last_modified_date,
        5 ot last_modifying_user, 6 ot last_modifying_application, 7 c creation_date);
    fields!(v Person mut: 0 os id, 1 os family_name, 2 os given_name, 3 ols middle_names, 4 ols prefix_titles, 5 ols suffix_titles,
        6 olt roles, 7 oli addresses);
    fields!(v PersonAndOrganization mut: 0 t the_person, 1 t the_organization, 2 olt roles);
    fields!(v Wall mut: 8 ow predefined_type);
    fields!(v WallType mut: 9 d predefined_type);
    fields!(v Slab mut: 8 od predefined_type);
    fields!(v SlabType mut: 9 d predefined_type);
    fields!(v Roof mut: 8 od predefined_type);
    fields!(v RoofType mut: 9 d predefined_type);
    fields!(v Building mut: 9 or elevation_of_ref_height, 10 or elevation_of_terrain, 11 ot building_address);
    fields!(v Storey mut: 9 or elevation);
    fields!(v Site mut: 9 oln ref_latitude, 10 oln ref_longitude, 11 or ref_elevation, 12 os land_title_number, 13 ot site_address);
    fields!(v OpeningElement mut: 8 od predefined_type);
    fields!(v Window mut: 8 or overall_height, 9 or overall_width, 10 od predefined_type, 11 od partitioning_type,
        12 os user_defining_partitioning_type);
    fields!(v WindowType mut: 9 d predefined_type, 10 d partitioning_type, 11 od parameter_takes_precedence,
        12 os user_defined_partitioning_type);
    fields!(v Project mut: 4 os object_type, 5 os long_name, 6 os phase, 7 lt representation_context, 8 ot units_in_context);
    fields!(v Space mut: 9 od predefined_type, 10 or elevation_with_flooring);
    fields!(v SpaceType mut: 9 d predefined_type, 10 os long_name);
    fields!(v Door mut: 8 or overall_height, 9 or overall_width, 10 od predefined_type, 11 od operation_type,
        12 os user_defining_operation_type);
    fields!(v DoorType mut: 9 d predefined_type, 10 d operation_type, 11 od parameter_takes_precedence,
        12 os user_defined_partitioning_type);
    fields!(v ShadingDevice mut: 8 od predefined_type);
    fields!(v ShadingDeviceType mut: 9 d predefined_type);
    // geometry
    fields!(v ArbitraryClosedProfileDef mut: 0 d profile_type, 1 os profile_name, 2 i outer_curve);
    fields!(v Axis2D mut: 0 t location, 1 ot local_x);
    fields!(v Axis3D mut: 0 t location, 1 ot local_z, 2 ot local_x);
    fields!(v ExtrudedAreaSolid mut: 0 i swept_area, 1 ot position, 2 t extruded_direction, 3 r depth);
    fields!(v IndexedPolyCurve mut: 0 i points, 1 os segments, 2 od self_intersect);
    fields!(v PointList2D mut: 0 v2 coord_list, 1 ols tag_list);
    fields!(v PointList3D mut: 0 v3 coord_list, 1 ols tag_list);
    fields!(v PolyLine mut: 0 li points);
    fields!(v ProductDefinitionShape mut: 0 os name, 1 os description, 2 lt representations);
    fields!(v RectangleProfileDef mut: 0 d profile_type, 1 os profile_name, 2 oi position, 3 r x_dim, 4 r y_dim);
    fields!(v GeometricRepresentationContext mut: 0 od context_identifier, 1 os context_type, 2 d coord_space_dimension, 3 or precision,
        4 i world_coord_system, 5 oi true_north);
    fields!(v GeometricRepresentationSubContext mut: 0 od context_identifier, 1 os context_type, 2 od coord_space_dimension,
        3 or precision, 4 oi world_coord_system, 5 oi true_north, 6 t parent_context, 7 or target_scale, 8 d target_view,
        9 os user_defined_target_view);
    fields!(v ShapeRepresentation mut: 0 i context_of_items, 1 od representation_identifier, 2 od representation_type, 3 li items);
    fields!(v LocalPlacement mut: 0 ot placement_rel_to, 1 i relative_placement);
    macro_rules! operator { ($($t:ident)*) => { $( fields!(v $t: 0 ow axis_x, 1 ow axis_y, 2 ow local_origin, 3 or scale, 4 ow axis_z); )* }; }
    operator!(CartesianTransformationOperator3DnonUniform CartesianTransformationOperator3D);
    fields!(v CartesianTransformationOperator3DnonUniform mut: 5 or scale_y, 6 or scale_z);
    // relations
    fields!(v RelAggregates mut: 4 i relating_object, 5 li related_objects);
    fields!(v RelAssociatesMaterial: 4 li related_objects);
    fields!(v RelAssociatesMaterial mut: 5 i relating_material);
    fields!(v RelContainedInSpatialStructure mut: 4 li related_elements, 5 i relating_structure);
    fields!(v RelDeclares mut: 4 t relating_context, 5 li related_definitions);
    fields!(v RelDefinesByType mut: 4 li related_objects, 5 i relating_type);
    fields!(v RelDefinesByProperties mut: 4 li related_objects, 5 i relating_property_definition);
    fields!(v RelVoidsElement mut: 4 i relating_building_element, 5 t related_opening_element);
    fields!(v RelFillsElement mut: 5 i related_building_element);
    fields!(v MappedItem mut: 0 w source, 1 i target);
    fields!(v RepresentationMap mut: 0 w origin, 1 w representation);
    // units
    fields!(v UnitAssigment mut: 0 li units);
    fields!(v ConversionBasedUnit: 0 oi dimensions, 1 od unit_type);
    fields!(v ConversionBasedUnit mut: 2 od name, 3 ow conversion_factor);
    fields!(v SiUnit: 0 oi dimensions, 1 od unit_type);
    fields!(v SiUnit mut: 2 od prefix, 3 d name);
    fields!(v DimensionalExponents mut: 0 e length, 1 e mass, 2 e time, 3 e electric_current, 4 e thermodynamic_temperature,
        5 e amount_of_substance, 6 e luminouse_intensity);
    fields!(v MeasureWithUnit mut: 0 d value, 1 t unit);
    fields!(v DerivedUnit mut: 0 lt elements, 1 d unit_type, 2 os user_defined_type);
    fields!(v DerivedUnitElement mut: 0 t unit, 1 n exponent);
    fields!(v MonetaryUnit mut: 0 s currency);
    // materials and properties
    fields!(v MaterialLayerSetUsage mut: 0 t spatial_element_structure, 1 d layer_set_direction, 2 d direction_sense,
        3 r offset_from_reference_line, 4 or reference_extent);
    fields!(v MaterialLayerSet mut: 0 lt material_layers, 1 os layer_set_name, 2 os description);
    fields!(v MaterialLayer mut: 0 ot material, 1 r layer_thickness, 2 d is_ventilated, 3 os name, 4 os description, 5 os category,
        6 on priority);
    fields!(v Material mut: 0 os material, 1 os description, 2 os category);
    fields!(v MaterialConstituent mut: 0 os name, 1 os description, 2 t material, 3 or fraction, 4 os category);
    fields!(v MaterialConstituentSet mut: 0 os name, 1 os description, 2 lt material_constituents);
    fields!(v PropertySet mut: 4 lt properties);
    fields!(v PropertySingleValue mut: 2 d value, 3 oi unit);
    // a point is its coordinates
    v.push(Field {
        tag: "Point2D",
        name: "x and y",
        at: 0,
        get: |t| {
            let p = of::<Point2D>(t);
            (format!("({},{})", p.x, p.y), Some(V::List(vec![V::Num(p.x), V::Num(p.y)])))
        },
        swap: Some(|a, b| std::mem::swap(&mut **one::<Point2D>(a), &mut **one::<Point2D>(b))),
    });
    v.push(Field {
        tag: "Point3D",
        name: "x, y and z",
        at: 0,
        get: |t| {
            let p = of::<Point3D>(t);
            (format!("({},{},{})", p.x, p.y, p.z), Some(V::List(vec![V::Num(p.x), V::Num(p.y), V::Num(p.z)])))
        },
        swap: Some(|a, b| std::mem::swap(&mut **one::<Point3D>(a), &mut **one::<Point3D>(b))),
    });
    v
}

fn strip(k: &K) -> &K {
    match k {
        K::Opt(e) => e,
        k => k,
    }
}

/// what C01 tries for an attribute, and texts with characters that are written encoded
fn forms(s: &Schema, k: &K) -> Vec<String> {
    let mut v = alts(s, k, true);
    if matches!(strip(k), K::Str) {
        v.extend(["'ä \\X2\\00DF\\X0\\'", "'#12=X($,*);'"].map(String::from));
    }
    v
}

struct M<'a> {
    rep: &'a Report,
    s: Schema,
    by: BTreeMap<&'static str, Vec<Field>>,
}

impl M<'_> {
    fn file(&self, args: &[String], name: &str) -> String {
        file_of(&with_closure(&self.s, &[(1, line(name, args))]))
    }
    /// a loaded file, unless it is not read as this kind, which C01 reports
    fn load(&self, kind: &Kind, file: &str) -> Option<Box<IFC>> {
        self.rep.step(1);
        let i = load_ok(file).ok()?;
        let good = matches!(entity(&i, 1), Ok(e) if (kind.is)(e));
        good.then_some(i)
    }
    fn read(&self, kind: &Kind, name: &str, args: &[String]) {
        let file = self.file(args, name);
        self.rep.state(&file);
        let Some(ifc) = self.load(kind, &file) else { return self.rep.outcome("not read as its kind") };
        let e = entity(&ifc, 1).unwrap();
        let want = step::ent(&line(name, args)).expect("generated text is well formed");
        let mut good = true;
        for f in &self.by[kind.tag] {
            let (w, k) = (&want.args[f.at], strip(&kind.attrs[f.at]));
            let mut bad = |what: String| {
                good = false;
                self.rep.violation(format!("{}.{} {}", f.tag, f.name, args[f.at]), format!("{}.{} {what}", f.tag, f.name), file.clone());
            };
            let (shown, value) = (f.get)(e);
            match step::ent(&format!("X({shown})")) {
                Ok(x) if x.args.len() == 1 && v_eq(k, w, &x.args[0]) => {}
                _ => bad(format!("is {shown} in memory and attribute {} in the file is {}", f.at + 1, args[f.at])),
            }
            match value {
                Some(x) if !v_eq(k, w, &x) => bad(format!("has the value {x} and attribute {} in the file is {}", f.at + 1, args[f.at])),
                _ => {}
            }
        }
        if good {
            self.rep.trace();
            self.rep.outcome("fields read");
        }
    }
    /// exchanges fields of two objects one after another; what is written shows exactly these exchanges
    fn exchange(&self, kind: &Kind, a: &[String], b: &[String], swaps: &[&Field]) {
        let name = kind.names[0];
        let (fa, fb) = (self.file(a, name), self.file(b, name));
        let what = swaps.iter().map(|f| f.name).collect::<Vec<_>>().join(", ");
        self.rep.state(&format!("{fa}{fb}{what}"));
        let (Some(mut ia), Some(mut ib)) = (self.load(kind, &fa), self.load(kind, &fb)) else {
            return self.rep.outcome("not read as its kind");
        };
        let parse = |x: &[String]| step::ent(&line(name, x)).expect("generated text is well formed");
        let (mut wa, mut wb) = (parse(a), parse(b));
        for f in swaps {
            (f.swap.unwrap())(&mut ia, &mut ib);
            std::mem::swap(&mut wa.args[f.at], &mut wb.args[f.at]);
            self.rep.step(1);
        }
        let mut good = true;
        for (ifc, want, file) in [(&ia, &wa, &fa), (&ib, &wb, &fb)] {
            let mut bad = |m: String| {
                good = false;
                self.rep.violation(format!("{} {what} assigned", kind.tag), format!("{} after assigning {what}: {m}", kind.tag), format!("{file}-- and\n{}", if std::ptr::eq(file, &fa) { &fb } else { &fa }));
            };
            let e = entity(ifc, 1).unwrap();
            if let Err(m) = same_entity(kind, want, &e.to_string()) {
                bad(m);
            }
            match step::file(&ifc.to_string()) {
                Err(m) => bad(format!("the written file is not well formed: {m}")),
                Ok(f) => match f.data.iter().find(|x| x.0 == 1) {
                    None => bad("#1 is not written".into()),
                    Some(x) => {
                        if let Err(m) = same_entity(kind, want, &x.2) {
                            bad(format!("in the written file: {m}"));
                        }
                    }
                },
            }
            for f in &self.by[kind.tag] {
                let (shown, value) = (f.get)(e);
                let k = strip(&kind.attrs[f.at]);
                let same = matches!(step::ent(&format!("X({shown})")), Ok(x) if x.args.len() == 1 && v_eq(k, &want.args[f.at], &x.args[0]));
                if !same || matches!(&value, Some(x) if !v_eq(k, &want.args[f.at], x)) {
                    bad(format!("the field {} is {shown} and not {}", f.name, want.args[f.at]));
                }
            }
        }
        if good {
            self.rep.trace();
            self.rep.outcome("fields assigned");
        }
    }
}

pub fn c25(rep: &Report) -> &'static str {
    let mut by: BTreeMap<&'static str, Vec<Field>> = BTreeMap::new();
    let all = fields();
    rep.bound("public_fields", all.len() as u64);
    rep.bound("assignable_fields", all.iter().filter(|f| f.swap.is_some()).count() as u64);
    for f in all {
        by.entry(f.tag).or_default().push(f);
    }
    let m = M { rep, s: Schema::new(), by };
    let s = &m.s;
    let kinds: Vec<&Kind> = s.kinds.iter().filter(|k| m.by.contains_key(k.tag)).collect();
    rep.bound("entity_kinds", kinds.len() as u64);
    let choices: Vec<Vec<Vec<String>>> = kinds.iter().map(|k| k.attrs.iter().map(|a| forms(s, a)).collect()).collect();
    let bound = rep.pick(2, 3);
    rep.bound("attributes_unlike_the_rest", bound as u64);
    // every attribute in every form, the rest minimal or full
    explore(rep, bound, |ch| {
        let i = ch.choose(kinds.len());
        let kind = kinds[i];
        let rest = ch.choose(2);
        let name = kind.names[ch.choose(kind.names.len())];
        let args: Vec<String> = choices[i]
            .iter()
            .zip(&kind.attrs)
            .map(|(c, k)| match ch.deviate(c.len() + 1) {
                0 if rest == 0 => minimal(s, k),
                0 => full(s, k),
                x => c[x - 1].clone(),
            })
            .collect();
        m.read(kind, name, &args);
    });
    // every sequence of assignments up to a length, between unlike objects
    let depth = rep.pick(3, 4);
    rep.bound("assignments_in_sequence", depth as u64);
    par_for(kinds.len(), |i| {
        let kind = kinds[i];
        let fs: Vec<&Field> = m.by[kind.tag].iter().filter(|f| f.swap.is_some()).collect();
        let a: Vec<String> = kind.attrs.iter().map(|k| minimal(s, k)).collect();
        let b: Vec<String> = kind.attrs.iter().map(|k| full(s, k)).collect();
        let mut seqs: Vec<Vec<&Field>> = vec![vec![]];
        for _ in 0..depth {
            let next: Vec<Vec<&Field>> = seqs.iter().flat_map(|q| fs.iter().map(|f| q.iter().copied().chain([*f]).collect())).collect();
            for q in &next {
                if rep.stop() {
                    return;
                }
                m.exchange(kind, &a, &b, q);
            }
            seqs = next;
        }
        m.exchange(kind, &a, &b, &fs);
    });
    // every assignable field, every pair of its forms
    par_for(kinds.len(), |i| {
        let kind = kinds[i];
        for f in m.by[kind.tag].iter().filter(|f| f.swap.is_some()) {
            for (rest, x) in choices[i][f.at].iter().enumerate() {
                for y in &choices[i][f.at] {
                    if rep.stop() {
                        return;
                    }
                    let of = |t: &String, full_: bool| -> Vec<String> {
                        kind.attrs
                            .iter()
                            .enumerate()
                            .map(|(j, k)| if j == f.at { t.clone() } else if full_ { full(s, k) } else { minimal(s, k) })
                            .collect()
                    };
                    m.exchange(kind, &of(x, rest % 2 == 0), &of(y, rest % 2 == 1), &[f]);
                }
            }
        }
    });
    "exhaustive enumeration of public field x attribute form (and of sequences of assignments up to a depth), executed on IFC::from_str, the fields and Display, compared with the attributes of the file"
}
