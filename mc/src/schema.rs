//! Hand-written table of the supported entity kinds: keyword, attribute shapes
//! in STEP order, and which kinds a reference may point to. This is the
//! specification side; it is not derived from the crate's sources at run time.
use ifc_rs::prelude::*;

pub type Kinds = &'static [&'static str];

#[derive(Clone, Debug)]
pub enum K {
    Guid,
    Str,
    Real,
    Int,
    /// seconds since the epoch
    Time,
    Bool,
    /// enumeration literals, written with their dots
    En(Kinds),
    /// closed set of strings, written with quotes
    SEn(Kinds),
    Dim,
    Vec2,
    Vec3,
    /// reference to one of the kinds (empty: unrestricted)
    Ref(Kinds),
    /// a property value with its type keyword
    Value,
    /// a plane angle measure given in place
    Angle,
    List(Box<K>),
    Opt(Box<K>),
}

use K::*;

pub struct Kind {
    pub tag: &'static str,
    /// first: the keyword it is written with; the rest are read as the same kind
    pub names: Kinds,
    pub attrs: Vec<K>,
    pub is: fn(&dyn IfcType) -> bool,
}

fn o(k: K) -> K {
    Opt(Box::new(k))
}
fn l(k: K) -> K {
    List(Box::new(k))
}
fn ostr() -> K {
    o(Str)
}
fn is<T: IfcType>(t: &dyn IfcType) -> bool {
    t.downcast_ref::<T>().is_some()
}
pub fn is_dummy(t: &dyn IfcType) -> bool {
    is::<Dummy>(t)
}
fn cat(parts: Vec<Vec<K>>) -> Vec<K> {
    parts.into_iter().flatten().collect()
}
fn root() -> Vec<K> {
    vec![Guid, o(Ref(&["OwnerHistory"])), ostr(), ostr()]
}
fn object() -> Vec<K> {
    cat(vec![root(), vec![ostr()]])
}
fn product() -> Vec<K> {
    cat(vec![object(), vec![o(Ref(&["Axis3D", "Point3D", "LocalPlacement"])), o(Ref(&["ProductDefinitionShape"]))]])
}
fn element() -> Vec<K> {
    cat(vec![product(), vec![ostr()]])
}
fn spatial() -> Vec<K> {
    cat(vec![product(), vec![ostr(), o(En(COMPOSITION))]])
}
fn element_type() -> Vec<K> {
    cat(vec![
        root(),
        vec![o(Ref(&[])), o(l(Ref(&[]))), o(l(Ref(&["RepresentationMap"]))), ostr(), ostr()],
    ])
}

pub const COMPOSITION: Kinds = &[".COMPLEX.", ".ELEMENT.", ".PARTIAL."];
pub const ROLE: Kinds = &[
    ".SUPPLIER.", ".MANUFACTURER.", ".CONTRACTOR.", ".SUBCONTRACTOR.", ".ARCHITECT.", ".STRUCTURALENGINEER.",
    ".COSTENGINEER.", ".CLIENT.", ".BUILDINGOWNER.", ".BUILDINGOPERATOR.", ".MECHANICALENGINEER.",
    ".ELECTRICALENGINEER.", ".PROJECTMANAGER.", ".FACILITIESMANAGER.", ".CIVILENGINEER.",
    ".ENGINEER.", ".OWNER.", ".CONSULTANT.", ".CONSTRUCTIONMANAGER.",
    ".FIELDCONSTRUCTIONMANAGER.", ".COMMISSIONINGENGINEER.", ".RESELLER.", ".USERDEFINED.",
];
pub const ACCESS: Kinds = &[".READWRITE.", ".READONLY.", ".LOCKED.", ".READWRITELOCKED.", ".READONLYLOCKED."];
pub const CHANGE: Kinds = &[".NOCHANGE.", ".MODIFIED.", ".ADDED.", ".DELETED.", ".MODIFIEDADDED.", ".MODIFIEDDELETED."];
pub const WALLTYPE: Kinds = &[
    ".MOVABLE.", ".PARAPET.", ".PARTITIONING.", ".PLUMBINGWALL.", ".SHEAR.", ".SOLIDWALL.", ".STANDARD.",
    ".POLYGONAL.", ".ELEMENTEDWALL.", ".RETAININGWALL.", ".USERDEFINED.", ".NOTDEFINED.",
];
pub const SLABTYPE: Kinds = &[".FLOOR.", ".ROOF.", ".LANDING.", ".BASESLAB.", ".USERDEFINED.", ".NOTDEFINED."];
pub const ROOFTYPE: Kinds = &[
    ".FLAT_ROOF.", ".SHED_ROOF.", ".GABLE_ROOF.", ".HIP_ROOF.", ".HIPPED_GABLE_ROOF.", ".GAMBREL_ROOF.",
    ".MANSARD_ROOF.", ".BARREL_ROOF.", ".RAINBOW_ROOF.", ".BUTTERFLY_ROOF.", ".PAVILION_ROOF.", ".DOME_ROOF.",
    ".USERDEFINED.", ".NOTDEFINED.",
];
pub const OPENING: Kinds = &[".OPENING.", ".RECESS.", ".USERDEFINED.", ".NOTDEFINED."];
pub const WINDOWTYPE: Kinds = &[".WINDOW.", ".SKYLIGHT.", ".LIGHTDOME.", ".USERDEFINED.", ".NOTDEFINED."];
pub const WINDOWPART: Kinds = &[
    ".SINGLE_PANEL.", ".DOUBLE_PANEL_VERTICAL.", ".DOUBLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_VERTICAL.",
    ".TRIPLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_BOTTOM.", ".TRIPLE_PANEL_TOP.", ".TRIPLE_PANEL_LEFT.",
    ".TRIPLE_PANEL_RIGHT.", ".USERDEFINED.", ".NOTDEFINED.",
];
pub const SPACETYPE: Kinds =
    &[".SPACE.", ".PARKING.", ".GFA.", ".INTERNAL.", ".EXTERNAL.", ".USERDEFINED.", ".NOTDEFINED."];
pub const DOORTYPE: Kinds = &[".DOOR.", ".GATE.", ".TRAPDOOR.", ".USERDEFINED.", ".NOTDEFINED."];
pub const DOOROP: Kinds = &[
    ".SINGLE_SWING_LEFT.", ".SINGLE_SWING_RIGHT.", ".DOUBLE_DOOR_SINGLE_SWING.", ".DOUBLE_SWING_LEFT.",
    ".DOUBLE_SWING_RIGHT.", ".DOUBLE_DOOR_DOUBLE_SWING.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.",
    ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.", ".SLIDING_TO_LEFT.", ".SLIDING_TO_RIGHT.",
    ".DOUBLE_DOOR_SLIDING.", ".FOLDING_TO_LEFT.", ".FOLDING_TO_RIGHT.", ".DOUBLE_DOOR_FOLDING.", ".REVOLVING.",
    ".ROLLINGUP.", ".SWING_FIXED_LEFT.", ".SWING_FIXED_RIGHT.", ".USERDEFINED.", ".NOTDEFINED.",
];
pub const SHADING: Kinds = &[".AWNING.", ".JALOUSIE.", ".SHUTTER.", ".USERDEFINED.", ".NOTDEFINED."];
pub const PROFILE: Kinds = &[".CURVE.", ".AREA."];
pub const PROJECTION: Kinds = &[
    ".GRAPH_VIEW.", ".SKETCH_VIEW.", ".MODEL_VIEW.", ".PLAN_VIEW.", ".REFLECTED_PLAN_VIEW.", ".SECTION_VIEW.",
    ".ELEVATION_VIEW.", ".USERDEFINED.", ".NOTDEFINED.",
];
pub const REPR_ID: Kinds = &[
    "'CoG'", "'Box'", "'Annotation'", "'Axis'", "'FootPrint'", "'Profile'", "'Surface'", "'Reference'", "'Body'",
    "'Body-FallBack'", "'Clearance'", "'Lighting'",
];
pub const REPR_TYPE: Kinds = &[
    "'Point'", "'PointCloud'", "'Curve'", "'Curve2D'", "'Curve3D'", "'Surface'", "'Surface2D'", "'Surface3D'",
    "'SectionedSurface'", "'FillArea'", "'Text'", "'AdvancedSurface'", "'GeometricSet'", "'GeometricCurveSet'",
    "'Annotation2D'", "'SurfaceModel'", "'Tessellation'", "'Segment'", "'SolidModel'", "'SweptSolid'",
    "'AdvancedSweptSolid'", "'Brep'", "'AdvancedBrep'", "'CSG'", "'Clipping'", "'BoundingBox'",
    "'SectionedSpine'", "'LightSource'", "'MappedRepresentation'",
];
pub const UNIT: Kinds = &[
    ".ABSORBEDDOSEUNIT.", ".AMOUNTOFSUBSTANCEUNIT.", ".AREAUNIT.", ".DOSEEQUIVALENTUNIT.", ".ENERGYUNIT.",
    ".ELECTRICCAPACITANCEUNIT.", ".ELECTRICCHARGEUNIT.", ".ELECTRICCONDUCTANCEUNIT.",
    ".ELECTRICCURRENTUNIT.", ".ELECTRICRESISTANCEUNIT.", ".ELECTRICVOLTAGEUNIT.",
    ".FORCEUNIT.", ".ILLUMINANCEUNIT.", ".INDUCTANCEUNIT.", ".LENGTHUNIT.", ".LUMINOUSFLUXUNIT.",
    ".LUMINOUSINTENSITYUNIT.", ".MAGNETICFLUXDENSITYUNIT.", ".MAGNETICFLUXUNIT.", ".MASSUNIT.",
    ".PLANEANGLEUNIT.", ".POWERUNIT.", ".PRESSUREUNIT.", ".RADIOACTIVITYUNIT.", ".SOLIDANGLEUNIT.",
    ".THERMODYNAMICTEMPERATUREUNIT.", ".TIMEUNIT.", ".VOLUMEUNIT.", ".USERDEFINED.",
];
pub const PREFIX: Kinds = &[
    ".EXA.", ".PETA.", ".TERA.", ".GIGA.", ".MEGA.", ".KILO.", ".DECA.", ".DECI.", ".CENTI.", ".MILLI.", ".MICRO.",
    ".NANO.", ".PICO.", ".FEMTO.", ".ATTO.",
];
pub const UNITNAME: Kinds = &[
    ".AMPERE.", ".BECQUEREL.", ".CANDELA.", ".COULOMB.", ".CUBIC_METRE.", ".DEGREE_CELSIUS.", ".FARAD.", ".GRAM.", ".GRAY.",
    ".HENRY.", ".HERTZ.", ".JOULE.", ".KELVIN.", ".LUMEN.", ".LUX.", ".METRE.", ".MOLE.", ".NEWTON.", ".OHM.",
    ".PASCAL.", ".RADIAN.", ".SECOND.", ".SIEMENS.", ".SIEVERT.", ".SQUARE_METRE.", ".STERADIAN.", ".TESLA.",
    ".VOLT.", ".WATT.", ".WEBER.",
];
pub const DERIVED: Kinds = &[
    ".ANGULARVELOCITYUNIT.", ".AREADENSITYUNIT.", ".COMPOUNDPLANEANGLEUNIT.", ".DYNAMICVISCOSITYUNIT.",
    ".HEATFLUXDENSITYUNIT.", ".INTEGERCOUNTRATEUNIT.", ".ISOTHERMALMOISTURECAPACITYUNIT.",
    ".KINEMATICVISCOSITYUNIT.", ".LINEARVELOCITYUNIT.", ".MASSDENSITYUNIT.", ".MASSFLOWRATEUNIT.",
    ".MOISTUREDIFFUSIVITYUNIT.", ".MOLECULARWEIGHTUNIT.", ".SPECIFICHEATCAPACITYUNIT.",
    ".THERMALADMITTANCEUNIT.", ".THERMALCONDUCTANCEUNIT.", ".THERMALRESISTANCEUNIT.",
    ".THERMALTRANSMITTANCEUNIT.", ".VAPORPERMEABILITYUNIT.", ".VOLUMETRICFLOWRATEUNIT.",
    ".ROTATIONALFREQUENCYUNIT.", ".TORQUEUNIT.", ".MOMENTOFINERTIAUNIT.", ".LINEARMOMENTUNIT.",
    ".LINEARFORCEUNIT.", ".PLANARFORCEUNIT.", ".MODULUSOFELASTICITYUNIT.", ".SHEARMODULUSUNIT.",
    ".LINEARSTIFFNESSUNIT.", ".ROTATIONALSTIFFNESSUNIT.", ".MODULUSOFSUBGRADEREACTIONUNIT.",
    ".ACCELERATIONUNIT.", ".CURVATUREUNIT.", ".IONCONCENTRATIONUNIT.", ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.",
    ".MASSPERLENGTHUNIT.", ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.",
    ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.", ".PHUNIT.", ".ROTATIONALMASSUNIT.",
    ".SECTIONAREAINTEGRALUNIT.", ".SECTIONMODULUSUNIT.", ".SOUNDPOWERLEVELUNIT.", ".SOUNDPOWERUNIT.",
    ".SOUNDPRESSURELEVELUNIT.", ".SOUNDPRESSUREUNIT.", ".TEMPERATUREGRADIENTUNIT.",
    ".TEMPERATURERATEOFCHANGEUNIT.", ".THERMALEXPANSIONCOEFFICIENTUNIT.", ".WARPINGCONSTANTUNIT.",
    ".WARPINGMOMENTUNIT.", ".USERDEFINED.",
];
pub const CONVERSION: Kinds = &[
    "'DEGREE'", "'INCH'", "'FOOT'", "'YARD'", "'MILE'", "'SQUARE INCH'", "'SQUARE FOOT'", "'SQUARE YARD'",
    "'ACRE'", "'SQUARE MILE'", "'CUBIC INCH'", "'CUBIC FOOT'", "'CUBIC YARD'", "'LITRE'", "'FLUID OUNCE UK'",
    "'FLUID OUNCE US'", "'PINT UK'", "'PINT US'", "'GALLON UK'", "'GALLON US'", "'OUNCE'", "'POUND'", "'TON UK'",
    "'TON US'", "'LBF'", "'KIP'", "'PSI'", "'KSI'", "'MINUTE'", "'HOUR'", "'DAY'", "'BTU'",
];
pub const AXISDIR: Kinds = &[".AXIS1.", ".AXIS2.", ".AXIS3."];
pub const SENSE: Kinds = &[".POSITIVE.", ".NEGATIVE."];

const CONTAINER: Kinds = &[
    "Site", "Building", "Storey", "OpeningElement", "Slab", "Roof", "Wall", "Window", "Door", "ShadingDevice",
];
const CONTAINING: Kinds = &["Site", "Building", "Storey", "OpeningElement", "Slab", "Roof", "Wall", "Window", "Door"];
const AXES: Kinds = &["Axis2D", "Axis3D"];
const DIRS: Kinds = &["Direction2D", "Direction3D"];

pub fn kinds() -> Vec<Kind> {
    macro_rules! k {
        ($t:ident, [$($n:expr),+], $a:expr) => {
            Kind { tag: stringify!($t), names: &[$($n),+], attrs: $a, is: is::<$t> }
        };
    }
    vec![
        // objects
        k!(ActorRole, ["IFCACTORROLE"], vec![En(ROLE), ostr(), ostr()]),
        k!(PostalAddress, ["IFCPOSTALADDRESS"], vec![
            ostr(), ostr(), ostr(), ostr(), o(l(Str)), ostr(), o(l(Str)), ostr(), ostr(), ostr()
        ]),
        k!(TelecomAddress, ["IFCTELECOMADDRESS"], vec![
            ostr(), ostr(), ostr(), o(l(Str)), o(l(Str)), ostr(), o(l(Str)), ostr()
        ]),
        k!(Application, ["IFCAPPLICATION"], vec![Ref(&["Organization"]), Str, Str, Str]),
        k!(Organization, ["IFCORGANIZATION"], vec![
            ostr(), Str, ostr(), o(l(Ref(&["ActorRole"]))), o(l(Ref(&["TelecomAddress", "PostalAddress"])))
        ]),
        k!(OwnerHistory, ["IFCOWNERHISTORY"], vec![
            o(Ref(&["PersonAndOrganization"])), o(Ref(&["Application"])), o(En(ACCESS)), En(CHANGE), o(Time),
            o(Ref(&["PersonAndOrganization"])), o(Ref(&["Application"])), Time
        ]),
        k!(Person, ["IFCPERSON"], vec![
            ostr(), ostr(), ostr(), o(l(Str)), o(l(Str)), o(l(Str)), o(l(Ref(&["ActorRole"]))),
            o(l(Ref(&["TelecomAddress", "PostalAddress"])))
        ]),
        k!(PersonAndOrganization, ["IFCPERSONANDORGANIZATION"], vec![
            Ref(&["Person"]), Ref(&["Organization"]), o(l(Ref(&["ActorRole"])))
        ]),
        k!(Wall, ["IFCWALL", "IFCWALLSTANDARDCASE"], cat(vec![element(), vec![o(Ref(&["WallType"]))]])),
        k!(WallType, ["IFCWALLTYPE"], cat(vec![element_type(), vec![En(WALLTYPE)]])),
        k!(Slab, ["IFCSLAB", "IFCSLABSTANDARDCASE"], cat(vec![element(), vec![o(En(SLABTYPE))]])),
        k!(SlabType, ["IFCSLABTYPE"], cat(vec![element_type(), vec![En(SLABTYPE)]])),
        k!(Roof, ["IFCROOF"], cat(vec![element(), vec![o(En(ROOFTYPE))]])),
        k!(RoofType, ["IFCROOFTYPE"], cat(vec![element_type(), vec![En(ROOFTYPE)]])),
        k!(Building, ["IFCBUILDING"], cat(vec![spatial(), vec![o(Real), o(Real), o(Ref(&["PostalAddress"]))]])),
        k!(Storey, ["IFCBUILDINGSTOREY"], cat(vec![spatial(), vec![o(Real)]])),
        k!(Site, ["IFCSITE"], cat(vec![spatial(), vec![
            o(l(Int)), o(l(Int)), o(Real), ostr(), o(Ref(&["PostalAddress"]))
        ]])),
        k!(OpeningElement, ["IFCOPENINGELEMENT"], cat(vec![element(), vec![o(En(OPENING))]])),
        k!(Window, ["IFCWINDOW", "IFCWINDOWSTANDARDCASE"], cat(vec![element(), vec![
            o(Real), o(Real), o(En(WINDOWTYPE)), o(En(WINDOWPART)), ostr()
        ]])),
        k!(WindowType, ["IFCWINDOWTYPE"], cat(vec![element_type(), vec![
            En(WINDOWTYPE), En(WINDOWPART), o(Bool), ostr()
        ]])),
        k!(Project, ["IFCPROJECT"], cat(vec![root(), vec![
            ostr(), ostr(), ostr(), l(Ref(&["GeometricRepresentationContext"])), o(Ref(&["UnitAssigment"]))
        ]])),
        k!(Space, ["IFCSPACE"], cat(vec![spatial(), vec![o(En(SPACETYPE)), o(Real)]])),
        k!(SpaceType, ["IFCSPACETYPE"], cat(vec![element_type(), vec![En(SPACETYPE), ostr()]])),
        k!(Door, ["IFCDOOR", "IFCDOORSTANDARDCASE"], cat(vec![element(), vec![
            o(Real), o(Real), o(En(DOORTYPE)), o(En(DOOROP)), ostr()
        ]])),
        k!(DoorType, ["IFCDOORTYPE"], cat(vec![element_type(), vec![En(DOORTYPE), En(DOOROP), o(Bool), ostr()]])),
        k!(ShadingDevice, ["IFCSHADINGDEVICE"], cat(vec![element(), vec![o(En(SHADING))]])),
        k!(ShadingDeviceType, ["IFCSHADINGDEVICETYPE"], cat(vec![element_type(), vec![En(SHADING)]])),
        // geometry
        k!(ArbitraryClosedProfileDef, ["IFCARBITRARYCLOSEDPROFILEDEF"], vec![
            En(PROFILE), ostr(), Ref(&["IndexedPolyCurve", "PolyLine"])
        ]),
        k!(Axis2D, ["IFCAXIS2PLACEMENT2D"], vec![Ref(&["Point2D"]), o(Ref(&["Direction2D"]))]),
        k!(Axis3D, ["IFCAXIS2PLACEMENT3D"], vec![
            Ref(&["Point3D"]), o(Ref(&["Direction3D"])), o(Ref(&["Direction3D"]))
        ]),
        k!(Direction2D, ["IFCDIRECTION"], vec![Vec2]),
        k!(Direction3D, ["IFCDIRECTION"], vec![Vec3]),
        k!(ExtrudedAreaSolid, ["IFCEXTRUDEDAREASOLID"], vec![
            Ref(&["RectangleProfileDef", "ArbitraryClosedProfileDef"]), o(Ref(&["Axis3D"])), Ref(&["Direction3D"]), Real
        ]),
        k!(IndexedPolyCurve, ["IFCINDEXEDPOLYCURVE"], vec![Ref(&["PointList2D", "PointList3D"]), ostr(), o(Bool)]),
        k!(Point2D, ["IFCCARTESIANPOINT"], vec![Vec2]),
        k!(Point3D, ["IFCCARTESIANPOINT"], vec![Vec3]),
        k!(PointList2D, ["IFCCARTESIANPOINTLIST2D"], vec![l(Vec2), o(l(Str))]),
        k!(PointList3D, ["IFCCARTESIANPOINTLIST3D"], vec![l(Vec3), o(l(Str))]),
        k!(PolyLine, ["IFCPOLYLINE"], vec![l(Ref(&["Point2D", "Point3D"]))]),
        k!(ProductDefinitionShape, ["IFCPRODUCTDEFINITIONSHAPE"], vec![
            ostr(), ostr(), l(Ref(&["ShapeRepresentation"]))
        ]),
        k!(RectangleProfileDef, ["IFCRECTANGLEPROFILEDEF"], vec![En(PROFILE), ostr(), o(Ref(AXES)), Real, Real]),
        k!(GeometricRepresentationContext, ["IFCGEOMETRICREPRESENTATIONCONTEXT"], vec![
            o(SEn(REPR_ID)), ostr(), Dim, o(Real), Ref(AXES), o(Ref(DIRS))
        ]),
        k!(GeometricRepresentationSubContext, ["IFCGEOMETRICREPRESENTATIONSUBCONTEXT"], vec![
            o(SEn(REPR_ID)), ostr(), o(Dim), o(Real), o(Ref(AXES)), o(Ref(SUBCTX_NORTH)),
            Ref(&["GeometricRepresentationContext"]), o(Real), En(PROJECTION), ostr()
        ]),
        k!(ShapeRepresentation, ["IFCSHAPEREPRESENTATION"], vec![
            Ref(&["GeometricRepresentationSubContext", "GeometricRepresentationContext"]), o(SEn(REPR_ID)),
            o(SEn(REPR_TYPE)), l(Ref(&["ExtrudedAreaSolid", "PolyLine", "MappedItem"]))
        ]),
        k!(LocalPlacement, ["IFCLOCALPLACEMENT"], vec![o(Ref(&["LocalPlacement"])), Ref(AXES)]),
        k!(CartesianTransformationOperator3DnonUniform, ["IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM"], vec![
            o(Ref(&["Direction3D"])), o(Ref(&["Direction3D"])), o(Ref(&["Point3D"])), o(Real),
            o(Ref(&["Direction3D"])), o(Real), o(Real)
        ]),
        k!(CartesianTransformationOperator3D, ["IFCCARTESIANTRANSFORMATIONOPERATOR3D"], vec![
            o(Ref(&["Direction3D"])), o(Ref(&["Direction3D"])), o(Ref(&["Point3D"])), o(Real), o(Ref(&["Direction3D"]))
        ]),
        // relations
        k!(RelAggregates, ["IFCRELAGGREGATES"], cat(vec![root(), vec![
            Ref(&["Project", "Site", "Building", "Storey"]), l(Ref(&["Site", "Building", "Storey", "Space"]))
        ]])),
        k!(RelAssociatesMaterial, ["IFCRELASSOCIATESMATERIAL"], cat(vec![root(), vec![
            l(Ref(&[])), Ref(&["MaterialConstituentSet", "MaterialLayerSetUsage", "MaterialLayerSet", "Material"])
        ]])),
        k!(RelContainedInSpatialStructure, ["IFCRELCONTAINEDINSPATIALSTRUCTURE"], cat(vec![root(), vec![
            l(Ref(CONTAINER)), Ref(CONTAINING)
        ]])),
        k!(RelDeclares, ["IFCRELDECLARES"], cat(vec![root(), vec![Ref(&["Project"]), l(Ref(&[]))]])),
        k!(RelDefinesByType, ["IFCRELDEFINESBYTYPE"], cat(vec![root(), vec![l(Ref(&[])), Ref(&[])]])),
        k!(RelDefinesByProperties, ["IFCRELDEFINESBYPROPERTIES"], cat(vec![root(), vec![l(Ref(&[])), Ref(&[])]])),
        k!(RelVoidsElement, ["IFCRELVOIDSELEMENT"], cat(vec![root(), vec![
            Ref(&["Building", "OpeningElement", "Slab", "Wall", "Window"]), Ref(&["OpeningElement"])
        ]])),
        k!(RelFillsElement, ["IFCRELFILLSELEMENT"], cat(vec![root(), vec![
            Ref(&["OpeningElement"]), Ref(&["Building", "OpeningElement", "Slab", "Wall", "Window", "Door"])
        ]])),
        k!(MappedItem, ["IFCMAPPEDITEM"], vec![
            Ref(&["RepresentationMap"]),
            Ref(&["CartesianTransformationOperator3DnonUniform", "CartesianTransformationOperator3D"])
        ]),
        k!(RepresentationMap, ["IFCREPRESENTATIONMAP"], vec![Ref(&["Axis3D"]), Ref(&["ShapeRepresentation"])]),
        // units
        k!(UnitAssigment, ["IFCUNITASSIGNMENT"], vec![
            l(Ref(&["SiUnit", "ConversionBasedUnit", "DerivedUnit", "MonetaryUnit"]))
        ]),
        k!(ConversionBasedUnit, ["IFCCONVERSIONBASEDUNIT"], vec![
            o(Ref(&[])), o(En(UNIT)), o(SEn(CONVERSION)), o(Ref(&["MeasureWithUnit"]))
        ]),
        k!(SiUnit, ["IFCSIUNIT"], vec![o(Ref(&[])), o(En(UNIT)), o(En(PREFIX)), En(UNITNAME)]),
        k!(DimensionalExponents, ["IFCDIMENSIONALEXPONENTS"], vec![Int, Int, Int, Int, Int, Int, Int]),
        k!(MeasureWithUnit, ["IFCMEASUREWITHUNIT"], vec![Angle, Ref(&["SiUnit"])]),
        k!(DerivedUnit, ["IFCDERIVEDUNIT"], vec![l(Ref(&["DerivedUnitElement"])), En(DERIVED), ostr()]),
        k!(DerivedUnitElement, ["IFCDERIVEDUNITELEMENT"], vec![Ref(&["SiUnit"]), Int]),
        k!(MonetaryUnit, ["IFCMONETARYUNIT"], vec![Str]),
        // materials
        k!(MaterialLayerSetUsage, ["IFCMATERIALLAYERSETUSAGE"], vec![
            Ref(&["MaterialLayerSet"]), En(AXISDIR), En(SENSE), Real, o(Real)
        ]),
        k!(MaterialLayerSet, ["IFCMATERIALLAYERSET"], vec![l(Ref(&["MaterialLayer"])), ostr(), ostr()]),
        k!(MaterialLayer, ["IFCMATERIALLAYER"], vec![
            o(Ref(&["Material"])), Real, Bool, ostr(), ostr(), ostr(), o(Int)
        ]),
        k!(Material, ["IFCMATERIAL"], vec![ostr(), ostr(), ostr()]),
        k!(MaterialConstituent, ["IFCMATERIALCONSTITUENT"], vec![
            ostr(), ostr(), Ref(&["Material"]), o(Real), ostr()
        ]),
        k!(MaterialConstituentSet, ["IFCMATERIALCONSTITUENTSET"], vec![
            ostr(), ostr(), l(Ref(&["MaterialConstituent"]))
        ]),
        // properties
        Kind {
            tag: "MaterialProperties",
            names: &["IFCMATERIALPROPERTIES"],
            attrs: vec![ostr(), ostr(), l(Ref(&[])), Ref(&["Material"])],
            is: |t| t.type_name().ends_with("MaterialProperties"),
        },
        k!(PropertySet, ["IFCPROPERTYSET"], cat(vec![root(), vec![l(Ref(&["PropertySingleValue"]))]])),
        k!(PropertySingleValue, ["IFCPROPERTYSINGLEVALUE"], vec![ostr(), ostr(), Value, o(Ref(&[]))]),
    ]
}

/// kinds a sub-context's own true-north attribute may name
const SUBCTX_NORTH: Kinds = DIRS;

pub struct Schema {
    pub kinds: Vec<Kind>,
}

impl Schema {
    pub fn new() -> Self {
        Schema { kinds: kinds() }
    }
    pub fn idx(&self, tag: &str) -> usize {
        self.kinds.iter().position(|k| k.tag == tag).unwrap_or_else(|| panic!("no kind {tag}"))
    }
    /// id under which the exemplar of a kind is put into generated files
    pub fn id(&self, tag: &str) -> u64 {
        1001 + self.idx(tag) as u64
    }
    pub const DUMMY_ID: u64 = 1000;
}

pub const GUIDS: [&str; 4] =
    ["0DWgwt6o1FOx7466fPk$jl", "3Sa3dTJGn0H8TQIGiuGQd5", "1EskvoYxz4mRL_ZmGcaAbB", "2aG1gZj7PD2PztLOx2$IVX"];

/// a minimal attribute text for a kind: everything optional omitted, lists empty
pub fn minimal(s: &Schema, k: &K) -> String {
    match k {
        Guid => format!("'{}'", GUIDS[0]),
        Str => "'s'".into(),
        Real => "1.5".into(),
        Int => "1".into(),
        Time => "1454575675".into(),
        Bool => ".TRUE.".into(),
        En(v) | SEn(v) => v[v.len() - 1].into(),
        Dim => "3".into(),
        Vec2 => "(1.,0.)".into(),
        Vec3 => "(0.,0.,1.)".into(),
        Ref(a) => format!("#{}", if a.is_empty() { Schema::DUMMY_ID } else { s.id(a[0]) }),
        Value => "IFCLABEL('v')".into(),
        Angle => "IFCPLANEANGLEMEASURE(0.5)".into(),
        List(_) => "()".into(),
        Opt(_) => "$".into(),
    }
}

pub fn line(name: &str, args: &[String]) -> String {
    format!("{name}({})", args.join(","))
}

pub fn exemplar(s: &Schema, i: usize) -> String {
    let k = &s.kinds[i];
    let args: Vec<String> = k.attrs.iter().map(|a| minimal(s, a)).collect();
    line(k.names[0], &args)
}

/// ids (and lines) of the exemplars reachable from the given references
pub fn closure(s: &Schema, text: &str) -> Vec<(u64, String)> {
    let mut todo = refs(text);
    let mut out: std::collections::BTreeMap<u64, String> = Default::default();
    while let Some(r) = todo.pop() {
        if out.contains_key(&r) {
            continue;
        }
        if r == Schema::DUMMY_ID {
            out.insert(r, "IFCCOLUMN('x',$)".into());
        } else if r > Schema::DUMMY_ID && ((r - Schema::DUMMY_ID - 1) as usize) < s.kinds.len() {
            let t = exemplar(s, (r - Schema::DUMMY_ID - 1) as usize);
            todo.extend(refs(&t));
            out.insert(r, t);
        }
    }
    out.into_iter().collect()
}

pub fn refs(text: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let b = text.as_bytes();
    let mut i = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'\'' => q = !q,
            b'#' if !q => {
                let st = i + 1;
                let mut e = st;
                while e < b.len() && b[e].is_ascii_digit() {
                    e += 1;
                }
                if let Ok(n) = text[st..e].parse() {
                    v.push(n);
                }
                i = e;
                continue;
            }
            _ => {}
        }
        i += 1;
    }
    v
}

pub const HEADER: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('ViewDefinition [CoordinationView]'),'2;1');\nFILE_NAME('a.ifc','2016-02-04T18:37:55',('me'),('org'),'pre','sys','auth');\nFILE_SCHEMA(('IFC4'));\nENDSEC;\n";
pub const FOOTER: &str = "END-ISO-10303-21;\n";

pub fn file_of(lines: &[(u64, String)]) -> String {
    let mut t = String::from(HEADER);
    t.push_str("\nDATA;\n");
    for (id, l) in lines {
        t.push_str(&format!("#{id}= {l};\n"));
    }
    t.push_str("ENDSEC;\n\n");
    t.push_str(FOOTER);
    t
}
