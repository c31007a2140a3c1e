//! C12: every enumeration value a program can name against the standard's
//! spelling of it, written and read.
use crate::report::Report;
use ifc_rs::prelude::*;
use ifc_rs::parser::IFCParse;
use winnow::Parser;

pub fn check(rep: &Report) {
    macro_rules! variants {
        ($t:ident: $($v:ident = $l:literal),+ $(,)?) => {
            $(
                if rep.state(&format!("{}::{}", stringify!($t), stringify!($v))) {
                    rep.step(2);
                    let key = format!("{}::{}", stringify!($t), stringify!($v));
                    let mut good = true;
                    let out = $t::$v.to_string();
                    if out != $l {
                        good = false;
                        rep.violation(format!("{key} written"), format!("{key} is written {out} and not {}", $l), key.clone());
                    }
                    match $t::parse().parse($l) {
                        Ok($t::$v) => (),
                        Ok(other) => {
                            good = false;
                            rep.violation(format!("{key} read"), format!("{} is read as the value written {other} and not as {key}", $l), key.clone());
                        }
                        Err(_) => {
                            good = false;
                            rep.violation(format!("{key} read"), format!("{} is not read", $l), key.clone());
                        }
                    }
                    if good {
                        rep.trace();
                        rep.outcome("value by name");
                    }
                }
            )+
        };
    }
    variants!(DimensionCount: One = "1", Two = "2", Three = "3");
    variants!(GeometricProjection: GraphView = ".GRAPH_VIEW.", SketchView = ".SKETCH_VIEW.", ModelView = ".MODEL_VIEW.", PlanView
        = ".PLAN_VIEW.", ReflectedPlanView = ".REFLECTED_PLAN_VIEW.", SectionView = ".SECTION_VIEW.", ElevationView =
        ".ELEVATION_VIEW.", UserDefined = ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(ProfileType: Curve = ".CURVE.", Area = ".AREA.");
    variants!(RepresentationIdentifier: CoG = "'CoG'", Box = "'Box'", Annotation = "'Annotation'", Axis = "'Axis'", FootPrint =
        "'FootPrint'", Profile = "'Profile'", Surface = "'Surface'", Reference = "'Reference'", Body = "'Body'", BodyFallBack =
        "'Body-FallBack'", Clearance = "'Clearance'", Lighting = "'Lighting'");
    variants!(RepresentationType: Point = "'Point'", PointCloud = "'PointCloud'", Curve = "'Curve'", Curve2D = "'Curve2D'",
        Curve3D = "'Curve3D'", Surface = "'Surface'", Surface2D = "'Surface2D'", Surface3D = "'Surface3D'", SectionedSurface =
        "'SectionedSurface'", FillArea = "'FillArea'", Text = "'Text'", AdvancedSurface = "'AdvancedSurface'", GeometricSet =
        "'GeometricSet'", GeometricCurveSet = "'GeometricCurveSet'", Annotation2D = "'Annotation2D'", SurfaceModel =
        "'SurfaceModel'", Tessellation = "'Tessellation'", Segment = "'Segment'", SolidModel = "'SolidModel'", SweptSolid =
        "'SweptSolid'", AdvancedSweptSolid = "'AdvancedSweptSolid'", Brep = "'Brep'", AdvancedBrep = "'AdvancedBrep'", CSG =
        "'CSG'", Clipping = "'Clipping'", BoundingBox = "'BoundingBox'", SectionedSpine = "'SectionedSpine'", LightSource =
        "'LightSource'", MappedRepresentation = "'MappedRepresentation'");
    variants!(DirectionSenseEnum: Positive = ".POSITIVE.", Negative = ".NEGATIVE.");
    variants!(LayerSetDirectionEnum: Axis1 = ".AXIS1.", Axis2 = ".AXIS2.", Axis3 = ".AXIS3.");
    variants!(AccessState: ReadWrite = ".READWRITE.", ReadOnly = ".READONLY.", Locked = ".LOCKED.", ReadWriteLocked =
        ".READWRITELOCKED.", ReadOnlyLocked = ".READONLYLOCKED.");
    variants!(Role: Supplier = ".SUPPLIER.", Manufacturer = ".MANUFACTURER.", Contractor = ".CONTRACTOR.", Subcontractor =
        ".SUBCONTRACTOR.", Architect = ".ARCHITECT.", StructuralEngineer = ".STRUCTURALENGINEER.", CostEngineer =
        ".COSTENGINEER.", Clien = ".CLIENT.", BuildingOwner = ".BUILDINGOWNER.", BuildingOperator = ".BUILDINGOPERATOR.",
        MechanicalEngineer = ".MECHANICALENGINEER.", ElectricalEngineer = ".ELECTRICALENGINEER.", ProjectManager =
        ".PROJECTMANAGER.", FacilitiesManager = ".FACILITIESMANAGER.", CivilEngineer = ".CIVILENGINEER.", ComissionEngineer =
        ".COMMISSIONINGENGINEER.", Engineer = ".ENGINEER.", Owner = ".OWNER.", Consultant = ".CONSULTANT.", ConstructionManager =
        ".CONSTRUCTIONMANAGER.", FieldConstructionManager = ".FIELDCONSTRUCTIONMANAGER.", Reseller = ".RESELLER.", UserDefined =
        ".USERDEFINED.");
    variants!(ChangeAction: NoChange = ".NOCHANGE.", Modified = ".MODIFIED.", Added = ".ADDED.", Deleted = ".DELETED.",
        ModifiedAdded = ".MODIFIEDADDED.", ModifiedDeleted = ".MODIFIEDDELETED.");
    variants!(DoorOperationTypeEnum: SingleSwingLeft = ".SINGLE_SWING_LEFT.", SingleSwingRight = ".SINGLE_SWING_RIGHT.",
        DoubleDoorSingleSwing = ".DOUBLE_DOOR_SINGLE_SWING.", DoubleSwingLeft = ".DOUBLE_SWING_LEFT.", DoubleSwingRight =
        ".DOUBLE_SWING_RIGHT.", DoubleDoorDoubleSwing = ".DOUBLE_DOOR_DOUBLE_SWING.", DoubleDoorSingleSwingOppositeLeft =
        ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.", DoubleDoorSingleSwingOppositeRight =
        ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.", SlidingToLeft = ".SLIDING_TO_LEFT.", SlidingToRight = ".SLIDING_TO_RIGHT.",
        DoubleDoorSliding = ".DOUBLE_DOOR_SLIDING.", FoldingToLeft = ".FOLDING_TO_LEFT.", FoldingToRight = ".FOLDING_TO_RIGHT.",
        DoubleDoorFolding = ".DOUBLE_DOOR_FOLDING.", Revolving = ".REVOLVING.", RollingUp = ".ROLLINGUP.", SwingFixedLeft =
        ".SWING_FIXED_LEFT.", SwingFixedRight = ".SWING_FIXED_RIGHT.", UserDefined = ".USERDEFINED.", NotDefined =
        ".NOTDEFINED.");
    variants!(DoorTypeEnum: Door = ".DOOR.", Gate = ".GATE.", Trapdoor = ".TRAPDOOR.", UserDefined = ".USERDEFINED.", NotDefined =
        ".NOTDEFINED.");
    variants!(OpeningElementTypeEnum: Opening = ".OPENING.", Recess = ".RECESS.", UserDefined = ".USERDEFINED.", NotDefined =
        ".NOTDEFINED.");
    variants!(RoofTypeEnum: FlatRoof = ".FLAT_ROOF.", ShedRoof = ".SHED_ROOF.", GableRoof = ".GABLE_ROOF.", HipRoof =
        ".HIP_ROOF.", HippedGableRoof = ".HIPPED_GABLE_ROOF.", GambrelRoof = ".GAMBREL_ROOF.", MansardRoof = ".MANSARD_ROOF.",
        BarrelRoof = ".BARREL_ROOF.", RainbowRoof = ".RAINBOW_ROOF.", ButterflyRoof = ".BUTTERFLY_ROOF.", PavilionRoof =
        ".PAVILION_ROOF.", DomeRoof = ".DOME_ROOF.", UserDefined = ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(ShadingDeviceTypeEnum: Awning = ".AWNING.", Parking = ".JALOUSIE.", Shutter = ".SHUTTER.", UserDefined =
        ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(CompositionTypeEnum: Comples = ".COMPLEX.", Element = ".ELEMENT.", Partial = ".PARTIAL.");
    variants!(SlabTypeEnum: Floor = ".FLOOR.", Roof = ".ROOF.", Landing = ".LANDING.", BaseSlab = ".BASESLAB.", UserDefined =
        ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(SpaceTypeEnum: Space = ".SPACE.", Parking = ".PARKING.", Gfa = ".GFA.", Internal = ".INTERNAL.", External =
        ".EXTERNAL.", UserDefined = ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(WallTypeEnum: Movable = ".MOVABLE.", Parapet = ".PARAPET.", Partitioning = ".PARTITIONING.", Plumbingwall =
        ".PLUMBINGWALL.", Shear = ".SHEAR.", Solidwall = ".SOLIDWALL.", Standard = ".STANDARD.", Polygonal = ".POLYGONAL.",
        Elementedwall = ".ELEMENTEDWALL.", Retainingwall = ".RETAININGWALL.", UserDefined = ".USERDEFINED.", NotDefined =
        ".NOTDEFINED.");
    variants!(WindowPartitioningTypeEnum: SinglePanel = ".SINGLE_PANEL.", DoublePanelVertical = ".DOUBLE_PANEL_VERTICAL.",
        DoublePanelHorizontal = ".DOUBLE_PANEL_HORIZONTAL.", TriplePanelVertical = ".TRIPLE_PANEL_VERTICAL.",
        TriplePanelHorizontal = ".TRIPLE_PANEL_HORIZONTAL.", TriplePanelBottom = ".TRIPLE_PANEL_BOTTOM.", TriplePanelTop =
        ".TRIPLE_PANEL_TOP.", TriplePanelLeft = ".TRIPLE_PANEL_LEFT.", TriplePanelRight = ".TRIPLE_PANEL_RIGHT.", UserDefined =
        ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(WindowTypeEnum: Window = ".WINDOW.", Skylight = ".SKYLIGHT.", Lightdome = ".LIGHTDOME.", UserDefined =
        ".USERDEFINED.", NotDefined = ".NOTDEFINED.");
    variants!(DerivedUnitEnum: ANGULARVELOCITYUNIT = ".ANGULARVELOCITYUNIT.", AREADENSITYUNIT = ".AREADENSITYUNIT.",
        COMPOUNDPLANEANGLEUNIT = ".COMPOUNDPLANEANGLEUNIT.", DYNAMICVISCOSITYUNIT = ".DYNAMICVISCOSITYUNIT.", HEATFLUXDENSITYUNIT
        = ".HEATFLUXDENSITYUNIT.", INTEGERCOUNTRATEUNIT = ".INTEGERCOUNTRATEUNIT.", ISOTHERMALMOISTURECAPACITYUNIT =
        ".ISOTHERMALMOISTURECAPACITYUNIT.", KINEMATICVISCOSITYUNIT = ".KINEMATICVISCOSITYUNIT.", LINEARVELOCITYUNIT =
        ".LINEARVELOCITYUNIT.", MASSDENSITYUNIT = ".MASSDENSITYUNIT.", MASSFLOWRATEUNIT = ".MASSFLOWRATEUNIT.",
        MOISTUREDIFFUSIVITYUNIT = ".MOISTUREDIFFUSIVITYUNIT.", MOLECULARWEIGHTUNIT = ".MOLECULARWEIGHTUNIT.",
        SPECIFICHEATCAPACITYUNIT = ".SPECIFICHEATCAPACITYUNIT.", THERMALADMITTANCEUNIT = ".THERMALADMITTANCEUNIT.",
        THERMALCONDUCTANCEUNIT = ".THERMALCONDUCTANCEUNIT.", THERMALRESISTANCEUNIT = ".THERMALRESISTANCEUNIT.",
        THERMALTRANSMITTANCEUNIT = ".THERMALTRANSMITTANCEUNIT.", VAPORPERMEABILITYUNIT = ".VAPORPERMEABILITYUNIT.",
        VOLUMETRICFLOWRATEUNIT = ".VOLUMETRICFLOWRATEUNIT.", ROTATIONALFREQUENCYUNIT = ".ROTATIONALFREQUENCYUNIT.", TORQUEUNIT =
        ".TORQUEUNIT.", MOMENTOFINERTIAUNIT = ".MOMENTOFINERTIAUNIT.", LINEARMOMENTUNIT = ".LINEARMOMENTUNIT.", LINEARFORCEUNIT =
        ".LINEARFORCEUNIT.", PLANARFORCEUNIT = ".PLANARFORCEUNIT.", MODULUSOFELASTICITYUNIT = ".MODULUSOFELASTICITYUNIT.",
        SHEARMODULUSUNIT = ".SHEARMODULUSUNIT.", LINEARSTIFFNESSUNIT = ".LINEARSTIFFNESSUNIT.", ROTATIONALSTIFFNESSUNIT =
        ".ROTATIONALSTIFFNESSUNIT.", MODULUSOFSUBGRADEREACTIONUNIT = ".MODULUSOFSUBGRADEREACTIONUNIT.", ACCELERATIONUNIT =
        ".ACCELERATIONUNIT.", CURVATUREUNIT = ".CURVATUREUNIT.", IONCONCENTRATIONUNIT = ".IONCONCENTRATIONUNIT.",
        LUMINOUSINTENSITYDISTRIBUTIONUNIT = ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.", MASSPERLENGTHUNIT = ".MASSPERLENGTHUNIT.",
        MODULUSOFLINEARSUBGRADEREACTIONUNIT = ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.", MODULUSOFROTATIONALSUBGRADEREACTIONUNIT =
        ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.", PHUNIT = ".PHUNIT.", ROTATIONALMASSUNIT = ".ROTATIONALMASSUNIT.",
        SECTIONAREAINTEGRALUNIT = ".SECTIONAREAINTEGRALUNIT.", SECTIONMODULUSUNIT = ".SECTIONMODULUSUNIT.", SOUNDPOWERLEVELUNIT =
        ".SOUNDPOWERLEVELUNIT.", SOUNDPOWERUNIT = ".SOUNDPOWERUNIT.", SOUNDPRESSURELEVELUNIT = ".SOUNDPRESSURELEVELUNIT.",
        SOUNDPRESSUREUNIT = ".SOUNDPRESSUREUNIT.", TEMPERATUREGRADIENTUNIT = ".TEMPERATUREGRADIENTUNIT.",
        TEMPERATURERATEOFCHANGEUNIT = ".TEMPERATURERATEOFCHANGEUNIT.", THERMALEXPANSIONCOEFFICIENTUNIT =
        ".THERMALEXPANSIONCOEFFICIENTUNIT.", WARPINGCONSTANTUNIT = ".WARPINGCONSTANTUNIT.", WARPINGMOMENTUNIT =
        ".WARPINGMOMENTUNIT.", USERDEFINED = ".USERDEFINED.");
    variants!(IfcUnitName: Ampere = ".AMPERE.", Becquerel = ".BECQUEREL.", Candela = ".CANDELA.", Couloumb = ".COULOMB.",
        CubicMetre = ".CUBIC_METRE.", DegreeCelcius = ".DEGREE_CELSIUS.", Farad = ".FARAD.", Gram = ".GRAM.", Gray = ".GRAY.",
        Henry = ".HENRY.", Hertz = ".HERTZ.", Joule = ".JOULE.", Kelvin = ".KELVIN.", Lumen = ".LUMEN.", Lux = ".LUX.", Metre =
        ".METRE.", Mole = ".MOLE.", Newton = ".NEWTON.", Ohm = ".OHM.", Pascal = ".PASCAL.", Radian = ".RADIAN.", Second =
        ".SECOND.", Siemens = ".SIEMENS.", Sievert = ".SIEVERT.", SquareMetre = ".SQUARE_METRE.", Steradian = ".STERADIAN.", Tesla
        = ".TESLA.", Volt = ".VOLT.", Watt = ".WATT.", Weber = ".WEBER.");
    variants!(IfcPrefix: Exa = ".EXA.", Peta = ".PETA.", Tera = ".TERA.", Giga = ".GIGA.", Mega = ".MEGA.", Kilo = ".KILO.", Deca
        = ".DECA.", Deci = ".DECI.", Centi = ".CENTI.", Milli = ".MILLI.", Micro = ".MICRO.", Nano = ".NANO.", Pico = ".PICO.",
        Femto = ".FEMTO.", Atto = ".ATTO.");
    variants!(IfcUnitEnum: AbsorbedDoseUnit = ".ABSORBEDDOSEUNIT.", AmountOfSubstanceUnit = ".AMOUNTOFSUBSTANCEUNIT.", AreaUnit =
        ".AREAUNIT.", DoseEquivalentUnit = ".DOSEEQUIVALENTUNIT.", ElectricCapacitanceUnit = ".ELECTRICCAPACITANCEUNIT.",
        ElectricChargeUnit = ".ELECTRICCHARGEUNIT.", ElectricConductanceUnit = ".ELECTRICCONDUCTANCEUNIT.", ElectricCurrentUnit =
        ".ELECTRICCURRENTUNIT.", ElectricResistanceUnit = ".ELECTRICRESISTANCEUNIT.", ElectricVoltageUnit =
        ".ELECTRICVOLTAGEUNIT.", EnergyUnit = ".ENERGYUNIT.", ForceUnit = ".FORCEUNIT.", IlluminanceUnit = ".ILLUMINANCEUNIT.",
        InductanceUnit = ".INDUCTANCEUNIT.", LengthUnit = ".LENGTHUNIT.", LuminousFluxUnit = ".LUMINOUSFLUXUNIT.",
        LuminousIntensityUnit = ".LUMINOUSINTENSITYUNIT.", MagneticFluxDensityUnit = ".MAGNETICFLUXDENSITYUNIT.", MagneticFluxUnit
        = ".MAGNETICFLUXUNIT.", MassUnit = ".MASSUNIT.", PlaneAngleUnit = ".PLANEANGLEUNIT.", PowerUnit = ".POWERUNIT.",
        PressureUnit = ".PRESSUREUNIT.", RadioActivityUnit = ".RADIOACTIVITYUNIT.", SolidAngleUnit = ".SOLIDANGLEUNIT.",
        ThermoDynamicTemperatureUnit = ".THERMODYNAMICTEMPERATUREUNIT.", TimeUnit = ".TIMEUNIT.", VolumeUnit = ".VOLUMEUNIT.",
        UserDefined = ".USERDEFINED.");
}
