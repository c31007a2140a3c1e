//! Entity names of IFC 2x3 and IFC 4 the library does not know, and words near to the ones it does.

/// entities of the two schemas, without their prefix
const ENTITIES: &str = "
2DCOMPOSITECURVE ACTIONREQUEST ACTOR ACTUATOR ACTUATORTYPE ADDRESS ADVANCEDBREP ADVANCEDFACE AIRTERMINAL AIRTERMINALTYPE
AIRTOAIRHEATRECOVERY ALARM ALARMTYPE ANNOTATION ANNOTATIONFILLAREA APPLIEDVALUE APPROVAL APPROVALRELATIONSHIP
ARBITRARYOPENPROFILEDEF ARBITRARYPROFILEDEFWITHVOIDS ASSET ASYMMETRICISHAPEPROFILEDEF AUDIOVISUALAPPLIANCE AXIS1PLACEMENT
BSPLINECURVE BSPLINECURVEWITHKNOTS BSPLINESURFACE BEAM BEAMSTANDARDCASE BEAMTYPE BLOBTEXTURE BLOCK BOILER BOILERTYPE
BOOLEANCLIPPINGRESULT BOOLEANRESULT BOUNDARYCONDITION BOUNDARYCURVE BOUNDARYEDGECONDITION BOUNDARYFACECONDITION
BOUNDEDCURVE BOUNDEDSURFACE BOUNDINGBOX BOXEDHALFSPACE BUILDINGELEMENT BUILDINGELEMENTCOMPONENT BUILDINGELEMENTPART
BUILDINGELEMENTPARTTYPE BUILDINGELEMENTPROXY BUILDINGELEMENTPROXYTYPE BUILDINGELEMENTTYPE BUILDINGSYSTEM BURNER BURNERTYPE
CSHAPEPROFILEDEF CABLECARRIERFITTING CABLECARRIERSEGMENT CABLEFITTING CABLESEGMENT CABLESEGMENTTYPE CALENDARDATE
CARTESIANPOINTLIST CARTESIANTRANSFORMATIONOPERATOR CARTESIANTRANSFORMATIONOPERATOR2D
CARTESIANTRANSFORMATIONOPERATOR2DNONUNIFORM CENTERLINEPROFILEDEF CHILLER CHILLERTYPE CHIMNEY CHIMNEYTYPE CIRCLE
CIRCLEHOLLOWPROFILEDEF CIRCLEPROFILEDEF CIVILELEMENT CIVILELEMENTTYPE CLASSIFICATION CLASSIFICATIONREFERENCE CLOSEDSHELL
COIL COILTYPE COLOURRGB COLOURRGBLIST COLOURSPECIFICATION COLUMN COLUMNSTANDARDCASE COLUMNTYPE COMMUNICATIONSAPPLIANCE
COMPLEXPROPERTY COMPLEXPROPERTYTEMPLATE COMPOSITECURVE COMPOSITECURVESEGMENT COMPOSITEPROFILEDEF COMPRESSOR COMPRESSORTYPE
CONDENSER CONDENSERTYPE CONIC CONNECTEDFACESET CONNECTIONCURVEGEOMETRY CONNECTIONGEOMETRY CONNECTIONPOINTGEOMETRY
CONNECTIONSURFACEGEOMETRY CONNECTIONVOLUMEGEOMETRY CONSTRAINT CONSTRUCTIONEQUIPMENTRESOURCE CONSTRUCTIONMATERIALRESOURCE
CONSTRUCTIONPRODUCTRESOURCE CONSTRUCTIONRESOURCE CONTEXT CONTEXTDEPENDENTUNIT CONTROL CONTROLLER CONTROLLERTYPE
CONVERSIONBASEDUNITWITHOFFSET COOLEDBEAM COOLINGTOWER COORDINATEOPERATION COORDINATEREFERENCESYSTEM COSTITEM COSTSCHEDULE
COSTVALUE COVERING COVERINGTYPE CREWRESOURCE CSGPRIMITIVE3D CSGSOLID CURRENCYRELATIONSHIP CURTAINWALL CURTAINWALLTYPE CURVE
CURVEBOUNDEDPLANE CURVEBOUNDEDSURFACE CURVESTYLE CURVESTYLEFONT CYLINDRICALSURFACE DAMPER DAMPERTYPE DERIVEDPROFILEDEF
DATEANDTIME DISCRETEACCESSORY DISCRETEACCESSORYTYPE DISTRIBUTIONCHAMBERELEMENT DISTRIBUTIONCIRCUIT
DISTRIBUTIONCONTROLELEMENT DISTRIBUTIONELEMENT DISTRIBUTIONELEMENTTYPE DISTRIBUTIONFLOWELEMENT DISTRIBUTIONPORT
DISTRIBUTIONSYSTEM DOCUMENTINFORMATION DOCUMENTREFERENCE DOORLININGPROPERTIES DOORPANELPROPERTIES DOORSTYLE
DRAUGHTINGPREDEFINEDCOLOUR DUCTFITTING DUCTSEGMENT DUCTSILENCER EDGE EDGECURVE EDGELOOP ELECTRICAPPLIANCE
ELECTRICDISTRIBUTIONBOARD ELECTRICGENERATOR ELECTRICMOTOR ELECTRICTIMECONTROL ELEMENT ELEMENTASSEMBLY ELEMENTASSEMBLYTYPE
ELEMENTCOMPONENT ELEMENTQUANTITY ELEMENTTYPE ELEMENTARYSURFACE ELLIPSE ELLIPSEPROFILEDEF ENERGYCONVERSIONDEVICE
ENERGYPROPERTIES ENGINE EVAPORATOR EVENT EVENTTIME EXTENDEDPROPERTIES EXTENDEDMATERIALPROPERTIES EXTERNALINFORMATION
EXTERNALREFERENCE EXTERNALREFERENCERELATIONSHIP EXTERNALSPATIALELEMENT EXTERNALSPATIALSTRUCTUREELEMENT
EXTRUDEDAREASOLIDTAPERED FACE FACEBASEDSURFACEMODEL FACEBOUND FACEOUTERBOUND FACESURFACE FACETEDBREP FACETEDBREPWITHVOIDS
FAN FANTYPE FASTENER FASTENERTYPE FEATUREELEMENT FEATUREELEMENTADDITION FEATUREELEMENTSUBTRACTION FILLAREASTYLE
FILLAREASTYLEHATCHING FILTER FILTERTYPE FIRESUPPRESSIONTERMINAL FIXEDREFERENCESWEPTAREASOLID FLOWCONTROLLER FLOWFITTING
FLOWINSTRUMENT FLOWMETER FLOWMOVINGDEVICE FLOWSEGMENT FLOWSTORAGEDEVICE FLOWTERMINAL FLOWTREATMENTDEVICE FOOTING
FOOTINGTYPE FURNISHINGELEMENT FURNISHINGELEMENTTYPE FURNITURE FURNITURETYPE GENERALMATERIALPROPERTIES GENERALPROFILEPROPERTIES
GEOGRAPHICELEMENT GEOGRAPHICELEMENTTYPE GEOMETRICCURVESET GEOMETRICREPRESENTATIONITEM GEOMETRICSET GRID GRIDAXIS
GRIDPLACEMENT GROUP HALFSPACESOLID HEATEXCHANGER HUMIDIFIER ISHAPEPROFILEDEF IMAGETEXTURE INDEXEDCOLOURMAP
INDEXEDPOLYGONALFACE INDEXEDTEXTUREMAP INTERCEPTOR INTERSECTIONCURVE INVENTORY IRREGULARTIMESERIES
IRREGULARTIMESERIESVALUE JUNCTIONBOX LSHAPEPROFILEDEF LABORRESOURCE LAGTIME LAMP LAMPTYPE LIBRARYINFORMATION
LIBRARYREFERENCE LIGHTDISTRIBUTIONDATA LIGHTFIXTURE LIGHTFIXTURETYPE LIGHTSOURCE LIGHTSOURCEAMBIENT LIGHTSOURCEDIRECTIONAL
LINE LOCALTIME LOOP MANIFOLDSOLIDBREP MAPCONVERSION MATERIALCLASSIFICATIONRELATIONSHIP MATERIALDEFINITION
MATERIALDEFINITIONREPRESENTATION MATERIALLAYERWITHOFFSETS MATERIALLIST MATERIALPROFILE MATERIALPROFILESET
MATERIALPROFILESETUSAGE MATERIALPROFILESETUSAGETAPERING MATERIALPROFILEWITHOFFSETS MATERIALRELATIONSHIP
MATERIALUSAGEDEFINITION MECHANICALFASTENER MEDICALDEVICE MEMBER MEMBERSTANDARDCASE MEMBERTYPE METRIC MIRROREDPROFILEDEF
MOTORCONNECTION NAMEDUNIT OBJECT OBJECTDEFINITION OBJECTPLACEMENT OBJECTIVE OCCUPANT OFFSETCURVE2D OFFSETCURVE3D
OPENSHELL OPENINGSTANDARDCASE ORGANIZATIONRELATIONSHIP ORIENTEDEDGE OUTERBOUNDARYCURVE OUTLET OUTLETTYPE PCURVE
PARAMETERIZEDPROFILEDEF PATH PERFORMANCEHISTORY PERMEABLECOVERINGPROPERTIES PERMIT PHYSICALCOMPLEXQUANTITY
PHYSICALQUANTITY PHYSICALSIMPLEQUANTITY PILE PILETYPE PIPEFITTING PIPESEGMENT PIXELTEXTURE PLACEMENT PLANARBOX
PLANAREXTENT PLANE PLATE PLATESTANDARDCASE PLATETYPE POINT POINTONCURVE POINTONSURFACE POLYLOOP POLYGONALBOUNDEDHALFSPACE
POLYGONALFACESET PORT PREDEFINEDCOLOUR PREDEFINEDITEM PRESENTATIONITEM PRESENTATIONLAYERASSIGNMENT
PRESENTATIONLAYERWITHSTYLE PRESENTATIONSTYLE PRESENTATIONSTYLEASSIGNMENT PROCEDURE PROCESS PRODUCT
PRODUCTREPRESENTATION PRODUCTSOFCOMBUSTIONPROPERTIES PROFILEDEF PROFILEPROPERTIES PROJECTLIBRARY PROJECTORDER
PROJECTIONELEMENT PROPERTY PROPERTYABSTRACTION PROPERTYBOUNDEDVALUE PROPERTYDEFINITION PROPERTYDEPENDENCYRELATIONSHIP
PROPERTYENUMERATEDVALUE PROPERTYENUMERATION PROPERTYLISTVALUE PROPERTYREFERENCEVALUE PROPERTYSETDEFINITION
PROPERTYSETTEMPLATE PROPERTYTABLEVALUE PROTECTIVEDEVICE PROXY PUMP PUMPTYPE QUANTITYAREA QUANTITYCOUNT QUANTITYLENGTH
QUANTITYSET QUANTITYTIME QUANTITYVOLUME QUANTITYWEIGHT RAILING RAILINGTYPE RAMP RAMPFLIGHT RAMPFLIGHTTYPE RAMPTYPE
RATIONALBSPLINECURVEWITHKNOTS RECTANGLEHOLLOWPROFILEDEF RECTANGULARPYRAMID RECTANGULARTRIMMEDSURFACE RECURRENCEPATTERN
REFERENCE REGULARTIMESERIES REINFORCEMENTBARPROPERTIES REINFORCINGBAR REINFORCINGELEMENT REINFORCINGMESH RELASSIGNS
RELASSIGNSTOACTOR RELASSIGNSTOCONTROL RELASSIGNSTOGROUP RELASSIGNSTOPROCESS RELASSIGNSTOPRODUCT RELASSIGNSTORESOURCE
RELASSIGNSTASKS RELASSOCIATES RELASSOCIATESAPPROVAL RELASSOCIATESCLASSIFICATION RELASSOCIATESCONSTRAINT
RELASSOCIATESDOCUMENT RELASSOCIATESLIBRARY RELASSOCIATESPROFILEPROPERTIES RELASSOCIATESAPPLIEDVALUE RELCONNECTS
RELCONNECTSELEMENTS RELCONNECTSPATHELEMENTS RELCONNECTSPORTTOELEMENT RELCONNECTSPORTS RELCONNECTSSTRUCTURALACTIVITY
RELCONNECTSSTRUCTURALELEMENT RELCONNECTSSTRUCTURALMEMBER RELCOVERSBLDGELEMENTS RELCOVERSSPACES RELDECOMPOSES RELDEFINES
RELDEFINESBYOBJECT RELDEFINESBYTEMPLATE RELFLOWCONTROLELEMENTS RELINTERFERESELEMENTS RELNESTS RELOVERRIDESPROPERTIES
RELPROJECTSELEMENT RELREFERENCEDINSPATIALSTRUCTURE RELSEQUENCE RELSERVICESBUILDINGS RELSPACEBOUNDARY
RELSPACEBOUNDARY1STLEVEL RELSPACEBOUNDARY2NDLEVEL RELATIONSHIP REPARAMETRISEDCOMPOSITECURVESEGMENT REPRESENTATION
REPRESENTATIONCONTEXT REPRESENTATIONITEM RESOURCE RESOURCETIME REVOLVEDAREASOLID REVOLVEDAREASOLIDTAPERED
RIGHTCIRCULARCONE RIGHTCIRCULARCYLINDER ROOT ROUNDEDRECTANGLEPROFILEDEF SIUNITASSIGNMENT SANITARYTERMINAL SCHEDULINGTIME
SEAMCURVE SECTIONPROPERTIES SECTIONEDSPINE SENSOR SENSORTYPE SHAPEASPECT SHAPEMODEL SHELLBASEDSURFACEMODEL SIMPLEPROPERTY
SIMPLEPROPERTYTEMPLATE SLABELEMENTEDCASE SLIPPAGECONNECTIONCONDITION SOLARDEVICE SOLIDMODEL SPACEHEATER
SPACEPROGRAM SPACETHERMALLOADPROPERTIES SPATIALELEMENT SPATIALELEMENTTYPE SPATIALSTRUCTUREELEMENT
SPATIALSTRUCTUREELEMENTTYPE SPATIALZONE SPATIALZONETYPE SPHERE STACKTERMINAL STAIR STAIRFLIGHT STAIRFLIGHTTYPE STAIRTYPE
STRUCTURALACTION STRUCTURALACTIVITY STRUCTURALANALYSISMODEL STRUCTURALCONNECTION STRUCTURALCURVEMEMBER
STRUCTURALLOADCASE STRUCTURALMEMBER STRUCTURALSURFACEMEMBER STYLEMODEL STYLEDITEM STYLEDREPRESENTATION
SUBCONTRACTRESOURCE SUBEDGE SURFACE SURFACECURVE SURFACECURVESWEPTAREASOLID SURFACEFEATURE SURFACEOFLINEAREXTRUSION
SURFACEOFREVOLUTION SURFACEREINFORCEMENTAREA SURFACESTYLE SURFACESTYLELIGHTING SURFACESTYLERENDERING
SURFACESTYLESHADING SURFACESTYLEWITHTEXTURES SURFACETEXTURE SWEPTAREASOLID SWEPTDISKSOLID SWEPTDISKSOLIDPOLYGONAL
SWEPTSURFACE SWITCHINGDEVICE SYSTEM SYSTEMFURNITUREELEMENT TSHAPEPROFILEDEF TABLE TABLECOLUMN TABLEROW TANK TANKTYPE TASK
TASKTIME TASKTYPE TENDON TENDONANCHOR TESSELLATEDFACESET TESSELLATEDITEM TEXTLITERAL TEXTLITERALWITHEXTENT TEXTSTYLE
TEXTSTYLEFONTMODEL TEXTURECOORDINATE TEXTUREMAP TEXTUREVERTEX THERMALMATERIALPROPERTIES TIMEPERIOD TIMESERIES
TIMESERIESVALUE TOPOLOGICALREPRESENTATIONITEM TOPOLOGYREPRESENTATION TRANSFORMER TRANSPORTELEMENT TRANSPORTELEMENTTYPE
TRAPEZIUMPROFILEDEF TRIANGULATEDFACESET TRIMMEDCURVE TUBEBUNDLE TYPEOBJECT TYPEPROCESS TYPEPRODUCT TYPERESOURCE
USHAPEPROFILEDEF UNITARYCONTROLELEMENT UNITARYEQUIPMENT VALVE VALVETYPE VECTOR VERTEX VERTEXLOOP VERTEXPOINT
VIBRATIONISOLATOR VIRTUALELEMENT VIRTUALGRIDINTERSECTION VOIDINGFEATURE WALLELEMENTEDCASE WASTETERMINAL
WINDOWLININGPROPERTIES WINDOWPANELPROPERTIES WINDOWSTYLE WORKCALENDAR WORKCONTROL WORKPLAN WORKSCHEDULE WORKTIME
ZSHAPEPROFILEDEF ZONE
ALIGNMENT BRIDGE BUILTELEMENT FACILITY FACILITYPART KERB RAIL ROAD SIGN TRIANGULATEDIRREGULARNETWORK
LABEL TEXT IDENTIFIER BOOLEAN REAL INTEGER LENGTHMEASURE POSITIVELENGTHMEASURE THERMALTRANSMITTANCEMEASURE
";

const ENDINGS: &str = "
TYPE STANDARDCASE ELEMENTEDCASE STYLE 2D 3D 1 2 4 _ X S ES LIST SET USAGE PART ELEMENT ASSEMBLY PROPERTIES PROXY WITHVOIDS
WITHUNITS WITHOFFSET WITHOFFSETS TAPERED NONUNIFORM RELATIONSHIP ITEM VALUE REFERENCE CASE OCCURRENCE DEF CURVE
";

/// keywords which none of the given ones is
pub fn foreign(known: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = ENTITIES.split_whitespace().map(|e| format!("IFC{e}")).collect();
    for k in known {
        v.extend(ENDINGS.split_whitespace().map(|e| format!("{k}{e}")));
        // shorter, longer, with one letter doubled, missing or another one
        for i in 1..k.len() {
            v.push(format!("{}{}", &k[..i], &k[i + 1..]));
            v.push(format!("{}{}", &k[..i], &k[i - 1..]));
        }
        v.push(format!("IFC{k}"));
        v.push(k[3..].to_string());
        v.push(format!("X{k}"));
        v.push(format!("{k}{k}"));
    }
    v.retain(|n| !known.contains(&n.as_str()));
    v.sort();
    v.dedup();
    v
}
