//! C21: the extractor's answers against brute force over the relations of a
//! file, for all small sets of relations.
use crate::common::*;
use crate::explore::par_for;
use crate::report::{guard, Report};
use crate::schema::*;
use ifc_rs::prelude::*;
use ifc_rs::IFC;

#[derive(Clone, Debug, Hash, PartialEq)]
enum Rel {
    /// whole, parts
    Agg(u64, Vec<u64>),
    /// structure, elements
    Cont(u64, Vec<u64>),
    /// type, objects
    Ty(u64, Vec<u64>),
    /// element, opening
    Void(u64, u64),
    /// material definition, objects
    Mat(u64, Vec<u64>),
    // relations no answer depends on
    /// opening, element that fills it
    Fill(u64, u64),
    /// objects that have properties
    Props(Vec<u64>),
    /// project, what it declares
    Decl(u64, Vec<u64>),
}
use Rel::*;

fn list(v: &[u64]) -> String {
    format!("({})", v.iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(","))
}

impl Rel {
    fn text(&self) -> String {
        let g = format!("'{}',$,$,$", GUIDS[0]);
        match self {
            Agg(w, p) => format!("IFCRELAGGREGATES({g},#{w},{})", list(p)),
            Cont(s, e) => format!("IFCRELCONTAINEDINSPATIALSTRUCTURE({g},{},#{s})", list(e)),
            Ty(t, o) => format!("IFCRELDEFINESBYTYPE({g},{},#{t})", list(o)),
            Void(e, o) => format!("IFCRELVOIDSELEMENT({g},#{e},#{o})"),
            Mat(m, o) => format!("IFCRELASSOCIATESMATERIAL({g},{},#{m})", list(o)),
            Fill(o, e) => format!("IFCRELFILLSELEMENT({g},#{o},#{e})"),
            Props(o) => format!("IFCRELDEFINESBYPROPERTIES({g},{},#30)", list(o)),
            Decl(p, d) => format!("IFCRELDECLARES({g},#{p},{})", list(d)),
        }
    }
}

/// the objects of every file: id, kind
const OBJECTS: &[(u64, &str)] = &[
    (10, "Project"), (11, "Site"), (12, "Site"), (13, "Building"), (14, "Building"), (15, "Storey"), (16, "Storey"),
    (17, "Space"), (18, "Space"), (19, "Project"), (21, "Wall"), (22, "Wall"), (23, "Slab"), (24, "Roof"),
    (25, "Window"), (26, "Door"), (27, "OpeningElement"), (28, "OpeningElement"), (29, "ShadingDevice"),
    (31, "WallType"), (32, "WallType"), (33, "SlabType"), (34, "RoofType"), (35, "WindowType"), (36, "DoorType"),
    (37, "SlabType"),
];
const MATERIALS: &[(u64, &str)] = &[
    (30, "IFCCOLUMN('unsupported',$)"),
    (41, "IFCMATERIAL('m41',$,$)"),
    (42, "IFCMATERIAL('m42',$,$)"),
    (44, "IFCMATERIALLAYER(#41,0.1,.FALSE.,'l44',$,$,$)"),
    (45, "IFCMATERIALLAYER(#42,0.2,.FALSE.,'l45',$,$,$)"),
    (46, "IFCMATERIALLAYER(#41,0.3,.FALSE.,'l46',$,$,$)"),
    (48, "IFCMATERIALLAYERSET((#45,#44),'s48',$)"),
    (49, "IFCMATERIALLAYERSET((#46,#44,#46),'s49',$)"),
    (50, "IFCMATERIALLAYERSETUSAGE(#48,.AXIS3.,.POSITIVE.,0.,$)"),
    (51, "IFCMATERIALLAYERSETUSAGE(#49,.AXIS2.,.POSITIVE.,0.,$)"),
    (53, "IFCMATERIALCONSTITUENT('c53',$,#41,$,$)"),
    (54, "IFCMATERIALCONSTITUENT('c54',$,#42,$,$)"),
    (55, "IFCMATERIALCONSTITUENT('c55',$,#41,0.5,$)"),
    (56, "IFCMATERIALCONSTITUENTSET('k56',$,(#54,#53))"),
    (57, "IFCMATERIALCONSTITUENTSET('k57',$,(#55,#53,#55))"),
];

/// all lists of layers (of constituents) up to a length; the n-th is #(300+n)
/// as a layer set, #(600+n) as its usage and #(900+n) as a constituent set
fn lists() -> &'static [Vec<u64>] {
    static L: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
    L.get_or_init(|| seqs(&[44, 45, 46], 0..=4))
}
fn layers(m: u64) -> &'static [u64] {
    match m {
        50 => &[45, 44],
        51 => &[46, 44, 46],
        600..=899 => &lists()[m as usize - 600],
        _ => &[],
    }
}
fn constituents(m: u64) -> Vec<u64> {
    match m {
        56 => vec![54, 53],
        57 => vec![55, 53, 55],
        900..=1199 => lists()[m as usize - 900].iter().map(|i| i + 9).collect(),
        _ => vec![],
    }
}
fn kind_of(id: u64) -> &'static str {
    OBJECTS.iter().find(|o| o.0 == id).map(|o| o.1).unwrap_or("")
}

fn base(s: &Schema) -> Vec<(u64, String)> {
    let mut v = Vec::new();
    for (id, kind) in OBJECTS {
        let k = &s.kinds[s.idx(kind)];
        let mut args: Vec<String> = k.attrs.iter().map(|a| minimal(s, a)).collect();
        args[2] = format!("'n{id}'");
        for (a, k) in args.iter_mut().zip(&k.attrs) {
            // mandatory references (none of the checks depend on them) go to the unsupported object
            if let K::Ref(x) = k {
                assert!(x.is_empty(), "{kind} has a restricted mandatory reference");
                *a = "#30".into();
            }
        }
        v.push((*id, line(k.names[0], &args)));
    }
    v.extend(MATERIALS.iter().map(|m| (m.0, m.1.to_string())));
    v
}

/// the sets a relation uses and the tables above do not hold
fn more(rels: &[Rel]) -> Vec<(u64, String)> {
    let mut v = vec![];
    for r in rels {
        if let Mat(m @ 600..=1199, _) = r {
            let n = m % 300;
            let l = &lists()[n as usize];
            if *m < 900 {
                v.push((300 + n, format!("IFCMATERIALLAYERSET({},'s',$)", list(l))));
                v.push((*m, format!("IFCMATERIALLAYERSETUSAGE(#{},.AXIS3.,.POSITIVE.,0.,$)", 300 + n)));
            } else {
                v.push((*m, format!("IFCMATERIALCONSTITUENTSET('k',$,{})", list(&constituents(*m)))));
            }
        }
    }
    v
}

/// all sequences over `of` with lengths in `len`
fn seqs(of: &[u64], len: std::ops::RangeInclusive<usize>) -> Vec<Vec<u64>> {
    let mut out = Vec::new();
    let mut cur: Vec<Vec<u64>> = vec![vec![]];
    for l in 0..=*len.end() {
        if len.contains(&l) {
            out.extend(cur.iter().cloned());
        }
        cur = cur.iter().flat_map(|c| of.iter().map(move |o| c.iter().copied().chain([*o]).collect())).collect();
    }
    out
}

fn big(max: usize) -> Vec<Rel> {
    let mut v = Vec::new();
    for w in [10, 11, 12, 13, 14, 15, 16, 19] {
        v.extend(seqs(&[11, 12, 13, 14, 15, 16, 17, 18], 0..=max).into_iter().map(|p| Agg(w, p)));
    }
    for s in [11, 12, 13, 14, 15, 16] {
        v.extend(seqs(&[21, 22, 23, 24, 25, 26, 29], 0..=max).into_iter().map(|p| Cont(s, p)));
    }
    for t in [31, 32, 33, 34, 35, 36, 37] {
        v.extend(seqs(&[21, 22, 23, 24, 25, 26, 29], 0..=max).into_iter().map(|p| Ty(t, p)));
    }
    for e in [13, 14, 21, 22, 23, 25, 27, 28] {
        v.extend([27, 28].map(|o| Void(e, o)));
    }
    for m in [41, 48, 49, 50, 51, 56, 57] {
        v.extend(seqs(&[21, 22, 23, 24, 25, 26, 29, 31, 30], 0..=max).into_iter().map(|p| Mat(m, p)));
    }
    for o in [27, 28] {
        v.extend([21, 22, 25, 26, 27, 28].map(|e| Fill(o, e)));
    }
    v.extend(seqs(&[11, 13, 21, 23, 25, 27, 28], 0..=max).into_iter().map(Props));
    for p in [10, 19] {
        v.extend(seqs(&[11, 13, 15, 21, 31, 48], 0..=max).into_iter().map(|d| Decl(p, d)));
    }
    v
}

fn small() -> Vec<Rel> {
    let mut v = Vec::new();
    for w in [10, 11, 13, 14, 15] {
        v.extend([vec![12], vec![13], vec![15], vec![14, 13], vec![16, 15], vec![17, 16, 18]].map(|p| Agg(w, p)));
    }
    for s in [13, 15, 16] {
        v.extend([vec![21], vec![22, 23], vec![21, 26, 25]].map(|p| Cont(s, p)));
    }
    v.extend([Ty(31, vec![21]), Ty(32, vec![22, 21]), Ty(31, vec![22]), Ty(32, vec![])]);
    v.extend([Ty(33, vec![23]), Ty(37, vec![23]), Ty(34, vec![24]), Ty(35, vec![25]), Ty(36, vec![26])]);
    v.extend([Void(21, 27), Void(21, 28), Void(22, 27), Void(27, 28), Void(13, 28), Void(23, 27)]);
    for m in [41, 48, 50, 51, 56, 57] {
        v.extend([vec![21], vec![22, 21], vec![23, 24]].map(|p| Mat(m, p)));
    }
    v.extend([Fill(27, 25), Fill(28, 26), Fill(27, 21), Props(vec![21]), Props(vec![25, 27])]);
    v.extend([Decl(10, vec![13, 31]), Decl(19, vec![12])]);
    v
}

struct Ask<'a> {
    x: &'a IfcExtractor,
    rels: Vec<Rel>,
}

impl Ask<'_> {
    fn same(&self, what: &str, id: u64, got: Vec<String>, want: Vec<u64>) -> Result<(), String> {
        let want: Vec<String> = want.iter().map(|i| self.x.data.get_untyped(Id(*i as usize)).to_string()).collect();
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} of #{id} gives {got:?} instead of {want:?}"))
        }
    }
    fn parts<A: IfcType, B: IfcType>(&self, a: &str, b: &str) -> Result<(), String> {
        for (id, k) in OBJECTS {
            if *k != a {
                continue;
            }
            let want: Vec<u64> = self
                .rels
                .iter()
                .filter_map(|r| if let Agg(w, p) = r { (w == id).then_some(p) } else { None })
                .flatten()
                .copied()
                .filter(|p| kind_of(*p) == b)
                .collect();
            let got: Vec<(TypedId<B>, &B)> =
                self.x.relations_of::<A, B>(TypedId::new(Id(*id as usize))).collect();
            let ids: Vec<u64> = got.iter().map(|g| g.0.id().0 as u64).collect();
            if ids != want {
                return Err(format!("the {b}s of {a} #{id} are {ids:?} instead of {want:?}"));
            }
            self.same("relations_of", *id, got.iter().map(|g| g.1.to_string()).collect(), want)?;
        }
        Ok(())
    }
    fn structure<S: Structure>(&self, kind: &str) -> Result<(), String> {
        for (id, k) in OBJECTS {
            if *k != kind {
                continue;
            }
            let t = || TypedId::<S>::new(Id(*id as usize));
            let want: Vec<u64> = self
                .rels
                .iter()
                .filter_map(|r| if let Cont(s, e) = r { (s == id).then_some(e) } else { None })
                .flatten()
                .copied()
                .collect();
            let got: Vec<u64> = self.x.contained_structures(t()).map(|i| i.0 as u64).collect();
            if got != want {
                return Err(format!("the structures contained in {kind} #{id} are {got:?} instead of {want:?}"));
            }
            let want = self.rels.iter().filter_map(|r| if let Void(e, o) = r { (e == id).then_some(*o) } else { None });
            let got = self.x.related_voids(t()).map(|o| o.to_string()).collect();
            self.same("related_voids", *id, got, want.collect())?;
            let mats: Vec<u64> = self
                .rels
                .iter()
                .filter_map(|r| if let Mat(m, o) = r { o.contains(id).then_some(*m) } else { None })
                .collect();
            let got = self.x.related_materials(t()).map(|o| o.to_string()).collect();
            self.same("related_materials", *id, got, mats.iter().flat_map(|m| layers(*m)).copied().collect())?;
            let got = self.x.related_constiuents(t()).map(|o| o.to_string()).collect();
            self.same("related_constiuents", *id, got, mats.iter().flat_map(|m| constituents(*m)).collect())?;
        }
        Ok(())
    }
    fn typ<S: Structure, T: IfcType>(&self, kind: &str, type_kind: &str) -> Result<(), String>
    where
        IfcExtractor: TypeRelation<S, T>,
    {
        for (id, k) in OBJECTS {
            if *k != kind {
                continue;
            }
            let types: Vec<u64> = self
                .rels
                .iter()
                .filter_map(|r| if let Ty(t, o) = r { o.contains(id).then_some(*t) } else { None })
                .collect();
            // asking for a type that is not there is refused by panicking
            if types.is_empty() || types.iter().any(|t| kind_of(*t) != type_kind) {
                continue;
            }
            let got = <IfcExtractor as TypeRelation<S, T>>::related_type(self.x, TypedId::new(Id(*id as usize))).to_string();
            let want: Vec<String> =
                types.iter().map(|i| self.x.data.get_untyped(Id(*i as usize)).to_string()).collect();
            if !want.contains(&got) {
                return Err(format!("the type of {kind} #{id} is {got} instead of {want:?}"));
            }
        }
        Ok(())
    }
    fn all(&self) -> Result<(), String> {
        let p: Vec<(u64, String)> = self.x.projects().map(|p| (p.0.id().0 as u64, p.1.to_string())).collect();
        if p.iter().map(|p| p.0).collect::<Vec<_>>() != [10, 19] {
            return Err(format!("the projects are {p:?}"));
        }
        self.same("projects", 0, p.into_iter().map(|p| p.1).collect(), vec![10, 19])?;
        macro_rules! parts {
            ($($a:ident: $($b:ident)*;)*) => { $($(self.parts::<$a, $b>(stringify!($a), stringify!($b))?;)*)* };
        }
        parts! {
            Project: Site Building Storey Space;
            Site: Site Building Storey Space;
            Building: Site Building Storey Space;
            Storey: Storey Space Wall;
            Space: Space;
        }
        macro_rules! structure { ($($a:ident)*) => { $(self.structure::<$a>(stringify!($a))?;)* }; }
        structure!(Site Building Storey Space Wall Slab Roof Window Door OpeningElement ShadingDevice);
        self.typ::<Wall, WallType>("Wall", "WallType")?;
        self.typ::<Slab, SlabType>("Slab", "SlabType")?;
        self.typ::<Roof, RoofType>("Roof", "RoofType")?;
        self.typ::<Window, WindowType>("Window", "WindowType")?;
        self.typ::<Door, DoorType>("Door", "DoorType")
    }
}

/// identifiers of the relations: before, among and after the objects
const REL_IDS: [&[u64]; 3] = [&[], &[5], &[5, 200]];

fn check(rep: &Report, base: &[(u64, String)], rels: &[Rel], ids: &[u64]) {
    rep.state(&(rels, ids));
    rep.step(rels.len() as u64);
    let mut lines = base.to_vec();
    lines.extend(more(rels));
    lines.extend(ids.iter().copied().zip(rels.iter().map(Rel::text)));
    let text = file_of(&lines);
    let r = load_ok(&text).and_then(|ifc| {
        // the extractor goes through relations in the order of their identifiers
        let mut by_id: Vec<(u64, Rel)> = ids.iter().copied().zip(rels.iter().cloned()).collect();
        by_id.sort_by_key(|r| r.0);
        let x = IfcExtractor::from(*ifc as IFC);
        guard(|| Ask { x: &x, rels: by_id.into_iter().map(|r| r.1).collect() }.all())
            .unwrap_or_else(|p| Err(format!("panicked: {p}")))
    });
    match r {
        Ok(()) => rep.trace(),
        Err(e) => rep.violation(
            rels.iter().map(|r| clip(&r.text(), 80)).collect::<Vec<_>>().join(" "),
            clip(&e, 400),
            text,
        ),
    }
}

pub fn c21(rep: &Report) -> &'static str {
    let s = Schema::new();
    let base = base(&s);
    let max = rep.pick(3, 4);
    let singles = big(max);
    rep.bound("single_relations", singles.len());
    rep.bound("single_relation_list_length", max);
    check(rep, &base, &[], REL_IDS[0]);
    par_for(singles.len(), |i| check(rep, &base, &singles[i..i + 1], REL_IDS[1]));
    let sets: Vec<Rel> =
        (0..lists().len() as u64).flat_map(|n| [Mat(600 + n, vec![22]), Mat(900 + n, vec![24, 22])]).collect();
    rep.bound("material_sets", sets.len());
    par_for(sets.len(), |i| check(rep, &base, &sets[i..i + 1], REL_IDS[1]));
    let pair = rep.pick(small(), big(1));
    rep.bound("pair_alphabet", pair.len());
    par_for(pair.len(), |i| {
        for b in &pair {
            check(rep, &base, &[pair[i].clone(), b.clone()], REL_IDS[2]);
        }
    });
    let triple = small();
    let triple: Vec<Rel> =
        if rep.quick() { triple.into_iter().step_by(3).collect() } else { triple };
    rep.bound("triple_alphabet", triple.len());
    par_for(triple.len(), |i| {
        for b in &triple {
            for c in &triple {
                if rep.stop() {
                    return;
                }
                check(rep, &base, &[triple[i].clone(), b.clone(), c.clone()], &[200, 40, 5]);
            }
        }
    });
    // long lists, and many relations
    let sized = sizes(rep);
    let around = |of: &[u64], n: usize| -> Vec<u64> { (0..n).map(|i| of[(i * 7 + i / of.len()) % of.len()]).collect() };
    par_for(sized.len(), |x| {
        let n = sized[x];
        let (parts, elements, all): (&[u64], &[u64], &[u64]) =
            (&[11, 12, 13, 14, 15, 16, 17, 18], &[21, 22, 23, 24, 25, 26, 29], &[21, 22, 23, 24, 25, 26, 29, 31, 30]);
        let mut one: Vec<Rel> = vec![];
        one.extend([10, 13, 15].map(|w| Agg(w, around(parts, n))));
        one.extend([13, 15].map(|s| Cont(s, around(elements, n))));
        one.extend([31, 33].map(|t| Ty(t, around(elements, n))));
        one.extend([41, 48, 50, 56].map(|m| Mat(m, around(all, n))));
        for r in &one {
            check(rep, &base, std::slice::from_ref(r), REL_IDS[1]);
        }
        // as many relations
        let ids: Vec<u64> = (0..n as u64).map(|i| 5000 + i).collect();
        let each = |f: &dyn Fn(usize) -> Rel| check(rep, &base, &(0..n).map(f).collect::<Vec<_>>(), &ids);
        each(&|i| Agg([10, 11, 13, 15][i % 4], vec![parts[i % 8], parts[i / 4 % 8]]));
        each(&|i| Cont([13, 15, 16][i % 3], vec![elements[i % 7]]));
        each(&|i| Ty([31, 32, 33, 35][i % 4], vec![elements[i % 7]]));
        each(&|i| Void([21, 22, 23][i % 3], [27, 28][i / 3 % 2]));
        each(&|i| Mat([41, 48, 50, 56, 57][i % 5], vec![all[i % 9]]));
        each(&|i| if i % 2 == 0 { Void([21, 22][i / 4 % 2], [27, 28][i / 2 % 2]) } else { Fill([27, 28][i / 2 % 2], [25, 26][i / 4 % 2]) });
        let small = small();
        each(&|i| small[i % small.len()].clone());
    });
    rep.assume("an answer follows the order of the relations' identifiers and the order within each relation's list");
    rep.assume("asking for the type of an object that has none, or one of another kind, panics by design and is not asked");
    "explicit-state enumeration of relation sets; every extractor query on every object compared with brute force over the relations"
}
