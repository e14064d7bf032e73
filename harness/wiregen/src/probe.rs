//! Definitions that show the known findings (see /verif/known_findings.json). Random packages avoid these constructs.
use mvcore::model::*;

fn field(name: &str, ty: Ty, id: u32) -> Field { Field { comment: Vec::new(), name: Some(name.into()), ty, id: Some(id) } }
fn def(name: &str, generics: &[&str], fields: Vec<Field>) -> Def {
    Def::Struct(Struct { comment: Vec::new(), attrs: Vec::new(), name: name.into(), generics: generics.iter().map(|s| s.to_string()).collect(), fields: if fields.is_empty() { Fields::Unit } else { Fields::Named(fields) } })
}
fn ext(name: &str, args: Vec<Ty>) -> Ty { Ty::Ext { path: Vec::new(), name: name.into(), args } }
fn full(name: &str, args: Vec<Ty>) -> Ty { Ty::Ext { path: vec!["probes".into()], name: name.into(), args } }
fn b(t: Ty) -> Box<Ty> { Box::new(t) }

/// Two versions.
pub fn packages() -> (Package, Package) {
    let mk = |new: bool| {
        let keep = |mut f: Vec<Field>| { if new { f.remove(0); } f };
        let defs = vec![
            def("TupleElem", &[], vec![field("a", Ty::Tuple(vec![Ty::U8, Ty::U8]), 1)]),
            def("Empty", &[], vec![]),
            def("IdZero", &[], vec![field("a", Ty::U32, 0), field("b", Ty::U32, 1)]),
            def("IdHuge", &[], vec![field("a", Ty::U32, 1 << 29), field("b", Ty::U32, 1)]),
            def("Inner", &[], vec![field("a", Ty::U32, 1)]),
            def("WithStruct", &[], keep(vec![field("a", ext("Inner", vec![]), 1), field("n", Ty::U32, 2)])),
            def("WithNested", &[], keep(vec![field("a", Ty::Opt(b(Ty::Opt(b(Ty::U32)))), 1), field("n", Ty::U32, 2)])),
            def("WithGeneric", &["T"], keep(vec![field("a", Ty::Opt(b(ext("T", vec![]))), 1), field("n", ext("T", vec![]), 2)])),
        ];
        Package { schemas: vec![("probes".into(), Schema { comment: Vec::new(), defs })] }
    };
    (mk(false), mk(true))
}

/// Types, and the property and finding that they show.
pub fn types() -> Vec<(Ty, &'static str)> {
    vec![
        (full("TupleElem", vec![]), "C02:size-of-tuple-field"),
        (Ty::Vec(b(full("TupleElem", vec![]))), "C01:vec-of-struct-with-tuple-field"),
        (Ty::Vec(b(full("Empty", vec![]))), "C01:vec-of-unit-struct"),
        (full("IdZero", vec![]), "C01:field-id-zero"),
        (full("IdHuge", vec![]), "C01:field-id-above-29-bits"),
        (full("WithStruct", vec![]), "C04:skip-field-of-struct"),
        (full("WithNested", vec![]), "C04:skip-field-of-nested-option"),
        (full("WithGeneric", vec![Ty::U32]), "C04:skip-field-of-generic"),
    ]
}
