pub mod data; pub mod typed; pub mod iters; pub mod proto; pub mod conn; pub mod local;
use crate::PropFn;
pub fn all() -> Vec<(&'static str, PropFn)> {
    vec![
        ("P01", proto::p01 as PropFn), ("P02", proto::p02), ("P03", proto::p03), ("P04", proto::p04),
        ("P05", data::p05), ("P06", proto::p06), ("P07", data::p07), ("P08", data::p08), ("P09", data::p09), ("P10", data::p10),
        ("P11", data::p11), ("P12", data::p12), ("P13", local::p13), ("P14", local::p14), ("P15", data::p15), ("P16", local::p16),
        ("P17", typed::p17), ("P18", conn::p18), ("P19", conn::p19), ("P20", conn::p20), ("P21", local::p21), ("P22", iters::p22), ("P23", local::p23),
    ]
}

/// known findings: Ok when the finding no longer reproduces
pub fn probe(n: &str, rt: &tokio::runtime::Runtime) -> Result<(), String> {
    use crate::oracle::*;
    let s = |x: &str| V::S(x.as_bytes().to_vec());
    let lc = Ty::LC(Box::new(Ty::Str));
    let (t, v) = match n {
        "array-low-cardinality" => (Ty::Arr(Box::new(lc)), V::A(vec![s("a"), s("b"), s("a")])),
        "map-low-cardinality" => (Ty::Map(Box::new(Ty::Str), Box::new(lc)), V::M(vec![(s("k"), s("a"))])),
        _ => return Err("no such probe".into()),
    };
    let b = Blk::new(vec![("c".into(), t, vec![v])]);
    rt.block_on(data::echo(&crate::server::ServerCfg::default(), &b))
}
