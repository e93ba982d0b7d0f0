use crate::num::*;
use crate::preds::ori;
use bumpalo::Bump;
use gpf::predicates as gp;
use gpf::predicates::{ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Point3D};
use serde_json::{json, Value};

fn pt(m: &Map, v: &Value) -> Point3D {
    let ps: Vec<ExplicitPoint3D> = v["p"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| ExplicitPoint3D::from(&m.pt(x)[..]))
        .collect();
    let g = |i: usize| ps[i].clone();
    match v["t"].as_str().unwrap() {
        "E" => Point3D::Explicit(g(0)),
        "L" => Point3D::LPI(ImplicitPointLPI::new(g(0), g(1), g(2), g(3), g(4))),
        "T" => Point3D::TPI(ImplicitPointTPI::new(
            g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8),
        )),
        x => panic!("HARNESS {x}"),
    }
}

pub fn imp(req: &Value) -> Value {
    let m = Map::of(req);
    let bump = Bump::new();
    let a = &bump;
    let f = req["f"].as_str().unwrap();
    let p: Vec<Point3D> = req["pts"].as_array().unwrap().iter().map(|v| pt(&m, v)).collect();
    // the same points again, to see whether cached filters change the answer
    let call = |p: &[Point3D]| -> i64 {
        match f {
            "o3" => ori(gp::orient3d::orient3d(&p[0], &p[1], &p[2], &p[3], a)),
            "o2xy" => ori(gp::orient2d::orient2d_xy(&p[0], &p[1], &p[2], a)),
            "o2yz" => ori(gp::orient2d::orient2d_yz(&p[0], &p[1], &p[2], a)),
            "o2zx" => ori(gp::orient2d::orient2d_zx(&p[0], &p[1], &p[2], a)),
            "o2ax" => ori(gp::orient2d::orient2d_by_axis(&p[0], &p[1], &p[2], us(&req["axis"]), a)),
            "ltx" => ori(gp::less_than_on_x(&p[0], &p[1], a)),
            "lty" => ori(gp::less_than_on_y(&p[0], &p[1], a)),
            "ltz" => ori(gp::less_than_on_z(&p[0], &p[1], a)),
            "inseg" => gp::point_in_segment_general(&p[0], &p[1], &p[2], a) as i64,
            x => panic!("HARNESS {x}"),
        }
    };
    if f == "expl" {
        let mut d = [0.0; 3];
        match &p[0] {
            Point3D::Explicit(e) => d.copy_from_slice(&e.data),
            Point3D::LPI(l) => l.to_explicit(&mut d),
            Point3D::TPI(t) => t.to_explicit(&mut d),
        }
        let w: Vec<f64> = m.pt(&req["pts"][0]["v"]);
        // relative error in units of 2^-50 of the largest coordinate involved
        let big = w.iter().fold(0.0f64, |a, b| a.max(b.abs())).max(f64::MIN_POSITIVE);
        let err: Vec<i64> = (0..3)
            .map(|i| {
                let e = ((d[i] - w[i]).abs() / big * 2.0f64.powi(50)).ceil();
                if e.is_nan() || e > 1e9 { 999_999_999 } else { e as i64 }
            })
            .collect();
        return json!({"err": err, "crash": ""});
    }
    let r1 = call(&p);
    let r2 = call(&p);
    // and through clones, whose filters were computed before
    let q: Vec<Point3D> = p.iter().cloned().collect();
    let r3 = call(&q);
    json!({"r": r1, "again": r2, "clone": r3, "crash": ""})
}
