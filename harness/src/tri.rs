use crate::num::*;
use bumpalo::Bump;
use gpf::triangle as gt;
use serde_json::{json, Value};

fn chunk3(v: &[usize]) -> Vec<Vec<usize>> {
    v.chunks(3).map(|c| c.iter().map(|&x| x.min(999999)).collect()).collect()
}

pub fn tri2(req: &Value) -> Value {
    let m = Map::of(req);
    let pts = m.flat(&req["pts"]);
    let segs: Vec<usize> = req["segs"].as_array().unwrap().iter().flat_map(usv).collect();
    let bump = Bump::new();
    let t = gt::triangulate(&pts, &segs, &bump);
    json!({"tris": chunk3(&t), "rem": t.len() % 3, "crash": ""})
}

fn axes(req: &Value) -> Vec<f64> {
    let m = Map::of(req);
    // origin under the map, directions as plain scaled integers
    req["axes"]
        .as_array()
        .unwrap()
        .iter()
        .flat_map(|ax| {
            let mut v = m.pt(&ax[0]);
            for d in [&ax[1], &ax[2]] {
                v.extend(d.as_array().unwrap().iter().map(|x| is(x) as f64));
            }
            v
        })
        .collect()
}

pub fn tri3(req: &Value) -> Value {
    let m = Map::of(req);
    let pts = m.flat(&req["pts"]);
    let segs: Vec<usize> = req["segs"].as_array().unwrap().iter().flat_map(usv).collect();
    let ax = axes(req);
    let bump = Bump::new();
    let t = gt::triangulate_polygon(&pts, &segs, &ax[0..3], &ax[3..6], &ax[6..9], &bump);
    json!({"tris": chunk3(&t), "rem": t.len() % 3, "crash": ""})
}

pub fn soup(req: &Value) -> Value {
    let m = Map::of(req);
    let pts = m.flat(&req["pts"]);
    let edges: Vec<Vec<usize>> = req["faces"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| f.as_array().unwrap().iter().flat_map(usv).collect())
        .collect();
    let ax = axes(req);
    let (t, par) = gt::triangulate_polygon_soup(&pts, &edges, &ax);
    json!({"tris": chunk3(&t), "rem": t.len() % 3, "par": par, "crash": ""})
}
