use crate::num::*;
use gpf::polygonlization::*;
use serde_json::{json, Value};

pub fn dedup(req: &Value) -> Value {
    let m = Map::of(req);
    let mut pts = m.flat(&req["pts"]);
    // nudges: a coordinate moved to the next number up or down
    for (i, n) in req["nud"].as_array().into_iter().flatten().flat_map(|p| p.as_array().unwrap()).enumerate() {
        match is(n) {
            1 => pts[i] = pts[i].next_up(),
            -1 => pts[i] = pts[i].next_down(),
            _ => {}
        }
    }
    // eps = c * 2^e in model units
    let eps = is(&req["eps"][0]) as f64 * 2.0f64.powi(is(&req["eps"][1]) as i32);
    let (out, pmap) = remove_duplicates(&pts, eps);
    let mut bad = 0;
    let o: Vec<Vec<i64>> = out
        .chunks(3)
        .map(|p| {
            p.iter()
                .map(|&x| match m.back(x) {
                    Some(v) => v,
                    None => {
                        bad += 1;
                        999_999_999
                    }
                })
                .collect()
        })
        .collect();
    json!({"out": o, "pmap": pmap.iter().map(|&x| x.min(999999)).collect::<Vec<_>>(),
        "rem": out.len() % 3, "nonint": bad, "crash": ""})
}

/// The boolean pipeline.  Input: points, faces (triangles or polygons), shell of each face.
/// Output projected onto the integer model (coordinates times `om`).
pub fn solid(req: &Value) -> Value {
    let m = Map::of(req);
    let src = if req["ipts"].is_array() { &req["ipts"] } else { &req["pts"] };
    let mut pts = m.flat(src);
    let mut bx = [[i64::MAX, i64::MIN]; 3];
    for p in src.as_array().unwrap() {
        for a in 0..3 {
            let v = is(&p[a]);
            bx[a] = [bx[a][0].min(v), bx[a][1].max(v)];
        }
    }
    // optional jitter of single points by j * 2^e (to be merged away by de-duplication)
    if let Some(js) = req["jit"].as_array() {
        for j in js {
            let i = us(&j[0]);
            for a in 0..3 {
                pts[3 * i + a] += is(&j[1 + a]) as f64 * 2.0f64.powi(is(&j[4]) as i32);
            }
        }
    }
    let mut shells = usv(if req["lab"].is_array() { &req["lab"] } else { &req["shells"] });
    let drop: Vec<usize> = if req["drop"].is_array() { usv(&req["drop"]) } else { vec![] };
    if !drop.is_empty() {
        shells = shells.iter().enumerate().filter(|(i, _)| !drop.contains(i)).map(|x| *x.1).collect();
    }
    let (mut op, mut ot) = if req["f"] == "tri" {
        let tris: Vec<usize> = req["tris"].as_array().unwrap().iter().enumerate().filter(|(i, _)| !drop.contains(i)).flat_map(|(_, t)| usv(t)).collect();
        make_mesh_for_triangles(&pts, &tris, &shells)
    } else {
        let edges: Vec<Vec<usize>> = req["faces"]
            .as_array()
            .unwrap()
            .iter()
            .map(|f| f.as_array().unwrap().iter().flat_map(usv).collect())
            .collect();
        let ax: Vec<f64> = req["axes"]
            .as_array()
            .unwrap()
            .iter()
            .flat_map(|a| {
                let mut v = m.pt(&a[0]);
                for d in [&a[1], &a[2]] {
                    v.extend(d.as_array().unwrap().iter().map(|x| is(x) as f64));
                }
                v
            })
            .collect();
        let eps = is(&req["eps"][0]) as f64 * 2.0f64.powi(is(&req["eps"][1]) as i32);
        make_polyhedral_mesh(&pts, &ax, &shells, &edges, eps)
    };
    // the result fed back as one shell
    for _ in 0..req["back"].as_i64().unwrap_or(0) {
        if ot.iter().all(|&i| i < op.len() / 3) {
            let one = vec![0; ot.len() / 3];
            (op, ot) = make_mesh_for_triangles(&op, &ot, &one);
        }
    }
    // output coordinates times `om`, as integers
    let om = req["om"].as_i64().unwrap_or(1) as f64;
    let sc = 2.0f64.powi(-(req["s"].as_i64().unwrap_or(0) as i32));
    let off = req["off"].as_i64().unwrap_or(0) as f64;
    let (mut nonint, mut far) = (0, 0);
    let ip: Vec<[i64; 3]> = op
        .chunks(3)
        .map(|p| {
            let mut r = [0; 3];
            for a in 0..3 {
                let y = (p[a] * sc - off) * om;
                // a coordinate outside the box of the input (or no number at all) is reported as such
                let (lo, hi) = ((bx[a][0] as f64 - 0.01) * om, (bx[a][1] as f64 + 0.01) * om);
                if !(y >= lo && y <= hi) {
                    far += 1;
                }
                r[a] = if y.is_nan() { bx[a][0] * om as i64 } else { y.clamp(lo, hi).round() as i64 };
                if !((y - y.round()).abs() < 1e-3) {
                    nonint += 1;
                }
            }
            r
        })
        .collect();
    let mut badidx = ot.len() % 3;
    let tr: Vec<[usize; 3]> = ot
        .chunks(3)
        .filter(|c| c.len() == 3)
        .filter_map(|c| {
            if c.iter().any(|&i| i >= ip.len()) {
                badidx += 1;
                None
            } else {
                Some([c[0], c[1], c[2]])
            }
        })
        .collect();
    // rank of every coordinate among the values of its axis: keeps the order of the unrounded values
    let mut rank = vec![[0usize; 3]; ip.len()];
    for a in 0..3 {
        let mut vals: Vec<f64> = op.chunks(3).map(|p| p[a]).collect();
        vals.sort_by(f64::total_cmp);
        vals.dedup();
        for (i, p) in op.chunks(3).enumerate() {
            rank[i][a] = vals.iter().position(|v| *v == p[a]).unwrap_or(usize::MAX >> 40);
        }
    }
    json!({"pts": ip, "tris": tr, "nonint": nonint, "far": far, "badidx": badidx, "rank": rank, "crash": ""})
}
