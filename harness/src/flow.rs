use crate::num::*;
use gpf::disjoint_set::DisjointSet;
use gpf::graphcut::*;
use serde_json::{json, Value};

pub fn ds(req: &Value) -> Value {
    let n = us(&req["n"]);
    let mut d = DisjointSet::new(n);
    let every = req["every"].as_u64().unwrap_or(1) as usize;
    let mut steps = Vec::new();
    let snap = |d: &mut DisjointSet| {
        let ng = d.n_groups;
        let mut groups: Vec<(usize, Vec<usize>)> = d.output().into_iter().collect();
        groups.sort();
        json!({"ng": ng,
            "groups": groups.iter().map(|(r, g)| json!({"root": r, "mem": g})).collect::<Vec<_>>()})
    };
    let merges = req["merges"].as_array().unwrap();
    for (i, m) in merges.iter().enumerate() {
        d.merge(us(&m[0]), us(&m[1]));
        if (i + 1) % every == 0 || i + 1 == merges.len() {
            let s = snap(&mut d);
            steps.push(json!({"k": i + 1, "snap": s}));
        }
    }
    if merges.is_empty() {
        let s = snap(&mut d);
        steps.push(json!({"k": 0, "snap": s}));
    }
    json!({"steps": steps, "crash": ""})
}

pub fn flow(req: &Value) -> Value {
    let unit = 2.0f64.powi(req["s"].as_i64().unwrap_or(0) as i32);
    let src: Vec<i64> = req["src"].as_array().unwrap().iter().map(is).collect();
    let snk: Vec<i64> = req["snk"].as_array().unwrap().iter().map(is).collect();
    let arcs = req["arcs"].as_array().unwrap(); // [i, j, cap, revcap]
    let n = src.len();
    let fl = |v: &Vec<i64>| v.iter().map(|&x| x as f64 * unit).collect::<Vec<f64>>();
    match req["solver"].as_str().unwrap() {
        "bk" => {
            let mut g = GraphCut::new(&fl(&src), &fl(&snk));
            for a in arcs {
                g.add_edge(us(&a[0]), us(&a[1]), is(&a[2]) as f64 * unit, is(&a[3]) as f64 * unit);
            }
            let f = g.max_flow();
            let f2 = g.flow;
            let q = f / unit;
            json!({"sink": g.is_sink.iter().map(|&b| b as u8).collect::<Vec<_>>(),
                "flow": if q == q.round() && q.abs() < 1e9 { q as i64 } else { -999 },
                "same": f == f2, "n": g.is_sink.len(), "crash": ""})
        }
        "pri" => {
            let s: Vec<i32> = src.iter().map(|&x| x as i32).collect();
            let t: Vec<i32> = snk.iter().map(|&x| x as i32).collect();
            let mut b = ArcBuilder::new(&s, &t);
            for a in arcs {
                let (i, j, c, r) = (us(&a[0]), us(&a[1]), is(&a[2]) as i32, is(&a[3]) as i32);
                if c == r {
                    b.add_arc(i, j, c, true);
                } else {
                    if c > 0 || r == 0 {
                        b.add_arc(i, j, c, false);
                    }
                    if r > 0 {
                        b.add_arc(j, i, r, false);
                    }
                }
            }
            let mut p: PushRelabelFifo<i32> = (b.arcs, n + 2).into();
            p.find_max_flow();
            json!({"sink": (0..n).map(|i| p.is_sink(i + 1) as u8).collect::<Vec<_>>(),
                "st": [p.is_sink(0) as u8, p.is_sink(n + 1) as u8], "crash": ""})
        }
        "prf" => {
            let mut b = ArcBuilder::new(fl(&src), fl(&snk));
            for a in arcs {
                let (i, j) = (us(&a[0]), us(&a[1]));
                let (c, r) = (is(&a[2]) as f64 * unit, is(&a[3]) as f64 * unit);
                if c == r {
                    b.add_arc(i, j, c, true);
                } else {
                    if c > 0.0 || r == 0.0 {
                        b.add_arc(i, j, c, false);
                    }
                    if r > 0.0 {
                        b.add_arc(j, i, r, false);
                    }
                }
            }
            let mut p: PushRelabelFifo<f64> = (b.arcs, n + 2).into();
            p.find_max_flow();
            json!({"sink": (0..n).map(|i| p.is_sink(i + 1) as u8).collect::<Vec<_>>(),
                "st": [p.is_sink(0) as u8, p.is_sink(n + 1) as u8], "crash": ""})
        }
        _ => panic!("HARNESS solver"),
    }
}
