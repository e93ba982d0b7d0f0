use crate::num::*;
use bumpalo::Bump;
use gpf::mesh::*;
use serde_json::{json, Value};

const BAD: usize = 999999;
fn id(x: usize) -> usize {
    if x > 900000 {
        BAD
    } else {
        x
    }
}

/// iterate at most `cap` items: an endless iterator is observed as an over-long one
fn lim<I: Iterator<Item = usize>>(it: I, cap: usize) -> Vec<usize> {
    it.take(cap).map(id).collect()
}

fn snap(m: &SurfaceMesh) -> Value {
    let nh = m.n_halfedges_capacity();
    let cap = 2 * nh + 4;
    let hs: Vec<HalfedgeId> = (0..nh).map(HalfedgeId).collect();
    let he = |f: &dyn Fn(HalfedgeId) -> usize| hs.iter().map(|&h| id(f(h))).collect::<Vec<_>>();
    let nv = m.n_vertices_capacity();
    let valid: Vec<u8> = (0..nv).map(|v| m.vertex_is_valid(VertexId(v)) as u8).collect();
    let pv = |f: &dyn Fn(VertexId) -> Vec<usize>| -> Vec<Vec<usize>> {
        (0..nv)
            .map(|v| {
                if m.vertex_is_valid(VertexId(v)) {
                    f(VertexId(v))
                } else {
                    vec![]
                }
            })
            .collect()
    };
    let ne = m.n_edges_capacity();
    let nf = m.n_faces_capacity();
    json!({
        "nv": m.n_vertices(), "nh": m.n_halfedges(), "ne": m.n_edges(), "nf": m.n_faces(),
        "cv": nv, "ch": nh, "ce": <SurfaceMesh as Mesh>::n_edges_capacity(m), "cf": nf, "ce2": ne,
        "valid": valid,
        "from": he(&|h| m.he_vertex(h).0),
        "tip": he(&|h| m.he_tip_vertex(h).0),
        "next": he(&|h| m.he_next(h).0),
        "prev": he(&|h| m.he_prev(h).0),
        "twin": he(&|h| m.he_twin(h).0),
        "sib": he(&|h| m.he_sibling(h).0),
        "nin": he(&|h| m.he_next_incoming_neighbor(h).0),
        "nout": he(&|h| m.he_next_outgoing_neighbor(h).0),
        "edge": he(&|h| m.he_edge(h).0),
        "face": he(&|h| m.he_face(h).0),
        "same": he(&|h| m.he_same_dir(h) as usize),
        "eh": (0..ne).map(|e| id(m.e_halfedge(EdgeId(e)).0)).collect::<Vec<_>>(),
        "ev": (0..ne).map(|e| m.e_vertices(EdgeId(e)).map(|v| id(v.0))).collect::<Vec<_>>(),
        "fh": (0..nf).map(|f| id(m.f_halfedge(FaceId(f)).0)).collect::<Vec<_>>(),
        "vh": (0..nv).map(|v| id(m.v_halfedge(VertexId(v)).0)).collect::<Vec<_>>(),
        "itv": lim(m.vertices().map(|v| v.0), cap),
        "ite": lim(m.edges().map(|v| v.0), cap),
        "itf": lim(m.faces().map(|v| v.0), cap),
        "ith": lim(m.halfedges().map(|v| v.0), cap),
        "vv": pv(&|v| lim(m.vertex(v).vertices().map(|x| x.0), cap)),
        "ve": pv(&|v| lim(m.vertex(v).edges().map(|x| x.0), cap)),
        "vin": pv(&|v| lim(m.vertex(v).incoming_halfedges().map(|x| x.0), cap)),
        "vout": pv(&|v| lim(m.vertex(v).outgoing_halfedges().map(|x| x.0), cap)),
        "vi1": pv(&|v| vec![id(m.vertex(v).in_halfedge().0), id(m.vertex(v).out_halfedge().0)]),
        "ehs": (0..ne).map(|e| lim(m.edge(EdgeId(e)).halfedges().map(|x| x.0), cap)).collect::<Vec<_>>(),
        "fhs": (0..nf).map(|f| lim(m.face(FaceId(f)).halfedges().map(|x| x.0), cap)).collect::<Vec<_>>(),
        "fvs": (0..nf).map(|f| lim(m.face(FaceId(f)).vertices().map(|x| x.0), cap)).collect::<Vec<_>>(),
    })
}

/// An operation of the request names its operands abstractly (indices taken modulo what is there);
/// the concrete operands are logged.
pub fn mesh(req: &Value) -> Value {
    let polys: Vec<Vec<usize>> = req["polys"].as_array().unwrap().iter().map(usv).collect();
    let bump = Bump::new();
    let mut m = SurfaceMesh::new(&polys);
    let mut steps = vec![json!({"act": "new", "args": [], "ret": 0, "st": snap(&m)})];
    for op in req["ops"].as_array().unwrap() {
        let kind = op[0].as_str().unwrap();
        match kind {
            "se" => {
                let e = us(&op[1]) % m.n_edges();
                let v = m.split_edge(EdgeId(e), &bump);
                steps.push(json!({"act": "se", "args": [e], "ret": id(v.0), "st": snap(&m)}));
            }
            "sf" => {
                let f = us(&op[1]) % m.n_faces();
                let vs: Vec<usize> = m.face(FaceId(f)).vertices().take(64).map(|v| v.0).collect();
                let n = vs.len();
                // both corners must be simple (the vertex occurs once in the loop) and not adjacent
                let once = |x: usize| vs.iter().filter(|&&y| y == x).count() == 1;
                let mut pairs = vec![];
                for i in 0..n {
                    for j in 0..n {
                        if i != j && (i + 1) % n != j && (j + 1) % n != i && once(vs[i]) && once(vs[j]) {
                            pairs.push((vs[i], vs[j]));
                        }
                    }
                }
                if pairs.is_empty() {
                    continue;
                }
                let (a, b) = pairs[us(&op[2]) % pairs.len()];
                let h = m.split_face(FaceId(f), VertexId(a), VertexId(b), &bump);
                steps.push(json!({"act": "sf", "args": [f, a, b], "ret": id(h.0), "st": snap(&m)}));
            }
            "af" => {
                // a vertex-simple closed walk over existing half-edges, driven by the request's picks
                let picks = usv(&op[2]);
                let h0 = us(&op[1]) % m.n_halfedges();
                let start = m.he_vertex(HalfedgeId(h0)).0;
                let mut walk = vec![h0];
                let mut seen = vec![start];
                let mut k = 0;
                let ok = loop {
                    let last = HalfedgeId(*walk.last().unwrap());
                    let tip = m.he_tip_vertex(last).0;
                    if tip == start {
                        break true;
                    }
                    if seen.contains(&tip) || walk.len() > 12 {
                        break false;
                    }
                    seen.push(tip);
                    let mut outs: Vec<usize> = (0..m.n_halfedges())
                        .filter(|&h| m.he_vertex(HalfedgeId(h)).0 == tip)
                        .filter(|&h| {
                            let t = m.he_tip_vertex(HalfedgeId(h)).0;
                            t == start || !seen.contains(&t)
                        })
                        .collect();
                    outs.sort();
                    if outs.is_empty() {
                        break false;
                    }
                    // close the loop as soon as possible once it has three sides
                    let close: Vec<usize> = outs
                        .iter()
                        .copied()
                        .filter(|&h| m.he_tip_vertex(HalfedgeId(h)).0 == start)
                        .collect();
                    let pk = picks[k % picks.len()];
                    k += 1;
                    if walk.len() >= 2 && !close.is_empty() {
                        walk.push(close[pk % close.len()]);
                    } else {
                        let open: Vec<usize> = outs
                            .iter()
                            .copied()
                            .filter(|&h| m.he_tip_vertex(HalfedgeId(h)).0 != start)
                            .collect();
                        if open.is_empty() {
                            break false;
                        }
                        walk.push(open[pk % open.len()]);
                    }
                };
                // fall back on the half-edge's own face loop
                if !ok {
                    walk = vec![];
                    let mut h = h0;
                    loop {
                        walk.push(h);
                        h = m.he_next(HalfedgeId(h)).0;
                        if h == h0 || walk.len() > 64 {
                            break;
                        }
                    }
                }
                let hs: Vec<HalfedgeId> = walk.iter().map(|&h| HalfedgeId(h)).collect();
                let f = m.add_face_by_halfedges(&hs, &bump);
                steps.push(json!({"act": "af", "args": walk, "ret": id(f.0), "st": snap(&m)}));
            }
            // the same operations with their operands given by vertices
            "SE" => {
                let (a, b) = (us(&op[1]), us(&op[2]));
                let Some(e) = (0..m.n_edges()).find(|&e| {
                    let v = m.e_vertices(EdgeId(e));
                    (v[0].0 == a && v[1].0 == b) || (v[0].0 == b && v[1].0 == a)
                }) else {
                    steps.push(json!({"act": "lost", "args": [], "ret": 0, "st": snap(&m)}));
                    continue;
                };
                let v = m.split_edge(EdgeId(e), &bump);
                steps.push(json!({"act": "se", "args": [e], "ret": id(v.0), "st": snap(&m)}));
            }
            "SF" => {
                let (f, a, b) = (us(&op[1]), us(&op[2]), us(&op[3]));
                // either part may have kept the number of a face that was split before
                let has = |f: usize, x: usize| m.face(FaceId(f)).vertices().take(64).any(|v| v.0 == x);
                let apart = |f: usize| {
                    let vs: Vec<usize> = m.face(FaceId(f)).vertices().take(64).map(|v| v.0).collect();
                    let (Some(i), Some(j)) = (vs.iter().position(|&x| x == a), vs.iter().position(|&x| x == b)) else { return false };
                    (i + 1) % vs.len() != j && (j + 1) % vs.len() != i
                };
                let f = if has(f, a) && has(f, b) && apart(f) { f } else {
                    match (0..m.n_faces()).find(|&f| apart(f)) {
                        Some(f) => f,
                        None => {
                            steps.push(json!({"act": "lost", "args": [], "ret": 0, "st": snap(&m)}));
                            continue;
                        }
                    }
                };
                let h = m.split_face(FaceId(f), VertexId(a), VertexId(b), &bump);
                steps.push(json!({"act": "sf", "args": [f, a, b], "ret": id(h.0), "st": snap(&m)}));
            }
            "AF" => {
                let vs = usv(&op[1]);
                let n = vs.len();
                let hs: Vec<Option<usize>> = (0..n)
                    .map(|i| {
                        (0..m.n_halfedges()).find(|&h| {
                            m.he_vertex(HalfedgeId(h)).0 == vs[i]
                                && m.he_tip_vertex(HalfedgeId(h)).0 == vs[(i + 1) % n]
                        })
                    })
                    .collect();
                if hs.iter().any(|h| h.is_none()) {
                    steps.push(json!({"act": "lost", "args": [], "ret": 0, "st": snap(&m)}));
                    continue;
                }
                let walk: Vec<usize> = hs.into_iter().map(|h| h.unwrap()).collect();
                let hs: Vec<HalfedgeId> = walk.iter().map(|&h| HalfedgeId(h)).collect();
                let f = m.add_face_by_halfedges(&hs, &bump);
                steps.push(json!({"act": "af", "args": walk, "ret": id(f.0), "st": snap(&m)}));
            }
            x => panic!("HARNESS op {x}"),
        }
    }
    json!({"steps": steps, "crash": ""})
}
