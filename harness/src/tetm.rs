use crate::num::*;
use bumpalo::Bump;
use gpf::triangle as gt;
use gpf::triangle::TriFace;
use serde_json::{json, Value};

fn c(x: usize) -> usize {
    x.min(999999)
}

pub fn tet(req: &Value) -> Value {
    let m = Map::of(req);
    let pts = m.flat(&req["pts"]);
    let mut t = gt::tetrahedralize(&pts);
    let nt = t.tets.len();
    let mut o = json!({
        "np": t.n_points,
        "tets": t.tets.iter().map(|x| x.data.map(c)).collect::<Vec<_>>(),
        "nei": t.tets.iter().map(|x| x.nei.iter().map(|f| [c(f.tet), c(f.ver)]).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "p2t": t.p2t.iter().take(t.n_points).map(|&x| c(x)).collect::<Vec<_>>(),
        "hull": (0..nt).map(|i| t.is_hull_tet(i) as u8).collect::<Vec<_>>(),
        "crash": ""
    });
    if req["nav"].as_u64() == Some(1) {
        let mut nav = Vec::new();
        for i in 0..nt {
            let mut row = Vec::new();
            for v in 0..12 {
                let f = TriFace::new(i, v);
                let mut s = TriFace::default();
                t.fsym(&f, &mut s);
                let mut s2 = f.clone();
                t.fsym_self(&mut s2);
                let mut n = f.clone();
                t.fnext_self(&mut n);
                let mut en = TriFace::default();
                gt::enext(&f, &mut en);
                let mut ep = TriFace::default();
                gt::eprev(&f, &mut ep);
                let mut a = f.clone();
                a.enext_self();
                let mut b = f.clone();
                b.eprev_self();
                let mut e = f.clone();
                e.esym_self();
                let mut ne = f.clone();
                ne.enext_esym_self();
                let mut pe = f.clone();
                pe.eprev_esym_self();
                row.push(json!({
                    "v": [c(t.org(&f)), c(t.dest(&f)), c(t.apex(&f)), c(t.oppo(&f))],
                    "fsym": [c(s.tet), s.ver], "fsym2": [c(s2.tet), s2.ver],
                    "fnext": [c(n.tet), n.ver],
                    "enext": en.ver, "eprev": ep.ver, "enext2": a.ver, "eprev2": b.ver,
                    "same": (en.tet == i && ep.tet == i) as u8,
                    "esym": e.ver, "ne": ne.ver, "pe": pe.ver,
                }));
            }
            nav.push(row);
        }
        o["nav"] = json!(nav);
        o["vpivot"] = json!(gt::VPIVOT);
        o["index"] = json!((0..nt)
            .map(|i| (0..=t.n_points).map(|v| t.tets[i].index(v).map(|x| x as i64).unwrap_or(-1)).collect::<Vec<_>>())
            .collect::<Vec<_>>());
    }
    let bump = Bump::new();
    let mut inc = Vec::new();
    let marks = |t: &gt::TetMesh| (0..nt).map(|i| [t.mark_tested(i) as u8, t.infected(i) as u8]).collect::<Vec<_>>();
    let before = marks(&t);
    // a point given again has no tetrahedron, and no star
    let star = |t: &mut gt::TetMesh, v: usize| -> Vec<usize> {
        if t.p2t[v] >= nt {
            return Vec::new();
        }
        t.incident(v, &bump).iter().map(|&x| c(x)).collect()
    };
    if nt > 0 {
        for v in 0..t.n_points {
            inc.push(star(&mut t, v));
        }
        // twice: the first pass must leave no marks behind
        if req["nav"].as_u64() == Some(1) {
            let mut inc2 = Vec::new();
            for v in 0..t.n_points {
                inc2.push(star(&mut t, v));
            }
            o["inc2"] = json!(inc2);
        }
    }
    o["clean"] = json!((before == marks(&t)) as u8);
    o["inc"] = json!(inc);
    o
}

/// The same points tetrahedralized several times: the corners of every tetrahedron, sorted.
pub fn again(req: &Value) -> Value {
    let m = Map::of(req);
    let pts = m.flat(&req["pts"]);
    let runs: Vec<Vec<[usize; 4]>> = (0..us(&req["times"]))
        .map(|_| {
            let t = gt::tetrahedralize(&pts);
            let mut v: Vec<[usize; 4]> = t
                .tets
                .iter()
                .map(|x| {
                    let mut d = x.data.map(c);
                    d.sort_unstable();
                    d
                })
                .collect();
            v.sort_unstable();
            v
        })
        .collect();
    json!({"runs": runs, "crash": ""})
}
