use crate::num::*;
use bumpalo::Bump;
use gpf::predicates as gp;
use gpf::predicates::{ExpansionNum, IntervalNumber, Orientation};
use serde_json::{json, Value};

pub fn ori(o: Orientation) -> i64 {
    match o {
        Orientation::Positive => 1,
        Orientation::Negative => -1,
        Orientation::Zero => 0,
        Orientation::Undefined => 9,
    }
}

/// explicit predicates
pub fn pred(req: &Value) -> Value {
    let m = Map::of(req);
    let bump = Bump::new();
    let a = &bump;
    let f = req["f"].as_str().unwrap();
    let p: Vec<Vec<f64>> = req["pts"].as_array().unwrap().iter().map(|x| m.pt(x)).collect();
    let s = match f {
        "orient2d" => sgn(gp::orient2d(&p[0], &p[1], &p[2], a)),
        "orient3d" => sgn(gp::orient3d(&p[0], &p[1], &p[2], &p[3], a)),
        "orient3d_fast" => sgn(gp::orient3d_fast(&p[0], &p[1], &p[2], &p[3])),
        "incircle" => sgn(gp::incircle(&p[0], &p[1], &p[2], &p[3], a)),
        "insphere" => sgn(gp::insphere(&p[0], &p[1], &p[2], &p[3], &p[4], a)),
        "orient4d" => sgn(gp::orient4d(
            &p[0], &p[1], &p[2], &p[3], &p[4], a, p[0][3], p[1][3], p[2][3], p[3][3], p[4][3],
        )),
        "orient2d_axis" => ori(gp::orient2d_by_axis(&p[0], &p[1], &p[2], us(&req["axis"]), a)),
        _ => panic!("HARNESS f {f}"),
    };
    json!({"sign": s, "crash": ""})
}

/// segment / triangle classification
pub fn cls(req: &Value) -> Value {
    let m = Map::of(req);
    let bump = Bump::new();
    let a = &bump;
    let f = req["f"].as_str().unwrap();
    let p: Vec<Vec<f64>> = req["pts"].as_array().unwrap().iter().map(|x| m.pt(x)).collect();
    let r = match f {
        "same_point" => gp::same_point(&p[0], &p[1]),
        "mis_alignment" => gp::mis_alignment(&p[0], &p[1], &p[2], a),
        "same_half_plane" => gp::same_half_plane(&p[0], &p[1], &p[2], &p[3], a),
        "point_in_inner_segment" => gp::point_in_inner_segment(&p[0], &p[1], &p[2], a),
        "point_in_segment" => gp::point_in_segment(&p[0], &p[1], &p[2], a),
        "point_in_inner_triangle" => gp::point_in_inner_triangle(&p[0], &p[1], &p[2], &p[3], a),
        "point_in_triangle" => gp::point_in_triangle(&p[0], &p[1], &p[2], &p[3], a),
        "inner_segments_cross" => gp::inner_segments_cross(&p[0], &p[1], &p[2], &p[3], a),
        "inner_segment_cross_inner_triangle" => {
            gp::inner_segment_cross_inner_triangle(&p[0], &p[1], &p[2], &p[3], &p[4], a)
        }
        "inner_segment_cross_triangle" => {
            gp::inner_segment_cross_triangle(&p[0], &p[1], &p[2], &p[3], &p[4], a)
        }
        _ => panic!("HARNESS f {f}"),
    };
    json!({"r": r, "crash": ""})
}

pub fn axis(req: &Value) -> Value {
    let m = Map::of(req);
    let bump = Bump::new();
    let p: Vec<Vec<f64>> = req["pts"].as_array().unwrap().iter().map(|x| m.pt(x)).collect();
    // asked, asked about a triangle facing another way (and a tilted one), asked again
    let first = gp::max_comp_in_tri_normal(&p[0], &p[1], &p[2], &bump);
    let rot = |q: &Vec<f64>| vec![q[1], q[2], q[0]];
    gp::max_comp_in_tri_normal(&rot(&p[0]), &rot(&p[1]), &rot(&p[2]), &bump);
    let fresh = Bump::new();
    let again = gp::max_comp_in_tri_normal(&p[0], &p[1], &p[2], &fresh);
    json!({"axis": first, "again": again, "crash": ""})
}

/// a double as [sign, exponent relative to base, limbs base 2^12]
fn limbs(x: f64, base: i64) -> Value {
    let (s, e, mut mant) = f64_parts(x);
    if s == 0 {
        return json!({"s": 0, "l": []});
    }
    let mut sh = e - base;
    while sh < 0 {
        if mant & 1 != 0 {
            panic!("HARNESS limb base");
        }
        mant >>= 1;
        sh += 1;
    }
    // value = mant * 2^sh
    let mut v: Vec<u32> = vec![0; (sh / 12) as usize];
    let mut x = (mant as u128) << (sh % 12);
    while x > 0 {
        v.push((x & 0xfff) as u32);
        x >>= 12;
    }
    json!({"s": s, "l": v})
}

/// expansion arithmetic.  Components are given as [c, e] = c * 2^e with small c.
/// Every value is logged as an exact big integer in units of 2^base.
pub fn exp(req: &Value) -> Value {
    let bump = Bump::new();
    let al = &bump;
    let val = |v: &Value| -> f64 {
        let m: i64 = v[0].as_str().expect("HARNESS mantissa").parse().expect("HARNESS mantissa");
        m as f64 * 2.0f64.powi(is(&v[1]) as i32)
    };
    let ex = |v: &Value| -> Vec<f64> { v.as_array().unwrap().iter().map(val).collect() };
    let a = ex(&req["a"]);
    let b = ex(&req["b"]);
    let base = is(&req["base"]);
    let f = req["f"].as_str().unwrap();
    let r: Vec<f64> = match f {
        "grow" => gp::grow_expansion(&a, b[0], al).to_vec(),
        "growz" => gp::grow_expansion_zeroelim(&a, b[0], al).to_vec(),
        "sum" => gp::expansion_sum(&a, &b, al).to_vec(),
        "fsum" => gp::fast_expansion_sum_zeroelim(&a, &b, al).to_vec(),
        "fdiff" => gp::fast_expansion_diff_zeroelim(&a, &b, al).to_vec(),
        "scale" => gp::scale_expansion_zeroelim(&a, b[0], al).to_vec(),
        "mul" => gp::mul_expansion_zeroelim(&a, &b, al).to_vec(),
        "invert" => {
            let mut c = a.clone();
            gp::expansion_invert(&mut c);
            c
        }
        "opadd" | "opsub" | "opmul" | "opneg" => {
            let x: ExpansionNum = a.clone().into();
            let y: ExpansionNum = b.clone().into();
            // with owned and borrowed operands in turn
            let form = (a.len() + 2 * b.len()) % 4;
            match (f, form) {
                ("opadd", 0) => (&x + &y).vec,
                ("opadd", 1) => (x + &y).vec,
                ("opadd", 2) => (&x + y).vec,
                ("opadd", _) => (x + y).vec,
                ("opsub", 0) => (x - y).vec,
                ("opsub", 1) => (&x - y).vec,
                ("opsub", 2) => (x - &y).vec,
                ("opsub", _) => (&x - &y).vec,
                ("opmul", 0) => (x * &y).vec,
                ("opmul", 1) => (x * y).vec,
                ("opmul", 2) => (&x * &y).vec,
                ("opmul", _) => (&x * y).vec,
                _ => {
                    let mut z = x;
                    z.neg();
                    z.vec
                }
            }
        }
        _ => panic!("HARNESS f {f}"),
    };
    // products live on a grid twice as fine
    let rbase = if matches!(f, "scale" | "mul" | "opmul") { 2 * base } else { base };
    let est = gp::estimate(&r);
    let z: ExpansionNum = r.clone().into();
    json!({
        "a": a.iter().map(|&x| limbs(x, base)).collect::<Vec<_>>(),
        "b": b.iter().map(|&x| limbs(x, base)).collect::<Vec<_>>(),
        "r": r.iter().map(|&x| limbs(x, rbase)).collect::<Vec<_>>(),
        "last": r.last().map(|&x| sgn(x)).unwrap_or(8),
        "est": sgn(est),
        "neg": if r.is_empty() { 8 } else { z.negative() as i64 },
        "nz": if r.is_empty() { 8 } else { z.not_zero() as i64 },
        "crash": ""
    })
}

/// interval arithmetic: an expression tree over intervals [lo, hi] with exact integer ends.
/// Observed: the sign queries of the result and of (result - m) for every probe m.
pub fn iv(req: &Value) -> Value {
    let m = Map::of(req);
    let turn = std::cell::Cell::new(req["id"].as_u64().unwrap_or(0));
    fn ev(m: &Map, e: &Value, turn: &std::cell::Cell<u64>) -> IntervalNumber {
        let op = e[0].as_str().unwrap();
        if matches!(op, "+" | "-" | "*") {
            // with owned and borrowed operands in turn
            let (a, b) = (ev(m, &e[1], turn), ev(m, &e[2], turn));
            turn.set(turn.get() + 1);
            return match (op, turn.get() % 4) {
                ("+", 0) => a + b,
                ("+", 1) => a + &b,
                ("+", 2) => &a + b,
                ("+", _) => &a + &b,
                ("-", 0) => a - b,
                ("-", 1) => a - &b,
                ("-", 2) => &a - b,
                ("-", _) => &a - &b,
                (_, 0) => a * b,
                (_, 1) => a * &b,
                (_, 2) => &a * b,
                (_, _) => &a * &b,
            };
        }
        match op {
            "n" => IntervalNumber::new(m.num(&e[1]), m.num(&e[2])),
            "f" => m.num(&e[1]).into(),
            "neg" => {
                let mut x = ev(m, &e[1], turn);
                x.neg();
                x
            }
            _ => panic!("HARNESS iv"),
        }
    }
    let q = |x: &IntervalNumber| json!([x.positive() as u8, x.negative() as u8, x.not_zero() as u8]);
    let x = ev(&m, &req["e"], &turn);
    // are the two operands one interval?  9: they are no leaves
    let leaf = |e: &Value| matches!(e[0].as_str(), Some("n" | "f"));
    let eq = if leaf(&req["e"][1]) && leaf(&req["e"][2]) {
        (ev(&m, &req["e"][1], &turn) == ev(&m, &req["e"][2], &turn)) as u8
    } else {
        9
    };
    let probes: Vec<Value> = req["probes"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let d = &x - IntervalNumber::from(m.num(p));
            q(&d)
        })
        .collect();
    json!({"q": q(&x), "probes": probes, "eq": eq, "crash": ""})
}
