use serde_json::Value;

pub fn us(v: &Value) -> usize {
    v.as_u64().expect("HARNESS usize") as usize
}
pub fn usv(v: &Value) -> Vec<usize> {
    v.as_array().expect("HARNESS array").iter().map(us).collect()
}
pub fn is(v: &Value) -> i64 {
    v.as_i64().expect("HARNESS int")
}

/// Exact coordinate map of a request: model number -> f64.
/// A model number is an integer n or a list [c0, c1, ...] standing for sum c_i 2^(k i);
/// the value is (offset + n) * 2^s.  The map is exact or the harness refuses.
pub struct Map {
    k: u32,
    s: i32,
    off: i128,
}

impl Map {
    pub fn of(req: &Value) -> Map {
        Map {
            k: req["k"].as_u64().unwrap_or(30) as u32,
            s: req["s"].as_i64().unwrap_or(0) as i32,
            off: req["off"].as_i64().unwrap_or(0) as i128,
        }
    }
    pub fn int(&self, v: &Value) -> i128 {
        match v {
            Value::Array(a) => a
                .iter()
                .enumerate()
                .map(|(i, c)| (is(c) as i128) << (self.k * i as u32))
                .sum(),
            _ => is(v) as i128,
        }
    }
    pub fn num(&self, v: &Value) -> f64 {
        let n = self.int(v) + self.off;
        let f = n as f64;
        if f as i128 != n {
            panic!("HARNESS inexact {n}");
        }
        let r = f * 2.0f64.powi(self.s);
        if r * 2.0f64.powi(-self.s) != f {
            panic!("HARNESS inexact scale");
        }
        r
    }
    pub fn pt(&self, v: &Value) -> Vec<f64> {
        v.as_array()
            .expect("HARNESS point")
            .iter()
            .map(|c| self.num(c))
            .collect()
    }
    pub fn flat(&self, v: &Value) -> Vec<f64> {
        v.as_array()
            .expect("HARNESS points")
            .iter()
            .flat_map(|p| self.pt(p))
            .collect()
    }
    /// back to the integer model; None if the value is not (close to) a model integer
    pub fn back(&self, x: f64) -> Option<i64> {
        let y = x * 2.0f64.powi(-self.s) - self.off as f64;
        let r = y.round();
        if (y - r).abs() < 1e-6 && r.abs() < 1e9 {
            Some(r as i64)
        } else {
            None
        }
    }
}

pub fn sgn(x: f64) -> i64 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else if x == 0.0 {
        0
    } else {
        9
    }
}

/// f64 -> [sign, exponent, limbs base 2^12 little endian of the 53-bit mantissa]
pub fn f64_parts(x: f64) -> (i64, i64, u64) {
    if x == 0.0 {
        return (0, 0, 0);
    }
    let bits = x.abs().to_bits();
    let e = (bits >> 52) as i64;
    let m = bits & ((1u64 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    (if x < 0.0 { -1 } else { 1 }, e, m)
}
