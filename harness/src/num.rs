//! Numbers on the wire: integers in, small rationals out.
use serde_json::{json, Value};

/// Stands for an undefined (NaN) number in the specification and in the sessions.
pub const UNDEF: i64 = 1_000_000_007;

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not an integer: {v}"))
}
/// An integer of a session as a float, UNDEF being NaN.
pub fn num(v: &Value) -> f64 {
    let i = int(v);
    if i == UNDEF {
        f64::NAN
    } else {
        i as f64
    }
}
/// A rational [n, d] of a session as a float.
pub fn ratf(v: &Value) -> f64 {
    let (n, d) = (int(&v[0]) as f64, int(&v[1]) as f64);
    n / d
}
/// A decimal number written as a string (units and offsets, unknown to the specification).
pub fn unit(v: &Value, default: f64) -> f64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => default,
    }
}
pub fn arr<'a>(v: &'a Value) -> &'a Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {v}"))
}
pub fn us(v: &Value) -> usize {
    int(v) as usize
}

const MAX: f64 = 2_147_000_000.0;
const MAXDEN: f64 = 300_000.0;

/// The small rational a float represents as [num, den]: NaN is [0,0], infinities are [1,0] and
/// [-1,0]; a float that is no small rational has denominator -1.
pub fn rat(v: f64) -> Value {
    rat_tol(v, 4e-13)
}
pub fn rat_tol(v: f64, rel: f64) -> Value {
    if v.is_nan() {
        return json!([0, 0]);
    }
    if v.is_infinite() {
        return json!([if v > 0.0 { 1 } else { -1 }, 0]);
    }
    let tol = rel * v.abs().max(1.0);
    let (mut p0, mut q0, mut p1, mut q1) = (0.0f64, 1.0f64, 1.0f64, 0.0f64);
    let mut x = v;
    for _ in 0..40 {
        let a = x.floor();
        let (p, q) = (a * p1 + p0, a * q1 + q0);
        if q > MAXDEN || p.abs() > MAX {
            break;
        }
        if (v - p / q).abs() <= tol {
            return json!([p as i64, q as i64]);
        }
        (p0, q0, p1, q1) = (p1, q1, p, q);
        let frac = x - a;
        if frac <= 0.0 {
            break;
        }
        x = 1.0 / frac;
    }
    json!([(v * 1000.0).round().clamp(-MAX, MAX) as i64, -1])
}
pub fn rats<'a>(it: impl IntoIterator<Item = &'a f64>) -> Value {
    Value::Array(it.into_iter().map(|v| rat(*v)).collect())
}
