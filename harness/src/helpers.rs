//! Selector, time lookup, numeric helpers, rotation, thresholding.
use crate::attempt;
use crate::num::*;
use ndarray::{Array1, Array2, Array3};
use serde_json::{json, Value};
use upppp_rust::datamanager::verif_hooks as hooks;
use upppp_rust::utilities::{maths, nan_mean, nan_std};
use upppp_rust::{ParticleSelector, Selector};

/// Radius, cloud or density: `ua` = [value of 0, difference of neighbouring ones]; -1 is no restriction.
pub fn attribute(v: &Value, ua: &Value) -> f64 {
    let x = num(v);
    if x == -1.0 {
        x
    } else {
        unit(&ua[0], 0.0) + unit(&ua[1], 1.0) * x
    }
}

pub fn make_selector_t(s: &Value, ut: f64, ua: &Value) -> ParticleSelector {
    if s["default"] == 1 {
        return ParticleSelector::default();
    }
    let floats = |k: &str| arr(&s[k]).iter().map(|v| attribute(v, ua)).collect::<Vec<f64>>();
    ParticleSelector::new(
        (ut * num(&s["time"][0]), ut * num(&s["time"][1])),
        floats("radius"),
        floats("clouds"),
        floats("density"),
        arr(&s["ids"]).iter().map(us).collect(),
    )
}

/// Queries on one selector; the time window may be replaced in between.
pub fn selector(s: &Value) -> Value {
    let (ut, ua) = (unit(&s["ut"], 1.0), &s["ua"]);
    let mut sel = make_selector_t(&s["sel"], ut, ua);
    Value::Array(
        arr(&s["queries"])
            .iter()
            .map(|q| match q["q"].as_str().unwrap() {
                "particle" => json!(sel.is_valid(attribute(&q["r"], ua), attribute(&q["c"], ua), attribute(&q["d"], ua), us(&q["id"]))),
                "time" => json!(sel.timestep_valid(ut * num(&q["t"]))),
                "settime" => {
                    sel.set_time(ut * num(&q["a"]), ut * num(&q["b"]));
                    json!(true)
                }
                x => panic!("harness: {x}"),
            })
            .collect(),
    )
}

/// Index (1-based) of the step found for every queried time; 0 = error, -9 = panic.
pub fn time(s: &Value) -> Value {
    let ut = unit(&s["ut"], 1.0);
    let off = unit(&s["ot"], 0.0);
    let times: Array1<f64> = arr(&s["times"]).iter().map(|t| off + ut * num(t)).collect();
    let stats = hooks::global_stats(Array2::zeros((2, 3)), 1, Array1::zeros(3), times);
    Value::Array(
        arr(&s["queries"])
            .iter()
            .map(|q| match attempt(|| stats.timestep_at_seconds_closest(off + ut * num(q))) {
                Ok(Ok(i)) => json!(i + 1),
                Ok(Err(_)) => json!(0),
                Err(_) => json!(-9),
            })
            .collect(),
    )
}

pub fn helper(s: &Value) -> Value {
    let list = |k: &str| arr(&s[k]).iter().map(num).collect::<Array1<f64>>();
    match s["what"].as_str().unwrap() {
        "stats" => {
            let sh = &s["shape"];
            let a = Array3::from_shape_vec((us(&sh[0]), us(&sh[1]), us(&sh[2])), list("vals").to_vec()).unwrap();
            json!({"mean": rat(nan_mean(&a)), "var": rat_tol(nan_std(&a).powi(2), 1e-12), "nonneg": !(nan_std(&a) < 0.0)})
        }
        "minmax" => {
            let (lo, hi) = maths::minmax(&list("vals"));
            json!([rat(lo), rat(hi)])
        }
        "meshgrid" => {
            let (a, b) = maths::meshgrid(&list("x"), &list("y"));
            json!({"shape": a.shape(), "shape2": b.shape(), "a": rats(a.iter()), "b": rats(b.iter())})
        }
        "meshgrid3d" => {
            let (a, b, c) = maths::meshgrid3d(&list("x"), &list("y"), &list("z"));
            json!({"shape": a.shape(), "shape2": b.shape(), "shape3": c.shape(),
                   "a": rats(a.iter()), "b": rats(b.iter()), "c": rats(c.iter())})
        }
        "flatten2d" => {
            let sh = &s["shape"];
            let a = Array2::from_shape_vec((us(&sh[0]), us(&sh[1])), list("vals").to_vec()).unwrap();
            // also a transposed view, whose memory order is not its logical order
            let t = a.t().to_owned();
            let t2 = a.clone().reversed_axes();
            json!([rats(maths::flatten_2d(&a).iter()), rats(maths::flatten_2d(&t).iter()), rats(maths::flatten_2d(&t2).iter())])
        }
        "flatten3d" => {
            let sh = &s["shape"];
            let a = Array3::from_shape_vec((us(&sh[0]), us(&sh[1]), us(&sh[2])), list("vals").to_vec()).unwrap();
            let t2 = a.clone().reversed_axes();
            json!([rats(maths::flatten_3d(&a).iter()), rats(maths::flatten_3d(&t2).iter())])
        }
        x => panic!("harness: {x}"),
    }
}

#[cfg(feature = "rotate")]
/// Angles are given as [sine, cosine] with rational values, e.g. [0,1], [3/5,4/5].
pub fn rotate(s: &Value) -> Value {
    let v3 = |v: &Value| [num(&v[0]), num(&v[1]), num(&v[2])];
    let angle = |a: &Value| {
        let turns = match &a["turns"] {
            Value::Number(n) => n.as_i64().unwrap() as f64,
            _ => 0.0,
        };
        ratf(&a["sin"]).atan2(ratf(&a["cos"])) + turns * 2.0 * std::f64::consts::PI
    };
    let an = &s["angles"];
    let angles = [angle(&an[0]), angle(&an[1]), angle(&an[2])];
    let p = hooks::rotate_position(v3(&s["pos"]), angles, v3(&s["anchor"]));
    let v = hooks::rotate_velocity(v3(&s["vel"]), angles);
    json!({"pos": p.iter().map(|x| rat_tol(*x, 1e-12)).collect::<Vec<_>>(),
           "vel": v.iter().map(|x| rat_tol(*x, 1e-12)).collect::<Vec<_>>()})
}

#[cfg(feature = "compare")]
pub fn threshold(s: &Value) -> Value {
    use upppp_rust::comparison::verif_hooks as cmp;
    let sh = &s["shape"];
    let vals: Vec<f64> = arr(&s["vals"]).iter().map(num).collect();
    let a = Array3::from_shape_vec((us(&sh[0]), us(&sh[1]), us(&sh[2])), vals).unwrap();
    match attempt(|| cmp::verif_binary_threshold(&a, ratf(&s["q"]))) {
        Ok(b) => json!({"ok": true, "vals": rats(b.iter())}),
        Err(_) => json!({"ok": false, "vals": []}),
    }
}
