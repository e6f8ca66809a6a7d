//! Sequences of reads on the HDF5 data managers.
//!
//! The file of a session is a record of steps and particles: either listed, or (`gen`) given by the
//! formula of the specification: value a of particle k at step t is (a + 1) * t + 7 * k + a.
use crate::attempt;
use crate::num::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use upppp_rust::datamanager::{DataManager, PData, TData, Timestep};

/// Attributes of one particle at one step, in the order of the formula.
pub const ATTRS: [&str; 11] = ["p0", "p1", "p2", "v0", "v1", "v2", "r", "d", "c", "ty", "id"];

pub struct Record {
    pub time: Vec<f64>,
    /// [step][particle][attribute]
    pub parts: Vec<Vec<[f64; 11]>>,
}
pub fn record(f: &Value) -> Record {
    if f["gen"].is_object() {
        let (t, n) = (us(&f["gen"]["t"]), us(&f["gen"]["n"]));
        let parts = (0..t)
            .map(|t| {
                (0..n)
                    .map(|k| {
                        let mut x = [0.0; 11];
                        for (a, v) in x.iter_mut().enumerate() {
                            *v = ((a + 1) * t + 7 * k + a) as f64;
                        }
                        x
                    })
                    .collect()
            })
            .collect();
        return Record { time: (0..t).map(|t| (3 * t + 1) as f64).collect(), parts };
    }
    let steps = arr(&f["steps"]);
    Record {
        time: steps.iter().map(|s| num(&s["t"])).collect(),
        parts: steps
            .iter()
            .map(|s| {
                arr(&s["parts"])
                    .iter()
                    .map(|q| {
                        let mut x = [0.0; 11];
                        for a in 0..3 {
                            x[a] = num(&q["p"][a]);
                            x[3 + a] = num(&q["v"][a]);
                        }
                        for a in 6..11 {
                            x[a] = num(&q[ATTRS[a]]);
                        }
                        x
                    })
                    .collect()
            })
            .collect(),
    }
}

fn data(g: &hdf5::Group, name: &str, v: &[f64], int: bool) {
    let b = g.new_dataset_builder();
    if int {
        let w: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        b.with_data(&w).create(name).unwrap();
    } else {
        b.with_data(v).create(name).unwrap();
    }
}
fn triples(g: &hdf5::Group, name: &str, rows: impl Iterator<Item = [f64; 3]>) {
    let v: Vec<f64> = rows.flatten().collect();
    let a = Array2::from_shape_vec((v.len() / 3, 3), v).unwrap();
    g.new_dataset_builder().with_data(&a).create(name).unwrap();
}
fn has(f: &Value, name: &str) -> bool {
    f["without"].as_array().map(|w| !w.iter().any(|x| x == name)).unwrap_or(true)
}

pub fn write(s: &Value, name: &str) {
    let f = &s["file"];
    let rec = record(f);
    let file = hdf5::File::create(name).unwrap();
    let st = &f["stats"];
    let ints = f["ints"] == 1;
    let get = |v: &Value| -> Vec<f64> { arr(v).iter().map(num).collect() };
    let a2 = |v: &Value, r: usize, c: usize| Array2::from_shape_vec((r, c), arr(v).iter().flat_map(get).collect()).unwrap();
    file.new_attr_builder().with_data(&a2(&st["dims"], 2, 3)).create("dimensions").unwrap();
    file.new_attr_builder().with_data(&a2(&st["vel"], 3, 3)).create("velocity").unwrap();
    file.new_attr_builder().with_data(&Array1::from(get(&st["vmag"]))).create("velocity magnitude").unwrap();
    file.new_attr_builder().with_data(&Array1::from(get(&st["time"]))).create("time").unwrap();
    file.new_attr::<u64>().create("particle number").unwrap().write_scalar(&us(&st["n"])).unwrap();
    file.new_attr::<u64>().create("timesteps").unwrap().write_scalar(&rec.time.len()).unwrap();
    file.new_attr::<f64>().create("sample rate").unwrap().write_scalar(&num(&st["rate"])).unwrap();
    file.new_dataset_builder().with_data(&rec.time).create("time array").unwrap();
    let names = ["radius", "density", "ppcloud", "particletype", "id"];
    if s["mgr"] == "t" {
        for (t, parts) in rec.parts.iter().enumerate() {
            let g = file.create_group(&format!("timestep {t}")).unwrap();
            g.new_dataset::<f64>().create("time").unwrap().write_scalar(&rec.time[t]).unwrap();
            triples(&g, "position", parts.iter().map(|x| [x[0], x[1], x[2]]));
            triples(&g, "velocity", parts.iter().map(|x| [x[3], x[4], x[5]]));
            for (k, n) in names.iter().enumerate() {
                if has(f, n) {
                    let v: Vec<f64> = parts.iter().map(|x| x[6 + k]).collect();
                    data(&g, n, &v, ints && k >= 2);
                }
            }
        }
    } else {
        for k in 0..us(&st["n"]) {
            let g = file.create_group(&format!("particle {k}")).unwrap();
            // the time axis is that of the first particle
            let time: Vec<f64> = rec.time.iter().map(|t| if k == 0 { *t } else { *t + 1000.0 * k as f64 }).collect();
            data(&g, "time", &time, false);
            triples(&g, "position", rec.parts.iter().map(|s| [s[k][0], s[k][1], s[k][2]]));
            triples(&g, "velocity", rec.parts.iter().map(|s| [s[k][3], s[k][4], s[k][5]]));
            for (a, n) in names.iter().enumerate() {
                if has(f, n) {
                    let v: Vec<f64> = rec.parts.iter().map(|s| s[k][6 + a]).collect();
                    data(&g, n, &v, ints && a >= 2);
                }
            }
        }
    }
}

pub fn step(s: &Timestep, u: f64, ut: f64) -> Value {
    step_with(s, u, ut, &rat)
}
pub fn step_with(s: &Timestep, u: f64, ut: f64, q: &dyn Fn(f64) -> Value) -> Value {
    let uv = if ut == 1.0 && u == 1.0 { 1.0 } else { u / ut };
    let n = s.position().len();
    let parts: Vec<Value> = (0..n)
        .map(|k| {
            let p = s.position()[k];
            json!({
                "p": [q(p[0] / u), q(p[1] / u), q(p[2] / u)],
                "v": (0..3).map(|a| q(s.velocity()[[k, a]] / uv)).collect::<Vec<_>>(),
                "r": q(s.radius()[k]), "d": q(s.density()[k]), "c": q(s.clouds()[k]),
                "ty": q(s.ptype()[k]), "id": q(s.particleid()[k]),
            })
        })
        .collect();
    let sizes = [s.velocity().nrows(), s.radius().len(), s.density().len(), s.clouds().len(), s.ptype().len(), s.particleid().len()];
    json!({"ok": sizes.iter().all(|x| *x == n), "t": q(*s.time() / ut), "parts": parts})
}
pub fn stats(m: &dyn DataManager, u: f64, ut: f64) -> Value {
    let uv = if ut == 1.0 && u == 1.0 { 1.0 } else { u / ut };
    let g = m.global_stats();
    let rows = |a: &Array2<f64>, w: f64| -> Value {
        Value::Array(a.rows().into_iter().map(|r| Value::Array(r.iter().map(|v| rat(v / w)).collect())).collect())
    };
    let list = |a: &Array1<f64>, w: f64| -> Value { Value::Array(a.iter().map(|v| rat(v / w)).collect()) };
    json!({
        "ok": true, "dims": rows(g.dimensions(), u), "vel": rows(g.velocity(), uv), "n": *g.nparticles(), "steps": *g.timesteps(),
        "time": [rat(*g.min_time() / ut), rat(*g.max_time() / ut)], "rate": rat(*g.sample_rate() / ut),
        "vmag": list(g.velocity_mag(), uv), "axis": list(g.time_array(), ut),
    })
}

pub fn open(kind: &str, name: &str) -> Box<dyn DataManager> {
    if kind == "t" {
        Box::new(TData::new(name))
    } else {
        Box::new(PData::new(name))
    }
}
/// A sequence of calls; the data manager keeps the state a panic left it in.
pub fn calls(m: &mut dyn DataManager, list: &[Value], u: f64, ut: f64) -> Vec<Value> {
    list.iter()
        .map(|c| {
            let r = attempt(|| match c["c"].as_str().unwrap() {
                "get" => step(m.get_timestep(us(&c["t"])), u, ut),
                "single" => step(&m.get_timestep_unbuffered(us(&c["t"])), u, ut),
                "setup" => {
                    m.setup_buffer(us(&c["b"]));
                    json!({"ok": true})
                }
                "buffer" => step(m.get_timestep_buffer(us(&c["t"]), us(&c["b"])), u, ut),
                "stats" => stats(&*m, u, ut),
                x => panic!("harness: unknown call {x}"),
            });
            r.unwrap_or(json!({"ok": false}))
        })
        .collect()
}

pub fn run(s: &Value) -> Value {
    write(s, "session.hdf5");
    let mgr = s["mgr"].as_str().unwrap();
    match attempt(|| open(mgr, "session.hdf5")) {
        Ok(mut m) => json!({"ok": true, "res": calls(m.as_mut(), arr(&s["calls"]), 1.0, 1.0)}),
        Err(_) => json!({"ok": false, "res": []}),
    }
}
