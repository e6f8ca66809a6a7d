//! Analyses of a dataset through the public traits, on an in-memory data manager.
use crate::attempt;
use crate::grids::{cells, dirty, make, Frame};
use crate::helpers::{attribute, make_selector_t};
use crate::num::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Map, Value};
#[cfg(feature = "compare")]
use upppp_rust::comparison::{verif_hooks as cmp, Comparison};
use upppp_rust::datamanager::verif_hooks as hooks;
use upppp_rust::datamanager::{DataManager, GlobalStats, Manager, Timestep};
use upppp_rust::{GridFunctions3D, ParticleSelector};

#[derive(Clone)]
pub struct Memory {
    steps: Vec<Timestep>,
    dims: Array2<f64>,
    nparticles: usize,
    vmag: Array1<f64>,
    times: Array1<f64>,
    /// set up in the order of their use, as the real managers require it
    buffers: usize,
}
impl DataManager for Memory {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep {
        &self.steps[timestep]
    }
    fn global_stats(&self) -> GlobalStats {
        hooks::global_stats(self.dims.clone(), self.nparticles, self.vmag.clone(), self.times.clone())
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep {
        self.steps[timestep].clone()
    }
    fn setup_buffer(&mut self, id: usize) {
        self.buffers = self.buffers.max(id + 1);
    }
    fn get_timestep_buffer(&mut self, timestep: usize, buffer: usize) -> &Timestep {
        assert!(buffer < self.buffers, "buffer was not set up");
        &self.steps[timestep]
    }
    fn info(&self) -> Result<String, &'static str> {
        Ok(String::new())
    }
    fn set_rotation_angle(&mut self, _: f64, _: f64) {}
    fn set_rotation_anker(&mut self, _: [f64; 3]) {}
}
impl Manager for Memory {}

struct Units {
    ua: Value,
    f: Frame,
    uv: f64,
    ut: f64,
}

fn dataset(ds: &Value, un: &Units) -> Memory {
    let mut steps = vec![];
    let mut times = vec![];
    let mut nparticles = 0;
    for s in arr(&ds["steps"]) {
        let parts = arr(&s["parts"]);
        let n = parts.len();
        nparticles = nparticles.max(n);
        let col = |k: &str| parts.iter().map(|q| num(&q[k])).collect::<Array1<f64>>();
        let attr = |k: &str| parts.iter().map(|q| attribute(&q[k], &un.ua)).collect::<Array1<f64>>();
        let vel: Vec<f64> = parts.iter().flat_map(|q| (0..3).map(|a| un.uv * num(&q["v"][a])).collect::<Vec<_>>()).collect();
        let time = un.ut * num(&s["t"]);
        times.push(time);
        steps.push(hooks::timestep(
            time,
            parts.iter().map(|q| un.f.pos(&q["p"])).collect(),
            Array2::from_shape_vec((n, 3), vel).unwrap(),
            attr("r"),
            col("id"),
            attr("c"),
            attr("d"),
            col("ty"),
        ));
    }
    let d = &ds["dims"];
    let dims: Vec<f64> = (0..2).flat_map(|k| (0..3).map(move |a| (k, a))).map(|(k, a)| un.f.coord(a, &d[a][k])).collect();
    Memory {
        steps,
        dims: Array2::from_shape_vec((2, 3), dims).unwrap(),
        nparticles,
        vmag: arr(&ds["vmag"]).iter().map(|v| un.uv * num(v)).collect(),
        times: Array1::from(times),
        buffers: 0,
    }
}

fn units(s: &Value) -> Units {
    Units { ua: s["ua"].clone(), f: Frame::of(s), uv: unit(&s["uv"], 1.0), ut: unit(&s["ut"], 1.0) }
}

fn field(g: &dyn GridFunctions3D, scale: f64, square: bool) -> Value {
    let vals: Vec<f64> = g.get_data().iter().map(|v| v / scale).collect();
    if square {
        let nonneg = !vals.iter().any(|v| *v < 0.0);
        let sq: Vec<f64> = vals.iter().map(|v| v * v).collect();
        json!({"cells": g.get_cells(), "val": rats(&sq), "wt": rats(g.get_weights()), "nonneg": nonneg})
    } else {
        json!({"cells": g.get_cells(), "val": rats(&vals), "wt": rats(g.get_weights())})
    }
}

fn one<T: Manager>(m: &mut T, o: &Value, un: &Units) -> Value {
    let empty = json!({"default": 1});
    let sel: ParticleSelector = make_selector_t(if o["sel"].is_object() { &o["sel"] } else { &empty }, un.ut, &un.ua);
    let mut grid = if o["g"].is_object() {
        make(&o["g"], &un.f)
    } else {
        make(&json!({"kind":"cart","cells":[1,1,1],"lim":[[0,1],[0,1],[0,1]]}), &un.f)
    };
    if o["dirty"] == 1 {
        dirty(&mut grid);
    }
    let (u, uv, ut) = (un.f.u, un.uv, un.ut);
    let _ = cells;
    match o["op"].as_str().unwrap() {
        "velocity" => {
            let f = m.velocityfield(grid, &sel, o["mode"].as_str().unwrap(), uv * num(&o["vmin"]), uv * num(&o["vmax"]));
            field(f.as_ref(), uv, false)
        }
        "vector" => {
            let f = m.vectorfield(grid, &sel);
            let cyl = o["g"]["kind"] == "cyl";
            json!([
                field(f.data[0].as_ref(), uv, false),
                field(f.data[1].as_ref(), if cyl { uv / u } else { uv }, false),
                field(f.data[2].as_ref(), uv, false)
            ])
        }
        "number" => field(m.numberfield(grid, &sel).as_ref(), 1.0, false),
        "occupancy" => field(m.occupancyfield(grid, &sel, uv * num(&o["vmin"])).as_ref(), 1.0, false),
        "homogeneity" => {
            let h = m.homogenity_index(grid, &sel, uv * num(&o["vmin"]));
            json!({"sq": rat(h * h), "nonneg": !(h < 0.0)})
        }
        "showcase" => rat(m.mean_velocity_showcase(&sel) / uv),
        "meanvel" => rat(m.mean_velocity(&sel) / uv),
        "gtemp" => field(m.granular_temperature_field(grid, &sel, o["mode"].as_str().unwrap()).as_ref(), uv, true),
        "dispersion" => {
            let (f, eff) = m.dispersion(grid, &sel, ut * num(&o["lag"]));
            json!({"field": field(f.as_ref(), u * u, false), "eff": rat(eff / (u * u))})
        }
        "msdfield" => field(m.msd_field(grid, &sel, ut * num(&o["lag"])).as_ref(), u * u, false),
        "msd" => {
            let (msd, time) = m.msd(grid, &sel, ut * num(&o["lag"]), ut * num(&o["lag2"]), us(&o["steps"]));
            let msd: Vec<f64> = msd.iter().map(|x| x / (u * u)).collect();
            let time: Vec<f64> = time.iter().map(|x| x / ut).collect();
            json!({"msd": rats(&msd), "lags": rats(&time)})
        }
        "histogram" => {
            let (h, e) = m.histogram(grid, &sel, o["prop"].as_str().unwrap(), uv * num(&o["vmax"]), us(&o["bins"]));
            let e: Vec<f64> = e.iter().map(|x| x / uv).collect();
            json!({"counts": rats(h.iter()), "edges": rats(&e)})
        }
        "concentration" => {
            let f = m.concentration_field(grid, &sel, us(&o["ta"]), us(&o["tb"]));
            field(f.as_ref(), 1.0, false)
        }
        "lacey" => {
            let (t, l) = m.lacey_mixing(grid, &sel, us(&o["ta"]), us(&o["tb"]), us(&o["thr"]));
            let t: Vec<f64> = t.iter().map(|x| x / ut).collect();
            json!({"times": rats(&t), "index": rats(l.iter())})
        }
        "extract" => {
            let e = m.extract(us(&o["particle"]), (us(&o["from"]), us(&o["to"])));
            Value::Array(
                e.outer_iter()
                    .map(|row| {
                        let mut r: Vec<f64> = row.to_vec();
                        if r.len() == 7 {
                            r[0] /= ut;
                            for a in 0..3 {
                                r[1 + a] = un.f.back(a, r[1 + a]);
                                r[4 + a] /= uv;
                            }
                        }
                        rats(&r)
                    })
                    .collect(),
            )
        }
        "circ" => {
            let a = us(&o["axis"]) - 1;
            let v: Vec<f64> = m.circulation_time(&sel, a, un.f.coord(a, &o["b"])).iter().map(|t| t / ut).collect();
            rats(&v)
        }
        "circ2" => {
            let a = us(&o["axis"]) - 1;
            let v = m.circulation_time_two_boundary(&sel, a, (un.f.coord(a, &o["b"]), un.f.coord(a, &o["b2"])));
            Value::Array(v.iter().map(|(x, y)| json!([rat(x / ut), rat(y / ut)])).collect())
        }
        x => panic!("harness: unknown analysis {x}"),
    }
}

/// Several analyses, one after the other, on the same dataset.
pub fn run(s: &Value) -> Value {
    let un = units(s);
    let mut m = dataset(&s["ds"], &un);
    let before = format!("{:?}", m.steps);
    let mut res = vec![];
    for o in arr(&s["ops"]) {
        m.buffers = 0;
        let r = attempt(|| one(&mut m, o, &un));
        let mut e = Map::new();
        e.insert("ok".into(), json!(r.is_ok()));
        e.insert("res".into(), r.unwrap_or(json!([])));
        e.insert("intact".into(), json!(format!("{:?}", m.steps) == before));
        res.push(Value::Object(e));
    }
    Value::Array(res)
}

#[cfg(feature = "compare")]
struct Any;
#[cfg(feature = "compare")]
impl Comparison for Any {
    fn align(&mut self) {}
}

/// Comparison of two datasets on one grid.
#[cfg(feature = "compare")]
pub fn compare(s: &Value) -> Value {
    let un = units(s);
    let a = dataset(&s["ds"], &un);
    let b = dataset(&s["ds2"], &un);
    let mut grid = make(&s["g"], &un.f);
    if s["dirty"] == 1 {
        dirty(&mut grid);
    }
    let g = &s["g"];
    let lim = un.f.lim(g);
    let dim = Array2::from_shape_vec((2, 3), (0..2).flat_map(|k| (0..3).map(move |ax| (k, ax))).map(|(k, ax)| lim[ax][k]).collect()).unwrap();
    let made = attempt(|| {
        let m = cmp::verif_make_grid(&dim, if g["kind"] == "cart" { "cartesian" } else { "cylindrical" }, cells(g));
        let same = m.get_limits() == grid.get_limits()
            && m.get_cells() == grid.get_cells()
            && m.is_cylindrical() == grid.is_cylindrical();
        let fresh = m.get_data().iter().chain(m.get_weights().iter()).all(|x| *x == 0.0);
        same && fresh
    });
    let refused = attempt(|| cmp::verif_make_grid(&dim, "polar", cells(g))).is_err();
    let r = attempt(|| {
        let mut c = Any.compare(Box::new(a.clone()), Box::new(b.clone()), grid);
        let (x, y) = cmp::verif_velocityfield(&mut c, s["mode"].as_str().unwrap(), un.uv * num(&s["vmin"]), un.uv * num(&s["vmax"]));
        let sc = |v: &Array1<f64>| v.iter().map(|z| rat(z / un.uv)).collect::<Vec<_>>();
        json!([sc(&x), sc(&y)])
    });
    json!({"made": made.unwrap_or(false), "refused": refused, "ok": r.is_ok(), "res": r.unwrap_or(json!([[], []]))})
}
