//! Grid geometry, grid operations.
use crate::num::*;
use crate::attempt;
use ndarray::{Array2, Array3};
use serde_json::{json, Map, Value};
use upppp_rust::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, VectorGrid};

/// Where the lattice of a session lies: coordinate = origin + unit * lattice.
pub struct Frame {
    pub u: f64,
    pub off: [f64; 3],
}
impl Frame {
    pub fn of(s: &Value) -> Frame {
        let off = match &s["off"] {
            Value::Array(a) => [unit(&a[0], 0.), unit(&a[1], 0.), unit(&a[2], 0.)],
            _ => [0.; 3],
        };
        Frame { u: unit(&s["u"], 1.0), off }
    }
    pub fn coord(&self, axis: usize, v: &Value) -> f64 {
        self.off[axis] + self.u * num(v)
    }
    pub fn pos(&self, v: &Value) -> [f64; 3] {
        [self.coord(0, &v[0]), self.coord(1, &v[1]), self.coord(2, &v[2])]
    }
    pub fn back(&self, axis: usize, x: f64) -> f64 {
        (x - self.off[axis]) / self.u
    }
    pub fn lim(&self, g: &Value) -> [[f64; 2]; 3] {
        let mut lim = [[0.0; 2]; 3];
        for a in 0..3 {
            for k in 0..2 {
                lim[a][k] = self.coord(a, &g["lim"][a][k]);
            }
        }
        lim
    }
}
pub fn cells(g: &Value) -> [usize; 3] {
    [us(&g["cells"][0]), us(&g["cells"][1]), us(&g["cells"][2])]
}
pub fn make(g: &Value, f: &Frame) -> Box<dyn GridFunctions3D> {
    let dim = Dim::ThreeD(f.lim(g));
    if g["kind"] == "cart" {
        Box::new(CartesianGrid3D::new(cells(g), dim))
    } else {
        Box::new(CylindricalGrid3D::new(cells(g), dim, "volume"))
    }
}
/// Shapes arrays given as flat row-major lists.
pub fn array(c: [usize; 3], v: &Value) -> Array3<f64> {
    Array3::from_shape_vec((c[0], c[1], c[2]), arr(v).iter().map(ratf).collect()).unwrap()
}
/// A grid with content, to be passed where only the geometry should matter.
pub fn dirty(grid: &mut Box<dyn GridFunctions3D>) {
    let c = *grid.get_cells();
    let n = c[0] * c[1] * c[2];
    let shape = (c[0], c[1], c[2]);
    grid.set_data(Array3::from_shape_vec(shape, (0..n).map(|k| 5.0 + k as f64).collect()).unwrap());
    grid.set_weights(Array3::from_shape_vec(shape, (0..n).map(|k| 3.0 + (k % 4) as f64).collect()).unwrap());
}
fn cellno(c: [usize; 3], id: [usize; 3]) -> Value {
    if (0..3).all(|a| id[a] < c[a]) {
        json!((id[0] * c[1] + id[1]) * c[2] + id[2] + 1)
    } else {
        json!(-2)
    }
}
fn changed(before: &Array3<f64>, after: &Array3<f64>) -> Value {
    if before.shape() != after.shape() {
        return json!([-3]);
    }
    Value::Array(
        before
            .iter()
            .zip(after.iter())
            .enumerate()
            .filter(|(_, (a, b))| a != b)
            .map(|(k, _)| json!(k + 1))
            .collect(),
    )
}

/// Geometry of a grid: reported positions, and for every position of the session the answer of
/// each function that finds a cell. -1 = error, -2 = not a cell of the grid, -9 = panic.
pub fn geom(s: &Value) -> Value {
    let f = Frame::of(s);
    let g = &s["g"];
    let c = cells(g);
    let Ok(grid) = attempt(|| make(g, &f)) else {
        return json!({"built": false});
    };
    let mut out = Map::new();
    out.insert("built".into(), json!(true));
    out.insert("cellsout".into(), json!(grid.get_cells()));
    let zpos: Vec<f64> = grid.get_zpositions().iter().map(|z| f.back(2, *z)).collect();
    out.insert("zpos".into(), rats(&zpos));
    let lim = grid.get_limits();
    if g["kind"] == "cart" {
        let x: Vec<f64> = grid.get_xpositions().iter().map(|x| f.back(0, *x)).collect();
        let y: Vec<f64> = grid.get_ypositions().iter().map(|y| f.back(1, *y)).collect();
        out.insert("xpos".into(), rats(&x));
        out.insert("ypos".into(), rats(&y));
        let l: Vec<f64> = (0..3).flat_map(|a| [f.back(a, lim[a][0]), f.back(a, lim[a][1])]).collect();
        out.insert("limout".into(), rats(&l));
    } else {
        let cyl = grid.as_any().downcast_ref::<CylindricalGrid3D>().unwrap();
        // squared radii in doubled lattice units
        let sq = |r: f64| rat((2.0 * r / f.u).powi(2));
        let mid_ok = cyl.rpositions().len() == grid.get_xpositions().len()
            && cyl
                .rpositions()
                .iter()
                .zip(grid.get_xpositions().iter())
                .all(|(r, m)| (r[0] + r[1] - 2.0 * m).abs() <= 1e-12 * r[1].abs());
        out.insert("rin".into(), cyl.rpositions().iter().map(|r| sq(r[0])).collect());
        out.insert("rout".into(), cyl.rpositions().iter().map(|r| sq(r[1])).collect());
        out.insert("midok".into(), json!(mid_ok));
        // angles in units of pi
        let pi = std::f64::consts::PI;
        out.insert("opos".into(), grid.get_ypositions().iter().map(|o| rat(o / pi)).collect());
        let l = vec![
            2.0 * lim[0][0] / f.u,
            2.0 * lim[0][1] / f.u,
            lim[1][0] / pi,
            lim[1][1] / pi,
            f.back(2, lim[2][0]),
            f.back(2, lim[2][1]),
        ];
        out.insert("limout".into(), rats(&l));
    }
    let n = c[0] * c[1] * c[2];
    let shape = (c[0], c[1], c[2]);
    let numbered = Array3::from_shape_vec(shape, (1..=n).map(|k| k as f64).collect()).unwrap();
    let mut lookups = Vec::new();
    for p in arr(&s["pos"]) {
        let pos = f.pos(p);
        let mut o = Map::new();
        o.insert("inside".into(), match attempt(|| grid.is_inside(pos)) {
            Ok(b) => json!(if b { 1 } else { 0 }),
            Err(_) => json!(-9),
        });
        o.insert("cell".into(), match attempt(|| grid.cell_id(pos)) {
            Ok(Ok(id)) => cellno(c, id),
            Ok(Err(_)) => json!(-1),
            Err(_) => json!(-9),
        });
        let mut h = grid.clone();
        o.insert("get".into(), match attempt(|| { h.set_data(numbered.clone()); h.get_value(pos) }) {
            Ok(v) => rat(v),
            Err(_) => json!([-9, -1]),
        });
        let mut h = grid.clone();
        o.insert("add".into(), match attempt(|| h.add_value(pos, 7.0)) {
            Ok(()) => changed(grid.get_data(), h.get_data()),
            Err(_) => json!([-9]),
        });
        let mut h = grid.clone();
        o.insert("ins".into(), match attempt(|| h.insert(pos, 7.0)) {
            Ok(()) => changed(grid.get_data(), h.get_data()),
            Err(_) => json!([-9]),
        });
        if g["kind"] != "cart" {
            let cyl = grid.as_any().downcast_ref::<CylindricalGrid3D>().unwrap();
            let q = cyl.to_cylindrical(pos);
            let t = 2.0 / f.u;
            // the same point in cartesian coordinates again, doubled lattice units
            let back: Vec<f64> = vec![t * q[0] * q[1].cos(), t * q[0] * q[1].sin(), f.back(2, q[2])];
            o.insert("cyl".into(), rats(&back));
            o.insert("rsq".into(), rat((t * q[0]).powi(2)));
        }
        lookups.push(Value::Object(o));
    }
    out.insert("lookups".into(), Value::Array(lookups));
    Value::Object(out)
}

enum Store {
    One(Box<dyn GridFunctions3D>),
    Vector(VectorGrid),
}
impl Store {
    fn g(&mut self) -> &mut dyn GridFunctions3D {
        match self {
            Store::One(g) => g.as_mut(),
            Store::Vector(v) => v,
        }
    }
    fn state(&self) -> Value {
        let one = |g: &Box<dyn GridFunctions3D>| json!({"val": rats(g.get_data()), "wt": rats(g.get_weights())});
        match self {
            Store::One(g) => json!([one(g)]),
            Store::Vector(v) => Value::Array(v.data.iter().map(one).collect()),
        }
    }
}

/// A history of operations on one grid (or the three components of a vector grid).
pub fn ops(s: &Value) -> Value {
    let f = Frame::of(s);
    let g = &s["g"];
    let c = cells(g);
    let vector = s["vector"] == 1;
    let mut st = if vector {
        let mut v = VectorGrid::new(make(g, &f));
        for k in 0..3 {
            v.data[k].set_data(array(c, &s["init"][k]["val"]));
            v.data[k].set_weights(array(c, &s["init"][k]["wt"]));
        }
        Store::Vector(v)
    } else {
        let mut b = make(g, &f);
        b.set_data(array(c, &s["init"][0]["val"]));
        b.set_weights(array(c, &s["init"][0]["wt"]));
        Store::One(b)
    };
    let mut out = vec![];
    let start = st.state();
    for o in arr(&s["ops"]) {
        let mut r = Map::new();
        let op = o["op"].as_str().unwrap();
        let res: Result<Value, String> = match op {
            "add" => attempt(|| { st.g().add_value(f.pos(&o["pos"]), ratf(&o["v"])); json!([]) }),
            "addcell" => attempt(|| {
                let id = &o["cell"];
                st.g().add_to_cell([us(&id[0]), us(&id[1]), us(&id[2])], ratf(&o["v"]));
                json!([])
            }),
            "insert" => attempt(|| { st.g().insert(f.pos(&o["pos"]), ratf(&o["v"])); json!([]) }),
            "traj" => attempt(|| {
                st.g().add_trajectory_value(f.pos(&o["pos"]), f.pos(&o["pos2"]), ratf(&o["v"]));
                json!([])
            }),
            "divscalar" => attempt(|| { st.g().divide_by_scalar(ratf(&o["v"])); json!([]) }),
            "divarray" => attempt(|| { st.g().divide_by_array(&array(c, &o["arr"])); json!([]) }),
            "divweight" => attempt(|| { st.g().divide_by_weight(); json!([]) }),
            "setdata" => attempt(|| { st.g().set_data(array(c, &o["arr"])); json!([]) }),
            "setweights" => attempt(|| { st.g().set_weights(array(c, &o["arr"])); json!([]) }),
            "outlier" => attempt(|| { st.g().outlier_removal(ratf(&o["v"]), us(&o["mode"])); json!([]) }),
            "zeros" => attempt(|| {
                let fresh = st.g().new_zeros();
                // the original must be untouched; the history goes on with the new grid
                let orig = st.state();
                let geometry = fresh.get_cells() == st.g().get_cells()
                    && fresh.get_limits() == st.g().get_limits()
                    && fresh.get_xpositions() == st.g().get_xpositions()
                    && fresh.get_ypositions() == st.g().get_ypositions()
                    && fresh.get_zpositions() == st.g().get_zpositions()
                    && fresh.is_cylindrical() == st.g().is_cylindrical();
                st = if vector {
                    Store::Vector(fresh.as_any().downcast_ref::<VectorGrid>().unwrap().clone())
                } else {
                    Store::One(fresh)
                };
                json!({"orig": orig, "geometry": geometry})
            }),
            "refused" => {
                let bad = Array3::<f64>::zeros((c[0] + 1, c[1], c[2]));
                let swapped = Array3::<f64>::zeros((c[1], c[2], c[0] + 1));
                let mut copies: Vec<Box<dyn GridFunctions3D>> = match &mut st {
                    Store::One(g) => vec![g.clone()],
                    Store::Vector(v) => v.data.to_vec(),
                };
                let mut refused = true;
                for g in copies.iter_mut() {
                    refused &= match o["what"].as_str().unwrap() {
                        "data" => attempt(|| g.set_data(bad.clone())).is_err(),
                        "data2" => attempt(|| g.set_data(swapped.clone())).is_err(),
                        "weights" => attempt(|| g.set_weights(bad.clone())).is_err(),
                        "weights2" => attempt(|| g.set_weights(swapped.clone())).is_err(),
                        "mode" => attempt(|| g.outlier_removal(0.0, us(&o["mode"]))).is_err(),
                        "axes" => attempt(|| g.collapse_two(1, 1)).is_err() && attempt(|| g.collapse_two_weight(2, 2)).is_err(),
                        x => panic!("harness: {x}"),
                    };
                }
                // whatever the refused call left behind is what must equal the state before
                match &mut st {
                    Store::One(g) => *g = copies.remove(0),
                    Store::Vector(v) => for k in 0..3 { v.data[k] = copies[k].clone() },
                }
                Ok(json!(refused))
            }
            "observe" => attempt(|| observe(&mut st, g, &f, o)),
            x => panic!("harness: unknown grid operation {x}"),
        };
        r.insert("ok".into(), json!(res.is_ok()));
        r.insert("res".into(), res.unwrap_or(json!([])));
        r.insert("after".into(), st.state());
        out.push(Value::Object(r));
        if out.last().unwrap()["ok"] == false {
            break; // a panicking operation ends the history
        }
    }
    json!({"start": start, "steps": out})
}

fn two(a: Array2<f64>) -> Value {
    rats(a.iter())
}

fn observe(st: &mut Store, gdesc: &Value, f: &Frame, o: &Value) -> Value {
    let ax = |k: &str| us(&o[k]) - 1;
    // reductions of a vector grid are those of its first component, where they exist at all
    let each: Vec<Box<dyn GridFunctions3D>> = match st {
        Store::One(g) => vec![g.clone()],
        Store::Vector(v) => v.data.to_vec(),
    };
    let what = o["what"].as_str().unwrap();
    Value::Array(
        each.iter()
            .map(|g| match what {
                "collapse" => two(g.collapse(ax("a"))),
                "cw" => two(g.collapse_weight(ax("a"))),
                "c2" => rats(g.collapse_two(ax("a"), ax("b")).iter()),
                "c2w" => rats(g.collapse_two_weight(ax("a"), ax("b")).iter()),
                "sliceidx" => two(g.slice_idx(ax("a"), us(&o["i"]))),
                "slice" => {
                    let a = ax("a");
                    let x = if gdesc["kind"] == "cart" || a == 2 {
                        f.coord(a, &o["x"])
                    } else if a == 0 {
                        f.u * num(&o["x"]) / 2.0 // radius in doubled lattice units
                    } else {
                        num(&o["x"]) * std::f64::consts::PI / 24.0
                    };
                    two(g.slice(a, x))
                }
                "get" => json!([rat(g.get_value(f.pos(&o["pos"])))]),
                "vcw" => two(st.g().collapse_weight(ax("a"))),
                "vc2" => rats(st.g().collapse_two(ax("a"), ax("b")).iter()),
                "vc2w" => rats(st.g().collapse_two_weight(ax("a"), ax("b")).iter()),
                x => panic!("harness: unknown observation {x}"),
            })
            .collect(),
    )
}
