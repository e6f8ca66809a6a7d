//! Conversions: writes the input files of a session into a scratch directory, runs the converter
//! and lists what it put into the HDF5 file, and what the data manager reads back from it.
use crate::attempt;
use crate::num::*;
use crate::reader;
use serde_json::{json, Map, Value};
use std::path::Path;
use upppp_rust::{csv_converter, csv_multi_converter, csv_multi_file_time_step, LegacyVTKConverter, VTKType, XMLVTKConverter};

/// A number of an input file as text.
fn text_of(v: &Value) -> String {
    format!("{}", ratf(v))
}
/// A table as the text of a CSV file; `notes` are the rows comment lines stand before.
fn csv(t: &Value) -> String {
    let delim = t["delim"].as_str().unwrap();
    let rows = arr(&t["rows"]);
    let mut out = String::new();
    let note = |out: &mut String, k: usize| {
        if arr(&t["notes"]).iter().any(|x| us(x) == k) {
            out.push_str(t["comment"].as_str().unwrap());
            out.push_str(" note\n");
        }
    };
    if t["header"] == 1 {
        let n = us(&t["cols"]);
        out.push_str(&(0..n).map(|k| format!("column{k}")).collect::<Vec<_>>().join(delim));
        out.push('\n');
    }
    for (k, row) in rows.iter().enumerate() {
        note(&mut out, k);
        out.push_str(&arr(row).iter().map(text_of).collect::<Vec<_>>().join(delim));
        out.push('\n');
    }
    note(&mut out, rows.len());
    out
}

/// A listing the stand-in for vtkio reads; particles may be spread over several pieces.
fn listing(s: &Value, f: &Value) -> String {
    let xml = s["mode"] == "xml";
    let mut out = format!("dataset {}\n", if s["vtk"] == "grid" { "UnstructuredGrid" } else { "PolyData" });
    for piece in arr(&f["pieces"]) {
        let parts = arr(piece);
        let nums = |name: &str| parts.iter().map(|p| text_of(&p[name])).collect::<Vec<_>>().join(" ");
        let vecs = |name: &str| parts.iter().flat_map(|p| arr(&p[name]).iter().map(text_of)).collect::<Vec<_>>().join(" ");
        out.push_str(&format!("piece\npoints F64 {}\n", vecs("p")));
        if !xml {
            out.push_str("field FieldData\n");
        }
        let ints = if s["wide"] == 1 { "U64" } else { "I32" };
        out.push_str(&format!("array other F64 1 {}\n", nums("r")));
        out.push_str(&format!("array vel F64 3 {}\n", vecs("v")));
        out.push_str(&format!("array pid {ints} 1 {}\n", nums("id")));
        out.push_str(&format!("array size F64 1 {}\n", nums("r")));
        out.push_str(&format!("array kind {ints} 1 {}\n", nums("ty")));
    }
    out
}

fn convert(s: &Value, dir: &Path, out: &str) {
    let path = |name: &str| dir.join(name).to_str().unwrap().to_string();
    let flag = |name: &str| s[name] == 1;
    let columns: Vec<i64> = s["columns"].as_array().map(|c| c.iter().map(int).collect()).unwrap_or_default();
    let mode = s["mode"].as_str().unwrap();
    match mode {
        "csv" | "chain" | "id_line" => {
            let t = &s["text"];
            let file = path("data.csv");
            std::fs::write(&file, csv(t)).unwrap();
            let (delim, comment) = (t["delim"].as_str().unwrap(), t["comment"].as_str().unwrap());
            let header = t["header"] == 1;
            let (vel, interp, radius) = (flag("vel"), flag("interp"), ratf(&s["radius"]));
            if mode == "csv" {
                csv_converter(&file, out, columns, delim, header, comment, vel, interp, radius, us(&s["sampling"]));
            } else {
                csv_multi_converter(&file, out, columns, delim, header, comment, vel, interp, radius, mode);
            }
        }
        "steps" => {
            let mut files = vec![];
            for (k, t) in arr(&s["files"]).iter().enumerate() {
                files.push(path(&format!("step {k}.csv")));
                std::fs::write(files.last().unwrap(), csv(t)).unwrap();
            }
            let t = &s["files"][0];
            csv_multi_file_time_step(
                files.iter().map(|x| x.as_str()).collect(),
                out,
                columns,
                arr(&s["times"]).iter().map(ratf).collect(),
                t["delim"].as_str().unwrap(),
                t["header"] == 1,
                t["comment"].as_str().unwrap(),
                false,
                false,
                ratf(&s["radius"]),
            );
        }
        "legacy" | "xml" => {
            let ext = s["ext"].as_str().unwrap();
            let folder = dir.join("vtk");
            std::fs::create_dir_all(&folder).unwrap();
            // step numbers count in these units, so that they can be large
            let unit: u64 = s["ustep"].as_str().map_or(1, |x| x.parse().unwrap());
            let number = |f: &Value| int(&f["step"]) as u64 * unit;
            let name = |f: &Value| folder.join(format!("step_{}.{ext}", number(f))).to_str().unwrap().to_string();
            for f in arr(&s["files"]) {
                std::fs::write(name(f), listing(s, f)).unwrap();
                if flag("decoys") {
                    std::fs::write(folder.join(format!("step_{}_boundingBox.{ext}", number(f))), "dataset ImageData\n").unwrap();
                }
            }
            if flag("decoys") {
                std::fs::write(folder.join("step_0.txt"), "nothing").unwrap();
            }
            let dt = ratf(&s["dt"]) / unit as f64;
            let filter = r"step_(\d+)\.\w+$";
            let names: Vec<String> = arr(&s["files"]).iter().map(name).collect();
            let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let mut dir_name = folder.to_str().unwrap().to_string();
            if flag("slash") {
                dir_name.push('/');
            }
            macro_rules! go {
                ($c:expr) => {{
                    let mut c = $c.add_velocity_field("vel").add_id_field("pid");
                    c = if flag("diameter") { c.add_diameter_field("size") } else { c.add_radius_field("size") };
                    if flag("types") {
                        c = c.add_type_field("kind");
                    }
                    if flag("folder") {
                        c.write_hdf5_from_folder(&dir_name, dt, out, filter);
                    } else {
                        c.write_hdf5_from_files(names, dt, out, filter);
                    }
                }};
            }
            if mode == "legacy" {
                go!(LegacyVTKConverter::new());
            } else {
                go!(XMLVTKConverter::new(if s["vtk"] == "grid" { VTKType::UnstructuredGrid } else { VTKType::PolyData }));
            }
        }
        x => panic!("harness: unknown conversion {x}"),
    }
}

/// A data set: a number, a list of numbers or a list of rows.
fn content(c: &hdf5::Container, q: &dyn Fn(f64) -> Value) -> Value {
    let v: Vec<f64> = c.read_raw().unwrap();
    let all: Vec<Value> = v.iter().map(|x| q(*x)).collect();
    match c.shape().as_slice() {
        [] => all[0].clone(),
        [_] => Value::Array(all),
        [_, w] => Value::Array(all.chunks(*w).map(|r| Value::Array(r.to_vec())).collect()),
        _ => json!("more than two dimensions"),
    }
}

pub fn run(s: &Value, dir: &Path) -> Value {
    let out = "converted.hdf5";
    if attempt(|| convert(s, dir, out)).is_err() {
        return json!({"ok": false});
    }
    // velocities that were fitted carry the rounding of the fit
    let fit = s["vel"] == 1;
    let q = move |x: f64| if fit { rat_tol(x, 1e-9) } else { rat(x) };
    let f = hdf5::File::open(out).unwrap();
    let kind = if f.link_exists("particle 0") { "particle" } else { "timestep" };
    let mut groups = vec![];
    for k in 0.. {
        let Ok(g) = f.group(&format!("{kind} {k}")) else { break };
        let mut m = Map::new();
        for name in ["time", "id", "radius", "ppcloud", "particletype", "velocity", "position"] {
            let v = g.dataset(name).map(|d| content(&d, &q)).unwrap_or(json!([]));
            m.insert(name.into(), v);
        }
        groups.push(Value::Object(m));
    }
    let mut o = Map::new();
    o.insert("ok".into(), json!(true));
    o.insert("by".into(), json!(kind));
    o.insert("groups".into(), Value::Array(groups));
    for (key, name) in [
        ("type", "hdf5_up4_type"), ("dims", "dimensions"), ("n", "particle number"), ("steps", "timesteps"),
        ("rate", "sample rate"), ("time", "time"), ("vel", "velocity"), ("vmag", "velocity magnitude"),
    ] {
        o.insert(key.into(), f.attr(name).map(|a| content(&a, &q)).unwrap_or(json!("missing")));
    }
    o.insert("axis".into(), f.dataset("time array").map(|a| content(&a, &q)).unwrap_or(json!("missing")));
    o.insert("back".into(), if s["back"] == 1 { back(kind, out, &q) } else { json!([]) });
    Value::Object(o)
}

/// Every step, read from the converted file.
fn back(kind: &str, name: &str, q: &dyn Fn(f64) -> Value) -> Value {
    let steps = attempt(|| {
        let mut m = reader::open(if kind == "particle" { "p" } else { "t" }, name);
        let n = *m.global_stats().timesteps();
        (0..n).map(|t| reader::step_with(m.get_timestep(t), 1.0, 1.0, q)).collect::<Vec<_>>()
    });
    steps.map(Value::Array).unwrap_or(json!(["failed"]))
}
