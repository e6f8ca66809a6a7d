//! Stand-in for the `vtkio` crate: the model types up4 can use, and an import that reads a plain
//! listing instead of VTK. A listing has one item per line:
//!   dataset PolyData|UnstructuredGrid|ImageData     piece
//!   points TYPE v v v ..                            field NAME   (a field attribute; its arrays follow)
//!   array NAME TYPE ELEM v v ..                     (within the field, or an attribute of its own)
//! with TYPE one of F64 F32 I32 I64 U32 U64.
use std::path::Path;
pub mod model;
pub use model::Vtk;

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

pub(crate) fn read(path: &Path) -> Result<model::Vtk, Error> {
    use model::*;
    let text = std::fs::read_to_string(path).map_err(|e| Error(e.to_string()))?;
    let bad = |l: &str| Error(format!("cannot read: {l}"));
    let mut kind = String::new();
    let mut pieces: Vec<(IOBuffer, Attributes)> = vec![];
    let mut in_field = false;
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "dataset" => kind = w[1].to_string(),
            "piece" => {
                pieces.push((IOBuffer::F64(vec![]), Attributes::default()));
                in_field = false;
            }
            "points" => {
                let p = pieces.last_mut().ok_or_else(|| bad(line))?;
                p.0 = buffer(w[1], &w[2..]).ok_or_else(|| bad(line))?;
            }
            "field" => {
                let p = pieces.last_mut().ok_or_else(|| bad(line))?;
                p.1.point.push(Attribute::Field { name: w[1].to_string(), data_array: vec![] });
                in_field = true;
            }
            "array" => {
                let p = pieces.last_mut().ok_or_else(|| bad(line))?;
                let data = buffer(w[2], &w[4..]).ok_or_else(|| bad(line))?;
                let n: u32 = w[3].parse().map_err(|_| bad(line))?;
                if in_field {
                    if let Some(Attribute::Field { data_array, .. }) = p.1.point.last_mut() {
                        data_array.push(DataArrayBase { name: w[1].to_string(), elem: n, data });
                    }
                } else {
                    let elem = if n == 3 { ElementType::Vectors } else { ElementType::Scalars { num_comp: n, lookup_table: None } };
                    p.1.point.push(Attribute::DataArray(DataArrayBase { name: w[1].to_string(), elem, data }));
                }
            }
            _ => return Err(bad(line)),
        }
    }
    let data = match kind.as_str() {
        "PolyData" => DataSet::PolyData {
            meta: None,
            pieces: pieces.into_iter().map(|(points, data)| Piece::Inline(Box::new(PolyDataPiece { points, data }))).collect(),
        },
        "UnstructuredGrid" => DataSet::UnstructuredGrid {
            meta: None,
            pieces: pieces.into_iter().map(|(points, data)| Piece::Inline(Box::new(UnstructuredGridPiece { points, data }))).collect(),
        },
        _ => DataSet::ImageData { meta: None },
    };
    Ok(Vtk { title: String::new(), file_path: Some(path.to_path_buf()), data })
}
fn buffer(t: &str, v: &[&str]) -> Option<model::IOBuffer> {
    use model::IOBuffer::*;
    fn all<T: std::str::FromStr>(v: &[&str]) -> Option<Vec<T>> {
        v.iter().map(|x| x.parse().ok()).collect()
    }
    Some(match t {
        "F64" => F64(all(v)?),
        "F32" => F32(all(v)?),
        "I32" => I32(all(v)?),
        "I64" => I64(all(v)?),
        "U32" => U32(all(v)?),
        "U64" => U64(all(v)?),
        _ => return None,
    })
}
