use crate::Error;
use std::path::{Path, PathBuf};

pub trait Scalar: Copy + Sized + 'static {
    fn of_f64(v: f64) -> Option<Self>;
    fn of_int(v: i128) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl Scalar for $t {
        fn of_f64(v: f64) -> Option<Self> {
            let lo = <$t>::MIN as f64 - 1.0;
            let hi = <$t>::MAX as f64 + 1.0;
            if v > lo && v < hi { Some(v as $t) } else { None }
        }
        fn of_int(v: i128) -> Option<Self> { <$t>::try_from(v).ok() }
    })*};
}
ints!(u8, i8, u16, i16, u32, i32, u64, i64);
impl Scalar for f64 {
    fn of_f64(v: f64) -> Option<Self> {
        Some(v)
    }
    fn of_int(v: i128) -> Option<Self> {
        Some(v as f64)
    }
}
impl Scalar for f32 {
    fn of_f64(v: f64) -> Option<Self> {
        Some(v as f32)
    }
    fn of_int(v: i128) -> Option<Self> {
        Some(v as f32)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum IOBuffer {
    F64(Vec<f64>),
    F32(Vec<f32>),
    I32(Vec<i32>),
    I64(Vec<i64>),
    U32(Vec<u32>),
    U64(Vec<u64>),
}
impl IOBuffer {
    /// Converts the elements; like NumCast, `None` if one is not representable.
    pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
        match self {
            IOBuffer::F64(v) => v.into_iter().map(T::of_f64).collect(),
            IOBuffer::F32(v) => v.into_iter().map(|x| T::of_f64(x as f64)).collect(),
            IOBuffer::I32(v) => v.into_iter().map(|x| T::of_int(x as i128)).collect(),
            IOBuffer::I64(v) => v.into_iter().map(|x| T::of_int(x as i128)).collect(),
            IOBuffer::U32(v) => v.into_iter().map(|x| T::of_int(x as i128)).collect(),
            IOBuffer::U64(v) => v.into_iter().map(|x| T::of_int(x as i128)).collect(),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            IOBuffer::F64(v) => v.len(),
            IOBuffer::F32(v) => v.len(),
            IOBuffer::I32(v) => v.len(),
            IOBuffer::I64(v) => v.len(),
            IOBuffer::U32(v) => v.len(),
            IOBuffer::U64(v) => v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum ElementType {
    ColorScalars(u32),
    LookupTable,
    Scalars { num_comp: u32, lookup_table: Option<String> },
    Vectors,
    Normals,
    TCoords(u32),
    Tensors,
    Generic(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct DataArrayBase<E> {
    pub name: String,
    pub elem: E,
    pub data: IOBuffer,
}
pub type DataArray = DataArrayBase<ElementType>;
pub type FieldArray = DataArrayBase<u32>;
#[derive(Clone, Debug, PartialEq)]
pub enum Attribute {
    DataArray(DataArray),
    Field { name: String, data_array: Vec<FieldArray> },
}
impl Attribute {
    pub fn name(&self) -> &str {
        match self {
            Attribute::DataArray(d) => &d.name,
            Attribute::Field { name, .. } => name,
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Attributes {
    pub point: Vec<Attribute>,
    pub cell: Vec<Attribute>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PolyDataPiece {
    pub points: IOBuffer,
    pub data: Attributes,
}
#[derive(Clone, Debug, PartialEq)]
pub struct UnstructuredGridPiece {
    pub points: IOBuffer,
    pub data: Attributes,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Piece<P> {
    Source(PathBuf, u32),
    Loaded(Box<DataSet>),
    Inline(Box<P>),
}
impl<P: Clone> Piece<P> {
    pub fn load_piece_data(&self, _: Option<&Path>) -> Result<P, Error> {
        match self {
            Piece::Inline(p) => Ok((**p).clone()),
            _ => Err(Error("no piece data".into())),
        }
    }
    pub fn into_loaded_piece_data(self, _: Option<&Path>) -> Result<P, Error> {
        match self {
            Piece::Inline(p) => Ok(*p),
            _ => Err(Error("no piece data".into())),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum DataSet {
    ImageData { meta: Option<()> },
    PolyData { meta: Option<()>, pieces: Vec<Piece<PolyDataPiece>> },
    UnstructuredGrid { meta: Option<()>, pieces: Vec<Piece<UnstructuredGridPiece>> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vtk {
    pub title: String,
    pub file_path: Option<PathBuf>,
    pub data: DataSet,
}
impl Vtk {
    pub fn import(p: impl AsRef<Path>) -> Result<Vtk, Error> {
        crate::read(p.as_ref())
    }
    pub fn load_all_pieces(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
