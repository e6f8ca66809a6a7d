//! Stand-in for the `hdf5` crate (git version the project asks for): the part of its interface that
//! up4 can use, on files that live in this process. What is stored is converted to the type the
//! dataset or attribute was created with, as libhdf5 does: a float written to an integer is
//! truncated and clamped.
use ndarray::{Array, Array1, Array2, ArrayD, ArrayView, Dimension, IxDyn};
use std::collections::BTreeMap;
use std::fmt;
use std::ops::Deref;
use std::path::Path;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Error {
    Internal(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let Error::Internal(s) = self;
        write!(f, "{s}")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn fail<T>(s: impl Into<String>) -> Result<T> {
    Err(Error::Internal(s.into()))
}

/// A stored element.
#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    F(f64),
    I(i128),
    S(String),
}
/// The type elements are stored with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    F64,
    F32,
    Int(i128, i128),
    Str,
}
impl Kind {
    fn store(self, c: Cell) -> Cell {
        match (self, c) {
            (Kind::F64, Cell::I(i)) => Cell::F(i as f64),
            (Kind::F32, Cell::F(v)) => Cell::F(v as f32 as f64),
            (Kind::F32, Cell::I(i)) => Cell::F(i as f32 as f64),
            (Kind::Int(lo, hi), Cell::F(v)) => Cell::I((v as i128).clamp(lo, hi)),
            (Kind::Int(lo, hi), Cell::I(i)) => Cell::I(i.clamp(lo, hi)),
            (_, c) => c,
        }
    }
}
pub trait H5Type: Clone {
    fn kind() -> Kind;
    fn cell(&self) -> Cell;
    fn of(c: &Cell) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl H5Type for $t {
        fn kind() -> Kind { Kind::Int(<$t>::MIN as i128, <$t>::MAX as i128) }
        fn cell(&self) -> Cell { Cell::I(*self as i128) }
        fn of(c: &Cell) -> Option<Self> {
            match Self::kind().store(c.clone()) { Cell::I(i) => Some(i as $t), _ => None }
        }
    })*};
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl H5Type for f64 {
    fn kind() -> Kind {
        Kind::F64
    }
    fn cell(&self) -> Cell {
        Cell::F(*self)
    }
    fn of(c: &Cell) -> Option<Self> {
        match c {
            Cell::F(v) => Some(*v),
            Cell::I(i) => Some(*i as f64),
            Cell::S(_) => None,
        }
    }
}
impl H5Type for f32 {
    fn kind() -> Kind {
        Kind::F32
    }
    fn cell(&self) -> Cell {
        Cell::F(*self as f64)
    }
    fn of(c: &Cell) -> Option<Self> {
        f64::of(c).map(|v| v as f32)
    }
}
impl H5Type for bool {
    fn kind() -> Kind {
        Kind::Int(0, 1)
    }
    fn cell(&self) -> Cell {
        Cell::I(*self as i128)
    }
    fn of(c: &Cell) -> Option<Self> {
        match c {
            Cell::I(i) => Some(*i != 0),
            _ => None,
        }
    }
}
pub mod types {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Default)]
    pub struct VarLenUnicode(String);
    impl VarLenUnicode {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        /// # Safety
        /// Nothing to observe here.
        pub unsafe fn from_str_unchecked(s: impl Into<String>) -> Self {
            VarLenUnicode(s.into())
        }
    }
    impl std::str::FromStr for VarLenUnicode {
        type Err = Error;
        fn from_str(s: &str) -> Result<Self> {
            Ok(VarLenUnicode(s.to_string()))
        }
    }
    impl fmt::Display for VarLenUnicode {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl H5Type for VarLenUnicode {
        fn kind() -> Kind {
            Kind::Str
        }
        fn cell(&self) -> Cell {
            Cell::S(self.0.clone())
        }
        fn of(c: &Cell) -> Option<Self> {
            match c {
                Cell::S(s) => Some(VarLenUnicode(s.clone())),
                _ => None,
            }
        }
    }
}
pub mod filters {
    pub fn blosc_get_nthreads() -> u8 {
        1
    }
    pub fn blosc_set_nthreads(_: u8) -> u8 {
        1
    }
}

#[derive(Debug)]
struct Item {
    shape: Vec<usize>,
    kind: Kind,
    data: Vec<Cell>,
}
type Shared = Arc<Mutex<Item>>;
#[derive(Default, Debug)]
struct Node {
    groups: BTreeMap<String, Arc<Mutex<Node>>>,
    datasets: BTreeMap<String, Shared>,
    attrs: BTreeMap<String, Shared>,
}

static FILES: OnceLock<Mutex<BTreeMap<String, Arc<Mutex<Node>>>>> = OnceLock::new();
fn files() -> &'static Mutex<BTreeMap<String, Arc<Mutex<Node>>>> {
    FILES.get_or_init(Default::default)
}
/// Forgets every file (not part of the real interface).
pub fn forget_all() {
    files().lock().unwrap().clear();
}

/// A group; also what files dereference to.
#[derive(Clone, Debug)]
pub struct Group {
    file: String,
    path: String,
    node: Arc<Mutex<Node>>,
}
#[derive(Clone, Debug)]
pub struct File {
    root: Group,
}
impl Deref for File {
    type Target = Group;
    fn deref(&self) -> &Group {
        &self.root
    }
}
impl File {
    fn at(name: &str, node: Arc<Mutex<Node>>) -> File {
        File { root: Group { file: name.to_string(), path: "/".to_string(), node } }
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
        let name = p.as_ref().to_string_lossy().to_string();
        match files().lock().unwrap().get(&name) {
            Some(n) => Ok(File::at(&name, n.clone())),
            None => fail(format!("unable to open file {name}")),
        }
    }
    pub fn open_rw<P: AsRef<Path>>(p: P) -> Result<File> {
        File::open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
        let name = p.as_ref().to_string_lossy().to_string();
        let node = Arc::new(Mutex::new(Node::default()));
        files().lock().unwrap().insert(name.clone(), node.clone());
        Ok(File::at(&name, node))
    }
    pub fn append<P: AsRef<Path>>(p: P) -> Result<File> {
        File::open(&p).or_else(|_| File::create(&p))
    }
    pub fn create_excl<P: AsRef<Path>>(p: P) -> Result<File> {
        match File::open(&p) {
            Ok(_) => fail("file exists"),
            Err(_) => File::create(&p),
        }
    }
    pub fn as_group(&self) -> Result<Group> {
        Ok(self.root.clone())
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
}
fn step(node: &Arc<Mutex<Node>>, name: &str) -> Option<Arc<Mutex<Node>>> {
    let mut at = node.clone();
    for part in name.split('/').filter(|x| !x.is_empty()) {
        let next = at.lock().unwrap().groups.get(part).cloned()?;
        at = next;
    }
    Some(at)
}
impl Group {
    pub fn filename(&self) -> String {
        self.file.clone()
    }
    pub fn name(&self) -> String {
        self.path.clone()
    }
    fn sub(&self, name: &str, node: Arc<Mutex<Node>>) -> Group {
        let path = format!("{}/{}", self.path.trim_end_matches('/'), name.trim_matches('/'));
        Group { file: self.file.clone(), path, node }
    }
    pub fn group(&self, name: &str) -> Result<Group> {
        match step(&self.node, name) {
            Some(n) => Ok(self.sub(name, n)),
            None => fail(format!("no group {name}")),
        }
    }
    pub fn create_group(&self, name: &str) -> Result<Group> {
        let node = Arc::new(Mutex::new(Node::default()));
        let mut me = self.node.lock().unwrap();
        if me.groups.contains_key(name) || me.datasets.contains_key(name) {
            return fail(format!("{name} exists"));
        }
        me.groups.insert(name.to_string(), node.clone());
        drop(me);
        Ok(self.sub(name, node))
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let (dir, leaf) = name.rsplit_once('/').unwrap_or(("", name));
        let found = step(&self.node, dir).and_then(|n| n.lock().unwrap().datasets.get(leaf).cloned());
        match found {
            Some(item) => Ok(Container { item, file: self.file.clone() }),
            None => fail(format!("no dataset {name}")),
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        match self.node.lock().unwrap().attrs.get(name) {
            Some(a) => Ok(Container { item: a.clone(), file: self.file.clone() }),
            None => fail(format!("no attribute {name}")),
        }
    }
    pub fn link_exists(&self, name: &str) -> bool {
        self.group(name).is_ok() || self.dataset(name).is_ok()
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        let me = self.node.lock().unwrap();
        let mut all: Vec<String> = me.groups.keys().chain(me.datasets.keys()).cloned().collect();
        all.sort();
        Ok(all)
    }
    pub fn len(&self) -> u64 {
        self.member_names().unwrap().len() as u64
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        let names: Vec<String> = self.node.lock().unwrap().groups.keys().cloned().collect();
        names.iter().map(|n| self.group(n)).collect()
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        let names: Vec<String> = self.node.lock().unwrap().datasets.keys().cloned().collect();
        names.iter().map(|n| self.dataset(n)).collect()
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        Ok(self.node.lock().unwrap().attrs.keys().cloned().collect())
    }
    pub fn attrs(&self) -> Result<Vec<Attribute>> {
        self.attr_names()?.iter().map(|n| self.attr(n)).collect()
    }
    pub fn file(&self) -> Result<File> {
        File::open(&self.file)
    }
    pub fn unlink(&self, name: &str) -> Result<()> {
        let mut me = self.node.lock().unwrap();
        if me.groups.remove(name).is_none() && me.datasets.remove(name).is_none() {
            return fail(format!("no {name}"));
        }
        Ok(())
    }
    fn builder(&self, attr: bool) -> Builder {
        Builder { group: self.clone(), attr }
    }
    pub fn new_dataset<T: H5Type>(&self) -> BuilderEmpty {
        self.builder(false).empty::<T>()
    }
    pub fn new_dataset_builder(&self) -> Builder {
        self.builder(false)
    }
    pub fn new_attr<T: H5Type>(&self) -> BuilderEmpty {
        self.builder(true).empty::<T>()
    }
    pub fn new_attr_builder(&self) -> Builder {
        self.builder(true)
    }
    fn insert(&self, attr: bool, name: &str, item: Item) -> Result<Container> {
        let item = Arc::new(Mutex::new(item));
        let mut me = self.node.lock().unwrap();
        if !attr && me.groups.contains_key(name) {
            return fail(format!("{name} exists"));
        }
        let map = if attr { &mut me.attrs } else { &mut me.datasets };
        if map.contains_key(name) {
            return fail(format!("{name} exists"));
        }
        map.insert(name.to_string(), item.clone());
        Ok(Container { item, file: self.file.clone() })
    }
}

#[derive(Clone)]
pub struct Builder {
    group: Group,
    attr: bool,
}
pub type DatasetBuilder = Builder;
pub type AttributeBuilder = Builder;
impl Builder {
    pub fn chunk<S: IntoShape>(self, _: S) -> Self {
        self
    }
    pub fn empty<T: H5Type>(self) -> BuilderEmpty {
        BuilderEmpty { b: self, kind: T::kind(), shape: vec![] }
    }
    pub fn with_data<'d, A, T, D>(self, data: A) -> BuilderData
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type + 'd,
        D: Dimension,
    {
        let v: ArrayView<T, D> = data.into();
        let item = Item {
            shape: v.shape().to_vec(),
            kind: T::kind(),
            data: v.iter().map(|x| x.cell()).collect(),
        };
        BuilderData { b: self, item }
    }
    pub fn blosc_zstd(self, _: u8, _: bool) -> Self {
        self
    }
    pub fn deflate(self, _: u8) -> Self {
        self
    }
    pub fn shuffle(self) -> Self {
        self
    }
}
pub struct BuilderEmpty {
    b: Builder,
    kind: Kind,
    shape: Vec<usize>,
}
impl BuilderEmpty {
    pub fn chunk<S: IntoShape>(self, _: S) -> Self {
        self
    }
    pub fn shuffle(self) -> Self {
        self
    }
    pub fn blosc_zstd(self, _: u8, _: bool) -> Self {
        self
    }
    pub fn shape<S: IntoShape>(mut self, s: S) -> Self {
        self.shape = s.dims();
        self
    }
    pub fn deflate(self, _: u8) -> Self {
        self
    }
    pub fn create(self, name: &str) -> Result<Container> {
        let n: usize = self.shape.iter().product();
        let zero = self.kind.store(match self.kind {
            Kind::Str => Cell::S(String::new()),
            _ => Cell::I(0),
        });
        let item = Item { shape: self.shape, kind: self.kind, data: vec![zero; n] };
        self.b.group.insert(self.b.attr, name, item)
    }
}
pub struct BuilderData {
    b: Builder,
    item: Item,
}
impl BuilderData {
    pub fn chunk<S: IntoShape>(self, _: S) -> Self {
        self
    }
    pub fn shuffle(self) -> Self {
        self
    }
    pub fn blosc_zstd(self, _: u8, _: bool) -> Self {
        self
    }
    pub fn create(self, name: &str) -> Result<Container> {
        self.b.group.insert(self.b.attr, name, self.item)
    }
    pub fn deflate(self, _: u8) -> Self {
        self
    }
}
pub trait IntoShape {
    fn dims(self) -> Vec<usize>;
}
impl IntoShape for usize {
    fn dims(self) -> Vec<usize> {
        vec![self]
    }
}
impl IntoShape for (usize,) {
    fn dims(self) -> Vec<usize> {
        vec![self.0]
    }
}
impl IntoShape for (usize, usize) {
    fn dims(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl<const N: usize> IntoShape for [usize; N] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl IntoShape for Vec<usize> {
    fn dims(self) -> Vec<usize> {
        self
    }
}
impl IntoShape for () {
    fn dims(self) -> Vec<usize> {
        vec![]
    }
}
impl IntoShape for &[usize] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}

/// A dataset or an attribute.
#[derive(Clone, Debug)]
pub struct Container {
    item: Shared,
    file: String,
}
pub type Dataset = Container;
pub type Attribute = Container;
impl Container {
    pub fn filename(&self) -> String {
        self.file.clone()
    }
    pub fn shape(&self) -> Vec<usize> {
        self.item.lock().unwrap().shape.clone()
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn is_scalar(&self) -> bool {
        self.ndim() == 0
    }
    /// Not part of the real interface.
    pub fn stored_kind(&self) -> Kind {
        self.item.lock().unwrap().kind
    }
    pub fn as_reader(&self) -> &Self {
        self
    }
    pub fn as_writer(&self) -> &Self {
        self
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        let me = self.item.lock().unwrap();
        let out: Option<Vec<T>> = me.data.iter().map(T::of).collect();
        match out {
            Some(v) => Ok(v),
            None => fail("no conversion between these types"),
        }
    }
    pub fn read_dyn<T: H5Type>(&self) -> Result<ArrayD<T>> {
        let v = self.read_raw::<T>()?;
        Array::from_shape_vec(IxDyn(&self.shape()), v).map_err(|e| Error::Internal(e.to_string()))
    }
    pub fn read<T: H5Type, D: Dimension>(&self) -> Result<Array<T, D>> {
        self.read_dyn::<T>()?
            .into_dimensionality::<D>()
            .map_err(|e| Error::Internal(e.to_string()))
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        self.read()
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        self.read()
    }
    pub fn read_slice<T: H5Type, S: AsRef<[ndarray::SliceInfoElem]>, D: Dimension>(&self, s: S) -> Result<Array<T, D>> {
        let a = self.read_dyn::<T>()?;
        if s.as_ref().iter().filter(|x| !x.is_new_axis()).count() != a.ndim() {
            return fail("selection has another rank");
        }
        a.slice(s.as_ref()).to_owned().into_dimensionality::<D>().map_err(|e| Error::Internal(e.to_string()))
    }
    pub fn read_slice_1d<T: H5Type, S: AsRef<[ndarray::SliceInfoElem]>>(&self, s: S) -> Result<Array1<T>> {
        self.read_slice(s)
    }
    pub fn read_slice_2d<T: H5Type, S: AsRef<[ndarray::SliceInfoElem]>>(&self, s: S) -> Result<Array2<T>> {
        self.read_slice(s)
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        if !self.is_scalar() {
            return fail("not a scalar");
        }
        Ok(self.read_raw::<T>()?.remove(0))
    }
    fn set(&self, cells: Vec<Cell>) -> Result<()> {
        let mut me = self.item.lock().unwrap();
        if cells.len() != me.data.len() {
            return fail("shapes differ");
        }
        let kind = me.kind;
        me.data = cells.into_iter().map(|c| kind.store(c)).collect();
        Ok(())
    }
    pub fn write_scalar<T: H5Type>(&self, v: &T) -> Result<()> {
        if !self.is_scalar() {
            return fail("not a scalar");
        }
        self.set(vec![v.cell()])
    }
    pub fn write_slice<'d, A, S, T, D>(&self, a: A, s: S) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        S: AsRef<[ndarray::SliceInfoElem]>,
        T: H5Type + 'd,
        D: Dimension,
    {
        let v: ArrayView<T, D> = a.into();
        let mut me = self.item.lock().unwrap();
        let kind = me.kind;
        let shape = IxDyn(&me.shape);
        let mut whole = ndarray::ArrayViewMut::from_shape(shape, &mut me.data).map_err(|e| Error::Internal(e.to_string()))?;
        let mut part = whole.slice_mut(s.as_ref());
        if part.shape() != v.shape() {
            return fail("shapes differ");
        }
        part.iter_mut().zip(v.iter()).for_each(|(x, y)| *x = kind.store(y.cell()));
        Ok(())
    }
    pub fn write_raw<'d, A, T>(&self, a: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, ndarray::Ix1>>,
        T: H5Type + 'd,
    {
        self.set(a.into().iter().map(|x| x.cell()).collect())
    }
    pub fn write<'d, A, T, D>(&self, a: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type + 'd,
        D: Dimension,
    {
        let v: ArrayView<T, D> = a.into();
        if v.shape() != self.shape() {
            return fail("shapes differ");
        }
        self.set(v.iter().map(|x| x.cell()).collect())
    }
}

/// Files as JSON, for a process that is not written in Rust (not part of the real interface).
#[cfg(feature = "ffi")]
pub mod ffi {
    use super::*;
    use serde_json::{json, Map, Value};
    use std::ffi::{c_char, CStr, CString};

    fn kind_of(s: &str) -> Kind {
        match s {
            "i32" => i32::kind(),
            "u64" => u64::kind(),
            _ => Kind::F64,
        }
    }
    fn item_in(v: &Value) -> Shared {
        let kind = kind_of(v["k"].as_str().unwrap());
        let shape = v["s"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let data = v["d"].as_array().unwrap().iter().map(|x| kind.store(Cell::F(x.as_f64().unwrap_or(f64::NAN)))).collect();
        Arc::new(Mutex::new(Item { shape, kind, data }))
    }
    fn node_in(v: &Value) -> Arc<Mutex<Node>> {
        let members = |k: &str| v[k].as_object().cloned().unwrap_or_default();
        Arc::new(Mutex::new(Node {
            groups: members("groups").iter().map(|(k, v)| (k.clone(), node_in(v))).collect(),
            datasets: members("datasets").iter().map(|(k, v)| (k.clone(), item_in(v))).collect(),
            attrs: members("attrs").iter().map(|(k, v)| (k.clone(), item_in(v))).collect(),
        }))
    }
    fn item_out(i: &Shared) -> Value {
        let i = i.lock().unwrap();
        let d: Vec<Value> = i
            .data
            .iter()
            .map(|c| match c {
                Cell::F(v) if v.is_finite() => json!(v),
                Cell::F(v) => json!(v.to_string()),
                Cell::I(v) => json!(*v as i64),
                Cell::S(s) => json!(s),
            })
            .collect();
        json!({"s": i.shape, "d": d})
    }
    fn node_out(n: &Arc<Mutex<Node>>) -> Value {
        let n = n.lock().unwrap();
        let m = |it: Vec<(String, Value)>| Value::Object(it.into_iter().collect::<Map<_, _>>());
        json!({
            "groups": m(n.groups.iter().map(|(k, v)| (k.clone(), node_out(v))).collect()),
            "datasets": m(n.datasets.iter().map(|(k, v)| (k.clone(), item_out(v))).collect()),
            "attrs": m(n.attrs.iter().map(|(k, v)| (k.clone(), item_out(v))).collect()),
        })
    }
    unsafe fn text(p: *const c_char) -> String {
        CStr::from_ptr(p).to_str().unwrap().to_string()
    }
    /// Puts a file there.
    /// # Safety
    /// Both arguments are terminated strings.
    #[no_mangle]
    pub unsafe extern "C" fn hdf5_stub_load(name: *const c_char, content: *const c_char) {
        let v: Value = serde_json::from_str(&text(content)).unwrap();
        files().lock().unwrap().insert(text(name), node_in(&v));
    }
    /// What a file holds; null if it does not exist. The caller gives the string back.
    /// # Safety
    /// The argument is a terminated string.
    #[no_mangle]
    pub unsafe extern "C" fn hdf5_stub_dump(name: *const c_char) -> *mut c_char {
        match files().lock().unwrap().get(&text(name)) {
            Some(n) => CString::new(node_out(n).to_string()).unwrap().into_raw(),
            None => std::ptr::null_mut(),
        }
    }
    /// # Safety
    /// The argument comes from `hdf5_stub_dump`.
    #[no_mangle]
    pub unsafe extern "C" fn hdf5_stub_free(p: *mut c_char) {
        drop(CString::from_raw(p));
    }
    #[no_mangle]
    pub extern "C" fn hdf5_stub_forget() {
        forget_all();
    }
}
