//! An in-memory stand-in with sled's interface.  Every operation is a scheduling point, may be told to fail, and is
//! logged: what was not flushed may be lost by a crash, last operations first.  Databases are identified by their
//! path, as long as the process lives.

use std::{
    borrow::Borrow,
    cell::Cell,
    collections::BTreeMap,
    fmt, io,
    ops::{Bound, Deref, RangeBounds},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex, MutexGuard, OnceLock,
    },
};

// ---------------------------------------------------------------- values and errors

#[derive(Clone, Eq, PartialOrd, Ord, Default)]
pub struct IVec(Arc<Vec<u8>>);

impl IVec {
    pub fn subslice(&self, at: usize, len: usize) -> IVec {
        IVec(Arc::new(self.0[at..at + len].to_vec()))
    }
}

impl Deref for IVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::DerefMut for IVec {
    fn deref_mut(&mut self) -> &mut [u8] {
        Arc::make_mut(&mut self.0).as_mut_slice()
    }
}
impl AsRef<[u8]> for IVec {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Borrow<[u8]> for IVec {
    fn borrow(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for IVec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
macro_rules! from {
    ($($t:ty),*) => { $(impl From<$t> for IVec {
        fn from(v: $t) -> Self {
            let b: &[u8] = v.as_ref();
            IVec(Arc::new(b.to_vec()))
        }
    })* };
}
from!(&[u8], &str, String, &String, &Vec<u8>, Box<[u8]>, Arc<[u8]>, &IVec);
impl From<Vec<u8>> for IVec {
    fn from(v: Vec<u8>) -> Self {
        IVec(Arc::new(v))
    }
}
impl<const N: usize> From<[u8; N]> for IVec {
    fn from(v: [u8; N]) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl<const N: usize> From<&[u8; N]> for IVec {
    fn from(v: &[u8; N]) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl FromIterator<u8> for IVec {
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        IVec(Arc::new(i.into_iter().collect()))
    }
}
impl std::hash::Hash for IVec {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T: ?Sized + AsRef<[u8]>> PartialEq<T> for IVec {
    fn eq(&self, o: &T) -> bool {
        self.0.as_slice() == o.as_ref()
    }
}

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    CollectionNotFound(IVec),
    Unsupported(String),
    ReportableBug(String),
    Io(io::Error),
    Corruption { at: Option<u64>, bt: () },
}

impl Clone for Error {
    fn clone(&self) -> Self {
        match self {
            Error::CollectionNotFound(n) => Error::CollectionNotFound(n.clone()),
            Error::Unsupported(s) => Error::Unsupported(s.clone()),
            Error::ReportableBug(s) => Error::ReportableBug(s.clone()),
            Error::Io(e) => Error::Io(io::Error::new(e.kind(), e.to_string())),
            Error::Corruption { at, .. } => Error::Corruption { at: *at, bt: () },
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::CollectionNotFound(n) => write!(f, "Collection {n:?} does not exist"),
            Error::Unsupported(s) => write!(f, "Unsupported: {s}"),
            Error::ReportableBug(s) => write!(f, "Bug: {s}"),
            Error::Io(e) => write!(f, "IO error: {e}"),
            Error::Corruption { at, .. } => write!(f, "Read corrupted data at file offset {at:?}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<Error> for io::Error {
    fn from(e: Error) -> io::Error {
        match e {
            Error::Io(e) => e,
            e => io::Error::new(io::ErrorKind::Other, e.to_string()),
        }
    }
}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::Io(e)
    }
}

pub type Result<T, E = Error> = std::result::Result<T, E>;

// ---------------------------------------------------------------- the disk

type Tables = BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, IVec>>;

#[derive(Clone, Debug)]
enum Op {
    Open(Vec<u8>),
    Drop(Vec<u8>),
    Put(Vec<u8>, Vec<u8>, IVec),
    Del(Vec<u8>, Vec<u8>),
    Clear(Vec<u8>),
    /// indivisible
    All(Vec<Op>),
}

fn apply(t: &mut Tables, op: &Op) {
    match op {
        Op::Open(n) => {
            t.entry(n.clone()).or_default();
        }
        Op::Drop(n) => {
            t.remove(n);
        }
        Op::Put(n, k, v) => {
            t.entry(n.clone()).or_default().insert(k.clone(), v.clone());
        }
        Op::Del(n, k) => {
            t.entry(n.clone()).or_default().remove(k);
        }
        Op::Clear(n) => t.entry(n.clone()).or_default().clear(),
        Op::All(ops) => ops.iter().for_each(|o| apply(t, o)),
    }
}

#[derive(Default)]
struct Disk {
    flushed: Tables,
    pending: Vec<Op>,
    now: Tables,
    ids: u64,
}

impl Disk {
    fn run(&mut self, op: Op) {
        apply(&mut self.now, &op);
        self.pending.push(op);
    }
    fn flush(&mut self) {
        self.flushed = self.now.clone();
        self.pending.clear();
    }
}

fn disks() -> MutexGuard<'static, BTreeMap<PathBuf, Arc<Mutex<Disk>>>> {
    static DISKS: OnceLock<Mutex<BTreeMap<PathBuf, Arc<Mutex<Disk>>>>> = OnceLock::new();
    DISKS.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner())
}

fn grab(d: &Mutex<Disk>) -> MutexGuard<'_, Disk> {
    d.lock().unwrap_or_else(|e| e.into_inner())
}

type Fault = *mut (dyn FnMut(&'static str) -> bool);

thread_local! {
    static FAULT: Cell<Option<Fault>> = const { Cell::new(None) };
}

fn enter(what: &'static str) -> Result<()> {
    mc_sched::point(what);
    if let Some(f) = FAULT.with(|f| f.get()) {
        FAULT.with(|c| c.set(None));
        let fails = unsafe { (*f)(what) };
        FAULT.with(|c| c.set(Some(f)));
        if fails {
            return Err(Error::Io(io::Error::new(io::ErrorKind::Other, format!("injected failure of {what}"))));
        }
    }
    Ok(())
}

/// What harnesses do to the stand-in.
pub mod mc {
    use super::*;

    /// runs `body` with `fault` deciding which operations fail
    pub fn with_faults<T>(fault: &mut dyn FnMut(&'static str) -> bool, body: impl FnOnce() -> T) -> T {
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                FAULT.with(|f| f.set(None));
            }
        }
        let _reset = Reset;
        let p: *mut (dyn FnMut(&'static str) -> bool + '_) = fault;
        // cleared before `fault` goes out of scope
        let p: Fault = unsafe { std::mem::transmute(p) };
        FAULT.with(|f| f.set(Some(p)));
        body()
    }

    /// number of states a crash may leave the database at `path` in
    pub fn crash_states(path: &Path) -> usize {
        disks().get(path).map_or(1, |d| grab(d).pending.len() + 1)
    }

    /// what a crash leaves when the first `kept` unflushed operations survive, as a database at `to`
    pub fn crash(path: &Path, kept: usize, to: &Path) {
        let mut t = Tables::new();
        if let Some(d) = disks().get(path) {
            let d = grab(d);
            t = d.flushed.clone();
            d.pending.iter().take(kept).for_each(|o| apply(&mut t, o));
        }
        let d = Disk { flushed: t.clone(), pending: vec![], now: t, ids: 0 };
        disks().insert(to.into(), Arc::new(Mutex::new(d)));
    }

    /// current contents of a tree
    pub fn contents(path: &Path, tree: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
        disks().get(path).map_or(vec![], |d| {
            grab(d).now.get(tree).map_or(vec![], |t| t.iter().map(|(k, v)| (k.clone(), v.to_vec())).collect())
        })
    }

    pub fn forget(path: &Path) {
        disks().remove(path);
    }
}

// ---------------------------------------------------------------- configuration

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    LowSpace,
    HighThroughput,
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    path: Option<PathBuf>,
    temporary: bool,
}

impl Config {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self {
        self.path = Some(p.as_ref().into());
        self
    }
    pub fn temporary(mut self, t: bool) -> Self {
        self.temporary = t;
        self
    }
    pub fn mode(self, _: Mode) -> Self {
        self
    }
    pub fn cache_capacity(self, _: u64) -> Self {
        self
    }
    pub fn flush_every_ms(self, _: Option<u64>) -> Self {
        self
    }
    pub fn use_compression(self, _: bool) -> Self {
        self
    }
    pub fn compression_factor(self, _: i32) -> Self {
        self
    }
    pub fn print_profile_on_drop(self, _: bool) -> Self {
        self
    }
    pub fn create_new(self, _: bool) -> Self {
        self
    }
    pub fn open(&self) -> Result<Db> {
        enter("sled open")?;
        let (disk, recovered) = match &self.path {
            Some(p) if !self.temporary => {
                let mut all = disks();
                let known = all.contains_key(p);
                (all.entry(p.clone()).or_default().clone(), known)
            }
            _ => (Arc::default(), false),
        };
        let default = b"__sled__default".to_vec();
        grab(&disk).now.entry(default.clone()).or_default();
        let tree = Tree { disk: disk.clone(), name: Arc::new(default) };
        Ok(Db { tree, recovered, open: Arc::new(Opened { disk }) })
    }
}

pub fn open<P: AsRef<Path>>(p: P) -> Result<Db> {
    Config::new().path(p).open()
}

// ---------------------------------------------------------------- databases

/// the last handle of a database writes everything out when it goes
struct Opened {
    disk: Arc<Mutex<Disk>>,
}

impl Drop for Opened {
    fn drop(&mut self) {
        grab(&self.disk).flush();
    }
}

#[derive(Clone)]
pub struct Db {
    tree: Tree,
    recovered: bool,
    open: Arc<Opened>,
}

impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.tree
    }
}

impl fmt::Debug for Db {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Db")
    }
}

impl Db {
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        enter("sled open_tree")?;
        let name = name.as_ref().to_vec();
        let mut d = grab(&self.open.disk);
        if !d.now.contains_key(&name) {
            d.run(Op::Open(name.clone()));
        }
        Ok(Tree { disk: self.open.disk.clone(), name: Arc::new(name) })
    }
    pub fn drop_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<bool> {
        enter("sled drop_tree")?;
        let name = name.as_ref().to_vec();
        let mut d = grab(&self.open.disk);
        let was = d.now.contains_key(&name);
        d.run(Op::Drop(name));
        Ok(was)
    }
    pub fn tree_names(&self) -> Vec<IVec> {
        grab(&self.open.disk).now.keys().map(|k| IVec::from(k.clone())).collect()
    }
    pub fn was_recovered(&self) -> bool {
        self.recovered
    }
    pub fn generate_id(&self) -> Result<u64> {
        enter("sled generate_id")?;
        let mut d = grab(&self.open.disk);
        d.ids += 1;
        Ok(d.ids - 1)
    }
    pub fn size_on_disk(&self) -> Result<u64> {
        Ok(0)
    }
    pub fn checksum(&self) -> Result<u32> {
        Ok(0)
    }
    pub fn flush(&self) -> Result<usize> {
        self.tree.flush()
    }
}

#[derive(Clone, Default, Debug)]
pub struct Batch(Vec<(Vec<u8>, Option<IVec>)>);

impl Batch {
    pub fn insert<K: Into<IVec>, V: Into<IVec>>(&mut self, k: K, v: V) {
        self.0.push((k.into().to_vec(), Some(v.into())));
    }
    pub fn remove<K: Into<IVec>>(&mut self, k: K) {
        self.0.push((k.into().to_vec(), None));
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompareAndSwapError {
    pub current: Option<IVec>,
    pub proposed: Option<IVec>,
}

impl fmt::Display for CompareAndSwapError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Compare and swap conflict")
    }
}
impl std::error::Error for CompareAndSwapError {}

#[derive(Clone)]
pub struct Tree {
    disk: Arc<Mutex<Disk>>,
    name: Arc<Vec<u8>>,
}

impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Tree")
    }
}

impl Tree {
    fn with<T>(&self, f: impl FnOnce(&BTreeMap<Vec<u8>, IVec>) -> T) -> T {
        let d = grab(&self.disk);
        match d.now.get(self.name.as_slice()) {
            Some(t) => f(t),
            None => f(&BTreeMap::new()),
        }
    }
    fn run(&self, op: Op) {
        grab(&self.disk).run(op)
    }
    fn put(&self, k: &[u8], v: IVec) -> Option<IVec> {
        let was = self.with(|t| t.get(k).cloned());
        self.run(Op::Put(self.name.to_vec(), k.to_vec(), v));
        was
    }
    fn del(&self, k: &[u8]) -> Option<IVec> {
        let was = self.with(|t| t.get(k).cloned());
        if was.is_some() {
            self.run(Op::Del(self.name.to_vec(), k.to_vec()));
        }
        was
    }

    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        enter("sled insert")?;
        Ok(self.put(k.as_ref(), v.into()))
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        enter("sled get")?;
        Ok(self.with(|t| t.get(k.as_ref()).cloned()))
    }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        enter("sled remove")?;
        Ok(self.del(k.as_ref()))
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> {
        enter("sled contains_key")?;
        Ok(self.with(|t| t.contains_key(k.as_ref())))
    }
    pub fn clear(&self) -> Result<()> {
        enter("sled clear")?;
        self.run(Op::Clear(self.name.to_vec()));
        Ok(())
    }
    pub fn len(&self) -> usize {
        mc_sched::point("sled len");
        self.with(|t| t.len())
    }
    pub fn is_empty(&self) -> bool {
        mc_sched::point("sled is_empty");
        self.with(|t| t.is_empty())
    }
    pub fn name(&self) -> IVec {
        IVec::from(self.name.to_vec())
    }
    pub fn apply_batch(&self, b: Batch) -> Result<()> {
        enter("sled apply_batch")?;
        let ops = b
            .0
            .into_iter()
            .map(|(k, v)| match v {
                Some(v) => Op::Put(self.name.to_vec(), k, v),
                None => Op::Del(self.name.to_vec(), k),
            })
            .collect();
        self.run(Op::All(ops));
        Ok(())
    }
    pub fn compare_and_swap<K, OV, NV>(
        &self,
        k: K,
        old: Option<OV>,
        new: Option<NV>,
    ) -> Result<std::result::Result<(), CompareAndSwapError>>
    where
        K: AsRef<[u8]>,
        OV: AsRef<[u8]>,
        NV: Into<IVec>,
    {
        enter("sled compare_and_swap")?;
        let k = k.as_ref();
        let was = self.with(|t| t.get(k).cloned());
        let new: Option<IVec> = new.map(Into::into);
        if was.as_deref() != old.as_ref().map(|o| o.as_ref()) {
            return Ok(Err(CompareAndSwapError { current: was, proposed: new }));
        }
        match new {
            Some(v) => self.put(k, v),
            None => self.del(k),
        };
        Ok(Ok(()))
    }
    fn change<K, V, F>(&self, k: K, mut f: F) -> Result<(Option<IVec>, Option<IVec>)>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        enter("sled update")?;
        let was = self.with(|t| t.get(k.as_ref()).cloned());
        let now: Option<IVec> = f(was.as_deref()).map(Into::into);
        match &now {
            Some(v) => self.put(k.as_ref(), v.clone()),
            None => self.del(k.as_ref()),
        };
        Ok((was, now))
    }
    pub fn update_and_fetch<K, V, F>(&self, k: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        Ok(self.change(k, f)?.1)
    }
    pub fn fetch_and_update<K, V, F>(&self, k: K, f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        Ok(self.change(k, f)?.0)
    }
    pub fn flush(&self) -> Result<usize> {
        enter("sled flush")?;
        grab(&self.disk).flush();
        Ok(0)
    }
    pub fn iter(&self) -> Iter {
        self.range::<&[u8], _>(..)
    }
    pub fn range<K, R>(&self, r: R) -> Iter
    where
        K: AsRef<[u8]>,
        R: RangeBounds<K>,
    {
        let own = |b: Bound<&K>| match b {
            Bound::Included(k) => Bound::Included(k.as_ref().to_vec()),
            Bound::Excluded(k) => Bound::Excluded(k.as_ref().to_vec()),
            Bound::Unbounded => Bound::Unbounded,
        };
        Iter { tree: self.clone(), lo: own(r.start_bound()), hi: own(r.end_bound()), failed: false }
    }
    pub fn scan_prefix<P: AsRef<[u8]>>(&self, p: P) -> Iter {
        let p = p.as_ref();
        let mut hi = p.to_vec();
        let mut end = Bound::Unbounded;
        while let Some(last) = hi.pop() {
            if last < 255 {
                hi.push(last + 1);
                end = Bound::Excluded(hi.clone());
                break;
            }
        }
        Iter { tree: self.clone(), lo: Bound::Included(p.to_vec()), hi: end, failed: false }
    }
    pub fn first(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next().transpose()
    }
    pub fn last(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next_back().transpose()
    }
    pub fn pop_min(&self) -> Result<Option<(IVec, IVec)>> {
        enter("sled pop_min")?;
        let kv = self.with(|t| t.iter().next().map(|(k, v)| (k.clone(), v.clone())));
        Ok(kv.map(|(k, v)| {
            self.del(&k);
            (k.into(), v)
        }))
    }
    pub fn pop_max(&self) -> Result<Option<(IVec, IVec)>> {
        enter("sled pop_max")?;
        let kv = self.with(|t| t.iter().next_back().map(|(k, v)| (k.clone(), v.clone())));
        Ok(kv.map(|(k, v)| {
            self.del(&k);
            (k.into(), v)
        }))
    }
    pub fn get_lt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(IVec, IVec)>> {
        self.range::<&[u8], _>((Bound::Unbounded, Bound::Excluded(k.as_ref()))).next_back().transpose()
    }
    pub fn get_gt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(IVec, IVec)>> {
        self.range::<&[u8], _>((Bound::Excluded(k.as_ref()), Bound::Unbounded)).next().transpose()
    }
    pub fn checksum(&self) -> Result<u32> {
        Ok(0)
    }
}

pub struct Iter {
    tree: Tree,
    lo: Bound<Vec<u8>>,
    hi: Bound<Vec<u8>>,
    failed: bool,
}

impl Iter {
    fn step(&mut self, back: bool) -> Option<Result<(IVec, IVec)>> {
        if self.failed {
            return None;
        }
        if let Err(e) = enter("sled iter") {
            self.failed = true;
            return Some(Err(e));
        }
        let empty = match (&self.lo, &self.hi) {
            (Bound::Included(a), Bound::Included(b)) => a > b,
            (Bound::Included(a), Bound::Excluded(b))
            | (Bound::Excluded(a), Bound::Included(b))
            | (Bound::Excluded(a), Bound::Excluded(b)) => a >= b,
            _ => false,
        };
        if empty {
            return None;
        }
        let range = (self.lo.clone(), self.hi.clone());
        let kv = self.tree.with(|t| {
            let mut r = t.range(range);
            if back { r.next_back() } else { r.next() }.map(|(k, v)| (k.clone(), v.clone()))
        })?;
        if back {
            self.hi = Bound::Excluded(kv.0.clone());
        } else {
            self.lo = Bound::Excluded(kv.0.clone());
        }
        Some(Ok((kv.0.into(), kv.1)))
    }
    pub fn keys(self) -> impl DoubleEndedIterator<Item = Result<IVec>> + Send + Sync {
        self.map(|r| r.map(|(k, _)| k))
    }
    pub fn values(self) -> impl DoubleEndedIterator<Item = Result<IVec>> + Send + Sync {
        self.map(|r| r.map(|(_, v)| v))
    }
}

impl Iterator for Iter {
    type Item = Result<(IVec, IVec)>;
    fn next(&mut self) -> Option<Self::Item> {
        self.step(false)
    }
}

impl DoubleEndedIterator for Iter {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.step(true)
    }
}

impl IntoIterator for &'_ Tree {
    type Item = Result<(IVec, IVec)>;
    type IntoIter = Iter;
    fn into_iter(self) -> Iter {
        self.iter()
    }
}

/// fresh paths for harnesses
pub fn fresh_path() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    PathBuf::from(format!("/mc-sled/{}", N.fetch_add(1, Ordering::Relaxed)))
}
