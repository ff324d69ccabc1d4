//! One interface over the two builds of fraos (as shipped, and with small growth constants), the reference list
//! and the comparison of the two.

use mclib::{ensure, ensure_eq, Ctx, Violation};
use std::{
    fs,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

pub type Rows<'a> = Box<dyn Iterator<Item = Result<Vec<u8>, String>> + 'a>;

pub trait Db: Clone + 'static {
    const NAME: &'static str;
    /// a record size that does not fit into what is left of a mapping after a couple of small records
    const BIG: usize;
    fn file(p: &Path) -> Result<Self, String>;
    fn readonly(p: &Path) -> Result<Self, String>;
    fn memory() -> Result<Self, String>;
    fn append(&self, r: &[&[u8]]) -> Result<(), String>;
    fn append_get_seqno(&self, r: &[&[u8]]) -> Result<Option<usize>, String>;
    fn put(&self, r: &[u8]) -> Result<(), String>;
    fn put_seqno(&self, r: &[u8]) -> Result<usize, String>;
    fn get(&self, n: usize) -> Result<Option<Vec<u8>>, String>;
    fn rows(&self, n: usize) -> Option<Rows<'static>>;
    fn last(&self) -> Result<Option<Vec<u8>>, String>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

macro_rules! implement {
    ($ty:ty, $name:literal, $big:literal) => {
        impl Db for $ty {
            const NAME: &'static str = $name;
            const BIG: usize = $big;
            fn file(p: &Path) -> Result<Self, String> {
                <$ty>::file(p).map_err(|e| format!("{e:?}"))
            }
            fn readonly(p: &Path) -> Result<Self, String> {
                <$ty>::file_readonly(p).map_err(|e| format!("{e:?}"))
            }
            fn memory() -> Result<Self, String> {
                <$ty>::memory().map_err(|e| format!("{e:?}"))
            }
            fn append(&self, r: &[&[u8]]) -> Result<(), String> {
                <$ty>::append(self, r).map_err(|e| format!("{e:?}"))
            }
            fn append_get_seqno(&self, r: &[&[u8]]) -> Result<Option<usize>, String> {
                <$ty>::append_get_seqno(self, r).map_err(|e| format!("{e:?}"))
            }
            fn put(&self, r: &[u8]) -> Result<(), String> {
                <$ty>::put(self, r).map_err(|e| format!("{e:?}"))
            }
            fn put_seqno(&self, r: &[u8]) -> Result<usize, String> {
                <$ty>::put_seqno(self, r).map_err(|e| format!("{e:?}"))
            }
            fn get(&self, n: usize) -> Result<Option<Vec<u8>>, String> {
                <$ty>::get_by_seqno(self, n).map_err(|e| format!("{e:?}"))
            }
            fn rows(&self, n: usize) -> Option<Rows<'static>> {
                Some(Box::new(<$ty>::iter_from_seqno(self, n)?.map(|r| r.map_err(|e| format!("{e:?}")))))
            }
            fn last(&self) -> Result<Option<Vec<u8>>, String> {
                <$ty>::last(self).map_err(|e| format!("{e:?}"))
            }
            fn len(&self) -> usize {
                <$ty>::len(self)
            }
            fn is_empty(&self) -> bool {
                <$ty>::is_empty(self)
            }
        }
    };
}

implement!(fraos::Database, "shipped constants", 300_000);
implement!(fraos_small::Database, "small constants", 70);

/// A scratch directory of one execution, removed with it.
pub struct Scratch(PathBuf);

static NEXT: AtomicU64 = AtomicU64::new(0);

fn base() -> PathBuf {
    PathBuf::from("/dev/shm").join(format!("mc-fraos-{}", std::process::id()))
}

impl Scratch {
    pub fn new() -> Self {
        let d = base().join(NEXT.fetch_add(1, Ordering::Relaxed).to_string());
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }

    /// a path inside that does not exist yet
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// distinct, self-describing contents: the `n`-th record made, `len` bytes long, no zero byte
pub fn record(n: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| if i == 0 { 1 + (n % 250) as u8 } else { 1 + ((n * 7 + i * 13 + i / 251) % 255) as u8 }).collect()
}

pub fn show(r: &[u8]) -> String {
    if r.len() <= 12 {
        format!("{r:02x?}")
    } else {
        format!("{:02x?}.. ({} bytes)", &r[..4], r.len())
    }
}

pub fn show_opt(r: &Result<Option<Vec<u8>>, String>) -> String {
    match r {
        Ok(None) => "absent".into(),
        Ok(Some(r)) => show(r),
        Err(e) => format!("error {e}"),
    }
}

/// everything a reader can ask of `db`, against the list of records it must hold
pub fn compare<D: Db>(ctx: &mut Ctx, db: &D, want: &[Vec<u8>], when: &str) -> Result<(), Violation> {
    ctx.step();
    ensure_eq!(db.len(), want.len(), "len", "{when}: number of records");
    ensure_eq!(db.is_empty(), want.is_empty(), "is_empty", "{when}: is_empty");
    let last = db.last();
    ensure!(last.as_ref().is_ok_and(|l| l.as_ref() == want.last()), "last", "{when}: last() is {}", show_opt(&last));
    for (i, w) in want.iter().enumerate() {
        let got = db.get(i);
        ensure!(
            got.as_ref().is_ok_and(|g| g.as_ref() == Some(w)),
            "get",
            "{when}: record {i} of {} is {}, expected {}",
            want.len(),
            show_opt(&got),
            show(w)
        );
    }
    let n = want.len();
    for at in [n, n + 1, n + 7, n + 4096, n + (1 << 32), usize::MAX >> 5, usize::MAX >> 4, (usize::MAX >> 4) + 1, (usize::MAX >> 4) + 2, usize::MAX - 1, usize::MAX] {
        let got = db.get(at);
        ensure!(matches!(got, Ok(None)), "get past the end", "{when}: record {at} of {n} is {}", show_opt(&got));
    }
    // every start when the log is short, the interesting ones when it is not
    let starts: Vec<usize> =
        if n <= 8 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    for from in starts.into_iter().chain([usize::MAX >> 4, (usize::MAX >> 4) + 1, usize::MAX]) {
        let rows: Vec<Result<Vec<u8>, String>> = match db.rows(from) {
            None => vec![],
            Some(it) => it.take(n + 2).collect(),
        };
        let tail = want.get(from..).unwrap_or(&[]);
        for (k, r) in rows.iter().enumerate() {
            match r {
                Err(e) => return Err(mclib::violation("iter", format!("{when}: iterating from {from}: item {k} is an error: {e}"))),
                Ok(r) => ensure!(
                    tail.get(k) == Some(r),
                    "iter",
                    "{when}: iterating from {from} of {n}: item {k} is {}, expected {}",
                    show(r),
                    tail.get(k).map_or("the end".into(), |t| show(t))
                ),
            }
        }
        ensure_eq!(rows.len(), tail.len(), "iter", "{when}: items iterated from {from} of {n}");
    }
    Ok(())
}
