//! The storage stand-in against the real sled: the same operations give the same answers.

use mclib::{ensure, violation, Ctx, End, RunResult, Scenario, Tier, Violation};

macro_rules! side {
    ($name:ident, $sled:ident) => {
        mod $name {
            use std::path::Path;
            pub struct Side {
                db: Option<$sled::Db>,
                tree: Option<$sled::Tree>,
            }
            fn show(r: Result<Option<$sled::IVec>, $sled::Error>) -> String {
                format!("{:?}", r.map(|v| v.map(|v| v.to_vec())).map_err(|e| e.to_string()))
            }
            fn row(r: Result<($sled::IVec, $sled::IVec), $sled::Error>) -> (Vec<u8>, Vec<u8>) {
                r.map(|(k, v)| (k.to_vec(), v.to_vec())).unwrap_or_default()
            }
            impl Side {
                pub fn open(p: &Path, domain: &str) -> Result<Self, String> {
                    let mut patience = 2000;
                    let db = loop {
                        match $sled::Config::new().path(p).open() {
                            Err(e) if e.to_string().contains("acquire lock") && patience > 0 => {
                                patience -= 1;
                                std::thread::sleep(std::time::Duration::from_millis(5));
                            }
                            r => break r.map_err(|e| e.to_string())?,
                        }
                    };
                    let tree = db.open_tree(domain).map_err(|e| e.to_string())?;
                    Ok(Side { db: Some(db), tree: Some(tree) })
                }
                pub fn run(&mut self, what: usize, k: &[u8], v: &[u8]) -> String {
                    let t = self.tree.as_ref().unwrap();
                    match what {
                        0 => show(t.insert(k, v)),
                        1 => show(t.remove(k)),
                        2 => format!("{:?}", t.clear().is_ok()),
                        3 => format!("{:?}", t.flush().is_ok()),
                        4 => {
                            let mut b = $sled::Batch::default();
                            b.insert(k, v);
                            b.remove(&b"b"[..]);
                            b.insert(&b"z"[..], k);
                            format!("{:?}", t.apply_batch(b).is_ok())
                        }
                        5 => {
                            let name = t.name();
                            let db = self.db.as_ref().unwrap();
                            let r = db.drop_tree(name).map_err(|e| e.to_string());
                            self.tree = Some(db.open_tree("other").unwrap());
                            format!("{r:?}")
                        }
                        _ => show(t.update_and_fetch(k, |old| old.map(|o| [o, v].concat()))),
                    }
                }
                pub fn view(&self) -> String {
                    let t = self.tree.as_ref().unwrap();
                    let mut s = format!("{} {} {:?};", t.len(), t.is_empty(), t.name().to_vec());
                    s += &format!("{:?};", t.iter().map(row).collect::<Vec<_>>());
                    s += &format!("{:?};", t.iter().rev().map(row).collect::<Vec<_>>());
                    s += &format!("{:?};", t.iter().values().map(|v| v.unwrap().to_vec()).collect::<Vec<_>>());
                    s += &format!("{:?};", t.iter().keys().map(|v| v.unwrap().to_vec()).collect::<Vec<_>>());
                    for k in [&b""[..], b"a", b"ab", b"b", b"\xff"] {
                        s += &format!("{} {:?};", show(t.get(k)), t.contains_key(k).map_err(|e| e.to_string()));
                        s += &format!("{:?};", t.range(k..).map(row).collect::<Vec<_>>());
                        s += &format!("{:?};", t.range(..=k).map(row).collect::<Vec<_>>());
                        s += &format!("{:?};", t.scan_prefix(k).map(row).collect::<Vec<_>>());
                        s += &format!("{:?};", t.get_lt(k).unwrap().map(|r| row(Ok(r))));
                        s += &format!("{:?};", t.get_gt(k).unwrap().map(|r| row(Ok(r))));
                    }
                    s += &format!("{:?} {:?};", t.first().unwrap().map(|r| row(Ok(r))), t.last().unwrap().map(|r| row(Ok(r))));
                    let mut names: Vec<Vec<u8>> = self.db.as_ref().unwrap().tree_names().iter().map(|n| n.to_vec()).collect();
                    names.sort();
                    s + &format!("{names:?}")
                }
                pub fn close(&mut self) {
                    self.tree = None;
                    self.db = None;
                }
            }
        }
    };
}

side!(real, sled);
side!(stand, mc_sled);

const KEYS: [&[u8]; 4] = [b"", b"a", b"ab", b"b"];

fn same(when: &str, real: &str, stand: &str) -> Result<(), Violation> {
    ensure!(real == stand, "stand-in differs", "{when}: sled says {real}, the stand-in {stand}");
    Ok(())
}

fn run(ctx: &mut Ctx, depth: usize) -> RunResult {
    let d = crate::mv::Disk::new();
    let e = |e: String| violation("open", e);
    let mut a = real::Side::open(&d.0, "d").map_err(e)?;
    let mut b = stand::Side::open(&d.0, "d").map_err(e)?;
    for step in 0..depth {
        // 4 keys each for insert, remove, update; clear, flush, batch, drop, reopen
        let c = ctx.choose(17);
        let (what, k) = match c {
            0..=11 => ([0, 1, 6][c / 4], KEYS[c % 4]),
            12..=15 => (c - 10, KEYS[step % 4]),
            _ => (9, KEYS[0]),
        };
        let when = format!("step {step}: operation {what} on {k:?}");
        ctx.note(|| when.clone());
        if what == 9 {
            a.close();
            b.close();
            a = real::Side::open(&d.0, "d").map_err(e)?;
            b = stand::Side::open(&d.0, "d").map_err(e)?;
        } else {
            let v = [step as u8; 3];
            let (x, y) = (a.run(what, k, &v), b.run(what, k, &v));
            same(&when, &x, &y)?;
        }
        let (x, y) = (a.view(), b.view());
        same(&when, &x, &y)?;
        ctx.step();
        ctx.state(&x);
    }
    a.close();
    b.close();
    Ok(End::Done)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let depth = tier.of(2, 3);
    vec![Scenario::new(
        "the storage stand-in against the real sled",
        format!("every sequence of {depth} insertions, removals, updates, clears, flushes, batches, tree drops and reopenings over four keys, run on both; every answer and the whole contents compared after every step"),
        0,
        move |ctx: &mut Ctx| run(ctx, depth),
    )]
}
