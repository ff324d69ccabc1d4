//! Stand-in for cardano-net with a model of the node at the other end.  Every exchange with the node waits at a gate,
//! which the explorer opens, so that it decides how the exchanges interleave with everything else.

use cardano_sdk::chaininfo::ChainInfo;
pub use cardano_sdk::protocol::{BlockFetch, ChainSync, Point, SerializedBlock, Tip, TxSubmit, Version};
use std::{
    cell::RefCell,
    fmt,
    future::Future,
    marker::PhantomData,
    pin::Pin,
    task::{Context, Poll, Waker},
};

#[derive(Clone, Debug)]
pub struct NetworkDescription {
    pub anchor_hosts: Vec<(String, u16)>,
    pub chain_info: ChainInfo,
    pub net_versions: Vec<Version>,
    pub known_points: Vec<(u64, Point)>,
}

pub enum ChainIntersection {
    Found(Point, Tip),
    NotFound(Tip),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ProtocolError {
    Disconnected,
    UnexpectedVariant(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetworkError {
    ProtocolError(ProtocolError),
    ConnectError,
}

macro_rules! error {
    ($($t:ty)*) => {$(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(self, f)
            }
        }
        impl std::error::Error for $t {}
    )*};
}
error!(ProtocolError NetworkError);

/// The node, on whose connections exchanges happen one at a time.
pub trait Node {
    fn connect(&mut self, to: &NetworkDescription) -> Result<usize, NetworkError>;
    fn disconnect(&mut self, connection: usize);
    fn intersect(&mut self, connection: usize, points: Vec<Point>) -> Result<ChainIntersection, ProtocolError>;
    /// whether there are blocks in the range
    fn request(&mut self, connection: usize, from: Point, to: Point) -> Result<bool, ProtocolError>;
    fn next(&mut self, connection: usize) -> Result<Option<SerializedBlock>, ProtocolError>;
}

#[derive(Default)]
struct Gate {
    node: Option<Box<dyn Node>>,
    permits: usize,
    waiting: usize,
    wakers: Vec<Waker>,
}

thread_local! {
    static GATE: RefCell<Gate> = RefCell::default();
}

/// Puts `node` at the other end of all connections of this thread.
pub fn serve(node: Box<dyn Node>) {
    GATE.with(|g| *g.borrow_mut() = Gate { node: Some(node), ..Default::default() })
}

/// How many exchanges wait at the gate.
pub fn waiting() -> usize {
    GATE.with(|g| g.borrow().waiting)
}

/// Lets one exchange happen.
pub fn permit() {
    let w = GATE.with(|g| {
        let mut g = g.borrow_mut();
        g.permits += 1;
        std::mem::take(&mut g.wakers)
    });
    w.into_iter().for_each(Waker::wake);
}

#[derive(Default)]
struct Pass {
    counted: bool,
}

impl Future for Pass {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        GATE.with(|g| {
            let mut g = g.borrow_mut();
            if g.permits > 0 {
                g.permits -= 1;
                if std::mem::take(&mut self.counted) {
                    g.waiting -= 1;
                }
                return Poll::Ready(());
            }
            if !std::mem::replace(&mut self.counted, true) {
                g.waiting += 1;
            }
            g.wakers.push(cx.waker().clone());
            Poll::Pending
        })
    }
}

impl Drop for Pass {
    fn drop(&mut self) {
        if self.counted {
            let _ = GATE.try_with(|g| g.borrow_mut().waiting -= 1);
        }
    }
}

async fn exchange<T>(f: impl FnOnce(&mut dyn Node) -> T) -> T {
    Pass::default().await;
    now(f)
}

fn now<T>(f: impl FnOnce(&mut dyn Node) -> T) -> T {
    GATE.with(|g| f(g.borrow_mut().node.as_mut().expect("a node").as_mut()))
}

pub struct Channel<P> {
    connection: usize,
    of: PhantomData<fn() -> P>,
}

pub struct NetworkHandle {
    connection: usize,
    pub chainsync: Channel<ChainSync>,
    pub txsubmit: Channel<TxSubmit>,
    pub blockfetch: Channel<BlockFetch>,
}

impl NetworkHandle {
    pub async fn start(to: &NetworkDescription) -> Result<NetworkHandle, NetworkError> {
        let connection = exchange(|n| n.connect(to)).await?;
        Ok(NetworkHandle {
            connection,
            chainsync: Channel { connection, of: PhantomData },
            txsubmit: Channel { connection, of: PhantomData },
            blockfetch: Channel { connection, of: PhantomData },
        })
    }
    pub async fn stop(self) {
        now(|n| n.disconnect(self.connection))
    }
}

impl Channel<ChainSync> {
    pub async fn intersect(&mut self, points: Vec<Point>) -> Result<ChainIntersection, ProtocolError> {
        exchange(|n| n.intersect(self.connection, points)).await
    }
    pub async fn get_tip(&mut self) -> Result<Tip, ProtocolError> {
        Ok(match self.intersect(vec![Point::ORIGIN]).await? {
            ChainIntersection::Found(_, tip) | ChainIntersection::NotFound(tip) => tip,
        })
    }
}

pub struct BlockFetcher<'b> {
    channel: &'b mut Channel<BlockFetch>,
    done: bool,
}

impl Channel<BlockFetch> {
    pub async fn request_range(&mut self, from: Point, to: Point) -> Result<Option<BlockFetcher<'_>>, ProtocolError> {
        let some = exchange(|n| n.request(self.connection, from, to)).await?;
        Ok(some.then_some(BlockFetcher { channel: self, done: false }))
    }
}

impl BlockFetcher<'_> {
    pub async fn next(&mut self) -> Result<Option<SerializedBlock>, ProtocolError> {
        if self.done {
            return Ok(None);
        }
        let b = exchange(|n| n.next(self.channel.connection)).await?;
        self.done = b.is_none();
        Ok(b)
    }
    pub fn done(self) -> bool {
        self.done
    }
}
