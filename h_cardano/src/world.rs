//! The node at the other end of every connection, and how exchanges with it are let happen.

use cardano_net::{ChainIntersection, NetworkDescription, NetworkError, Node, ProtocolError};
use cardano_sdk::protocol::{Magic, Point as Wire, SerializedBlock, Tip};
use cml_multi_era::{BlockHash, Content, Kind};
use dcspark_blockchain_source::cardano::{time::Era, BlockEvent, NetworkConfiguration, Point};
use dcspark_core::{BlockId, BlockNumber, SlotNumber};
use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::Poll,
};

const FIRST_SHELLEY_SLOT: u64 = 6;
const SECOND_EPOCH: u64 = 3;
const MAGIC: u32 = 4242;
const HOST: (&str, u16) = ("node.test", 1234);

/// a request for blocks, as the node saw it
#[derive(Clone, Debug, Default)]
pub struct Attempt {
    pub points: Option<Vec<Wire>>,
    pub tip: usize,
    pub found: Option<usize>,
    /// blocks after the intersection, up to the tip at that time
    pub due: Vec<usize>,
    /// there was something further when it was made
    had: bool,
    /// of these, how many the node handed out
    served: usize,
    /// the first block handed out is not due
    skipped: bool,
    pub tip_told: bool,
    /// an exchange of it failed
    pub failed: bool,
    /// the range was gone when it was asked for
    pub gone: bool,
}

impl Attempt {
    /// there was nothing further
    pub fn up_to_date(&self) -> bool {
        !self.failed && self.found == Some(self.tip)
    }
    /// nothing further comes of it
    fn cut(&mut self, gone: bool) {
        *(if gone { &mut self.gone } else { &mut self.failed }) = true;
        let served = self.served.saturating_sub(usize::from(self.skipped));
        self.due.truncate(served);
    }
}

struct Connection {
    alive: bool,
    batch: Option<VecDeque<usize>>,
}

#[derive(Default)]
pub struct World {
    /// parent and slot of every block ever made
    pub blocks: Vec<(Option<usize>, u64)>,
    pub tip: usize,
    /// the next fork leaves the slots of the abandoned blocks
    forked: bool,
    connections: Vec<Connection>,
    pub attempts: Vec<Attempt>,
    /// a connection was made for the attempt that is next
    connected: bool,
    /// the next exchange fails
    pub fault: bool,
    pub faults: usize,
    pub wrong: Option<String>,
    /// whether a tip event is due with every range rather than the first one only
    pub every_tip: bool,
    /// every block handed out
    pub handed: Vec<usize>,
    /// epochs begin with a boundary block in the slot of their first block, which does not count
    pub boundaries: bool,
    /// what is asked for is not compared with `from`
    pub free: bool,
    /// what the pull under way was given
    pub from: Vec<Point>,
}

pub type Shared = Rc<RefCell<World>>;

struct Served(Shared);

fn hash(i: usize) -> BlockHash {
    let mut h = [0xab; 32];
    // later blocks do not have larger hashes
    h[0] = 0x5f ^ (i as u8).wrapping_mul(37);
    h[30] = (i >> 8) as u8;
    h[31] = i as u8;
    BlockHash(h)
}

const NO_PARENT: &str = "5f20df933584822601f9e3f8c024eb5eb252fe8cefb24d1317dc3d432e940ebb";

impl World {
    pub fn new(blocks: usize) -> Shared {
        World::over(blocks, false)
    }
    pub fn over(blocks: usize, boundaries: bool) -> Shared {
        let mut w = World { boundaries, ..World::default() };
        for i in 0..blocks {
            w.tip = w.add(i.checked_sub(1), 0);
        }
        Rc::new(RefCell::new(w))
    }
    pub fn add(&mut self, parent: Option<usize>, later: u64) -> usize {
        let slot = parent.map_or(0, |p| match self.blocks[p].1 {
            s if self.boundaries && self.boundary(p) => s,
            s if self.boundaries && s < SECOND_EPOCH && s + 2 + later >= SECOND_EPOCH => SECOND_EPOCH,
            s => s + 2 + later,
        });
        self.blocks.push((parent, slot));
        self.blocks.len() - 1
    }
    pub fn extend(&mut self) {
        self.tip = self.add(Some(self.tip), 0);
    }
    /// leaves the last `back` blocks for `new` ones, at first in the same slots, then in other ones
    pub fn fork(&mut self, back: usize, new: usize) {
        let chain = self.chain(self.tip);
        let mut at = chain[back];
        for i in 0..new {
            at = self.add(Some(at), u64::from(i == 0 && self.forked));
        }
        self.forked = !self.forked;
        self.tip = at;
    }
    /// from `i` down to the first block
    pub fn chain(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.blocks[*v.last().unwrap()].0 {
            v.push(p);
        }
        v
    }
    /// the first block, or the one that the second epoch begins with
    fn boundary(&self, i: usize) -> bool {
        let (parent, slot) = self.blocks[i];
        parent.is_none_or(|p| self.boundaries && slot == SECOND_EPOCH && self.blocks[p].1 < SECOND_EPOCH)
    }
    pub fn number(&self, i: usize) -> u64 {
        self.chain(i).into_iter().filter(|i| self.blocks[*i].0.is_some() && !self.boundary(*i)).count() as u64
    }
    fn content(&self, i: usize) -> Content {
        let (parent, slot) = self.blocks[i];
        let kind = match slot {
            _ if self.boundary(i) => Kind::Boundary,
            s if s < FIRST_SHELLEY_SLOT => Kind::Byron,
            s if s < 12 => Kind::Shelley,
            _ => Kind::Babbage,
        };
        // Shelley blocks do not tell their epoch
        let epoch = if slot < FIRST_SHELLEY_SLOT { slot / 3 } else { 77 };
        Content { kind, hash: hash(i), parent: parent.map(hash).or_else(|| Some(from_hex(NO_PARENT))), number: self.number(i), slot, epoch }
    }
    pub fn event(&self, i: usize) -> BlockEvent {
        let c = self.content(i);
        BlockEvent {
            id: BlockId::new(c.hash.to_string()),
            parent_id: BlockId::new(c.parent.unwrap().to_string()),
            block_number: BlockNumber::new(c.number),
            slot_number: SlotNumber::new(c.slot),
            is_boundary_block: c.kind == Kind::Boundary,
            epoch: if c.slot < FIRST_SHELLEY_SLOT { c.slot / 3 } else { 2 + (c.slot - FIRST_SHELLEY_SLOT) / 4 },
            raw_block: c.bytes(),
        }
    }
    pub fn point(&self, i: usize) -> Point {
        Point::BlockHeader { slot_nb: SlotNumber::new(self.blocks[i].1), hash: BlockId::new(hash(i).to_string()) }
    }
    pub fn wire(&self, i: usize) -> Wire {
        Wire::from_raw(self.blocks[i].1, &hash(i).to_string()).unwrap()
    }
    pub fn tip_of(&self, i: usize) -> Tip {
        Tip { point: self.wire(i), block_number: self.number(i) }
    }
    fn index(&self, p: &Wire) -> Option<usize> {
        (0..self.blocks.len()).find(|i| self.wire(*i) == *p)
    }
    pub fn index_of(&self, p: &Point) -> Option<usize> {
        (0..self.blocks.len()).find(|i| self.point(*i) == *p)
    }
    pub fn config(&self) -> NetworkConfiguration {
        NetworkConfiguration {
            chain_info: cml_chain::genesis::network_info::NetworkInfo::new(0, MAGIC.into()),
            relay: (HOST.0.into(), HOST.1),
            from: self.point(0),
            genesis_parent: BlockId::new(NO_PARENT),
            genesis: self.point(0),
            shelley_era_config: Era { first_slot: FIRST_SHELLEY_SLOT, start_epoch: 2, known_time: 1000, slot_length: 2, epoch_length_seconds: 8 },
        }
    }
    pub fn before_genesis() -> Point {
        Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: BlockId::new(NO_PARENT) }
    }
    pub fn unknown() -> Point {
        Point::BlockHeader { slot_nb: SlotNumber::new(1_000_000), hash: BlockId::new(hash(usize::MAX).to_string()) }
    }
    pub fn text(&self) -> String {
        let c = |i: usize| self.chain(i).iter().rev().map(|i| format!("b{i}")).collect::<Vec<_>>().join("-");
        let leaves = (0..self.blocks.len()).filter(|i| self.blocks.iter().all(|b| b.0 != Some(*i)));
        format!("chains {}; the node is at b{}", leaves.map(c).collect::<Vec<_>>().join(", "), self.tip)
    }
    fn broken(&mut self, connection: usize) -> Result<(), ProtocolError> {
        let fault = std::mem::take(&mut self.fault);
        let c = &mut self.connections[connection];
        if fault || !c.alive {
            c.alive = false;
            self.faults += usize::from(fault);
            self.attempt().cut(false);
            self.connected = false;
            return Err(ProtocolError::Disconnected);
        }
        Ok(())
    }
    fn attempt(&mut self) -> &mut Attempt {
        if self.attempts.is_empty() {
            self.attempts.push(Attempt::default());
        }
        self.attempts.last_mut().unwrap()
    }
}

fn from_hex(s: &str) -> BlockHash {
    let mut h = [0; 32];
    for (i, b) in h.iter_mut().enumerate() {
        *b = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    BlockHash(h)
}

fn serialized(raw: &[u8]) -> SerializedBlock {
    // the bytes of a block, tagged as an item of their own
    let mut v = vec![0xd8, 0x18, 0x58, raw.len() as u8];
    v.extend(raw);
    cbored::Reader::new(&v).decode_one().expect("a serialized block")
}

impl Node for Served {
    fn connect(&mut self, to: &NetworkDescription) -> Result<usize, NetworkError> {
        let mut w = self.0.borrow_mut();
        if to.anchor_hosts != vec![(HOST.0.to_string(), HOST.1)] || to.chain_info.protocol_magic != Magic(MAGIC.into()) || to.chain_info.network_id != 0 {
            w.wrong = Some(format!("connected with {to:?}"));
        }
        if !w.connections.is_empty() {
            w.attempts.push(Attempt::default());
            w.connected = true;
        }
        if std::mem::take(&mut w.fault) {
            w.faults += 1;
            w.attempt().cut(false);
            w.connected = false;
            return Err(NetworkError::ConnectError);
        }
        w.connections.push(Connection { alive: true, batch: None });
        Ok(w.connections.len() - 1)
    }
    fn disconnect(&mut self, connection: usize) {
        self.0.borrow_mut().connections[connection].alive = false;
    }
    fn intersect(&mut self, connection: usize, points: Vec<Wire>) -> Result<ChainIntersection, ProtocolError> {
        let mut w = self.0.borrow_mut();
        if !std::mem::take(&mut w.connected) {
            w.attempts.push(Attempt::default());
        }
        w.broken(connection)?;
        let chain = w.chain(w.tip);
        // the first of the points that is on the chain
        let found = points.iter().find_map(|p| w.index(p).filter(|i| chain.contains(i)));
        let tip = w.tip;
        let answer = match found {
            Some(i) => ChainIntersection::Found(w.wire(i), w.tip_of(tip)),
            None => ChainIntersection::NotFound(w.tip_of(tip)),
        };
        // what is due follows the highest of the points that are on the chain
        let highest = chain.iter().copied().find(|i| points.contains(&w.wire(*i)));
        let mut due: Vec<usize> = highest.map_or(vec![], |h| chain.iter().copied().take_while(|i| *i != h).collect());
        due.reverse();
        let genesis = w.from == [World::before_genesis()];
        let mut asked = if genesis || w.from.is_empty() { vec![w.wire(0)] } else { w.from.iter().map(|p| Wire::try_from(p.clone()).unwrap()).collect() };
        if genesis && !due.is_empty() {
            due.insert(0, 0);
        }
        let mut points_asked = points.clone();
        let key = |p: &Wire| (p.slot_nb(), p.hash().to_string());
        asked.sort_by_key(key);
        points_asked.sort_by_key(key);
        if asked != points_asked && !w.free {
            w.wrong = Some(format!("a pull from {:?} asked the node for {points:?}", w.from));
        }
        let first = w.every_tip || w.attempts.iter().all(|a| !a.had);
        let tip_told = first && !due.is_empty();
        let a = w.attempt();
        *a = Attempt { points: Some(points), tip, found: highest, had: !due.is_empty(), skipped: !genesis, due, tip_told, ..a.clone() };
        Ok(answer)
    }
    fn request(&mut self, connection: usize, from: Wire, to: Wire) -> Result<bool, ProtocolError> {
        let mut w = self.0.borrow_mut();
        w.broken(connection)?;
        if w.connections[connection].batch.is_some() {
            // the rest of the batch comes first
            return Err(ProtocolError::UnexpectedVariant("block fetch".into(), "Block".into()));
        }
        let chain = w.chain(w.tip);
        let on = |p| w.index(p).and_then(|i| chain.iter().position(|c| *c == i));
        match (on(&from), on(&to)) {
            (Some(f), Some(t)) if t <= f => {
                let mut v: Vec<usize> = chain[t..=f].to_vec();
                v.reverse();
                w.connections[connection].batch = Some(v.into());
                Ok(true)
            }
            _ => {
                w.attempt().cut(true);
                Ok(false)
            }
        }
    }
    fn next(&mut self, connection: usize) -> Result<Option<SerializedBlock>, ProtocolError> {
        let mut w = self.0.borrow_mut();
        w.broken(connection)?;
        let b = w.connections[connection].batch.as_mut().expect("a batch").pop_front();
        match b {
            Some(i) => {
                w.attempt().served += 1;
                w.handed.push(i);
                Ok(Some(serialized(&w.content(i).bytes())))
            }
            None => {
                w.connections[connection].batch = None;
                Ok(None)
            }
        }
    }
}

pub fn serve(w: &Shared) {
    cardano_net::serve(Box::new(Served(w.clone())));
}

/// lets everything run that does not wait for the node
pub async fn settle() {
    for _ in 0..6 {
        tokio::task::yield_now().await;
    }
}

pub async fn poll<T>(f: &mut Pin<&mut impl Future<Output = T>>) -> Option<T> {
    std::future::poll_fn(|cx| {
        Poll::Ready(match f.as_mut().poll(cx) {
            Poll::Ready(t) => Some(t),
            Poll::Pending => None,
        })
    })
    .await
}
