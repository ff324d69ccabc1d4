//! Stand-in for the parts of cml-multi-era that blockchain-source names: a block is a line of text.

use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct BlockHash(pub [u8; 32]);

impl AsRef<[u8]> for BlockHash {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl BlockHash {
    pub fn to_raw_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Display for BlockHash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}

pub mod utils {
    use super::BlockHash;

    #[derive(Clone, Debug)]
    pub struct MultiEraBlockHeader {
        pub(crate) number: u64,
        pub(crate) slot: u64,
        pub(crate) parent: Option<BlockHash>,
    }

    impl MultiEraBlockHeader {
        pub fn block_number(&self) -> u64 {
            self.number
        }
        pub fn slot(&self) -> u64 {
            self.slot
        }
        pub fn prev_hash(&self) -> Option<BlockHash> {
            self.parent
        }
    }
}

pub mod byron {
    #[derive(Clone, Debug)]
    pub struct EbbConsensusData {
        pub epoch_id: u64,
    }
    #[derive(Clone, Debug)]
    pub struct ByronSlotId {
        pub epoch: u64,
    }
    #[derive(Clone, Debug)]
    pub struct ByronConsensusData {
        pub byron_slot_id: ByronSlotId,
    }

    pub mod block {
        use super::*;

        #[derive(Clone, Debug)]
        pub struct EbbHead {
            pub consensus_data: EbbConsensusData,
        }
        #[derive(Clone, Debug)]
        pub struct ByronEbBlock {
            pub header: EbbHead,
            pub content: crate::Content,
        }
        #[derive(Clone, Debug)]
        pub struct ByronBlockHeader {
            pub consensus_data: ByronConsensusData,
        }
        #[derive(Clone, Debug)]
        pub struct ByronMainBlock {
            pub header: ByronBlockHeader,
            pub content: crate::Content,
        }
        #[derive(Clone, Debug)]
        pub enum ByronBlock {
            EpochBoundary(ByronEbBlock),
            Main(ByronMainBlock),
        }
    }
}

/// the content of a block, which the models write and the code under test reads
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Content {
    pub kind: Kind,
    pub hash: BlockHash,
    pub parent: Option<BlockHash>,
    pub number: u64,
    pub slot: u64,
    /// told by Byron blocks only
    pub epoch: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Boundary,
    Byron,
    Shelley,
    Babbage,
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.kind as u8];
        v.extend(self.number.to_be_bytes());
        v.extend(self.slot.to_be_bytes());
        v.extend(self.epoch.to_be_bytes());
        v.extend(self.hash.0);
        v.extend(self.parent.iter().flat_map(|p| p.0));
        v
    }
}

#[derive(Clone, Debug)]
pub struct OtherBlock {
    pub content: Content,
}

#[derive(Clone, Debug)]
pub enum MultiEraBlock {
    Byron(byron::block::ByronBlock),
    Shelley(OtherBlock),
    Allegra(OtherBlock),
    Mary(OtherBlock),
    Alonzo(OtherBlock),
    Babbage(OtherBlock),
    Conway(OtherBlock),
}

#[derive(Clone, Debug)]
pub struct DeserializeError(String);

impl fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for DeserializeError {}

impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(b: &[u8]) -> Result<Self, DeserializeError> {
        use byron::{block::*, *};
        let kind = *b.first().filter(|_| b.len() == 57 || b.len() == 89).ok_or_else(|| DeserializeError("not a block".into()))?;
        let n = |i: usize| u64::from_be_bytes(b[i..i + 8].try_into().unwrap());
        let hash = |i: usize| BlockHash(b[i..i + 32].try_into().unwrap());
        let kind = [Kind::Boundary, Kind::Byron, Kind::Shelley, Kind::Babbage][usize::from(kind)];
        let content = Content { kind, number: n(1), slot: n(9), epoch: n(17), hash: hash(25), parent: (b.len() > 57).then(|| hash(57)) };
        let epoch = content.epoch;
        Ok(match kind {
            Kind::Boundary => Self::Byron(ByronBlock::EpochBoundary(ByronEbBlock { header: EbbHead { consensus_data: EbbConsensusData { epoch_id: epoch } }, content })),
            Kind::Byron => Self::Byron(ByronBlock::Main(ByronMainBlock { header: ByronBlockHeader { consensus_data: ByronConsensusData { byron_slot_id: ByronSlotId { epoch } } }, content })),
            Kind::Shelley => Self::Shelley(OtherBlock { content }),
            Kind::Babbage => Self::Babbage(OtherBlock { content }),
        })
    }
    fn content(&self) -> &Content {
        match self {
            Self::Byron(byron::block::ByronBlock::EpochBoundary(b)) => &b.content,
            Self::Byron(byron::block::ByronBlock::Main(b)) => &b.content,
            Self::Shelley(b) | Self::Allegra(b) | Self::Mary(b) | Self::Alonzo(b) | Self::Babbage(b) | Self::Conway(b) => &b.content,
        }
    }
    pub fn hash(&self) -> BlockHash {
        self.content().hash
    }
    pub fn header(&self) -> utils::MultiEraBlockHeader {
        let c = self.content();
        utils::MultiEraBlockHeader { number: c.number, slot: c.slot, parent: c.parent }
    }
}
