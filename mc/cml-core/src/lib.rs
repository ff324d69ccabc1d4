//! Stand-in for the parts of cml-core that blockchain-source names.

pub mod network {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct ProtocolMagic(u32);

    impl From<u32> for ProtocolMagic {
        fn from(n: u32) -> Self {
            ProtocolMagic(n)
        }
    }
    impl From<ProtocolMagic> for u32 {
        fn from(m: ProtocolMagic) -> u32 {
            m.0
        }
    }
}
