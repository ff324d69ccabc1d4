//! Stand-in for the parts of cml-chain that blockchain-source names.

pub mod genesis {
    pub mod network_info {
        use cml_core::network::ProtocolMagic;

        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct NetworkInfo {
            network_id: u8,
            protocol_magic: ProtocolMagic,
        }

        impl NetworkInfo {
            pub fn new(network_id: u8, protocol_magic: ProtocolMagic) -> Self {
                NetworkInfo { network_id, protocol_magic }
            }
            pub fn network_id(&self) -> u8 {
                self.network_id
            }
            pub fn protocol_magic(&self) -> ProtocolMagic {
                self.protocol_magic
            }
            pub fn mainnet() -> Self {
                Self::new(1, 764824073.into())
            }
            pub fn testnet() -> Self {
                Self::new(0, 1097911063.into())
            }
            pub fn preprod() -> Self {
                Self::new(0, 1.into())
            }
            pub fn preview() -> Self {
                Self::new(0, 2.into())
            }
        }
    }
}
