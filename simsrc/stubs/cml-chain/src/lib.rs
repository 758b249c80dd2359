pub mod genesis {
    pub mod network_info {
        use cml_core::network::ProtocolMagic;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct NetworkInfo { id: u8, magic: ProtocolMagic }
        impl NetworkInfo {
            pub fn new(id: u8, magic: ProtocolMagic) -> Self { Self { id, magic } }
            pub fn mainnet() -> Self { Self::new(1, 764824073.into()) }
            pub fn testnet() -> Self { Self::new(0, 1097911063.into()) }
            pub fn preprod() -> Self { Self::new(0, 1.into()) }
            pub fn preview() -> Self { Self::new(0, 2.into()) }
            pub fn network_id(&self) -> u8 { self.id }
            pub fn protocol_magic(&self) -> ProtocolMagic { self.magic }
        }
    }
}
