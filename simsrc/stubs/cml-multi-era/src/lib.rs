//! Stand-in for the ledger decoders. The simulated wire format: "BLK" kind(1) id(32) parent(32, all zero: none)
//! number(8) slot(8) epoch(8), little endian, then anything.
use utils::{Hash, MultiEraBlockHeader};
pub mod byron { pub mod block {
    use crate::utils::{Hash, MultiEraBlockHeader};
    #[derive(Clone, Debug)] pub struct EbbConsensus { pub epoch_id: u64 }
    #[derive(Clone, Debug)] pub struct EbbHeader { pub consensus_data: EbbConsensus, pub(crate) head: MultiEraBlockHeader, pub(crate) id: Hash }
    #[derive(Clone, Debug)] pub struct EbbBlock { pub header: EbbHeader }
    #[derive(Clone, Debug)] pub struct SlotId { pub epoch: u64, pub slot: u64 }
    #[derive(Clone, Debug)] pub struct MainConsensus { pub byron_slot_id: SlotId }
    #[derive(Clone, Debug)] pub struct MainHeader { pub consensus_data: MainConsensus, pub(crate) head: MultiEraBlockHeader, pub(crate) id: Hash }
    #[derive(Clone, Debug)] pub struct MainBlock { pub header: MainHeader }
    #[derive(Clone, Debug)] pub enum ByronBlock { EpochBoundary(EbbBlock), Main(MainBlock) }
} }
pub mod utils {
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Hash(pub [u8; 32]);
    impl std::fmt::Display for Hash { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for b in self.0 { write!(f, "{b:02x}")?; } Ok(()) } }
    impl Hash { pub fn to_raw_bytes(&self) -> &[u8] { &self.0 } pub fn to_hex(&self) -> String { self.to_string() } }
    impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &self.0 } }
    #[derive(Clone, Debug)]
    pub struct MultiEraBlockHeader { pub(crate) prev: Option<Hash>, pub(crate) number: u64, pub(crate) slot: u64 }
    impl MultiEraBlockHeader {
        pub fn prev_hash(&self) -> Option<Hash> { self.prev.clone() }
        pub fn block_number(&self) -> u64 { self.number }
        pub fn slot(&self) -> u64 { self.slot }
    }
}
#[derive(Debug)]
pub struct DecodeError(String);
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl std::error::Error for DecodeError {}
macro_rules! eras { ($($m:ident $b:ident),*) => { $(pub mod $m { #[derive(Clone, Debug)] pub struct $b { pub(crate) head: crate::utils::MultiEraBlockHeader, pub(crate) id: crate::utils::Hash } })* } }
eras!(shelley ShelleyBlock, allegra AllegraBlock, mary MaryBlock, alonzo AlonzoBlock, babbage BabbageBlock, conway Block);
#[derive(Clone, Debug)]
pub enum MultiEraBlock {
    Byron(byron::block::ByronBlock), Shelley(shelley::ShelleyBlock), Allegra(allegra::AllegraBlock), Mary(mary::MaryBlock),
    Alonzo(alonzo::AlonzoBlock), Babbage(babbage::BabbageBlock), Conway(conway::Block),
}
impl MultiEraBlock {
    pub fn from_explicit_network_cbor_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if b.len() < 92 || &b[..3] != b"BLK" { return Err(DecodeError("not a block".into())); }
        let h = |at: usize| Hash(b[at..at + 32].try_into().unwrap());
        let n = |at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        let prev = h(36);
        let head = MultiEraBlockHeader { prev: (prev.0 != [0; 32]).then_some(prev), number: n(68), slot: n(76) };
        use byron::block::*;
        Ok(match b[3] {
            0 => MultiEraBlock::Byron(ByronBlock::EpochBoundary(EbbBlock { header: EbbHeader { consensus_data: EbbConsensus { epoch_id: n(84) }, head, id: h(4) } })),
            1 => MultiEraBlock::Byron(ByronBlock::Main(MainBlock { header: MainHeader { consensus_data: MainConsensus { byron_slot_id: SlotId { epoch: n(84), slot: 0 } }, head, id: h(4) } })),
            2 => MultiEraBlock::Shelley(shelley::ShelleyBlock { head, id: h(4) }),
            3 => MultiEraBlock::Allegra(allegra::AllegraBlock { head, id: h(4) }),
            4 => MultiEraBlock::Mary(mary::MaryBlock { head, id: h(4) }),
            5 => MultiEraBlock::Alonzo(alonzo::AlonzoBlock { head, id: h(4) }),
            6 => MultiEraBlock::Babbage(babbage::BabbageBlock { head, id: h(4) }),
            7 => MultiEraBlock::Conway(conway::Block { head, id: h(4) }),
            k => return Err(DecodeError(format!("unknown era {k}"))),
        })
    }
    pub fn header(&self) -> MultiEraBlockHeader {
        use byron::block::ByronBlock::*;
        match self { MultiEraBlock::Byron(EpochBoundary(b)) => b.header.head.clone(), MultiEraBlock::Byron(Main(b)) => b.header.head.clone(), MultiEraBlock::Shelley(b) => b.head.clone(), MultiEraBlock::Allegra(b) => b.head.clone(), MultiEraBlock::Mary(b) => b.head.clone(), MultiEraBlock::Alonzo(b) => b.head.clone(), MultiEraBlock::Babbage(b) => b.head.clone(), MultiEraBlock::Conway(b) => b.head.clone() }
    }
    pub fn hash(&self) -> [u8; 32] {
        use byron::block::ByronBlock::*;
        match self { MultiEraBlock::Byron(EpochBoundary(b)) => b.header.id.0, MultiEraBlock::Byron(Main(b)) => b.header.id.0, MultiEraBlock::Shelley(b) => b.id.0, MultiEraBlock::Allegra(b) => b.id.0, MultiEraBlock::Mary(b) => b.id.0, MultiEraBlock::Alonzo(b) => b.id.0, MultiEraBlock::Babbage(b) => b.id.0, MultiEraBlock::Conway(b) => b.id.0 }
    }
}
