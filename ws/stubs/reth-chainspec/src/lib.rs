//! Stand-in: the chain specification is reduced to the genesis it is made from.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct ChainSpec {
    pub genesis: alloy::genesis::Genesis,
}
impl From<alloy::genesis::Genesis> for ChainSpec {
    fn from(genesis: alloy::genesis::Genesis) -> Self {
        Self { genesis }
    }
}
impl ChainSpec {
    pub fn genesis(&self) -> &alloy::genesis::Genesis {
        &self.genesis
    }
}
