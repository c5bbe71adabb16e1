use crate::apps::tablet_store::service::*;
use crate::vxh::Rng;
use std::collections::{BTreeMap, BTreeSet};

// The tablets of one table as the tablet store holds them.
#[derive(Clone, Debug, Default)]
pub struct RingTable {
    pub tablets: BTreeMap<u32, TabletMetadata>,
}
impl RingTable {
    pub fn with_ids(ids: impl IntoIterator<Item = u32>, version: impl Fn(u32) -> u32) -> RingTable {
        let mut t = RingTable::default();
        for id in ids {
            t.tablets.insert(id, TabletMetadata { tablet_id: id, tablet_version: version(id), ..Default::default() });
        }
        t
    }
    pub fn ids(&self) -> Vec<u32> { self.tablets.keys().copied().collect() }
    // The tablet responsible for a key: the first one clockwise.
    pub fn owner(&self, key: u32) -> u32 {
        *self.tablets.range(key..).next().or_else(|| self.tablets.iter().next()).unwrap().0
    }
    // The tablets listed for a range: those in it and the first one after its end.
    pub fn list(&self, from: u32, to: u32) -> Vec<TabletMetadata> {
        let mut ids: BTreeSet<u32> = self.tablets.keys().copied().filter(|i| *i >= from && *i <= to).collect();
        ids.insert(self.owner(to));
        ids.iter().map(|i| self.tablets[i].clone()).collect()
    }
}
// Ring positions worth trying: around the given ones, the ends, and random ones.
pub fn position(r: &mut Rng, near: &[u32]) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 | 3 => r.u32(),
        _ if !near.is_empty() => {
            let b = *r.pick(near);
            match r.below(5) { 0 => b.wrapping_sub(1), 1 => b.wrapping_add(1), 2 => b.wrapping_add(r.below(1000) as u32), _ => b }
        }
        _ => r.u32(),
    }
}
