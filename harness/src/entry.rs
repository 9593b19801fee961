//! Entry types of the workloads. Every entry carries a unique id and a payload that is a function
//! of the id, so that a decided or stored entry can be checked against what was appended.
use crate::rng::mix;
use omnipaxos::storage::{Entry, Snapshot};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

pub trait Val:
    Entry<Snapshot = <Self as Val>::Snap> + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static
{
    type Snap: Snapshot<Self> + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static;
    const SNAP: bool;
    const KIND: &'static str;
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
    /// The ids folded into a snapshot, in order.
    fn snap_ids(s: &Self::Snap) -> Vec<u64>;
    fn snap_make(ids: &[u64]) -> Option<Self::Snap>;
    /// The content is exactly what was appended under this id.
    fn intact(&self) -> bool {
        *self == Self::make(self.id())
    }
}

/// The snapshot is the free fold (list of ids): it distinguishes every loss, duplicate and reorder.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IdSnap {
    pub ids: Vec<u64>,
}

#[cfg(not(feature = "uc"))]
mod plain {
    use super::*;
    use omnipaxos::{macros::Entry, storage::NoSnapshot};

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Entry)]
    #[snapshot(IdSnap)]
    pub struct ValS {
        pub id: u64,
        pub pay: u64,
        pub text: String,
    }
    impl Snapshot<ValS> for IdSnap {
        fn create(entries: &[ValS]) -> Self {
            IdSnap {
                ids: entries.iter().map(|e| e.id).collect(),
            }
        }
        fn merge(&mut self, delta: Self) {
            self.ids.extend(delta.ids);
        }
        fn use_snapshots() -> bool {
            true
        }
    }
    impl Val for ValS {
        type Snap = IdSnap;
        const SNAP: bool = true;
        const KIND: &'static str = "snap";
        fn make(id: u64) -> Self {
            ValS {
                id,
                pay: mix(id),
                text: format!("v{}", mix(id ^ 7) % 5),
            }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(s: &IdSnap) -> Vec<u64> {
            s.ids.clone()
        }
        fn snap_make(ids: &[u64]) -> Option<IdSnap> {
            Some(IdSnap { ids: ids.to_vec() })
        }
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Entry)]
    pub struct ValN {
        pub id: u64,
        pub pay: u64,
    }
    impl Val for ValN {
        type Snap = NoSnapshot;
        const SNAP: bool = false;
        const KIND: &'static str = "nosnap";
        fn make(id: u64) -> Self {
            ValN { id, pay: mix(id) }
        }
        fn id(&self) -> u64 {
            self.id
        }
        fn snap_ids(_: &NoSnapshot) -> Vec<u64> {
            vec![]
        }
        fn snap_make(_: &[u64]) -> Option<NoSnapshot> {
            None
        }
    }
}
#[cfg(not(feature = "uc"))]
pub use plain::*;

#[cfg(feature = "uc")]
pub mod uc {
    use super::*;
    macro_rules! impl_val {
        ($t:ident, $kind:expr, $mk:expr) => {
            impl Val for $t {
                type Snap = omnipaxos::storage::NoSnapshot;
                const SNAP: bool = false;
                const KIND: &'static str = $kind;
                fn make(id: u64) -> Self {
                    let f: fn(u64) -> Self = $mk;
                    f(id)
                }
                fn id(&self) -> u64 {
                    self.id
                }
                fn snap_ids(_: &Self::Snap) -> Vec<u64> {
                    vec![]
                }
                fn snap_make(_: &[u64]) -> Option<Self::Snap> {
                    None
                }
            }
        };
    }
    /// Skewed choice among `n` values.
    fn sk(id: u64, salt: u64, n: u64) -> u64 {
        let r = mix(id ^ (salt << 40));
        let r2 = mix(r);
        if r % 3 == 0 {
            r2 % n
        } else {
            r2 % (n / 3).max(1)
        }
    }
    pub mod lru {
        use super::*;
        use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
        /// LRU caches of size 2 and 3 over 6 and 9 values: constant eviction.
        #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct UcLru {
            pub id: u64,
            #[unicache(encoding(u8), size(2), cache(lru))]
            pub a: String,
            #[unicache(encoding(u16), size(3), cache(lru))]
            pub b: u64,
        }
        impl_val!(UcLru, "uc-lru", |id| UcLru {
            id,
            a: format!("a{}", sk(id, 1, 6)),
            b: sk(id, 2, 9)
        });
    }
    pub mod lfu {
        use super::*;
        use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
        #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct UcLfu {
            pub id: u64,
            #[unicache(encoding(u8), size(2), cache(lfu))]
            pub a: String,
            #[unicache(encoding(u8), size(4), cache(lfu))]
            pub b: u64,
        }
        impl_val!(UcLfu, "uc-lfu", |id| UcLfu {
            id,
            a: format!("a{}", sk(id, 1, 6)),
            b: sk(id, 2, 12)
        });
    }
    pub mod mixed {
        use super::*;
        use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
        /// One LRU and one LFU field, default sizes, an uncached field in between.
        #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub struct UcMix {
            #[unicache(encoding(u8), size(1), cache(lru))]
            pub one: u32,
            pub id: u64,
            #[unicache(encoding(u8), cache(lfu))]
            pub big: u64,
            pub plain: String,
            #[unicache(encoding(u64), size(255), cache(lru))]
            pub wide: String,
        }
        impl_val!(UcMix, "uc-mix", |id| UcMix {
            one: sk(id, 3, 3) as u32,
            id,
            big: mix(id ^ 99) % 400,
            plain: format!("p{}", id),
            wide: format!("w{}", sk(id, 4, 40)),
        });
    }
    pub mod snap {
        use super::*;
        use omnipaxos::{macros::UniCacheEntry, storage::Entry, unicache::*};
        #[derive(UniCacheEntry, Clone, Debug, PartialEq, Serialize, Deserialize)]
        #[snapshot(IdSnap)]
        pub struct UcSnap {
            pub id: u64,
            #[unicache(encoding(u8), size(3), cache(lru))]
            pub a: String,
        }
        impl Snapshot<UcSnap> for IdSnap {
            fn create(entries: &[UcSnap]) -> Self {
                IdSnap {
                    ids: entries.iter().map(|e| e.id).collect(),
                }
            }
            fn merge(&mut self, delta: Self) {
                self.ids.extend(delta.ids);
            }
            fn use_snapshots() -> bool {
                true
            }
        }
        impl Val for UcSnap {
            type Snap = IdSnap;
            const SNAP: bool = true;
            const KIND: &'static str = "uc-snap";
            fn make(id: u64) -> Self {
                UcSnap {
                    id,
                    a: format!("a{}", sk(id, 1, 8)),
                }
            }
            fn id(&self) -> u64 {
                self.id
            }
            fn snap_ids(s: &IdSnap) -> Vec<u64> {
                s.ids.clone()
            }
            fn snap_make(ids: &[u64]) -> Option<IdSnap> {
                Some(IdSnap { ids: ids.to_vec() })
            }
        }
    }
    pub use self::{lfu::UcLfu, lru::UcLru, mixed::UcMix, snap::UcSnap};
}
