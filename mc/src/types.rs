use crate::node::*;
use omnipaxos::storage::*;
use serde::{Deserialize, Serialize};

/// Entry without snapshots. The payload lets content corruption show up as a bad id.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct E(pub u32, pub u32);

fn chk(a: u32, b: u32) -> u32 {
    if b == a * 7 + 3 {
        a
    } else {
        BAD
    }
}

#[cfg(not(feature = "unicache"))]
impl Entry for E {
    type Snapshot = NoSnapshot;
}

#[cfg(not(feature = "unicache"))]
impl HEntry for E {
    fn mk(id: u32) -> Self {
        E(id, id * 7 + 3)
    }
    fn id(&self) -> u32 {
        chk(self.0, self.1)
    }
    fn snap_list(_: &NoSnapshot) -> Vec<u32> {
        vec![]
    }
}

/// Entry whose snapshot is the exact list of the entries it stands for, so that any lost,
/// duplicated, reordered or undecided entry in a snapshot is visible.
#[cfg(not(feature = "unicache"))]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct S(pub u32, pub u32);
#[cfg(feature = "unicache")]
pub type S = E;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SList(pub Vec<u32>);

#[cfg(not(feature = "unicache"))]
impl Entry for S {
    type Snapshot = SList;
}

#[cfg(not(feature = "unicache"))]
impl Snapshot<S> for SList {
    fn create(entries: &[S]) -> Self {
        SList(entries.iter().map(|e| e.id()).collect())
    }
    fn merge(&mut self, delta: Self) {
        self.0.extend(delta.0)
    }
    fn use_snapshots() -> bool {
        true
    }
}

#[cfg(not(feature = "unicache"))]
impl HEntry for S {
    fn mk(id: u32) -> Self {
        S(id, id * 7 + 3)
    }
    fn id(&self) -> u32 {
        chk(self.0, self.1)
    }
    fn snap_list(s: &SList) -> Vec<u32> {
        s.0.clone()
    }
}

// ---------------------------------------------------------------- with UniCache
thread_local! {
    /// The values of the cached fields: entry `id` has the value `(PATTERN / 4^(id-1)) % 4`.
    pub static PATTERN: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

#[cfg(feature = "unicache")]
pub mod uni {
    use super::*;
    use omnipaxos::{macros::UniCacheEntry, unicache::*};
    use std::fmt::{Debug, Formatter};

    /// The entry as a user would declare it: one field per policy.
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
    pub struct Two {
        pub id: u32,
        #[unicache(encoding(u8), size(2), cache(lru))]
        pub a: String,
        #[unicache(encoding(u8), size(2), cache(lfu))]
        pub b: String,
        pub chk: u32,
    }

    /// Fields in another order, other encodings, types and sizes.
    pub mod many {
        use super::*;
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
        pub struct Many {
            #[unicache(encoding(u16), size(1), cache(lfu))]
            pub a: String,
            pub id: u32,
            #[unicache(size(2), cache(lru))]
            pub b: u64,
            pub note: String,
            #[unicache(cache(lfu), encoding(u64), size(3))]
            pub c: String,
            #[unicache(encoding(u32), size(2), cache(lru))]
            pub d: (u8, String),
        }
    }
    /// Everything left to the defaults.
    pub mod plain {
        use super::*;
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, UniCacheEntry)]
        pub struct Plain {
            #[unicache(encoding(u8))]
            pub a: String,
            #[unicache(size(255))]
            pub b: u32,
            pub id: u32,
        }
    }
    pub fn many(v: u32, i: u32) -> many::Many {
        many::Many { a: format!("a{v}"), id: i, b: v as u64 / 2, note: format!("n{i}"), c: format!("c{}", v % 2), d: ((v % 3) as u8, format!("d{v}")) }
    }
    pub fn plain(v: u32, i: u32) -> plain::Plain {
        plain::Plain { a: format!("a{v}"), b: v, id: i }
    }

    fn field(id: u32) -> String {
        format!("v{}", (PATTERN.with(|p| p.get()) >> (2 * (id.max(1) - 1).min(31))) & 3)
    }

    /// Debug must show the whole cache (it identifies states), which the library's own does not.
    #[derive(Clone, Serialize, Deserialize)]
    pub struct Shown(TwoCache);
    impl Debug for Shown {
        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", serde_json::to_value(&self.0).map_err(|_| std::fmt::Error)?)
        }
    }
    impl UniCache for Shown {
        type T = E;
        fn new() -> Self {
            Shown(TwoCache::new())
        }
        fn try_encode(&mut self, e: &E) -> <E as Entry>::EncodeResult {
            self.0.try_encode(&two(e))
        }
        fn decode(&mut self, p: <E as Entry>::EncodeResult) -> E {
            let t = self.0.decode(p);
            // a wrong field shows as a wrong checksum
            if t.a == field(t.id) && t.b == field(t.id) {
                E(t.id, t.chk)
            } else {
                E(t.id, u32::MAX)
            }
        }
    }
    fn two(e: &E) -> Two {
        Two { id: e.0, a: field(e.0), b: field(e.0), chk: e.1 }
    }
    impl Entry for E {
        type Snapshot = NoSnapshot;
        type Encoded = <Two as Entry>::Encoded;
        type Encodable = <Two as Entry>::Encodable;
        type NotEncodable = <Two as Entry>::NotEncodable;
        type EncodeResult = <Two as Entry>::EncodeResult;
        type UniCache = Shown;
    }
    impl HEntry for E {
        fn mk(id: u32) -> Self {
            E(id, id * 7 + 3)
        }
        fn id(&self) -> u32 {
            chk(self.0, self.1)
        }
        fn snap_list(_: &NoSnapshot) -> Vec<u32> {
            vec![]
        }
    }
}
