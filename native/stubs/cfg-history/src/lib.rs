//! Stand-in for the absent `cfg-history` crate: plain data carried through.
pub mod earley {
    use cfg_symbol::Symbol;
    use miniserde::{Deserialize, Serialize};

    #[derive(Serialize, Deserialize, Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct EventId { pub id: u32 }
    #[derive(Serialize, Deserialize, Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct MinimalDistance { pub distance: u32 }
    pub type EventAndDistance = (EventId, MinimalDistance);
    #[derive(Serialize, Deserialize, Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct ExternalDottedRule { pub id: u32, pub pos: u32 }
    #[derive(Serialize, Deserialize, Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct ExternalOrigin { pub id: u32 }
    pub type NullingEliminated = Option<(Symbol, bool)>;

    impl EventId { pub fn null() -> Self { EventId { id: !0 } } }
    impl MinimalDistance { pub fn null() -> Self { MinimalDistance { distance: !0 } } }
    impl ExternalDottedRule { pub fn null() -> Self { ExternalDottedRule { id: !0, pos: !0 } } }
    impl ExternalOrigin {
        pub fn null() -> Self { ExternalOrigin { id: !0 } }
        pub fn is_null(&self) -> bool { self.id == !0 }
    }
}
