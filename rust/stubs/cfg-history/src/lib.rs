//! Offline stand-in for `cfg-history`.
pub mod earley {
    use cfg_symbol::Symbol;

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct EventId {
        pub id: u32,
    }
    impl EventId {
        pub fn null() -> Self {
            EventId { id: !0 }
        }
        pub fn is_null(self) -> bool {
            self.id == !0
        }
    }

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct MinimalDistance {
        pub distance: u32,
    }
    impl MinimalDistance {
        pub fn null() -> Self {
            MinimalDistance { distance: !0 }
        }
    }

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct ExternalDottedRule {
        pub id: u32,
        pub pos: u32,
    }
    impl ExternalDottedRule {
        pub fn null() -> Self {
            ExternalDottedRule { id: !0, pos: !0 }
        }
    }

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
    pub struct ExternalOrigin {
        pub id: u32,
    }
    impl ExternalOrigin {
        pub fn null() -> Self {
            ExternalOrigin { id: !0 }
        }
        pub fn is_null(self) -> bool {
            self.id == !0
        }
    }

    pub type EventAndDistance = (EventId, MinimalDistance);

    /// The eliminated symbol; `true` when it stood to the right of the remaining one.
    pub type NullingEliminated = Option<(Symbol, bool)>;

    /// Information about one dot of a rule.
    #[derive(Copy, Clone, Debug)]
    pub struct RuleDot {
        pub event: EventId,
        pub distance: MinimalDistance,
        pub trace: ExternalDottedRule,
    }
    impl RuleDot {
        pub fn null() -> Self {
            RuleDot {
                event: EventId::null(),
                distance: MinimalDistance::null(),
                trace: ExternalDottedRule::null(),
            }
        }
        pub fn event_and_distance(&self) -> EventAndDistance {
            (self.event, self.distance)
        }
        pub fn trace(&self) -> ExternalDottedRule {
            self.trace
        }
    }

    #[derive(Clone, Debug)]
    pub struct History {
        pub origin: ExternalOrigin,
        pub nullable: NullingEliminated,
        /// One entry for each position of the rule's right-hand side, plus one.
        pub dots: Vec<RuleDot>,
    }
    impl History {
        pub fn new(id: u32, len: usize) -> Self {
            History {
                origin: ExternalOrigin { id },
                nullable: None,
                dots: (0..len as u32 + 1)
                    .map(|pos| RuleDot {
                        event: EventId::null(),
                        distance: MinimalDistance::null(),
                        trace: ExternalDottedRule { id, pos },
                    })
                    .collect(),
            }
        }
        pub fn synthetic(len: usize) -> Self {
            History {
                origin: ExternalOrigin::null(),
                nullable: None,
                dots: vec![RuleDot::null(); len + 1],
            }
        }
        pub fn origin(&self) -> ExternalOrigin {
            self.origin
        }
        pub fn nullable(&self) -> NullingEliminated {
            self.nullable
        }
        pub fn dot(&self, pos: usize) -> RuleDot {
            self.dots.get(pos).copied().unwrap_or_else(RuleDot::null)
        }
    }
}
