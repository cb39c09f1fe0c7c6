//! Offline stand-in for the `cfg-symbol` crate of the (absent) sibling checkout `/cfg`.
//! Symbols are 0-based in the interface and 1-based (non-zero) internally.
use std::fmt;
use std::num::NonZero;
use std::rc::Rc;

pub type SymbolName = Rc<str>;

pub trait SymbolPrimitive: Copy + Eq + Ord + std::hash::Hash + fmt::Debug + 'static {
    fn from_id(id: usize) -> Self;
    fn id(self) -> usize;
}

impl SymbolPrimitive for NonZero<u32> {
    #[inline]
    fn from_id(id: usize) -> Self {
        let id = u32::try_from(id).expect("symbol id too large");
        NonZero::new(id.checked_add(1).expect("symbol id too large")).unwrap()
    }
    #[inline]
    fn id(self) -> usize {
        (self.get() - 1) as usize
    }
}

impl SymbolPrimitive for NonZero<u16> {
    fn from_id(id: usize) -> Self {
        NonZero::new(u16::try_from(id + 1).expect("symbol id too large")).unwrap()
    }
    fn id(self) -> usize {
        (self.get() - 1) as usize
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZero<u32>> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize {
        self.n.id()
    }
}

impl Symbol<NonZero<u32>> {
    #[inline]
    pub fn from_raw(n: u32) -> Self {
        Symbol {
            n: SymbolPrimitive::from_id(n as usize),
        }
    }
    #[inline]
    pub fn first() -> Self {
        Symbol::from_raw(0)
    }
}

impl<T: SymbolPrimitive> Default for Symbol<T> {
    fn default() -> Self {
        Symbol { n: T::from_id(0) }
    }
}

impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Symbol({})", self.usize())
    }
}

impl<T: SymbolPrimitive> From<Symbol<T>> for usize {
    fn from(s: Symbol<T>) -> usize {
        s.usize()
    }
}

impl miniserde::Serialize for Symbol {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(self.n.get() as u64)
    }
}

miniserde::make_place!(Place);

impl miniserde::de::Visitor for Place<Symbol> {
    fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
        match u32::try_from(n).ok().and_then(NonZero::new) {
            Some(n) => {
                self.out = Some(Symbol { n });
                Ok(())
            }
            None => Err(miniserde::Error),
        }
    }
}

impl miniserde::Deserialize for Symbol {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        Place::new(out)
    }
}

#[cfg(feature = "serde")]
impl serde::Serialize for Symbol {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.n.get())
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Symbol {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = <u32 as serde::Deserialize>::deserialize(d)?;
        NonZero::new(n)
            .map(|n| Symbol { n })
            .ok_or_else(|| serde::de::Error::custom("zero symbol"))
    }
}

/// A symbol factory.
#[derive(Clone, Debug)]
pub struct SymbolSource<T: SymbolPrimitive = NonZero<u32>> {
    names: Vec<Option<SymbolName>>,
    _marker: std::marker::PhantomData<T>,
}

impl<T: SymbolPrimitive> Default for SymbolSource<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn new() -> Self {
        SymbolSource {
            names: vec![],
            _marker: std::marker::PhantomData,
        }
    }

    /// All symbols, in order of their ids.
    pub fn generate_fresh() -> impl Iterator<Item = Symbol<T>> {
        (0usize..).map(|id| Symbol { n: T::from_id(id) })
    }

    pub fn num_syms(&self) -> usize {
        self.names.len()
    }

    pub fn next_sym(&mut self, name: Option<&str>) -> Symbol<T> {
        let id = self.names.len();
        self.names.push(name.map(Rc::from));
        Symbol { n: T::from_id(id) }
    }

    pub fn sym<const N: usize>(&mut self) -> [Symbol<T>; N] {
        std::array::from_fn(|_| self.next_sym(None))
    }

    pub fn with_names<S: Into<Option<&'static str>> + Copy, const N: usize>(
        &mut self,
        names: [S; N],
    ) -> [Symbol<T>; N] {
        std::array::from_fn(|i| self.next_sym(names[i].into()))
    }

    pub fn name_of(&self, sym: Symbol<T>) -> Option<SymbolName> {
        self.names.get(sym.usize()).cloned().flatten()
    }

    pub fn names(&self) -> impl Iterator<Item = Option<SymbolName>> + '_ {
        self.names.iter().cloned()
    }

    pub fn name_map(&self) -> std::collections::HashMap<SymbolName, Symbol<T>> {
        self.names
            .iter()
            .enumerate()
            .filter_map(|(id, name)| name.clone().map(|n| (n, Symbol { n: T::from_id(id) })))
            .collect()
    }

    /// Keeps only the given symbols, in the given order.
    pub fn remap(&mut self, to_external: &[Symbol<T>]) {
        self.names = to_external
            .iter()
            .map(|s| self.names.get(s.usize()).cloned().flatten())
            .collect();
    }
}

pub mod intern {
    use super::Symbol;

    /// Translation between two symbol numberings.
    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Debug, Default)]
    pub struct Mapping {
        pub to_internal: Vec<Option<Symbol>>,
        pub to_external: Vec<Symbol>,
    }
}
