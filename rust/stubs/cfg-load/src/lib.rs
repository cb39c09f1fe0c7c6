//! Offline stand-in for `cfg-load`: only the data types used by the code under test.
pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    /// Maps a character to the terminals whose character class contains it.
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        classes: Vec<(char, char, Symbol)>,
        computed: Option<BTreeMap<char, Vec<Symbol>>>,
    }

    impl LexerMap {
        pub fn new() -> Self {
            Default::default()
        }
        /// Adds the inclusive character range to the class of `sym`.
        pub fn add(&mut self, first: char, last: char, sym: Symbol) {
            self.classes.push((first, last, sym));
            self.computed = None;
        }
        pub fn compute(&mut self) {
            let mut map: BTreeMap<char, Vec<Symbol>> = BTreeMap::new();
            for &(first, last, sym) in &self.classes {
                for ch in first..=last {
                    let syms = map.entry(ch).or_default();
                    if !syms.contains(&sym) {
                        syms.push(sym);
                    }
                }
            }
            self.computed = Some(map);
        }
        pub fn get(&self, ch: char) -> &[Symbol] {
            self.computed
                .as_ref()
                .expect("lexer map is not computed")
                .get(&ch)
                .map_or(&[][..], |v| &v[..])
        }
    }

    #[derive(Clone, Debug)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
}
