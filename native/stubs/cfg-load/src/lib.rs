//! Stand-in for the absent `cfg-load` crate: only the table from characters to terminals.
pub mod advanced {
    use cfg_symbol::Symbol;
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap { pub classes: Vec<(char, Vec<Symbol>)>, pub computed: bool }
    impl LexerMap {
        pub fn compute(&mut self) { self.computed = true; }
        pub fn get(&self, ch: char) -> &[Symbol] { self.classes.iter().find(|x| self.computed && x.0 == ch).map(|x| &x.1[..]).unwrap_or(&[]) }
    }
    #[derive(Clone, Debug, Default)]
    pub struct AdvancedGrammar { pub lexer_map: LexerMap }
}
