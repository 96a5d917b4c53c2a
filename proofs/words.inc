// ---- parsing words and characters ----
/// The table of names of the absent cfg crate, the lexer's table of the absent cfg-load crate (assumed): from a word, from a character, to symbols.
#[verifier::external_body] pub struct Cfg { x: u8 }
#[verifier::external_body] pub struct SymbolSource { x: u8 }
#[verifier::external_body] pub struct NameMap { x: u8 }
#[verifier::external_body] pub struct LexerMap { x: u8 }
pub struct AdvancedGrammar { pub lexer_map: LexerMap }
impl Cfg { pub uninterp spec fn named(&self, w: Seq<char>) -> Option<Symbol>; #[verifier::external_body] pub fn sym_source(&self) -> (r: &SymbolSource) ensures forall|w: Seq<char>| #[trigger] r.named(w) == self.named(w) { unimplemented!() } }
impl SymbolSource { pub uninterp spec fn named(&self, w: Seq<char>) -> Option<Symbol>; #[verifier::external_body] pub fn name_map(&self) -> (r: NameMap) ensures forall|w: Seq<char>| #[trigger] r.named(w) == self.named(w) { unimplemented!() } }
impl NameMap { pub uninterp spec fn named(&self, w: Seq<char>) -> Option<Symbol>; #[verifier::external_body] pub fn get(&self, w: &str) -> (r: Option<&Symbol>) ensures (match r { Some(s) => Some(*s), None => None }) == self.named(w@) { unimplemented!() } }
impl LexerMap {
    pub uninterp spec fn class(&self, c: char) -> Seq<Symbol>;
    /// The classes were computed.
    pub uninterp spec fn ready(&self) -> bool;
    #[verifier::external_body] pub fn compute(&mut self) ensures final(self).ready(), forall|c: char| #[trigger] final(self).class(c) == old(self).class(c) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, c: char) -> (r: &[Symbol]) requires self.ready() ensures r@ == self.class(c) { unimplemented!() }
}
pub trait Chars { spec fn chs(&self) -> Seq<char>; fn chars_(&self) -> (r: SeqIter<char>) ensures r@ == self.chs(), r@.len() <= usize::MAX; }
impl Chars for str { open spec fn chs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn chars_(&self) -> (r: SeqIter<char>) { unimplemented!() } }
#[verifier::external_body] pub fn string_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn symbols_(s: &[Symbol]) -> (r: Vec<Symbol>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn slice_(s: &Vec<Symbol>) -> (r: &[Symbol]) ensures r@ == s@ { unimplemented!() }
/// The repository's forest and hints to it (its behaviour is the subject of P08 to P10).
pub struct Bocage { pub x: u8 }
pub struct DefaultPerfHint { pub x: u8 }
impl Forest for Bocage {}
impl PerfHint for DefaultPerfHint {}
/// `Recognizer::with_forest(&grammar, simple_bocage::Bocage::new(&grammar))`: a new recognizer.
#[verifier::external_body]
pub fn fresh_<G: Grammar>(g: G) -> (r: Recognizer<G, Bocage, DefaultPerfHint>) ensures r.g == g, r.look.hint is None, r.done@ == Seq::<Act>::empty(), ran(g, r.done@) { unimplemented!() }
impl<G: Grammar, F: Forest, P: PerfHint> Recognizer<G, F, P> {
    /// P12: there is a finished node exactly where a parse is finished.
    #[verifier::external_body]
    pub fn finished_node(&self) -> (r: Option<u32>) ensures r is Some == fins(self.g, self.done@) { unimplemented!() }
}
pub open spec fn start_<G: Grammar>(g: G, ok: bool) -> Seq<Act> { one(g.s_sof(), 0, None, ok) }
/// The words' symbols.
pub open spec fn symbols<'a>(c: Cfg, w: Seq<&'a str>) -> Seq<Symbol> { Seq::new(w.len(), |i: int| c.named(w[i]@)->0) }
pub open spec fn known<'a>(c: Cfg, w: Seq<&'a str>, n: int) -> bool { forall|i: int| 0 <= i < n ==> c.named((#[trigger] w[i])@) is Some }
/// A character is read as each symbol of its class.
pub open spec fn scans<G: Grammar>(g: G, t: Seq<Symbol>, v: u32, n: int) -> Seq<Act> decreases n { if n <= 0 { Seq::empty() } else { scans(g, t, v, n - 1).push(Act::Scan(int_(g, t[n - 1]), v)) } }
pub open spec fn char_<G: Grammar>(g: G, l: LexerMap, c: char, ok: bool) -> Seq<Act> { (seq![Act::Begin] + scans(g, l.class(c), c as u32, l.class(c).len() as int)).push(Act::End(None, ok)) }
pub open spec fn chars_upto<G: Grammar>(g: G, l: LexerMap, s: Seq<char>, n: int) -> Seq<Act> decreases n { if n <= 0 { Seq::empty() } else { chars_upto(g, l, s, n - 1) + char_(g, l, s[n - 1], true) } }
/// What came of reading the symbols `t`, if `b` is what the recognizer did.
pub open spec fn outcome<G: Grammar>(g: G, t: Seq<Symbol>, b: Seq<Act>, r: Result<bool, ParseError>) -> bool {
    match r {
        Ok(f) => f && fins(g, b) && b =~= start_(g, true) + tokens_(g, t, t.len() as int),
        Err(ParseError::Parse { msg, tokens: bad, i }) =>
            (i < t.len() && bad@ =~= seq![t[i as int]] && b =~= start_(g, true) + tokens_(g, t, i as int) + token(g, t, i as int, false))
            || (i == 0 && bad@ =~= seq![g.s_sof()] && b =~= start_(g, false)),
        Err(ParseError::Finish { msg }) => !fins(g, b) && b =~= start_(g, true) + tokens_(g, t, t.len() as int),
        Err(ParseError::Tokenize { msg, word }) => false,
    }
}
/// What came of reading the characters `s`.
pub open spec fn read_chars<G: Grammar>(g: G, l: LexerMap, s: Seq<char>, b: Seq<Act>, r: Result<bool, ParseError>) -> bool {
    match r {
        Ok(f) => f && fins(g, b) && b =~= start_(g, true) + chars_upto(g, l, s, s.len() as int),
        Err(ParseError::Parse { msg, tokens: bad, i }) =>
            (i < s.len() && bad@ =~= l.class(s[i as int]) && b =~= start_(g, true) + chars_upto(g, l, s, i as int) + char_(g, l, s[i as int], false))
            || (i == 0 && bad@ =~= seq![g.s_sof()] && b =~= start_(g, false)),
        Err(ParseError::Finish { msg }) => !fins(g, b) && b =~= start_(g, true) + chars_upto(g, l, s, s.len() as int),
        Err(ParseError::Tokenize { msg, word }) => false,
    }
}
//@ fn parse_terminal_list free PARSE props=P27
    requires forall|w: Seq<char>| cfg.named(w) is Some ==> grammar.s_to_internal((#[trigger] cfg.named(w))->0) is Some
    ensures match r {
        // the first word that names no symbol
        Err(ParseError::Tokenize { msg, word }) => exists|i: int| 0 <= i < terminal_list@.len() && known(cfg, terminal_list@, i) && cfg.named((#[trigger] terminal_list@[i])@) is None && word@ == terminal_list@[i]@,
        _ => known(cfg, terminal_list@, terminal_list@.len() as int) && exists|b: Seq<Act>| #[trigger] ran(grammar, b) && outcome(grammar, symbols(cfg, terminal_list@), b, r),
    }
//@ sig `impl Iterator < Item = & 'a str >` => `SeqIter<&'a str>`
//@ sig `< 'a >` => `<'a, G: Grammar>`
//@ sig `DefaultGrammar` => `G`
//@ rewrite `Recognizer :: with_forest ( & grammar , simple_bocage :: Bocage :: new ( & grammar ) )` => `fresh_(grammar)`
//@ rewrite `word . to_string ( )` => `string_(word)`
//@ rewrite `& tokens` => `slice_(&tokens)`
//@ desugar_seq 0 v_
        v_all == terminal_list@, forall|w: Seq<char>| #[trigger] name_map.named(w) == cfg.named(w), recognizer.g == grammar, recognizer.look.hint is None, recognizer.done@ == Seq::<Act>::empty(), ran(grammar, recognizer.done@),
        known(cfg, v_all, v_n), tokens@ =~= symbols(cfg, v_all).take(v_n),
//@ after_loop 0
    proof { assert(tokens@ =~= symbols(cfg, terminal_list@)); }
//@ endfn
//@ fn parse_tokenizing free PARSE props=P27 attr=`#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]`
    requires forall|c: char, k: int| 0 <= k < loaded.lexer_map.class(c).len() ==> grammar.s_to_internal(#[trigger] loaded.lexer_map.class(c)[k]) is Some
    ensures exists|b: Seq<Act>| #[trigger] ran(grammar, b) && read_chars(grammar, loaded.lexer_map, input@, b, r)
//@ sig `parse_tokenizing (` => `parse_tokenizing<G: Grammar>(`
//@ sig `DefaultGrammar` => `G`
//@ rewrite `Recognizer :: with_forest ( & grammar , simple_bocage :: Bocage :: new ( & grammar ) )` => `fresh_(grammar)`
//@ rewrite `. chars ( )` => `.chars_()`
//@ rewrite `loaded . lexer_map . get ( ch ) . to_vec ( )` => `symbols_(loaded.lexer_map.get(ch))`
//@ desugar_seq 0 v_
        v_all.len() == s_.len() <= usize::MAX, forall|k: int| 0 <= k < v_all.len() ==> #[trigger] v_all[k] == (k as usize, s_[k]), s_ == input@, forall|c: char| #[trigger] loaded.lexer_map.class(c) == l_.class(c),
        forall|c: char, k: int| 0 <= k < l_.class(c).len() ==> g_.s_to_internal(#[trigger] l_.class(c)[k]) is Some,
        recognizer.g == g_, recognizer.look.hint is None, ran(g_, recognizer.done@), recognizer.done@ =~= start_(g_, true) + chars_upto(g_, l_, s_, v_n),
//@ desugar_seq 1 w_
        w_all.len() == c_.len(), forall|k: int| 0 <= k < w_all.len() ==> *(#[trigger] w_all[k]) == c_[k], c_ == l_.class(ch), forall|c: char| #[trigger] loaded.lexer_map.class(c) == l_.class(c),
        forall|c: char, k: int| 0 <= k < l_.class(c).len() ==> g_.s_to_internal(#[trigger] l_.class(c)[k]) is Some,
        recognizer.g == g_, recognizer.look.hint is None, ran(g_, recognizer.done@), recognizer.done@ =~= pre_ + seq![Act::Begin] + scans(g_, c_, ch as u32, w_n),
//@ before_loop 1
        let ghost c_ = l_.class(ch);
//@ loop_start 0
        let ghost pre_ = recognizer.done@;
//@ loop_end 1
            proof { assert(scans(g_, c_, ch as u32, w_n) == scans(g_, c_, ch as u32, w_n - 1).push(Act::Scan(int_(g_, c_[w_n - 1]), ch as u32))); }
//@ after_loop 1
        proof { assert(i == v_n - 1 && ch == s_[i as int]); assert(pre_ =~= start_(g_, true) + chars_upto(g_, l_, s_, i as int)); assert(loaded.lexer_map.class(ch) == c_); assert(recognizer.done@ =~= pre_ + seq![Act::Begin] + scans(g_, c_, ch as u32, c_.len() as int)); }
        proof { assert(recognizer.done@.push(Act::End(None, true)) =~= pre_ + char_(g_, l_, ch, true)); assert(recognizer.done@.push(Act::End(None, false)) =~= pre_ + char_(g_, l_, ch, false)); }
        proof { assert(recognizer.done@.push(Act::End(None, false)) =~= start_(g_, true) + chars_upto(g_, l_, s_, i as int) + char_(g_, l_, s_[i as int], false)); }
//@ entry
    let ghost g_ = grammar; let ghost s_ = input@; let ghost l_ = loaded.lexer_map;
//@ endfn
