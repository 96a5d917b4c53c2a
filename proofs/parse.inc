//@ file PARSE gearley-utils/src/parse.rs
/// std::iter::Peekable over an iterator of known sequence (assumed contract).
impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn peekable(self) -> (r: SeqIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>) ensures final(self)@ == old(self)@, r is Some == (old(self)@.len() > 0), r is Some ==> *r->0 == old(self)@[0] { unimplemented!() }
}
pub trait Forest: Sized {}
pub trait PerfHint: Sized {}
/// (assumed) A recognizer for `g` that was new did this; a finished parse ends where it stands.
pub uninterp spec fn ran<G>(g: G, done: Seq<Act>) -> bool;
pub uninterp spec fn fins<G>(g: G, done: Seq<Act>) -> bool;
/// What a recognizer is told to do. `End` carries the hint in force and the answer.
pub enum Act { Begin, Scan(Symbol, u32), End(Option<Symbol>, bool) }
/// The recognizer as its user sees it (its behaviour is the subject of P11 to P17): a grammar, the hint in force,
/// a record of what it was told.
pub struct Look { pub hint: Option<Symbol> }
impl Look {
    pub fn set_hint(&mut self, hint: Symbol) ensures final(self).hint == Some(hint) { self.hint = Some(hint); }
    pub fn clear_hint(&mut self) ensures final(self).hint is None { self.hint = None; }
}
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(P)]
pub struct Recognizer<G, F, P> { pub g: G, pub look: Look, pub done: Ghost<Seq<Act>>, pub x: PhantomData<(F, P)> }
impl<G: Grammar, F: Forest, P: PerfHint> Recognizer<G, F, P> {
    pub fn grammar(&self) -> (r: &G) ensures *r == self.g { &self.g }
    pub fn lookahead(&mut self) -> (r: &mut Look) ensures *r == old(self).look, final(self).look == *final(r), final(self).g == old(self).g, final(self).done == old(self).done { &mut self.look }
    #[verifier::external_body]
    pub fn begin_earleme(&mut self) ensures final(self).g == old(self).g, final(self).look == old(self).look, final(self).done@ == old(self).done@.push(Act::Begin), ran(old(self).g, old(self).done@) ==> ran(final(self).g, final(self).done@) { unimplemented!() }
    #[verifier::external_body]
    pub fn scan(&mut self, symbol: Symbol, value: u32) ensures final(self).g == old(self).g, final(self).look == old(self).look, final(self).done@ == old(self).done@.push(Act::Scan(symbol, value)), ran(old(self).g, old(self).done@) ==> ran(final(self).g, final(self).done@) { unimplemented!() }
    #[verifier::external_body]
    pub fn end_earleme(&mut self) -> (r: bool) ensures final(self).g == old(self).g, final(self).done@ == old(self).done@.push(Act::End(old(self).look.hint, r)), r ==> final(self).look.hint is None, ran(old(self).g, old(self).done@) ==> ran(final(self).g, final(self).done@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finished(&self) -> (r: bool) ensures r == fins(self.g, self.done@) { unimplemented!() }
}
/// Reading one token: begun, scanned once, ended.
pub open spec fn one(s: Symbol, value: u32, hint: Option<Symbol>, ok: bool) -> Seq<Act> { seq![Act::Begin, Act::Scan(s, value), Act::End(hint, ok)] }
pub open spec fn int_<G: Grammar>(g: G, s: Symbol) -> Symbol { g.s_to_internal(s)->0 }
/// The token that follows token `i`, if there is one.
pub open spec fn next_<G: Grammar>(g: G, t: Seq<Symbol>, i: int) -> Option<Symbol> { if i + 1 < t.len() { Some(int_(g, t[i + 1])) } else { None } }
/// Reading token `i` with its index as value and the following token announced.
pub open spec fn token<G: Grammar>(g: G, t: Seq<Symbol>, i: int, ok: bool) -> Seq<Act> { one(int_(g, t[i]), i as u32, next_(g, t, i), ok) }
/// Reading the first `n` tokens.
pub open spec fn tokens_<G: Grammar>(g: G, t: Seq<Symbol>, n: int) -> Seq<Act> decreases n { if n <= 0 { Seq::empty() } else { tokens_(g, t, n - 1) + token(g, t, n - 1, true) } }
//@ enum PARSE ParseError
//@ impl PARSE `impl<G, F, P> RecognizerParseExt for Recognizer<G, F, P>` as `impl<G: Grammar, F: Forest, P: PerfHint> Recognizer<G, F, P>`
//@ fn parse props=P26
    requires forall|i: int| 0 <= i < tokens@.len() ==> old(self).g.s_to_internal(#[trigger] tokens@[i]) is Some
    ensures
        final(self).g == old(self).g, ran(old(self).g, old(self).done@) ==> ran(final(self).g, final(self).done@),
        ({ let (g, a, b) = (old(self).g, old(self).done@, final(self).done@); let h = old(self).look.hint;
        match r {
            // every token was read, in order, and the verdict is the recognizer's
            Ok(f) => b =~= a + one(g.s_sof(), 0, h, true) + tokens_(g, tokens@, tokens@.len() as int) && f == fins(g, b),
            // all tokens before number `i` were read, number `i` could not be; or else the start marker could not be
            Err(ParseError::Parse { msg, tokens: t, i }) =>
                (i < tokens@.len() && t@ =~= seq![tokens@[i as int]] && b =~= a + one(g.s_sof(), 0, h, true) + tokens_(g, tokens@, i as int) + token(g, tokens@, i as int, false))
                || (i == 0 && t@ =~= seq![g.s_sof()] && b =~= a + one(g.s_sof(), 0, h, false)),
            Err(_) => false,
        } })
//@ rewrite `. iter ( )` => `.iter_seq_()`
//@ entry
    proof { broadcast use vstd::slice::axiom_spec_len; assert(vstd::slice::spec_slice_len(tokens) == tokens@.len()); }
//@ loop 0 while
    invariant
        tokens@.len() <= usize::MAX, self.g == old(self).g, ran(old(self).g, old(self).done@) ==> ran(self.g, self.done@), 0 <= iter@.len() <= tokens@.len(),
        forall|i: int| 0 <= i < tokens@.len() ==> old(self).g.s_to_internal(#[trigger] tokens@[i]) is Some,
        forall|k: int| 0 <= k < iter@.len() ==> #[trigger] iter@[k] == ((tokens@.len() - iter@.len() + k) as usize, &tokens@[tokens@.len() - iter@.len() + k]),
        self.done@ =~= old(self).done@ + one(old(self).g.s_sof(), 0, old(self).look.hint, true) + tokens_(old(self).g, tokens@, tokens@.len() - iter@.len()),
    ensures iter@.len() == 0
    decreases iter@.len()
//@ endfn
//@ endimpl
