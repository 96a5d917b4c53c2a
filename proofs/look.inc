//@ trait LOOK Lookahead
    /// The symbol that is announced to follow.
    spec fn hint(&self) -> Option<Symbol>;
//@ fn sym
    ensures r == self.hint()
//@ endfn
//@ fn set_hint
    ensures final(self).hint() == Some(hint)
//@ endfn
//@ fn clear_hint
    ensures final(self).hint() is None
//@ endfn
//@ endtrait
//@ impl LOOK `impl Lookahead for DefaultLookahead` strict
    open spec fn hint(&self) -> Option<Symbol> { self.next_symbol }
//@ fn sym props=P13,P16
//@ endfn
//@ fn set_hint props=P13,P16
//@ endfn
//@ fn clear_hint props=P13,P16
//@ endfn
//@ endimpl
//@ impl LOOK `impl DefaultLookahead`
//@ fn new props=P13,P16
    ensures r.next_symbol is None
//@ endfn
//@ endimpl
//@ impl LOOK `impl<'a, L: Lookahead> Lookahead for &'a mut L` strict
    open spec fn hint(&self) -> Option<Symbol> { (**self).hint() }
//@ fn sym props=P13,P16
//@ endfn
//@ fn set_hint props=P13,P16
//@ endfn
//@ fn clear_hint props=P13,P16
//@ endfn
//@ endimpl
