## The token stream (C10, C11, C12, C13, C26)
%mod stream
%field Stream gh: Ghost<Clock>
%field Stream gs: Ghost<Src<I, L>>
%lit Stream gh = fresh_clock()
%lit Stream gs = Ghost(Src { toks: __f_source.rem(), l0: __f_source_location })
%broadcast crate::shim::seqlem
%raw
/// what is parsed: the tokens of the source and the location of the first one
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(L)]
pub ghost struct Src<I, L> { pub toks: Seq<I>, pub l0: L }
impl<I, L: location::Tracker<I>> Src<I, L> {
    pub open spec fn len(self) -> nat { self.toks.len() }
    /// location tracker in front of token `n`
    pub open spec fn at(self, n: nat) -> L
        decreases n
    {
        if n == 0 { self.l0 } else { self.at((n - 1) as nat).adv_s(self.toks[n - 1]) }
    }
    pub open spec fn tok(self, n: nat) -> Option<I> { if n < self.len() { Option::Some(self.toks[n as int]) } else { Option::None } }
    pub open spec fn loc(self, n: nat) -> L::Location { self.at(n).loc_s(n as usize) }
    pub open spec fn span(self, a: nat, b: nat) -> L::Span { self.at(a).span_s(a as usize, &self.at(b), b as usize) }
    /// span of the token at `n`; empty at the end
    pub open spec fn tspan(self, n: nat) -> L::Span { self.span(n, if n < self.len() { n + 1 } else { n }) }
    /// the input is shorter than the address space and the tracker can represent all its locations
    pub open spec fn ok(self) -> bool {
        &&& self.len() < usize::MAX - 1
        &&& forall|n: nat| n < self.len() ==> (#[trigger] self.at(n)).adv_ok(self.toks[n as int])
    }
}
pub fn fresh_clock() -> Ghost<Clock> { Ghost(arbitrary()) }
impl SavedState {
    pub open spec fn val(&self) -> nat { self.index.val() as nat }
}
/// A saved position that is held has a strong reference, so the clock never
/// saw it without one.
#[verifier::external_body]
pub fn held<'i, I, L: location::Tracker<I>>(s: &SavedState, st: &Stream<'i, I, L>)
    ensures !gone_at(st.gh@.sid, s.index.id(), st.gh@.epoch)
{ unimplemented!() }
impl<'i, I, L: location::Tracker<I>> Stream<'i, I, L> {
    pub open spec fn src(&self) -> Src<I, L> { self.gs@ }
    pub open spec fn pos(&self) -> nat { self.index as nat }
    pub open spec fn start(&self) -> int { self.index - self.index_in_buffer }
    /// number of tokens taken from the source
    pub open spec fn fetched(&self) -> int { self.start() + self.buffer@.len() - (if self.source_at_eof { 1int } else { 0int }) }
    pub open spec fn gone(&self, m: Weak<usize>) -> bool { gone_at(self.gh@.sid, m.id(), self.gh@.epoch) }
    pub open spec fn marker_ok(&self, m: Weak<usize>) -> bool { self.gone(m) || self.start() <= m.val() <= self.fetched() }
    /// everything but the markers
    pub open spec fn wf0(&self) -> bool {
        &&& self.src().ok()
        &&& 0 <= self.start() && self.index_in_buffer <= self.buffer@.len()
        &&& self.index <= self.fetched() <= self.src().len()
        &&& self.source_at_eof ==> self.fetched() == self.src().len()
        &&& self.source.rem() =~= self.src().toks.skip(self.fetched())
        &&& self.source.done() == self.source_at_eof
        &&& self.source_location == self.src().at(self.fetched() as nat)
        &&& forall|i: int| 0 <= i < self.buffer@.len() ==> #[trigger] self.buffer@[i] == (self.src().tok((self.start() + i) as nat), self.src().at((self.start() + i) as nat))
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf0()
        &&& forall|i: int| 0 <= i < self.backtrack_markers@.len() ==> self.marker_ok(#[trigger] self.backtrack_markers@[i])
    }
    /// a marker for the position, if it still can be restored
    pub open spec fn has(&self, id: int, val: usize) -> bool {
        exists|i: int| 0 <= i < self.backtrack_markers@.len() && (#[trigger] self.backtrack_markers@[i]).id() == id && self.backtrack_markers@[i].val() == val
    }
    /// the position was saved in this stream
    pub open spec fn knows(&self, s: SavedState) -> bool {
        gone_at(self.gh@.sid, s.index.id(), self.gh@.epoch) || self.has(s.index.id(), s.index.val())
    }
    /// the buffer holds nothing in front of what is still needed
    pub open spec fn pruned(&self) -> bool {
        self.start() == self.index || exists|i: int| 0 <= i < self.backtrack_markers@.len() && (#[trigger] self.backtrack_markers@[i]).val() == self.start() && self.seen(self.backtrack_markers@[i])
    }
    /// the marker was in use when last looked at
    pub open spec fn seen(&self, m: Weak<usize>) -> bool {
        exists|e: nat| e <= self.gh@.epoch && !#[trigger] gone_at(self.gh@.sid, m.id(), e)
    }
    /// `a` is the first position among the first `n` markers that can be restored
    pub open spec fn least(&self, n: int, a: Option<usize>) -> bool {
        &&& a is None ==> forall|i: int| 0 <= i < n ==> self.gone(#[trigger] self.backtrack_markers@[i])
        &&& a is Some ==> forall|i: int| 0 <= i < n ==> self.gone(#[trigger] self.backtrack_markers@[i]) || a->Some_0 <= self.backtrack_markers@[i].val()
        &&& a is Some ==> self.start() <= a->Some_0 <= self.fetched() && exists|i: int| 0 <= i < n && (#[trigger] self.backtrack_markers@[i]).val() == a->Some_0 && self.seen(self.backtrack_markers@[i])
    }
    pub open spec fn tick(&self, o: &Self) -> bool { self.gh@.sid == o.gh@.sid && self.gh@.epoch <= o.gh@.epoch }
    /// the only way a stream changes: same source, saved positions stay good
    pub open spec fn evolves(&self, o: &Self) -> bool {
        &&& o.wf()
        &&& o.src() == self.src()
        &&& self.tick(o)
        &&& forall|s: SavedState| #![trigger self.knows(s)] #![trigger o.knows(s)] self.knows(s) ==> o.knows(s)
    }
}
impl<'i, I, L: location::Tracker<I>> Stream<'i, I, L> {
    pub proof fn kept(&self, o: &Self, s: SavedState)
        ensures self.knows(s) && o.backtrack_markers == self.backtrack_markers && o.gh == self.gh ==> o.knows(s)
    {
        if self.has(s.index.id(), s.index.val()) {
            let i = choose|i: int| 0 <= i < self.backtrack_markers@.len() && (#[trigger] self.backtrack_markers@[i]).id() == s.index.id() && self.backtrack_markers@[i].val() == s.index.val();
            if o.backtrack_markers == self.backtrack_markers { assert(o.backtrack_markers@[i].id() == s.index.id()); }
        }
    }
    /// moving within the buffer
    pub proof fn moved(&self, o: &Self)
        ensures
            self.wf() && o.buffer == self.buffer && o.backtrack_markers == self.backtrack_markers && o.gh == self.gh && o.gs == self.gs
                && o.source == self.source && o.source_at_eof == self.source_at_eof && o.source_location == self.source_location
                && o.start() == self.start() && o.index <= o.fetched() ==> self.evolves(o),
    {
        assert forall|s: SavedState| self.knows(s) && o.backtrack_markers == self.backtrack_markers && o.gh == self.gh implies o.knows(s) by {
            self.kept(o, s);
        }
        if o.start() == self.start() && o.gs == self.gs && o.buffer == self.buffer && self.wf() {
            assert forall|i: int| 0 <= i < o.buffer@.len() implies #[trigger] o.buffer@[i] == (o.src().tok((o.start() + i) as nat), o.src().at((o.start() + i) as nat)) by {
                assert(self.buffer@[i] == (self.src().tok((self.start() + i) as nat), self.src().at((self.start() + i) as nat)));
            }
            if o.backtrack_markers == self.backtrack_markers && o.gh == self.gh && o.source_at_eof == self.source_at_eof {
                assert forall|i: int| 0 <= i < o.backtrack_markers@.len() implies o.marker_ok(#[trigger] o.backtrack_markers@[i]) by {
                    assert(self.marker_ok(self.backtrack_markers@[i]));
                }
            }
        }
    }
}
%end
%fn Stream::new
@requires C23: forall|l0: L| (#[trigger] l0.is_default()) ==> (Src { toks: source.items(), l0 }).ok()
@ensures C10: r.wf() && r.pos() == 0 && r.src().toks == source.items() && r.src().l0.is_default()
@props: C10
%fn Stream::new_with_location
@requires C23: (Src { toks: source.items(), l0: start_location }).ok()
@ensures C10: r.wf() && r.pos() == 0 && r.src() == (Src { toks: source.items(), l0: start_location })
@props: C10
%fn Stream::save
@requires: old(self).wf()
@ensures C11,C10: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C11: final(self).knows(r) && r.val() == old(self).pos()
@ensures C26: final(self).buffer == old(self).buffer
@props: C11
@attr: #[verifier::loop_isolation(false)]
@exit: proof { let n = old(self).backtrack_markers@.len() as int; assert(self.backtrack_markers@.len() > n ==> self.backtrack_markers@[n].id() == __ret.index.id()); }
@loop 0 itermutrev:
    invariant
        old(self).wf(), self.wf(), self.src() == old(self).src(), self.pos() == old(self).pos(), old(self).tick(self),
        self.buffer == old(self).buffer, self.backtrack_markers == old(self).backtrack_markers,
        $ix <= self.backtrack_markers@.len(),
    decreases $ix
%fn Stream::start_of_buffer
@requires: self.index_in_buffer <= self.index
@ensures C10,C11,C26: r == self.start()
@props: C10,C11,C26
%fn Stream::restore
@requires C11: old(self).wf() && old(self).knows(*saved_state)
@ensures C11: old(self).evolves(final(self)) && final(self).pos() == saved_state.val()
@ensures C11,C01,C10: final(self).pos() <= final(self).src().len()
@ensures C26: final(self).buffer == old(self).buffer && final(self).start() == old(self).start()
@props: C11,C01
@entry: held(saved_state, self);
@exit: proof { old(self).moved(self); }
%fn Stream::make_next_available
@requires: old(self).wf()
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C10: r == (final(self).pos() < final(self).src().len())
@ensures C10: final(self).index_in_buffer < final(self).buffer@.len()
@ensures C26: final(self).buffer.cap() != old(self).buffer.cap() && !final(self).source_at_eof ==> final(self).pruned()
@props: C10,C26
@entry: let ghost mut gl = *self;
@looppre 0: let ghost g0 = *self;
@loop 0 retain:
    invariant
        old(self).wf(), g0.backtrack_markers == old(self).backtrack_markers, g0.gh == old(self).gh, g0.gs == old(self).gs, g0.buffer == old(self).buffer,
        g0.index == old(self).index, g0.index_in_buffer == old(self).index_in_buffer, g0.source_at_eof == old(self).source_at_eof,
        *self == (Stream { backtrack_markers: self.backtrack_markers, gh: self.gh, ..g0 }),
        old(self).tick(self), $ix <= self.backtrack_markers@.len(),
        forall|i: int| 0 <= i < self.backtrack_markers@.len() ==> self.marker_ok(#[trigger] self.backtrack_markers@[i]),
        forall|s: SavedState| #![trigger self.knows(s)] #![trigger old(self).knows(s)] old(self).knows(s) ==> self.knows(s),
        forall|i: int| 0 <= i < $ix ==> self.seen(#[trigger] self.backtrack_markers@[i]),
    ensures $ix == self.backtrack_markers@.len()
    decreases self.backtrack_markers@.len() - $ix
@looppre 1: let ghost g1 = *self;
@loop 1 min:
    invariant
        old(self).wf(), g1.gs == old(self).gs, g1.buffer == old(self).buffer, old(self).tick(&g1),
        g1.index == old(self).index, g1.index_in_buffer == old(self).index_in_buffer, g1.source_at_eof == old(self).source_at_eof,
        *self == (Stream { gh: self.gh, ..g1 }), g1.tick(self),
        forall|i: int| 0 <= i < self.backtrack_markers@.len() ==> self.marker_ok(#[trigger] self.backtrack_markers@[i]),
        forall|s: SavedState| #![trigger self.knows(s)] #![trigger old(self).knows(s)] old(self).knows(s) ==> self.knows(s),
        $it.rem().len() <= self.backtrack_markers@.len(),
        $it.rem() == refs(self.backtrack_markers@).skip(self.backtrack_markers@.len() - $it.rem().len()),
        self.least(self.backtrack_markers@.len() - $it.rem().len(), $acc),
    ensures $it.rem().len() == 0, gl == *self
    decreases $it.rem().len()
@loopnone 1: proof { gl = *self; }
@exit: proof {
    let d = self.start() - old(self).start();
    assert(self.source.rem() =~= self.src().toks.skip(self.fetched()));
    assert forall|i: int| 0 <= i < self.buffer@.len() implies #[trigger] self.buffer@[i] == (self.src().tok((self.start() + i) as nat), self.src().at((self.start() + i) as nat)) by {
        if i + d < old(self).buffer@.len() {
            assert(old(self).buffer@[i + d] == (self.src().tok((self.start() + i) as nat), self.src().at((self.start() + i) as nat)));
            assert(self.buffer@[i] == old(self).buffer@[i + d]);
        }
    }
    assert(self.wf0());
    assert(self.wf());
    assert forall|s: SavedState| old(self).knows(s) implies self.knows(s) by { assert(gl.knows(s)); gl.kept(self, s); }
}
%fn Stream::token
@requires: old(self).wf()
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C10: r == oref(old(self).src().tok(old(self).pos()))
@props: C10
%fn Stream::token_at
@requires C11: old(self).wf() && old(self).knows(*saved_state)
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C11: r == oref(old(self).src().tok(saved_state.val()))
@props: C11
@entry: held(saved_state, self);
%fn Stream::index
@ensures C10: r == self.pos()
@props: C10
%fn Stream::index_at
@ensures C11: r == saved_state.val()
@props: C11
%fn Stream::location_tracker
@requires: self.wf()
@ensures C10,C13: *r == self.src().at(self.pos())
@props: C10,C13
%fn Stream::location_tracker_at
@requires C11: self.wf() && self.knows(*saved_state)
@ensures C11,C13: *r == self.src().at(saved_state.val())
@ensures C11: saved_state.val() <= self.src().len()
@props: C11,C13
@entry: held(saved_state, self);
%fn Stream::location
@requires: self.wf()
@ensures C10,C13: r == self.src().loc(self.pos())
@props: C13
%fn Stream::location_at
@requires C11: self.wf() && self.knows(*saved_state)
@ensures C11,C13: r == self.src().loc(saved_state.val())
@props: C11,C13
%fn Stream::span
@requires: old(self).wf()
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C13: r == old(self).src().tspan(old(self).pos())
@props: C13
%fn Stream::spanning_back_to
@requires C11: old(self).wf() && old(self).knows(*saved_state)
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C13: r == old(self).src().span(saved_state.val(), old(self).pos())
@props: C13
%fn Stream::eof
@requires: old(self).wf()
@ensures C10,C11: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C10,C14: r == (old(self).pos() >= old(self).src().len())
@props: C10,C14
%fn Stream::advance
@requires: old(self).wf()
@ensures C10,C11: old(self).evolves(final(self))
@ensures C10: r == (old(self).pos() < old(self).src().len())
@ensures C10: final(self).pos() == old(self).pos() + (if r { 1int } else { 0int })
@props: C10
%fn Stream::advance_to
@requires: old(self).wf() && old(self).pos() <= index
@ensures C10,C11: old(self).evolves(final(self))
@ensures C10,C12: final(self).pos() == (if index <= old(self).src().len() { index as nat } else { old(self).src().len() })
@ensures C10,C12: r == (index <= old(self).src().len())
@props: C10,C12
@loop 0 while:
    invariant
        self.wf(), old(self).evolves(self), self.pos() + amount == index,
    ensures amount == 0
    decreases amount
@looppre 0: proof { old(self).moved(self); }
@exit: proof { old(self).moved(self); }
%fn Stream::save_at
@requires: old(self).wf() && old(self).pos() <= index
@ensures C12: old(self).evolves(final(self)) && final(self).pos() == old(self).pos()
@ensures C12: final(self).knows(r) && r.val() == (if index <= old(self).src().len() { index as nat } else { old(self).src().len() })
@props: C12
%fn Stream::attempt
@skip: replaced by its extracted body wherever it is called
