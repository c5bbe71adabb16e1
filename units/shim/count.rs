pub mod sh_count {
use super::*;
verus! {
// number of occurrences of a in s
pub open spec fn cnt<A>(s: Seq<A>, a: A) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { cnt(s.drop_last(), a) + if s.last() == a { 1nat } else { 0nat } }
}
pub proof fn lemma_cnt_push<A>(s: Seq<A>, x: A, a: A)
    ensures cnt(s.push(x), a) == cnt(s, a) + if x == a { 1nat } else { 0nat },
{
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast proof fn lemma_cnt_pos<A>(s: Seq<A>, a: A)
    ensures #[trigger] cnt(s, a) > 0 <==> s.contains(a),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_cnt_pos(s.drop_last(), a);
        if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; if i < s.len() - 1 { assert(s.drop_last()[i] == a); } }
        if s.drop_last().contains(a) { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == a; assert(s[i] == a); }
        if s.last() == a { assert(s[s.len() - 1] == a); }
    }
}
pub proof fn lemma_cnt_skip<A>(s: Seq<A>, n: int, a: A)
    requires 0 <= n < s.len(),
    ensures cnt(s.skip(n), a) == cnt(s.skip(n + 1), a) + if s[n] == a { 1nat } else { 0nat },
    decreases s.len() - n,
{
    if n == s.len() - 1 {
        assert(s.skip(n).drop_last() =~= Seq::<A>::empty());
        assert(s.skip(n + 1) =~= Seq::<A>::empty());
    } else {
        let t = s.drop_last();
        lemma_cnt_skip(t, n, a);
        assert(s.skip(n).drop_last() =~= t.skip(n));
        assert(s.skip(n + 1).drop_last() =~= t.skip(n + 1));
        assert(s.skip(n).last() == s.last());
        assert(s.skip(n + 1).last() == s.last());
    }
}
} // verus!
}
pub use sh_count::*;
