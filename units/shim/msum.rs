pub mod sh_msum {
use super::*;
verus! {
// sum of the values of a finite map
pub open spec fn msum<K>(m: Map<K, nat>) -> nat
    decreases m.dom().len(),
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k] + msum(m.remove(k)) }
}
pub proof fn lemma_msum_remove<K>(m: Map<K, nat>, k: K)
    requires m.dom().contains(k),
    ensures msum(m) == m[k] + msum(m.remove(k)),
    decreases m.dom().len(),
{
    let c = m.dom().choose();
    assert(m.dom().len() > 0) by { if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); } }
    assert(m.dom().contains(c));
    if c != k {
        lemma_msum_remove(m.remove(c), k);
        lemma_msum_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub open spec fn fsum<K, V>(m: Map<K, V>, f: spec_fn(V) -> nat) -> nat { msum(m.map_values(f)) }
pub open spec fn at<K, V>(m: Map<K, V>, k: K, f: spec_fn(V) -> nat) -> nat { if m.dom().contains(k) { f(m[k]) } else { 0 } }
pub proof fn lemma_fsum_remove<K, V>(m: Map<K, V>, k: K, f: spec_fn(V) -> nat)
    ensures fsum(m, f) == at(m, k, f) + fsum(m.remove(k), f),
{
    if m.dom().contains(k) {
        lemma_msum_remove(m.map_values(f), k);
        assert(m.map_values(f).remove(k) =~= m.remove(k).map_values(f));
    } else {
        assert(m.remove(k) =~= m);
    }
}
pub proof fn lemma_fsum_insert<K, V>(m: Map<K, V>, k: K, v: V, f: spec_fn(V) -> nat)
    ensures fsum(m.insert(k, v), f) + at(m, k, f) == fsum(m, f) + f(v),
{
    lemma_fsum_remove(m, k, f);
    lemma_fsum_remove(m.insert(k, v), k, f);
    assert(m.insert(k, v).remove(k) =~= m.remove(k));
}
pub proof fn lemma_fsum_empty<K, V>(m: Map<K, V>, f: spec_fn(V) -> nat)
    requires m.dom() =~= Set::<K>::empty(),
    ensures fsum(m, f) == 0,
{
    assert(m.map_values(f).dom() =~= Set::<K>::empty());
}
// number of elements of s that satisfy p
pub open spec fn count<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), p) + if p(s.last()) { 1nat } else { 0nat } }
}
pub proof fn lemma_count_push<A>(s: Seq<A>, x: A, p: spec_fn(A) -> bool)
    ensures count(s.push(x), p) == count(s, p) + if p(x) { 1nat } else { 0nat },
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_count_add<A>(s: Seq<A>, t: Seq<A>, p: spec_fn(A) -> bool)
    ensures count(s + t, p) == count(s, p) + count(t, p),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        lemma_count_add(s, t.drop_last(), p);
        assert((s + t).drop_last() =~= s + t.drop_last());
    }
}
pub proof fn lemma_count_take<A>(s: Seq<A>, i: int, p: spec_fn(A) -> bool)
    requires 0 <= i < s.len(),
    ensures count(s.take(i + 1), p) == count(s.take(i), p) + if p(s[i]) { 1nat } else { 0nat },
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_count_push(s.take(i), s[i], p);
}
} // verus!
}
pub use sh_msum::*;
