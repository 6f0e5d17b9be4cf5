// The Go runtime values the translated functions work on. Everything marked
// external_body here is the trusted base: Go strings, slices, arrays and maps
// as mathematical values, the standard library functions the module calls, and
// the axioms on them. The lemmas below are proved.

pub mod rt {
use vstd::prelude::*;
pub spec const MAXL: int = 0x7fff_ffff_ffff;

// ---- strings
#[verifier::external_body]
pub struct Str { x: usize }
impl Copy for Str {}
impl Clone for Str { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn mk_str(s: Seq<u8>) -> Str;
pub broadcast axiom fn ax_str_ext(a: Str)
    ensures mk_str(#[trigger] a@) == a, a@.len() <= MAXL;

pub type Bytes = Seq<u8>;

#[verifier::external_body]
pub fn str_empty() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_lit(s: Ghost<Seq<u8>>) -> (r: Str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn str_len(s: Str) -> (r: i64) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_at(s: Str, i: i64) -> (r: u8) requires 0 <= i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn str_sub(s: Str, a: i64, b: i64) -> (r: Str) requires 0 <= a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_from(s: Str, a: i64) -> (r: Str) requires 0 <= a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_to(s: Str, b: i64) -> (r: Str) requires 0 <= b <= s@.len() ensures r@ == s@.subrange(0, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_cat(a: Str, b: Str) -> (r: Str) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_push(a: Str, b: u8) -> (r: Str) ensures r@ == a@.push(b) { unimplemented!() }
#[verifier::external_body]
pub fn str_lt(a: Str, b: Str) -> (r: bool) ensures r == sq_lt(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn str_of_rune(c: i32) -> (r: Str) ensures r@ == enc(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_of_sl(b: Sl<u8>) -> (r: Str) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_rune(s: Str, i: i64) -> (r: (i32, i64)) requires 0 <= i < s@.len()
    ensures r.0 == dec_c(s@.subrange(i as int, s@.len() as int)), r.1 == dec_w(s@.subrange(i as int, s@.len() as int)) { unimplemented!() }

// lexicographic order of byte sequences
pub open spec fn sq_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] < b[0] { true }
    else if a[0] > b[0] { false }
    else { sq_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}

pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p
}
pub open spec fn ends(s: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p
}
// p occurs in s at i
pub open spec fn occ(s: Seq<u8>, p: Seq<u8>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p
}
pub open spec fn from(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, s.len() as int) }

// ---- slices
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sl<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for Sl<T> {}
impl<T> Clone for Sl<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> View for Sl<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub uninterp spec fn mk_sl<T>(s: Seq<T>) -> Sl<T>;
pub broadcast axiom fn ax_sl_ext<T>(a: Sl<T>)
    ensures mk_sl(#[trigger] a@) == a, a@.len() <= MAXL;
// an element is structurally below its slice
pub axiom fn ax_sl_decr<T>(a: Sl<T>, i: int)
    requires 0 <= i < a@.len()
    ensures (decreases_to!(a => a@[i]));

#[verifier::external_body]
pub fn sl_nil<T>() -> (r: Sl<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn sl_empty<T>() -> (r: Sl<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn sl_len<T>(s: Sl<T>) -> (r: i64) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn sl_get<T>(s: Sl<T>, i: i64) -> (r: T) requires 0 <= i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn sl_set<T>(s: Sl<T>, i: i64, v: T) -> (r: Sl<T>) requires 0 <= i < s@.len() ensures r@ == s@.update(i as int, v) { unimplemented!() }
#[verifier::external_body]
pub fn sl_push<T>(s: Sl<T>, v: T) -> (r: Sl<T>) ensures r@ == s@.push(v) { unimplemented!() }
#[verifier::external_body]
pub fn sl_cat<T>(s: Sl<T>, v: Sl<T>) -> (r: Sl<T>) ensures r@ == s@ + v@ { unimplemented!() }
#[verifier::external_body]
pub fn sl_sub<T>(s: Sl<T>, a: i64, b: i64) -> (r: Sl<T>) requires 0 <= a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn sl_from<T>(s: Sl<T>, a: i64) -> (r: Sl<T>) requires 0 <= a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn sl_to<T>(s: Sl<T>, b: i64) -> (r: Sl<T>) requires 0 <= b <= s@.len() ensures r@ == s@.subrange(0, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn sl_make<T>(n: i64, z: T) -> (r: Sl<T>) requires 0 <= n ensures r@ == Seq::new(n as nat, |i: int| z) { unimplemented!() }
#[verifier::external_body]
pub fn sl_make_cap<T>(n: i64, c: i64, z: T) -> (r: Sl<T>) requires 0 <= n <= c <= 2 * MAXL ensures r@ == Seq::new(n as nat, |i: int| z) { unimplemented!() }
#[verifier::external_body]
pub fn sl_cap<T>(s: Sl<T>) -> (r: i64) ensures s@.len() <= r <= MAXL { unimplemented!() }
#[verifier::external_body]
pub fn sl_copy<T>(d: Sl<T>, s: Sl<T>) -> (r: (Sl<T>, i64))
    ensures r.1 == if d@.len() < s@.len() { d@.len() as int } else { s@.len() as int },
        r.0@ == s@.subrange(0, r.1 as int) + d@.subrange(r.1 as int, d@.len() as int) { unimplemented!() }
// nil and empty slices differ only here; nothing the module promises depends on it
#[verifier::external_body]
pub fn sl_is_nil<T>(s: Sl<T>) -> (r: bool) ensures r ==> s@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn sl_of_str(s: Str) -> (r: Sl<u8>) ensures r@ == s@ { unimplemented!() }

// ---- arrays
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Ar<T, const N: usize> { x: core::marker::PhantomData<T> }
impl<T, const N: usize> Copy for Ar<T, N> {}
impl<T, const N: usize> Clone for Ar<T, N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T, const N: usize> View for Ar<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub uninterp spec fn mk_ar<T, const N: usize>(s: Seq<T>) -> Ar<T, N>;
pub broadcast axiom fn ax_ar_ext<T, const N: usize>(a: Ar<T, N>)
    ensures mk_ar(#[trigger] a@) == a, a@.len() == N;
#[verifier::external_body]
pub fn ar_new<T, const N: usize>(z: T) -> (r: Ar<T, N>) ensures r@ == Seq::new(N as nat, |i: int| z) { unimplemented!() }
#[verifier::external_body]
pub fn ar_get<T, const N: usize>(s: Ar<T, N>, i: i64) -> (r: T) requires 0 <= i < N ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn ar_set<T, const N: usize>(s: Ar<T, N>, i: i64, v: T) -> (r: Ar<T, N>) requires 0 <= i < N ensures r@ == s@.update(i as int, v) { unimplemented!() }
#[verifier::external_body]
pub fn ar_to_sl<T, const N: usize>(s: Ar<T, N>) -> (r: Sl<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn ar_from_sl<T, const N: usize>(s: Sl<T>) -> (r: Ar<T, N>) requires s@.len() == N ensures r@ == s@ { unimplemented!() }

// ---- maps
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Mp<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> Copy for Mp<K, V> {}
impl<K, V> Clone for Mp<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<K, V> View for Mp<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> Mp<K, V> { pub uninterp spec fn nil(&self) -> bool; }
pub broadcast axiom fn ax_mp_fin<K, V>(a: Mp<K, V>)
    ensures (#[trigger] a@).dom().len() <= MAXL;
#[verifier::external_body]
pub fn mp_nil<K, V>() -> (r: Mp<K, V>) ensures r@ == Map::<K, V>::empty(), r.nil() { unimplemented!() }
#[verifier::external_body]
pub fn mp_new<K, V>() -> (r: Mp<K, V>) ensures r@ == Map::<K, V>::empty(), !r.nil() { unimplemented!() }
#[verifier::external_body]
pub fn mp_idx<K, V>(m: Mp<K, V>, k: K, z: V) -> (r: V) ensures r == if m@.contains_key(k) { m@[k] } else { z } { unimplemented!() }
#[verifier::external_body]
pub fn mp_has<K, V>(m: Mp<K, V>, k: K) -> (r: bool) ensures r == m@.contains_key(k) { unimplemented!() }
#[verifier::external_body]
pub fn mp_set<K, V>(m: Mp<K, V>, k: K, v: V) -> (r: Mp<K, V>) requires !m.nil() ensures r@ == m@.insert(k, v), !r.nil() { unimplemented!() }
#[verifier::external_body]
pub fn mp_del<K, V>(m: Mp<K, V>, k: K) -> (r: Mp<K, V>) ensures r@ == m@.remove(k), r.nil() == m.nil() { unimplemented!() }
#[verifier::external_body]
pub fn mp_len<K, V>(m: Mp<K, V>) -> (r: i64) ensures r == m@.dom().len() { unimplemented!() }
#[verifier::external_body]
pub fn mp_is_nil<K, V>(m: Mp<K, V>) -> (r: bool) ensures r == m.nil(), r ==> m@ == Map::<K, V>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn mp_keys<K, V>(m: Mp<K, V>) -> (r: Sl<K>) ensures r@.no_duplicates(), forall|k: K| r@.contains(k) <==> m@.contains_key(k) { unimplemented!() }

// ---- pointers
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Pt<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for Pt<T> {}
impl<T> Clone for Pt<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> View for Pt<T> { type V = Option<T>; uninterp spec fn view(&self) -> Option<T>; }
pub uninterp spec fn mk_pt<T>(s: Option<T>) -> Pt<T>;
pub broadcast axiom fn ax_pt_ext<T>(a: Pt<T>)
    ensures mk_pt(#[trigger] a@) == a, a@ is Some ==> (decreases_to!(a => a@->0));
#[verifier::external_body]
pub fn pt_nil<T>() -> (r: Pt<T>) ensures r@ == None::<T> { unimplemented!() }
#[verifier::external_body]
pub fn pt_some<T>(v: T) -> (r: Pt<T>) ensures r@ == Some(v) { unimplemented!() }
#[verifier::external_body]
pub fn pt_get<T>(p: Pt<T>) -> (r: T) requires p@ is Some ensures p@ == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn pt_is_nil<T>(p: Pt<T>) -> (r: bool) ensures r == (p@ is None) { unimplemented!() }

// the objects of one heap type, by address; 0 is nil
pub type Ref = u64;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Hp<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for Hp<T> {}
impl<T> Clone for Hp<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> View for Hp<T> { type V = Map<u64, T>; uninterp spec fn view(&self) -> Map<u64, T>; }
#[verifier::external_body]
pub fn hp_new<T>(h: Hp<T>, v: T) -> (r: (Ref, Hp<T>)) ensures !h@.contains_key(r.0), r.0 != 0, r.1@ == h@.insert(r.0, v) { unimplemented!() }
#[verifier::external_body]
pub fn hp_get<T>(h: Hp<T>, p: Ref) -> (r: T) requires h@.contains_key(p) ensures r == h@[p] { unimplemented!() }
#[verifier::external_body]
pub fn hp_set<T>(h: Hp<T>, p: Ref, v: T) -> (r: Hp<T>) requires h@.contains_key(p) ensures r@ == h@.insert(p, v) { unimplemented!() }

// ---- the items.Store a caller passes: a log of what was stored
#[verifier::external_body]
pub struct St { x: usize }
impl Copy for St {}
impl Clone for St { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl View for St { type V = Seq<(Seq<u8>, int)>; uninterp spec fn view(&self) -> Seq<(Seq<u8>, int)>; }
pub axiom fn ax_st_len(a: St) ensures a@.len() <= MAXL;
#[verifier::external_body]
pub fn st_nil() -> (r: St) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn st_store(s: St, q: Str, i: i64) -> (r: St) ensures r@ == s@.push((q@, i as int)) { unimplemented!() }

// ---- errors: only nil or not (and which) matters
#[derive(Clone, Copy)]
pub enum Err { Nil, E(i64) }
#[verifier::external_body]
pub fn err_is_nil(e: Err) -> (r: bool) ensures r == (e is Nil) { unimplemented!() }

// ---- values of types the module only passes through
#[verifier::external_body]
pub struct Opq { x: usize }
impl Copy for Opq {}
impl Clone for Opq { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::external_body]
pub fn opq_zero() -> (r: Opq) { unimplemented!() }

// ---- misc
#[verifier::external_body]
pub fn go_eq<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn go_panic<T>() -> (r: T) requires false ensures false { unimplemented!() }
#[verifier::external_body]
pub fn go_grow(n: i64) requires n >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn m_add(a: i64, b: i64) -> (r: i64) ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn m_sub(a: i64, b: i64) -> (r: i64) ensures r == a - b { unimplemented!() }
#[verifier::external_body]
pub fn m_mul(a: i64, b: i64) -> (r: i64) ensures r == a * b { unimplemented!() }
#[verifier::external_body]
pub fn i_div_i64(a: i64, b: i64) -> (r: i64) requires b != 0, b != -1 ensures a >= 0 && b > 0 ==> r == a / b { unimplemented!() }
#[verifier::external_body]
pub fn i_rem_i64(a: i64, b: i64) -> (r: i64) requires b != 0, b != -1 ensures a >= 0 && b > 0 ==> r == a % b { unimplemented!() }
#[verifier::external_body]
pub fn i_div_i32(a: i32, b: i32) -> (r: i32) requires b != 0, b != -1 ensures a >= 0 && b > 0 ==> r == a / b { unimplemented!() }
#[verifier::external_body]
pub fn i_rem_i32(a: i32, b: i32) -> (r: i32) requires b != 0, b != -1 ensures a >= 0 && b > 0 ==> r == a % b { unimplemented!() }
#[verifier::external_body]
pub fn i_min(a: i64, b: i64) -> (r: i64) ensures r == if a < b { a } else { b } { unimplemented!() }
#[verifier::external_body]
pub fn i_max(a: i64, b: i64) -> (r: i64) ensures r == if a > b { a } else { b } { unimplemented!() }

pub open spec fn swo<T>(less: spec_fn(T, T) -> bool) -> bool {
    (forall|a: T| !#[trigger] less(a, a))
    && (forall|a: T, b: T, c: T| #[trigger] less(a, b) && #[trigger] less(b, c) ==> less(a, c))
    && (forall|a: T, b: T, c: T| #[trigger] less(a, c) ==> less(a, b) || #[trigger] less(b, c))
}
pub open spec fn sorted_by<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])
}
#[verifier::external_body]
pub fn sort_slice<T>(s: Sl<T>, less: Ghost<spec_fn(T, T) -> bool>) -> (r: Sl<T>)
    requires swo(less@)
    ensures r@.to_multiset() == s@.to_multiset(), r@.len() == s@.len(), sorted_by(r@, less@),
        forall|x: T| r@.contains(x) <==> s@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn sort_any<T>(s: Sl<T>) -> (r: Sl<T>)
    ensures r@.to_multiset() == s@.to_multiset(), r@.len() == s@.len(), forall|x: T| r@.contains(x) <==> s@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn sort_Strings(s: Sl<Str>) -> (r: Sl<Str>)
    ensures r@.to_multiset() == s@.to_multiset(), r@.len() == s@.len(), sorted_by(r@, |a: Str, b: Str| sq_lt(a@, b@)),
        forall|x: Str| r@.contains(x) <==> s@.contains(x) { unimplemented!() }

// ---- UTF-8
pub spec const RERR: int = 0xFFFD;
pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b <= 0xBF }
pub open spec fn dec_w2(s: Seq<u8>) -> bool { s.len() >= 2 && 0xC2 <= s[0] <= 0xDF && is_cont(s[1]) }
pub open spec fn dec_w3(s: Seq<u8>) -> bool {
    s.len() >= 3 && 0xE0 <= s[0] <= 0xEF && is_cont(s[1]) && is_cont(s[2]) && (s[0] == 0xE0 ==> s[1] >= 0xA0) && (s[0] == 0xED ==> s[1] <= 0x9F)
}
pub open spec fn dec_w4(s: Seq<u8>) -> bool {
    s.len() >= 4 && 0xF0 <= s[0] <= 0xF4 && is_cont(s[1]) && is_cont(s[2]) && is_cont(s[3]) && (s[0] == 0xF0 ==> s[1] >= 0x90) && (s[0] == 0xF4 ==> s[1] <= 0x8F)
}
// width of the first rune (0 for "", 1 for an invalid sequence)
pub open spec fn dec_w(s: Seq<u8>) -> int {
    if s.len() == 0 { 0 } else if s[0] < 0x80 { 1 } else if dec_w2(s) { 2 } else if dec_w3(s) { 3 } else if dec_w4(s) { 4 } else { 1 }
}
pub open spec fn dec_c(s: Seq<u8>) -> int {
    if s.len() == 0 { RERR } else if s[0] < 0x80 { s[0] as int }
    else if dec_w2(s) { (s[0] - 0xC0) * 64 + (s[1] - 0x80) }
    else if dec_w3(s) { (s[0] - 0xE0) * 4096 + (s[1] - 0x80) * 64 + (s[2] - 0x80) }
    else if dec_w4(s) { (s[0] - 0xF0) * 262144 + (s[1] - 0x80) * 4096 + (s[2] - 0x80) * 64 + (s[3] - 0x80) }
    else { RERR }
}
// the first rune is well formed
pub open spec fn dec_ok(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] < 0x80 || dec_w2(s) || dec_w3(s) || dec_w4(s)) }
pub open spec fn rune_ok(c: int) -> bool { 0 <= c <= 0x10FFFF && !(0xD800 <= c <= 0xDFFF) }
pub open spec fn rune_len(c: int) -> int {
    if !rune_ok(c) { -1 } else if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 }
}
pub open spec fn enc_ok(c: int) -> Seq<u8> {
    if c < 0x80 { seq![c as u8] }
    else if c < 0x800 { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c < 0x10000 { seq![(0xE0 + c / 4096) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xF0 + c / 262144) as u8, (0x80 + c / 4096 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
}
pub open spec fn enc(c: int) -> Seq<u8> { if rune_ok(c) { enc_ok(c) } else { seq![0xEFu8, 0xBFu8, 0xBDu8] } }

#[verifier::external_body]
pub fn utf8_DecodeRuneInString(s: Str) -> (r: (i32, i64)) ensures r.0 == dec_c(s@), r.1 == dec_w(s@) { unimplemented!() }
#[verifier::external_body]
pub fn utf8_DecodeRune(s: Sl<u8>) -> (r: (i32, i64)) ensures r.0 == dec_c(s@), r.1 == dec_w(s@) { unimplemented!() }
pub open spec fn last_is(s: Seq<u8>, k: int) -> bool { 1 <= k <= s.len() && dec_ok(from(s, s.len() - k)) && dec_w(from(s, s.len() - k)) == k }
#[verifier::external_body]
pub fn utf8_DecodeLastRuneInString(s: Str) -> (r: (i32, i64))
    ensures s@.len() == 0 ==> r.0 == RERR && r.1 == 0,
        s@.len() > 0 ==> 1 <= r.1 <= 4 && r.1 <= s@.len(),
        s@.len() > 0 ==> (last_is(s@, r.1 as int) && r.0 == dec_c(from(s@, s@.len() - r.1)))
            || (r.0 == RERR && r.1 == 1 && forall|k: int| !last_is(s@, k)) { unimplemented!() }
#[verifier::external_body]
pub fn utf8_RuneLen(c: i32) -> (r: i64) ensures r == rune_len(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn utf8_AppendRune(b: Sl<u8>, c: i32) -> (r: Sl<u8>) ensures r@ == b@ + enc(c as int) { unimplemented!() }

// ---- package strings
#[verifier::external_body]
pub fn strings_HasPrefix(s: Str, p: Str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn strings_HasSuffix(s: Str, p: Str) -> (r: bool) ensures r == ends(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn strings_Index(s: Str, p: Str) -> (r: i64)
    ensures -1 <= r <= s@.len(), r >= 0 ==> occ(s@, p@, r as int), forall|i: int| 0 <= i && (r < 0 || i < r) ==> !#[trigger] occ(s@, p@, i) { unimplemented!() }
#[verifier::external_body]
pub fn strings_IndexByte(s: Str, c: u8) -> (r: i64)
    ensures -1 <= r < s@.len(), r >= 0 ==> s@[r as int] == c, forall|i: int| 0 <= i < s@.len() && (r < 0 || i < r) ==> #[trigger] s@[i] != c { unimplemented!() }
#[verifier::external_body]
pub fn strings_IndexRune(s: Str, c: i32) -> (r: i64)
    ensures -1 <= r < s@.len() || s@.len() == 0 && r == -1,
        rune_ok(c as int) && c != RERR ==> (r >= 0 ==> occ(s@, enc(c as int), r as int)) && (forall|i: int| 0 <= i && (r < 0 || i < r) ==> !#[trigger] occ(s@, enc(c as int), i)) { unimplemented!() }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
#[verifier::external_body]
pub fn strings_IndexAny(s: Str, cs: Str) -> (r: i64)
    requires ascii(cs@)
    ensures -1 <= r < s@.len() || s@.len() == 0 && r == -1, r >= 0 ==> cs@.contains(s@[r as int]),
        forall|i: int| 0 <= i < s@.len() && (r < 0 || i < r) ==> !cs@.contains(#[trigger] s@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn strings_LastIndexAny(s: Str, cs: Str) -> (r: i64)
    requires ascii(cs@)
    ensures -1 <= r < s@.len() || s@.len() == 0 && r == -1, r >= 0 ==> cs@.contains(s@[r as int]),
        forall|i: int| 0 <= i < s@.len() && r < i ==> !cs@.contains(#[trigger] s@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn strings_ContainsAny(s: Str, cs: Str) -> (r: bool)
    requires ascii(cs@)
    ensures r == exists|i: int| 0 <= i < s@.len() && cs@.contains(#[trigger] s@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn strings_Contains(s: Str, p: Str) -> (r: bool)
    ensures r == exists|i: int| #[trigger] occ(s@, p@, i) { unimplemented!() }
#[verifier::external_body]
pub fn strings_ContainsRune(s: Str, c: i32) -> (r: bool)
    requires 0 <= c < 0x80
    ensures r == s@.contains(c as u8) { unimplemented!() }
pub open spec fn nbyte(s: Seq<u8>, b: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { nbyte(s.drop_last(), b) + if s.last() == b { 1int } else { 0 } }
}
#[verifier::external_body]
pub fn strings_Count(s: Str, p: Str) -> (r: i64)
    requires p@.len() == 1
    ensures r == nbyte(s@, p@[0]), 0 <= r <= s@.len() { unimplemented!() }
// position of the first byte b, or the length
pub open spec fn first_b(s: Seq<u8>, b: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == b { 0 } else { 1 + first_b(s.subrange(1, s.len() as int), b) }
}
// the parts between the bytes b
pub open spec fn split_b(s: Seq<u8>, b: u8) -> Seq<Seq<u8>> decreases s.len() via split_b_dec
{
    let k = first_b(s, b);
    if k >= s.len() { seq![s] } else { seq![s.subrange(0, k)] + split_b(s.subrange(k + 1, s.len() as int), b) }
}
#[via_fn]
proof fn split_b_dec(s: Seq<u8>, b: u8) { lemma_first_b(s, b); }
pub proof fn lemma_first_b(s: Seq<u8>, b: u8)
    ensures 0 <= first_b(s, b) <= s.len(), first_b(s, b) < s.len() ==> s[first_b(s, b)] == b, forall|i: int| 0 <= i < first_b(s, b) ==> #[trigger] s[i] != b
    decreases s.len()
{
    if s.len() > 0 && s[0] != b {
        let t = s.subrange(1, s.len() as int);
        lemma_first_b(t, b);
        assert forall|i: int| 0 <= i < first_b(s, b) implies #[trigger] s[i] != b by { if i > 0 { assert(t[i - 1] != b); } }
    }
}
#[verifier::external_body]
pub fn strings_Split(s: Str, p: Str) -> (r: Sl<Str>)
    requires p@.len() == 1
    ensures r@.len() == split_b(s@, p@[0]).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_b(s@, p@[0])[i] { unimplemented!() }
#[verifier::external_body]
pub fn strings_Cut(s: Str, p: Str) -> (r: (Str, Str, bool))
    requires p@.len() == 1
    ensures r.2 == (first_b(s@, p@[0]) < s@.len()),
        r.2 ==> r.0@ == s@.subrange(0, first_b(s@, p@[0])) && r.1@ == s@.subrange(first_b(s@, p@[0]) + 1, s@.len() as int),
        !r.2 ==> r.0@ == s@ && r.1@ == Seq::<u8>::empty(),
        0 <= first_b(s@, p@[0]) <= s@.len() { unimplemented!() }
// Trim of one ASCII symbol
pub open spec fn trim_l(s: Seq<u8>, b: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s[0] == b { trim_l(s.subrange(1, s.len() as int), b) } else { s } }
pub open spec fn trim_r(s: Seq<u8>, b: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == b { trim_r(s.drop_last(), b) } else { s } }
#[verifier::external_body]
pub fn strings_Trim(s: Str, p: Str) -> (r: Str)
    requires p@.len() == 1
    ensures r@ == trim_r(trim_l(s@, p@[0]), p@[0]) { unimplemented!() }
// unicode.IsSpace
pub open spec fn is_space(c: int) -> bool { 9 <= c <= 13 || c == 32 || c == 0x85 || c == 0xA0 || c == 0x1680 || 0x2000 <= c <= 0x200a || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000 }
pub open spec fn ts_l(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && is_space(dec_c(s)) && 0 < dec_w(s) <= s.len() { ts_l(from(s, dec_w(s))) } else { s } }
pub open spec fn ts_r(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if exists|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k))) {
        let k = choose|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k)));
        ts_r(s.subrange(0, s.len() - k))
    } else { s }
}
pub open spec fn trim_space(s: Seq<u8>) -> Seq<u8> { ts_r(ts_l(s)) }
#[verifier::external_body]
pub fn strings_TrimSpace(s: Str) -> (r: Str) ensures r@ == trim_space(s@) { unimplemented!() }
pub open spec fn rep(s: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { rep(s, n - 1) + s } }
#[verifier::external_body]
pub fn strings_Repeat(s: Str, n: i64) -> (r: Str) requires n >= 0 ensures r@ == rep(s@, n as int) { unimplemented!() }

// ---- regexp: a compiled expression is an uninterpreted predicate
pub uninterp spec fn re_match(re: Opq, s: Seq<u8>) -> bool;
pub uninterp spec fn re_of(s: Seq<u8>) -> Opq;
// the text compiles
pub uninterp spec fn re_ok(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn regexp_Compile(s: Str) -> (r: (Opq, Err)) ensures (r.1 is Nil) == re_ok(s@), r.1 is Nil ==> r.0 == re_of(s@) { unimplemented!() }
#[verifier::external_body]
pub fn regexp_Regexp_MatchString(re: Opq, s: Str) -> (r: bool) ensures r == re_match(re, s@) { unimplemented!() }

}
pub use rt::*;
broadcast use {ax_str_ext, ax_sl_ext, ax_ar_ext, ax_mp_fin, ax_pt_ext};

// ---- lemmas on the above
pub proof fn lemma_dec(s: Seq<u8>)
    ensures 0 <= dec_w(s) <= 4, dec_w(s) <= s.len(), s.len() > 0 ==> dec_w(s) >= 1, 0 <= dec_c(s) <= 0x10FFFF,
        dec_ok(s) ==> rune_ok(dec_c(s)) && rune_len(dec_c(s)) == dec_w(s),
        !dec_ok(s) ==> dec_c(s) == RERR
{}
pub proof fn lemma_enc_len(c: int)
    ensures 1 <= enc(c).len() <= 4, rune_ok(c) ==> enc(c).len() == rune_len(c)
{}
pub proof fn lemma_dec_enc(c: int, t: Seq<u8>)
    requires rune_ok(c)
    ensures dec_c(enc(c) + t) == c, dec_w(enc(c) + t) == enc(c).len(), dec_ok(enc(c) + t)
{
    let s = enc(c) + t;
    assert(s.len() == enc(c).len() + t.len());
    let e = enc(c);
    assert(s[0] == e[0]);
    if e.len() > 1 { assert(s[1] == e[1]); }
    if e.len() > 2 { assert(s[2] == e[2]); }
    if e.len() > 3 { assert(s[3] == e[3]); }
    assert(c < 0x80 ==> s[0] == c as u8);
}
proof fn lemma_div2(a: int, b: int, c: int)
    requires c == a * 64 + b, 0 <= b < 64
    ensures c / 64 == a, c % 64 == b
{}
proof fn lemma_div3(a: int, b: int, d: int, c: int)
    requires c == a * 4096 + b * 64 + d, 0 <= b < 64, 0 <= d < 64
    ensures c / 4096 == a, c / 64 == a * 64 + b, c / 64 % 64 == b, c % 64 == d
{}
proof fn lemma_div4(a: int, b: int, d: int, f: int, c: int)
    requires c == a * 262144 + b * 4096 + d * 64 + f, 0 <= b < 64, 0 <= d < 64, 0 <= f < 64
    ensures c / 262144 == a, c / 4096 % 64 == b, c / 64 % 64 == d, c % 64 == f
{
    lemma_div3(a * 64 + b, d, f, c);
    assert(c / 4096 == a * 64 + b);
}
pub proof fn lemma_enc_dec(s: Seq<u8>)
    requires dec_ok(s)
    ensures enc(dec_c(s)) == s.subrange(0, dec_w(s))
{
    lemma_dec(s);
    let c = dec_c(s);
    let e = enc(c);
    let r = s.subrange(0, dec_w(s));
    if s[0] < 0x80 {
    } else if dec_w2(s) {
        lemma_div2(s[0] - 0xC0, s[1] - 0x80, c);
        assert(0x80 <= c < 0x800);
        assert(e[0] == s[0] && e[1] == s[1]);
    } else if dec_w3(s) {
        lemma_div3(s[0] - 0xE0, s[1] - 0x80, s[2] - 0x80, c);
        assert(0x800 <= c < 0x10000);
        assert(e[0] == s[0] && e[1] == s[1] && e[2] == s[2]);
    } else {
        lemma_div4(s[0] - 0xF0, s[1] - 0x80, s[2] - 0x80, s[3] - 0x80, c);
        assert(0x10000 <= c < 0x110000);
        assert(e[0] == s[0] && e[1] == s[1] && e[2] == s[2] && e[3] == s[3]);
    }
    assert(e =~= r);
}
