// util's bitset helpers
package util

property C02 { util.NumberOfSetBits; util.FirstNonZeroBit; util.ConstructBitset;
  lemma word_bits_one; lemma word_bits_two; lemma set_bits_nonneg; lemma set_bits_one; lemma set_bits_two }

fn b1(w uint32, k int) int = if bit(w, k) then 1 else 0
fn b4(w uint32, k int) int = b1(w, k) + b1(w, k + 1) + b1(w, k + 2) + b1(w, k + 3)
fn b16(w uint32, k int) int = b4(w, k) + b4(w, k + 4) + b4(w, k + 8) + b4(w, k + 12)

// number of ones of a word, of the first n words
fn word_bits(w uint32) int = b16(w, 0) + b16(w, 16)
rec set_bits(v []uint32, n int) int = if n <= 0 then 0 else set_bits(v, n - 1) + word_bits(v[n - 1])

// c is in the set
fn in_set(v []uint32, c int) bool = 0 <= c && c / 32 < len(v) && bit(v[c / 32], c % 32)

lemma word_bits_one(w uint32, k int) {
  mode bv
  requires 0 <= k && k < 32
  ensures 0 <= word_bits(w) && (bit(w, k) ==> 1 <= word_bits(w))
}
lemma word_bits_two(w uint32, k int, l int) {
  mode bv
  requires 0 <= k && k < 32 && 0 <= l && l < 32 && k != l && bit(w, k) && bit(w, l)
  ensures 2 <= word_bits(w)
}
lemma set_bits_nonneg(v []uint32, n int) {
  requires 0 <= n && n <= len(v)
  ensures 0 <= set_bits(v, n)
  decreases n
  use n > 0 ==> set_bits_nonneg(v, n - 1)
}
// a one at bit k of word j counts
lemma set_bits_one(v []uint32, n int, j int, k int) {
  requires 0 <= j && j < n && n <= len(v) && 0 <= k && k < 32 && bit(v[j], k)
  ensures 1 <= set_bits(v, n)
  decreases n
  use set_bits_nonneg(v, n - 1)
  use j < n - 1 ==> set_bits_one(v, n - 1, j, k)
  use word_bits_one(v[n - 1], k)
}
// two different ones count twice
lemma set_bits_two(v []uint32, n int, i int, k int, j int, l int) {
  requires 0 <= i && i < n && 0 <= j && j < n && n <= len(v) && 0 <= k && k < 32 && 0 <= l && l < 32 && bit(v[i], k) && bit(v[j], l)
  requires i != j || k != l
  ensures 2 <= set_bits(v, n)
  decreases n
  use set_bits_nonneg(v, n - 1)
  use i < n - 1 && j < n - 1 ==> set_bits_two(v, n - 1, i, k, j, l)
  use i < n - 1 && j == n - 1 ==> set_bits_one(v, n - 1, i, k)
  use j < n - 1 && i == n - 1 ==> set_bits_one(v, n - 1, j, l)
  use word_bits_one(v[n - 1], k)
  use word_bits_one(v[n - 1], l)
  use i == j && i == n - 1 ==> word_bits_two(v[n - 1], k, l)
}

contract NumberOfSetBits(bitset)(r) {
  mode bv
  props C02
  given fits: len(bitset) < 100000000
  ensures count: r == set_bits(bitset, len(bitset))
  ensures empty: r == 0 ==> (forall i int, k int :: {bit(bitset[i], k)} 0 <= i && i < len(bitset) && 0 <= k && k < 32 ==> !bit(bitset[i], k))
  ensures single: r == 1 ==> (forall i int, k int, j int, l int :: {bit(bitset[i], k), bit(bitset[j], l)} 0 <= i && i < len(bitset) && 0 <= j && j < len(bitset) &&
    0 <= k && k < 32 && 0 <= l && l < 32 && bit(bitset[i], k) && bit(bitset[j], l) ==> i == j && k == l)
  use forall i int, k int :: {bit(bitset[i], k)} set_bits_one(bitset, len(bitset), i, k)
  use forall i int, k int, j int, l int :: {bit(bitset[i], k), bit(bitset[j], l)} set_bits_two(bitset, len(bitset), i, k, j, l)
  loop 1 {
    inv count: count == set_bits(bitset, $i)
    inv bounded: 0 <= set_bits(bitset, $i) && set_bits(bitset, $i) <= 32 * $i && set_bits(bitset, $i) <= 3200000000
  }
}

contract FirstNonZeroBit(bitset)(r, err) {
  mode bv
  props C02
  given fits: len(bitset) < 100000000
  ensures empty: err != nil <==> (forall i int :: 0 <= i && i < len(bitset) ==> bitset[i] == 0)
  ensures first_word: err == nil ==> r / 32 < len(bitset) && (forall i int :: 0 <= i && i < r / 32 ==> bitset[i] == 0)
  ensures first_bit: err == nil ==> bit(bitset[r / 32], r % 32) && (forall k int :: 0 <= k && k < r % 32 ==> !bit(bitset[r / 32], k))
  loop 1 {
    inv pos: pos == 32 * $i
    inv zero: forall i int :: 0 <= i && i < $i ==> bitset[i] == 0
  }
}

contract ConstructBitset(values)(r) {
  props C02
  requires nonneg: forall i int :: 0 <= i && i < len(values) ==> 0 <= values[i]
  ensures none: len(values) == 0 ==> len(r) == 0
  ensures large_enough: forall i int :: 0 <= i && i < len(values) ==> values[i] / 32 < len(r)
  ensures no_larger: len(values) > 0 ==> (exists i int :: 0 <= i && i < len(values) && values[i] / 32 == len(r) - 1)
  ensures members: forall i int :: 0 <= i && i < len(values) ==> in_set(r, values[i])
  ensures nothing_else: forall c int :: in_set(r, c) ==> (exists i int :: 0 <= i && i < len(values) && values[i] == c)
  loop 1 {
    inv upper: forall i int :: 0 <= i && i < $i ==> values[i] <= max
    inv reached: exists i int :: 0 <= i && i < len(values) && values[i] == max
  }
  loop 2 {
    inv members: forall i int :: 0 <= i && i < $i ==> in_set(bitset, values[i])
    inv nothing_else: forall w, k int :: {bit(bitset[w], k)} 0 <= w && w < len(bitset) && 0 <= k && k < 32 && bit(bitset[w], k) ==> (exists i int :: 0 <= i && i < $i && values[i] == 32 * w + k)
  }
}
