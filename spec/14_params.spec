// util's text parameter blocks
package util

property C23 { util.ReadParamsUntilBlank; util.(*stringParams).ToInt; util.(*stringParams).ToString?; util.(*stringParams).Compare;
  util.(*stringParams).ToStrSlice?; util.(*stringParams).ToFloat64Slice; util.(*stringParams).ToUint32Slice; util.(*stringParams).ToInt32Slice;
  util.(*stringParams).Contains }

contract (*stringParams).ToInt(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key) && parse_int_ok((*p)[key])
  ensures value: err == nil ==> r == parse_int((*p)[key])
}

contract (*stringParams).ToString(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key)
  ensures value: err == nil ==> r == (*p)[key]
}

contract (*stringParams).Compare(p, key, rhs)(err) {
  props C23
  requires p != nil
  ensures equal: err == nil <==> has(*p, key) && (*p)[key] == rhs
}

contract (*stringParams).Contains(p, key)(r) {
  props C23
  requires p != nil
  ensures present: r <==> has(*p, key)
}

contract (*stringParams).ToStrSlice(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key)
  ensures tokens: err == nil ==> len(r) == split_n((*p)[key], " ") && (forall i int :: 0 <= i && i < len(r) ==> r[i] == split_at((*p)[key], " ", i))
}

contract (*stringParams).ToFloat64Slice(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key) && (forall i int :: {split_at((*p)[key], " ", i)} 0 <= i && i < split_n((*p)[key], " ") ==> parse_float_ok(split_at((*p)[key], " ", i)))
  ensures one_per_token: err == nil ==> len(r) == split_n((*p)[key], " ")
  ensures new_storage: off(r) == 0
  ensures value: err == nil ==> (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == parse_float(split_at((*p)[key], " ", i)))
  loop 1 {
    inv count: len(values) == $i
    inv storage: off(values) == 0
    inv values: forall i int :: {values[i]} 0 <= i && i < len(values) ==> values[i] == parse_float(split_at((*p)[key], " ", i)) && parse_float_ok(split_at((*p)[key], " ", i))
  }
}

contract (*stringParams).ToUint32Slice(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key) && (forall i int :: {split_at((*p)[key], " ", i)} 0 <= i && i < split_n((*p)[key], " ") ==> parse_uint32_ok(split_at((*p)[key], " ", i)))
  ensures one_per_token: err == nil ==> len(r) == split_n((*p)[key], " ")
  ensures new_storage: off(r) == 0
  ensures value: err == nil ==> (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == parse_uint32(split_at((*p)[key], " ", i)))
  loop 1 {
    inv count: len(values) == $i
    inv storage: off(values) == 0
    inv values: forall i int :: {values[i]} 0 <= i && i < len(values) ==> values[i] == parse_uint32(split_at((*p)[key], " ", i)) && parse_uint32_ok(split_at((*p)[key], " ", i))
  }
}

contract (*stringParams).ToInt32Slice(p, key)(r, err) {
  props C23
  requires p != nil
  ensures refused: err == nil <==> has(*p, key) && (forall i int :: {split_at((*p)[key], " ", i)} 0 <= i && i < split_n((*p)[key], " ") ==> parse_int32_ok(split_at((*p)[key], " ", i)))
  ensures one_per_token: err == nil ==> len(r) == split_n((*p)[key], " ")
  ensures new_storage: off(r) == 0
  ensures value: err == nil ==> (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == parse_int32(split_at((*p)[key], " ", i)))
  loop 1 {
    inv count: len(values) == $i
    inv storage: off(values) == 0
    inv values: forall i int :: {values[i]} 0 <= i && i < len(values) ==> values[i] == parse_int32(split_at((*p)[key], " ", i)) && parse_int32_ok(split_at((*p)[key], " ", i))
  }
}

// ---- blocks: the lines of a stream from position p -------------------------------------
fn text(s int, p int) string = trimspace(line(s, p))
// position of the first line that is not blank (or cannot be read)
rec block_start(s int, p int) int = if line_err(s, p) != nil || text(s, p) != "" then p else block_start(s, line_next(s, p))
// position after i lines
rec nth(s int, p int, i int) int unfold 2 = if i <= 0 then p else line_next(s, nth(s, p, i - 1))
// number of lines up to the next blank one, i of them known
rec block_len(s int, p int, i int) int unfold 2 = if i > 0 && text(s, nth(s, p, i)) == "" then i else block_len(s, p, i + 1)
// the last of the first n lines that gives key k, or -1
rec last_line(s int, p int, n int, k string) int =
  if n <= 0 then 0 - 1 else if split_at(text(s, nth(s, p, n - 1)), "=", 0) == k then n - 1 else last_line(s, p, n - 1, k)
fn line_value(s int, p int, i int) string = if split_n(text(s, nth(s, p, i)), "=") == 2 then split_at(text(s, nth(s, p, i)), "=", 1) else ""

fn block_n(s int, p int) int = block_len(s, block_start(s, p), 0)
fn block_has(s int, p int, k string) bool = last_line(s, block_start(s, p), block_n(s, p), k) >= 0
fn block_value(s int, p int, k string) string = line_value(s, block_start(s, p), last_line(s, block_start(s, p), block_n(s, p), k))

lemma last_line_range(s int, p int, n int, k string) {
  ensures 0 - 1 <= last_line(s, p, n, k) && (n >= 0 ==> last_line(s, p, n, k) < n)
  decreases n
  use n > 0 ==> last_line_range(s, p, n - 1, k)
}

// a line that cannot be read or has several "="
fn bad_line(s int, p int) bool = (line_err(s, p) != nil && line_err(s, p) != eof()) || split_n(text(s, p), "=") > 2
// the block's first line cannot be read, or one of its lines (before a blank one) is bad
fn bad_block(s int, p int) bool = line_err(s, block_start(s, p)) != nil ||
  (exists i int :: 0 <= i && (forall j int :: 0 <= j && j < i ==> text(s, nth(s, block_start(s, p), j)) != "") && bad_line(s, nth(s, block_start(s, p), i)))

contract ReadParamsUntilBlank(reader)(r, err) {
  props C23
  requires reader != nil
  modifies stream(reader)
  ensures unreadable: line_err(sid(reader), block_start(sid(reader), old(pos(reader)))) != nil ==> err != nil
  ensures refused: err != nil ==> bad_block(sid(reader), old(pos(reader)))
  ensures keys: err == nil ==> (forall k string :: has(r, k) <==> block_has(sid(reader), old(pos(reader)), k))
  ensures values: err == nil ==> (forall k string :: has(r, k) ==> r[k] == block_value(sid(reader), old(pos(reader)), k))
  ensures one_equals_sign: err == nil ==> (forall i int :: 0 <= i && i < block_n(sid(reader), old(pos(reader))) ==> split_n(text(sid(reader), nth(sid(reader), block_start(sid(reader), old(pos(reader))), i)), "=") <= 2)
  ensures consumed: err == nil ==> pos(reader) == nth(sid(reader), block_start(sid(reader), old(pos(reader))), block_n(sid(reader), old(pos(reader))) + 1)
  ensures fresh: err == nil ==> r != nil
  loop 1 {
    inv start: block_start(sid(reader), pos(reader)) == block_start(sid(reader), old(pos(reader)))
  }
  loop 2 {
    ghost n int init 0 next n + 1
    ghost s int init block_start(sid(reader), old(pos(reader))) next s
    inv start: s == block_start(sid(reader), old(pos(reader))) && line_err(sid(reader), s) == nil
    inv at: pos(reader) == nth(sid(reader), s, n + 1) && n >= 0
    inv here: line == text(sid(reader), nth(sid(reader), s, n)) && line != ""
    inv rest: block_len(sid(reader), s, n) == block_len(sid(reader), s, 0)
    inv keys: forall k string :: has(params, k) <==> last_line(sid(reader), s, n, k) >= 0
    inv values: forall k string :: has(params, k) ==> params[k] == line_value(sid(reader), s, last_line(sid(reader), s, n, k))
    inv nonblank: forall j int :: 0 <= j && j <= n ==> text(sid(reader), nth(sid(reader), s, j)) != ""
    inv form: forall i int :: 0 <= i && i < n ==> split_n(text(sid(reader), nth(sid(reader), s, i)), "=") <= 2
  }
}
