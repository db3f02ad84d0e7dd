// LightGBM text trees (lgensemble_io.go: lgTreeFromReader)
package leaves

// lgTreeFromReader itself is beyond the provers here (its three inlined node
// constructors give several hundred paths over a dozen aliased slices): it is
// checked by bounded runs of the real code against an interpreter of the block
// (harness, property C15). What it is built from is proved.
property C15 [bounded] { leaves.convertMissingType?;
  util.NumberOfSetBits; util.FirstNonZeroBit; util.ReadParamsUntilBlank; util.(*stringParams).ToInt; util.(*stringParams).ToFloat64Slice; util.(*stringParams).ToUint32Slice; util.(*stringParams).ToInt32Slice }

fn f64_at(s string, i int) float64 = parse_float(split_at(s, " ", i))
fn dt_missing(d int) int = (d / 4) % 4

contract convertMissingType(d)(r, err) {
  props C15
  ensures refused: err == nil <==> dt_missing(d) <= 2
  ensures flag: err == nil ==> r == (if dt_missing(d) == 0 then 0 else if dt_missing(d) == 1 then missingZero else missingNan)
}

fn fld(s int, p int, k string) string = block_value(s, p, k)
fn lgb_n(s int, p int) int = parse_int(fld(s, p, "num_leaves")) - 1
fn i32s_ok(s int, p int, k string) bool = block_has(s, p, k) && (forall i int :: {split_at(fld(s, p, k), " ", i)} 0 <= i && i < split_n(fld(s, p, k), " ") ==> parse_int32_ok(split_at(fld(s, p, k), " ", i)))
fn u32s_ok(s int, p int, k string) bool = block_has(s, p, k) && (forall i int :: {split_at(fld(s, p, k), " ", i)} 0 <= i && i < split_n(fld(s, p, k), " ") ==> parse_uint32_ok(split_at(fld(s, p, k), " ", i)))
fn f64s_ok(s int, p int, k string) bool = block_has(s, p, k) && (forall i int :: {split_at(fld(s, p, k), " ", i)} 0 <= i && i < split_n(fld(s, p, k), " ") ==> parse_float_ok(split_at(fld(s, p, k), " ", i)))
fn int_ok(s int, p int, k string) bool = block_has(s, p, k) && parse_int_ok(fld(s, p, k))
// every field a tree needs is there and well formed
fn lgb_fields_ok(s int, p int) bool =
  int_ok(s, p, "num_cat") && int_ok(s, p, "num_leaves") && lgb_n(s, p) >= 0 && f64s_ok(s, p, "leaf_value") &&
  (lgb_n(s, p) > 0 ==> i32s_ok(s, p, "left_child") && i32s_ok(s, p, "right_child") && u32s_ok(s, p, "decision_type") && u32s_ok(s, p, "split_feature") && f64s_ok(s, p, "threshold") &&
    (parse_int(fld(s, p, "num_cat")) > 0 ==> u32s_ok(s, p, "cat_threshold") && u32s_ok(s, p, "cat_boundaries")))

contract lgTreeFromReader(reader)(r, err) {
  trusted "checked by bounded runs only (C15)"
  requires reader != nil
  modifies stream(reader)
  ensures refused: err == nil ==> lgb_fields_ok(sid(reader), old(pos(reader)))
  ensures leaf_values: err == nil ==> len(r.leafValues) == split_n(fld(sid(reader), old(pos(reader)), "leaf_value"), " ") &&
    (forall i int :: 0 <= i && i < len(r.leafValues) ==> r.leafValues[i] == f64_at(fld(sid(reader), old(pos(reader)), "leaf_value"), i))
}
