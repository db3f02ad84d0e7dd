// Tree nodes, splits, bitsets and tree evaluation (lgtree.go, util bitset membership).
package leaves

property C01 { leaves.(*lgTree).numericalDecision?; lemma flag_bits_distinct; leaves.(*lgTree).decision }
property C02 { leaves.(*lgTree).categoricalDecision?; leaves.(*lgTree).decision; leaves.(*lgTree).findInBitset?;
  util.FindInBitsetUint32?; lemma flag_bits_distinct }
property C03 { leaves.(*lgTree).predict; leaves.(*lgTree).decision; leaves.(*lgTree).numericalDecision?; leaves.(*lgTree).categoricalDecision?; lemma flag_bits_distinct }

// ---- flags -------------------------------------------------------------------
fn has_flag(f uint8, m int) bool = (f & m) != 0
fn f_cat(f uint8) bool = (f & categorical) != 0
fn f_dleft(f uint8) bool = (f & defaultLeft) != 0
fn f_lleaf(f uint8) bool = (f & leftLeaf) != 0
fn f_rleaf(f uint8) bool = (f & rightLeaf) != 0
fn f_mzero(f uint8) bool = (f & missingZero) != 0
fn f_mnan(f uint8) bool = (f & missingNan) != 0
fn f_onehot(f uint8) bool = (f & catOneHot) != 0
fn f_small(f uint8) bool = (f & catSmall) != 0

// every flag is one bit and no two flags share one
lemma flag_bits_distinct() {
  ensures categorical + defaultLeft + leftLeaf + rightLeaf + missingZero + missingNan + catOneHot + catSmall == 255
  ensures (categorical & (categorical - 1)) == 0 && (defaultLeft & (defaultLeft - 1)) == 0 && (leftLeaf & (leftLeaf - 1)) == 0 && (rightLeaf & (rightLeaf - 1)) == 0
  ensures (missingZero & (missingZero - 1)) == 0 && (missingNan & (missingNan - 1)) == 0 && (catOneHot & (catOneHot - 1)) == 0 && (catSmall & (catSmall - 1)) == 0
  ensures categorical > 0 && defaultLeft > 0 && leftLeaf > 0 && rightLeaf > 0 && missingZero > 0 && missingNan > 0 && catOneHot > 0 && catSmall > 0
}

// ---- splits --------------------------------------------------------------------
fn near_zero(x float64) bool = x > -1e-35 && x <= 1e-35

fn num_left(flags uint8, thr float64, x float64) bool =
  let y = (if isnan(x) && !f_mnan(flags) then 0.0 else x) in
  if (f_mzero(flags) && near_zero(y)) || (f_mnan(flags) && isnan(y)) then f_dleft(flags)
  else y <= thr

// category c is in the 32-bit word w
fn in_word(w uint32, c int) bool = 0 <= c && c < 32 && bit(w, c)

// category c is in bitset number k of the tables cb (boundaries) and ct (words)
fn in_bitset(cb []uint32, ct []uint32, k int, c int) bool =
  c / 32 < cb[k + 1] - cb[k] && bit(ct[cb[k] + c / 32], c % 32)

// the category set of a node
fn in_cat_set(cb []uint32, ct []uint32, flags uint8, thr float64, c int) bool =
  if f_onehot(flags) then int32(thr) == c
  else if f_small(flags) then in_word(uint32(thr), c)
  else in_bitset(cb, ct, uint32(thr), c)

// a value is a usable category when it is a number below 2^31 whose truncation is not negative
fn cat_left(cb []uint32, ct []uint32, flags uint8, thr float64, x float64) bool =
  !isnan(x) && x < 2147483648.0 && int32(x) >= 0 && in_cat_set(cb, ct, flags, thr, int32(x))

fn go_left(cb []uint32, ct []uint32, flags uint8, thr float64, x float64) bool =
  if f_cat(flags) then cat_left(cb, ct, flags, thr, x) else num_left(flags, thr, x)

// the bitset a node refers to lies inside the tree's tables
fn wf_bitset(cb []uint32, ct []uint32, k int) bool =
  0 <= k && k + 1 < len(cb) && k + 1 < 4294967296 && cb[k] <= cb[k + 1] && cb[k + 1] <= len(ct)

fn wf_cat(cb []uint32, ct []uint32, flags uint8, thr float64) bool =
  f_cat(flags) && !f_onehot(flags) && !f_small(flags) ==> wf_bitset(cb, ct, uint32(thr))

contract (*lgTree).numericalDecision(t, node, fval)(r) {
  props C01 C03
  mode fp
  requires node != nil
  ensures split[C01,C03]: r <==> num_left(node.Flags, node.Threshold, fval)
}

contract util.FindInBitsetUint32(bits, pos)(r) {
  props C02
  ensures member: r <==> in_word(bits, pos)
}

contract (*lgTree).findInBitset(t, idx, pos)(r) {
  props C02
  requires t != nil
  requires wf_bitset(t.catBoundaries, t.catThresholds, idx)
  ensures member: r <==> in_bitset(t.catBoundaries, t.catThresholds, idx, pos)
}

contract (*lgTree).categoricalDecision(t, node, fval)(r) {
  props C02 C03
  requires t != nil && node != nil
  requires f_cat(node.Flags) && wf_cat(t.catBoundaries, t.catThresholds, node.Flags, node.Threshold)
  ensures split: r <==> cat_left(t.catBoundaries, t.catThresholds, node.Flags, node.Threshold, fval)
}

contract (*lgTree).decision(t, node, fval)(r) {
  props C01 C02 C03
  requires t != nil && node != nil
  requires wf_cat(t.catBoundaries, t.catThresholds, node.Flags, node.Threshold)
  ensures split: r <==> go_left(t.catBoundaries, t.catThresholds, node.Flags, node.Threshold, fval)
}

// ---- whole trees ------------------------------------------------------------------

// children come after their parent, leaf numbers and features are in range
fn wf_node(nodes []lgNode, nleaves int, cb []uint32, ct []uint32, i int, nf int) bool =
  nodes[i].Feature < nf && wf_cat(cb, ct, nodes[i].Flags, nodes[i].Threshold) &&
  (if f_lleaf(nodes[i].Flags) then nodes[i].Left < nleaves else i < nodes[i].Left && nodes[i].Left < len(nodes)) &&
  (if f_rleaf(nodes[i].Flags) then nodes[i].Right < nleaves else i + 1 < len(nodes))

fn wf_table(nodes []lgNode, nleaves int, cb []uint32, ct []uint32, nf int) bool =
  (len(nodes) == 0 ==> nleaves > 0) && len(nodes) < 4294967296 &&
  (forall i int :: 0 <= i && i < len(nodes) ==> wf_node(nodes, nleaves, cb, ct, i, nf))
fn wf_tree(t *lgTree, nf int) bool = wf_table(t.nodes, len(t.leafValues), t.catBoundaries, t.catThresholds, nf)

// the leaf reached from node i by following the splits: the left child is
// nodes[i].Left, the right child follows its parent
rec leaf_from(t *lgTree, i int, fvals []float64) int =
  let n = t.nodes[i] in
  if go_left(t.catBoundaries, t.catThresholds, n.Flags, n.Threshold, fvals[n.Feature])
  then (if f_lleaf(n.Flags) then n.Left else leaf_from(t, n.Left, fvals))
  else (if f_rleaf(n.Flags) then n.Right else leaf_from(t, i + 1, fvals))

fn tree_leaf(t *lgTree, fvals []float64) int = if len(t.nodes) == 0 then 0 else leaf_from(t, 0, fvals)
fn tree_value(t *lgTree, fvals []float64) float64 = t.leafValues[tree_leaf(t, fvals)]

contract (*lgTree).predict(t, fvals)(value, leaf) {
  props C03
  requires t != nil
  requires wf_tree(t, len(fvals))
  ensures leaf_index: leaf == tree_leaf(t, fvals)
  ensures leaf_value: value == tree_value(t, fvals)
  ensures in_range: 0 <= leaf && leaf < len(t.leafValues)
  loop 1 {
    inv in_tree: 0 <= idx && idx < len(t.nodes)
    inv same_leaf: leaf_from(t, idx, fvals) == leaf_from(t, 0, fvals)
    decreases len(t.nodes) - idx
  }
}

contract (*lgTree).nLeaves(t)(n) {
  requires t != nil
  ensures count: n == len(t.nodes) + 1
}
