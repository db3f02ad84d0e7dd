// sklearn trees (skensemble_io.go)
package leaves

property C18 { leaves.lgTreeFromSklearnDecisionTreeRegressor; lemma sk_conv; lemma unseen_set; lemma unseen_nonneg; lemma flag_bits_distinct }

// sk_parent(ns, c) = 2 * parent of node c (+ 1 for a right child); -1 for the root
uf sk_nf(ns []pickle.SklearnNode) int // number of features (any bound on the indexes)
uf sk_parent(ns []pickle.SklearnNode, c int) int

fn sk_leaf(n pickle.SklearnNode) bool = n.LeftChild < 0

fn sk_node_ok(ns []pickle.SklearnNode, nf int, i int) bool =
  sk_leaf(ns[i]) ||
  (ns[i].LeftChild < len(ns) && 0 <= ns[i].RightChild && ns[i].RightChild < len(ns) &&
   sk_parent(ns, ns[i].LeftChild) == 2 * i && sk_parent(ns, ns[i].RightChild) == 2 * i + 1 && 0 <= ns[i].Feature && ns[i].Feature < nf)

// node 0 is the root, every other node has one parent
fn sk_wf(ns []pickle.SklearnNode, nf int) bool =
  len(ns) > 0 && len(ns) < 2147483648 && nf <= 4294967295 && sk_parent(ns, 0) == 0 - 1 && (len(ns) > 1 ==> !sk_leaf(ns[0])) &&
  (forall i int :: 0 <= i && i < len(ns) ==> sk_node_ok(ns, nf, i))

rec sk_leaves(ns []pickle.SklearnNode, n int) int = if n <= 0 then 0 else sk_leaves(ns, n - 1) + (if sk_leaf(ns[n - 1]) then 1 else 0)

// the leaf the original nodes define (a missing value counts as 0)
rec sk_target(ns []pickle.SklearnNode, i int, fvals []float64) int unfold 2 =
  if sk_leaf(ns[i]) then i
  else let x = fvals[ns[i].Feature] in
  if (if isnan(x) then 0.0 else x) <= ns[i].Threshold then sk_target(ns, ns[i].LeftChild, fvals) else sk_target(ns, ns[i].RightChild, fvals)

// converted node n states what original node o does; its leaf children hold their values
fn sk_match(n lgNode, lv []float64, ns []pickle.SklearnNode, vals []float64, scale float64, base float64, o pickle.SklearnNode) bool =
  !sk_leaf(o) && n.Feature == o.Feature && n.Threshold == o.Threshold &&
  !f_cat(n.Flags) && !f_mnan(n.Flags) && !f_mzero(n.Flags) &&
  (f_lleaf(n.Flags) <==> sk_leaf(ns[o.LeftChild])) && (f_rleaf(n.Flags) <==> sk_leaf(ns[o.RightChild])) &&
  (f_lleaf(n.Flags) ==> n.Left < len(lv) && lv[n.Left] == vals[o.LeftChild] * scale + base) &&
  (f_rleaf(n.Flags) ==> n.Right < len(lv) && lv[n.Right] == vals[o.RightChild] * scale + base)

fn sk_linked(nodes []lgNode, lv []float64, ns []pickle.SklearnNode, vals []float64, scale float64, base float64, og imap) bool =
  forall j int :: {nodes[j].Flags} 0 <= j && j < len(nodes) ==>
    0 <= og[j] && og[j] < len(ns) && sk_match(nodes[j], lv, ns, vals, scale, base, ns[og[j]]) &&
    (!f_rleaf(nodes[j].Flags) ==> j + 1 < len(nodes) && og[j + 1] == ns[og[j]].RightChild) &&
    (!f_lleaf(nodes[j].Flags) ==> j < nodes[j].Left && nodes[j].Left < len(nodes) && og[nodes[j].Left] == ns[og[j]].LeftChild)

lemma sk_conv(nodes []lgNode, lv []float64, cb []uint32, ct []uint32, ns []pickle.SklearnNode, vals []float64, scale float64, base float64, og imap, nf int, j int, fvals []float64) {
  requires sk_wf(ns, nf) && len(fvals) >= nf
  requires sk_linked(nodes, lv, ns, vals, scale, base, og)
  requires 0 <= j && j < len(nodes)
  ensures lv[leaf_at(nodes, cb, ct, j, fvals)] == vals[sk_target(ns, og[j], fvals)] * scale + base
  decreases len(nodes) - j
  use sk_conv(nodes, lv, cb, ct, ns, vals, scale, base, og, nf, j + 1, fvals)
  use sk_conv(nodes, lv, cb, ct, ns, vals, scale, base, og, nf, nodes[j].Left, fvals)
}

contract lgTreeFromSklearnDecisionTreeRegressor(tree, scale, base)(r, err) {
  merge
  props C18
  given node_table_starts_its_array: off(tree.Tree.Nodes) == 0 && off(tree.Tree.Values) == 0
  given tree: tree.Tree.NNodes == len(tree.Tree.Nodes) && len(tree.Tree.Values) == len(tree.Tree.Nodes) && sk_wf(tree.Tree.Nodes, sk_nf(tree.Tree.Nodes))
  ensures refused: err == nil <==> 2 * sk_leaves(tree.Tree.Nodes, len(tree.Tree.Nodes)) == len(tree.Tree.Nodes) + 1
  ensures well_formed: err == nil ==> wf_table(r.nodes, len(r.leafValues), r.catBoundaries, r.catThresholds, sk_nf(tree.Tree.Nodes))
  ensures same_function: err == nil ==> (forall fvals []float64 :: len(fvals) >= sk_nf(tree.Tree.Nodes) ==>
    r.leafValues[value_leaf(r.nodes, r.catBoundaries, r.catThresholds, fvals)] == tree.Tree.Values[sk_target(tree.Tree.Nodes, 0, fvals)] * scale + base)
  use forall fvals []float64 :: sk_conv(r.nodes, r.leafValues, r.catBoundaries, r.catThresholds, tree.Tree.Nodes, tree.Tree.Values, scale, base, og, sk_nf(tree.Tree.Nodes), 0, fvals)
  loop 1 {
    inv counts: numLeaves == sk_leaves(tree.Tree.Nodes, $i) && numLeaves + numNodes == $i && numLeaves >= 0 && numNodes >= 0
  }
  loop 2 {
    ghost og imap init upd(cmap(0), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(og, len(t.nodes) - 1, origNodeIdxStack[len(origNodeIdxStack) - 1]) else og)
    ghost cv imap init upd(cmap(0), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(cv, origNodeIdxStack[len(origNodeIdxStack) - 1], len(t.nodes) - 1) else cv)
    ghost pos imap init upd(cmap(0 - 1), 0, 0) next (if len(t.nodes) > prev(len(t.nodes)) then upd(pos, len(t.nodes) - 1, len(convNodeIdxStack) - 1) else upd(pos, prev(convNodeIdxStack[len(convNodeIdxStack) - 1]), 0 - 1))
    inv sizes: len(visited) == len(tree.Tree.Nodes) && len(t.nodes) > 0 && len(origNodeIdxStack) == len(convNodeIdxStack) && og[0] == 0
    inv leaf_count: len(t.leafValues) <= 2 * len(t.nodes)
    inv tables: len(t.catBoundaries) == 0 && len(t.catThresholds) == 0
    inv stack: forall s int :: 0 <= s && s < len(convNodeIdxStack) ==> 0 <= convNodeIdxStack[s] && convNodeIdxStack[s] < len(t.nodes) && origNodeIdxStack[s] == og[convNodeIdxStack[s]] && pos[convNodeIdxStack[s]] == s
    inv matched: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) ==> 0 <= og[j] && og[j] < len(tree.Tree.Nodes) && sk_match(t.nodes[j], t.leafValues, tree.Tree.Nodes, tree.Tree.Values, scale, base, tree.Tree.Nodes[og[j]])
    inv known: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) ==> cv[og[j]] == j && (j == 0 || visited[og[j]])
    inv open: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && pos[j] >= 0 ==> pos[j] < len(convNodeIdxStack) && convNodeIdxStack[pos[j]] == j
    inv right: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && !f_rleaf(t.nodes[j].Flags) ==>
      (if visited[tree.Tree.Nodes[og[j]].RightChild] then j + 1 < len(t.nodes) && og[j + 1] == tree.Tree.Nodes[og[j]].RightChild
       else j == len(t.nodes) - 1 && pos[j] >= 0 && pos[j] == len(convNodeIdxStack) - 1)
    inv left: forall j int :: {t.nodes[j].Flags} 0 <= j && j < len(t.nodes) && !f_lleaf(t.nodes[j].Flags) ==>
      (if visited[tree.Tree.Nodes[og[j]].LeftChild] then j < t.nodes[j].Left && t.nodes[j].Left < len(t.nodes) && og[t.nodes[j].Left] == tree.Tree.Nodes[og[j]].LeftChild
       else pos[j] >= 0)
    inv seen: forall y int :: {visited[y], sk_parent(tree.Tree.Nodes, y)} 0 <= y && y < len(tree.Tree.Nodes) && visited[y] ==> sk_parent(tree.Tree.Nodes, y) >= 0 && (sk_parent(tree.Tree.Nodes, y) / 2 == 0 || visited[sk_parent(tree.Tree.Nodes, y) / 2])
    inv count: len(t.nodes) + unseen(visited, len(visited)) == len(tree.Tree.Nodes) + 1
    step len(t.nodes) > prev(len(t.nodes)) ==> unseen_set(prev(visited), visited, len(visited), origNodeIdxStack[len(origNodeIdxStack) - 1])
    use unseen_nonneg(visited, len(visited))
    use unseen_all(visited, len(visited))
    decreases 2 * unseen(visited, len(visited)) + len(convNodeIdxStack)
  }
}
