// LightGBM text model: the header and what it means (lgensemble_io.go)
package leaves

property C19 { leaves.lgObjectiveParse?; leaves.LGEnsembleFromReader;
  util.ReadParamsUntilBlank; util.(*stringParams).ToInt; util.(*stringParams).ToString; util.(*stringParams).Compare; util.(*stringParams).Contains }

// "name param:number"
fn obj_ok(o string) bool = split_n(o, " ") == 2 && split_n(split_at(o, " ", 1), ":") == 2 && parse_int_ok(split_at(split_at(o, " ", 1), ":", 1))
fn obj_name(o string) string = split_at(o, " ", 0)
fn obj_param(o string) string = split_at(split_at(o, " ", 1), ":", 0)
fn obj_value(o string) int = parse_int(split_at(split_at(o, " ", 1), ":", 1))

contract lgObjectiveParse(objective)(r, err) {
  props C19
  ensures refused: err == nil <==> obj_ok(objective)
  ensures parts: err == nil ==> r.name == obj_name(objective) && r.param == obj_param(objective) && r.value == obj_value(objective)
}

fn lg_version_ok(s int, p int) bool = block_has(s, p, "version") && (fld(s, p, "version") == "v2" || fld(s, p, "version") == "v3")
fn lg_counts_ok(s int, p int) bool =
  int_ok(s, p, "num_class") && int_ok(s, p, "num_tree_per_iteration") && int_ok(s, p, "max_feature_idx") &&
  parse_int(fld(s, p, "num_class")) == parse_int(fld(s, p, "num_tree_per_iteration")) && parse_int(fld(s, p, "num_class")) >= 1 &&
  block_has(s, p, "tree_sizes") && split_n(fld(s, p, "tree_sizes"), " ") % parse_int(fld(s, p, "num_class")) == 0
fn obj_exp(o string) bool = o == "poisson" || o == "gamma" || o == "tweedie"
fn obj_raw(o string) bool = hasprefix(o, "regression")
fn obj_binary(o string) bool = obj_ok(o) && obj_name(o) == "binary" && obj_param(o) == "sigmoid" && obj_value(o) == 1
fn obj_multi(o string, n int) bool = obj_ok(o) && obj_name(o) == "multiclass" && obj_param(o) == "num_class" && obj_value(o) == n
// the objectives whose output transformation is known, for n groups
fn obj_known(o string, n int) bool =
  if obj_exp(o) then n == 1 else obj_raw(o) || (obj_binary(o) && n == 1) || obj_multi(o, n)
fn lg_objective_ok(s int, p int) bool =
  block_has(s, p, "objective") && obj_known(fld(s, p, "objective"), parse_int(fld(s, p, "num_class")))

// the transformation an objective stands for
fn lg_transform(t any, o string, n int) bool =
  if obj_exp(o) then is(t, *transformation.TransformExponential)
  else if obj_raw(o) then is(t, *transformation.TransformRaw) && as(t, *transformation.TransformRaw).NumOutputGroups == n
  else if obj_binary(o) then is(t, *transformation.TransformLogistic)
  else is(t, *transformation.TransformSoftmax) && as(t, *transformation.TransformSoftmax).NClasses == n

contract LGEnsembleFromReader(reader, loadTransformation)(r, err) {
  merge
  hide block_value, block_has, bad_block, obj_ok, obj_name, obj_param, obj_value
  props C19
  requires reader != nil
  modifies stream(reader)
  ensures refused: err == nil ==> lg_version_ok(sid(reader), old(pos(reader))) && lg_counts_ok(sid(reader), old(pos(reader))) &&
    (loadTransformation && !block_has(sid(reader), old(pos(reader)), "average_output") ==> lg_objective_ok(sid(reader), old(pos(reader))))
  ensures model: err == nil ==> r != nil && is(r.ensembleBaseInterface, *lgEnsemble) && as(r.ensembleBaseInterface, *lgEnsemble) != nil && r.transform != nil
  ensures header: err == nil ==> as(r.ensembleBaseInterface, *lgEnsemble).nRawOutputGroups == parse_int(fld(sid(reader), old(pos(reader)), "num_class")) &&
    as(r.ensembleBaseInterface, *lgEnsemble).MaxFeatureIdx == parse_int(fld(sid(reader), old(pos(reader)), "max_feature_idx")) &&
    (as(r.ensembleBaseInterface, *lgEnsemble).averageOutput <==> block_has(sid(reader), old(pos(reader)), "average_output")) &&
    as(r.ensembleBaseInterface, *lgEnsemble).name == (if block_has(sid(reader), old(pos(reader)), "average_output") then "lightgbm.rf" else "lightgbm.gbdt")
  ensures tree_count: err == nil ==> len(as(r.ensembleBaseInterface, *lgEnsemble).Trees) == split_n(fld(sid(reader), old(pos(reader)), "tree_sizes"), " ")
  ensures transformation: err == nil && loadTransformation && !block_has(sid(reader), old(pos(reader)), "average_output") ==>
    lg_transform(r.transform, fld(sid(reader), old(pos(reader)), "objective"), parse_int(fld(sid(reader), old(pos(reader)), "num_class")))
  ensures raw: err == nil && (!loadTransformation || block_has(sid(reader), old(pos(reader)), "average_output")) ==>
    is(r.transform, *transformation.TransformRaw) && as(r.transform, *transformation.TransformRaw).NumOutputGroups == parse_int(fld(sid(reader), old(pos(reader)), "num_class"))
  loop 1 {
    inv count: len(e.Trees) == i
    inv storage: fresh(e.Trees)
    inv header: e.nRawOutputGroups == nClasses && e.MaxFeatureIdx == maxFeatureIdx && (e.averageOutput <==> block_has(sid(reader), old(pos(reader)), "average_output")) &&
      e.name == (if block_has(sid(reader), old(pos(reader)), "average_output") then "lightgbm.rf" else "lightgbm.gbdt")
    decreases nTrees - i
  }
}
