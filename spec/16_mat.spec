// mat: matrix structures and loaders
package mat

property C24 { mat.DenseMatZero; mat.DenseMatFromArray; mat.(*CSRMat).Rows?; mat.CSRMatFromArray; mat.recordsToDenseMat?; mat.recordsToCSRMat?;
  mat.DenseMatFromCsv; mat.DenseMatFromLibsvm; mat.CSRMatFromLibsvm; lemma svm_n_grows; lemma svm_total_grows; lemma svm_slot; lemma svm_row_slot }

contract DenseMatZero(rows, cols)(r) {
  props C24
  requires rows >= 0 && cols >= 0
  ensures shape: r.Rows == rows && r.Cols == cols && len(r.Values) == rows * cols
  ensures zero: forall i int :: 0 <= i && i < len(r.Values) ==> r.Values[i] == 0.0
}

contract DenseMatFromArray(values, rows, cols)(r, err) {
  props C24
  ensures refused: err == nil <==> len(values) == rows * cols
  ensures shape: err == nil ==> r.Rows == rows && r.Cols == cols && len(r.Values) == rows * cols
  ensures content: err == nil ==> (forall i int :: 0 <= i && i < len(r.Values) ==> r.Values[i] == values[i])
}

contract (*CSRMat).Rows(m)(r) {
  props C24
  requires m != nil
  ensures rows: r == (if len(m.RowHeaders) == 0 then 0 else len(m.RowHeaders) - 1)
}

contract CSRMatFromArray(values, rows, cols)(r, err) {
  props C24
  requires rows >= 0 && cols >= 0
  ensures refused: err == nil <==> len(values) == rows * cols
  ensures entries: err == nil ==> len(r.Values) == rows * cols && len(r.ColIndexes) == rows * cols && (forall i int :: 0 <= i && i < len(r.Values) ==> r.Values[i] == values[i])
  ensures row_headers: err == nil ==> len(r.RowHeaders) == rows + 1 && (forall i int :: 0 <= i && i <= rows ==> r.RowHeaders[i] == i * cols)
  ensures columns: err == nil ==> (forall i int, j int :: 0 <= i && i < rows && 0 <= j && j < cols ==> r.ColIndexes[i * cols + j] == j)
  loop 1 {
    use row_slot($i, rows, cols)
    inv apart: arr(mat.ColIndexes) != arr(mat.RowHeaders)
    inv sizes: len(mat.ColIndexes) == $i * cols && len(mat.RowHeaders) == $i
    inv row_headers: forall i int :: 0 <= i && i < $i ==> mat.RowHeaders[i] == i * cols
    inv columns: forall i int, j int :: 0 <= i && i < $i && 0 <= j && j < cols ==> mat.ColIndexes[i * cols + j] == j
  }
  loop 2 {
    inv apart: arr(mat.ColIndexes) != arr(mat.RowHeaders)
    inv sizes: len(mat.ColIndexes) == $1 * cols + $i && len(mat.RowHeaders) == $1 + 1
    inv row_headers: forall i int :: 0 <= i && i <= $1 ==> mat.RowHeaders[i] == i * cols
    use row_slot($1, rows, cols)
    inv columns: forall i int, j int :: 0 <= i && i < $1 && 0 <= j && j < cols ==> mat.ColIndexes[i * cols + j] == j
    inv row: forall j int :: 0 <= j && j < $i ==> mat.ColIndexes[$1 * cols + j] == j
  }
}

// ---- records -> matrix rows: the two tables grow, everything stored before stays ------------
contract recordsToDenseMat(mat, records)(err) {
  props C24
  requires mat != nil && mat.Rows >= 0 && len(mat.Values) == mat.Rows * mat.Cols
  given off(mat.Values) == 0
  modifies mat.Values[len(mat.Values) .. cap(mat.Values)], mat.Values, mat.Rows, mat.Cols
  ensures refused: err == nil <==> (forall i int :: 0 <= i && i < len(records) ==> records[i].column == i) && (old(mat.Rows) == 0 || len(records) == old(mat.Cols))
  ensures storage: off(mat.Values) == 0 && (arr(mat.Values) == old(arr(mat.Values)) && cap(mat.Values) == old(cap(mat.Values)) || fresh(mat.Values))
  ensures shape: err == nil ==> mat.Rows == old(mat.Rows) + 1 && mat.Cols == len(records) && len(mat.Values) == old(len(mat.Values)) + len(records)
  ensures kept: err == nil ==> (forall i int :: 0 <= i && i < old(len(mat.Values)) ==> mat.Values[i] == old(mat.Values)[i])
  ensures added: err == nil ==> (forall i int :: 0 <= i && i < len(records) ==> mat.Values[old(len(mat.Values)) + i] == records[i].value)
  loop 1 {
    inv storage: off(mat.Values) == 0 && (arr(mat.Values) == old(arr(mat.Values)) || fresh(mat.Values)) && (arr(mat.Values) == old(arr(mat.Values)) ==> cap(mat.Values) == old(cap(mat.Values)))
    inv order: forall i int :: 0 <= i && i < $i ==> records[i].column == i
    inv size: len(mat.Values) == old(len(mat.Values)) + $i
    inv kept: forall i int :: 0 <= i && i < old(len(mat.Values)) ==> mat.Values[i] == old(mat.Values)[i]
    inv added: forall i int :: 0 <= i && i < $i ==> mat.Values[old(len(mat.Values)) + i] == records[i].value
  }
}

contract recordsToCSRMat(mat, records)(err) {
  props C24
  requires mat != nil && len(mat.ColIndexes) == len(mat.Values)
  given off(mat.Values) == 0 && off(mat.ColIndexes) == 0 && off(mat.RowHeaders) == 0
  requires arr(mat.ColIndexes) != arr(mat.RowHeaders)
  modifies mat.Values[len(mat.Values) .. cap(mat.Values)], mat.Values, mat.ColIndexes[len(mat.ColIndexes) .. cap(mat.ColIndexes)], mat.ColIndexes,
    mat.RowHeaders[len(mat.RowHeaders) .. cap(mat.RowHeaders)], mat.RowHeaders
  ensures accepted: err == nil
  ensures storage: off(mat.Values) == 0 && off(mat.ColIndexes) == 0 && off(mat.RowHeaders) == 0 && (arr(mat.Values) == old(arr(mat.Values)) && cap(mat.Values) == old(cap(mat.Values)) || fresh(mat.Values)) &&
    (arr(mat.ColIndexes) == old(arr(mat.ColIndexes)) && cap(mat.ColIndexes) == old(cap(mat.ColIndexes)) || fresh(mat.ColIndexes)) && (arr(mat.RowHeaders) == old(arr(mat.RowHeaders)) && cap(mat.RowHeaders) == old(cap(mat.RowHeaders)) || fresh(mat.RowHeaders)) && arr(mat.ColIndexes) != arr(mat.RowHeaders)
  ensures header: len(mat.RowHeaders) == old(len(mat.RowHeaders)) + 1 && mat.RowHeaders[old(len(mat.RowHeaders))] == len(mat.Values)
  ensures size: len(mat.Values) == old(len(mat.Values)) + len(records) && len(mat.ColIndexes) == len(mat.Values)
  ensures kept: forall i int :: 0 <= i && i < old(len(mat.Values)) ==> mat.Values[i] == old(mat.Values)[i] && mat.ColIndexes[i] == old(mat.ColIndexes)[i]
  ensures headers_kept: forall i int :: 0 <= i && i < old(len(mat.RowHeaders)) ==> mat.RowHeaders[i] == old(mat.RowHeaders)[i]
  ensures added: forall i int :: 0 <= i && i < len(records) ==> mat.Values[old(len(mat.Values)) + i] == records[i].value && mat.ColIndexes[old(len(mat.Values)) + i] == records[i].column
  loop 1 {
    inv storage: off(mat.Values) == 0 && (arr(mat.Values) == old(arr(mat.Values)) || fresh(mat.Values)) && (arr(mat.Values) == old(arr(mat.Values)) ==> cap(mat.Values) == old(cap(mat.Values)))
    inv storage2: off(mat.ColIndexes) == 0 && (arr(mat.ColIndexes) == old(arr(mat.ColIndexes)) || fresh(mat.ColIndexes)) && (arr(mat.ColIndexes) == old(arr(mat.ColIndexes)) ==> cap(mat.ColIndexes) == old(cap(mat.ColIndexes)))
    inv apart: arr(mat.ColIndexes) != arr(mat.RowHeaders)
    inv header: sameslice(mat.RowHeaders, old(mat.RowHeaders))
    inv headers: (forall i int :: 0 <= i && i < len(mat.RowHeaders) ==> mat.RowHeaders[i] == old(mat.RowHeaders)[i])
    inv size: len(mat.Values) == old(len(mat.Values)) + $i && len(mat.ColIndexes) == len(mat.Values)
    inv kept: forall i int :: 0 <= i && i < old(len(mat.Values)) ==> mat.Values[i] == old(mat.Values)[i] && mat.ColIndexes[i] == old(mat.ColIndexes)[i]
    inv added: forall i int :: 0 <= i && i < $i ==> mat.Values[old(len(mat.Values)) + i] == records[i].value && mat.ColIndexes[old(len(mat.Values)) + i] == records[i].column
  }
}

// ---- csv: row r is line r of the stream without its outer white space ---------------------
fn csv_row(s int, p int, r int, d string) string = trim_spaces_except(line(s, nth(s, p, r)), d)
fn csv_tok(s int, p int, r int, d string, k int) string = split_at(csv_row(s, p, r, d), d, k)
fn csv_read(s int, p int, r int) bool = line_err(s, nth(s, p, r)) == nil || line_err(s, nth(s, p, r)) == eof()
// number of rows: up to the limit or the first blank line, i of them known
rec csv_rows(s int, p int, d string, limit int, i int) int unfold 2 =
  if (limit > 0 && i >= limit) || csv_row(s, p, i, d) == "" then i else csv_rows(s, p, d, limit, i + 1)
fn csv_cell(s int, p int, r int, d string, k int, def float64) float64 =
  if len(csv_tok(s, p, r, d, k)) == 0 then def else parse_float(csv_tok(s, p, r, d, k))
// row r cannot be read, has a bad token (first is the first token used), or is not as wide as row 0
fn csv_bad_token(s int, p int, r int, d string, k int) bool = len(csv_tok(s, p, r, d, k)) != 0 && !parse_float_ok(csv_tok(s, p, r, d, k))
fn csv_ok(s int, p int, r int, d string, first int) bool =
  csv_read(s, p, r) && (csv_row(s, p, r, d) != "" ==> split_n(csv_row(s, p, r, d), d) == split_n(csv_row(s, p, 0, d), d) &&
    (forall k int :: first <= k && k < split_n(csv_row(s, p, r, d), d) ==> !csv_bad_token(s, p, r, d, k)))

contract DenseMatFromCsv(reader, limit, skipFirstColumn, delimiter, defValue)(m, err) {
  merge
  props C24
  requires reader != nil
  modifies stream(reader)
  ensures rows_fine: err == nil ==> (forall r int :: 0 <= r && r < csv_rows(sid(reader), old(pos(reader)), delimiter, limit, 0) ==>
     csv_ok(sid(reader), old(pos(reader)), r, delimiter, if skipFirstColumn then 1 else 0))
  ensures refused: err != nil ==> (exists r int :: 0 <= r && (limit > 0 ==> r < limit) && (forall i int :: 0 <= i && i < r ==> csv_row(sid(reader), old(pos(reader)), i, delimiter) != "") &&
     !csv_ok(sid(reader), old(pos(reader)), r, delimiter, if skipFirstColumn then 1 else 0))
  ensures shape: err == nil ==> m != nil && m.Rows == csv_rows(sid(reader), old(pos(reader)), delimiter, limit, 0) &&
     m.Cols == (if m.Rows == 0 then 0 else split_n(csv_row(sid(reader), old(pos(reader)), 0, delimiter), delimiter) - (if skipFirstColumn then 1 else 0)) && len(m.Values) == m.Rows * m.Cols
  ensures cells: err == nil ==> (forall r int, k int :: 0 <= r && r < m.Rows && 0 <= k && k < m.Cols ==>
     m.Values[r * m.Cols + k] == csv_cell(sid(reader), old(pos(reader)), r, delimiter, k + (if skipFirstColumn then 1 else 0), defValue))
  loop 1 {
    ghost s int init sid(reader) next s
    ghost p int init old(pos(reader)) next p
    inv consts: s == sid(reader) && p == old(pos(reader)) && startIndex == (if skipFirstColumn then 1 else 0)
    inv at: rows >= 0 && pos(reader) == nth(s, p, rows) && (limit > 0 ==> rows < limit)
    inv rest: csv_rows(s, p, delimiter, limit, rows) == csv_rows(s, p, delimiter, limit, 0)
    inv nonblank: forall i int :: 0 <= i && i < rows ==> csv_row(s, p, i, delimiter) != ""
    inv fine: forall r int :: 0 <= r && r < rows ==> csv_ok(s, p, r, delimiter, startIndex)
    inv storage: off(mat.Values) == 0 && off(records) == 0 && (fresh(mat.Values) || cap(mat.Values) == 0)
    inv shape: mat.Rows == rows && mat.Cols == (if rows == 0 then 0 else split_n(csv_row(s, p, 0, delimiter), delimiter) - startIndex) && mat.Cols >= 0 && len(mat.Values) == rows * mat.Cols
    inv cells: forall r int, k int :: 0 <= r && r < rows && 0 <= k && k < mat.Cols ==> mat.Values[r * mat.Cols + k] == csv_cell(s, p, r, delimiter, k + startIndex, defValue)
  }
  loop 2 {
    inv count: len(records) == col - startIndex && startIndex <= col && off(records) == 0
    inv records: forall k int :: 0 <= k && k < col - startIndex ==> records[k].column == k && records[k].value == csv_cell(s, p, rows, delimiter, k + startIndex, defValue)
    inv tokens: forall k int :: startIndex <= k && k < col ==> !csv_bad_token(s, p, rows, delimiter, k)
  }
}

// ---- libsvm: row r is line r of the stream without its outer white space -------------------
fn svm_row(s int, p int, r int) string = text(s, nth(s, p, r))
fn svm_tok(s int, p int, r int, k int) string = split_at(svm_row(s, p, r), " ", k)
fn svm_col(t string) int = parse_uint32(split_at(t, ":", 0))
fn svm_val(t string) float64 = parse_float(split_at(t, ":", 1))
fn svm_tok_ok(t string) bool = len(t) == 0 || (split_n(t, ":") == 2 && parse_uint32_ok(split_at(t, ":", 0)) && parse_float_ok(split_at(t, ":", 1)))
// number of rows: up to the limit or the first blank line, i of them known
rec svm_rows(s int, p int, limit int, i int) int unfold 2 =
  if (limit > 0 && i >= limit) || svm_row(s, p, i) == "" then i else svm_rows(s, p, limit, i + 1)
// entries among tokens first..k-1 of a line: the empty ones do not count
rec svm_n(t string, first int, k int) int = if k <= first then 0 else svm_n(t, first, k - 1) + (if len(split_at(t, " ", k - 1)) == 0 then 0 else 1)
fn svm_entries(s int, p int, r int, first int) int = svm_n(svm_row(s, p, r), first, split_n(svm_row(s, p, r), " "))
// entries of the first r rows
rec svm_total(s int, p int, first int, r int) int = if r <= 0 then 0 else svm_total(s, p, first, r - 1) + svm_entries(s, p, r - 1, first)
fn svm_ok(s int, p int, r int, first int) bool =
  csv_read(s, p, r) && (svm_row(s, p, r) != "" ==> split_n(svm_row(s, p, r), " ") >= 2 &&
    (forall k int :: first <= k && k < split_n(svm_row(s, p, r), " ") ==> svm_tok_ok(svm_tok(s, p, r, k))))

lemma svm_n_grows(t string, first int, j int, k int) {
  requires j <= k
  ensures svm_n(t, first, j) <= svm_n(t, first, k)
  decreases k - j
  use j < k ==> svm_n_grows(t, first, j, k - 1)
}
lemma svm_total_grows(s int, p int, first int, j int, r int) {
  requires 0 <= j && j <= r
  ensures svm_total(s, p, first, j) <= svm_total(s, p, first, r)
  decreases r - j
  use j < r ==> svm_total_grows(s, p, first, j, r - 1)
  use first <= split_n(svm_row(s, p, r - 1), " ") ==> svm_n_grows(svm_row(s, p, r - 1), first, first, split_n(svm_row(s, p, r - 1), " "))
}
// an entry of row j lies within the entries of the first r rows
lemma svm_slot(s int, p int, first int, j int, k int, r int) {
  requires 0 <= j && j < r && first <= k && k < split_n(svm_row(s, p, j), " ") && len(svm_tok(s, p, j, k)) != 0
  ensures 0 <= svm_total(s, p, first, j) + svm_n(svm_row(s, p, j), first, k) && svm_total(s, p, first, j) + svm_n(svm_row(s, p, j), first, k) < svm_total(s, p, first, r)
  use svm_n_grows(svm_row(s, p, j), first, k + 1, split_n(svm_row(s, p, j), " "))
  use svm_n_grows(svm_row(s, p, j), first, first, k)
  use svm_total_grows(s, p, first, j + 1, r)
  use svm_total_grows(s, p, first, 0, j)
}

contract CSRMatFromLibsvm(reader, limit, skipFirstColumn)(m, err) {
  props C24
  requires reader != nil
  modifies stream(reader)
  ensures rows_fine: err == nil ==> (forall r int :: 0 <= r && r < svm_rows(sid(reader), old(pos(reader)), limit, 0) ==> svm_ok(sid(reader), old(pos(reader)), r, if skipFirstColumn then 1 else 0))
  ensures refused: err != nil ==> (exists r int :: 0 <= r && (limit > 0 ==> r < limit) && (forall i int :: 0 <= i && i < r ==> svm_row(sid(reader), old(pos(reader)), i) != "") &&
     !svm_ok(sid(reader), old(pos(reader)), r, if skipFirstColumn then 1 else 0))
  ensures row_count: err == nil ==> m != nil && len(m.RowHeaders) == svm_rows(sid(reader), old(pos(reader)), limit, 0) + 1
  ensures row_headers: err == nil ==> (forall r int :: 0 <= r && r < len(m.RowHeaders) ==> m.RowHeaders[r] == svm_total(sid(reader), old(pos(reader)), if skipFirstColumn then 1 else 0, r))
  ensures sizes: err == nil ==> len(m.Values) == m.RowHeaders[len(m.RowHeaders) - 1] && len(m.ColIndexes) == len(m.Values)
  ensures entries: err == nil ==> (forall r int, k int :: {svm_tok(sid(reader), old(pos(reader)), r, k)} 0 <= r && r < len(m.RowHeaders) - 1 && (if skipFirstColumn then 1 else 0) <= k && k < split_n(svm_row(sid(reader), old(pos(reader)), r), " ") &&
     len(svm_tok(sid(reader), old(pos(reader)), r, k)) != 0 ==>
     m.Values[m.RowHeaders[r] + svm_n(svm_row(sid(reader), old(pos(reader)), r), if skipFirstColumn then 1 else 0, k)] == svm_val(svm_tok(sid(reader), old(pos(reader)), r, k)) &&
     m.ColIndexes[m.RowHeaders[r] + svm_n(svm_row(sid(reader), old(pos(reader)), r), if skipFirstColumn then 1 else 0, k)] == svm_col(svm_tok(sid(reader), old(pos(reader)), r, k)))
  loop 1 {
    ghost s int init sid(reader) next s
    ghost p int init old(pos(reader)) next p
    inv consts: s == sid(reader) && p == old(pos(reader)) && startIndex == (if skipFirstColumn then 1 else 0)
    inv at: rows >= 0 && pos(reader) == nth(s, p, rows) && (limit > 0 ==> rows < limit)
    inv rest: svm_rows(s, p, limit, rows) == svm_rows(s, p, limit, 0)
    inv nonblank: forall i int :: 0 <= i && i < rows ==> svm_row(s, p, i) != ""
    inv fine: forall r int :: 0 <= r && r < rows ==> svm_ok(s, p, r, startIndex)
    inv storage: off(mat.Values) == 0 && off(mat.ColIndexes) == 0 && off(mat.RowHeaders) == 0 && off(records) == 0
    inv storage_new: (fresh(mat.Values) || cap(mat.Values) == 0) && (fresh(mat.ColIndexes) || cap(mat.ColIndexes) == 0) && (fresh(mat.RowHeaders) || cap(mat.RowHeaders) == 0)
    inv apart: arr(mat.ColIndexes) != arr(mat.RowHeaders)
    inv sizes: len(mat.RowHeaders) == rows + 1 && len(mat.Values) == svm_total(s, p, startIndex, rows) && len(mat.ColIndexes) == len(mat.Values)
    inv headers: forall r int :: 0 <= r && r <= rows ==> mat.RowHeaders[r] == svm_total(s, p, startIndex, r)
    inv values: forall r int, k int :: {svm_tok(s, p, r, k)} 0 <= r && r < rows && startIndex <= k && k < split_n(svm_row(s, p, r), " ") && len(svm_tok(s, p, r, k)) != 0 ==>
      mat.Values[svm_total(s, p, startIndex, r) + svm_n(svm_row(s, p, r), startIndex, k)] == svm_val(svm_tok(s, p, r, k))
    inv columns: forall r int, k int :: {svm_tok(s, p, r, k)} 0 <= r && r < rows && startIndex <= k && k < split_n(svm_row(s, p, r), " ") && len(svm_tok(s, p, r, k)) != 0 ==>
      mat.ColIndexes[svm_total(s, p, startIndex, r) + svm_n(svm_row(s, p, r), startIndex, k)] == svm_col(svm_tok(s, p, r, k))
    use forall r int, k int :: {svm_tok(s, p, r, k)} svm_slot(s, p, startIndex, r, k, rows)
  }
  loop 2 {
    inv count: len(records) == svm_n(svm_row(s, p, rows), startIndex, col) && off(records) == 0 && startIndex <= col
    inv tokens: forall k int :: startIndex <= k && k < col ==> svm_tok_ok(svm_tok(s, p, rows, k))
    inv records: forall k int :: {svm_tok(s, p, rows, k)} startIndex <= k && k < col && len(svm_tok(s, p, rows, k)) != 0 ==>
      records[svm_n(svm_row(s, p, rows), startIndex, k)].value == svm_val(svm_tok(s, p, rows, k)) && records[svm_n(svm_row(s, p, rows), startIndex, k)].column == svm_col(svm_tok(s, p, rows, k))
    use forall k int :: {svm_tok(s, p, rows, k)} svm_row_slot(svm_row(s, p, rows), startIndex, k, col)
  }
}

// dense: the columns of every row are 0, 1, 2, ... and every row has as many as row 0
fn svm_dense_ok(s int, p int, r int, first int) bool =
  svm_ok(s, p, r, first) && (svm_row(s, p, r) != "" ==> svm_entries(s, p, r, first) == svm_entries(s, p, 0, first) &&
    (forall k int :: {svm_tok(s, p, r, k)} first <= k && k < split_n(svm_row(s, p, r), " ") && len(svm_tok(s, p, r, k)) != 0 ==>
      svm_col(svm_tok(s, p, r, k)) == svm_n(svm_row(s, p, r), first, k)))

contract DenseMatFromLibsvm(reader, limit, skipFirstColumn)(m, err) {
  props C24
  requires reader != nil
  modifies stream(reader)
  ensures rows_fine: err == nil ==> (forall r int :: 0 <= r && r < svm_rows(sid(reader), old(pos(reader)), limit, 0) ==> svm_dense_ok(sid(reader), old(pos(reader)), r, if skipFirstColumn then 1 else 0))
  ensures refused: err != nil ==> (exists r int :: 0 <= r && (limit > 0 ==> r < limit) && (forall i int :: 0 <= i && i < r ==> svm_row(sid(reader), old(pos(reader)), i) != "") &&
     !svm_dense_ok(sid(reader), old(pos(reader)), r, if skipFirstColumn then 1 else 0))
  ensures shape: err == nil ==> m != nil && m.Rows == svm_rows(sid(reader), old(pos(reader)), limit, 0) && len(m.Values) == m.Rows * m.Cols &&
     m.Cols == (if m.Rows == 0 then 0 else svm_entries(sid(reader), old(pos(reader)), 0, if skipFirstColumn then 1 else 0))
  ensures cells: err == nil ==> (forall r int, k int :: {svm_tok(sid(reader), old(pos(reader)), r, k)} 0 <= r && r < m.Rows && (if skipFirstColumn then 1 else 0) <= k && k < split_n(svm_row(sid(reader), old(pos(reader)), r), " ") &&
     len(svm_tok(sid(reader), old(pos(reader)), r, k)) != 0 ==>
     m.Values[r * m.Cols + svm_col(svm_tok(sid(reader), old(pos(reader)), r, k))] == svm_val(svm_tok(sid(reader), old(pos(reader)), r, k)))
  loop 1 {
    ghost s int init sid(reader) next s
    ghost p int init old(pos(reader)) next p
    inv consts: s == sid(reader) && p == old(pos(reader)) && startIndex == (if skipFirstColumn then 1 else 0)
    inv at: rows >= 0 && pos(reader) == nth(s, p, rows) && (limit > 0 ==> rows < limit)
    inv rest: svm_rows(s, p, limit, rows) == svm_rows(s, p, limit, 0)
    inv nonblank: forall i int :: 0 <= i && i < rows ==> svm_row(s, p, i) != ""
    inv fine: forall r int :: 0 <= r && r < rows ==> svm_dense_ok(s, p, r, startIndex)
    inv storage: off(mat.Values) == 0 && off(records) == 0 && (fresh(mat.Values) || cap(mat.Values) == 0)
    inv shape: mat.Rows == rows && mat.Cols == (if rows == 0 then 0 else svm_entries(s, p, 0, startIndex)) && mat.Cols >= 0 && len(mat.Values) == rows * mat.Cols
    inv cells: forall r int, k int :: {svm_tok(s, p, r, k)} 0 <= r && r < rows && startIndex <= k && k < split_n(svm_row(s, p, r), " ") && len(svm_tok(s, p, r, k)) != 0 ==>
      mat.Values[r * mat.Cols + svm_n(svm_row(s, p, r), startIndex, k)] == svm_val(svm_tok(s, p, r, k))
    use forall r int, k int :: {svm_tok(s, p, r, k)} svm_row_slot(svm_row(s, p, r), startIndex, k, split_n(svm_row(s, p, r), " "))
    use forall r int, k int :: {svm_tok(s, p, r, k)} row_slot(r, rows, mat.Cols)
  }
  loop 2 {
    ghost tok imap init cmap(0) next (if len(records) > prev(len(records)) then upd(tok, len(records) - 1, col - 1) else tok)
    inv back: forall i int :: {records[i].column} 0 <= i && i < len(records) ==> startIndex <= tok[i] && tok[i] < col && len(svm_tok(s, p, rows, tok[i])) != 0 &&
      svm_n(svm_row(s, p, rows), startIndex, tok[i]) == i && records[i].column == svm_col(svm_tok(s, p, rows, tok[i]))
    inv count: len(records) == svm_n(svm_row(s, p, rows), startIndex, col) && off(records) == 0 && startIndex <= col
    inv tokens: forall k int :: startIndex <= k && k < col ==> svm_tok_ok(svm_tok(s, p, rows, k))
    inv records: forall k int :: {svm_tok(s, p, rows, k)} startIndex <= k && k < col && len(svm_tok(s, p, rows, k)) != 0 ==>
      records[svm_n(svm_row(s, p, rows), startIndex, k)].value == svm_val(svm_tok(s, p, rows, k)) && records[svm_n(svm_row(s, p, rows), startIndex, k)].column == svm_col(svm_tok(s, p, rows, k))
    use forall k int :: {svm_tok(s, p, rows, k)} svm_row_slot(svm_row(s, p, rows), startIndex, k, col)
  }
}

// an entry before token k lies within the entries of the first j tokens
lemma svm_row_slot(t string, first int, k int, j int) {
  requires first <= k && k < j && len(split_at(t, " ", k)) != 0
  ensures 0 <= svm_n(t, first, k) && svm_n(t, first, k) < svm_n(t, first, j)
  use svm_n_grows(t, first, k + 1, j)
  use svm_n_grows(t, first, first, k)
}
