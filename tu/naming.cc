// Uses of the paths of naming/ and of the string helpers.
#include <string>
#include <utility>
#include <vector>

#include "arolla/naming/policy.cc"
#include "arolla/naming/protopath_id.cc"
#include "arolla/naming/table.cc"
#include "arolla/util/operator_name.h"
#include "arolla/util/string.cc"

namespace witness {
namespace nm = ::arolla::naming;
using nm::ColumnPath;
using nm::PathSegment;
using nm::TablePath;
using std::string;
using absl::string_view;

TablePath t_make(std::vector<PathSegment> s) { return TablePath(std::move(s)); }
ColumnPath c_make(std::vector<PathSegment> s) { return ColumnPath(std::move(s)); }
TablePath t_name(string_view n, bool i) { return TablePath(n, i); }
ColumnPath c_name(string_view n, bool i) { return ColumnPath(n, i); }
TablePath t_child(const TablePath& t, string_view n, bool i) { return t.Child(n, i); }
TablePath t_child_moved(TablePath t, string_view n, bool i) { return std::move(t).Child(n, i); }
TablePath t_child_path(const TablePath& t, const TablePath& u) { return t.Child(u); }
ColumnPath t_column(const TablePath& t, string_view n, bool i) { return t.Column(n, i); }
ColumnPath t_column_path(const TablePath& t, const ColumnPath& c) { return t.Column(c); }
ColumnPath t_size(const TablePath& t, string_view n) { return t.Size(n); }
ColumnPath t_size_path(const TablePath& t, const TablePath& c) { return t.Size(c); }
TablePath t_keys(const TablePath& t) { return t.MapKeys(); }
TablePath t_values(const TablePath& t) { return t.MapValues(); }
std::optional<TablePath> t_parent(const TablePath& t) { return t.ParentIndexPath(); }
TablePath c_parent(const ColumnPath& c) { return c.ParentIndexPath(); }
absl::StatusOr<TablePath> t_remove(const TablePath& t, const TablePath& p) { return t.RemovePrefix(p); }
absl::StatusOr<ColumnPath> c_remove(const ColumnPath& t, const TablePath& p) { return t.RemovePrefix(p); }
string t_full(const TablePath& t, bool m) { return t.FullName(m); }
string c_full(const ColumnPath& t, bool m) { return t.FullName(m); }
string t_id(const TablePath& t) { return nm::TablePathToProtopathId(t); }
string c_id(const ColumnPath& t) { return nm::ColumnPathToProtopathId(t); }
absl::StatusOr<TablePath> t_from(string_view s) { return nm::TablePathFromProtopathId(s); }
absl::StatusOr<ColumnPath> c_from(string_view s) { return nm::ColumnPathFromProtopathId(s); }
bool t_equal(const TablePath& a, const TablePath& b) { return a == b; }
bool t_differ(const TablePath& a, const TablePath& b) { return a != b; }
bool c_equal(const ColumnPath& a, const ColumnPath& b) { return a == b; }
bool c_differ(const ColumnPath& a, const ColumnPath& b) { return a != b; }
bool s_equal(const PathSegment& a, const PathSegment& b) { return a == b; }
bool s_differ(const PathSegment& a, const PathSegment& b) { return a != b; }
const std::vector<PathSegment>& t_segments(const TablePath& t) { return t.PathSegments(); }
const std::vector<PathSegment>& c_segments(const ColumnPath& t) { return t.PathSegments(); }
bool t_less(const TablePath& a, const TablePath& b) { return a < b; }
bool c_less(const ColumnPath& a, const ColumnPath& b) { return a < b; }
bool s_less(const PathSegment& a, const PathSegment& b) { return a < b; }
bool s_extension(const PathSegment& s) { return s.IsExtension(); }
string field_access(string_view f) { return nm::FieldAccess(f); }
string map_access(string_view f, string_view k) { return nm::MapAccess(f, k); }
string array_access(string_view f, size_t i) { return nm::ArrayAccess(f, i); }
string extension_access(string_view f) { return nm::ProtoExtensionAccess(f); }
absl::StatusOr<nm::Policy> policy(string_view n) { return nm::GetPolicy(n); }
string policy_name(const nm::Policy& p) { return p.Name(); }
string policy_table(const nm::Policy& p, const TablePath& t) { return p.Format(t); }
string policy_column(const nm::Policy& p, const ColumnPath& t) { return p.Format(t); }
PathSegment s_make(string_view n, bool i) { return PathSegment(n, i); }
const string& s_name(const PathSegment& s) { return s.FieldName(); }
bool s_index(const PathSegment& s) { return s.IsIndex(); }

bool is_identifier(string_view s) { return arolla::IsIdentifier(s); }
bool is_qualified(string_view s) { return arolla::IsQualifiedIdentifier(s); }
bool is_operator(string_view s) { return arolla::IsOperatorName(s); }
bool one_typo(string_view a, string_view b) { return arolla::IsWithinOneTypo(a, b); }
string truncate(string s, size_t n) { return arolla::Truncate(std::move(s), n); }
bool begins(string_view a, string_view b) { return arolla::starts_with(a, b); }
string_view comma(bool& first, string_view d) { return arolla::NonFirstComma(first, d); }
string access(string_view k) { return arolla::ContainerAccessString(k); }

}  // namespace witness
