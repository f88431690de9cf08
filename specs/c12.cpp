// How special tokens are told from words, and taken apart.
#include "spec.h"
#include "utilities.h"
#include "FstLoader.h"
namespace spec {
static std::string upto(const std::string &s, size_t n) { return s.substr(0, n); }

bool isEntityLabel(const std::string &token) { return upto(token, 3) == "___"; }

bool isSynonymLabel(const std::string &token) {
  if (upto(token, 3) != "___") return false;
  return token.find("_SYN_") != std::string::npos;
}

bool IsNoisecodeToken(const std::string &token) {
  if (token.find("<") != 0) return false;
  return token.find(">") == token.size() - 1;
}

// ___0_CONTRACTION___ -> 0
std::string getLabelIdFromToken(const std::string &token) {
  if (upto(token, 3) != "___") return "";
  std::string inner = token.substr(3, token.size() - 6);
  int bar = inner.find("_");
  if (bar <= 0) return inner;
  return inner.substr(0, bar);
}

// ___23_ORDINAL___ -> ORDINAL
std::string GetLabelNameFromClassLabel(std::string label) {
  std::string inner = label.substr(3, label.size() - 6);
  return inner.substr(inner.find("_") + 1);
}

// 23:ORDINAL -> ___23_ORDINAL___
std::string GetClassLabel(std::string label) {
  if (label.empty()) return "";
  std::string out = "___" + label + "___";
  std::replace(out.begin(), out.end(), ':', '_');
  return out;
}

bool isValidNgram(const std::string &token) {
  for (const std::string &bad : {std::string("<ins>"), std::string("<del>"), std::string("<eps>"), std::string("___")})
    if (token.find(bad) != std::string::npos) return false;
  return true;
}

bool iequals(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (std::toupper(a[i]) != std::toupper(b[i])) return false;
  return true;
}

bool EndsWithCaseInsensitive(const std::string &value, const std::string &ending) {
  if (value.size() < ending.size()) return false;
  for (size_t i = 0; i < ending.size(); i++)
    if (std::tolower(ending[ending.size() - 1 - i]) != std::tolower(value[value.size() - 1 - i])) return false;
  return true;
}

std::string UnicodeLowercase(std::string token) {
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(token);
  std::string out;
  u.toLower().toUTF8String(out);
  return out;
}

std::string string_join(const std::vector<std::string> &parts, const char *const sep) {
  if (parts.empty()) return "";
  if (parts.size() == 1) return parts[0];
  std::ostringstream os;
  for (size_t i = 0; i + 1 < parts.size(); i++) os << parts[i] << sep;
  os << parts[parts.size() - 1];
  return os.str();
}

// without the white space at both ends
std::string trim_copy(std::string s) {
  auto space = [](int c) { return !std::isspace(c); };
  s.erase(s.begin(), std::find_if(s.begin(), s.end(), space));
  s.erase(std::find_if(s.rbegin(), s.rend(), space).base(), s.end());
  return s;
}
}  // namespace spec
