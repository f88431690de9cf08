// Casing statistics.
#include "spec.h"
#include "wer.h"
namespace spec {
static int uppers(const std::string &s) {
  int n = 0;
  for (int i = 0; i < s.size(); i++)
    if (isupper(s[i])) n++;
  return n;
}
static bool anyupper(const std::string &s) {
  for (auto c : s)
    if (isupper(c)) return true;
  return false;
}
void RecordCaseWer(const std::vector<Stitching> &stitches) {
  int tp = 0, fp = 0, fn = 0, stp = 0, sfp = 0, sfn = 0;
  for (auto &s : stitches) {
    if (s.hyptk == DEL || s.reftk == INS) continue;
    bool same = s.reftk == s.hyptk;
    if (s.nlpRow.casing == "LC") {
      if (anyupper(s.hyp_orig)) {
        if (same) fp++;
        else sfp++;
      }
      continue;
    }
    int r = uppers(s.nlpRow.token), h = uppers(s.hyp_orig);
    if (r == h) {
      if (same) tp++;
      else stp++;
    } else if (r > h) {
      if (same) fn++;
      else sfn++;
    } else {
      if (same) fp++;
      else sfp++;
    }
  }
  Json::Value &j = jsonLogger::JsonLogger::getLogger().root["wer"]["caseWER"];
  j["matching"]["precision"] = float(tp) / float(tp + fp);
  j["matching"]["recall"] = float(tp) / float(tp + fn);
  j["matching"]["true_positive"] = tp;
  j["matching"]["false_positive"] = fp;
  j["matching"]["false_negative"] = fn;
  j["all"]["precision"] = float(tp + stp) / float(tp + stp + fp + sfp);
  j["all"]["recall"] = float(tp + stp) / float(tp + stp + fn + sfn);
  j["all"]["true_positive"] = tp + stp;
  j["all"]["false_positive"] = fp + sfp;
  j["all"]["false_negative"] = fn + sfn;
}
}  // namespace spec
