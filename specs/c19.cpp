// Attaching the reference rows (and their metadata) to the aligned rows.
#include "spec.h"
#include "fstalign.h"
#include <cstdio>
namespace spec {
void align_stitches_to_nlp(NlpFstLoader &ref, std::vector<Stitching> &out) {
  std::vector<RawNlpRecord> rows = ref.mNlpRows;
  int n = out.size(), m = rows.size();
  int i = 0, r = 0;
  while (i < n) {
    // an insertion has no reference row
    if (out[i].comment.find("ins") == 0) {
      i++;
      continue;
    }
    if (r >= m) return;
    const std::string cls = out[i].classLabel;
    const std::string rowcls = GetClassLabel(rows[r].best_label);
    bool synonym = cls.find("_SYN_") != std::string::npos;
    if (!synonym && cls == TK_GLOBAL_CLASS && rowcls == "") {
      out[i].nlpRow = rows[r];
      i++;
      r++;
      continue;
    }
    // how many aligned rows and reference rows belong together
    int ni = 1, nr = 1, id;
    if (synonym) {
      sscanf(cls.c_str(), "___%d_SYN_%d-%d___", &id, &nr, &ni);
      while (i + ni < n && out[i + ni].classLabel == cls) ni++;
    } else {
      while (i + ni < n && out[i + ni].classLabel == cls) ni++;
      while (r + nr < m && GetClassLabel(rows[r + nr].best_label) == rowcls) nr++;
    }
    if (nr == ni && ni == 1) {
      out[i].nlpRow = rows[r];
      i++;
      r++;
      continue;
    }
    if (nr == ni) {
      out[i].nlpRow = rows[r];
      out[i].comment += ",direct";
      i++;
      r++;
      for (int k = 1; k < nr; k++) {
        out[i].nlpRow = rows[r];
        out[i].comment += ",direct";
        i++;
        r++;
      }
      continue;
    }
    const RawNlpRecord first = rows[r];
    if (nr == 1) {
      // one reference row: casing goes to the first word, punctuation to the last
      RawNlpRecord mid;
      mid.token = first.token;
      mid.speakerId = first.speakerId;
      mid.ts = first.ts;
      mid.endTs = first.endTs;
      mid.labels = first.labels;
      mid.best_label = first.best_label;
      mid.best_label_id = first.best_label_id;
      mid.wer_tags = first.wer_tags;
      mid.punctuation = "";
      mid.prepunctuation = "";
      mid.casing = "LC";
      out[i].nlpRow = mid;
      out[i].nlpRow.casing = first.casing;
      out[i].comment += ",push_last";
      i++;
      for (int k = 1; k < ni - 1; k++) {
        out[i].nlpRow = mid;
        out[i].comment += ",push_last";
        i++;
      }
      out[i].nlpRow = first;
      out[i].nlpRow.casing = "LC";
      out[i].comment += ",push_last";
      i++;
      r++;
      continue;
    }
    const RawNlpRecord last = rows[r + nr - 1];
    out[i].nlpRow = first;
    out[i].comment += ",split_worst";
    r += nr;
    if (ni == 1) {
      out[i].nlpRow.punctuation = last.punctuation;
      i++;
      continue;
    }
    i++;
    for (int k = 1; k < ni - 1; k++) {
      RawNlpRecord mid;
      mid.speakerId = first.speakerId;
      mid.punctuation = "";
      mid.casing = "LC";
      mid.labels = first.labels;
      mid.wer_tags = first.wer_tags;
      out[i].nlpRow = mid;
      out[i].comment += ",split_worst";
      i++;
    }
    out[i].nlpRow = last;
    out[i].comment += ",split_worst";
    i++;
  }
}
}  // namespace spec
