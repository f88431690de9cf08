// The side-by-side file and the output NLP file.
#include "spec.h"
#include "wer.h"
#include "fstalign.h"
namespace spec {
void AddErrorGroup(ErrorGroups &groups, size_t &line, std::string &ref, std::string &hyp) {
  std::string r = ref.empty() ? "*** " : ref;
  std::string h = hyp.empty() ? " ***" : hyp;
  groups.push_back(std::make_pair(line, fmt::format("{0}<->{1}", r, h)));
  line = 0;
  ref = "";
  hyp = "";
}

static bool isop(const std::string &s) { return s == "<ins>" || s == "<del>" || s == "<sub>"; }

void WriteSbs(wer_alignment &, const std::vector<Stitching> &stitches, std::string name) {
  std::ofstream out;
  out.open(name);
  if (!out.is_open()) throw std::runtime_error("Cannot open output sbs file");
  out << fmt::format("{0:>20}\t{1:20}\t{2}\t{3}\t{4}", "ref_token", "hyp_token", "IsErr", "Class", "Wer_Tag_Entities") << std::endl;
  ErrorGroups groups;
  size_t start = 0, row = 2;
  std::string ref = "", hyp = "";
  for (size_t i = 0; i < stitches.size(); i++) {
    const Stitching &s = stitches[i];
    if (s.reftk == NOOP) continue;
    bool err = s.reftk != s.hyptk;
    if (err) {
      if (start == 0) start = row;
      if (!s.reftk.empty() && !isop(s.reftk)) ref += s.reftk + " ";
      if (!s.hyptk.empty() && !isop(s.hyptk)) hyp += " " + s.hyptk;
    } else if (start > 0) {
      spec::AddErrorGroup(groups, start, ref, hyp);
    }
    std::string tags = "";
    for (auto &t : s.nlpRow.wer_tags) tags = tags + "###" + t.tag_id + "_" + t.entity_type + "###|";
    out << fmt::format("{0:>20}\t{1:20}\t{2}\t{3}\t{4}", s.reftk, s.hyptk, err ? "ERR" : "", s.classLabel != TK_GLOBAL_CLASS ? s.classLabel : "", tags) << std::endl;
    row++;
  }
  if (start > 0) spec::AddErrorGroup(groups, start, ref, hyp);
  out << std::string(60, '-') << std::endl << fmt::format("{0:>20}\t{1:20}", "Line", "Group") << std::endl;
  for (size_t i = 0; i < groups.size(); i++) out << fmt::format("{0:>20}\t{1}", groups[i].first, groups[i].second) << std::endl;
  out.close();
}

// token, speaker, ts, endTs, punctuation, prepunctuation, case, tags, wer_tags, old ts, old endTs, comment, confidence
void write_stitches_to_nlp(std::vector<Stitching> &stitches, std::ofstream &out, Json::Value norm, bool with_inserts) {
  out << "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence" << std::endl;
  for (auto &s : stitches) {
    bool insertion = s.comment.find("ins") == 0;
    if (insertion && !with_inserts) continue;
    std::string token = s.reftk;
    if (iequals(s.reftk, s.nlpRow.token)) {
      token = s.nlpRow.token;
      norm[s.nlpRow.best_label_id]["candidates"].size();
    } else if (IsNoisecodeToken(s.nlpRow.token)) {
      token = s.nlpRow.token;
    } else if (insertion) {
      token = "";
      s.comment = "ins(" + s.hyptk + ")";
    }
    if (token == NOOP) continue;
    std::string start = "", end = "";
    if (s.hyptk != DEL) {
      start = fmt::format("{0:.4f}", s.start_ts);
      end = fmt::format("{0:.4f}", s.end_ts);
    }
    out << token << "|" << s.nlpRow.speakerId << "|" << start << "|" << end << "|" << s.nlpRow.punctuation << "|" << s.nlpRow.prepunctuation << "|"
        << s.nlpRow.casing << "|" << s.nlpRow.labels << "|[";
    for (size_t i = 0; i < s.nlpRow.wer_tags.size(); i++) {
      out << "'" << s.nlpRow.wer_tags[i].tag_id << "'";
      if (i + 1 != s.nlpRow.wer_tags.size()) out << ", ";
    }
    out << "]|" << s.nlpRow.ts << "|" << s.nlpRow.endTs << "|" << s.comment << "|" << s.nlpRow.confidence << std::endl;
  }
}
}  // namespace spec
