// What each member of the JSON report carries.
#include "spec.h"
#include "wer.h"
namespace spec {
void RecordWerResult(Json::Value &json, WerResult wr) {
  json["wer"] = wr.WER();
  json["numErrors"] = wr.insertions + wr.deletions + wr.substitutions;
  json["numWordsInReference"] = wr.numWordsInReference;
  json["insertions"] = wr.insertions;
  json["deletions"] = wr.deletions;
  json["substitutions"] = wr.substitutions;
}

void RecordWer(wer_alignment &t) {
  Json::Value &wer = jsonLogger::JsonLogger::getLogger().root["wer"];
  Json::Value &best = wer["bestWER"];
  best["wer"] = t.WER();
  best["numErrors"] = t.insertions + t.deletions + t.substitutions;
  best["numWordsInReference"] = t.numWordsInReference;
  best["insertions"] = t.insertions;
  best["deletions"] = t.deletions;
  best["substitutions"] = t.substitutions;
  best["precision"] = t.precision;
  best["recall"] = t.recall;
  best["meta"] = Json::objectValue;
  wer["classWER"] = Json::objectValue;
  std::unordered_map<std::string, WerResult> classes;
  for (size_t i = 0; i < t.label_alignments.size(); i++) {
    wer_alignment &a = t.label_alignments[i];
    std::string name = GetLabelNameFromClassLabel(a.classLabel);
    if (classes.count(name) == 0) classes[name] = {0, 0, 0, 0, 0};
    WerResult &r = classes[name];
    r.insertions += a.insertions;
    r.deletions += a.deletions;
    r.substitutions += a.substitutions;
    r.numWordsInReference += a.numWordsInReference;
  }
  for (auto &c : classes) {
    Json::Value &j = wer["classWER"][c.first];
    spec::RecordWerResult(j, c.second);
    j["meta"] = Json::objectValue;
  }
}

static void gram(Json::Value &j, gram_error_counter u) {
  j["correct"] = u.correct;
  j["insertions"] = u.ins;
  j["deletions"] = u.del;
  j["substitutions_fp"] = u.subst_fp;
  j["substitutions_fn"] = u.subst_fn;
  j["precision"] = u.precision;
  j["recall"] = u.recall;
}
void JsonLogUnigramBigramStats(wer_alignment &t) {
  for (auto &a : t.unigram_stats) gram(jsonLogger::JsonLogger::getLogger().root["wer"]["unigrams"][a.first], a.second);
  for (auto &a : t.bigrams_stats) gram(jsonLogger::JsonLogger::getLogger().root["wer"]["bigrams"][a.first], a.second);
}
}  // namespace spec
