// Per-sentence, per-speaker, speaker-switch and per-tag breakdowns.
#include "spec.h"
#include "wer.h"
namespace spec {
static bool begins(const std::string &s, const char *what) { return s.rfind(what, 0) == 0; }

static void add(WerResult &r, const Stitching &s) {
  if (begins(s.comment, "ins")) r.insertions++;
  if (begins(s.comment, "del")) r.deletions++;
  if (begins(s.comment, "sub")) r.substitutions++;
}

void RecordSentenceWer(const std::vector<Stitching> &stitches) {
  std::vector<WerResult> sentences;
  WerResult cur = {0, 0, 0, 0, 0};
  for (auto &s : stitches) {
    add(cur, s);
    if (!begins(s.comment, "ins")) cur.numWordsInReference++;
    const std::string &p = s.nlpRow.punctuation;
    if (p == "." || p == "?" || p == "!") {
      sentences.push_back(cur);
      cur = {0, 0, 0, 0, 0};
    }
  }
  if (cur.numWordsInReference > 0) sentences.push_back(cur);
  for (int i = 0; i < sentences.size(); i++)
    RecordWerResult(jsonLogger::JsonLogger::getLogger().root["wer"]["sentenceWer"][i], sentences[i]);
}

void RecordSpeakerWer(const std::vector<Stitching> &stitches) {
  std::unordered_map<std::string, WerResult> speakers;
  std::string last = "";
  WerResult seg = {0, 0, 0, 0, 0};
  for (auto &s : stitches) {
    const std::string &sp = s.nlpRow.speakerId;
    if (sp != "" && sp != last) {
      if (last != "") {
        if (speakers.count(last) == 0) speakers[last] = {0, 0, 0, 0, 0};
        speakers[last].insertions += seg.insertions;
        speakers[last].deletions += seg.deletions;
        speakers[last].substitutions += seg.substitutions;
        speakers[last].numWordsInReference += seg.numWordsInReference;
        seg = {0, 0, 0, 0, 0};
      }
      last = sp;
    }
    add(seg, s);
    if (sp != "") seg.numWordsInReference++;
  }
  if (speakers.count(last) == 0) speakers[last] = {0, 0, 0, 0, 0};
  speakers[last].insertions += seg.insertions;
  speakers[last].deletions += seg.deletions;
  speakers[last].substitutions += seg.substitutions;
  speakers[last].numWordsInReference += seg.numWordsInReference;
  for (auto &a : speakers) {
    Json::Value &j = jsonLogger::JsonLogger::getLogger().root["wer"]["speakerWER"][a.first];
    RecordWerResult(j, a.second);
    j["meta"] = Json::objectValue;
  }
}

std::vector<int> GetSpeakerSwitchIndices(const std::vector<Stitching> &stitches) {
  std::vector<int> at;
  std::string last = "";
  int row = 0;
  for (auto &s : stitches) {
    const std::string &sp = s.nlpRow.speakerId;
    if (sp != "" && sp != last) {
      if (last != "") at.push_back(row);
      last = sp;
    }
    if (!begins(s.comment, "ins")) row++;
  }
  return at;
}

void RecordSpeakerSwitchWer(const std::vector<Stitching> &stitches, int context) {
  std::vector<int> at = spec::GetSpeakerSwitchIndices(stitches);
  int row = 0, k = 0;
  WerResult w = {0, 0, 0, 0, 0};
  for (auto &s : stitches) {
    if (k >= at.size()) break;
    bool del = begins(s.comment, "del"), ins = begins(s.comment, "ins"), sub = begins(s.comment, "sub");
    if (row >= at[k] - context && row < at[k] + context) {
      if (!ins) w.numWordsInReference++;
      if (del) w.deletions++;
      else if (sub) w.substitutions++;
      else if (ins && row != at[k] - context) w.insertions++;
    }
    if (!ins) row++;
    if (row >= at[k] + context) k++;
  }
  RecordWerResult(jsonLogger::JsonLogger::getLogger().root["wer"]["speakerSwitchWER"], w);
  jsonLogger::JsonLogger::getLogger().root["wer"]["speakerSwitchWER"]["meta"]["windowSize"] = context;
}

void RecordTagWer(const std::vector<Stitching> &stitches) {
  std::map<std::string, WerResult> tags;
  for (auto &s : stitches) {
    for (auto &t : s.nlpRow.wer_tags) {
      if (tags.count(t.tag_id) == 0) tags[t.tag_id] = {0, 0, 0, 0, 0};
      add(tags[t.tag_id], s);
      if (!begins(s.comment, "ins")) tags[t.tag_id].numWordsInReference++;
    }
  }
  for (auto &a : tags) {
    Json::Value &j = jsonLogger::JsonLogger::getLogger().root["wer"]["wer_tag"][a.first];
    RecordWerResult(j, a.second);
    j["meta"] = Json::objectValue;
  }
}
}  // namespace spec
