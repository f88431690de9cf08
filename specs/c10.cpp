// Reading transcripts: which column of which line ends up in which field of which record.
#include "spec.h"
#include <csv/csv.h>
#include <fstream>
#include "Ctm.h"
#include "Nlp.h"
#include "OneBestFstLoader.h"
std::vector<RawCtmRecord> read_from_disk_no_conf(const std::string &);
std::vector<RawCtmRecord> read_from_disk_with_conf(const std::string &);
namespace spec {
// file, channel, start, duration, word
std::vector<RawCtmRecord> read_from_disk_no_conf(const std::string &filename) {
  std::vector<RawCtmRecord> out;
  io::CSVReader<5, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment> in(filename);
  in.set_header("a", "b", "c", "d", "e");
  std::string file, channel, start, dur, word;
  while (in.read_row(file, channel, start, dur, word)) {
    RawCtmRecord r;
    r.recording = file;
    r.channel = channel;
    r.start_time_secs = std::stof(start);
    r.duration_secs = std::stof(dur);
    r.word = word;
    r.confidence = 1;
    out.push_back(r);
  }
  return out;
}
// file, channel, start, duration, word, confidence
std::vector<RawCtmRecord> read_from_disk_with_conf(const std::string &filename) {
  std::vector<RawCtmRecord> out;
  io::CSVReader<6, io::trim_chars<' ', '\t'>, io::no_quote_escape<' '>, io::throw_on_overflow, io::empty_line_comment> in(filename);
  in.set_header("a", "b", "c", "d", "e", "f");
  std::string file, channel, start, dur, word, conf;
  while (in.read_row(file, channel, start, dur, word, conf)) {
    RawCtmRecord r;
    r.recording = file;
    r.channel = channel;
    r.start_time_secs = std::stof(start);
    r.duration_secs = std::stof(dur);
    r.word = word;
    r.confidence = std::stof(conf);
    out.push_back(r);
  }
  return out;
}

struct CtmReader_ : CtmReader {
  // a sixth column on the first line announces confidences
  std::vector<RawCtmRecord> read_from_disk(const std::string &filename) {
    std::ifstream in(filename);
    if (!in.is_open()) throw std::runtime_error("Cannot open input file");
    std::string line;
    if (!std::getline(in, line)) return std::vector<RawCtmRecord>();
    int columns = 1;
    char before = 'x';
    for (size_t i = 0; i < line.size(); i++) {
      bool gap = line[i] == ' ' || line[i] == '\t';
      if (gap && before != ' ' && before != '\t') columns++;
      before = line[i];
    }
    if (columns >= 6) return ::read_from_disk_with_conf(filename);
    return ::read_from_disk_no_conf(filename);
  }
};

struct NlpReader_ : NlpReader {
  std::vector<RawNlpRecord> read_from_disk(const std::string &filename) {
    std::vector<RawNlpRecord> out;
    io::CSVReader<13, io::trim_chars<' ', '\t'>, io::no_quote_escape<'|'>> in(filename);
    in.read_header(io::ignore_missing_column | io::ignore_extra_column, "token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags",
                   "wer_tags", "ali_comment", "oldTs", "oldEndTs", "confidence");
    std::string token, speaker, ts, endTs, punct, prepunct, casing, tags, wtags, comment, ots, oend, conf;
    while (in.read_row(token, speaker, ts, endTs, punct, prepunct, casing, tags, wtags, comment, ots, oend, conf)) {
      RawNlpRecord r;
      r.token = token;
      r.speakerId = speaker;
      r.punctuation = punct;
      r.ts = ts;
      r.endTs = endTs;
      r.casing = casing;
      r.labels = tags;
      r.best_label = NlpReader::GetBestLabel(tags);
      r.best_label_id = NlpReader::GetLabelId(r.best_label);
      if (in.has_column("wer_tags")) r.wer_tags = NlpReader::GetWerTags(wtags);
      if (in.has_column("prepunctuation")) r.prepunctuation = prepunct;
      if (in.has_column("confidence")) r.confidence = conf;
      out.push_back(r);
    }
    return out;
  }

  // 0:CARDINAL -> 0
  std::string GetLabelId(std::string &label) {
    if (label.empty()) return "";
    if (label.size() >= 3) {
      size_t colon = label.find(":");
      if (colon != 0) return label.substr(0, colon);
    }
    throw "label not formatted as expected";
  }

  // ['0:CARDINAL','1:MONEY'] -> 0:CARDINAL
  std::string GetBestLabel(std::string &labels) {
    if (labels == "[]") return "";
    if (labels.size() <= 2) return labels;
    std::string inner = labels.substr(1, labels.size() - 2);
    size_t comma = inner.find(",");
    if (comma != std::string::npos) inner = inner.substr(0, comma);
    return inner.substr(1, inner.size() - 2);
  }

  // ['89', '90'] -> 89, 90
  std::vector<WerTagEntry> GetWerTags(std::string &text) {
    std::vector<WerTagEntry> out;
    if (text == "[]") return out;
    int from = 2;
    while (true) {
      size_t to = text.find("'", from);
      if (to == std::string::npos) return out;
      WerTagEntry t;
      t.tag_id = text.substr(from, to - from);
      out.push_back(t);
      int next = text.find("'", to + 1) + 1;
      if (next == 0) return out;
      from = next;
    }
  }
};

struct OneBestFstLoader_ : OneBestFstLoader {
  void LoadTextFile(const std::string filename) {
    std::ifstream in(filename);
    if (!in.is_open()) throw std::runtime_error("Cannot open input file");
    std::copy(std::istream_iterator<std::string>(in), std::istream_iterator<std::string>(), std::back_inserter(mToken));
  }
  void BuildFromString(const std::string text) {
    std::istringstream in(text);
    std::copy(std::istream_iterator<std::string>(in), std::istream_iterator<std::string>(), std::back_inserter(mToken));
  }
};
}  // namespace spec
