// The command line: which setting each option reaches, which reader each file gets, and what is run.
#include "spec.h"
#include <CLI/CLI.hpp>
#include <fstream>
#include "FstFileLoader.h"
#include "OneBestFstLoader.h"
#include "fstalign.h"
#include "json_logging.h"
#include "utilities.h"
#include "version.h"
namespace spec {
int main(int argc, char **argv) {
  std::string ref, hyp, refjson, sidecar, syn, symbols, log, nlp, sbs, jsonlog;
  std::string approach = "adapted";
  int best = 100, streak = 100, context = 5, threshold = 0;
  bool version = false, nocutoffs = false, nohyphens = false, noapprox = false;
  bool casestats = false, punct = false, usecase = false, inserts = false;

  CLI::App app("");
  app.add_flag("--version", version);
  CLI::App *wer = app.add_subcommand("wer");
  CLI::App *align = app.add_subcommand("align");
  for (auto c : {wer, align}) {
    c->add_option("-r,--ref", ref);
    c->add_option("--hyp", hyp);
    c->add_option("--ref-json", refjson);
    c->add_option("-s,--syn", syn);
    c->add_option("--symbols", symbols);
    c->add_option("--composition-approach", approach);
    c->add_option("--numbests", best);
    c->add_option("--levenstein-max-error-streak", streak);
    c->add_option("--pr_threshold", threshold);
    c->add_option("--output-nlp", nlp);
    c->add_option("--output-sbs", sbs);
    c->add_option("--log", log);
    c->add_flag("--disable-cutoffs", nocutoffs);
    c->add_flag("--disable-hyphen-ignore", nohyphens);
    c->add_flag("--disable-approx-alignment", noapprox);
  }
  wer->add_option("--wer-sidecar", sidecar);
  wer->add_option("--speaker-switch-context", context);
  wer->add_option("--json-log", jsonlog);
  wer->add_flag("--record-case-stats", casestats);
  wer->add_flag("--use-punctuation", punct);
  wer->add_flag("--use-case", usecase);
  wer->add_flag("--add-inserts-nlp", inserts);

  try {
    app.parse(argc, argv);
  } catch (const CLI::ParseError &e) {
    return app.exit(e);
  }
  if (version) {
    std::cout << FSTALIGNER_VERSION_MAJOR << "." << FSTALIGNER_VERSION_MINOR << "." << FSTALIGNER_VERSION_PATCH << std::endl;
    return 0;
  }
  if (app.get_subcommands().size() == 0) {
    std::cout << app.help();
    return 1;
  }
  logger::InitLoggers(log);
  bool havesymbols = symbols != "";
  std::unique_ptr<FstLoader> h = FstLoader::MakeHypothesisLoader(hyp, "", punct, usecase, havesymbols);
  std::unique_ptr<FstLoader> r = FstLoader::MakeReferenceLoader(ref, sidecar, refjson, punct, usecase, havesymbols);

  SynonymOptions so;
  so.disable_cutoffs = nocutoffs;
  so.disable_hyphen_ignore = nohyphens;
  SynonymEngine engine(so);
  if (syn != "") engine.LoadFile(syn);

  AlignerOptions o;
  o.symbols_filename = symbols;
  o.composition_approach = approach;
  o.numBests = best;
  o.levenstein_maximum_error_streak = streak;
  o.levenstein_first_pass = !noapprox;
  o.pr_threshold = threshold;
  o.speaker_switch_context_size = context;
  o.record_case_stats = casestats;
  o.heapPruningTarget = 20;

  std::string command = app.get_subcommands()[0]->get_name();
  if (command == "wer") {
    HandleWer(*r, *h, engine, sbs, nlp, o, inserts, usecase);
  } else if (command == "align") {
    if (nlp == "") return 1;
    std::ofstream out(nlp);
    if (!out.is_open()) return 1;
    NlpFstLoader *n = dynamic_cast<NlpFstLoader *>(r.get());
    CtmFstLoader *c = dynamic_cast<CtmFstLoader *>(h.get());
    if (n == nullptr || c == nullptr) return 1;
    HandleAlign(*n, *c, engine, out, o);
    out.close();
  }
  logger::CloseLoggers();
  if (jsonlog != "") {
    std::ofstream out(jsonlog);
    if (!out.is_open()) return 1;
    out << jsonLogger::JsonLogger::getLogger().root << std::endl;
    out.close();
  }
  return 0;
}

struct FstLoader_ {
  static Json::Value json(const std::string &file) {
    Json::Value v;
    Json::CharReaderBuilder b;
    JSONCPP_STRING errors;
    if (file != "") {
      std::ifstream in(file);
      b["collectComments"] = false;
      if (!Json::parseFromStream(b, in, &v, &errors)) throw std::runtime_error("Cannot read json file");
    } else {
      std::stringstream in;
      in << "{}";
      Json::parseFromStream(b, in, &v, &errors);
    }
    return v;
  }

  static std::unique_ptr<FstLoader> MakeReferenceLoader(const std::string &file, const std::string &sidecar, const std::string &norm, bool punct,
                                                        bool usecase, bool symbols) {
    Json::Value n = json(norm);
    Json::Value w = json(sidecar);
    if (EndsWithCaseInsensitive(file, ".nlp")) {
      NlpReader reader;
      auto rows = reader.read_from_disk(file);
      return std::make_unique<NlpFstLoader>(rows, n, w, true, punct, usecase);
    }
    if (EndsWithCaseInsensitive(file, ".ctm")) {
      CtmReader reader;
      auto rows = reader.read_from_disk(file);
      return std::make_unique<CtmFstLoader>(rows, usecase);
    }
    if (EndsWithCaseInsensitive(file, ".fst")) return std::make_unique<FstFileLoader>(file);
    auto text = std::make_unique<OneBestFstLoader>(usecase);
    text->LoadTextFile(file);
    return text;
  }

  static std::unique_ptr<FstLoader> MakeHypothesisLoader(const std::string &file, const std::string &norm, bool punct, bool usecase, bool symbols) {
    Json::Value n = json(norm);
    if (EndsWithCaseInsensitive(file, ".nlp")) {
      Json::Value w = json("");
      NlpReader reader;
      auto rows = reader.read_from_disk(file);
      return std::make_unique<NlpFstLoader>(rows, n, w, false, punct, usecase);
    }
    if (EndsWithCaseInsensitive(file, ".ctm")) {
      CtmReader reader;
      auto rows = reader.read_from_disk(file);
      return std::make_unique<CtmFstLoader>(rows, usecase);
    }
    if (EndsWithCaseInsensitive(file, ".fst")) return std::make_unique<FstFileLoader>(file);
    auto text = std::make_unique<OneBestFstLoader>(usecase);
    text->LoadTextFile(file);
    return text;
  }
};
}  // namespace spec
