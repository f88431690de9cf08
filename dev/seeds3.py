# seeded bugs that need the command line program; CLI and STRTK are small stand-ins for the two missing third-party headers
STRTK = open("/verif/dev/seeds2.py").read().split("STRTK = '''")[1].split("'''")[0]
CLI = r'''// small working stand-in for CLI11 (2.x semantics: variables of options that are not given are left alone)
#pragma once
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace CLI {
struct ParseError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Option {};
class App {
  std::string name_;
  std::map<std::string, std::pair<bool, std::function<void(const std::string &)>>> opts_;
  std::vector<std::unique_ptr<App>> subs_;
  std::vector<App *> got_;
  Option o_;
  template <class F> Option *reg(std::string names, bool flag, F f) {
    std::stringstream ss(names); std::string n;
    while (std::getline(ss, n, ',')) { if (opts_.count(n)) throw std::logic_error("option already added " + n); opts_[n] = {flag, f}; }
    return &o_;
  }
 public:
  explicit App(std::string = "", std::string n = "") : name_(n) {}
  App *add_subcommand(std::string n, std::string = "") { subs_.emplace_back(new App("", n)); return subs_.back().get(); }
  template <class T> Option *add_option(std::string n, T &v, std::string = "", bool = false) {
    return reg(n, false, [&v](const std::string &s) { conv(s, v); });
  }
  template <class T> Option *add_flag(std::string n, T &v, std::string = "") { return reg(n, true, [&v](const std::string &) { v = true; }); }
  Option *set_help_all_flag(std::string, std::string = "") { return &o_; }
  static void conv(const std::string &s, std::string &v) { v = s; }
  static void conv(const std::string &s, int &v) { v = std::stoi(s); }
  void parse(int argc, char **argv) {
    App *cur = this;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      bool sub = false;
      for (auto &s : subs_) if (cur == this && s->name_ == a) { cur = s.get(); got_.push_back(cur); sub = true; break; }
      if (sub) continue;
      auto it = cur->opts_.find(a);
      if (it == cur->opts_.end()) throw ParseError("unknown argument " + a);
      if (it->second.first) it->second.second("");
      else { if (i + 1 >= argc) throw ParseError("missing value of " + a); it->second.second(argv[++i]); }
    }
  }
  int exit(const ParseError &e) { std::cerr << e.what() << "\n"; return 106; }
  std::vector<App *> get_subcommands() const { return got_; }
  std::string get_name() const { return name_; }
  std::string help() const { return "help\n"; }
};
}  // namespace CLI
'''
FILES = {'CLI/CLI.hpp': CLI, 'strtk/strtk.hpp': STRTK}
S = [
 dict(id='s21', prop='C11', needs='a reference in CTM format, --use-case, and a word that differs from the hypothesis only in case',
      breaks='a CTM reference is read without the case setting, so case differences are not counted as errors',
      edits=[('src/main.cpp', '''    auto vect = ctmReader.read_from_disk(ref_filename);
    return std::make_unique<CtmFstLoader>(vect, use_case);''', '''    auto vect = ctmReader.read_from_disk(ref_filename);
    return std::make_unique<CtmFstLoader>(vect);''')],
      files=FILES, demo={'sh': r'''
printf 'r 1 0.0 0.2 Alpha\nr 1 0.2 0.2 beta\nr 1 0.5 0.2 gamma\n' > ref.ctm
printf 'alpha beta gamma\n' > hyp.txt
for a in standard adapted; do
  "$F" wer --ref ref.ctm --hyp hyp.txt --use-case --composition-approach $a --json-log log.json > o.txt 2>&1 || fail "run $(tail -3 o.txt)"
  tr -d ' \t\n' < log.json | grep -q '"numErrors":1,' || fail "case difference not counted ($a): $(tr -d ' \t\n' < log.json | grep -o '"bestWER":{[^}]*}')"
  "$F" wer --ref ref.ctm --hyp hyp.txt --composition-approach $a --json-log log.json > o.txt 2>&1 || fail "run"
  tr -d ' \t\n' < log.json | grep -q '"numErrors":0,' || fail "case difference counted without --use-case"
done
'''}),
 dict(id='s22', prop='C11', needs='cutoff synonyms switched off on the command line together with hyphen synonyms left on, and a cutoff word that the hypothesis leaves out its dash of',
      breaks='--disable-cutoffs no longer reaches the synonym engine once a synonym file is given',
      edits=[('src/main.cpp', '''  SynonymEngine engine(syn_opts);
  if (synonyms_filename.size() > 0) {
    engine.LoadFile(synonyms_filename);''', '''  if (synonyms_filename.size() > 0) {
    syn_opts.disable_cutoffs = false;
  }
  SynonymEngine engine(syn_opts);
  if (synonyms_filename.size() > 0) {
    engine.LoadFile(synonyms_filename);''')],
      files=FILES, demo={'sh': r'''
printf 'i wan- want tea\n' > ref.txt
printf 'i wan want tea\n' > hyp.txt
printf 'going to | gonna\n' > syn.txt
errs() { "$F" wer --ref ref.txt --hyp hyp.txt --json-log log.json "$@" > o.txt 2>&1 || fail "run $(tail -3 o.txt)"; tr -d ' \t\n' < log.json | grep -o '"bestWER":.*' | grep -o '"numErrors":[0-9]*' | head -1; }
A=$(errs --disable-cutoffs); B=$(errs --disable-cutoffs --syn syn.txt)
[ -n "$A" ] || fail "no result"
[ "$A" = "$B" ] || fail "an unrelated synonym file changed the result with --disable-cutoffs: $A / $B"
'''}),
]
