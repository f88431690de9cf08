// Synonym rules: where they come from and what they add to the reference graph.
#include "spec.h"
#define strtk_no_tr1_or_boost
#include <strtk/strtk.hpp>
#include "SynonymEngine.h"
std::vector<int> SeekForward(SynKey &lhs, int lhsPos, fst::StdVectorFst &fst, int startingStateId, fst::SymbolTable &symbol);
namespace spec {
static std::vector<std::string> pieces(const char *delim, const std::string &s) {
  std::vector<std::string> out;
  strtk::split(delim, s, strtk::range_to_type_back_inserter(out), strtk::split_options::compress_delimiters);
  return out;
}

struct SynonymEngine_ : SynonymEngine {
  SynonymEngine_(SynonymOptions o) : SynonymEngine(o) { opts_ = o; synonyms.clear(); }
  SynKey GetKeyFromString(std::string lhs) { return pieces(" ", lhs); }

  SynVals GetValuesFromStrings(std::string rhs) {
    SynVals out;
    for (std::string alt : pieces(";", rhs)) out.push_back(pieces(" ", trim_copy(alt)));
    return out;
  }

  void LoadFile(std::string filename) {
    std::ifstream in(filename);
    if (!in.is_open()) throw std::runtime_error("Cannot open input file");
    std::vector<std::string> lines;
    std::string line;
    while (std::getline(in, line)) lines.push_back(line);
    SynonymEngine::ParseStrings(lines);
  }

  // lhs words | alternative ; alternative     (first definition wins)
  void ParseStrings(std::vector<std::string> lines) {
    for (size_t i = 0; i < lines.size(); i++) {
      std::string line = lines[i];
      trim(line);
      if (line.empty()) continue;
      if (line.find('#') == 0) continue;
      std::vector<std::string> parts = pieces("|", line);
      if (parts.size() != 2) continue;
      std::string lhs = parts[0];
      trim(lhs);
      SynKey key = GetKeyFromString(lhs);
      if (synonyms.count(key) == 0) synonyms[key] = GetValuesFromStrings(parts[1]);
    }
  }

  void GenerateSynFromSymbolTable(fst::SymbolTable &symbol) {
    for (fst::SymbolTableIterator it(symbol); !it.Done(); it.Next()) {
      std::string word = it.Symbol();
      int dash = word.find('-');
      if (dash < 0) continue;
      bool cutoff = dash == word.size() - 1;
      if (cutoff) {
        if (opts_.disable_cutoffs) continue;
        // the- may be said as the
        std::string whole = word.substr(0, word.size() - 1);
        if (symbol.Find(whole) == -1) symbol.AddSymbol(whole);
        SynKey key = GetKeyFromString(word);
        SynVals vals = GetValuesFromStrings(whole);
        if (synonyms.count(key) == 0) synonyms[key] = vals;
      } else {
        if (opts_.disable_hyphen_ignore) continue;
        // best-ever may be said as best ever, and the other way round
        std::vector<std::string> parts = pieces("-", trim_copy(word));
        SynKey joined = GetKeyFromString(word);
        for (size_t i = 0; i < parts.size(); i++)
          if (symbol.Find(parts[i]) == -1) symbol.AddSymbol(parts[i]);
        if (synonyms.count(joined) == 0) synonyms[joined] = SynVals{parts};
        if (synonyms.count(parts) == 0) synonyms[parts] = SynVals{joined};
      }
    }
  }

  void ApplyToFst(fst::StdVectorFst &g, fst::SymbolTable &symbol) {
    std::map<int, std::vector<SynKey>> starting;
    for (auto &rule : synonyms) {
      int id = symbol.Find(rule.first[0]);
      if (id == -1) continue;
      if (starting.count(id) == 0) starting[id] = std::vector<SynKey>();
      starting[id].push_back(rule.first);
    }
    std::vector<std::pair<int, fst::StdArc>> fresh;
    int number = 100000;
    for (fst::StateIterator<fst::StdVectorFst> states(g); !states.Done(); states.Next()) {
      int from = states.Value();
      for (fst::ArcIterator<fst::StdVectorFst> arcs(g, from); !arcs.Done(); arcs.Next()) {
        const fst::StdArc &arc = arcs.Value();
        if (arc.nextstate == from) continue;
        if (starting.count(arc.ilabel) == 0) continue;
        std::vector<SynKey> keys = starting[arc.ilabel];
        for (size_t k = 0; k < keys.size(); k++) {
          std::vector<int> ends = ::SeekForward(keys[k], 0, g, from, symbol);
          if (ends.empty()) continue;
          for (auto &alt : synonyms[keys[k]]) {
            // label, the words of the alternative, label again, to every state the rule can end in
            std::string label = "___" + std::to_string(number) + "_SYN_" + std::to_string(keys[k].size()) + "-" + std::to_string(alt.size()) + "___";
            number++;
            int lid = symbol.AddSymbol(label);
            int at = g.AddState();
            fresh.push_back(std::make_pair(from, fst::StdArc(lid, lid, 0, at)));
            for (size_t j = 0; j < alt.size(); j++) {
              int wid = symbol.Find(alt[j]);
              if (wid == -1) wid = symbol.AddSymbol(alt[j]);
              int to = g.AddState();
              fresh.push_back(std::make_pair(at, fst::StdArc(wid, wid, 0, to)));
              at = to;
            }
            for (size_t e = 0; e < ends.size(); e++) fresh.push_back(std::make_pair(at, fst::StdArc(lid, lid, 0, ends[e])));
          }
        }
      }
    }
    for (size_t i = 0; i < fresh.size(); i++) g.AddArc(fresh[i].first, fresh[i].second);
  }
};

// the same; the keys collected come from the rules, so that looking one up finds it
struct SynonymEngineAt_ : SynonymEngine {
  void ApplyToFst(fst::StdVectorFst &g, fst::SymbolTable &symbol) {
    std::map<int, std::vector<SynKey>> starting;
    for (auto &rule : synonyms) {
      int id = symbol.Find(rule.first[0]);
      if (id == -1) continue;
      if (starting.count(id) == 0) starting[id] = std::vector<SynKey>();
      starting[id].push_back(rule.first);
    }
    std::vector<std::pair<int, fst::StdArc>> fresh;
    int number = 100000;
    for (fst::StateIterator<fst::StdVectorFst> states(g); !states.Done(); states.Next()) {
      int from = states.Value();
      for (fst::ArcIterator<fst::StdVectorFst> arcs(g, from); !arcs.Done(); arcs.Next()) {
        const fst::StdArc &arc = arcs.Value();
        if (arc.nextstate == from) continue;
        if (starting.count(arc.ilabel) == 0) continue;
        std::vector<SynKey> keys = starting[arc.ilabel];
        for (size_t k = 0; k < keys.size(); k++) {
          std::vector<int> ends = ::SeekForward(keys[k], 0, g, from, symbol);
          if (ends.empty()) continue;
          for (auto &alt : synonyms.at(keys[k])) {
            // label, the words of the alternative, label again, to every state the rule can end in
            std::string label = "___" + std::to_string(number) + "_SYN_" + std::to_string(keys[k].size()) + "-" + std::to_string(alt.size()) + "___";
            number++;
            int lid = symbol.AddSymbol(label);
            int at = g.AddState();
            fresh.push_back(std::make_pair(from, fst::StdArc(lid, lid, 0, at)));
            for (size_t j = 0; j < alt.size(); j++) {
              int wid = symbol.Find(alt[j]);
              if (wid == -1) wid = symbol.AddSymbol(alt[j]);
              int to = g.AddState();
              fresh.push_back(std::make_pair(at, fst::StdArc(wid, wid, 0, to)));
              at = to;
            }
            for (size_t e = 0; e < ends.size(); e++) fresh.push_back(std::make_pair(at, fst::StdArc(lid, lid, 0, ends[e])));
          }
        }
      }
    }
    for (size_t i = 0; i < fresh.size(); i++) g.AddArc(fresh[i].first, fresh[i].second);
  }
};

struct SynonymEngineFind_ : SynonymEngine {
  void ApplyToFst(fst::StdVectorFst &g, fst::SymbolTable &symbol) {
    std::map<int, std::vector<SynKey>> starting;
    for (auto &rule : synonyms) {
      int id = symbol.Find(rule.first[0]);
      if (id == -1) continue;
      if (starting.count(id) == 0) starting[id] = std::vector<SynKey>();
      starting[id].push_back(rule.first);
    }
    std::vector<std::pair<int, fst::StdArc>> fresh;
    int number = 100000;
    for (fst::StateIterator<fst::StdVectorFst> states(g); !states.Done(); states.Next()) {
      int from = states.Value();
      for (fst::ArcIterator<fst::StdVectorFst> arcs(g, from); !arcs.Done(); arcs.Next()) {
        const fst::StdArc &arc = arcs.Value();
        if (arc.nextstate == from) continue;
        if (starting.count(arc.ilabel) == 0) continue;
        std::vector<SynKey> keys = starting[arc.ilabel];
        for (size_t k = 0; k < keys.size(); k++) {
          std::vector<int> ends = ::SeekForward(keys[k], 0, g, from, symbol);
          if (ends.empty()) continue;
          if (synonyms.count(keys[k]) == 0) continue;
          for (auto &alt : synonyms.at(keys[k])) {
            // label, the words of the alternative, label again, to every state the rule can end in
            std::string label = "___" + std::to_string(number) + "_SYN_" + std::to_string(keys[k].size()) + "-" + std::to_string(alt.size()) + "___";
            number++;
            int lid = symbol.AddSymbol(label);
            int at = g.AddState();
            fresh.push_back(std::make_pair(from, fst::StdArc(lid, lid, 0, at)));
            for (size_t j = 0; j < alt.size(); j++) {
              int wid = symbol.Find(alt[j]);
              if (wid == -1) wid = symbol.AddSymbol(alt[j]);
              int to = g.AddState();
              fresh.push_back(std::make_pair(at, fst::StdArc(wid, wid, 0, to)));
              at = to;
            }
            for (size_t e = 0; e < ends.size(); e++) fresh.push_back(std::make_pair(at, fst::StdArc(lid, lid, 0, ends[e])));
          }
        }
      }
    }
    for (size_t i = 0; i < fresh.size(); i++) g.AddArc(fresh[i].first, fresh[i].second);
  }
};

// all states that reading lhs from position pos can reach
std::vector<int> SeekForward(SynKey &lhs, int pos, fst::StdVectorFst &g, int from, fst::SymbolTable &symbol) {
  std::vector<int> out;
  if (pos >= lhs.size()) {
    out.push_back(from);
    return out;
  }
  int id = symbol.Find(lhs[pos]);
  if (id == -1) return out;
  for (fst::ArcIterator<fst::StdFst> arcs(g, from); !arcs.Done(); arcs.Next()) {
    const fst::StdArc &arc = arcs.Value();
    if (arc.nextstate == from || arc.ilabel != id) continue;
    for (int s : ::SeekForward(lhs, pos + 1, g, arc.nextstate, symbol)) out.push_back(s);
  }
  return out;
}
}  // namespace spec
