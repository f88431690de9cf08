// From the words of a plain-text or CTM transcript to the graph and the id list that are aligned.
#include "spec.h"
#include "Ctm.h"
#include "FstFileLoader.h"
#include "OneBestFstLoader.h"
namespace spec {
void AddSymbolIfNeeded(fst::SymbolTable &symbol, std::string word) {
  if (symbol.Find(word) == -1) symbol.AddSymbol(word);
}

// one arc per word, in order; words the fast pass left unmatched cost nothing extra, matched ones cost 1
static int chain(fst::StdVectorFst &g, const std::vector<int> &ids, const std::vector<int> &map) {
  g.AddState();
  g.SetStart(0);
  for (int i = 0; i < (int)ids.size(); i++) {
    g.AddState();
    float w = 0;
    if (i < (int)map.size() && map[i] > 0) w = 1;
    g.AddArc(i, fst::StdArc(ids[i], ids[i], w, i + 1));
  }
  return ids.size();
}

struct CtmFstLoader_ : FstLoader {
  std::vector<RawCtmRecord> mCtmRows;
  bool mUseCase;

  const std::string &getToken(int index) const { return mToken.at(index); }
  CtmFstLoader_(std::vector<RawCtmRecord> &records, bool use_case) {
    mCtmRows = records;
    mUseCase = use_case;
    for (size_t i = 0; i < records.size(); i++) mToken.push_back(use_case ? records[i].word : UnicodeLowercase(records[i].word));
  }

  void addToSymbolTable(fst::SymbolTable &symbol) const {
    for (size_t i = 0; i < mToken.size(); i++) spec::AddSymbolIfNeeded(symbol, mToken[i]);
  }

  fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const {
    fst::StdVectorFst g;
    std::vector<int> ids;
    for (size_t i = 0; i < mToken.size(); i++) ids.push_back(symbol.Find(mUseCase ? mToken[i] : UnicodeLowercase(mToken[i])));
    int last = chain(g, ids, map);
    g.SetFinal(last, 0);
    return g;
  }

  std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const {
    addToSymbolTable(symbol);
    std::vector<int> ids;
    for (size_t i = 0; i < mToken.size(); i++) {
      int id = symbol.Find(mToken[i]);
      ids.push_back(id == -1 ? symbol.Find("<unk>") : id);
    }
    return ids;
  }
};

struct OneBestFstLoader_ : FstLoader {
  bool mUseCase;
  OneBestFstLoader_(bool use_case) { mUseCase = use_case; }
  const std::string &getToken(int index) const { return mToken.at(index); }
  int TokensSize() { return mToken.size(); }

  void addToSymbolTable(fst::SymbolTable &symbol) const {
    for (size_t i = 0; i < mToken.size(); i++) spec::AddSymbolIfNeeded(symbol, mUseCase ? mToken[i] : UnicodeLowercase(mToken[i]));
  }

  fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const {
    fst::StdVectorFst g;
    std::vector<int> ids;
    for (size_t i = 0; i < mToken.size(); i++) ids.push_back(symbol.Find(mUseCase ? mToken[i] : UnicodeLowercase(mToken[i])));
    int last = chain(g, ids, map);
    int end = g.AddState();
    int eps = symbol.Find("<eps>");
    g.AddArc(last, fst::StdArc(eps, eps, 0, end));
    g.SetFinal(end, 0);
    return g;
  }

  std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const {
    addToSymbolTable(symbol);
    std::vector<int> ids;
    for (size_t i = 0; i < mToken.size(); i++) {
      int id = symbol.Find(mUseCase ? mToken[i] : UnicodeLowercase(mToken[i]));
      ids.push_back(id == -1 ? symbol.Find("<unk>") : id);
    }
    return ids;
  }
};

struct FstFileLoader_ : FstLoader {
  std::string filename_;
  FstFileLoader_(std::string filename) { filename_ = filename; }
  void addToSymbolTable(fst::SymbolTable &symbol) const {}
  fst::StdVectorFst convertToFst(const fst::SymbolTable &symbol, std::vector<int> map) const {
    fst::StdVectorFst *graph = fst::StdVectorFst::Read(filename_);
    if (graph == nullptr) throw std::runtime_error("Cannot read input fst");
    return *graph;
  }
  std::vector<int> convertToIntVector(fst::SymbolTable &symbol) const { return std::vector<int>(); }
};
}  // namespace spec
