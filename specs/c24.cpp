// The reserved words, their ids and the default edit costs.
#include "spec.h"
#include "utilities.h"
namespace spec {
struct FstAlignOption_ {
  bool bForceEnterAndExit;
  float corCost, insCost, delCost, subCost;
  std::string symEps, symOov, symIns, symDel, symSub, symInaud, symSil, symUnk;
  int eps_idx, oov_idx, ins_idx, del_idx, sub_idx, inaud_idx, sil_idx, unk_idx;

  FstAlignOption_() {
    bForceEnterAndExit = false;
    corCost = 0;
    insCost = 3;
    delCost = 3;
    subCost = 4;
    symEps = "<eps>";
    symOov = "<oov>";
    symIns = "<ins>";
    symDel = "<del>";
    symSub = "<sub>";
    symInaud = "<inaudible>";
    symSil = "<silence>";
    symUnk = "<unk>";
  }

  static int idof(fst::SymbolTable &symbol, std::string word) {
    int id = symbol.Find(word);
    if (id == -1) id = symbol.AddSymbol(word);
    return id;
  }
  void RegisterSymbols(fst::SymbolTable &symbol) {
    // epsilon first: it must receive id 0 in an empty table
    eps_idx = idof(symbol, symEps);
    oov_idx = idof(symbol, symOov);
    ins_idx = idof(symbol, symIns);
    del_idx = idof(symbol, symDel);
    sub_idx = idof(symbol, symSub);
    inaud_idx = idof(symbol, symInaud);
    sil_idx = idof(symbol, symSil);
    unk_idx = idof(symbol, symUnk);
  }
};
}  // namespace spec
