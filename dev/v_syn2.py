F='SynonymEngine.cpp'
L='        for (auto &alternative : synonyms[lhs]) {'
V=[
 ('sy2-find','same','C13',F,[(L,'        auto rule = synonyms.find(lhs);\n        for (auto &alternative : rule->second) {')]),
 ('sy2-find-guard','same','C13',F,[(L,'        auto rule = synonyms.find(lhs);\n        if (rule == synonyms.end()) continue;\n        for (auto &alternative : rule->second) {')]),
 ('sy2-copy','same','C13',F,[(L,'        SynVals alternatives = synonyms[lhs];\n        for (auto &alternative : alternatives) {')]),
 ('sy2-constlhs','same','C13',F,[('vector<int> SeekForward(SynKey &lhs,','vector<int> SeekForward(const SynKey &lhs,')]),
 ('sy2-constall','same','C13',F,[('vector<int> SeekForward(SynKey &lhs, int lhsPos, StdVectorFst &fst, int startingStateId, SymbolTable &symbol) {','vector<int> SeekForward(const SynKey &lhs, int lhsPos, const StdVectorFst &fst, int startingStateId, const SymbolTable &symbol) {')]),
 ('sy2-ref-cands','same','C13',F,[('      vector<SynKey> candidates = (*firstWordEntry).second;','      const vector<SynKey> &candidates = firstWordEntry->second;'),('for (auto &lhs : candidates) {\n        auto lastTargetStates = SeekForward(lhs,','for (const auto &lhs : candidates) {\n        auto lastTargetStates = SeekForward(const_cast<SynKey &>(lhs),')]),
 ('sy2-at-bug','bug','C13',F,[(L,'        if (lhs.size() > 3) continue;\n        for (auto &alternative : synonyms.at(lhs)) {')]),
 ('sy2-empl','same','C13',F,[('      if (firstWordInRules.find(id) == firstWordInRules.end()) {\n        firstWordInRules[id] = vector<SynKey>();\n      }\n\n','')]),
]
V+=[
 ('sy2-anon','same','C13 C16 C25 C17',F,[('vector<int> SeekForward(SynKey &lhs,','namespace {\nvector<int> SeekForward(SynKey &lhs,'),('void SynonymEngine::GenerateSyn','}\nvoid SynonymEngine::GenerateSyn')]),
 ('sy2-static','same','C13',F,[('vector<int> SeekForward(SynKey &lhs,','static vector<int> SeekForward(const SynKey &lhs,')]),
]
