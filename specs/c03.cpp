// The two-step composition: the edit model on either side and the lazy composition of both halves.
#include "spec.h"
#include "StandardComposition.h"
#include "utilities.h"
namespace spec {
struct StandardCompositionFst_ : IComposition {
  std::unique_ptr<fst::StdComposeFst> fstC_;

  StandardCompositionFst_(const fst::StdFst &ref, const fst::StdFst &hyp, fst::SymbolTable &symbols) {
    symbols_ = &symbols;
    insertion_cost = 1;
    deletion_cost = 1;
    substitution_cost = 1.5;
    ins_label_id_ = symbols.Find("<ins>");
    del_label_id_ = symbols.Find("<del>");
    sub_label_id_ = symbols.Find("<sub>");
    // reference side: every word may stay, become <sub> or become <del>; <ins> may appear anywhere
    fst::StdVectorFst left;
    left.SetInputSymbols(&symbols);
    left.SetOutputSymbols(&symbols);
    left.AddState();
    left.SetStart(0);
    left.SetFinal(0, 0);
    left.AddArc(0, fst::StdArc(0, ins_label_id_, insertion_cost / 2, 0));
    // hypothesis side: <sub> and <ins> become any word; <del> disappears
    fst::StdVectorFst right;
    right.SetInputSymbols(&symbols);
    right.SetOutputSymbols(&symbols);
    right.AddState();
    right.SetStart(0);
    right.SetFinal(0, 0);
    right.AddArc(0, fst::StdArc(del_label_id_, 0, deletion_cost / 2, 0));
    for (fst::SymbolTableIterator it(symbols); !it.Done(); it.Next()) {
      int64_t id = it.Value();
      if (id == 0 || id == ins_label_id_ || id == del_label_id_ || id == sub_label_id_) continue;
      left.AddArc(0, fst::StdArc(id, id, 0, 0));
      right.AddArc(0, fst::StdArc(id, id, 0, 0));
      if (isEntityLabel(symbols.Find(id))) {
        // dropping a label costs nothing overall
        left.AddArc(0, fst::StdArc(id, del_label_id_, -deletion_cost / 2, 0));
        continue;
      }
      left.AddArc(0, fst::StdArc(id, sub_label_id_, substitution_cost / 2, 0));
      left.AddArc(0, fst::StdArc(id, del_label_id_, deletion_cost / 2, 0));
      right.AddArc(0, fst::StdArc(sub_label_id_, id, substitution_cost / 2, 0));
      right.AddArc(0, fst::StdArc(ins_label_id_, id, insertion_cost / 2, 0));
    }
    fst::StdVectorFst det;
    fst::Determinize(ref, &det);
    fst::StdVectorFst a, b;
    fst::Compose(det, left, &a);
    if (a.NumStates() == 0) throw std::runtime_error("");
    fst::ArcSort(&a, fst::StdOLabelCompare());
    fst::Compose(right, hyp, &b);
    if (b.NumStates() == 0) throw std::runtime_error("");
    fst::ArcSort(&b, fst::StdILabelCompare());
    fstC_ = std::make_unique<fst::StdComposeFst>(a, b);
  }

  StateId Start() { return fstC_->Start(); }
  fst::StdFst::Weight Final(StateId s) { return fstC_->Final(s); }
  bool TryGetArcsAtState(StateId s, std::vector<fst::StdArc> *out) {
    for (fst::ArcIterator<fst::StdFst> i(*fstC_, s); !i.Done(); i.Next()) out->push_back(i.Value());
    return true;
  }
};
}  // namespace spec
