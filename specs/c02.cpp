// The on-the-fly composition: which arcs leave a state, where they lead, and which states are final.
#include "spec.h"
#include "AdaptedComposition.h"
#include "utilities.h"
namespace spec {
struct AdaptedCompositionFst_ : AdaptedCompositionFst {
  AdaptedCompositionFst_(const fst::StdFst &ref, const fst::StdFst &hyp, fst::SymbolTable &symbols) : AdaptedCompositionFst(ref, hyp) {
    insertion_cost = 1;
    deletion_cost = 1;
    substitution_cost = 1.5;
    AdaptedCompositionFst::SetSymbols(&symbols);
    ins_label_id_ = symbols.Find("<ins>");
    del_label_id_ = symbols.Find("<del>");
    sub_label_id_ = symbols.Find("<sub>");
    composed_states.clear();
    reversed_composed_states.clear();
    entity_exit_states.clear();
    current_composed_next_state_id = 0;
  }

  // one number per pair, handed out in order
  StateId GetOrCreateComposedState(StateId a, StateId b) {
    StatePair key(a, b);
    // ids are handed out here only, in increasing order
    __spec_assume(reversed_composed_states.count(current_composed_next_state_id) == 0);
    if (composed_states.find(key) == composed_states.end()) {
      StateId id = current_composed_next_state_id;
      current_composed_next_state_id++;
      composed_states.emplace(key, id);
      reversed_composed_states.emplace(id, key);
      return id;
    }
    return composed_states[key];
  }

  bool DoesComposedStateExist(StateId a, StateId b) { return composed_states.count(StatePair(a, b)) > 0; }

  bool DoesComposedStateExist(StateId c) { return reversed_composed_states.count(c) > 0; }

  StateId Start() {
    if (fstA_.Start() == fst::kNoStateId || fstB_.Start() == fst::kNoStateId) throw std::runtime_error("");
    return AdaptedCompositionFst::GetOrCreateComposedState(fstA_.Start(), fstB_.Start());
  }

  // final when both sides are; an unknown state counts as final
  fst::StdFst::Weight Final(StateId c) {
    if (reversed_composed_states.find(c) == reversed_composed_states.end()) return fst::StdFst::Weight::One();
    StatePair k = reversed_composed_states[c];
    if (fstA_.Final(k.first) == fst::StdFst::Weight::Zero()) return fst::StdFst::Weight::Zero();
    if (fstB_.Final(k.second) == fst::StdFst::Weight::Zero()) return fst::StdFst::Weight::Zero();
    return fst::StdFst::Weight::One();
  }

  bool IsEntityLabel(int l) { return symbols_ == nullptr ? false : entity_label_ids[l]; }
  bool IsSynonymLabel(int l) { return symbols_ == nullptr ? false : synonyms_label_ids[l]; }

  void SetSymbols(fst::SymbolTable *t) {
    symbols_ = t;
    synonyms_label_ids = std::vector<bool>(t->AvailableKey(), false);
    entity_label_ids = std::vector<bool>(t->AvailableKey(), false);
    for (fst::SymbolTableIterator it(*t); !it.Done(); it.Next()) {
      int64_t id = it.Value();
      std::string s = t->Find(id);
      bool syn = ::isSynonymLabel(s);
      if (syn) synonyms_label_ids[id] = true;
      if (!syn && ::isEntityLabel(s)) entity_label_ids[id] = true;
    }
  }

  // whether the closing label can be reached by matching words only
  bool IsEntityReacheable(int label, StateId a, StateId b) {
    for (fst::ArcIterator<fst::StdFst> i(fstA_, a); !i.Done(); i.Next()) {
      fst::StdArc x = i.Value();
      if (x.olabel == label) {
        entity_exit_states.emplace(a, label);
        return true;
      }
      if (x.olabel == 0) {
        if (AdaptedCompositionFst::IsEntityReacheable(label, x.nextstate, b)) return true;
        continue;
      }
      for (fst::ArcIterator<fst::StdFst> j(fstB_, b); !j.Done(); j.Next()) {
        fst::StdArc y = j.Value();
        if (x.olabel != y.ilabel) continue;
        if (AdaptedCompositionFst::IsEntityReacheable(label, x.nextstate, y.nextstate)) return true;
      }
    }
    return false;
  }

  bool TryGetArcsAtState(StateId c, std::vector<fst::StdArc> *out) {
    if (reversed_composed_states.find(c) == reversed_composed_states.end()) return false;
    StatePair k = reversed_composed_states[c];
    StateId a = k.first, b = k.second;
    dbg_count++;
    int matches = 0;
    for (fst::ArcIterator<fst::StdFst> i(fstA_, a); !i.Done(); i.Next()) {
      fst::StdArc x = i.Value();
      if (x.nextstate == a) continue;
      if (x.olabel == 0) {
        out->push_back(fst::StdArc(0, 0, 0.0, AdaptedCompositionFst::GetOrCreateComposedState(x.nextstate, b)));
        continue;
      }
      bool syn = AdaptedCompositionFst::IsSynonymLabel(x.olabel);
      if (syn || AdaptedCompositionFst::IsEntityLabel(x.olabel)) {
        // a label costs nothing; a synonym may only be entered when its end can be reached
        bool leaving = entity_exit_states.count(std::make_pair(a, (int)x.olabel)) > 0;
        if (leaving || !syn || AdaptedCompositionFst::IsEntityReacheable(x.olabel, x.nextstate, b)) {
          matches++;
          out->push_back(fst::StdArc(x.ilabel, del_label_id_, 0.0, AdaptedCompositionFst::GetOrCreateComposedState(x.nextstate, b)));
        }
        continue;
      }
      float wa = x.weight.Value();
      for (fst::ArcIterator<fst::StdFst> j(fstB_, b); !j.Done(); j.Next()) {
        fst::StdArc y = j.Value();
        float wb = y.weight.Value();
        if (x.olabel == y.ilabel) {
          matches++;
          out->push_back(fst::StdArc(x.ilabel, y.olabel, 0.0, AdaptedCompositionFst::GetOrCreateComposedState(x.nextstate, y.nextstate)));
        }
        // words that must match (positive weight) are never edited
        if (wb <= 0) {
          out->push_back(fst::StdArc(0, y.olabel, insertion_cost, AdaptedCompositionFst::GetOrCreateComposedState(a, y.nextstate)));
          if (wa <= 0)
            out->push_back(fst::StdArc(x.ilabel, y.olabel, substitution_cost, AdaptedCompositionFst::GetOrCreateComposedState(x.nextstate, y.nextstate)));
        }
      }
      if (matches == 0 || wa < 0) out->push_back(fst::StdArc(x.ilabel, 0, deletion_cost, AdaptedCompositionFst::GetOrCreateComposedState(x.nextstate, b)));
    }
    if (fstA_.NumArcs(a) == 0)
      for (fst::ArcIterator<fst::StdFst> j(fstB_, b); !j.Done(); j.Next()) {
        fst::StdArc y = j.Value();
        if (y.weight.Value() > 0) continue;
        out->push_back(fst::StdArc(0, y.olabel, insertion_cost, AdaptedCompositionFst::GetOrCreateComposedState(a, y.nextstate)));
      }
    return true;
  }
};
}  // namespace spec
