// The search: order of expansion, what is expanded, what is accepted, what is pruned.
#include "spec.h"
#include "Walker.h"
namespace spec {
struct shortlistComparatorSharedPtr_ {
  // shortest first, then fewest errors, then cheapest, then lowest state
  bool operator()(const std::shared_ptr<ShortlistEntry> &a, const std::shared_ptr<ShortlistEntry> &b) {
    if (a->numWords < b->numWords) return true;
    if (a->numWords > b->numWords) return false;
    if (a->numErrors < b->numErrors) return true;
    if (a->numErrors > b->numErrors) return false;
    if (!(a->costSoFar == b->costSoFar)) return a->costSoFar < b->costSoFar;
    return a->currentState < b->currentState;
  }
};

struct PathHeap_ : PathHeap {
  void insert(std::shared_ptr<ShortlistEntry> e) { heap.insert(e); }
  std::shared_ptr<ShortlistEntry> removeFirst() {
    std::shared_ptr<ShortlistEntry> first = *heap.begin();
    heap.erase(heap.begin());
    return first;
  }
  int size() { return heap.size(); }
  // drops, among those after the first `target` entries, every entry with 20 errors more than the last one kept
  int prune(int target) {
    auto it = heap.begin();
    int sz = heap.size();
    for (int i = 0; i < target && i < sz; i++) ++it;
    auto last = it;
    --last;
    int dropped = 0;
    while (it != heap.end()) {
      if ((*it)->numErrors > (*last)->numErrors + 20) {
        heap.erase(it++);
        dropped++;
      } else {
        ++it;
      }
    }
    return dropped;
  }
};

struct Walker_ : Walker {
  Walker_() {
    numberOfLoopsBeforePruning = 50;
    heapA = &_heapA;
    heapB = &_heapB;
  }
  // a state is entered again only when it is not reached at a higher cost than before
  std::shared_ptr<ShortlistEntry> enqueueIfNeeded(std::shared_ptr<ShortlistEntry> from, const MyArc &arc, bool anchor) {
    std::shared_ptr<ShortlistEntry> e = nullptr;
    if (arc.nextstate == from->currentState) return e;
    auto old = logbook.find(arc.nextstate);
    if (old != logbook.end() && !(old->second >= from->costSoFar + arc.weight)) return e;
    e = std::make_shared<ShortlistEntry>();
    e->currentState = arc.nextstate;
    e->linkToHere = from;
    e->local_arc = arc;
    e->costToGoThere = anchor ? 0 : arc.weight;
    e->costSoFar = from->costSoFar + e->costToGoThere;
    if (anchor) {
      e->numWords = from->numWords;
    } else {
      e->numWords = from->numWords + 1;
      e->numErrors = arc.weight > 0 ? from->numErrors + 1 : from->numErrors;
      e->numInsert = arc.weight > 0 && arc.ilabel == 0 ? 1 : 0;
    }
    logbook[arc.nextstate] = e->costSoFar;
    return e;
  }

  std::vector<wer_alignment> walkComposed(IComposition &g, fst::SymbolTable &symbol, FstAlignOption &o, int best) {
    std::vector<wer_alignment> out;
    std::vector<ShortlistEntry> done;
    g.Start();
    auto first = std::make_shared<ShortlistEntry>();
    heapA->insert(first);
    int since = 0;
    while (heapA->size() > 0 && done.size() < best) {
      std::shared_ptr<ShortlistEntry> cur = heapA->removeFirst();
      int s = cur->currentState;
      std::vector<fst::StdArc> arcs;
      if (!g.TryGetArcsAtState(s, &arcs)) continue;
      for (size_t i = 0; i < arcs.size(); i++) {
        if (arcs[i].nextstate == s) continue;
        MyArc a;
        a.ilabel = arcs[i].ilabel;
        a.olabel = arcs[i].olabel;
        a.nextstate = arcs[i].nextstate;
        a.weight = arcs[i].weight.Value();
        std::shared_ptr<ShortlistEntry> e = Walker::enqueueIfNeeded(cur, a, false);
        if (e != nullptr) heapB->insert(e);
      }
      if (g.Final(s) != fst::StdFst::Weight::Zero()) done.push_back(*cur);
      if (heapA->size() > 0) continue;
      if (heapB->size() > 0 && since >= numberOfLoopsBeforePruning) {
        heapB->prune(pruningHeapSizeTarget);
        since = 0;
      }
      since++;
      std::swap(heapA, heapB);
    }
    for (size_t i = 0; i < done.size(); i++) out.push_back(GetDetailsFromTopCandidates(done[i], symbol, o));
    return out;
  }
};
}  // namespace spec
