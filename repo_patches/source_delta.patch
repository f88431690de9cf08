From 07b0f31621e225098592f2a735111db1b1928d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 01/16] fix: get_bigrams must not step before the end of an
 empty token list

---
 src/utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..6d2448f 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,11 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  // std::prev(end()) needs at least one element
+  if (flattened_tokens.empty()) {
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0


From ceea4ec4b84bba5582671901dd740c80bfab4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 02/16] fix: AdaptedCompositionFst must look up the composed
 state it was asked for

---
 src/AdaptedComposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index f444974..b8c114f 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -81,7 +81,7 @@ bool AdaptedCompositionFst::DoesComposedStateExist(StateId a) {
                    reversed_composed_states.size(), a);
   }
 
-  auto itr = reversed_composed_states.find(0);
+  auto itr = reversed_composed_states.find(a);
   if (itr == reversed_composed_states.end()) {
     return false;
   } else {
-- 
2.43.0


From fd2768c60d7acb77e2b5a23e0edfdb0a9b1b265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 03/16] fix: size the label tables of AdaptedCompositionFst by
 the largest key, not the number of symbols

---
 src/AdaptedComposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index b8c114f..7c9a00b 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -405,10 +405,10 @@ bool AdaptedCompositionFst::TryGetArcsAtState(StateId fromStateId, vector<fst::S
 void AdaptedCompositionFst::SetSymbols(fst::SymbolTable *symbols) {
   symbols_ = symbols;
   synonyms_label_ids.clear();
-  synonyms_label_ids.resize(symbols->NumSymbols(), false);
+  synonyms_label_ids.resize(symbols->AvailableKey(), false);
 
   entity_label_ids.clear();
-  entity_label_ids.resize(symbols->NumSymbols(), false);
+  entity_label_ids.resize(symbols->AvailableKey(), false);
 
   // mostly for optimization purpose
   logger_->debug("{}:{} we created 2 vector<bool> of {} items", __FILE__, __LINE__, symbols->NumSymbols());
-- 
2.43.0


From 5b702861b0255081be0c56c5b045768c30f360f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 04/16] fix: GetBestLabel keeps the whole first label when a
 token has several

---
 src/Nlp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..5b6fd3f 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -395,8 +395,8 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
 
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
-    if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+    if (pos != std::string::npos) {
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From f2c3d9a97f5fc5c4e89b44fedeb69a9bc39ca190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 05/16] fix: initialise the version flag (it was read
 uninitialised when --version is not given)

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d87ddbc..ea84278 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -26,7 +26,7 @@ int main(int argc, char **argv) {
   string output_json_log;
   string symbols_filename = "";
   int pr_threshold = 0;
-  bool version;
+  bool version = false;
   string composition_approach = "adapted";
   int speaker_switch_context_size = 5;
   int numBests = 100;
-- 
2.43.0


From 7d847aafad7394eef09f48e0f9e157285373ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 06/16] fix: align refuses inputs other than an nlp reference
 and a ctm hypothesis (it dereferenced null)

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ea84278..5d7e490 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -194,6 +194,10 @@ int main(int argc, char **argv) {
     // empty methods that throw exceptions if not implemented.
     NlpFstLoader *nlpRef = dynamic_cast<NlpFstLoader *>(ref.get());
     CtmFstLoader *ctmHyp = dynamic_cast<CtmFstLoader *>(hyp.get());
+    if (nlpRef == nullptr || ctmHyp == nullptr) {
+      console->error("align requires an nlp reference and a ctm hypothesis");
+      return 1;
+    }
 
     HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions);
 
-- 
2.43.0


From cc9c10784d69c45e30f3c2d27e11414c7061feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 07/16] fix: align without an output path fails instead of
 discarding its result

---
 src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cpp b/src/main.cpp
index 5d7e490..cbadfcf 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -184,6 +184,7 @@ int main(int argc, char **argv) {
   } else if (command == "align") {
     if (output_nlp.empty()) {
       console->error("the output nlp file must be specified");
+      return 1;
     }
 
     console->info("we'll be writing to {}", output_nlp);
-- 
2.43.0


From ef1564def957a9192f2b761f0d1ad35996304a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 08/16] fix: give the precision and recall of an alignment a
 value before they are reported

---
 src/utilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.h b/src/utilities.h
index dbe794d..8f7eee2 100644
--- a/src/utilities.h
+++ b/src/utilities.h
@@ -78,8 +78,8 @@ struct wer_alignment {
   vector<string> ins_words;
   vector<pair<string, string>> sub_words;
 
-  precision_t precision;
-  recall_t recall;
+  precision_t precision = 0.0f;
+  recall_t recall = 0.0f;
   // map<string, pair<precision_t, recall_t>> unigram_stats;
   vector<pair<string, gram_error_counter>> unigram_stats;
 
-- 
2.43.0


From f2df563929581ddd09b8a4f662c1b97165c4d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 09/16] fix: stop on a ctm that cannot be opened instead of
 reading it as empty

---
 src/Ctm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index e674e43..ccfeef3 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -151,6 +151,8 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename) {
 
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   ifstream ctm_peek(filename);
+  if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open input file");
+
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
     vector<RawCtmRecord> vect;
-- 
2.43.0


From 2bacacaf2eba05a663f9257ff53c56e03a0ef692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 10/16] fix: stop on a graph file that cannot be read instead
 of using a null pointer

---
 src/FstFileLoader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 0994766..b4350d8 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -9,7 +9,9 @@ void FstFileLoader::addToSymbolTable(fst::SymbolTable& symbol) const { return; }
 
 fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
   auto logger = logger::GetOrCreateLogger("FstFileLoader");
-  fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);
+  std::unique_ptr<fst::StdVectorFst> transducer(fst::StdVectorFst::Read(filename_));
+  if (transducer == nullptr) throw std::runtime_error("Cannot read input fst");
+
   logger->info("Total FST has {} states.", transducer->NumStates());
   return (*transducer);
 }
-- 
2.43.0


From abcb45f34bc48d4d98d52527991222a1b1486e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 11/16] fix: stop on a symbols file that cannot be read instead
 of using an empty or null table

---
 src/fstalign.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..38163a7 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -51,7 +51,11 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   SymbolTable symbol;
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
-    symbol = *(SymbolTable::ReadText(strm, "symbols"));
+    if (!strm.is_open()) throw std::runtime_error("Cannot open symbols file");
+
+    std::unique_ptr<SymbolTable> symbols(SymbolTable::ReadText(strm, "symbols"));
+    if (symbols == nullptr) throw std::runtime_error("Cannot read symbols file");
+    symbol = *symbols;
   } else {
     symbol = SymbolTable("symbols");
   }
-- 
2.43.0


From 7e9bc1b245441eee3776e30b468b677429652edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 12/16] fix: stop on a json sidecar that cannot be read instead
 of ignoring it

---
 src/main.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index cbadfcf..2110e35 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -238,7 +238,9 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {
+      throw std::runtime_error("Cannot read json norm file: " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", json_norm_filename, obj.size());
   } else {
@@ -258,7 +260,9 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs)) {
+      throw std::runtime_error("Cannot read wer sidecar file: " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", wer_sidecar_filename, wer_sidecar_obj.size());
   } else {
@@ -311,7 +315,9 @@ std::unique_ptr<FstLoader> FstLoader::MakeHypothesisLoader(const std::string& hy
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &hyp_json_obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &hyp_json_obj, &errs)) {
+      throw std::runtime_error("Cannot read json norm file: " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", hyp_json_norm_filename, hyp_json_obj.size());
   } else {
-- 
2.43.0


From dc6659cb113c2adadb60cfaf57621994721a70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 13/16] fix: fail when an output file cannot be opened instead
 of reporting success

---
 src/fstalign.cpp | 2 ++
 src/main.cpp     | 8 ++++++++
 src/wer.cpp      | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 38163a7..813213d 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -695,6 +695,8 @@ void HandleWer(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine &engine
 
     if (!output_nlp.empty()) {
       ofstream nlp_ostream(output_nlp);
+      if (!nlp_ostream.is_open()) throw std::runtime_error("Cannot open output nlp file");
+
       write_stitches_to_nlp(stitches, nlp_ostream, nlp_ref_loader->mJsonNorm, add_inserts_nlp);
     }
   }
diff --git a/src/main.cpp b/src/main.cpp
index 2110e35..6d9294a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -189,6 +189,10 @@ int main(int argc, char **argv) {
 
     console->info("we'll be writing to {}", output_nlp);
     ofstream output_nlp_file(output_nlp);
+    if (!output_nlp_file.is_open()) {
+      console->error("cannot open {} for writing", output_nlp);
+      return 1;
+    }
 
     // TODO: We should instrument FstLoader base class
     // to have nlp rows and ctm rows and have a getCtmRows/getNlpRows
@@ -215,6 +219,10 @@ int main(int argc, char **argv) {
     console->info("Writing JSON log output to {}", output_json_log);
     ofstream jsonFile;
     jsonFile.open(output_json_log);
+    if (!jsonFile.is_open()) {
+      console->error("cannot open {} for writing", output_json_log);
+      return 1;
+    }
     jsonFile << jsonLogger::JsonLogger::getLogger().root << std::endl;
     jsonFile.close();
   }
diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..c50a437 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -532,6 +532,7 @@ void WriteSbs(wer_alignment &topAlignment, const vector<Stitching>& stitches, st
 
   ofstream myfile;
   myfile.open(sbs_filename);
+  if (!myfile.is_open()) throw std::runtime_error("Cannot open output sbs file");
 
   AlignmentTraversor visitor(topAlignment);
   string prev_tk_classLabel = "";
-- 
2.43.0


From 4c680fc8210df2ffca7c97a0781a468cef06ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:16 +0000
Subject: [PATCH 14/16] fix: stop on a graph without a complete path instead of
 following a null composition

---
 src/StandardComposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StandardComposition.cpp b/src/StandardComposition.cpp
index 63b6fc5..12c197b 100644
--- a/src/StandardComposition.cpp
+++ b/src/StandardComposition.cpp
@@ -79,7 +79,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose1 (ref o edits) produced an FST with 0 state");
     logger_->warn("halEdit1 was:");
     printFst("fstalign", &halfEdit1, symbols_);
-    return;
+    throw std::runtime_error("Reference graph has no complete path");
   }
 
   ArcSort(&halfCompose1, StdOLabelCompare());
@@ -97,7 +97,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose2 (hyp o edits) produced an FST with 0 state");
     logger_->warn("halEdit2 was:");
     printFst("fstalign", &halfEdit2, symbols_);
-    return;
+    throw std::runtime_error("Hypothesis graph has no complete path");
   }
 
   ArcSort(&halfCompose2, StdILabelCompare());
-- 
2.43.0


From 84e7c6ac8991572eddc17fb1b733525ef158ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:16 +0000
Subject: [PATCH 15/16] fix: stop on a graph without a start state instead of
 reading state -1

---
 src/AdaptedComposition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AdaptedComposition.cpp b/src/AdaptedComposition.cpp
index 7c9a00b..a71d47e 100644
--- a/src/AdaptedComposition.cpp
+++ b/src/AdaptedComposition.cpp
@@ -57,6 +57,9 @@ StateId AdaptedCompositionFst::Start() {  // add initialization code for the com
 
   StateId zeroA = fstA_.Start();
   StateId zeroB = fstB_.Start();
+  if (zeroA == fst::kNoStateId || zeroB == fst::kNoStateId) {
+    throw std::runtime_error("Reference or hypothesis graph has no start state");
+  }
 
   StateId zeroC = GetOrCreateComposedState(zeroA, zeroB);
 
-- 
2.43.0


From 3330e543ccc91044916fb01aff7ff171a5546578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:16 +0000
Subject: [PATCH 16/16] fix: keep the best candidates alive while they are
 logged, and log them only if there are any

---
 src/Walker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Walker.cpp b/src/Walker.cpp
index ac357a8..87e4cfa 100644
--- a/src/Walker.cpp
+++ b/src/Walker.cpp
@@ -102,11 +102,11 @@ vector<wer_alignment> Walker::walkComposed(IComposition &fst, SymbolTable &symbo
 
     if (heapB->size() > 0) {
       if (loopSinceLastPruning >= numberOfLoopsBeforePruning) {
-        SLE a = heapB->GetBestWerCandidate().get();
+        auto a = heapB->GetBestWerCandidate();
         heapB->prune(this->pruningHeapSizeTarget); 
-        SLE b = heapB->GetBestWerCandidate().get();
+        auto b = heapB->GetBestWerCandidate();
 
-        if (logger->should_log(spdlog::level::debug)) {
+        if (a != nullptr && b != nullptr && logger->should_log(spdlog::level::debug)) {
           logger->debug(
               "best wer before pruning = {} ({} errors, {} words, {} state "
               "visited)",
-- 
2.43.0

