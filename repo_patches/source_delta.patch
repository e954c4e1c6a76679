From 2049d85d70e0eb9b0bb65431a615fcb393ca7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 01/30] fix: GetEditDistance kept stale entries of the map
 vectors it is given

---
 src/fast-d.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index 128d927..ef9339d 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -53,10 +53,9 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
     return GetEditDistance(seqB, mapB, seqA, mapA);
   }
 
-  mapA.reserve(seqA.size());
-  mapA.resize(seqA.size(), -1);  // resize() sets all position to the given value, -1
-  mapB.reserve(seqB.size());
-  mapB.resize(seqB.size(), -1);
+  // assign() sets all positions to the given value, -1, also those a caller's vector already has
+  mapA.assign(seqA.size(), -1);
+  mapB.assign(seqB.size(), -1);
 
   if (seqA.size() == 0) {
     return seqB.size();
-- 
2.43.0


From 25a01911a0a08aa4c5cec22e18360af395bbc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 02/30] fix: edit distance backtracking lost its row after
 going left

---
 src/fast-d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast-d.cpp b/src/fast-d.cpp
index ef9339d..a6dc4eb 100644
--- a/src/fast-d.cpp
+++ b/src/fast-d.cpp
@@ -198,8 +198,9 @@ int GetEditDistance(std::vector<int> &seqA, std::vector<int> &mapA, std::vector<
     // right will get ignored.  Actually, we only have to compute the two values
     // above
 
+    // (when we went left, we're still on the same row)
     for (int x = 0; x <= lengthA; x++) {
-      distance[x] = distancePrev[x];
+      distance[x] = all_distances[seqB_track][x];
     }
 
     // Step 2, let's look at the row above the one we are now.
-- 
2.43.0


From 0d92e0ca12a91648bd195f2d52e84016dfd400c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 03/30] fix: bigrams of an empty alignment read out of bounds

---
 src/utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index a1ebc31..f6f5339 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -158,6 +158,10 @@ unordered_set<string> get_bigrams(wer_alignment &topAlignment) {
     }
   }
 
+  if (flattened_tokens.empty()) {
+    return all_bigrams;
+  }
+
   for (auto it = flattened_tokens.begin(); it != std::prev(flattened_tokens.end()); ++it) {
     bi_words = {it->first, std::next(it)->first};
     bigram_ref = string_join(bi_words, " ");
-- 
2.43.0


From a6bf712268cfd6fddc3cd93cd61206bf9ec42a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 04/30] fix: the --version flag was read uninitialized

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index d87ddbc..ea84278 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -26,7 +26,7 @@ int main(int argc, char **argv) {
   string output_json_log;
   string symbols_filename = "";
   int pr_threshold = 0;
-  bool version;
+  bool version = false;
   string composition_approach = "adapted";
   int speaker_switch_context_size = 5;
   int numBests = 100;
-- 
2.43.0


From d2c0ff712a6ad108d026f618f23618819e68d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 05/30] fix: speaker WER counted insertions inside classes as
 reference words

---
 src/wer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 1b2f066..d39ce17 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -134,7 +134,8 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     insertions += stitch.comment.rfind("ins", 0) == 0;
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
-    num_words_in_reference += speaker_id.empty() ? 0 : 1;
+    // an insertion inside a class carries a copy of an nlp row, but isn't a reference word
+    num_words_in_reference += (speaker_id.empty() || stitch.comment.rfind("ins", 0) == 0) ? 0 : 1;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
-- 
2.43.0


From 47ba2280dcc743743bf774b9d75588b9b47ef916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 06/30] fix: sentence WER dropped insertions after the last end
 of sentence

---
 src/wer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index d39ce17..11d6492 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -85,8 +85,8 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
         curr_wer = {0, 0, 0, 0, 0};
       }
   }
-  // Add last one if its empty case
-  if (curr_wer.numWordsInReference > 0) {
+  // Add last one if it isn't empty
+  if (curr_wer.numWordsInReference > 0 || curr_wer.insertions > 0) {
     sentence_wers.push_back(curr_wer);
   }
 
-- 
2.43.0


From 59e728aebb291af802ece34fbc5037cd60d07da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 07/30] fix: the first of several NLP tags lost its last two
 letters

---
 src/Nlp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 0bf287f..36ba984 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -396,7 +396,7 @@ std::string NlpReader::GetBestLabel(std::string &labels) {
     // chop before the 1st comma, if needed
     auto pos = trimmed.find(",");
     if (pos > 0) {
-      trimmed = trimmed.substr(0, pos - 2);
+      trimmed = trimmed.substr(0, pos);
     }
 
     // remove the leading/ending single-quote
-- 
2.43.0


From a4c6bdea5dd667c3f84fb354bc36eadea75e4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 08/30] fix: align crashed on inputs other than an nlp
 reference and a ctm hypothesis

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ea84278..f205231 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -194,6 +194,10 @@ int main(int argc, char **argv) {
     // empty methods that throw exceptions if not implemented.
     NlpFstLoader *nlpRef = dynamic_cast<NlpFstLoader *>(ref.get());
     CtmFstLoader *ctmHyp = dynamic_cast<CtmFstLoader *>(hyp.get());
+    if (nlpRef == nullptr || ctmHyp == nullptr) {
+      console->error("the align command needs an nlp reference and a ctm hypothesis");
+      return 1;
+    }
 
     HandleAlign(*nlpRef, *ctmHyp, engine, output_nlp_file, alignerOptions);
 
-- 
2.43.0


From 5fe7462134cc48ba39a08893025157f9bc8a8070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 09/30] fix: reading a missing or invalid FST file dereferenced
 a null pointer

---
 src/FstFileLoader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 0994766..2483b36 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -10,6 +10,9 @@ void FstFileLoader::addToSymbolTable(fst::SymbolTable& symbol) const { return; }
 fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, std::vector<int> map) const {
   auto logger = logger::GetOrCreateLogger("FstFileLoader");
   fst::StdVectorFst* transducer = fst::StdVectorFst::Read(filename_);
+  if (transducer == nullptr) {
+    throw std::runtime_error("can't read the FST file " + filename_);
+  }
   logger->info("Total FST has {} states.", transducer->NumStates());
   return (*transducer);
 }
-- 
2.43.0


From 610132051254ee9fc6d3dcb2ae79fbd7c95e6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 10/30] fix: no alignment when the search pruned every path the
 first pass allows

---
 src/fstalign.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 37ee686..7a8f55c 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -213,6 +213,14 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
     return best_alignments[0];
   }
 
+  if (alignerOptions.levenstein_first_pass) {
+    // every path that respects the matches of the first pass can have been pruned
+    logger->info("no alignment found with the levenshtein pre-computation, searching without it");
+    AlignerOptions full_search = alignerOptions;
+    full_search.levenstein_first_pass = false;
+    return Fstalign(refLoader, hypLoader, engine, full_search);
+  }
+
   throw std::runtime_error("no alignment produced");
 }
 
-- 
2.43.0


From 6f6ba07e35cf4d9f5a3d0e8e48284ac55d321892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 11/30] fix: the placeholder of an empty FALLBACK verbalization
 counted as a reference word in the breakdowns

---
 src/wer.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 11d6492..8f8f6c6 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -4,6 +4,11 @@
 
 using namespace std;
 
+// Insertions aren't words of the reference, and neither is the placeholder of an empty (FALLBACK) verbalization
+static bool IsReferenceWord(const Stitching &stitch) {
+  return stitch.comment.rfind("ins", 0) != 0 && stitch.reftk != NOOP;
+}
+
 void RecordWerResult(Json::Value &json, WerResult wr) {
   json["insertions"] = wr.insertions;
   json["deletions"] = wr.deletions;
@@ -77,7 +82,7 @@ void RecordSentenceWer(const vector<Stitching> &stitches) {
       curr_wer.deletions += stitch.comment.rfind("del", 0) == 0;
       curr_wer.insertions += stitch.comment.rfind("ins", 0) == 0;
       curr_wer.substitutions += stitch.comment.rfind("sub", 0) == 0;
-      curr_wer.numWordsInReference += stitch.comment.rfind("ins", 0) != 0;
+      curr_wer.numWordsInReference += IsReferenceWord(stitch);
 
       // Check if we hit EOS
       if (eos_punc.find(stitch.nlpRow.punctuation) != eos_punc.end()) {
@@ -135,7 +140,7 @@ void RecordSpeakerWer(const vector<Stitching> &stitches) {
     deletions += stitch.comment.rfind("del", 0) == 0;
     substitutions += stitch.comment.rfind("sub", 0) == 0;
     // an insertion inside a class carries a copy of an nlp row, but isn't a reference word
-    num_words_in_reference += (speaker_id.empty() || stitch.comment.rfind("ins", 0) == 0) ? 0 : 1;
+    num_words_in_reference += (speaker_id.empty() || !IsReferenceWord(stitch)) ? 0 : 1;
   }
 
   if (speaker_wers.find(last_speaker) == speaker_wers.end()) {
@@ -196,7 +201,7 @@ vector<int> GetSpeakerSwitchIndices(const vector<Stitching> &stitches) {
       }
       lastSpeaker = speaker;
     }
-    if (stitch.comment.rfind("ins", 0) != 0) {
+    if (IsReferenceWord(stitch)) {
       nlpRowIndex++;
     }
   }
@@ -220,7 +225,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       bool sub = stitch.comment.rfind("sub", 0) == 0;
       if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
           nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
-        if (!ins) {
+        if (IsReferenceWord(stitch)) {
           wer.numWordsInReference++;
         }
 
@@ -233,7 +238,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
           wer.insertions++;
         }
       }
-      if (!ins) {
+      if (IsReferenceWord(stitch)) {
         nlpRowIndex++;
       }
       if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
@@ -267,7 +272,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     const string &hyptk = stitch.hyptk;
     const string &ref_casing = stitch.nlpRow.casing;
 
-    if (hyptk == DEL || reftk == INS) {
+    if (hyptk == DEL || reftk == INS || reftk == NOOP) {
       continue;
     }
 
@@ -359,7 +364,7 @@ void RecordTagWer(const vector<Stitching>& stitches) {
         wer_results[wer_tag.tag_id].insertions += ins;
         wer_results[wer_tag.tag_id].deletions += del;
         wer_results[wer_tag.tag_id].substitutions += sub;
-        if (!ins) {
+        if (IsReferenceWord(stitch)) {
           wer_results[wer_tag.tag_id].numWordsInReference += 1;
         }
       }
-- 
2.43.0


From 05d6c12ccd89a151432f29416945a7879fb88a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 12/30] fix: the documented <unk> synonym of tags was missing

---
 src/SynonymEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index ff5acb3..99c74be 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -141,11 +141,17 @@ void SynonymEngine::GenerateSynFromSymbolTable(SymbolTable &symbol) {
 
   int cutoff_count = 0;
   int compound_hyphen_count = 0;
+  FstAlignOption symbols;
+  const set<string> not_tags = {symbols.symEps, symbols.symIns, symbols.symDel, symbols.symSub, symbols.symUnk};
 
   SymbolTableIterator symIter(symbol);
   while (!symIter.Done()) {
     auto sym = symIter.Symbol();
     symIter.Next();
+    if (IsNoisecodeToken(sym) && not_tags.count(sym) == 0 && synonyms.find({sym}) == synonyms.end()) {
+      // <unk> is accepted for tags (e.g. <laugh>)
+      synonyms[{sym}] = {{symbols.symUnk}};
+    }
     int hyphen_idx = sym.find('-');
     if (hyphen_idx < 0) {
       continue;
-- 
2.43.0


From 11ebe999855dc7c291de945204ae1e203317f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 13/30] fix: a missing CTM file was taken for an empty
 transcript

---
 src/Ctm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index e674e43..ccfeef3 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -151,6 +151,8 @@ vector<RawCtmRecord> read_from_disk_with_conf(const string &filename) {
 
 vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
   ifstream ctm_peek(filename);
+  if (!ctm_peek.is_open()) throw std::runtime_error("Cannot open input file");
+
   string first_line;
   if (!std::getline(ctm_peek, first_line)) {
     vector<RawCtmRecord> vect;
-- 
2.43.0


From c4231ebd63b6259f9ea10f74bf6305dee6e3f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 14/30] fix: a missing or invalid normalization or sidecar file
 was ignored

---
 src/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index f205231..390e851 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -237,7 +237,9 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &obj, &errs)) {
+      throw std::runtime_error("Cannot read " + json_norm_filename + ": " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", json_norm_filename, obj.size());
   } else {
@@ -257,7 +259,9 @@ std::unique_ptr<FstLoader> FstLoader::MakeReferenceLoader(const std::string& ref
     builder["collectComments"] = false;
 
     JSONCPP_STRING errs;
-    Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs);
+    if (!Json::parseFromStream(builder, ifs, &wer_sidecar_obj, &errs)) {
+      throw std::runtime_error("Cannot read " + wer_sidecar_filename + ": " + errs);
+    }
 
     console->info("The json we just read [{}] has {} elements from its root", wer_sidecar_filename, wer_sidecar_obj.size());
   } else {
-- 
2.43.0


From 70cb86aaaff4f377653cb53ef749851bb1e0c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 15/30] fix: a missing symbols file was ignored, an invalid one
 crashed the program

---
 src/fstalign.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 7a8f55c..8ec3a6b 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -51,7 +51,11 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   SymbolTable symbol;
   if (!alignerOptions.symbols_filename.empty()) {
     std::ifstream strm(alignerOptions.symbols_filename, std::ios_base::in);
-    symbol = *(SymbolTable::ReadText(strm, "symbols"));
+    std::unique_ptr<SymbolTable> table(strm ? SymbolTable::ReadText(strm, "symbols") : nullptr);
+    if (table == nullptr) {
+      throw std::runtime_error("can't read the symbols file " + alignerOptions.symbols_filename);
+    }
+    symbol = *table;
   } else {
     symbol = SymbolTable("symbols");
   }
-- 
2.43.0


From d56cc4fbcf801832cda062f4f4bcaadd68cd5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 16/30] fix: crash on a graph without a path or with reserved
 words (standard composition)

---
 src/StandardComposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StandardComposition.cpp b/src/StandardComposition.cpp
index 63b6fc5..5d5eb89 100644
--- a/src/StandardComposition.cpp
+++ b/src/StandardComposition.cpp
@@ -79,7 +79,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose1 (ref o edits) produced an FST with 0 state");
     logger_->warn("halEdit1 was:");
     printFst("fstalign", &halfEdit1, symbols_);
-    return;
+    throw std::runtime_error("the reference can't be composed with the edits");
   }
 
   ArcSort(&halfCompose1, StdOLabelCompare());
@@ -97,7 +97,7 @@ StandardCompositionFst::StandardCompositionFst(const fst::StdFst &fstA, const fs
     logger_->warn("halfCompose2 (hyp o edits) produced an FST with 0 state");
     logger_->warn("halEdit2 was:");
     printFst("fstalign", &halfEdit2, symbols_);
-    return;
+    throw std::runtime_error("the hypothesis can't be composed with the edits");
   }
 
   ArcSort(&halfCompose2, StdILabelCompare());
-- 
2.43.0


From a1ac45bf47e4cf5e12023384524130fdf6176b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 17/30] fix: crash on a synonym rule with an empty left side

---
 src/SynonymEngine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index 99c74be..2c74a95 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -86,6 +86,10 @@ void SynonymEngine::ParseStrings(vector<string> lines) {
     // parts.erase(parts.begin());
 
     trim(lhs);
+    if (lhs.empty()) {
+      logger_->warn("strangly formatted line, skipping: {}", line);
+      continue;
+    }
     auto key = GetKeyFromString(lhs);
 
     if (synonyms.find(key) == synonyms.end()) {
-- 
2.43.0


From a8e36a60b9ab3df954bdda3f7e926fc66f808348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 18/30] fix: the test data generator announced words it did not
 write

---
 tools/generate_wer_test_data.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/generate_wer_test_data.pl b/tools/generate_wer_test_data.pl
index 6d7b856..8420d9f 100644
--- a/tools/generate_wer_test_data.pl
+++ b/tools/generate_wer_test_data.pl
@@ -173,10 +173,11 @@ sub select_word {
     my $w;
 
     my $cur_sum = 0;
+    keys %words; # start over, the previous search ended half way
     while ( my ( $key, $value ) = each %words ) {
         $w = $key;
         $cur_sum += $value;
-        if($r <= $cur_sum){
+        if($r < $cur_sum){
             last;
         }
     }
-- 
2.43.0


From d136db68bd8ad11801bc72fddc0b0f00bae2ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 19/30] fix: the test data generator took leading blanks for a
 word

---
 tools/generate_wer_test_data.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate_wer_test_data.pl b/tools/generate_wer_test_data.pl
index 8420d9f..b4822d7 100644
--- a/tools/generate_wer_test_data.pl
+++ b/tools/generate_wer_test_data.pl
@@ -49,7 +49,7 @@ if(!defined($in_ref)){
     while(my $l = <FF>){
         chomp($l);
         $l=~s/\s*$//;
-        my @wds = split(/\s+/, $l);
+        my @wds = split(' ', $l);
         foreach (@wds){
             $words{$_}++;
             $word_mass += 1;
-- 
2.43.0


From a8abde95d3d00bdf2061363f5fba2ee60ba6b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 20/30] fix: words without a casing counted as correctly cased

---
 src/wer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 8f8f6c6..bca93b6 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -271,6 +271,9 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     const string &reftk = stitch.reftk;
     const string &hyptk = stitch.hyptk;
     const string &ref_casing = stitch.nlpRow.casing;
+    // words whose casing is not given (the case column is optional, and punctuation tokens have none)
+    const bool ref_is_lower =
+        ref_casing == "LC" || (ref_casing.empty() && std::none_of(ref.begin(), ref.end(), [](unsigned char c) { return isupper(c); }));
 
     if (hyptk == DEL || reftk == INS || reftk == NOOP) {
       continue;
@@ -282,7 +285,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     // A false negative is the opposite
     // A true positive matches
     if (reftk == hyptk) {
-      if (ref_casing == "LC") {
+      if (ref_is_lower) {
         for (const auto &c : hyp) {
           if (isupper(c)) {
             false_positive++;
@@ -303,7 +306,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
         else if (ref_upper < hyp_upper) false_positive++;
       }
     } else {
-      if (ref_casing == "LC") {
+      if (ref_is_lower) {
         for (auto &&c : hyp) {
           if (isupper(c)) {
             sub_fp++;
-- 
2.43.0


From 57101c2cb98569207c85987e169f983115579a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 21/30] fix: words with a hyphen at an end besides another were
 read with empty words

---
 src/SynonymEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index 2c74a95..32f75fe 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -179,6 +179,11 @@ void SynonymEngine::GenerateSynFromSymbolTable(SymbolTable &symbol) {
       vector<string> new_words;
       strtk::split("-", trim_copy(sym), strtk::range_to_type_back_inserter(new_words),
                    strtk::split_options::compress_delimiters);
+      // a hyphen at either end leaves an empty part, which is no word
+      new_words.erase(std::remove(new_words.begin(), new_words.end(), ""), new_words.end());
+      if (new_words.empty()) {
+        continue;
+      }
 
       vector<string> hyphenated = GetKeyFromString(sym);
 
-- 
2.43.0


From 2495d34d6a133a5618433a4f7c32fc9809b7f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 22/30] fix: a graph file with symbol tables inside was refused

---
 src/FstFileLoader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FstFileLoader.cpp b/src/FstFileLoader.cpp
index 2483b36..ee97c59 100644
--- a/src/FstFileLoader.cpp
+++ b/src/FstFileLoader.cpp
@@ -14,6 +14,9 @@ fst::StdVectorFst FstFileLoader::convertToFst(const fst::SymbolTable& symbol, st
     throw std::runtime_error("can't read the FST file " + filename_);
   }
   logger->info("Total FST has {} states.", transducer->NumStates());
+  // the labels are those of the symbols file; tables inside the file would never match it
+  transducer->SetInputSymbols(nullptr);
+  transducer->SetOutputSymbols(nullptr);
   return (*transducer);
 }
 
-- 
2.43.0


From 4f125dd9e196bb5eb4321820576a96c0ca84884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 23/30] fix: a graph whose arcs are in no particular order
 crashed the program (standard composition)

---
 src/fstalign.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstalign.cpp b/src/fstalign.cpp
index 8ec3a6b..e4e887a 100644
--- a/src/fstalign.cpp
+++ b/src/fstalign.cpp
@@ -179,6 +179,8 @@ wer_alignment Fstalign(FstLoader& refLoader, FstLoader& hypLoader, SynonymEngine
   logger->info("applying ref synonyms on ref fst");
   engine.ApplyToFst(refFst, symbol);
   ArcSort(&refFst, StdILabelCompare());
+  // the composition can't match on labels that aren't sorted on either side
+  ArcSort(&hypFst, StdILabelCompare());
 
   logger->info("printing ref fst");
   if (refFst.NumStates() > 100) {
-- 
2.43.0


From 9ae0f6344089f3a9fdca854b5ea03a3b906931ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:13 +0000
Subject: [PATCH 24/30] fix: tags with a type (<foreign:fr>) in NLP files were
 read as <unk>

---
 src/Nlp.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index 36ba984..b5b7951 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -154,10 +154,7 @@ std::vector<int> NlpFstLoader::convertToIntVector(fst::SymbolTable &symbol) cons
   FstAlignOption options;
   for (TokenType::const_iterator i = mToken.begin(); i != mToken.end(); ++i) {
     std::string token = *i;
-    int token_sym = symbol.Find(token);
-    if (token_sym == -1) {
-      token_sym = symbol.Find(options.symUnk);
-    }
+    int token_sym = GetProperSymbolId(symbol, token, options.symUnk);
     vect.emplace_back(token_sym);
   }
 
@@ -196,10 +193,7 @@ fst::StdVectorFst NlpFstLoader::convertToFst(const fst::SymbolTable &symbol, std
     transducer.AddState();
 
     std::string token = *i;
-    int token_sym = symbol.Find(token);
-    if (token_sym == -1) {
-      token_sym = symbol.Find(options.symUnk);
-    }
+    int token_sym = GetProperSymbolId(symbol, token, options.symUnk);
 
     // logger->info("wc {}, token {}, map[wc] = {}, map_sz = {}", wc, token, map[wc], map_sz);
     if (map_sz > wc && map[wc] > 0) {
-- 
2.43.0


From 0fc0b97006dbb233b62396114425830bb36e47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:24 +0000
Subject: [PATCH 25/30] fix: a CTM file with confidences behind a blank line
 was refused

---
 src/Ctm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Ctm.cpp b/src/Ctm.cpp
index ccfeef3..0146af8 100644
--- a/src/Ctm.cpp
+++ b/src/Ctm.cpp
@@ -159,6 +159,10 @@ vector<RawCtmRecord> CtmReader::read_from_disk(const string &filename) {
     return vect;
   }
 
+  // blank lines are no rows, they don't tell how many columns there are
+  while (first_line.find_first_not_of(" \t\r") == string::npos && std::getline(ctm_peek, first_line)) {
+  }
+
   int sz = 1;
   char lastChar = 'x';
 
-- 
2.43.0


From 1cc9441b57cebdf21dea7a1644a06c6d47d2cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 26/30] fix: a punctuation mark inside a labelled stretch was
 read behind it

---
 src/Nlp.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Nlp.cpp b/src/Nlp.cpp
index b5b7951..94d2e01 100644
--- a/src/Nlp.cpp
+++ b/src/Nlp.cpp
@@ -86,12 +86,25 @@ NlpFstLoader::NlpFstLoader(std::vector<RawNlpRecord> &records, Json::Value norma
       mSpeakers.push_back(speaker);
     }
     if (use_punctuation && punctuation != "") {
-      mToken.push_back(punctuation);
-      mSpeakers.push_back(speaker);
       RawNlpRecord punc_row;
       punc_row.token = punc_row.punctuation;
       punc_row.speakerId = speaker;
       punc_row.punctuation = "";
+      auto next_row = &row + 1;
+      if (processLabels && curr_label != "" && next_row <= &records.back() && next_row->best_label == curr_label) {
+        // the label goes on behind this mark, which is one of its own words then
+        if (mJsonNorm != Json::nullValue) {
+          auto &candidates = mJsonNorm[curr_label_id]["candidates"];
+          candidates[candidates.size() - 1]["verbalization"].append(punctuation);
+        }
+        punc_row.best_label = curr_label;
+        punc_row.best_label_id = curr_label_id;
+        punc_row.labels = row.labels;
+        punc_row.wer_tags = row.wer_tags;
+      } else {
+        mToken.push_back(punctuation);
+        mSpeakers.push_back(speaker);
+      }
       mNlpRows.push_back(punc_row);
     }
     firstTk = false;
-- 
2.43.0


From 0f7883e2f2538ce8452a1bf328913fa001851308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:08 +0000
Subject: [PATCH 27/30] fix: synonym rules with capitals never applied although
 letter case does not count

---
 src/SynonymEngine.cpp | 5 +++++
 src/SynonymEngine.h   | 1 +
 src/main.cpp          | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/SynonymEngine.cpp b/src/SynonymEngine.cpp
index 32f75fe..6556e45 100644
--- a/src/SynonymEngine.cpp
+++ b/src/SynonymEngine.cpp
@@ -79,6 +79,11 @@ void SynonymEngine::ParseStrings(vector<string> lines) {
       continue;
     }
 
+    if (opts_.lowercase_rules) {
+      // so are the words of the transcripts
+      for (auto &part : parts) part = UnicodeLowercase(part);
+    }
+
     // LHS: the word(s) to match in the fst
     // RHS: a ;-delimited list of equivalent expressions
     string lhs = parts[0];
diff --git a/src/SynonymEngine.h b/src/SynonymEngine.h
index f1660a1..895a6e9 100644
--- a/src/SynonymEngine.h
+++ b/src/SynonymEngine.h
@@ -21,6 +21,7 @@ typedef vector<vector<string>> SynVals;
 struct SynonymOptions {
   bool disable_cutoffs = false;
   bool disable_hyphen_ignore = false;
+  bool lowercase_rules = false;
 };
 
 class SynonymEngine {
diff --git a/src/main.cpp b/src/main.cpp
index 390e851..2f82600 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -173,6 +173,8 @@ int main(int argc, char **argv) {
   SynonymOptions syn_opts;
   syn_opts.disable_cutoffs = disable_cutoffs;
   syn_opts.disable_hyphen_ignore = disable_hyphen_ignore;
+  // the words of a graph are used as they are written
+  syn_opts.lowercase_rules = !use_case && dynamic_cast<FstFileLoader *>(ref.get()) == nullptr;
 
   SynonymEngine engine(syn_opts);
   if (synonyms_filename.size() > 0) {
-- 
2.43.0


From 75387ba0209b34246702483636c4cd35b76a107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:05 +0000
Subject: [PATCH 28/30] fix: the aligned NLP file lost the capitals of words
 with letters beyond ASCII

---
 src/utilities.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/utilities.cpp b/src/utilities.cpp
index f6f5339..5dd6321 100644
--- a/src/utilities.cpp
+++ b/src/utilities.cpp
@@ -58,20 +58,8 @@ void splitString(const std::string &str, char delimiter, StringFunction f) {
   }
 }
 
-struct iequal {
-  bool operator()(int c1, int c2) const { return std::toupper(c1) == std::toupper(c2); }
-};
-
 bool iequals(const std::string &str1, const std::string &str2) {
-  if (str1.size() != str2.size()) {
-    return false;
-  }
-
-  if (str1 == str2) {
-    return true;
-  }
-
-  return std::equal(str1.begin(), str1.end(), str2.begin(), iequal());
+  return str1 == str2 || UnicodeLowercase(str1) == UnicodeLowercase(str2);
 }
 
 // trim from start (in place)
-- 
2.43.0


From 54df7194ea43008e9a72ebcebd37b91f21bf6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:42 +0000
Subject: [PATCH 29/30] fix: capitals beyond ASCII did not count in the casing
 statistics

---
 src/wer.cpp | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index bca93b6..5ea6313 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -1,5 +1,7 @@
 #include "wer.h"
 
+#include <unicode/uchar.h>
+
 #include "AlignmentTraversor.h"
 
 using namespace std;
@@ -257,6 +259,15 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       speaker_switch_context_size;
 }
 
+static int CountCapitals(const string &word) {
+  auto letters = icu::UnicodeString::fromUTF8(word);
+  int capitals = 0;
+  for (int i = 0; i < letters.length(); i = letters.moveIndex32(i, 1)) {
+    if (u_isupper(letters.char32At(i))) capitals++;
+  }
+  return capitals;
+}
+
 void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
   auto logger = logger::GetOrCreateLogger("wer");
   logger->set_level(spdlog::level::info);
@@ -273,7 +284,7 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     const string &ref_casing = stitch.nlpRow.casing;
     // words whose casing is not given (the case column is optional, and punctuation tokens have none)
     const bool ref_is_lower =
-        ref_casing == "LC" || (ref_casing.empty() && std::none_of(ref.begin(), ref.end(), [](unsigned char c) { return isupper(c); }));
+        ref_casing == "LC" || (ref_casing.empty() && CountCapitals(ref) == 0);
 
     if (hyptk == DEL || reftk == INS || reftk == NOOP) {
       continue;
@@ -286,42 +297,20 @@ void RecordCaseWer(const vector<Stitching> &aligned_stitches) {
     // A true positive matches
     if (reftk == hyptk) {
       if (ref_is_lower) {
-        for (const auto &c : hyp) {
-          if (isupper(c)) {
-            false_positive++;
-            break;
-          }
-        }
+        if (CountCapitals(hyp) > 0) false_positive++;
       } else {
-        int ref_upper = 0;
-        for (int i = 0; i < ref.size(); i++) {
-          if (isupper(ref[i])) ref_upper++;
-        }
-        int hyp_upper = 0;
-        for (int i = 0; i < hyp.size(); i++) {
-          if (isupper(hyp[i])) hyp_upper++;
-        }
+        int ref_upper = CountCapitals(ref);
+        int hyp_upper = CountCapitals(hyp);
         if (ref_upper == hyp_upper) true_positive++;
         else if (ref_upper > hyp_upper) false_negative++;
         else if (ref_upper < hyp_upper) false_positive++;
       }
     } else {
       if (ref_is_lower) {
-        for (auto &&c : hyp) {
-          if (isupper(c)) {
-            sub_fp++;
-            break;
-          }
-        }
+        if (CountCapitals(hyp) > 0) sub_fp++;
       } else {
-        int ref_upper = 0;
-        for (int i = 0; i < ref.size(); i++) {
-          if (isupper(ref[i])) ref_upper++;
-        }
-        int hyp_upper = 0;
-        for (int i = 0; i < hyp.size(); i++) {
-          if (isupper(hyp[i])) hyp_upper++;
-        }
+        int ref_upper = CountCapitals(ref);
+        int hyp_upper = CountCapitals(hyp);
         if (ref_upper == hyp_upper) sub_tp++;
         else if (ref_upper > hyp_upper) sub_fn++;
         else if (ref_upper < hyp_upper) sub_fp++;
-- 
2.43.0


From 3677fe4582238a3d422a8324d56afef3862df209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:47 +0000
Subject: [PATCH 30/30] fix: nothing was reported around speaker switches for
 contexts near the largest int

---
 src/wer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wer.cpp b/src/wer.cpp
index 5ea6313..1663352 100644
--- a/src/wer.cpp
+++ b/src/wer.cpp
@@ -216,6 +216,8 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
   logger->set_level(spdlog::level::info);
 
   vector<int> switch_indices = GetSpeakerSwitchIndices(stitches);
+  // wider than an index, so that the window of a large context doesn't overflow
+  const int64_t context_size = speaker_switch_context_size;
 
   int nlpRowIndex = 0;
   int switchNum = 0;
@@ -225,8 +227,8 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       bool del = stitch.comment.rfind("del", 0) == 0;
       bool ins = stitch.comment.rfind("ins", 0) == 0;
       bool sub = stitch.comment.rfind("sub", 0) == 0;
-      if (nlpRowIndex >= switch_indices[switchNum] - speaker_switch_context_size &&
-          nlpRowIndex < switch_indices[switchNum] + speaker_switch_context_size) {
+      if (nlpRowIndex >= switch_indices[switchNum] - context_size &&
+          nlpRowIndex < switch_indices[switchNum] + context_size) {
         if (IsReferenceWord(stitch)) {
           wer.numWordsInReference++;
         }
@@ -235,7 +237,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
           wer.deletions++;
         } else if (sub) {
           wer.substitutions++;
-        } else if (ins && nlpRowIndex != switch_indices[switchNum] - speaker_switch_context_size) {
+        } else if (ins && nlpRowIndex != switch_indices[switchNum] - context_size) {
           // Edge case: insertions at the start of the speaker switch context (nlp row hasn't officially started)
           wer.insertions++;
         }
@@ -243,7 +245,7 @@ void RecordSpeakerSwitchWer(const vector<Stitching> &stitches, int speaker_switc
       if (IsReferenceWord(stitch)) {
         nlpRowIndex++;
       }
-      if (nlpRowIndex >= switch_indices[switchNum] + speaker_switch_context_size) {
+      if (nlpRowIndex >= switch_indices[switchNum] + context_size) {
         switchNum++;
       }
     } else {
-- 
2.43.0

