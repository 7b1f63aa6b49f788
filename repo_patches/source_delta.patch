From c2d824995d87ce13300939cc2c11f3c0714abf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 01/27] fix: shrinking the counts really shrinks the vocabulary

set_oov() clears the vocabulary only when the OOV symbol changes, so -f and
-d of counts2kn and varigram_kn had no effect. The search for the cutoff
also ran past the end of the word table.
---
 src/NgramCounts_tmpl.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index 4ba6977..abd1b10 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -210,12 +210,15 @@ void NgramCounts_t<K, T>::shrink(float ndrop, int nfirst) {
   /* create a backwards mapping */
   std::vector<int> backwards(wordtable.size(), 0);
   int i;
-  for (i = 1; (i <= nfirst && wordtable[i].count > ndrop); i++)
+  for (i = 1; (i < (int)wordtable.size() && i <= nfirst &&
+               wordtable[i].oldidx >= 0 && wordtable[i].count > ndrop);
+       i++)
     backwards[wordtable[i].oldidx] = i;
   nfirst = i - 1;
 
   /* Redo the vocabulary */
-  vocab->set_oov(wordtable[0].wstring); // clears the current vocabulary
+  vocab->clear_words();
+  vocab->add_word(wordtable[0].wstring); // the OOV symbol keeps index 0
   for (i = 1; i <= nfirst; i++) {
     vocab->add_word(wordtable[i].wstring);
   }
-- 
2.43.0


From 16e969a6f74c6a7a20ffd889b24c415cb34d4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 02/27] fix: --smallvocab no longer ignores the requested
 --ndrop

---
 src/InterKn_tmpl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 8677c92..94dd666 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -752,7 +752,7 @@ void InterKn_t<KT, CT>::constructor_helper(
         if (!this->KT_is_short((KT *)NULL))
           nc_tmp.shrink(ndrop, nfirst);
         else {
-          nc_tmp.shrink(0, std::min(65534, nfirst));
+          nc_tmp.shrink(ndrop, std::min(65534, nfirst));
         }
         nc_tmp.vocab->copy_vocab_to(this->vocab);
         datain.open(this->m_data_name, "r");
-- 
2.43.0


From c0ba245087f9b51b63d2ff6cf65ac75d068f81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 03/27] fix: no sentence start correction when the sentence
 start was never counted

With a zero count the 3-discount variant wrote nzer[-1] and the other one
decremented a non-zero count that did not include the symbol.
---
 src/InterKn_tmpl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 94dd666..6b1142a 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -199,6 +199,8 @@ template <typename BOT>
 void InterKn_int_disc<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0) // The boundary never occurs: there is nothing to remove
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
@@ -212,6 +214,8 @@ template <typename BOT>
 void InterKn_int_disc3<KT, ICT>::remove_sent_start_prob_fbase(BOT *dummy) {
   std::vector<KT> tmp(1, (KT)this->m_sent_boundary);
   const ICT value = this->moc->GetCount(tmp);
+  if (value <= 0) // The boundary never occurs: there is nothing to remove
+    return;
   this->moc->IncrementCount(tmp, -value);
   BOT bo;
   this->moc->zero_bo(bo);
-- 
2.43.0


From bb56eb8d6323efbe08b87a1e6744d1439abb0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 04/27] fix: a sparse matrix created with capacity zero can
 grow

Doubling a capacity of zero never gave room for the first entry. The search
for a hash size also ran past the end of the prime table.
---
 src/sparse_matrix.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index 6fa8925..ac021ec 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -65,16 +65,16 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
   memcpy(m->default_value, def_value, m->size_of_entry);
 
   m->num_entries = 0;
-  m->datasize = hashs;
+  m->datasize = hashs > 0 ? hashs : 1; /* doubling must be able to grow it */
   // fprintf(stderr,"mallocing %d*%d=%d\n", (int) m->key_size, hashs, (int)
   // (m->key_size *hashs));
-  m->keys = (byte *)malloc(m->key_size * hashs);
+  m->keys = (byte *)malloc(m->key_size * m->datasize);
   check_malloc(m->keys, "keys");
-  m->data = (byte *)malloc(m->size_of_entry * hashs);
+  m->data = (byte *)malloc(m->size_of_entry * m->datasize);
   check_malloc(m->data, "data");
-  m->next = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->next = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->next, "next pointers");
-  m->prev = (indextype *)malloc(sizeof(indextype) * hashs);
+  m->prev = (indextype *)malloc(sizeof(indextype) * m->datasize);
   check_malloc(m->prev, "prev pointers");
 
   /* Find a good hash size */
@@ -88,6 +88,7 @@ struct matrix *CreateMatrix(const int keysize, const indextype hashs,
               "prime to sparse_matrix.h.\n",
               (int)pr[i]);
       // exit(-1);
+      break;
     }
   }
   m->hashsize = pr[i];
-- 
2.43.0


From bc5723b5d791acb9513aa503431db06efe42da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 05/27] fix: size the hit counters for the interpolated model

set_interpolation() may promote a higher order model to the main model; the
hit counters kept the old size and were written out of bounds.
---
 src/PerplexityFuncs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index f2629f5..d9e0325 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -447,6 +447,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
   }
+  reset_hitrates(); // The order of the main model may have changed
 
   assert(m_lm->num_words() == m_lm2->num_words());
   for (int i = 0; i < m_lm->num_words(); i++) {
-- 
2.43.0


From 8e2b588e3f3a6f3a6e4117e687a98f0c6f35f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 06/27] fix: --inter_coeff weights the interpolated model with
 --freegram too

As documented (and as without --freegram) the main model gets 1-coeff. The
weight has to be set before set_interpolation() may swap the two models.
---
 app/perplexity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 73ac2be..9273c70 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -115,10 +115,10 @@ int main(int argc, char *argv[]) {
     if (config["freegram"].specified) {
       lm.reset(new Perplexity(lm_name, lm_type, ccs_name, wb_name, mb_name,
                               unk_symbol, true, skip_unks));
-      lm->set_interpolation(config["interpolate"].get_str());
       if (config["inter_coeff"].specified) {
-        lm->set_alpha(config["inter_coeff"].get_double());
+        lm->set_alpha(1.0 - config["inter_coeff"].get_double());
       }
+      lm->set_interpolation(config["interpolate"].get_str());
     } else {
       // Interpolate the new way, using InterTreeGram
       knows_hitrates = false;
-- 
2.43.0


From be83f6c550e8526756dd4bf34eff52e02c35956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 07/27] fix: sentence_logprob uses no uninitialised buffer

Two of the three constructors left the scratch buffer and its length
uninitialised, and its size was computed after the sentence was split.
---
 src/PerplexityFuncs.cc | 11 +----------
 src/PerplexityFuncs.hh |  2 --
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index d9e0325..aa1d34e 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -9,8 +9,6 @@ Perplexity::Perplexity(const char *lm_name) {
   init_variables();
   m_lm.reset(new TreeGram());
   m_lm->set_oov("<UNK>");
-  m_tmpstring_length = 100;
-  m_tmpstring = (char *)malloc(m_tmpstring_length * sizeof(char));
   m_print_unk_warn = false;
   m_skip_unk_prob = true;
 
@@ -156,15 +154,8 @@ float Perplexity::sentence_logprob(const char *sentence_in) {
   char *sentence = strdup(sentence_in);
   char *cptr = strtok(sentence, " ");
 
-  if (strlen(sentence) > m_tmpstring_length) {
-    m_tmpstring_length = strlen(sentence);
-    m_tmpstring =
-        (char *)realloc(m_tmpstring, m_tmpstring_length * sizeof(char));
-  }
-
   while (cptr) {
-    sscanf(cptr, "%s", m_tmpstring);
-    lpsum += logprob(m_tmpstring, foo);
+    lpsum += logprob(cptr, foo);
     cptr = strtok(NULL, " ");
   }
   free(sentence);
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index 1c89fd2..d1f4544 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -84,8 +84,6 @@ private:
   void init_special_symbols(const std::string ccs_name,
                             const std::string wb_name,
                             const std::string mb_name);
-  char *m_tmpstring;
-  int m_tmpstring_length;
   wb_type m_wb_type;
   bool is_wb(int idx);
   bool is_mb(std::string w);
-- 
2.43.0


From 7c556c6c5967d26fc0f2a9735e4d2b1b154b5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 08/27] fix: limit the width of every token read into a fixed
 buffer

---
 app/check_model.cc     | 8 ++++----
 src/PerplexityFuncs.cc | 8 ++++----
 src/Storage_tmpl.hh    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/app/check_model.cc b/app/check_model.cc
index 26c3324..62c91b5 100644
--- a/app/check_model.cc
+++ b/app/check_model.cc
@@ -75,20 +75,20 @@ int main(int argc, char **argv) {
 
   if (!datafile) {
     std::deque<int> gram;
-    char tmpbuf[MAX_WLEN];
-    while (fscanf(txtin.file, "%s", tmpbuf) != EOF)
+    char tmpbuf[MAX_WLEN + 1];
+    while (fscanf(txtin.file, MAX_WLEN_FMT_STRING, tmpbuf) != EOF)
       gram.push_back(tg->word_index(tmpbuf));
     check_gram(gram, true);
     txtin.close();
     exit(0);
   }
 
-  char word[MAX_WLEN];
+  char word[MAX_WLEN + 1];
   std::deque<int> history;
   int errors = 0;
   int num_words = 0;
   while (true) {
-    const int fsc = fscanf(txtin.file, "%s", word);
+    const int fsc = fscanf(txtin.file, MAX_WLEN_FMT_STRING, word);
     if (!fsc || fsc == EOF)
       break;
     num_words++;
diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index aa1d34e..2223725 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -120,12 +120,12 @@ void Perplexity::init_special_symbols(const std::string ccs_name,
 }
 
 void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
 
   io::Stream in(fname, "r");
   int temp;
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
 
@@ -138,10 +138,10 @@ void Perplexity::find_indices(const std::string fname, std::vector<int> &vec) {
 
 void Perplexity::load_mbs(const std::string fname,
                           std::vector<std::string> &vec) {
-  char buf[1000];
+  char buf[MAX_WLEN + 1];
   io::Stream in(fname, "r");
   while (true) {
-    int i = fscanf(in.file, "%s", buf);
+    int i = fscanf(in.file, MAX_WLEN_FMT_STRING, buf);
     if (!i || i == EOF)
       break;
     std::string sbuf(buf);
diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index ebcedc9..96e3fad 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -134,17 +134,17 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
 
   io::Stream in(fname, "r", io::REOPENABLE);
   std::vector<T> v;
-  char sbuf[MAX_WLEN];
+  char sbuf[MAX_WLEN + 1];
 
   if (this->clear_lm_history == -1) {
     for (int i = 0; i < order - 1; i++) {
-      if (fscanf(in.file, "%s", sbuf) != 1)
+      if (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) != 1)
         return;
       v.push_back(voc->word_index(sbuf));
     }
     v.push_back(0); // vector is of right size
 
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       indextype idx = FindEntry(m_refmat->m, (byte *)(&v[0]), 0);
       // fprintf(stderr,"%d: idx %d(<%d) ",i,idx,m_lists.size());
       T widx = voc->word_index(sbuf);
@@ -159,7 +159,7 @@ void Storage_t<T, ICT>::init_fsl_file(const int order,
         v[j] = v[j + 1];
     }
   } else {
-    while (fscanf(in.file, "%s", sbuf) == 1) {
+    while (fscanf(in.file, MAX_WLEN_FMT_STRING, sbuf) == 1) {
       T widx = voc->word_index(sbuf);
       if (widx == this->clear_lm_history)
         v.clear();
-- 
2.43.0


From 714e115516b3a46957b16225aac117be7323645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 09/27] fix: RemoveDefaultValues examines the entries that
 removals move

Removing an entry moves the last one to its place; that entry was skipped.
---
 src/sparse_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_matrix.c b/src/sparse_matrix.c
index ac021ec..9a3ca07 100644
--- a/src/sparse_matrix.c
+++ b/src/sparse_matrix.c
@@ -500,7 +500,7 @@ void RemoveDefaultValues(struct matrix *m) {
   for (i = 0; i < m->num_entries; i++) {
     if (!memcmp(&(m->data[i * m->size_of_entry]), m->default_value,
                 m->size_of_entry))
-      RemoveEntryIdx(m, i);
+      RemoveEntryIdx(m, i--); /* the last entry was moved here */
   }
 }
 
-- 
2.43.0


From f882cf52408ab121ccf191d12633803426f40477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 10/27] fix: ReadCounts rejects lines with missing fields

The fields were indexed without checking that the line has them.
---
 src/MultiOrderCounts_tmpl.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 6fb1447..efcf327 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -319,10 +319,14 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
 
     if (line[0] == '\\') {
       str::split(&line, "-", true, &vec);
+      vec.resize(2); // A missing field is an empty, and so an invalid, one
       vec[0][0] = ' ';
       order = str::str2long(&vec[0], &ok);
       // fprintf(stderr,"ordered %s=%d(%d)\n", vec[0].c_str(), order, ok);
       // fprintf(stderr,"comparestring *%s*\n", vec[1].c_str());
+      if (order < 1)
+        ok = false;
+      else
       if (!strcmp("gram counts", vec[1].c_str())) {
         read_backoffs = false;
         v.resize(order);
@@ -339,7 +343,14 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       continue;
     }
 
+    if (order < 1) {
+      fprintf(stderr, "Counts before any header, line %ld. Exit.\n", lineno);
+      exit(-1);
+    }
     str::split(&line, " \t", true, &vec);
+    // Missing fields are empty, and so invalid, ones
+    if (vec.size() < order + 6)
+      vec.resize(order + 6);
     // fprintf(stderr,"ORDER %d\n", order);
     if (!read_backoffs) {
       for (int i = 1; i <= order; i++) {
-- 
2.43.0


From e4c46ed4d12ab9743e3b7ec48a37661e53c25ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 11/27] fix: the backoff matrices are bounded by their own
 number

A counts file may have counts for an order without any backoffs.
---
 src/MultiOrderCounts.hh      | 2 +-
 src/MultiOrderCounts_tmpl.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiOrderCounts.hh b/src/MultiOrderCounts.hh
index 51f5ae2..85db03e 100644
--- a/src/MultiOrderCounts.hh
+++ b/src/MultiOrderCounts.hh
@@ -363,7 +363,7 @@ public:
                           BOT *value);
 
   inline void RemoveDefaultBackoffs() {
-    for (int o = order(); o >= 2; o--) {
+    for (int o = (int)m_backoffs.size() - 1; o >= 2; o--) {
       RemoveDefaultValues(m_backoffs[o]->m);
     }
   }
diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index efcf327..76e5d7a 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -697,7 +697,7 @@ void MultiOrderCounts_1nzer_fp<KT, CT>::clear_lden(const int o) {
 template <typename KT, typename CT, typename BOT>
 void *MultiOrderCounts_Generic_BOT<KT, CT, BOT>::StepBackoffsOrder(
     const bool init, const int order, KT *indices, BOT *value) {
-  if (order >= MultiOrderCounts<KT, CT>::m_counts.size())
+  if (order >= m_backoffs.size())
     return (NULL);
   assert(order >= 2);
   return (m_backoffs[order]->stepthrough(init, indices, value));
-- 
2.43.0


From 7d77530f13a6388bb9005507e75889f7fc871705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 12/27] fix: ArpaReader rejects section headers and count lists
 with missing parts

---
 src/ArpaReader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ArpaReader.cc b/src/ArpaReader.cc
index 1493ae5..b26fabb 100644
--- a/src/ArpaReader.cc
+++ b/src/ArpaReader.cc
@@ -84,6 +84,10 @@ void ArpaReader::read_header(FILE *file, bool &interpolated,
       read_error();
     order++;
   }
+
+  // There must be something to read
+  if (counts.empty())
+    read_error();
 }
 
 bool ArpaReader::next_gram(FILE *file, std::string &line,
@@ -135,7 +139,8 @@ bool ArpaReader::next_gram(FILE *file, std::string &line,
     str::clean(&line, " \t");
     str::split(&line, "-", false, &m_vec);
 
-    if (atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
+    if (m_vec.size() != 2 ||
+        atoi(m_vec[0].substr(1).c_str()) != m_read_order ||
         m_vec[1] != "grams:") {
       fprintf(stderr,
               "ArpaReader::next_gram(): "
-- 
2.43.0


From c1046ece0b05a2d45919932400696e12063c0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 13/27] fix: a wrong number of arguments is not a successful
 exit

---
 src/conf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.cc b/src/conf.cc
index 5a98143..790b480 100644
--- a/src/conf.cc
+++ b/src/conf.cc
@@ -226,7 +226,7 @@ void Config::parse(int argc, char *argv[], int num_args, bool override) {
     fprintf(stderr, "Got %d arguments, need %d.\n", (int)arguments.size(),
             num_requested_arguments);
     fputs(help_string().c_str(), stderr);
-    exit(0);
+    exit(1);
   }
 
   check_required();
-- 
2.43.0


From 855ff6cebd75e13f0b13014f0d2f06ded860b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 14/27] fix: failing to write an output stream is not silent

A full disk left a truncated model behind a successful exit.
---
 src/io.cc | 26 +++++++++++++++++++++-----
 src/io.hh |  4 ++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/io.cc b/src/io.cc
index 283797d..4a0a653 100644
--- a/src/io.cc
+++ b/src/io.cc
@@ -3,11 +3,11 @@
 namespace io {
 bool Stream::verbose = false;
 
-Stream::Stream() : file(NULL), is_pipe(false), close_allowed(true) {}
+Stream::Stream() : file(NULL), is_pipe(false), is_output(false), close_allowed(true) {}
 
 Stream::Stream(std::string file_name, std::string mode, SeekType seek_type,
                bool allow_close)
-    : file(NULL), is_pipe(false), close_allowed(true) {
+    : file(NULL), is_pipe(false), is_output(false), close_allowed(true) {
   open(file_name, mode, seek_type, allow_close);
 }
 
@@ -23,6 +23,7 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
   }
 
   close_allowed = allow_close;
+  is_output = mode.length() > 0 && mode[0] != 'r';
 
   if (verbose) {
     if (mode == "r")
@@ -166,18 +167,33 @@ void Stream::open(std::string file_name, std::string mode, SeekType seek_type,
 }
 
 void Stream::close() {
-  if (file == NULL || !close_allowed)
+  if (file == NULL)
     return;
+  bool failed = false;
+  if (is_output)
+    failed = fflush(file) != 0 || ferror(file);
+  if (!close_allowed) {
+    if (failed)
+      write_error();
+    return;
+  }
   if (is_pipe)
 #ifdef _WIN32
     throw OpenError();
 #else
-    pclose(file);
+    failed = (pclose(file) != 0 && is_output) || failed;
 #endif
   else
-    fclose(file);
+    failed = (fclose(file) != 0 && is_output) || failed;
   is_pipe = false;
   file = NULL;
+  if (failed)
+    write_error();
+}
+
+void Stream::write_error() {
+  fprintf(stderr, "Stream::close(): could not write the output. Exit.\n");
+  exit(1);
 }
 
 } // namespace io
diff --git a/src/io.hh b/src/io.hh
index 4403231..091bce3 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -50,6 +50,7 @@ struct Stream {
 
   FILE *file;   //!< The handle for the file or pipe
   bool is_pipe; //!< Is the opened file pipe that must be closed with pclose
+  bool is_output; //!< Is the stream written, must completion be checked
   bool close_allowed; //!< Should the close() function close the file
 
   static bool verbose; // Print stuff
@@ -59,6 +60,9 @@ struct Stream {
   };
 
 private:
+  /** Report that the output could not be written and exit. */
+  static void write_error();
+
   // Do not allow copying streams!
   Stream(const Stream &stream) { abort(); }
   const Stream &operator=(const Stream &stream) {
-- 
2.43.0


From 12a5a14f96a47b1dcc6f653f362c79ed76f219b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 15/27] fix: HashGram can read a model with an order of zero
 n-grams

The tables of an order were created with its first n-gram and used without.
---
 src/HashGram_tmpl.hh | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index cc697a8..c0a671e 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -24,18 +24,17 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
   probs.resize(m_order + 1);
   backoffs.resize(m_order + 1);
 
+  for (int order = 1; order <= m_order; order++) {
+    probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
+                                            MINLOGPROB);
+    backoffs[order] =
+        new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
+  }
+
   std::vector<int> tmp_gram(1);
   float log_prob, back_off;
-  int prev_order = 0;
   while (areader.next_gram(file, line, tmp_gram, log_prob, back_off)) {
     int order = tmp_gram.size();
-    if (order > prev_order) {
-      probs[order] = new sikMatrix<KT, float>(order, areader.counts[order - 1],
-                                              MINLOGPROB);
-      backoffs[order] =
-          new sikMatrix<KT, float>(order, areader.counts[order - 1], 0.0);
-      prev_order = order;
-    }
     // Inefficiency due to abstracting ArpaReader out
     std::vector<KT> gram(tmp_gram.begin(), tmp_gram.end());
     if (log_prob > MINLOGPROB) {
-- 
2.43.0


From 810d54e42b257fb7132ab03b3cfe6c7579ae6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 16/27] fix: fake_interpolate does not remove entries from the
 matrix it steps through

---
 src/HashGram_tmpl.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index c0a671e..1888804 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -476,12 +476,14 @@ void HashGram_t<KT>::fake_interpolate(HashGram_t<KT> &other, float lambda) {
   for (int o = max_order; o >= 1; o--) {
     std::vector<KT> gram(o);
     float gram_logprob;
+    float *value;
     probs[o]->stepthrough(true, &gram[0], &gram_logprob);
-    while (probs[o]->stepthrough(false, &gram[0], &gram_logprob)) {
-      probs[o]->setvalue(
-          &gram[0],
-          safelogprob(lambda * pow(10, gram_logprob) +
-                      (1 - lambda) * pow(10, other.log_prob_bo(gram))));
+    while ((value = (float *)probs[o]->stepthrough(false, &gram[0],
+                                                   &gram_logprob))) {
+      // setvalue() removes an entry with the default value, which would break
+      // stepthrough()
+      *value = safelogprob(lambda * pow(10, gram_logprob) +
+                           (1 - lambda) * pow(10, other.log_prob_bo(gram)));
     }
 
     if (o <= other.order()) {
-- 
2.43.0


From 4bc2db8b0cca0e7afcb4be36b77f053195c0fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 17/27] fix: prune_model steps through the order it initialised

Order 0 has no matrix.
---
 src/InterKn_tmpl.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 6b1142a..5dc1273 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -376,7 +376,7 @@ void InterKn_t<KT, CT>::prune_model_fbase(float treshold, bool recorrect_kn,
     fprintf(stderr, "Pruning order %d\n", o);
     v.resize(o);
     moc->StepCountsOrder(true, o, &v[0], &num);
-    while (moc->StepCountsOrder(false, 0, &v[0], &num)) {
+    while (moc->StepCountsOrder(false, o, &v[0], &num)) {
       if (num == 0) {
         // fprintf(stderr,"SKIPPING "); print_indices(stderr,v);
         // fprintf(stderr,"\n");
@@ -448,7 +448,7 @@ void InterKn_t<KT, CT>::prune_model_fbase(float treshold, bool recorrect_kn,
     // Clean up for realcounts
     if (real_counts) {
       moc->StepCountsOrder(true, o, &v[0], &num);
-      while (moc->StepCountsOrder(false, 0, &v[0], &num)) {
+      while (moc->StepCountsOrder(false, o, &v[0], &num)) {
         if (num == 0)
           moc->DeleteCurrentST(o);
       }
-- 
2.43.0


From cbce539bcba4e80052b2237b9c960d02c3e3eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 18/27] fix: bo_3c_fp adds and subtracts field by field

---
 src/MultiOrderCounts.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MultiOrderCounts.hh b/src/MultiOrderCounts.hh
index 85db03e..1bc77d7 100644
--- a/src/MultiOrderCounts.hh
+++ b/src/MultiOrderCounts.hh
@@ -92,8 +92,8 @@ template <typename CT> struct bo_3c_fp {
     nzer[2] += other.nzer[2];
     prune_den += other.prune_den;
     prune_den_left[0] += other.prune_den_left[0];
-    prune_den_left[0] += other.prune_den_left[1];
-    prune_den_left[0] += other.prune_den_left[2];
+    prune_den_left[1] += other.prune_den_left[1];
+    prune_den_left[2] += other.prune_den_left[2];
     prune_den_den[0] += other.prune_den_den[0];
     prune_den_den[1] += other.prune_den_den[1];
     prune_den_den[2] += other.prune_den_den[2];
@@ -104,10 +104,10 @@ template <typename CT> struct bo_3c_fp {
     nzer[0] -= other.nzer[0];
     nzer[1] -= other.nzer[1];
     nzer[2] -= other.nzer[2];
-    prune_den += other.prune_den;
+    prune_den -= other.prune_den;
     prune_den_left[0] -= other.prune_den_left[0];
-    prune_den_left[0] -= other.prune_den_left[1];
-    prune_den_left[0] -= other.prune_den_left[2];
+    prune_den_left[1] -= other.prune_den_left[1];
+    prune_den_left[2] -= other.prune_den_left[2];
     prune_den_den[0] -= other.prune_den_den[0];
     prune_den_den[1] -= other.prune_den_den[1];
     prune_den_den[2] -= other.prune_den_den[2];
-- 
2.43.0


From a90fc8b591fa72f8c097551ac3f617d5af9a9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 19/27] fix: no read past the end of a text shorter than the
 order

---
 src/Storage_tmpl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Storage_tmpl.hh b/src/Storage_tmpl.hh
index 96e3fad..0d3cb29 100644
--- a/src/Storage_tmpl.hh
+++ b/src/Storage_tmpl.hh
@@ -30,6 +30,8 @@ void Storage_t<T, ICT>::initialize_fast_search_lists(
   size_t i;
 
   if (this->clear_lm_history == -1) {
+    if ((long)this->size() < order - 1)
+      return;
     for (i = 0; i < order - 1; i++)
       v.push_back(this->datavec[i]);
     v.push_back(0); // Make the vector right size
-- 
2.43.0


From af5c91a453053ac55235998443468b4778a9440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 20/27] fix: perplexity --interpolate --unk keeps the
 vocabulary

Changing the OOV symbol of the loaded models discarded all of their words.
---
 app/perplexity.cc    | 2 +-
 src/InterTreeGram.cc | 7 ++++++-
 src/InterTreeGram.hh | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/app/perplexity.cc b/app/perplexity.cc
index 9273c70..3c1060c 100644
--- a/app/perplexity.cc
+++ b/app/perplexity.cc
@@ -133,7 +133,7 @@ int main(int argc, char *argv[]) {
       }
       coeffs.push_back(1.0 - coeff);
       coeffs.push_back(coeff);
-      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs));
+      std::shared_ptr<NGram> itg(new InterTreeGram(lm_names, coeffs, unk_symbol));
       lm.reset(new Perplexity(itg, ccs_name, wb_name, mb_name, unk_symbol,
                               skip_unks));
     }
diff --git a/src/InterTreeGram.cc b/src/InterTreeGram.cc
index 2a12349..00d2663 100644
--- a/src/InterTreeGram.cc
+++ b/src/InterTreeGram.cc
@@ -4,7 +4,8 @@
 #include "io.hh"
 
 InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
-                             std::vector<float> coeffs) {
+                             std::vector<float> coeffs,
+                             const std::string &unk_symbol) {
   if (lm_names.size() != coeffs.size()) {
     fprintf(stderr, "InterTreeGram::InterTreeGram: There must be as many "
                     "interpolation coeffs as there are LMs. Exit.\n");
@@ -26,6 +27,10 @@ InterTreeGram::InterTreeGram(std::vector<std::string> lm_names,
   }
   m_coeffs = coeffs;
 
+  // The OOV symbol cannot be changed without discarding the vocabulary
+  if (unk_symbol.length())
+    set_oov(unk_symbol);
+
   // Combine vocab from all models
   for (std::vector<std::string>::iterator it = lm_names.begin();
        it != lm_names.end(); it++) {
diff --git a/src/InterTreeGram.hh b/src/InterTreeGram.hh
index c6f4311..6a269fa 100644
--- a/src/InterTreeGram.hh
+++ b/src/InterTreeGram.hh
@@ -13,7 +13,8 @@ public:
 
 class InterTreeGram : public NGram {
 public:
-  InterTreeGram(std::vector<std::string>, std::vector<float>);
+  InterTreeGram(std::vector<std::string>, std::vector<float>,
+                const std::string &unk_symbol = "");
   ~InterTreeGram();
 
   float log_prob(const Gram &gram);
-- 
2.43.0


From d45c1c2d0b93850153bdb1ca793d81ba19a6e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 21/27] fix: a tree model answers for words it has no unigram
 of as for unknown words

---
 src/TreeGram.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index c602fab..915109e 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -152,8 +152,9 @@ int TreeGram::find_child(int word, int node_index) {
     exit(1);
   }
 
+  // Words added to the vocabulary after reading the model have no unigram
   if (node_index < 0)
-    return word;
+    return word < m_order_count[0] ? word : 0;
 
   // Note that (node_index + 1) is used later, so the last node_index
   // must not pass.  Actually, we could return -1 for all largest
-- 
2.43.0


From 36694b2ef5eb0d38930b9a6158f197db930223d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 22/27] fix: set_alpha after set_interpolation weights the
 models as given

---
 src/PerplexityFuncs.cc | 2 ++
 src/PerplexityFuncs.hh | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PerplexityFuncs.cc b/src/PerplexityFuncs.cc
index 2223725..8cf4a09 100644
--- a/src/PerplexityFuncs.cc
+++ b/src/PerplexityFuncs.cc
@@ -82,6 +82,7 @@ void Perplexity::init_variables() {
   m_token_perplexity = 0.0;
   m_lm2.reset();
   m_alpha = 0.5;
+  m_models_exchanged = false;
   m_init_hist = m_cur_init_hist = 0;
   m_num_sent_ends = 0;
   m_cw_lpsum = 0.0;
@@ -437,6 +438,7 @@ void Perplexity::set_interpolation(std::string lm_name) {
     m_lm2 = m_lm;
     m_lm = tmp_lm;
     m_alpha = 1 - m_alpha;
+    m_models_exchanged = !m_models_exchanged;
   }
   reset_hitrates(); // The order of the main model may have changed
 
diff --git a/src/PerplexityFuncs.hh b/src/PerplexityFuncs.hh
index d1f4544..3bc8753 100644
--- a/src/PerplexityFuncs.hh
+++ b/src/PerplexityFuncs.hh
@@ -53,7 +53,7 @@ public:
   // For interpolation
   inline void set_alpha(float a) {
     assert(a >= 0 && a <= 1.0);
-    m_alpha = a;
+    m_alpha = m_models_exchanged ? 1 - a : a;
   }
   // The interpolated language models must have the same vocabulary !
   void set_interpolation(std::string lm_name);
@@ -108,7 +108,8 @@ private:
   double m_token_perplexity;
 
   // For interpolations
-  float m_alpha;
+  float m_alpha; // Weight of m_lm
+  bool m_models_exchanged; // set_interpolation() made the given model m_lm2
 
   // For getting unknown words correct with subword models
   bool m_unkflag;
-- 
2.43.0


From 8a20b02efb1eb43d1d62cca8e11df9467874d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 23/27] fix: refuse binary models whose counts, words or links
 lie outside their tables

---
 src/TreeGram.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/TreeGram.cc b/src/TreeGram.cc
index 915109e..e1b8712 100644
--- a/src/TreeGram.cc
+++ b/src/TreeGram.cc
@@ -444,7 +444,8 @@ void TreeGram::read(FILE *file, bool binary) {
 
   // Read the order and the number of nodes
   int number_of_nodes;
-  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2) {
+  if (fscanf(file, "%d %d\n", &m_order, &number_of_nodes) != 2 || m_order < 1 ||
+      number_of_nodes < 1) {
     throw ReadError();
   }
 
@@ -452,7 +453,8 @@ void TreeGram::read(FILE *file, bool binary) {
   int sum = 0;
   m_order_count.resize(m_order);
   for (int i = 0; i < m_order; i++) {
-    if (fscanf(file, "%d\n", &m_order_count[i]) != 1) {
+    if (fscanf(file, "%d\n", &m_order_count[i]) != 1 || m_order_count[i] < 0 ||
+        m_order_count[i] > number_of_nodes - sum) {
       throw ReadError();
     }
     sum += m_order_count[i];
@@ -482,6 +484,18 @@ void TreeGram::read(FILE *file, bool binary) {
 
   if (Endian::big)
     flip_endian();
+
+  // The words and the links must stay inside the vocabulary and the nodes
+  for (int i = 0; i < number_of_nodes; i++) {
+    const int word = m_nodes[i].word;
+    const int child = m_nodes[i].child_index;
+    if (word < (i < sum ? 0 : -1) || word >= num_words() ||
+        (child != -1 && (child <= i || child > number_of_nodes ||
+                         i == number_of_nodes - 1))) {
+      fprintf(stderr, "TreeGram::read(): invalid node %d\n", i);
+      throw ReadError();
+    }
+  }
 }
 
 void TreeGram::flip_endian() {
-- 
2.43.0


From ecc83a7006907568b948e1b900d879f21502f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 24/27] fix: counts2kn -Z lost the vocabulary of the counts

---
 src/InterKn_tmpl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InterKn_tmpl.hh b/src/InterKn_tmpl.hh
index 5dc1273..2496063 100644
--- a/src/InterKn_tmpl.hh
+++ b/src/InterKn_tmpl.hh
@@ -690,6 +690,7 @@ void InterKn_t<KT, CT>::constructor_helper(
       fprintf(stderr, "Reading counts for the highest order\n");
       NgramCounts_t<KT, CT> *ng = new NgramCounts_t<KT, CT>(order, 0, hashsize);
       ng->read(datain.file, vocabin.file);
+      ng->vocab->copy_vocab_to(this->vocab);
       this->moc->UseAsCounts(ng->counts);
     } else {
       /* The counts include all orders and have already been KN-discounted */
-- 
2.43.0


From 9a10f26eeb88c4d66b9839da697bc2f445f84173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 25/27] fix: incomplete lines and unknown indices in count
 files were taken as data

---
 src/NgramCounts_tmpl.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/NgramCounts_tmpl.hh b/src/NgramCounts_tmpl.hh
index abd1b10..021cfa1 100644
--- a/src/NgramCounts_tmpl.hh
+++ b/src/NgramCounts_tmpl.hh
@@ -153,17 +153,15 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
     // fprintf(stderr,"Looking at line %s",sbuf);
     cptr = strtok(sbuf, " ");
     for (int i = 0; i < m_ds.size(); i++) {
-      if (!cptr) {
-        fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+      if (!cptr)
         break;
-      }
       if (vocabfile) {
         // fprintf(stderr,"Adding cptr %s :",cptr);
         // fprintf(stderr,"%s\n", tmp_vocab.word(atoi(cptr)).c_str());
         int tmp = atoi(cptr);
-        if (tmp >= vocab->num_words()) {
+        if (tmp < 0 || tmp >= vocab->num_words()) {
           fprintf(stderr, "Errors in input, word index %d unknown\n", tmp);
-          continue;
+          exit(-1);
         }
         m_ds[i] = tmp;
       } else {
@@ -172,6 +170,10 @@ void NgramCounts_t<K, T>::read(FILE *countsfile, FILE *vocabfile) {
       }
       cptr = strtok(NULL, " ");
     }
+    if (!cptr) { // Words or the count are missing
+      fprintf(stderr, "Problem with input, skip entry %s\n", sbuf);
+      continue;
+    }
     counts->increment(&m_ds[0], ascii2num(cptr, (T *)NULL));
   }
 }
-- 
2.43.0


From b10598cb38bfe072a13e8ff28be9d6e0608cb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 26/27] fix: word numbers too large for the key type were
 stored for other words

---
 src/MultiOrderCounts_tmpl.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MultiOrderCounts_tmpl.hh b/src/MultiOrderCounts_tmpl.hh
index 76e5d7a..8acf10d 100644
--- a/src/MultiOrderCounts_tmpl.hh
+++ b/src/MultiOrderCounts_tmpl.hh
@@ -354,7 +354,10 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
     // fprintf(stderr,"ORDER %d\n", order);
     if (!read_backoffs) {
       for (int i = 1; i <= order; i++) {
-        v[i - 1] = str::str2long(&vec[i], &ok);
+        const long idx = str::str2long(&vec[i], &ok);
+        v[i - 1] = idx;
+        if (idx < 0 || v[i - 1] != idx)
+          ok = false;
         // fprintf(stderr,"Putting %s=%d, %d\n", vec[i].c_str(), v[i-1], ok);
       }
       this->read_num(&val, &vec[order + 2], &ok);
@@ -370,7 +373,10 @@ void MultiOrderCounts_Generic_BOT<KT, CT, BOT>::ReadCounts(FILE *in) {
       continue;
     }
     for (int i = 1; i < order; i++) {
-      v[i - 1] = str::str2long(&vec[i], &ok);
+      const long idx = str::str2long(&vec[i], &ok);
+      v[i - 1] = idx;
+      if (idx < 0 || v[i - 1] != idx)
+        ok = false;
     }
     ReadCounts_BOhelper(&bo_val, &vec[order + 1], &ok);
     if (!ok) {
-- 
2.43.0


From 11f22340433c6f3241705cc669f51ccee3e65527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 27/27] fix: positive back-off weights were dropped when ARPA
 models are read or written

---
 src/HashGram_tmpl.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/HashGram_tmpl.hh b/src/HashGram_tmpl.hh
index 1888804..7869d31 100644
--- a/src/HashGram_tmpl.hh
+++ b/src/HashGram_tmpl.hh
@@ -40,7 +40,7 @@ template <typename KT> void HashGram_t<KT>::read_real(FILE *file) {
     if (log_prob > MINLOGPROB) {
       probs[order]->setvalue(&gram[0], log_prob);
     }
-    if (back_off < 0) {
+    if (back_off != 0) {
       backoffs[order]->setvalue(&gram[0], back_off);
     }
   }
@@ -57,7 +57,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     float logprob, bo;
     backoffs[o]->stepthrough(true, &gram[0], &logprob);
     while (backoffs[o]->stepthrough(false, &gram[0], &bo)) {
-      if (bo >= 0.0)
+      if (bo == 0.0)
         continue;
       FindEntry(probs[o]->m, (byte *)(&gram[0]), 1);
     }
@@ -69,7 +69,7 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (m_print_zerograms || logprob > MINLOGPROB || bo < 0)
+      if (m_print_zerograms || logprob > MINLOGPROB || bo != 0)
         num_grams[o]++;
     }
   }
@@ -89,13 +89,13 @@ void HashGram_t<KT>::write_real(FILE *out, std::string field_separator) {
     probs[o]->stepthrough(true, &gram[0], &logprob);
     while (probs[o]->stepthrough(false, &gram[0], &logprob)) {
       bo = backoffs[o]->getvalue(&gram[0]);
-      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo >= 0))
+      if (!m_print_zerograms && (logprob <= MINLOGPROB && bo == 0))
         continue;
       fprintf(out, "%.4f", logprob);
       fprintf(out, "%s%s", field_separator.c_str(), word(gram[0]).c_str());
       for (int i = 1; i < o; i++)
         fprintf(out, " %s", word(gram[i]).c_str());
-      if (bo < 0)
+      if (bo != 0)
         fprintf(out, "%s%.4f", field_separator.c_str(), bo);
       fprintf(out, "\n");
     }
-- 
2.43.0

