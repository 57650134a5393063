From 763acd4ea6860a404037aa14f4a163cc8c6cfbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:52 +0000
Subject: [PATCH 1/8] fix: do not fail on a leading vowel at the end of a word

A word that ends in a leading vowel other than SARA E made the parser look
for an initial consonant past the end of the word and stop on an assertion.
Give up on such a word instead, as is already done for SARA E.
---
 parser/parser.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..f021455 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1500,6 +1500,11 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
 
     auto ldv = u16word.at (state.pos);
 
+    // a leading vowel alone is not a syllable
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
                                                   state.stopPos,
                                                   state.isLinked);
-- 
2.43.0


From 55bcdac4be8d4e3b4f5a0682c365994065bb97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:45 +0000
Subject: [PATCH 2/8] fix: write an empty JSON array when there is nothing to
 list

Writing an empty list of pronunciations dereferenced its end, and
thpronun -j crashed on an empty word.
---
 output/output-json.cxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..ab8ceeb 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -11,10 +11,12 @@ JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
-    while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[";
+    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
+        if (i != sylStr.begin()) {
+            outStr += ",";
+        }
+        outStr += "\"" + mSylOutput->output (*i) + "\"";
     }
     outStr += "]";
 
@@ -27,10 +29,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
-- 
2.43.0


From 08d873545d7f361b9095a76eb257a460b919cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:57 +0000
Subject: [PATCH 3/8] fix: escape special characters in JSON strings

Foreign text is passed through as it is, so a quote, a backslash or a
control character in the input made the JSON output invalid.
---
 output/output-json.cxx | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index ab8ceeb..9451e77 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -6,6 +6,28 @@
 
 using namespace std;
 
+static string
+EscapeJson (const string& str)
+{
+    static const char hexDigits[] = "0123456789abcdef";
+    string outStr;
+
+    for (char c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (0 <= c && c < 0x20) {
+            outStr += "\\u00";
+            outStr += hexDigits[c / 16];
+            outStr += hexDigits[c % 16];
+        } else {
+            outStr += c;
+        }
+    }
+
+    return outStr;
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -16,7 +38,7 @@ JsonOutput::output (const SylString& sylStr) const
         if (i != sylStr.begin()) {
             outStr += ",";
         }
-        outStr += "\"" + mSylOutput->output (*i) + "\"";
+        outStr += "\"" + EscapeJson (mSylOutput->output (*i)) + "\"";
     }
     outStr += "]";
 
-- 
2.43.0


From 8d7f1c4c2460a70321ed6a3ce802887cf1fd8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:57 +0000
Subject: [PATCH 4/8] fix: put hyphens after a blank in romanized output again

The flag for the beginning of a word was set at a blank but never
cleared, so hyphens were missing in the rest of the text.  An empty
list of syllables or one that starts with a blank is handled, too.
---
 output/output-roman.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..a24b084 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -13,13 +13,9 @@ RomanOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = mRomanSylOutput.output (*i);
-    if (mIsCapitalize) {
-        outStr[0] = toupper (outStr[0]);
-    }
-    bool isBegin = false;
-    for (auto prev = i++; i != sylStr.end(); prev = i++) {
+    bool isBegin = true;
+    auto prev = sylStr.begin();
+    for (auto i = prev; i != sylStr.end(); prev = i++) {
         if (*i == Syl::Blank) {
             outStr += " ";
             isBegin = true;
@@ -37,6 +33,10 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
+    }
+    if (mIsCapitalize && !outStr.empty()) {
+        outStr[0] = toupper (outStr[0]);
     }
 
     return outStr;
-- 
2.43.0


From 70abb5940ff724474e7e64f7e5cee31df14a5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:05 +0000
Subject: [PATCH 5/8] fix: do not use a dictionary that is only partly loaded

A damaged dictionary file was reported as not loaded, but its lookup
table stayed in use without the data it refers to.  A negative data
size is rejected, too, instead of ending the program.
---
 dict/dict.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..a565251 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,7 +27,7 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize <= 0)
         return nullptr;
 
     char* data = new char[bankSize];
@@ -50,9 +50,14 @@ Dict::open (const char* dictPath)
 
     mTrie = trie_fread (dictFile);
     mData = ReadDataBank (dictFile);
-
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        close();
+        return false;
+    }
+
+    return true;
 }
 
 void
-- 
2.43.0


From 28ee0c7e2f00aa9ba06e3631d100949cb59bd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:21 +0000
Subject: [PATCH 6/8] fix: report failure when the dictionary cannot be built
 completely

gen-lookup-dict stopped at a malformed line and ignored write errors,
but still returned success with an incomplete dictionary.
---
 dict/gen-lookup-dict.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..2e52aa3 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -223,6 +223,8 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     return EXIT_SUCCESS;
 
 eof:
+    free (line);
+    return ferror (input) ? EXIT_FAILURE : EOF;
 err:
     free (line);
     return EXIT_FAILURE;
@@ -235,9 +237,10 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int status;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((status = ReadInput (word, N_ELM (word),
+                                data, N_ELM (data), input)) == EXIT_SUCCESS)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -261,8 +264,16 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (status != EOF) {
+        goto err;
+    }
+
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS)
+    {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
@@ -309,7 +320,10 @@ main (int argc, const char *argv[])
         goto err_output_opened;
     }
 
-    fclose (output);
+    if (fclose (output) != 0) {
+        fprintf (stderr, "Fail to write output file \"%s\".\n", argv[2]);
+        goto err_input_opened;
+    }
     fclose (input);
 
     return EXIT_SUCCESS;
-- 
2.43.0


From fdd0ef919e96dfcac72e683d2ec46d9b2e72db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:21 +0000
Subject: [PATCH 7/8] fix: accept --help at any place on the command line

---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From 21a22e999e93346ac2a2f5d049ae02622256fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:32 +0000
Subject: [PATCH 8/8] fix: go on with the next word after invalid UTF-8 text

An invalid byte in one word ended the whole run by an uncaught
exception.
---
 thpronun/thpronun.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index b03d58b..b9ffe9d 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -24,9 +25,13 @@ DoParse (const Parser& parser, string word,
          const list<unique_ptr<IOutput>>& stringOutputs)
 {
     cout << word << ":" << endl;
-    auto pronDAG = parser.parseWord (word);
-    for (const auto& strOut : stringOutputs) {
-        cout << strOut->output (pronDAG) << endl;;
+    try {
+        auto pronDAG = parser.parseWord (word);
+        for (const auto& strOut : stringOutputs) {
+            cout << strOut->output (pronDAG) << endl;;
+        }
+    } catch (const range_error&) {
+        cerr << "Invalid UTF-8 text '" << word << "'" << endl;
     }
 }
 
-- 
2.43.0

