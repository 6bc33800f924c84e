From 846925a51073d46b102022289f69a4b021316b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 01/18] fix: report a lexicon or grammar that does not load as
 an error instead of crashing

CreateStd passed a NULL pointer for the error message, which the loader and
CreateStd itself then dereferenced, released the lexicon twice when the grammar
failed, and called SPI_finish without SPI_connect.
---
 src/std_pg_hash.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..63bd810 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -581,14 +581,25 @@ GetStdUsingFCInfo(FunctionCallInfo fcinfo, char *lexicon, char *grammar)
 }
 
 
+/* raise an ERROR with the message of the loader, which is released first */
+static void
+LoadError(const char *what, char *err_msg)
+{
+    char buf[1024];
+
+    snprintf(buf, sizeof(buf), "%s", err_msg ? err_msg : "out of memory");
+    free(err_msg);
+    elog(ERROR, "CreateStd: failed to load %s (%s)", what, buf);
+}
+
+
 static STANDARDIZER *
 CreateStd(char *lexicon, char *grammar)
 {
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
-    char             *pmsg;
+    char             *err_msg = NULL;
 
     DBG("Enter: CreateStd");
 
@@ -599,27 +610,20 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
-        elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
+        LoadError("Lexicon", err_msg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
         std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
-        elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
+        LoadError("Grammar", err_msg);
     }
     std->gmr_obj = gmr;
 
-- 
2.43.0


From 6ee8a0ce0d0c15a19c91aa4f1b239eaaebb3befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 02/18] fix: release the lexicon object when its text does not
 load

---
 src/as_wrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 622798b..d1e31b8 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -15,6 +15,7 @@
 #include <exception>
 #include <stdexcept>
 #include <iostream>
+#include <memory>
 #include <string>
 #include <vector>
 #include <cstdlib>
@@ -562,7 +563,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
     try {
         std::string s( lexicon_in );
         std::istringstream iss( s );
-        Lexicon* lexicon = new Lexicon;
+        std::unique_ptr<Lexicon> lexicon( new Lexicon );
         try {
             boost::archive::text_iarchive ia(iss);
             ia >> *lexicon;
@@ -581,7 +582,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
             lexicon->name( "query-lex" );
             lexicon->initialize( iss );
         }
-        return static_cast<void*>(lexicon);
+        return static_cast<void*>(lexicon.release());
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From 652d79152b01cfd558a3eacd03d586b688e2438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 03/18] fix: as_standardize, as_parse and as_match report
 library errors

The error message was dropped (and leaked), so that a lexicon or grammar that
does not load, or any other failure, looked like an address without a match.
---
 src/address_standardizer.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 32b0ba7..35bcbf2 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -50,6 +50,17 @@ PGDLLEXPORT Datum as_match(PG_FUNCTION_ARGS);
 void stdaddr_free(STDADDR *stdaddr);
 static char *text2char(text *in);
 
+/* raise an ERROR with the message of the library, which is released first */
+static void library_error(const char *func, char *err_msg)
+{
+    char buf[1024];
+
+    snprintf(buf, sizeof(buf), "%s", err_msg ? err_msg : "out of memory");
+    free(err_msg);
+    elog(ERROR, "%s() failed: %s", func, buf);
+}
+
+
 static char *text2char(text *in)
 {
     char *out = palloc(VARSIZE(in));
@@ -122,7 +133,7 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
 
     cstr = serialize_lexicon( lexicon, &err_msg );
     if ( err_msg != NULL )
-        elog(ERROR, "std_standardize threw an error: %s", err_msg);
+        library_error("as_compile_lexicon", err_msg);
 
     if (cstr) {
         pstr = pstrdup(cstr);
@@ -195,7 +206,7 @@ Datum as_standardize(PG_FUNCTION_ARGS)
     HeapTuple            tuple;
     int                  k;
     STANDARDIZER        *std;
-    char                *err_msg; 
+    char                *err_msg = NULL;
 
     DBG("Start as_standardize");
 
@@ -237,7 +248,7 @@ Datum as_standardize(PG_FUNCTION_ARGS)
     DBG("back from std_standardize");
 
     if ( err_msg != NULL )
-        DBG("std_standardize threw an error: %s", err_msg);
+        library_error("as_standardize", err_msg);
 
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
@@ -321,7 +332,7 @@ Datum as_parse(PG_FUNCTION_ARGS)
     if (SRF_IS_FIRSTCALL()) {
         MemoryContext   oldcontext;
         int nrec = 0;
-        char *err_msg; 
+        char *err_msg = NULL;
 
         int ret = -1;
         if (ret == -1) {}; // to avoid warning set but not used
@@ -354,8 +365,8 @@ Datum as_parse(PG_FUNCTION_ARGS)
 #endif
         DBG("back from std_parse_address, nrec=%d", nrec);
 
-        if ( err_msg != NULL )
-            DBG("std_parse_address threw an error: %s", err_msg);
+        if ( ! tokens )
+            library_error("as_parse", err_msg);
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -468,7 +479,7 @@ Datum as_match(PG_FUNCTION_ARGS)
     if (SRF_IS_FIRSTCALL()) {
         MemoryContext   oldcontext;
         int nrec = 0;
-        char *err_msg; 
+        char *err_msg = NULL;
 
         int ret = -1;
         if (ret == -1) {}; // to avoid warning set but not used
@@ -494,8 +505,8 @@ Datum as_match(PG_FUNCTION_ARGS)
         tokens = std_match_address(address, grammar, lexicon, locale, filter, &nrec, &err_msg);
         DBG("back from std_match_address");
 
-        if ( err_msg != NULL )
-            DBG("std_match_address threw an error: %s", err_msg);
+        if ( ! tokens )
+            library_error("as_match", err_msg);
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
-- 
2.43.0


From 561aa06f608a2fba7afeea6ed5d1931d7a3499a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 04/18] fix: as_parse and as_match do not leak their rows when
 a scan is abandoned

The rows stayed in malloc'ed memory until the scan was read to its end, so
LIMIT, closed cursors, rescans, cancels and errors lost them.  tokens_free
also lost the array of an address without tokens.
---
 src/address_standardizer.c | 78 +++++++++++++++++++++++++++++++++-----
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 35bcbf2..aeeb2a3 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -99,7 +99,7 @@ void tokens_free(TOKENS *tokens, int nrec)
 {
     int i;
 
-    if ( nrec < 1 || ! tokens ) return;
+    if ( ! tokens ) return;
     for ( i=0; i<nrec; ++i ) {
         if ( tokens[i].word ) free( tokens[i].word );
         if ( tokens[i].inclass ) free( tokens[i].inclass );
@@ -110,6 +110,72 @@ void tokens_free(TOKENS *tokens, int nrec)
 }
 
 
+static void mtokens_free(MTOKEN *tokens, int nrec)
+{
+    int i;
+
+    for ( i=0; i<nrec; ++i )
+        free( tokens[i].tokens );
+    free( tokens );
+}
+
+
+/*
+ * Copy the rows into the current memory context and release the originals,
+ * so that they go away with the scan, even if it is not read to its end.
+ */
+static TOKENS *tokens_to_context(TOKENS *tokens, int nrec)
+{
+    TOKENS *copy = NULL;
+    int i;
+
+    PG_TRY();
+    {
+        copy = (TOKENS *) palloc( sizeof(TOKENS) * nrec );
+        for ( i=0; i<nrec; ++i ) {
+            copy[i] = tokens[i];
+            copy[i].word = pstrdup( tokens[i].word );
+            copy[i].inclass = pstrdup( tokens[i].inclass );
+            copy[i].attached = pstrdup( tokens[i].attached );
+        }
+    }
+    PG_CATCH();
+    {
+        tokens_free( tokens, nrec );
+        PG_RE_THROW();
+    }
+    PG_END_TRY();
+
+    tokens_free( tokens, nrec );
+    return copy;
+}
+
+
+static MTOKEN *mtokens_to_context(MTOKEN *tokens, int nrec)
+{
+    MTOKEN *copy = NULL;
+    int i;
+
+    PG_TRY();
+    {
+        copy = (MTOKEN *) palloc( sizeof(MTOKEN) * nrec );
+        for ( i=0; i<nrec; ++i ) {
+            copy[i] = tokens[i];
+            copy[i].tokens = pstrdup( tokens[i].tokens );
+        }
+    }
+    PG_CATCH();
+    {
+        mtokens_free( tokens, nrec );
+        PG_RE_THROW();
+    }
+    PG_END_TRY();
+
+    mtokens_free( tokens, nrec );
+    return copy;
+}
+
+
 /*
  *  CREATE OR REPLACE FUNCTION as_compile_lexicon(
  *          lexicon text
@@ -367,6 +433,7 @@ Datum as_parse(PG_FUNCTION_ARGS)
 
         if ( ! tokens )
             library_error("as_parse", err_msg);
+        tokens = tokens_to_context(tokens, nrec);
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -432,8 +499,6 @@ Datum as_parse(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        tokens_free(tokens, (int) max_calls);
         SRF_RETURN_DONE(funcctx);
     }
 }
@@ -472,7 +537,6 @@ Datum as_match(PG_FUNCTION_ARGS)
     char                *locale;
     char                *filter;
     MTOKEN              *tokens;
-    int                  i;
 
     DBG("Start as_match");
 
@@ -507,6 +571,7 @@ Datum as_match(PG_FUNCTION_ARGS)
 
         if ( ! tokens )
             library_error("as_match", err_msg);
+        tokens = mtokens_to_context(tokens, nrec);
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -561,11 +626,6 @@ Datum as_match(PG_FUNCTION_ARGS)
     }
     else    // do when there is no more left
     {
-        DBG("Going to free tokens");
-        for (i=0; i<(int) max_calls; i++)
-            free(tokens[i].tokens);
-        free(tokens);
-
         SRF_RETURN_DONE(funcctx);
     }
 }
-- 
2.43.0


From 6387624b0711fec8367c7fe3fdab6c9c76459b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 05/18] fix: release the library's result when building the SQL
 result fails

---
 src/address_standardizer.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index aeeb2a3..23d1ad2 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -202,7 +202,16 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
         library_error("as_compile_lexicon", err_msg);
 
     if (cstr) {
-        pstr = pstrdup(cstr);
+        PG_TRY();
+        {
+            pstr = pstrdup(cstr);
+        }
+        PG_CATCH();
+        {
+            free(cstr);
+            PG_RE_THROW();
+        }
+        PG_END_TRY();
         free(cstr);
     }
     else
@@ -316,6 +325,9 @@ Datum as_standardize(PG_FUNCTION_ARGS)
     if ( err_msg != NULL )
         library_error("as_standardize", err_msg);
 
+    /* stdaddr is not in a memory context, release it if there is an ERROR */
+    PG_TRY();
+    {
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
         values[k] = NULL;
@@ -343,6 +355,13 @@ Datum as_standardize(PG_FUNCTION_ARGS)
 
     DBG("calling heap_form_tuple");
     tuple = BuildTupleFromCStrings(attinmeta, values);
+    }
+    PG_CATCH();
+    {
+        stdaddr_free(stdaddr);
+        PG_RE_THROW();
+    }
+    PG_END_TRY();
 
     /* make the tuple into a datum */
     DBG("calling HeapTupleGetDatum");
-- 
2.43.0


From fc16f9b34fea01314d5173c31fe0589af4e136f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 06/18] fix: a failed allocation while caching a standardizer
 loses neither the standardizer nor the cache

Do everything that can fail before the standardizer object exists, keep
the md5 strings in the memory context of the cache item, and delete that
context when the standardizer cannot be created.
---
 src/std_pg_hash.c | 143 ++++++++++++++++++++++++----------------------
 1 file changed, 75 insertions(+), 68 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 63bd810..6b056b6 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -106,6 +106,11 @@ static void AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char *g
 static StdPortalCache *GetStdPortalCache(FunctionCallInfo fcinfo);
 
 
+/* size of a md5 string, with its terminator */
+#define STD_MD5_SIZE 33
+
+static void TextMd5(char *text, char *md5);
+
 /* standardizer api functions */
 
 static STANDARDIZER *CreateStd(char *lexicon, char *grammar);
@@ -290,6 +295,19 @@ DeleteStdHashEntry(MemoryContext mcxt)
 }
 
 
+/* compute the md5 of text, that identifies it in the cache */
+static void
+TextMd5(char *text, char *md5)
+{
+    char *tmp = getMd5( text );
+
+    if (!tmp)
+        elog(ERROR, "TextMd5: could not compute the md5 of a lexicon or grammar");
+    snprintf(md5, STD_MD5_SIZE, "%s", tmp);
+    free( tmp );
+}
+
+
 /* public api */
 bool
 IsInStdCache(StdCache STDCache, char *lexicon, char *grammar) {
@@ -302,19 +320,13 @@ IsInStdPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
 {
     int i;
     bool ret = FALSE;
-    char *lex_md5;
-    char *gmr_md5;
+    char lex_md5[STD_MD5_SIZE];
+    char gmr_md5[STD_MD5_SIZE];
 
     DBG("Enter: IsInStdPortalCache");
 
-    lex_md5 = getMd5( lexicon );
-    DBG("lex_md5: %p", lex_md5);
-
-    gmr_md5 = getMd5( grammar );
-    DBG("gmr_md5: %p", gmr_md5);
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
-    DBG("gmr_md5: %p", gmr_md5);
+    TextMd5( lexicon, lex_md5 );
+    TextMd5( grammar, gmr_md5 );
 
     DBG("Looping through %d STD_CACHE_ITEMS", STD_CACHE_ITEMS);
     for (i=0; i<STD_CACHE_ITEMS; i++) {
@@ -329,11 +341,6 @@ IsInStdPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
     }
     DBG("End of loop, ret: %d", ret);
 
-    DBG("free( lex_md5 )");
-    free( lex_md5 );
-    DBG("free( lex_md5 )");
-    free( gmr_md5 );
-
     DBG("Leaving IsInStdPortalCache, ret: %d", ret);
     return ret;
 }
@@ -350,16 +357,14 @@ static STANDARDIZER *
 GetStdFromPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
 {
     int i;
-    char *lex_md5;
-    char *gmr_md5;
+    char lex_md5[STD_MD5_SIZE];
+    char gmr_md5[STD_MD5_SIZE];
     STANDARDIZER *ret = NULL;
 
     DBG("Enter: GetStdFromPortalCache");
 
-    lex_md5 = getMd5( lexicon );
-    gmr_md5 = getMd5( grammar );
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
+    TextMd5( lexicon, lex_md5 );
+    TextMd5( grammar, gmr_md5 );
 
     for (i=0; i<STD_CACHE_ITEMS; i++) {
         StdCacheItem *ci = &STDCache->StdCache[i];
@@ -370,9 +375,6 @@ GetStdFromPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
         }
     }
 
-    free( lex_md5 );
-    free( gmr_md5 );
-
     DBG("GetStdFromPortalCache returning: %p", (void*) ret);
 
     return ret;
@@ -395,9 +397,7 @@ DeleteNextSlotFromStdCache(StdPortalCache *STDCache)
         */
         old_context = MemoryContextSwitchTo(STDCache->StdCacheContext);
         MemoryContextDelete(ce->std_mcxt);
-        pfree(ce->lex_md5);
         ce->lex_md5 = NULL;
-        pfree(ce->gmr_md5);
         ce->gmr_md5 = NULL;
         ce->std    = NULL;
         MemoryContextSwitchTo(old_context);
@@ -421,32 +421,15 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
 #if PGSQL_VERSION >= 96
     MemoryContextCallback *callback;
 #endif
-    char * lex_md5;
-    char * gmr_md5;
+    char lex_md5[STD_MD5_SIZE];
+    char gmr_md5[STD_MD5_SIZE];
+    char *slot_lex_md5;
+    char *slot_gmr_md5;
 
     DBG("Enter: AddToStdPortalCache");
 
-    /* Create the std object */
-    std = CreateStd( lexicon, grammar );
-    if (!std)
-        elog(ERROR,
-            "AddToStdPortalCache: could not create address standardizer");
-
-    DBG("Calling getMd5( lexicon )");
-    lex_md5 = getMd5( lexicon );
-    DBG("Calling getMd5( grammar )");
-    gmr_md5 = getMd5( grammar );
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
-
-    /* if the NextSlot in the cache is used, then delete it */
-    if (STDCache->StdCache[STDCache->NextSlot].std != NULL) {
-#ifdef DEBUG
-        StdCacheItem *ce = &STDCache->StdCache[STDCache->NextSlot];
-        DBG("Removing item from STD cache ('%s', '%s') index %d", ce->lex_md5, ce->gmr_md5, STDCache->NextSlot);
-#endif
-        DeleteNextSlotFromStdCache(STDCache);
-    }
+    TextMd5( lexicon, lex_md5 );
+    TextMd5( grammar, gmr_md5 );
 
     DBG("Adding item to STD cache ('%s', '%s') index %d", lex_md5, gmr_md5, STDCache->NextSlot);
 
@@ -465,9 +448,21 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
     callback = MemoryContextAlloc(STDMemoryContext, sizeof(MemoryContextCallback));
     callback->arg = (void*)(STDMemoryContext);
     callback->func = StdCacheDelete;
-    MemoryContextRegisterResetCallback(STDMemoryContext, callback);
 #endif
 
+    /* change memory contexts so the pstrdup are allocated in the
+     * context of this cache item. They will be freed when the
+     * cache item is deleted.
+    */
+    DBG("AddToStdPortalCache: changing memory context to %p", STDMemoryContext);
+    old_context = MemoryContextSwitchTo(STDMemoryContext);
+    DBG("  old_context= %p", (void*) old_context);
+    slot_lex_md5 = pstrdup(lex_md5);
+    DBG("  pstrdup(lex_md5) completed");
+    slot_gmr_md5 = pstrdup(gmr_md5);
+    DBG("  pstrdup(gmr_md5) completed");
+    MemoryContextSwitchTo(old_context);
+    DBG(" changed memory context to %p", (void*) old_context);
 
     /* Create the backend hash if it doesn't already exist */
     DBG("Check if StdHash exists (%p)", (void*) StdHash);
@@ -476,28 +471,40 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
 
     /*
      * Add the MemoryContext to the backend hash so we can
-     * clean up upon portal shutdown
+     * clean up upon portal shutdown. Everything that can fail is
+     * done before there is a std object that could get lost.
      */
-    DBG("Adding standardizer obj (%p) to hash table with MemoryContext key (%p)", (void*) std, (void*) STDMemoryContext);
+    DBG("Adding hash table entry with MemoryContext key (%p)", (void*) STDMemoryContext);
 
-    AddStdHashEntry(STDMemoryContext, std);
+    AddStdHashEntry(STDMemoryContext, NULL);
+#if PGSQL_VERSION >= 96
+    MemoryContextRegisterResetCallback(STDMemoryContext, callback);
+#endif
 
-    /* change memory contexts so the pstrdup are allocated in the
-     * context of this cache item. They will be freed when the
-     * cache item is deleted.
-    */
-    DBG("AddToStdPortalCache: changing memory context to %p", STDCache->StdCacheContext);
-    old_context = MemoryContextSwitchTo(STDCache->StdCacheContext);
-    DBG("  old_context= %p", (void*) old_context);
-    STDCache->StdCache[STDCache->NextSlot].lex_md5 = pstrdup(lex_md5);
-    free( lex_md5 );
-    DBG("  pstrdup(lex_md5) completed");
-    STDCache->StdCache[STDCache->NextSlot].gmr_md5 = pstrdup(gmr_md5);
-    free( gmr_md5 );
-    DBG("  pstrdup(gmr_md5) completed");
-    MemoryContextSwitchTo(old_context);
-    DBG(" changed memory context to %p", (void*) old_context);
+    /* Create the std object */
+    PG_TRY();
+    {
+        std = CreateStd( lexicon, grammar );
+    }
+    PG_CATCH();
+    {
+        MemoryContextDelete(STDMemoryContext);
+        PG_RE_THROW();
+    }
+    PG_END_TRY();
+    GetStdHashEntry(STDMemoryContext)->std = std;
+
+    /* if the NextSlot in the cache is used, then delete it */
+    if (STDCache->StdCache[STDCache->NextSlot].std != NULL) {
+#ifdef DEBUG
+        StdCacheItem *ce = &STDCache->StdCache[STDCache->NextSlot];
+        DBG("Removing item from STD cache ('%s', '%s') index %d", ce->lex_md5, ce->gmr_md5, STDCache->NextSlot);
+#endif
+        DeleteNextSlotFromStdCache(STDCache);
+    }
 
+    STDCache->StdCache[STDCache->NextSlot].lex_md5 = slot_lex_md5;
+    STDCache->StdCache[STDCache->NextSlot].gmr_md5 = slot_gmr_md5;
     STDCache->StdCache[STDCache->NextSlot].std = std;
     STDCache->StdCache[STDCache->NextSlot].std_mcxt = STDMemoryContext;
     STDCache->NextSlot = (STDCache->NextSlot + 1) % STD_CACHE_ITEMS;
-- 
2.43.0


From b1151d95055b8a17e537992e78b1bf1368fa0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 07/18] fix: a failed string copy is reported as out of memory
 instead of an incomplete result

standardize_addr, parse_addr, match_addr and serialize_lexicon did not
check strdup, and lost the rows built so far when building one threw.
---
 src/as_wrapper.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index d1e31b8..f506842 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -16,6 +16,7 @@
 #include <stdexcept>
 #include <iostream>
 #include <memory>
+#include <new>
 #include <string>
 #include <vector>
 #include <cstdlib>
@@ -199,6 +200,10 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
                 *err_msg = strdup( "Out of memory!" );
                 return NULL;
             }
+            // all strings with content and the pattern have to be copied
+            size_t expected = 1;
+            for (const auto &v : v_stdaddr)
+                if ( v.size() > 0 ) ++expected;
             // assign strings with content and trim off the trailing blank
             if ( v_stdaddr[0].size() > 0 ) {
                 v_stdaddr[0].resize(v_stdaddr[0].size()-1);
@@ -265,6 +270,24 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
                 stdaddr->unit       = strdup( v_stdaddr[15].c_str() );
             }
             stdaddr->pattern        = strdup( matched.c_str() );
+            // if a copy failed, the result is incomplete
+            char *fields[] = {
+                stdaddr->building, stdaddr->house_num, stdaddr->predir,
+                stdaddr->qual, stdaddr->pretype, stdaddr->name,
+                stdaddr->suftype, stdaddr->sufdir, stdaddr->ruralroute,
+                stdaddr->extra, stdaddr->city, stdaddr->prov,
+                stdaddr->country, stdaddr->postcode, stdaddr->box,
+                stdaddr->unit, stdaddr->pattern };
+            size_t copied = 0;
+            for (const auto &f : fields)
+                if ( f ) ++copied;
+            if ( copied != expected ) {
+                for (auto &f : fields)
+                    free( f );
+                free( stdaddr );
+                *err_msg = strdup( "Out of memory!" );
+                return NULL;
+            }
             *err_msg = (char *)0;
             return stdaddr;
         }
@@ -376,6 +399,7 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
         int i = 0;
         int j = 0;
         int k = 0;
+        try {
         for ( const auto &phrase : phrases ) {
             for ( const auto &t : phrase ) {
                 tokens[k].pat = i;
@@ -383,11 +407,23 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
                 tokens[k].word = strdup( t.text().c_str() );
                 tokens[k].inclass = strdup( InClass::asString( t.inclass() ).c_str() );
                 tokens[k].attached = strdup( InClass::asString( t.attached() ).c_str() );
+                if ( ! tokens[k].word or ! tokens[k].inclass or ! tokens[k].attached )
+                    throw std::bad_alloc();
                 ++j;
                 ++k;
             }
             ++i;
         }
+        }
+        catch ( ... ) {
+            for ( long unsigned int n = 0; n < cnt; ++n ) {
+                free( tokens[n].word );
+                free( tokens[n].inclass );
+                free( tokens[n].attached );
+            }
+            free( tokens );
+            throw;
+        }
 
         *nrec = static_cast<int>( cnt );
         *err_msg = (char *)0;
@@ -503,6 +539,12 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
             tokens[i].tokens = strdup( t.matched.c_str() );
             tokens[i].score = t.score;
             tokens[i].nrules = t.nrules;
+            if ( ! tokens[i].tokens ) {
+                for ( int n = 0; n < i; ++n )
+                    free( tokens[n].tokens );
+                free( tokens );
+                throw std::bad_alloc();
+            }
             ++i;
         }
 
@@ -661,14 +703,20 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
         oa << lex;
 
         // get the serialized lexicon text and return it
+        if ( ! ofs )
+            throw std::runtime_error( "Could not serialize the lexicon!" );
         std::string clex = ofs.str();
         if (clex.size() == 0) {
             *err_msg = strdup( "Compiled lexicon should not be size=0!" );
             return NULL;
         }
 
+        char *result = strdup(clex.c_str());
+        if ( ! result )
+            throw std::bad_alloc();
+
         *err_msg = (char *)0;
-        return strdup(clex.c_str());
+        return result;
 
     }
     catch ( std::runtime_error &e ) {
-- 
2.43.0


From 154c88d2304cd0b5dda6c77f4eb3fa11898d60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 08/18] fix: a failed Unicode conversion is an error, not the
 text ERROR

---
 src/utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 209e5b7..bde2a11 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -11,6 +11,9 @@
  *
  ***************************************************ADDRESS_STANDARDIZER**/
 
+#include <new>
+#include <stdexcept>
+
 #include "utils.h"
 
 std::map<std::string, unsigned long int> Utils::counts_;
@@ -69,6 +72,8 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
 
     // uppercase
     source.toUpper(locale);
+    if ( source.isBogus() )
+        throw std::bad_alloc();
 
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
@@ -79,7 +84,7 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
 
 
 std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode) {
-    std::string result("ERROR");
+    std::string result;
 
     // UTF-8 std::string -> UTF-16 UnicodeString
     UnicodeString source = UnicodeString::fromUTF8(icu::StringPiece(str));
@@ -89,14 +94,14 @@ std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode)
     // get instance of normalizer
     const icu::Normalizer2 &norm(*icu::Normalizer2::getNFCInstance( errorCode ));
     if ( U_FAILURE(errorCode) )
-        return result;
+        throw std::runtime_error( std::string("Normalize-UTF8-Failed: ") + u_errorName(errorCode) );
 
     errorCode = U_ZERO_ERROR;
 
     // normalize the string
     source = norm.normalize(source, errorCode);
     if ( U_FAILURE(errorCode) )
-        return result;
+        throw std::runtime_error( std::string("Normalize-UTF8-Failed: ") + u_errorName(errorCode) );
 
     // UTF-16 UnicodeString -> UTF-8 std::string
     result = "";
-- 
2.43.0


From 80cce01608113bf15a853ef1d9e4911a1b47f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 09/18] fix: a failed allocation while building the trie does
 not leak a branch

---
 src/trieutf8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..9fb33a2 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -37,8 +37,8 @@ void TrieUtf8::addWord( const std::string &word ) {
         }
         else {
             TrieUtf8 *tmp = new TrieUtf8( it == end );
-            tmp->addWord( subword );
             _children[ c ] = tmp;
+            tmp->addWord( subword );
         }
     }
 }
-- 
2.43.0


From a0b674b6d676da5b1032813dedd06bbb2b57792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 10/18] fix: a stream that fails while a lexicon or grammar is
 read is an error, not its end

---
 src/grammar.cpp  | 3 +++
 src/inclass.cpp  | 2 ++
 src/lexentry.cpp | 1 +
 src/lexicon.cpp  | 4 ++++
 src/rule.cpp     | 1 +
 src/token.cpp    | 1 +
 6 files changed, 12 insertions(+)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..d8ae75b 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -136,6 +136,9 @@ void Grammar::initialize( std::istream &is )
             }
         }
     }
+    if ( is.bad() )
+        throw std::runtime_error("Grammar-Read-Error");
+
     // save the last section we read in
     if (gotSection.length() > 0) {
         if ( ruleType == ISMETA ) {
diff --git a/src/inclass.cpp b/src/inclass.cpp
index 68c351d..9ccd871 100644
--- a/src/inclass.cpp
+++ b/src/inclass.cpp
@@ -120,6 +120,7 @@ std::set<InClass::Type> InClass::asType(const std::string &s) {
     InClass::Type t;
     std::set<InClass::Type> ret;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
@@ -535,6 +536,7 @@ InClass::Lang InClass::asLang(const std::string &s) {
 std::set<InClass::AttachType> InClass::asAttachType(const std::string &s) {
     std::set<InClass::AttachType> type;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 56a787a..d58f9ca 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -123,6 +123,7 @@ LexEntry::LexEntry(const std::string &line)
     std::string in_attached;
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "LEXENTRY:")
         std::getline(buffer, in_word, '\t');
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..420f7ae 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -94,6 +94,7 @@ void Lexicon::initialize( std::istream &is ) {
     //std::cout << "\t" << line << "\n";
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::string term;
     std::getline(buffer, term, '\t');
     ++cnt;
@@ -142,6 +143,9 @@ void Lexicon::initialize( std::istream &is ) {
         }
     }
 
+    if ( is.bad() )
+        throw std::runtime_error("Lexicon-Read-Error");
+
     md5_ = md5( lexicon_in );
 }
 
diff --git a/src/rule.cpp b/src/rule.cpp
index a1fd1b8..99d5532 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -21,6 +21,7 @@
 Rule::Rule( const std::string &line ) : score_(0.0) {
     std::string token;
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
 
     // else read normal rule here
     int state = 0;
diff --git a/src/token.cpp b/src/token.cpp
index b418e99..14ef0c5 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -33,6 +33,7 @@ Token::Token(std::string text) {
     std::string in_attached;
 
     std::stringstream buffer(text);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "TOKEN:")
         std::getline(buffer, in_word, '\t');
-- 
2.43.0


From 058817d86488f7a8ef4f9e34e1f50c4989f41bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 11/18] fix: a compiled lexicon that lost the end of its last
 field is rejected

---
 src/lexicon.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexicon.h b/src/lexicon.h
index cee7c49..a73f0ee 100644
--- a/src/lexicon.h
+++ b/src/lexicon.h
@@ -48,6 +48,10 @@ class Lexicon
         ar >> regexPrefix_;
         ar >> regexSuffix_;
         ar >> md5_;
+        // it is the last field and the archive does not notice if it is cut off
+        if ( md5_.length() > 0 and ( md5_.length() != 32 or
+             md5_.find_first_not_of( "0123456789abcdef" ) != std::string::npos ) )
+            throw std::runtime_error("Lexicon-Archive-Truncated");
     }
 
     template<class Archive>
-- 
2.43.0


From a35925cd1dcba29346ada6cf02bc42996854222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 12/18] fix: a failed allocation while a lexicon is edited
 leaves its entries as they were

---
 src/lexicon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 420f7ae..c967e95 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -332,7 +332,7 @@ void Lexicon::insert( const LexEntry &le ) {
     entries.push_back( le );
 
     // save it back in the lexicon
-    lex_[key] = entries;
+    lex_[key].swap( entries );
 
     // set cached regex strings to empty
     // so it will get regenerated
@@ -364,7 +364,7 @@ void Lexicon::remove( const LexEntry &le ) {
             }
             else {
                 // save it back in the lexicon
-                lex_[key] = entries;
+                lex_[key].swap( entries );
             }
             break;
         }
-- 
2.43.0


From 0b31906aa4eee22b23544f26515d9a6c3878f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 13/18] fix: compile-lexicon fails if its output could not be
 written

---
 src/tester/compile-lexicon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tester/compile-lexicon.cpp b/src/tester/compile-lexicon.cpp
index aa16ae3..ceeefa4 100644
--- a/src/tester/compile-lexicon.cpp
+++ b/src/tester/compile-lexicon.cpp
@@ -45,6 +45,10 @@ int main(int ac, char* av[])
         boost::archive::text_oarchive oa(ofs);
         oa << lex;
         ofs.close();
+        if ( not ofs.good() ) {
+            std::cerr << "ERROR: failed to write '" << av[2] << "'!\n";
+            return EXIT_FAILURE;
+        }
     }
     else {
         std::cerr << "ERROR: failed to create '" << av[2] << "' for write!\n";
-- 
2.43.0


From b3e777dc3cd047bf83c88abd46949363fbdee9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 14/18] fix: a long word of a lexicon overflowed the stack

The trie that builds the regular expression of a lexicon recursed once
for every character of a word, so that one word of some 30 kB crashed
the process. Walk the characters of a single word in a loop; recurse
only where words branch off or end.
---
 src/trieutf8.cpp | 53 +++++++++++++++++++++++++++++++++++-------------
 src/trieutf8.h   |  5 +----
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index 9fb33a2..40f9759 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -20,26 +20,39 @@
 #include "trieutf8.h"
 
 
+TrieUtf8::~TrieUtf8() {
+    // unlink the nodes of a single word one by one, a recursion for each
+    // character of a long word does not fit on the stack
+    while ( not _children.empty() ) {
+        auto first = _children.begin();
+        TrieUtf8 *child = first->second;
+        if ( child and child->_children.size() == 1 ) {
+            first->second = child->_children.begin()->second;
+            child->_children.clear();
+        }
+        else
+            _children.erase( first );
+        delete child;
+    }
+}
+
+
+
 void TrieUtf8::addWord( const std::string &word ) {
+    TrieUtf8 *node = this;
     Utf8Iterator it = word.begin();
     Utf8Iterator end = word.end();
-    if ( it != end ) {
-        ++_size;
+    while ( it != end ) {
+        ++node->_size;
         // get the code point for the trie
         char32_t c = *it;
         ++it;  // step to the next code point
-        std::string subword = it.substr( end );
-        if ( _children[ c ] ) {
-            if ( it == end )
-                _children[ c ]->_isEnd = true;
-            else
-                _children[ c ]->addWord( subword );
-        }
-        else {
-            TrieUtf8 *tmp = new TrieUtf8( it == end );
-            _children[ c ] = tmp;
-            tmp->addWord( subword );
-        }
+        TrieUtf8 *&child = node->_children[ c ];
+        if ( not child )
+            child = new TrieUtf8( it == end );
+        else if ( it == end )
+            child->_isEnd = true;
+        node = child;
     }
 }
 
@@ -144,6 +157,18 @@ std::string TrieUtf8::getRegexp() const {
     if ( _isEnd and _children.size() == 0 )
         return "";
 
+    // follow the characters of a single word here, the recursion below is
+    // for the places where words branch off or end
+    std::string chain;
+    const TrieUtf8 *node = this;
+    while ( not node->_isEnd and node->_children.size() == 1 ) {
+        auto only = node->_children.begin();
+        chain += quoteMeta( CodePointToUtf8( only->first ) );
+        node = only->second;
+    }
+    if ( node != this )
+        return chain + node->getRegexp();
+
     std::vector<std::string> alt;
     std::vector<std::string> cc;
     bool q = false;
diff --git a/src/trieutf8.h b/src/trieutf8.h
index 985f402..2ded043 100644
--- a/src/trieutf8.h
+++ b/src/trieutf8.h
@@ -38,10 +38,7 @@ class TrieUtf8 {
 
 public:
     TrieUtf8( bool end = false ) :_size( 0 ), _isEnd( end ) {};
-    ~TrieUtf8() {
-        for (auto &it : _children)
-            delete it.second;
-    };
+    ~TrieUtf8();
 
     void addWord( const std::string &word );
 
-- 
2.43.0


From 17beac1d8b96acde5125a3cee3493b934ee8fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 15/18] fix: report running out of memory in the UTF-8
 conversion

ICU appends nothing when it cannot allocate the buffer it needs to convert a
string of more than 1 KB: the address was then taken to be empty and the
call succeeded with no rows.
---
 src/utils.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index bde2a11..c11492e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -45,6 +45,16 @@ unsigned long int Utils::getCount( const std::string key ) {
 using icu::UnicodeSet;
 using icu::UnicodeString;
 
+// UTF-16 UnicodeString -> UTF-8 std::string; ICU does not report that it
+// ran out of memory for a long string, it just appends nothing
+static std::string toUTF8( const UnicodeString &source ) {
+    std::string result;
+    source.toUTF8String(result);
+    if ( result.empty() && ! source.isEmpty() )
+        throw std::bad_alloc();
+    return result;
+}
+
 std::string Utils::unaccentUTF8( const std::string &str ) {
     // UTF-8 std::string -> UTF-16 UnicodeString
     UnicodeString source = UnicodeString::fromUTF8(icu::StringPiece(str));
@@ -56,11 +66,7 @@ std::string Utils::unaccentUTF8( const std::string &str ) {
     accentsConverter->transliterate(source);
     // TODO: handle errors with status
 
-    // UTF-16 UnicodeString -> UTF-8 std::string
-    std::string result;
-    source.toUTF8String(result);
-
-    return result;
+    return toUTF8(source);
 }
 
 
@@ -75,17 +81,11 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
     if ( source.isBogus() )
         throw std::bad_alloc();
 
-    // UTF-16 UnicodeString -> UTF-8 std::string
-    std::string result;
-    source.toUTF8String(result);
-
-    return result;
+    return toUTF8(source);
 }
 
 
 std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode) {
-    std::string result;
-
     // UTF-8 std::string -> UTF-16 UnicodeString
     UnicodeString source = UnicodeString::fromUTF8(icu::StringPiece(str));
 
@@ -103,11 +103,7 @@ std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode)
     if ( U_FAILURE(errorCode) )
         throw std::runtime_error( std::string("Normalize-UTF8-Failed: ") + u_errorName(errorCode) );
 
-    // UTF-16 UnicodeString -> UTF-8 std::string
-    result = "";
-    source.toUTF8String(result);
-
-    return result;
+    return toUTF8(source);
 }
 
 
-- 
2.43.0


From 7577fa7d5f13ff055a3b6afb3850414496ad2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 16/18] fix: as_standardize and as_compile_lexicon took an
 error without memory for its message for no result

---
 src/address_standardizer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 23d1ad2..f59545a 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -12,6 +12,7 @@
  ***************************************************ADDRESS_STANDARDIZER**/
 
 #include "postgres.h"
+#include <errno.h>
 #include "funcapi.h"
 #include "catalog/pg_type.h"
 #include "utils/builtins.h"
@@ -198,7 +199,7 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
     DBG("lexicon:\n '%s'", lexicon);
 
     cstr = serialize_lexicon( lexicon, &err_msg );
-    if ( err_msg != NULL )
+    if ( err_msg != NULL || cstr == NULL )
         library_error("as_compile_lexicon", err_msg);
 
     if (cstr) {
@@ -315,14 +316,18 @@ Datum as_standardize(PG_FUNCTION_ARGS)
         elog(ERROR, "as_standardize() failed to create the address standardizer object!");
 
     DBG("calling std_standardize('%s')", address);
+    errno = 0;
     stdaddr = std_standardize_ptrs( address, std->gmr_obj, std->lex_obj, locale, filter, &err_msg );
 #else
     DBG("calling std_standardize('%s')", address);
+    errno = 0;
     stdaddr = std_standardize(address, grammar, lexicon, locale, filter, &err_msg);
 #endif
     DBG("back from std_standardize");
 
-    if ( err_msg != NULL )
+    /* no result and no message is "no match", unless there was not even
+     * enough memory for the message */
+    if ( err_msg != NULL || (stdaddr == NULL && errno == ENOMEM) )
         library_error("as_standardize", err_msg);
 
     /* stdaddr is not in a memory context, release it if there is an ERROR */
-- 
2.43.0


From 780f711f432d157cd17104777d695a65541e6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 17/18] fix: md5() did not compute MD5, two of its functions
 had their parentheses off

---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From e20e7398ecfde59860ddd120ef22fc7bb0d0f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 18/18] fix: a locale that ICU does not accept is an error, its
 text was upper cased by the default locale of the process

---
 src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index c11492e..808ce72 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -74,7 +74,11 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
     // UTF-8 std::string -> UTF-16 UnicodeString
     UnicodeString source = UnicodeString::fromUTF8(icu::StringPiece(str));
 
+    // the conversion takes the rules of the default locale of the process
+    // for a locale that could not be made
     icu::Locale locale(loc.c_str());
+    if ( locale.isBogus() )
+        throw std::runtime_error("Invalid-Locale: " + loc);
 
     // uppercase
     source.toUpper(locale);
-- 
2.43.0

