From be60809ea59425ce778c399a9b9d9608b5d8b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:44 +0000
Subject: [PATCH 001/117] fix: append the source bytes in
 ConcatenateStringInfo()

The bytes of the source string were copied to the end of the concatenated
string rather than to the end of the original one: the result had the right
length but undefined bytes where the source was expected.
---
 wizard/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..2c899ab 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -716,7 +716,6 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
   length+=source->length;
   if (~length < WizardPathExtent)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  string_info->length=length;
   if (string_info->datum == (unsigned char *) NULL)
     string_info->datum=(unsigned char *) AcquireQuantumMemory(length+
       WizardPathExtent,sizeof(*string_info->datum));
@@ -726,7 +725,9 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+string_info->length,source->datum,
+    source->length);
+  string_info->length=length;
 }
 
 /*
-- 
2.43.0


From 1541e3039a4b163a1cfe87190d6e5c46e468bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:53 +0000
Subject: [PATCH 002/117] fix: the Serpent cipher has a 16-byte block

The cipher announced 32-byte blocks but enciphers 16 bytes per call, so the
second half of every block was left unciphered.
---
 wizard/serpent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/serpent.c b/wizard/serpent.c
index 3d751fe..5b9b98a 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -70,7 +70,7 @@ struct _SerpentInfo
   (value)|=(*p++) << 16; \
   (value)|=(*p++) << 24; \
 }
-#define SerpentBlocksize 32
+#define SerpentBlocksize 16
 #define Write32Bits(p,value) \
 { \
   *p++=(unsigned char) (value); \
-- 
2.43.0


From 174520ec6f66b8a6fa945156ac04d448f4ca7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:00 +0000
Subject: [PATCH 003/117] fix: chain all eight words in SHA2-224

The eighth accumulator word was not updated between blocks, so the digest of
any message of more than one block was wrong.
---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From dc770509236488c88a593f0d136f509e5593974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:00 +0000
Subject: [PATCH 004/117] fix: a short Chacha key no longer keeps words of the
 previous key

---
 wizard/chacha.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/chacha.c b/wizard/chacha.c
index 2485694..66c4f2d 100644
--- a/wizard/chacha.c
+++ b/wizard/chacha.c
@@ -399,6 +399,7 @@ WizardExport void SetChachaKey(ChachaInfo *chacha_info,const StringInfo *key)
   WizardAssert(CipherDomain,chacha_info != (ChachaInfo *) NULL);
   WizardAssert(CipherDomain,chacha_info->signature == WizardSignature);
   WizardAssert(CipherDomain,key != (StringInfo *) NULL);
+  (void) memset(chacha_info->key,0,sizeof(chacha_info->key));
   datum=GetStringInfoDatum(key);
   if (GetStringInfoLength(key) >= 4)
     chacha_info->key[4]=PushChachaWord(datum+0);
-- 
2.43.0


From 8e5df4630036f66d25c43a0f50eb9e7139596e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:45 +0000
Subject: [PATCH 005/117] fix: report an incomplete LZMA stream

Restoring a truncated stream, or one that does not fit the given length,
reported success with only part of the message.
---
 wizard/lzma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/lzma.c b/wizard/lzma.c
index 2e52e63..f0ff402 100644
--- a/wizard/lzma.c
+++ b/wizard/lzma.c
@@ -261,7 +261,7 @@ WizardExport WizardBooleanType IncreaseLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
@@ -356,7 +356,7 @@ WizardExport WizardBooleanType RestoreLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
-- 
2.43.0


From c1dc239a58678a5c38d68a483803f93ea0bc2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:37 +0000
Subject: [PATCH 006/117] fix: replacing a hash-map entry does not add to the
 entry count

PutEntryInHashmap() removes the previous entry of an equal key but counted
the replacement as one more entry.
---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..ad65654 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1543,6 +1543,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
                   entry->value=hashmap_info->relinquish_value(entry->value);
                 entry=(EntryInfo *) RelinquishWizardMemory(entry);
+                hashmap_info->entries--;
                 break;
               }
           }
-- 
2.43.0


From 97859bb42ccab3a348444b1d6935a63ed0a5ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:50 +0000
Subject: [PATCH 007/117] fix: insert the new element in the middle of a linked
 list

InsertValueInLinkedList() skipped over the element it had just allocated, so
a value inserted anywhere but at either end was lost while the element count
went up.
---
 wizard/hashmap.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index ad65654..94cf1b3 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1046,7 +1046,6 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
             element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
-- 
2.43.0


From f71d78c1fe3ebf2fbf1e460164051e8302beb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:00 +0000
Subject: [PATCH 008/117] fix: the iterator of a sorted list outlives the
 element it replaces

InsertValueInSortedLinkedList() released a replaced element while the list
iterator could still point at it, and never released a replaced head.
---
 wizard/hashmap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 94cf1b3..cf1629f 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1122,11 +1122,15 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
       {
         if (i == 0)
           {
-            *replace=next->next->value;
-            next->next=next->next->next;
-            if (element != (ElementInfo *) NULL)
-              element->next=(ElementInfo *) RelinquishWizardMemory(
-                element->next);
+            ElementInfo
+              *previous;
+
+            previous=next->next;
+            *replace=previous->value;
+            next->next=previous->next;
+            if (list_info->next == previous)
+              list_info->next=next;
+            previous=(ElementInfo *) RelinquishWizardMemory(previous);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0


From 895d901a8e2b587dc1169c7c8137bc2dac1934ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:27 +0000
Subject: [PATCH 009/117] fix: bounded string copy returns the full length of a
 text that just fits

---
 wizard/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 2c899ab..81071b5 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -803,7 +803,7 @@ WizardExport size_t CopyWizardString(char *destination,const char *source,
     }
   if (length != 0)
     *q='\0';
-  return((size_t) (p-source-1));
+  return((size_t) (p-source));
 }
 
 /*
-- 
2.43.0


From ec87946981476a49035e428a1e0c3df2a6621259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:27 +0000
Subject: [PATCH 010/117] fix: honour SI prefixes below one (m, u, n, ...)

---
 wizard/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 81071b5..ca70382 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -1456,7 +1456,7 @@ WizardExport double InterpretSiPrefixValue(const char *string,char **sentinal)
             case 'Y': e=24.0; break;
             default: e=0.0; break;
           }
-          if (e >= WizardEpsilon)
+          if (fabs(e) >= WizardEpsilon)
             {
               if (q[1] == 'i')
                 {
-- 
2.43.0


From 2857c61d64ec6fcd7d478a96ebe6680f80416a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:27 +0000
Subject: [PATCH 011/117] fix: an unterminated parenthesis does not take the
 tokenizer past the text

---
 wizard/token.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index cf17c46..c7405aa 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -198,11 +198,15 @@ WizardExport void GetNextToken(const char *start,const char **end,
         if (*p == '>')
           break;
         if (*p == '(')
-          for (p++; *p != '\0'; p++)
           {
-            if (i < (ssize_t) (extent-1))
-              token[i++]=(*p);
-            if ((*p == ')') && (*(p-1) != '\\'))
+            for (p++; *p != '\0'; p++)
+            {
+              if (i < (ssize_t) (extent-1))
+                token[i++]=(*p);
+              if ((*p == ')') && (*(p-1) != '\\'))
+                break;
+            }
+            if (*p == '\0')
               break;
           }
       }
@@ -220,7 +224,8 @@ WizardExport void GetNextToken(const char *start,const char **end,
         offset++;
       i=(ssize_t) strlen(token);
       (void) CopyWizardString(token,token+offset,WizardPathExtent);
-      token[i-offset-1]='\0';
+      if (i > offset)
+        token[i-offset-1]='\0';
     }
   while (isspace((int) ((unsigned char) *p)) != 0)
     p++;
-- 
2.43.0


From 411dc3cb8de8db3a61cba43cf3a5851c2de85cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:27 +0000
Subject: [PATCH 012/117] fix: a glob matches exactly one of the alternatives
 in braces, then the rest

---
 wizard/token.c | 74 ++++++++++++++++++++------------------------------
 1 file changed, 29 insertions(+), 45 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index c7405aa..1a3b484 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -384,61 +384,45 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
       case '{':
       {
          const char
-          *p;
+          *p,
+          *q;
 
-        pattern++;
-        while ((*pattern != '}') && (*pattern != '\0'))
+        /*
+          Match one of the alternatives and then the remainder of the pattern.
+        */
+        for (q=pattern+1; (*q != '}') && (*q != '\0'); q++)
+          if ((*q == '\\') && (*(q+1) != '\0'))
+            q++;
+        if (*q == '\0')
+          return(WizardFalse);
+        q++;
+        do
         {
+          pattern++;
           p=expression;
           match=WizardTrue;
-          while ((*p != '\0') && (*pattern != '\0') &&
-                 (*pattern != ',') && (*pattern != '}') &&
-                 (match != WizardFalse))
+          for ( ; (*pattern != ',') && (*pattern != '}'); pattern++)
           {
             if (*pattern == '\\')
               pattern++;
-            match=(*pattern == *p) ? WizardTrue : WizardFalse;
-            p++;
-            pattern++;
+            if (match != WizardFalse)
+              {
+                match=(*pattern == *p) ? WizardTrue : WizardFalse;
+                if (match != WizardFalse)
+                  p++;
+              }
           }
-          if (*pattern == '\0')
-            {
-              match=WizardFalse;
-              done=WizardTrue;
-              break;
-            }
           if (match != WizardFalse)
             {
-              expression=p;
-               while ((*pattern != '}') && (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if (*pattern == '}')
-                       pattern++;
-                   }
-               }
-             }
-           else
-             {
-               while ((*pattern != '}') && (*pattern != ',') &&
-                      (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if ((*pattern == '}') || (*pattern == ','))
-                       pattern++;
-                   }
-               }
-             }
-            if (*pattern != '\0')
-              pattern++;
-          }
-        break;
+              if (*q == '\0')
+                match=(*p == '\0') ? WizardTrue : WizardFalse;
+              else
+                match=GlobExpression(p,q,case_insensitive);
+              if (match != WizardFalse)
+                return(WizardTrue);
+            }
+        } while (*pattern == ',');
+        return(WizardFalse);
       }
       case '\\':
       {
-- 
2.43.0


From acdb93a47c3bd9556e9261a86dc64090c291002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:14 +0000
Subject: [PATCH 013/117] fix: a glob ending within a character range is not
 read past its end

---
 wizard/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/token.c b/wizard/token.c
index 1a3b484..1ae61cb 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -333,7 +333,7 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
             {
               c=(*pattern);
               pattern+=2;
-              if (*pattern == ']')
+              if ((*pattern == ']') || (*pattern == '\0'))
                 {
                   done=WizardTrue;
                   break;
-- 
2.43.0


From f97dd803dfddc5ed5ba944e58c37338eb1d51893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:40 +0000
Subject: [PATCH 014/117] fix: format and read numbers in the C locale where
 uselocale() is available

The configure script misspells newlocale(), so the locale support was never
compiled in.  Systems with uselocale() have newlocale() as well.
---
 wizard/locale.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wizard/locale.c b/wizard/locale.c
index c0c8322..d79596d 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -62,6 +62,9 @@
 /*
   Define declarations.
 */
+#if !defined(WIZARDSTOOLKIT_HAVE_NEWLOCALE) && defined(WIZARDSTOOLKIT_HAVE_USELOCALE)
+#  define WIZARDSTOOLKIT_HAVE_NEWLOCALE  1
+#endif
 #if defined(WIZARDSTOOLKIT_HAVE_NEWLOCALE) || defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
 #  define WIZARDSTOOLKIT_LOCALE_SUPPORT
 #endif
-- 
2.43.0


From f78acbc6f1d0e90ca71014aef1090c7525633175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:21 +0000
Subject: [PATCH 015/117] fix: close an XML element that has children but no
 text

---
 wizard/xml-tree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index bd9ceee..7477070 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2759,7 +2759,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
     j+=3;
   }
-  *length+=FormatLocaleString(*source+(*length),*extent,*xml_info->content ?
+  *length+=FormatLocaleString(*source+(*length),*extent,
+    (*xml_info->content != '\0') || (xml_info->child != (XMLTreeInfo *) NULL) ?
     ">" : "/>");
   if (xml_info->child != (XMLTreeInfo *) NULL)
     *source=XMLTreeTagToXML(xml_info->child,source,length,extent,0,attributes);
@@ -2773,7 +2774,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       if (*source == (char *) NULL)
         return((char *) NULL);
     }
-  if (*xml_info->content != '\0')
+  if ((*xml_info->content != '\0') ||
+      (xml_info->child != (XMLTreeInfo *) NULL))
     *length+=FormatLocaleString(*source+(*length),*extent,"</%s>",
       xml_info->tag);
   while ((offset < xml_info->offset) && (content[offset] != '\0'))
-- 
2.43.0


From d1dfd3a0f986ec93cfee45f565a65f199dc19536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:40 +0000
Subject: [PATCH 016/117] fix: XML attribute declarations apply to their own
 element and are not the last

---
 wizard/xml-tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 7477070..cb08c32 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1826,13 +1826,12 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 return(WizardFalse);
               }
             xml=t+strcspn(t,XMLWhitespace ">");
-            if (*xml == '>')
+            if ((*xml == '>') || (*xml == '\0'))
               continue;
             *xml='\0';
             i=0;
             while ((root->attributes[i] != (char **) NULL) &&
-                   (n != (char *) NULL) &&
-                   (strcmp(n,root->attributes[i][0]) != 0))
+                   (strcmp(t,root->attributes[i][0]) != 0))
               i++;
             while ((*(n=xml+strspn(xml+1,XMLWhitespace)+1) != '\0') &&
                    (*n != '>'))
@@ -1921,6 +1920,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 root->attributes[i][j+1]=ParseEntities(v,root->entities,*c);
               root->attributes[i][j]=ConstantString(n);
             }
+            xml=n;
         }
       else
         if (strncmp(xml, "<!--", 4) == 0)
-- 
2.43.0


From 246cbfd61d513e0b222c1059c3b12a740be7043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:40 +0000
Subject: [PATCH 017/117] fix: write each XML processing instruction once

---
 wizard/xml-tree.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index cb08c32..4621560 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2841,7 +2841,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
       {
         if (root->processing_instructions[i][k][j-1] == '>')
           {
-            p=root->processing_instructions[i][j];
+            p=root->processing_instructions[i][j+1];
             continue;
           }
         q=root->processing_instructions[i][0];
@@ -2854,7 +2854,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
           }
         length+=FormatLocaleString(xml+length,extent,"<?%s%s%s?>\n",q,
           *p != '\0' ? " " : "",p);
-        p=root->processing_instructions[i][j];
+        p=root->processing_instructions[i][j+1];
       }
     }
   ordered=xml_info->ordered;
@@ -2875,7 +2875,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
       {
         if (root->processing_instructions[i][k][j-1] == '<')
           {
-            p=root->processing_instructions[i][j];
+            p=root->processing_instructions[i][j+1];
             continue;
           }
         q=root->processing_instructions[i][0];
@@ -2888,7 +2888,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
           }
         length+=FormatLocaleString(xml+length,extent,"\n<?%s%s%s?>",q,
           *p != '\0' ? " " : "",p);
-        p=root->processing_instructions[i][j];
+        p=root->processing_instructions[i][j+1];
       }
     }
   return((char *) ResizeQuantumMemory(xml,length+1,sizeof(*xml)));
-- 
2.43.0


From 51fdb037a28c99975af9aa5afe86074a40d7f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:40 +0000
Subject: [PATCH 018/117] fix: terminate the UTF-8 form of a UTF-16 document
 within its buffer

---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 4621560..0ae7d87 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1385,7 +1385,7 @@ static char *ConvertUTF16ToUTF8(const char *content,size_t *length)
     }
   }
   *length=(size_t) j;
-  utf8=(char *) ResizeQuantumMemory(utf8,*length,sizeof(*utf8));
+  utf8=(char *) ResizeQuantumMemory(utf8,*length+1,sizeof(*utf8));
   if (utf8 != (char *) NULL)
     utf8[*length]='\0';
   return(utf8);
-- 
2.43.0


From f97465bd86fc232c4330e3166d341e4e83937289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:16 +0000
Subject: [PATCH 019/117] fix: accept XML entities that refer to other
 entities, refuse circular ones

---
 wizard/xml-tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 0ae7d87..9af65fe 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1622,7 +1622,7 @@ static WizardBooleanType ValidateEntities(char *tag,char *xml,
     return(WizardFalse);
   for ( ; ; xml++)
   {
-    while ((*xml != '\0') && (*xml != '&'))
+    while ((*xml != '\0') && (*xml != '&') && (*xml != '%'))
       xml++;
     if (*xml == '\0')
       return(WizardTrue);
@@ -1630,7 +1630,7 @@ static WizardBooleanType ValidateEntities(char *tag,char *xml,
       return(WizardFalse);
     i=0;
     while ((entities[i] != (char *) NULL) &&
-           (strncmp(entities[i],xml+1,strlen(entities[i])) == 0))
+           (strncmp(entities[i],xml+1,strlen(entities[i])) != 0))
       i+=2;
     if ((entities[i] != (char *) NULL) &&
         (ValidateEntities(tag,entities[i+1],depth+1,entities) == 0))
-- 
2.43.0


From 933d37139fe92d71ee86a6ec290953fb3181c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:16 +0000
Subject: [PATCH 020/117] fix: an empty XML entity does not take the text after
 it away

---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 9af65fe..e0180fd 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1502,7 +1502,7 @@ static char *ParseEntities(char *xml,char **entities,int state)
                 length=strlen(entities[i]);
                 entity=strchr(xml,';');
                 if ((entity != (char *) NULL) &&
-                    ((length-1L) >= (size_t) (entity-xml)))
+                    (length > (size_t) (entity-xml)))
                   {
                     offset=(ssize_t) (xml-p);
                     extent=(size_t) (offset+length+strlen(entity));
-- 
2.43.0


From af78ec2e1c8e6f68d9a8423119831fd8557dbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:16 +0000
Subject: [PATCH 021/117] fix: set and remove any number of attributes of an
 XML element

---
 wizard/xml-tree.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index e0180fd..e8dc67b 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2548,17 +2548,13 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
         xml_info->attributes=(char **) ResizeQuantumMemory(
           xml_info->attributes,(size_t) (i+4),sizeof(*xml_info->attributes));
       else
-        {
-          xml_info->attributes=(char **) AcquireQuantumMemory(4,
-            sizeof(*xml_info->attributes));
-          if (xml_info->attributes != (char **) NULL)
-            xml_info->attributes[1]=ConstantString("");
-        }
+        xml_info->attributes=(char **) AcquireQuantumMemory(4,
+          sizeof(*xml_info->attributes));
       if (xml_info->attributes == (char **) NULL)
         ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
       xml_info->attributes[i]=ConstantString(tag);
+      xml_info->attributes[i+1]=(char *) NULL;
       xml_info->attributes[i+2]=(char *) NULL;
-      (void) strlen(xml_info->attributes[i+1]);
     }
   /*
     Add new value to an existing attribute.
@@ -2579,9 +2575,6 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
     (size_t) (j+2),sizeof(*xml_info->attributes));
   if (xml_info->attributes == (char **) NULL)
     ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
-  j-=2;
-  (void) memmove(xml_info->attributes[j+1]+(i/2),xml_info->attributes[j+1]+
-    (i/2)+1,(size_t) (((j+2)/2)-(i/2))*sizeof(**xml_info->attributes));
   return(xml_info);
 }
 
-- 
2.43.0


From c59f405b16302c6c8a7bc9599b55645c61e40176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:09 +0000
Subject: [PATCH 022/117] fix: an XML element placed beyond the text of its
 parent is written after it

---
 wizard/xml-tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index e8dc67b..4b250de 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2654,7 +2654,8 @@ static char *EncodePredefinedEntities(const char *source,ssize_t offset,
         *content;
 
       content=AcquireString(source);
-      content[offset]='\0';
+      if (offset < (ssize_t) strlen(content))
+        content[offset]='\0';
       canonical_content=CanonicalXMLContent(content,pedantic);
       content=DestroyString(content);
     }
-- 
2.43.0


From 0fb37678d7638699f5bcfc8c3488da69137bb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:09 +0000
Subject: [PATCH 023/117] fix: write an XML attribute without a value as empty

---
 wizard/xml-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 4b250de..180fc18 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2721,8 +2721,9 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       }
     *length+=FormatLocaleString(*source+(*length),*extent," %s=\"",
       xml_info->attributes[i]);
-    (void) EncodePredefinedEntities(xml_info->attributes[i+1],-1,source,length,
-      extent,WizardTrue);
+    if (xml_info->attributes[i+1] != (char *) NULL)
+      (void) EncodePredefinedEntities(xml_info->attributes[i+1],-1,source,
+        length,extent,WizardTrue);
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
   }
   i=0;
-- 
2.43.0


From 4ac346f4fada57c008d380b261f8e0928d6828f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:57 +0000
Subject: [PATCH 024/117] fix: an XML element inserted before the first with
 its tag takes its place

---
 wizard/xml-tree.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 180fc18..b209e15 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1267,8 +1267,14 @@ WizardExport XMLTreeInfo *InsertTagIntoXMLTree(XMLTreeInfo *xml_info,
     }
   else
     {
-      if ((previous != (XMLTreeInfo *) NULL) && (node != (XMLTreeInfo *) NULL))
-        previous->sibling=node->sibling;
+      if (node != (XMLTreeInfo *) NULL)
+        {
+          if (previous != (XMLTreeInfo *) NULL)
+            previous->sibling=node->sibling;
+          else
+            head=node->sibling;
+          node->sibling=(XMLTreeInfo *) NULL;
+        }
       child->next=node;
       previous=(XMLTreeInfo *) NULL;
       node=head;
-- 
2.43.0


From c8b621d1348f2f6ee862b1031890bbaf9781cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:57 +0000
Subject: [PATCH 025/117] fix: pruning an XML element keeps the others in reach

---
 wizard/xml-tree.c | 48 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index b209e15..82f8f44 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2456,14 +2456,14 @@ WizardExport XMLTreeInfo *NewXMLTreeTag(const char *tag)
 WizardExport XMLTreeInfo *PruneTagFromXMLTree(XMLTreeInfo *xml_info)
 {
   XMLTreeInfo
-    *node;
+    *head,
+    *node,
+    *previous;
 
   WizardAssert(ResourceDomain,xml_info != (XMLTreeInfo *) NULL);
   WizardAssert(ResourceDomain,(xml_info->signature == WizardSignature) ||
          (((XMLTreeRoot *) xml_info)->signature == WizardSignature));
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (xml_info->next != (XMLTreeInfo *) NULL)
-    xml_info->next->sibling=xml_info->sibling;
   if (xml_info->parent != (XMLTreeInfo *) NULL)
     {
       node=xml_info->parent->child;
@@ -2474,23 +2474,33 @@ WizardExport XMLTreeInfo *PruneTagFromXMLTree(XMLTreeInfo *xml_info)
           while (node->ordered != xml_info)
             node=node->ordered;
           node->ordered=node->ordered->ordered;
-          node=xml_info->parent->child;
-          if (strcmp(node->tag,xml_info->tag) != 0)
-            {
-              while (strcmp(node->sibling->tag,xml_info->tag) != 0)
-                node=node->sibling;
-              if (node->sibling != xml_info)
-                node=node->sibling;
-              else
-                node->sibling=(xml_info->next != (XMLTreeInfo *) NULL) ?
-                  xml_info->next : node->sibling->sibling;
-            }
-          while ((node->next != (XMLTreeInfo *) NULL) &&
-                 (node->next != xml_info))
-            node=node->next;
-          if (node->next != (XMLTreeInfo *) NULL)
-            node->next=node->next->next;
         }
+      /*
+        Link the remaining tags: siblings are the first of each tag.
+      */
+      head=xml_info->parent->child;
+      for (node=head; node != (XMLTreeInfo *) NULL; node=node->ordered)
+      {
+        node->sibling=(XMLTreeInfo *) NULL;
+        node->next=(XMLTreeInfo *) NULL;
+      }
+      for (node=head; node != (XMLTreeInfo *) NULL; node=node->ordered)
+      {
+        previous=head;
+        while ((strcmp(previous->tag,node->tag) != 0) &&
+               (previous->sibling != (XMLTreeInfo *) NULL))
+          previous=previous->sibling;
+        if (previous == node)
+          continue;
+        if (strcmp(previous->tag,node->tag) != 0)
+          {
+            previous->sibling=node;
+            continue;
+          }
+        while (previous->next != (XMLTreeInfo *) NULL)
+          previous=previous->next;
+        previous->next=node;
+      }
     }
   xml_info->ordered=(XMLTreeInfo *) NULL;
   xml_info->sibling=(XMLTreeInfo *) NULL;
-- 
2.43.0


From 357904fda838f52b3374d4cd6298dedb32ad4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:14 +0000
Subject: [PATCH 026/117] fix: write an XML element other than the root with
 its declared attributes

---
 wizard/xml-tree.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 82f8f44..5004f73 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2707,7 +2707,9 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
     offset;
 
   ssize_t
-    j;
+    j,
+    k,
+    n;
 
   content=(char *) "";
   if (xml_info->parent != (XMLTreeInfo *) NULL)
@@ -2750,8 +2752,15 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
   while ((attributes[i] != (char **) NULL) &&
          (attributes[i][j] != (char *) NULL))
   {
-    if ((attributes[i][j+1] == (char *) NULL) ||
-        (GetXMLTreeAttribute(xml_info,attributes[i][j]) != attributes[i][j+1]))
+    k=0;
+    while ((xml_info->attributes[k] != (char *) NULL) &&
+           (strcmp(xml_info->attributes[k],attributes[i][j]) != 0))
+      k+=2;
+    n=1;
+    while (strcmp(attributes[i][n],attributes[i][j]) != 0)
+      n+=3;
+    if ((attributes[i][j+1] == (char *) NULL) || (n != j) ||
+        (xml_info->attributes[k] != (char *) NULL))
       {
         j+=3;
         continue;
-- 
2.43.0


From 5f0c0b221de1cca19b5ccfbb32887edda3715b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:37 +0000
Subject: [PATCH 027/117] fix: refuse a UTF-16 XML document without any text

---
 wizard/xml-tree.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 5004f73..65fa701 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2041,6 +2041,13 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
         "memory allocation failed `%s'",strerror(errno));
       return((XMLTreeInfo *) NULL);
     }
+  if (length == 0)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
+        "root tag missing");
+      utf8=DestroyString(utf8);
+      return((XMLTreeInfo *) NULL);
+    }
   terminal=utf8[length-1];
   utf8[length-1]='\0';
   p=utf8;
-- 
2.43.0


From ea36f686fa251bf1193eeae50aaad6d830a98b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:15 +0000
Subject: [PATCH 028/117] fix: take the key length from the argument of its
 option

---
 utilities/decipher.c | 7 +++++--
 utilities/encipher.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index d091e26..0053e20 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -403,8 +403,11 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
             if (i == (ssize_t) argc)
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
-            content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+            type=ParseWizardOption(WizardKeyLengthOptions,WizardFalse,argv[i]);
+            if (type < 0)
+              ThrowCipherException(OptionFatalError,"unrecognized key length: "
+                "`%s'",argv[i]);
+            content_info->key_length=(unsigned int) type;
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 3183cd4..f82d2ce 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -404,8 +404,11 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
             if (i == (ssize_t) argc)
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
-            content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+            type=ParseWizardOption(WizardKeyLengthOptions,WizardFalse,argv[i]);
+            if (type < 0)
+              ThrowCipherException(OptionFatalError,"unrecognized key length: "
+                "`%s'",argv[i]);
+            content_info->key_length=(unsigned int) type;
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
-- 
2.43.0


From 6bec82f9d93e1a5b1c2817eeca48b6d33a5ae9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:15 +0000
Subject: [PATCH 029/117] fix: escape the file name in the content properties

---
 utilities/encipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/encipher.c b/utilities/encipher.c
index f82d2ce..56dca9e 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -634,6 +634,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
 }
 
   char
+    *canonical_filename,
     *cipher_packet,
     *cipher_rdf,
     *digest,
@@ -708,7 +709,9 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   (void) ConcatenateString(&cipher_rdf,"         xmlns:cipher=\""
      "https://urban-warrior.org/WizardsToolkit/cipher/1.0/\">\n");
   (void) ConcatenateString(&cipher_rdf,"  <cipher:Content rdf:about=\"");
-  (void) ConcatenateString(&cipher_rdf,plain_filename);
+  canonical_filename=CanonicalXMLContent(plain_filename,WizardFalse);
+  (void) ConcatenateString(&cipher_rdf,canonical_filename);
+  canonical_filename=DestroyString(canonical_filename);
   (void) ConcatenateString(&cipher_rdf,"\">\n");
   (void) FormatLocaleString(message,WizardPathExtent,
     "    <cipher:type>%s</cipher:type>\n",WizardOptionToMnemonic(
-- 
2.43.0


From 4f17ddb621e04099489cfeca7cb880e0ea54aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:15 +0000
Subject: [PATCH 030/117] fix: report a cipher or plain file that cannot be
 closed

---
 utilities/decipher.c | 10 ++++++++--
 utilities/encipher.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 0053e20..91c0212 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -802,9 +802,15 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         "`%s': `%s'",cipher_filename);
   }
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,cipher_filename);
+      return(WizardFalse);
+    }
   if (CloseBlob(content_info->plainblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,plain_filename);
+      return(WizardFalse);
+    }
 #if defined(WIZARDSTOOLKIT_HAVE_UTIME)
   {
     struct utimbuf
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 56dca9e..a443d23 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -902,9 +902,15 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
           "`%s': `%s'",cipher_filename);
     }
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,cipher_filename);
+      return(WizardFalse);
+    }
   if (CloseBlob(content_info->plainblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,plain_filename);
+      return(WizardFalse);
+    }
   plaintext=DestroyStringInfo(plaintext);
   return(WizardTrue);
 }
-- 
2.43.0


From bb12fa5e0f74379629d5b48c2cb0e567b276b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:15 +0000
Subject: [PATCH 031/117] fix: report content properties that cannot be stored

---
 utilities/encipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/encipher.c b/utilities/encipher.c
index a443d23..9fc0558 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -813,7 +813,10 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
         return(WizardFalse);
       count=WriteBlob(properties,length,(unsigned char *) cipher_packet);
       if (CloseBlob(properties) == WizardFalse)
-        ThrowFileException(exception,FileError,content_info->properties);
+        {
+          ThrowFileException(exception,FileError,content_info->properties);
+          count=(-1);
+        }
       properties=DestroyBlob(properties);
     }
   cipher_packet=DestroyString(cipher_packet);
-- 
2.43.0


From ff3704091c27509701460f8d69ce28a5bf900a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:51 +0000
Subject: [PATCH 032/117] fix: refuse a chunk size that cannot hold any content

---
 utilities/decipher.c | 9 +++++----
 utilities/encipher.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 91c0212..a1c42fd 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -295,12 +295,13 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
             if (i == (ssize_t) argc)
               ThrowCipherException(OptionError,"missing chunk size: `%s'",
                 option);
-            value=StringToDouble(argv[i],&p);
-            (void) value;
+            (void) StringToDouble(argv[i],&p);
             if (p == argv[i])
               ThrowInvalidArgumentException(option,argv[i]);
-            content_info->chunksize=(size_t) StringToDoubleInterval(argv[i],
-              100.0);
+            value=StringToDoubleInterval(argv[i],100.0);
+            if ((value < 1.0) || (value > 4294967295.0))
+              ThrowInvalidArgumentException(option,argv[i]);
+            content_info->chunksize=(size_t) value;
             break;
           }
         ThrowCipherException(OptionFatalError,"unrecognized option: `%s'",
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 9fc0558..02bbd97 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -296,12 +296,13 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
             if (i == (ssize_t) argc)
               ThrowCipherException(OptionError,"missing chunk size: `%s'",
                 option);
-            value=StringToDouble(argv[i],&p);
-            (void) value;
+            (void) StringToDouble(argv[i],&p);
             if (p == argv[i])
               ThrowInvalidArgumentException(option,argv[i]);
-            content_info->chunksize=(size_t) StringToDoubleInterval(argv[i],
-              100.0);
+            value=StringToDoubleInterval(argv[i],100.0);
+            if ((value < 1.0) || (value > 4294967295.0))
+              ThrowInvalidArgumentException(option,argv[i]);
+            content_info->chunksize=(size_t) value;
             break;
           }
         ThrowCipherException(OptionFatalError,"unrecognized option: `%s'",
-- 
2.43.0


From b0dfa9f712163bf9a6f570c47a5c2e493e77ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:51 +0000
Subject: [PATCH 033/117] fix: terminate on any bytes in front of or within the
 content properties

---
 utilities/content.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 8bd4a32..f10633d 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -235,6 +235,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   digest=(char *) NULL;
   for (c=ReadBlobByte(cipher_blob); (c != '>') && (c != EOF); )
   {
+    if (isgraph(c) == WizardFalse)
+      {
+        c=ReadBlobByte(cipher_blob);
+        continue;
+      }
     length=WizardPathExtent;
     options=AcquireString((char *) NULL);
     while ((isgraph(c) != WizardFalse) && (c != '>') && (c != EOF))
@@ -256,7 +261,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
               break;
             if (c == (int) '=')
               break;
-            if ((size_t) (p-key) < WizardPathExtent)
+            if ((size_t) (p-key+1) < WizardPathExtent)
               *p++=(char) c;
             c=ReadBlobByte(cipher_blob);
           } while (c != EOF);
@@ -389,7 +394,10 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     tag=GetXMLTreeTag(node);
     content=GetXMLTreeContent(node);
     if (strncmp(tag,"cipher:",7) != 0)
-      continue;
+      {
+        node=GetXMLTreeSibling(node);
+        continue;
+      }
     tag+=7;
     switch (*tag)
     {
-- 
2.43.0


From 202e45b3f61d3561c02bff6999d669fa0d47271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:51 +0000
Subject: [PATCH 034/117] fix: refuse content properties that are cut short or
 of an absurd length

---
 utilities/content.c | 19 +++++++++++++++----
 utilities/content.h |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index f10633d..03782b7 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -338,7 +338,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     }
     options=DestroyString(options);
   }
-  if ((bytes == 0) || (digest == (char *) NULL))
+  if ((bytes == 0) || (bytes > CipherPropertiesExtent) ||
+      (digest == (char *) NULL))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
         "authentication error: `%s'",GetBlobFilename(cipher_blob));
@@ -349,9 +350,15 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   */
   c=ReadBlobByte(cipher_blob);
   properties=AcquireStringInfo(bytes);
-  count=ReadBlob(cipher_blob,bytes,GetStringInfoDatum(properties));
+  count=ReadBlobChunk(cipher_blob,bytes,GetStringInfoDatum(properties));
   if (count != (ssize_t) bytes)
-    ThrowFileException(exception,FileError,GetBlobFilename(cipher_blob));
+    {
+      digest=DestroyString(digest);
+      properties=DestroyStringInfo(properties);
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   GetStringInfoDatum(properties)[bytes]='\0';
   hash_info=AcquireHashInfo(SHA2256Hash);
   InitializeHash(hash_info);
@@ -377,7 +384,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   rdf=NewXMLTree((const char *) GetStringInfoDatum(properties),exception);
   properties=DestroyStringInfo(properties);
   if (rdf == (XMLTreeInfo *) NULL)
-    return(WizardFalse);
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   child=GetXMLTreeChild(rdf,"cipher:Content");
   if (child == (XMLTreeInfo *) NULL)
     child=GetXMLTreeChild(rdf,"rdf:Description");
diff --git a/utilities/content.h b/utilities/content.h
index 6219620..3f25ff3 100644
--- a/utilities/content.h
+++ b/utilities/content.h
@@ -22,6 +22,7 @@
 extern "C" {
 #endif
 
+#define CipherPropertiesExtent  1048576
 #define CipherProtocolMajor  1
 #define CipherProtocolMinor  0 
 
-- 
2.43.0


From d309a16f2829f553c929ee495cbf56a2b35fd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:51 +0000
Subject: [PATCH 035/117] fix: refuse a content whose properties do not end
 with their trailer

---
 utilities/content.c | 18 ++++++++++++------
 utilities/content.h |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 03782b7..f7d308e 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -198,6 +198,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
 
   const char
     *content,
+    *p,
     *tag;
 
   HashInfo
@@ -604,14 +605,19 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   /*
     Consume trailer (i.e. <?cipherpacket?>).
   */
-  while ((c != EOF) && (c != '>'))
+  do
   {
     c=ReadBlobByte(cipher_blob);
-    while (isspace((int) ((unsigned char) c)) != 0)
-      c=ReadBlobByte(cipher_blob);
-  }
-  c=ReadBlobByte(cipher_blob);
-  c=ReadBlobByte(cipher_blob);
+  } while (isspace((int) ((unsigned char) c)) != 0);
+  for (p=CipherTrailer; (*p != '\0') && (c == (int) *p); p++)
+    c=ReadBlobByte(cipher_blob);
+  if ((*p != '\0') || (c != (int) '\f') ||
+      (ReadBlobByte(cipher_blob) != (int) '\n'))
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   return(WizardTrue);
 }
 
diff --git a/utilities/content.h b/utilities/content.h
index 3f25ff3..c61d866 100644
--- a/utilities/content.h
+++ b/utilities/content.h
@@ -25,6 +25,7 @@ extern "C" {
 #define CipherPropertiesExtent  1048576
 #define CipherProtocolMajor  1
 #define CipherProtocolMinor  0 
+#define CipherTrailer  "<?cipherpacket?>"
 
 typedef struct _ContentInfo
 {
-- 
2.43.0


From f52a4e7e717707c1c781bae73906221b2b7f8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:51 +0000
Subject: [PATCH 036/117] fix: refuse content properties with an unrecognized
 option

---
 utilities/content.c | 62 +++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index f7d308e..cff2473 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -220,6 +220,9 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
   StringInfo
     *properties;
 
+  WizardBooleanType
+    status;
+
   XMLTreeInfo
     *child,
     *node,
@@ -400,6 +403,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
         "authentication error: `%s'",GetBlobFilename(cipher_blob));
       return(WizardFalse);
     }
+  status=WizardTrue;
   node=GetXMLTreeChild(child,(const char *) NULL);
   while (node != (XMLTreeInfo *) NULL)
   {
@@ -423,8 +427,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
             method=ParseWizardOption(WizardAuthenticateOptions,WizardFalse,
               content);
             if (method < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized authentication method: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized authentication method: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->authenticate_method=(AuthenticateMethod) method;
             break;
           }
@@ -452,8 +459,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardEntropyOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized entropy type: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized entropy type: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->entropy=(EntropyType) type;
             break;
           }
@@ -465,8 +475,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardHashOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized HMAC hash: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized HMAC hash: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->hmac=(HashType) type;
             break;
           }
@@ -487,8 +500,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardHashOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized key hash: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized key hash: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->key_hash=(HashType) type;
             break;
           }
@@ -507,8 +523,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
             type=ParseWizardOption(WizardEntropyLevelOptions,WizardFalse,
               content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized entropy level: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized entropy level: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->level=(unsigned int) type;
             break;
           }
@@ -520,8 +539,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardModeOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized cipher mode: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized cipher mode: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->mode=(CipherMode) type;
             break;
           }
@@ -549,8 +571,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardHashOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized random hash: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized random hash: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->random_hash=(HashType) type;
             break;
           }
@@ -578,8 +603,11 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           {
             type=ParseWizardOption(WizardCipherOptions,WizardFalse,content);
             if (type < 0)
-              (void) ThrowWizardException(exception,GetWizardModule(),
-                OptionError,"unrecognized cipher type: `%s'",content);
+              {
+                (void) ThrowWizardException(exception,GetWizardModule(),
+                  OptionError,"unrecognized cipher type: `%s'",content);
+                status=WizardFalse;
+              }
             content_info->cipher=(CipherType) type;
             break;
           }
@@ -602,6 +630,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     node=GetXMLTreeSibling(node);
   }
   rdf=DestroyXMLTree(rdf);
+  if (status == WizardFalse)
+    return(WizardFalse);
   /*
     Consume trailer (i.e. <?cipherpacket?>).
   */
-- 
2.43.0


From 54f5af7761760299a996676d79975788c7f798f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:20 +0000
Subject: [PATCH 037/117] fix: decipher a last chunk that fills the chunk size
 and refuse a partial one

---
 utilities/content.c  | 10 ++++++
 utilities/content.h  |  2 +-
 utilities/decipher.c | 75 +++++++++++++++++++++++++++++++++-----------
 utilities/encipher.c |  8 +++--
 4 files changed, 74 insertions(+), 21 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index cff2473..3137b87 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -565,6 +565,16 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
           }
         break;
       }
+      case 'p':
+      {
+        if (strcmp(tag,"protocol") == 0)
+          {
+            (void) sscanf(content,"%u.%u",&content_info->protocol_major,
+              &content_info->protocol_minor);
+            break;
+          }
+        break;
+      }
       case 'r':
       {
         if (strcmp(tag,"random-hash") == 0)
diff --git a/utilities/content.h b/utilities/content.h
index c61d866..f8fea07 100644
--- a/utilities/content.h
+++ b/utilities/content.h
@@ -24,7 +24,7 @@ extern "C" {
 
 #define CipherPropertiesExtent  1048576
 #define CipherProtocolMajor  1
-#define CipherProtocolMinor  0 
+#define CipherProtocolMinor  1
 #define CipherTrailer  "<?cipherpacket?>"
 
 typedef struct _ContentInfo
diff --git a/utilities/decipher.c b/utilities/decipher.c
index a1c42fd..f0a063b 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -623,6 +623,23 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
 %    o exception: return any exceptions in this structure.
 %
 */
+static ssize_t ReadCipherChunk(BlobInfo *blob_info,const size_t length,
+  unsigned char *data,int *next)
+{
+  ssize_t
+    count;
+
+  /*
+    Read a chunk and look ahead to the byte that follows it.
+  */
+  if (*next == EOF)
+    return(0);
+  *data=(unsigned char) (*next);
+  count=ReadBlobChunk(blob_info,length-1,data+1)+1;
+  *next=ReadBlobByte(blob_info);
+  return(count);
+}
+
 static WizardBooleanType DecipherContent(ContentInfo *content_info,
   const char *cipher_filename,const char *plain_filename,
   const WizardBooleanType compress,ExceptionInfo *exception)
@@ -640,6 +657,9 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   EntropyType
     entropy;
 
+  int
+    next;
+
   size_t
     blocksize,
     length,
@@ -749,32 +769,55 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   if (pad == blocksize)
     pad=0;
   ciphertext=AcquireStringInfo(content_info->chunksize);
-  for (chunk=0; ; chunk++)
+  next=ReadBlobByte(content_info->cipherblob);
+  for (chunk=0; next != EOF; chunk++)
   {
+    (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher "
+      "chunk #%.20g `%s'",(double) chunk,cipher_filename);
     if (content_info->hmac != NoHash)
       {
         length=GetStringInfoLength(hmac);
-        count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-          hmac));
-        if (count <= 0)
-          break;
+        count=ReadCipherChunk(content_info->cipherblob,length,
+          GetStringInfoDatum(hmac),&next);
+        if (next == EOF)
+          {
+            /*
+              Until protocol 1.1, a full chunk was followed by bare padding.
+            */
+            if ((content_info->protocol_major == 1) &&
+                (content_info->protocol_minor == 0) && (chunk != 0) &&
+                (content_info->mode != CFBMode) && (pad == 0) &&
+                (count == (ssize_t) blocksize))
+              break;
+            ThrowDecipherContentException(FileError,"%s: `%s'",message);
+          }
       }
     if (content_info->entropy != NoEntropy)
-      entropy=(EntropyType) ReadBlobByte(content_info->cipherblob);
+      {
+        unsigned char
+          type;
+
+        (void) ReadCipherChunk(content_info->cipherblob,1,&type,&next);
+        entropy=(EntropyType) type;
+      }
     length=content_info->chunksize;
     if (content_info->mode != CFBMode)
       length+=pad;
     SetStringInfoLength(ciphertext,length);
-    count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-      ciphertext));
-    if (count <= 0)
-      break;
+    count=ReadCipherChunk(content_info->cipherblob,length,GetStringInfoDatum(
+      ciphertext),&next);
     length=(size_t) count;
+    if ((length == 0) ||
+        ((content_info->mode != CFBMode) && ((length % blocksize) != 0)))
+      ThrowDecipherContentException(FileError,"%s: `%s'",message);
     SetStringInfoLength(ciphertext,length);
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
-    if ((content_info->mode != CFBMode) &&
-        ((pad != 0) || (EOFBlob(content_info->cipherblob) != WizardFalse)))
-      length-=GetStringInfoDatum(plaintext)[length-1]+1;
+    if ((content_info->mode != CFBMode) && ((pad != 0) || (next == EOF)))
+      {
+        if ((size_t) GetStringInfoDatum(plaintext)[length-1] >= blocksize)
+          ThrowDecipherContentException(FileError,"%s: `%s'",message);
+        length-=GetStringInfoDatum(plaintext)[length-1]+1;
+      }
     SetStringInfoLength(plaintext,length);
     if (entropy != NoEntropy)
       {
@@ -790,11 +833,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
           content_info->authenticate_info),plaintext);
         if (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0)
-          {
-            (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher "
-              "chunk #%.20g `%s'",(double) chunk,cipher_filename);
-            ThrowDecipherContentException(FileError,"%s: `%s'",message);
-          }
+          ThrowDecipherContentException(FileError,"%s: `%s'",message);
       }
     count=WriteBlobChunk(content_info->plainblob,length,GetStringInfoDatum(
       plaintext));
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 02bbd97..721a759 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -841,9 +841,13 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
     SetStringInfoLength(plaintext,content_info->chunksize);
     count=ReadBlobChunk(content_info->plainblob,content_info->chunksize,
       GetStringInfoDatum(plaintext));
-    if (count <= 0)
+    if ((count <= 0) && ((content_info->mode == CFBMode) ||
+        (pad != blocksize) || (length != content_info->chunksize)))
       break;
-    length=(size_t) count;
+    /*
+      A content that ends with a full chunk is followed by an empty one.
+    */
+    length=(size_t) (count < 0 ? 0 : count);
     SetStringInfoLength(plaintext,length);
     if (content_info->hmac != NoHash)
       {
-- 
2.43.0


From befc62d391ac2377052df1f998094accf13843f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:14 +0000
Subject: [PATCH 038/117] fix: accept the documented option for the random hash

---
 utilities/decipher.c | 21 +++++++++++++++++++++
 utilities/encipher.c | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index f0a063b..b460ba9 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -536,6 +536,27 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
           option);
         break;
       }
+      case 'r':
+      {
+        if (LocaleCompare("random",option+1) == 0)
+          {
+            if (*option == '+')
+              break;
+            i++;
+            if (i == (ssize_t) argc)
+              ThrowCipherException(OptionError,"missing random hash: `%s'",
+                option);
+            type=ParseWizardOption(WizardHashOptions,WizardFalse,argv[i]);
+            if (type < 0)
+              ThrowCipherException(OptionFatalError,"unrecognized random hash: "
+                "`%s'",argv[i]);
+            content_info->random_hash=(HashType) type;
+            break;
+          }
+        ThrowCipherException(OptionFatalError,"unrecognized option: `%s'",
+          option);
+        break;
+      }
       case 't':
       {
         if (LocaleCompare(option+1,"true-random") == 0)
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 721a759..9c917e2 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -536,6 +536,27 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
           option);
         break;
       }
+      case 'r':
+      {
+        if (LocaleCompare("random",option+1) == 0)
+          {
+            if (*option == '+')
+              break;
+            i++;
+            if (i == (ssize_t) argc)
+              ThrowCipherException(OptionError,"missing random hash: `%s'",
+                option);
+            type=ParseWizardOption(WizardHashOptions,WizardFalse,argv[i]);
+            if (type < 0)
+              ThrowCipherException(OptionFatalError,"unrecognized random hash: "
+                "`%s'",argv[i]);
+            content_info->random_hash=(HashType) type;
+            break;
+          }
+        ThrowCipherException(OptionFatalError,"unrecognized option: `%s'",
+          option);
+        break;
+      }
       case 't':
       {
         if (LocaleCompare(option+1,"true-random") == 0)
-- 
2.43.0


From a93c5713adabc30f4998d28cba890352ba5818e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:45 +0000
Subject: [PATCH 039/117] fix: recognize the documented (de)compress option

---
 utilities/decipher.c | 4 +++-
 utilities/encipher.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index b460ba9..18b0fc1 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -212,7 +212,9 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
   for (i=1; i < (ssize_t) argc; i++)
   {
     option=argv[i];
-    if (IsWizardOption(option) == WizardFalse)
+    if ((IsWizardOption(option) == WizardFalse) &&
+        (LocaleCompare(option,"-(de)compress") != 0) &&
+        (LocaleCompare(option,"+(de)compress") != 0))
       {
         if (plain_filename == (char *) NULL)
           plain_filename=option;
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 9c917e2..b5331c7 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -213,7 +213,9 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
   for (i=1; i < (ssize_t) argc; i++)
   {
     option=argv[i];
-    if (IsWizardOption(option) == WizardFalse)
+    if ((IsWizardOption(option) == WizardFalse) &&
+        (LocaleCompare(option,"-(de)compress") != 0) &&
+        (LocaleCompare(option,"+(de)compress") != 0))
       {
         if (plain_filename == (char *) NULL)
           plain_filename=option;
-- 
2.43.0


From ab72c16ce09503a1c5731f6fe93585b75a1ff429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 040/117] fix: wait for a file lock that vanishes or belongs to
 another user

---
 wizard/file.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..c7e7ae4 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -160,7 +160,12 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
           break;
         file_info->file=open_utf8(path,O_RDONLY,0);
         if (file_info->file == -1)
-          break;
+          {
+            if (errno != ENOENT)
+              break;
+            i--;
+            continue;
+          }
         pid=(-1);
         tid=(~0UL);
         status=ReadFileChunk(file_info,&pid,sizeof(pid));
@@ -191,13 +196,11 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
                 CloseHandle(handle);
             }
 #else
-            active_process=kill((pid_t) pid,0) == -1 ? WizardFalse : WizardTrue;
+            active_process=(kill((pid_t) pid,0) == -1) && (errno == ESRCH) ?
+              WizardFalse : WizardTrue;
 #endif
             if (active_process == WizardFalse)
               {
-                if (errno != ESRCH)
-                  break;
-                i--;
                 if (remove_utf8(path) == -1)
                   (void) ThrowWizardException(exception,GetWizardModule(),
                     FileError,"unable to remove file `%s': %s",path,
-- 
2.43.0


From 8ed5864a0f697f28d89dc769826d8d9eafe6fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 041/117] fix: take over the file lock of a process that no
 longer exists

---
 wizard/file.c | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index c7e7ae4..c1f3262 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -55,6 +55,8 @@
 #endif
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
 #include <windows.h>
+#else
+#include <sys/file.h>
 #endif
 
 /*
@@ -124,6 +126,44 @@ static size_t GetWizardThreadId(void)
 #endif
 }
 
+static void RemoveFileLock(const char *path,const ssize_t pid,const size_t tid)
+{
+  int
+    file;
+
+  size_t
+    lock_tid;
+
+  ssize_t
+    lock_pid;
+
+  struct stat
+    lock_properties,
+    path_properties;
+
+  /*
+    Remove an abandoned lock unless it was replaced in the meantime.  A lock
+    without an owner is given some time to be claimed.
+  */
+  file=open_utf8(path,O_RDONLY,0);
+  if (file == -1)
+    return;
+  lock_pid=(-1);
+  lock_tid=(~0UL);
+#if !defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+  (void) flock(file,LOCK_EX);
+#endif
+  if ((read(file,&lock_pid,sizeof(lock_pid)) >= 0) &&
+      (read(file,&lock_tid,sizeof(lock_tid)) >= 0) &&
+      (lock_pid == pid) && (lock_tid == tid) &&
+      (fstat(file,&lock_properties) == 0) &&
+      (stat(path,&path_properties) == 0) &&
+      (lock_properties.st_ino == path_properties.st_ino) &&
+      ((tid != ~0UL) || ((time((time_t *) NULL)-lock_properties.st_mtime) > 10)))
+    (void) remove_utf8(path);
+  (void) close(file);
+}
+
 static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   ExceptionInfo *exception)
 {
@@ -201,13 +241,12 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
 #endif
             if (active_process == WizardFalse)
               {
-                if (remove_utf8(path) == -1)
-                  (void) ThrowWizardException(exception,GetWizardModule(),
-                    FileError,"unable to remove file `%s': %s",path,
-                    strerror(errno));
-                break;
+                RemoveFileLock(path,pid,tid);
+                continue;
               }
           }
+        else
+          RemoveFileLock(path,pid,tid);
         WizardDelay(1000);
         continue;
       }
-- 
2.43.0


From 4a7fe37c856e0ee9ae80d8aaba113e24b38fed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 042/117] fix: release a file lock only where it was acquired

---
 wizard/file.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index c1f3262..762fdce 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -79,6 +79,9 @@ struct _FileInfo
   struct stat
     properties;
 
+  WizardBooleanType
+    locked;
+
   SemaphoreInfo
     *semaphore;
 
@@ -253,13 +256,17 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
-    status=WriteFileChunk(file_info,&tid,sizeof(tid));
+    status&=WriteFileChunk(file_info,&tid,sizeof(tid));
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
     file_info->file=(-1);
     if (status == WizardFalse)
-      break;
+      {
+        (void) remove_utf8(path);
+        break;
+      }
+    file_info->locked=WizardTrue;
     i--;
   }
   path=DestroyString(path);
@@ -482,7 +489,8 @@ WizardExport FileInfo *DestroyFileInfo(FileInfo *file_info,
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",file_info->path,strerror(errno));
   file_info->file=(-1);
-  (void) RelinquishFileLock(file_info,exception);
+  if (file_info->locked != WizardFalse)
+    (void) RelinquishFileLock(file_info,exception);
   if (file_info->path != (char *) NULL)
     file_info->path=DestroyString(file_info->path);
   file_info->signature=(~WizardSignature);
-- 
2.43.0


From cd7d798b51eaa161926bf68d6131ef80f96fd801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 043/117] fix: report a file that cannot be locked

---
 wizard/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/file.c b/wizard/file.c
index 762fdce..1b8af47 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -269,6 +269,8 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
     file_info->locked=WizardTrue;
     i--;
   }
+  (void) ThrowWizardException(exception,GetWizardModule(),FileError,
+    "unable to lock file `%s': %s",path,strerror(errno));
   path=DestroyString(path);
   UnlockSemaphoreInfo(file_info->semaphore);
   return(WizardFalse);
-- 
2.43.0


From 3c125902c2034c26ed05c8dd0b0a2bc3fbdbc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 044/117] fix: do not repeat a read or write at the end of a
 file after an interrupt

---
 wizard/file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 1b8af47..8a06ac3 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -671,7 +671,9 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
   {
     count=read(file_info->file,(unsigned char *) data+i,Min(length-i,(size_t)
       WizardMaxBufferExtent));
-    if (count <= 0)
+    if (count == 0)
+      break;
+    if (count < 0)
       {
         count=0;
         if (errno != EINTR)
@@ -915,7 +917,9 @@ WizardExport WizardBooleanType WriteFileChunk(FileInfo *file_info,
   for (i=0; i < (ssize_t) length; i+=count)
   {
     count=write(file_info->file,(unsigned char *) data+i,length-i);
-    if (count <= 0)
+    if (count == 0)
+      break;
+    if (count < 0)
       {
         count=0;
         if (errno != EINTR)
-- 
2.43.0


From 6e93aa2c3cc70a91dc8f36aa2ed5ba36d440c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:59 +0000
Subject: [PATCH 045/117] fix: report a corrupt keyring instead of ending on an
 assertion

---
 wizard/keyring.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 7283079..0d974e8 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -230,9 +230,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -244,9 +244,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -257,9 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   {
     if (signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     keyring_info->signature=signature;
@@ -275,9 +275,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -286,9 +286,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -297,9 +297,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -320,9 +320,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
@@ -476,10 +476,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
         strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
@@ -606,9 +606,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -633,9 +633,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   {
     if (keyring_info.signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     status&=ReadFile32Bits(file_info,&length);
@@ -650,9 +650,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -661,9 +661,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -672,9 +672,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -714,9 +714,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
-- 
2.43.0


From 66327581541d5ff8cae271eee615086c17231673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:59 +0000
Subject: [PATCH 046/117] fix: report a corrupt random reservoir instead of
 ending on an assertion

---
 wizard/random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..d997fdf 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -689,9 +689,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -706,9 +706,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     {
       filetype=DestroyStringInfo(filetype);
       target=DestroyStringInfo(target);
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -727,9 +727,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
   status&=ReadFile32Bits(file_info,&length);
   if (status == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
-- 
2.43.0


From 90f43c76a16fb677523e1ed74406a4b5cfe79e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:34 +0000
Subject: [PATCH 047/117] fix: refuse a keyring whose lengths exceed the file

---
 wizard/keyring.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 0d974e8..2ae55e3 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -273,7 +273,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
       status&=ReadFile64Bits(file_info,&timestamp);
     keyring_info->timestamp=(time_t) timestamp;
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -284,7 +285,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
       GetStringInfoLength(id));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -295,7 +297,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
       GetStringInfoLength(key));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -648,7 +651,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       status&=ReadFile64Bits(file_info,&timestamp);
     keyring_info.timestamp=(time_t) timestamp;
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -659,7 +663,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
       GetStringInfoLength(id));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -670,7 +675,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
       GetStringInfoLength(key));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || ((WizardSizeType) length >
+        (WizardSizeType) GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
-- 
2.43.0


From ae3e833602f575a936a1dff058f3d3aac9f6bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:34 +0000
Subject: [PATCH 048/117] fix: never return a key whose keyring record is cut
 off

---
 wizard/keyring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 2ae55e3..fdae64e 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -308,7 +308,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     nonce=AcquireStringInfo(length);
     status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
       GetStringInfoLength(nonce));
-    if (CompareStringInfo(keyring_info->id,id) == 0)
+    if ((status != WizardFalse) &&
+        (CompareStringInfo(keyring_info->id,id) == 0))
       {
         SetKeyringKey(keyring_info,key);
         SetKeyringNonce(keyring_info,nonce);
-- 
2.43.0


From f8b682708f79bee1f353d5fabb02e86133e15914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:34 +0000
Subject: [PATCH 049/117] fix: searching a keyring leaves the properties of the
 key alone

---
 wizard/keyring.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index fdae64e..2083a87 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -213,6 +213,10 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     length,
     signature;
 
+  unsigned short
+    protocol_major,
+    protocol_minor;
+
   WizardSizeType
     timestamp;
 
@@ -253,6 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   target=DestroyStringInfo(target);
   signature=0;
   length=0;
+  protocol_major=0;
+  protocol_minor=0;
+  timestamp=0;
   while (ReadFile32Bits(file_info,&signature) != 0)
   {
     if (signature != WizardSignature)
@@ -262,16 +269,13 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
-    keyring_info->signature=signature;
     status&=ReadFile32Bits(file_info,&length);
-    status&=ReadFile16Bits(file_info,&keyring_info->protocol_major);
-    status&=ReadFile16Bits(file_info,&keyring_info->protocol_minor);
-    if ((keyring_info->protocol_major == 1) &&
-        (keyring_info->protocol_minor == 0))
+    status&=ReadFile16Bits(file_info,&protocol_major);
+    status&=ReadFile16Bits(file_info,&protocol_minor);
+    if ((protocol_major == 1) && (protocol_minor == 0))
       timestamp=(time_t) length;
     else
       status&=ReadFile64Bits(file_info,&timestamp);
-    keyring_info->timestamp=(time_t) timestamp;
     status&=ReadFile32Bits(file_info,&length);
     if ((status == WizardFalse) || ((WizardSizeType) length >
         (WizardSizeType) GetFileProperties(file_info)->st_size))
@@ -311,6 +315,7 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     if ((status != WizardFalse) &&
         (CompareStringInfo(keyring_info->id,id) == 0))
       {
+        keyring_info->timestamp=(time_t) timestamp;
         SetKeyringKey(keyring_info,key);
         SetKeyringNonce(keyring_info,nonce);
         nonce=DestroyStringInfo(nonce);
-- 
2.43.0


From 8d42483cfa413d996092822aca0e8560d9663bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:34 +0000
Subject: [PATCH 050/117] fix: report a keyring that ends with a partial record

---
 wizard/keyring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 2083a87..c0c7136 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -335,6 +335,10 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
         return(WizardFalse);
       }
   }
+  if (lseek(GetFileDescriptor(file_info),0,SEEK_CUR) !=
+      GetFileProperties(file_info)->st_size)
+    (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+      "corrupt key ring file `%s'",GetFilePath(file_info));
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardFalse);
 }
-- 
2.43.0


From 4c4754c06af8167c9091f7d5794e2e00485d20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:34 +0000
Subject: [PATCH 051/117] fix: do not import a key into a corrupt keyring

---
 wizard/keyring.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index c0c7136..8e41faa 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -431,12 +431,18 @@ WizardExport const StringInfo *GetKeyringNonce(const KeyringInfo *keyring_info)
 WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   ExceptionInfo *exception)
 {
+  ExceptionInfo
+    *sans;
+
   FileInfo
     *file_info;
 
   KeyringInfo
     *import_info;
 
+  WizardBooleanType
+    corrupt;
+
   WizardStatusType
     status;
 
@@ -456,7 +462,17 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
   import_info=AcquireKeyringInfo(keyring_info->path);
   SetKeyringId(import_info,keyring_info->id);
-  if (ExportKeyringKey(import_info,exception) != WizardFalse)
+  sans=AcquireExceptionInfo();
+  status=ExportKeyringKey(import_info,sans);
+  corrupt=GetExceptionSeverity(sans) == KeyringError ? WizardTrue : WizardFalse;
+  InheritException(exception,sans);
+  sans=DestroyExceptionInfo(sans);
+  if (corrupt != WizardFalse)
+    {
+      import_info=DestroyKeyringInfo(import_info);
+      return(WizardFalse);
+    }
+  if (status != WizardFalse)
     {
       char
         *id;
-- 
2.43.0


From 899fb49d36072aa4de75a7508df62177aef8d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:12 +0000
Subject: [PATCH 052/117] fix: a key is added to a keyring as a whole or not at
 all

---
 wizard/keyring.c | 94 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 8e41faa..da9dd72 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -228,6 +228,11 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     exception);
   if (file_info == (FileInfo *) NULL)
     return(WizardFalse);
+  if (GetFileProperties(file_info)->st_size == 0)
+    {
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
   magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
   target=CloneStringInfo(magick);
   status=ReadFileChunk(file_info,GetStringInfoDatum(target),
@@ -428,6 +433,22 @@ WizardExport const StringInfo *GetKeyringNonce(const KeyringInfo *keyring_info)
 %    o exception: Return any errors or warnings in this structure.
 %
 */
+static void ConcatenateKeyringBits(StringInfo *record,const size_t bits,
+  const WizardSizeType value)
+{
+  size_t
+    i;
+
+  StringInfo
+    *field;
+
+  field=AcquireStringInfo(bits/8);
+  for (i=0; i < (bits/8); i++)
+    GetStringInfoDatum(field)[i]=(unsigned char) (value >> (8*i));
+  ConcatenateStringInfo(record,field);
+  field=DestroyStringInfo(field);
+}
+
 WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   ExceptionInfo *exception)
 {
@@ -446,12 +467,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   WizardStatusType
     status;
 
-  size_t
-    length;
-
   StringInfo
     *filetype,
-    *magick;
+    *magick,
+    *record;
 
   WizardOffsetType
     offset;
@@ -493,15 +512,6 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
     exception);
   if (file_info == (FileInfo *) NULL)
     return(WizardFalse);
-  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
-  status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
-    GetStringInfoLength(magick));
-  magick=DestroyStringInfo(magick);
-  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
-    strlen(KeyringFiletype));
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
-    GetStringInfoLength(filetype));
-  filetype=DestroyStringInfo(filetype);
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
@@ -511,28 +521,46 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
-  status&=WriteFile32Bits(file_info,keyring_info->signature);
-  status&=WriteFile32Bits(file_info,0U);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_major);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_minor);
-  status&=WriteFile64Bits(file_info,(WizardSizeType) keyring_info->timestamp);
-  length=GetStringInfoLength(keyring_info->id);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->id),length);
-  length=GetStringInfoLength(keyring_info->key);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->key),
-    length);
-  length=GetStringInfoLength(keyring_info->nonce);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
-    length);
+  /*
+    Write the key with a single request and take it back if it did not fit.
+  */
+  record=AcquireStringInfo(0);
+  if (offset == 0)
+    {
+      magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
+      ConcatenateStringInfo(record,magick);
+      magick=DestroyStringInfo(magick);
+      filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
+        strlen(KeyringFiletype));
+      ConcatenateStringInfo(record,filetype);
+      filetype=DestroyStringInfo(filetype);
+    }
+  ConcatenateKeyringBits(record,32,keyring_info->signature);
+  ConcatenateKeyringBits(record,32,0U);
+  ConcatenateKeyringBits(record,16,keyring_info->protocol_major);
+  ConcatenateKeyringBits(record,16,keyring_info->protocol_minor);
+  ConcatenateKeyringBits(record,64,(WizardSizeType) keyring_info->timestamp);
+  ConcatenateKeyringBits(record,32,GetStringInfoLength(keyring_info->id));
+  ConcatenateStringInfo(record,keyring_info->id);
+  ConcatenateKeyringBits(record,32,GetStringInfoLength(keyring_info->key));
+  ConcatenateStringInfo(record,keyring_info->key);
+  ConcatenateKeyringBits(record,32,GetStringInfoLength(keyring_info->nonce));
+  ConcatenateStringInfo(record,keyring_info->nonce);
+  status=WriteFileChunk(file_info,GetStringInfoDatum(record),
+    GetStringInfoLength(record));
+  record=DestroyStringInfo(record);
   if (status == WizardFalse)
-    (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-      "unable to write keyring `%s': %s",GetFilePath(file_info),
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to write keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      if (ftruncate(GetFileDescriptor(file_info),offset) == -1)
+        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+          "unable to restore keyring `%s': %s",GetFilePath(file_info),
+          strerror(errno));
+    }
   file_info=DestroyFileInfo(file_info,exception);
-  return(WizardTrue);
+  return(status != 0 ? WizardTrue : WizardFalse);
 }
 
 /*
-- 
2.43.0


From c4a5d667c7d5265ec2dc1f300bee994203e483d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:12 +0000
Subject: [PATCH 053/117] fix: report a secret key that cannot be stored in the
 keyring

---
 wizard/keyring.c | 7 ++++++-
 wizard/secret.c  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index da9dd72..8995fd3 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -511,7 +511,12 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
     exception);
   if (file_info == (FileInfo *) NULL)
-    return(WizardFalse);
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to open keyring `%s': %s",keyring_info->path !=
+        (char *) NULL ? keyring_info->path : KeyringFilename,strerror(errno));
+      return(WizardFalse);
+    }
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
diff --git a/wizard/secret.c b/wizard/secret.c
index 38f0966..d55c5db 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -332,7 +332,7 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   status=ImportKeyringKey(secret_info->keyring_info,exception);
   phrase=DestroyStringInfo(phrase);
   key=DestroyStringInfo(key);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 1c97a7367d2b193ad1fe9fd70bc7e18df97143b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:12 +0000
Subject: [PATCH 054/117] fix: refuse a random reservoir whose length exceeds
 the file

---
 wizard/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wizard/random.c b/wizard/random.c
index d997fdf..f759927 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -724,8 +724,10 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
       status&=ReadFile64Bits(file_info,&timestamp);
       random_info->timestamp=(time_t) timestamp;
     }
+  length=0;
   status&=ReadFile32Bits(file_info,&length);
-  if (status == WizardFalse)
+  if ((status == WizardFalse) || ((WizardSizeType) length >
+      (WizardSizeType) GetFileProperties(file_info)->st_size))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
-- 
2.43.0


From 1de16e1388c5d1de4fd9da413dfeb2f9b0865737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:50 +0000
Subject: [PATCH 055/117] fix: an earlier interrupt does not repeat a read or
 write forever

---
 wizard/blob.c     | 4 ++++
 wizard/random.c   | 1 +
 wizard/string.c   | 1 +
 wizard/xml-tree.c | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index 7cb3ff6..1e97be3 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -598,6 +598,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       blob=(unsigned char *) AcquireQuantumMemory(quantum,sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,quantum);
         if (count <= 0)
           {
@@ -666,6 +667,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
           "unable to seek blob `%s': %s",filename,strerror(errno));
       for (i=0; i < *length; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,Min(*length-i,(size_t) SSIZE_MAX));
         if (count <= 0)
           {
@@ -1548,6 +1550,7 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=ReadBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (unsigned char *) data+i);
     if (count <= 0)
@@ -2143,6 +2146,7 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=WriteBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (const unsigned char *) data+i);
     if (count <= 0)
diff --git a/wizard/random.c b/wizard/random.c
index f759927..189b00d 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -345,6 +345,7 @@ static ssize_t ReadRandom(int file,unsigned char *source,size_t length)
   offset=0;
   for (q=source; length != 0; length-=count)
   {
+    errno=0;
     count=(ssize_t) read(file,q,length);
     if (count <= 0)
       {
diff --git a/wizard/string.c b/wizard/string.c
index ca70382..fea4c0d 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -600,6 +600,7 @@ WizardExport StringInfo *ConfigureFileToStringInfo(const char *filename)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,string+i,(size_t) WizardMin(length-i,(size_t)
           SSIZE_MAX));
         if (count <= 0)
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 65fa701..ce6c485 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -681,6 +681,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml=(char *) AcquireQuantumMemory(quantum,sizeof(*xml));
       for (i=0; xml != (char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,quantum);
         if (count <= 0)
           {
@@ -730,6 +731,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,(size_t) WizardMin(length-i,(ssize_t) SSIZE_MAX));
         if (count <= 0)
           {
-- 
2.43.0


From d80f12d5acd5572884af388db8b79dd9842f1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:55 +0000
Subject: [PATCH 056/117] fix: closing a blob reports an earlier read or write
 error

---
 wizard/blob.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 1e97be3..eaf231b 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -259,8 +259,11 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case FileStream:
     case PipeStream:
     {
-      if ((status != 0) && (ferror(blob_info->file_info.file) != 0))
-        ThrowBlobException(blob_info);
+      if (ferror(blob_info->file_info.file) != 0)
+        {
+          ThrowBlobException(blob_info);
+          status=blob_info->status;
+        }
       break;
     }
     case ZipStream:
@@ -305,27 +308,33 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     {
       if (blob_info->file_info.file != (FILE *) NULL)
         {
-          status=fclose(blob_info->file_info.file);
-          if (status != 0)
-            ThrowBlobException(blob_info);
+          if (fclose(blob_info->file_info.file) != 0)
+            {
+              ThrowBlobException(blob_info);
+              status=blob_info->status;
+            }
         }
       break;
     }
     case PipeStream:
     {
 #if defined(WIZARDSTOOLKIT_HAVE_POPEN)
-      status=pclose(blob_info->file_info.file);
-      if (status != 0)
-        ThrowBlobException(blob_info);
+      if (pclose(blob_info->file_info.file) != 0)
+        {
+          ThrowBlobException(blob_info);
+          status=blob_info->status;
+        }
 #endif
       break;
     }
     case ZipStream:
     {
 #if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
-      status=gzclose(blob_info->file_info.gzfile);
-      if (status != Z_OK)
-        ThrowBlobException(blob_info);
+      if (gzclose(blob_info->file_info.gzfile) != Z_OK)
+        {
+          ThrowBlobException(blob_info);
+          status=blob_info->status;
+        }
 #endif
       break;
     }
-- 
2.43.0


From 5c5a98f92e6b8d36204890ba65bbe9717fd0ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:43 +0000
Subject: [PATCH 057/117] fix: closing a bzip2 blob reports a write error

---
 wizard/blob.c | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index eaf231b..56fdff7 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -137,6 +137,9 @@ struct _BlobInfo
   BlobFileInfo
     file_info;
 
+  FILE
+    *bzip_file;
+
   struct stat
     properties;
 
@@ -341,7 +344,25 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case BZipStream:
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
-      BZ2_bzclose(blob_info->file_info.bzfile);
+      if (blob_info->bzip_file == (FILE *) NULL)
+        BZ2_bzclose(blob_info->file_info.bzfile);
+      else
+        {
+          int
+            bzip_status;
+
+          BZ2_bzWriteClose(&bzip_status,blob_info->file_info.bzfile,0,
+            (unsigned int *) NULL,(unsigned int *) NULL);
+          if (bzip_status != BZ_OK)
+            BZ2_bzWriteClose((int *) NULL,blob_info->file_info.bzfile,1,
+              (unsigned int *) NULL,(unsigned int *) NULL);
+          if ((fclose(blob_info->bzip_file) != 0) || (bzip_status != BZ_OK))
+            {
+              ThrowBlobException(blob_info);
+              status=blob_info->status;
+            }
+          blob_info->bzip_file=(FILE *) NULL;
+        }
 #endif
       break;
     }
@@ -1234,9 +1255,25 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
         if ((compress != WizardFalse) && (LocaleCompare(extension,"bz2") == 0))
           {
-            blob_info->file_info.bzfile=BZ2_bzopen(filename,"w");
-            if (blob_info->file_info.bzfile != (BZFILE *) NULL)
-              blob_info->type=BZipStream;
+            int
+              bzip_status;
+
+            /*
+              Own the file handle: bzip2 does not report if it cannot close it.
+            */
+            blob_info->bzip_file=fopen_utf8(filename,"wb");
+            if (blob_info->bzip_file != (FILE *) NULL)
+              {
+                blob_info->file_info.bzfile=BZ2_bzWriteOpen(&bzip_status,
+                  blob_info->bzip_file,9,0,30);
+                if (blob_info->file_info.bzfile != (BZFILE *) NULL)
+                  blob_info->type=BZipStream;
+                else
+                  {
+                    (void) fclose(blob_info->bzip_file);
+                    blob_info->bzip_file=(FILE *) NULL;
+                  }
+              }
           }
         else
 #endif
-- 
2.43.0


From 0ad28e8a490a399b75401cb221798cfcc2aada69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:17 +0000
Subject: [PATCH 058/117] fix: report a random reservoir that cannot be saved
 instead of ending on an assertion

---
 wizard/random.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 189b00d..4078023 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -226,10 +226,8 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
   entropy=DestroyStringInfo(entropy);
   exception=DestroyExceptionInfo(exception);
   if (status == WizardFalse)
-    {
-      random_info=DestroyRandomInfo(random_info);
-      return((RandomInfo *) NULL);
-    }
+    ThrowFatalException(RandomFatalError,"Failed to initialize random "
+      "reservoir `%s'");
   /*
     Seed pseudo random number generator.
   */
-- 
2.43.0


From 652333cbba8afaf27f13c146fd249c0f742a0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:10 +0000
Subject: [PATCH 059/117] fix: do not write beyond the key of an overlong
 digest tag

---
 utilities/digest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 4a290fc..49c248f 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -290,7 +290,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                 break;
               if (c == (int) '>')
                 break;
-              if ((size_t) (p-key) < WizardPathExtent)
+              if ((size_t) (p-key) < (WizardPathExtent-1))
                 *p++=(char) c;
               c=ReadBlobByte(digest_blob);
             } while (c != EOF);
-- 
2.43.0


From 566e8f34768fd0911fa11cb5b540686ce4269b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:10 +0000
Subject: [PATCH 060/117] fix: authenticating a digest file terminates on any
 bytes

---
 utilities/digest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 49c248f..9de4d80 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -267,11 +267,11 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     modify_date=ConstantString("unknown");
     timestamp=ConstantString("unknown");
     hash=SHA2256Hash;
-    for (c=ReadBlobByte(digest_blob); (c != '>') && (c != EOF); )
+    for (c=ReadBlobByte(digest_blob); c != EOF; )
     {
       length=WizardPathExtent;
       options=AcquireString((char *) NULL);
-      while ((isgraph(c) != WizardFalse) && (c != '>') && (c != EOF))
+      while (c != EOF)
       {
          char
           *p;
-- 
2.43.0


From 0287045fbf37f10fc6733fcecd4336bc555baa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:10 +0000
Subject: [PATCH 061/117] fix: report a digest file or authentication result
 that cannot be stored

---
 utilities/digest.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 9de4d80..8c174e5 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -499,7 +499,10 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
       modify_date=DestroyString(modify_date);
   }
   if (CloseBlob(authenticate_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   authenticate_blob=DestroyBlob(authenticate_blob);
   if (hash == UndefinedHash)
     ThrowDigestException(OptionError,"missing a digest RDF file: `%s'",
@@ -781,7 +784,10 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
   }
   (void) WriteBlobString(digest_blob,"</rdf:RDF>\n");
   if (CloseBlob(digest_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   /*
     Free resources.
   */
-- 
2.43.0


From 608c8246e147fd82a47c547f8e05d24bc4d3abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:10 +0000
Subject: [PATCH 062/117] fix: authenticate the digest of a file whose name is
 escaped in the digest file

---
 utilities/digest.c | 68 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 8c174e5..ae29a60 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -114,6 +114,58 @@ static void DigestUsage()
   Exit(0);
 }
 
+static void DecodeDigestPath(char *path)
+{
+  static const struct
+  {
+    const char
+      *entity;
+
+    char
+      code;
+  } entities[] =
+  {
+    { "&amp;", '&' },
+    { "&lt;", '<' },
+    { "&gt;", '>' },
+    { "&quot;", '"' },
+    { "&#xD;", '\r' },
+    { (const char *) NULL, '\0' }
+  };
+
+  char
+    *p,
+    *q;
+
+  ssize_t
+    i;
+
+  /*
+    Undo the conversion of the path to canonical XML content.
+  */
+  for (p=q=path; *p != '\0'; q++)
+  {
+    if ((((unsigned char) *p & 0xfc) == 0xc0) &&
+        (((unsigned char) *(p+1) & 0xc0) == 0x80))
+      {
+        *q=(char) (((*p & 0x03) << 6) | (*(p+1) & 0x3f));
+        p+=2;
+        continue;
+      }
+    for (i=0; entities[i].entity != (const char *) NULL; i++)
+      if (strncmp(p,entities[i].entity,strlen(entities[i].entity)) == 0)
+        break;
+    if (entities[i].entity == (const char *) NULL)
+      *q=(*p++);
+    else
+      {
+        *q=entities[i].code;
+        p+=strlen(entities[i].entity);
+      }
+  }
+  *q='\0';
+}
+
 static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   ExceptionInfo *exception)
 {
@@ -169,6 +221,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     *content;
 
   WizardBooleanType
+    quote,
     status;
 
   status=WizardFalse;
@@ -284,12 +337,18 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
               Get the key.
             */
             p=key;
+            quote=WizardFalse;
             do
             {
-              if (isspace((int) ((unsigned char) c)) != 0)
-                break;
-              if (c == (int) '>')
-                break;
+              if (c == (int) '"')
+                quote=quote == WizardFalse ? WizardTrue : WizardFalse;
+              if (quote == WizardFalse)
+                {
+                  if (isspace((int) ((unsigned char) c)) != 0)
+                    break;
+                  if (c == (int) '>')
+                    break;
+                }
               if ((size_t) (p-key) < (WizardPathExtent-1))
                 *p++=(char) c;
               c=ReadBlobByte(digest_blob);
@@ -382,6 +441,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                     if (path != (char *) NULL)
                       path=DestroyString(path);
                     path=ConstantString(key+10);
+                    DecodeDigestPath(path);
                     if (digest != (char *) NULL)
                       {
                         digest=DestroyString(digest);
-- 
2.43.0


From 155811c374e1d28050ba5b0b52206f1fc77d75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:07 +0000
Subject: [PATCH 063/117] fix: export a key from the keyrings of the command
 line without a crash

---
 utilities/keyring.c | 79 +++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index 1824b37..7ffcacf 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -120,6 +120,41 @@ static void KeyringUsage()
   exit(0);
 }
 
+static WizardBooleanType ExportKeyFromKeyring(const char *keyring,
+  const StringInfo *id,const char *filename,ExceptionInfo *exception)
+{
+  KeyringInfo
+    *keyring_info;
+
+  WizardBooleanType
+    status;
+
+  /*
+    Export key from keyring.
+  */
+  keyring_info=AcquireKeyringInfo(keyring);
+  SetKeyringId(keyring_info,id);
+  status=ExportKeyringKey(keyring_info,exception);
+  if (status == WizardFalse)
+    {
+      char
+        *hex_id;
+
+      hex_id=StringInfoToHexString(id);
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "no such key `%s': `%s'",hex_id,keyring == (const char *) NULL ? "" :
+        keyring);
+      hex_id=DestroyString(hex_id);
+    }
+  else
+    {
+      SetKeyringPath(keyring_info,filename);
+      status=ImportKeyringKey(keyring_info,exception);
+    }
+  keyring_info=DestroyKeyringInfo(keyring_info);
+  return(status);
+}
+
 WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
   ExceptionInfo *exception)
 {
@@ -149,9 +184,6 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
     *keyring,
     *option;
 
-  KeyringInfo
-    *keyring_info;
-
   ssize_t
     i;
 
@@ -205,6 +237,8 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
               if (i == (ssize_t) argc)
                 ThrowKeyringException(OptionError,"missing key id: `%s'",
                   option);
+              if (id != (StringInfo *) NULL)
+                id=DestroyStringInfo(id);
               id=HexStringToStringInfo(argv[i]);
               break;
             }
@@ -283,30 +317,17 @@ WizardExport WizardBooleanType ExportKeyring(int argc,char **argv,
           break;
         }
       }
-    /*
-      Export key from keyring.
-    */
-    keyring_info=AcquireKeyringInfo(keyring);
-    SetKeyringId(keyring_info,id);
-    if (ExportKeyringKey(keyring_info,exception) == WizardFalse)
-      {
-        char
-          *hex_id;
-
-        hex_id=StringInfoToHexString(id);
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "no such key `%s': `%s'",hex_id,keyring == (const char *) NULL ? "" :
-          keyring);
-        hex_id=DestroyString(hex_id);
-      }
-    else
-      {
-        SetKeyringPath(keyring_info,filename);
-        status=ImportKeyringKey(keyring_info,exception);
-      }
-    id=DestroyStringInfo(id);
-    keyring_info=DestroyKeyringInfo(keyring_info);
+    if (IsWizardOption(option) != WizardFalse)
+      continue;
+    keyring=option;
+    if ((id != (StringInfo *) NULL) && (status == WizardFalse))
+      status=ExportKeyFromKeyring(keyring,id,filename,exception);
   }
+  if (id == (StringInfo *) NULL)
+    ThrowKeyringException(OptionError,"missing key id: `%s'",filename);
+  if (keyring == (const char *) NULL)
+    status=ExportKeyFromKeyring(keyring,id,filename,exception);
+  id=DestroyStringInfo(id);
   /*
     Free resources.
   */
@@ -375,11 +396,7 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
   {
     option=argv[i];
     if (LocaleCompare(option+1,"export") == 0)
-      {
-        status=ExportKeyring(argc,argv,exception);
-        DestroyKeyring();
-        return(status);
-      }
+      return(ExportKeyring(argc,argv,exception));
   }
   keyring_blob=OpenBlob(argv[argc-1],WriteBinaryBlobMode,WizardTrue,exception);
   if (keyring_blob == (BlobInfo *) NULL)
-- 
2.43.0


From e5a26e9efe41e8fcd8314eb1e6d15ba90ee7e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:07 +0000
Subject: [PATCH 064/117] fix: report keyring properties that cannot be stored

---
 utilities/keyring.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index 7ffcacf..fd5f685 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -510,7 +510,10 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
     status=PrintKeyringProperties((const char *) NULL,keyring_blob,exception);
   (void) WriteBlobString(keyring_blob,"</rdf:RDF>\n");
   if (CloseBlob(keyring_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   /*
     Free resources.
   */
-- 
2.43.0


From c9b3692fce66d9ad4943418624e63f79355f4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:56 +0000
Subject: [PATCH 065/117] fix: refuse to decipher a content whose properties
 name no key

---
 utilities/decipher.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 18b0fc1..f1cea52 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -737,6 +737,9 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     }
   if (status == WizardFalse)
     return(WizardFalse);
+  if (content_info->id == (char *) NULL)
+    ThrowDecipherContentException(AuthenticateError,"missing key id: `%s': "
+      "`%s'",cipher_filename);
   content_info->authenticate_info=AcquireAuthenticateInfo(
     content_info->authenticate_method,content_info->keyring,
     content_info->key_hash);
-- 
2.43.0


From 074b68df1f819eda16730776639ec16365a7c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:52 +0000
Subject: [PATCH 066/117] fix: refuse to decipher a content without a chunk
 size

---
 utilities/decipher.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index f1cea52..b62d2d6 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -740,6 +740,9 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   if (content_info->id == (char *) NULL)
     ThrowDecipherContentException(AuthenticateError,"missing key id: `%s': "
       "`%s'",cipher_filename);
+  if (content_info->chunksize == 0)
+    ThrowDecipherContentException(OptionError,"missing chunk size: `%s': `%s'",
+      cipher_filename);
   content_info->authenticate_info=AcquireAuthenticateInfo(
     content_info->authenticate_method,content_info->keyring,
     content_info->key_hash);
-- 
2.43.0


From 5d1e17b775dfd8d29702d6005df9b27e079e9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:55 +0000
Subject: [PATCH 067/117] fix: hashing a content leaves the extent of the
 digest options alone

---
 utilities/digest.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index ae29a60..24b179b 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -486,8 +486,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                         GetStringInfoDatum(content));
                       if (count <= 0)
                         break;
-                      length=(size_t) count;
-                      SetStringInfoLength(content,length);
+                      SetStringInfoLength(content,(size_t) count);
                       UpdateHash(hash_info,content);
                     }
                     FinalizeHash(hash_info);
-- 
2.43.0


From ae0ff515ac108ed31bc9d89378e23cf38f27a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:29 +0000
Subject: [PATCH 068/117] fix: report a keyring that ends within the signature
 of a record

---
 wizard/keyring.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 8995fd3..c9fe453 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -217,6 +217,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     protocol_major,
     protocol_minor;
 
+  WizardOffsetType
+    offset;
+
   WizardSizeType
     timestamp;
 
@@ -265,6 +268,7 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   protocol_major=0;
   protocol_minor=0;
   timestamp=0;
+  offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   while (ReadFile32Bits(file_info,&signature) != 0)
   {
     if (signature != WizardSignature)
@@ -339,9 +343,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
+    offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   }
-  if (lseek(GetFileDescriptor(file_info),0,SEEK_CUR) !=
-      GetFileProperties(file_info)->st_size)
+  if (offset != (WizardOffsetType) GetFileProperties(file_info)->st_size)
     (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
       "corrupt key ring file `%s'",GetFilePath(file_info));
   file_info=DestroyFileInfo(file_info,exception);
@@ -628,6 +632,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   size_t
     length;
 
+  WizardOffsetType
+    offset;
+
   WizardSizeType
     timestamp;
 
@@ -691,6 +698,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   target=DestroyStringInfo(target);
   length=0;
   (void) memset(&keyring_info,0,sizeof(keyring_info));
+  offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   while (ReadFile32Bits(file_info,&keyring_info.signature) != 0)
   {
     if (keyring_info.signature != WizardSignature)
@@ -784,8 +792,16 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
+    offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   }
   canonical_path=DestroyString(canonical_path);
+  if (offset != (WizardOffsetType) GetFileProperties(file_info)->st_size)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardTrue);
 }
-- 
2.43.0


From 94d415c25d23ffeaf5fdedbc4f834d1305db2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:12 +0000
Subject: [PATCH 069/117] fix: encipher each generated secret with a nonce of
 its own

---
 wizard/secret.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/secret.c b/wizard/secret.c
index d55c5db..948d0f0 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -322,6 +322,8 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   } while (status != WizardFalse);
   sans=DestroyExceptionInfo(sans);
   SetKeyringKey(secret_info->keyring_info,secret_info->key);
+  secret_info->nonce=DestroyStringInfo(secret_info->nonce);
+  secret_info->nonce=GenerateCipherNonce(secret_info->cipher_info);
   SetKeyringNonce(secret_info->keyring_info,secret_info->nonce);
   SetCipherKey(secret_info->cipher_info,phrase);
   SetCipherNonce(secret_info->cipher_info,GetKeyringNonce(
-- 
2.43.0


From cd414056623c9e9334d44d82b71b405df81fadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:40 +0000
Subject: [PATCH 070/117] fix: report the end of a compressed blob

---
 wizard/blob.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 56fdff7..97961fa 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -519,7 +519,10 @@ WizardExport int EOFBlob(BlobInfo *blob_info)
     }
     case ZipStream:
     {
-      blob_info->eof=WizardFalse;
+#if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
+      blob_info->eof=gzeof(blob_info->file_info.gzfile) != 0 ? WizardTrue :
+        WizardFalse;
+#endif
       break;
     }
     case BZipStream:
@@ -530,7 +533,8 @@ WizardExport int EOFBlob(BlobInfo *blob_info)
 
       status=0;
       (void) BZ2_bzerror(blob_info->file_info.bzfile,&status);
-      blob_info->eof=status == BZ_UNEXPECTED_EOF ? WizardTrue : WizardFalse;
+      if (status == BZ_UNEXPECTED_EOF)
+        blob_info->eof=WizardTrue;
 #endif
       break;
     }
@@ -1457,6 +1461,8 @@ WizardExport ssize_t ReadBlob(BlobInfo *blob_info,const size_t length,
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
       count=(ssize_t) BZ2_bzread(blob_info->file_info.bzfile,q,(int) length);
+      if ((count >= 0) && (count != (ssize_t) length))
+        blob_info->eof=WizardTrue;
 #endif
       break;
     }
-- 
2.43.0


From cb8b35639b443eda8ea7aff2e1a46620041e6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:56 +0000
Subject: [PATCH 071/117] fix: extending a blob keeps its contents and position

---
 wizard/blob.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 97961fa..cf7aa83 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1662,21 +1662,26 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
         count;
 
       WizardOffsetType
+        length,
         offset;
 
       if (extent != (WizardSizeType) ((off_t) extent))
         return(WizardFalse);
-      offset=fseek(blob_info->file_info.file,0,SEEK_END);
+      offset=ftell(blob_info->file_info.file);
       if (offset < 0)
         return(WizardFalse);
-      if ((WizardSizeType) offset >= extent)
-        break;
-      offset=fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
-        SEEK_SET);
-      if (offset < 0)
-        break;
-      count=(ssize_t) fwrite((const unsigned char *) "",1,1,
-        blob_info->file_info.file);
+      if (fseek(blob_info->file_info.file,0,SEEK_END) < 0)
+        return(WizardFalse);
+      length=ftell(blob_info->file_info.file);
+      count=1;
+      if ((length >= 0) && ((WizardSizeType) length < extent))
+        {
+          if (fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
+              SEEK_SET) < 0)
+            return(WizardFalse);
+          count=(ssize_t) fwrite((const unsigned char *) "",1,1,
+            blob_info->file_info.file);
+        }
       offset=fseek(blob_info->file_info.file,offset,SEEK_SET);
       if (count != 1)
         return(WizardFalse);
-- 
2.43.0


From 49e2ba0094e4027075095b744596c5d91c22fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:56 +0000
Subject: [PATCH 072/117] fix: a mapped blob that cannot be extended stays
 mapped

---
 wizard/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index cf7aa83..c678838 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1707,10 +1707,10 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
           WizardOffsetType
             offset;
 
-          (void) UnmapBlob(blob_info->data,blob_info->length);
-          RelinquishWizardResource(MapResource,blob_info->length);
           if (blob_info->file_info.file == (FILE *) NULL)
             return(WizardFalse);
+          (void) UnmapBlob(blob_info->data,blob_info->length);
+          RelinquishWizardResource(MapResource,blob_info->length);
           offset=fseek(blob_info->file_info.file,0,SEEK_END);
           if (offset < 0)
             return(WizardFalse);
-- 
2.43.0


From 18677d3e225d00f6a45df776029c8ca8084bd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:06 +0000
Subject: [PATCH 073/117] fix: reading a stream as a whole does not write past
 its buffer

---
 wizard/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index c678838..97a08b6 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -640,12 +640,12 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+1))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+quantum+1,
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+1,
           sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
-- 
2.43.0


From 4d3509933c7c796b43a918ee1e90c02aa43c5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:43 +0000
Subject: [PATCH 074/117] fix: format the minutes of a time zone

---
 wizard/string.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index fea4c0d..d2eff53 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -1142,14 +1142,15 @@ WizardExport ssize_t FormatWizardTime(const time_t time,const size_t length,
       (void) memcpy(&gm_time,my_time,sizeof(gm_time));
   }
 #endif
-  timezone=(time_t) ((local_time.tm_min-gm_time.tm_min)/60+
-    local_time.tm_hour-gm_time.tm_hour+24*((local_time.tm_year-
-    gm_time.tm_year) != 0 ? (local_time.tm_year-gm_time.tm_year) :
-    (local_time.tm_yday-gm_time.tm_yday)));
+  timezone=(time_t) (local_time.tm_min-gm_time.tm_min+60*(local_time.tm_hour-
+    gm_time.tm_hour+24*((local_time.tm_year-gm_time.tm_year) != 0 ?
+    (local_time.tm_year-gm_time.tm_year) : (local_time.tm_yday-
+    gm_time.tm_yday))));
   count=FormatLocaleString(timestamp,length,
-    "%04d-%02d-%02dT%02d:%02d:%02d%+03ld:00",local_time.tm_year+1900,
+    "%04d-%02d-%02dT%02d:%02d:%02d%c%02ld:%02ld",local_time.tm_year+1900,
     local_time.tm_mon+1,local_time.tm_mday,local_time.tm_hour,
-    local_time.tm_min,local_time.tm_sec,(long) timezone);
+    local_time.tm_min,local_time.tm_sec,timezone < 0 ? '-' : '+',
+    labs((long) timezone)/60,labs((long) timezone) % 60);
   return(count);
 }
 
-- 
2.43.0


From e99ad0f6aecdbcf51a51d3b5668d7f272407bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:43 +0000
Subject: [PATCH 075/117] fix: parse time stamps with the seconds and time zone
 they carry

---
 wizard/utility.c | 72 +++++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0014b9e..dc2cee9 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -953,11 +953,12 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
   char
     *q;
 
-  double
-    value;
-
-  ssize_t
-    timezone;
+  long
+    days,
+    field[8],
+    sign,
+    value,
+    year;
 
    const char
     *p;
@@ -966,52 +967,37 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
     i;
 
   static char
-    separators[] = "--T::-:";
-
-  struct tm
-    gm_time,
-    local_time,
-    target_time;
+    separators[] = "--T::+:";
 
   *target=time((time_t *) NULL);
-#if defined(WIZARDSTOOLKIT_HAVE_LOCALTIME_R)
-  (void) localtime_r(target,&local_time);
-#else
-  (void) memcpy(&local_time,localtime(target),sizeof(local_time));
-#endif
-#if defined(WIZARDSTOOLKIT_HAVE_GMTIME_R)
-  (void) gmtime_r(target,&gm_time);
-#else
-  (void) memcpy(&gm_time,gmtime(target),sizeof(gm_time));
-#endif
-  timezone=(ssize_t) ((local_time.tm_min-gm_time.tm_min)/60+local_time.tm_hour-
-    gm_time.tm_hour+24*((local_time.tm_year-gm_time.tm_year) != 0 ?
-    (local_time.tm_year-gm_time.tm_year) : (local_time.tm_yday-
-    gm_time.tm_yday)));
-  (void) memset(&target_time,0,sizeof(target_time));
+  sign=1;
   p=timestamp;
-  for (i=0; ; i++)
+  for (i=0; i < 8; i++)
   {
-    value=StringToDouble(p,&q);
-    if (*q != separators[i])
-      break;
-    switch (i)
-    {
-      case 0: target_time.tm_year=(int) (value+0.5)-1900; break;
-      case 1: target_time.tm_mon=(int) (value+0.5)-1; break;
-      case 2: target_time.tm_mday=(int) (value+0.5); break;
-      case 3: target_time.tm_hour=(int) (value+0.5); break;
-      case 4: target_time.tm_min=(int) (value+0.5); break;
-      case 5: target_time.tm_sec=(int) (value+0.5); break;
-      case 6: timezone+=(int) (value+0.5); break;
-      default: break;
-    }
+    value=strtol(p,&q,10);
+    if ((q == p) || (value < 0) || (value > 999999))
+      return(p);
+    field[i]=value;
     p=q;
-    if (*q == '\0')
+    if (i == 7)
       break;
+    if ((i == 5) && (*p == '-'))
+      sign=(-1);
+    else
+      if (*p != separators[i])
+        return(p);
     p++;
   }
-  *target=mktime(&target_time)-3600*timezone;
+  if ((field[1] < 1) || (field[1] > 12))
+    return(timestamp);
+  /*
+    Days since the Epoch, years start in March.
+  */
+  year=field[0]-(field[1] < 3 ? 1 : 0)+400;
+  days=365*year+year/4-year/100+year/400+(153*(field[1]+(field[1] < 3 ? 9 :
+    -3))+2)/5+field[2]-1-719468-146097;
+  *target=(time_t) days*86400+3600*field[3]+60*field[4]+field[5]-sign*(3600*
+    field[6]+60*field[7]);
   return(p);
 }
 
-- 
2.43.0


From c399c5dd4e026d44e1233e7c8c5a5af2a0819f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 076/117] fix: apply the mask of a mime type to the bytes it is
 matched against

---
 wizard/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8aa9e57..5ecf710 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -293,7 +293,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
@@ -323,7 +323,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
@@ -357,7 +357,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((p->value & p->mask) == (value & p->mask))
               mime_info=p;
           }
         break;
-- 
2.43.0


From 96274891d907cca4c56f7de755b8172aa31c17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 077/117] fix: a mime type without a magic matches no bytes

---
 wizard/mime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wizard/mime.c b/wizard/mime.c
index 5ecf710..33aeb6d 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -278,6 +278,11 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
         p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
         continue;
       }
+    if (p->magic == (unsigned char *) NULL)
+      {
+        p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
+        continue;
+      }
     switch (p->data_type)
     {
       case ByteData:
-- 
2.43.0


From c1faf03fcb80d1a8e99a58c884821d01bc24630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 078/117] fix: match byte and short mime magic at the end of
 the data

---
 wizard/mime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 33aeb6d..8056889 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -287,7 +287,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
     {
       case ByteData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+1) > length)
           break;
         q=magic+p->offset;
         value=(ssize_t) (*q++);
@@ -305,7 +305,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
       }
       case ShortData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+2) > length)
           break;
         q=magic+p->offset;
         endian=p->endian;
-- 
2.43.0


From 94e4a9c0bca817e31259fc8a9831770a1befb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 079/117] fix: sort mime types by their name

---
 wizard/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8056889..a799075 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -525,12 +525,12 @@ extern "C" {
 
 static int MimeCompare(const void *x,const void *y)
 {
-   char
+  const char
     *p,
     *q;
 
-  p=(char *) x;
-  q=(char *) y;
+  p=(*(const char **) x);
+  q=(*(const char **) y);
   return(strcasecmp(p,q));
 }
 
-- 
2.43.0


From 31b5036a94f227c484b62241d60ca60036fc80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 080/117] fix: a path that starts with a colon does not name a
 file system

---
 wizard/utility.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index dc2cee9..43625c8 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -437,7 +437,7 @@ WizardExport void GetPathComponent(const char *path,PathType type,
   (void) CopyWizardString(component,path,WizardPathExtent);
   *filesystem='\0';
   for (p=component; *p != '\0'; p++)
-    if ((*p == ':') && (IsDirectory(path) < 0) &&
+    if ((*p == ':') && (p != component) && (IsDirectory(path) < 0) &&
         (IsPathAcessible(path) == WizardFalse))
       {     
         /*
-- 
2.43.0


From e996d61a2fd16db6b7209caa79f4bc8d1400ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 081/117] fix: the root of an empty path component is empty

---
 wizard/utility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/utility.c b/wizard/utility.c
index 43625c8..caa21eb 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -485,6 +485,8 @@ WizardExport void GetPathComponent(const char *path,PathType type,
     }
     case RootPath:
     {
+      if (*component == '\0')
+        break;
       for (p=component+(strlen(component)-1); p > component; p--)
       {
         if (IsBasenameSeparator(*p) != WizardFalse)
-- 
2.43.0


From c03565a2ce716a8426c9ab7e87fff14b2e7752a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 082/117] fix: negate an option in a list of options

---
 wizard/option.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/option.c b/wizard/option.c
index 4433680..98276d3 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -470,7 +470,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     {
       if (LocaleCompare(token,option_info[i].mnemonic) == 0)
         {
-          if (*token == '!')
+          if (negate != WizardFalse)
             option_types=option_types &~ option_info[i].type;
           else
             option_types=option_types | option_info[i].type;
@@ -488,7 +488,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
         for (i=0; option_info[i].mnemonic != (char *) NULL; i++)
           if (LocaleCompare(token,option_info[i].mnemonic) == 0)
             {
-              if (*token == '!')
+              if (negate != WizardFalse)
                 option_types=option_types &~ option_info[i].type;
               else
                 option_types=option_types | option_info[i].type;
-- 
2.43.0


From 20ed67fa4e0c39e2bfe88816aeca413242a0ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 083/117] fix: recognize the sign of a command option

---
 wizard/option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/option.c b/wizard/option.c
index 98276d3..66add3a 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -452,7 +452,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     while (((isspace((int) ((unsigned char) *p)) != 0) || (*p == ',')) &&
            (*p != '\0'))
       p++;
-    if ((*p == '-') || (*p == '+'))
+    if ((option != WizardCommandOptions) && ((*p == '-') || (*p == '+')))
       p++;
     negate=(*p == '!') ? WizardTrue : WizardFalse;
     if (negate != WizardFalse)
-- 
2.43.0


From 88cf5638e4b3574bab9e87b1846b9cc7fa4b5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:39 +0000
Subject: [PATCH 084/117] fix: read an included configuration file whole

---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index ce6c485..2bcbfde 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -711,7 +711,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml[length]='\0';
       return(xml);
     }
-  length=(size_t) WizardMin(offset,(WizardOffsetType) extent);
+  length=(size_t) WizardMin((WizardSizeType) offset,(WizardSizeType) extent);
   xml=(char *) NULL;
   if (~length >= (WizardPathExtent-1))
     xml=(char *) AcquireQuantumMemory(length+WizardPathExtent,sizeof(*xml));
-- 
2.43.0


From cea60813196ca727f0d880a6bb4078f31b0ae17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:07 +0000
Subject: [PATCH 085/117] fix: refuse a resource request that overflows the
 count

---
 wizard/resource.c | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..5f164f0 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -420,13 +420,14 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
       limit=resource_info.memory_limit;
       if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+          (((WizardSizeType) resource_info.memory < limit) &&
+           (size < (limit-resource_info.memory))))
+        {
+          resource_info.memory+=(WizardOffsetType) size;
+          status=WizardTrue;
+        }
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -435,13 +436,14 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
       limit=resource_info.map_limit;
       if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+          (((WizardSizeType) resource_info.map < limit) &&
+           (size < (limit-resource_info.map))))
+        {
+          resource_info.map+=(WizardOffsetType) size;
+          status=WizardTrue;
+        }
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -450,13 +452,14 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
       limit=resource_info.disk_limit;
       if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+          (((WizardSizeType) resource_info.disk < limit) &&
+           (size < (limit-resource_info.disk))))
+        {
+          resource_info.disk+=(WizardOffsetType) size;
+          status=WizardTrue;
+        }
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -465,13 +468,14 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
       limit=resource_info.file_limit;
       if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+          (((WizardSizeType) resource_info.file < limit) &&
+           (size < (limit-resource_info.file))))
+        {
+          resource_info.file+=(WizardOffsetType) size;
+          status=WizardTrue;
+        }
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From 3ac9a9d35b699744a70a9a21fa5d9d1977a0f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:07 +0000
Subject: [PATCH 086/117] fix: remove the temporary file when no file resource
 is left

---
 wizard/resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 5f164f0..6c889c6 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
-- 
2.43.0


From cdf615817d39b5b7c12f63642bbff0a94855f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:07 +0000
Subject: [PATCH 087/117] fix: release a temporary file once and keep it when
 asked to

---
 wizard/resource.c | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 6c889c6..5747141 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -178,13 +178,6 @@ WizardExport WizardBooleanType AcquireUniqueFilename(char *path,
 %
 */
 
-static void *DestroyTemporaryResources(void *temporary_resource)
-{
-  (void) remove_utf8((char *) temporary_resource);
-  temporary_resource=DestroyString((char *) temporary_resource);
-  return((void *) NULL);
-}
-
 WizardExport WizardBooleanType GetPathTemplate(const char *path,char *filename)
 {
   char
@@ -351,7 +344,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources == (SplayTreeInfo *) NULL)
     temporary_resources=NewSplayTree(CompareSplayTreeString,
-      DestroyTemporaryResources,(void *(*)(void *)) NULL);
+      RelinquishWizardMemory,(void *(*)(void *)) NULL);
   UnlockSemaphoreInfo(resource_semaphore);
   (void) AddValueToSplayTree(temporary_resources,ConstantString(filename),
     (const void *) NULL);
@@ -849,22 +842,9 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
 {
   WizardAssert(ResourceDomain,path != (const char *) NULL);
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
-  if (temporary_resources != (SplayTreeInfo *) NULL)
-    {
-       char
-        *p;
-
-      ResetSplayTreeIterator(temporary_resources);
-      p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      while (p != (char *) NULL)
-      {
-        if (LocaleCompare(p,path) == 0)
-          break;
-        p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      }
-      if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
-    }
+  if ((temporary_resources != (SplayTreeInfo *) NULL) &&
+      (DeleteNodeFromSplayTree(temporary_resources,path) != WizardFalse))
+    RelinquishWizardResource(FileResource,1);
   if (trash == WizardFalse)
     return(WizardTrue);
   return(remove_utf8(path) == 0 ? WizardTrue : WizardFalse);
@@ -989,6 +969,7 @@ WizardExport void ResourceComponentTerminus(void)
   if (resource_semaphore == (SemaphoreInfo *) NULL)
     ActivateSemaphoreInfo(&resource_semaphore);
   LockSemaphoreInfo(resource_semaphore);
+  AsynchronousResourceComponentTerminus();
   if (temporary_resources != (SplayTreeInfo *) NULL)
     temporary_resources=DestroySplayTree(temporary_resources);
   UnlockSemaphoreInfo(resource_semaphore);
-- 
2.43.0


From b3d18941c014da29ae7cab48d50a2d75fed1c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:07 +0000
Subject: [PATCH 088/117] fix: virtual memory gives back only the resources it
 took

---
 wizard/memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..71c6070 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -545,10 +545,10 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
                 WizardTrue);
               *memory_info->filename = '\0';
             }
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From aabd35047c8066d79519302262459d7c1c748c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:10 +0000
Subject: [PATCH 089/117] fix: a mapping is either private or shared

---
 wizard/blob.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 97a08b6..ff0d3f8 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -974,7 +974,6 @@ WizardExport void *MapBlob(int file,const MapMode mode,
 #else
     return((unsigned char *) NULL);
 #endif
-  flags|=MAP_PRIVATE;
   switch (mode)
   {
     case ReadMode:
-- 
2.43.0


From c1a5bd7054adc3356a59eb6d415d26210d0d63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:58 +0000
Subject: [PATCH 090/117] fix: report each exception as fatal by its own
 severity

---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index c32c5b2..43b3bde 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -242,7 +242,7 @@ WizardExport void CatchException(ExceptionInfo *exception)
       WizardWarning(p->severity,p->reason,p->description);
     if ((p->severity >= ErrorException) && (p->severity < FatalErrorException))
       WizardError(p->severity,p->reason,p->description);
-    if (exception->severity >= FatalErrorException)
+    if (p->severity >= FatalErrorException)
       WizardFatalError(p->severity,p->reason,p->description);
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
-- 
2.43.0


From 7299baa28eeff026be6a4d524cedd09dd2def3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:05 +0000
Subject: [PATCH 091/117] fix: check the bounds of a shared list while it is
 locked

---
 wizard/hashmap.c | 71 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index cf1629f..fd3143f 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -154,14 +154,20 @@ WizardExport WizardBooleanType AppendValueToLinkedList(
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
+  LockSemaphoreInfo(list_info->semaphore);
   if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
-  LockSemaphoreInfo(list_info->semaphore);
   if (list_info->next == (ElementInfo *) NULL)
     list_info->next=next;
   if (list_info->elements == 0)
@@ -450,9 +456,12 @@ WizardExport void *GetLastValueInLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   value=list_info->tail->value;
   UnlockSemaphoreInfo(list_info->semaphore);
   return(value);
@@ -798,9 +807,12 @@ WizardExport void *GetValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       value=list_info->head->value;
@@ -1001,15 +1013,21 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
   assert(list_info->signature == WizardSignature);
   if (value == NULL)
     return(WizardFalse);
+  LockSemaphoreInfo(list_info->semaphore);
   if ((index > list_info->elements) ||
       (list_info->elements == list_info->capacity))
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
-  LockSemaphoreInfo(list_info->semaphore);
   if (list_info->elements == 0)
     {
       if (list_info->next == (ElementInfo *) NULL)
@@ -1106,14 +1124,20 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
   if ((compare == (int (*)(const void *,const void *)) NULL) ||
       (value == (const void *) NULL))
     return(WizardFalse);
+  LockSemaphoreInfo(list_info->semaphore);
   if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
-    return(WizardFalse);
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return(WizardFalse);
+    }
   next->value=(void *) value;
   element=(ElementInfo *) NULL;
-  LockSemaphoreInfo(list_info->semaphore);
   next->next=list_info->head;
   while (next->next != (ElementInfo *) NULL)
   {
@@ -1604,9 +1628,14 @@ WizardExport void *RemoveElementByValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if ((list_info->elements == 0) || (value == NULL))
+  if (value == NULL)
     return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (value == list_info->head->value)
     {
       if (list_info->next == list_info->head)
@@ -1682,9 +1711,12 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       if (list_info->next == list_info->head)
@@ -1834,9 +1866,12 @@ WizardExport void *RemoveLastElementFromLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (list_info->next == list_info->tail)
     list_info->next=(ElementInfo *) NULL;
   if (list_info->elements == 1UL)
-- 
2.43.0


From 81a72c6f2f4be76af1a80c0da1e73a56a3e26ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:05 +0000
Subject: [PATCH 092/117] fix: check the root of a shared tree while it is
 locked

---
 wizard/splay-tree.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 40be8b1..f21ef7d 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -610,9 +610,12 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(WizardFalse);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(WizardFalse);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
@@ -774,10 +777,13 @@ WizardExport const void *GetNextKeyInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -828,10 +834,13 @@ WizardExport const void *GetNextValueInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -884,9 +893,12 @@ WizardExport const void *GetValueFromSplayTree(SplayTreeInfo *splay_tree,
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return((void *) NULL);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,key);
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
     compare=splay_tree->compare(splay_tree->root->key,key);
@@ -1157,9 +1169,12 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   key=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(key);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(key);
+    }
   next=(NodeInfo *) GetFirstSplayTreeNode(splay_tree);
   while (next != (NodeInfo *) NULL)
   {
@@ -1269,9 +1284,12 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   value=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(value);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(value);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
-- 
2.43.0


From 00ce4555070d1f6758701eceb7fd451818a48876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:05 +0000
Subject: [PATCH 093/117] fix: a log file without a limit is not rotated

---
 wizard/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index f4b50ff..114522d 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1336,7 +1336,7 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
       file_info.st_size=0;
       if (log_info->file != (FILE *) NULL)
         (void) fstat(fileno(log_info->file),&file_info);
-      if (file_info.st_size > (WizardOffsetType) (1024*1024*log_info->limit))
+      if ((double) file_info.st_size > (1024.0*1024.0*log_info->limit))
         {
           (void) fprintf(log_info->file,"</log>\n");
           (void) fclose(log_info->file);
-- 
2.43.0


From ccafb379dc1cb73160672d1ef50a21ca48a0ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:05 +0000
Subject: [PATCH 094/117] fix: a log without a file name writes no log file

---
 wizard/log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index 114522d..5ddf576 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1177,7 +1177,8 @@ static char *TranslateFilename(const LogInfo *log_info)
     Translate event in "human readable" format.
   */
   assert(log_info != (LogInfo *) NULL);
-  assert(log_info->filename != (char *) NULL);
+  if (log_info->filename == (char *) NULL)
+    return((char *) NULL);
   filename=AcquireString((char *) NULL);
   extent=WizardPathExtent;
   q=filename;
-- 
2.43.0


From a87a99760f62c4ae73ea22d0954ab290c850d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:49 +0000
Subject: [PATCH 095/117] fix: the number of map entries is read with the map
 locked

Replacing the value of a key removes the entry and then adds it again.
Another thread asking for the number of entries in between was told of
one entry less than the map ever held.
---
 wizard/hashmap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index fd3143f..71614f4 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -655,9 +655,15 @@ WizardExport void *GetNextValueInLinkedList(LinkedListInfo *list_info)
 WizardExport size_t GetNumberOfEntriesInHashmap(
   const HashmapInfo *hashmap_info)
 {
+  size_t
+    entries;
+
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries);
+  LockSemaphoreInfo(hashmap_info->semaphore);
+  entries=hashmap_info->entries;
+  UnlockSemaphoreInfo(hashmap_info->semaphore);
+  return(entries);
 }
 
 /*
@@ -1205,7 +1211,8 @@ WizardExport WizardBooleanType IsHashmapEmpty(const HashmapInfo *hashmap_info)
 {
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries == 0 ? WizardTrue : WizardFalse);
+  return(GetNumberOfEntriesInHashmap(hashmap_info) == 0 ? WizardTrue :
+    WizardFalse);
 }
 
 /*
-- 
2.43.0


From c802d0b77550c9a5b4548a8fd51cf762ae182c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:21 +0000
Subject: [PATCH 096/117] fix: catching an exception clears only what was
 delivered

The records were delivered with the exception locked, and cleared after it
was unlocked and locked again.  A record thrown by another thread in between
was cleared without ever being delivered.
---
 wizard/exception.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 43b3bde..d8d8409 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -175,16 +175,11 @@ static void *DestroyExceptionElement(void *exception)
   return((void *) NULL);
 }
 
-WizardExport void ClearWizardException(ExceptionInfo *exception)
+static void ClearExceptions(ExceptionInfo *exception)
 {
    ExceptionInfo
     *p;
 
-  assert(exception != (ExceptionInfo *) NULL);
-  assert(exception->signature == WizardSignature);
-  if (exception->exceptions == (void *) NULL)
-    return;
-  LockSemaphoreInfo(exception->semaphore);
   p=(ExceptionInfo *) RemoveLastElementFromLinkedList((LinkedListInfo *)
     exception->exceptions);
   while (p != (ExceptionInfo *) NULL)
@@ -196,6 +191,16 @@ WizardExport void ClearWizardException(ExceptionInfo *exception)
   exception->severity=UndefinedException;
   exception->reason=(char *) NULL;
   exception->description=(char *) NULL;
+}
+
+WizardExport void ClearWizardException(ExceptionInfo *exception)
+{
+  assert(exception != (ExceptionInfo *) NULL);
+  assert(exception->signature == WizardSignature);
+  if (exception->exceptions == (void *) NULL)
+    return;
+  LockSemaphoreInfo(exception->semaphore);
+  ClearExceptions(exception);
   UnlockSemaphoreInfo(exception->semaphore);
   errno=0;
 }
@@ -247,8 +252,9 @@ WizardExport void CatchException(ExceptionInfo *exception)
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
   }
+  ClearExceptions(exception);
   UnlockSemaphoreInfo(exception->semaphore);
-  ClearWizardException(exception);
+  errno=0;
 }
 
 /*
-- 
2.43.0


From c0b007fe69bef3c3e0d9c4a6a8f83211402b425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 097/117] fix: the user's configuration directory is searched
 under its own name

The name of the file was appended to the directory twice, so files below
XDG_CONFIG_HOME were never found.
---
 wizard/configure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index 7c31e2f..3fa4346 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -838,8 +838,7 @@ WizardExport LinkedListInfo *GetConfigurePaths(const char *filename,
           Search $XDG_CONFIG_HOME/ImageMagick.
         */
         (void) FormatLocaleString(path,WizardPathExtent,
-          "%s%sWizardsToolkit%s%s",home,DirectorySeparator,DirectorySeparator,
-          filename);
+          "%s%sWizardsToolkit%s",home,DirectorySeparator,DirectorySeparator);
         (void) AppendValueToLinkedList(paths,ConstantString(path));
         home=DestroyString(home);
       }
-- 
2.43.0


From c880193f4eed9ee1d170f365a3653932981b2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 098/117] fix: a configure element without a name is passed
 over

Looking up or listing any entry after loading one dereferenced a null
pointer.
---
 wizard/configure.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wizard/configure.c b/wizard/configure.c
index 3fa4346..3806496 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -1131,6 +1131,11 @@ static WizardBooleanType LoadConfigureCache(LinkedListInfo *configure_cache,
     /*
       Process configure element.
     */
+    if (GetXMLTreeAttribute(configure,"name") == (const char *) NULL)
+      {
+        configure=GetNextXMLTreeTag(configure);
+        continue;
+      }
     configure_info=(ConfigureInfo *) AcquireWizardMemory(
       sizeof(*configure_info));
     if (configure_info == (ConfigureInfo *) NULL)
-- 
2.43.0


From 3b7c870a80621c31041282d2b2c8e93e8ddeb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 099/117] fix: the list of locale tags starts with the first
 one

The iterator already stood at the second entry.
---
 wizard/locale.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/locale.c b/wizard/locale.c
index d79596d..2a97991 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -701,6 +701,7 @@ WizardExport char **GetLocaleList(const char *pattern,
   if (messages == (char **) NULL)
     return((char **) NULL);
   LockSemaphoreInfo(locale_semaphore);
+  ResetSplayTreeIterator(locale_cache);
   p=(const LocaleInfo *) GetNextValueInSplayTree(locale_cache);
   for (i=0; p != (const LocaleInfo *) NULL; )
   {
-- 
2.43.0


From 7c31d159835114edb92c5ea23c8599e35fd46c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 100/117] fix: a slash in a locale message leaves the tags that
 follow alone

The message was appended to the tag and removed again up to a slash.
---
 wizard/locale.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/locale.c b/wizard/locale.c
index 2a97991..558ea9e 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -1335,7 +1335,6 @@ static WizardBooleanType LoadLocaleCache(SplayTreeInfo *locale_cache,
         if (status == WizardFalse)
           ThrowFatalException(ResourceFatalError,
             "memory allocation failed `%s'");
-        (void) ConcatenateWizardString(tag,message,WizardLocaleExtent);
         (void) ConcatenateWizardString(tag,"\n",WizardLocaleExtent);
         q++;
         continue;
-- 
2.43.0


From 2070450daa02d28d2fbe8985b0dc77b596ce1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 101/117] fix: the keyring utility reports every unreadable
 keyring

Only the last keyring decided on the exit status, and the arguments of
options were taken for keyrings.
---
 utilities/keyring.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index fd5f685..ba20af8 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -504,7 +504,10 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
           break;
         }
       }
-    status=PrintKeyringProperties(argv[i],keyring_blob,exception);
+    if (IsWizardOption(option) != WizardFalse)
+      continue;
+    if (PrintKeyringProperties(argv[i],keyring_blob,exception) == WizardFalse)
+      status=WizardFalse;
   }
   if (argc == 2)
     status=PrintKeyringProperties((const char *) NULL,keyring_blob,exception);
-- 
2.43.0


From 7ec1c8c3462c4608522abb469522d636feb2c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:04 +0000
Subject: [PATCH 102/117] fix: the cipher-info utility reports each file on its
 own

Properties missing in a file were those of the file before it.  The exit
status was that of the last file, and zero for a missing one.
---
 utilities/cipher-info.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utilities/cipher-info.c b/utilities/cipher-info.c
index e9fd523..36a49bd 100644
--- a/utilities/cipher-info.c
+++ b/utilities/cipher-info.c
@@ -266,13 +266,19 @@ WizardExport WizardBooleanType CipherInfoCommand(int argc,char **argv,
     /*
       Identify cipher properties.
     */
+    content_info=DestroyContentInfo(content_info);
+    content_info=AcquireContentInfo();
     content_info->content=ConstantString(argv[i]);
     content_info->cipherblob=OpenBlob(content_info->content,ReadBinaryBlobMode,
       WizardTrue,exception);
-    if (content_info->cipherblob != (BlobInfo *) NULL)
+    if (content_info->cipherblob == (BlobInfo *) NULL)
+      status=WizardFalse;
+    else
       {
-        status=GetContentInfo(content_info,content_info->cipherblob,exception);
-        if (status != WizardFalse)
+        if (GetContentInfo(content_info,content_info->cipherblob,
+              exception) == WizardFalse)
+          status=WizardFalse;
+        else
           (void) PrintCipherProperties(content_info,stdout);
         if (CloseBlob(content_info->cipherblob) == WizardFalse)
           ThrowFileException(exception,FileError,content_info->content);
-- 
2.43.0


From ccabe4c548dd1ab478d96d83c778a9a0d3c54fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:26 +0000
Subject: [PATCH 103/117] fix: release the message after hashing a string key

---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 71614f4..1f38fc3 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -930,6 +930,7 @@ WizardExport size_t HashStringType(const void *string)
   datum=GetStringInfoDatum(digest);
   for (i=0; i < GetStringInfoLength(digest); i++)
     hash^=datum[i];
+  message=DestroyStringInfo(message);
   hashmap_info=DestroyHashInfo(hashmap_info);
   return(hash);
 }
-- 
2.43.0


From ccb079d0cf7cf5309de871db18e95d9e2d9d8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:26 +0000
Subject: [PATCH 104/117] fix: release the semaphore of a blob that cannot be
 opened

---
 wizard/blob.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index ff0d3f8..2278406 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1104,7 +1104,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
@@ -1135,7 +1135,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=PipeStream;
@@ -1153,7 +1153,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=FileStream;
@@ -1299,7 +1299,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
         "unable to open file `%s': %s",filename,strerror(errno));
-      blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+      blob_info=DestroyBlob(blob_info);
       return((BlobInfo *) NULL);
     }
   return(blob_info);
-- 
2.43.0


From 93ea6a048a47fdb435519ad536848ebc739cd2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:22 +0000
Subject: [PATCH 105/117] fix: release the root of a document that has no tag

---
 wizard/xml-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 2bcbfde..d6f6c22 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2041,6 +2041,7 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
         "memory allocation failed `%s'",strerror(errno));
+      (void) DestroyXMLTree(&root->root);
       return((XMLTreeInfo *) NULL);
     }
   if (length == 0)
@@ -2048,6 +2049,7 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
       (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
         "root tag missing");
       utf8=DestroyString(utf8);
+      (void) DestroyXMLTree(&root->root);
       return((XMLTreeInfo *) NULL);
     }
   terminal=utf8[length-1];
@@ -2060,6 +2062,7 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
       (void) ThrowWizardException(exception,GetWizardModule(),OptionWarning,
         "root tag missing");
       utf8=DestroyString(utf8);
+      (void) DestroyXMLTree(&root->root);
       return((XMLTreeInfo *) NULL);
     }
   attribute=(char **) NULL;
-- 
2.43.0


From 8c3fb7610eefb2db7176592f3345bddba6727e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:22 +0000
Subject: [PATCH 106/117] fix: release the decompressor when damaged data
 cannot be restored

---
 wizard/bzip.c | 1 +
 wizard/zip.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wizard/bzip.c b/wizard/bzip.c
index fec4060..86df7b1 100644
--- a/wizard/bzip.c
+++ b/wizard/bzip.c
@@ -330,6 +330,7 @@ WizardExport WizardBooleanType RestoreBZIP(BZIPInfo *bzip_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
+      (void) BZ2_bzDecompressEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(bzip_info->chaos,(size_t) stream.total_out_lo32);
diff --git a/wizard/zip.c b/wizard/zip.c
index 3005d67..d28b342 100644
--- a/wizard/zip.c
+++ b/wizard/zip.c
@@ -325,6 +325,7 @@ WizardExport WizardBooleanType RestoreZIP(ZIPInfo *zip_info,const size_t length,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
+      (void) inflateEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(zip_info->chaos,(size_t) stream.total_out);
-- 
2.43.0


From 6bb774a2029f91f55ae471c517e00ab9e00f624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:22 +0000
Subject: [PATCH 107/117] fix: substituting an empty string leaves the text as
 it is

---
 wizard/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/string.c b/wizard/string.c
index d2eff53..2d933d2 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -2313,6 +2313,8 @@ WizardExport WizardBooleanType SubstituteString(char **string,
     offset;
 
   status=WizardFalse;
+  if (*search == '\0')
+    return(status);
   search_extent=0,
   replace_extent=0;
   for (p=strchr(*string,*search); p != (char *) NULL; p=strchr(p+1,*search))
-- 
2.43.0


From 8c0c89037659ad6e0837bc0f9a9e839dd3b4dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:39 +0000
Subject: [PATCH 108/117] fix: release all of a tag that was inserted into a
 document

---
 wizard/xml-tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index d6f6c22..6780ff7 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -546,8 +546,8 @@ static void DestroyXMLTreeRoot(XMLTreeInfo *xml_info)
   assert(xml_info != (XMLTreeInfo *) NULL);
   assert((xml_info->signature == WizardSignature) ||
          (((XMLTreeRoot *) xml_info)->signature == WizardSignature));
-  if (xml_info->parent != (XMLTreeInfo *) NULL)
-    return;
+  if (xml_info->signature == WizardSignature)
+    return;  /* only a tag that was made on its own has root allocations */
   /*
     Free root tag allocations.
   */
-- 
2.43.0


From 9863e22e55760bdc5d9894a5a9e573f272188044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:14 +0000
Subject: [PATCH 109/117] fix: release the values of parameter entities

---
 wizard/xml-tree.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 6780ff7..3c236a6 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1724,6 +1724,16 @@ static void ParseProcessingInstructions(XMLTreeRoot *root,char *xml,
   root->processing_instructions[i][j+1]=(char *) NULL;
 }
 
+static char **DestroyParameterEntities(char **entities)
+{
+   ssize_t
+    i;
+
+  for (i=0; entities[i] != (char *) NULL; i+=2)
+    entities[i+1]=DestroyString(entities[i+1]);
+  return((char **) RelinquishWizardMemory(entities));
+}
+
 static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
   size_t length,ExceptionInfo *exception)
 {
@@ -1813,8 +1823,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
               entities[i+1]=DestroyString(entities[i+1]);
             (void) ThrowWizardException(exception,GetWizardModule(),
               OptionWarning,"circular entity declaration &%s",n);
-            predefined_entitites=(char **) RelinquishWizardMemory(
-              predefined_entitites);
+            predefined_entitites=DestroyParameterEntities(predefined_entitites);
             return(WizardFalse);
           }
         }
@@ -1829,7 +1838,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
               {
                 (void) ThrowWizardException(exception,GetWizardModule(),
                   OptionWarning,"unclosed <!ATTLIST");
-                predefined_entitites=(char **) RelinquishWizardMemory(
+                predefined_entitites=DestroyParameterEntities(
                   predefined_entitites);
                 return(WizardFalse);
               }
@@ -1851,7 +1860,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 {
                   (void) ThrowWizardException(exception,GetWizardModule(),
                     OptionWarning,"malformed <!ATTLIST");
-                  predefined_entitites=(char **) RelinquishWizardMemory(
+                  predefined_entitites=DestroyParameterEntities(
                     predefined_entitites);
                   return(WizardFalse);
                 }
@@ -1865,7 +1874,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 {
                   (void) ThrowWizardException(exception,GetWizardModule(),
                     OptionWarning,"malformed <!ATTLIST");
-                  predefined_entitites=(char **) RelinquishWizardMemory(
+                  predefined_entitites=DestroyParameterEntities(
                     predefined_entitites);
                   return(WizardFalse);
                 }
@@ -1887,7 +1896,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                   {
                     (void) ThrowWizardException(exception,GetWizardModule(),
                       OptionWarning,"malformed <!ATTLIST");
-                    predefined_entitites=(char **) RelinquishWizardMemory(
+                    predefined_entitites=DestroyParameterEntities(
                       predefined_entitites);
                     return(WizardFalse);
                   }
@@ -1951,7 +1960,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                if ((*(xml++) == '%') && (root->standalone == WizardFalse))
                  break;
     }
-  predefined_entitites=(char **) RelinquishWizardMemory(predefined_entitites);
+  predefined_entitites=DestroyParameterEntities(predefined_entitites);
   return(WizardTrue);
 }
 
-- 
2.43.0


From a7324c5f326b0fb31c3f82a9bc4b1e305e3c6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:14 +0000
Subject: [PATCH 110/117] fix: release the passphrase of a secret

---
 wizard/secret.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/secret.c b/wizard/secret.c
index 948d0f0..4edd8d6 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -252,6 +252,8 @@ WizardExport SecretInfo *DestroySecretInfo(SecretInfo *secret_info)
     secret_info->id=DestroyStringInfo(secret_info->id);
   if (secret_info->digest != (StringInfo *) NULL)
     secret_info->digest=DestroyStringInfo(secret_info->digest);
+  if (secret_info->passphrase != (char *) NULL)
+    secret_info->passphrase=DestroyString(secret_info->passphrase);
   secret_info->signature=(~WizardSignature);
   secret_info=(SecretInfo *) RelinquishWizardMemory(secret_info);
   return(secret_info);
-- 
2.43.0


From b257eea09d7ea6a4dee868e16c71ab07d45325b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:53 +0000
Subject: [PATCH 111/117] fix: release what was read of a corrupt keyring

---
 wizard/keyring.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index c9fe453..0e672a9 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -244,6 +244,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -258,6 +260,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      filetype=DestroyStringInfo(filetype);
+      target=DestroyStringInfo(target);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -303,6 +307,7 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        id=DestroyStringInfo(id);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -315,6 +320,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        key=DestroyStringInfo(key);
+        id=DestroyStringInfo(id);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -677,6 +684,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
+      canonical_path=DestroyString(canonical_path);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -691,6 +701,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      filetype=DestroyStringInfo(filetype);
+      target=DestroyStringInfo(target);
+      canonical_path=DestroyString(canonical_path);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
@@ -705,6 +718,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -723,6 +737,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -735,6 +750,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        id=DestroyStringInfo(id);
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -747,6 +764,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        key=DestroyStringInfo(key);
+        id=DestroyStringInfo(id);
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
@@ -789,6 +809,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        canonical_path=DestroyString(canonical_path);
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
-- 
2.43.0


From 9d4e2813d9454cbb65c296a5fe8bde7bf513a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:20 +0000
Subject: [PATCH 112/117] fix: encipher each chunk of a content under a nonce
 of its own

Every chunk was enciphered starting from the content's nonce, so in the stream
modes all chunks shared one keystream. The chunk number now goes into the
nonce. Contents written by earlier protocol versions are still deciphered.
---
 utilities/content.c  | 56 ++++++++++++++++++++++++++++++++++++++++++++
 utilities/content.h  |  5 +++-
 utilities/decipher.c |  7 +++---
 utilities/encipher.c |  8 ++++++-
 4 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 3137b87..eb43388 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -737,3 +737,59 @@ WizardExport WizardBooleanType PrintCipherProperties(
     (void) fprintf(file,"  Version: %s\n",content_info->version);
   return(ferror(file) != 0 ? WizardFalse : WizardTrue);
 }
+
+/*
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%   S e t C o n t e n t N o n c e                                             %
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%
+%  SetContentNonce() sets the cipher nonce of a chunk of the content.  No two
+%  chunks share a nonce, otherwise they would be enciphered with the same
+%  keystream.  Until protocol 1.2, every chunk had the nonce of the first.
+%
+%  The format of the SetContentNonce method is:
+%
+%      void SetContentNonce(ContentInfo *content_info,const StringInfo *nonce,
+%        const size_t chunk)
+%
+%  A description of each parameter follows:
+%
+%    o content_info: the cipher content structure.
+%
+%    o nonce: the nonce of the first chunk.
+%
+%    o chunk: the chunk number.
+%
+*/
+WizardExport void SetContentNonce(ContentInfo *content_info,
+  const StringInfo *nonce,const size_t chunk)
+{
+  size_t
+    i,
+    offset;
+
+  StringInfo
+    *chunk_nonce;
+
+  WizardAssert(CipherDomain,content_info != (ContentInfo *) NULL);
+  WizardAssert(CipherDomain,content_info->signature == WizardSignature);
+  WizardAssert(CipherDomain,nonce != (const StringInfo *) NULL);
+  if ((content_info->protocol_major == 1) && (content_info->protocol_minor < 2))
+    return;
+  /*
+    The low order half of the nonce counts blocks, number its upper part.
+  */
+  chunk_nonce=CloneStringInfo(nonce);
+  offset=GetStringInfoLength(nonce)/2;
+  for (i=0; i < 4; i++)
+    GetStringInfoDatum(chunk_nonce)[offset+i]^=(unsigned char)
+      (chunk >> (8*(3-i)));
+  SetCipherNonce(content_info->cipher_info,chunk_nonce);
+  chunk_nonce=DestroyStringInfo(chunk_nonce);
+}
diff --git a/utilities/content.h b/utilities/content.h
index f8fea07..5936f86 100644
--- a/utilities/content.h
+++ b/utilities/content.h
@@ -24,7 +24,7 @@ extern "C" {
 
 #define CipherPropertiesExtent  1048576
 #define CipherProtocolMajor  1
-#define CipherProtocolMinor  1
+#define CipherProtocolMinor  2
 #define CipherTrailer  "<?cipherpacket?>"
 
 typedef struct _ContentInfo
@@ -115,6 +115,9 @@ extern WizardExport WizardBooleanType
   GetContentInfo(ContentInfo *,BlobInfo *,ExceptionInfo *),
   PrintCipherProperties(const ContentInfo *,FILE *);
 
+extern WizardExport void
+  SetContentNonce(ContentInfo *,const StringInfo *,const size_t);
+
 #if defined(__cplusplus) || defined(c_plusplus)
 }
 #endif
diff --git a/utilities/decipher.c b/utilities/decipher.c
index b62d2d6..3672cf8 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -694,6 +694,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   StringInfo
     *ciphertext,
     *hmac,
+    *nonce,
     *plaintext;
 
   size_t
@@ -773,9 +774,6 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     content_info->authenticate_info));
   if (content_info->nonce != (char *) NULL)
     {
-      StringInfo
-        *nonce;
-
       /*
         Set cipher nonce.
       */
@@ -783,6 +781,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
       SetCipherNonce(content_info->cipher_info,nonce);
       nonce=DestroyStringInfo(nonce);
     }
+  nonce=CloneStringInfo(GetCipherNonce(content_info->cipher_info));
   hmac=(StringInfo *) NULL;
   if (content_info->hmac != NoHash)
     {
@@ -840,6 +839,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         ((content_info->mode != CFBMode) && ((length % blocksize) != 0)))
       ThrowDecipherContentException(FileError,"%s: `%s'",message);
     SetStringInfoLength(ciphertext,length);
+    SetContentNonce(content_info,nonce,chunk);
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
     if ((content_info->mode != CFBMode) && ((pad != 0) || (next == EOF)))
       {
@@ -892,6 +892,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   }
 #endif
   ciphertext=DestroyStringInfo(ciphertext);
+  nonce=DestroyStringInfo(nonce);
   if (content_info->hmac != NoHash)
     hmac=DestroyStringInfo(hmac);
   return(WizardTrue);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index b5331c7..4d4319e 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -677,6 +677,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
 
   size_t
     blocksize,
+    chunk,
     length,
     pad;
 
@@ -685,6 +686,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
 
   StringInfo
     *ciphertext,
+    *nonce,
     *plaintext;
 
   WizardBooleanType
@@ -859,7 +861,9 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   pad=0;
   blocksize=GetCipherBlocksize(content_info->cipher_info);
   ciphertext=(StringInfo *) NULL;
-  for (plaintext=AcquireStringInfo(content_info->chunksize); ; )
+  nonce=CloneStringInfo(GetCipherNonce(content_info->cipher_info));
+  plaintext=AcquireStringInfo(content_info->chunksize);
+  for (chunk=0; ; chunk++)
   {
     SetStringInfoLength(plaintext,content_info->chunksize);
     count=ReadBlobChunk(content_info->plainblob,content_info->chunksize,
@@ -905,6 +909,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
           ThrowEncipherContentException(FileError,"unable to write ciphertext "
             "`%s': `%s'",cipher_filename);
       }
+    SetContentNonce(content_info,nonce,chunk);
     ciphertext=EncipherCipher(content_info->cipher_info,plaintext);
     if (content_info->mode != CFBMode)
       {
@@ -943,6 +948,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
       return(WizardFalse);
     }
   plaintext=DestroyStringInfo(plaintext);
+  nonce=DestroyStringInfo(nonce);
   return(WizardTrue);
 }
 
-- 
2.43.0


From 78c0e6099a49b1d3a99c92204ddeafe67345b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:20 +0000
Subject: [PATCH 113/117] fix: authenticate the position of each chunk and the
 end of a content

The authentication code of a chunk covered its plaintext only, so chunks could
be exchanged, repeated or dropped unnoticed. It now also covers the number of
the chunk and whether it is the last one.
---
 utilities/content.c  | 106 +++++++++++++++++++++++++++++++++++++++++++
 utilities/content.h  |   5 ++
 utilities/decipher.c |  38 ++++++----------
 utilities/encipher.c |  25 ++++++----
 4 files changed, 140 insertions(+), 34 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index eb43388..15f0507 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -96,6 +96,69 @@ WizardExport ContentInfo *AcquireContentInfo(void)
   return(content_info);
 }
 
+/*
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%   C o n s t r u c t C o n t e n t H M A C                                   %
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%
+%  ConstructContentHMAC() constructs the message authentication code of a chunk
+%  of the content.  It covers the position of the chunk and whether the content
+%  ends with it so that chunks cannot be moved, repeated, or removed.  Until
+%  protocol 1.2, it covered the plaintext only.
+%
+%  The format of the ConstructContentHMAC method is:
+%
+%      void ConstructContentHMAC(ContentInfo *content_info,const size_t chunk,
+%        const WizardBooleanType last,const StringInfo *plaintext)
+%
+%  A description of each parameter follows:
+%
+%    o content_info: the cipher content structure.
+%
+%    o chunk: the chunk number.
+%
+%    o last: the content ends with this chunk.
+%
+%    o plaintext: the plaintext of the chunk.
+%
+*/
+WizardExport void ConstructContentHMAC(ContentInfo *content_info,
+  const size_t chunk,const WizardBooleanType last,const StringInfo *plaintext)
+{
+  size_t
+    i;
+
+  StringInfo
+    *position;
+
+  WizardAssert(CipherDomain,content_info != (ContentInfo *) NULL);
+  WizardAssert(CipherDomain,content_info->signature == WizardSignature);
+  WizardAssert(CipherDomain,plaintext != (const StringInfo *) NULL);
+  if ((content_info->protocol_major == 1) && (content_info->protocol_minor < 2))
+    {
+      ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
+        content_info->authenticate_info),plaintext);
+      return;
+    }
+  position=AcquireStringInfo(9);
+  for (i=0; i < 8; i++)
+    GetStringInfoDatum(position)[i]=(unsigned char) ((WizardSizeType) chunk >>
+      (8*(7-i)));
+  GetStringInfoDatum(position)[8]=last != WizardFalse ? 1 : 0;
+  InitializeHMAC(content_info->hmac_info,GetAuthenticateKey(
+    content_info->authenticate_info));
+  UpdateHMAC(content_info->hmac_info,plaintext);
+  UpdateHMAC(content_info->hmac_info,position);
+  FinalizeHMAC(content_info->hmac_info);
+  position=DestroyStringInfo(position);
+}
+
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 %                                                                             %
@@ -738,6 +801,49 @@ WizardExport WizardBooleanType PrintCipherProperties(
   return(ferror(file) != 0 ? WizardFalse : WizardTrue);
 }
 
+/*
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%   R e a d C o n t e n t C h u n k                                           %
+%                                                                             %
+%                                                                             %
+%                                                                             %
+%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
+%
+%  ReadContentChunk() reads a chunk and looks ahead to the byte that follows it.
+%
+%  The format of the ReadContentChunk method is:
+%
+%      ssize_t ReadContentChunk(BlobInfo *blob_info,const size_t length,
+%        unsigned char *data,int *next)
+%
+%  A description of each parameter follows:
+%
+%    o blob_info: the blob info.
+%
+%    o length: the chunk size.
+%
+%    o data: the chunk is returned here.
+%
+%    o next: the first byte of this chunk, returns the one of the next chunk.
+%
+*/
+WizardExport ssize_t ReadContentChunk(BlobInfo *blob_info,const size_t length,
+  unsigned char *data,int *next)
+{
+  ssize_t
+    count;
+
+  if (*next == EOF)
+    return(0);
+  *data=(unsigned char) (*next);
+  count=ReadBlobChunk(blob_info,length-1,data+1)+1;
+  *next=ReadBlobByte(blob_info);
+  return(count);
+}
+
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 %                                                                             %
diff --git a/utilities/content.h b/utilities/content.h
index 5936f86..9cdbeff 100644
--- a/utilities/content.h
+++ b/utilities/content.h
@@ -115,7 +115,12 @@ extern WizardExport WizardBooleanType
   GetContentInfo(ContentInfo *,BlobInfo *,ExceptionInfo *),
   PrintCipherProperties(const ContentInfo *,FILE *);
 
+extern WizardExport ssize_t
+  ReadContentChunk(BlobInfo *,const size_t,unsigned char *,int *);
+
 extern WizardExport void
+  ConstructContentHMAC(ContentInfo *,const size_t,const WizardBooleanType,
+    const StringInfo *),
   SetContentNonce(ContentInfo *,const StringInfo *,const size_t);
 
 #if defined(__cplusplus) || defined(c_plusplus)
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 3672cf8..dbd5df0 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -646,23 +646,6 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
 %    o exception: return any exceptions in this structure.
 %
 */
-static ssize_t ReadCipherChunk(BlobInfo *blob_info,const size_t length,
-  unsigned char *data,int *next)
-{
-  ssize_t
-    count;
-
-  /*
-    Read a chunk and look ahead to the byte that follows it.
-  */
-  if (*next == EOF)
-    return(0);
-  *data=(unsigned char) (*next);
-  count=ReadBlobChunk(blob_info,length-1,data+1)+1;
-  *next=ReadBlobByte(blob_info);
-  return(count);
-}
-
 static WizardBooleanType DecipherContent(ContentInfo *content_info,
   const char *cipher_filename,const char *plain_filename,
   const WizardBooleanType compress,ExceptionInfo *exception)
@@ -805,9 +788,10 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
     if (content_info->hmac != NoHash)
       {
         length=GetStringInfoLength(hmac);
-        count=ReadCipherChunk(content_info->cipherblob,length,
+        count=ReadContentChunk(content_info->cipherblob,length,
           GetStringInfoDatum(hmac),&next);
-        if (next == EOF)
+        if ((next == EOF) && ((content_info->mode != CFBMode) ||
+            (chunk != 0) || (count != (ssize_t) length)))
           {
             /*
               Until protocol 1.1, a full chunk was followed by bare padding.
@@ -825,17 +809,18 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         unsigned char
           type;
 
-        (void) ReadCipherChunk(content_info->cipherblob,1,&type,&next);
+        type=(unsigned char) NoEntropy;
+        (void) ReadContentChunk(content_info->cipherblob,1,&type,&next);
         entropy=(EntropyType) type;
       }
     length=content_info->chunksize;
     if (content_info->mode != CFBMode)
       length+=pad;
     SetStringInfoLength(ciphertext,length);
-    count=ReadCipherChunk(content_info->cipherblob,length,GetStringInfoDatum(
+    count=ReadContentChunk(content_info->cipherblob,length,GetStringInfoDatum(
       ciphertext),&next);
     length=(size_t) count;
-    if ((length == 0) ||
+    if (((length == 0) && ((content_info->mode != CFBMode) || (chunk != 0))) ||
         ((content_info->mode != CFBMode) && ((length % blocksize) != 0)))
       ThrowDecipherContentException(FileError,"%s: `%s'",message);
     SetStringInfoLength(ciphertext,length);
@@ -859,8 +844,8 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
       }
     if (content_info->hmac != NoHash)
       {
-        ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
-          content_info->authenticate_info),plaintext);
+        ConstructContentHMAC(content_info,chunk,next == EOF ? WizardTrue :
+          WizardFalse,plaintext);
         if (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0)
           ThrowDecipherContentException(FileError,"%s: `%s'",message);
       }
@@ -870,6 +855,11 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
       ThrowDecipherContentException(FileError,"unable to write plaintext "
         "`%s': `%s'",cipher_filename);
   }
+  if ((chunk == 0) && (content_info->hmac != NoHash) &&
+      ((content_info->protocol_major != 1) ||
+       (content_info->protocol_minor >= 2)))
+    ThrowDecipherContentException(FileError,"missing cipher chunks `%s': `%s'",
+      cipher_filename);
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
     {
       ThrowFileException(exception,FileError,cipher_filename);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 4d4319e..f9de797 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -675,6 +675,9 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   HashInfo
     *hash_info;
 
+  int
+    next;
+
   size_t
     blocksize,
     chunk,
@@ -690,6 +693,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
     *plaintext;
 
   WizardBooleanType
+    last,
     status;
 
   /*
@@ -863,23 +867,24 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   ciphertext=(StringInfo *) NULL;
   nonce=CloneStringInfo(GetCipherNonce(content_info->cipher_info));
   plaintext=AcquireStringInfo(content_info->chunksize);
-  for (chunk=0; ; chunk++)
+  next=ReadBlobByte(content_info->plainblob);
+  last=WizardFalse;
+  for (chunk=0; last == WizardFalse; chunk++)
   {
     SetStringInfoLength(plaintext,content_info->chunksize);
-    count=ReadBlobChunk(content_info->plainblob,content_info->chunksize,
-      GetStringInfoDatum(plaintext));
-    if ((count <= 0) && ((content_info->mode == CFBMode) ||
-        (pad != blocksize) || (length != content_info->chunksize)))
-      break;
+    count=ReadContentChunk(content_info->plainblob,content_info->chunksize,
+      GetStringInfoDatum(plaintext),&next);
+    length=(size_t) count;
+    SetStringInfoLength(plaintext,length);
     /*
       A content that ends with a full chunk is followed by an empty one.
     */
-    length=(size_t) (count < 0 ? 0 : count);
-    SetStringInfoLength(plaintext,length);
+    if ((next == EOF) && ((content_info->mode == CFBMode) ||
+        ((length % blocksize) != 0) || (length != content_info->chunksize)))
+      last=WizardTrue;
     if (content_info->hmac != NoHash)
       {
-        ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
-          content_info->authenticate_info),plaintext);
+        ConstructContentHMAC(content_info,chunk,last,plaintext);
         hmac=GetHMACDigest(content_info->hmac_info);
         count=WriteBlobChunk(content_info->cipherblob,GetStringInfoLength(hmac),
           GetStringInfoDatum(hmac));
-- 
2.43.0


From 8d776f2a84c4782a6d224c39c0e4b5ef3312fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:20 +0000
Subject: [PATCH 114/117] fix: keep a backslash at the end of a MIME magic

The byte after the end of the text was taken as the escaped character.
---
 wizard/mime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index a799075..1dbbe20 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -903,7 +903,7 @@ static WizardBooleanType LoadMimeCache(LinkedListInfo *mime_cache,
         q=mime_info->magic;
         for (p=token; *p != '\0'; )
         {
-          if (*p == '\\')
+          if ((*p == '\\') && (*(p+1) != '\0'))
             {
               p++;
               if (isdigit((int) ((unsigned char) *p)) != 0)
-- 
2.43.0


From 2d9eb5e714dd51470f0d0f7740d9a174c0accef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:20 +0000
Subject: [PATCH 115/117] fix: release what was read of a corrupt random
 reservoir

The expected and found file identification stayed allocated.
---
 wizard/random.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/random.c b/wizard/random.c
index 4078023..168172c 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -688,6 +688,8 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
       file_info=DestroyFileInfo(file_info,exception);
-- 
2.43.0


From 33077e2d519667d5a77b188d9c29ec969422b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:41 +0000
Subject: [PATCH 116/117] fix: restore the handling of SIGTTOU after a
 passphrase was read

GetPhrase() saves the handler of every signal it catches and puts it back
when it is done, except for SIGTTOU.  The process went on with the handler
of the prompt for that signal.
---
 wizard/passphrase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index fc0415e..e460dd0 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -247,6 +247,7 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   (void) sigaction(SIGTERM,&sigterm,(struct sigaction *) NULL);
   (void) sigaction(SIGTSTP,&sigtstp,(struct sigaction *) NULL);
   (void) sigaction(SIGTTIN,&sigttin,(struct sigaction *) NULL);
+  (void) sigaction(SIGTTOU,&sigttou,(struct sigaction *) NULL);
   if (input != STDIN_FILENO)
     input=close(input)-1;
   if (signal_number != 0)
-- 
2.43.0


From 91b2a0c8931d828a6694f63180446ce2ff202798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:53 +0000
Subject: [PATCH 117/117] fix: release the phrases when no passphrase can be
 read

GetPassphrase() left both of its strings behind when the terminal could
not be opened or read.
---
 wizard/passphrase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index e460dd0..97a1c27 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -317,6 +317,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     status=GetPhrase("Enter same passphrase again: ",EchoOffMode,rephrase);
@@ -324,6 +326,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     if (CompareStringInfo(phrase,rephrase) == 0)
-- 
2.43.0

