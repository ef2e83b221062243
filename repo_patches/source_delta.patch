From 9f41268a887e2559e11c5d1183d1949f01399963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 01/58] fix: .SYNC holds back everything listed after it

A plain file listed after .SYNC ended the translation of the remaining sync
points (in hash order), and a group that was empty or consisted of plain files
only cut the connection to the groups before it.
---
 src/jomlib/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..efea4d8 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -132,7 +132,7 @@ void Parser::apply(Preprocessor* pp,
     {
         DescriptionBlock *target = m_makefile->target(it.key());
         if (!target)
-            break;
+            continue;   // a plain file, there's nothing to delay
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
@@ -425,14 +425,14 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     // handle the special .SYNC dependents
     {
         QStringList syncDeps;
-        int k = 0;
         for (int i=0; i < dependents.count();) {
             if (dependents.at(i) == QLatin1String(".SYNC")) {
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
+                // Everything listed before the sync point must be done. A group may consist of plain
+                // files only or be empty, so it's not enough to wait for the preceding group.
+                syncDeps = dependents.mid(0, i);
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
                 ++i;
-- 
2.43.0


From b6bb6cf71db7bb1336a18350805bf58f2deb5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 02/58] fix: pass through the output of one recipe only

When the recipe with live output ended, all running recipes were switched to
live output, and their output got mixed.
---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..2ca88cd 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -247,6 +247,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From 8a24b01e3223a23bc6dc0ed8b16a7e14fd869a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 03/58] fix: wait for running recipes to end before giving up a
 failed build

After a failure jom waited only for the current command of the recipes that
were still running. Their next commands were started and outlived jom.
---
 src/jomlib/commandexecutor.cpp | 4 +++-
 src/jomlib/jomprocess.cpp      | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..c96f5f8 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -132,7 +132,9 @@ void CommandExecutor::finishExecution(bool commandFailed)
 
 void CommandExecutor::waitForFinished()
 {
-    m_process.waitForFinished();
+    // The recipe continues with its next command when the current one is finished.
+    while (m_active && m_process.isRunning())
+        m_process.waitForFinished();
 }
 
 inline bool commandLineStartsWithCommand(const QString &str, const QString &searchString)
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..eba65c2 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -453,8 +453,6 @@ bool Process::waitForFinished()
     QEventLoop eventLoop;
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
-
-    m_state = NotRunning;
     return true;
 }
 
-- 
2.43.0


From eb9cef9bd1d89ef982965d8e85c62a26eb011e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 04/58] fix: don't return a job token twice when a failed build
 waits for one

The recipes that end during an abort have already returned the tokens of all
acquisitions, including the pending one.
---
 src/jomlib/targetexecutor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2ca88cd..bceca96 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -185,7 +185,10 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
+    if (m_jobAcquisitionCount > 0) {
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
+    }
 }
 
 void TargetExecutor::finishBuild(int exitCode)
-- 
2.43.0


From 37d69158f53168a489129d3e36c5cce20990e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 05/58] fix: wait for running recipes and return job tokens on
 internal errors

An error while a recipe is prepared (e.g. an inline file that cannot be
written) ended jom at once, with commands still running and job tokens kept.
---
 src/jomlib/commandexecutor.cpp |  2 +-
 src/jomlib/targetexecutor.cpp  | 24 +++++++++++++++++-------
 src/jomlib/targetexecutor.h    |  2 ++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index c96f5f8..acbcb2a 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -71,7 +71,6 @@ CommandExecutor::~CommandExecutor()
 void CommandExecutor::start(DescriptionBlock* target)
 {
     m_pTarget = target;
-    m_active = true;
 
     if (target->m_commands.isEmpty()) {
         finishExecution(false);
@@ -81,6 +80,7 @@ void CommandExecutor::start(DescriptionBlock* target)
     target->expandFileNameMacros();
     cleanupTempFiles();
     createTempFiles();
+    m_active = true;
 
     m_ignoreProcessErrors = false;
     m_currentCommandIdx = 0;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index bceca96..2c11af4 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -147,9 +147,7 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
-        fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(e);
     }
 }
 
@@ -160,16 +158,28 @@ void TargetExecutor::buildNextTarget()
     if (m_bAborted)
         return;
 
+    CommandExecutor *executor = m_availableProcesses.takeFirst();
     try {
-        CommandExecutor *executor = m_availableProcesses.takeFirst();
         executor->start(m_nextTarget);
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
-        fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        m_availableProcesses.prepend(executor);
+        abortBuild(e);
+    }
+}
+
+void TargetExecutor::abortBuild(const Exception &e)
+{
+    m_bAborted = true;
+    fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
+    waitForProcesses();
+    waitForJobClient();
+    while (m_jobAcquisitionCount > 0) {
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
     }
+    finishBuild(1);
 }
 
 void TargetExecutor::waitForProcesses()
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..1090358 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -39,6 +39,7 @@ namespace NMakeFile {
 
 class CommandExecutor;
 class DependencyGraph;
+class Exception;
 class JobClient;
 
 class TargetExecutor : public QObject {
@@ -60,6 +61,7 @@ private slots:
 
 private:
     int numberOfRunningProcesses() const;
+    void abortBuild(const Exception &e);
     void waitForProcesses();
     void waitForJobClient();
     void finishBuild(int exitCode);
-- 
2.43.0


From 5af89b35eedc3d428ffdcfe427f1fddd240cfab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 06/58] fix: look at the files again for every goal

---
 src/jomlib/fastfileinfo.cpp   | 5 +++++
 src/jomlib/fastfileinfo.h     | 1 +
 src/jomlib/targetexecutor.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/jomlib/fastfileinfo.cpp b/src/jomlib/fastfileinfo.cpp
index 6926a34..95dae39 100644
--- a/src/jomlib/fastfileinfo.cpp
+++ b/src/jomlib/fastfileinfo.cpp
@@ -96,4 +96,9 @@ void FastFileInfo::clearCacheForFile(const QString &fileName)
     fadHash.remove(fileName);
 }
 
+void FastFileInfo::clearCache()
+{
+    fadHash.clear();
+}
+
 } // NMakeFile
diff --git a/src/jomlib/fastfileinfo.h b/src/jomlib/fastfileinfo.h
index a201e85..0540d47 100644
--- a/src/jomlib/fastfileinfo.h
+++ b/src/jomlib/fastfileinfo.h
@@ -39,6 +39,7 @@ public:
     FileTime lastModified() const;
 
     static void clearCacheForFile(const QString &fileName);
+    static void clearCache();
 
     struct InternalType
     {
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2c11af4..436e2f9 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -141,6 +141,7 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
+                    FastFileInfo::clearCache();
                     m_depgraph->build(m_pendingTargets.takeFirst());
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
                 }
-- 
2.43.0


From 3b3e907c6e4c19fec99954c1b0984a3135f6a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 07/58] fix: report a modulo by zero in an expression instead
 of crashing

---
 src/jomlib/ppexpr.g         | 14 +++++++++++---
 src/jomlib/ppexprparser.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..1f5c121 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -373,16 +373,24 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // avoid overflow of INT_MIN / -1
+        sym(1).num = (rhs == -1) ? int(0u - uint(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 ./
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..a36bcc1 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -211,13 +211,21 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        // avoid overflow of INT_MIN / -1
+        sym(1).num = (rhs == -1) ? int(0u - uint(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 
     case 28: // term6
         sym(1).num = -sym(2).num;
-- 
2.43.0


From 930cd9913a7726a20823b5696773de2bcaf10427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 08/58] fix: evaluate operators in expressions with C
 precedence

---
 src/jomlib/ppexpr.g           |  36 +++---
 src/jomlib/ppexpr_grammar.cpp | 208 +++++++++++++++-------------------
 src/jomlib/ppexpr_grammar_p.h | 118 +++++++++----------
 src/jomlib/ppexprparser.cpp   |  52 ++++-----
 4 files changed, 194 insertions(+), 220 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index 1f5c121..c173e69 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -227,32 +227,35 @@ bool PPExprParser::parse(const char* str)
 ./
 
 expression  ::=  term0;
-term0       ::=  term1;
-term0       ::=  term0 BOOL_AND term1;
+term0       ::=  andterm;
+term0       ::=  term0 BOOL_OR andterm;
 /.
     case $rule_number: // $rule
-        sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0;
+        sym(1).num = (sym(1).num != 0 || sym(3).num != 0) ? 1 : 0;
         break;
 ./
 
-term0       ::=  term0 BOOL_OR term1;
+andterm     ::=  bitorterm;
+andterm     ::=  andterm BOOL_AND bitorterm;
 /.
     case $rule_number: // $rule
-        sym(1).num = (sym(1).num != 0 || sym(3).num != 0) ? 1 : 0;
+        sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0;
         break;
 ./
 
-term0       ::=  term0 BIT_AND term1;
+bitorterm   ::=  bitandterm;
+bitorterm   ::=  bitorterm BIT_OR bitandterm;
 /.
     case $rule_number: // $rule
-        sym(1).num &= sym(3).num;
+        sym(1).num |= sym(3).num;
         break;
 ./
 
-term0       ::=  term0 BIT_OR term1;
+bitandterm  ::=  term1;
+bitandterm  ::=  bitandterm BIT_AND term1;
 /.
     case $rule_number: // $rule
-        sym(1).num |= sym(3).num;
+        sym(1).num &= sym(3).num;
         break;
 ./
 
@@ -283,43 +286,44 @@ strterm1    ::= STRING NOT_EQUAL STRING;
     }
 ./
 
-term2       ::= term3;
-term2       ::= term2 EQUAL term3;
+term2       ::= relterm;
+term2       ::= term2 EQUAL relterm;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num == sym(3).num);
         break;
 ./
 
-term2       ::= term2 NOT_EQUAL term3;
+term2       ::= term2 NOT_EQUAL relterm;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num != sym(3).num);
         break;
 ./
 
-term2       ::= term2 LESS_THAN term3;
+relterm     ::= term3;
+relterm     ::= relterm LESS_THAN term3;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num < sym(3).num);
         break;
 ./
 
-term2       ::= term2 GREATER_THAN term3;
+relterm     ::= relterm GREATER_THAN term3;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num > sym(3).num);
         break;
 ./
 
-term2       ::= term2 EQUAL_OR_LESS_THAN term3;
+relterm     ::= relterm EQUAL_OR_LESS_THAN term3;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num <= sym(3).num);
         break;
 ./
 
-term2       ::= term2 EQUAL_OR_GREATER_THAN term3;
+relterm     ::= relterm EQUAL_OR_GREATER_THAN term3;
 /.
     case $rule_number: // $rule
         sym(1).num = (sym(1).num >= sym(3).num);
diff --git a/src/jomlib/ppexpr_grammar.cpp b/src/jomlib/ppexpr_grammar.cpp
index 95185af..b6c30df 100644
--- a/src/jomlib/ppexpr_grammar.cpp
+++ b/src/jomlib/ppexpr_grammar.cpp
@@ -2,147 +2,117 @@
 #include "ppexpr_grammar_p.h"
 
 const char *const ppexpr_grammar::spell [] = {
-  "end of file", 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-  0, 0, 0, 0, 0, 
+    "end of file", 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    0, 0, 0, 0, 0, 
 #ifndef QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
-"expression", "term0", "term1", "term2", "strterm1", 
-  "term3", "term4", "term5", "term6", "primary", "$accept"
+"expression", "term0", "andterm", "bitorterm", "bitandterm",
+    "term1", "term2", "strterm1", "relterm", "term3", "term4", "term5", "term6", "primary", "$accept"
 #endif // QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
+
 };
 
 const short ppexpr_grammar::lhs [] = {
-  25, 26, 26, 26, 26, 26, 27, 27, 29, 29, 
-  28, 28, 28, 28, 28, 28, 28, 30, 30, 30, 
-  31, 31, 31, 32, 32, 32, 32, 33, 33, 33, 
-  33, 34, 34, 35};
+    25, 26, 26, 27, 27, 28, 28, 29, 29, 30,
+    30, 32, 32, 31, 31, 31, 33, 33, 33, 33,
+    33, 34, 34, 34, 35, 35, 35, 36, 36, 36,
+    36, 37, 37, 37, 37, 38, 38, 39
+};
 
 const short ppexpr_grammar::rhs [] = {
-  1, 1, 3, 3, 3, 3, 1, 1, 3, 3, 
-  1, 3, 3, 3, 3, 3, 3, 1, 3, 3, 
-  1, 3, 3, 1, 3, 3, 3, 1, 2, 2, 
-  2, 1, 3, 2};
+    1, 1, 3, 1, 3, 1, 3, 1, 3, 1,
+    1, 3, 3, 1, 3, 3, 1, 3, 3, 3,
+    3, 1, 3, 3, 1, 3, 3, 1, 3, 3,
+    3, 1, 2, 2, 2, 1, 3, 2
+};
 
 
 #ifndef QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
 const int ppexpr_grammar::rule_info [] = {
-    25, 26
-  , 26, 27
-  , 26, 26, 3, 27
-  , 26, 26, 4, 27
-  , 26, 26, 5, 27
-  , 26, 26, 6, 27
-  , 27, 28
-  , 27, 29
-  , 29, 2, 7, 2
-  , 29, 2, 8, 2
-  , 28, 30
-  , 28, 28, 7, 30
-  , 28, 28, 8, 30
-  , 28, 28, 9, 30
-  , 28, 28, 10, 30
-  , 28, 28, 11, 30
-  , 28, 28, 12, 30
-  , 30, 31
-  , 30, 30, 13, 31
-  , 30, 30, 14, 31
-  , 31, 32
-  , 31, 31, 15, 32
-  , 31, 31, 16, 32
-  , 32, 33
-  , 32, 32, 17, 33
-  , 32, 32, 18, 33
-  , 32, 32, 19, 33
-  , 33, 34
-  , 33, 16, 34
-  , 33, 20, 34
-  , 33, 21, 34
-  , 34, 1
-  , 34, 22, 26, 23
-  , 35, 25, 0};
+    25, 26, 26, 27, 26, 26, 4, 27, 27, 28, 27, 27, 3, 28, 28, 29, 28, 28, 6, 29, 29, 30, 29, 29, 5, 30, 30, 31,
+    30, 32, 32, 2, 7, 2, 32, 2, 8, 2, 31, 33, 31, 31, 7, 33, 31, 31, 8, 33, 33, 34, 33, 33, 9, 34, 33, 33, 10, 34, 33, 33, 11, 34,
+    33, 33, 12, 34, 34, 35, 34, 34, 13, 35, 34, 34, 14, 35, 35, 36, 35, 35, 15, 36, 35, 35, 16, 36, 36, 37, 36, 36, 17, 37, 36, 36, 18, 37,
+    36, 36, 19, 37, 37, 38, 37, 16, 38, 37, 20, 38, 37, 21, 38, 38, 1, 38, 22, 26, 23, 39, 25, 0
+};
 
 const int ppexpr_grammar::rule_index [] = {
-  0, 2, 4, 8, 12, 16, 20, 22, 24, 28, 
-  32, 34, 38, 42, 46, 50, 54, 58, 60, 64, 
-  68, 70, 74, 78, 80, 84, 88, 92, 94, 97, 
-  100, 103, 105, 109};
+    0, 2, 4, 8, 10, 14, 16, 20, 22, 26,
+    28, 30, 34, 38, 40, 44, 48, 50, 54, 58,
+    62, 66, 68, 72, 76, 78, 82, 86, 88, 92,
+    96, 100, 102, 105, 108, 111, 113, 117
+};
 #endif // QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
 
 const short ppexpr_grammar::action_default [] = {
-  0, 0, 0, 0, 0, 32, 0, 0, 28, 8, 
-  1, 2, 7, 11, 18, 21, 24, 30, 31, 0, 
-  0, 0, 0, 0, 33, 5, 6, 3, 4, 29, 
-  0, 0, 9, 10, 34, 0, 0, 0, 0, 0, 
-  0, 12, 0, 0, 19, 0, 0, 23, 0, 0, 
-  0, 26, 27, 25, 22, 20, 17, 16, 15, 14, 
-  13};
+    0, 0, 0, 0, 0, 36, 0, 2, 6, 4,
+    0, 32, 14, 11, 1, 8, 10, 17, 22, 25,
+    28, 34, 35, 0, 0, 37, 3, 0, 5, 0,
+    7, 0, 9, 33, 0, 0, 12, 13, 38, 0,
+    0, 0, 0, 21, 0, 0, 23, 0, 0, 27,
+    0, 0, 0, 30, 31, 29, 26, 24, 20, 19,
+    18, 0, 0, 15, 16
+};
 
 const short ppexpr_grammar::goto_default [] = {
-  7, 10, 11, 12, 9, 13, 14, 15, 16, 8, 
-  0};
+    10, 14, 7, 9, 8, 15, 16, 13, 12, 17,
+    18, 19, 20, 11, 0
+};
 
 const short ppexpr_grammar::action_index [] = {
-  117, 1, 2, 76, 5, -25, 3, 0, -25, -25, 
-  45, -25, 113, 6, -8, 18, -25, -25, -25, 57, 
-  110, 117, 85, 141, -25, -25, -25, -25, -25, -25, 
-  23, -1, -25, -25, -25, 51, 93, 69, 25, 37, 
-  69, 15, 69, 69, -3, 69, 93, 18, 69, 69, 
-  69, -25, -25, -25, 18, 16, 20, 20, -9, 4, 
-  8, 
-
-  -11, -9, -7, 3, -8, -11, -11, -11, -11, -11, 
-  -11, -11, -11, -11, -11, -11, -11, -11, -11, -11, 
-  1, 12, 4, 21, -11, -11, -11, -11, -11, -11, 
-  -11, -11, -11, -11, -11, 10, 15, 16, 0, 6, 
-  7, -11, 11, 13, -11, 9, 17, -11, -1, 2, 
-  5, -11, -11, -11, -11, -11, -11, -11, -11, -11, 
-  -11};
+    86, 10, 11, 86, 38, -25, 19, -2, -5, 14,
+    2, -25, 35, -25, -1, -25, 21, 23, 15, 24,
+    -25, -25, -25, 12, 49, -25, 1, 86, 14, 86,
+    -5, 86, -25, -25, 3, 4, -25, -25, -25, 62,
+    62, 62, 62, 8, 62, 62, 9, 33, 62, 24,
+    62, 62, 62, -25, -25, -25, 24, -8, 5, 0,
+    -4, 62, 62, 35, 35,
+
+    -15, -7, -10, 6, -12, -15, -15, -15, -15, -15,
+    -15, -15, -15, -15, -15, -15, -15, -15, -15, -15,
+    -15, -15, -15, -15, 2, -15, -15, 15, -15, 23,
+    -15, 10, -15, -15, -15, -15, -15, -15, -15, 8,
+    7, 12, 5, -15, 3, -5, -15, 1, 0, -15,
+    -2, -3, -4, -15, -15, -15, -15, -15, -15, -15,
+    -15, -8, -6, -15, -15
+};
 
 const short ppexpr_grammar::action_info [] = {
-  34, 33, 5, 5, 42, 43, 5, 46, 45, 0, 
-  30, 31, 46, 45, 0, 0, 0, 42, 43, 42, 
-  43, 42, 43, 3, 3, 32, 5, 3, 42, 43, 
-  0, 46, 45, 42, 43, 50, 48, 49, 5, 0, 
-  0, 4, 0, 0, 0, 1, 2, 3, 22, 23, 
-  20, 21, 5, 4, 0, 0, 0, 1, 2, 3, 
-  22, 23, 20, 21, 0, 0, 0, 4, 0, 0, 
-  5, 1, 2, 3, 0, 0, 0, 5, 6, 0, 
-  24, 0, 0, 0, 0, 4, 5, 6, 0, 1, 
-  2, 3, 4, 0, 5, 0, 1, 2, 3, 0, 
-  0, 4, 0, 0, 0, 1, 2, 3, 0, 4, 
-  0, 5, 6, 1, 2, 3, 0, 0, 5, 6, 
-  35, 40, 39, 38, 37, 36, 4, 0, 0, 0, 
-  1, 2, 3, 4, 0, 0, 0, 1, 2, 3, 
-  0, 0, 5, 6, 0, 0, 0, 0, 0, 0, 
-  0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 
-  0, 1, 2, 3, 0, 0, 
-
-  17, 29, 18, 25, 19, 58, 27, 51, 0, 0, 
-  52, 59, 60, 53, 26, 41, 47, 44, 0, 55, 
-  56, 57, 0, 28, 54, 0, 0, 0, 0, 0, 
-  0, 0};
+    31, 27, 38, 24, 27, 36, 37, 48, 47, 44,
+    45, 5, 5, 44, 45, 0, 24, 0, 44, 45,
+    29, 44, 45, 0, 48, 47, 34, 35, 61, 62,
+    48, 47, 3, 3, 5, 25, 44, 45, 0, 5,
+    0, 52, 50, 51, 42, 41, 40, 39, 0, 4,
+    5, 6, 0, 1, 2, 3, 0, 0, 0, 0,
+    3, 0, 0, 5, 0, 4, 0, 0, 0, 1,
+    2, 3, 0, 0, 0, 0, 0, 0, 4, 0,
+    0, 0, 1, 2, 3, 0, 0, 5, 6, 0,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    0, 0, 4, 0, 0, 0, 1, 2, 3, 0,
+    0,
+
+    63, 33, 64, 22, 26, 57, 21, 23, 55, 54,
+    53, 56, 49, 46, 60, 32, 58, 43, 28, 0,
+    0, 59, 0, 0, 0, 0, 0, 30, 0, 0,
+    0, 0, 0, 0, 0, 0, 0, 0
+};
 
 const short ppexpr_grammar::action_check [] = {
-  0, 2, 1, 1, 13, 14, 1, 15, 16, -1, 
-  7, 8, 15, 16, -1, -1, -1, 13, 14, 13, 
-  14, 13, 14, 22, 22, 2, 1, 22, 13, 14, 
-  -1, 15, 16, 13, 14, 17, 18, 19, 1, -1, 
-  -1, 16, -1, -1, -1, 20, 21, 22, 3, 4, 
-  5, 6, 1, 16, -1, -1, -1, 20, 21, 22, 
-  3, 4, 5, 6, -1, -1, -1, 16, -1, -1, 
-  1, 20, 21, 22, -1, -1, -1, 1, 2, -1, 
-  23, -1, -1, -1, -1, 16, 1, 2, -1, 20, 
-  21, 22, 16, -1, 1, -1, 20, 21, 22, -1, 
-  -1, 16, -1, -1, -1, 20, 21, 22, -1, 16, 
-  -1, 1, 2, 20, 21, 22, -1, -1, 1, 2, 
-  7, 8, 9, 10, 11, 12, 16, -1, -1, -1, 
-  20, 21, 22, 16, -1, -1, -1, 20, 21, 22, 
-  -1, -1, 1, 2, -1, -1, -1, -1, -1, -1, 
-  -1, -1, -1, -1, -1, -1, -1, 16, -1, -1, 
-  -1, 20, 21, 22, -1, -1, 
-
-  9, 9, 9, 2, 1, 5, 2, 8, -1, -1, 
-  8, 5, 5, 8, 2, 5, 7, 6, -1, 6, 
-  5, 5, -1, 2, 7, -1, -1, -1, -1, -1, 
-  -1, -1};
+    5, 3, 0, 4, 3, 2, 2, 15, 16, 13,
+    14, 1, 1, 13, 14, -1, 4, -1, 13, 14,
+    6, 13, 14, -1, 15, 16, 7, 8, 7, 8,
+    15, 16, 22, 22, 1, 23, 13, 14, -1, 1,
+    -1, 17, 18, 19, 9, 10, 11, 12, -1, 16,
+    1, 2, -1, 20, 21, 22, -1, -1, -1, -1,
+    22, -1, -1, 1, -1, 16, -1, -1, -1, 20,
+    21, 22, -1, -1, -1, -1, -1, -1, 16, -1,
+    -1, -1, 20, 21, 22, -1, -1, 1, 2, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, 16, -1, -1, -1, 20, 21, 22, -1,
+    -1,
+
+    8, 13, 8, 13, 2, 10, 13, 1, 12, 12,
+    12, 11, 11, 10, 9, 5, 9, 9, 3, -1,
+    -1, 9, -1, -1, -1, -1, -1, 4, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1
+};
 
diff --git a/src/jomlib/ppexpr_grammar_p.h b/src/jomlib/ppexpr_grammar_p.h
index 8bc4480..528df6f 100644
--- a/src/jomlib/ppexpr_grammar_p.h
+++ b/src/jomlib/ppexpr_grammar_p.h
@@ -5,77 +5,77 @@
 class ppexpr_grammar
 {
 public:
-  enum VariousConstants {
-    EOF_SYMBOL = 0,
-    T_BIT_AND = 5,
-    T_BIT_NOT = 20,
-    T_BIT_OR = 6,
-    T_BOOL_AND = 3,
-    T_BOOL_NOT = 21,
-    T_BOOL_OR = 4,
-    T_DIV = 18,
-    T_EQUAL = 7,
-    T_EQUAL_OR_GREATER_THAN = 12,
-    T_EQUAL_OR_LESS_THAN = 11,
-    T_GREATER_THAN = 10,
-    T_LEFT_PAREN = 22,
-    T_LESS_THAN = 9,
-    T_LINEFEED = 24,
-    T_MINUS = 16,
-    T_MOD = 19,
-    T_MULT = 17,
-    T_NOT_EQUAL = 8,
-    T_NUMBER = 1,
-    T_PLUS = 15,
-    T_RIGHT_PAREN = 23,
-    T_SHIFT_LEFT = 13,
-    T_SHIFT_RIGHT = 14,
-    T_STRING = 2,
+    enum VariousConstants {
+        EOF_SYMBOL = 0,
+        T_BIT_AND = 5,
+        T_BIT_NOT = 20,
+        T_BIT_OR = 6,
+        T_BOOL_AND = 3,
+        T_BOOL_NOT = 21,
+        T_BOOL_OR = 4,
+        T_DIV = 18,
+        T_EQUAL = 7,
+        T_EQUAL_OR_GREATER_THAN = 12,
+        T_EQUAL_OR_LESS_THAN = 11,
+        T_GREATER_THAN = 10,
+        T_LEFT_PAREN = 22,
+        T_LESS_THAN = 9,
+        T_LINEFEED = 24,
+        T_MINUS = 16,
+        T_MOD = 19,
+        T_MULT = 17,
+        T_NOT_EQUAL = 8,
+        T_NUMBER = 1,
+        T_PLUS = 15,
+        T_RIGHT_PAREN = 23,
+        T_SHIFT_LEFT = 13,
+        T_SHIFT_RIGHT = 14,
+        T_STRING = 2,
 
-    ACCEPT_STATE = 34,
-    RULE_COUNT = 34,
-    STATE_COUNT = 61,
-    TERMINAL_COUNT = 25,
-    NON_TERMINAL_COUNT = 11,
+        ACCEPT_STATE = 38,
+        RULE_COUNT = 38,
+        STATE_COUNT = 65,
+        TERMINAL_COUNT = 25,
+        NON_TERMINAL_COUNT = 15,
 
-    GOTO_INDEX_OFFSET = 61,
-    GOTO_INFO_OFFSET = 166,
-    GOTO_CHECK_OFFSET = 166
-  };
+        GOTO_INDEX_OFFSET = 65,
+        GOTO_INFO_OFFSET = 111,
+        GOTO_CHECK_OFFSET = 111
+    };
 
-  static const char  *const    spell [];
-  static const short             lhs [];
-  static const short             rhs [];
+    static const char *const     spell[];
+    static const short             lhs[];
+    static const short             rhs[];
 
 #ifndef QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
-  static const int     rule_index [];
-  static const int      rule_info [];
+    static const int     rule_index[];
+    static const int      rule_info[];
 #endif // QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
 
-  static const short    goto_default [];
-  static const short  action_default [];
-  static const short    action_index [];
-  static const short     action_info [];
-  static const short    action_check [];
+    static const short    goto_default[];
+    static const short  action_default[];
+    static const short    action_index[];
+    static const short     action_info[];
+    static const short    action_check[];
 
-  static inline int nt_action (int state, int nt)
-  {
-    const int yyn = action_index [GOTO_INDEX_OFFSET + state] + nt;
-    if (yyn < 0 || action_check [GOTO_CHECK_OFFSET + yyn] != nt)
-      return goto_default [nt];
+    static inline int nt_action (int state, int nt)
+    {
+        const int yyn = action_index [GOTO_INDEX_OFFSET + state] + nt;
+        if (yyn < 0 || action_check [GOTO_CHECK_OFFSET + yyn] != nt)
+            return goto_default [nt];
 
-    return action_info [GOTO_INFO_OFFSET + yyn];
-  }
+        return action_info [GOTO_INFO_OFFSET + yyn];
+    }
 
-  static inline int t_action (int state, int token)
-  {
-    const int yyn = action_index [state] + token;
+    static inline int t_action (int state, int token)
+    {
+        const int yyn = action_index [state] + token;
 
-    if (yyn < 0 || action_check [yyn] != token)
-      return - action_default [state];
+        if (yyn < 0 || action_check [yyn] != token)
+            return - action_default [state];
 
-    return action_info [yyn];
-  }
+        return action_info [yyn];
+    }
 };
 
 
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index a36bcc1..529744c 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -127,22 +127,22 @@ bool PPExprParser::parse(const char* str)
             switch (r) {
 
     case 2: // term0
-        sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0;
-        break;
-
-    case 3: // term0
         sym(1).num = (sym(1).num != 0 || sym(3).num != 0) ? 1 : 0;
         break;
 
-    case 4: // term0
-        sym(1).num &= sym(3).num;
+    case 4: // andterm
+        sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0;
         break;
 
-    case 5: // term0
+    case 6: // bitorterm
         sym(1).num |= sym(3).num;
         break;
 
-    case 8: { // strterm1
+    case 8: // bitandterm
+        sym(1).num &= sym(3).num;
+        break;
+
+    case 11: { // strterm1
         QByteArray* lhs = sym(1).str;
         QByteArray* rhs = sym(3).str;
         sym(1).num = (*lhs == *rhs) ? 1 : 0;
@@ -151,7 +151,7 @@ bool PPExprParser::parse(const char* str)
         break;
     }
 
-    case 9: { // strterm1
+    case 12: { // strterm1
         QByteArray* lhs = sym(1).str;
         QByteArray* rhs = sym(3).str;
         sym(1).num = (*lhs == *rhs) ? 0 : 1;
@@ -160,51 +160,51 @@ bool PPExprParser::parse(const char* str)
         break;
     }
 
-    case 11: // term2
+    case 14: // term2
         sym(1).num = (sym(1).num == sym(3).num);
         break;
 
-    case 12: // term2
+    case 15: // term2
         sym(1).num = (sym(1).num != sym(3).num);
         break;
 
-    case 13: // term2
+    case 17: // relterm
         sym(1).num = (sym(1).num < sym(3).num);
         break;
 
-    case 14: // term2
+    case 18: // relterm
         sym(1).num = (sym(1).num > sym(3).num);
         break;
 
-    case 15: // term2
+    case 19: // relterm
         sym(1).num = (sym(1).num <= sym(3).num);
         break;
 
-    case 16: // term2
+    case 20: // relterm
         sym(1).num = (sym(1).num >= sym(3).num);
         break;
 
-    case 18: // term3
+    case 22: // term3
         sym(1).num <<= sym(3).num;
         break;
 
-    case 19: // term3
+    case 23: // term3
         sym(1).num >>= sym(3).num;
         break;
 
-    case 21: // term4
+    case 25: // term4
         sym(1).num += sym(3).num;
         break;
 
-    case 22: // term4
+    case 26: // term4
         sym(1).num -= sym(3).num;
         break;
 
-    case 24: // term5
+    case 28: // term5
         sym(1).num *= sym(3).num;
         break;
 
-    case 25: { // term5
+    case 29: { // term5
         const int rhs = sym(3).num;
         if (rhs == 0) {
             m_errorMessage = "division by zero";
@@ -216,7 +216,7 @@ bool PPExprParser::parse(const char* str)
         break;
     }
 
-    case 26: { // term5
+    case 30: { // term5
         const int rhs = sym(3).num;
         if (rhs == 0) {
             m_errorMessage = "division by zero";
@@ -227,19 +227,19 @@ bool PPExprParser::parse(const char* str)
         break;
     }
 
-    case 28: // term6
+    case 32: // term6
         sym(1).num = -sym(2).num;
         break;
 
-    case 29: // term6
+    case 33: // term6
         sym(1).num = ~sym(2).num;
         break;
 
-    case 30: // term6
+    case 34: // term6
         sym(1).num = (sym(2).num == 0) ? 1 : 0;
         break;
 
-    case 32: // primary
+    case 36: // primary
         sym(1).num = sym(2).num;
         break;
 
-- 
2.43.0


From 7e52c60b9394adf81d19e49aa295104cd6d7a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 09/58] fix: EXIST ends at its closing parenthesis

---
 src/jomlib/ppexpr-lex.inc | 195 +++++++++++++++++---------------------
 src/jomlib/ppexpr.l       |  19 +---
 2 files changed, 87 insertions(+), 127 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 5ee300d..2527297 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -349,8 +349,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 41
-#define YY_END_OF_BUFFER 42
+#define YY_NUM_RULES 40
+#define YY_END_OF_BUFFER 41
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -358,17 +358,16 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[86] =
+static const flex_int16_t yy_accept[81] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       42,   41,    1,    3,   41,   22,   25,   20,    6,   23,
-       24,   18,   16,   17,   19,    2,   10,   41,   11,   41,
-       41,   26,   41,    7,   21,   34,   36,   41,   29,   41,
-       31,   37,   40,   41,    1,    3,    8,    4,    2,   14,
-       12,    9,   13,   15,    0,    0,    0,    5,   34,   35,
-        0,   29,    0,   31,   37,   38,   39,    0,    0,    0,
-       30,   32,    0,    0,    0,    0,   28,   28,    0,    0,
-        0,   27,    0,   33,    0
+       41,   40,    1,    3,   40,   22,   25,   20,    6,   23,
+       24,   18,   16,   17,   19,    2,   10,   40,   11,   40,
+       40,   26,    7,   21,   33,   35,   40,   29,   31,   40,
+       36,   39,   40,    1,    3,    8,    4,    2,   14,   12,
+        9,   13,   15,    0,    0,    5,   33,   34,    0,   29,
+       31,    0,    0,    0,   32,   36,   37,   38,    0,    0,
+       30,    0,    0,    0,    0,    0,   28,    0,   27,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -405,96 +404,90 @@ static const YY_CHAR yy_ec[256] =
 
 static const YY_CHAR yy_meta[41] =
     {   0,
-        1,    1,    2,    1,    1,    3,    1,    1,    1,    4,
+        1,    1,    2,    1,    1,    3,    1,    1,    4,    5,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    5,    5,    5,
+        1,    1,    1,    1,    1,    1,    1,    6,    6,    6,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[94] =
+static const flex_int16_t yy_base[90] =
     {   0,
-        0,    0,   38,   39,   34,   37,   38,   39,   48,   53,
-      128,  175,  124,  175,  122,  106,  175,  175,  115,  175,
-      175,  175,  175,  175,  175,  107,   40,  103,   41,   31,
-       37,  175,   41,   81,  175,    0,  113,    0,   45,    0,
-       49,    0,  175,   38,  115,  175,  175,  175,  100,  175,
-      175,  175,  175,  175,   63,   63,   64,  175,    0,  175,
-      104,   54,  103,   55,    0,  175,  175,   65,   66,   67,
-      175,  102,   69,   68,   69,   79,   92,  175,   87,  100,
-      100,  175,   52,   39,  175,  135,  140,  145,  150,  155,
-      160,  165,  169
-
+        0,    0,   38,   39,   34,   37,   45,   46,   46,   49,
+      161,  162,  158,  162,  156,  140,  162,  162,  149,  162,
+      162,  162,  162,  162,  162,  139,   39,  134,   40,   30,
+       33,  162,  107,  162,    0,  135,    0,   45,  133,   57,
+        0,  162,   36,  130,  162,  162,  162,  109,  162,  162,
+      162,  162,  162,   48,   50,  162,    0,  162,  113,   52,
+       96,   76,   91,   86,  162,    0,  162,  162,   60,   63,
+      162,   89,   83,   65,   64,   70,  162,   72,  162,  162,
+      103,  109,  115,  121,  127,  133,  139,  144,  150
     } ;
 
-static const flex_int16_t yy_def[94] =
+static const flex_int16_t yy_def[90] =
     {   0,
-       85,    1,   86,   86,   87,   87,   87,   87,   88,   88,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   89,   85,   90,   85,   91,
-       85,   92,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   89,   85,
-       90,   85,   91,   85,   92,   85,   85,   85,   85,   85,
-       85,   91,   85,   85,   85,   85,   85,   85,   85,   93,
-       85,   85,   93,   93,    0,   85,   85,   85,   85,   85,
-       85,   85,   85
-
+       80,    1,   81,   81,   82,   82,   82,   82,   83,   83,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   84,   80,   85,   80,   80,   86,
+       87,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   84,   80,   85,   80,
+       80,   86,   88,   89,   80,   87,   80,   80,   80,   80,
+       80,   88,   89,   80,   80,   80,   80,   80,   80,    0,
+       80,   80,   80,   80,   80,   80,   80,   80,   80
     } ;
 
-static const flex_int16_t yy_nxt[216] =
+static const flex_int16_t yy_nxt[203] =
     {   0,
        12,   13,   14,   15,   16,   17,   18,   19,   20,   21,
        22,   23,   24,   25,   26,   12,   27,   28,   29,   30,
        31,   12,   12,   12,   12,   12,   12,   32,   12,   12,
-       30,   33,   12,   12,   12,   12,   12,   12,   34,   35,
-       12,   12,   38,   37,   37,   38,   40,   40,   84,   39,
-       12,   55,   39,   41,   41,   12,   50,   51,   53,   54,
-       62,   84,   55,   56,   64,   66,   67,   57,   39,   62,
-       64,   39,   41,   41,   57,   12,   43,   44,   57,   62,
-       12,   43,   44,   64,   68,   69,   70,   73,   62,   64,
-       74,   75,   76,   77,   78,   68,   70,   70,   73,   79,
-
-       80,   75,   75,   76,   78,   78,   82,   81,   80,   84,
-       79,   72,   72,   71,   49,   81,   45,   82,   60,   58,
-       52,   49,   48,   47,   46,   45,   81,   85,   85,   85,
-       85,   85,   85,   85,   81,   36,   36,   36,   36,   36,
-       12,   12,   12,   12,   12,   42,   42,   42,   42,   42,
-       59,   85,   85,   59,   59,   61,   61,   61,   85,   61,
-       63,   85,   63,   63,   63,   65,   85,   65,   65,   83,
-       85,   83,   83,   83,   11,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+       30,   31,   12,   12,   12,   12,   12,   12,   33,   34,
+       12,   12,   37,   36,   36,   37,   39,   39,   12,   38,
+       54,   12,   38,   40,   40,   49,   50,   52,   53,   55,
+       60,   54,   63,   67,   68,   64,   65,   60,   38,   69,
+       55,   38,   70,   12,   42,   43,   12,   42,   43,   60,
+       69,   63,   74,   70,   64,   65,   60,   75,   76,   77,
+       78,   79,   62,   74,   62,   62,   62,   61,   75,   76,
+
+       77,   78,   79,   35,   35,   35,   35,   35,   35,   12,
+       12,   12,   12,   12,   12,   41,   41,   41,   41,   41,
+       41,   57,   71,   48,   57,   57,   57,   59,   59,   59,
+       59,   44,   59,   62,   61,   62,   62,   62,   62,   66,
+       58,   66,   66,   66,   72,   56,   72,   72,   72,   72,
+       73,   51,   73,   48,   73,   73,   47,   46,   45,   44,
+       80,   11,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+
+       80,   80
     } ;
 
-static const flex_int16_t yy_chk[216] =
+static const flex_int16_t yy_chk[203] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        3,    4,    5,    3,    4,    6,    7,    8,   84,    5,
-        9,   30,    6,    7,    8,   10,   27,   27,   29,   29,
-       39,   83,   30,   31,   41,   44,   44,   33,    5,   62,
-       64,    6,    7,    8,   31,    9,    9,    9,   33,   39,
-       10,   10,   10,   41,   55,   56,   57,   68,   62,   64,
-       69,   70,   73,   74,   75,   55,   56,   57,   68,   76,
-
-       77,   69,   70,   73,   74,   75,   79,   77,   81,   80,
-       76,   72,   63,   61,   49,   81,   45,   79,   37,   34,
-       28,   26,   19,   16,   15,   13,   77,   11,    0,    0,
-        0,    0,    0,    0,   81,   86,   86,   86,   86,   86,
-       87,   87,   87,   87,   87,   88,   88,   88,   88,   88,
-       89,    0,    0,   89,   89,   90,   90,   90,    0,   90,
-       91,    0,   91,   91,   91,   92,    0,   92,   92,   93,
-        0,   93,   93,   93,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+        3,    4,    5,    3,    4,    6,    7,    8,    9,    5,
+       30,   10,    6,    7,    8,   27,   27,   29,   29,   31,
+       38,   30,   40,   43,   43,   40,   40,   60,    5,   54,
+       31,    6,   55,    9,    9,    9,   10,   10,   10,   38,
+       54,   62,   69,   55,   62,   62,   60,   70,   74,   75,
+       76,   78,   73,   69,   72,   64,   63,   61,   70,   74,
+
+       75,   76,   78,   81,   81,   81,   81,   81,   81,   82,
+       82,   82,   82,   82,   82,   83,   83,   83,   83,   83,
+       83,   84,   59,   48,   84,   84,   84,   85,   85,   85,
+       85,   44,   85,   86,   39,   86,   86,   86,   86,   87,
+       36,   87,   87,   87,   88,   33,   88,   88,   88,   88,
+       89,   28,   89,   26,   89,   89,   19,   16,   15,   13,
+       11,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
+
+       80,   80
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -798,13 +791,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 86 )
+				if ( yy_current_state >= 81 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 85 );
+		while ( yy_current_state != 80 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -996,31 +989,13 @@ YY_RULE_SETUP
 
 case 33:
 YY_RULE_SETUP
-{
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-	YY_BREAK
-
-case 34:
-YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 35:
+case 34:
 YY_RULE_SETUP
 yylval.str->append('\"');
 	YY_BREAK
-case 36:
+case 35:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1028,19 +1003,19 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
-case 37:
+case 36:
 YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 38:
+case 37:
 YY_RULE_SETUP
 yylval.str->append('[');
 	YY_BREAK
-case 39:
+case 38:
 YY_RULE_SETUP
 yylval.str->append(']');
 	YY_BREAK
-case 40:
+case 39:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1051,7 +1026,7 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
-case 41:
+case 40:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
@@ -1356,7 +1331,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 86 )
+			if ( yy_current_state >= 81 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1384,11 +1359,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 86 )
+		if ( yy_current_state >= 81 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 85);
+	yy_is_jam = (yy_current_state == 80);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 670c683..f7634c3 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -114,8 +114,8 @@ static int yywrap()
 }
 
 <STATE_EXIST>{
-    [:blank:]+     /* eat whitespace */
-    "(".+")" {
+    [ \t]+      /* eat whitespace */
+    "("([^()\"\n]|\"[^\"\n]*\"|"("[^()\n]*")")*")" {
         BEGIN(INITIAL);
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
@@ -132,21 +132,6 @@ static int yywrap()
     }
 }
 
-"EXIST"[:blank:]*"(".*")" {
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-
 <STATE_STRING>{
     [^\n\"]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     \"\"        yylval.str->append('\"');
-- 
2.43.0


From 23c929230fea798c8231aa031d77cddbfe7cd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 10/58] fix: stray characters in an expression are errors

---
 src/jomlib/ppexpr-lex.inc     | 203 ++++++++++++++++++----------------
 src/jomlib/ppexpr.g           |   1 +
 src/jomlib/ppexpr.l           |   7 +-
 src/jomlib/ppexpr_grammar.cpp |  81 +++++++-------
 src/jomlib/ppexpr_grammar_p.h |   7 +-
 5 files changed, 159 insertions(+), 140 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 2527297..66adb2f 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -349,8 +349,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 40
-#define YY_END_OF_BUFFER 41
+#define YY_NUM_RULES 41
+#define YY_END_OF_BUFFER 42
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -358,16 +358,17 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[81] =
+static const flex_int16_t yy_accept[82] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       41,   40,    1,    3,   40,   22,   25,   20,    6,   23,
-       24,   18,   16,   17,   19,    2,   10,   40,   11,   40,
-       40,   26,    7,   21,   33,   35,   40,   29,   31,   40,
-       36,   39,   40,    1,    3,    8,    4,    2,   14,   12,
-        9,   13,   15,    0,    0,    5,   33,   34,    0,   29,
-       31,    0,    0,    0,   32,   36,   37,   38,    0,    0,
-       30,    0,    0,    0,    0,    0,   28,    0,   27,    0
+       42,   33,    1,    3,   33,   22,   25,   20,    6,   23,
+       24,   18,   16,   17,   19,    2,   10,   33,   11,   33,
+       33,   26,    7,   21,   34,   41,   36,   29,   33,   31,
+       33,   37,   40,   41,    1,    3,    8,    4,    2,   14,
+       12,    9,   13,   15,    0,    0,    5,   34,   35,   29,
+        0,   31,    0,    0,    0,   32,   37,   38,   39,    0,
+        0,   30,    0,    0,    0,    0,    0,   28,    0,   27,
+        0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -377,15 +378,15 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    5,    6,    1,    1,    7,    8,    1,    9,
        10,   11,   12,    1,   13,    1,   14,   15,   15,   15,
-       15,   15,   15,   15,   15,   15,   15,   16,    1,   17,
-       18,   19,    1,    1,    1,    1,    1,   20,   21,   22,
-        1,    1,   23,    1,    1,    1,    1,   24,    1,    1,
-        1,    1,   25,   26,    1,    1,    1,   27,    1,    1,
-       28,    1,   29,   30,    1,    1,   16,   16,    1,   31,
-
-       32,   33,    1,    1,   34,    1,   16,   16,    1,   35,
-        1,    1,    1,    1,   36,   37,    1,    1,    1,   38,
-        1,    1,    1,   39,    1,   40,    1,    1,    1,    1,
+       15,   15,   15,   15,   15,   15,   15,    1,    1,   16,
+       17,   18,    1,    1,    1,    1,    1,   19,   20,   21,
+        1,    1,   22,    1,    1,    1,    1,   23,    1,    1,
+        1,    1,   24,   25,    1,    1,    1,   26,    1,    1,
+       27,    1,   28,   29,    1,    1,    1,    1,    1,   30,
+
+       31,   32,    1,    1,   33,    1,    1,    1,    1,   34,
+        1,    1,    1,    1,   35,   36,    1,    1,    1,   37,
+        1,    1,    1,   38,    1,   39,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -402,92 +403,90 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[41] =
+static const YY_CHAR yy_meta[40] =
     {   0,
         1,    1,    2,    1,    1,    3,    1,    1,    4,    5,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    6,    6,    6,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1
+        1,    1,    1,    1,    1,    1,    6,    6,    6,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[90] =
+static const flex_int16_t yy_base[91] =
     {   0,
-        0,    0,   38,   39,   34,   37,   45,   46,   46,   49,
-      161,  162,  158,  162,  156,  140,  162,  162,  149,  162,
-      162,  162,  162,  162,  162,  139,   39,  134,   40,   30,
-       33,  162,  107,  162,    0,  135,    0,   45,  133,   57,
-        0,  162,   36,  130,  162,  162,  162,  109,  162,  162,
-      162,  162,  162,   48,   50,  162,    0,  162,  113,   52,
-       96,   76,   91,   86,  162,    0,  162,  162,   60,   63,
-      162,   89,   83,   65,   64,   70,  162,   72,  162,  162,
-      103,  109,  115,  121,  127,  133,  139,  144,  150
+        0,    0,   37,   38,   43,   45,   47,   55,   39,   48,
+      160,  161,  157,  161,  155,  138,  161,  161,  145,  161,
+      161,  161,  161,  161,  161,  132,   43,  125,   44,   43,
+       43,  161,   98,  161,    0,  161,  127,  123,    0,  122,
+       72,    0,  161,   43,   99,  161,  161,  161,   85,  161,
+      161,  161,  161,  161,   51,   51,  161,    0,  161,   97,
+       86,   93,   79,   88,   55,  161,    0,  161,  161,   57,
+       62,  161,   49,   43,   64,   66,   72,  161,   74,  161,
+      161,  104,  110,  116,  122,  128,  134,  140,  145,  151
     } ;
 
-static const flex_int16_t yy_def[90] =
+static const flex_int16_t yy_def[91] =
     {   0,
-       80,    1,   81,   81,   82,   82,   82,   82,   83,   83,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   84,   80,   85,   80,   80,   86,
-       87,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   84,   80,   85,   80,
-       80,   86,   88,   89,   80,   87,   80,   80,   80,   80,
-       80,   88,   89,   80,   80,   80,   80,   80,   80,    0,
-       80,   80,   80,   80,   80,   80,   80,   80,   80
+       81,    1,   82,   82,   83,   83,   83,   83,   84,   84,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   85,   81,   81,   81,   86,   81,
+       87,   88,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   85,   81,   81,
+       86,   81,   87,   89,   90,   81,   88,   81,   81,   81,
+       81,   81,   89,   90,   81,   81,   81,   81,   81,   81,
+        0,   81,   81,   81,   81,   81,   81,   81,   81,   81
     } ;
 
-static const flex_int16_t yy_nxt[203] =
+static const flex_int16_t yy_nxt[201] =
     {   0,
        12,   13,   14,   15,   16,   17,   18,   19,   20,   21,
-       22,   23,   24,   25,   26,   12,   27,   28,   29,   30,
-       31,   12,   12,   12,   12,   12,   12,   32,   12,   12,
-       30,   31,   12,   12,   12,   12,   12,   12,   33,   34,
-       12,   12,   37,   36,   36,   37,   39,   39,   12,   38,
-       54,   12,   38,   40,   40,   49,   50,   52,   53,   55,
-       60,   54,   63,   67,   68,   64,   65,   60,   38,   69,
-       55,   38,   70,   12,   42,   43,   12,   42,   43,   60,
-       69,   63,   74,   70,   64,   65,   60,   75,   76,   77,
-       78,   79,   62,   74,   62,   62,   62,   61,   75,   76,
-
-       77,   78,   79,   35,   35,   35,   35,   35,   35,   12,
-       12,   12,   12,   12,   12,   41,   41,   41,   41,   41,
-       41,   57,   71,   48,   57,   57,   57,   59,   59,   59,
-       59,   44,   59,   62,   61,   62,   62,   62,   62,   66,
-       58,   66,   66,   66,   72,   56,   72,   72,   72,   72,
-       73,   51,   73,   48,   73,   73,   47,   46,   45,   44,
-       80,   11,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-
-       80,   80
+       22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
+       12,   12,   12,   12,   12,   12,   32,   12,   12,   30,
+       31,   12,   12,   12,   12,   12,   12,   33,   34,   36,
+       36,   36,   37,   37,   38,   36,   38,   36,   40,   36,
+       36,   39,   63,   39,   63,   41,   40,   36,   50,   51,
+       53,   54,   55,   41,   63,   36,   43,   44,   56,   68,
+       69,   70,   71,   55,   36,   43,   44,   64,   75,   56,
+       65,   66,   70,   71,   64,   76,   77,   65,   66,   75,
+       78,   79,   80,   63,   62,   72,   76,   77,   60,   49,
+
+       45,   78,   79,   80,   35,   35,   35,   35,   35,   35,
+       12,   12,   12,   12,   12,   12,   42,   42,   42,   42,
+       42,   42,   58,   62,   60,   58,   58,   58,   61,   61,
+       61,   61,   59,   61,   63,   57,   63,   63,   63,   63,
+       67,   52,   67,   67,   67,   73,   49,   73,   73,   73,
+       73,   74,   48,   74,   47,   74,   74,   46,   45,   81,
+       11,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81
+
     } ;
 
-static const flex_int16_t yy_chk[203] =
+static const flex_int16_t yy_chk[201] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        3,    4,    5,    3,    4,    6,    7,    8,    9,    5,
-       30,   10,    6,    7,    8,   27,   27,   29,   29,   31,
-       38,   30,   40,   43,   43,   40,   40,   60,    5,   54,
-       31,    6,   55,    9,    9,    9,   10,   10,   10,   38,
-       54,   62,   69,   55,   62,   62,   60,   70,   74,   75,
-       76,   78,   73,   69,   72,   64,   63,   61,   70,   74,
-
-       75,   76,   78,   81,   81,   81,   81,   81,   81,   82,
-       82,   82,   82,   82,   82,   83,   83,   83,   83,   83,
-       83,   84,   59,   48,   84,   84,   84,   85,   85,   85,
-       85,   44,   85,   86,   39,   86,   86,   86,   86,   87,
-       36,   87,   87,   87,   88,   33,   88,   88,   88,   88,
-       89,   28,   89,   26,   89,   89,   19,   16,   15,   13,
-       11,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-       80,   80,   80,   80,   80,   80,   80,   80,   80,   80,
-
-       80,   80
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    3,
+        4,    9,    3,    4,    5,    5,    6,    6,    7,    7,
+       10,    5,   74,    6,   73,    7,    8,    8,   27,   27,
+       29,   29,   30,    8,   65,    9,    9,    9,   31,   44,
+       44,   55,   56,   30,   10,   10,   10,   41,   70,   31,
+       41,   41,   55,   56,   63,   71,   75,   63,   63,   70,
+       76,   77,   79,   64,   62,   61,   71,   75,   60,   49,
+
+       45,   76,   77,   79,   82,   82,   82,   82,   82,   82,
+       83,   83,   83,   83,   83,   83,   84,   84,   84,   84,
+       84,   84,   85,   40,   38,   85,   85,   85,   86,   86,
+       86,   86,   37,   86,   87,   33,   87,   87,   87,   87,
+       88,   28,   88,   88,   88,   89,   26,   89,   89,   89,
+       89,   90,   19,   90,   16,   90,   90,   15,   13,   11,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81,
+       81,   81,   81,   81,   81,   81,   81,   81,   81,   81
+
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -791,13 +790,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 81 )
+				if ( yy_current_state >= 82 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 80 );
+		while ( yy_current_state != 81 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -989,33 +988,41 @@ YY_RULE_SETUP
 
 case 33:
 YY_RULE_SETUP
-yylval.str->append(yytext, static_cast<int>(yyleng));
+{
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
 	YY_BREAK
+
 case 34:
 YY_RULE_SETUP
-yylval.str->append('\"');
+yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
+yylval.str->append('\"');
+	YY_BREAK
+case 36:
+YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
                     return T_STRING;
                 }
 	YY_BREAK
 
-case 36:
+case 37:
 YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 yylval.str->append('[');
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 yylval.str->append(']');
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1026,7 +1033,7 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
-case 40:
+case 41:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
@@ -1331,7 +1338,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 81 )
+			if ( yy_current_state >= 82 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1359,11 +1366,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 81 )
+		if ( yy_current_state >= 82 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 80);
+	yy_is_jam = (yy_current_state == 81);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index c173e69..e054dc7 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -53,6 +53,7 @@
 %token LEFT_PAREN
 %token RIGHT_PAREN
 %token LINEFEED
+%token INVALID
 
 %start expression
 
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index f7634c3..15e11f2 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -95,7 +95,7 @@ static int yywrap()
 (?i:EXIST)      BEGIN(STATE_EXIST);
 
 <STATE_DEFINED>{
-    [:blank:]+     /* eat whitespace */
+    [ \t]+      /* eat whitespace */
     "("[^\)]+")" {
         BEGIN(INITIAL);
         QByteArray macroName(yytext);
@@ -132,6 +132,11 @@ static int yywrap()
     }
 }
 
+<INITIAL,STATE_DEFINED,STATE_EXIST>. {
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+
 <STATE_STRING>{
     [^\n\"]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     \"\"        yylval.str->append('\"');
diff --git a/src/jomlib/ppexpr_grammar.cpp b/src/jomlib/ppexpr_grammar.cpp
index b6c30df..3effba4 100644
--- a/src/jomlib/ppexpr_grammar.cpp
+++ b/src/jomlib/ppexpr_grammar.cpp
@@ -4,19 +4,20 @@
 const char *const ppexpr_grammar::spell [] = {
     "end of file", 0, 0, 0, 0, 0, 0, 0, 0, 0,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 
 #ifndef QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
-"expression", "term0", "andterm", "bitorterm", "bitandterm",
-    "term1", "term2", "strterm1", "relterm", "term3", "term4", "term5", "term6", "primary", "$accept"
+"expression", "term0", "andterm", "bitorterm",
+    "bitandterm", "term1", "term2", "strterm1", "relterm", "term3", "term4", "term5", "term6", "primary",
+    "$accept"
 #endif // QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
 
 };
 
 const short ppexpr_grammar::lhs [] = {
-    25, 26, 26, 27, 27, 28, 28, 29, 29, 30,
-    30, 32, 32, 31, 31, 31, 33, 33, 33, 33,
-    33, 34, 34, 34, 35, 35, 35, 36, 36, 36,
-    36, 37, 37, 37, 37, 38, 38, 39
+    26, 27, 27, 28, 28, 29, 29, 30, 30, 31,
+    31, 33, 33, 32, 32, 32, 34, 34, 34, 34,
+    34, 35, 35, 35, 36, 36, 36, 37, 37, 37,
+    37, 38, 38, 38, 38, 39, 39, 40
 };
 
 const short ppexpr_grammar::rhs [] = {
@@ -29,10 +30,10 @@ const short ppexpr_grammar::rhs [] = {
 
 #ifndef QLALR_NO_PPEXPR_GRAMMAR_DEBUG_INFO
 const int ppexpr_grammar::rule_info [] = {
-    25, 26, 26, 27, 26, 26, 4, 27, 27, 28, 27, 27, 3, 28, 28, 29, 28, 28, 6, 29, 29, 30, 29, 29, 5, 30, 30, 31,
-    30, 32, 32, 2, 7, 2, 32, 2, 8, 2, 31, 33, 31, 31, 7, 33, 31, 31, 8, 33, 33, 34, 33, 33, 9, 34, 33, 33, 10, 34, 33, 33, 11, 34,
-    33, 33, 12, 34, 34, 35, 34, 34, 13, 35, 34, 34, 14, 35, 35, 36, 35, 35, 15, 36, 35, 35, 16, 36, 36, 37, 36, 36, 17, 37, 36, 36, 18, 37,
-    36, 36, 19, 37, 37, 38, 37, 16, 38, 37, 20, 38, 37, 21, 38, 38, 1, 38, 22, 26, 23, 39, 25, 0
+    26, 27, 27, 28, 27, 27, 4, 28, 28, 29, 28, 28, 3, 29, 29, 30, 29, 29, 6, 30, 30, 31, 30, 30, 5, 31, 31, 32,
+    31, 33, 33, 2, 7, 2, 33, 2, 8, 2, 32, 34, 32, 32, 7, 34, 32, 32, 8, 34, 34, 35, 34, 34, 9, 35, 34, 34, 10, 35, 34, 34, 11, 35,
+    34, 34, 12, 35, 35, 36, 35, 35, 13, 36, 35, 35, 14, 36, 36, 37, 36, 36, 15, 37, 36, 36, 16, 37, 37, 38, 37, 37, 17, 38, 37, 37, 18, 38,
+    37, 37, 19, 38, 38, 39, 38, 16, 39, 38, 20, 39, 38, 21, 39, 39, 1, 39, 22, 27, 23, 40, 26, 0
 };
 
 const int ppexpr_grammar::rule_index [] = {
@@ -59,13 +60,13 @@ const short ppexpr_grammar::goto_default [] = {
 };
 
 const short ppexpr_grammar::action_index [] = {
-    86, 10, 11, 86, 38, -25, 19, -2, -5, 14,
-    2, -25, 35, -25, -1, -25, 21, 23, 15, 24,
-    -25, -25, -25, 12, 49, -25, 1, 86, 14, 86,
-    -5, 86, -25, -25, 3, 4, -25, -25, -25, 62,
-    62, 62, 62, 8, 62, 62, 9, 33, 62, 24,
-    62, 62, 62, -25, -25, -25, 24, -8, 5, 0,
-    -4, 62, 62, 35, 35,
+    107, 11, 14, 72, 40, -26, 20, -2, -5, 15,
+    2, -26, 57, -26, -1, -26, 24, 25, 19, 26,
+    -26, -26, -26, 7, 69, -26, 1, 79, 15, 107,
+    -5, 107, -26, -26, 3, 4, -26, -26, -26, 82,
+    82, 82, 82, 9, 82, 82, 10, 36, 82, 26,
+    82, 82, 82, -26, -26, -26, 26, -8, 5, 0,
+    -4, 82, 39, 57, 37,
 
     -15, -7, -10, 6, -12, -15, -15, -15, -15, -15,
     -15, -15, -15, -15, -15, -15, -15, -15, -15, -15,
@@ -78,17 +79,19 @@ const short ppexpr_grammar::action_index [] = {
 
 const short ppexpr_grammar::action_info [] = {
     31, 27, 38, 24, 27, 36, 37, 48, 47, 44,
-    45, 5, 5, 44, 45, 0, 24, 0, 44, 45,
-    29, 44, 45, 0, 48, 47, 34, 35, 61, 62,
-    48, 47, 3, 3, 5, 25, 44, 45, 0, 5,
-    0, 52, 50, 51, 42, 41, 40, 39, 0, 4,
-    5, 6, 0, 1, 2, 3, 0, 0, 0, 0,
-    3, 0, 0, 5, 0, 4, 0, 0, 0, 1,
-    2, 3, 0, 0, 0, 0, 0, 0, 4, 0,
-    0, 0, 1, 2, 3, 0, 0, 5, 6, 0,
+    45, 24, 5, 44, 45, 5, 0, 0, 44, 45,
+    0, 29, 44, 45, 0, 48, 47, 34, 35, 0,
+    25, 61, 62, 3, 48, 47, 3, 5, 44, 45,
+    5, 5, 0, 52, 50, 51, 42, 41, 40, 39,
+    0, 0, 4, 0, 0, 4, 1, 2, 3, 1,
+    2, 3, 3, 0, 0, 0, 42, 41, 40, 39,
+    5, 6, 0, 5, 6, 0, 0, 0, 0, 0,
+    5, 6, 0, 5, 0, 4, 0, 0, 4, 1,
+    2, 3, 1, 2, 3, 4, 0, 0, 4, 1,
+    2, 3, 1, 2, 3, 0, 0, 0, 5, 6,
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-    0, 0, 4, 0, 0, 0, 1, 2, 3, 0,
-    0,
+    0, 0, 0, 4, 0, 0, 0, 1, 2, 3,
+    0, 0, 0,
 
     63, 33, 64, 22, 26, 57, 21, 23, 55, 54,
     53, 56, 49, 46, 60, 32, 58, 43, 28, 0,
@@ -98,17 +101,19 @@ const short ppexpr_grammar::action_info [] = {
 
 const short ppexpr_grammar::action_check [] = {
     5, 3, 0, 4, 3, 2, 2, 15, 16, 13,
-    14, 1, 1, 13, 14, -1, 4, -1, 13, 14,
-    6, 13, 14, -1, 15, 16, 7, 8, 7, 8,
-    15, 16, 22, 22, 1, 23, 13, 14, -1, 1,
-    -1, 17, 18, 19, 9, 10, 11, 12, -1, 16,
-    1, 2, -1, 20, 21, 22, -1, -1, -1, -1,
-    22, -1, -1, 1, -1, 16, -1, -1, -1, 20,
-    21, 22, -1, -1, -1, -1, -1, -1, 16, -1,
-    -1, -1, 20, 21, 22, -1, -1, 1, 2, -1,
+    14, 4, 1, 13, 14, 1, -1, -1, 13, 14,
+    -1, 6, 13, 14, -1, 15, 16, 7, 8, -1,
+    23, 7, 8, 22, 15, 16, 22, 1, 13, 14,
+    1, 1, -1, 17, 18, 19, 9, 10, 11, 12,
+    -1, -1, 16, -1, -1, 16, 20, 21, 22, 20,
+    21, 22, 22, -1, -1, -1, 9, 10, 11, 12,
+    1, 2, -1, 1, 2, -1, -1, -1, -1, -1,
+    1, 2, -1, 1, -1, 16, -1, -1, 16, 20,
+    21, 22, 20, 21, 22, 16, -1, -1, 16, 20,
+    21, 22, 20, 21, 22, -1, -1, -1, 1, 2,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-    -1, -1, 16, -1, -1, -1, 20, 21, 22, -1,
-    -1,
+    -1, -1, -1, 16, -1, -1, -1, 20, 21, 22,
+    -1, -1, -1,
 
     8, 13, 8, 13, 2, 10, 13, 1, 12, 12,
     12, 11, 11, 10, 9, 5, 9, 9, 3, -1,
diff --git a/src/jomlib/ppexpr_grammar_p.h b/src/jomlib/ppexpr_grammar_p.h
index 528df6f..8646a21 100644
--- a/src/jomlib/ppexpr_grammar_p.h
+++ b/src/jomlib/ppexpr_grammar_p.h
@@ -18,6 +18,7 @@ public:
         T_EQUAL_OR_GREATER_THAN = 12,
         T_EQUAL_OR_LESS_THAN = 11,
         T_GREATER_THAN = 10,
+        T_INVALID = 25,
         T_LEFT_PAREN = 22,
         T_LESS_THAN = 9,
         T_LINEFEED = 24,
@@ -35,12 +36,12 @@ public:
         ACCEPT_STATE = 38,
         RULE_COUNT = 38,
         STATE_COUNT = 65,
-        TERMINAL_COUNT = 25,
+        TERMINAL_COUNT = 26,
         NON_TERMINAL_COUNT = 15,
 
         GOTO_INDEX_OFFSET = 65,
-        GOTO_INFO_OFFSET = 111,
-        GOTO_CHECK_OFFSET = 111
+        GOTO_INFO_OFFSET = 133,
+        GOTO_CHECK_OFFSET = 133
     };
 
     static const char *const     spell[];
-- 
2.43.0


From 8fa8db704bb9cc3b6781a0ee323dbe0eaf8f5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 11/58] fix: an expression that ends inside a string or a
 command is an error

---
 src/jomlib/ppexpr-lex.inc | 13 +++++++++----
 src/jomlib/ppexpr.l       |  5 +++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 66adb2f..f803a46 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -988,6 +988,15 @@ YY_RULE_SETUP
 
 case 33:
 YY_RULE_SETUP
+{
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+	YY_BREAK
+case YY_STATE_EOF(STATE_STRING):
+case YY_STATE_EOF(STATE_DEFINED):
+case YY_STATE_EOF(STATE_EXIST):
+case YY_STATE_EOF(STATE_SHELLCOMMAND):
 {
     BEGIN(INITIAL);
     return T_INVALID;
@@ -1038,10 +1047,6 @@ YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-case YY_STATE_EOF(STATE_STRING):
-case YY_STATE_EOF(STATE_DEFINED):
-case YY_STATE_EOF(STATE_EXIST):
-case YY_STATE_EOF(STATE_SHELLCOMMAND):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 15e11f2..54b5c25 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -137,6 +137,11 @@ static int yywrap()
     return T_INVALID;
 }
 
+<STATE_STRING,STATE_DEFINED,STATE_EXIST,STATE_SHELLCOMMAND><<EOF>> {
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+
 <STATE_STRING>{
     [^\n\"]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     \"\"        yylval.str->append('\"');
-- 
2.43.0


From 188e39153fbab4165e1e3a80b7805460355f43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 12/58] fix: environment variables take precedence over
 predefined macros

---
 src/jomlib/macrotable.cpp      | 13 +++++++++++--
 src/jomlib/macrotable.h        |  4 ++--
 src/jomlib/makefilefactory.cpp |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..5c614ad 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -141,9 +141,18 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
         setEnvironmentVariable(name, expandMacros(macroData->value));
 }
 
-void MacroTable::predefineValue(const QString &name, const QString &value)
+/**
+ * Sets the value of a predefined macro. Environment variables take precedence over those,
+ * unless overrideEnvironment is set. The environment variable itself is left alone.
+ */
+void MacroTable::predefineValue(const QString &name, const QString &value, bool overrideEnvironment)
 {
-    setMacroValueImpl(name, value, MacroSource::Predefinition);
+    const bool isEnvironmentMacro = m_macros.value(name).source == MacroSource::Environment;
+    if (isEnvironmentMacro && !overrideEnvironment)
+        return;
+    MacroData *macroData = internalSetMacroValue(name, value);
+    if (macroData && !isEnvironmentMacro)
+        macroData->source = MacroSource::Predefinition;
 }
 
 /**
diff --git a/src/jomlib/macrotable.h b/src/jomlib/macrotable.h
index 7a93043..5aed3fa 100644
--- a/src/jomlib/macrotable.h
+++ b/src/jomlib/macrotable.h
@@ -53,8 +53,8 @@ public:
     void setMacroValue(const QString& name, const QString& value);
     void setMacroValue(const char *szStr, const QString& value) { setMacroValue(QString::fromLatin1(szStr), value); }
     void setMacroValue(const char *szStr, const char *szValue) { setMacroValue(QString::fromLatin1(szStr), QString::fromLatin1(szValue)); }
-    void predefineValue(const QString &name, const QString &value);
-    void predefineValue(const char *szStr, const QString &value) { predefineValue(QString::fromLatin1(szStr), value); }
+    void predefineValue(const QString &name, const QString &value, bool overrideEnvironment = false);
+    void predefineValue(const char *szStr, const QString &value, bool overrideEnvironment = false) { predefineValue(QString::fromLatin1(szStr), value, overrideEnvironment); }
     void predefineValue(const char *szStr, const char *szValue) { predefineValue(QString::fromLatin1(szStr), QString::fromLatin1(szValue)); }
     void undefineMacro(const QString& name);
     QString expandMacros(const QString& str, bool inDependentsLine = false) const;
diff --git a/src/jomlib/makefilefactory.cpp b/src/jomlib/makefilefactory.cpp
index 6cc05bb..8ce8750 100644
--- a/src/jomlib/makefilefactory.cpp
+++ b/src/jomlib/makefilefactory.cpp
@@ -133,9 +133,9 @@ bool MakefileFactory::apply(const QStringList& commandLineArguments, Options **o
 
     readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);
     if (!options->ignorePredefinedRulesAndMacros) {
-        macroTable->predefineValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath));
+        macroTable->predefineValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath), true);
         macroTable->predefineValue("MAKEDIR", encloseInDoubleQuotesIfNeeded(
-                                       QDir::toNativeSeparators(QDir::currentPath())));
+                                       QDir::toNativeSeparators(QDir::currentPath())), true);
         macroTable->predefineValue("AS", "ml");       // Macro Assembler
         macroTable->predefineValue("ASFLAGS", QString());
         macroTable->predefineValue("BC", "bc");       // Basic Compiler
-- 
2.43.0


From 03b4a3f4f81fe5e9594d9eb8b62be7abd80471d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 13/58] fix: redefining an environment macro updates the
 environment of commands

---
 src/jomlib/macrotable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 5c614ad..5c9a059 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -136,9 +136,12 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
         throw Exception(msg.arg(name));
     }
 
-    macroData->source = source;
+    if (macroData->isReadOnly)
+        return;
     if (macroData->source == MacroSource::Environment)
-        setEnvironmentVariable(name, expandMacros(macroData->value));
+        setEnvironmentVariable(expandMacros(name), expandMacros(macroData->value));
+    else
+        macroData->source = source;
 }
 
 /**
-- 
2.43.0


From 8b2cf22b3593523f65fb079ed206b3bad53f09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 14/58] fix: don't expand macros in skipped parts of a makefile

---
 src/jomlib/preprocessor.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..8a901c7 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -252,6 +252,9 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     if (!isPreprocessingDirective(expandedLine, directive, value))
         return false;
 
+    value = m_macroTable->expandMacros(value);
+    removeInlineComments(value);
+
     if (directive == QLatin1String("CMDSWITCHES")) {
     } else if (directive == QLatin1String("ERROR")) {
         error(QLatin1Literal("ERROR: ") + value);
@@ -405,8 +408,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    value = m_macroTable->expandMacros(value);
-    removeInlineComments(value);
     return result;
 }
 
@@ -426,8 +427,8 @@ void Preprocessor::skipUntilNextMatchingConditional()
         if (line.content.startsWith(QLatin1Char('!')))
             completePreprocessingDirectiveLine(line);
 
-        QString expandedLine = m_macroTable->expandMacros(line.content);
-        if (!isPreprocessingDirective(expandedLine, directive, value))
+        // Macros are not expanded in here. The skipped text may contain anything.
+        if (!isPreprocessingDirective(line.content, directive, value))
             continue;
 
         if (directive == QLatin1String("ENDIF"))
@@ -444,7 +445,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
         if (depth == 0) {
             if (token == TOK_ELSE) {
-                m_linesPutBack.append(expandedLine);
+                m_linesPutBack.append(line.content);
                 return;  // found the next matching ELSE
             }
             if (token == TOK_ENDIF) {
-- 
2.43.0


From ce9dad754691948f3d03fb471a5203d362e79ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 15/58] fix: expand macros in INCLUDE when searching included
 files

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 8a901c7..5b587af 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -350,7 +350,7 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
 
     if (angleBrackets) {
         // Search through all directories in the INCLUDE macro.
-        const QString includeVar = m_macroTable->macroValue(QLatin1String("INCLUDE"))
+        const QString includeVar = m_macroTable->expandMacros(QLatin1String("$(INCLUDE)"))
                 .replace(QLatin1Char('\t'), QLatin1Char(' '));
         const QStringList includeDirs = includeVar.split(QLatin1Char(';'), QString::SkipEmptyParts);
         foreach (const QString& includeDir, includeDirs) {
-- 
2.43.0


From 9eaedf4d7b7dfe5b10b83cfd68bb545b0b83c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 16/58] fix: a branch after !ELSE is an error

---
 src/jomlib/preprocessor.cpp | 22 ++++++++++++++--------
 src/jomlib/preprocessor.h   |  2 ++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 5b587af..5ee0b6c 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -58,6 +58,7 @@ void Preprocessor::setMacroTable(MacroTable* macroTable)
 bool Preprocessor::openFile(const QString& fileName)
 {
     m_conditionalStack.clear();
+    m_elseSeenStack.clear();
     if (!m_fileStack.isEmpty())
         m_fileStack.clear();
 
@@ -281,14 +282,12 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSE")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
+        enterElseBranch(true);
         if (!m_conditionalStack.top()) {
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSEIF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
+        enterElseBranch(false);
         if (!m_conditionalStack.top() || evaluateExpression(value) == 0) {
             skipUntilNextMatchingConditional();
         } else {
@@ -296,8 +295,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIFDEF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
+        enterElseBranch(false);
         if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
         } else {
@@ -305,8 +303,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIFNDEF")) {
-        if (conditionalDepth() == 0)
-            error(QLatin1String("unexpected ELSE"));
+        enterElseBranch(false);
         if (!m_conditionalStack.top() || m_macroTable->isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
         } else {
@@ -465,6 +462,14 @@ void Preprocessor::skipUntilNextMatchingConditional()
 void Preprocessor::enterConditional(bool followElseBranch)
 {
     m_conditionalStack.push(followElseBranch);
+    m_elseSeenStack.push(false);
+}
+
+void Preprocessor::enterElseBranch(bool isLastBranch)
+{
+    if (conditionalDepth() == 0 || m_elseSeenStack.top())
+        error(QLatin1String("unexpected ELSE"));
+    m_elseSeenStack.top() = isLastBranch;
 }
 
 void Preprocessor::exitConditional()
@@ -472,6 +477,7 @@ void Preprocessor::exitConditional()
     if (m_conditionalStack.isEmpty())
         error(QLatin1String("unexpected ENDIF"));
     m_conditionalStack.pop();
+    m_elseSeenStack.pop();
 }
 
 int Preprocessor::evaluateExpression(const QString& expr)
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index b268c72..8adc1a7 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -73,6 +73,7 @@ private:
     void skipUntilNextMatchingConditional();
     void error(const QString& msg);
     void enterConditional(bool followElseBranch);
+    void enterElseBranch(bool isLastBranch);
     void exitConditional();
     int conditionalDepth() { return m_conditionalStack.count(); }
 
@@ -102,6 +103,7 @@ private:
     MacroTable*         m_macroTable;
     QRegExp             m_rexPreprocessingDirective;
     QStack<bool>        m_conditionalStack;
+    QStack<bool>        m_elseSeenStack;
     PPExprParser*       m_expressionParser;
     QStringList         m_linesPutBack;
     bool                m_bInlineFileMode;
-- 
2.43.0


From 6b50ab9ee4d264814794eee460e98ea008d25528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:50 +0000
Subject: [PATCH 17/58] fix: don't look at the conditions that follow the
 selected branch

---
 src/jomlib/preprocessor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 5ee0b6c..6794586 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -249,6 +249,16 @@ bool Preprocessor::parseMacro(const QString& line)
 bool Preprocessor::parsePreprocessingDirective(const QString& line)
 {
     QString directive, value;
+    if (conditionalDepth() && !m_conditionalStack.top()
+        && isPreprocessingDirective(line, directive, value)
+        && directive.startsWith(QLatin1String("ELSE")))
+    {
+        // We come from a branch that has been selected. The condition of this one doesn't matter.
+        enterElseBranch(directive == QLatin1String("ELSE"));
+        skipUntilNextMatchingConditional();
+        return true;
+    }
+
     QString expandedLine = m_macroTable->expandMacros(line);
     if (!isPreprocessingDirective(expandedLine, directive, value))
         return false;
-- 
2.43.0


From 7edac73c964c8adef20b84aab82af83f8a9f9129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:09 +0000
Subject: [PATCH 18/58] fix: ^ on the left-hand side of a macro substitution
 garbled the right-hand side

---
 src/jomlib/macrotable.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 5c9a059..baf71bb 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -425,8 +425,13 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
     Substitution result;
     result.before = str.mid(substitutionStartIdx, equalsSignIdx - substitutionStartIdx);
     result.after = str.mid(equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);
-    for (int i=quotePositions.count() - 1; i >= 0; --i)
-        result.after.remove(quotePositions.at(i) - equalsSignIdx - 1, 1);
+    for (int i=quotePositions.count() - 1; i >= 0; --i) {
+        const int pos = quotePositions.at(i);
+        if (pos > equalsSignIdx)
+            result.after.remove(pos - equalsSignIdx - 1, 1);
+        else
+            result.before.remove(pos - substitutionStartIdx, 1);
+    }
     return result;
 }
 
-- 
2.43.0


From 5e4b00cf1d2d84abd408f4a114fa563d59196471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 19/58] fix: macros in preprocessing directives were expanded
 twice

---
 src/jomlib/preprocessor.cpp | 12 ++++++++----
 src/jomlib/preprocessor.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 6794586..5ac1ed1 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -263,7 +263,6 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     if (!isPreprocessingDirective(expandedLine, directive, value))
         return false;
 
-    value = m_macroTable->expandMacros(value);
     removeInlineComments(value);
 
     if (directive == QLatin1String("CMDSWITCHES")) {
@@ -274,7 +273,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     } else if (directive == QLatin1String("INCLUDE")) {
         internalOpenFile(findIncludeFile(value));
     } else if (directive == QLatin1String("IF")) {
-        bool followElseBranch = evaluateExpression(value) == 0;
+        bool followElseBranch = evaluateExpandedExpression(value) == 0;
         enterConditional(followElseBranch);
         if (followElseBranch) {
             skipUntilNextMatchingConditional();
@@ -298,7 +297,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
         }
     } else if (directive == QLatin1String("ELSEIF")) {
         enterElseBranch(false);
-        if (!m_conditionalStack.top() || evaluateExpression(value) == 0) {
+        if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {
             skipUntilNextMatchingConditional();
         } else {
             m_conditionalStack.pop();
@@ -491,13 +490,18 @@ void Preprocessor::exitConditional()
 }
 
 int Preprocessor::evaluateExpression(const QString& expr)
+{
+    return evaluateExpandedExpression(m_macroTable->expandMacros(expr));
+}
+
+int Preprocessor::evaluateExpandedExpression(const QString& expr)
 {
     if (!m_expressionParser) {
         m_expressionParser = new PPExprParser;
         m_expressionParser->setMacroTable(m_macroTable);
     }
 
-    if (!m_expressionParser->parse(qPrintable(m_macroTable->expandMacros(expr)))) {
+    if (!m_expressionParser->parse(qPrintable(expr))) {
         QString msg = QLatin1String("Can't evaluate preprocessor expression.");
         msg += QLatin1String("\nerror: ");
         msg += QString::fromLatin1(m_expressionParser->errorMessage());
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index 8adc1a7..9362cb2 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -68,6 +68,7 @@ private:
     void completePreprocessingDirectiveLine(MakefileLine &line);
     bool parseMacro(const QString& line);
     bool parsePreprocessingDirective(const QString& line);
+    int evaluateExpandedExpression(const QString& expr);
     QString findIncludeFile(const QString &filePathToInclude);
     bool isPreprocessingDirective(const QString& line, QString& directive, QString& value);
     void skipUntilNextMatchingConditional();
-- 
2.43.0


From e9f686b1341e10405107e803e486545ba2b9c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 20/58] fix: .SYNC delays targets that are built by inference
 rules only

---
 src/jomlib/parser.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index efea4d8..ff1ca43 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -126,23 +126,27 @@ void Parser::apply(Preprocessor* pp,
 
     m_makefile->calculateInferenceRulePriorities(m_suffixes);
 
+    // build rule suffix cache
+    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
+        InferenceRule *ir = m_makefile->inferenceRules().at(i);
+        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
+    }
+
     // translate sync points from .SYNC targets into real dependencies
     for (QHash<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
         it != m_syncPoints.constEnd(); ++it)
     {
         DescriptionBlock *target = m_makefile->target(it.key());
-        if (!target)
-            continue;   // a plain file, there's nothing to delay
+        if (!target) {
+            // There's nothing to delay for a plain file, but an inference rule may apply.
+            if (it.value().isEmpty() || findRulesByTargetName(it.key()).isEmpty())
+                continue;
+            target = createTarget(it.key());
+        }
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
 
-    // build rule suffix cache
-    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
-        InferenceRule *ir = m_makefile->inferenceRules().at(i);
-        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
-    }
-
     // check for cycles in active targets
     foreach (const QString& targetName, m_activeTargets) {
         DescriptionBlock *target = m_makefile->target(targetName);
-- 
2.43.0


From 4e7516ce5d4df48534522dd52d19cf9dbd2b01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 21/58] fix: cd is relative to the working directory of the
 recipe

---
 src/jomlib/commandexecutor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index acbcb2a..65ac5eb 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -377,7 +377,10 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     }
 
     removeDoubleQuotes(args);
-    QFileInfo fi(args);
+    QString currentDirectory = m_process.workingDirectory();
+    if (currentDirectory.isEmpty())
+        currentDirectory = QDir::currentPath();
+    QFileInfo fi(QDir(currentDirectory), args);
     if (!fi.exists()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
-- 
2.43.0


From f303f840f247b9761b5f5fffb61b9ae474f478ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 22/58] fix: changing the working directory to a file is an
 error

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 65ac5eb..33fcd3a 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -381,7 +381,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     if (currentDirectory.isEmpty())
         currentDirectory = QDir::currentPath();
     QFileInfo fi(QDir(currentDirectory), args);
-    if (!fi.exists()) {
+    if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
         return false;
-- 
2.43.0


From 55bafdbf6334fe52df12be451b48cc8f1370e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:34 +0000
Subject: [PATCH 23/58] fix: output of a process was lost if its end was
 noticed before all of it was read

---
 src/jomlib/jomprocess.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index eba65c2..983fa44 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -101,6 +101,7 @@ class OutputChannel : public IoCompletionPortObserver
 {
 public:
     bool startRead();
+    bool finishRead();
     void completionPortNotified(DWORD numberOfBytes, DWORD errorCode);
 
     ProcessPrivate *d;
@@ -109,6 +110,7 @@ public:
     QByteArray intermediateOutputBuffer;
     QList<TimeStampedBuffer> buffers;
     QMutex outputBufferLock;
+    QAtomicInt ended;
 };
 
 class ProcessPrivate
@@ -139,6 +141,7 @@ public:
     OutputChannel stdoutChannel;
     OutputChannel stderrChannel;
     QMutex bufferedOutputModeSwitchMutex;
+    QAtomicInt waitingForOutput;
     DWORD exitCode;
     QWinEventNotifier deathNotifier;
 };
@@ -359,6 +362,9 @@ void Process::start(const QString &commandLine)
     if (!setupPipe(d->stderrPipe, &sa, OutputPipe))
         qFatal("Cannot setup pipe for stderr.");
 
+    d->waitingForOutput.storeRelease(0);
+    d->stdoutChannel.ended.storeRelease(0);
+    d->stderrChannel.ended.storeRelease(0);
     IoCompletionPort::instance()->registerObserver(&d->stdoutChannel, d->stdoutPipe.hRead);
     IoCompletionPort::instance()->registerObserver(&d->stderrChannel, d->stderrPipe.hRead);
     if (!d->startRead()) {
@@ -426,6 +432,14 @@ void Process::onProcessFinished()
         return;
 
     d->deathNotifier.setEnabled(false);
+
+    // The IOCP thread may not have seen everything the process has written. It will call us again.
+    d->waitingForOutput.fetchAndStoreOrdered(1);
+    const bool stdoutFinished = d->stdoutChannel.finishRead();
+    const bool stderrFinished = d->stderrChannel.finishRead();
+    if (!stdoutFinished || !stderrFinished)
+        return;
+
     IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
     IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
     safelyCloseHandle(d->stdoutPipe.hRead);
@@ -489,6 +503,20 @@ bool OutputChannel::startRead()
     return true;
 }
 
+/**
+ * Returns true, if everything was read. Otherwise the IOCP thread will call tryToRetrieveExitCode.
+ * A read operation that is waiting for data is canceled: the process has ended but its children,
+ * which have inherited the pipe, may live on.
+ */
+bool OutputChannel::finishRead()
+{
+    if (ended.loadAcquire())
+        return true;
+    if (!HasOverlappedIoCompleted(&pipe->overlapped))
+        CancelIoEx(pipe->hRead, &pipe->overlapped);
+    return false;
+}
+
 static void fwrite_binary(FILE *stream, const char *str, size_t count)
 {
     const int fd = _fileno(stream);
@@ -534,9 +562,12 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
         d->bufferedOutputModeSwitchMutex.unlock();
     }
 
-    if (errorCode == ERROR_SUCCESS)
-        if (startRead())
+    if (errorCode == ERROR_SUCCESS && startRead()) {
+        if (!d->waitingForOutput.fetchAndAddOrdered(0))
             return;
+    } else {
+        ended.storeRelease(1);
+    }
 
     QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
 }
-- 
2.43.0


From 2ab48a1dc820d68e3f5cb34106394439628633d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 24/58] fix: collected output of a command could be interrupted
 by output that is passed through

---
 src/jomlib/jomprocess.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 983fa44..0544038 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -97,6 +97,9 @@ struct TimeStampedBuffer
 
 class ProcessPrivate;
 
+// Keeps the output that is collected for a command in one piece when it's printed.
+static QMutex printMutex;
+
 class OutputChannel : public IoCompletionPortObserver
 {
 public:
@@ -556,6 +559,7 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
             buffers.append(TimeStampedBuffer(runtime()->elapsed(), data));
             outputBufferLock.unlock();
         } else {
+            QMutexLocker locker(&printMutex);
             fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);
         }
 
@@ -574,6 +578,7 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
 
 void Process::printBufferedOutput()
 {
+    QMutexLocker locker(&printMutex);
     while (!d->stdoutChannel.buffers.isEmpty()
         || !d->stderrChannel.buffers.isEmpty())
     {
-- 
2.43.0


From e81cdd1e52054975ec231e3ea277b4280b67a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 25/58] fix: a # that follows ^# starts a comment

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 5ac1ed1..0807b12 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -524,7 +524,7 @@ void Preprocessor::removeInlineComments(QString& line)
     while (true) {
         idx = line.indexOf(QLatin1Char('#'), idx + 1);
         if (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
-            line.remove(idx - 1, 1);
+            line.remove(--idx, 1);
             continue;
         }
         break;
-- 
2.43.0


From 1b2d00d31ef5cc2e9c070f905945bc590be3d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 26/58] fix: a line of white space does not end a description
 block

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index ff1ca43..3b52225 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -415,7 +415,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     }
 
     readLine();
-    if (m_line.trimmed().isEmpty()) {
+    if (m_line.isEmpty()) {
         readLine();
     } else {
         while (parseCommand(commands, false))
-- 
2.43.0


From 465437204ef92d20c97e6462a477658ec2dd1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 27/58] fix: ^ stayed in front of # in dependency lines without
 comment

---
 src/jomlib/parser.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 3b52225..3a8a389 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -209,18 +209,22 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (commentIdx >= 0 && (cmdSepIdx == -1 || commentIdx < cmdSepIdx)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
         // The # is inside the command and not a comment.
     }
+
+    for (int i = toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx >= 0) {
+            if (toRemove.at(i) > cmdSepIdx)
+                continue;   // belongs to the command
+            cmdSepIdx--;
+        }
+        line.remove(toRemove.at(i), 1);
+    }
     return cmdSepIdx;
 }
 
-- 
2.43.0


From 1cd2e17beabeae0553aef3f3c8599913524cb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 28/58] fix: file name macro with modifier and no value left
 the rest of its invocation

---
 src/jomlib/makefile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..dac6bb5 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -227,7 +227,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             bool substitutionStateKnown = false;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
+            if (macroValues.isEmpty() && str.at(idx + replacementLength + 1) == QLatin1Char(')')) {
                 str.remove(idx - 1, replacementLength + 3);
             } else {
                 ch = str.at(idx + replacementLength + 1).toLatin1();
-- 
2.43.0


From 7a5f6c6d37a0e1ac854e66390b57e812c6278543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 29/58] fix: $* and the modifier R cut names at a dot of a
 directory

---
 src/jomlib/makefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index dac6bb5..9d27a27 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -259,7 +259,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                     for (int i = 0; i < macroValues.count(); ++i) {
                         QString &macroValue = macroValues[i];
                         int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                        if (k > -1)
+                        if (k > macroValue.lastIndexOf(QLatin1Char('\\')))
                             macroValue = macroValue.left(k);
                     }
                     break;
@@ -335,7 +335,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                     replacementLength = 1;
                     QString tgt = targetName();
                     int idx = tgt.lastIndexOf(QLatin1Char('.'));
-                    if (idx > -1)
+                    if (idx > tgt.lastIndexOf(QLatin1Char('\\')))
                         tgt.resize(idx);
                     results += tgt;
                 }
-- 
2.43.0


From 88807afe5dbc268b6c2ddb01d9d3a716488ac0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 30/58] fix: $(<) and $< with modifiers were not expanded in
 inference rules

---
 src/jomlib/makefile.cpp | 7 +++++++
 src/jomlib/makefile.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 9d27a27..4317169 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -341,6 +341,11 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 }
             }
             break;
+        case '<':
+            replacementLength = 1;
+            if (!dependentsForbidden)
+                results = m_inferredDependents;
+            break;
         case '?':
             {
                 if (dependentsForbidden) {
@@ -619,6 +624,7 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     QString inferredDependent = rule->inferredDependent(target->targetName());
     if (!target->m_dependents.contains(inferredDependent))
         target->m_dependents.append(inferredDependent);
+    target->m_inferredDependents = QStringList(inferredDependent);
     target->m_commands = rule->m_commands;
 
     //qDebug() << "----> inferredDependent:" << inferredDependent;
@@ -648,6 +654,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
 
+        executingTarget->m_inferredDependents.append(inferredDependent);
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
     }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28e0632..28aafca 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -100,6 +100,7 @@ public:
     Makefile* makefile() const { return m_pMakefile; }
 
     QStringList m_dependents;
+    QStringList m_inferredDependents;   // what $< stands for
     FileTime m_timeStamp;
     bool m_bFileExists;
     bool m_bVisitedByCycleCheck;
-- 
2.43.0


From 270e3a927e372beac8d8d4a1606b19a15148b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:12 +0000
Subject: [PATCH 31/58] fix: ! ran commands for dependents that they do not use

---
 src/jomlib/makefile.cpp | 36 ++++++++++++++++++++++++++++++++----
 src/jomlib/makefile.h   |  1 +
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 4317169..8e9aa9c 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -126,6 +126,27 @@ void DescriptionBlock::setTargetName(const QString& name)
     m_targetName = name;
 }
 
+/**
+ * Returns true if the string contains the given filename macro, which is "**" or "?".
+ */
+static bool containsFileNameMacro(const QString &str, const QString &name)
+{
+    const QString escape(MacroTable::fileNameMacroMagicEscape);
+    return str.contains(escape + name) || str.contains(escape + QLatin1Char('(') + name);
+}
+
+static bool containsFileNameMacro(const Command &command, const QString &name)
+{
+    if (containsFileNameMacro(command.m_commandLine, name))
+        return true;
+    foreach (const InlineFile *inlineFile, command.m_inlineFiles) {
+        if (containsFileNameMacro(inlineFile->m_filename, name)
+                || containsFileNameMacro(inlineFile->m_content, name))
+            return true;
+    }
+    return false;
+}
+
 /**
  * Expands the following macros for the dependents of this target.
  */
@@ -142,10 +163,14 @@ void DescriptionBlock::expandFileNameMacros()
 {
     QList<Command>::iterator it = m_commands.begin();
     while (it != m_commands.end()) {
-        if ((*it).m_singleExecution) {
+        const bool usesAll = containsFileNameMacro(*it, QLatin1String("**"));
+        const bool usesNewer = containsFileNameMacro(*it, QLatin1String("?"));
+        if ((*it).m_singleExecution && (usesAll || usesNewer)) {
             Command origCommand = *it;
             it = m_commands.erase(it);
             for (int i=0; i < m_dependents.count(); ++i) {
+                if (!usesAll && !isDependentNewer(m_dependents.at(i)))
+                    continue;
                 Command newCommand = origCommand;
                 newCommand.m_singleExecution = false;
                 expandFileNameMacros(newCommand, i);
@@ -306,6 +331,11 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
     }
 }
 
+bool DescriptionBlock::isDependentNewer(const QString &dependentName) const
+{
+    return FastFileInfo(targetName()).lastModified() <= FastFileInfo(dependentName).lastModified();
+}
+
 QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int& replacementLength,
                                                      int depIdx, bool dependentsForbidden)
 {
@@ -352,10 +382,8 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                     throw Exception(QLatin1String("Macro $? not allowed here."));
                 }
                 replacementLength = 1;
-                FileTime targetTimeStamp = FastFileInfo(targetName()).lastModified();
                 foreach (const QString& dependentName, dependentCandidates) {
-                    FileTime dependentTimeStamp = FastFileInfo(dependentName).lastModified();
-                    if (targetTimeStamp <= dependentTimeStamp) {
+                    if (isDependentNewer(dependentName)) {
                         results += dependentName;
                     }
                 }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28aafca..0625a06 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -114,6 +114,7 @@ public:
 private:
     void expandFileNameMacros(Command& command, int depIdx);
     void expandFileNameMacros(QString& str, int depIdx, bool dependentsForbidden);
+    bool isDependentNewer(const QString &dependentName) const;
     QStringList getFileNameMacroValues(const QStringRef& str, int& replacementLength, int depIdx,
                                        bool dependentsForbidden);
 
-- 
2.43.0


From 65cb9522aecaa7b3ee320725bd05dd6ff7802d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:37 +0000
Subject: [PATCH 32/58] fix: crash if a recipe of ! commands has no dependents
 to run for

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 33fcd3a..9c4070e 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -72,12 +72,12 @@ void CommandExecutor::start(DescriptionBlock* target)
 {
     m_pTarget = target;
 
+    target->expandFileNameMacros();
     if (target->m_commands.isEmpty()) {
         finishExecution(false);
         return;
     }
 
-    target->expandFileNameMacros();
     cleanupTempFiles();
     createTempFiles();
     m_active = true;
-- 
2.43.0


From 715b71bde76eb0958c0d4aee626c002fce930246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:37 +0000
Subject: [PATCH 33/58] fix: file name macro right after one without value was
 not expanded

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 8e9aa9c..c391ab5 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -254,6 +254,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                                                              depIdx, dependentsForbidden);
             if (macroValues.isEmpty() && str.at(idx + replacementLength + 1) == QLatin1Char(')')) {
                 str.remove(idx - 1, replacementLength + 3);
+                --idx;
             } else {
                 ch = str.at(idx + replacementLength + 1).toLatin1();
                 switch (ch)
@@ -317,15 +318,18 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
 
                 const QString macroValue = joinFileNameMacroValues(macroValues);
                 str.replace(idx - 1, replacementLength + 4, macroValue);
+                idx += macroValue.length() - 1;
             }
         } else {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
                                                              depIdx, dependentsForbidden);
             if (macroValues.isEmpty()) {
                 str.remove(idx - 1, replacementLength + 1);
+                --idx;
             } else {
                 const QString macroValue = joinFileNameMacroValues(macroValues);
                 str.replace(idx - 1, replacementLength + 1, macroValue);
+                idx += macroValue.length() - 1;
             }
         }
     }
-- 
2.43.0


From 1500748543c26bcd24a2699ecf97e07e2c511346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:29 +0000
Subject: [PATCH 34/58] fix: file name macro in parentheses swallowed the
 character after it

---
 src/jomlib/makefile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c391ab5..6ddf1da 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -296,6 +296,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 case ')':
                     // No file name modifier given.
                     substitutionStateKnown = true;
+                    --replacementLength;    // because we're later adding 4
                     break;
                 default:
                     // TODO: yield error? ignore for now
-- 
2.43.0


From 97647fd5db724dea554e20d089b9941b3a0e9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:11 +0000
Subject: [PATCH 35/58] fix: directories of inference rules were compared as
 mere text

---
 src/jomlib/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 3a8a389..18302e1 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -603,6 +603,8 @@ void Parser::parseInferenceRule()
     //qDebug() << fromPath << fromExt
     //         << toPath << toExt << batchMode;
 
+    fromPath = QDir::toNativeSeparators(fromPath);
+    toPath = QDir::toNativeSeparators(toPath);
     removeDirSeparatorAtEnd(fromPath);
     removeDirSeparatorAtEnd(toPath);
 
@@ -722,7 +724,7 @@ QVector<InferenceRule*> Parser::findRulesByTargetName(const QString& targetFileP
             removeDirSeparatorAtEnd(directory);
             if (directory.isEmpty())
                 directory = QLatin1Char('.');
-            if (directory != rule->m_toSearchPath)
+            if (directory.compare(rule->m_toSearchPath, Qt::CaseInsensitive) != 0)
                 continue;
 
             rules.append(rule);
-- 
2.43.0


From d5603976ba4856721bcef4baa4ee7569ccb6c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:11 +0000
Subject: [PATCH 36/58] fix: order of inference rules whose target suffixes
 differ in case was random

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 18302e1..5af614e 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -129,7 +129,7 @@ void Parser::apply(Preprocessor* pp,
     // build rule suffix cache
     for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
         InferenceRule *ir = m_makefile->inferenceRules().at(i);
-        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
+        m_ruleIdxByToExtension[ir->m_toExtension.toLower()].prepend(ir);
     }
 
     // translate sync points from .SYNC targets into real dependencies
-- 
2.43.0


From 44a1f56b0ea07671c82687b1aa481e3479ca45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:11 +0000
Subject: [PATCH 37/58] fix: sources of inference rules that are not applied
 made a target out of date

---
 src/jomlib/dependencygraph.cpp |  3 ++-
 src/jomlib/makefile.cpp        | 22 +++++++++++++++-------
 src/jomlib/makefile.h          |  1 +
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..cd0e9db 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -155,10 +155,11 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 
         QStringList savedDependents = target->m_dependents;
         QVector<InferenceRule*> savedRules = target->m_inferenceRules;
+        const InferenceRule *rule = target->makefile()->matchingInferenceRule(target);
         target->m_inferenceRules.clear();
 
         bool inferredDependentAdded = false;
-        foreach (InferenceRule *rule, savedRules) {
+        if (rule) {
             QString inferredDependent = rule->inferredDependent(target->targetName());
             if (!target->m_dependents.contains(inferredDependent) && FastFileInfo(inferredDependent).exists()) {
                 inferredDependentAdded = true;
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 6ddf1da..9498a28 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -623,22 +623,30 @@ void Makefile::invalidateTimeStamps()
     }
 }
 
-void Makefile::applyInferenceRules(DescriptionBlock* target)
+/**
+ * Returns the inference rule that would be applied to the target now, or 0.
+ */
+const InferenceRule *Makefile::matchingInferenceRule(const DescriptionBlock *target)
 {
-    if (target->m_inferenceRules.isEmpty())
-        return;
-
     QVector<InferenceRule *> rules = target->m_inferenceRules;
     filterRulesByDependent(rules, target->targetName());
     std::stable_sort(rules.begin(), rules.end(), &infRulesPriorityGreaterThan);
 
-    if (rules.isEmpty()) {
+    // take the last matching inference rule
+    return rules.isEmpty() ? 0 : rules.last();
+}
+
+void Makefile::applyInferenceRules(DescriptionBlock* target)
+{
+    if (target->m_inferenceRules.isEmpty())
+        return;
+
+    const InferenceRule *matchingRule = matchingInferenceRule(target);
+    if (!matchingRule) {
         //qDebug() << "XXX" << target->m_targetName << "no matching inference rule found.";
         return;
     }
 
-    // take the last matching inference rule
-    const InferenceRule* matchingRule = rules.last();
     applyInferenceRule(target, matchingRule);
     target->m_inferenceRules.clear();
 }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 0625a06..ecd4cd5 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -205,6 +205,7 @@ public:
     void dumpInferenceRules() const;
     void invalidateTimeStamps();
     void applyInferenceRules(QList<DescriptionBlock*> targets);
+    const InferenceRule *matchingInferenceRule(const DescriptionBlock *target);
     void addInferenceRule(InferenceRule *rule);
     void calculateInferenceRulePriorities(const QStringList &suffixes);
     void addPreciousTarget(const QString& targetName);
-- 
2.43.0


From 208f91e3ff864c591d5b560cc86dd7e0b3aa9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:26 +0000
Subject: [PATCH 38/58] fix: targets built by the batch command of another
 target did not wait for it

---
 src/jomlib/dependencygraph.cpp | 10 ++++++++++
 src/jomlib/makefile.cpp        |  7 ++++++-
 src/jomlib/makefile.h          |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index cd0e9db..09c5971 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -329,6 +329,16 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     foreach (Makefile *mf, makefileSet)
         mf->applyInferenceRules(multiHash.values(mf));
 
+    // targets that are built by the batch command of another target wait for that target
+    foreach (Node *leaf, m_leaves) {
+        Node *leader = m_nodeContainer.value(leaf->target->m_batchLeader);
+        leaf->target->m_batchLeader = 0;
+        if (leader) {
+            addEdge(leaf, leader);
+            m_leaves.removeOne(leaf);
+        }
+    }
+
     // return the first leaf that is not currently executed
     foreach (Node *leaf, m_leaves) {
         if (leaf->state != Node::ExecutingState) {
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 9498a28..2dfed2a 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -112,7 +112,8 @@ void Command::evaluateModifiers()
 }
 
 DescriptionBlock::DescriptionBlock(Makefile* mkfile)
-:   m_bFileExists(false),
+:   m_batchLeader(0),
+    m_bFileExists(false),
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
@@ -691,6 +692,10 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     DescriptionBlock *executingTarget = batch.first();
     foreach (DescriptionBlock *target, batch) {
         target->m_inferenceRules.clear();
+        if (target != executingTarget) {
+            target->m_batchLeader = executingTarget;
+            FastFileInfo::clearCacheForFile(target->targetName());
+        }
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index ecd4cd5..e1fbcd8 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -101,6 +101,7 @@ public:
 
     QStringList m_dependents;
     QStringList m_inferredDependents;   // what $< stands for
+    DescriptionBlock *m_batchLeader;    // the target whose commands build this one in batch mode
     FileTime m_timeStamp;
     bool m_bFileExists;
     bool m_bVisitedByCycleCheck;
-- 
2.43.0


From eed45fa9cd29842f82dc78ec1ada17400a2cf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 39/58] fix: a target that cannot be built could take the
 targets of its batch along

---
 src/jomlib/dependencygraph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 09c5971..d8d75f7 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -323,6 +323,11 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     QSet<Makefile*> makefileSet;
     QMultiHash<Makefile*, DescriptionBlock*> multiHash;
     foreach (Node *leaf, m_leaves) {
+        if (leaf->state == Node::Unbuildable) {
+            // must not become a part of the batch of targets that can be built
+            leaf->target->makefile()->applyInferenceRules(QList<DescriptionBlock*>() << leaf->target);
+            continue;
+        }
         makefileSet.insert(leaf->target->makefile());
         multiHash.insert(leaf->target->makefile(), leaf->target);
     }
-- 
2.43.0


From b48d3eab761cedf028c07f7b6cfd218b7a31a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:33 +0000
Subject: [PATCH 40/58] fix: a dependent that no inference rule can make was
 ignored

---
 src/jomlib/makefile.cpp       | 3 +++
 src/jomlib/makefile.h         | 1 +
 src/jomlib/parser.cpp         | 1 +
 src/jomlib/targetexecutor.cpp | 7 +++++++
 4 files changed, 12 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 2dfed2a..3a757b1 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -114,6 +114,7 @@ void Command::evaluateModifiers()
 DescriptionBlock::DescriptionBlock(Makefile* mkfile)
 :   m_batchLeader(0),
     m_bFileExists(false),
+    m_bNeedsRule(false),
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
@@ -667,6 +668,7 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     if (!target->m_dependents.contains(inferredDependent))
         target->m_dependents.append(inferredDependent);
     target->m_inferredDependents = QStringList(inferredDependent);
+    target->m_bNeedsRule = false;
     target->m_commands = rule->m_commands;
 
     //qDebug() << "----> inferredDependent:" << inferredDependent;
@@ -692,6 +694,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     DescriptionBlock *executingTarget = batch.first();
     foreach (DescriptionBlock *target, batch) {
         target->m_inferenceRules.clear();
+        target->m_bNeedsRule = false;
         if (target != executingTarget) {
             target->m_batchLeader = executingTarget;
             FastFileInfo::clearCacheForFile(target->targetName());
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index e1fbcd8..89566fd 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -104,6 +104,7 @@ public:
     DescriptionBlock *m_batchLeader;    // the target whose commands build this one in batch mode
     FileTime m_timeStamp;
     bool m_bFileExists;
+    bool m_bNeedsRule;                  // exists or is built by an inference rule
     bool m_bVisitedByCycleCheck;
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 5af614e..92bc9c7 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -755,6 +755,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
             QVector<InferenceRule *> rules = findRulesByTargetName(dependentFileName);
             if (!rules.isEmpty()) {
                 dependent = createTarget(dependentFileName);
+                dependent->m_bNeedsRule = true;
                 dependent->m_inferenceRules = rules;
             }
         }
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 436e2f9..46ca2a4 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -220,6 +220,13 @@ void TargetExecutor::findNextTarget()
         m_nextTarget = m_depgraph->findAvailableTarget(m_makefile->options()->buildAllTargets);
         if (m_nextTarget) {
             if (m_nextTarget->m_commands.isEmpty()) {
+                if (m_nextTarget->m_bNeedsRule) {
+                    FastFileInfo::clearCacheForFile(m_nextTarget->targetName());
+                    if (!FastFileInfo(m_nextTarget->targetName()).exists()) {
+                        QString msg = QLatin1String("dependent '%1' does not exist.");
+                        throw Exception(msg.arg(m_nextTarget->targetName()));
+                    }
+                }
                 // Short cut for targets without commands.
                 m_depgraph->removeLeaf(m_nextTarget);
                 continue;
-- 
2.43.0


From a3daf85f8cfd9daff90d30e83358d1f77338e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 41/58] fix: inline files of makefiles in UTF-8 or UTF-16 lost
 their content

---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..a7e3a6a 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,13 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_textStream.device()) {
+            // The text stream reads ahead.
+            QString line = m_textStream.readLine();
+            if (!line.isNull())
+                line += QLatin1Char('\n');
+            return MakefileLine{ line };
+        }
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 3fdb72c7d1d9f62cd814a90aa91015878f1bc24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 42/58] fix: an inline file without end swallowed the rest of
 the makefile

---
 src/jomlib/parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 92bc9c7..568b5a1 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -579,6 +579,8 @@ void Parser::parseInlineFiles(Command& cmd, bool inferenceRule)
             inlineFile->m_content.append(contentLine);
             readLine();
         }
+        if (m_line.isNull())
+            throw Exception(QLatin1String("unexpected end of makefile in inline file"));
     }
     m_preprocessor->setInlineFileModeEnabled(false);
 }
-- 
2.43.0


From 5fabf72444a2556012c3690a727e052005a85599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 43/58] fix: inline files were removed late, possibly while
 another recipe used the name

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 9c4070e..d7b9334 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -78,7 +78,6 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
-    cleanupTempFiles();
     createTempFiles();
     m_active = true;
 
@@ -127,6 +126,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 void CommandExecutor::finishExecution(bool commandFailed)
 {
     m_active = false;
+    cleanupTempFiles();
     emit finished(this, commandFailed);
 }
 
-- 
2.43.0


From 6e5f2ac77025926d22e811093578af1b51bb1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 44/58] fix: /N overwrote and removed inline files

---
 src/jomlib/commandexecutor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index d7b9334..ae567f9 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -276,10 +276,11 @@ void CommandExecutor::createTempFiles()
             } else
                 fileName = inlineFile->m_filename;
 
+            const bool dryRun = m_pTarget->makefile()->options()->dryRun;
             TempFile tempFile;
-            tempFile.keep = inlineFile->m_keep;
+            tempFile.keep = inlineFile->m_keep || dryRun;
             tempFile.file = new QFile(fileName);
-            if (!tempFile.file->open(QFile::WriteOnly)) {
+            if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
                 delete tempFile.file;
                 QString msg = QLatin1String("cannot open %1 for write");
                 throw Exception(msg.arg(fileName));
@@ -295,8 +296,10 @@ void CommandExecutor::createTempFiles()
             }
 
             // TODO: do something with inlineFile->m_unicode;
-            tempFile.file->write(content);
-            tempFile.file->close();
+            if (!dryRun) {
+                tempFile.file->write(content);
+                tempFile.file->close();
+            }
 
             QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
             if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-- 
2.43.0


From 73f0d7a9ad24f2e1f7234039e20463b312f964f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 45/58] fix: inline files of later commands overwrote those of
 earlier commands

---
 src/jomlib/commandexecutor.cpp | 108 ++++++++++++++++-----------------
 src/jomlib/commandexecutor.h   |   2 +-
 2 files changed, 55 insertions(+), 55 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index ae567f9..d3fa0af 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -78,7 +78,6 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
-    createTempFiles();
     m_active = true;
 
     m_ignoreProcessErrors = false;
@@ -117,7 +116,12 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 
     ++m_currentCommandIdx;
     if (m_currentCommandIdx < m_pTarget->m_commands.count()) {
-        executeCurrentCommandLine();
+        try {
+            executeCurrentCommandLine();
+        } catch (const Exception &e) {
+            writeToStandardError("Error: " + e.message().toLocal8Bit() + "\n");
+            finishExecution(true);
+        }
     } else {
         finishExecution(false);
     }
@@ -155,7 +159,8 @@ static bool startsWithShellBuiltin(const QString &commandLine)
 
 void CommandExecutor::executeCurrentCommandLine()
 {
-    const Command& cmd = m_pTarget->m_commands.at(m_currentCommandIdx);
+    Command& cmd = m_pTarget->m_commands[m_currentCommandIdx];
+    createTempFiles(cmd);
     QString commandLine = cmd.m_commandLine;
 
     if (m_pTarget->makefile()->options()->dryRun
@@ -256,63 +261,58 @@ void CommandExecutor::executeCurrentCommandLine()
         qFatal("Can't start command: %s", qPrintable(commandLine));
 }
 
-void CommandExecutor::createTempFiles()
+void CommandExecutor::createTempFiles(Command &cmd)
 {
-    QList<Command>::iterator it = m_pTarget->m_commands.begin();
-    QList<Command>::iterator itEnd = m_pTarget->m_commands.end();
-    for (; it != itEnd; ++it) {
-        Command& cmd = *it;
-        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
-            QString fileName;
-            if (inlineFile->m_filename.isEmpty()) {
-                do {
-                    QString simplifiedTargetName = m_pTarget->targetName();
-                    simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
-                    fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
-                               + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
-                               + QString::number(GetTickCount() - m_startUpTickCount)
-                               + QLatin1Literal(".jom");
-                } while (QFile::exists(fileName));
-            } else
-                fileName = inlineFile->m_filename;
-
-            const bool dryRun = m_pTarget->makefile()->options()->dryRun;
-            TempFile tempFile;
-            tempFile.keep = inlineFile->m_keep || dryRun;
-            tempFile.file = new QFile(fileName);
-            if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
-                delete tempFile.file;
-                QString msg = QLatin1String("cannot open %1 for write");
-                throw Exception(msg.arg(fileName));
-            }
+    foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
+        QString fileName;
+        if (inlineFile->m_filename.isEmpty()) {
+            do {
+                QString simplifiedTargetName = m_pTarget->targetName();
+                simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
+                fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
+                           + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
+                           + QString::number(GetTickCount() - m_startUpTickCount)
+                           + QLatin1Literal(".jom");
+            } while (QFile::exists(fileName));
+        } else
+            fileName = inlineFile->m_filename;
+
+        const bool dryRun = m_pTarget->makefile()->options()->dryRun;
+        TempFile tempFile;
+        tempFile.keep = inlineFile->m_keep || dryRun;
+        tempFile.file = new QFile(fileName);
+        if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
+            delete tempFile.file;
+            QString msg = QLatin1String("cannot open %1 for write");
+            throw Exception(msg.arg(fileName));
+        }
 
-            const QByteArray content = inlineFile->m_content.toLocal8Bit();
-            if (m_pTarget->makefile()->options()->dumpInlineFiles) {
-                writeToStandardOutput("---");
-                writeToStandardOutput(fileName.toLocal8Bit());
-                writeToStandardOutput("---\n");
-                writeToStandardOutput(content);
-                writeToStandardOutput("---end of inline file---\n");
-            }
+        const QByteArray content = inlineFile->m_content.toLocal8Bit();
+        if (m_pTarget->makefile()->options()->dumpInlineFiles) {
+            writeToStandardOutput("---");
+            writeToStandardOutput(fileName.toLocal8Bit());
+            writeToStandardOutput("---\n");
+            writeToStandardOutput(content);
+            writeToStandardOutput("---end of inline file---\n");
+        }
 
-            // TODO: do something with inlineFile->m_unicode;
-            if (!dryRun) {
-                tempFile.file->write(content);
-                tempFile.file->close();
-            }
+        // TODO: do something with inlineFile->m_unicode;
+        if (!dryRun) {
+            tempFile.file->write(content);
+            tempFile.file->close();
+        }
 
-            QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
-            if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-                replacement.prepend(QLatin1Char('"'));
-                replacement.append(QLatin1Char('"'));
-            }
+        QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
+        if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
+            replacement.prepend(QLatin1Char('"'));
+            replacement.append(QLatin1Char('"'));
+        }
 
-            int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx > 0)
-                cmd.m_commandLine.replace(idx, 2, replacement);
+        int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
+        if (idx > 0)
+            cmd.m_commandLine.replace(idx, 2, replacement);
 
-            m_tempFiles.append(tempFile);
-        }
+        m_tempFiles.append(tempFile);
     }
 }
 
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..1455a2f 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -66,7 +66,7 @@ private slots:
 private:
     void finishExecution(bool commandFailed);
     void executeCurrentCommandLine();
-    void createTempFiles();
+    void createTempFiles(Command &cmd);
     void writeToChannel(const QByteArray& data, FILE *channel);
     void writeToStandardOutput(const QByteArray& data);
     void writeToStandardError(const QByteArray& data);
-- 
2.43.0


From de3ed27cc1fb3ac888d1c5b858928b9b0368ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:28 +0000
Subject: [PATCH 46/58] fix: inline files with relative names were not found
 after cd

---
 src/jomlib/commandexecutor.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index d3fa0af..7ecaf17 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -160,6 +160,11 @@ static bool startsWithShellBuiltin(const QString &commandLine)
 void CommandExecutor::executeCurrentCommandLine()
 {
     Command& cmd = m_pTarget->m_commands[m_currentCommandIdx];
+    if (!m_nextWorkingDir.isEmpty()) {
+        m_process.setWorkingDirectory(m_nextWorkingDir);
+        m_nextWorkingDir.clear();
+    }
+
     createTempFiles(cmd);
     QString commandLine = cmd.m_commandLine;
 
@@ -183,11 +188,6 @@ void CommandExecutor::executeCurrentCommandLine()
         return;
     }
 
-    if (!m_nextWorkingDir.isEmpty()) {
-        m_process.setWorkingDirectory(m_nextWorkingDir);
-        m_nextWorkingDir.clear();
-    }
-
     const bool simpleCmdLine = isSimpleCommandLine(commandLine);
     if (simpleCmdLine)
     {
@@ -280,7 +280,11 @@ void CommandExecutor::createTempFiles(Command &cmd)
         const bool dryRun = m_pTarget->makefile()->options()->dryRun;
         TempFile tempFile;
         tempFile.keep = inlineFile->m_keep || dryRun;
-        tempFile.file = new QFile(fileName);
+        const QString workingDirectory = m_process.workingDirectory();
+        if (workingDirectory.isEmpty())
+            tempFile.file = new QFile(fileName);
+        else
+            tempFile.file = new QFile(QDir(workingDirectory).absoluteFilePath(fileName));
         if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
             delete tempFile.file;
             QString msg = QLatin1String("cannot open %1 for write");
@@ -302,7 +306,7 @@ void CommandExecutor::createTempFiles(Command &cmd)
             tempFile.file->close();
         }
 
-        QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
+        QString replacement = QDir::toNativeSeparators(fileName);
         if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
             replacement.prepend(QLatin1Char('"'));
             replacement.append(QLatin1Char('"'));
-- 
2.43.0


From 04b97d237ba63fb6e164515fa5c411617942682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 47/58] fix: cycles through targets named with the directory of
 the makefile were not detected

---
 src/jomlib/parser.cpp | 12 ++++++++++--
 src/jomlib/parser.h   |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 568b5a1..d0d2dd6 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -652,6 +652,14 @@ void Parser::parseDotDirective()
     readLine();
 }
 
+DescriptionBlock *Parser::dependentTarget(const QString &name) const
+{
+    DescriptionBlock *target = m_makefile->target(name);
+    if (!target) // The dependent "foo" may have been defined as "C:\\MySourceDir\\foo".
+        target = m_makefile->target(m_makefile->dirPath() + QDir::separator() + name);
+    return target;
+}
+
 void Parser::checkForCycles(DescriptionBlock* target)
 {
 #ifdef DEBUG_CYCLE_CHECKER
@@ -683,7 +691,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -700,7 +708,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
diff --git a/src/jomlib/parser.h b/src/jomlib/parser.h
index f746ba1..611109c 100644
--- a/src/jomlib/parser.h
+++ b/src/jomlib/parser.h
@@ -63,6 +63,7 @@ private:
     bool parseCommand(QList<Command>& commands, bool inferenceRule);
     void parseCommandLine(const QString& cmdLine, QList<Command>& commands, bool inferenceRule);
     void parseInlineFiles(Command& cmd, bool inferenceRule);
+    DescriptionBlock *dependentTarget(const QString &name) const;
     void checkForCycles(DescriptionBlock* target);
     void resetCycleChecker(DescriptionBlock* target);
     QVector<InferenceRule*> findRulesByTargetName(const QString& targetFilePath);
-- 
2.43.0


From f8a653e66651877356a9d06144c9e02c6082c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 48/58] fix: /DUMPGRAPH built everything after dumping the
 graph

---
 src/jomlib/targetexecutor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 46ca2a4..a13796f 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -109,6 +109,8 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             m_depgraph->dotDump();
         else
             m_depgraph->dump();
+        m_depgraph->clear();
+        m_pendingTargets.clear();
         finishBuild(0);
         return;
     }
-- 
2.43.0


From dedde540272f011bd04d1c93a24190ab9eaf900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:38 +0000
Subject: [PATCH 49/58] fix: inference rules with blanks or comments around the
 colon were taken for targets

---
 src/jomlib/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index d0d2dd6..f650c83 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -41,7 +41,7 @@ Parser::Parser()
 :   m_preprocessor(0)
 {
     m_rexDotDirective.setPattern(QLatin1String("^\\.(IGNORE|PRECIOUS|SILENT|SUFFIXES)\\s*:(.*)"));
-    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})"));
+    m_rexInferenceRule.setPattern(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)\\s*(:{1,2})\\s*"));
     m_rexSingleWhiteSpace.setPattern(QLatin1String("\\s"));
 }
 
@@ -286,7 +286,9 @@ bool Parser::isDescriptionBlock(int& separatorPos, int& separatorLength, int& co
 
 bool Parser::isInferenceRule(const QString& line)
 {
-    return m_rexInferenceRule.exactMatch(line);
+    QString lineWithoutComment = line;
+    Preprocessor::removeInlineComments(lineWithoutComment);
+    return m_rexInferenceRule.exactMatch(lineWithoutComment);
 }
 
 bool Parser::isDotDirective(const QString& line)
-- 
2.43.0


From 219b8916282d46ce65ec34fc05bfa91e2c589cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:44 +0000
Subject: [PATCH 50/58] fix: macros in the names of inline files of inference
 rules were not expanded

---
 src/jomlib/makefile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 3a757b1..236a868 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -679,6 +679,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
         }
@@ -715,6 +717,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
         }
-- 
2.43.0


From 3c6e335aba1db0e9df82e521f99562a1294e02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:05 +0000
Subject: [PATCH 51/58] fix: inline files without name were not created after
 cd if TEMP is relative

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 7ecaf17..9288335 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -281,7 +281,7 @@ void CommandExecutor::createTempFiles(Command &cmd)
         TempFile tempFile;
         tempFile.keep = inlineFile->m_keep || dryRun;
         const QString workingDirectory = m_process.workingDirectory();
-        if (workingDirectory.isEmpty())
+        if (workingDirectory.isEmpty() || inlineFile->m_filename.isEmpty())
             tempFile.file = new QFile(fileName);
         else
             tempFile.file = new QFile(QDir(workingDirectory).absoluteFilePath(fileName));
-- 
2.43.0


From a91cd6d1748263e4a80c231c15d951244b87abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 52/58] fix: white space between command modifiers and the
 command was not skipped

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 236a868..f43cc1a 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -25,6 +25,7 @@
 
 #include "makefile.h"
 #include "exception.h"
+#include "helperfunctions.h"
 #include "options.h"
 
 #include <QFileInfo>
@@ -79,6 +80,9 @@ Command::~Command()
 void Command::evaluateModifiers()
 {
     for (;;) {
+        // Modifiers may be separated by white space.
+        while (!m_commandLine.isEmpty() && startsWithSpaceOrTab(m_commandLine))
+            m_commandLine.remove(0, 1);
         if (m_commandLine.isEmpty())
             break;
         const QCharRef firstChar = m_commandLine[0];
-- 
2.43.0


From 194abf65bd8486150c7a40cf01a2a6b07dc69b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:57 +0000
Subject: [PATCH 53/58] fix: /N did not consider targets that the commands it
 prints would update

---
 src/jomlib/targetexecutor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a13796f..7f72dd1 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -257,6 +257,8 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
         }
     }
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
+    if (m_makefile->options()->dryRun)
+        executor->target()->m_timeStamp = FileTime::currentTime(); // would have been updated
     m_depgraph->removeLeaf(executor->target());
     if (m_jobAcquisitionCount > 0) {
         m_jobClient->release();
-- 
2.43.0


From 45964c4464829180f7e1305af2c451c63da153a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:18 +0000
Subject: [PATCH 54/58] fix: MAKEFLAGS kept the first of several job counts

---
 src/jomlib/options.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..f699f3c 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -304,8 +304,9 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    if (makeflags.at(makeflags.count() - 1).toUpper() != QLatin1Char('J'))
+                        makeflags += ch;
+                    makeflags += nJobsStr;
                     break;
                 }
             case 'K':
-- 
2.43.0


From 1379aea62233453054918eb2d1d9bbe2cf67d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:18 +0000
Subject: [PATCH 55/58] fix: an empty value in quotes in a command file became
 a quote

---
 src/jomlib/helperfunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/helperfunctions.cpp b/src/jomlib/helperfunctions.cpp
index 356617f..077309a 100644
--- a/src/jomlib/helperfunctions.cpp
+++ b/src/jomlib/helperfunctions.cpp
@@ -50,7 +50,7 @@ QStringList splitCommandLine(QString commandLine)
                     str.append(QLatin1Char('"'));
                     escapedQuote = false;
                 } else {
-                    escapedQuote = true;
+                    escapedQuote = insideQuotes;
                 }
                 insideQuotes = !insideQuotes;
             } else {
-- 
2.43.0


From 90661d6d1432f7b6b45ab3dc942e787f35fe9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:10 +0000
Subject: [PATCH 56/58] fix: what depends on a failed target was marked once
 for every path to it

---
 src/jomlib/dependencygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index d8d75f7..691ee9c 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -95,6 +95,8 @@ bool DependencyGraph::isUnbuildable(DescriptionBlock *target) const
 void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 {
     foreach (Node *parent, node->parents) {
+        if (parent->state == Node::Unbuildable)
+            continue;   // and so is everything that depends on it
         parent->state = Node::Unbuildable;
         markParentsRecursivlyUnbuildable(parent);
     }
-- 
2.43.0


From 172354d83935e7285d091609d280c707099fce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:13 +0000
Subject: [PATCH 57/58] fix: jom waited forever for a command that returned 259

---
 src/jomlib/jomprocess.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 0544038..1a30726 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -419,11 +419,17 @@ void Process::start(const QString &commandLine)
 
 void Process::tryToRetrieveExitCode()
 {
-    if (d->exitCode == STILL_ACTIVE)
-        if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
+    // A process that has ended may have returned the value of STILL_ACTIVE.
+    const bool ended = WaitForSingleObject(d->hProcess, 0) == WAIT_OBJECT_0;
+    bool retrieved = d->exitCode != STILL_ACTIVE;
+    if (!retrieved) {
+        retrieved = GetExitCodeProcess(d->hProcess, &d->exitCode)
+                && (ended || d->exitCode != STILL_ACTIVE);
+        if (!retrieved)
             d->exitCode = STILL_ACTIVE;
+    }
 
-    if (d->exitCode == STILL_ACTIVE)
+    if (!retrieved)
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
     else
         onProcessFinished();
-- 
2.43.0


From 9ab81d055a7888bb72e70034778a36443a5a02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:28 +0000
Subject: [PATCH 58/58] fix: the file name that $< stands for was not put in
 quotes

Unlike $@, $** and $(<F), a plain $< with blanks in the name came out
without quotes, in commands, lists of batch rules and inline files.
---
 src/jomlib/makefile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index f43cc1a..d0cd1a4 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -676,6 +676,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     target->m_commands = rule->m_commands;
 
     //qDebug() << "----> inferredDependent:" << inferredDependent;
+    QString quotedDependent = inferredDependent;
+    quoteStringIfNeeded(quotedDependent);
 
     const QString fileNameMacroString = MacroTable::fileNameMacroMagicEscape + QLatin1Char('<');
     QList<Command>::iterator it = target->m_commands.begin();
@@ -686,11 +688,11 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
             inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
             inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
-            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
+            inlineFile->m_content.replace(fileNameMacroString, quotedDependent);
         }
         command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
         command.evaluateModifiers();
-        command.m_commandLine.replace(fileNameMacroString, inferredDependent);
+        command.m_commandLine.replace(fileNameMacroString, quotedDependent);
     }
 }
 
@@ -710,6 +712,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
             executingTarget->m_dependents.append(inferredDependent);
 
         executingTarget->m_inferredDependents.append(inferredDependent);
+        quoteStringIfNeeded(inferredDependent);
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
     }
-- 
2.43.0

