From 22bdbdec946003d195d2d93fa0e289bdbd44e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 01/41] fix: a failed or short write no longer passes as
 success

---
 src/codegen/filewriter.cpp | 12 +++++++++++-
 src/helpers/formatter.cpp  |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..256976a 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <assert.h>
@@ -30,8 +31,17 @@ void FileWriter::Flush(const std::string& fpath)
 {
   std::ofstream wfile;
   wfile.open(fpath, std::ios::out);
-  wfile << strm.rdbuf();
+  const std::string text = strm.str();
+  wfile.write(text.data(), text.size());
   wfile.close();
+
+  if (strm.bad() || wfile.fail())
+  {
+    // the text was not collected completely or it did not get to the file
+    throw std::runtime_error("Unable to write file " + fpath);
+  }
+
+  strm.str("");
   Flush();
 }
 
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..94ef9ca 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -150,6 +150,8 @@ std::string make_c_name(const std::string& s)
 std::string prt_double(double value, size_t precision, bool usedot)
 {
   std::stringstream strstrm;
+  // never return a shortened number
+  strstrm.exceptions(std::ios::badbit);
   strstrm.imbue(std::locale::classic());
   strstrm << std::fixed << std::setprecision(10) << value;
 
-- 
2.43.0


From 86346f1aec73260c6c48e002fa2f35ae3139834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 02/41] fix: end with a message and status 1 when generation
 fails

---
 src/app.cpp     |  3 ++-
 src/maincli.cpp | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..730c39e 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <filesystem>
 #include <algorithm>
+#include <stdexcept>
 #include <stdlib.h>
 #include "app.h"
 #include "parser/dbcscanner.h"
@@ -149,7 +150,7 @@ void CoderApp::GenerateCode()
   }
   else
   {
-    std::cout << "One or both are invalid\n";
+    throw std::runtime_error("Unable to create output directory in " + finalpath);
   }
 
   // check if option --node-utils is requested, when requested binutil generation
diff --git a/src/maincli.cpp b/src/maincli.cpp
index 2de1727..39fa08f 100644
--- a/src/maincli.cpp
+++ b/src/maincli.cpp
@@ -1,13 +1,23 @@
 
 #include <stdlib.h>
+#include <exception>
+#include <iostream>
 #include <memory>
 #include "app.h"
 #include "options-parser.h"
 
 int main(int argc, char* argv[])
 {
-  OptionsParser parser;
-  auto opts = parser.GetOptions(argc, argv);
-  CoderApp app(opts);
-  app.Run();
+  try
+  {
+    OptionsParser parser;
+    auto opts = parser.GetOptions(argc, argv);
+    CoderApp app(opts);
+    app.Run();
+  }
+  catch (const std::exception& e)
+  {
+    std::cerr << "Generation failed: " << e.what() << std::endl;
+    return 1;
+  }
 }
-- 
2.43.0


From 922a88d3816b389beed9328ca2fd26afdc243405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 03/41] fix: a read error is not the end of the DBC file

---
 src/parser/dbcscanner.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..4f49e5b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -6,6 +6,7 @@
 #include <cctype>
 #include <sstream>
 #include <iostream>
+#include <stdexcept>
 #include "../helpers/formatter.h"
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
@@ -31,6 +32,25 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return ret;
 }
 
+/// @brief A read error must not be taken for the end of the file
+static void CheckStream(const istream& readstrm)
+{
+  if (readstrm.bad() || !readstrm.eof())
+  {
+    throw std::runtime_error("Unable to read DBC file");
+  }
+}
+
+static void RewindStream(istream& readstrm)
+{
+  readstrm.clear();
+
+  if (!readstrm.seekg(0))
+  {
+    throw std::runtime_error("Unable to read DBC file");
+  }
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -45,21 +65,21 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   dblist.msgs.clear();
   dblist.ver.hi = dblist.ver.low = 0;
 
-  readstrm.clear();
-  readstrm.seekg(0);
+  RewindStream(readstrm);
   // Search each message and signals in dbc source data,
   // and fill @msgs collection
   ParseMessageInfo(readstrm);
+  CheckStream(readstrm);
 
   // all the messages and signals were read from source
   // scan it one more time to define all attributes and
   // more additional information
-  readstrm.clear();
-  readstrm.seekg(0);
+  RewindStream(readstrm);
 
   // Search all attributes and additional information
   // and update specific fields in messages
   ParseOtherInfo(readstrm);
+  CheckStream(readstrm);
 
   return 0;
 }
-- 
2.43.0


From d7343fe65f2df97385d45b1c58d4015fa12b4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/41] fix: the loser of a race for creating the output
 directory goes on

---
 src/codegen/fs-creator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..e3652ff 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -111,7 +111,8 @@ bool FsCreator::PrepareDirectory(bool rw)
     // for this case check only if directory exists
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
-      if (!std::filesystem::create_directory(work_dir_path))
+      // the directory could be created by somebody else in between
+      if (!std::filesystem::create_directory(work_dir_path) && !std::filesystem::is_directory(work_dir_path))
       {
         ret = false;
       }
-- 
2.43.0


From d0b95c6ccfbf668a1b4c6b47f628240e1e972997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 05/41] fix: without -rw the files are put in the numbered
 sub-directory

---
 src/codegen/fs-creator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index e3652ff..468d07a 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -151,6 +151,18 @@ bool FsCreator::PrepareDirectory(bool rw)
     }
   }
 
+  if (!ret)
+  {
+    return false;
+  }
+
+  if (!rw)
+  {
+    // all the files go to the numbered directory
+    Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
+      FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
+  }
+
   std::filesystem::create_directory(FS.file.libdir);
   std::filesystem::create_directory(FS.file.usrdir);
   std::filesystem::create_directory(FS.file.incdir);
-- 
2.43.0


From cec4718253820f4afe420bbf41c24b21f0cd3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 06/41] fix: a file named as a generation number does not stop
 the search

---
 src/codegen/fs-creator.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 468d07a..f580a25 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -135,18 +135,10 @@ bool FsCreator::PrepareDirectory(bool rw)
           break;
         }
       }
-      else if (info.st_mode & S_IFDIR)
-      {
-        // directory exists, try next num
-        continue;
-      }
       else
       {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
+        // the name is in use, try next num
+        continue;
       }
     }
   }
-- 
2.43.0


From 0eed689db3080c2c5ea5982ec2f19fb39504739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 07/41] fix: -driverdir without -rw creates the driver
 directory

---
 src/codegen/fs-creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index f580a25..b2f7f68 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -120,6 +120,9 @@ bool FsCreator::PrepareDirectory(bool rw)
   }
   else
   {
+    // with -driverdir the base is created on the first run
+    std::filesystem::create_directory(basepath);
+
     std::string separator = basepath.back() == '/' ? "" : "/";
 
     for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
-- 
2.43.0


From d9fe52cb353676e3c85643d7a23d4d49574980e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 08/41] fix: an empty -dbc or -out is a missing parameter

---
 src/options-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options-parser.cpp b/src/options-parser.cpp
index ee77391..873e0c8 100644
--- a/src/options-parser.cpp
+++ b/src/options-parser.cpp
@@ -37,12 +37,12 @@ OptionsParser::GenOptions OptionsParser::GetOptions(int argc, char** argv)
     if (temppairs[i].first.compare("-dbc") == 0)
     {
       retpairs.dbc.first = temppairs[i].second;
-      retpairs.dbc.second = true;
+      retpairs.dbc.second = !retpairs.dbc.first.empty();
     }
     else if (temppairs[i].first.compare("-out") == 0)
     {
       retpairs.outdir.first = temppairs[i].second;
-      retpairs.outdir.second = true;
+      retpairs.outdir.second = !retpairs.outdir.first.empty();
     }
     else if (temppairs[i].first.compare("-drvname") == 0)
     {
-- 
2.43.0


From 20f67f11cca0e3b66813a938f71f522f44244921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 09/41] fix: only a really created directory ends the search
 for a free generation number

---
 src/codegen/fs-creator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index b2f7f68..82516d8 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -132,7 +132,10 @@ bool FsCreator::PrepareDirectory(bool rw)
 
       if (stat(work_dir_path.c_str(), &info) != 0)
       {
-        if (std::filesystem::create_directory(work_dir_path))
+        std::error_code ec;
+
+        // dangling links or files created in between also occupy the number
+        if (std::filesystem::create_directory(work_dir_path, ec))
         {
           ret = true;
           break;
-- 
2.43.0


From 0453c3a7f1d407758be256f3a8d8ac6f7c00f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 10/41] fix: long names of rolling counter signals do not stop
 the generation

---
 src/codegen/c-main-generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..efc752c 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -589,7 +589,9 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  const size_t width = padwidth + 16;
+
+  dtype += pad.insert(0, (width > dtype.size()) ? (width - dtype.size()) : 0, ' ');
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From 0875a5a8dd4dea58d78623674c0a74ac06d751d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 11/41] fix: a signal leaving the payload does not access bytes
 outside of it

---
 src/codegen/c-sigprinter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..596708a 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -251,7 +251,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
+      if (to_bytes.size() <= bn)
       {
         // DLC from message doesn't fit to signal layout
         // make code uncomplilable
@@ -290,6 +290,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     {
       bn = ShiftByte(sig, bn);
 
+      if (to_bytes.size() <= bn)
+      {
+        // DLC from message doesn't fit to signal layout
+        // make code uncomplilable
+        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
+        return to_bytes[0];
+      }
+
       snprintf(workbuff, WBUFF_LEN, " | ((_d[%d] >> %dU) & (%s))", bn, 8 - slen, msk[slen].c_str());
       tosigexpr += workbuff;
 
-- 
2.43.0


From 348d13aa597d50fa20f108f9dddc97a66d9146c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 12/41] fix: information for an unknown message is not put on
 the last one

---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 4f49e5b..01158fd 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -25,11 +25,11 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
     if (ret->MsgID == ID)
     {
       // Frame found
-      break;
+      return ret;
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 /// @brief A read error must not be taken for the end of the file
-- 
2.43.0


From 6087702367954e0f449dbad230a0c23ec267220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 13/41] fix: transmitters with one letter names are not dropped

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..b6e568b 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -126,7 +126,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (txname.size() > 0)
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From bb0adfa8197c7af7fdc0089f45e39f93aee20d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 14/41] fix: long lines do not overflow the stack in the regex
 matcher

---
 src/parser/dbclineparser.cpp | 4 ++--
 src/parser/dbclineparser.h   | 9 +++++++++
 src/parser/dbcscanner.cpp    | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b6e568b..c2748e5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -64,7 +64,7 @@ static uint64_t __maxsignedvals[] =
 std::vector<std::string> resplit(const std::string& s, const std::string& rgx_str, int32_t submatch)
 {
   std::vector<std::string> elems;
-  std::regex rgx(rgx_str);
+  std::regex rgx(rgx_str, kRegexFlags);
   std::sregex_token_iterator iter(s.begin(), s.end(), rgx, submatch);
   std::sregex_token_iterator end;
 
@@ -174,7 +174,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_");
+  const std::regex sigMatch("\\s+SG_", kRegexFlags);
   bool ret = std::regex_search(line, sigMatch);
   return ret;
 }
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..f57136a 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <regex>
 #include "../types/message.h"
 
 //Information from official vector DBC format spec:
@@ -42,6 +43,14 @@
 //	'EV_' env_var_name char_string)
 //	';';
 
+// The default matcher of libstdc++ is recursive, its stack usage grows with the length
+// of the match and long (e.g. damaged) lines lead to stack overflow
+#ifdef __GLIBCXX__
+const auto kRegexFlags = std::regex::ECMAScript | std::regex_constants::__polynomial;
+#else
+const auto kRegexFlags = std::regex::ECMAScript;
+#endif
+
 class DbcLineParser {
  public:
   DbcLineParser();
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 01158fd..cc8616f 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -366,7 +366,7 @@ void DbcScanner::SetDefualtMessage(MessageDescriptor_t* message)
 /// @return The number of successfully matched parts (0 if the pattern did not match).
 static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t& num1, uint32_t& num2)
 {
-  std::regex pattern("([a-zA-Z]+)\\s*\"?(\\d+)\\D+(\\d+)\"?");
+  std::regex pattern("([a-zA-Z]+)\\s*\"?(\\d+)\\D+(\\d+)\"?", kRegexFlags);
   std::smatch matches;
 
   // try to match the regex pattern to the input line
-- 
2.43.0


From 6263b421e721102b9a71644405e4c89c06d06788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 15/41] fix: the checksum marker is found anywhere in the
 comment

---
 src/parser/dbcscanner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index cc8616f..1f6f19a 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -224,13 +224,14 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               size_t openpos = cmmnt.Text.find('<');
 
-              if (openpos != std::string::npos)
+              // the marker can be placed anywhere in the comment
+              for (; openpos != std::string::npos; openpos = cmmnt.Text.find('<', openpos + 1))
               {
                 size_t closepos = cmmnt.Text.find('>', openpos);
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From b02828315d4efc0d06c8d27e897e192de5d64e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 16/41] fix: additional transmitters of the message with ID 0
 are not lost

---
 src/parser/dbclineparser.cpp | 7 ++-----
 src/parser/dbcscanner.cpp    | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index c2748e5..040a6ed 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -159,12 +159,9 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
   {
     ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 1f6f19a..731d0e7 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -147,7 +147,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (!tx_nodes.empty())
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From 76a2e755abd2eb5080b99caca7305347662492a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 17/41] fix: take the last message into account in the maximum
 DLC

The maximum was updated only when the next message line was met, so the last
message (and one followed by BO_TX_BU_) did not count. If it was the longest
one, packing initialised only a part of its payload and left the rest of the
old transmit buffer in the frame.
---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 731d0e7..5b2977e 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -100,12 +100,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -332,6 +326,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value of each message for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From 5a208e49ae32c502fc2dc025199061af0c6207e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 18/41] fix: unpack signals wider than 32 bits without sign
 extension of a byte

A byte shifted left by 24..31 bits is a negative int when its high bit gets to
the bit 31. Being combined with 64 bit parts it set all the higher bits of the
signal to ones.
---
 src/codegen/c-sigprinter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 596708a..d8dd2d1 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -232,7 +232,8 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    // a byte shifted to the bit 31 must not be extended as negative int
+    if ((slen > 23) && (sig->LengthBit > 32))
     {
       t64 = "(uint64_t)";
     }
@@ -273,7 +274,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if ((slen > 23) && (sig->LengthBit > 32))
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From 30b36ace82add7edcd1c9c85eaf39c33ef42cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 19/41] fix: extend the sign of signals wider than 32 bits

The mask was calculated as unsigned int even if ubitext_t is wider.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index efc752c..da830a2 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u) << (bits - 1u);\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From 9d7b8bfc07b411616503dd5e548421d674425815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 20/41] fix: let the checksum signal be in any byte of the
 message

A checksum signal located after the 8th byte (CAN FD) was turned to the source
code which can not be compiled.
---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index d8dd2d1..47a1864 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -159,11 +159,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From 5944e73a90f4c2992946db2d3e15fb3dc0aa1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 21/41] fix: keep signal bits free of the initial byte value

With DRV_INITIAL_BYTE_VALUE other than zero its bits were ORed with the bits
of signals, so the values of signals were broken. Now the initial value
remains only in the bits which are not covered by signals.
---
 src/codegen/c-main-generator.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index da830a2..e97bd43 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,30 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// Returns the mask of bits not covered by signals for each byte of the message
+static std::vector<uint8_t> GetFreeBits(const MessageDescriptor_t& msg)
+{
+  std::vector<uint8_t> ret(msg.DLC, 0xFFu);
+
+  for (const auto& sig : msg.Signals)
+  {
+    uint32_t bit = sig.StartBit;
+
+    for (uint32_t n = 0; n < sig.LengthBit; n++)
+    {
+      if ((bit / 8) < ret.size())
+      {
+        ret[bit / 8] &= (uint8_t)~(1u << (bit % 8));
+      }
+
+      // motorola signals go from msb down to lsb of the next bytes
+      bit = (sig.Order == BitLayout::kIntel) ? (bit + 1) : ((bit % 8) ? (bit - 1) : (bit + 15));
+    }
+  }
+
+  return ret;
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -844,6 +868,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
     fwriter.Append();
   }
 
+  const auto freebits = GetFreeBits(sgs->msg);
+
   for (size_t i = 0; i < sgs->to_bytes.size(); i++)
   {
     if (sgs->to_bytes[i].size() < 2)
@@ -851,7 +877,9 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    // the initial value remains only in the bits without signals
+    fwriter.Append("  %s[%d] = (uint8_t) ( (%s[%d] & (0x%02XU)) | %s );", arrtxt.c_str(), i,
+      arrtxt.c_str(), i, freebits[i], sgs->to_bytes[i].c_str());
   }
 
   fwriter.Append("");
-- 
2.43.0


From 2d57755e44984fb4aa64d7ff310637358d44cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 22/41] fix: compare the hash with checksum signals narrower
 than 8 bits

The full 8 bit hash was compared with the checksum signal, so undamaged frames
were flagged when the signal has less bits than the hash value (as CS in
testdb.dbc with 6 bits).
---
 src/codegen/c-main-generator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index e97bd43..797299a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -776,9 +776,9 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
   {
     // Put checksum check function call here
     fwriter.Append("#ifdef %s", fdesc->gen.usecsm_def.c_str());
-    fwriter.Append("  _m->mon1.csm_error = (((uint8_t)GetFrameHash(_d, %s_DLC, %s_CANID, %s, %d)) != (_m->%s));",
+    fwriter.Append("  _m->mon1.csm_error = (((uint8_t)GetFrameHash(_d, %s_DLC, %s_CANID, %s, %d) & (0x%02XU)) != (_m->%s));",
       sgs->msg.Name.c_str(), sgs->msg.Name.c_str(), sgs->msg.CsmMethod.c_str(),
-      sgs->msg.CsmOp, sgs->msg.CsmSig->Name.c_str());
+      sgs->msg.CsmOp, (1 << sgs->msg.CsmSig->LengthBit) - 1, sgs->msg.CsmSig->Name.c_str());
     fwriter.Append("#endif // %s", fdesc->gen.usecsm_def.c_str());
     fwriter.Append();
   }
@@ -889,9 +889,10 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
     // code for getting checksum value and putting it in array
     fwriter.Append("#ifdef %s", fdesc->gen.usecsm_def.c_str());
 
-    fwriter.Append("  _m->%s = ((uint8_t)GetFrameHash(%s, %s_DLC, %s_CANID, %s, %d));",
+    fwriter.Append("  _m->%s = ((uint8_t)GetFrameHash(%s, %s_DLC, %s_CANID, %s, %d) & (0x%02XU));",
       sgs->msg.CsmSig->Name.c_str(), arrtxt.c_str(), sgs->msg.Name.c_str(),
-      sgs->msg.Name.c_str(), sgs->msg.CsmMethod.c_str(), sgs->msg.CsmOp);
+      sgs->msg.Name.c_str(), sgs->msg.CsmMethod.c_str(), sgs->msg.CsmOp,
+      (1 << sgs->msg.CsmSig->LengthBit) - 1);
 
     fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), sgs->msg.CsmByteNum, sgs->msg.CsmToByteExpr.c_str());
 
-- 
2.43.0


From f756096d88fccb270ce217c27f68e380661f19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 23/41] fix: type of physical value for integer signals with
 negative factor

Negative factor turns over the limits of the physical value, so a too narrow
(or unsigned) type was selected for the *_phys field.
---
 src/parser/dbclineparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 040a6ed..ac977f5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -381,6 +381,12 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     max_abs = max_abs * i_factor + i_offset;
     min_abs = min_abs * i_factor + i_offset;
 
+    if (min_abs > max_abs)
+    {
+      // negative factor turns over the limits
+      std::swap(min_abs, max_abs);
+    }
+
     if (sig->Signed || max_abs < 0 || min_abs < 0)
     {
       // phys value must be signed
-- 
2.43.0


From 2bbd006aeb5d31c58321873ee56c184f5e4d3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 24/41] fix: calculate wide integer physical values in 64 bits

The expressions raw * factor + offset (and the opposite one) were calculated
in int, so the values which do not fit 32 bits were broken by overflow even if
the 64 bit type is selected for the *_phys field.
---
 src/codegen/c-sigprinter.cpp | 47 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 47a1864..d5c43d8 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -1,4 +1,6 @@
 #include <stdlib.h>
+#include <stdint.h>
+#include <cmath>
 #include <memory>
 #include "c-sigprinter.h"
 #include "helpers/formatter.h"
@@ -51,23 +53,36 @@ void CSigPrinter::LoadMessage(const MessageDescriptor_t& message)
   sigs_expr.push_back(nexpr);
 }
 
+// Prints the constant of integer based conversion. The calculation is performed
+// in 64 bits if any part of it doesn't fit to int (32 bits)
+static std::string PrintIntConst(const SignalDescriptor_t* sig, double value)
+{
+  const double low = sig->Signed ? -std::pow(2, sig->LengthBit - 1) : 0;
+  const double high = std::pow(2, sig->LengthBit - (sig->Signed ? 1 : 0)) - 1;
+  const double limit = INT32_MAX;
+
+  // unsigned int can't keep the negative difference (physical value - offset)
+  bool wide = std::fabs(sig->Offset) > limit || (sig->Factor < 0 && sig->TypePhys == SigType::u32);
+
+  for (const double raw : { low, high })
+  {
+    wide = wide || std::fabs(raw) > limit || std::fabs(raw * sig->Factor) > limit
+      || std::fabs(raw * sig->Factor + sig->Offset) > limit;
+  }
+
+  return std::to_string((int64_t)value) + (wide ? "LL" : "");
+}
+
 std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const std::string& drvname)
 {
   std::string retstr = "";
 
-  const std::string prtFactor = prt_double(sig->Factor, 9);
-  const std::string prtOffset = prt_double(sig->Offset, 9);
+  const std::string prtFactor = sig->IsDoubleSig ? prt_double(sig->Factor, 9) : PrintIntConst(sig, sig->Factor);
+  const std::string prtOffset = sig->IsDoubleSig ? prt_double(sig->Offset, 9) : PrintIntConst(sig, sig->Offset);
 
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
-  if (sig->IsDoubleSig)
-  {
-    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
-  }
-  else
-  {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
-  }
+  retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
     PrintType((uint8_t)sig->TypeRo).c_str());
@@ -81,17 +96,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) / (%s)) )\n", prtFactor.c_str());
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) - (%s)) )\n", prtOffset.c_str());
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("(((x) - (%s)) / (%s)) )\n", prtOffset.c_str(), prtFactor.c_str());
     }
   }
 
@@ -106,17 +121,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) * (%s)) )\n", prtFactor.c_str());
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) + (%s)) )\n", prtOffset.c_str());
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("(((x) * (%s)) + (%s)) )\n", prtFactor.c_str(), prtOffset.c_str());
     }
   }
 
-- 
2.43.0


From aa2ecb3c40320e6ec481b84f0abded9ab7ceccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 25/41] fix: own conversion for signals of the same name in
 different messages

Only the macros of the first signal were printed and all the other signals
with the same name were converted with its factor, offset and type.
---
 src/codegen/c-main-generator.cpp | 25 ++++++++++++++++++-------
 src/codegen/c-sigprinter.cpp     |  6 +++---
 src/types/message.h              |  3 +++
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 797299a..ee8fa18 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -6,7 +6,7 @@
 #include <stdarg.h>
 #include <filesystem>
 #include <algorithm>
-#include <set>
+#include <map>
 #include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
@@ -106,7 +106,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
 void CiMainGenerator::Gen_MainHeader()
 {
-  std::set<std::string> passed_sigs;
+  std::map<std::string, std::string> passed_sigs;
   fwriter.AppendText(fdesc->gen.start_common_info);
   fwriter.AppendText(fdesc->gen.start_driver_info);
   fwriter.Append("#pragma once");
@@ -207,11 +207,21 @@ void CiMainGenerator::Gen_MainHeader()
 
       if (!s.IsSimpleSig)
       {
-        if (passed_sigs.find(s.Name) == passed_sigs.end())
+        s.ConvName = s.Name;
+        auto conv = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+        auto passed = passed_sigs.find(s.Name);
+
+        if (passed == passed_sigs.end())
         {
           // print signal macroses only it was not printed before
+          fwriter.Append(conv);
+          passed_sigs[s.Name] = conv;
+        }
+        else if (passed->second != conv)
+        {
+          // the signal of another message has its own conversion
+          s.ConvName += "_" + m.Name;
           fwriter.Append(sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME));
-          passed_sigs.insert(s.Name);
         }
       }
 
@@ -732,14 +742,15 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       {
         // for double signals (sigfloat_t) type cast
         fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
-          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(),
+          sgs->msg.Signals[num].ConvName.c_str(), sname);
       }
       else
       {
         fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, sname);
+          fdesc->gen.DRVNAME.c_str(), sgs->msg.Signals[num].ConvName.c_str(), sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -860,7 +871,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
-          sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+          sgs->msg.Signals[n].ConvName.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
 
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index d5c43d8..a80ae69 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -82,9 +82,9 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
 
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
-  retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
+  retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->ConvName.c_str(), prtFactor.c_str());
 
-  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
+  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->ConvName.c_str(),
     PrintType((uint8_t)sig->TypeRo).c_str());
 
   if (sig->IsDoubleSig)
@@ -110,7 +110,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     }
   }
 
-  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->Name.c_str());
+  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->ConvName.c_str());
 
   if (sig->IsDoubleSig)
   {
diff --git a/src/types/message.h b/src/types/message.h
index 275b9fc..7234d43 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -39,6 +39,9 @@ typedef struct
   std::string Name;
   // Signal float name
   std::string NameFloat;
+  // Signal name in conversion macros (differs from @Name if the signal with
+  // the same name but with another conversion exists in another message)
+  std::string ConvName;
   // Unit
   std::string Unit;
 
-- 
2.43.0


From 1ee2abcfb91cf955b2d5a88c54efa919398c1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 26/41] fix: long lines of the generated code are not shortened

---
 src/codegen/filewriter.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 256976a..b083695 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -1,4 +1,3 @@
-#include <iostream>
 #include <fstream>
 #include <stdexcept>
 #include <stdarg.h>
@@ -6,20 +5,24 @@
 #include <assert.h>
 #include "filewriter.h"
 
-template<size_t N = 10000>
-std::string __print_loc__(const char* format, va_list args)
+static std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  va_list copy;
+  va_copy(copy, args);
+  // find out the actual length, the line must never be shortened
+  const int len = vsnprintf(nullptr, 0, format, copy);
+  va_end(copy);
 
-  if (ret >= N)
+  if (len < 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    throw std::runtime_error("Unable to format the line of source code");
   }
 
-  // make string from local array
-  return work_buff;
+  std::string ret(static_cast<size_t>(len) + 1u, 0);
+  vsnprintf(&ret[0], ret.size(), format, args);
+  // remove terminating zero
+  ret.pop_back();
+  return ret;
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From a0d33701d30979418d87a186a5dba00d6508ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 27/41] fix: a comment goes on after a line of text ending with
 semicolon

---
 src/parser/dbclineparser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index ac977f5..b173aa5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <algorithm>
 #include <clocale>
 #include <regex>
 #include <math.h>
@@ -449,8 +450,8 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       commentline += '\n' + line;
     }
 
-    // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    // check if the current line last, semicolon inside of the quoted text doesn't end the comment
+    if (commentline.size() > 0 && line.back() == ';' && std::count(commentline.begin(), commentline.end(), '"') % 2 == 0)
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
-- 
2.43.0


From 267bd54a0e7b51f871b815de076e887b976156b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 28/41] fix: the text of a comment is not taken for the version
 of DBC

---
 src/parser/dbcscanner.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 5b2977e..d886ded 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -89,17 +89,25 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 {
   std::string sline;
 
+  bool in_header = true;
+
   MessageDescriptor_t* pMsg = nullptr;
 
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
-    FindVersion(sline);
+    if (in_header)
+    {
+      FindVersion(sline);
+    }
 
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
+      // the version precedes messages, the text of comments must not be taken for it
+      in_header = false;
+
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
-- 
2.43.0


From 5bd496547be99968c34b67033273e1f0a21cb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 29/41] fix: message lines with other spacing were dropped
 silently

Blanks before the colon, none after it or several between the items made
the DLC to be read from a wrong item, so that the whole message was lost.
---
 src/parser/dbclineparser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b173aa5..ef9341c 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -12,7 +12,7 @@
 constexpr double MIN_FAC_OFF = 0.000000001;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]";
+static const std::string regMessage = "[^A-Za-z0-9_.-]+";
 static const std::string MessageLineStart = "BO_ ";
 
 // Signal line definitions
@@ -120,12 +120,12 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   // Parse DBC message line
   auto items = resplit(line, regMessage, -1);
 
-  if (items.size() < 5)
+  if (items.size() < 4)
   {
     return false;
   }
 
-  std::string txname = (items.size() >= 6) ? (items[5]) : ("");
+  std::string txname = (items.size() >= 5) ? (items[4]) : ("");
 
   if (txname.size() > 0)
   {
@@ -136,7 +136,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
-  msg->DLC = atoi(items[4].c_str());
+  msg->DLC = atoi(items[3].c_str());
 
   if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
   {
-- 
2.43.0


From e3bdd13d1f463bc2460fcfd23a08ae9e543efbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 30/41] fix: signal lines with other spacing or a colon in the
 unit were dropped silently

A signal line without indentation, without blanks around its first colon or
with ' : ' in the text of the unit was not recognised, so that the signal
was missing in the driver. A line with SG_ in its middle is no signal line.
---
 src/parser/dbclineparser.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index ef9341c..9cb7425 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -18,7 +18,6 @@ static const std::string MessageLineStart = "BO_ ";
 // Signal line definitions
 static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
 static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kRegSigSplit1 = "(\\s+:\\s+)";
 static const std::string kregSigSplit2 = "(\")";
 
 // This reg splits line to parts delimited by (")
@@ -172,28 +171,33 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_", kRegexFlags);
+  const std::regex sigMatch("^\\s*SG_\\s", kRegexFlags);
   bool ret = std::regex_search(line, sigMatch);
   return ret;
 }
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts, the name can't contain colon, but the unit can
+  size_t colon = line.find(':');
 
-  if (halfs.size() < 2)
+  if (colon == std::string::npos)
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = resplit(line.substr(colon + 1), kregSigSplit2, -1);
+
+  if (tailpart.empty())
+  {
+    return false;
+  }
 
   // split middle part on dedicated values
   auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  auto halfs = resplit(line.substr(0, colon), kRegValTable, 0);
 
   if (halfs.size() >= 2)
   {
-- 
2.43.0


From 724138932e092c8c33145aeb0756c8012a8c36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 31/41] fix: comment lines with tabs or a line break before the
 text lost their signal

The marker of a rolling counter or checksum in such a comment was ignored.
---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 9cb7425..864a65e 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -22,7 +22,7 @@ static const std::string kregSigSplit2 = "(\")";
 
 // This reg splits line to parts delimited by (")
 static const std::string kRegCommMain = "\"";
-static const std::string kRegCommMeta = "[ ]+";
+static const std::string kRegCommMeta = "\\s+";
 
 // This reg splits line to parts (for attributes)
 static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.]+";
-- 
2.43.0


From bf88e6e004d2e47795555904b81f360dadf9dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 32/41] fix: a comment with a backslash at the end of line
 swallowed the next generated line

---
 src/codegen/c-main-generator.cpp |  6 +++---
 src/helpers/formatter.cpp        | 24 ++++++++++++++++++++++++
 src/helpers/formatter.h          |  5 +++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index ee8fa18..a776331 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -179,7 +179,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append(make_c_comment(m.CommentText));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -593,12 +593,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append(make_c_comment(sig.CommentText, "  "));
   }
 
   if (sig.ValueText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.ValueText, std::regex("\n"), "\n  // "));
+    fwriter.Append(make_c_comment(sig.ValueText, "  "));
   }
 
   if (sig.Multiplex == MultiplexType::kMulValue)
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 94ef9ca..8403334 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -147,6 +147,30 @@ std::string make_c_name(const std::string& s)
   return ret;
 }
 
+std::string make_c_comment(const std::string& text, const std::string& indent)
+{
+  std::string ret{};
+
+  for (size_t from = 0; from <= text.size();)
+  {
+    size_t to = std::min(text.find('\n', from), text.size());
+    std::string line = text.substr(from, to - from);
+
+    // the backslash in the end of line would make the next line a part of the comment
+    size_t last = line.find_last_not_of(" \t\v\f\r");
+
+    if ((last != std::string::npos) && (line[last] == '\\'))
+    {
+      line += '.';
+    }
+
+    ret += (from == 0 ? "" : "\n") + indent + "// " + line;
+    from = to + 1;
+  }
+
+  return ret;
+}
+
 std::string prt_double(double value, size_t precision, bool usedot)
 {
   std::stringstream strstrm;
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..e5eb443 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -32,6 +32,11 @@ std::string prt_double(double value, size_t precision, bool usedot = true);
  */
 std::string make_c_name(const std::string& s);
 
+/// @brief Makes C line comment from (multiline) text
+/// @param text source text
+/// @param indent text before each comment start
+std::string make_c_comment(const std::string& text, const std::string& indent = "");
+
 template<size_t N = 4096>
 std::string StrPrintLoc(const char* format, ...)
 {
-- 
2.43.0


From 303ff2328224c905265061a1ce45af2901656d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 33/41] fix: value tables of scaled signals were dropped

The constants of signals with factor or offset (named with _ro suffix) were
never generated.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index d886ded..92cc7e0 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -277,7 +277,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From afe505e0d9b3e7f55ecf5642fb3205710529c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 34/41] fix: named values beyond 32 bits were cut

---
 src/codegen/c-main-generator.cpp | 18 +++++++++++++++---
 src/parser/dbclineparser.cpp     |  2 +-
 src/types/comment.h              |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index a776331..a2a0e55 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -247,9 +247,21 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
-            s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+          std::string defval = StrPrint("%lld", (long long)s.ValDefs.vpairs[i].second);
+
+          if (s.ValDefs.vpairs[i].second < 0 && !s.Signed && s.LengthBit == 64)
+          {
+            // bigger than any signed value
+            defval = StrPrint("%lluU", (unsigned long long)s.ValDefs.vpairs[i].second);
+          }
+          else if (s.ValDefs.vpairs[i].second == INT64_MIN)
+          {
+            // C language has no literal for this value
+            defval = "-9223372036854775807 - 1";
+          }
+
+          fwriter.Append("#define %s_%s_%s (%s)",
+            s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(), defval.c_str());
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 864a65e..1d93892 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -590,7 +590,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, (int64_t)strtoull((items[valpair + 0]).c_str(), nullptr, 10)});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..0d3cf12 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From 11fb9f9d429cba44193982b74899c6160e1cd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 35/41] fix: rolling counters of 32 bits or more stood still,
 signed ones raised false errors

---
 src/codegen/c-main-generator.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index a2a0e55..730b1ad 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,22 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// Returns the expression for the next value of the rolling counter
+static std::string PrintNextCount(const SignalDescriptor_t& sig)
+{
+  const uint64_t mask = (sig.LengthBit < 64) ? ((1ULL << sig.LengthBit) - 1) : UINT64_MAX;
+  std::string next = StrPrint("(_m->%s + 1U) & (0x%02llXU)", sig.Name.c_str(), (unsigned long long)mask);
+
+  if (sig.Signed)
+  {
+    // signed counter wraps around to the lowest negative value
+    next = StrPrint("(%s) %s(( %s ), %d)", PrintType((int)sig.TypeRo).c_str(),
+      ext_sig_func_name, next.c_str(), (int32_t)sig.LengthBit);
+  }
+
+  return next;
+}
+
 // Returns the mask of bits not covered by signals for each byte of the message
 static std::vector<uint8_t> GetFreeBits(const MessageDescriptor_t& msg)
 {
@@ -788,8 +804,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = %s;", sgs->msg.RollSig->Name.c_str(),
+      PrintNextCount(*sgs->msg.RollSig).c_str());
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -853,8 +869,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = %s;", sgs->msg.RollSig->Name.c_str(),
+      PrintNextCount(*sgs->msg.RollSig).c_str());
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From b803a51364af15c64933770e6bf6f51dd5fced42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 36/41] fix: rolling counters with factor or offset did not
 compile or advance with physical signals

---
 src/codegen/c-main-generator.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 730b1ad..1ab419c 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -301,6 +301,8 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+      // the expected value is raw, it has no physical part
+      rollsig.IsSimpleSig = true;
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
@@ -894,12 +896,31 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
     {
       if (sgs->msg.Signals[n].IsSimpleSig == false)
       {
+        const bool isroll = sgs->msg.RollSig != nullptr && sgs->msg.RollSig->Name == sgs->msg.Signals[n].Name;
+
+        if (isroll)
+        {
+          // the counter is maintained by driver, so its physical value follows the raw one
+          fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
+          fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
+            sgs->msg.Signals[n].NameFloat.c_str(),
+            sgs->msg.Signals[n].IsDoubleSig ? "sigfloat_t" : PrintType((int)sgs->msg.Signals[n].TypePhys).c_str(),
+            fdesc->gen.DRVNAME.c_str(),
+            sgs->msg.Signals[n].ConvName.c_str(), sgs->msg.Signals[n].Name.c_str());
+          fwriter.Append("#else");
+        }
+
         // print toS from *_phys to original named sigint (integer duplicate of signal)
         fwriter.Append("  _m->%s = (%s) %s_%s_toS(_m->%s);",
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
           sgs->msg.Signals[n].ConvName.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+
+        if (isroll)
+        {
+          fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
+        }
       }
     }
 
-- 
2.43.0


From 6db740620123b722367124e247c5a8cc69682c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 37/41] fix: comments and units with escaped quotes were
 dropped, the latter together with the signal

---
 src/parser/dbclineparser.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 1d93892..28f4aa8 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -302,13 +302,13 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
     }
   }
 
-  if (tailpart.size() == 3)
+  if (tailpart.size() >= 3)
   {
     // part 1 went on valpart
-    // part 2 is the measure unit
-    sig->Unit = tailpart[1];
+    // part 2 is the measure unit, it can have escaped quotes
+    sig->Unit = line.substr(line.find('"') + 1, line.rfind('"') - line.find('"') - 1);
     // part 3 is the list of RX modules
-    auto recs = resplit(trim(tailpart[2]), kRegSigReceivers, -1);
+    auto recs = resplit(trim(tailpart.back()), kRegSigReceivers, -1);
 
     for (size_t i = 0; i < recs.size(); i++)
     {
@@ -454,8 +454,12 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       commentline += '\n' + line;
     }
 
-    // check if the current line last, semicolon inside of the quoted text doesn't end the comment
-    if (commentline.size() > 0 && line.back() == ';' && std::count(commentline.begin(), commentline.end(), '"') % 2 == 0)
+    // the comment ends with the closing quote and semicolon, both may also be inside of the text (escaped quote)
+    const size_t openquote = commentline.find('"');
+    const size_t closequote = commentline.find_last_not_of("; \t");
+
+    // check if the current line last
+    if (line.back() == ';' && openquote < closequote && commentline[closequote] == '"')
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
@@ -463,7 +467,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       // comment line must have 3 part: meta, text, semicolon
       auto items = resplit(commentline, kRegCommMain, -1);
 
-      if (items.size() == 3)
+      if (items.size() >= 3)
       {
         // part 1 (meta) contains service fields
         auto meta = resplit(items[0], kRegCommMeta, -1);
@@ -491,7 +495,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           }
 
           // copy comment text
-          cm->Text = items[1];
+          cm->Text = commentline.substr(openquote + 1, closequote - openquote - 1);
         }
 
         if (cm->Text.size() > 0 && cm->Text.back() == '\n')
-- 
2.43.0


From 0817d2defec380e1a4c5654b29fa7a13c1c80606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 38/41] fix: a comment with the trigraph of a backslash at the
 end of line swallowed the next generated line in strict C modes

---
 src/helpers/formatter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 8403334..1a321b6 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -156,10 +156,12 @@ std::string make_c_comment(const std::string& text, const std::string& indent)
     size_t to = std::min(text.find('\n', from), text.size());
     std::string line = text.substr(from, to - from);
 
-    // the backslash in the end of line would make the next line a part of the comment
+    // the backslash in the end of line would make the next line a part of the comment,
+    // the same applies to its trigraph
     size_t last = line.find_last_not_of(" \t\v\f\r");
 
-    if ((last != std::string::npos) && (line[last] == '\\'))
+    if ((last != std::string::npos) &&
+      ((line[last] == '\\') || ((last >= 2) && (line.compare(last - 2, 3, "?\?/") == 0))))
     {
       line += '.';
     }
-- 
2.43.0


From 1ec2a295be1faacdb45a47be00f8edd85a0040d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 39/41] fix: the comment block of every file was shortened when
 memory ran out, and success was reported

---
 src/app.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app.cpp b/src/app.cpp
index 730c39e..df494c2 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -112,9 +112,12 @@ void CoderApp::GenerateCode()
   std::tm* loctime = std::localtime(&now);
   // create driver related comment block
   std::stringstream driversrcinfo;
+  // never write a shortened comment block
+  driversrcinfo.exceptions(std::ios::badbit);
   driversrcinfo << "// DBC filename      : " << filename << "\n";
   // create common comment block
   std::stringstream commonsrcinfo;
+  commonsrcinfo.exceptions(std::ios::badbit);
   commonsrcinfo << "// Generator version : v" << CODEGEN_LIB_VERSION_MAJ << "." << CODEGEN_LIB_VERSION_MIN << "\n";
 
   if (loctime && Params.add_gen_date)
-- 
2.43.0


From 513093ba5693e61528a7699051295480d4a77536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 40/41] fix: sent physical values beyond 32 bits of signals
 with negative integer factor were wrong

---
 src/codegen/c-sigprinter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index a80ae69..fa26d3b 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -105,8 +105,9 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     }
     else
     {
-      // full expression
-      retstr += StrPrint("(((x) - (%s)) / (%s)) )\n", prtOffset.c_str(), prtFactor.c_str());
+      // full expression, the division by negative factor must be signed
+      const bool tosigned = (sig->Factor < 0) && (sig->TypePhys == SigType::u64);
+      retstr += StrPrint("((%s(x) - (%s)) / (%s)) )\n", tosigned ? "(int64_t)" : "", prtOffset.c_str(), prtFactor.c_str());
     }
   }
 
-- 
2.43.0


From 47f0ca36f5a173c6900a26e714c44cd559942237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 41/41] fix: signed rolling counter of 64 bits overflowed when
 it was incremented

---
 src/codegen/c-main-generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 1ab419c..df7931a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -39,7 +39,9 @@ static std::string PrintNextCount(const SignalDescriptor_t& sig)
 
   if (sig.Signed)
   {
-    // signed counter wraps around to the lowest negative value
+    // signed counter wraps around to the lowest negative value, the addition
+    // itself is unsigned because the widest counter has no bit to spare
+    next = StrPrint("((ubitext_t) _m->%s + 1U) & (0x%02llXU)", sig.Name.c_str(), (unsigned long long)mask);
     next = StrPrint("(%s) %s(( %s ), %d)", PrintType((int)sig.TypeRo).c_str(),
       ext_sig_func_name, next.c_str(), (int32_t)sig.LengthBit);
   }
-- 
2.43.0

