From 69b3b261bcc1c55347b709d1429626f9222b4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 01/35] fix: reject misplaced padding in base64_decode

---
 src/base64.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base64.hh b/src/base64.hh
index 4bf2e0a..a3f36ea 100644
--- a/src/base64.hh
+++ b/src/base64.hh
@@ -78,6 +78,14 @@ void base64_decode(const std::string& src, OutputIterator result) {
   if (src_trimmed.size() % 4 != 0)
     throw FormatError("Base64 data must be a multiple of four in size.");
 
+  // Only the last one or two characters may be padding.
+  const std::size_t pad_pos = src_trimmed.find('=');
+  if (pad_pos != std::string::npos &&
+      (src_trimmed.size() - pad_pos > 2 ||
+       src_trimmed.find_first_not_of('=', pad_pos) != std::string::npos)) {
+    throw FormatError("Illegal padding in base64 stream.");
+  }
+
   uint32_t bits24 = 0;
   std::size_t i = 0;
 
-- 
2.43.0


From 0406dd46cc66de87884cd3fb448c31b802c82223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 02/35] fix: reject empty padding and empty input in
 decrypt_cbc

---
 src/cipher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..6fc4f0d 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -176,6 +176,7 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
 
+  bool padded = false;
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
                                     std::size_t src_len,
@@ -192,7 +193,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len < 1 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
@@ -200,12 +201,17 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
           throw IoError("Decryption error.");
       }
 
+      padded = true;
       return 16 - pad_len;
     }
 
     prv = src;
     return 16;
   });
+
+  // The encrypted data always ends with a padded block.
+  if (!padded)
+    throw IoError("Decryption error.");
 }
 
 AesCipher::AesCipher(const std::array<uint8_t, 32>& key,
-- 
2.43.0


From 6d785025d7c894af6d430d1fd7de98157766a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 03/35] fix: rebuild the KDB group tree from the current chain
 of groups

---
 src/kdb.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..f9d0989 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,8 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
-
+  // Chain of groups leading to the most recently added group, by level.
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
 
@@ -609,20 +608,16 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
-
-    if (group_level > last_group_level) {
-      if (group_level != last_group_level + 1)
-        throw FormatError("Malformed group tree.");
+    std::size_t group_level = std::get<1>(group_data);
+    ++group_level;
 
-      last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level.push_back(group);
-    } else {
-      last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level[group_level] = group;
-    }
+    if (group_level > last_group_by_level.size())
+      throw FormatError("Malformed group tree.");
 
-    last_group_level = group_level;
+    // Forget groups at the same or deeper levels, they are complete.
+    last_group_by_level.resize(group_level);
+    last_group_by_level.back()->AddGroup(group);
+    last_group_by_level.push_back(group);
   }
 
   for (auto& entry_data : entries) {
-- 
2.43.0


From 70bacfde8587183c3e65d5b4d896dababbaa40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 04/35] fix: reject duplicate group identifiers in KDB import

---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index f9d0989..608b319 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -585,8 +585,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
-    group_map[group_id] = group;
+    if (!group_map.insert(std::make_pair(group_id, group)).second)
+      throw FormatError("Duplicate group identifier in KDB.");
   }
 
   std::vector<std::tuple<std::shared_ptr<Entry>, uint32_t>> entries;
-- 
2.43.0


From 5cab961eca8c127d087199d558c46b76996c477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 05/35] fix: reject invalid time stamps in KDB import

---
 src/kdb.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 608b319..dd1feaf 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,9 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900)
+      throw FormatError("Invalid time in KDB.");
 
     std::tm time;
     time.tm_sec = second;
@@ -134,10 +131,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
-      return 0;
-    }
+    if (res == -1)
+      throw FormatError("Invalid time in KDB.");
 
     return res;
   }
-- 
2.43.0


From 83f856de6a90a46335b3f6c6080b555c223a9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 06/35] fix: stop reading KDB fields at the end of the content

---
 src/kdb.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index dd1feaf..a5824f5 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -186,9 +186,8 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(static_cast<char>(src.get()));
     if (!src.good())
       throw IoError("Read error.");
 
@@ -297,9 +296,8 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(static_cast<char>(src.get()));
     if (!src.good())
       throw IoError("Read error.");
 
-- 
2.43.0


From 52fc2f16c9f332c374374965ec9d9eca71c161de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 07/35] fix: reject the first unknown KDBX compression method

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..ad1bac4 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -981,7 +981,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From c2556b1d62418387b970650c83f0ed9621516a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 08/35] fix: do not abort on missing or malformed times in KDBX

---
 src/kdbx.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index ad1bac4..aa70e8e 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -144,13 +144,12 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   
   std::tm tm;
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  if (res == nullptr)
     return 0;
-  }
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
+  if (*res != 'Z' && *res != '\0')
+    throw FormatError("Invalid time in KDBX.");
 
   return timegm(&tm);
 }
-- 
2.43.0


From 4f97b6b880ecb855fc0c74b07e648096e5c5fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 09/35] fix: do not abort on dangling references and unnamed
 fields in KDBX

---
 src/kdbx.cc | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index aa70e8e..37759a6 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -320,10 +320,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -476,11 +474,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
   if (entry_node.child("CustomIconUUID")) {
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
-    if (it != icon_pool_.end()) {
+    if (it != icon_pool_.end())
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
-    }
   }
  
   pugi::xml_node times_node = entry_node.child("Times");
@@ -733,11 +728,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   if (group_node.child("CustomIconUUID")) {
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
-    if (icon != icon_pool_.end()) {
+    if (icon != icon_pool_.end())
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
-    }
   }
 
   pugi::xml_node times_node = group_node.child("Times");
@@ -866,18 +858,12 @@ void KdbxFile::ParseXml(std::istream& src,
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
-  }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
-  }
 }
 
 #ifdef DEBUG
-- 
2.43.0


From c9efd9dac7c688a90f34cb72ef76e239502cb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 10/35] fix: allow exporting a KDBX database without entry
 templates group

---
 src/kdbx.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 37759a6..319a7fc 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -385,8 +385,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
-- 
2.43.0


From 0234d67e114f8288a4265e447ca44c458b7037e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 11/35] fix: initialize identifiers that are too short in KDBX

---
 src/kdbx.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 319a7fc..84d8803 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -266,7 +266,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
-- 
2.43.0


From d7ca539d462fe2e2620a89751533ffa2b3def3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 12/35] fix: report identifiers that are too long in KDBX as
 format errors

---
 src/kdbx.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 84d8803..d0ace3b 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -22,6 +22,7 @@
 #include <cassert>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #ifdef DEBUG
 #include <iostream>
 #endif
@@ -846,8 +847,14 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!group_node)
     throw FormatError("No \"Root\" or \"Group\" element in KDBX XML.");
 
-  std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
-  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator);
+  std::shared_ptr<Metadata> meta;
+  std::shared_ptr<Group> root;
+  try {
+    meta = ParseMeta(meta_node, obfuscator);
+    root = ParseGroup(group_node, obfuscator);
+  } catch (const std::out_of_range&) {
+    throw FormatError("Identifier or hash is too long in KDBX.");
+  }
 
   db.set_meta(meta);
   db.set_root(root);
-- 
2.43.0


From 4e006c1c9674572c1474585e7df8492690cf7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 13/35] fix: resolve the recycle bin and entry templates to
 groups of the KDBX tree

---
 src/kdbx.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index d0ace3b..d68833b 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -237,15 +237,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -254,9 +248,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing "RecycleBinUUID", "EntryTemplatesGroup",
+  // "LastSelectedGroup" and "LastTopVisibleGroup" here. They will be parsed
+  // later by ParseXml(). The reason is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -852,6 +846,11 @@ void KdbxFile::ParseXml(std::istream& src,
   try {
     meta = ParseMeta(meta_node, obfuscator);
     root = ParseGroup(group_node, obfuscator);
+
+    if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+      meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+    meta->set_entry_templates(GetGroup(
+        meta_node.child_value("EntryTemplatesGroup")));
   } catch (const std::out_of_range&) {
     throw FormatError("Identifier or hash is too long in KDBX.");
   }
-- 
2.43.0


From f51f9b79ef4731171af7011821ccefa27ff6b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 14/35] fix: do not mistake other identifiers for the last
 visible entry in KDBX

---
 src/kdbx.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index d68833b..5e9f0cd 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -749,8 +749,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string visible_uuid_str = group_node.child_value("LastTopVisibleEntry");
+  std::array<uint8_t, 16> visible_uuid = { { 0 } };
+  base64_decode(visible_uuid_str, bounds_checked(visible_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -758,10 +759,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (!visible_uuid_str.empty() && entry_uuid == visible_uuid &&
+        group->last_visible_entry().expired())
       group->set_last_visible_entry(entry);
-    }
   }
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
-- 
2.43.0


From aaf303928df31f8fb6df0f06d4cf294e3b8c632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 15/35] fix: read and write attachment data stored inside a
 KDBX entry

---
 src/kdbx.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 5e9f0cd..6fa2f56 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -549,23 +549,23 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
             prot_val = protect<std::string>(
                 consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -691,9 +691,15 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       }
     }
 
-    if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+    if (!found_in_pool && attachment->binary()) {
+      const protect<std::string>& data = attachment->binary()->data();
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      if (data.is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(*data)).c_str());
+      } else {
+        val_node.text().set(base64_encode(*data).c_str());
+      }
     }
   }
 
-- 
2.43.0


From ad55c691b47bba96c2405920eb20bc02dd0d6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 16/35] fix: read compressed KDBX binaries as binary data

---
 src/kdbx.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6fa2f56..2dc3cc4 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -292,7 +292,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           std::istream gzip_stream(&gzip_streambuf);
 
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(std::istreambuf_iterator<char>(gzip_stream),
+                          std::istreambuf_iterator<char>()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
@@ -560,7 +561,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
             std::istream gzip_stream(&gzip_streambuf);
 
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
+                std::string(std::istreambuf_iterator<char>(gzip_stream),
+                          std::istreambuf_iterator<char>()),
                 val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-- 
2.43.0


From 4c237d236c39127981627211a3597262316afd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 17/35] fix: keep carriage returns in texts written to XML

---
 src/pugixml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pugixml.cc b/src/pugixml.cc
index 006bbf2..2a26cf1 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -1842,7 +1842,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32 (except \t), &, <, >, "
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1851,7 +1851,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  0,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  3,  0,     // 48-63
-- 
2.43.0


From bbd83b4789a0eb3f2ec5364bf9dcbf35a6f3929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 18/35] fix: keep the full auto-type obfuscation value

---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From fd669c3e63817749d94f0792c5b965568faabd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 19/35] fix: initialize the metadata change times

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From 591d974e087d606fc2ab67b0c94bbd3454331ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:46 +0000
Subject: [PATCH 20/35] fix: write the KDB never constant for unset times

---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a5824f5..467deb5 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From 451984ae35d2cdb6d490d8aff6af93c9505ead1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 21/35] fix: do not loop forever with more than 2^32 transform
 rounds

---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..0287861 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -124,7 +124,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 98642be33c6e85dc0e48edf5589dc183933683b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 22/35] fix: compare the lengths of vectors in indirect_equal

---
 src/util.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..1b7c629 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,8 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() &&
+      std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From 723ab8b62853cb139849e7d500c80f1e265e1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 23/35] fix: fail on truncated blocks in the hashed block
 stream

---
 src/stream.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..cc59370 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -44,15 +44,21 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Block header read error.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
     block_index_++;
 
     block_.clear();
-    std::generate_n(std::back_inserter(block_),
-                    header.block_size,
-                    [&]() { return src_.get(); });
+    for (uint32_t i = 0; i < header.block_size; ++i) {
+      int c = src_.get();
+      if (c == std::char_traits<char>::eof())
+        throw IoError("Block data read error.");
+
+      block_.push_back(std::char_traits<char>::to_char_type(c));
+    }
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
-- 
2.43.0


From fc851244e4b6b92fadeaa5d0c74f3f84e06b4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 24/35] fix: detect truncated gzip streams

---
 src/stream.cc | 54 ++++++++++++++++++++++++++++++---------------------
 src/stream.hh |  2 ++
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index cc59370..7015760 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -148,30 +148,40 @@ gzip_istreambuf::~gzip_istreambuf() {
 
 int gzip_istreambuf::underflow() {
   if (gptr() == egptr()) {
-    // Check if we need to feed the z-stream more input data.
-    if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
-
-      src_.read(input_.data(), input_.size());
-
-      z_stream_.avail_in = src_.gcount();
-      z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
-
-      if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
-    }
-
-    z_stream_.avail_out = output_.size();
-    z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
-
-    int res = inflate(&z_stream_, Z_NO_FLUSH);
-    assert(res != Z_STREAM_ERROR);
-    if (res < 0) {
-      throw IoError(Format() << "Gzip inflation error (" << res << ").");
+    std::size_t output_bytes = 0;
+
+    // The decompressor might need more than one piece of input data before it
+    // is able to produce any output.
+    while (output_bytes == 0 && !finished_) {
+      // Check if we need to feed the z-stream more input data.
+      if (z_stream_.avail_in == 0) {
+        src_.read(input_.data(), input_.size());
+
+        z_stream_.avail_in = src_.gcount();
+        z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+
+        if (z_stream_.avail_in < 1) {
+          // Treat completely empty input as empty content.
+          if (z_stream_.total_in == 0)
+            return std::char_traits<char>::eof();
+
+          throw IoError("Unexpected end of gzip stream.");
+        }
+      }
+
+      z_stream_.avail_out = output_.size();
+      z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
+
+      int res = inflate(&z_stream_, Z_NO_FLUSH);
+      assert(res != Z_STREAM_ERROR);
+      if (res < 0) {
+        throw IoError(Format() << "Gzip inflation error (" << res << ").");
+      }
+
+      finished_ = res == Z_STREAM_END;
+      output_bytes = output_.size() - z_stream_.avail_out;
     }
 
-    std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
   }
 
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..2d6fddb 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -156,6 +156,8 @@ class gzip_istreambuf final :
   std::array<char, kBufferSize> input_ = { { 0 } };
   /** Output buffer for the decompressor to write to. */
   std::array<char, kBufferSize> output_ = { { 0 } };
+  /** True when the decompressor has reached the end of the gzip stream. */
+  bool finished_ = false;
 
 public:
   gzip_istreambuf(std::istream& src);
-- 
2.43.0


From efaa4d1d5a383fd0369c733db881a0f6a7857738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 25/35] fix: report failing writes when exporting databases

---
 src/kdb.cc  | 5 +++++
 src/kdbx.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 467deb5..0a59a07 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -741,6 +741,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  // Make sure that everything reached the file.
+  dst.close();
+  if (!dst.good())
+    throw IoError("Unable to write database.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 2dc3cc4..410b452 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1230,6 +1230,11 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  // Make sure that everything reached the file.
+  dst.close();
+  if (!dst.good())
+    throw IoError("Unable to write database.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 351774f72b22741d60a2987a9b9561b112effb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 26/35] fix: leave the key unchanged when a key file is refused

---
 src/key.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 0287861..1046c07 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -107,15 +107,19 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
-    if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
+    if (!std::isxdigit(static_cast<unsigned char>(c[0])) ||
+        !std::isxdigit(static_cast<unsigned char>(c[1])))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
-- 
2.43.0


From 12ae19474bd693f38b1ced509713470f69992077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 27/35] fix: do not ignore a key file with an all zero key

---
 src/key.cc | 13 +++++++------
 src/key.hh |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 1046c07..fb935aa 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_key_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_key_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_key_) {
+      if (has_keyfile_key_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_key_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -94,6 +93,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_key_ = true;
     return;
   }
 
@@ -120,6 +120,7 @@ void Key::SetKeyFile(const std::string& path) {
   }
 
   key_.keyfile_key_ = keyfile_key;
+  key_.has_keyfile_key_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..6328089 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -43,6 +43,8 @@ class Key final {
 
  private:
   struct CompositeKey {
+    bool has_password_key_ = false;
+    bool has_keyfile_key_ = false;
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
 
-- 
2.43.0


From 1071b35ada25cb50a43ed31cfcbadb0ad81fa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 28/35] fix: keep bounds checked iterators inside the container

---
 src/iterator.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iterator.hh b/src/iterator.hh
index 411c8c0..d6ca83d 100644
--- a/src/iterator.hh
+++ b/src/iterator.hh
@@ -54,13 +54,17 @@ class bounds_checked_iterator :
   }
 
   bounds_checked_iterator& operator++() {
+    if (first_ == last_)
+      throw std::out_of_range("advancing outside container limits.");
+
     first_++;
     return *this;
   }
 
   bounds_checked_iterator operator++(int) {
-    ++first_;
-    return *this;
+    bounds_checked_iterator prev = *this;
+    ++*this;
+    return prev;
   }
 };
 
-- 
2.43.0


From 0ce34c00904c9fc51f2fea23c54bfb53018d1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 29/35] fix: seek to the requested position in
 array_iostreambuf

---
 src/stream.hh | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/stream.hh b/src/stream.hh
index 2d6fddb..67c36c2 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -41,45 +41,47 @@ class array_iostreambuf :
   virtual std::streampos seekoff(std::streamoff off,
                                  std::ios_base::seekdir way,
                                  std::ios_base::openmode which) override {
-    if (which == 0)
-      return std::streampos(std::streamoff(-1));
-
-    off = clamp<std::streamoff>(0, buffer_.size(), off);
-
-    std::streamoff lin_off = 0;
+    std::streamoff base = 0;
     switch (way) {
       case std::ios_base::beg:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), off);
         break;
       case std::ios_base::cur:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), (gptr() - eback()) + off);
+        // The read and write positions are independent of each other.
+        if ((which & std::ios_base::in) && (which & std::ios_base::out))
+          return std::streampos(std::streamoff(-1));
+
+        base = (which & std::ios_base::in) ?
+            gptr() - eback() : pptr() - pbase();
         break;
       case std::ios_base::end:
-        lin_off = clamp<std::streamoff>(0, buffer_.size(), buffer_.size() - off);
+        base = buffer_.size();
         break;
       default:
         assert(false);
         break;
     };
 
-    if (which & std::ios_base::in) {
-      char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
-      setg(buffer_ptr, buffer_ptr + lin_off, buffer_ptr + buffer_.size());
-    }
+    // Don't overflow when adding the base position.
+    if (off > static_cast<std::streamoff>(buffer_.size()))
+      return std::streampos(std::streamoff(-1));
 
-    return lin_off;
+    return seekpos(std::streampos(base + off), which);
   }
 
   virtual std::streampos seekpos(std::streampos sp,
                                  std::ios_base::openmode which) override {
-    if (which == 0 || sp < 0 ||
-        sp >= static_cast<std::streampos>(buffer_.size())) {
+    const std::streamoff pos = sp;
+    if (!(which & (std::ios_base::in | std::ios_base::out)) || pos < 0 ||
+        pos > static_cast<std::streamoff>(buffer_.size())) {
       return std::streampos(std::streamoff(-1));
     }
 
-    if (which & std::ios_base::in) {
-      char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
-      setg(buffer_ptr, buffer_ptr + sp, buffer_ptr + buffer_.size());
+    char* buffer_ptr = reinterpret_cast<char*>(buffer_.data());
+    if (which & std::ios_base::in)
+      setg(buffer_ptr, buffer_ptr + pos, buffer_ptr + buffer_.size());
+    if (which & std::ios_base::out) {
+      setp(buffer_ptr, buffer_ptr + buffer_.size());
+      pbump(static_cast<int>(pos));
     }
 
     return sp;
-- 
2.43.0


From 36b36618d4e62b53fa044ba1c255e2780d1291be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 30/35] fix: report failing writes of fixed-size values

---
 src/io.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io.hh b/src/io.hh
index 103fa95..474ec70 100644
--- a/src/io.hh
+++ b/src/io.hh
@@ -49,6 +49,8 @@ std::vector<uint8_t> consume<std::vector<uint8_t>>(std::istream& src);
 template<typename T>
 void conserve(std::ostream& dst, const T& val) {
   dst.write(reinterpret_cast<const char*>(&val), sizeof(T));
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 template <>
-- 
2.43.0


From c2c5d13abaa99d33c2378c8772ef5c729fc24403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 31/35] fix: handle attachments without data in JSON and KDB
 output

---
 src/entry.cc | 2 +-
 src/kdb.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index 0a59a07..1228fcd 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -455,7 +455,7 @@ void KdbFile::WriteEntry(std::ostream& dst,
       conserve<std::string>(dst, attachment->name());
     }
 
-    if (!attachment->binary()->Empty()) {
+    if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
       conserve<uint32_t>(dst, attachment->binary()->Size());
-- 
2.43.0


From c6a45ab5c23bad53436e8917542429710359d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 32/35] fix: write group flags in the 4 bytes the KDB format
 gives them

KeePass stores the flags of a group in a 4 byte field; other programs read 4
bytes from the field of 2 that was written.
---
 src/kdb.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1228fcd..ebed40a 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -150,7 +150,7 @@ enum class KdbGroupFieldType : uint16_t {
   kExpiryTime,          ///< 5 bytes.
   kIcon,                ///< 4 bytes.
   kLevel,               ///< 2 bytes.
-  kFlags,               ///< 2 bytes.
+  kFlags,               ///< 4 bytes.
   kEnd = 0xffff         ///< 0 bytes.
 };
 
@@ -275,8 +275,8 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint16_t>(dst, level);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kFlags));
-  conserve<uint32_t>(dst, 2);
-  conserve<uint16_t>(dst, group->flags());
+  conserve<uint32_t>(dst, 4);
+  conserve<uint32_t>(dst, group->flags());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kEnd));
   conserve<uint32_t>(dst, 0);
-- 
2.43.0


From 4748d9f18782b999f7a504d10210eab10049a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 33/35] fix: notice when writing the header of a KDBX file
 fails

The header was copied to the stream buffer of the file, which does not record
a failed write in the stream. If only that write failed, a file without part
of its header was reported as saved.
---
 src/kdbx.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 410b452..29f36cf 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1195,9 +1195,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Final(header_hash_.data(), &sha256);
 
   // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
-- 
2.43.0


From dce600b92774fe4d86a744beccf8625864c2f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:18 +0000
Subject: [PATCH 34/35] fix: unmask protected KDBX texts in document order

---
 src/kdbx.cc | 78 ++++++++++++++++++++++++++++++++++-------------------
 src/kdbx.hh | 20 +++++++-------
 2 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 29f36cf..da8c365 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -117,6 +117,7 @@ void KdbxFile::Reset() {
   binary_pool_.clear();
   icon_pool_.clear();
   group_pool_.clear();
+  protected_pool_.clear();
   header_hash_ = { 0 };
 }
 
@@ -138,6 +139,37 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   return group;
 }
 
+void KdbxFile::UnmaskProtected(pugi::xml_document& doc,
+                               RandomObfuscator& obfuscator) {
+  // The protected texts are masked in document order, regardless of the order
+  // in which the nodes are parsed and of whether they are parsed at all.
+  struct XmlTreeWalker : pugi::xml_tree_walker {
+   public:
+    XmlTreeWalker(ProtectedPool& pool, RandomObfuscator& obfuscator)
+        : pool(pool), obfuscator(obfuscator) {}
+
+    virtual bool for_each(pugi::xml_node& node) override {
+      if (node.attribute("Protected").as_bool()) {
+        pool[node.hash_value()] = obfuscator.Process(
+            base64_decode(node.text().as_string()));
+      }
+
+      return true;
+    }
+
+   private:
+    ProtectedPool& pool;
+    RandomObfuscator& obfuscator;
+  };
+
+  XmlTreeWalker walker(protected_pool_, obfuscator);
+  doc.traverse(walker);
+}
+
+const std::string& KdbxFile::GetProtected(const pugi::xml_node& node) const {
+  return protected_pool_.at(node.hash_value());
+}
+
 std::time_t KdbxFile::ParseDateTime(const char* text) const {
   // Check for the special KeePass 1x "never" timestamp.
   if (std::string(text) == "2999-12-28T22:59:59Z")
@@ -167,20 +199,15 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
 
 protect<std::string> KdbxFile::ParseProtectedString(
     const pugi::xml_node& node,
-    const char* name,
-    RandomObfuscator& obfuscator) const {
+    const char* name) const {
   pugi::xml_node val_node = node.child(name);
   if (val_node) {
-    bool prot = val_node.attribute("Protected").as_bool();
-    if (prot) {
-      std::string val = base64_decode(val_node.text().as_string());
-      if (!val.empty())
-        return protect<std::string>(obfuscator.Process(val), true);
-    }
+    if (val_node.attribute("Protected").as_bool())
+      return protect<std::string>(GetProtected(val_node), true);
 
     return protect<std::string>(
         val_node.text().as_string(),
-        prot || val_node.attribute("ProtectedInMemory").as_bool());
+        val_node.attribute("ProtectedInMemory").as_bool());
   }
 
   return protect<std::string>(std::string(), false);
@@ -197,8 +224,8 @@ void KdbxFile::WriteProtectedString(pugi::xml_node& node,
   }
 }
 
-std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
-                                              RandomObfuscator& obfuscator) {
+std::shared_ptr<Metadata> KdbxFile::ParseMeta(
+    const pugi::xml_node& meta_node) {
   std::shared_ptr<Metadata> meta = std::make_shared<Metadata>();
 
   // Parse header hash and store in member for checking later.
@@ -281,8 +308,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
 
       bool compressed = false;
       if (bin_node.attribute("Protected").as_bool()) {
-        data = protect<std::string>(obfuscator.Process(
-            base64_decode(bin_node.text().as_string())), true);
+        data = protect<std::string>(GetProtected(bin_node), true);
       } else {
         if (bin_node.attribute("Compressed").as_bool()) {
           compressed = true;
@@ -453,8 +479,7 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
 std::shared_ptr<Entry> KdbxFile::ParseEntry(
     const pugi::xml_node& entry_node,
-    std::array<uint8_t, 16>& entry_uuid,
-    RandomObfuscator& obfuscator) {
+    std::array<uint8_t, 16>& entry_uuid) {
   std::shared_ptr<Entry> entry = std::make_shared<Entry>();
 
   base64_decode(entry_node.child_value("UUID"), bounds_checked(entry_uuid));
@@ -512,8 +537,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
   for (pugi::xml_node str_node = entry_node.child("String"); str_node;
       str_node = str_node.next_sibling("String")) {
     std::string key = str_node.child_value("Key");
-    protect<std::string> val = ParseProtectedString(
-        str_node, "Value", obfuscator);
+    protect<std::string> val = ParseProtectedString(str_node, "Value");
 
     if (key == "Title") {
       entry->set_title(val);
@@ -551,8 +575,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
         protect<std::string> prot_val;
 
         if (val_node.attribute("Protected").as_bool()) {
-          prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(val_node.text().as_string())), true);
+          prot_val = protect<std::string>(GetProtected(val_node), true);
         } else {
           if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
@@ -590,8 +613,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
         subentry_node = subentry_node.next_sibling("Entry")) {
       std::array<uint8_t, 16> subentry_uuid = { 0 };
       entry->AddHistoryEntry(ParseEntry(subentry_node,
-                                        subentry_uuid,
-                                        obfuscator));
+                                        subentry_uuid));
     }
   }
 
@@ -714,8 +736,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 }
 
 std::shared_ptr<Group> KdbxFile::ParseGroup(
-    const pugi::xml_node& group_node,
-    RandomObfuscator& obfuscator) {
+    const pugi::xml_node& group_node) {
   std::shared_ptr<Group> group = std::make_shared<Group>();
   group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
 
@@ -764,7 +785,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
     std::array<uint8_t, 16> entry_uuid = { 0 };
-    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
+    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid);
     group->AddEntry(entry);
 
     if (!visible_uuid_str.empty() && entry_uuid == visible_uuid &&
@@ -774,7 +795,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
-    group->AddGroup(ParseGroup(subgroup_node, obfuscator));
+    group->AddGroup(ParseGroup(subgroup_node));
   }
 
   return group;
@@ -837,6 +858,8 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
 
+  UnmaskProtected(doc, obfuscator);
+
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
     throw FormatError("No \"KeePassFile\" element in KDBX XML.");
@@ -852,8 +875,9 @@ void KdbxFile::ParseXml(std::istream& src,
   std::shared_ptr<Metadata> meta;
   std::shared_ptr<Group> root;
   try {
-    meta = ParseMeta(meta_node, obfuscator);
-    root = ParseGroup(group_node, obfuscator);
+    meta = ParseMeta(meta_node);
+    root = ParseGroup(group_node);
+    protected_pool_.clear();
 
     if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
       meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..c210f93 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -52,29 +52,34 @@ class KdbxFile final {
 
   typedef std::unordered_map<std::string, std::shared_ptr<Group>> GroupPool;
 
+  // Unmasked texts of protected XML nodes, by hash value of the node.
+  typedef std::unordered_map<std::size_t, std::string> ProtectedPool;
+
  private:
   BinaryPool binary_pool_;
   IconPool icon_pool_;
   GroupPool group_pool_;
+  ProtectedPool protected_pool_;
   std::array<uint8_t, 32> header_hash_ = { { 0 } }; 
 
   void Reset();
 
   std::shared_ptr<Group> GetGroup(const std::string& uuid_str);
 
+  void UnmaskProtected(pugi::xml_document& doc, RandomObfuscator& obfuscator);
+  const std::string& GetProtected(const pugi::xml_node& node) const;
+
   std::time_t ParseDateTime(const char* text) const;
   std::string WriteDateTime(std::time_t time) const;
 
   protect<std::string> ParseProtectedString(
       const pugi::xml_node& node,
-      const char* name,
-      RandomObfuscator& obfuscator) const;
+      const char* name) const;
   void WriteProtectedString(pugi::xml_node& node,
                             const protect<std::string>& str,
                             RandomObfuscator& obfuscator) const;
 
-  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node,
-                                      RandomObfuscator& obfuscator);
+  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node);
   void WriteMeta(pugi::xml_node& meta_node, RandomObfuscator& obfuscator,
                  std::shared_ptr<Metadata> meta);
 
@@ -82,18 +87,15 @@ class KdbxFile final {
    * Parses a an entry in the XML tree.
    * @param [in] entry_node Entry XML node.
    * @param [out] entry_uuid Entry UUID.
-   * @param [in] obfuscator Random stream obfuscator.
    * @return Pointer to entry object.
    */
   std::shared_ptr<Entry> ParseEntry(const pugi::xml_node& entry_node,
-                                    std::array<uint8_t, 16>& entry_uuid,
-                                    RandomObfuscator& obfuscator);
+                                    std::array<uint8_t, 16>& entry_uuid);
   void WriteEntry(pugi::xml_node& entry_node,
                   RandomObfuscator& obfuscator,
                   std::shared_ptr<Entry> entry);
 
-  std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node,
-                                    RandomObfuscator& obfuscator);
+  std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node);
   void WriteGroup(pugi::xml_node& group_node,
                   RandomObfuscator& obfuscator,
                   std::shared_ptr<Group> group);
-- 
2.43.0


From 51060865efa4867024724abc0b4e325b75e7c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:23 +0000
Subject: [PATCH 35/35] fix: escape texts in the JSON listing

---
 src/entry.cc | 14 +++++++-------
 src/group.cc |  4 ++--
 src/util.cc  | 20 ++++++++++++++++++++
 src/util.hh  |  7 +++++++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index f5c4e9c..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
+    json << "\"name\":\"" << json_escape(name_) << "\"";
   if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index 99e249f..999f011 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -32,6 +32,26 @@ std::string time_to_str(const std::time_t& time) {
   return buffer;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char kHexDigits[] = "0123456789abcdef";
+
+  std::string escaped;
+  for (char c : str) {
+    if (c == '"' || c == '\\') {
+      escaped.push_back('\\');
+      escaped.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      escaped.append("\\u00");
+      escaped.push_back(kHexDigits[c >> 4]);
+      escaped.push_back(kHexDigits[c & 0x0f]);
+    } else {
+      escaped.push_back(c);
+    }
+  }
+
+  return escaped;
+}
+
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
   std::mt19937 engine(rd());
diff --git a/src/util.hh b/src/util.hh
index 1b7c629..782e52a 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -102,6 +102,13 @@ inline void dfs(const std::shared_ptr<T>& current,
  */
 std::string time_to_str(const std::time_t& time);
 
+/**
+ * Escapes a string for use inside the quotes of a JSON string.
+ * @param [in] str String to escape.
+ * @return @a str with quotes, backslashes and control characters escaped.
+ */
+std::string json_escape(const std::string& str);
+
 std::array<uint8_t, 16> generate_uuid();
 
 }   // namespace keepass
-- 
2.43.0

