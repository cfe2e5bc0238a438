// Comparison of databases by what the KDB format stores.
#pragma once
#include "dbgen.h"
namespace kdbcmp {
using namespace keepass; using gen::Str;
inline void cmp_group(const Group &a, const Group &b) {
  gen::same(a.name(), b.name(), "group name"); kp_check(a.icon() == b.icon(), "group icon"); kp_check(a.flags() == b.flags(), "group flags");
  kp_check(a.creation_time() == b.creation_time(), "group creation time"); kp_check(a.modification_time() == b.modification_time(), "group modification time");
  kp_check(a.access_time() == b.access_time(), "group access time"); kp_check(a.expiry_time() == b.expiry_time(), "group expiry time");
}
inline void cmp_entry(const Entry &a, const Entry &b) {
  gen::same(a.uuid(), b.uuid(), "entry id"); kp_check(a.icon() == b.icon(), "entry icon");
  gen::same(*a.title(), *b.title(), "title"); gen::same(*a.url(), *b.url(), "URL"); gen::same(*a.username(), *b.username(), "user name");
  gen::same(*a.password(), *b.password(), "password"); gen::same(*a.notes(), *b.notes(), "notes");
  kp_check(a.creation_time() == b.creation_time(), "entry creation time"); kp_check(a.modification_time() == b.modification_time(), "entry modification time");
  kp_check(a.access_time() == b.access_time(), "entry access time"); kp_check(a.expiry_time() == b.expiry_time(), "entry expiry time");
  kp_check(a.attachments().size() == b.attachments().size(), "number of attachments");
  if (a.attachments().size() == 1 && b.attachments().size() == 1) {
    gen::same(a.attachments()[0]->name(), b.attachments()[0]->name(), "attachment name");
    Str x, y; if (auto p = a.attachments()[0]->binary()) x = *p->data(); if (auto p = b.attachments()[0]->binary()) y = *p->data();
    gen::same(x, y, "attachment data");
  }
}
inline void cmp_tree(const Group &a, const Group &b) {
  kp_check(a.Groups().size() == b.Groups().size(), "number of sub-groups"); kp_check(a.Entries().size() == b.Entries().size(), "number of entries");
  for (size_t i = 0; i < a.Groups().size() && i < b.Groups().size(); i++) { cmp_group(*a.Groups()[i], *b.Groups()[i]); cmp_tree(*a.Groups()[i], *b.Groups()[i]); }
  for (size_t i = 0; i < a.Entries().size() && i < b.Entries().size(); i++) cmp_entry(*a.Entries()[i], *b.Entries()[i]);
}
inline void cmp_db(const Database &a, const Database &b) {
  kp_check(a.cipher() == b.cipher(), "cipher"); gen::same(a.master_seed(), b.master_seed(), "master seed"); gen::same(a.init_vector(), b.init_vector(), "initialisation vector");
  gen::same(a.transform_seed(), b.transform_seed(), "transform seed"); kp_check(a.transform_rounds() == b.transform_rounds(), "transform rounds");
  kp_check(!!b.root(), "root"); cmp_tree(*a.root(), *b.root());
}
}
