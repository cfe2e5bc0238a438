// C01: KDB export followed by import gives back the database.
#include "kdbcmp.h"
#include "kdb.hh"
using namespace keepass;
using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
static void fill_group(Group &g, size_t nlen, int tmode) {
  g.set_name(gen::text(nlen, "gname")); g.set_icon(kp::u32("gicon")); g.set_flags(kp::u16("gflags"));
  if (tmode) { g.set_creation_time(gen::time("gct")); g.set_modification_time(gen::time("gmt")); g.set_access_time(gen::time("gat")); g.set_expiry_time(gen::time("get")); }
}
static Str num(uint64_t i) { Str s; do { s.insert(s.begin(), (char)('0' + i % 10)); i /= 10; } while (i); return s; }
using kdbcmp::cmp_db;
extern "C" void kp_main() {
  uint64_t mode = P(0), cip = P(1), kk = P(2), rounds = P(3);
  kp_crypto_mode(0);
  Database db; auto root = std::make_shared<Group>(); db.set_root(root);
  std::array<uint8_t, 16> ms, iv; std::array<uint8_t, 32> ts;
  gen::KeySpec ks;
  if (cip) {     // Twofish over ideal hashes of symbolic data would be a symbolic key schedule for nothing: C09 covers all keys
    for (int i = 0; i < 32; i++) { ts[i] = 3 * i + 1; if (i < 16) { ms[i] = 5 * i + 2; iv[i] = 11 * i; } }
    ks = gen::keyspec(kk, 0); if (kk & 1) ks.pass = "pa\xc3\x9f";
  } else { ms = gen::a16("mseed"); iv = gen::a16("iv"); ts = gen::a32("tseed"); ks = gen::keyspec(kk, 1 + rounds * 3); }
  db.set_master_seed(ms); db.set_init_vector(iv); db.set_transform_seed(ts); db.set_transform_rounds(rounds);
  db.set_cipher(cip ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  std::vector<std::shared_ptr<Group>> gs{root};
  int cycles = 1;
  if (mode == 0) {            // every tree of P(4) groups, every placement of P(5) entries
    for (unsigned i = 0; i < P(4); i++) {
      auto g = std::make_shared<Group>(); g->set_name("g" + num(i)); g->set_icon(kp::u32("gicon")); g->set_flags(kp::u16("gflags"));
      uint64_t p = i < P(6) ? P(7 + i) : kp_choose(gs.size(), "parent"); gs[p]->AddGroup(g); gs.push_back(g);
    }
    for (unsigned i = 0; i < P(5); i++) {
      auto e = std::make_shared<Entry>(); e->set_uuid(gen::a16("uuid")); e->set_title(gen::plain("e" + num(i)));
      gs[1 + kp_choose(gs.size() - 1, "where")]->AddEntry(e);
    }
  } else if (mode == 1) {     // every field symbolic: lengths of gname, title, url, user, password, notes; attachment name, data (99: no attachment), cycles
    auto g = std::make_shared<Group>(); fill_group(*g, P(4), 1); root->AddGroup(g);
    auto e = std::make_shared<Entry>(); e->set_uuid(gen::a16("uuid")); e->set_icon(kp::u32("icon"));
    e->set_title(gen::plain(gen::text(P(5), "title"))); e->set_url(gen::plain(gen::text(P(6), "url"))); e->set_username(gen::plain(gen::text(P(7), "user")));
    e->set_password(gen::plain(gen::text(P(8), "password"))); e->set_notes(gen::plain(gen::text(P(9), "notes")));
    e->set_creation_time(gen::time("ect")); e->set_modification_time(gen::time("emt")); e->set_access_time(gen::time("eat")); e->set_expiry_time(gen::time("eet"));
    if (P(10) != 99) {
      auto a = std::make_shared<Entry::Attachment>(); a->set_name(gen::text(P(10), "aname"));
      a->set_binary(std::make_shared<Binary>(gen::plain(gen::data(P(11), "adata")))); e->AddAttachment(a);
    }
    g->AddEntry(e);
    auto e2 = std::make_shared<Entry>(); e2->set_uuid(gen::a16("uuid")); e2->set_title(gen::plain(gen::text(1, "title"))); g->AddEntry(e2);
    cycles = 1 + (int)P(12);
  } else if (mode == 4) {     // fixed texts (of lengths P(4) and P(5)), symbolic icon of the last entry: the Twofish counterpart
    auto g = std::make_shared<Group>(); g->set_name(Str(P(4), 'n')); g->set_icon(7); g->set_creation_time(1234567); root->AddGroup(g);
    auto e = std::make_shared<Entry>(); e->set_title(gen::plain(Str(P(5), 't'))); e->set_password(gen::plain("secret")); e->set_icon(kp::u32("icon"));
    g->AddEntry(e);
  } else if (mode == 2) {     // a chain of P(4) groups, with an entry in every P(5)-th
    std::shared_ptr<Group> cur = root;
    for (unsigned i = 0; i < P(4); i++) {
      auto g = std::make_shared<Group>(); g->set_name(num(i)); if (i % 64 == 63) g->set_icon(kp::u32("gicon")); cur->AddGroup(g); cur = g;
      if (i % P(5) == P(5) - 1) { auto e = std::make_shared<Entry>(); e->set_title(gen::plain("e" + num(i))); e->set_icon(kp::u32("icon")); g->AddEntry(e); }
    }
  } else {                    // P(4) sibling groups, the last but one with P(5) entries and a child after them
    for (unsigned i = 0; i < P(4); i++) {
      auto g = std::make_shared<Group>(); g->set_name(num(i)); g->set_flags(kp::u16("gflags")); root->AddGroup(g);
      if (i + 2 == P(4)) {
        auto c = std::make_shared<Group>(); c->set_name("child"); g->AddGroup(c);
        auto ce = std::make_shared<Entry>(); ce->set_title(gen::plain("in child")); c->AddEntry(ce);
        for (unsigned j = 0; j < P(5); j++) { auto e = std::make_shared<Entry>(); e->set_title(gen::plain("e" + num(j))); if (j % 50 == 0) e->set_icon(kp::u32("icon")); g->AddEntry(e); }
      }
    }
  }
  Key key = gen::mkkey(ks, kk);
  KdbFile f; f.Export(kp::path("a.kdb"), db, key);
  kp_reach("exported");
  std::unique_ptr<Database> d2 = f.Import(kp::path("a.kdb"), key);
  cmp_db(db, *d2);
  for (int c = 1; c < cycles; c++) {
    KdbFile f3; f3.Export(kp::path("b.kdb"), *d2, key);
    std::unique_ptr<Database> d3 = f3.Import(kp::path("b.kdb"), key);
    cmp_db(db, *d3);
    Str x = kp::get("a.kdb"), y = kp::get("b.kdb"); kp_check(x.size() == y.size(), "second save has another size");
  }
  kp_reach("done");
}
