// C17: a save that could not be completed is reported.
// params: format (0 KDB, 1 KDBX), fault (0 writes fail from a byte on, 1 one write call fails, 2 closing fails, 3 cannot be opened),
//         what is large (0 nothing, 1 a text or attachment, 2 the master seed of KDBX), its size, compressed, cipher of KDB, the destination exists
#include "kdbxgen.h"
#include "kdb.hh"
#include "kdbx.hh"
using namespace keepass; using gen::Str;
static uint64_t P(int i) { return kp_param(i); }
static void save(const char *n, const Database &db, const Key &key) { if (P(0)) { KdbxFile f; f.Export(kp::path(n), db, key); } else { KdbFile f; f.Export(kp::path(n), db, key); } }
static std::unique_ptr<Database> load(const char *n, const Key &key) { if (P(0)) { KdbxFile f; return f.Import(kp::path(n), key); } KdbFile f; return f.Import(kp::path(n), key); }
static Str filler(size_t n) { Str s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)('a' + (i * 7 + i / 97) % 26); return s; }
extern "C" void kp_main() {
  kp_crypto_mode(0);
  Database db; Str big = P(2) == 1 ? filler(P(3)) : Str("notes");
  if (P(0)) {
    gen::Sel s; gen::lite(db, s); gen::fixed_params(db, P(4)); db.root()->Entries()[0]->set_notes(gen::plain(big));
    if (P(2) == 2) { Str f = filler(P(3)); db.set_master_seed(std::vector<uint8_t>(f.begin(), f.end())); }
  } else {
    auto r = std::make_shared<Group>(), g = std::make_shared<Group>(); db.set_root(r); r->AddGroup(g); g->set_name("group"); auto e = std::make_shared<Entry>(); e->set_title(gen::plain("title")); e->set_notes(gen::plain(big)); g->AddEntry(e);
    gen::fixed_params(db, false); db.set_master_seed(std::array<uint8_t, 16>{{1, 2, 3}}); db.set_cipher(P(5) ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  }
  Key key; key.SetPassword("password");
  save("good.db", db, key); size_t n = kp_fs_size("good.db"); kp_check(n > 200 + (P(4) ? 0 : big.size()), "file too small");
  if (P(6)) kp::put("out.db", filler(P(6)));
  if (P(1) == 3) { bool t = false; try { save("none/out.db", db, key); } catch (const IoError &) { t = true; } kp_check(t, "destination that cannot be opened not reported"); kp_reach("reported"); return; }
  uint32_t limit = kp::u32("bytes"); if (P(1) == 2) limit = 0; else kp_assume(limit <= n + 3);
  kp_fs_fault(P(1) == 2 ? ~0ull : limit, (int)P(1)); bool thrown = false;
  try { save("out.db", db, key); } catch (const std::exception &) { thrown = true; }
  kp_fs_fault(~0ull, 0);
  if (thrown) { kp_check(P(1) == 2 || P(4) || limit < n, "failure reported for a complete file"); kp_reach("reported"); save("out.db", db, key); }
  else { if (!P(1) && !P(4)) kp_check(limit >= n, "incomplete file not reported"); else if (P(1) == 2) kp_check(0, "error on closing not reported"); kp_reach("written"); }
  kp_check(P(4) || kp_fs_size("out.db") == n, "file size");     // compressed: the header hash inside changes the size
  auto d = load("out.db", key); auto &r = *d->root(); const Group &g = P(0) ? r : *r.Groups()[0];
  gen::same(*g.Entries()[0]->notes(), big, "content of the file"); gen::same(*g.Entries()[0]->title(), "title", "content of the file"); kp_reach("done");
}
