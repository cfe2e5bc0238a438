// C03: an altered file is refused or still gives exactly the exported content.
// params: 0 format (0 KDB, 1 KDBX), 1 written by the library (0) or by an independent program with blocks of this size, 2 compressed / Twofish,
//         3 kind of alteration, 4...: its parameters; the untouched file is imported first
//   0 P5 arbitrary bytes at position P4 + P6 * k, k < P7    1 truncation to P4 + P6 * k bytes, k < P7    2 P4 arbitrary bytes appended
//   3 two cipher blocks exchanged   4 a cipher block removed   5 a cipher block repeated there (P4 = 0), behind it (1) or anywhere (2; block P5 + k, k < P6)   6 P5 arbitrary bytes inserted at P4 + P6 * k   7 P5 bytes at P4 + P6 * k removed
//   9 P5 arbitrary bytes at P6 of the contents of header field number P4 (KDBX)
//   8 P5 arbitrary bytes at P4 of the decrypted content (KDBX: behind the start bytes), its hash kept
#include "kdbxspec.h"
#include "kdbcmp.h"
#include "kdb.hh"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
static const bool kdbx() { return P(0); }
static void import_and_check(const Key &key, const Database &was, bool must, bool refuse = false) {
  std::unique_ptr<Database> db;
  try { if (kdbx()) { KdbxFile f; db = f.Import(kp::path("a.db"), key); } else { KdbFile f; db = f.Import(kp::path("a.db"), key); } }
  catch (const FormatError &) { kp_check(!must, "untouched file refused"); kp_reach("refused"); return; }
  catch (const PasswordError &) { kp_check(!must, "untouched file refused"); kp_reach("refused"); return; }
  catch (const IoError &) { kp_check(!must, "untouched file refused"); kp_reach("refused"); return; }
  catch (const InternalError &) { kp_check(!must, "untouched file refused"); kp_reach("refused"); return; }
  kp_check(!refuse, "an altered header accepted"); kp_reach("imported"); kp_check(!!db, "no database");
  if (kdbx()) gen::cmp_kdbx(was, *db); else kdbcmp::cmp_db(was, *db);
}
static std::shared_ptr<Entry> entry(int i, const char *t) {
  auto e = std::make_shared<Entry>(); std::array<uint8_t, 16> id; for (int k = 0; k < 16; k++) id[k] = (uint8_t)(17 * k + 40 + i); e->set_uuid(id);
  e->set_title(gen::plain(t)); e->set_username(gen::plain("user")); e->set_url(gen::plain("http://x")); e->set_notes(gen::plain(Str("some notes, ") + Str(80, (char)(97 + i)))); e->set_password(protect<Str>("secret", kdbx())); e->set_icon(3 + i); return e;
}
static void base(Database &db) {
  gen::fixed_params(db, kdbx() && P(2)); auto r = std::make_shared<Group>(), g = std::make_shared<Group>(), g2 = std::make_shared<Group>(); db.set_root(r); if (kdbx()) r->set_name("root");
  g->set_name("group"); g2->set_name("second"); r->AddGroup(g); g->AddEntry(entry(0, "title")); if (!kdbx()) { r->AddGroup(g2); g->AddEntry(entry(1, "other")); g2->AddEntry(entry(2, "third")); }
  std::array<uint8_t, 16> id; id.fill(9); g->set_uuid(id);
  if (kdbx()) { auto m = std::make_shared<Metadata>(); m->set_generator("x"); db.set_meta(m); }
  else { std::array<uint8_t, 16> ms; for (int i = 0; i < 16; i++) ms[i] = (uint8_t)(7 * i + 1); db.set_master_seed(ms); if (P(2)) db.set_cipher(Database::Cipher::kTwofish); }
}
static size_t g_body, g_rounds = Str::npos; static std::vector<size_t> g_ids;
static void layout(const Str &f) {
  g_body = 124; if (!kdbx()) return;
  size_t p = 12; for (;;) { size_t n = (uint8_t)f[p + 1] | (size_t)(uint8_t)f[p + 2] << 8; int id = f[p]; g_ids.push_back(p); if (id == ROUNDS) g_rounds = p + 3; p += 3 + n; if (id == END) break; }
  g_body = p;
}
extern "C" void kp_main() {
  kp_crypto_mode(P(3) == 8 ? 4 : 2 | 4);
  gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Key key = gen::mkkey(ks, 1); Database db; base(db); Str file;
  if (!P(1)) { if (kdbx()) { KdbxFile f; f.Export(kp::path("a.db"), db, key); } else { KdbFile f; f.Export(kp::path("a.db"), db, key); } file = kp::get("a.db"); }
  else file = write_file(db, ks, P(1));
  layout(file); kp_debug("size", file.size()); kp_debug("body", g_body);
  kp::put("a.db", file); import_and_check(key, db, true);
  bool head = false; const Str was = file; size_t nb = (file.size() - g_body) / 16, at = P(4); auto blk = [&](size_t i) { return was.substr(g_body + 16 * i, 16); };
  auto where = [&](size_t end) { size_t st = P(6) ? P(6) : 1, n = P(7) ? P(7) : 1; if (at >= end) return end; size_t m = (end - at + st - 1) / st; if (m < n) n = m; return at + st * kp_choose(n, "position"); };
  switch (P(3)) {
    case 0: {
      size_t n = P(5), p = where(file.size() - n + 1); if (p + n > file.size()) { kp_reach("no such place"); return; }
      Str s = kp::bytes(n, "bytes"); unsigned df = 0; for (size_t i = 0; i < n; i++) df |= (uint8_t)(s[i] ^ was[p + i]); kp_assume(df != 0); file.replace(p, n, s); head = p + n <= g_body;
      if (kdbx()) {      // at most 255 rounds
        for (size_t i = 0; i < n; i++) { if (g_rounds != Str::npos && p + i > g_rounds && p + i < g_rounds + 8) kp_assume(file[p + i] == was[p + i]); for (size_t q : g_ids) if (p + i == q) kp_assume(file[q] != ROUNDS || was[q] == ROUNDS); }
        if (p + n > g_body) {      // a garbled block length is small or goes beyond the end of the file
          Str plain, b0, body; spec::AesBlock aes(finalkey(header_of(db), ks)); spec::cbc_dec_raw(aes, spec::str(db.init_vector()), file.substr(g_body), plain); spec::cbc_dec(aes, spec::str(db.init_vector()), was.substr(g_body), b0);
          for (size_t o = 32; o + 40 <= b0.size(); o += 40 + g32(b0, o + 36)) { uint32_t z = g32(plain, o + 36); if (kp_is_symbolic(z)) { kp_assume(z < 4 || z == 80 || z == 0xffff || z == ~0u); for (int i = 36; i < 40; i++) kp_concretize((uint8_t)plain[o + i]); } }
        }
      } else if (p < 124) { if (p < 56 || p + n > 88) kp_fail("harness", "not a part that has to be protected"); }
      break;
    }
    case 1: file.resize(where(file.size())); break;
    case 2: file += kp::bytes(P(4), "bytes"); break;
    case 3: { size_t a = kp_choose(nb - 1, "first"), b = a + 1 + kp_choose(P(4) < nb - 1 - a ? P(4) : nb - 1 - a, "distance"); file.replace(g_body + 16 * a, 16, blk(b)); file.replace(g_body + 16 * b, 16, blk(a)); break; }
    case 4: { size_t a = kp_choose(nb, "block"), n = 1 + kp_choose(P(4), "number"); file.erase(g_body + 16 * a, 16 * n); break; }
    case 5: { size_t a = P(4) < 2 ? kp_choose(nb, "block") : P(5) + kp_choose(P(6), "block"), b = P(4) < 2 ? a + P(4) : kp_choose(nb + 1, "where"); if (a >= nb) { kp_reach("no such place"); return; } file.insert(g_body + 16 * b, blk(a)); break; }
    case 6: { size_t p = where(file.size() + 1); file.insert(p, kp::bytes(P(5), "bytes")); break; }
    case 7: { size_t p = where(file.size()); file.erase(p, P(5)); break; }
    case 9: {      // the contents of header field P4 arbitrary, P5 bytes from P6
      size_t p = g_ids[P(4)], n = (uint8_t)was[p + 1] | (size_t)(uint8_t)was[p + 2] << 8, k = P(5) < n - P(6) ? P(5) : n - P(6); if (was[p] == ROUNDS) k = 1; p += 3 + P(6); Str v = kp::bytes(k, "bytes"); unsigned df = 0; for (size_t i = 0; i < k; i++) df |= (uint8_t)(v[i] ^ was[p + i]); kp_assume(df != 0); file.replace(p, k, v); head = true; break;
    }
    default: {
      Str body, t; if (kdbx()) { if (!spec::cbc_dec(spec::AesBlock(finalkey(header_of(db), ks)), spec::str(db.init_vector()), was.substr(g_body), body)) kp_fail("harness", "own file not understood"); body.replace(at + 32, P(5), kp::bytes(P(5), "bytes")); file = was.substr(0, g_body) + spec::cbc_enc(spec::AesBlock(finalkey(header_of(db), ks)), spec::str(db.init_vector()), body); }
      else {
        kdbspec::Header h; if (!kdbspec::parse(was, h, t)) kp_fail("harness", "own file not understood"); Str k = kdbspec::finalkey(h, ks);
        if (h.flags & 2) { spec::cbc_dec(spec::AesBlock(k), h.iv, t, body); } else spec::cbc_dec(spec::TwofishBlock(k), h.iv, t, body);
        body.replace(at, P(5), kp::bytes(P(5), "bytes")); file = was.substr(0, 124) + (h.flags & 2 ? spec::cbc_enc(spec::AesBlock(k), h.iv, body) : spec::cbc_enc(spec::TwofishBlock(k), h.iv, body));
      }
    }
  }
  kp::put("a.db", file); import_and_check(key, db, false, head);
  // The ideal cipher leaves open what altered blocks decrypt to.  On the real one, try other places and values.
  if (kp_native() && (P(3) == 0 || P(3) == 8)) { uint32_t r = 12345; for (unsigned i = 0; i < 400; i++) { file = was; for (unsigned k = 0; k < 1 + i % 2; k++) { r = r * 1664525 + 1013904223; file[g_body + (r >> 8) % (file.size() - g_body)] ^= 1 << (r & 7); } if (file != was) { kp::put("a.db", file); import_and_check(key, db, false); } } }
  if (kp_native() && P(3) == 9) {
    uint32_t r = 4711; auto rnd = [&](size_t n) { r = r * 1664525 + 1013904223; return (r >> 8) % n; }; size_t ks = g_body; for (size_t q : g_ids) if (was[q] == 8) ks = q + 3;
    for (unsigned i = 0; i < 1500; i++) { file = was; for (unsigned k = 0; k < 1 + i % 3; k++) { size_t p = i % 4 && ks < g_body ? ks + rnd(32) : 12 + rnd(g_body - 12); if (g_rounds == Str::npos || p <= g_rounds || p >= g_rounds + 8) file[p] ^= 1 << rnd(8); } if (file != was) { kp::put("a.db", file); import_and_check(key, db, false, true); } }
  }
  kp_reach("done");
}
