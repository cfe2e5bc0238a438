// C20: wrong keys, foreign files and missing files are told apart.
// params: mode 0: format, kind of the key (bits as gen::keyspec), kind of the wrong key, length of the passwords, compressed / cipher, both: which differs (0 password, 1 file)
//         mode 1: format, field (0 first signature word, 1 second, 2 version, 3 cipher, 4 compression, 5 protected stream, 6 all three first words)
//         mode 2: format, length of an arbitrary file
//         mode 3: format: missing file, file of the other format
#include "kdbxspec.h"
#include "kdb.hh"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
enum Err { NONE, NOTFOUND, FORMAT, PASSWORD, IO, INTERNAL };
static std::unique_ptr<Database> g_out;
static Err import(bool kdbx, const char *n, const Key &k) {
  try { if (kdbx) { KdbxFile f; g_out = f.Import(kp::path(n), k); } else { KdbFile f; g_out = f.Import(kp::path(n), k); } }
  catch (const FileNotFoundError &) { return NOTFOUND; } catch (const FormatError &) { return FORMAT; } catch (const PasswordError &) { return PASSWORD; } catch (const IoError &) { return IO; } catch (const InternalError &) { return INTERNAL; }
  return NONE;
}
static bool eq(const Str &a, const Str &b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)a[i] ^ (uint8_t)b[i]; return d == 0; }
static gen::KeySpec secrets(uint64_t kind, size_t n) { gen::KeySpec k; k.has_pass = kind & 1; k.has_file = kind & 2; if (k.has_pass) k.pass = kp::bytes(n, "pass"); if (k.has_file) k.file = kp::bytes(32, "keyfile"); return k; }
static void base(bool kdbx, Database &db, unsigned it) {
  gen::fixed_params(db, kdbx && P(5)); std::array<uint8_t, 32> ts = db.transform_seed(); ts[3] = (uint8_t)it; ts[7] = (uint8_t)(it >> 8); db.set_transform_seed(ts);
  auto r = std::make_shared<Group>(), g = std::make_shared<Group>(); db.set_root(r); g->set_name("group"); r->AddGroup(g); auto e = std::make_shared<Entry>(); e->set_title(gen::plain("title")); g->AddEntry(e);
  if (kdbx) db.set_meta(std::make_shared<Metadata>()); else db.set_master_seed(std::array<uint8_t, 16>{{1, 2, 3}});
}
static void save(bool kdbx, Database &db, const Key &k) { if (kdbx) { KdbxFile f; f.Export(kp::path("a.db"), db, k); } else { KdbFile f; f.Export(kp::path("a.db"), db, k); } }
extern "C" void kp_main() {
  bool kdbx = P(1); uint64_t mode = P(0); kp_crypto_mode(mode == 0 ? 2 : 0);
  if (mode == 0) {
    gen::KeySpec a = secrets(P(2), P(4)), b = secrets(P(3), P(4));
    if (a.has_pass && b.has_pass && a.has_file && b.has_file) { if (P(6)) b.pass = a.pass; else b.file = a.file; }
    Str ca = kdbx ? "" : kdbspec::kdb_composite(a), cb = kdbx ? "" : kdbspec::kdb_composite(b);
    if (P(2) % 4 == P(3) % 4) kp_assume(!(eq(a.pass, b.pass) && eq(a.file, b.file)));
    else if (!kdbx && a.has_pass != b.has_pass) { kp_assume(!eq(ca.size() ? ca : Str(32, 0), cb.size() ? cb : Str(32, 0))); }      // a key file that holds the hash of the password, ...
    else if (kdbx) { Str x, y; if (a.has_pass) x += spec::sha256(a.pass); if (a.has_file) x += a.file; if (b.has_pass) y += spec::sha256(b.pass); if (b.has_file) y += b.file; kp_assume(!eq(x, y)); }
    Key ka = gen::mkkey(a, P(2)), kb = gen::mkkey(b, P(3));
    // The ideal ciphers leave open what a wrong key decrypts to; on the real ones, one of 256 files has valid padding then.
    for (unsigned it = 0; it < (kp_native() ? 700u : 1u); it++) {
      Database db; base(kdbx, db, it); save(kdbx, db, ka); Err e = import(kdbx, "a.db", kb);
      kp_check(e != NONE, "imported with a wrong key"); kp_check(e == PASSWORD, "wrong key not reported as a wrong password");
      if (it == 0) { e = import(kdbx, "a.db", ka); kp_check(e == NONE, "right key refused"); }
    }
    kp_reach("refused"); return;
  }
  Key key; key.SetPassword("pw"); gen::KeySpec ks; ks.has_pass = true; ks.pass = "pw"; Err e;
  if (mode == 1) {
    Str file; size_t at = 0, n = 4; uint32_t v; Header h; bool tell = true, good = false;
    if (kdbx) { Database db; base(true, db, 0); h = header_of(db); if (P(2) == 4) h.comp = Str(4, 0); file = write_file(db, ks); if (P(2) == 3) { at = 12 + 3; n = 16; } else at = P(2) == 6 ? 0 : 4 * P(2); }
    else { Database db; base(false, db, 0); save(false, db, key); file = kp::get("a.db"); at = P(2) == 0 || P(2) == 6 ? 0 : P(2) == 1 ? 4 : P(2) == 2 ? 12 : 8; }
    if (P(2) == 6) n = 12;
    if (kdbx && P(2) >= 4 && P(2) < 6) { for (size_t p = 12; p + 3 <= file.size(); p += 3 + ((uint8_t)file[p + 1] | (size_t)(uint8_t)file[p + 2] << 8)) if (file[p] == (char)(P(2) == 4 ? 3 : 10)) { at = p + 3; break; } else if (!file[p]) break; }
    Str s = kp::bytes(n, "field"), was = file.substr(at, n); file.replace(at, n, s); v = kdbspec::g32(s, 0); bool same = eq(s, was); kp::put("a.db", file); e = import(kdbx, "a.db", key);
    switch (P(2)) {
      case 0: case 1: good = same; break;
      case 6: good = same; if (!kp_concretize(same)) tell = !eq(s.substr(0, 8), was.substr(0, 8)); break;       // the signature matches: the version decides
      case 2: good = kdbx ? v >> 16 == 3 : v >> 8 == 0x300; if (kdbx) tell = v >> 16 > 3 || v == 0x30001; break;
      case 3: if (kdbx) good = same; else { good = (v & 2) != 0; tell = (v & 10) != 8; if (!tell) kp_check(e == PASSWORD || e == FORMAT, "AES content with the Twofish flag"); } break;
      case 4: good = v <= 1; tell = v != 1; break;
      case 5: good = v == 2; break;
    }
    if (tell) { if (kp_concretize(good)) { kp_reach("accepted"); kp_check(kdbx && P(2) > 1 && !kp_concretize(same) ? e == FORMAT || e == NONE : e == NONE, "good file refused"); } else { kp_reach("refused"); kp_check(e == FORMAT, "foreign file not reported as a format error"); } }
    else kp_check(e != NOTFOUND, "altered file");
  } else if (mode == 2) {
    Str s = kp::bytes(P(2), "file"), sig = kdbspec::n32(0x9aa2d903) + kdbspec::n32(kdbx ? 0xb54bfb67 : 0xb54bfb65); if (s.size() >= 8) kp_assume(!eq(s.substr(0, 8), sig)); kp::put("a.db", s);
    e = import(kdbx, "a.db", key); kp_check(e == FORMAT, "foreign file not reported as a format error"); kp_reach("refused");
  } else {
    kp_check(import(kdbx, "none.db", key) == NOTFOUND, "missing file not reported as not found"); Database db; base(!kdbx, db, 0); save(!kdbx, db, key); kp_check(import(kdbx, "a.db", key) == FORMAT, "file of the other format not reported as a format error"); kp_reach("refused");
  }
}
