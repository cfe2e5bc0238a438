// C21: protected texts are only stored masked by the protected stream, each by bytes of its own, and nothing else in the
// document depends on them.  params: n (texts of 0..n characters), salt, compress, cycles, key kind
#include "kdbxspec.h"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
static void clear_texts(const El &e, std::vector<const El *> &v) { v.push_back(&e); for (auto &k : e.kids) clear_texts(k, v); }
static void open_text(const Str &s, const char *what) { kp_check(!kp_any_symbolic(s.data(), s.size()), what); }
static size_t g_masked;
// `want` is the same document with the texts in the clear
static void check_file(const char *name, const gen::KeySpec &ks, const Database &db) {
  Header h; Str xml, hash; El root;
  if (!open(kp::get(name), ks, h, xml, hash)) { kp_fail("assert", "the file does not decode"); return; }
  Reader r(xml); if (!r.read(root)) { kp_fail("assert", "the XML is not well-formed"); return; }
  std::vector<const El *> els; clear_texts(root, els);
  El plain = root; Masker m(h.pkey); if (!unmask(plain, m)) { kp_fail("assert", "masked text is not base64"); return; }
  for (auto e : els) {
    open_text(e->name, "element name depends on a protected text"); for (auto &a : e->attrs) open_text(a.first + "=" + a.second, "attribute depends on a protected text");
    if (e->attr("Protected") != "True") { open_text(e->text, "protected text outside a masked element"); continue; }
    g_masked++;
  }
  // what is unmasked in document order, with key stream bytes used once each, is exactly what was protected
  Mapper mp; Str h2; auto d2 = mp.database(plain, h, h2); if (mp.bad) { kp_fail("assert", "the XML does not describe a database"); return; }
  gen::cmp_kdbx(db, *d2);
}
extern "C" void kp_main() {
  kp_crypto_mode(0);
  gen::Sel s; s.n = P(0); s.secrets = true; s.salt = P(1);
  Database db; gen::fixed_params(db, P(2)); gen::rich(db, s);
  gen::KeySpec ks = gen::keyspec(P(4), 0); if (P(4) & 1) ks.pass = "pw"; Key key = gen::mkkey(ks, P(4));
  KdbxFile f; f.Export(kp::path("a.kdbx"), db, key); check_file("a.kdbx", ks, db);
  kp_reach("exported"); kp_check(g_masked > 40, "protected texts are masked");
  if (P(3)) { auto d2 = f.Import(kp::path("a.kdbx"), key); f.Export(kp::path("b.kdbx"), *d2, key); check_file("b.kdbx", ks, db); }
  kp_reach("done");
}
