// C19: files written by the library decode with an independent codec to the exported content, and the other way round.
// params: format/direction (0 KDBX written by the library, 1 KDBX written by the independent codec), kind, index, n, prot, compress, key kind, block size, style
#include "kdbxspec.h"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
extern "C" void kp_main() {
  kp_crypto_mode(0);
  uint64_t kind = P(1), idx = P(2), n = P(3), kk = P(6) ? P(6) : 1;
  gen::Sel s; s.n = n; s.prot = P(4); if (kind == 2) s.nmax = 256;
  (kind == 0 ? s.text : kind == 1 ? s.time : kind == 2 ? s.num : kind == 3 ? s.flag : kind == 4 ? s.id : s.data) = kind < 6 ? (int)idx : -1;
  Database db; gen::fixed_params(db, P(5)); style() = (unsigned)P(8); if (kind == 8) gen::shape(db, (unsigned)idx, (unsigned)n); else if (P(8)) gen::lite(db, s); else gen::rich(db, s);
  gen::KeySpec ks = gen::keyspec(kk, kind == 6 ? 5 : 0); if (kind != 6 && (kk & 1)) ks.pass = "pw";
  if (kind == 6) { db.set_master_seed(kp::vec(32, "mseed")); db.set_init_vector(gen::a16("iv")); db.set_transform_seed(gen::a32("tseed")); db.set_transform_rounds(n); }
  Key key = gen::mkkey(ks, kk);
  if (P(0) == 0) {
    KdbxFile f; f.Export(kp::path("a.kdbx"), db, key);
    Str file = kp::get("a.kdbx"); Header h; Str xml, hash, hash2; El root;
    if (!open(file, ks, h, xml, hash)) { kp_fail("assert", "the file does not decode"); return; }
    kp_reach("decoded");
    Reader r(xml); if (!r.read(root)) { kp_fail("assert", "the XML is not well-formed"); return; }
    Masker m(h.pkey); if (!unmask(root, m)) { kp_fail("assert", "protected text is not base64"); return; }
    Mapper mp; auto d2 = mp.database(root, h, hash2);
    if (mp.bad) { kp_debug(mp.bad, 0); kp_fail("assert", "the XML does not describe a database"); return; }
    gen::same(hash, hash2, "header hash"); gen::cmp_kdbx(db, *d2);
  } else {
    kp::put("b.kdbx", write_file(db, ks, P(7) ? P(7) : 1 << 20));
    KdbxFile f; auto d2 = f.Import(kp::path("b.kdbx"), key);
    gen::cmp_kdbx(db, *d2);
  }
  kp_reach("done");
}
