// C02: KDBX export followed by import gives back the database.
// params: kind of symbolic field (0 text 1 time 2 number 3 flags 4 id 5 data 6 parameters+key 7 none 8 structure), index, length, protected, compress, key kind, cycles
#include "kdbxgen.h"
#include "kdbx.hh"
using namespace keepass;
using gen::Str;
extern "C" void kp_main() {
  uint64_t kind = kp_param(0), idx = kp_param(1), n = kp_param(2), prot = kp_param(3), comp = kp_param(4), kk = kp_param(5), cycles = kp_param(6);
  kp_crypto_mode(0);
  if (!kk) kk = 1;
  gen::Sel s; s.n = n; s.prot = prot; if (kind == 2) {
    static const uint64_t bases[] = {0, 0x7fffff00, 0xffffff00, 0x3b9aca00 - 0x100, 0x100000000ull, 0x7fffffffffffff00ull, 0xffffffffffffff00ull};
    s.nmax = n; s.nbase = bases[prot]; prot = 0; s.prot = false;
  }
  (kind == 0 ? s.text : kind == 1 ? s.time : kind == 2 ? s.num : kind == 3 ? s.flag : kind == 4 ? s.id : s.data) = kind < 6 ? (int)idx : -1;
  Database db; gen::fixed_params(db, comp); if (kind == 8) gen::shape(db, (unsigned)idx, (unsigned)n); else gen::rich(db, s);
  gen::KeySpec ks;
  if (kind == 6) {
    db.set_master_seed(kp::vec(idx, "mseed")); db.set_init_vector(gen::a16("iv")); db.set_transform_seed(gen::a32("tseed")); db.set_transform_rounds(n);
    if (prot) {   // protected stream key too, with nothing to protect
      db.set_inner_random_stream_key(gen::a32("ikey")); auto r = std::make_shared<Group>(); db.set_root(r); auto m = std::make_shared<Metadata>(); db.set_meta(m);
    }
    ks = gen::keyspec(kk, 5);
  } else { ks = gen::keyspec(kk, 0); if (kk & 1) ks.pass = "pw"; }
  if (kp_param(7)) { kp_debug("text", s.ntext); kp_debug("time", s.ntime); kp_debug("num", s.nnum); kp_debug("flag", s.nflag); kp_debug("id", s.nid); kp_debug("data", s.ndata); }
  Key key = gen::mkkey(ks, kk);
  KdbxFile f; f.Export(kp::path("a.kdbx"), db, key);
  kp_reach("exported");
  std::unique_ptr<Database> d2 = f.Import(kp::path("a.kdbx"), key);
  gen::cmp_kdbx(db, *d2);
  for (unsigned c = 0; c < cycles; c++) {
    KdbxFile f2; f2.Export(kp::path("b.kdbx"), *d2, key); KdbxFile f3; d2 = f3.Import(kp::path("b.kdbx"), key); gen::cmp_kdbx(db, *d2);
  }
  kp_reach("done");
}
