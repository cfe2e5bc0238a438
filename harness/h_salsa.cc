// C10: the inner random stream is Salsa20 and does not depend on how the data is cut into calls.
#include "spec.h"
#include "random.hh"
using namespace keepass;
extern "C" void kp_main() {
  uint64_t mode = kp_param(0);
  std::string key = kp::bytes(32, "key"), iv = kp::bytes(8, "iv");
  if (mode == 0) {
    // blocks of the raw cipher
    uint64_t nb = kp_param(1);
    Salsa20Cipher c(spec::arr<32>(key), spec::arr<8>(iv));
    for (uint64_t i = 0; i < nb; i++) {
      std::string d = kp::bytes(64, "block"); unsigned char ks[64]; std::array<uint8_t, 64> o;
      c.Process(spec::arr<64>(d), o);
      spec::salsa20_block((const unsigned char *)key.data(), (const unsigned char *)iv.data(), i, ks);
      for (int j = 0; j < 64; j++) kp_check(o[j] == (uint8_t)(ks[j] ^ (uint8_t)d[j]), "Salsa20 block differs from the specification");
    }
    kp_reach("done");
  } else {
    // a sequence of calls of the given sizes (param 1..): string or vector variant chosen freely per call
    RandomObfuscator a(spec::arr<32>(key), spec::arr<8>(iv)), b(spec::arr<32>(key), spec::arr<8>(iv));
    std::string all, got; 
    for (int i = 1; kp_param(i) != 999; i++) {
      std::string d = kp::bytes(kp_param(i), "data"), o;
      if (kp_choose(2, "variant")) { std::vector<uint8_t> v(d.begin(), d.end()), r = a.Process(v); o.assign(r.begin(), r.end()); }
      else o = a.Process(d);
      kp_check(o.size() == d.size(), "length changed");
      all += d; got += o;
    }
    std::string ks = spec::salsa20_stream(key, (const unsigned char *)iv.data(), all.size());
    for (size_t i = 0; i < all.size(); i++) kp_check((uint8_t)got[i] == (uint8_t)((uint8_t)all[i] ^ (uint8_t)ks[i]), "stream output differs from Salsa20");
    kp_check(b.Process(got) == all, "applying the stream twice does not restore the data");
    kp_reach("done");
  }
}
