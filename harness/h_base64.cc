// C11 / C16: base64 encoding and decoding.
#include "spec.h"
#include "base64.hh"
#include "iterator.hh"
#include <vector>
using namespace keepass;
static bool decode(const std::string &s, std::string &out) {
  try { out = base64_decode(s); return true; }
  catch (const FormatError &) { kp_reach("rejected"); return false; }
}
extern "C" void kp_main() {
  uint64_t mode = kp_param(0); size_t n = kp_param(1);
  if (mode == 0) {
    std::string s = kp::bytes(n, "data"), e = base64_encode(s), d;
    kp_check(e == spec::b64enc(s), "encoding differs from RFC 4648");
    std::vector<uint8_t> v(s.begin(), s.end());
    kp_check(base64_encode(v.begin(), v.end()) == e, "encoding of an iterator range differs");
    kp_check(decode(e, d), "own encoding rejected");
    kp_check(d == s, "decode(encode(s)) != s");
    kp::observe("enc", e); kp_reach("done");
  } else if (mode == 1) {
    std::string s = kp::bytes(n, "text"), d, r;
    bool a = decode(s, d), b = spec::b64dec(s, r);
    kp_check(a || !b, "valid base64 rejected");
    kp_check(b || !a, "malformed base64 accepted");
    if (a && b) { kp_check(d == r, "decoded value differs from RFC 4648"); kp_reach("decoded"); }
    kp::observe("dec", d);
  } else if (mode == 2) {
    // an encoding with white space inserted at every possible place
    std::string s = kp::bytes(n, "data"), e = spec::b64enc(s), w, d;
    for (char c : e) { if (kp::flag("ws")) { uint8_t x = kp::u8("wsc"); kp_assume(x == ' ' || (x >= 9 && x <= 13)); w += (char)x; } w += c; }
    if (kp::flag("ws")) w += '\n';
    kp_check(decode(w, d), "base64 with white space rejected");
    kp_check(d == s, "white space changes the decoded value");
    kp_reach("done");
  } else {
    // decoding into a fixed-size array: nothing outside it is written, too much data is refused
    std::array<uint8_t, 4> g0, a, g1; a.fill(0x5a); g0.fill(1); g1.fill(2);
    std::string s = kp::bytes(n, "data"), e = spec::b64enc(s); bool threw = false;
    try { base64_decode(e, bounds_checked(a)); } catch (const std::out_of_range &) { threw = true; kp_reach("refused"); }
    kp_check(threw == (n > 4), "over-long data not refused, or fitting data refused");
    for (size_t i = 0; i < 4; i++) kp_check(a[i] == (i < n ? (uint8_t)s[i] : 0x5a), "fixed-size destination has wrong content");
    kp_reach("done");
  }
}
