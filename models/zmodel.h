// Contract model of zlib's streaming interface, shared by the symbolic build and by native replays of
// counterexamples that depend on how zlib splits its work.  The "compressed" format is a gzip-like magic,
// length-prefixed literal chunks, run-length chunks for long runs of one byte, an end marker and a one-byte checksum;
// what the model keeps from zlib is its streaming contract (partial consumption, partial production, output that expands
// far beyond the input, return codes, end of stream).  Modes: 0 as one-shot as possible; 1 consumption and production are
// split at will; 2 (added) calls may fail with a memory or data error; 4 (added) only chunks of up to 20 bytes are valid; 8 (added) at most
// seven split decisions.
#pragma once
#include <zlib.h>
#include <cstdlib>
#include <cstring>
#include "../harness/kp.h"
struct internal_state {        // zlib's opaque state type
  int deflating, finished, phase; unsigned clen; unsigned char sum;
  unsigned char *in; unsigned long inlen, incap;      // deflate: literals not yet encoded
  unsigned char *out; unsigned long outpos, outlen, outcap;   // encoded/decoded bytes not yet delivered
};
static int g_kpz_mode = 0, g_kpz_used = 0;
extern "C" void kp_zlib_mode(int m) { g_kpz_mode = m; g_kpz_used = 0; }
static uint64_t kpz_pick(uint64_t n, const char *name) { if ((g_kpz_mode & 8) && g_kpz_used >= 7) return 0; g_kpz_used++; return kp_choose(n, name); }
static void kpz_grow(unsigned char *&p, unsigned long &cap, unsigned long need) {
  if (need <= cap) return;
  unsigned long nc = cap ? cap : 64; while (nc < need) nc *= 2;
  unsigned char *q = (unsigned char *)malloc(nc); if (p) { memcpy(q, p, cap); free(p); } p = q; cap = nc;
}
static void kpz_emit(internal_state *s, unsigned char c) { kpz_grow(s->out, s->outcap, s->outlen + 1); s->out[s->outlen++] = c; }
static internal_state *kpz_new(int d) { internal_state *s = (internal_state *)malloc(sizeof(internal_state)); memset(s, 0, sizeof *s); s->deflating = d; return s; }
static int kpz_end(z_streamp z) {
  if (!z || !z->state) return Z_STREAM_ERROR;
  internal_state *s = (internal_state *)z->state; free(s->in); free(s->out); free(s); z->state = Z_NULL; return Z_OK;
}
static void kpz_deliver(z_streamp z, internal_state *s, unsigned long limit) {
  unsigned long n = s->outlen - s->outpos; if (n > z->avail_out) n = z->avail_out; if (n > limit) n = limit;
  if (n) memcpy(z->next_out, s->out + s->outpos, n);
  s->outpos += n; z->next_out += n; z->avail_out -= n; z->total_out += n;
  if (s->outpos == s->outlen) s->outpos = s->outlen = 0;
}
static int kpz_run(const unsigned char *p, unsigned long n) {
  if (n < 256 || kp_any_symbolic(p, 256)) return 0;
  return memcmp(p, p + 1, 255) == 0;
}
static void kpz_chunk(internal_state *s) {   // encode buffered literals
  unsigned long p = 0;
  while (p < s->inlen) {
    if (kpz_run(s->in + p, s->inlen - p)) {      // whole 256-byte runs of one byte
      unsigned long n = 256; while (n < 32768 - 256 && kpz_run(s->in + p + n, s->inlen - p - n) && s->in[p + n] == s->in[p]) n += 256;
      kpz_emit(s, n & 0xff); kpz_emit(s, 0x80 | n >> 8); kpz_emit(s, s->in[p]); p += n; continue;
    }
    unsigned long n = s->inlen - p; if (n > 32767) n = 32767;
    for (unsigned long k = 64; k < n; k += 64) if (kpz_run(s->in + p + k, s->inlen - p - k)) n = k;
    kpz_emit(s, n & 0xff); kpz_emit(s, n >> 8);
    kpz_grow(s->out, s->outcap, s->outlen + n); memcpy(s->out + s->outlen, s->in + p, n); s->outlen += n;
    p += n;
  }
  s->inlen = 0;
}
static int kpz_deflate(z_streamp z, int flush) {
  internal_state *s = (internal_state *)z->state;
  if (!s || !s->deflating || (z->avail_in && !z->next_in) || !z->next_out) return Z_STREAM_ERROR;
  if (s->finished && s->outpos == s->outlen) return flush == Z_FINISH && !z->avail_in ? Z_STREAM_END : Z_BUF_ERROR;
  if (!s->phase) { kpz_emit(s, 0x1f); kpz_emit(s, 0x8b); s->phase = 1; }
  if (!s->finished) {
    // input is taken in pieces, as long as there is room for the output they led to
    while (z->avail_in && s->outlen - s->outpos <= z->avail_out) {
      unsigned n = z->avail_in < 4096 ? z->avail_in : 4096;
      kpz_grow(s->in, s->incap, s->inlen + n + 1);
      for (unsigned i = 0; i < n; i++) { s->in[s->inlen++] = z->next_in[i]; s->sum ^= z->next_in[i]; }
      z->total_in += n; z->next_in += n; z->avail_in -= n;
      if (s->inlen >= 32768 || flush != Z_NO_FLUSH || ((g_kpz_mode & 1) && kpz_pick(2, "deflate_emit"))) kpz_chunk(s);
    }
    if (flush == Z_FINISH && !z->avail_in) { kpz_chunk(s); kpz_emit(s, 0); kpz_emit(s, 0); kpz_emit(s, s->sum); s->finished = 1; }
  }
  if ((g_kpz_mode & 2) && kp_choose(2, "deflate_fails")) return Z_MEM_ERROR;
  unsigned long before = z->avail_out;
  kpz_deliver(z, s, ~0ul);
  if (s->finished && s->outlen == 0) return Z_STREAM_END;
  return before == 0 && flush != Z_FINISH ? Z_BUF_ERROR : Z_OK;
}
// decode one byte of the encoded stream
static int kpz_byte(internal_state *s, unsigned char c) {
  switch (s->phase) {
    case 0: if (c != 0x1f) return Z_DATA_ERROR; s->phase = 1; return Z_OK;
    case 1: if (c != 0x8b) return Z_DATA_ERROR; s->phase = 2; return Z_OK;
    case 2: s->clen = c; s->phase = 3; return Z_OK;
    case 3: s->clen |= (unsigned)c << 8; if ((g_kpz_mode & 4) && (s->clen & 0x7fff) > 20) return Z_DATA_ERROR; s->clen = (unsigned)kp_concretize(s->clen); s->phase = s->clen == 0 ? 5 : s->clen & 0x8000 ? 6 : 4; s->clen &= 0x7fff; return s->phase == 6 && !s->clen ? Z_DATA_ERROR : Z_OK;
    case 6: s->phase = 2; for (; s->clen; s->clen--) { kpz_emit(s, c); s->sum ^= c; } return Z_OK;
    case 4: kpz_emit(s, c); s->sum ^= c; if (--s->clen == 0) s->phase = 2; return Z_OK;
    case 5: if (c != s->sum) return Z_DATA_ERROR; s->finished = 1; return Z_OK;
  }
  return Z_STREAM_ERROR;
}
static int kpz_inflate(z_streamp z, int flush) {
  (void)flush;
  internal_state *s = (internal_state *)z->state;
  if (!s || s->deflating || (z->avail_in && !z->next_in) || !z->next_out) return Z_STREAM_ERROR;
  if ((g_kpz_mode & 2) && kp_choose(2, "inflate_fails")) return kp_choose(2, "inflate_error") ? Z_MEM_ERROR : Z_DATA_ERROR;
  unsigned in0 = z->avail_in, out0 = z->avail_out;
  // how much of the available input this call looks at: all of it, or (mode 1) possibly just one byte
  unsigned budget = z->avail_in;
  if ((g_kpz_mode & 1) && budget > 1) { uint64_t c = kpz_pick(3, "inflate_in"); if (c == 1) budget = 1; if (c == 2) budget = (budget + 1) / 2; }
  while (budget && !s->finished && s->outlen - s->outpos < z->avail_out) {
    int r = kpz_byte(s, *z->next_in);
    if (r != Z_OK) { kpz_deliver(z, s, ~0ul); return r; }
    z->next_in++; z->avail_in--; z->total_in++; budget--;
  }
  kpz_deliver(z, s, ~0ul);
  if (s->finished && s->outlen == 0) return Z_STREAM_END;
  return z->avail_in == in0 && z->avail_out == out0 ? Z_BUF_ERROR : Z_OK;
}
