#pragma once
// zlib is not part of the encoded code.  In the symbolic build it is replaced by this model of its contract,
// restricted to stored blocks (a valid zlib stream, so that a replay against the real library behaves alike):
// deflate emits stored blocks, inflate accepts them and reports anything else as a data error.
#include "common.h"
#include <zlib.h>
static inline void be32(string& s, uint32_t v) { for (int i = 24; i >= 0; i -= 8) s.push_back((char)(v >> i)); }
// a zlib stream of one stored block
static inline string zstored(const string& d)
{
    string s("\x78\x01\x01", 3); unsigned n = (unsigned)d.size();
    s.push_back((char)n); s.push_back((char)(n >> 8)); s.push_back((char)~n); s.push_back((char)(~n >> 8)); s += d;
    uint32_t a = 1, b = 0;
    if (__sx_native()) for (unsigned char c : d) { a = (a + c) % 65521; b = (b + a) % 65521; }     // the model does not look at it
    be32(s, b << 16 | a);
    return s;
}
#ifdef SX_SYM
struct ZModel { string out; size_t outp = 0; int st = 0; unsigned len = 0, hdr = 0, last = 0, need = 0; unsigned char h[5]; bool began = false, ended = false; };
static inline ZModel*& zm(z_streamp s) { return *(ZModel**)&s->state; }
extern "C" {
int deflateInit_(z_streamp s, int, const char*, int) { zm(s) = new ZModel; s->total_in = s->total_out = 0; s->msg = nullptr; return Z_OK; }
int deflate(z_streamp s, int flush)
{
    ZModel* z = zm(s); if (!z) return Z_STREAM_ERROR;
    if (!z->began) { z->out += string("\x78\x01", 2); z->began = true; }
    if (s->avail_in)
    {
        unsigned n = s->avail_in; if (n > 65535) n = 65535;
        z->out.push_back(0); z->out.push_back((char)n); z->out.push_back((char)(n >> 8)); z->out.push_back((char)~n); z->out.push_back((char)(~n >> 8));
        z->out.append((const char*)s->next_in, n); s->next_in += n; s->avail_in -= n; s->total_in += n;
    }
    if (flush == Z_FINISH && !s->avail_in && !z->ended) { z->out += string("\x01\x00\x00\xff\xff\x00\x00\x00\x00", 9); z->ended = true; }
    size_t n = z->out.size() - z->outp; if (n > s->avail_out) n = s->avail_out;
    if (n) memcpy(s->next_out, z->out.data() + z->outp, n);
    z->outp += n; s->next_out += n; s->avail_out -= (unsigned)n; s->total_out += n;
    return z->ended && z->outp == z->out.size() ? Z_STREAM_END : Z_OK;
}
int deflateEnd(z_streamp s) { ZModel* z = zm(s); if (!z) return Z_STREAM_ERROR; delete z; zm(s) = nullptr; return Z_OK; }
int inflateInit_(z_streamp s, const char*, int) { zm(s) = new ZModel; s->total_in = s->total_out = 0; s->msg = nullptr; return Z_OK; }
int inflate(z_streamp s, int)
{
    // states: 0 header 1 block header 2 stored data 3 trailer 4 end
    ZModel* z = zm(s); if (!z) return Z_STREAM_ERROR;
    bool progress = false;
    while (true)
    {
        if (z->st == 4) return Z_STREAM_END;
        if (z->st == 5) return Z_DATA_ERROR;
        if (z->st == 2 && z->len == 0) { z->st = z->last ? 3 : 1; z->hdr = 0; continue; }
        if (s->avail_in == 0) return progress ? Z_OK : Z_BUF_ERROR;
        if (z->st == 2)
        {
            unsigned n = z->len; if (n > s->avail_in) n = s->avail_in; if (n > s->avail_out) n = s->avail_out;
            if (n == 0) return progress ? Z_OK : Z_BUF_ERROR;
            memcpy(s->next_out, s->next_in, n); s->next_out += n; s->avail_out -= n; s->next_in += n; s->avail_in -= n; s->total_in += n; s->total_out += n; z->len -= n; progress = true;
            continue;
        }
        unsigned char c = *s->next_in++; s->avail_in--; s->total_in++; progress = true;
        z->h[z->hdr++] = c;
        if (z->st == 0)
        {
            if (z->hdr == 2) { unsigned w = z->h[0] * 256u + z->h[1]; z->st = (z->h[0] & 15) == 8 && w % 31 == 0 && !(z->h[1] & 32) ? 1 : 5; z->hdr = 0; }
        }
        else if (z->st == 1)
        {
            if (z->hdr == 1 && (c & 6)) { z->st = 5; continue; }
            if (z->hdr == 5)
            {
                z->last = z->h[0] & 1; z->len = z->h[1] | z->h[2] << 8; z->hdr = 0;
                z->st = (z->h[3] | z->h[4] << 8) == (0xFFFF & ~z->len) ? 2 : 5;
            }
        }
        else if (z->hdr == 4) z->st = 4;
    }
}
int inflateEnd(z_streamp s) { ZModel* z = zm(s); if (!z) return Z_STREAM_ERROR; delete z; zm(s) = nullptr; return Z_OK; }
}
#endif
