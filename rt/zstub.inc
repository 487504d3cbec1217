// ------------------------------------------------------------------ compression stand-ins (invertible, length-changing)
static int g_pad;
static uint32_t g_zcount;
extern "C" void sx_compress_mode(int p) { g_pad = p; g_zcount = 0; }
static size_t zpack(const void *s, size_t n, char *d) { uint32_t pad = g_pad < 0 ? ((uint32_t)-g_pad >> 2 * (g_zcount++ & 7) & 3) * 5 : g_pad; uint32_t h[2] = {(uint32_t)n, pad}; memcpy(d, h, 8); memcpy(d + 8, s, n); memset(d + 8 + n, 0x5A, pad); return n + 8 + pad; }
static bool zunpack(const char *s, size_t sn, char *d, size_t cap) { uint32_t h[2]; if (sn < 8) return false; memcpy(h, s, 8); if (sn != (size_t)h[0] + 8 + h[1] || h[0] > cap) return false; memcpy(d, s + 8, h[0]); return true; }
namespace snappy {
size_t MaxCompressedLength(size_t n) { return n + 32 + n / 6; }
void RawCompress(const char *s, size_t n, char *d, size_t *o) { *o = zpack(s, n, d); }
bool GetUncompressedLength(const char *s, size_t n, size_t *r) { uint32_t h; if (n < 8) return false; memcpy(&h, s, 4); *r = h; return true; }
bool RawUncompress(const char *s, size_t n, char *d) { return zunpack(s, n, d, (size_t)-1); }
}
extern "C" {
int LZ4_compressBound(int n) { return n + 32; }
int LZ4_compress_default(const char *s, char *d, int n, int) { return (int)zpack(s, n, d); }
int LZ4_compress(const char *s, char *d, int n) { return (int)zpack(s, n, d); }
int LZ4_decompress_safe(const char *s, char *d, int n, int c) { uint32_t h; if (n < 8) return -1; memcpy(&h, s, 4); return zunpack(s, n, d, c) ? (int)h : -1; }
int LZ4_decompress_fast(const char *s, char *d, int n) { uint32_t h[2]; memcpy(h, s, 8); if ((int)h[0] != n) return -1; memcpy(d, s + 8, n); return n + 8 + (int)h[1]; }
size_t ZSTD_compressBound(size_t n) { return n + 32; }
size_t ZSTD_compress(void *d, size_t, const void *s, size_t n, int) { return zpack(s, n, (char *)d); }
size_t ZSTD_decompress(void *d, size_t c, const void *s, size_t n) { uint32_t h; if (n < 8) return (size_t)-1; memcpy(&h, s, 4); return zunpack((const char *)s, n, (char *)d, c) ? h : (size_t)-1; }
unsigned long long ZSTD_getDecompressedSize(const void *s, size_t) { uint32_t h; memcpy(&h, s, 4); return h; }
unsigned long long ZSTD_getFrameContentSize(const void *s, size_t) { uint32_t h; memcpy(&h, s, 4); return h; }
unsigned ZSTD_isError(size_t c) { return c == (size_t)-1; }
const char *ZSTD_getErrorName(size_t) { return "error"; }
}
