#include <sx.h>
#include <cmath>
#include <cstdint>
static double g;
__attribute__((noinline)) double f(uint64_t m, double c, double o) { return floor((m - o) / c); }
void harness() {
	uint64_t m = sx_val<uint64_t>("m", 0, (1ull << 40)); 
	double d = (double)m; g = d * 0.75 + 3; SX_ASSERT(g >= 3.0, "ge"); SX_ASSERT((uint64_t)g == (3 * m) / 4 + 3, "conv");
	SX_ASSERT((uint64_t)(d / 12.0) == m / 12, "quot");
	SX_ASSERT((uint64_t)floor(d / 12.0) == m / 12, "quotf");
	SX_ASSERT((uint64_t)ceil(d / 12.0) == (m + 11) / 12, "quotc");
	if (m >= 100) { uint64_t n = (uint64_t)f(m, 12, 100); SX_ASSERT(n * 12 + 100 <= m, "fits"); SX_ASSERT((n + 1) * 12 + 100 > m, "fitsall"); }
	int x = sx_val<int>("x"); double y = x; y = y / 2 + 0.5; if (y < 0) { sx_cover("neg"); SX_ASSERT(x < -1, "neg"); } else SX_ASSERT(x >= -1, "nonneg");
	SX_ASSERT((int)y == (x + 1ll) / 2, "trunc");
	unsigned k = sx_val<unsigned>("k", 0, 1000); double lo = k * 0.125 ; (void)lo; SX_ASSERT(lo <= 125, "le");
}
