#include "nzbget.h"
#include "Util.h"
#include "YEncode.h"
#include "vt.h"
using namespace vt;
using std::string;
namespace YEncode { extern void init_crc_slice(); extern void init_crc_pclmul(); }
static uint32_t bitwise(const string& s)
{
	uint32_t c = ~0u;
	for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
	return ~c;
}
static uint32_t real(const string& s, bool chunks, int impl)
{
	Crc32 crc;
	if (coin(20)) { char junk[96]; memset(junk, 7, 96); crc.Append((uchar*)junk, 0); crc.Append((uchar*)junk, rnd(40)); crc.Reset(); }
	size_t i = 0;
	while (i < s.size())
	{
		size_t n = chunks ? std::min(s.size() - i, (size_t)1 + rnd(coin() ? 5 : 300)) : s.size() - i, pad = rnd(17);
		uchar* b = (uchar*)malloc(n + pad + 1);  // every alignment; the vector code loads whole 16-byte blocks
		if (impl) b = (uchar*)realloc(b, n + pad + 32);
		memcpy(b + pad, s.data() + i, n);
		crc.Append(b + pad, (uint32)n);
		if (coin(5)) crc.Append(b, 0);
		free(b);
		i += n;
	}
	return crc.Finish();
}
int main(int argc, char** argv)
{
	init(argc, argv);
	bool pcl = __builtin_cpu_supports("pclmul") && __builtin_cpu_supports("sse4.1");
	while (more())
		for (int impl = 0; impl <= (pcl ? 1 : 0); impl++)
		{
			if (impl) YEncode::init_crc_pclmul(); else YEncode::init_crc_slice();
			string s; int n = coin(70) ? rnd(80) : coin(80) ? rnd(700) : rnd(20000);
			int kind = rnd(4);
			for (int i = 0; i < n; i++) s += (char)(kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? (rnd(8) == 0) << rnd(8) : rnd(256));
			now(fmt("implementation %s, %d bytes: ", impl ? "pclmul" : "table", n) + show(s.substr(0, 2000)));
			uint32_t want = bitwise(s);
			bool ch = coin();
			uint32_t got = real(s, ch, impl);
			if (got != want) fail("crc32 is %08x, bitwise definition gives %08x (%s)", got, want, ch ? "appended in pieces" : "one piece");
			size_t k = rnd(n + 1);
			string a = s.substr(0, k), b = s.substr(k);
			uint32_t c = Crc32::Combine(bitwise(a), bitwise(b), (uint32)b.size());
			if (c != want) fail("Combine(crc of first %d, crc of last %d) is %08x, crc of the whole is %08x", (int)k, (int)b.size(), c, want);
			if (coin(10))
			{
				// long second parts: combine with zeros against the bit matrix identity combine(x, crc(0^n), n) applied twice
				uint32_t l1 = rnd(1u << 30), l2 = rnd(1u << 30), x = (uint32_t)rnd(), y = (uint32_t)rnd(), z = (uint32_t)rnd();
				uint32_t u = Crc32::Combine(Crc32::Combine(x, y, l1), z, l2), v = Crc32::Combine(x, Crc32::Combine(y, z, l2), l1 + l2);
				if (u != v) fail("Combine is not associative for lengths %u, %u", l1, l2);
			}
		}
	return done();
}
