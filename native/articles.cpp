// whole articles -> Decoder, delivered in arbitrary network chunks, against an independent reference of the article format
#include "nzbget.h"
#include "Decoder.h"
#include "YEncode.h"
#include "Log.h"
#include "vt.h"
using namespace vt;
namespace YEncode { extern void init_decode_scalar(); extern void init_decode_sse2(); extern void init_decode_ssse3(); extern void init_crc_slice(); extern void init_crc_pclmul(); }
static uint32_t refcrc(const std::string& s)
{
	uint32_t c = ~0u;
	for (unsigned char b : s) { c ^= b; for (int i = 0; i < 8; i++) c = (c >> 1) ^ (c & 1 ? 0xEDB88320u : 0); }
	return ~c;
}
static std::string yenc(const std::string& data, int line, int escpct)
{
	std::string r; int col = 0;
	for (size_t i = 0; i < data.size(); i++)
	{
		unsigned char c = (unsigned char)data[i] + 42;
		bool crit = c == 0 || c == '\n' || c == '\r' || c == '=';
		// an escaped '9' could look like the end keyword
		if (crit || ((int)rnd(1000) < escpct && c != '9') || (c == '.' && col == 0 && coin(40)))
		{
			unsigned char e = c + 64;
			if (e == 0 || e == '\n' || e == '\r') { if (!crit) { if (col == 0 && c == '.') r += '.'; r += (char)c; col++; goto next; } }
			r += '='; r += (char)(c + 64); col += 2;
		}
		else
		{
			if (col == 0 && c == '.') r += '.';   // NNTP dot stuffing
			r += (char)c; col++;
		}
	next:
		if (col >= line && i + 1 < data.size()) { r += "\r\n"; col = 0; }
	}
	return r + "\r\n";
}
struct Res { std::string out; Decoder::EStatus st; bool eof; int fmt; int64 size, b, e; std::string name; uint32_t ccrc, ecrc; };
static int s_slack = 0; // the PCLMUL routine loads whole 16-byte blocks
static void deliver(Decoder& d, const std::string& art, int mode, std::string& out)
{
	size_t pos = 0;
	while (pos < art.size() && !d.GetEof())
	{
		size_t n = mode == 0 ? art.size() : mode == 1 ? 1 : mode == 2 ? 1 + rnd(4) : mode == 3 ? 1 + rnd(70) : 1 + rnd(1500);
		if (n > art.size() - pos) n = art.size() - pos;
		char* b = (char*)malloc(n + s_slack); memcpy(b, art.data() + pos, n); char* own = b;
		int k = d.DecodeBuffer(b, (int)n);
		if (k < 0) fail("negative output length %d", k);
		out.append(b, k);
		free(own);
		pos += n;
	}
}
static Res decode(Decoder& d, const std::string& art, int mode, bool crc, bool raw)
{
	Res r; d.Clear(); d.SetCrcCheck(crc); d.SetRawMode(raw);
	deliver(d, art, mode, r.out);
	r.st = raw ? Decoder::dsFinished : d.Check(); r.eof = d.GetEof(); r.fmt = d.GetFormat(); r.size = d.GetSize(); r.b = d.GetBeginPos(); r.e = d.GetEndPos();
	r.name = d.GetArticleFilename() ? d.GetArticleFilename() : ""; r.ccrc = d.GetCalculatedCrc(); r.ecrc = d.GetExpectedCrc();
	return r;
}
// reference decoder of a yEnc body (after the header line): states of the NNTP/yEnc stream
static std::string refbody(const std::string& s, int& end, size_t& used)
{
	enum { CRLF, EQ, CR, NONE, DT, DTCR, CEQ } st = CRLF; std::string o; end = 0; used = s.size();
	for (size_t i = 0; i < s.size(); i++)
	{
		unsigned char c = s[i];
	again:
		switch (st)
		{
			case CRLF: if (c == '.') { st = DT; break; } if (c == '=') { st = CEQ; break; } st = NONE; goto again;
			case DT: if (c == '\r') { st = DTCR; break; } if (c == '=') { st = CEQ; break; } st = NONE; goto again;
			case DTCR: if (c == '\n') { end = 2; used = i + 1; return o; } st = NONE; goto again;
			case CEQ: if (c == 'y') { end = 1; used = i + 1; return o; } st = EQ; goto again;
			case EQ: o += (char)(c - 106); st = c == '\r' ? CR : NONE; break;
			case CR: if (c == '\n') { st = CRLF; break; } st = NONE; goto again;
			case NONE: if (c == '\r') st = CR; else if (c == '\n') {} else if (c == '=') st = EQ; else o += (char)(c - 42); break;
		}
	}
	return o;
}
static std::string uu(const std::string& d)
{
	std::string r;
	for (size_t i = 0; i < d.size(); i += 45)
	{
		std::string l = d.substr(i, 45), q; q += (char)(l.size() + 32);
		auto E = [](int v) { return (char)(v ? v + 32 : '`'); };
		for (size_t k = 0; k < l.size(); k += 3)
		{
			unsigned a = (unsigned char)l[k], b = k + 1 < l.size() ? (unsigned char)l[k + 1] : 0, c = k + 2 < l.size() ? (unsigned char)l[k + 2] : 0;
			q += E(a >> 2); q += E((a << 4 | b >> 4) & 63); q += E((b << 2 | c >> 6) & 63); q += E(c & 63);
		}
		if (q[0] == '.') q = "." + q;
		r += q + "\r\n";
	}
	return r;
}
static std::string head() { std::string h; int n = rnd(4); for (int i = 0; i < n; i++) { h += coin(30) ? "\r\n" : "X-Some: header text line\r\n"; } return h; }
static std::string bin(int n)
{
	std::string s; int kind = rnd(4);
	for (int i = 0; i < n; i++) s += kind == 0 ? (char)rnd(256) : kind == 1 ? (char)("\xd6\xe0\xe3\x13\x04\x00\x4f"[rnd(7)]) : kind == 2 ? (char)(rnd(8) ? 0x41 : rnd(256)) : (char)("\x04\x13"[rnd(2)]);
	return s;
}
int main(int argc, char** argv)
{
	init(argc, argv);
	YEncode::init_decode_scalar(); YEncode::init_crc_slice();
	auto scalar = YEncode::decode;
	auto slice1 = YEncode::crc_init; auto slice2 = YEncode::crc_incr; auto slice3 = YEncode::crc_finish;
	std::vector<decltype(scalar)> impls{scalar};
#if defined(__x86_64__)
	YEncode::init_decode_sse2(); impls.push_back(YEncode::decode);
	if (__builtin_cpu_supports("ssse3")) { YEncode::init_decode_ssse3(); impls.push_back(YEncode::decode); }
	bool pcl = __builtin_cpu_supports("pclmul") && __builtin_cpu_supports("sse4.1");
#else
	bool pcl = false;
#endif
	auto d = std::make_unique<Decoder>();
	while (more())
	{
		YEncode::decode = impls[rnd(impls.size())];
		YEncode::crc_init = slice1; YEncode::crc_incr = slice2; YEncode::crc_finish = slice3;
#if defined(__x86_64__)
		s_slack = YEncode::decode == scalar ? 0 : 64;
		if (pcl && coin()) { YEncode::init_crc_pclmul(); s_slack = 64; }
#endif
		if (coin(20)) d = std::make_unique<Decoder>();
		int mode = rnd(5), kind = rnd(10);
		bool crc = coin(80);
		if (kind < 4)
		{
			// well-formed yEnc article
			std::string data = bin(coin(30) ? rnd(8) + 1 : 1 + rnd(3000));
			bool part = coin(60); long off = part ? rnd(100000) : 0; long total = part ? off + (long)data.size() + rnd(5000) : (long)data.size();
			uint32_t c = refcrc(data);
			std::string name = coin() ? "file name.bin" : "a";
			bool withcrc = coin(80);
			std::string a = head();
			a += fmt("=ybegin %sline=128 size=%ld name=%s\r\n", part ? "part=2 total=9 " : "", total, name.c_str());
			if (part) a += fmt("=ypart begin=%ld end=%ld\r\n", off + 1, off + (long)data.size());
			int damage = coin(35) ? 1 + rnd(5) : 0;
			std::string body = yenc(data, coin(80) ? 128 : 1 + rnd(20), coin(80) ? 0 : rnd(300));
			a += body;
			size_t esz = data.size(); uint32_t ecrc = c; bool end = true;
			if (damage == 1) esz += coin() ? 1 : -1;
			if (damage == 2) { ecrc ^= 1u << rnd(32); }
			if (damage == 3) end = false;
			std::string yend = fmt(coin() ? "=yend size=%ld part=2 %s=%08x\r\n" : "=yend size=%ld %s=%08X\r\n", (long)esz, part ? "pcrc32" : "crc32", ecrc);
			if (!withcrc) yend = fmt("=yend size=%ld\r\n", (long)esz);
			if (end) a += yend;
			a += ".\r\n";
			if (damage == 4 || damage == 5)
			{
				// cut the article at an arbitrary point before the end marker line ended
				size_t lim = a.size() - 3 - (end ? yend.size() : 0);
				a = a.substr(0, rnd(lim) + 1);
			}
			now(fmt("impl mode=%d crc=%d damage=%d article=", mode, crc, damage) + show(a.substr(0, 2500)));
			Res r = decode(*d, a, mode, crc, false);
			if (damage == 0 || (damage == 2 && (!crc || !withcrc)))
			{
				if (r.out != data) fail("decoded %d bytes differ from the %d encoded bytes", (int)r.out.size(), (int)data.size());
				if (r.st != Decoder::dsFinished) fail("good article rejected with status %d", (int)r.st);
				if (!r.eof) fail("end of article not noticed");
				if (r.size != total) fail("file size %lld instead of %ld", (long long)r.size, total);
				if (r.b != off + 1 || r.e != off + (long)data.size()) fail("part range %lld..%lld instead of %ld..%ld", (long long)r.b, (long long)r.e, off + 1, off + (long)data.size());
				if (r.name != name) fail("name '%s' instead of '%s'", r.name.c_str(), name.c_str());
				if (crc && r.ccrc != c) fail("calculated CRC %08x instead of %08x", r.ccrc, c);
			}
			else
			{
				if (r.st == Decoder::dsFinished) fail("damaged article (kind %d) accepted as complete", damage);
				if (damage == 1 && r.st != Decoder::dsInvalidSize) fail("size mismatch reported as status %d", (int)r.st);
				if (damage == 2 && r.st != Decoder::dsCrcError) fail("CRC mismatch reported as status %d", (int)r.st);
				if (damage == 3 && r.st != Decoder::dsArticleIncomplete) fail("missing =yend reported as status %d", (int)r.st);
			}
		}
		else if (kind < 6)
		{
			// arbitrary bytes as yEnc body, one byte flipped in a good body
			std::string body; static const char* F[] = {"\r\n", "\r\n.", "=", "\r", "\n", ".", "=y", "\r\n.\r", "\r\n=", "\r\n.=", "ab", "\r\n..", "*", "=\r", "\r\n=\r\n"};
			int n = rnd(60); for (int i = 0; i < n; i++) { if (coin(60)) body += F[rnd(15)]; else body += std::string(1 + rnd(40), (char)range(1, 255)); }
			std::string a = "=ybegin line=128 size=100 name=x\r\n" + body;
			int end; size_t used; std::string ref = refbody(body, end, used);
			std::string tail = body.substr(used);
			if (end == 1 && tail.find("=y") != std::string::npos) continue;
			if (tail.size() > 20) { a.resize(a.size() - (tail.size() - 20)); }
			if (end == 1 && a.find("begin ", 10) != std::string::npos) continue;
			now(fmt("raw body mode=%d article=", mode) + show(a));
			Res r = decode(*d, a, mode, crc, false);
			if (r.out != ref) fail("body decoded to %s instead of %s", show(r.out).c_str(), show(ref).c_str());
			if (end == 0 && r.st == Decoder::dsFinished) fail("unfinished body accepted");
		}
		else if (kind < 8)
		{
			std::string data = bin(coin(30) ? 1 + rnd(60) : rnd(2000) + 1);
			std::string a = head() + "begin 644 some name.bin\r\n" + uu(data) + "`\r\nend\r\n.\r\n";
			now(fmt("uuencoded mode=%d article=", mode) + show(a.substr(0, 3000)));
			Res r = decode(*d, a, mode, crc, false);
			if (r.out != data) fail("uuencoded article decoded to %s instead of %s", show(r.out.substr(0, 100)).c_str(), show(data.substr(0, 100)).c_str());
			if (r.st != Decoder::dsFinished || !r.eof) fail("good uuencoded article: status %d eof %d", (int)r.st, r.eof);
			if (r.name != "some name.bin") fail("name '%s'", r.name.c_str());
		}
		else if (kind == 8)
		{
			// raw mode: end of article wherever the chunks are split
			static const char* F[] = {"\r\n", "\r\n.", "\r", "\n", ".", "\r\n..", "text", "\r\n.\r", "\r\r\n", ".\r\n"};
			std::string a; int n = rnd(30); for (int i = 0; i < n; i++) a += F[rnd(10)];
			size_t p = a.find("\r\n.\r\n");
			now(fmt("raw mode=%d article=", mode) + show(a));
			Decoder x; x.Clear(); x.SetRawMode(true); std::string out; deliver(x, a, mode, out);
			if (x.GetEof() != (p != std::string::npos)) fail("raw article: end %snoticed", x.GetEof() ? "" : "not ");
			if (!x.GetEof() && out != a) fail("raw data changed");
		}
		else
		{
			// garbage and no-data articles
			std::string a = head() + (coin() ? "no binary data here\r\n" : "=ypart begin=1 end=5\r\n") + ".\r\n";
			now("no data: " + show(a));
			Decoder x; x.Clear(); x.SetCrcCheck(crc); std::string out; deliver(x, a, mode, out);
			if (x.Check() == Decoder::dsFinished) fail("article without binary data accepted");
			// garbage must be handled without touching foreign memory
			std::vector<std::string> G{"begin 644 x\r\n", "=ybegin ", "size=", "name=", "\r\n", "=yend ", "crc32=zz", "M", "\n", "`", "end \n", "=ypart begin=-5 end=", "begin ", ".", "99999999999999999999", "line=128 part=1"};
			std::string g = text(G, 30);
			size_t z; while ((z = g.find("=y", 1)) != std::string::npos && std::count(g.begin(), g.end(), '=') > 6) g.erase(z, 2);
			now(fmt("garbage mode=%d ", mode) + show(g));
			Decoder y; y.Clear(); y.SetCrcCheck(crc); out.clear(); deliver(y, g, mode, out); y.Check();
		}
	}
	return done();
}
