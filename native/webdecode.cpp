#include "nzbget.h"
#include "Util.h"
#include "vt.h"
using namespace vt;
using std::string;

static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }
static string refUrl(const string& s)
{
	string r;
	for (size_t i = 0; i < s.size();)
		if (s[i] != '%') r += s[i++];
		else { int a = i + 1 < s.size() ? hx(s[i + 1]) : 0, b = i + 2 < s.size() ? hx(s[i + 2]) : 0; r += (char)(a * 16 + b); i += 3; }
	return string(r.c_str());
}
static string refXml(const string& s)
{
	static const std::pair<const char*, char> e[] = {{"lt;", '<'}, {"gt;", '>'}, {"amp;", '&'}, {"apos;", '\''}, {"quot;", '"'}};
	string r;
	for (size_t i = 0; i < s.size();)
	{
		if (s[i] != '&') { r += s[i++]; continue; }
		bool hit = false;
		for (auto& x : e) if (s.compare(i + 1, strlen(x.first), x.first) == 0) { r += x.second; i += 1 + strlen(x.first); hit = true; break; }
		if (hit) continue;
		if (i + 1 < s.size() && s[i + 1] == '#')
		{
			size_t j = i + 2; int v = atoi(s.c_str() + j); while (j < s.size() && isdigit((unsigned char)s[j])) j++;
			r += (char)v; if (j < s.size() && s[j] == ';') j++;
			i = j;
			continue;
		}
		r += s[i++]; if (i < s.size()) r += s[i++];
	}
	return string(r.c_str());
}
static string refJson(const string& s)
{
	string r;
	for (size_t i = 0; i < s.size();)
	{
		if (s[i] != '\\') { r += s[i++]; continue; }
		if (++i == s.size()) break;
		char c = s[i];
		const char* from = "bfnrt"; const char* to = "\b\f\n\r\t";
		if (const char* q = strchr(from, c)) r += to[q - from];
		else if (c == 'u') { r += (char)strtol(s.c_str() + i + 1, nullptr, 16); i = std::min(i + 4, s.size() - 1); }
		else r += c;
		i++;
	}
	return string(r.c_str());
}
static string refUnquote(const string& s)
{
	if (s.empty() || s[0] != '"') return s;
	string r;
	for (size_t i = 1; i < s.size() && s[i] != '"'; i++)
	{
		if (s[i] == '\\') { if (++i == s.size()) break; }
		r += s[i];
	}
	return r;
}
// next token of a JSON text: a string with its escapes, or a bare word
static bool refNext(const string& s, size_t& b, size_t& n)
{
	size_t i = 0;
	while (i < s.size() && strchr(" ,[{:\r\n\t\f", s[i])) i++;
	if (i == s.size()) return false;
	b = i;
	if (s[i] == '"')
	{
		for (i++; i < s.size(); i++)
		{
			if (s[i] == '\\') { i++; continue; }
			if (s[i] == '"') { n = i + 1 - b; return true; }
		}
		return false; // unterminated
	}
	while (i < s.size() && !strchr(" ,]}\r\n\t\f", s[i])) i++;
	n = i - b;
	return true;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<string> U = {"%", "%4", "%41", "%zz", "a", "b%20", "%2", "%00x", "/", "%fF", "%C3%A4"};
	std::vector<string> X = {"&", "&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#65;", "&#65;7", "&#", "&#9", ";", "&x;", "a", "<b>", "lt;", "&am", "#", "12"};
	std::vector<string> J = {"\\", "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00", "\\u", "\"", "x", " ", ",", "[", "]", "{", "}", ":", "\\t", "12", "true"};
	std::vector<string> Q = {"\"", "\\", "\\\"", "a", "file.nzb", " ", "\\\\"};
	for (long i = 0; more(); i++)
	{
		{ string s = text(U, i % 12); now("UrlDecode " + show(s)); Str b(s); WebUtil::UrlDecode(b); if (b.str() != refUrl(s)) fail("UrlDecode gives %s, expected %s", show(b.str()).c_str(), show(refUrl(s)).c_str()); }
		{ string s = text(X, i % 12); now("XmlDecode " + show(s)); Str b(s); WebUtil::XmlDecode(b); if (b.str() != refXml(s)) fail("XmlDecode gives %s, expected %s", show(b.str()).c_str(), show(refXml(s)).c_str()); }
		{ string s = text(X, i % 12); now("XmlRemoveEntities " + show(s)); Str b(s); WebUtil::XmlRemoveEntities(b); if (b.str().size() > s.size()) fail("longer result"); }
		{ string s = text(X, i % 12); now("XmlStripTags " + show(s)); Str b(s); WebUtil::XmlStripTags(b); if (b.str().size() != s.size()) fail("length changed"); }
		{ string s = text(J, i % 12); now("JsonDecode " + show(s)); Str b(s); WebUtil::JsonDecode(b); if (b.str() != refJson(s)) fail("JsonDecode gives %s, expected %s", show(b.str()).c_str(), show(refJson(s)).c_str()); }
		{ string s = (coin() ? "\"" : "") + text(Q, i % 10); now("HttpUnquote " + show(s)); Str b(s); WebUtil::HttpUnquote(b); if (b.str() != refUnquote(s)) fail("HttpUnquote gives %s, expected %s", show(b.str()).c_str(), show(refUnquote(s)).c_str()); }
		{
			string s = (coin() ? "\"" : "") + text(J, i % 14); now("JsonNextValue " + show(s)); Str b(s); int n = -1; size_t rb = 0, rn = 0;
			const char* r = WebUtil::JsonNextValue(b, &n); bool ok = refNext(s, rb, rn);
			if (r && (n < 0 || r < b.p || r + n > b.p + s.size())) fail("token outside the text (%d)", n);
			// truncated texts: only memory safety; bare words with escapes: not JSON
			if (ok && s[rb] == '"' && (!r || (size_t)(r - b.p) != rb || (size_t)n != rn)) fail("string token at %d length %d, expected %d length %d", r ? (int)(r - b.p) : -1, n, (int)rb, (int)rn);
			if (ok && s[rb] != '"' && s.find('\\') == string::npos && (!r || (size_t)(r - b.p) != rb || (size_t)n != rn)) fail("token at %d length %d, expected %d length %d", r ? (int)(r - b.p) : -1, n, (int)rb, (int)rn);
		}
		{
			static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
			string raw; int n = rnd(40); for (int k = 0; k < n; k++) raw += (char)rnd(256);
			string enc; for (int k = 0; k < n; k += 3)
			{
				unsigned v = (unsigned char)raw[k] << 16 | (k + 1 < n ? (unsigned char)raw[k + 1] << 8 : 0) | (k + 2 < n ? (unsigned char)raw[k + 2] : 0);
				enc += A[v >> 18]; enc += A[v >> 12 & 63]; enc += k + 1 < n ? A[v >> 6 & 63] : '='; enc += k + 2 < n ? A[v & 63] : '='; if (coin(5)) enc += "\r\n";
			}
			now("DecodeBase64 " + show(enc)); Str b(enc); char* out = (char*)malloc(enc.size() / 4 * 3 + 1);
			uint32 m = WebUtil::DecodeBase64(b, 0, out);
			if (m != raw.size() || memcmp(out, raw.data(), m)) fail("decoded length %u, expected %d", m, n);
			free(out);
		}
	}
	return done();
}
