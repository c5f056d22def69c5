// parameters of remote calls: well-formed requests deliver exactly their values, any other text is never touched outside its bounds
#include "world.h"
#include "XmlRpc.h"
#include "Options.h"
#include "Util.h"
using namespace vt;
using std::string;
class Command : public XmlCommand { public: void Execute() override {} };
struct Value { int kind; int i; string s; };
static string pick(std::vector<string> v) { return v[rnd(v.size())]; }
static string token(int n, bool wide) { string r; while (n-- > 0) r += wide ? (char)range(1, 255) : "abcXYZ019 .-_/"[rnd(14)]; return r; }
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	static const char* tokens[] = {"\"params\"", "[", "]", "{", "}", ",", ":", " ", "\"", "\\", "\\\"", "\\\\", "1", "-25", "true", "false", "abc", "<value>", "</value>", "<i4>", "</i4>", "<int>", "</int>",
		"<string>", "</string>", "<boolean>", "</boolean>", "<string/>", "<i4/>", "<value/>", "<boolean/>", "<int/>", "=", "&", "a=1", "b=true", "c=x", "?", "+", "<", ">", "/", "\n", "0"};
	static const XmlRpcProcessor::ERpcProtocol protos[] = {XmlRpcProcessor::rpXmlRpc, XmlRpcProcessor::rpJsonRpc, XmlRpcProcessor::rpJsonPRpc};
	while (more())
	{
		int proto = rnd(3);
		bool get = proto == 2 || coin(30), json = proto > 0, good = coin();
		std::vector<Value> vals;
		string t;
		if (good)
		{
			int n = range(0, 5);
			if (json && !get) t += string("{\"method\":\"m\",") + (coin() ? " \"id\" : 3," : "") + "\"params\"" + (coin() ? ":" : " : ") + "[";
			else if (!get) t += "<?xml version=\"1.0\"?><methodCall><methodName>m</methodName><params>";
			if (proto == 2) t += "callback=cb" + string(n ? "&" : "");
			for (int k = 0; k < n; k++)
			{
				Value v{range(0, 2), range(-100000, 100000), ""};
				if (coin(10)) v.i = coin() ? INT_MAX : INT_MIN;
				if (v.kind == 1) v.i = rnd(2);
				if (v.kind == 2) { v.s = token(rnd(20) ? rnd(12) : 300, coin(30) && !get); if (coin(10) && !get) v.s += pick({"</string>", "\"", "\\", "]", "<value>", ",", "true", "5"}); }
				string e;
				if (v.kind == 0) e = fmt("%i", v.i); else if (v.kind == 1) e = json ? v.i ? "true" : "false" : v.i ? "1" : "0";
				if (get) t += fmt("p%i=", k) + (v.kind == 2 ? v.s : e) + (k + 1 < n ? "&" : "");
				else if (json)
				{
					if (v.kind == 2) e = "\"" + string(*WebUtil::JsonEncode(v.s.c_str())) + "\"";
					t += string(k ? pick({",", ", ", " ,", ",\r\n\t"}) : pick({"", " ", "\n"})) + e;
				}
				else
				{
					const char* tag = v.kind == 0 ? coin() ? "i4" : "int" : v.kind == 1 ? "boolean" : "string";
					if (v.kind == 2) e = *WebUtil::XmlEncode(v.s.c_str());
					t += fmt("<param>%s<value><%s>", coin() ? "\r\n" : "", tag) + e + fmt("</%s></value></param>", tag);
				}
				if (v.kind == 2 && !get)
				{
					// what the encoders keep of the text is tested elsewhere
					CString c = json ? WebUtil::JsonEncode(v.s.c_str()) : WebUtil::XmlEncode(v.s.c_str());
					json ? WebUtil::JsonDecode(c) : WebUtil::XmlDecode(c);
					v.s = *c;
				}
				vals.push_back(v);
			}
			if (json && !get) t += coin() ? "]}" : "], \"id\": 1}"; else if (!get) t += "</params></methodCall>";
		}
		else for (int k = rnd(14); k > 0; k--) t += tokens[rnd(sizeof tokens / sizeof *tokens)];
		bool cut = good && coin(30);
		if (cut) t.resize(rnd(t.size() + 1));
		now(fmt("%s by %s: ", json ? proto == 2 ? "jsonp" : "json" : "xml", get ? "GET" : "POST") + show(t));
		char* buf = (char*)malloc(t.size() + 1); memcpy(buf, t.c_str(), t.size() + 1);
		Command c;
		c.SetRequest(buf); c.SetProtocol(protos[proto]); c.SetHttpMethod(get ? XmlRpcProcessor::hmGet : XmlRpcProcessor::hmPost); c.SetUserAccess(XmlRpcProcessor::uaControl);
		c.PrepareParams();
		auto inside = [&]() { if (c.m_requestPtr < buf || c.m_requestPtr > buf + t.size()) fail("the next parameter is read %i bytes after the end of the request", (int)(c.m_requestPtr - buf - t.size())); };
		inside();
		bool strict = good && !cut;
		if (strict && proto == 2 && (!c.m_callbackFunc || strcmp(c.m_callbackFunc, "cb"))) fail("callback is %s", c.m_callbackFunc ? c.m_callbackFunc : "missing");
		for (size_t k = 0; k <= vals.size() + (good ? 0 : 8); k++)
		{
			int kind = k < vals.size() ? vals[k].kind : (int)rnd(3), i = 0; bool b = false; char* s = nullptr;
			if (strict && !get && k < vals.size() && coin(30))
			{
				// an optional parameter of another type is not there and the one present stays available
				int other = (kind + 1 + rnd(2)) % 3;
				if (other == 0 ? c.NextParamAsInt(&i) : other == 1 ? c.NextParamAsBool(&b) : c.NextParamAsStr(&s)) fail("parameter %i of type %i is taken as type %i", (int)k, kind, other);
				inside();
			}
			bool ok = kind == 0 ? c.NextParamAsInt(&i) : kind == 1 ? c.NextParamAsBool(&b) : c.NextParamAsStr(&s);
			inside();
			if (ok && kind == 2)
			{
				if (s < buf || s + strlen(s) > buf + t.size()) fail("text parameter %i is not within the request", (int)k);
				if (!get) c.DecodeStr(s);
			}
			if (!strict) continue;
			if (ok != (k < vals.size())) fail("parameter %i is %s", (int)k, ok ? "read although there is none" : "missing");
			if (!ok) continue;
			if (kind == 0 && i != vals[k].i) fail("parameter %i is %i instead of %i", (int)k, i, vals[k].i);
			if (kind == 1 && b != !!vals[k].i) fail("parameter %i is %s", (int)k, b ? "true" : "false");
			if (kind == 2 && vals[k].s != s) fail("parameter %i is %s instead of %s", (int)k, show(s).c_str(), show(vals[k].s).c_str());
		}
		free(buf);
	}
	done();
}
