// random requests from random users: who may run which command, what restricted users see, which files are served
#include "world.h"
#include <set>
#include <sys/stat.h>
#include "Connection.h"
#include "WebServer.h"
#include "RemoteServer.h"
#include "XmlRpc.h"
#include "BinRpc.h"
#include "MessageBase.h"
#include "ScriptConfig.h"
#include "Util.h"
#include "FileSystem.h"
using namespace vt;
using std::string;
static string in, out, ip;
static size_t pos;
bool Connection::Send(const char* b, int n) { out.append(b, n); return true; }
bool Connection::Recv(char* b, int n) { if (in.size() - pos < (size_t)n) return false; memcpy(b, in.data() + pos, n); pos += n; return true; }
char* Connection::ReadLine(char* b, int size, int* n)
{
	size_t e = in.find('\n', pos); e = e == string::npos ? in.size() : e + 1;
	e = std::min(e, pos + size - 1);
	if (e == pos) return nullptr;
	memcpy(b, in.data() + pos, e - pos); b[e - pos] = 0; pos = e;
	return b;
}
const char* Connection::GetRemoteAddr() { return ip.c_str(); }
static std::set<string> effects;
void ExitProc() { effects.insert("shutdown"); }
void Reload() { effects.insert("reload"); }
void WorkState::Changed() {}
bool ScriptConfig::SaveConfig(Options::OptEntries*) { effects.insert("saveconfig"); return true; }
bool ScriptConfig::LoadConfig(Options::OptEntries* e)
{
	effects.insert("loadconfig");
	static const char* const names[] = {"ControlPassword", "Server1.Password", "Server1.Username", "ControlUsername", "AddPassword", "ControlIp", "ControlPort", "FormAuth", "SecureControl", "SecurePort",
		"SecureCert", "SecureKey", "CertStore", "CertCheck", "AuthorizedIP", "DaemonUsername", "UMask", "Feed1.Password"};
	for (const char* x : names)
	{
		// names keep the case used in the configuration file
		string n(x); int how = rnd(4);
		for (char& c : n) c = how == 0 ? tolower(c) : how == 1 ? toupper(c) : how == 2 && coin() ? toupper(c) : c;
		e->emplace_back(n.c_str(), "ZZSECRET");
	}
	e->emplace_back("MainDir", "/visible"); e->emplace_back("script.sh:key", "ZZSECRET");
	return true;
}
static string b64(const string& s)
{
	static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	string r; size_t i = 0;
	for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; for (int k = 18; k >= 0; k -= 6) r += t[v >> k & 63]; }
	if (i + 1 == s.size()) { unsigned v = (unsigned char)s[i] << 16; r += t[v >> 18]; r += t[v >> 12 & 63]; r += "=="; }
	else if (i + 2 == s.size()) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += '='; }
	return r;
}
static string pick(std::vector<string> v) { return v[rnd(v.size())]; }
struct Conf { string cu, cp, ru, rp, au, ap, ips; bool form; } cf;
enum { NONE = -1, CONTROL, RESTRICTED, ADD };
static bool wild(const char* p, const char* s) { if (!*p) return !*s; if (*p == '*') return wild(p + 1, s) || (*s && wild(p, s + 1)); return *s && (*p == '?' || *p == *s) && wild(p + 1, s + 1); }
static int level(const string& auth, const string& token)
{
	if (cf.cp.empty()) return CONTROL;
	size_t a = 0;
	while (a < cf.ips.size()) { size_t e = cf.ips.find_first_of(",;", a); if (e == string::npos) e = cf.ips.size(); string m = cf.ips.substr(a, e - a); while (!m.empty() && m[0] == ' ') m.erase(0, 1); if (!m.empty() && wild(m.c_str(), ip.c_str())) return CONTROL; a = e + 1; }
	if (auth.empty()) { for (int j = 0; j < 3; j++) if (token == WebProcessor::m_serverAuthToken[j]) return j; return NONE; }
	size_t c = auth.find(':');
	if (c == string::npos) return NONE;
	string u = auth.substr(0, c), p = auth.substr(c + 1);
	if ((cf.cu.empty() || u == cf.cu) && p == cf.cp) return CONTROL;
	if (!cf.ru.empty() && u == cf.ru && p == cf.rp) return RESTRICTED;
	if (!cf.au.empty() && u == cf.au && p == cf.ap) return ADD;
	return NONE;
}
static bool may(int lvl, const string& m) { return lvl == CONTROL || (lvl == RESTRICTED && m != "saveconfig") || (lvl == ADD && (m == "version" || m == "append" || m == "appendurl")); }
static string low(string s) { for (char& c : s) c = tolower(c); return s; }
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	CString::FormatStr("%s", "");
	string dir = getenv("VERIF_NATIVE_SCRATCH") ? getenv("VERIF_NATIVE_SCRATCH") : ".";
	string web = dir + "/web";
	mkdir(web.c_str(), 0755); mkdir((web + "/sub").c_str(), 0755); mkdir((dir + "/other").c_str(), 0755);
	std::vector<std::pair<string, string>> files = {{"/index.html", "<html>main</html>"}, {"/a.js", "var a;"}, {"/b.js", "var b;"}, {"/sub/c.css", "c{}"}, {"/sub/index.html", "<html>sub</html>"}};
	auto put = [](string n, string t) { FILE* f = fopen(n.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); };
	for (auto& f : files) put(web + f.first, f.second);
	put(dir + "/secret.txt", "ZZFILE"); put(dir + "/other/secret.txt", "ZZFILE"); put(web + ".txt", "ZZFILE");
	WebProcessor::Init();
	g_ScriptConfig = blank<ScriptConfig>();
	Connection* con = blank<Connection>();
	std::vector<string> methods = {"version", "pausedownload", "resumedownload", "pausepost", "pausescan", "shutdown", "reload", "saveconfig", "config", "loadconfig", "append", "rate", "nonsense", "SaveConfig", "Version", "PauseDownload", "saveconfigx", "versio"};
	int opt = 0; Options* o = nullptr;
	while (more())
	{
		if (opt-- <= 0)
		{
			opt = 40;
			cf = {pick({"", "nzb", "n", "nzbget"}), pick({"", "pw", "p", "pw2", "secret", "pw"}), pick({"", "nzb", "restr", "re"}), pick({"pw", "r", "", "p"}), pick({"", "add", "nzb", "ad"}), pick({"a", "pw", "", "p"}),
				pick({"", "", "10.0.0.1", "10.0.*.1", "10.0.0.12,10.0.0.3;192.168.*"}), coin(30)};
			std::vector<string> l = {"ControlUsername=" + cf.cu, "ControlPassword=" + cf.cp, "RestrictedUsername=" + cf.ru, "RestrictedPassword=" + cf.rp, "AddUsername=" + cf.au, "AddPassword=" + cf.ap,
				"AuthorizedIP=" + cf.ips, string("FormAuth=") + (cf.form ? "yes" : "no"), "WebDir=" + web, "Server1.Host=h", "Server1.Password=ZZSECRET", "Server1.Username=ZZSECRET", "script.sh:key=ZZSECRET", "SecureKey=ZZSECRET"};
			Options::CmdOptList c; for (auto& x : l) c.push_back(x.c_str());
			o = new Options(&c, nullptr); g_Options = o;
			o->m_webDir = web.c_str();
		}
		ip = pick({"10.0.0.1", "10.0.0.12", "10.0.0.3", "192.168.1.7", "10.0.0.2", "110.0.0.1", "10.0.0.11"});
		effects.clear(); out.clear(); pos = 0;
		g_WorkState->m_pauseDownload = coin(); bool paused = g_WorkState->m_pauseDownload;
		g_WorkState->m_pausePostProcess = false; g_WorkState->m_pauseScan = false; g_WorkState->m_speedLimit = 7;
		string user = pick({cf.cu, cf.ru, cf.au, "x", "", cf.ru + "x"}), pass = pick({cf.cp, cf.rp, cf.ap, "bad", "", cf.cp + "x", "p"});
		if (coin(10))
		{
			// binary protocol
			SNzbPauseUnpauseRequest r; memset(&r, 0, sizeof r);
			int act = range(1, 3);
			r.m_messageBase.m_structSize = htonl(sizeof r); r.m_messageBase.m_type = htonl(rrPauseUnpause); r.m_action = htonl(act); r.m_pause = htonl(1);
			strncpy(r.m_messageBase.m_username, user.c_str(), 31); strncpy(r.m_messageBase.m_password, pass.c_str(), 31);
			in.assign((char*)&r + 4, sizeof r - 4);
			now(fmt("binary request user %s password %s, control %s/%s", user.c_str(), pass.c_str(), cf.cu.c_str(), cf.cp.c_str()));
			g_WorkState->m_pauseDownload = false;
			BinRpcProcessor p; p.SetConnection(con); p.Execute();
			bool done = act == 1 ? g_WorkState->m_pauseDownload : act == 2 ? g_WorkState->m_pausePostProcess : g_WorkState->m_pauseScan;
			bool ok = (cf.cu.empty() || cf.cu == user) && pass == cf.cp;
			if (done != ok) fail("binary request was %s", done ? "executed" : "refused");
			continue;
		}
		string hdr, auth, token, prefix;
		switch (rnd(5))
		{
		case 0: auth = user + ":" + pass; hdr += "Authorization: Basic " + b64(auth) + "\r\n"; break;
		case 1: auth = user + ":" + pass; hdr += "X-Authorization: Basic " + b64(auth) + "\r\n"; if (coin(30)) hdr += "Authorization: Basic " + b64("x:y") + "\r\n"; break;
		case 2: if (!user.empty()) { auth = user + ":" + pass; prefix = "/" + auth; } break;
		case 3: token = pick({WebProcessor::m_serverAuthToken[0], WebProcessor::m_serverAuthToken[1], WebProcessor::m_serverAuthToken[2], "x", string(WebProcessor::m_serverAuthToken[0], 20), string(WebProcessor::m_serverAuthToken[0]) });
			hdr += "Cookie: Auth-Type=http; Auth-Token=" + token + "\r\n"; break;
		default: if (coin(30)) { auth = user; if (!auth.empty()) hdr += "Authorization: Basic " + b64(auth) + "\r\n"; } break;
		}
		int lvl = level(auth, token);
		string url, body; bool post = coin(); std::vector<string> calls; bool multi = false, rpc = !coin(30); int proto = rnd(3);
		if (rpc)
		{
			string m = pick(methods);
			const char* names[] = {"/xmlrpc", "/jsonrpc", "/jsonprpc"};
			if (proto == 2) post = false;
			url = names[proto];
			calls.push_back(m);
			if (!post) { url += "/" + m + (coin() ? "?x=1" : ""); if (proto == 2) url += string(url.find('?') == string::npos ? "?" : "&") + "callback=f"; }
			else if (proto == 0)
			{
				multi = coin(40);
				if (multi)
				{
					body = "<?xml version=\"1.0\"?><methodCall><methodName>system.multicall</methodName><params><param><value><array><data>";
					calls.clear();
					for (int k = range(1, 3); k > 0; k--) { calls.push_back(pick(methods)); body += "<value><struct><member><name>methodName</name><value><string>" + calls.back() + "</string></value></member><member><name>params</name><value><array><data><value><int>500</int></value></data></array></value></member></struct></value>"; }
					body += "</data></array></value></param></params></methodCall>";
				}
				else body = "<?xml version=\"1.0\"?><methodCall><methodName>" + m + "</methodName><params><param><value><int>500</int></value></param></params></methodCall>";
			}
			else body = "{\"method\" : \"" + m + "\", \"params\" : [500], \"id\":1}";
		}
		else
		{
			post = false;
			if (coin(60)) { url = pick({"/", "/index.html", "/a.js", "/b.js", "/sub/", "/sub/c.css", "/combined.js?a.js+b.js", "/combined.css?sub/c.css", "/nothing"}); }
			else { static const std::vector<string> fr = {"/", "..", ".", "a.js", "sub", "secret.txt", "%2e", "?", "+", "combined.js", "other", "web", "\\", "%00", "~", "'"}; url = coin(90) ? "/" : ""; for (int k = rnd(7); k > 0; k--) url += fr[rnd(fr.size())]; }
		}
		string full = (coin(15) ? "/nzbget" : "") + prefix + url;
		in = string(post ? "" : "") + full + " HTTP/1.1\r\n" + hdr + "Host: x\r\n";
		if (post) in += fmt("Content-Length: %i\r\n", (int)body.size());
		in += "\r\n" + body;
		if (post) in = " " + in;
		now(fmt("control %s:%s restricted %s:%s add %s:%s ips %s form %i from %s; %s%s", cf.cu.c_str(), cf.cp.c_str(), cf.ru.c_str(), cf.rp.c_str(), cf.au.c_str(), cf.ap.c_str(), cf.ips.c_str(), cf.form, ip.c_str(), post ? "POST" : "GET ", show(in).c_str()));
		RequestProcessor* rp = blank<RequestProcessor>();
		*(Connection**)&rp->m_connection = con;
		rp->ServWebRequest(post ? "POST" : "GET ");
		free(rp);
		bool ok200 = out.compare(0, 12, "HTTP/1.1 200") == 0;
		// token only to authorised users, and the one of their level
		size_t t = out.find("Auth-Token=");
		if (t != string::npos)
		{
			string given = out.substr(t + 11, out.find(';', t) - t - 11);
			if (given != (lvl == NONE ? "" : WebProcessor::m_serverAuthToken[lvl])) fail("a user of level %i received token %s", lvl, given.c_str());
		}
		if (out.find("ZZFILE") != string::npos) fail("a file outside of the web directory was served");
		bool p0 = paused, post0 = false, scan0 = false; int rate = 7; std::set<string> eff; bool hidden = false, secrets = false;
		if (rpc)
		{
			if (lvl == NONE) { if (out.compare(0, 12, "HTTP/1.1 401") != 0) fail("no access, but the answer is %s", out.substr(0, 12).c_str()); }
			else for (string& m0 : calls)
			{
				string m = low(m0);
				bool safe = m == "version" || m == "config" || m == "loadconfig";
				if (!may(lvl, m)) { if (out.find("Access denied") == string::npos) fail("%s of a user of level %i is not denied", m.c_str(), lvl); continue; }
				if (!post && !safe && proto != 2) { if (m != "nonsense" && m != "saveconfigx" && m != "versio" && out.find("Not safe") == string::npos) fail("%s by GET is not refused", m.c_str()); continue; }
				if (m == "pausedownload") p0 = true; else if (m == "resumedownload") p0 = false; else if (m == "pausepost") post0 = true; else if (m == "pausescan") scan0 = true;
				else if (m == "shutdown" || m == "reload" || m == "saveconfig" || m == "loadconfig") eff.insert(m);
				else if (m == "rate" && post && !multi) rate = 500 * 1024;
				else if (m == "rate") rate = g_WorkState->m_speedLimit;
				if (m == "config" || m == "loadconfig") { if (lvl == RESTRICTED) hidden = true; else secrets = true; if (lvl == RESTRICTED && out.find("***") == string::npos) fail("no masked options"); }
				if (m == "config" && out.find("MainDir") == string::npos) fail("no options returned");
				if (m == "version" && !ok200) fail("version is refused");
			}
			if (out.find("ZZSECRET") != string::npos && !secrets) fail("a user of level %i sees secrets", lvl);
			if (secrets && out.find("ZZSECRET") == string::npos) fail("the control user does not see the configuration");
		}
		else
		{
			if (!cf.form && lvl == NONE) { if (ok200 || out.find("HTTP/1.1 200") != string::npos) fail("page without authorisation"); }
			else
			{
				string want, u = url; bool known = false;
				if (u == "/") u = "/index.html"; else if (u == "/sub/") u = "/sub/index.html";
				for (auto& f : files) if (f.first == u) { want = f.second; known = true; }
				if (url == "/combined.js?a.js+b.js") want = "var a;var b;", known = true;
				if (url == "/combined.css?sub/c.css") want = "c{}", known = true;
				if (known && (!ok200 || out.substr(out.find("\r\n\r\n") + 4) != want)) fail("page is not served: %s", show(out).c_str());
			}
		}
		if (g_WorkState->m_pauseDownload != p0 || g_WorkState->m_pausePostProcess != post0 || g_WorkState->m_pauseScan != scan0 || g_WorkState->m_speedLimit != rate || effects != eff)
			fail("wrong commands were executed (level %i): paused %i/%i post %i/%i scan %i/%i rate %i/%i effects %i/%i", lvl, g_WorkState->m_pauseDownload, p0, g_WorkState->m_pausePostProcess, post0, g_WorkState->m_pauseScan, scan0, g_WorkState->m_speedLimit, rate, (int)effects.size(), (int)eff.size());
	}
	return done();
}
