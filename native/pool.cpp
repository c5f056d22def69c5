// random histories of requests, returns, blocks, configuration changes and clean-ups on the real server pool
#include "world.h"
#include "ServerPool.h"
#include "Util.h"
#include <set>
#include <map>
#include <algorithm>
using namespace vt;
using std::string;
static time_t s_now = 1000000;
time_t Util::CurrentTime() { return s_now; }
static std::set<Connection*> s_alive, s_closed, s_killed;
Connection::Connection(const char* host, int port, bool tls) : m_host(host), m_port(port), m_tls(tls) { s_alive.insert(this); }
Connection::~Connection() { s_alive.erase(this); s_killed.insert(this); }
bool Connection::Connect() { m_status = csConnected; return true; }
bool Connection::Disconnect() { m_status = csDisconnected; s_closed.insert(this); return true; }
void Connection::PrintError(const char*) {}
TlsSocket::~TlsSocket() {}
void TlsSocket::PrintError(const char*) {}
NntpConnection::NntpConnection(NewsServer* s) : Connection(s->GetHost(), s->GetPort(), s->GetTls()), m_newsServer(s) {}
bool NntpConnection::Connect() { return Connection::Connect(); }
bool NntpConnection::Disconnect() { return Connection::Disconnect(); }
static string hist;
static void log(const string& s) { hist += s + "; "; if (hist.size() > 6000) hist.erase(0, 2000); now(hist); }
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	while (more())
	{
		hist.clear(); s_alive.clear();
		srand(rnd());
		ServerPool pool;
		std::vector<NewsServer*> srv;
		int retry = coin(80) ? range(1, 20) : 0;
		pool.SetRetryInterval(retry);
		string d = fmt("retry interval %d;", retry);
		int ns = range(1, 5);
		for (int i = 0; i < ns; i++)
		{
			auto s = std::make_unique<NewsServer>(i + 1, coin(80), "s", "h", 119, 0, "", "", false, false, "", coin(10) ? 0 : range(1, 3), 0, range(0, 3) * range(1, 2), coin(30) ? range(1, 2) : 0, coin(30));
			d += fmt(" s%d%s level %d group %d %d connections%s,", i + 1, s->GetActive() ? "" : " inactive", s->GetLevel(), s->GetGroup(), s->GetMaxConnections(), s->GetOptional() ? " optional" : "");
			srv.push_back(s.get());
			pool.AddServer(std::move(s));
		}
		log(d);
		std::map<NntpConnection*, time_t> freed;
		std::set<NntpConnection*> used;
		auto norm = [&]()
		{
			int mn = srv[0]->GetLevel(); std::set<int> lv;
			for (NewsServer* s : srv) mn = std::min(mn, s->GetLevel());
			for (NewsServer* s : srv) if ((s->GetActive() && s->GetMaxConnections() > 0) || s->GetLevel() == mn) lv.insert(s->GetLevel());
			for (NewsServer* s : srv)
			{
				bool in = (s->GetActive() && s->GetMaxConnections() > 0) || s->GetLevel() == mn;
				int want = in ? (int)std::distance(lv.begin(), lv.find(s->GetLevel())) : -1;
				if (s->GetNormLevel() != want) fail("normalized level of s%d is %d instead of %d", s->GetId(), s->GetNormLevel(), want);
			}
			if (pool.GetMaxNormLevel() != (int)lv.size() - 1) fail("maximum normalized level is %d instead of %d", pool.GetMaxNormLevel(), (int)lv.size() - 1);
		};
		auto check = [&]()
		{
			std::map<NewsServer*, int> cnt; std::vector<int> idle(pool.m_levels.size());
			std::set<Connection*> all;
			for (auto& c : pool.m_connections)
			{
				NewsServer* s = c->GetNewsServer();
				cnt[s]++; all.insert(c.get());
				if (!c->GetInUse() && s->GetActive() && s->GetNormLevel() >= 0) { if (s->GetNormLevel() >= (int)idle.size()) fail("level %d of an active server has no count", s->GetNormLevel()); idle[s->GetNormLevel()]++; }
				if (c->GetInUse() != (used.count(c.get()) > 0)) fail("connection of s%d is marked %s", s->GetId(), c->GetInUse() ? "in use although nobody has it" : "free while somebody uses it");
			}
			for (NntpConnection* c : used) if (!all.count(c)) fail("connection in use was destroyed");
			for (NewsServer* s : srv)
			{
				if (cnt[s] > s->GetMaxConnections()) fail("s%d has %d connections, allowed are %d", s->GetId(), cnt[s], s->GetMaxConnections());
				if (s->GetActive() && s->GetNormLevel() >= 0 && cnt[s] < s->GetMaxConnections()) fail("active s%d has only %d of %d connections", s->GetId(), cnt[s], s->GetMaxConnections());
			}
			for (size_t i = 0; i < idle.size(); i++) if (pool.m_levels[i] != idle[i]) fail("free connections counted on level %d: %d, there are %d", (int)i, pool.m_levels[i], idle[i]);
		};
		pool.InitConnections(); norm(); check();
		for (int step = range(5, 60); step; step--)
		{
			switch (rnd(12))
			{
			case 0: case 1: case 2: case 3: case 4:
			{
				int level = rnd(pool.GetMaxNormLevel() + 2);
				NewsServer* want = coin(25) ? srv[rnd(ns)] : nullptr;
				ServerPool::RawServerList ign; string is;
				if (coin(40)) for (NewsServer* s : srv) if (coin(40)) { ign.push_back(s); is += fmt(" s%d", s->GetId()); }
				bool noign = coin(20);
				log(fmt("t=%d get connection level %d%s%s ignoring%s", (int)s_now, level, want ? " from " : "", want ? fmt("s%d", want->GetId()).c_str() : "", noign ? " (null)" : is.c_str()));
				if (noign) ign.clear();
				auto isBlocked = [&](NewsServer* s) { return s->GetBlockTime() != 0 && s->GetBlockTime() <= s_now && s_now < s->GetBlockTime() + retry; };
				std::map<NewsServer*, bool> blocked; for (NewsServer* s : srv) { blocked[s] = isBlocked(s); if (pool.IsServerBlocked(s) != blocked[s]) fail("s%d is reported %s", s->GetId(), blocked[s] ? "usable during the retry interval" : "blocked outside of the retry interval"); }
				// per level: connections which must (sure) or may (maybe) be given out
				std::map<int, std::set<NntpConnection*>> sure, maybe; std::map<int, int> idle;
				for (auto& c : pool.m_connections)
				{
					NewsServer* s = c->GetNewsServer(); int l = s->GetNormLevel();
					if (used.count(c.get()) || !s->GetActive() || l < 0) continue;
					idle[l]++;
					if (want && s != want && !(want->GetGroup() > 0 && want->GetGroup() == s->GetGroup())) continue;
					bool skip = false;
					if (!want) for (NewsServer* x : ign) skip |= x == s || (x->GetGroup() > 0 && x->GetGroup() == s->GetGroup() && x->GetNormLevel() == s->GetNormLevel());
					if (skip) continue;
					if (c->GetStatus() == Connection::csConnected || !blocked[s]) { sure[l].insert(c.get()); maybe[l].insert(c.get()); }
					else for (auto& o : pool.m_connections) if (o->GetNewsServer() == s && !used.count(o.get()) && o->GetStatus() == Connection::csConnected) maybe[l].insert(c.get());
				}
				NntpConnection* r = pool.GetConnection(level, want, noign ? nullptr : &ign);
				int top = (int)pool.m_levels.size();
				if (r)
				{
					int l = r->GetNewsServer()->GetNormLevel();
					if (used.count(r)) fail("connection of s%d handed out although it is in use", r->GetNewsServer()->GetId());
					if (l < level) fail("connection from level %d for level %d", l, level);
					if (!maybe[l].count(r)) fail("unsuitable connection of s%d (active %d, blocked %d, connected %d) handed out", r->GetNewsServer()->GetId(), r->GetNewsServer()->GetActive(), (int)blocked[r->GetNewsServer()], r->GetStatus() == Connection::csConnected);
					top = l;
				}
				bool open = true;
				for (int l = level; l < top && open; l++)
				{
					if (!idle[l]) { if (r) fail("connection from level %d for level %d although level %d has no free connection", top, level, l); break; }
					if (!sure[l].empty()) fail("%s although s%d of level %d has a suitable free connection", r ? "next level used" : "no connection", (*sure[l].begin())->GetNewsServer()->GetId(), l);
					for (NewsServer* s : srv) if (s->GetNormLevel() == l && s->GetActive() && !(s->GetOptional() && isBlocked(s))) { if (r) fail("connection from level %d for level %d although s%d is neither blocked nor optional", top, level, s->GetId()); open = false; }
				}
				if (r) { used.insert(r); if (coin(80)) r->Connect(); }
				break;
			}
			case 5: case 6: case 7:
			{
				if (used.empty()) break;
				auto i = used.begin(); std::advance(i, rnd(used.size()));
				NntpConnection* c = *i; used.erase(i);
				bool u = coin(70);
				if (coin(10)) c->Disconnect();
				log(fmt("t=%d free %s of s%d", (int)s_now, u ? "used" : "unused", c->GetNewsServer()->GetId()));
				if (u) freed[c] = s_now;
				pool.FreeConnection(c, u);
				break;
			}
			case 8:
			{
				NewsServer* s = srv[rnd(ns)];
				log(fmt("t=%d block s%d", (int)s_now, s->GetId()));
				pool.BlockServer(s);
				if (s->GetBlockTime() != s_now) fail("blocked server has block time %d", (int)s->GetBlockTime());
				break;
			}
			case 9: s_now += coin() ? 1 : range(1, 15); if (coin(5)) s_now -= 30; break;
			case 10:
			{
				NewsServer* s = srv[rnd(ns)];
				s->SetActive(!s->GetActive());
				log(fmt("t=%d s%d becomes %s", (int)s_now, s->GetId(), s->GetActive() ? "active" : "inactive"));
				int gen = pool.GetGeneration();
				s_closed.clear(); s_killed.clear();
				pool.Changed(); norm();
				if (pool.GetGeneration() == gen) fail("change of the configuration is not announced");
				break;
			}
			case 11:
			{
				log(fmt("t=%d close unused", (int)s_now));
				s_closed.clear(); s_killed.clear();
				std::map<int, bool> busy; std::map<int, time_t> idle;
				struct C { NntpConnection* c; NewsServer* s; bool connected; };
				std::vector<C> all;
				for (auto& c : pool.m_connections)
				{
					NewsServer* s = c->GetNewsServer(); int l = s->GetNormLevel();
					all.push_back({c.get(), s, c->GetStatus() == Connection::csConnected});
					if (used.count(c.get())) busy[l] = true; else if (s->GetActive()) idle[l] = std::max(idle[l], s_now - (freed.count(c.get()) ? freed[c.get()] : 0));
				}
				pool.CloseUnusedConnections();
				for (C& c : all)
				{
					bool u = used.count(c.c), gone = s_killed.count(c.c), closed = s_closed.count(c.c); int l = c.s->GetNormLevel();
					if (u && (gone || closed)) fail("connection in use of s%d was closed", c.s->GetId());
					if (!u && gone != (l == -1 || !c.s->GetActive())) fail("unused connection of %s s%d was %s", c.s->GetActive() ? "active" : "inactive", c.s->GetId(), gone ? "removed" : "kept");
					if (!u && !gone && c.connected && closed != (!busy[l] && idle[l] > 5)) fail("idle connection of s%d (level %d, in use %d, idle %d sec) was %s", c.s->GetId(), l, (int)busy[l], (int)idle[l], closed ? "closed" : "kept open");
				}
				for (auto i = freed.begin(); i != freed.end();) if (s_killed.count(i->first)) i = freed.erase(i); else ++i;
				break;
			}
			}
			for (auto i = freed.begin(); i != freed.end();) if (!s_alive.count(i->first)) i = freed.erase(i); else ++i;
			check();
		}
		for (NntpConnection* c : used) pool.FreeConnection(c, false);
	}
	return done();
}
