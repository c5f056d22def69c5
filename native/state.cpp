// what is saved to disk comes back: real saves and loads of the program's state in a scratch directory
#include "world.h"
#include "DiskState.h"
#include "DownloadInfo.h"
#include "NewsServer.h"
#include "FeedInfo.h"
#include "StatMeter.h"
#include "FileSystem.h"
#include "Util.h"
#include <sys/wait.h>
#include <dirent.h>
using namespace vt;
using std::string;
static string dir, hist;
static void step(const string& s) { hist += s + "; "; now(hist); }
static string text(int maxlen, bool line = true)
{
	int len = coin(60) ? range(0, 30) : coin(70) ? range(0, 300) : range(0, maxlen);
	if (coin(3)) len = maxlen;
	string s;
	for (int i = 0; i < len; i++) { char c = coin(70) ? (char)range('a', 'z') : coin(60) ? "%s %i,=.-_\"<>"[rnd(13)] : (char)(128 + rnd(127)); s += c; }
	if (line && len > 0 && coin(4)) s[rnd(len)] = '\n';
	return s;
}
static string some(int maxlen) { string s = text(maxlen); return s.empty() || s[0] == '\n' ? "x" + s.substr(0, maxlen - 1) : s; }
static int64 big() { return coin(30) ? 0 : (int64)(rnd() & 0xffffffffffffull) + (coin(50) ? 0 : 0xfffffff0u); }
static int num() { return coin(20) ? 0 : coin(60) ? range(0, 5000) : (int)(rnd() & 0x7fffffff); }
static uint32 u32() { return coin(20) ? 0 : (uint32)rnd(); }
static string T(const char* s) { string r = s ? s : ""; for (char& c : r) if (c == '\n') c = ' '; return show(r); }
#define F(name, x) out += fmt("%s%s = %lld\n", pre.c_str(), name, (long long)(x));
#define S(name, x) out += pre + name + " = " + T(x) + "\n";
typedef std::vector<std::pair<int, std::pair<int, int>>> Stats;
static string stats(ServerStatList* l)
{
	string r; std::vector<string> v;
	for (ServerStat& s : *l) v.push_back(fmt("%d:%d/%d ", s.GetServerId(), s.GetSuccessArticles(), s.GetFailedArticles()));
	std::sort(v.begin(), v.end());
	for (auto& x : v) r += x;
	return r;
}
static string dumpFile(FileInfo* f, const string& pre, bool state)
{
	string out;
	S("subject", f->GetSubject()) S("filename", f->GetFilename()) S("origname", f->GetOrigname())
	F("filenameConfirmed", f->GetFilenameConfirmed()) F("time", f->GetTime()) F("size", f->GetSize()) F("missedSize", f->GetMissedSize())
	F("remainingSize", state ? f->GetRemainingSize() : f->GetSize() - f->GetMissedSize()) F("parFile", f->GetParFile())
	F("totalArticles", f->GetTotalArticles()) F("missedArticles", f->GetMissedArticles())
	F("groups", f->GetGroups()->size())
	for (CString& g : *f->GetGroups()) S("group", g)
	if (state)
	{
		F("successArticles", f->GetSuccessArticles()) F("failedArticles", f->GetFailedArticles()) F("successSize", f->GetSuccessSize()) F("failedSize", f->GetFailedSize())
		S("hash16k", f->GetHash16k()) S("parSetId", f->GetParSetId())
		out += pre + "servers = " + stats(f->GetServerStats()) + "\n";
	}
	return out;
}
static string dumpNzb(NzbInfo* n, bool files)
{
	string out, pre = fmt("nzb %d: ", n->GetId());
	F("kind", n->GetKind()) S("url", n->GetUrl()) S("filename", n->GetFilename()) S("destDir", n->GetDestDir()) S("finalDir", n->GetFinalDir())
	S("queuedFilename", n->GetQueuedFilename()) S("name", n->GetName()) S("category", n->GetCategory()) F("priority", n->GetPriority())
	F("post-processing", n->GetPostInfo() != nullptr)
	if (n->GetPostInfo()) { F("post stage", n->GetPostInfo()->GetStage()) F("forceParFull", n->GetPostInfo()->GetForceParFull()) F("forceRepair", n->GetPostInfo()->GetForceRepair()) }
	F("deletePaused", n->GetDeletePaused()) F("manyDupeFiles", n->GetManyDupeFiles()) F("feedId", n->GetFeedId())
	F("parStatus", n->GetParStatus()) F("unpackStatus", n->GetUnpackStatus()) F("moveStatus", n->GetMoveStatus()) F("parRenameStatus", n->GetParRenameStatus())
	F("rarRenameStatus", n->GetRarRenameStatus()) F("directRenameStatus", n->GetDirectRenameStatus()) F("deleteStatus", n->GetDeleteStatus())
	F("markStatus", n->GetMarkStatus()) F("urlStatus", n->GetUrlStatus())
	F("unpackCleanedUpDisk", n->GetUnpackCleanedUpDisk()) F("healthPaused", n->GetHealthPaused()) F("addUrlPaused", n->GetAddUrlPaused())
	F("fileCount", n->GetFileCount()) F("parkedFileCount", n->GetParkedFileCount()) F("messageCount", n->GetMessageCount())
	F("minTime", n->GetMinTime()) F("maxTime", n->GetMaxTime()) F("parFull", n->GetParFull()) F("extraParBlocks", n->GetExtraParBlocks())
	F("fullContentHash", n->GetFullContentHash()) F("filteredContentHash", n->GetFilteredContentHash())
	F("size", n->GetSize()) F("successSize", n->GetSuccessSize()) F("failedSize", n->GetFailedSize())
	F("parSize", n->GetParSize()) F("parSuccessSize", n->GetParSuccessSize()) F("parFailedSize", n->GetParFailedSize())
	F("totalArticles", n->GetTotalArticles()) F("successArticles", n->GetSuccessArticles()) F("failedArticles", n->GetFailedArticles())
	S("dupeKey", n->GetDupeKey()) F("dupeMode", n->GetDupeMode()) F("dupeScore", n->GetDupeScore()) F("dupeHint", n->GetDupeHint())
	F("downloadedSize", n->GetDownloadedSize()) F("downloadSec", n->GetDownloadSec()) F("postTotalSec", n->GetPostTotalSec())
	F("parSec", n->GetParSec()) F("repairSec", n->GetRepairSec()) F("unpackSec", n->GetUnpackSec())
	F("completed files", n->GetCompletedFiles()->size())
	for (CompletedFile& c : *n->GetCompletedFiles())
	{
		F("completed id", c.GetId()) F("completed status", c.GetStatus()) F("completed crc", c.GetCrc()) F("completed parFile", c.GetParFile())
		S("completed hash16k", c.GetHash16k()) S("completed parSetId", c.GetParSetId()) S("completed filename", c.GetFilename()) S("completed origname", c.GetOrigname())
	}
	F("parameters", n->GetParameters()->size())
	for (NzbParameter& p : *n->GetParameters()) { S("parameter", p.GetName()) S("value", p.GetValue()) }
	F("script statuses", n->GetScriptStatuses()->size())
	for (ScriptStatus& s : *n->GetScriptStatuses()) { F("script status", s.GetStatus()) S("script", s.GetName()) }
	out += pre + "servers = " + stats(n->GetServerStats()) + "\n";
	for (FileInfo* f : n->GetFileList())
		if (!f->GetDeleted())
		{
			pre = fmt("nzb %d file %d: ", n->GetId(), f->GetId());
			F("paused", f->GetPaused()) F("extraPriority", f->GetExtraPriority()) F("group", f->GetNzbInfo() == n)
			if (files) out += dumpFile(f, pre, false);
		}
	return out;
}
static string dumpHistory(DownloadQueue* q)
{
	string out;
	for (HistoryInfo* h : q->GetHistory())
	{
		string pre = fmt("history %d: ", h->GetId());
		F("kind", h->GetKind()) F("time", h->GetTime())
		if (h->GetKind() == HistoryInfo::hkDup)
		{
			DupInfo* d = h->GetDupInfo();
			F("status", d->GetStatus()) F("size", d->GetSize()) F("hash", d->GetFullContentHash()) F("filtered hash", d->GetFilteredContentHash())
			F("score", d->GetDupeScore()) F("mode", d->GetDupeMode()) S("name", d->GetName()) S("key", d->GetDupeKey())
		}
		else out += dumpNzb(h->GetNzbInfo(), false);
	}
	return out;
}
static string dumpQueue(DownloadQueue* q, bool files = true) { string r; for (NzbInfo* n : q->GetQueue()) r += dumpNzb(n, files); return r; }
static void same(const char* what, const string& want, const string& got)
{
	if (want == got) return;
	size_t i = 0, j = 0;
	while (i < want.size() && j < got.size())
	{
		size_t a = want.find('\n', i), b = got.find('\n', j);
		string x = want.substr(i, a - i), y = got.substr(j, b - j);
		if (x != y) fail("%s: saved \"%s\", restored \"%s\"", what, x.substr(0, 300).c_str(), y.substr(0, 300).c_str());
		i = a + 1; j = b + 1;
	}
	fail("%s: %s", what, want.size() > got.size() ? ("lost: " + want.substr(i, 200)).c_str() : ("added: " + got.substr(j, 200)).c_str());
}

static Servers servers;
static void fillStats(ServerStatList* l) { for (int i = 1; i <= 3; i++) if (coin(40)) l->StatOp(i, num(), num(), ServerStatList::soSet); }
static void fillNzb(NzbInfo* n, bool post)
{
	n->SetKind(coin(75) ? NzbInfo::nkNzb : NzbInfo::nkUrl);
	n->SetUrl(text(3000).c_str()); n->SetFilename(text(3000).c_str()); n->SetDestDir(text(3000).c_str()); n->SetFinalDir(text(1000).c_str());
	n->SetQueuedFilename(text(1000).c_str()); n->SetName(some(900).c_str()); n->SetCategory(text(300).c_str());
	n->SetPriority(range(-100, 900));
	if (post)
	{
		if (!n->GetPostInfo()) n->EnterPostProcess();
		n->GetPostInfo()->SetStage((PostInfo::EStage)range(0, PostInfo::ptFinished));
		n->GetPostInfo()->SetForceParFull(coin()); n->GetPostInfo()->SetForceRepair(coin());
	}
	n->SetDeletePaused(coin()); n->SetManyDupeFiles(coin()); n->SetFeedId(range(0, 5));
	n->SetParStatus((NzbInfo::EParStatus)range(0, 5)); n->SetUnpackStatus((NzbInfo::EPostUnpackStatus)range(0, 5)); n->SetMoveStatus((NzbInfo::EMoveStatus)range(0, 2));
	n->SetParRenameStatus((NzbInfo::EPostRenameStatus)range(0, 3)); n->SetRarRenameStatus((NzbInfo::EPostRenameStatus)range(0, 3));
	n->SetDirectRenameStatus((NzbInfo::EDirectRenameStatus)range(0, 3)); n->SetDeleteStatus((NzbInfo::EDeleteStatus)range(0, 6));
	n->SetMarkStatus((NzbInfo::EMarkStatus)range(0, 3));
	n->SetUrlStatus(n->GetKind() == NzbInfo::nkNzb ? (NzbInfo::EUrlStatus)range(0, 6) : coin() ? NzbInfo::lsNone : (NzbInfo::EUrlStatus)range(NzbInfo::lsFailed, NzbInfo::lsScanFailed));
	n->SetUnpackCleanedUpDisk(coin()); n->SetHealthPaused(coin()); n->SetAddUrlPaused(coin());
	n->SetFileCount(num()); n->SetParkedFileCount(num()); n->SetMessageCount(num()); n->SetMinTime(num()); n->SetMaxTime(num());
	n->SetParFull(coin()); n->SetExtraParBlocks(range(-100, 5000)); n->SetFullContentHash(u32()); n->SetFilteredContentHash(u32());
	n->SetSize(big()); n->SetSuccessSize(big()); n->SetFailedSize(big()); n->SetParSize(big()); n->SetParSuccessSize(big()); n->SetParFailedSize(big());
	n->SetTotalArticles(num()); n->SetSuccessArticles(num()); n->SetFailedArticles(num());
	n->SetDupeKey(text(1000).c_str()); n->SetDupeMode((EDupeMode)range(0, 2)); n->SetDupeScore(range(-1000, 100000)); n->SetDupeHint((NzbInfo::EDupeHint)range(0, 2));
	n->SetDownloadedSize(big()); n->SetDownloadSec(num()); n->SetPostTotalSec(num()); n->SetParSec(num()); n->SetRepairSec(num()); n->SetUnpackSec(num());
	n->GetCompletedFiles()->clear();
	static int cid = 100000;
	for (int i = range(0, 3); i > 0; i--)
		n->GetCompletedFiles()->emplace_back(cid++, some(900).c_str(), coin() ? nullptr : some(900).c_str(), (CompletedFile::EStatus)range(1, 3), u32(), coin(),
			coin() ? nullptr : "0123456789abcdef0123456789abcdef", coin() ? nullptr : "fedcba9876543210fedcba9876543210");
	n->GetParameters()->clear();
	for (int i = range(0, 3); i > 0; i--) n->GetParameters()->SetParameter(fmt("p%d:%d", i, (int)rnd(10)).c_str(), some(3000).c_str());
	n->GetScriptStatuses()->clear();
	for (int i = range(0, 2); i > 0; i--) n->GetScriptStatuses()->emplace_back(some(500).c_str(), (ScriptStatus::EStatus)range(0, 2));
	fillStats(n->GetServerStats());
}
static void fillFile(FileInfo* f)
{
	f->SetSubject(text(1000).c_str()); f->SetFilename(text(1000).c_str()); f->SetOrigname(coin() ? nullptr : some(1000).c_str());
	f->SetFilenameConfirmed(coin()); f->SetTime(num()); f->SetSize(big()); f->SetMissedSize(coin() ? 0 : big()); f->SetRemainingSize(f->GetSize() - f->GetMissedSize());
	f->SetParFile(coin(30)); f->SetTotalArticles(num()); f->SetMissedArticles(num());
	for (int i = range(0, 3); i > 0; i--) f->GetGroups()->push_back(some(200).c_str());
	for (int i = range(1, 6), p = 1; i > 0; i--)
	{
		auto a = std::make_unique<ArticleInfo>();
		a->SetPartNumber(p++); a->SetSize(num()); a->SetMessageId(some(300).c_str());
		f->GetArticles()->push_back(std::move(a));
	}
}
static string dumpArticles(FileInfo* f, bool state)
{
	string out, pre = fmt("file %d: ", f->GetId());
	F("articles", f->GetArticles()->size())
	int n = f->GetArticles()->size(), done = 0;
	for (ArticleInfo* a : f->GetArticles())
	{
		F("part", a->GetPartNumber()) F("size", a->GetSize()) S("message-id", a->GetMessageId())
		if (state)
		{
			int st = a->GetStatus() == ArticleInfo::aiRunning ? ArticleInfo::aiUndefined : a->GetStatus();
			if (done == n - 1) st = ArticleInfo::aiUndefined;
			if (st) done++;
			F("status", st) F("offset", a->GetSegmentOffset()) F("segment size", a->GetSegmentSize()) F("crc", a->GetCrc())
		}
	}
	return out;
}
struct Queue : public DownloadQueue
{
	bool EditEntry(int, EEditAction, const char*) override { return false; }
	bool EditList(IdList*, NameList*, EMatchMode, EEditAction, const char*) override { return false; }
	void HistoryChanged() override {}
	void Save() override {}
	void SaveChanged() override {}
};
static void wipe() { DIR* d = opendir(dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
static string path(const char* n) { return dir + "/" + n; }
static bool exists(const string& p) { return access(p.c_str(), F_OK) == 0; }
static string slurp(const string& p) { FILE* f = fopen(p.c_str(), "rb"); string r; if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
static void spit(const string& p, const string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

static void queueCase(DiskState& ds)
{
	Queue q;
	int nn = range(0, 3), nh = range(0, 3);
	hist.clear(); step(fmt("%d nzbs, %d history items", nn, nh));
	g_Options->m_continuePartial = true; g_Options->m_flushQueue = coin(2);
	for (int i = 0; i < nn; i++)
	{
		auto n = std::make_unique<NzbInfo>();
		fillNzb(n.get(), coin(40));
		for (int k = range(0, 3); k > 0; k--)
		{
			auto f = std::make_unique<FileInfo>();
			f->SetNzbInfo(n.get()); fillFile(f.get()); f->SetPaused(coin()); f->SetExtraPriority(coin(20));
			if (!ds.SaveFile(f.get())) fail("file %d could not be saved", f->GetId());
			if (coin(10)) f->SetDeleted(true);
			n->GetFileList()->Add(std::move(f), coin(20));
		}
		q.GetQueue()->Add(std::move(n), false);
	}
	for (int i = 0; i < nh; i++)
	{
		std::unique_ptr<HistoryInfo> h;
		int kind = range(0, 2);
		if (kind == 2)
		{
			auto d = std::make_unique<DupInfo>();
			d->SetId(50000 + i); d->SetName(some(900).c_str()); d->SetDupeKey(text(900).c_str()); d->SetDupeScore(range(-100, 1000)); d->SetDupeMode((EDupeMode)range(0, 2));
			d->SetSize(big()); d->SetFullContentHash(u32()); d->SetFilteredContentHash(u32()); d->SetStatus((DupInfo::EStatus)range(0, 5));
			h = std::make_unique<HistoryInfo>(std::move(d));
		}
		else
		{
			auto n = std::make_unique<NzbInfo>(); fillNzb(n.get(), false); n->SetKind(kind == 0 ? NzbInfo::nkNzb : NzbInfo::nkUrl);
			n->SetUrlStatus(NzbInfo::lsNone);
			h = std::make_unique<HistoryInfo>(std::move(n));
		}
		h->SetTime(num());
		q.GetHistory()->Add(std::move(h), false);
	}
	string oldq, before;
	bool crash = coin(25) && nn > 0;
	if (!ds.SaveDownloadQueue(&q, true)) fail("the queue could not be saved");
	step("saved");
	if (crash) { oldq = slurp(path("queue")); before = dumpQueue(&q); }
	bool hiber = coin(40);
	if (hiber) { if (!ds.SaveAllFileInfos(&q)) fail("file infos not saved"); step("file infos saved"); }
	if (nn && coin(50))
	{
		for (NzbInfo* n : q.GetQueue())
			if (coin(50))
			{
				std::vector<std::pair<int, bool>> keep;
				int kind = n->GetKind();
				fillNzb(n, n->GetPostInfo() != nullptr);
				n->SetKind((NzbInfo::EKind)kind); if (kind == NzbInfo::nkUrl && n->GetUrlStatus() && n->GetUrlStatus() < NzbInfo::lsFailed) n->SetUrlStatus(NzbInfo::lsFailed);
				if (n->GetUrlStatus() < NzbInfo::lsFailed) n->SetUrlStatus(NzbInfo::lsFailed);
				for (FileInfo* f : n->GetFileList()) f->SetPaused(coin());
				n->SetChanged(true); step(fmt("nzb %d changed", n->GetId()));
			}
		if (crash) { if (!ds.SaveDownloadQueue(&q, coin())) fail("the queue could not be saved"); }
		else { if (!ds.SaveDownloadProgress(&q)) fail("the progress could not be saved"); step("progress saved"); }
	}
	string wantq = dumpQueue(&q), wanth = dumpHistory(&q);
	if (crash)
	{
		string newq = slurp(path("queue"));
		unlink(path("files").c_str());
		if (coin()) { spit(path("queue"), oldq); spit(path("queue.new"), newq.substr(0, rnd(newq.size() + 1))); wantq = before; step("interrupted while the queue was written again"); }
		else { unlink(path("queue").c_str()); spit(path("queue.new"), newq); step("interrupted between removal of the old queue file and renaming of the new one"); }
	}
	Queue r;
	if (!ds.LoadDownloadQueue(&r, &servers)) fail("the saved queue could not be loaded");
	same("queue", wantq, dumpQueue(&r)); same("history", wanth, dumpHistory(&r));
	// new identifiers never collide with restored ones
	NzbInfo fresh; FileInfo freshf;
	for (NzbInfo* n : r.GetQueue()) { if (n->GetId() == fresh.GetId()) fail("a new nzb gets the identifier %d of a restored one", fresh.GetId()); for (FileInfo* f : n->GetFileList()) if (f->GetId() == freshf.GetId()) fail("a new file gets the identifier %d of a restored one", freshf.GetId()); }
	for (HistoryInfo* h : r.GetHistory()) if (h->GetId() == fresh.GetId()) fail("a new nzb gets the identifier %d of a history item", fresh.GetId());
	// restored totals
	for (NzbInfo* n : r.GetQueue()) { int64 rem = 0; for (FileInfo* f : n->GetFileList()) rem += f->GetRemainingSize(); if (n->GetRemainingSize() != rem) fail("remaining size of nzb %d is %lld, its files tell %lld", n->GetId(), (long long)n->GetRemainingSize(), (long long)rem); }
	if (exists(path("queue.new")) && !crash) fail("temporary queue file left behind");
}
static void fileCase(DiskState& ds)
{
	hist.clear();
	FileInfo f; fillFile(&f);
	step(fmt("file %d, %d articles", f.GetId(), (int)f.GetArticles()->size()));
	g_Options->m_directWrite = coin();
	if (!ds.SaveFile(&f)) fail("file not saved");
	{
		FileInfo g(f.GetId());
		if (!ds.LoadFile(&g, true, true)) fail("file not loaded");
		same("file", dumpFile(&f, "", false) + dumpArticles(&f, false), dumpFile(&g, "", false) + dumpArticles(&g, false));
	}
	int all = 0;
	for (ArticleInfo* a : f.GetArticles())
	{
		a->SetStatus((ArticleInfo::EStatus)range(0, 3)); a->SetSegmentOffset(coin(80) ? big() & 0xffffffffffll : 0); a->SetSegmentSize(num()); a->SetCrc(u32());
		all += a->GetStatus() != ArticleInfo::aiUndefined && a->GetStatus() != ArticleInfo::aiRunning;
	}
	f.SetSuccessArticles(num()); f.SetFailedArticles(num()); f.SetRemainingSize(big()); f.SetSuccessSize(big()); f.SetFailedSize(big());
	f.SetHash16k(coin() ? nullptr : "00112233445566778899aabbccddeeff"); f.SetParSetId(coin() ? nullptr : "aa112233445566778899aabbccddeeff");
	f.SetParFile(coin()); f.SetFilename(text(1000).c_str()); fillStats(f.GetServerStats());
	bool completed = false;
	if (!ds.SaveFileState(&f, completed)) fail("file state not saved");
	step("state saved");
	FileInfo g(f.GetId());
	if (!ds.LoadFile(&g, true, coin())) fail("file not loaded");
	bool had = !g.GetArticles()->empty();
	if (!ds.LoadFileState(&g, &servers, completed)) fail("file state not loaded");
	if (!had) { for (size_t i = 0; i < g.GetArticles()->size(); i++) { ArticleInfo* a = g.GetArticles()->at(i).get(); ArticleInfo* o = f.GetArticles()->at(i).get(); a->SetPartNumber(o->GetPartNumber()); a->SetSize(o->GetSize()); a->SetMessageId(o->GetMessageId()); } }
	same("file state", dumpFile(&f, "", true) + dumpArticles(&f, true), dumpFile(&g, "", true) + dumpArticles(&g, true));
	int done = 0;
	for (ArticleInfo* a : g.GetArticles()) done += a->GetStatus() != ArticleInfo::aiUndefined;
	if (done != g.GetCompletedArticles()) fail("%d articles are done, completed articles says %d", done, g.GetCompletedArticles());
}
static void feedCase(DiskState& ds)
{
	hist.clear(); step("feeds");
	Feeds a, b; FeedHistory ha, hb;
	for (int i = 0, n = range(0, 3); i < n; i++)
	{
		string url = fmt("http://h%d/", i) + text(800, false), filter = text(300, false);
		a.push_back(std::make_unique<FeedInfo>(i + 1, "n", url.c_str(), false, 15, filter.c_str(), false, "", 0, ""));
		b.push_back(std::make_unique<FeedInfo>(i + 1, "n", url.c_str(), false, 15, filter.c_str(), false, "", 0, ""));
		a.back()->SetLastUpdate(num());
	}
	for (int i = range(0, 4); i > 0; i--) ha.emplace_back(some(900).c_str(), (FeedHistoryInfo::EStatus)range(0, 2), num());
	if (!ds.SaveFeeds(&a, &ha) || !ds.LoadFeeds(&b, &hb)) fail("feeds not saved or not loaded");
	string wa, wb;
	for (auto& f : a) wa += fmt("last update %lld\n", (long long)f->GetLastUpdate());
	for (auto& f : b) wb += fmt("last update %lld\n", (long long)f->GetLastUpdate());
	for (auto& h : ha) wa += "feed item " + T(h.GetUrl()) + fmt(" %d %lld\n", h.GetStatus(), (long long)h.GetLastSeen());
	for (auto& h : hb) wb += "feed item " + T(h.GetUrl()) + fmt(" %d %lld\n", h.GetStatus(), (long long)h.GetLastSeen());
	same("feeds", wa, wb);
}
static string dumpVolumes(ServerVolumes* v)
{
	string out;
	for (size_t i = 0; i < v->size(); i++)
	{
		ServerVolume& s = (*v)[i]; string pre = fmt("server %d: ", (int)i);
		F("first day", s.GetFirstDay()) F("time", s.GetDataTime()) F("custom time", s.GetCustomTime()) F("total", s.GetTotalBytes()) F("custom", s.GetCustomBytes())
		for (auto* a : {s.BytesPerSeconds(), s.BytesPerMinutes(), s.BytesPerHours(), s.BytesPerDays()}) { F("slots", a->size()) for (int64 x : *a) F("slot", x) }
	}
	return out;
}
static void statCase(DiskState& ds)
{
	hist.clear(); step("volume statistics");
	Servers sv; ServerVolumes va, vb;
	int n = range(1, 3);
	for (int i = 1; i <= n; i++) sv.push_back(std::make_unique<NewsServer>(i, true, fmt("srv%d", i).c_str(), fmt("host%d", i).c_str(), 119, 0, fmt("u%d", i).c_str(), "", false, false, "", 4, 0, 0, 0, false));
	for (int i = 0; i <= n; i++)
	{
		va.emplace_back(); vb.emplace_back();
		ServerVolume& s = va.back();
		s.SetFirstDay(num()); s.SetDataTime(num()); s.SetCustomTime(num()); s.SetTotalBytes(big()); s.SetCustomBytes(big());
		s.BytesPerDays()->resize(range(0, 5));
		for (auto* a : {s.BytesPerSeconds(), s.BytesPerMinutes(), s.BytesPerHours(), s.BytesPerDays()}) for (int64& x : *a) x = big();
	}
	bool perfect = false;
	if (!ds.SaveStats(&sv, &va) || !ds.LoadStats(&sv, &vb, &perfect)) fail("statistics not saved or not loaded");
	if (!perfect) fail("unchanged servers are not recognised");
	same("volumes", dumpVolumes(&va), dumpVolumes(&vb));
}
static void messageCase(DiskState& ds)
{
	hist.clear(); step("nzb messages");
	int id = range(1, 1000); std::vector<std::pair<int, string>> want; MessageList got;
	for (int i = range(0, 4); i > 0; i--) { int k = range(0, 4); string t = some(850); ds.AppendNzbMessage(id, (Message::EKind)k, t.c_str()); while (!t.empty() && (t.back() == ' ' || t.back() == '\n')) t.pop_back(); want.emplace_back(k, t); }
	ds.LoadNzbMessages(id, &got);
	if (got.size() != want.size()) fail("%d messages written, %d read", (int)want.size(), (int)got.size());
	for (size_t i = 0; i < want.size(); i++)
		if (got[i].GetKind() != want[i].first || T(got[i].GetText()) != T(want[i].second.c_str())) fail("message %s of kind %d read as %s of kind %d", T(want[i].second.c_str()).c_str(), want[i].first, T(got[i].GetText()).c_str(), got[i].GetKind());
}
int main(int argc, char** argv)
{
	char tmpl[] = "/tmp/verif-state-XXXXXX";
	if (!mkdtemp(tmpl)) vt::error("no scratch directory");
	dir = tmpl;
	pid_t pid = fork();
	if (pid) { int st = 0; waitpid(pid, &st, 0); wipe(); rmdir(dir.c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 1; }
	init(argc, argv);
	world();
	g_Options->m_queueDir = dir.c_str(); g_Options->m_tempDir = dir.c_str();
	for (int i = 1; i <= 3; i++) { servers.push_back(std::make_unique<NewsServer>(i, true, "s", "h", 119, 0, "", "", false, false, "", 4, 0, 0, 0, false)); servers.back()->SetStateId(i); }
	DiskState ds;
	while (more())
	{
		wipe();
		if (coin(50)) queueCase(ds); else if (coin(50)) fileCase(ds); else if (coin(40)) feedCase(ds); else if (coin(50)) statCase(ds); else messageCase(ds);
	}
	return done();
}
