// random histories of queue operations: the totals of every group stay the sums over its files
#include "world.h"
#include "QueueCoordinator.h"
#include "ArticleWriter.h"
#include "ArticleDownloader.h"
#include "DiskState.h"
#include "FileSystem.h"
#include "Util.h"
#include <map>
using namespace vt;
using std::string;
namespace YEncode { void init_crc_slice(); }
void ArticleWriter::CompleteFileParts() {}
bool ArticleWriter::MoveCompletedFiles(NzbInfo*, const char*) { return true; }
void DiskState::DiscardFiles(NzbInfo*, bool) {}
CachedSegmentData::~CachedSegmentData() {}
bool QueueEditor::EditEntry(DownloadQueue* dq, int id, DownloadQueue::EEditAction, const char*)
{
	for (FileInfo* f : dq->GetQueue()->Find(id)->GetFileList()) f->SetPaused(true);
	return true;
}
void ArticleDownloader::Run() {}
void ArticleDownloader::Stop() {}
struct Ghost { int files = 0; int64 size = 0, success = 0, failed = 0, parSize = 0, parSuccess = 0, parFailed = 0; int total = 0, okArt = 0, badArt = 0; std::map<int, std::pair<int, int>> stats; };
static std::map<NzbInfo*, Ghost> ghost;
static std::vector<std::unique_ptr<ArticleDownloader>> downloaders;
static QueueCoordinator* coord;
static string hist;
static void log(const string& s) { hist += s + "; "; if (hist.size() > 6000) hist.erase(0, 2000); now(hist); }
static string nm(NzbInfo* n) { return fmt("n%d", n->GetId()); }
static string fn(FileInfo* f) { return fmt("f%d", f->GetId()); }
template <typename A, typename B> void eq(const char* what, NzbInfo* n, A got, B want)
{
	if ((int64)got != (int64)want) fail("group n%d: %s is %lld, the files tell %lld", n->GetId(), what, (long long)got, (long long)want);
}
static void stats(const char* what, NzbInfo* n, ServerStatList* l, std::map<int, std::pair<int, int>> want)
{
	std::map<int, std::pair<int, int>> got;
	for (ServerStat& s : *l) if (s.GetSuccessArticles() || s.GetFailedArticles()) got[s.GetServerId()] = {s.GetSuccessArticles(), s.GetFailedArticles()};
	for (auto i = want.begin(); i != want.end();) if (!i->second.first && !i->second.second) i = want.erase(i); else ++i;
	if (got != want) fail("group n%d: %s differ from the sum over the files", n->GetId(), what);
}
static void check(NzbInfo* n)
{
	Ghost g = ghost[n];
	int64 rem = 0, paus = 0, cs = n->GetSuccessSize(), cf = n->GetFailedSize(), pcs = n->GetParSuccessSize(), pcf = n->GetParFailedSize();
	int npaus = 0, npar = 0, ca = n->GetSuccessArticles(), cb = n->GetFailedArticles(), extra = 0, act = 0;
	auto cur = g.stats;
	for (FileInfo* f : n->GetFileList())
	{
		if (f->GetNzbInfo() != n) fail("file f%d belongs to another group", f->GetId());
		rem += f->GetRemainingSize(); cs += f->GetSuccessSize(); cf += f->GetFailedSize(); ca += f->GetSuccessArticles(); cb += f->GetFailedArticles();
		extra += f->GetExtraPriority(); act += f->GetActiveDownloads();
		if (f->GetPaused()) { npaus++; paus += f->GetRemainingSize(); }
		if (f->GetParFile()) { npar++; pcs += f->GetSuccessSize(); pcf += f->GetFailedSize(); g.parSize += f->GetSize(); g.parFailed += f->GetMissedSize(); }
		g.files++; g.size += f->GetSize(); g.failed += f->GetMissedSize(); g.total += f->GetTotalArticles(); g.badArt += f->GetMissedArticles();
		for (ServerStat& s : *f->GetServerStats()) { cur[s.GetServerId()].first += s.GetSuccessArticles(); cur[s.GetServerId()].second += s.GetFailedArticles(); }
		int64 fs = 0, ff = 0, fr = 0; int na = 0, nb = 0, nc = 0;
		for (ArticleInfo* a : f->GetArticles())
			if (a->GetStatus() == ArticleInfo::aiFinished) { fs += a->GetSize(); na++; nc++; }
			else if (a->GetStatus() == ArticleInfo::aiFailed) { ff += a->GetSize(); nb++; nc++; }
			else fr += a->GetSize();
		eq("success size of a file", n, f->GetSuccessSize(), fs); eq("failed size of a file", n, f->GetFailedSize(), ff); eq("remaining size of a file", n, f->GetRemainingSize(), fr);
		eq("success articles of a file", n, f->GetSuccessArticles(), na); eq("failed articles of a file", n, f->GetFailedArticles(), nb); eq("completed articles of a file", n, f->GetCompletedArticles(), nc);
		eq("size of a file", n, f->GetSize(), fs + ff + fr + f->GetMissedSize());
	}
	eq("remaining size", n, n->GetRemainingSize(), rem); eq("paused size", n, n->GetPausedSize(), paus); eq("paused file count", n, n->GetPausedFileCount(), npaus);
	eq("remaining par count", n, n->GetRemainingParCount(), npar); eq("extra priority", n, n->GetExtraPriority(), extra); eq("active downloads", n, n->GetActiveDownloads(), act);
	eq("current success size", n, n->GetCurrentSuccessSize(), cs); eq("current failed size", n, n->GetCurrentFailedSize(), cf);
	eq("current par success size", n, n->GetParCurrentSuccessSize(), pcs); eq("current par failed size", n, n->GetParCurrentFailedSize(), pcf);
	eq("current success articles", n, n->GetCurrentSuccessArticles(), ca); eq("current failed articles", n, n->GetCurrentFailedArticles(), cb);
	eq("file count", n, n->GetFileCount(), g.files); eq("size", n, n->GetSize(), g.size); eq("par size", n, n->GetParSize(), g.parSize); eq("total articles", n, n->GetTotalArticles(), g.total);
	eq("success size", n, n->GetSuccessSize(), g.success); eq("failed size", n, n->GetFailedSize(), g.failed); eq("par success size", n, n->GetParSuccessSize(), g.parSuccess);
	eq("par failed size", n, n->GetParFailedSize(), g.parFailed); eq("success articles", n, n->GetSuccessArticles(), g.okArt); eq("failed articles", n, n->GetFailedArticles(), g.badArt);
	stats("server statistics", n, n->GetServerStats(), g.stats); stats("current server statistics", n, n->GetCurrentServerStats(), cur);
}
static void completed(NzbInfo* n, FileInfo* f)
{
	Ghost& g = ghost[n];
	g.files++; g.size += f->GetSize(); g.success += f->GetSuccessSize(); g.failed += f->GetFailedSize() + f->GetMissedSize(); g.total += f->GetTotalArticles();
	g.okArt += f->GetSuccessArticles(); g.badArt += f->GetFailedArticles() + f->GetMissedArticles();
	if (f->GetParFile()) { g.parSize += f->GetSize(); g.parSuccess += f->GetSuccessSize(); g.parFailed += f->GetFailedSize() + f->GetMissedSize(); }
	for (ServerStat& s : *f->GetServerStats()) { g.stats[s.GetServerId()].first += s.GetSuccessArticles(); g.stats[s.GetServerId()].second += s.GetFailedArticles(); }
}
static void addGroup()
{
	auto n = std::make_unique<NzbInfo>();
	NzbInfo* p = n.get();
	n->SetName("x"); n->SetFilename("x.nzb");
	int nf = range(1, 4);
	string d;
	for (int i = 0; i < nf; i++)
	{
		auto f = std::make_unique<FileInfo>();
		int na = range(0, 4), missed = rnd(3); int64 size = 0, ms = 0;
		for (int k = 0; k < na; k++) { auto a = std::make_unique<ArticleInfo>(); a->SetPartNumber(k + 1); a->SetSize(range(1, 1000)); size += a->GetSize(); f->GetArticles()->push_back(std::move(a)); }
		if (!na && !missed) { missed = 1; }
		if (missed) ms = range(1, 500);
		f->SetSize(size + ms); f->SetRemainingSize(size); f->SetMissedSize(ms); f->SetTotalArticles(na + missed); f->SetMissedArticles(missed); f->SetParFile(coin(30)); f->SetTime(range(1, 100));
		f->SetFilename("f"); f->SetFilenameConfirmed(true);
		f->SetNzbInfo(p);
		p->SetFileCount(p->GetFileCount() + 1); p->SetTotalArticles(p->GetTotalArticles() + f->GetTotalArticles()); p->SetSize(p->GetSize() + f->GetSize());
		p->SetFailedArticles(p->GetFailedArticles() + missed); p->SetFailedSize(p->GetFailedSize() + ms);
		if (f->GetParFile()) { p->SetParSize(p->GetParSize() + f->GetSize()); p->SetParFailedSize(p->GetParFailedSize() + ms); }
		d += fmt("f%d%s[%d articles, %d missed] ", f->GetId(), f->GetParFile() ? "par" : "", na, missed);
		p->GetFileList()->Add(std::move(f));
	}
	p->UpdateCurrentStats();
	ghost[p] = Ghost();
	coord->m_downloadQueue.GetQueue()->Add(std::move(n));
	log("add " + nm(p) + ": " + d);
	check(p);
}
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	YEncode::init_crc_slice();
	g_ArticleCache = blank<ArticleCache>();
	g_DiskState = (DiskState*)blank<char[4096]>();
	coord = new QueueCoordinator();
	g_QueueCoordinator = coord;
	NzbList* q = coord->m_downloadQueue.GetQueue();
	while (more())
	{
		hist.clear(); ghost.clear(); q->clear(); downloaders.clear(); coord->m_activeDownloads.clear();
		g_Options->m_healthCheck = coin(20) ? Options::hcPause : Options::hcNone;
		for (int k = range(1, 3); k; k--) addGroup();
		for (int step = range(5, 60); step && !q->empty(); step--)
		{
			NzbInfo* n = (*q)[rnd(q->size())].get();
			if (n->GetFileList()->empty()) { q->Remove(n); continue; }
			FileInfo* f = (*n->GetFileList())[rnd(n->GetFileList()->size())].get();
			switch (rnd(10))
			{
			case 0: { bool p = coin(); log((p ? "pause " : "resume ") + fn(f)); f->SetPaused(p); break; }
			case 1: { bool p = coin(); log((p ? "extra priority " : "no extra priority ") + fn(f)); f->SetExtraPriority(p); break; }
			case 2: case 3: case 4: case 5: case 6:
			{
				if (f->GetDeleted()) break;
				for (ArticleInfo* a : f->GetArticles())
					if (a->GetStatus() == ArticleInfo::aiUndefined && coin(60))
					{
						auto d = std::make_unique<ArticleDownloader>();
						d->SetFileInfo(f); d->SetArticleInfo(a); d->m_downloadedSize = rnd(100);
						a->SetStatus(ArticleInfo::aiRunning); f->SetActiveDownloads(f->GetActiveDownloads() + 1); n->SetActiveDownloads(n->GetActiveDownloads() + 1);
						coord->m_activeDownloads.push_back(d.get());
						log(fmt("start f%d/%d", f->GetId(), a->GetPartNumber()));
						downloaders.push_back(std::move(d));
						break;
					}
				break;
			}
			case 7: case 8:
			{
				if (downloaders.empty()) break;
				size_t i = rnd(downloaders.size());
				ArticleDownloader* d = downloaders[i].get();
				f = d->GetFileInfo(); n = f->GetNzbInfo();
				int st = rnd(5);
				d->m_status = st == 0 ? ArticleDownloader::adFailed : st == 1 ? ArticleDownloader::adRetry : ArticleDownloader::adFinished;
				if (d->m_status != ArticleDownloader::adRetry && coin()) d->m_serverStats.StatOp(range(1, 3), rnd(2), rnd(2), ServerStatList::soAdd);
				log(fmt("%s f%d/%d", st == 0 ? "failed" : st == 1 ? "retry" : "finished", f->GetId(), d->GetArticleInfo()->GetPartNumber()));
				// a file all of whose articles are done leaves the queue as completed
				FileInfo copy(f->GetId());
				int64 sz = d->GetArticleInfo()->GetSize();
				bool retry = st == 1, fin = !retry && f->GetCompletedArticles() + 1 == (int)f->GetArticles()->size() && !f->GetDeleted();
				if (fin)
				{
					copy.SetSize(f->GetSize()); copy.SetMissedSize(f->GetMissedSize()); copy.SetMissedArticles(f->GetMissedArticles()); copy.SetTotalArticles(f->GetTotalArticles()); copy.SetParFile(f->GetParFile());
					copy.SetSuccessSize(f->GetSuccessSize() + (st ? sz : 0)); copy.SetFailedSize(f->GetFailedSize() + (st ? 0 : sz));
					copy.SetSuccessArticles(f->GetSuccessArticles() + (st ? 1 : 0)); copy.SetFailedArticles(f->GetFailedArticles() + (st ? 0 : 1));
					*copy.GetServerStats() = *f->GetServerStats(); copy.GetServerStats()->ListOp(&d->m_serverStats, ServerStatList::soAdd);
				}
				int64 before = n->GetDownloadedSize();
				coord->Update(d, nullptr);
				eq("downloaded size", n, n->GetDownloadedSize(), before + d->GetDownloadedSize());
				if (fin) completed(n, &copy);
				if (std::find(coord->m_activeDownloads.begin(), coord->m_activeDownloads.end(), d) != coord->m_activeDownloads.end()) fail("finished downloader stays active");
				downloaders.erase(downloaders.begin() + i);
				break;
			}
			case 9:
			{
				int what = rnd(4);
				if (what == 0)
				{
					if (f->GetDeleted()) break;
					log("delete " + fn(f));
					coord->DeleteQueueEntry(&coord->m_downloadQueue, f);
				}
				else if (what == 1)
				{
					RawFileList l;
					for (FileInfo* x : n->GetFileList()) if (coin()) l.push_back(x);
					if (coin(10)) break;
					string d; for (FileInfo* x : l) d += fn(x) + " ";
					log("split " + nm(n) + ": " + d);
					bool refuse = l.empty(), all = l.size() == n->GetFileList()->size();
					for (FileInfo* x : l) refuse |= x->GetActiveDownloads() > 0 || x->GetCompletedArticles() > 0;
					NzbInfo* nn = nullptr; size_t cnt = q->size();
					bool ok = coord->SplitQueueEntries(&coord->m_downloadQueue, &l, "new", &nn);
					if (ok == refuse) fail("split %s", ok ? "accepted although files are being downloaded" : "refused");
					if (ok) { if (!nn || q->size() != cnt + (all ? 0 : 1)) fail("split does not produce a new group"); if (nn->GetFileList()->size() != l.size()) fail("split moved %d files instead of %d", (int)nn->GetFileList()->size(), (int)l.size()); for (FileInfo* x : l) if (x->GetNzbInfo() != nn) fail("file not moved to the new group"); }
				}
				else if (what == 2 && q->size() > 1)
				{
					NzbInfo* o = (*q)[rnd(q->size())].get();
					if (o == n) break;
					log("merge " + nm(o) + " into " + nm(n));
					size_t groups = q->size();
					size_t cnt = n->GetFileList()->size() + o->GetFileList()->size();
					Ghost a = ghost[n], b = ghost[o];
					if (!coord->MergeQueueEntries(&coord->m_downloadQueue, n, o)) fail("merge refused");
					if (n->GetFileList()->size() != cnt || q->size() != groups - 1) fail("files or groups lost by merge");
					a.files += b.files; a.size += b.size; a.success += b.success; a.failed += b.failed; a.parSize += b.parSize; a.parSuccess += b.parSuccess; a.parFailed += b.parFailed; a.total += b.total; a.okArt += b.okArt; a.badArt += b.badArt;
					for (auto& s : b.stats) { a.stats[s.first].first += s.second.first; a.stats[s.first].second += s.second.second; }
					ghost[n] = a;
				}
				else if (what == 3)
				{
					log("recompute (as after loading the queue) " + nm(n));
					n->GetCurrentServerStats()->clear();
					n->UpdateCurrentStats();
				}
				break;
			}
			}
			int64 want = 0, got, forced;
			for (NzbInfo* x : q) { check(x); for (FileInfo* y : x->GetFileList()) if (!y->GetPaused() && !y->GetDeleted()) want += y->GetRemainingSize(); }
			coord->m_downloadQueue.CalcRemainingSize(&got, &forced);
			if (got != want) fail("remaining size of the queue is %lld instead of %lld", (long long)got, (long long)want);
		}
		downloaders.clear(); coord->m_activeDownloads.clear();
	}
	return done();
}
