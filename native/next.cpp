// random queues: which article the coordinator downloads next, against an independent statement of the rules
#include "world.h"
#include "QueueCoordinator.h"
#include "ArticleWriter.h"
#include "ArticleDownloader.h"
#include "DiskState.h"
#include "ServerPool.h"
#include "FileSystem.h"
#include "Util.h"
#include <map>
using namespace vt;
using std::string;
void ArticleWriter::CompleteFileParts() {}
bool ArticleWriter::MoveCompletedFiles(NzbInfo*, const char*) { return true; }
void DiskState::DiscardFiles(NzbInfo*, bool) {}
CachedSegmentData::~CachedSegmentData() {}
bool QueueEditor::EditEntry(DownloadQueue*, int, DownloadQueue::EEditAction, const char*) { return true; }
void ArticleDownloader::Run() {}
void ArticleDownloader::Stop() {}
static std::vector<Thread*> started;
void Thread::Start() { started.push_back(this); }
static time_t clk = 1000000;
time_t Util::CurrentTime() { return clk; }
// what the state files on the disk tell about a file: status of each article
static std::map<FileInfo*, std::vector<int>> disk;
static int loads;
static void fill(FileInfo* f)
{
	auto& v = disk[f];
	for (int i = 0; i < (int)v.size(); i++)
	{
		auto a = std::make_unique<ArticleInfo>();
		a->SetPartNumber(i + 1); a->SetSize(100); a->SetStatus((ArticleInfo::EStatus)v[i]);
		f->GetArticles()->push_back(std::move(a));
	}
}
bool DiskState::LoadArticles(FileInfo* f)
{
	loads++;
	if (!f->GetArticles()->empty()) fail("articles of file f%d are loaded twice", f->GetId());
	fill(f);
	return true;
}
bool DiskState::LoadFileState(FileInfo*, Servers*, bool) { return true; }
namespace YEncode { void init_crc_slice(); }
std::unique_ptr<ArticleContentAnalyzer> DirectRenamer::MakeArticleContentAnalyzer() { return nullptr; }
static QueueCoordinator* coord;
static string tell(FileInfo* f)
{
	string s = fmt("f%d[%s%s%s%stime %+d, articles ", f->GetId(), f->GetPaused() ? "paused " : "", f->GetDeleted() ? "deleted " : "", f->GetExtraPriority() ? "extra " : "", f->GetFilenameConfirmed() ? "" : "unnamed ", (int)(f->GetTime() - clk));
	if (f->GetArticles()->empty()) { s += "on disk: "; for (int x : disk[f]) s += "urfe"[x]; }
	else for (ArticleInfo* a : f->GetArticles()) s += "urfe"[a->GetStatus()];
	return s + "]";
}
static string tell()
{
	string s = fmt("%s%s%s%sdelay %d: ", g_WorkState->m_pauseDownload ? "download paused, " : "", g_WorkState->m_quotaReached ? "quota reached, " : "", g_Options->m_serverMode ? "server, " : "", g_Options->m_directRename ? "direct rename, " : "", g_Options->m_propagationDelay);
	for (NzbInfo* n : coord->m_downloadQueue.GetQueue()) { s += fmt("n%d(priority %d, rename status %d%s):", n->GetId(), n->GetPriority(), n->GetDirectRenameStatus(), n->GetAllFirst() ? ", all first" : ""); for (FileInfo* f : n->GetFileList()) s += " " + tell(f); s += "; "; }
	return s;
}
static std::vector<int> articles(FileInfo* f)
{
	std::vector<int> r;
	if (f->GetArticles()->empty()) return g_Options->m_serverMode ? disk[f] : r;
	for (ArticleInfo* a : f->GetArticles()) r.push_back(a->GetStatus());
	return r;
}
static bool eligible(FileInfo* f)
{
	NzbInfo* n = f->GetNzbInfo();
	if (f->GetPaused() || f->GetDeleted()) return false;
	if ((g_WorkState->m_pauseDownload || g_WorkState->m_quotaReached) && n->GetPriority() < 900) return false;
	return !(g_Options->m_propagationDelay > 0 && f->GetTime() + g_Options->m_propagationDelay > clk);
}
static bool available(FileInfo* f)
{
	for (int s : articles(f)) if (s == ArticleInfo::aiUndefined) return true;
	return false;
}
struct Rank { int a, b; bool operator<(const Rank& r) const { return a != r.a ? a < r.a : b < r.b; } };
static Rank nzbRank(FileInfo* f) { return {f->GetNzbInfo()->HasExtraPriority(), f->GetNzbInfo()->GetPriority()}; }
static Rank fileRank(FileInfo* f) { return {f->GetExtraPriority(), f->GetNzbInfo()->GetPriority()}; }
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	YEncode::init_crc_slice();
	g_ArticleCache = blank<ArticleCache>();
	g_DiskState = (DiskState*)blank<char[4096]>();
	g_ServerPool = (ServerPool*)blank<char[4096]>();
	coord = new QueueCoordinator();
	g_QueueCoordinator = coord;
	NzbList* q = coord->m_downloadQueue.GetQueue();
	while (more())
	{
		q->clear(); disk.clear(); coord->m_activeDownloads.clear();
		g_Options->m_serverMode = coin(60); g_Options->m_directRename = coin(35); g_Options->m_propagationDelay = coin(40) ? range(1, 20) * 60 : 0;
		g_WorkState->m_pauseDownload = coin(15); g_WorkState->m_quotaReached = coin(15);
		bool flags = coin(50);
		for (int k = range(1, 4); k; k--)
		{
			auto n = std::make_unique<NzbInfo>();
			static const int prio[] = {-100, -50, 0, 0, 0, 50, 100, 899, 900, 901};
			n->SetName("x"); n->SetPriority(prio[rnd(10)]);
			n->SetAllFirst(coin(20)); n->SetDirectRenameStatus((NzbInfo::EDirectRenameStatus)rnd(4));
			for (int j = range(0, 4); j; j--)
			{
				auto f = std::make_unique<FileInfo>();
				f->SetFilename("f"); f->SetFilenameConfirmed(coin(50));
				f->SetNzbInfo(n.get());
				auto& d = disk[f.get()];
				for (int i = rnd(4); i; i--) d.push_back(coin(40) ? 0 : rnd(4));
				if (!g_Options->m_serverMode || coin(50)) fill(f.get());
				f->SetTime(clk - (coin(50) ? 100000 : range(0, 22) * 60 + 30));
				FileInfo* p = f.get();
				n->GetFileList()->Add(std::move(f));
				p->SetPaused(coin(25)); if (flags) p->SetExtraPriority(coin(25));
				p->SetDeleted(coin(10));
			}
			q->Add(std::move(n));
		}
		for (int step = 0; step < 12; step++)
		{
			if (coin(20) && !q->empty())
			{
				NzbInfo* n = (*q)[rnd(q->size())].get();
				if (!n->GetFileList()->empty())
				{
					FileInfo* f = (*n->GetFileList())[rnd(n->GetFileList()->size())].get();
					if (coin()) f->SetPaused(!f->GetPaused()); else if (flags) f->SetExtraPriority(!f->GetExtraPriority());
				}
			}
			now(tell());
			// the rules, before the call
			std::vector<FileInfo*> files, good; std::map<FileInfo*, std::vector<int>> arts; std::map<FileInfo*, int> pos;
			for (NzbInfo* n : q) for (FileInfo* f : n->GetFileList()) { pos[f] = files.size(); files.push_back(f); arts[f] = articles(f); if (eligible(f) && available(f)) good.push_back(f); }
			std::map<NzbInfo*, bool> rename; std::map<NzbInfo*, int> status;
			for (NzbInfo* n : q) { rename[n] = g_Options->m_directRename && n->GetDirectRenameStatus() <= NzbInfo::tsRunning && !n->GetAllFirst(); status[n] = n->GetDirectRenameStatus(); }
			FileInfo* f = nullptr; ArticleInfo* a = nullptr;
			bool ok = coord->GetNextArticle(&coord->m_downloadQueue, f, a);
			if (!ok)
			{
				if (!good.empty()) fail("no article is downloaded although file f%d may be downloaded", good[0]->GetId());
				break;
			}
			if (!f || !a || !pos.count(f)) fail("the chosen file is not in the queue");
			NzbInfo* n = f->GetNzbInfo();
			size_t idx = 0;
			while (idx < f->GetArticles()->size() && (*f->GetArticles())[idx].get() != a) idx++;
			if (idx >= f->GetArticles()->size()) fail("the chosen article isn't one of file f%d", f->GetId());
			if (idx >= arts[f].size() || arts[f][idx] != ArticleInfo::aiUndefined || a->GetStatus() != ArticleInfo::aiUndefined) fail("article %d of file f%d isn't waiting for download", (int)idx + 1, f->GetId());
			bool first = rename[n] && idx == 0 && !f->GetFilenameConfirmed();
			if (first)
			{
				bool any = false;
				for (FileInfo* g : n->GetFileList()) any |= eligible(g);
				if (!any) fail("the first article of file f%d is downloaded although no file of download n%d may be downloaded", f->GetId(), n->GetId());
				for (FileInfo* g : n->GetFileList()) if (pos[g] < pos[f] && !g->GetFilenameConfirmed() && arts[g].size() && arts[g][0] == 0) fail("file f%d comes before f%d when looking for names", g->GetId(), f->GetId());
			}
			else
			{
				if (!eligible(f)) fail("file f%d is downloaded although it must not", f->GetId());
				for (size_t i = 0; i < idx; i++) if (arts[f][i] == 0) fail("article %d of file f%d is skipped", (int)i + 1, f->GetId());
				for (FileInfo* g : good)
				{
					if (nzbRank(f) < nzbRank(g) && fileRank(f) < fileRank(g)) fail("file f%d has higher priority than the chosen f%d", g->GetId(), f->GetId());
					if (g->GetNzbInfo() == n && fileRank(f) < fileRank(g)) fail("file f%d of the same download has higher priority than the chosen f%d", g->GetId(), f->GetId());
					if (pos[g] < pos[f] && !(nzbRank(g) < nzbRank(f)) && !(fileRank(g) < fileRank(f))) fail("file f%d comes before the chosen f%d in the queue", g->GetId(), f->GetId());
				}
				if (rename[n] && !n->GetAllFirst()) fail("names of the files of n%d are not looked for first", n->GetId());
			}
			// starting it: nobody else gets the same article
			int fa = f->GetActiveDownloads(), na = n->GetActiveDownloads();
			started.clear();
			coord->StartArticleDownload(f, a, nullptr);
			if (a->GetStatus() != ArticleInfo::aiRunning) fail("a started article isn't marked as running");
			if (started.size() != 1 || coord->m_activeDownloads.size() != 1) fail("%d downloads are started for one article", (int)started.size());
			ArticleDownloader* d = coord->m_activeDownloads.front();
			if (d->GetFileInfo() != f || d->GetArticleInfo() != a) fail("the started download is for another article");
			if (f->GetActiveDownloads() != fa + 1 || n->GetActiveDownloads() != na + 1) fail("the active downloads of f%d are not counted", f->GetId());
			coord->m_activeDownloads.clear();
			delete d;
			f->SetActiveDownloads(fa); n->SetActiveDownloads(na);
			if (coin(70)) a->SetStatus((ArticleInfo::EStatus)rnd(4));
			if (coin(20)) f->SetFilenameConfirmed(true);
		}
	}
	return done();
}
