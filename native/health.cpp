// random downloads: health, critical health, status text and the health check against their definitions
#include "world.h"
#include "QueueCoordinator.h"
#include "ArticleWriter.h"
#include "ArticleDownloader.h"
#include "DiskState.h"
#include "FileSystem.h"
#include "Util.h"
using namespace vt;
using std::string;
void ArticleWriter::CompleteFileParts() {}
bool ArticleWriter::MoveCompletedFiles(NzbInfo*, const char*) { return true; }
void DiskState::DiscardFiles(NzbInfo*, bool) {}
CachedSegmentData::~CachedSegmentData() {}
void ArticleDownloader::Run() {}
void ArticleDownloader::Stop() {}
static std::vector<std::pair<int, DownloadQueue::EEditAction>> orders;
bool QueueEditor::EditEntry(DownloadQueue*, int id, DownloadQueue::EEditAction a, const char*) { orders.push_back({id, a}); return true; }
typedef __int128 big;
static int health(NzbInfo* n)
{
	big data = (big)n->GetSize() - n->GetParSize(), bad = (big)n->GetCurrentFailedSize() - n->GetParCurrentFailedSize();
	return data == 0 || bad == 0 ? 1000 : (int)((data - bad) * 1000 / data);
}
static int critical(NzbInfo* n, bool est)
{
	if (n->GetSize() == 0) return 1000;
	if (n->GetSize() == n->GetParSize()) return 0;
	big good = (big)n->GetParSize() - n->GetParCurrentFailedSize(), s = n->GetSize();
	if (good * 2 > s) return 0;
	int c = (int)((s - 2 * good) * 1000 / (s - good));
	if (c == 1000 && n->GetParSize() > 0) return 999;
	return c == 1000 && est ? 850 : c;
}
static int scripts(NzbInfo* n)
{
	bool ok = false;
	for (ScriptStatus& s : *n->GetScriptStatuses()) { if (s.GetStatus() == ScriptStatus::srFailure) return 1; ok |= s.GetStatus() == ScriptStatus::srSuccess; }
	return ok ? 2 : 0;
}
static string status(NzbInfo* n, bool ignore)
{
	typedef NzbInfo N;
	if (n->GetKind() == N::nkUrl)
	{
		if (n->GetDeleteStatus() == N::dsManual) return "DELETED/MANUAL";
		if (n->GetDeleteStatus() == N::dsDupe) return "DELETED/DUPE";
		if (n->GetDeleteStatus() == N::dsGood) return "DELETED/GOOD";
		switch (n->GetUrlStatus()) { case N::lsFailed: return "FAILURE/FETCH"; case N::lsScanSkipped: return "WARNING/SKIPPED"; case N::lsScanFailed: return "FAILURE/SCAN"; default: return "FAILURE/INTERNAL_ERROR"; }
	}
	switch (n->GetMarkStatus()) { case N::ksBad: return "FAILURE/BAD"; case N::ksGood: return "SUCCESS/GOOD"; case N::ksSuccess: return "SUCCESS/MARK"; default: break; }
	switch (n->GetDeleteStatus())
	{
	case N::dsManual: return "DELETED/MANUAL"; case N::dsHealth: return "FAILURE/HEALTH"; case N::dsDupe: return "DELETED/DUPE"; case N::dsBad: return "FAILURE/BAD";
	case N::dsGood: return "DELETED/GOOD"; case N::dsCopy: return "DELETED/COPY"; case N::dsScan: return "FAILURE/SCAN"; default: break;
	}
	int par = n->GetParStatus(), unp = n->GetUnpackStatus(), s = ignore ? 2 : scripts(n), h = health(n), c = critical(n, false);
	if (par == N::psFailure) return "FAILURE/PAR";
	if (unp == N::usFailure) return "FAILURE/UNPACK";
	if (n->GetMoveStatus() == N::msFailure) return "FAILURE/MOVE";
	if (par == N::psManual) return "WARNING/DAMAGED";
	if (par == N::psRepairPossible) return "WARNING/REPAIRABLE";
	bool nounpack = unp == N::usNone || unp == N::usSkipped, raw = par != N::psSuccess && nounpack;
	if (raw && h < c) return "FAILURE/HEALTH";
	if (raw && h < 1000) return "WARNING/HEALTH";
	if (raw && s != 1) return "SUCCESS/HEALTH";
	if (unp == N::usSpace) return "WARNING/SPACE";
	if (unp == N::usPassword) return "WARNING/PASSWORD";
	if (s == 1) return "WARNING/SCRIPT";
	if (s == 2) return unp == N::usSuccess || par == N::psSuccess ? "SUCCESS/ALL" : "?";
	return unp == N::usSuccess ? "SUCCESS/UNPACK" : "SUCCESS/PAR";
}
static int64 amount(int64 max)
{
	if (max <= 0 || coin(25)) return 0;
	if (coin(20)) return max;
	if (coin(20)) return std::min(max, (int64)range(1, 3));
	if (coin(15)) return max / 2 + (int64)range(-1, 1) < 0 ? 0 : std::min(max, max / 2 + range(0, 1));
	return (int64)((rnd() >> 1) % (max + 1));
}
int main(int argc, char** argv)
{
	init(argc, argv);
	world();
	g_ArticleCache = blank<ArticleCache>();
	g_DiskState = (DiskState*)blank<char[4096]>();
	QueueCoordinator* coord = new QueueCoordinator();
	g_QueueCoordinator = coord;
	while (more())
	{
		NzbInfo n; FileInfo f;
		f.SetNzbInfo(&n); n.SetName("x");
		int64 size = coin(10) ? 0 : coin(30) ? range(1, 3000) : (int64)(rnd() % (1ull << range(10, 48)));
		int64 par = amount(size), pf = amount(par), bad = amount(size - par);
		n.SetSize(size); n.SetParSize(par); n.SetParCurrentFailedSize(pf); n.SetCurrentFailedSize(pf + bad);
		n.SetKind(coin(85) ? NzbInfo::nkNzb : NzbInfo::nkUrl);
		n.SetMarkStatus(coin(85) ? NzbInfo::ksNone : (NzbInfo::EMarkStatus)rnd(4)); n.SetDeleteStatus(coin(80) ? NzbInfo::dsNone : (NzbInfo::EDeleteStatus)rnd(8));
		n.SetParStatus(coin(30) ? NzbInfo::psNone : (NzbInfo::EParStatus)rnd(6)); n.SetUnpackStatus(coin(30) ? NzbInfo::usNone : (NzbInfo::EPostUnpackStatus)rnd(6));
		n.SetMoveStatus((NzbInfo::EMoveStatus)rnd(3)); n.SetUrlStatus((NzbInfo::EUrlStatus)rnd(7));
		string sc;
		for (int k = rnd(4); k; k--) { int s = rnd(3); sc += fmt("%d", s); n.GetScriptStatuses()->emplace_back("s", (ScriptStatus::EStatus)s); }
		int total = range(1, 200), good = rnd(total + 1);
		n.SetTotalArticles(total); n.SetSuccessArticles(good); n.SetHealthPaused(coin(20));
		g_Options->m_healthCheck = (Options::EHealthCheck)rnd(4); g_Options->m_parScan = (Options::EParScan)rnd(4);
		now(fmt("size %lld par %lld failed par %lld failed other %lld kind %d mark %d delete %d par %d unpack %d move %d url %d scripts %s articles %d/%d health check %d par scan %d health-paused %d", (long long)size, (long long)par, (long long)pf, (long long)bad,
			n.GetKind(), n.GetMarkStatus(), n.GetDeleteStatus(), n.GetParStatus(), n.GetUnpackStatus(), n.GetMoveStatus(), n.GetUrlStatus(), sc.c_str(), good, total, g_Options->m_healthCheck, g_Options->m_parScan, n.GetHealthPaused()));
		int h = health(&n);
		if (n.CalcHealth() != h) fail("health is %d instead of %d", n.CalcHealth(), h);
		for (bool est : {false, true}) if (n.CalcCriticalHealth(est) != critical(&n, est)) fail("critical health (estimate %d) is %d instead of %d", est, n.CalcCriticalHealth(est), critical(&n, est));
		for (bool ign : {false, true}) if (status(&n, ign) != n.MakeTextStatus(ign)) fail("status (ignore scripts %d) is %s instead of %s", ign, n.MakeTextStatus(ign), status(&n, ign).c_str());
		if ((int)n.m_scriptStatuses.CalcTotalStatus() != scripts(&n)) fail("total script status is %d instead of %d", n.m_scriptStatuses.CalcTotalStatus(), scripts(&n));
		bool bf = n.GetDeleteStatus() || n.GetParStatus() == NzbInfo::psFailure || n.GetUnpackStatus() == NzbInfo::usFailure || n.GetUnpackStatus() == NzbInfo::usPassword || n.GetUrlStatus() == NzbInfo::lsFailed || n.GetUrlStatus() == NzbInfo::lsScanSkipped ||
			n.GetUrlStatus() == NzbInfo::lsScanFailed || (n.GetParStatus() == NzbInfo::psSkipped && n.GetUnpackStatus() == NzbInfo::usSkipped && h < critical(&n, true));
		bool ds = n.GetMarkStatus() == NzbInfo::ksGood || n.GetMarkStatus() == NzbInfo::ksSuccess || (n.GetMarkStatus() == NzbInfo::ksNone && !bf);
		if (n.IsDupeSuccess() != ds) fail("duplicate success is %d instead of %d", n.IsDupeSuccess(), ds);
		Options::EHealthCheck m = g_Options->m_healthCheck;
		bool hp = n.GetHealthPaused(); int del = n.GetDeleteStatus();
		bool act = m != Options::hcNone && !hp && del != NzbInfo::dsHealth && h < critical(&n, true) && !(g_Options->m_parScan == Options::psDupe && m == Options::hcPark && good * 100 / total > 10);
		orders.clear();
		for (int k = 0; k < 2; k++) coord->CheckHealth(&coord->m_downloadQueue, &f);
		if ((int)orders.size() != act) fail("health check acted %d times instead of %d (health %d, critical %d)", (int)orders.size(), act, h, critical(&n, true));
		if (act)
		{
			DownloadQueue::EEditAction want = m == Options::hcPause ? DownloadQueue::eaGroupPause : m == Options::hcDelete ? DownloadQueue::eaGroupDelete : DownloadQueue::eaGroupParkDelete;
			if (orders[0].second != want || orders[0].first != n.GetId()) fail("health check ordered action %d for entry %d instead of %d for %d", orders[0].second, orders[0].first, want, n.GetId());
		}
		if (n.GetHealthPaused() != (hp || (act && m == Options::hcPause)) || (int)n.GetDeleteStatus() != (act && m != Options::hcPause ? (int)NzbInfo::dsHealth : del)) fail("health check left the wrong marks");
	}
	return done();
}
