// the program's globals and log output, for drivers that link real sources without nzbget.cpp and Log.cpp
#pragma once
#include "nzbget.h"
#include "Options.h"
#include "WorkState.h"
#include "Log.h"
#include "vt.h"
#define W_GLOBAL(T) class T; T* g_##T;
W_GLOBAL(Log) W_GLOBAL(Options) W_GLOBAL(WorkState) W_GLOBAL(ServerPool) W_GLOBAL(QueueCoordinator) W_GLOBAL(UrlCoordinator)
W_GLOBAL(StatMeter) W_GLOBAL(PrePostProcessor) W_GLOBAL(HistoryCoordinator) W_GLOBAL(DupeCoordinator) W_GLOBAL(DiskState) W_GLOBAL(Scanner)
W_GLOBAL(FeedCoordinator) W_GLOBAL(Maintenance) W_GLOBAL(ArticleCache) W_GLOBAL(QueueScriptCoordinator) W_GLOBAL(ServiceCoordinator)
W_GLOBAL(ScriptConfig) W_GLOBAL(CommandScriptLog)
#define W_LOG(f) void f(const char* msg, ...) { if (getenv("VERIF_LOG")) { va_list ap; va_start(ap, msg); printf(#f ": "); vprintf(msg, ap); printf("\n"); va_end(ap); } }
W_LOG(error) W_LOG(warn) W_LOG(info) W_LOG(detail)
#ifdef DEBUG
#undef debug
void debug(const char*, const char*, int, const char*, ...) {}
#endif
void Log::RegisterDebuggable(Debuggable*) {}
void Log::UnregisterDebuggable(Debuggable*) {}
namespace vt
{
// zero-filled object: every string empty, every number 0, every flag false
template <typename T> T* blank() { return (T*)calloc(1, sizeof(T) + 64); }
inline void world() { g_Options = blank<Options>(); g_Log = blank<Log>();  g_WorkState = blank<WorkState>(); }
}
