"""Totals of a download: after every queue operation each total of a group equals the sum over its files.
Ghost formulation: every total T of a group is S + c(f), c(f) the contribution of the file at hand, S the (unchanged) sum over all
other files and over the completed ones; an operation keeps the invariant iff it changes T by exactly the change of c(f)."""
from prop import *

P = Property('P05', ['daemon/queue/DownloadInfo.cpp', 'daemon/queue/QueueCoordinator.cpp', 'daemon/queue/NzbFile.cpp'])
N64 = ['m_size', 'm_remainingSize', 'm_pausedSize', 'm_successSize', 'm_failedSize', 'm_currentSuccessSize', 'm_currentFailedSize', 'm_parSize',
       'm_parSuccessSize', 'm_parFailedSize', 'm_parCurrentSuccessSize', 'm_parCurrentFailedSize']
N32 = ['m_fileCount', 'm_pausedFileCount', 'm_remainingParCount', 'm_totalArticles', 'm_successArticles', 'm_failedArticles',
       'm_currentSuccessArticles', 'm_currentFailedArticles', 'm_extraPriority', 'm_activeDownloads']
F64 = ['m_size', 'm_remainingSize', 'm_successSize', 'm_failedSize', 'm_missedSize']
F32 = ['m_totalArticles', 'm_missedArticles', 'm_failedArticles', 'm_successArticles', 'm_completedArticles', 'm_activeDownloads']


class World:
    def __init__(self, c, file=None):
        self.c, self.n, self.f = c, c.obj('NzbInfo', 'group'), file or c.obj('FileInfo', 'file')
        c.put(self.f, 'm_nzbInfo', Ptr(self.n, 0))
        for x in ('ServerStatList::ListOp', 'Util::CurrentTime'):
            c.contract(x, lambda ex, st, a, i: z3.BitVecVal(0, 64) if 'Time' in i['dem'] else None) if False else None
        c.contract('ServerStatList::ListOp', lambda ex, st, a, i: None)

    def N(self, k, st=None):
        return bv(self.c.get(self.n, k, st), 64 if k in N64 else 32)

    def F(self, k, st=None):
        return bv(self.c.get(self.f, k, st), 64 if k in F64 else 32)

    def flag(self, k, st=None):
        return self.c.truth(self.c.get(self.f, k, st))

    def contribution(self, st=None, gone=None):
        """what a file in the list contributes to the totals of its group; gone='completed'/'deleted': it left the list"""
        F, z = lambda k: self.F(k, st), lambda b, x: z3.If(B(b), x, z3.BitVecVal(0, x.size()))
        par, paused, extra = self.flag('m_parFile', st), self.flag('m_paused', st), self.flag('m_extraPriority', st)
        one = z3.BitVecVal(1, 32)
        c = {k: z3.BitVecVal(0, 64) for k in N64}
        c.update({k: z3.BitVecVal(0, 32) for k in N32})
        if gone == 'deleted':
            return c
        fail, bad = F('m_failedSize') + F('m_missedSize'), F('m_failedArticles') + F('m_missedArticles')
        c.update(m_size=F('m_size'), m_parSize=z(par, F('m_size')), m_fileCount=one, m_totalArticles=F('m_totalArticles'),
                 m_currentSuccessSize=F('m_successSize'), m_currentFailedSize=fail, m_parCurrentSuccessSize=z(par, F('m_successSize')),
                 m_parCurrentFailedSize=z(par, fail), m_currentSuccessArticles=F('m_successArticles'), m_currentFailedArticles=bad)
        if gone == 'completed':
            c.update(m_successSize=F('m_successSize'), m_failedSize=fail, m_parSuccessSize=z(par, F('m_successSize')), m_parFailedSize=z(par, fail),
                     m_successArticles=F('m_successArticles'), m_failedArticles=bad)
        else:
            c.update(m_remainingSize=F('m_remainingSize'), m_pausedSize=z(paused, F('m_remainingSize')), m_pausedFileCount=z(paused, one),
                     m_remainingParCount=z(par, one), m_extraPriority=z(extra, one), m_failedSize=F('m_missedSize'), m_parFailedSize=z(par, F('m_missedSize')),
                     m_failedArticles=F('m_missedArticles'), m_activeDownloads=F('m_activeDownloads'))
        return c

    def kept(self, st, before, after, skip=()):
        for k in N64 + N32:
            if k not in skip:
                self.c.ensure(st, f'group total {k[2:]} stays the sum over the files', self.N(k, st) - self.N(k) == after[k] - before[k])


@P.unit('completed-file', fn='NzbInfo::UpdateCompletedStats')
def completed(c):
    w = World(c)
    # a file leaves as completed when no article of it remains to be downloaded and none is being downloaded
    c.assume(w.F('m_remainingSize') == 0, w.F('m_activeDownloads') == 0)
    st, _ = c.run('NzbInfo::UpdateCompletedStats', [Ptr(w.n, 0), Ptr(w.f, 0)])
    w.kept(st, w.contribution(), w.contribution(st, 'completed'))


@P.unit('deleted-file', fn='NzbInfo::UpdateDeletedStats')
def deleted(c):
    w = World(c)
    c.assume(w.F('m_activeDownloads') == 0)
    st, _ = c.run('NzbInfo::UpdateDeletedStats', [Ptr(w.n, 0), Ptr(w.f, 0)])
    w.kept(st, w.contribution(), w.contribution(st, 'deleted'))


for flag, fn in (('m_paused', 'FileInfo::SetPaused'), ('m_extraPriority', 'FileInfo::SetExtraPriority')):
    @P.unit(fn.split('::')[1], fn=fn)
    def setflag(c, flag=flag, fn=fn):
        w = World(c)
        p = c.ex.freshb('value')
        st, _ = c.run(fn, [Ptr(w.f, 0), p])
        c.ensure(st, 'flag set', w.flag(flag, st) == B(p))
        w.kept(st, w.contribution(), w.contribution(st))
        for k in F64 + F32:
            c.ensure(st, f'{k} unchanged', w.F(k, st) == w.F(k))


SRC = ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/nntp/Decoder.cpp', 'daemon/util/Observer.cpp',
       'daemon/util/NString.cpp', 'daemon/util/Util.cpp', 'daemon/util/FileSystem.cpp', 'daemon/util/Thread.cpp', 'lib/yencode/SliceCrc.cpp', 'lib/yencode/SimdInit.cpp']
P.native('queue.cpp', SRC, always=True, seconds=8, label='random histories of queue operations (pause, download results, delete, split, merge) on the real coordinator', bound='up to 3 groups of 4 files, 60 operations')
