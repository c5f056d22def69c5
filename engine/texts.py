# property texts: executed by meta.py
prop('P02', 'The article checksum is the standard CRC-32, however it is computed or combined',
     'For every byte sequence the checksum calculated while decoding equals the standard CRC-32 (IEEE 802.3), whichever implementation the processor selects and however the bytes are split into pieces; combining the checksums of two adjacent pieces with their lengths gives the checksum of the joined data.',
     ['inputs', 'configurations'], 'every byte sequence, every split of it, every alignment and every processor-selected implementation',
     'The tests compare a few fixed strings on the one implementation the build machine selects; a defect in a table entry, a rare length residue or the combination of long blocks stays unseen.',
     ['lib/yencode/SliceCrc.cpp', 'lib/yencode/PclmulCrc.cpp', 'daemon/util/Util.cpp'],
     [('slice-by-n table implementation', 'lib/yencode/SliceCrc.cpp'), ('carry-less multiplication implementation', 'lib/yencode/PclmulCrc.cpp'), ('Crc32::Combine', 'daemon/util/Util.cpp')],
     note='Table implementation (table generation included), GF(2) multiplication and combination proved for all inputs against the bitwise definition of CRC-32; the PCLMUL intrinsics version is compared on bounded inputs only.')
prop('P03', 'An article is accepted only if it is complete and matches its checksum',
     'A downloaded article is reported as successfully downloaded only if the server answered with success, the begin and end markers were received, the announced size equals the number of decoded bytes and, when verification is enabled and a checksum is given, the checksum of the decoded bytes equals it; anything else is reported as failed so that another server is tried.',
     ['inputs', 'fault_sequences', 'configurations'], 'every server response, every article content incl. truncated, damaged and foreign ones, every combination of options',
     'The tests decode a handful of intact articles; wrong verdicts appear only for particular combinations of missing markers, sizes and checksums.',
     ['daemon/nntp/Decoder.cpp', 'daemon/nntp/ArticleDownloader.cpp'],
     [('Decoder::Check / CheckYenc', 'daemon/nntp/Decoder.cpp'), ('ArticleDownloader::DecodeCheck', 'daemon/nntp/ArticleDownloader.cpp'), ('ArticleDownloader::CheckResponse', 'daemon/nntp/ArticleDownloader.cpp')],
     [('begin/end/crc/size fields', 'what was learnt from the article', 'daemon/nntp/Decoder.h')],
     note='Verdict functions proved for every state of the decoder and every response text; log output and string copies are trusted to have no effect; whole articles run bounded against a reference decoder.')
prop('P05', 'The totals of every download equal the sums over its files',
     'After every queue operation (pausing, priority changes, completion or failure of articles, completion and deletion of files, splitting and merging of downloads) each total shown for a download, such as its size, remaining, paused, successful and failed size, file and article counts, equals the sum over its files, and no file is lost or owned by two downloads.',
     ['histories'], 'every history of queue operations on any number of downloads, files and articles',
     'The totals are maintained incrementally at a dozen places; the tests exercise none of the histories of operations in which one of them is forgotten or applied twice.',
     ['daemon/queue/DownloadInfo.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('NzbInfo::UpdateCompletedStats, UpdateDeletedStats', 'daemon/queue/DownloadInfo.cpp'), ('FileInfo::SetPaused', 'daemon/queue/DownloadInfo.cpp'), ('QueueCoordinator::ArticleCompleted, SplitQueueEntries, MergeQueueEntries', 'daemon/queue/QueueCoordinator.cpp')],
     [('group totals', 'sums over files', 'daemon/queue/DownloadInfo.h')],
     note='Per-operation contracts: each total changes exactly by the change of the contribution of the file at hand, proved for every state; list operations and whole histories are run bounded (native random histories).')
prop('P06', 'Health and status of a download follow from its failed articles',
     'The health of a download is the intact share of its data without par files in tenths of a percent, 1000 exactly when no such data failed; its critical health is what its intact par files cannot replace (0 when they cover half of it, 1000 or the estimate without par files); health check, status text and duplicate success are drawn from these values exactly as documented, the configured action is taken once and only for downloads below the critical health.',
     ['inputs', 'configurations', 'histories'], 'every combination of sizes, failed sizes, post-processing results, marks and options',
     'The tests never look at damaged downloads; wrong roundings and wrong precedence of the many status conditions show only for particular combinations.',
     ['daemon/queue/DownloadInfo.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('NzbInfo::CalcHealth, CalcCriticalHealth', 'daemon/queue/DownloadInfo.cpp'), ('NzbInfo::MakeTextStatus, IsDupeSuccess', 'daemon/queue/DownloadInfo.cpp'), ('QueueCoordinator::CheckHealth', 'daemon/queue/QueueCoordinator.cpp')],
     note='Functional contracts proved for all states in which the totals are sums over files (P05); division by zero and overflow included. The list of script results (CalcTotalStatus) and the combination of everything are compared bounded with the definitions.')
prop('P08', 'Server connections are exclusive, limited, and taken from the right server',
     'At any time a connection to a news server is used by at most one download; a server never gets more connections than configured; the connection handed out belongs to an active server of the requested level (of a later level only if every active server of the levels before is optional and blocked), to the wanted server or its group, to no ignored one, and not to a blocked server unless it is still open; a suitable free connection is not refused. The levels number the configured levels of the used servers without gaps, the free-connection counts equal the free connections, returned connections become available again, and clean-up never touches a connection in use.',
     ['histories', 'configurations'], 'every configuration of servers, levels, groups and limits, and every history of requests, returns, failures, clock changes and configuration changes',
     'The tests check a few fixed sequences on a few servers; counts drift only when servers change state while their connections are in use.',
     ['daemon/nntp/ServerPool.cpp', 'daemon/nntp/ServerPool.h'],
     [('ServerPool::LockedGetConnection, GetConnection, FreeConnection', 'daemon/nntp/ServerPool.cpp'), ('ServerPool::NormalizeLevels, InitConnections', 'daemon/nntp/ServerPool.cpp'), ('ServerPool::IsServerBlocked, BlockServer, CloseUnusedConnections', 'daemon/nntp/ServerPool.cpp')],
     [('m_levels', 'free connections per normalized level', 'daemon/nntp/ServerPool.h'), ('PooledConnection::m_inUse', 'connection is used by a download', 'daemon/nntp/ServerPool.h')],
     note='Handing out, returning, blocking, level numbering and the choice of connections to discard are proved for pools of any size; level fall-back, creation of connections and closing of idle ones run bounded in random histories. Locks are trusted (sequential semantics).')
prop('P15', 'Every request is served only with the rights of its user',
     'A request over the web interface, its programming interfaces or the binary protocol is answered only if no control password is set, the address is authorised, or it carries valid credentials or a valid session token; it is then executed with exactly the level of the matching user. Add-users can only append and ask for the version, restricted users cannot change the configuration and never see passwords, user names, or options of scripts and of the access to the program (also not within system.multicall); methods that change something are not executed by plain GET requests; pages are served only from within the web directory. Malformed requests are neither served nor read beyond their end.',
     ['inputs', 'configurations'], 'every configuration of users, passwords and authorised addresses, every request text and every method',
     'The web interface has no tests; a wrong level is visible only for one user with one kind of request.',
     ['daemon/remote/WebServer.cpp', 'daemon/remote/XmlRpc.cpp', 'daemon/remote/BinRpc.cpp', 'daemon/main/Options.cpp'],
     [('WebProcessor::Execute, CheckCredentials, IsAuthorizedIp, ParseUrl, Dispatch', 'daemon/remote/WebServer.cpp'), ('XmlRpcProcessor::Dispatch, MutliCall, CreateCommand, ConfigXmlCommand, LoadConfigXmlCommand', 'daemon/remote/XmlRpc.cpp'),
      ('BinRpcProcessor::Execute', 'daemon/remote/BinRpc.cpp'), ('Options::OptEntry::Restricted', 'daemon/main/Options.cpp')],
     [('m_userAccess', 'level of the user of the request', 'daemon/remote/WebServer.h')],
     note='Credential check, gate, address list, choice of command, execution of calls, url filter and masking of options are proved for all texts under contracts of the comparison functions; parsing of headers and urls runs bounded with random requests.')
prop('P11', 'Decoding of text from clients, feeds and indexers stays within the text',
     'For every text received over the control interface, from feeds or from indexers, URL, XML, JSON, HTTP-quoted and Base64 decoding neither read nor write outside the text, terminate, and produce the text denoted by the escapes.',
     ['inputs'], 'every byte string of every length, in particular ones ending inside an escape sequence',
     'The tests decode a few well-formed strings; malformed or truncated escapes at the end of the buffer are never tried, and an over-read is invisible without a memory checker.',
     ['daemon/util/Util.cpp'],
     [('WebUtil::UrlDecode, XmlDecode, JsonDecode, HttpUnquote, XmlStripTags, XmlRemoveEntities, JsonNextValue, DecodeBase64', 'daemon/util/Util.cpp')],
     note='Memory safety of every decoder proved for every text of every length with inferred inductive invariants; the URL decoding step is proved against its specification; other results are compared bounded with reference decoders.')

na('P91', 'The queue survives a crash at any point',
   'If the program or the machine stops at any moment, then on the next start every queued download is present, resumes from a consistent state, and no finished article is lost or counted twice.',
   ['crash_points', 'histories'], 'every point of every operation at which the process may be killed', 'The tests never kill the process.',
   ['daemon/queue/DiskState.cpp'], [('write new file, then rename', 'daemon/queue/DiskState.cpp')],
   'the guarantee ranges over crash points between system calls of many functions and over what the file system kept; function contracts without a model of the file system cannot state it')
na('P92', 'The daemon neither deadlocks nor races',
   'Under every interleaving of the download, post-processing, scheduler, feed and web interface threads the program keeps making progress and no shared state is accessed without its lock.',
   ['schedules'], 'every thread schedule', 'The tests run single threads.',
   ['daemon/queue/QueueCoordinator.cpp', 'daemon/util/Thread.cpp'], [('Guard / GuardedDownloadQueue', 'daemon/util/Thread.h')],
   'contracts of sequential functions say nothing about interleavings; no verifier with permissions or rely-guarantee reasoning for C++ is available')
na('P93', 'Par repair reproduces the original files',
   'When enough recovery blocks are available a repair ends with files identical to the posted ones, and otherwise reports failure without damaging files which were intact.',
   ['inputs', 'fault_sequences'], 'every damage pattern and every set of recovery blocks', 'The tests repair a few sample sets.',
   ['daemon/postprocess/ParChecker.cpp', 'lib/par2'], [('ParChecker', 'daemon/postprocess/ParChecker.cpp'), ('Repairer', 'lib/par2/par2repairer.cpp')],
   'the repair is a whole-program computation over files on disk, spread over threads and a third-party library; no function-level contract expresses it')
na('P94', 'Archives are deleted only after successful unpacking',
   'Source archives are removed only when the external unpacker reported success and the unpacked files are in their final place; otherwise everything stays for a retry.',
   ['histories', 'fault_sequences'], 'every outcome of external unpackers and every failure of file operations', 'Unpacking is not exercised by the tests that run offline.',
   ['daemon/postprocess/Unpack.cpp'], [('UnpackController', 'daemon/postprocess/Unpack.cpp')],
   'depends on external processes and the file system over a long history of effects; outside what contracts of this verifier can express')
na('P95', 'Each finished download is post-processed exactly once and in order',
   'Every download which completes is handed to post-processing exactly once, its stages run in the documented order, and it ends in the history with the status of the stages.',
   ['schedules', 'histories'], 'every order of completion, pausing and deletion', 'Needs the running daemon.',
   ['daemon/postprocess/PrePostProcessor.cpp'], [('PrePostProcessor', 'daemon/postprocess/PrePostProcessor.cpp')],
   'a whole-history property of several threads driven by observers; function contracts do not decide it')

HOW['P02'] = '''Units: `slice` (the slice-by-4 loop against the bitwise CRC: every table entry checked, loop invariant relates state and processed bytes), `gf2-times`
(matrix-vector product, unrolled 32), `combine` (crc(A||B) from crc(A), crc(B), len). Bounded: PCLMUL (intrinsics) against the bitwise definition.'''
HOW['P03'] = '''Units: `yenc-verdict`, `verdict-by-format`, `clear` (nothing learnt from a previous article survives), `decode-check` (status and stored checksum), `response-check`
(status from the response code, text of arbitrary length). Postconditions are equivalences, taken from the statement.'''
HOW['P05'] = '''Ghost formulation: every total T = S + c(f), c(f) the contribution of the file at hand, S the rest; an operation keeps the invariant iff ΔT = Δc(f). Units per operation:
`completed-file`, `deleted-file`, `SetPaused`, `SetExtraPriority`. Lists and whole histories: native random histories on the real coordinator, bounded.'''
HOW['P11'] = '''One unit per decoder: text of arbitrary length in a buffer of arbitrary size; implicit memory-safety obligations; `step_contract` gives the specification of one iteration
(URL decoding); invariants inferred. Bounded: differential run against reference decoders.'''
prop('P01', 'Decoding an article yields exactly the encoded bytes, however it arrives',
     'For every yEnc or uuencoded article, the decoder outputs exactly the bytes that were encoded (dot-unstuffed, line ends and escapes resolved), for every way the received text is split into pieces and for every decoder implementation (scalar or SIMD); the end of the data and of the article are recognised exactly where they are, and nothing is read or written outside the received pieces.',
     ['inputs', 'configurations', 'fault_sequences'], 'every article text, every split into pieces, every implementation',
     'The tests decode a few articles delivered in one piece on one implementation; a wrong state carried over a piece boundary needs one particular escape sequence at one particular split.',
     ['daemon/nntp/Decoder.cpp', 'lib/yencode/ScalarDecoder.cpp', 'lib/yencode/SimdDecoder.cpp'],
     [('decode_scalar', 'lib/yencode/ScalarDecoder.cpp'), ('Decoder::DecodeBuffer, DecodeYenc, DecodeUx, ProcessRaw, ProcessYenc, DetectFormat', 'daemon/nntp/Decoder.cpp')],
     [('m_state', 'decoder state between pieces', 'daemon/nntp/Decoder.h')],
     note='The scalar block decoder is proved functionally correct for every input, length and entry state against the yEnc stream automaton; line functions proved memory safe and their verdict fields exact; whole articles with SIMD decoders are compared bounded.')
HOW['P01'] = '''Unit `scalar-decoder`: ghost arrays S (automaton state), O (output count), X (output bytes) over the received bytes, defined by the specification `delta`; loop invariants of
the real decode_scalar (irreducible control flow made reducible by node splitting) tie cursor, output and the carried state to them; postconditions: consumed bytes, end markers, decoded bytes and
carried state are exactly those of the automaton, so by composition any split gives the same output. The code runs with input and output in one buffer: the invariant `position` (output never ahead
of input) is what makes that equal to the proved two-buffer run. `raw-mode-end`: the terminator is found in the whole stream (ghost history before the piece). `decode-yenc`: accounting around the block decoder
(its contract assumed, proved in the first unit). `uu-line`, `detect-format`, `keyword-lines`: memory safety and exact flags. Bounded: articles.cpp (SIMD, whole DecodeBuffer).'''

prop('P07', 'The next article to download is the right one',
     'Whenever a connection is free, the article chosen next belongs to a file that may be downloaded (not paused, not deleted, propagation delay over; with downloads paused or the quota reached only '
     'groups of force priority), no other waiting file outranks it (extra priority, then group priority, then position in the queue), articles of a file are taken in order, a waiting article is never '
     'refused, and every started article is marked running and counted exactly once, so that no article is downloaded twice.',
     ['inputs', 'configurations', 'histories'], 'every queue, every combination of states and priorities',
     'The tests have no download queue; a wrong choice needs two groups in particular states.',
     ['daemon/queue/QueueCoordinator.cpp'],
     [('QueueCoordinator::GetNextArticle, GetNextFirstArticle, StartArticleDownload', 'daemon/queue/QueueCoordinator.cpp')],
     [('DownloadQueue, NzbInfo, FileInfo, ArticleInfo', 'queue and states', 'daemon/queue/DownloadInfo.h')],
     note='The counter of paused files is assumed right (P05); comparison of the skipped-order among equal ranks is by list position.')
HOW['P07'] = '''The queue is an unbounded family of groups, each with an unbounded list of files, each with an unbounded list of articles. Units: `choice` (GetNextArticle: invariants of its nested loops,
complete without inference, in terms of ghost ranks; postconditions allowed / not outranked / in order / not refused), `first` (GetNextFirstArticle with direct rename), `start` (StartArticleDownload: the article
is marked, counted, one download started with it). Bounded: next.cpp, random queues on the real coordinator against an independent definition.'''

HOW['P06'] = '''Units: `health`, `critical-health` (function contracts over 64-bit machine arithmetic under the totals invariant, divisors non-zero), `health-range` (lemmas over the
integers: both values lie in 0..1000, 1000 exactly without failed data / without par files), `status-text` (MakeTextStatus against an ordered decision table, for all enum values,
callee contracts for the health functions), `dupe-success`, `health-check` (CheckHealth: when the configured action is ordered, for which download, and that it is not repeated;
the edit order is a ghost record of the virtual call). Bounded: random downloads against independent definitions, script lists included.'''

HOW['P08'] = '''Servers and connections are unbounded families of objects, the pool's vectors arrays of unknown length. Units: `hand-out` (LockedGetConnection: result suitable for an
arbitrary ignored server, marked, nothing else changed, count decreased, never refused; invariants over the candidate list), `return`, `block`, `blocked`, `levels` (NormalizeLevels
after the contract of std::sort; neighbouring used servers), `order` (comparator), `discard` (which connections are removed). Bounded: random histories on the real pool against a model.'''

HOW['P15'] = '''Texts have ghost identities (equal iff the compared texts are equal), so `strcmp`-style decisions over unbounded texts become equalities. Units: `credentials` (level as a function of
users, passwords, token and address; the session tokens by a loop invariant), `binary-protocol` (one command exactly for the control user), `commands` (CreateCommand against the access table), `authorised-ip`
(exactly if some mask matches, any number of masks), `gate` (Execute: nothing is dispatched without authorisation, and with the level of the user), `pages` (only urls of plain characters without `..` reach the
file system; the interface inherits level and method), `call`, `multicall` (every command object knows level, protocol and method before it is executed; unsafe methods only by POST; the request is written
only within its bounds), `masking-config`, `masking-loadconfig` (no value of a restricted option reaches an answer), `restricted-options`. Bounded: random requests on the real classes against a model.'''

prop('P16', 'Remote calls get exactly the parameters of their request',
     'For every JSON, JSONP, XML or GET request, the parameters a remote command reads are those of the request, in order: each read delivers the next value of the asked type, '
     'a value of another type stays available for the next read (POST), reading ends with the last parameter, and fields of the request outside of the parameter list are never '
     'taken for parameters; nothing outside of the request text is read or written, however the request is malformed or truncated.',
     ['inputs'], 'every request text and every sequence of reads',
     'The tests never send requests; a value ending exactly at the end of the request or a field following the parameter list is a matter of one particular text.',
     ['daemon/remote/XmlRpc.cpp', 'daemon/util/Util.cpp'],
     [('XmlCommand::NextParamAsInt, NextParamAsBool, NextParamAsStr, XmlNextValue, PrepareParams', 'daemon/remote/XmlRpc.cpp'), ('WebUtil::JsonNextValue, XmlFindTag', 'daemon/util/Util.cpp')],
     [('m_requestPtr', 'position of the next parameter', 'daemon/remote/XmlRpc.h')],
     note='The text functions they build on (JsonNextValue, XmlFindTag, XmlNextValue) are proved against their own contracts; parameters of system.multicall are found by a naive scan of the XML text and are not claimed.')
HOW['P16'] = '''Requests are texts of arbitrary length in buffers of arbitrary size. Units: `json-value` and `xml-tag-*`, `xml-value` (the value found lies within the text, is the first one, and the
end is recognised), `int`, `bool`, `text` (NextParamAs*: position moves forward and never beyond the terminator, the value delivered is the one at the position, a value of another type leaves the
position), `prepare` (start and end of the parameter list per protocol). Bounded: params.cpp, random parameter lists in every protocol with malformed and truncated requests.'''

prop('P19', 'What is saved to disk comes back unchanged after a restart',
     'Every part of the state which is saved (queue, progress, history, files with their articles, partially downloaded files, feeds, volume statistics, messages of downloads) is '
     'restored by loading exactly as it was: every setting, status, size, counter, text, list and order, whatever characters the texts contain; running articles start again; '
     'new identifiers never collide with restored ones; saving never touches memory outside its buffers.',
     ['inputs', 'histories'], 'every value of every field, every text, every list, saves interrupted while a state file is replaced',
     'The tests neither save nor load the state; a field restored into a wrong place shows only after a restart with an unusual value.',
     ['daemon/queue/DiskState.cpp', 'daemon/queue/DownloadInfo.h'],
     [('SaveNzbInfo / LoadNzbInfo, SaveFileInfo / LoadFileInfo, SaveFileState / LoadFileState, SaveDupInfo / LoadDupInfo, PrintLine', 'daemon/queue/DiskState.cpp')],
     [('NzbInfo, FileInfo, ArticleInfo, DupInfo', 'the state saved', 'daemon/queue/DownloadInfo.h')],
     note='Texts up to the line length of the readers (1 KB, 10 KB for groups); line breaks within texts become blanks; times before 2038; a leftover progress file older than the queue file (crash between the two) is not claimed.')
HOW['P19'] = '''Save and load are executed one after the other on symbolic objects; between them the state file is a ghost sequence of lines: PrintLine appends the values it formats, ScanLine/ReadLine deliver
the values of the next line, conversion by conversion (contract of vsnprintf/vsscanf, trusted). Postcondition per field: restored = saved, for all values. Units `group` (all scalar fields, texts, post-processing state),
`group files`, `file`, `partial file`, `duplicate history item` (lists of the stated fixed length with arbitrary elements: bounded in the number of elements only), `line` (PrintLine for texts of any length: memory safety and content,
loop invariant over the replaced characters). Bounded: state.cpp, real files in a scratch directory, all state files, including interrupted replacement of the queue file.'''
