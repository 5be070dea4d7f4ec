LT = 'libstuff unit tests feed a handful of fixed strings; '
prop('L01', 'Wire messages survive encoding, splitting and chunking unchanged',
 'A message (method line, headers, cookies, body) that is encoded for the wire and decoded again comes back with the same method line, headers and body, and decoding consumes exactly the encoded bytes. The result is the same however the byte stream is split into reads and however many messages are pipelined, and a body sent in chunks decodes to the concatenation of its chunks.',
 'inputs schedules', 'for all method lines, header names and values, cookies and bodies up to the stated lengths, and every way to cut the stream', LT + 'escapes, cookies, splits and chunk boundaries interact in ways they never sample',
 'libstuff/libstuff.cpp libstuff/SData.cpp', [('SComposeHTTP escapes header values and sets Content-Length', 'libstuff/libstuff.cpp'), ('SParseHTTP consumes whole messages only', 'libstuff/libstuff.cpp')], observe=['SData::serialize / SData::deserialize'])
prop('L02', 'Hostile HTTP input never crashes, hangs or reads outside the input',
 'Whatever bytes a peer or client sends, decoding them as an HTTP message terminates, touches no memory outside the input, throws nothing, and either reports that nothing was consumed or consumes at most the bytes that were given.',
 'inputs', 'for all byte strings up to the stated length, raw and after prefixes that reach header, length and chunk parsing', LT + 'malformed line ends, lengths and chunk headers are untested',
 'libstuff/libstuff.cpp libstuff/SData.cpp', [('bounds checks in the HTTP line scanner and chunk decoder', 'libstuff/libstuff.cpp')], observe=['SParseHTTP return value', 'memory accesses'])
prop('L03', 'The receive buffer keeps exactly the unconsumed bytes in order',
 'A connection buffer always holds exactly the bytes appended and not yet consumed, in order and terminated, whatever the interleaving of appends, consumptions and assignments. Its test for a complete message header answers the same as for a fresh buffer with the same contents, however the bytes arrived.',
 'inputs histories', 'for all sequences of operations up to the stated length and all fragment contents over CR, LF and other bytes', LT + 'compaction, stale scan positions and partial separators depend on operation order',
 'libstuff/SFastBuffer.cpp libstuff/SFastBuffer.h', [('front offset and compaction', 'libstuff/SFastBuffer.cpp'), ('resumable header scan', 'libstuff/SFastBuffer.cpp')], observe=['SFastBuffer contents and startsWithHTTPRequest'])
prop('L04', 'JSON output parses back to the same data; JSON input is parsed safely',
 'An object or array of text values that is composed into JSON, including nested ones, parses back to the same names and values. Parsing arbitrary text as JSON terminates, stays within the input and never aborts the process, and yields nothing for input that is not a JSON object or array.',
 'inputs', 'for all names and values up to the stated length, and all byte strings up to the stated length given to the parser', LT + 'quotes, escapes, control characters, NULs and truncation are combinatorial',
 'libstuff/libstuff.cpp', [('escaping in the JSON composers', 'libstuff/libstuff.cpp'), ('recursive-descent JSON parser', 'libstuff/libstuff.cpp')], observe=['SComposeJSONObject/SParseJSONObject and array forms'])
prop('L05', 'Quoted SQL values can never change a statement',
 'Text quoted for inclusion in an SQL statement is always read back by SQL as one string literal with exactly the original value, so it can never end the literal or alter the statement. Lists of quoted text and of integers are read back as exactly the listed values.',
 'inputs', 'for all NUL-free byte strings up to the stated length', LT + 'injection depends on unusual quote and escape combinations',
 'libstuff/libstuff.cpp libstuff/libstuff.h', [('single-quote doubling', 'libstuff/libstuff.cpp'), ('list filters that drop non-integers', 'libstuff/libstuff.cpp')], observe=['SQ, SQList'])
prop('L06', 'Text encodings are safe and invertible',
 'URI-component, query-string, hexadecimal, base64 and backslash encodings decode back to the original text or number for every input including the empty one, and their output contains only characters that are safe in that encoding. Base32 conversions accept exactly their alphabet and block size and produce the digits the standard prescribes.',
 'inputs', 'for all byte strings and numbers up to the stated sizes', LT + 'boundary bytes, empty input and sign handling are not sampled',
 'libstuff/libstuff.cpp', [('SEncodeURIComponent, SToHex, SEscape, SEncodeBase64, SBase32HexStringFromBase32 and their inverses', 'libstuff/libstuff.cpp')], observe=['encoded and decoded text'])
prop('L08', 'Work queues deliver every item exactly once and never lose a wake-up',
 'Every item pushed onto a synchronised queue is popped exactly once, and items of one producer come out in the order it pushed them, whatever the interleaving of producers and consumers. A consumer that waits by polling the queue and then pops until it is empty never sleeps while an item is queued.',
 'schedules', 'for all interleavings with up to the stated number of preemptions of two producers and one or two consumers', 'unit tests run one schedule; lost wake-ups and torn lists need a particular one',
 'libstuff/SSynchronizedQueue.h libstuff/libstuff.cpp', [('recursive mutex around the list and a pipe byte per push', 'libstuff/SSynchronizedQueue.h')], observe=['SSynchronizedQueue push, pop, size, each, prePoll, postPoll'])
prop('L09', 'The lock-free log buffer loses, duplicates and reorders nothing',
 'Every log record that the ring buffer accepts is delivered intact exactly once, in the order its producer wrote it, and a record is refused only when the buffer really is full. The sender stops after the shutdown marker and never sleeps while a record or the marker is waiting.',
 'schedules', 'for all interleavings, at each shared memory access, of two producers and the sender with up to the stated number of preemptions', 'lock-free index races need exact interleavings that no test forces',
 'libstuff/SRingBuffer.h libstuff/SFluentdLogger.cpp', [('slot state published after data; index comparison against capacity', 'libstuff/SRingBuffer.h')], observe=['SRingBuffer push, pop, wait, shutdown'])
DBT='a unit test samples a few statements and cannot place an error, a conflict or another thread at every point; '
prop('D01', 'Transactions on a database handle are all-or-nothing and leave no residue',
 'Whatever sequence of begin, write, read, prepare, commit and rollback a caller issues, and whichever statement fails, times out or conflicts, the database seen by other handles changes only when commit reports success, and then by exactly the writes of that transaction together with its journal entry. After commit or rollback the handle is clean and usable, holds no lock that blocks other handles, and commit count and hash move only with a commit.',
 'inputs faults histories', 'for all operation sequences up to the stated length with up to the stated number of injected SQLite errors at any statement', DBT + 'residue shows up only in a later operation',
 'sqlitecluster/SQLite.cpp', [('beginTransaction/_writeIdempotent/prepare/commit/rollback state machine and commitLock ownership', 'sqlitecluster/SQLite.cpp')], [('_insideTransaction/_mutexLocked/_uncommittedQuery', 'state of the open transaction', 'sqlitecluster/SQLite.h')], ['SQLite public API and a second handle'], note='SQLite itself is replaced by env/sqlite_model.cpp (the library is not part of the repository).')
DBN = 'SQLite itself is replaced by env/sqlite_model.cpp (the library is not part of the repository).'
prop('D02', 'The journal is a gapless hash chain of exactly the committed queries',
 'Every commit appends one journal entry with the next id, the exact SQL that was committed and a hash that chains it to the entry before, and nothing else enters the journal. Commit count, last hash, popped transactions and journal lookups agree with it, also after journal trimming and after reopening the database, and trimming removes only entries that are older than the configured window.',
 'inputs histories', 'for all histories of transactions, trims, reopenings and number of journal tables up to the stated length and all query texts from the stated alphabet', DBT + 'journal rotation, trimming and restart interact',
 'sqlitecluster/SQLite.cpp', [('prepare() appends the journal row and chains the hash', 'sqlitecluster/SQLite.cpp'), ('journal table selection and trimming', 'sqlitecluster/SQLite.cpp')], [('SharedData::commitCount/lastCommittedHash', 'chain head', 'sqlitecluster/SQLite.h')], ['journal tables, getCommit, getCommits, popCommittedTransactions, getCommitCount, getCommittedHash'], note=DBN)
prop('D03', 'Replaying the journal reproduces the leader database exactly',
 'A database that executes the journaled queries in order ends with the same contents, commit count and hash as the database they were recorded on, whatever statements, rewrites, no-op and idempotent writes produced them. Writes whose result could differ on another server (current time, random values) are refused instead of being journaled.',
 'inputs faults histories', 'for all transactions built from the stated statement forms with symbolic values, and a busy error at any point', DBT + 'divergence needs a statement whose replay differs',
 'sqlitecluster/SQLite.cpp libstuff/libstuff.cpp', [('journal entry is the uncommitted query text', 'sqlitecluster/SQLite.cpp'), ('authorizer denies non-deterministic functions during writes', 'sqlitecluster/SQLite.cpp')], observe=['contents of a leader and a follower database'], note=DBN)
prop('D05', 'The query whitelist is enforced for every statement and column',
 'With a whitelist set, no read or write returns, reveals or changes anything in a table or column that is not listed, however the query names it and whether its result was cached before the whitelist was set. Clearing the whitelist restores full access.',
 'inputs histories', 'for all authorizer action codes and names, and all orders of the stated queries with and without a whitelist', DBT + 'access codes and cache state combine',
 'sqlitecluster/SQLite.cpp', [('_authorize and the whitelist member', 'sqlitecluster/SQLite.cpp')], observe=['query results and authorizer verdicts'], note=DBN)
prop('D06', 'Cached reads always return what the database would return now',
 'Within a transaction a repeated read returns exactly what the same query would return if it were executed again at that moment, whether or not the query cache answers it: never a result older than the last write of the transaction, from another transaction, or of a non-deterministic query.',
 'inputs histories', 'for all sequences of reads, writes, commits, rollbacks and other handles writing, up to the stated length', DBT + 'stale answers need a specific order of reads and writes',
 'sqlitecluster/SQLite.cpp', [('_queryCache keyed by query text and cleared per transaction and write', 'sqlitecluster/SQLite.cpp')], observe=['results of SQLite::read against direct execution'], note=DBN)
prop('D04', 'Concurrent commits behave as if they ran one after the other',
 'When several threads write through their own handles, each commit gets the next commit number and hash in the order the database applies them, is handed out and announced exactly once, and conflicting transactions give the same result as some serial order. Nothing commits while commits are disabled or the database is locked exclusively, and no thread is left holding or waiting forever for a lock.',
 'schedules', 'for all interleavings with up to the stated number of preemptions of two writers and an observer or controller, at every lock, SQL statement and shared access', DBT + 'ordering races need a particular interleaving',
 'sqlitecluster/SQLite.cpp', [('commitLock held from prepare to commit', 'sqlitecluster/SQLite.cpp'), ('writeLock and setCommitEnabled', 'sqlitecluster/SQLite.cpp')], [('SharedData', 'commit count, hash, prepared and committed transactions', 'sqlitecluster/SQLite.h')], ['commit results, popCommittedTransactions, getCommit, callbacks'], note=DBN)
prop('D07', 'Query and lock timeouts stop work exactly when they should',
 'A query runs to completion unless its time limit has passed or an abort was requested, and then it fails with the matching error and the true elapsed time. A timed-out or aborted query, write or prepare commits nothing, leaves no lock held, and leaves the handle fully usable after a rollback.',
 'inputs schedules histories', 'for all sequences of timed operations up to the stated length, all durations and limits within the stated range, and all interleavings with a lock holder', DBT + 'expiry at a particular statement or inside a lock wait is not sampled',
 'sqlitecluster/SQLite.cpp', [('progress handler, _checkInterruptErrors and setTimeout', 'sqlitecluster/SQLite.cpp'), ('commit lock wait loop in prepare()', 'sqlitecluster/SQLite.cpp')], [('_timeoutLimit/_timeoutError/_shouldAbortPtr', 'limits of the running query', 'sqlitecluster/SQLite.h')], ['results and exceptions of read, write and prepare, virtual clock'], note=DBN)
prop('D08', 'A pooled database handle belongs to one user at a time',
 'The handle pool gives each handle to one user at a time, never hands out more than its limit or its base handle, reuses handles that were returned, and a user waits only while every handle is taken. Releasing twice is harmless and no user waits forever.',
 'schedules', 'for all interleavings with up to the stated number of preemptions of the stated number of users', 'sharing a handle needs two threads at one exact point',
 'sqlitecluster/SQLitePool.cpp sqlitecluster/SQLitePool.h', [('mutex and condition variable around the in-use and available sets', 'sqlitecluster/SQLitePool.cpp')], [('_inUseHandles/_availableHandles', 'who owns which handle', 'sqlitecluster/SQLitePool.h')], ['handles returned by getIndex and initializeIndex'], note=DBN)
CLN = 'Messages between nodes are handed over by env/peer_net.cpp instead of sockets; SQLite is replaced by env/sqlite_model.cpp. '
CLT = 'the tests never run more than one scripted election, while the outcome depends on every peer\'s state, priority, history and the order of messages'
prop('C01', 'A node leads only with a quorum of approvals, and only as the best candidate',
 'A node starts to stand up only when it is fully caught up, has the highest priority among the logged-in full peers, nobody else leads or stands up, and at least half of all full peers are connected. It becomes leader only while connected to at least half of all full peers, when at least half of all full peers approved this very attempt and no connected full peer denied it; a denial, a timeout or a shutdown makes it start over. A permafollower with peers never stands up.',
 'inputs histories', 'for all combinations of peer states, flags, priorities, commit counts and answers of the stated number of peers, and all message sequences of an attempt up to the stated length', CLT,
 'sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp', [('update(): SEARCHING, WAITING and STANDINGUP branches', 'sqlitecluster/SQLiteNode.cpp'), ('STANDUP_RESPONSE handling and _stateChangeCount', 'sqlitecluster/SQLiteNode.cpp')], [('_state/_priority/_stateChangeCount', 'role of the node', 'sqlitecluster/SQLiteNode.h'), ('SQLitePeer::standupResponse', 'answer to the current attempt', 'sqlitecluster/SQLitePeer.h')], ['node state and the messages it sends'], note=CLN)
prop('C02', 'A node approves at most one candidate and yields leadership to a better one',
 'A node approves a candidate only when the candidate is a full peer and neither the node itself nor any other peer leads, stands up or stands down; a leader asked by a higher priority stands down (a candidate gives up), one asked by a lower priority denies, and a leader that finds it has no majority of subscribers starts over. Each announcement gets at most one answer, naming that attempt. Peers with the same priority or a different history are disconnected and never approved.',
 'inputs histories', 'for all states, flags, priorities and commit counts of the node, the candidate and the other peers', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('_sendStandupResponse', 'sqlitecluster/SQLiteNode.cpp'), ('LOGIN and STATE handling in _onMESSAGE', 'sqlitecluster/SQLiteNode.cpp')], [('SQLitePeer::state/priority/subscribed', 'what the node knows of a peer', 'sqlitecluster/SQLitePeer.h')], ['STANDUP_RESPONSE messages and the node state'], note=CLN)
prop('C03', 'A leader that stops leading ships every commit and then commits nothing more',
 'A leader keeps leading while it has a quorum, is not shutting down and sees no other leader and no better waiting peer, and stops otherwise. Every committed transaction is sent exactly once, in order, with its hash, to every subscriber, before the announcement that ends leadership. Once a node has left leadership no commit succeeds on it, also when a worker was in the middle of committing.',
 'inputs schedules', 'for all peer states, numbers of unsent transactions and reasons to stop, and all interleavings of a committing worker with up to the stated number of preemptions', CLT + ' or the moment a worker commits',
 'sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLite.cpp', [('_changeState leaving LEADING/STANDINGDOWN: setCommitEnabled(false) then _sendOutstandingTransactions', 'sqlitecluster/SQLiteNode.cpp'), ('update(): LEADING branch', 'sqlitecluster/SQLiteNode.cpp')], [('_lastSentTransactionID', 'last transaction shipped', 'sqlitecluster/SQLiteNode.h')], ['TRANSACTION and STATE messages, commit results, node state'], note=CLN)
prop('C04', 'Followers hold exactly a prefix of the leader history, complete at its stepdown',
 'At every moment a follower holds exactly the first transactions of its leader, same text and same hash at every position, and nothing half applied, whatever the order of commits, messages, subscription catch-up and connection loss. With messages delivered it reaches the leader\'s last commit, and it has every commit before it follows a stepdown. Losing the leader makes it search again without dropping what it has.',
 'histories schedules', 'for all sequences up to the stated length of leader commits, updates, message deliveries, applications, connection loss and stepdown', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('SUBSCRIBE/SUBSCRIPTION_APPROVED catch-up', 'sqlitecluster/SQLiteNode.cpp'), ('_replicate and the replication queue', 'sqlitecluster/SQLiteNode.cpp'), ('_sendOutstandingTransactions', 'sqlitecluster/SQLiteNode.cpp')], [('_replicateQueue', 'transactions received and not yet applied', 'sqlitecluster/SQLiteNode.h')], ['journals and tables of both nodes'], note=CLN)
prop('C05', 'A follower applies a transaction only if it reproduces the leader\'s hash',
 'A follower applies a replicated transaction only while it follows its leader, only when it is the next one in order, and only when executing its text reproduces the hash the leader announced. Anything else, and any SQLite error on the way, leaves its database, commit count and hash unchanged with no transaction open, and a conflicting commit is retried until it is applied exactly once.',
 'inputs faults histories', 'for all short sequences of transaction messages with a field missing, repeated, out of order or changed in any byte, in every node state, and an SQLite error at any step', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('_replicate: order, hash and commit checks', 'sqlitecluster/SQLiteNode.cpp')], [('_replicateQueue', 'transactions received and not yet applied', 'sqlitecluster/SQLiteNode.h')], ['journal, table contents, commit count and hash of the follower'], note=CLN)
prop('C06', 'Synchronisation applies exactly the valid prefix of what a peer sends',
 'A node that is behind asks a connected unforked peer that has more commits, preferring one that is not the leader, then the fastest. It applies the commits it receives exactly as far as they are valid, in order and with matching hashes; a bad, incomplete or unappliable response makes it drop that peer and search again with no transaction left open, and the next good response brings it up to date. A node asked for commits hands out exactly the missing ones in order, and none to a peer whose history differs.',
 'inputs faults histories', 'for all responses of up to the stated number of commits with one change in any field, an SQLite error at any step, all requester positions, and all combinations of peer states, latencies and counts', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('_recvSynchronize', 'sqlitecluster/SQLiteNode.cpp'), ('_queueSynchronize', 'sqlitecluster/SQLiteNode.cpp'), ('_updateSyncPeer', 'sqlitecluster/SQLiteNode.cpp')], [('_syncPeer', 'peer being synchronised from', 'sqlitecluster/SQLiteNode.h')], ['journals of both nodes, SYNCHRONIZE messages, node state'], note=CLN)
prop('C07', 'A node forked from half the cluster stops, and a forked peer has no influence',
 'A node marks a peer as forked exactly when their histories differ or the peer says so, tells it once, and stops itself when at least half of the full nodes (itself included in the count) are forked from it. From then on, until that peer reconnects, the node answers nothing but its pings, sends it nothing, ignores everything it says, and never follows, synchronises from, counts as freshest or yields to it.',
 'inputs histories', 'for all combinations of forked, full and permafollower peers, all ways a fork is found and all message types and states', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('_dieIfForkedFromCluster', 'sqlitecluster/SQLiteNode.cpp'), ('LOGIN, FORKED and hash mismatch handling', 'sqlitecluster/SQLiteNode.cpp')], [('SQLitePeer::forked', 'peer is unusable', 'sqlitecluster/SQLitePeer.h')], ['abort, messages sent, node state'], note=CLN)
prop('C08', 'No message from a peer crashes a node or corrupts its data',
 'Whatever a peer sends, in whatever state the node is and whichever header is missing, empty, out of range or arbitrary, the node neither crashes nor hangs, ends in a valid state, and at most drops connections; its data change only by a valid transaction from the peer it synchronises from, subscribes to or follows, and no message by itself makes it leader. Only a replicated transaction that cannot be applied, or proof of a fork with half the cluster, stops the node.',
 'inputs', 'for all message types, node states, sender roles and one damaged header or payload, with the stated number of arbitrary bytes', 'the space of malformed messages times states is far beyond examples',
 'sqlitecluster/SQLiteNode.cpp sqlitecluster/SQLitePeer.cpp libstuff/SData.cpp', [('_onMESSAGE catches SException and reconnects', 'sqlitecluster/SQLiteNode.cpp')], observe=['termination, node state, journal'], note=CLN)
prop('C09', 'A priority change is valid, announced, and moves leadership to the right node',
 'Setting a node priority is refused, with no effect, when it is negative, reserved, used by a connected peer, or would leave too few full nodes for a quorum. Otherwise every peer is told, a leader with a better follower stands down, and a follower that is now better than its leader searches anew; a node that is not ready to lead keeps its transitional priority until it is. A connecting node introduces itself truthfully and peers record exactly what it announced.',
 'inputs', 'for all priorities, configured priorities, node states and peer states, flags and priorities', CLT,
 'sqlitecluster/SQLiteNode.cpp', [('setPriority', 'sqlitecluster/SQLiteNode.cpp'), ('_onConnect and LOGIN handling', 'sqlitecluster/SQLiteNode.cpp')], [('_priority/_configuredPriority', 'current and configured priority', 'sqlitecluster/SQLiteNode.h')], ['return value, node state, STATE and LOGIN messages'], note=CLN)
SVT = 'the tests queue a few commands one after the other, while the outcome depends on '
prop('S01', 'Every queued command is handed out exactly once, at the right time and in order',
 'A queued command is handed to exactly one consumer, and never lost or duplicated. It is handed out as soon as its scheduled time has come, oldest first within its priority, and never before, except that a command whose timeout has passed is handed out at once, oldest timeout first. A consumer waits no longer than it asked while nothing is ready and never waits while something is. Emptying, abandoning and listing account for every command.',
 'schedules histories', 'for all sequences of queue operations up to the stated length with all schedules and timeouts around now, and all interleavings with up to the stated number of preemptions of producers and consumers', SVT + 'the order of schedules, timeouts, clock and threads',
 'BedrockCommandQueue.cpp BedrockCommandQueue.h BedrockBlockingCommandQueue.cpp', [('get, push and _dequeue', 'BedrockCommandQueue.h'), ('abandonFutureCommands', 'BedrockCommandQueue.cpp')], [('_queue/_lookupByTimeout', 'commands and their timeouts', 'BedrockCommandQueue.h')], ['commands returned by get and getAll, virtual clock'])
prop('S02', 'The blocking queue refuses exactly the callers and commands over their limit',
 'A caller or command is blocked exactly from the moment its execution time in the blocking queue within the sliding window exceeds its limit, for exactly the block duration; a limit of zero, or an anonymous caller, is never blocked. While blocked, new commands are refused with a 503 and queued ones are answered with a 503 without running; nobody else is affected. Clearing the limits forgets everything and the status lists exactly who is blocked.',
 'histories schedules', 'for all sequences up to the stated length of executions, pushes, gets, limit changes and passing time, with all durations, windows and limits within the stated range', SVT + 'how durations, gaps and limits combine',
 'BedrockBlockingCommandQueue.cpp BedrockBlockingCommandQueue.h', [('recordExecutionTime and isBlocked', 'BedrockBlockingCommandQueue.cpp')], [('per-caller and per-command execution records', 'time used in the window', 'BedrockBlockingCommandQueue.h')], ['isBlocked, push, get, getState'])
prop('S03', 'A page lock has one holder, and pruning never frees a lock in use',
 'Commands that conflict on the same page are serialised: at most one holder per page at a time, commands on other pages never wait for each other, and nobody waits forever. Pruning keeps the number of unused locks bounded and never removes a lock somebody holds or waits for. The conflict report counts every recorded command and table exactly once.',
 'schedules histories', 'for all interleavings with up to the stated number of preemptions of the stated number of users, and all orders of held, new and unused locks around the pruning limit', SVT + 'which thread holds a lock when another prunes',
 'ConflictLockGuard.cpp ConflictLockGuard.h BedrockConflictManager.cpp', [('ConflictLockGuard constructor and destructor', 'ConflictLockGuard.cpp'), ('recordTables and generateReport', 'BedrockConflictManager.cpp')], [('ConflictLockGuard::mutexCounts', 'who uses which lock', 'ConflictLockGuard.h')], ['mutual exclusion, number of locks, report text'])
SRT = 'the tests run a handful of requests against an idle server, while the outcome depends on '
prop('S04', 'A command\'s stages change the database all or nothing and leave no trace',
 'Pre-peek, peek and post-process never change the database. Process changes it only if it finished without error and the node is the leader at commit, and then with all of the command\'s writes as one numbered transaction; a mocked command changes nothing. Every failure (error reply, duplicate key, timeout, disconnect, unknown exception, database error) ends with the matching error in the response and the transaction rolled back. The handle is left as it was found, ready for the next command. A command expires exactly when its timeout, or its processing limit, is used up.',
 'inputs faults', 'for all combinations of the outcomes of each stage up to the stated number of actions, with at most one database error at any statement, and for all timeouts and clock values', SRT + 'which action of which stage fails',
 'BedrockCore.cpp BedrockCore.h sqlitecluster/SQLiteCore.cpp BedrockCommand.cpp', [('prePeekCommand, peekCommand, processCommand, postProcessCommand', 'BedrockCore.cpp'), ('commit', 'sqlitecluster/SQLiteCore.cpp')], [('timeout, abort flag, query-only and no-op modes', 'what a command left on the handle', 'sqlitecluster/SQLite.h')], ['response, database content, handle state'])
prop('S05', 'Every command is executed at most once and answered exactly once',
 'A command handed to the server is answered exactly once or set aside in exactly one queue, from which it is eventually answered. Its writes happen at most once in the whole cluster, whether it is retried after conflicts, moved to the blocking queue, escalated, or the node stops leading at any moment. A success answer means its writes are committed; an error means they are not (unless only post-processing failed). Only a leader commits; a command waits for the commit and time it asked for; no handle, transaction or page lock is left behind.',
 'inputs schedules faults', 'for all combinations of node states, versions, conflicts, escalation outcomes, client kinds and stage outcomes, and all interleavings of losing leadership up to the stated number of preemptions', SRT + 'the node\'s state at each step and on conflicts',
 'BedrockServer.cpp BedrockCore.cpp BedrockCommandQueue.cpp', [('runCommand and _reply', 'BedrockServer.cpp')], [('_commandQueue, _blockingCommandQueue, _futureCommitCommands', 'commands set aside', 'BedrockServer.h')], ['responses on the socket, queues, rows in the database, runs on peers'])
prop('S06', 'A command that crashed a node is refused by every node, and no other is',
 'Once a node reports a crash, every command with the same name and the same identifying values is refused with a 500 without running, on every node told and on nodes that log in later; a command that crashed with two different sets of values is refused altogether; any other command runs. Reporting the same crash twice changes nothing. Clearing the list lets everything run again.',
 'inputs', 'for all commands with up to two identifying values of the stated length, and any pair of crashes', SRT + 'which values match',
 'BedrockServer.cpp BedrockCommand.h', [('_wouldCrash, _generateCrashMessage, onNodeLogin', 'BedrockServer.cpp'), ('CrashMap', 'BedrockCommand.h')], [('_crashCommands', 'names and identifying values of crashed commands', 'BedrockServer.h')], ['responses, messages to peers'])
prop('S07', 'Control commands obey only localhost, and status tells the truth',
 'Secure control commands have an effect only when they come from localhost, in any letter case; from elsewhere they are refused and change nothing. The command port stays closed while any reason to block it remains. Liveness answers are positive exactly when the node is following, respectively able to take commands; the status describes the node. BlockWrites and UnblockWrites always answer, and writes are possible exactly when not blocked. Settings take effect as reported or are refused.',
 'inputs histories schedules', 'for all control commands, sources, states, sequences of blocks and unblocks up to the stated length, and boundary values', SRT + 'the source, the order of requests and the node\'s state',
 'BedrockServer.cpp', [('_control, _status, blockCommandPort, unblockCommandPort', 'BedrockServer.cpp')], [('_commandPortBlockReasons', 'reasons to keep the port closed', 'BedrockServer.h'), ('__quiesceThread', 'whether writes are blocked', 'BedrockServer.cpp')], ['responses and the settings they report'])
prop('S08', 'A connection gets exactly one answer per request, in order',
 'However its bytes arrive, every complete request on a connection is run exactly once and answered exactly once, in order, until one of them closes the connection; requests to forget or to run later are acknowledged at once. No request can crash the server, redirect its answer or claim another origin: its source is the address it came from, blank only for localhost and the private port. If the client leaves or the shutdown deadline passes, the running command is aborted. Every connection is counted out, and new ones are accepted again once enough have ended.',
 'inputs schedules', 'for all sequences of the stated number of requests of every kind and all ways of cutting them into pieces, every address and port, and all moments of disconnecting up to the stated number of preemptions', SRT + 'how bytes arrive and when the client leaves',
 'BedrockServer.cpp libstuff/STCPManager.cpp libstuff/SFastBuffer.cpp', [('handleSocket and buildCommandFromRequest', 'BedrockServer.cpp')], [('Socket::recvBuffer', 'bytes not handled yet', 'libstuff/STCPManager.h'), ('_outstandingSocketThreads', 'open connections', 'BedrockServer.h')], ['bytes sent, commands run, their source'])
prop('S09', 'An escalated command runs at most once on the leader and its answer is exact',
 'A command escalated to a peer is sent to at most one peer, once: once it was sent in full it is reported as complete, with exactly the answer of the peer or with an error, and never sent again; otherwise it is left untouched for a retry. The request, its remaining time limit, its HTTPS results and its data arrive as they were. A client that leaves, a timeout and a failing connection end the wait soon. A connection is used by one command at a time, and is kept for reuse only after a whole exchange and never handed out when dead.',
 'inputs faults schedules', 'for all partial transfers, interrupted calls, errors, hang-ups, timeouts and aborts up to the stated number at every point of an exchange, and all sequences of pool operations up to the stated length', 'a unit test cannot make a connection fail after each byte or a leader appear at each moment; running a command twice needs exactly that',
 'sqlitecluster/SQLiteClusterMessenger.cpp libstuff/SSocketPool.cpp libstuff/SMultiHostSocketPool.cpp', [('errors before the request is sent allow a retry, errors after it complete the command', 'sqlitecluster/SQLiteClusterMessenger.cpp'), ('pooled sockets are polled before reuse', 'libstuff/SSocketPool.cpp')], observe=['bytes on the connection, the command after runOnPeer'], note='The connection is a model that accepts and delivers bytes piecewise and fails at the solver\'s choice. The database library is replaced by env/sqlite_model.cpp.')
PL = 'the plugin tests run a few fixed sequences against a live server; '
prop('P01', 'A job goes to one worker at a time and none that is due is lost',
 'GetJob and GetJobs give only jobs that are queued, due, matching and allowed (mocked ones only when asked for), highest priority and then longest due first, mark each as taken, and mark nothing taken that they do not give; a due job is given until it fails for good. Every other command changes a job only from the states it is meant for and changes no other job than it says: a parent is paused with its children, resumed once, when the last has ended, and never handed out twice. Failed runs retry up to the limit; finished repeating jobs are queued again at the right time. Unique creations find the existing job.',
 'histories inputs', 'for all combinations of states, times, priorities, names and retry settings of the stated number of jobs and every command on them', PL + 'which job is lost or doubled depends on the states of all of them at once',
 'plugins/Jobs.cpp', [('states QUEUED, RUNQUEUED, RUNNING, PAUSED, FINISHED, FAILED, CANCELLED in the jobs table', 'plugins/Jobs.cpp')], observe=['rows of the jobs table', 'responses'], note='The database library is replaced by env/sqlite_model.cpp, which knows the SQL this plugin uses, with a fixed clock.')
prop('P02', 'The cache returns the last value written and never outgrows its limit',
 'ReadCache returns exactly the value last written under the name it reports, until that is invalidated or evicted, and 404 otherwise; reading changes nothing. A write within the limit always succeeds; one larger than the whole cache is refused. The recorded size is always the size of the stored values, whichever database handle the commands used, and never exceeds the limit. Nothing is evicted while there is room, the least recently used goes first, and no other value is touched.',
 'histories', 'for all sequences of reads, writes, invalidations and restarts up to the stated length, on any database handle of the server', PL + 'the size drifts, and the server then aborts, only after certain sequences on certain handles',
 'plugins/Cache.cpp', [('triggers keep cacheSize in step with the values', 'plugins/Cache.cpp')], [('_lruMap', 'names by last use', 'plugins/Cache.h'), ('cacheSize', 'size of the stored values', 'plugins/Cache.cpp')], ['rows of cache and cacheSize', 'responses'], note='The database library is replaced by env/sqlite_model.cpp, including its triggers.')
prop('P04', 'A MySQL client gets one well-formed answer per packet, in order',
 'Packets are read back exactly as encoded and only when complete; numbers and strings of every length encode to what a client decodes. However packets arrive, each is answered exactly once and in order, with consecutive packet numbers: known variables and the version directly, queries after being passed on to the database unchanged. The answer a client decodes has exactly the columns, rows and cells of the result, and a failure carries its code and message.',
 'inputs histories', 'for all numbers, for packets, tables and results up to the stated size and all sequences of the stated number of packets in any pieces', PL + 'lengths around each encoding boundary, pipelined packets and packet numbers are not tried',
 'plugins/MySQL.cpp', [('length-encoded integers and packet headers', 'plugins/MySQL.cpp'), ('onPortRecv makes at most one request at a time', 'plugins/MySQL.cpp')], observe=['bytes sent to the client', 'the query passed to the DB plugin'])
