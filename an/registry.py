"""Which rules decide which property."""
from .rules import election, replication, membership, snapshots, timers, peers, dispatch, locks, waits, rpc, buffers, codec, service, store
from .rule import only

BASE_ASSUME = [
    'system_exit does not return; allocation does not fail',
    'no wrap-around of 64-bit indices and terms',
    'the pluggable log store, state machine, state manager and RPC client keep their documented contracts',
    'two distinct parameters or fields of pointer type may alias only where the code makes them alias',
]


class Prop:
    def __init__(self, rules, technique, note, assume=()):
        self.rules, self.technique, self.note, self.assume = rules, technique, note, BASE_ASSUME + list(assume)


PROPS = {}


def prop(pid, rules, technique, note, assume=()):
    PROPS[pid] = Prop(rules, technique, note, assume)


E = election
PATHS = 'Decided on every path of every entry point by joining abstract states; loops are summarised inductively.'

prop('C01', [E.VoteGrant, E.VoteOnce, E.HonestRequest], 'path-sensitive abstract interpretation (typestate of term and vote)',
     PATHS + ' Trusts the extractor, the engine\'s model of the standard library and the log store contract.')
prop('C02', [E.Durable], 'typestate dataflow: dirty state must be saved before any send, unlock or return',
     PATHS + ' What save_state does with the state is the embedder\'s contract.')
prop('C03', [E.TermForward, E.NewTermNoVote, E.Adopt, E.StaleResponses],
     'path-sensitive abstract interpretation (monotone term, guarded effects)',
     PATHS + ' Joining a cluster may lower the term (stated exception).')
prop('C04', [E.LeaderNeedsMajority, E.CountVotes],
     'path-sensitive abstract interpretation with interval facts on vote count and member count',
     PATHS + ' The majority inequality is evaluated for clusters of 1 to 40 members.')

R = replication
prop('C05', [R.CommitForward, R.CommitQuorum, R.CommitOwnTerm, R.MatchIndex],
     'path-sensitive abstract interpretation with a must-coverage domain (who contributed to the quorum)',
     PATHS + ' The majority inequality is evaluated for clusters of 1 to 64 members.',
     ['the log store\'s next_slot never lies'])
prop('C06', [R.AppendMatch], 'path-sensitive abstract interpretation with ghost counters over the entries of a request',
     PATHS + ' The log store contract: write_at(i) drops everything after i, append puts at next_slot.')
prop('C07', [R.Apply, only(snapshots.SnapInstall, 'incomplete-sm_commit_index_', 'wrong-sm_commit_index_', 'early-sm_commit_index_',
                                  'incomplete-quick_commit_idx_', 'wrong-quick_commit_idx_', 'unsaved', 'early', 'old')],
     'path-sensitive abstract interpretation (typestate of the applied position)',
     PATHS + ' The interface calls of the state machine are the observations.')

prop('C08', [R.Announce], 'typestate and ghost-interval dataflow over log store and state machine calls',
     PATHS + ' Client entries arriving over the network are taken to be application entries.')

M = membership
prop('C09', [M.TableFollows, M.ConfStart, M.PendingMark, M.PendingAtStart, M.Effective, M.ConfCommit],
     'typestate and must-coverage dataflow over configuration entries, the pending mark and the member table',
     PATHS + ' Entries that arrive in a client request or a log pack are not followed into the pending mark.')

S = snapshots
prop('C10', [S.Compact, S.SnapMake, S.SnapDone, S.SnapLast, S.ConfigChain],
     'typestate of the in-progress flag and guarded-effect dataflow over compaction and snapshot calls',
     PATHS + ' What the state machine does with a snapshot is the embedder\'s contract.')
prop('C11', [S.SnapInstall, S.SnapSend, S.SnapAck],
     'path-sensitive abstract interpretation with linear facts on offsets and sizes',
     PATHS + ' Sizes are taken as mathematical integers.')

prop('C12', [E.PrevotePure, E.PrevoteAnswer, E.PrevoteCount, E.PrevoteEnds],
     'path-sensitive abstract interpretation (guarded effects, counting typestate)',
     PATHS + ' The majority inequality is evaluated for clusters of 1 to 40 members.')

prop('C13', [timers.ElectionTimer, timers.Heartbeats],
     'typestate of the election timer and must-coverage dataflow of heartbeat timers per step',
     PATHS + ' A step is one hold of the server lock; an untouched timer is taken to be as the previous step left it.',
     ['the scheduler keeps its contract (C26)'])

prop('C26', [service.Schedule, service.TimerTask], 'typestate of timer tasks over schedule, cancel, expiry and destruction',
     PATHS + ' An asio timer calls each handler once, with an error when its wait was cancelled.')
prop('C27', [peers.SlotRelease, peers.SlotTaken, peers.Announce, peers.CatchUp, peers.PeerPace],
     'typestate of the per-peer slot (taken, used, released) and must-coverage dataflow of commit announcements',
     PATHS + ' Requests to a server that joins or leaves are sequenced by their responses and have no slot.')

D = dispatch
prop('C14', [D.Reply, D.ReplyHandled, only(R.AppendMatch, 'missing', 'ack', 'accepted-term', 'accepted-prefix'),
             only(S.SnapInstall, 'noblock', 'unapplied'), only(E.VoteGrant, 'recorded')],
     'path-sensitive abstract interpretation (reply fields, acceptance implies action) and whole-program pairing of senders and reply handlers',
     PATHS + ' What the action of an append or prevote request must be is decided by C06 and C12.')
prop('C15', [D.LeaderAppends, D.Forward, D.ForwardDone],
     'path-sensitive abstract interpretation with must-coverage of entries and peers',
     PATHS + ' The majority inequality is evaluated for clusters of 2 to 40 members; how long "recently" is, is a parameter.')
prop('C17', [waits.Wakeups, waits.StopProtocol], 'typestate of condition variables: mutex, condition and notification on every path',
     PATHS + ' What was read before a mutex is taken is forgotten, so the verdict covers every interleaving.')
prop('C22', [waits.Deliver], 'typestate of result objects over every path of every instantiation',
     PATHS + ' State shared with other threads is forgotten whenever the lock is taken or released. A result is taken to be set once.')
prop('C25', [D.FailStop, D.FailStopResults, only(S.SnapMake, 'config'), only(S.SnapSend, 'short')],
     'reachability on abstract paths from forbidden states: every path must request exit before any effect; null-dereference typestate',
     PATHS + ' system_exit is taken not to return, as its callers assume.')

prop('C16', [locks.Guards, locks.LockOrder],
     'lockset dataflow on every abstract path (guarded-by) and lock-order graph with cycle detection',
     PATHS + ' Locks of peers are one class in the order graph; callbacks into the network client, scheduler, state machine and log '
     'store are taken not to call back into the server synchronously.')

prop('C28', [service.LogLine, service.Drain, service.FlushAll, service.FlushWait, service.StopFlushes],
     'typestate and must-coverage dataflow over the buffered lines and the list of loggers',
     PATHS + ' The stream writes what it is given; a service is stopped only after it has been started.')

K = codec
prop('C18', [K.Classes, K.Request, K.Response, buffers.Bytes, only(buffers.Extent, 'advance', 'seek', 'copy')],
     'abstract interpretation deriving the byte layout each encoder writes and each decoder reads (typed items tied to fields, loops as repetitions) and comparing them',
     PATHS + ' Values that travel through a constructor or container are followed; an encoding computed in a way the analysis cannot read is skipped, not reported.')

prop('C19', [buffers.Extent, only(rpc.Session, 'raw'), rpc.ClientRaw, only(rpc.Decoders, 'raw')],
     'bounds analysis on abstract paths: symbolic extents of every memory access, for both layouts of a buffer; position typestate',
     PATHS + ' A buffer is created by buffer::alloc only. Little-endian layout of the block header, as on every platform built for.')
prop('C20', [rpc.Session, rpc.ResponseType, rpc.Accept, rpc.Decoders, rpc.Handlers],
     'taint and bounds analysis on abstract paths: extents, indices, kinds and strings from the network, typestate of a connection',
     PATHS + ' Buffer operations keep their contract (C19). The offsets inside a log pack are taken as the sender wrote them.')
prop('C21', [rpc.Completion],
     'typestate of requests over the chain of asynchronous handlers, with ownership of what each operation uses',
     PATHS + ' asio calls every handler once; the handlers of one connection follow one another. Exceptions out of memory exhaustion are not followed.')

F = store
prop('C23', [F.Writes], 'abstract interpretation of file contents: byte ranges with their origin, stream positions, symbolic entry offsets, typestate of streams',
     PATHS + ' Induction over the operations: each starts from files and memory that agree, of any length, and must leave them so. '
     'The offsets inside a pack are taken as pack() writes them.',
     ['I/O that succeeds stores what was written; the copies a compaction makes of its files are taken to succeed'])
prop('C24', [F.Reads], 'abstract interpretation of file contents: byte ranges with their origin, stream positions, symbolic entry offsets',
     PATHS + ' Relies on the agreement of count, memory, index and data file, which C23 shows.',
     ['I/O that succeeds returns what was written; entry sizes are those of the encoding that C18 checks'])

NOT_APPLICABLE = {
    'C29': 'quantifies over whole-cluster executions with message loss and crashes; its local obligations are C01-C12, the '
           'composition needs a model of several servers, not an inspection of one program\'s paths',
    'C30': 'quantifies over real time, timeout settings and message delays, which no static argument about the source bounds',
    'C31': 'quantifies over crash points inside the operating system\'s buffering of three files; the store never syncs, and what '
           'a crash leaves behind is not determined by the source',
}
