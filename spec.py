"""Single source of properties.jsonl and MANIFEST.json (run: python3 spec.py)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
LEVEL = ('Static: decided from the resolved clang AST of the current tree on every run; all paths through the analysed functions (helpers and lambdas '
         'inlined, loops to a bounded fixpoint), nothing is executed. Trusts the extractor, the interpreter and the list of messaging primitives. ')


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note, state=state))


T = 'middleware/transaction/source/manager/'
Q = 'middleware/queue/source/'
S = 'middleware/service/source/manager/'
D = 'middleware/domain/source/'
G = 'middleware/gateway/source/'
C = 'middleware/common/'

prop('T01', 'Every transaction request is answered exactly once',
     'Every request the transaction manager accepts (commit, rollback, prepare/commit/rollback from an upstream manager, involved-lookups that ask for a reply, branch lookups, active and configuration requests) gets exactly one final reply, sent to the requester and correlated with the request, whatever the outcome and also when nothing is found or resources fail. '
     'A two-phase commit may be preceded by interim "prepared" notifications, never followed by one. Only a transaction that no longer exists when its resources answer, and a rollback that the manager itself started, are exempt.',
     ['histories', 'fault_sequences', 'inputs'], 'all request kinds, all paths through their handling including the continuations that run when resources have answered, in any later state of the manager',
     'the unit tests drive a handful of request sequences with well-behaved resource proxies; the reply on error and late-answer paths is not exercised',
     [T + 'handle.cpp', T + 'admin/server.cpp'],
     [('request handlers and the continuations they register', T + 'handle.cpp'), ('fan-out coordination of resource replies', C + 'include/common/message/coordinate.h')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural',
     'Shows that each path discharges the obligation once; that a registered continuation eventually runs is C03.')
prop('Q01', 'Every queue-group request is answered exactly once',
     'Every request a queue group accepts gets exactly one reply of its kind, sent to the requester and correlated with the request, or the request is parked whole (a blocking dequeue) for a later reply. Errors (unknown queue, database failure reported by the handler, conflicting configuration) are answered as well.',
     ['histories', 'inputs', 'fault_sequences'], 'all request kinds and all paths through their handling',
     'tests use one or two clients and successful operations; error paths and parked requests are sampled only',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp'],
     [('request handlers', Q + 'group/handle.cpp'), ('persistent replies', Q + 'group/handle.cpp')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural',
     'Exceptions thrown out of a handler are not counted as answers nor as violations.')
prop('Q02', 'Queue manager and forward answer every request exactly once',
     'Every lookup, discovery, configuration and state request to the queue manager, and every configuration and state request to a queue forward, is answered exactly once to the requester with its correlation, or is parked whole when the requester asked to wait.',
     ['histories', 'inputs', 'configurations'], 'all request kinds and all paths through their handling',
     'tests sample the found/not-found branches with a fixed configuration',
     [Q + 'manager/handle.cpp', Q + 'forward/handle.cpp'],
     [('request handlers', Q + 'manager/handle.cpp'), ('request handlers', Q + 'forward/handle.cpp')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural',
     'Shutdown requests have no reply in this system and are not part of the property.')
prop('S01', 'Every service-manager request is answered once or parked',
     'Every service lookup ends, on each path, in exactly one reply to the caller with its correlation (found, absent, busy) or in the request being parked whole or handed on to discovery with a continuation that itself answers or parks it. The other requests (lookup discard when a reply is wanted, discovery, known, configuration) are answered exactly once.',
     ['histories', 'schedules', 'inputs'], 'all request kinds, all paths, discovery continuations in any later state',
     'tests exercise single lookups against known services; the combinations of contract, remote instances, discovery and shutdown are not covered',
     [S + 'handle.cpp', S + 'state.cpp'],
     [('lookup and discovery handlers', S + 'handle.cpp')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural',
     'Prepare-shutdown is answered in several parts by design and handled by its own property.')
prop('D01', 'Every domain-manager process request is answered once or parked',
     'A process that connects to the domain, looks another process up, asks for process information or for configuration gets exactly one reply at its own address with its correlation, or the lookup is parked whole until the process appears when it asked to wait. Only a lookup that names nothing is dropped.',
     ['histories', 'schedules', 'configurations'], 'all request kinds and all paths, every runlevel',
     'singleton re-connect, refusal during shutdown and missing-process branches are hardly exercised',
     [D + 'manager/handle.cpp'],
     [('request handlers', D + 'manager/handle.cpp')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural', '')
prop('D02', 'Every discovery request is answered exactly once',
     'Every discovery, rediscovery and provider registration request is answered exactly once to the requester with its correlation: directly, when the fan-out to providers is done, as soon as everything it asked for is found, or after it has been parked whole for accumulation. A request that was answered early is not answered again when the fan-out completes.',
     ['histories', 'schedules', 'fault_sequences'], 'all request kinds, any order and number of provider replies (0, 1, 2), any later state',
     'tests run with one or two providers that answer at once',
     [D + 'discovery/handle.cpp', D + 'discovery/state.cpp'],
     [('aggregated discovery with early reply', D + 'discovery/handle.cpp')],
     'path-sensitive reply-obligation (typestate) analysis over the clang AST, inter-procedural',
     'The provider-reply callback is applied zero, one and two times.')
prop('Q03', 'Commit, rollback and recovery move messages between states correctly',
     'In a queue group a commit makes the messages enqueued under the transaction visible on their queue and deletes the ones dequeued under it; a rollback deletes the enqueued ones and returns the dequeued ones with one more redelivery, the configured retry delay, and - when the retry count is reached - to the error queue (and from an error queue they are dropped or kept as documented, never lost otherwise). Messages of other transactions are untouched, and administrative recovery does the same as the corresponding request.',
     ['histories', 'inputs', 'configurations'], 'all rows a message can be (state, transaction, redelivery count relative to the retry count, retry delay, queue or error queue), all paths of the commit, rollback and recovery handlers',
     'tests check a few rollbacks on one queue; boundary counts, delays, states of other transactions and recovery are sampled',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp', Q + 'group/queuebase/statement.cpp', 'middleware/queue/include/queue/group/queuebase/schema.h'],
     [('commit and rollback statements', Q + 'group/queuebase/statement.cpp'), ('the order they run in', Q + 'group/queuebase.cpp')],
     'abstract interpretation of the SQL statements each handler path issues, over an exhaustive set of abstract message rows (clang AST paths + SQL syntax tree)',
     'Abstract rows cover every ordering of the compared quantities, not every value. SQL semantics of the used subset are modelled.')

prop('Q04', 'Messages are stored as sent, and only eligible ones are handed out',
     'An enqueue stores exactly what was sent: payload, type, properties, reply queue, availability time, the transaction it belongs to and the queue it is for, with a redelivery count of zero, invisible to others until commit when transactional and visible at once otherwise. A dequeue or browse returns only committed messages of the asked queue that are available now and match the id or properties asked for, oldest available first, and returns every part of the message unaltered. A transactional dequeue marks exactly that message as dequeued by that transaction; a non-transactional one removes exactly that message; a browse changes nothing.',
     ['inputs', 'histories'], 'all paths of the enqueue, dequeue and browse handlers; all abstract message rows (state, queue, transaction, availability, id, properties)',
     'tests enqueue and dequeue a few messages with fixed attributes; combinations of selector, transaction, delay and browse are sampled',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp', Q + 'group/queuebase/statement.cpp'],
     [('enqueue, dequeue and browse statements', Q + 'group/queuebase/statement.cpp'), ('binding and reading of columns', Q + 'group/queuebase.cpp')],
     'data-flow roles of bound parameters and result columns, and abstract interpretation of the SQL each handler path issues (clang AST paths + SQL syntax tree)',
     'Abstract rows cover every ordering of the compared quantities, not every value. SQL semantics of the used subset are modelled.')
prop('Q05', 'Queue administration affects only what was asked for',
     'Clearing a queue deletes its committed messages and nothing else; removing messages deletes only the named ones of that queue, uncommitted ones only when forced; restoring moves back only committed messages that originated from the queue; resetting metrics resets only the metrics of the named queues. Listing queues, messages and their metadata changes nothing and reports what is stored.',
     ['inputs', 'histories'], 'all paths of the administrative handlers, for each element asked for; all abstract message rows',
     'tests run each operation once on small queues without concurrent uncommitted messages',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp', Q + 'group/queuebase/statement.cpp'],
     [('administrative statements', Q + 'group/queuebase/statement.cpp'), ('reading of queue and message information', Q + 'group/queuebase.cpp')],
     'abstract interpretation of the SQL each handler path issues, per iteration over the requested elements (clang AST paths + SQL syntax tree)',
     'Abstract rows cover every ordering of the compared quantities, not every value.')
prop('Q06', 'Queue counters follow the messages, queues are configured in pairs',
     'The counters of a queue (messages, size, uncommitted, enqueued and dequeued metrics) change with its messages exactly as documented for every insert, state change, move and delete. A queue is created together with its error queue, with the name, retry count and retry delay that was configured; updating or removing a queue affects that queue and its error queue only.',
     ['histories', 'configurations'], 'all transitions between abstract message rows; all paths of queue creation, update and removal',
     'tests check counters after a few operations',
     ['middleware/queue/include/queue/group/queuebase/schema.h', Q + 'group/queuebase.cpp', Q + 'group/queuebase/statement.cpp'],
     [('triggers', 'middleware/queue/include/queue/group/queuebase/schema.h'), ('create, update, remove', Q + 'group/queuebase.cpp')],
     'abstract interpretation of the SQL triggers over all abstract row transitions, and of the statements issued by queue creation, update and removal',
     'Assumes SQLite fires triggers as documented.')

prop('Q08', 'Nothing is acknowledged before it is in the queue database',
     'A queue group answers a non-transactional enqueue, a prepare, a commit, a rollback and a restore with ok only after what the answer promises has been committed to the database, so a crash after the answer loses nothing. Answers that wait for this are sent when the group is idle, when the batch is full and at shutdown, and never before the database commit; a new database transaction is begun after each commit or rollback.',
     ['crash_points', 'schedules', 'histories'], 'all paths of these handlers, of whatever empties the set of waiting answers, and of the idle callback',
     'tests never crash a queue group between an answer and the commit',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp', Q + 'group/main.cpp'],
     [('persistent replies', Q + 'group/handle.cpp'), ('database transactions', Q + 'group/queuebase.cpp'), ('idle callback', Q + 'group/main.cpp')],
     'happens-before (ordering) analysis of sends, database changes, commits and begins on all inter-procedural paths of the clang AST',
     'Durability below the sqlite commit (journal and synchronous mode, the file system) is trusted.')

prop('Q09', 'The size account follows the messages and a full group refuses',
     'The used size a queue group reports and decides on is at all times the number of payload bytes it stores: it grows by the payload of each message it accepts (in a transaction or not), shrinks by what non-transactional dequeues, commits, rollbacks and recovery delete, and follows removal, clearing and reconfiguration. With a configured capacity a message is accepted if and only if it fits in what is left; without one it is always accepted.',
     ['histories', 'inputs', 'configurations'], 'all paths of all handlers that store or delete messages; all orderings of capacity, used size and payload size',
     'tests fill a group once and check one refusal',
     [Q + 'group/handle.cpp', Q + 'group/queuebase.cpp', 'middleware/queue/include/queue/group/state.h'],
     [('capacity check and account', Q + 'group/handle.cpp'), ('sizes returned by deletes', Q + 'group/queuebase/statement.cpp')],
     'path-sensitive effect analysis of the account against the deletes and inserts on the same path; evaluation of the guarding conditions over all orderings (clang AST)',
     'Paths that end in an error after the insert are not considered.')
prop('Q10', 'The transaction manager knows about a queue group before the caller',
     'When a queue group enqueues or dequeues under a transaction, the transaction manager has been told that the group is involved, with a send that has completed, before the caller gets its answer, unless it was told about this transaction before. The group remembers what it has told exactly until commit or rollback.',
     ['schedules', 'histories'], 'all paths of the enqueue and dequeue handlers and of prepare, commit and rollback',
     'tests have one caller that commits long after; the race between answer and involvement is not sampled',
     [Q + 'group/handle.cpp'], [('involved', Q + 'group/handle.cpp')],
     'happens-before (ordering) analysis of sends on all inter-procedural paths of the clang AST', 'That messages from one process to another arrive in the order of completed sends is trusted.')
prop('Q11', 'Blocked dequeues are parked, retried, forgotten and cleaned up',
     'A blocking dequeue that finds no message is parked whole, with a timer armed for the earliest committed message of the queue that becomes available later. Parked dequeues are retried when the timer fires and after every persist; those not retried stay parked. A forget request removes exactly the parked request with its correlation and reports whether it did; those of a dead process are dropped together with its waiting answers; at shutdown the callers are told.',
     ['histories', 'schedules'], 'all paths of the dequeue, forget, timeout, death and shutdown handlers and of the retry',
     'tests use one blocked caller and a message that shows up',
     [Q + 'group/handle.cpp', Q + 'group/state.cpp', Q + 'group/queuebase.cpp'],
     [('parking and retry', Q + 'group/handle.cpp'), ('pending state', Q + 'group/state.cpp')],
     'path-sensitive effect analysis (container changes, timers, sends) on all inter-procedural paths of the clang AST', 'How the retry splits the parked requests over the available queues is only checked for the put-back.')

prop('T02', 'Nobody is asked to commit before all have voted and it is on record',
     'The transaction manager asks a resource to commit only (a) with the one-phase flag, when it is the only resource involved in a transaction that has not been prepared, (b) when all votes amount to ok and the prepared transaction has been logged, or (c) when its own coordinator orders it and the transaction is prepared and waiting for the decision. '
     'Resources are asked to prepare only while nothing has been decided; they are asked to roll back by the manager itself only when the votes do not amount to ok. One path never sends requests of two kinds, the stage of the transaction is set to what is asked and the answers are awaited as such. All votes ok start the commit (or, as a resource, the vote upstream and nothing else), all read-only ends the transaction, anything else starts the roll back. '
     'The death of the owner rolls back only transactions that are still undecided. A rollback requested by an operator or the owner is not restricted by the stage.',
     ['histories', 'schedules', 'fault_sequences'], 'all requests and votes in any order, any number of resources, any state of the transaction; deaths of owners at any time',
     'tests run the few two-phase sequences with well-behaved resources; late, repeated and failing answers and decisions in unusual stages are not exercised',
     [T + 'handle.cpp', T + 'state.cpp'],
     [('commit, prepare and rollback handlers and their continuations', T + 'handle.cpp'), ('stages', 'middleware/transaction/include/transaction/manager/state.h')],
     'path-sensitive protocol (typestate) analysis: guards, stage changes, requests and registered continuations on all inter-procedural paths of the clang AST',
     'Which votes "amount to ok" is T04.', state=[('transaction.stage', 'how far the two phase commit is', 'middleware/transaction/include/transaction/manager/state.h')])
prop('T03', 'Every involved resource is asked, awaited and heard in its own branch',
     'When the transaction manager prepares, commits or rolls back a transaction, each resource of each branch (after the votes: each that did not vote read-only) is asked exactly once, at the proxy of a local resource or at the external process that owns it, with the id of the resource and of the branch it works in, and is awaited exactly once under the correlation of that request. '
     'A resource that is unknown, or whose request cannot be sent, is answered for with a resource failure. Answers are handed to those who wait for that kind. Resources named by an involved request, a commit request or an external process are added to the branch they name and to no other; removal takes away exactly the resources it is told to and the branches that become empty.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'any number of branches, local and external resources, busy or missing proxies; all paths',
     'tests have one or two resources in one branch; several branches, externals, missing and failing resources are hardly combined',
     [T + 'handle.cpp', T + 'state.cpp', 'middleware/transaction/include/transaction/manager/state.h'],
     [('fan-out to resources', T + 'handle.cpp'), ('branches and resources', T + 'state.cpp')],
     'loop-and-container dataflow analysis on the clang AST: what is iterated, filtered, sent, registered and stored on every inter-procedural path',
     'That the registered answers are counted to the end is the fan-out coordination itself (C03 when claimed).')
prop('T04', 'The reply of a commit or rollback tells what happened',
     'The final reply of commit, rollback and of the requests of an upstream manager carries the severest of the answers of all asked resources (and, when the votes made it roll back, of the votes), with an error when a resource failed to answer, together with the ids of the request and the stage it is about. Severity ranks heuristic outcomes and errors above ok and ok above read-only, independent of the order of the answers; '
     'the conversion to the codes of the tx interface makes ok of ok and read-only and of nothing else, and keeps heuristic outcomes heuristic. A reply without any answer says ok or read-only only when nothing is left to do.',
     ['inputs', 'histories'], 'all combinations of answers, all paths that answer; all pairs of codes',
     'tests check the reply for all-ok and for one or two chosen failures',
     [T + 'handle.cpp', C + 'source/code/xa.cpp', C + 'source/code/convert.cpp'],
     [('replies and accumulation', T + 'handle.cpp'), ('severity', C + 'source/code/xa.cpp'), ('conversion', C + 'source/code/convert.cpp')],
     'value-flow analysis from answers to replies on all inter-procedural paths of the clang AST; exhaustive abstract evaluation of the severity and conversion functions over the code enumeration',
     'XA rollback codes are converted to hazard, not to rollback: taken as given.')
prop('T05', 'A prepared transaction is on disk before anyone hears of it',
     'A prepare vote of the transaction manager as a resource, and any reply that follows a logged prepare, is sent only after the prepared branches have been committed to the log: each branch as one row with its ids, owner and state. The log always works inside a database transaction, persisting ends it and begins a new one before the waiting replies are sent; this happens when the manager is idle and when the batch is full. A removed transaction disappears from the log with all its branches and without any other.',
     ['crash_points', 'schedules'], 'all paths that send votes or prepare reports and all places that make the log persistent',
     'tests never crash the transaction manager between vote and commit of its log',
     [T + 'handle.cpp', T + 'log.cpp', T + 'main.cpp'],
     [('persistent replies', T + 'handle.cpp'), ('log', T + 'log.cpp'), ('idle callback', T + 'main.cpp')],
     'happens-before (ordering) analysis of sends, log writes and database commits on all inter-procedural paths of the clang AST; parsing of the SQL statements',
     'Durability below the sqlite commit is trusted.')

prop('T06', 'Resource proxies get one request at a time and no answer is lost',
     'The transaction manager sends a prepare, commit or rollback request to a resource proxy instance only when that instance is idle, and reserves it for the request; when none is idle the request waits for the resource. An answer from a resource always reaches the commit or rollback that waits for it, also when the instance is gone, unknown or has been told to shut down; it releases the instance that sent it, '
     'which then takes exactly one of the requests that wait for its resource. A waiting request that cannot be sent is answered with a resource failure. An instance that has been told to shut down never becomes idle and gets no more work. An instance that connects is idle and known by its address; one that exits is removed and nothing else is.',
     ['schedules', 'fault_sequences', 'histories'], 'all states of the instances, all kinds of requests and answers, deaths, shutdowns and reconnects at any time',
     'tests have proxies that stay alive and are not scaled while requests wait',
     [T + 'handle.cpp', T + 'state.cpp'],
     [('reservation and answers', T + 'handle.cpp'), ('instance states', T + 'state.cpp')],
     'typestate analysis of the instances (idle, busy, shutdown) with path facts, and pairing of answers with release and delivery, on all inter-procedural paths of the clang AST',
     'Known finding: the request an exiting instance worked on is not answered.')

prop('T07', 'A finished transaction is gone everywhere; what the dead leave is settled',
     'A commit or rollback that has been answered, or has nothing to do, removes its transaction from the log and from the state of the transaction manager, and announces exactly its global id to the other managers; a transaction that is not over is kept. When an external process is gone, the answers that are awaited from it and the messages that wait to be sent to it are failed, and it, and only it, is forgotten. '
     'When the owner of a transaction dies, every transaction it owns whose outcome is not yet being decided, and no other, is rolled back.',
     ['histories', 'fault_sequences'], 'all outcomes of commit and rollback, any sets of transactions and external processes, deaths at any point',
     'tests look at single transactions and rarely at what remains in the state of other managers or after a death',
     [T + 'handle.cpp'],
     [('removal and announcement', T + 'handle.cpp'), ('process exit, ipc destroyed', T + 'handle.cpp')],
     'effect and lifetime analysis (what is removed, announced, failed and used after erase) on all inter-procedural paths of the clang AST',
     'Assumes the events about dead processes and destroyed ipc devices arrive.')

prop('S02', 'An instance works for one caller at a time and no reservation is lost',
     'A sequential (local) service instance is reserved only when it is idle and not about to exit, for the service, the caller and the correlation of one lookup, and exactly that caller is answered, with the address of the instance that was reserved. If the caller is gone when the answer is sent, its own reservation (and no other) is discarded. '
     'A reservation ends only with the ack of that instance, with a discard that carries its correlation, or with such a failure; the released instance is then handed either to the pending shutdown that waits for it, or to one pending lookup for a service it has, which stops waiting. A call that timed out loses its caller but stays reserved until the ack.',
     ['histories', 'schedules', 'fault_sequences'], 'all lookups, acks and discards in any state of instances, pending lookups, shutdowns and deadlines',
     'tests run a few callers against one or two instances in one order; callers that die between lookup and reply, discards of reserved instances and shutdowns in between are not sampled',
     [S + 'handle.cpp', S + 'state.cpp', 'middleware/service/include/service/manager/state.h'],
     [('lookup, ack, discard', S + 'handle.cpp'), ('reservation state of an instance', 'middleware/service/include/service/manager/state.h'), ('choice of instance', S + 'state.cpp')],
     'typestate analysis of reservations on all inter-procedural paths of the clang AST, stored callbacks included',
     'Trusts that instances ack every call they were reserved for.')

prop('S03', 'Callers are told when the process they wait for dies',
     'When a process dies the service manager removes every instance of it, and only of it, from the services, from the instances and from those about to exit; the caller of each instance that was reserved gets exactly one error reply (service error) with its own correlation; a prepare shutdown that waits for the process is told, its recorded timeout is forgotten, '
     'and every lookup that waits is looked up again once the process is gone, so nobody keeps waiting for an instance that no longer exists.',
     ['histories', 'crash_points', 'schedules'], 'any state of the manager when the event arrives: any number of instances, reservations, pending lookups and shutdowns',
     'tests kill one idle or one busy server; combinations with pending lookups, timeouts and shutdowns are not sampled',
     [S + 'handle.cpp', S + 'state.cpp'],
     [('process exit', S + 'handle.cpp'), ('State::remove', S + 'state.cpp')],
     'effect analysis (who is answered and what is removed) on all inter-procedural paths of the clang AST',
     'Assumes the event about the dead process arrives.')

prop('S04', 'A call that outlives its deadline gets a timeout, and only such a call',
     'The deadline of a call to a local service is the earlier of the timeout of the service and the deadline its caller came with; it is recorded once, under the correlation of the call, also while the lookup waits, and it follows the call to the instance that is reserved. The caller is told what remains. The timer is always set for the earliest recorded deadline. '
     'When a deadline passes, the lookup that waits, or the caller of the call, gets exactly one timeout reply with its correlation; the instance is reported for assassination under the contract of the service and is not used again if that is fatal. The ack of the call removes its deadline; the transaction of the call is rolled back when the instance acks a call that timed out, and only then.',
     ['schedules', 'histories', 'inputs'], 'any set of recorded deadlines, services with and without timeout, callers with and without deadline, any order of acks, timeouts and lookups',
     'tests use one or two calls with generous sleeps; several concurrent deadlines, waiting lookups that time out and late acks are not sampled',
     [S + 'handle.cpp', S + 'state.cpp', 'middleware/service/include/service/manager/state.h'],
     [('deadlines at lookup, ack and timeout', S + 'handle.cpp'), ('ordered deadlines', S + 'state.cpp')],
     'effect and value analysis of deadlines and timers on all inter-procedural paths of the clang AST',
     'Assumes the timer signal is delivered; real time is not modelled.')

prop('S05', 'Prepare shutdown: every process answered once, reserved ones when done',
     'When the domain manager asks the service manager to prepare the shutdown of processes, every process of the request is answered exactly once, to the requester and correlated with the request. Each local instance among them leaves all its services, so no new call gets it, and lookups that wait for a service (or a route of it) that lost its last instance are looked up again, hence rejected rather than left waiting. '
     'Processes that are no instances and idle instances are answered at once in one reply. Reserved instances get no new work and are answered when their own reservation (the correlation of their caller) is acknowledged or they die, and not before; the answer names the processes that acknowledged.',
     ['schedules', 'histories'], 'any set of processes in the request, any state of instances, services, routes and pending lookups',
     'tests shut down one idle or one busy server; mixtures of unknown, idle and reserved processes with pending lookups are not sampled',
     [S + 'handle.cpp', S + 'state.cpp'],
     [('prepare shutdown', S + 'handle.cpp'), ('State::prepare_shutdown', S + 'state.cpp')],
     'effect and value-flow analysis on all inter-procedural paths of the clang AST, with element-wise obligations for each loop and partition',
     'That the registered answers are counted to the end is the fan-out coordination itself.')

prop('G01', 'What is requested of a remote domain is answered exactly once',
     'A service call, a conversation connect, an enqueue or a dequeue that comes to an outbound gateway is either answered at once with an error, or becomes exactly one task, registered before the request is sent once on the connection it came in on, in the protocol version of that connection. The reply from the remote domain, or the loss of the connection, ends the task with exactly one reply to the requester with its own '
     'correlation; a call that is already on its way is not sent again; a conversation goes on until it is disconnected, terminated or failed to connect. Discovery, prepare, commit and rollback register where their reply is to be sent before they are sent, and the reply of the remote domain is forwarded once, to there. A lost connection fails the tasks of that connection and no others.',
     ['schedules', 'histories', 'crash_points'], 'any interleaving of requests, replies and lost connections over any number of connections',
     'tests use a few calls between two or three domains and rarely lose a connection in the middle of one',
     [G + 'group/outbound/handle.cpp', 'middleware/gateway/include/gateway/group/outbound/state.h', 'middleware/common/include/casual/task/concurrent.h'],
     [('outbound requests, tasks and replies', G + 'group/outbound/handle.cpp'), ('task coordinator', 'middleware/common/include/casual/task/concurrent.h'), ('reply destinations', 'middleware/gateway/include/gateway/group/outbound/state.h')],
     'typestate and effect analysis of requests and their continuations on all inter-procedural paths of the clang AST',
     'Trusts the transport below; what the remote domain does is the inbound property of that domain.')

prop('G02', 'A remote domain\'s request is carried out once and answered on its connection',
     'Gateway, inbound: a call, a conversation connect, an enqueue or a dequeue that a remote domain sends is looked up exactly once (as a direct or external request, with discovery only if the connection is configured to forward), '
     'and, if it is in a transaction that this domain has not branched, branched exactly once. In whatever order the replies come, the request is sent exactly once, when the last of them is there, to the process that was looked up, '
     'following a route, in the internal transaction, and with the reply directed to the connection; if the lookup finds nothing, or times out, or the destination can not be reached, or there is no queue manager, the remote domain gets exactly one error '
     'reply with the correlation of the request and a code that says so. A branched transaction is remembered even if the request was rejected. Prepare, commit and rollback are mapped to the internal transaction and the reply back to the external one; for a transaction '
     'that is not known the answer is an error. Replies go on the connection the request came on, in the version it can handle. The task of a request ends when there is nothing more to come (a reply, the end of a conversation, a failed connect, a call without reply), '
     'not before; if the connection is lost first, a pending lookup is discarded.',
     ['schedules', 'histories', 'inputs'], 'any order of the lookup reply, the branch reply, the reply, the end of a conversation and the loss of the connection',
     'tests have two domains where replies come in one order, and nearly always find what is looked up',
     [G + 'group/inbound/handle.cpp', G + 'group/inbound/task/create.cpp', 'middleware/common/include/casual/task/concurrent.h'],
     [('inbound messages', G + 'group/inbound/handle.cpp'), ('inbound tasks', G + 'group/inbound/task/create.cpp')],
     'typestate analysis of inbound tasks: what is remembered at the creation is followed through the continuations, in every order of the replies, on all inter-procedural paths of the clang AST',
     'Trusts the transport below, and that managers answer what they are asked (decided by their own properties).')

prop('C01', 'What is read is what was written, as the interdomain protocol says',
     'A message that is sent, and a state that is stored, comes out with every member as it went in: for every type that is serialized, every member of the type and of what it is derived from is written and read exactly once, unconditionally, in the same order, '
     'under a name of its own, and a member that says how another one is to be read is read before it. Between domains, every message has exactly the members, in the order, with the type number and for the range of protocol versions, that the protocol documentation '
     'states, each carrying the member of the message that it is named after. Every message type is of one kind of message, and the reply of a request is the reply type of that kind and version.',
     ['inputs', 'configurations'], 'every value of every type that is serialized, with every archive, and every version of the protocol that a remote domain may have',
     'tests write and read a handful of the types with the same code, so a member that is left out, or is at another place than another version of casual has it, is not noticed',
     ['middleware/gateway/include/gateway/message.h', 'middleware/gateway/include/gateway/message/protocol.h', 'middleware/common/include/common/message/type.h', 'middleware/common/include/common/serialize/macro.h'],
     [('network customizations', 'middleware/gateway/include/gateway/message.h'), ('versions', 'middleware/gateway/include/gateway/message/protocol.h')],
     'syntactic completeness analysis of the serialization of every record (and template) in the clang AST, and comparison of the flattened network layout with the protocol documentation',
     'Trusts the archives and the conversion of fundamental types.')

prop('X01', 'A server answers every call once, truthfully, and is given back',
     'Whatever happens while a server carries out a call or the connect of a conversation (the service succeeds, fails, forwards or throws; the transaction cannot be started or finalized; a descriptor or buffer cannot be made), the caller gets exactly one reply with the correlation of its call, unless it wants none or the call was forwarded, which is answered by the one it was forwarded to. The reply is sent after the transaction is finalized, tells how that went, and says success only when the service returned success and the transaction was finalized as ok; '
     'a failed service is replied as failed, with its user code and payload. The transaction is committed only when the service returned success. The service manager then gets exactly one ack for the call, last, with what was replied, and the contexts of the server are cleaned up; no exception of a service reaches the message pump.',
     ['schedules', 'fault_sequences'], 'all outcomes of the service, the transaction policy and every send, for calls and conversations, ordinary and administration servers',
     'tests call services that succeed or fail in ordinary ways; exceptions from finalize, forward and conversation, and transactions that fail at the end, are not sampled together',
     ['middleware/common/include/common/server/handle/service.h', 'middleware/common/source/server/handle/service.cpp', 'middleware/common/include/common/server/handle/call.h', 'middleware/common/source/server/handle/conversation.cpp'],
     [('the call and its scope guards', 'middleware/common/include/common/server/handle/service.h'), ('results and replies', 'middleware/common/source/server/handle/service.cpp'), ('the handlers', 'middleware/common/include/common/server/handle/call.h')],
     'exceptional-path typestate analysis (scope guards, exceptions at every call, events of the policy) on all inter-procedural paths of the clang AST',
     'A scope guard runs its action at the end of its scope unless released, and swallows what the action throws; the process does not die while it carries out a call (that is S02/T07).')

prop('X02', 'The transactions of a process end the way its services and callers decided',
     'When a service returns, every transaction in the context of the server is consumed: each that the process owns is committed or rolled back exactly once, committed only if the service returned success, the transaction is still active and no reply is awaited in it; for one that the caller owns the resources are ended and success is reported only if it is still active. '
     'tx_commit and tx_rollback decide only the current transaction, if the process owns it, with no awaited replies. The resources are ended before the outcome is asked for; if that fails, the transaction is rolled back. One phase is used only when nobody else is involved, otherwise the transaction manager is told the transaction and asked once. What is reported is what became of it. '
     'A begun, joined or branched transaction has every fixed resource started, with join exactly for what the transaction manager already knows of; resources that started are ended when another fails. A failed reply can mark the transaction of the caller for rollback, never unmark it; suspend and resume switch the current transaction only when they succeed.',
     ['schedules', 'fault_sequences', 'configurations'], 'all states of the context (transactions, owners, stages, awaited replies, resources, transaction control modes) and all answers of resources and the transaction manager',
     'unit tests use one resource that works; combinations of several transactions, owners, awaited replies and failing resources are not sampled',
     ['middleware/common/source/transaction/context.cpp', 'middleware/common/source/server/handle/policy.cpp'],
     [('the context', 'middleware/common/source/transaction/context.cpp'), ('when the context is used by a service', 'middleware/common/source/server/handle/policy.cpp')],
     'path-sensitive inter-procedural typestate of transactions and resources over all functions of the transaction context (clang AST), with the folds of results followed symbolically',
     'The transaction manager and the resources do what they answer (T01-T07). A loop over transactions is followed for up to two rounds.')

prop('S06', 'A request for a service goes to the most preferred instance that has it',
     'A lookup that is answered with an instance of another domain (a concurrent instance) is answered with one of lowest order and, among these, fewest hops of all that advertise the service right now, and with one that the transaction of the caller is already associated with if there is one among these. '
     'This holds whatever was advertised, unadvertised, given a new order or lost before. It is only done when the service has no local instance, and never for a request that comes from another domain without permission to forward. The transaction is then associated with the instance that was replied. No service keeps an instance that is gone.',
     ['histories', 'configurations'], 'all histories of advertise, unadvertise, new order, exit and lookup',
     'tests advertise a few instances in order and look up once; an order that changes, equal orders with different hops and transactions across several instances are not sampled together',
     ['middleware/service/source/manager/state.cpp', 'middleware/service/include/service/manager/state.h', 'middleware/service/source/manager/handle.cpp'],
     [('the concurrent instances of a service', 'middleware/service/source/manager/state.cpp'), ('the lookup', 'middleware/service/source/manager/handle.cpp')],
     'typestate of the instances of a service (changed, sorted, most preferred found) on all paths of their methods, inter-procedural path analysis of advertise, exit and lookup (clang AST)',
     'Sorting and searching of common::algorithm and std are taken for what they are named. An instance that advertises a known service again keeps its first order there.')

prop('Q12', 'A queue lookup is answered with the most preferred queue that fits',
     'A lookup of a queue, whether it is answered at once or after waiting, is answered with the instance of lowest order among those with the name that are enabled for what the caller is about to do (enqueue or dequeue), a local one before those of other domains; a caller from another domain that may not be forwarded gets a local one only, and so does a discovery of our own queues. '
     'What is known of a queue is what its group was configured with or its remote has advertised last, whatever was advertised, unadvertised, re-ordered, restarted or lost before. Nobody is given a queue of a process that is gone, and those that wait are looked at again after each change.',
     ['histories', 'configurations'], 'all histories of group configuration, advertise, unadvertise, new order, exit and lookup',
     'tests advertise one or two queues and look up once; orders that change, disabled queues with several remotes, and exits in between are not sampled together',
     [Q + 'manager/state.cpp', Q + 'manager/handle.cpp', 'middleware/queue/include/queue/manager/state.h'],
     [('the known queues', Q + 'manager/state.cpp'), ('the lookup, and those that wait', Q + 'manager/handle.cpp')],
     'path-sensitive effect analysis of the known queues (added, ordered, sorted, removed), decision of the selecting predicate over all combinations, inter-procedural path analysis of the lookups (clang AST)',
     'Sorting and searching of common::algorithm and std are taken for what they are named. The same queue advertised twice by the same remote is kept twice.')

NA = []


def sections():
    import os, re
    p = HERE + '/DESIGN.md'
    s = open(p).read()
    f = json.load(open(HERE + '/known_findings.json'))
    one = ''.join('- ' + ('' if x['status'] == 'fixed' else '**known, not repaired** ' + x['property'] + ': ') + x['what'] + '\n' for x in f)
    two = ''
    for d in sorted(os.listdir(HERE + '/seeded')):
        m = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
        two += f"- `{d}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. Caught by {m['property']}.\n"
    for n, t in (('findings', one), ('seeded', two)):
        s = re.sub(f'<!-- {n} -->.*<!-- /{n} -->', lambda m: f'<!-- {n} -->\n{t}<!-- /{n} -->', s, flags=re.S)
    open(p, 'w').write(s)


def main():
    sections()
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']]))
            if p['state']:
                d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            assert len(d['title']) <= 80, d['title']
            for x in p['files']:
                assert os.path.exists('/repo/' + x), x
            f.write(json.dumps(d) + '\n')
    na = {x for x, _ in NA}
    man = dict(version=1, setup_cmd='bash tool/build.sh && python3 -m sa.warm',
               checks=[dict(property=p['id'], quick_cmd=f"python3 -m sa.check {p['id']}", technique=p['technique'], level='other', level_note=(LEVEL + p['note']).strip())
                       for p in P if p['id'] not in na],
               not_applicable=[dict(property=a, reason=b) for a, b in NA])
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
