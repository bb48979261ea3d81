"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'observe_at': observe or [], 'hook_needed': None}})
S = 'src/hypershell/'
WHY = 'The stable tests only exercise database URL handling; '

prop('C01', 'Task records survive the trip between server and client unchanged',
     'Encoding any task record for the wire and decoding it again yields a record whose every field equals the original: text stays exactly the same text whatever it looks like, numbers, booleans, nulls and tags keep their value and type, and timestamps denote the same instant with the same offset.',
     ['inputs'], 'every task record: any text in any text field, any tag dictionary, any presence/absence of optional fields, any timestamp',
     WHY + 'no test round-trips a record, and the property ranges over all field values (for example arguments that happen to look like a date).',
     [S+'data/model.py', S+'client.py', S+'server.py', S+'submit.py'],
     [('pack / unpack / to_json / from_json', S+'data/model.py'), ('to_json_type / from_json_type', S+'data/model.py')],
     [('columns', 'field name to Python type of the task record', S+'data/model.py')],
     ['Task.unpack(task.pack())'])

prop('C02', 'Heartbeats and bundle confirmations survive the wire unchanged',
     'Encoding any heartbeat (client id, host, time, running/finished state) and decoding it yields the same four values, and the same holds for a bundle confirmation (client id, host, list of task ids). The confirmation built for a received bundle names exactly the ids of the tasks in that bundle in order, with the receiving client\'s own id and host, and the server turns it into exactly one assignment of that client to each named task.',
     ['inputs'], 'every heartbeat and every confirmation, with any text in id/host fields, any timestamp and any list of task ids',
     WHY + 'no heartbeat or confirmation is ever built in a test, and the property ranges over all values.',
     [S+'core/heartbeat.py', S+'client.py', S+'server.py'],
     [('Heartbeat.pack/unpack, ClientState.from_value', S+'core/heartbeat.py'), ('ClientInfo.pack/unpack/from_tasks/transpose', S+'client.py')],
     observe=['Heartbeat.unpack(hb.pack())', 'ClientInfo.unpack(ci.pack()).transpose()'])

prop('C03', 'Every submitted line becomes exactly one database task, in order',
     'Submitting a source of command lines to the database stores exactly one new task per line and nothing else, in the order of the source, whose arguments are the stripped line after template expansion and which carries the given tags, whatever the bundle size, bundle wait, timing and temporary fullness of internal buffers. No line is lost or duplicated, including the last, partially filled bundle, and once as many lines as the bundle size are buffered, or the bundle wait has elapsed since the last write (also while no further line arrives), they are written. The reported task count equals the number of lines. The submit command reads the named file, or standard input when given none or "-", and refuses to submit to an in-memory database.',
     ['inputs', 'schedules', 'configurations'], 'every finite sequence of lines, every bundle size and wait, every interleaving of loader and committer and every timing of queue timeouts',
     WHY + 'the integration scripts sample a handful of sizes with one interleaving each.',
     [S+'submit.py', S+'data/model.py'],
     [('loader state machine', S+'submit.py'), ('database committer state machine', S+'submit.py'), ('SubmitThread start/join order', S+'submit.py'), ('add_all', S+'data/model.py')],
     [('tasks', 'buffered tasks not yet committed', S+'submit.py'), ('count', 'number of loaded tasks', S+'submit.py')],
     ['records written to the database', 'reported task count'])

prop('C04', 'Submission without a database delivers every line exactly once',
     'When tasks are submitted straight to the server queue, every line of the source appears exactly once, in order, in the bundles delivered to the queue, as the encoded record of the task made from that line. A full queue, however long it stays full and also at the very end of the source, only delays delivery: nothing is dropped, duplicated or delivered empty. A bundle is delivered once it is full or the bundle wait has elapsed since the last delivery, also while no further line arrives.',
     ['inputs', 'schedules', 'fault_sequences'], 'every finite sequence of lines, bundle size and wait, every interleaving of loader and committer, and every sequence of queue-full and queue-empty timeouts',
     WHY + 'a queue that is full exactly at the last flush needs a particular timing no test produces.',
     [S+'submit.py'],
     [('loader state machine', S+'submit.py'), ('queue committer state machine', S+'submit.py'), ('LiveSubmitThread start/join order', S+'submit.py')],
     [('tasks/bundle', 'buffered tasks and their packed form', S+'submit.py')],
     ['bundles put on the scheduled-task queue'])

prop('C05', 'A client hands every received task to its executors exactly once',
     'Every task contained in a bundle that a client takes from the server is placed on the client\'s local work queue exactly once, in bundle order and unchanged, before the client stops taking bundles. Unless confirmations are disabled, one confirmation listing precisely that bundle\'s tasks is sent before any of them is handed out. The client stops taking bundles on a disconnect notice, on an interrupt signal (when it is not the client inside a local cluster, whose server ends it), and when no bundle arrived for at least the configured timeout, and for no other reason.',
     ['inputs', 'schedules', 'fault_sequences'], 'every sequence of bundles and sentinels, every sequence of empty/full queue timeouts, with and without confirmation and client timeout, every signal arrival',
     WHY + 'delivery under every pattern of full local queues cannot be sampled.',
     [S+'client.py', S+'cluster/local.py'], [('client scheduler state machine', S+'client.py')],
     [('tasks', 'received but not yet handed out', S+'client.py'), ('previous_received', 'time of last bundle', S+'client.py')],
     ['items put on the local queue', 'items put on the confirmation queue'])

prop('C06', 'A client returns every finished task exactly once, also at shutdown',
     'Every finished task handed to the client\'s result collector is sent back to the server exactly once, in order and with the values it had when it finished, grouped in non-empty bundles. This includes tasks still buffered when the client shuts down and holds however long the return queue is full. Buffered results are sent once the bundle size is reached or once the bundle wait has elapsed since the previous send.',
     ['inputs', 'schedules', 'fault_sequences'], 'every sequence of finished tasks, bundle size and wait, every sequence of queue-empty/queue-full timeouts and every point at which shutdown is requested',
     WHY + 'shutdown with a partially filled bundle, or with a full return queue, is a particular point in a schedule.',
     [S+'client.py'], [('client collector state machine', S+'client.py')],
     [('tasks/bundle', 'finished tasks not yet returned', S+'client.py')],
     ['bundles put on the completed-task queue'])

prop('C07', 'Executors run each task once and report its true outcome',
     'For every task an executor takes, its expanded command line is started at most once and the task is handed back exactly once, before the next one is taken, with the executing client\'s id and host, the command that was run, the process\'s own exit status, and start and completion times that bracket the run (completion not before start, whole-second duration between them, waiting time measured from submission). A task whose command cannot be expanded or cannot be started is handed back as failed with a non-zero status instead of being lost, and does not stop the executor. Executors of one client do not affect each other: one that ends leaves the output streams they share open. (Only when a process survives even a kill does the executor give up on it.)',
     ['inputs', 'schedules', 'fault_sequences'], 'every sequence of tasks and templates, every exit status and process duration, every failure to expand or start, every pattern of queue timeouts',
     WHY + 'process outcomes, start failures and queue fullness are only sampled by the integration scripts.',
     [S+'client.py'], [('task executor state machine', S+'client.py')],
     [('task/process', 'the task currently owned by the executor', S+'client.py')],
     ['tasks put on the outbound queue', 'process launches'])

prop('C08', 'Walltime and interrupts escalate INT, TERM, KILL with waits between',
     'A running task is left alone until it has run for at least its walltime limit (never, when no limit is set) or a stop-now signal was received; a task that finishes by itself is never signalled. From then on the executor sends an interrupt, then, only if the task still runs after the signal wait, a terminate, and only after two signal waits a kill, each at most once and never out of order. Only when the process survives three signal waits does the executor give up.',
     ['schedules', 'fault_sequences', 'configurations'], 'every walltime limit and signal wait, every process lifetime, every timing of polls and arrival of signals',
     WHY + 'timing-dependent escalation needs control over the clock and the process.',
     [S+'client.py', S+'core/signal.py'], [('wait/check/stop/term/kill states', S+'client.py')],
     [('stop_requested', 'time at which the stop was requested', S+'client.py'), ('attempted_sig*', 'signals already sent', S+'client.py')],
     ['signals delivered to the task process'])

prop('C09', 'Scheduling selects only eligible tasks, oldest first, within the limit',
     'A batch selected for scheduling contains at most the requested number of tasks, each of which is either a never-scheduled task or a fresh retry of a failed one; never-scheduled tasks are taken in order of submission time and are only left behind when the batch is full. By default never-scheduled tasks take priority over retries; in eager mode retries take priority. Every selected task is recorded in the database as scheduled by this server (id, host and time) before the batch is used, and no other task is marked scheduled.',
     ['inputs', 'histories', 'configurations'], 'every database content, batch limit, attempt limit and eager setting',
     WHY + 'the property quantifies over all database states.',
     [S+'data/model.py'], [('next / select_new / select_failed', S+'data/model.py')],
     [('task rows', 'schedule_time null means never scheduled', S+'data/model.py')],
     ['tasks returned for scheduling', 'database rows'])

prop('C10', 'A failed task is retried once per failure and only up to the limit',
     'A retry is created only for a completed task with non-zero exit status, fewer attempts than the allowed number, and no previous retry; its arguments and tags equal those of the failed task, its attempt number is one higher, and the two records refer to each other. No failed task ever receives a second retry, no chain of retries exceeds the allowed number of attempts, and successful or running tasks are never retried.',
     ['inputs', 'histories'], 'every database content, attempt limit, batch limit and every sequence of selections',
     WHY + 'chains of retries over arbitrary histories cannot be enumerated by examples.',
     [S+'data/model.py'], [('select_failed and creation of successors', S+'data/model.py')],
     [('attempt/retried/previous_id/next_id', 'retry bookkeeping', S+'data/model.py')],
     ['database rows'])

prop('C11', 'The server posts every selected batch exactly once and stops only when done',
     'Every batch of tasks selected for scheduling is posted to clients exactly once, complete, in order and in encoded form, before the next batch is selected; a full queue only delays it. The scheduler stops only on an interrupt signal, or, when not running forever, at a moment when there are tasks in the database (at least one having been scheduled by this run unless restarting) and none of them is unfinished or still to be retried; while the server\'s own task source is still being submitted it does not stop by itself. On start-up, previously interrupted tasks are returned to the pool before anything is scheduled.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence of database states, selected batches, queue-full timeouts and signals, in all modes',
     WHY + 'the interplay of database state and queue timing is not reached by tests.',
     [S+'server.py'], [('server scheduler state machine', S+'server.py')],
     [('tasks/bundle', 'batch in flight', S+'server.py'), ('startup_phase', 'nothing scheduled yet', S+'server.py')],
     ['bundles put on the scheduled-task queue', 'scheduler halting'])

prop('C12', 'The server records every returned result and every confirmation once',
     'Every task in every bundle returned by a client has all its values written to the database record with its id (when a database is in use), and the arguments of each task whose exit status is non-zero, and only those, are written to the failures stream in order, one per line. Every bundle confirmation assigns the confirming client to exactly the tasks it lists (when a database is in use). Collection stops only when the end marker is received, and an empty poll never loses or repeats anything.',
     ['inputs', 'schedules', 'histories'], 'every sequence of result bundles, confirmations and poll timeouts, with and without database and failures stream',
     WHY + 'arbitrary interleavings of bundles and timeouts cannot be sampled.',
     [S+'server.py', S+'data/model.py', S+'client.py'],
     [('receiver state machine', S+'server.py'), ('confirm state machine', S+'server.py'), ('update_all', S+'data/model.py')],
     observe=['database rows', 'failures stream'])

prop('C13', 'Clients are registered, kept and evicted exactly by their heartbeats',
     'A client is connected from its first running heartbeat until it reports that it finished or is evicted, and a client known to the database that reports again is marked connected again rather than added twice. A client is evicted only when, at a check, its most recent heartbeat is older than the eviction period, and every check evicts all such clients, marking them evicted and (with confirmations in use) returning to the pool exactly their unfinished tasks. When told to signal, the monitor posts exactly one disconnect notice per connected client (a client that connects afterwards gets one as it connects), and it stops only on an end marker or when scheduling is over and no client is connected.',
     ['schedules', 'histories', 'configurations'], 'every sequence and timing of heartbeats from any number of clients, every eviction period, with and without database and confirmations',
     WHY + 'eviction depends on wall-clock histories that tests do not control.',
     [S+'server.py', S+'data/model.py'], [('heart monitor state machine', S+'server.py'), ('revert_orphaned', S+'data/model.py')],
     [('beats', 'latest heartbeat per connected client', S+'server.py')],
     ['client records in the database', 'disconnect notices on the scheduled-task queue'])

prop('C14', 'Restart and eviction return exactly the interrupted tasks to the pool',
     'Recovery at restart makes schedulable again exactly those tasks that were scheduled but never completed, and recovery after an eviction exactly those of them assigned to the evicted client, however many there are. A recovered task is indistinguishable from a never-scheduled one: everything recorded by the scheduling server or executing client is cleared, while its identity, arguments, submission data, attempt bookkeeping and tags are kept. Every other task is left untouched, in particular completed and cancelled ones.',
     ['histories', 'inputs', 'crash_points'], 'every database content, any number of interrupted tasks, any crash point of the previous server that leaves such a database',
     WHY + 'the property ranges over all database contents left behind by a crash.',
     [S+'data/model.py', S+'server.py'], [('select_interrupted / select_orphaned / revert_all', S+'data/model.py')],
     [('task rows', 'schedule_time set and completion_time null means interrupted', S+'data/model.py')],
     ['database rows'])

prop('C15', 'Shutdown is ordered so no task or result in flight is dropped',
     'A client shuts down by first ending task intake, then ending every executor by one end marker each and waiting for all of them, then ending and waiting for the collector, and only then announcing that it finished and disconnecting. A server shuts down by first waiting for submission, then scheduling, then signalling all clients and waiting until they are gone, and only then ending and waiting for the collection of results and of confirmations before the queues are closed. The end marker of a stage is always queued behind everything produced before it.',
     ['schedules'], 'every interleaving of component threads, any number of executors, all modes',
     WHY + 'ordering across threads must hold for every schedule.',
     [S+'client.py', S+'server.py', S+'submit.py'],
     [('run_with_exceptions and wait_* methods', S+'client.py'), ('run_with_exceptions and wait_* methods', S+'server.py'), ('run_with_exceptions', S+'submit.py')],
     observe=['order of thread starts, joins and end markers'])

prop('C16', 'Template patterns expand to their documented value and nothing else changes',
     'Expanding a template replaces every brace pattern by its documented value for the task\'s arguments (the whole argument, parent and grandparent directory, base name, base name or path without extension, extension with and without dot, word selections, lambda and shell expressions) and keeps all other text verbatim and in order. Patterns are matched left to right and expanded text is never expanded again. A pattern that is unknown or fails raises an error instead of running a wrong command.',
     ['inputs', 'programs'], 'every template with any number of patterns and every argument string',
     WHY + 'the expansion is a function over all strings; no stable test covers it.',
     [S+'core/template.py', S+'core/types.py'], [('expand and pattern tables', S+'core/template.py')],
     observe=['Template(t).expand(args)'])

prop('C17', 'Cluster launch passes every option on to the server and to the clients',
     'Every option given to the cluster (local, launcher, MPI, SSH or autoscaling) reaches the component it concerns unchanged: the server gets source, bundle size and wait, database and confirmation mode, forever/restart mode, retries, eager mode, failures stream and bind address, and each client gets host, port, task count, template, bundle size and wait, start delay, timeouts, signal wait, capture and confirmation mode. Server and clients always share one freshly generated secret key, and one client command is built per requested host. (Autoscaling always uses the database and confirmations and runs forever.)',
     ['configurations', 'inputs'], 'every combination of option values in every launch mode',
     WHY + 'no stable test launches a cluster, and combinations of options are many.',
     [S+'cluster/__init__.py', S+'cluster/local.py', S+'cluster/remote.py', S+'cluster/ssh.py', S+'server.py', S+'client.py'],
     [('ClusterApp.run and run_*', S+'cluster/__init__.py'), ('constructors of the cluster threads', S+'cluster/'), ('constructors of server and client threads', S+'server.py, '+S+'client.py')],
     observe=['arguments of component constructors', 'argument vector of launched clients'])

prop('C18', 'Autoscaling keeps the number of clients within its configured bounds',
     'The autoscaler launches exactly the initial number of clients first and then, once per elapsed period, checks and launches at most one client. At a check it adds a client if fewer than the minimum are running, or if none is running while tasks remain (in dynamic mode: while task pressure is still unknown), or, in dynamic mode, if task pressure exceeds one and fewer than the maximum are running, and in no other case; a client whose process has exited no longer counts. In dynamic mode it therefore never exceeds the larger of the initial, minimum and maximum sizes (the maximum being at least one). Task pressure is the estimated time to complete the remaining tasks at the rate of the connected clients over factor times their average task duration, and unknown while nothing has been completed or nothing remains; it can be determined with every supported database.',
     ['histories', 'configurations', 'schedules'], 'every policy, size bounds, period, every history of client exits, remaining-task counts and pressures',
     WHY + 'scaling decisions depend on long histories of timing and load.',
     [S+'cluster/remote.py', S+'data/model.py'], [('autoscaler state machine', S+'cluster/remote.py'), ('Task.task_pressure', S+'data/model.py')],
     [('clients', 'launched clients still believed running', S+'cluster/remote.py')],
     ['client processes launched'])

prop('C19', 'Setting configuration values changes exactly the named settings',
     'Setting an option in a configuration file makes that option read back with the given value (booleans and numbers typed, everything else as text) and leaves every other option of the file at its previous value, creating missing sections as needed; a value the file format cannot represent (null) is rejected and leaves the file as it was; `config edit` opens exactly the file of the source asked for in the editor chosen. Effective configuration takes each option from the most specific source that defines it: environment over local over user over system over built-in defaults, merged per option rather than per section.',
     ['inputs', 'configurations', 'histories'], 'every existing configuration, option path and value, and every sequence of settings and combination of sources',
     WHY + 'only samples of nested updates could be tested; none is in the stable set.',
     [S+'core/config.py', S+'config.py', S+'core/types.py'],
     [('update / _inplace_update', S+'core/config.py'), ('partial_load / partial_reload', S+'core/config.py'), ('smart_coerce', S+'core/types.py'), ('config set', S+'config.py')],
     observe=['configuration file contents', 'effective configuration values'])

prop('C20', 'Host patterns expand to exactly the hosts they denote',
     'A host specification expands to exactly the listed hosts in order: comma-separated entries outside brackets each contribute their hosts, and a bracketed list of numbers and ranges contributes one host per denoted number between the same prefix and suffix, keeping zero padding. A single plain host name expands to itself, and a named group expands to the hosts configured for it.',
     ['inputs', 'configurations'], 'every specification made of plain names and names with one bracketed list of numbers and ascending ranges, and every configured group',
     WHY + 'the pattern language is infinite and no stable test covers it.',
     [S+'cluster/ssh.py'], [('NodeList.from_cmdline/from_config/from_pattern/expand_pattern', S+'cluster/ssh.py')],
     observe=['list of hosts'])

prop('C21', 'Search returns exactly the tasks that satisfy all given conditions',
     'A task search returns exactly those tasks for which every given condition (field, comparison, value), every tag filter (by name or by name and value) and the failed/succeeded/completed/remaining selector hold, in the requested order and limited to the requested number. All six comparisons and the pattern match mean what they say, with the value read as the type of the field. A condition that is not understood is rejected rather than ignored.',
     ['inputs', 'histories'], 'every condition text, tag filter, selector, order and limit, on every database content',
     WHY + 'the filter language ranges over all texts and contents.',
     [S+'task.py', S+'core/types.py'], [('WhereClause', S+'task.py'), ('Tag', S+'task.py'), ('build_query', S+'task.py')],
     observe=['rows returned by a search'])

prop('C22', 'Bulk task updates change exactly the matching tasks as requested',
     'A bulk update applies exactly the requested field changes, tag additions and tag removals, or cancellation, revert or deletion, to every task that satisfied the given conditions when the command was issued (at most the given limit) and to no other task; everything else about those tasks is kept. A change to the task identifier, to an unknown field, or with an invalid tag is rejected before anything is modified.',
     ['inputs', 'histories'], 'every combination of conditions, limit, field and tag changes on every database content',
     WHY + 'needs all contents and combinations, e.g. an update that alters the field it selects on.',
     [S+'task.py', S+'data/model.py'], [('TaskUpdateApp.update_tasks / process_arguments', S+'task.py')],
     observe=['database rows'])

prop('C23', 'State machines run until halted and component failures are not swallowed',
     'A component\'s state machine performs the action of its current state, moves to the state that action returns and repeats until the halt state; once asked to halt it performs no further action. An error raised by an action ends the component and is raised again to whoever waits for it, never silently dropped. When a part of a server or client (its collector, its heartbeat or all its executors) fails, or the delivery of tasks to database or queue fails during a submission, the server, client or submission ends with that error instead of waiting for its other parts or for room in a buffer nobody reads; so does an autoscaling cluster whose server failed and a cluster whose clients cannot be launched; the calls that run a server, client, cluster or submission stop it when it failed and pass its error on, and stopping asks every part to stop.',
     ['programs', 'schedules', 'fault_sequences'], 'every machine, every action outcome and every moment at which a halt is requested',
     WHY + 'the engine must be right for all machines; no stable test runs one.',
     [S+'core/fsm.py', S+'core/thread.py', S+'server.py', S+'submit.py', S+'client.py', S+'cluster/local.py', S+'cluster/remote.py', S+'cluster/ssh.py'],
     [('run / next / halt', S+'core/fsm.py'), ('run / join / stop', S+'core/thread.py'), ('ServerThread.wait_for / stop, serve_from', S+'server.py'), ('run_with_exceptions of the committers', S+'submit.py')],
     observe=['sequence of actions performed', 'exceptions raised by join', 'exceptions that end a server or submission'])

prop('C24', 'Task processes see their own task data in the environment',
     'The environment of a task process contains the inherited variables, all configured exports, one variable per recorded field of that task and one per tag of that task with their values, the configured working directory, and output and error paths that are distinct for distinct tasks. Values of the task itself are never those of another task and take precedence over inherited variables of the same name.',
     ['inputs', 'configurations'], 'every task record, tag dictionary, inherited environment and configured exports',
     WHY + 'ranges over all records and environments.',
     [S+'client.py', S+'core/config.py'], [('task_env', S+'client.py'), ('load_task_env', S+'core/config.py')],
     observe=['environment passed to the process'])

prop('C25', 'Waiting for a task ends exactly when it finishes and reports its status',
     'Waiting for a task returns only after the task has an exit status recorded, looking at fresh data on every poll and pausing the requested interval in between. Asking for the status prints that status, and asking to return it makes the command exit with exactly that status, zero included. A malformed or unknown task id is reported as an error.',
     ['histories', 'schedules'], 'every history of a task record and every exit status',
     WHY + 'depends on the history of the database while waiting.',
     [S+'task.py', S+'data/model.py', S+'core/exceptions.py'], [('TaskWaitApp', S+'task.py'), ('from_id', S+'data/model.py')],
     observe=['command exit status and output'])

prop('C26', 'No invalid tag is ever accepted and no valid tag is refused',
     'A tag dictionary is accepted if and only if it is absent or a dictionary with text keys whose every value is null, boolean, number, blank text, or text of at most 120 characters made only of letters, digits and the symbols . _ + -; one bad entry is enough to reject it wherever it stands. Tags given as text are split at the first colon into name and value, with the value typed, and a tag without colon means an empty value.',
     ['inputs'], 'every tag dictionary and every tag text',
     WHY + 'ranges over all dictionaries and orders of entries.',
     [S+'data/model.py', S+'task.py'], [('ensure_valid_tag', S+'data/model.py'), ('Tag.from_cmdline', S+'task.py')],
     observe=['acceptance or error'])

prop('C27', 'A cancelled task is never scheduled, retried or revived again',
     'Once a task that is neither running nor finished is cancelled, it is never selected for scheduling, never retried, never returned to the pool by restart or eviction recovery, and never keeps the server waiting as unfinished work. Only an explicit revert makes it schedulable again.',
     ['histories', 'configurations'], 'every database content with cancelled tasks, every attempt limit and mode, every sequence of scheduling, recovery and restart operations',
     WHY + 'requires all histories mixing cancellation with scheduling, retries and restarts.',
     [S+'data/model.py', S+'server.py', S+'task.py'], [('cancel_all and selection/recovery filters', S+'data/model.py')],
     observe=['database rows', 'tasks selected'])

prop('C28', 'Every task is eventually executed while clients stay connected',
     'As long as at least one client stays connected and tasks terminate, every submitted task is eventually executed and its result recorded.',
     ['schedules', 'fault_sequences'], 'every fair schedule of server, clients and network',
     'Liveness over unbounded fair schedules is out of reach of tests.',
     [S+'server.py', S+'client.py'], [('all state machines together', S)])
prop('C29', 'Only holders of the shared key can reach the queues',
     'A process that does not know the server\'s authentication key can neither read from nor write to any of its queues.',
     ['inputs', 'fault_sequences'], 'every peer behaviour', 'Security against arbitrary peers cannot be tested exhaustively.',
     [S+'core/queue.py'], [('authkey handed to the multiprocessing manager', S+'core/queue.py')])
prop('C30', 'A crash at any moment never loses an acknowledged database change',
     'After a crash of the server at any instruction, the database contains every change acknowledged before the crash and recovery resumes from it.',
     ['crash_points'], 'every crash point in every process, including inside the database engine', 'Crash points inside the storage engine are not reached by tests.',
     [S+'data/model.py'], [('commit boundaries', S+'data/model.py')])

prop('C31', 'Task commands show the recorded values of exactly the tasks asked for',
     'Whatever the recorded values are (quotes, brackets, markup, line breaks, zero, false, null), `task info` shows exactly the task with the given id: all fields by default, the same values as JSON or YAML that read back unchanged, the one field asked for (texts verbatim, anything else as JSON), or the recorded output files, fetched from the host that ran the task if they are not here. `task search` prints exactly one record per task found with exactly the requested fields in the requested order: JSON reads back as the recorded values, CSV has a header line and reads back as the texts, and plain, table and normal show each value as its JSON text without the enclosing quotes, with nothing lost, added or interpreted as markup; `--count` prints how many were found and nothing else; tag keys and values are each listed once. Formats, delimiters and field names that make no sense together are refused before anything is printed. `task submit` and `task run` store exactly one new task with the given arguments and tags; submit prints its id, run waits for it and then prints its output and its errors.',
     ['inputs'], 'every recorded value of every field, every list of found tasks and of requested fields, every format and delimiter',
     WHY + 'ranges over all texts and values that tasks can carry; the existing tests never look at printed listings.',
     [S+'task.py'], [('TaskSearchApp.print_*', S+'task.py'), ('TaskInfoApp', S+'task.py'), ('TaskSubmitApp/TaskRunApp', S+'task.py')],
     observe=['command output'])

prop('C32', 'Looking up settings shows exactly what is in effect and where it comes from',
     '`hs config get` prints exactly the setting at the given path of the merged configuration, or of the one source asked for: a text verbatim, any other value as JSON, a section (at any depth, or everything) as TOML that reads back as that section. With --expand it prints the value given directly, by variable or by command. A path that is not there, leads below a setting that is no section, or a source without file is an error and prints nothing. `hs config which` reports the most specific source that has the setting, the value in effect and the default (abbreviated if it contains brackets), or only the source with --site; nothing is claimed about a setting that is not there. Names and values are arbitrary as far as the TOML library writes them correctly.',
     ['inputs', 'configurations'], 'every content of every source, every path of any depth, every option',
     WHY + 'ranges over all nested configurations and paths.',
     [S+'config.py', S+'core/config.py'], [('ConfigGetApp', S+'config.py'), ('ConfigWhichApp', S+'config.py')],
     observe=['command output and status'])

prop('C33', 'Exactly the configured database is used, and emptied only when confirmed',
     'The connection made denotes exactly the configured provider, user, password, host, port, database or file and parameters, whatever characters users and passwords contain (names without question mark); settings that make no sense together are refused, and their printed representation never shows the password. Initialising creates missing tables and never touches stored tasks. All tasks are deleted exactly when `initdb --truncate` is confirmed by --yes or by an affirmative answer (blank, y, yes in any case) on a terminal; any other answer, or no terminal, leaves everything as it was and is an error unless it is n or no. Before submit, server, cluster and task commands use the database, its tables are created (SQLite, or when asked with --initdb) or checked to be there, an uninitialised or missing database being an error; server and cluster need none with --no-db. Leaving server and cluster closes exactly the files they opened, never a standard stream.',
     ['inputs', 'configurations'], 'every combination and content of database settings, every answer, every state of the database',
     WHY + 'ranges over all settings and answers; the existing tests build URLs from plain names only.',
     [S+'data/core.py', S+'data/__init__.py', S+'server.py', S+'cluster/__init__.py'], [('DatabaseURL, get_engine', S+'data/core.py'), ('InitDBApp, initdb, truncatedb, checkdb, ensuredb', S+'data/__init__.py'), ('ServerApp.__enter__', S+'server.py'), ('ClusterApp.__enter__', S+'cluster/__init__.py')],
     observe=['database connected to', 'tables and rows', 'command status'])

prop('C34', 'Contradictory options are refused untouched; errors end in message and status',
     'The client refuses --capture with --output or --errors and limits (--timeout, --task-timeout) that are not positive; the server refuses a FILE or --restart with --forever, and both --forever and --restart with --no-db; the cluster refuses the latter two, --forever with --restart, --output and --errors with any remote or autoscaling mode or --capture, --ssh-args outside ssh mode, --ssh-group with a launch mode or host of its own (by itself it implies --ssh), and --autoscaling with ssh, MPI or --no-db; no other combination of these is refused. A refused command says why, has status 2, and has not opened or emptied a file, prepared a database or started anything; an accepted one runs once, in the mode asked for, and opens exactly the files given (client). Any error of any command ends it with a critical message that names the error and tells its text (line breaks as dashes): status 3 for errors of the configuration, 5 otherwise, with a traceback file among the logs, named in the message, exactly for errors that are no runtime error, missing file, uninitialised database, missing task, or failed connection; `task wait --return` passes on the status of the task silently. The program has every documented command and option, sets up logging and the handlers of SIGUSR1 and SIGUSR2 before the command, and ends with its status; the last of these signals received is the one seen; log levels are named in any case, and unknown ones refused.',
     ['inputs', 'configurations', 'faults'], 'every combination of options with any texts, every error and message, every order of signals',
     WHY + 'quantifies over all combinations of options and all errors; the existing tests run a few valid command lines.',
     [S+'client.py', S+'server.py', S+'cluster/__init__.py', S+'core/exceptions.py', S+'__init__.py', S+'core/signal.py', S+'core/logging.py', S+'task.py'], [('ClientApp.check_arguments/run', S+'client.py'), ('ServerApp.check_arguments', S+'server.py'), ('ClusterApp.check_arguments/run', S+'cluster/__init__.py'), ('handle_exception, write_traceback, get_shared_exception_mapping', S+'core/exceptions.py'), ('main', S+'__init__.py'), ('register_handlers', S+'core/signal.py'), ('level_from_name', S+'core/logging.py')],
     observe=['exit status', 'message on standard error', 'files opened', 'components started'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
