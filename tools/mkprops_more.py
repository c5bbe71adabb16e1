prop('C03', 'Tablet data cache answers batches once, completely, with authentic contents',
     'Loading a batch of tablets is answered exactly once: with all requested tablets, each as often as requested and with contents that match the hash recorded in its metadata (bytes from the storage that do not match are never handed out), or with an error if and only if one of them could not be had. Storing a batch is confirmed only after every blob of it is stored; the metadata handed back is the next version of the tablet with the size and hash of exactly the stored contents and a uri no other contents have. Each missing tablet is requested once, under an id used for nothing else, a batch is answered by the next advance of the cache after its last reply, replies nobody waits for change nothing, and tablets still being loaded or stored never leave the cache.',
     ['histories', 'schedules', 'fault_sequences'], 'all interleavings of load and store batches (overlapping, repeated and empty ones), replies (succeeding, failing, forged, repeated, in any order) and advances of the cache',
     'The unit tests load or store one or two tablets in a scripted order; batches that share tablets, partial caching, failures in the middle and forged contents are combinations no sample covers.',
     [TC + 'transaction/data.rs', TC + 'transaction/result.rs'],
     [('requests and batches', 'DefaultTabletDataCache::load_tablets, store_tablets, register_pending_cache_entries'),
      ('batch resolution', 'TabletBatch::resolve_pending_cache_entry, DefaultTabletDataCache::make_progress'),
      ('contents and metadata', 'DefaultTabletDataCache::prepare_tablet_read, prepare_tablet_write, format_blob_uri')],
     [('remaining_cache_entries', 'tablets of the batch that are not answered yet: equals the number of its registrations with entries', 'TabletBatch'),
      ('tablet_operations', 'one per tablet being loaded or stored', 'DefaultTabletDataCache')],
     ['results of load_tablets / store_tablets', 'load and store requests taken from the cache'])
prop('C04', 'A transaction commits exactly what it read and wrote, or nothing',
     'Committing a transaction sends one request with exactly one operation for every tablet each of its processes was given: an update to the stored new version of the tablet if the handler wrote it (the version after the one read, carrying exactly what was written, already stored), a check of the version read otherwise, each under the right table. Nothing is sent if one of the processes failed, or if two of them wrote the same tablet so that one of the updates would be lost. The transaction succeeds if and only if the Tablet Store reports every operation as succeeded (one result per operation); the metadata cache learns the new metadata only then, and otherwise only the metadata the store reports for operations that failed.',
     ['inputs', 'histories', 'fault_sequences'], 'all sets of processes, resolved tablets of several tables, handlers, failures of the caches and results of the Tablet Store',
     'The unit tests commit one process over one or two tablets with matching results; several processes, tables that share tablet ids, partly failing or missing results are not sampled.',
     [TC + 'transaction/coordinator.rs', TC + 'transaction.rs'],
     [('operations of a transaction', 'PreparingTabletTransactionState::complete, TabletState::get_tablet_op'),
      ('processing', 'PreparingTabletTransactionState::make_progress, TabletState::tablet_prepare'),
      ('outcome', 'CommittingTabletTransactionState::complete, DefaultTabletTransactionCoordinator::process_in_message')],
     [('tablets', 'tablets of a process with what was read and written', 'TabletProcessState'),
      ('is_dirty / metadata', 'a written tablet carries its next version', 'Tablet')],
     ['ExecuteTabletOpsRequest taken from the coordinator', 'check_transaction_result', 'update_tablet calls on the metadata cache'])
prop('C05', 'Transactions run to one outcome; handlers run once, with all tablets',
     'Every transaction has an id of its own. Each process of a transaction goes through resolving, loading, handling and storing; its handler is called exactly once, with the id of the transaction and with all and only the tablets its queries resolved to, each with its loaded contents, and never after the transaction ended. A transaction has processing pending until each process has completed or failed. Committing sends at most one request under an id used for nothing else; a transaction without tablets completes at once. The outcome is unknown until the response to that request is there, and is then reported once. Aborting ends a transaction at any time. Unknown, repeated or late responses change nothing, and transactions do not affect each other.',
     ['histories', 'schedules', 'fault_sequences'], 'all interleavings of transactions, processes, answers of the caches, responses, aborts and advances of the coordinator',
     'The unit tests drive one transaction through a script; interleaved transactions, failures in each stage, aborts while committing and stray responses are combinations no sample covers.',
     [TC + 'transaction/coordinator.rs', TC + 'transaction.rs'],
     [('stages', 'PreparingTabletTransactionState::make_progress, is_active'),
      ('life of a transaction', 'DefaultTabletTransactionCoordinator::create_transaction, process_transaction, commit_transaction, abort_transaction, check_transaction_result'),
      ('responses', 'DefaultTabletTransactionCoordinator::process_in_message')],
     [('transactions', 'live transactions by id, at most the transaction counter', 'DefaultTabletTransactionCoordinator'),
      ('correlations', 'requests under way: one per committing transaction, ids at most the correlation counter', 'DefaultTabletTransactionCoordinator')],
     ['calls of process handlers', 'has_transaction_pending_process', 'check_transaction_result', 'requests taken from the coordinator'])
prop('C06', 'Traffic with store and storage reaches who asked, failed requests included',
     'The transaction manager sends every request of the coordinator and of the two caches exactly once, with its id and contents. Load and store responses reach the data cache; of a tablet store response, list results reach the metadata cache and all other results the coordinator, each under the id of the request and in order, an operation found invalid (a result without details) counting as its failed result. When a request fails as a whole, its sender gets exactly one failed result per operation, of the kind, table and bounds of that operation, and only once. Advancing advances each component once; what is done through a transaction handle is done to that transaction, and the outcome it reported first is the one it keeps reporting.',
     ['histories', 'fault_sequences', 'inputs'], 'all sequences of requests, responses with any results, rpc errors (also unknown and repeated), advances and transaction handle calls',
     'The unit tests of the tablet cache mock the manager away; failed, invalid and repeated answers for several requests under way at once are not exercised.',
     [TC + 'transaction/manager.rs'],
     [('precomputed failed results', 'create_failed_op_result, TabletTransactionManagerCore::take_out_messages, process_in_message'),
      ('routing', 'TabletTransactionManagerCore::process_in_tablets_op_response, process_in_message'),
      ('handles', 'DefaultTabletTransaction, DefaultTabletTransactionManager')],
     [('tablets_errors', 'failed results of requests under way by correlation id', 'TabletTransactionManagerCore')],
     ['messages taken from the manager', 'messages the coordinator and the caches get'])
prop('C07', 'Every put and get is answered once, after its tablet update is committed',
     'Every request given to the key value store is answered exactly once, with a response of its kind and id: it is never lost, doubled or mixed up with another one, whatever fails on the way. A response is given out only when the transaction that processed the request has gone through; requests of a failed transaction, and those a transaction did not process, are retried. Requests are run in order on the contents of the tablet that owns their key, responses tell what those contents had, and a tablet is written exactly when a put ran on it, with the resulting contents. Requests are resolved and processed in batches once the configured numbers are waiting; a tablet takes part in at most one transaction at a time and becomes free again when that transaction ends, and a transaction is committed only after its processing has completed.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences of puts and gets, batch sizes, distributions of keys over tablets (changing ones included), orders of resolving, processing and committing, and failing transactions',
     'The unit tests follow one batch on one tablet; failed transactions, requests spread over tablets, partial resolution and several transactions under way need a history no sample covers.',
     [TC + 'store.rs'],
     [('requests and tablets', 'RequestTracker::take_resolved_requests, SimpleKeyValueStoreCore::handle_query_resolve'),
      ('processing', 'TabletTracker::process_table_query, SimpleKeyValueStoreCore::handle_query_process'),
      ('commit, response, retry', 'TransactionTracker::maybe_finalize_transaction, SimpleKeyValueStoreCore::maybe_finalize_or_retry_transactions')],
     [('waiting_resolution_requests / waiting_processing_requests / requests', 'where each unanswered request is kept, exactly once', 'RequestTracker, TabletTracker, TransactionTracker'),
      ('has_transaction', 'a tablet is taken by exactly one live transaction', 'TabletTracker')],
     ['responses taken from the store', 'resolve and process queries', 'contents written to tablets'])
prop('C19', 'A result handle tells what its source was set to, and keeps telling it',
     'The handle returned for an operation that completes later tells nothing until the source of the result is set, and from then on exactly the value or the error it was set to, however often and whenever it is asked, also after the source is gone. Handles of different operations do not affect each other, and a handle made from an error tells that error at once.',
     ['histories', 'inputs'], 'all values, errors and interleavings of creating, setting and asking',
     'The module has no tests; those of its users ask each handle once or twice at fixed points.',
     [TC + 'transaction/result.rs'],
     [('result channel', 'create_eventual_result, create_result_from_error, ResultHandle::check_result, ResultSource::set_result, set_error')],
     [('result / error', 'at most one of them is there', 'ResultCore')],
     ['check_result'])
TS = 'apps/tablet_store/service/src/'
prop('C08', 'Tablet store requests apply completely or not at all, guarded by versions',
     'A request to the Tablet Store is decided against the tablets as they were before it: a check succeeds if and only if the tablet exists with exactly the version given, an update if and only if the tablet exists and the new version is exactly one above the stored one, a listing always; an operation on an unknown table, without contents or of an unsupported kind is invalid. If every operation succeeds, exactly its updates are applied, in order, otherwise nothing changes, and the status of the request says which. There is one result per operation, in order, under its table, with the listed tablets or the stored metadata that stood in the way. Requests never create or drop tablets and never take a version back, and no request, however malformed, takes a replica down.',
     ['inputs', 'histories'], 'all sequences of requests with any operations, tables, tablets and versions (repeated tablets and unsupported operations included)',
     'The unit tests apply a few single operations with matching or wrong versions; requests that mix tables, succeeding, failing and invalid operations, or repeat a tablet, are not sampled.',
     [TS + 'actor.rs'],
     [('deciding an operation', 'TableMetadata::prepare_tablet_op, TabletStoreActor::prepare_tablet_op'),
      ('applying a request', 'TabletStoreActor::on_apply_tablets_request, commit_tablet_op')],
     [('tablets', 'metadata of each tablet under its id', 'TableMetadata'), ('tables', 'configured tables under their names', 'TabletStoreActor')],
     ['TabletsResponse of an applied event', 'tablets in a saved snapshot'])
prop('C09', 'Listing a key hash range yields exactly the tablets responsible for it',
     'For every set of tablets and every range of key hashes, also one that wraps around zero or covers the whole ring, listing the range from..to yields each tablet that is responsible for some key hash of the range (the bounds included), no other tablet, and none twice, each with the metadata stored for it. A tablet is responsible for a key hash if it is the first one met going clockwise from the hash around the ring.',
     ['inputs'], 'all sets of tablets and all bounds',
     'The unit tests list one or two ranges of a ring of two tablets; the wrap around zero, ranges past the last tablet and bounds that equal tablet ids have far more combinations.',
     [TS + 'actor.rs'],
     [('listing', 'TableMetadata::find_tablets')],
     [('tablets', 'metadata of each tablet under its id', 'TableMetadata')],
     ['ListTabletResult of a request'])
prop('C10', 'A tablet store restored from a snapshot has the tablets that were saved',
     'A snapshot of the Tablet Store holds every table with all of its tablets, once each and by ascending id, and saving changes nothing. Loading it on any replica with the same tables, whatever that replica held before, leaves exactly the saved tablets with their metadata, so both replicas answer all later requests alike. A snapshot that does not decode, or of a table the replica does not have, is refused. A fresh Tablet Store has each configured table with exactly as many different tablets as configured, none of them stored so far.',
     ['histories', 'crash_points'], 'all tablets of all tables, histories on both replicas before and after the snapshot',
     'The unit tests save and load one fixed snapshot; that leftovers of the loading replica disappear and that nothing is lost for any contents needs all states.',
     [TS + 'actor.rs'],
     [('saving and loading', 'TableMetadata::save_snapshot, load_snapshot, TabletStoreActor::on_save_snapshot, on_load_snapshot'),
      ('initial tablets', 'RandomTabletConfigurator::generate, TableMetadata::create, TabletStoreActor::on_init')],
     [('tables', 'configured tables under their names', 'TabletStoreActor')],
     ['bytes of on_save_snapshot', 'answers after on_load_snapshot'])
prop('C11', 'Tablet store commands are proposed by leaders and answered by their proposer',
     'A command is proposed for replication, unchanged and under its correlation id, exactly if the replica is leader and the command has a decodable header with a message and a decodable request; otherwise it is answered at once with an error under its id, rejected if not leader, invalid otherwise. Handling a command changes no tablet; only applying a replicated event does, alike on all replicas whether or not they are leader. Exactly the replica that proposed the event answers, once, under the id of the command, with the result of the request.',
     ['inputs', 'histories'], 'all commands (malformed ones included), roles and ownership of events',
     'The unit tests send one command as leader and one as follower; malformed payloads behind good headers, changes of role and events of others are not combined.',
     [TS + 'actor.rs', 'runtime/src/model.rs'],
     [('commands', 'TabletStoreActor::on_process_command, create_error_outcome'),
      ('events', 'TabletStoreActor::on_apply_event, create_success_outcome')],
     [('context', 'role of the replica', 'TabletStoreActor')],
     ['CommandOutcome and EventOutcome'])
RT = 'runtime/src/'
prop('C12', 'The stored Raft log has no gaps and loses no entry that is still needed',
     'At any time the storage holds one snapshot and a contiguous log that starts with the entry the snapshot ends with, or with the next one. Appending replaces the entries from the first appended index on and keeps all earlier ones. Creating a snapshot at an index records that index, the term of that entry, the configuration and data given, and drops only entries before it; applying a received snapshot replaces log and snapshot, sets commit to its index and never takes the term back; a snapshot older than the log is refused and changes nothing. Term and entries are given out as stored: compacted below the log, unavailable above it, in between exactly the range asked for, cut to the size limit but never to nothing. A peer gets the snapshot only if it covers the index it asked for and its configuration has the peer; otherwise the request is remembered until a snapshot satisfies it, and a new snapshot is called for exactly if one of these would be satisfied or the present one is too old.',
     ['histories', 'inputs'], 'all sequences of appends, snapshots, hard state changes and requests Raft may make, all entries, configurations and limits',
     'The unit tests try some operations on one log of three entries; combinations of overwriting, compacting, restoring and pending requests have unbounded histories.',
     [RT + 'storage.rs', RT + 'util.rs'],
     [('log', 'MemoryStorageCore::append_entries, compact_entries, entries, entry_term'),
      ('snapshots', 'MemoryStorageCore::create_snapshot, apply_snapshot, try_satisfy_request, should_snapshot')],
     [('entries / snapshot', 'the log and the snapshot it continues', 'MemoryStorageCore'), ('snapshot_peer_requests', 'unsatisfied requests by peer', 'MemoryStorageCore')],
     ['raft::Storage and Store methods of MemoryStorage'])
prop('C13', 'A snapshot sent in chunks arrives complete and unmixed, or the transfer fails',
     'A snapshot handed out by the receiver equals, in data and metadata, the snapshot the sender started under that transfer id: chunks of other transfers or senders, of wrong size or out of range are refused and change nothing, and nothing is handed out before every chunk is there. The sender sends each chunk of a transfer once, in order, cut by the configured size, to the right receiver under a fresh delivery id, never more than the configured number of unanswered requests in total, and always one more if there is room and something left to send. A transfer is reported finished exactly if the receiver accepted every chunk, failed on the first refusal, failed delivery or mismatched response; responses of other transfers are ignored. A change of leader or term, or removal from the cluster, drops whatever was received and reports every open transfer as failed; only the leader sends, all others receive. No request, however malformed, crashes either side.',
     ['histories', 'schedules', 'inputs'], 'all interleavings of transfers, deliveries, repetitions, losses, corrupted requests and cluster changes, all snapshots and chunk sizes',
     'The unit tests run undisturbed transfers of nine bytes and one malformed message each; stale chunks and responses of restarted transfers need particular delays.',
     [RT + 'snapshot.rs'],
     [('sending', 'SnapshotSenderState, DefaultSnapshotSender::start, next_request, process_response, try_complete'),
      ('receiving', 'ReceiverState::accept_chunk, try_complete, DefaultSnapshotReceiver::process_request'),
      ('roles', 'DefaultSnapshotProcessor::process_cluster_change, mut_processor')],
     [('receivers', 'open transfers by receiver', 'DefaultSnapshotSender'), ('state', 'the transfer being received', 'DefaultSnapshotReceiver')],
     ['DeliverSnapshotRequest and DeliverSnapshotResponse', 'snapshot statuses and snapshots handed to Raft'])
prop('C14', 'Nothing passes between replicas except through a completed secure channel',
     'Apart from handshake messages, whatever a replica sends to another one is encrypted by the encryptor that the completed handshake with exactly that replica produced, and whatever is handed on from a peer was decrypted by it; before completion, after a failure and on a fresh channel nothing is sent or handed on in clear. Messages wait for the channel in the order they were produced, also over failed handshakes and restarts, and each leaves once; only those are dropped that the encryptor refuses or for which no handshake could be begun, and a heartbeat replaces an earlier unsent one to the same peer. A pending handshake message leaves before any other. A handshake that makes no progress within the configured ticks, or a message out of place, fails the channel; a failed one is set up anew, with a new session, once its timeout is over, by whichever side talks first. A channel of one peer never affects those of others; removing a replica drops its channel. No message of the host, however malformed, crashes the replica.',
     ['schedules', 'histories', 'inputs'], 'all sequences of outgoing and incoming messages, ticks and cluster changes, all results of handshake and encryption',
     'The unit tests follow a few scripted handshakes with mocks; lost, repeated, reordered or malformed messages in any state of several channels are not combined.',
     [RT + 'communication.rs'],
     [('channels', 'CommunicationState::process_out_message, process_in_message, take_out_messages, make_tick'),
      ('module', 'DefaultCommunicationModule::process_out_message, process_in_message, process_cluster_change')],
     [('replicas', 'the channel of each peer', 'DefaultCommunicationModule'), ('unencrypted_messages', 'messages waiting for the channel', 'CommunicationState')],
     ['OutMessages to the host', 'messages handed on to the driver'])
prop('C15', 'A handshake completes only with an open session, and only it encrypts',
     'An initiator starts with the first message of a new client session, a recipient answers with a new server session, under the two replica ids it was made for and by the session factory set up with the configured reference values and endorsements. Messages of the session are passed on unchanged, each once. The handshake is completed exactly when, after an exchange, the session is open; a message the session refuses, of the wrong kind or out of turn fails it, and it never leaves the failed or completed state. An encryptor is given out only for a completed handshake and uses that session: it returns exactly what the session encrypted or decrypted, with its nonce, and an error otherwise, never the plain text.',
     ['schedules', 'inputs'], 'all sequences of messages, all behaviours of the sessions underneath',
     'The unit tests mock one good exchange and single failures; sessions that open early or late, fail midway or yield unexpected messages are not combined.',
     [RT + 'handshake.rs', RT + 'encryptor.rs'],
     [('handshake', 'ClientHandshakeSession, ServerHandshakeSession: process_message, take_out_message, get_encryptor'),
      ('encryption', 'DefaultClientEncryptor, DefaultServerEncryptor: encrypt, decrypt'),
      ('provider', 'DefaultHandshakeSessionProvider::get, init')],
     [('state', 'progress of the handshake', 'ClientHandshakeSession, ServerHandshakeSession')],
     ['SecureChannelHandshake messages', 'payloads given by the encryptor'])
prop('C17', 'Counters change only as commands say, alike on all replicas, answered once',
     'A compare and swap of the Atomic Counter sets the counter to the new value, with the payload of the command, if and only if its value, zero if it does not exist, equals the expected one; otherwise it changes nothing and the answer tells the value found. The decision is made when the replicated event is applied, from the state then, and alike on every replica; no other counter changes. A command is proposed under its id, with its counter, operation and payload unchanged, exactly if the replica is leader and it decodes and has an operation, and answered with the matching error otherwise; exactly the replica that proposed it answers, once, under its id. Counters start as configured; a replica restored from a snapshot holds exactly the counters that were saved. The actor hands the runtime exactly the reference values it was made with, whatever happened since.',
     ['inputs', 'histories'], 'all sequences of commands and events with any names, values and payloads, all roles and owners, snapshots at any point, malformed messages',
     'The unit tests apply one or two operations to one counter; restoring over existing counters, events of other replicas and malformed input in one history are not sampled.',
     ['apps/atomic_counter/service/src/actor.rs', RT + 'model.rs'],
     [('commands', 'CounterActor::on_process_command'), ('events', 'CounterActor::on_apply_event, apply_compare_and_swap'),
      ('snapshots', 'CounterActor::on_save_snapshot, on_load_snapshot, on_init')],
     [('values', 'value and payload of each counter', 'CounterActor')],
     ['CommandOutcome and EventOutcome', 'bytes of on_save_snapshot'])
prop('C18', 'A key pair of the decryptor decrypts at most once, alike on all replicas',
     'The first key pair applied for a key id stays the pair of that id until it is used or pushed out; every request for a key of that id, concurrent ones included, is answered with the public key of the pair held. The decryption result made with a pair is given out only if the pair is still held when the event is applied, and applying it removes the pair on every replica; a later or concurrent request for that id gets an error. At most 1000 pairs are held: a new one then replaces exactly the oldest, the same one on every replica. A proposed pair has an order above all held ones. Commands are processed by leaders only, proposed or answered once under their id, malformed ones answered with an error and without crash; handling a command changes no state. A replica restored from a snapshot holds exactly the pairs saved. The actor hands the runtime exactly the reference values it was made with, whatever happened since.',
     ['inputs', 'histories', 'schedules'], 'all interleavings of commands and replicated events with any key ids and requests, roles and owners, snapshots at any point, malformed messages',
     'The unit tests run one key through generate and decrypt; two requests in flight for one key id, evictions among a thousand keys and malformed requests are not sampled.',
     ['apps/willow/decryptor/actor/src/actor.rs', RT + 'model.rs'],
     [('commands', 'DecryptorActor::process_generate_key_command, process_decrypt_command, on_process_command'),
      ('events', 'DecryptorActor::process_generate_key_event, process_decrypt_event, on_apply_event'),
      ('snapshots', 'DecryptorActor::on_save_snapshot, on_load_snapshot')],
     [('key_pairs', 'the unused pair of each key id', 'DecryptorActor')],
     ['CommandOutcome and EventOutcome', 'bytes of on_save_snapshot'])
prop('C20', 'The tablet cache actor hands on every message once, to whom it concerns',
     'Every well formed command of the Tablet Cache reaches exactly the part it is for, the key value store or the transaction manager, once, under its id and with its contents and payload. With every command, and with every tick, both parts advance to the present instant, and each message and response they have then becomes exactly one outgoing command, under its id, with its contents and payload, in order. A malformed command is refused and changes nothing. The parts are set up with the configuration given; an incomplete one is refused. The actor replicates nothing and keeps nothing in snapshots.',
     ['inputs', 'histories'], 'all commands (malformed ones included), all messages and responses of the parts',
     'The actor has no unit tests.',
     ['apps/tablet_cache/service/src/actor.rs', RT + 'model.rs'],
     [('routing', 'TabletCacheActor::on_process_command, command_with_proto, command_with_bytes'), ('set up', 'TabletCacheActor::on_init')],
     [('transaction_manager / key_value_store', 'the parts', 'TabletCacheActor')],
     ['calls of the parts', 'CommandOutcome'])
prop('C16', 'All that Raft makes ready is handled before Raft goes on; events apply once',
     'Whatever Raft makes ready is handled, all of it and each part once, before Raft is told to go on: the hard state, new entries and a snapshot are in the store (the snapshot with the actor too), committed entries are applied in ascending order of their index, messages are sent. A committed event is given to the actor exactly once, with its index and contents, as owned exactly on the replica that proposed it and under the id it was proposed with; a committed configuration change goes to Raft, and to all that follow the configuration. Each event the actor returns for a command is proposed once, in order, or applied at once on an ephemeral replica. Snapshots are taken from the actor exactly when the store asks for one, at the index and configuration last applied. Raft ticks once for each period passed. A message Raft refuses or a proposal it drops harms nothing else. Only messages addressed to this replica, from the sender they name, reach Raft.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences of calls, all behaviours of Raft, its store and the actor (errors, refused messages and dropped proposals included), all entries and snapshots',
     'The unit tests script one good exchange for each kind of message; several entries in one ready, errors part way, messages Raft refuses and dropped proposals are not combined.',
     [RT + 'driver.rs', RT + 'consensus.rs', RT + 'util.rs'],
     [('ready', 'Driver::advance_raft, apply_raft_committed_entries, send_raft_messages, restore_raft_snapshot, maybe_create_raft_snapshot'),
      ('proposals', 'Driver::process_actor_raft_proposals, make_raft_proposal, make_raft_step, trigger_raft_tick'),
      ('raft', 'RaftSimple: init, make_step, make_proposal, get_ready, advance_ready, apply_config_change, state')],
     [('raft_progress', 'index and configuration last applied', 'Driver'), ('raft_ready', 'what was made ready and not yet handled', 'RaftSimple')],
     ['calls of Raft, its store and the actor', 'DeliverSystemMessage to the host'])
prop('C21', 'Each request to a replica is answered or refused; messages leave exactly once',
     'A request for which a replica is not in the right state (start, stop, cluster changes, peer and snapshot messages before the start or on an ephemeral replica) is refused with InvalidOperation, changes nothing but the clock and sends nothing; all others are handled, and no request from the host crashes the replica. The clock never goes back. Each command the actor returns leaves as one message to the host, under its id; all that came up in a call leave together, in order, at its end, and nothing does if it fails. A cluster change is answered with what Raft made of it, a request to check the cluster always; snapshot sending, the communication module and the host learn each committed change of the configuration or leader once. Peer messages are handed on only as the communication module lets them pass. A snapshot of Raft goes to the snapshot sender, its requests to the peer; a received one to Raft, a failure to the sender, each once; transfers given up are reported to Raft.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of requests in any state (malformed ones included), all behaviours of the parts',
     'The unit tests send each request in the state it fits; refused requests, failing parts, malformed messages and requests before the start or after the stop are sampled once or not at all.',
     [RT + 'driver.rs', RT + 'model.rs'],
     [('requests', 'Driver::receive_message, process_start_node, process_stop_node, process_change_cluster, process_check_cluster'),
      ('peers', 'Driver::process_deliver_system_message, process_deliver_snapshot_request, process_deliver_snapshot_response, process_snapshot_sending'),
      ('actor', 'Driver::process_deliver_app_message, preset_state_machine, DriverContext')],
     [('driver_state', 'state of the life of the replica', 'Driver'), ('messages', 'messages that leave at the end of the call', 'Driver')],
     ['OutMessages to the host', 'result of receive_message'])
prop('C22', 'Every session between replicas attests both sides as configured',
     'Every session a replica opens with another one, as client or as server, attests both sides under one assertion id common to all replicas. Its own assertion is the evidence of the configured attester with the configured endorsements, bound to the session by the configured binder. The evidence of the peer is checked against exactly the reference values last configured, with the clock given: without hardware root only if all layers of Oak Containers are given and the reference values ask for that; against the SEV-SNP and firmware values and all three layers if those are given; else by the restricted kernel rules on all of the reference values; and the key that must have signed the binding is the one that goes with that kind of evidence. Every assertion must hold. Messages are encrypted with a reordering window of 3. No session is given out if attester, binder or session fail; messages, texts and errors of a session are passed through unchanged, each once.',
     ['inputs', 'histories'], 'all reference values, endorsements and clocks, all behaviours of attester, binder and sessions, any number of factories and sessions',
     'The unit tests exercise the encryption window only; no test makes a session or looks at what it is made of.',
     [RT + 'session.rs'],
     [('peer verification', 'DefaultOakSessionFactory::init'), ('sessions', 'DefaultOakSessionFactory::get_oak_client_session, get_oak_server_session, DefaultOakClientSession::create, DefaultOakServerSession::create'),
      ('encryption', 'DefaultEncryptorProvider::provide_encryptor')],
     [('peer_verifier', 'how the evidence of a peer is checked', 'DefaultOakSessionFactory'), ('key_extractor', 'which key must have signed the binding', 'DefaultOakSessionFactory')],
     ['configuration of the sessions', 'results of OakClientSession and OakServerSession'])
prop('C23', 'Each call of the host is processed once and answered with its own messages',
     'Each call that the host makes of a replica (by the restricted kernel or as gRPC service) reaches the driver exactly once, with its instant and message, one at a time and in the order in which the calls were accepted; it is answered with exactly the messages that the driver sent in this very call, complete and in order, and never with those of another call. Calls in flight at once and callers that go away before their answer neither stop the replica nor lose or mix up the answers of others. A call in which the driver fails is not answered: the replica ends. A replica is set up once, with the actor given, attested and bound by the restricted kernel there, and by the given evidence and channel to the orchestrator in Oak Containers.',
     ['inputs', 'histories', 'schedules'], 'all calls in any number, concurrent or cancelled ones included, and all behaviours of the driver',
     'No test calls the services; concurrent and cancelled calls and failing drivers are schedules and histories no test makes.',
     [RT + 'service.rs'],
     [('kernel', 'ApplicationService::new, receive_message; ApplicationHost'), ('containers', 'TonicApplicationService::receive_message, run_driver_loop, new_driver')],
     [('queue', 'calls accepted and not yet processed, each with the place of its answer', 'TonicApplicationService')],
     ['ReceiveMessageResponse of each call'])
prop('C24', 'Replicas agree on one log (Raft itself)',
     'No two replicas of a cluster ever apply different entries or configuration changes at one index, whatever messages are lost, delayed or repeated and whichever replicas crash and return; an entry once committed is in the log of every later leader.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'all executions of a cluster of any size',
     'The integration tests run a handful of schedules of three replicas.',
     [RT + 'consensus.rs', RT + 'storage.rs', RT + 'driver.rs'],
     [('consensus', 'RaftSimple over the raft crate (external)')],
     [('raft', 'terms, votes, log of each replica', 'raft crate')],
     ['applied entries of each replica'])
prop('C25', 'The cluster as a whole answers like a single sequential store',
     'The answers that clients of the tablet cache, the tablet store, the counter and the key service get from a cluster of replicas (over crashes, changes of leader, changes of the cluster and cache replicas working at once) are those of one store that executes the requests one after the other, each between its request and its answer.',
     ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'all executions of clients, cache replicas and store replicas together',
     'The integration tests run one schedule per feature.',
     [RT + 'driver.rs', 'apps/tablet_store/service/src/actor.rs', 'apps/tablet_cache/service/src/actor.rs', 'apps/tablet_cache/service/src/store.rs'],
     [('replicas', 'all actors, the runtime, the Raft library and the host together')],
     [('system', 'joint state of all replicas, clients and messages under way', 'whole system')],
     ['answers to clients'])
