# What each check runs: the verified units (with the functions whose contracts
# the property rests on; None means all of the unit) and the concrete checks
# that look for a failing input on the compiled code.
PROPS = {}

_META_C01 = '''TableQuery::create TableQuery::create_from TableQuery::get_id TableQuery::get_table_name
TableQuery::get_key_hashes TabletDescriptor::create TableMetadata::map_table_region
TableMetadata::compute_table_region_bounds TableMetadata::create TableRegion::maybe_fresh_tablet_ids
TableRegion::mark_fresh TableMetadata::insert_latest_tablet TableMetadata::update_region
TableMetadata::try_resolve_pending_query TableMetadata::split_and_map_query TabletResolveResult::create
TabletResolveResult::append_key_hashes TabletResolveResult::take_result TabletResolve::append_results
TabletResolve::maybe_resolve_results TabletResolve::process_results_fresh TabletResolve::create'''.split()

PROPS['C01'] = dict(units=[('metadata', _META_C01)], replay=('cache', 'C01'))
PROPS['C02'] = dict(units=[('metadata', None)], replay=('cache', 'C02'))
PROPS['C03'] = dict(units=[('data', None)], replay=('cache', 'C03'))
PROPS['C04'] = dict(units=[('coordinator', None)], replay=('cache', 'C04'))
PROPS['C05'] = dict(units=[('coordinator', None)], replay=('cache', 'C05'))
PROPS['C06'] = dict(units=[('manager', None), ('cacheapp', None)], replay=('cache', 'C06'))
PROPS['C07'] = dict(units=[('store', None)], replay=('cache', 'C07'))
_TS = dict(
    C08='TableMetadata::prepare_tablet_op TableMetadata::commit_tablet_op TabletStoreActor::prepare_tablet_op TabletStoreActor::commit_tablet_op TabletStoreActor::on_apply_tablets_request TabletStoreActor::new',
    C09='TableMetadata::find_tablets',
    C10='RandomTabletConfigurator::generate TableMetadata::create TableMetadata::load_snapshot TableMetadata::save_snapshot TabletStoreActor::on_init TabletStoreActor::on_save_snapshot TabletStoreActor::on_load_snapshot',
    C11='ActorCommand::with_header ActorCommand::with_header_and_payload ActorEvent::with_bytes CommandOutcome::with_none CommandOutcome::with_command CommandOutcome::with_event EventOutcome::with_commands ExecuteTabletOpsError::with_status TabletStoreActor::get_context TabletStoreActor::create_error_outcome TabletStoreActor::create_success_outcome TabletStoreActor::on_process_command TabletStoreActor::on_apply_event')
for _p, _f in _TS.items():
    PROPS[_p] = dict(units=[('tstore', _f.split())], replay=('tstore', _p))
PROPS['C19'] = dict(units=[('result', None)], replay=('cache', 'C19'))
PROPS['C12'] = dict(units=[('storage', None)], replay=('runtime', 'C12'))
PROPS['C13'] = dict(units=[('snapshot', None)], replay=('runtime', 'C13'))
PROPS['C14'] = dict(units=[('comm', None)], replay=('runtime', 'C14'))
PROPS['C15'] = dict(units=[('handshake', None)], replay=('runtime', 'C15'))
PROPS['C17'] = dict(units=[('counter', None)], replay=('apps', 'C17'))
PROPS['C18'] = dict(units=[('willow', None)], replay=('apps', 'C18'))
PROPS['C20'] = dict(units=[('cacheactor', None)], replay=('cache', 'C20'))
_RAFT = '''RaftState::new RaftReady::take_messages RaftReady::take_persisted_messages RaftReady::take_entries RaftReady::take_committed_entries
RaftReady::hard_state RaftReady::take_snapshot RaftLightReady::take_messages RaftLightReady::take_committed_entries
raft::deserialize_raft_message raft::serialize_raft_message raft::deserialize_config_change raft::create_raft_config_change
raft::get_metadata raft::get_config_state raft::create_raft_message raft::create_entry ActorEvent::with_bytes
DriverContextCore::new DriverContextCore::set_state DriverContextCore::set_immutable_state DriverContextCore::id DriverContextCore::instant
DriverContextCore::leader DriverContextCore::config DriverContextCore::append_proposal DriverContextCore::take_outputs DriverContext::new
RaftProgress::new Driver::mut_core Driver::check_raft_leadership Driver::make_raft_step Driver::make_raft_proposal Driver::trigger_raft_tick
Driver::collect_config_state Driver::stash_message Driver::stash_snapshot Driver::apply_raft_committed_entries Driver::send_raft_messages
Driver::restore_raft_snapshot Driver::maybe_create_raft_snapshot Driver::advance_raft Driver::initialize_raft_node
Driver::process_deliver_app_message Driver::process_actor_raft_proposals Driver::process_state_machine'''.split()
PROPS['C16'] = dict(units=[('driver', _RAFT), ('consensus', None)], replay=('runtime', 'C16'))
PROPS['C21'] = dict(units=[('driver', None)], replay=('runtime', 'C21'))
PROPS['C22'] = dict(units=[('session', None)], replay=('session', 'C22'))
PROPS['C23'] = dict(units=[('service', None)], replay=('service', 'C23'))

NOT_APPLICABLE = dict(
    C24='The agreement of the replicas is made by the external raft crate, which is neither part of /repo nor installed here (this build does not even link it): there is no code to put under contract. What /repo does for it is claimed: the log (C12), its handing over to Raft, persisting before sending and applying in order (C16), transfer of snapshots (C13).',
    C25='A statement on joint executions of many replicas, clients and an external consensus library. Function contracts speak about one replica; the composition would need a model of the network and of Raft, which is another technique. Its parts on the code are claimed one by one (C01 to C11, C16 to C18, C20).',
)
NOTES = ('Every obligation Verus generates from the functions extracted from the working tree is discharged for all inputs, '
         'with the assumptions listed in the evidence (dependency contracts of the shims, parts of the extraction listed there). '
         'The concrete checks on the compiled code only supply failing inputs.')
