#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json
import os
P = []
TC = 'apps/tablet_cache/service/src/'


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop('C01', 'Every key resolves to its first tablet clockwise on the hashing ring',
     'Resolving a set of keys of a table reports every requested key exactly once, with its own table, against the tablet that follows the key first clockwise on the hashing ring (a tablet sitting at the key itself counts, and past the largest tablet the ring wraps to the smallest one). No key is lost, duplicated or attributed to another table, and each tablet is reported at most once per table. This holds for every tablet placement, every region size of at least two and every key, the two ends of the ring included.',
     ['inputs', 'configurations'], 'all key sets, tablet sets and table region sizes >= 2, and every split of a request over regions',
     'The unit tests resolve a few hand-picked keys on three tablets; the merge of sorted keys with sorted tablets, the region boundaries and the wrap-around are arithmetic over the whole 32-bit ring.',
     [TC + 'transaction/metadata.rs', TC + 'transaction.rs'],
     [('split of a query over regions', 'TableMetadata::split_and_map_query, compute_table_region_bounds, map_table_region'),
      ('merge of keys and tablets', 'TableMetadata::try_resolve_pending_query'),
      ('grouping by tablet', 'TabletResolve::append_results, maybe_resolve_results')],
     [('tablet ids of a region', 'tablets responsible for the keys of a contiguous part of the ring', 'TableRegion::tablet_ids')],
     ['result of resolve_tablets / resolve_tablets_with_handler'])
prop('C02', 'Tablet metadata cache answers from listed regions, once, with latest versions',
     'A resolve request is answered exactly once, and only from parts of the ring whose tablet list is current: parts not listed yet, whose listing failed or that were hit by a conflict are listed (again) by the next advance of the cache, at most one listing of a part being under way, and no waiting request is ever forgotten. The cached metadata of a tablet never goes back to an older version, and a failed or late listing never loses or invents tablets.',
     ['histories', 'fault_sequences', 'schedules'], 'all interleavings of resolve, advance, list responses (succeeding and failing, in any order) and metadata updates (with or without conflict)',
     'The unit tests run one request at a time over one or two scripted responses; overlapping requests waiting for the same region, failures and conflicts in between are sampled nowhere.',
     [TC + 'transaction/metadata.rs', TC + 'transaction/result.rs'],
     [('region state machine', 'TableRegion::mark_fresh, mark_stale, maybe_prepare_list_op, register_pending_query'),
      ('notification of waiting requests', 'DefaultTabletMetadataCache::process_in_message, TabletResolve::process_results_fresh, maybe_resolve_results'),
      ('newest version wins', 'TableMetadata::insert_latest_tablet')],
     [('waiting requests', 'requests registered with a region until it is listed', 'TableRegionState::Stale')],
     ['list requests taken from the cache', 'answers of resolve requests'])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops_more.py')).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
