#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'liblarch/'
P = []


def prop(pid, title, statement, over, text, tests, files, mech, state=(), observe=(),
         note='', done=True):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None),
                  _note=note, _done=done))


TREE_STATE = [('nodes', 'identifier -> node object', L + 'tree.py MainTree.__init__'),
              ('parents/children', 'the two ends of each relationship', L + 'treenode.py _Node'),
              ('pending_relationships', 'relationships waiting for a node', L + 'tree.py')]
VIEW_STATE = [('nodes', 'shown nodes with their shown parents and children',
               L + 'filteredtree.py FilteredTree.__init__'),
              ('applied_filters', 'names of the filters of the view', L + 'filteredtree.py')]

prop('C01', 'The tree never contains a cycle, and refused requests change nothing',
     'No sequence of requests (adding nodes with or without parents, adding parents or '
     'children, moving nodes, relationships announced before their nodes exist) ever makes a '
     'node its own ancestor. A request that would close a cycle is refused with an error, a '
     'request that would not is never refused for that reason, and a refused request leaves '
     'every parent, child and top-level list exactly as it was.',
     ['inputs', 'histories'],
     'every acyclic relation, every request and every choice of its nodes, every order of '
     'late relationships',
     'the tests try a handful of cycles on fixed trees; they never try every position in every '
     'acyclic graph nor check that refusals leave no trace',
     [L + 'tree.py', L + 'treenode.py'],
     [('circularity test by walking the ancestors', L + 'tree.py MainTree._is_circular_relation'),
      ('refusal before any change', L + 'tree.py _new_relationship, _add_node; '
       + L + 'treenode.py set_parent')], TREE_STATE,
     ['Tree.add_node/add_parent/move_node', 'TreeNode.add_parent/add_child/set_parent',
      'get_parents/get_children'])

prop('C02', 'Parents and children always agree, and every node can be reached',
     'After every completed request a node lists another one as its parent exactly when that '
     'one lists it as its child, lists name each node once and only nodes that exist, and the '
     'top level of the complete view lists exactly the nodes without parents, each once. So '
     'every node of the tree is reachable from the top level.',
     ['inputs', 'histories'],
     'every acyclic relation, every sequence of requests (bounded), every choice of nodes',
     'tests look at one end of the relationship on fixed examples, rarely after deletions of '
     'nodes with several parents',
     [L + 'tree.py', L + 'treenode.py'],
     [('both ends are written together', L + 'tree.py _create_relationship, _destroy_relationship'),
      ('top level kept up to date', L + 'tree.py _break_relationship, _remove_node, _add_node')],
     TREE_STATE, ['TreeNode.get_parents/get_children', 'main view node_all_children()'])

prop('C03', 'An edit does exactly what was asked and nothing else',
     'Adding or removing a parent or child changes exactly that relationship, and moving a node '
     'gives it exactly the requested parent (or none) while dismissing all others; all other '
     'relationships, all other nodes and the relative order of remaining siblings stay. A node '
     'that refuses children or parents gets none, adding an identifier twice keeps the first '
     'node, and identifiers always lead to the node object that was added.',
     ['inputs', 'histories'],
     'every acyclic relation, every edit and every choice of nodes, sequences of edits',
     'tests check the effect of an edit on the nodes it names, in fixed trees; they do not check '
     'that everything else is untouched',
     [L + 'tree.py', L + 'treenode.py', L + '__init__.py'],
     [('edits of relationships', L + 'treenode.py add_parent, add_child, set_parent, remove_parent'),
      ('requests', L + 'tree.py _new_relationship, _break_relationship; ' + L + '__init__.py move_node')],
     TREE_STATE, ['TreeNode.get_parents/get_children', 'Tree.get_node/has_node'])

prop('C04', 'Deleting removes exactly the requested nodes and leaves nothing behind',
     'Deleting a node removes just that node and its relationships, its children losing only '
     'this parent and the rest keeping its order; deleting recursively removes it and all its descendants and nothing else. '
     'Afterwards no other node mentions a deleted one, deletion of an unknown node changes '
     'nothing, and an identifier (or the very object) added again starts without any '
     'relationship of its former life.',
     ['inputs', 'histories'],
     'every acyclic relation (nodes with several parents included), every node, deletions '
     'followed by edits and additions',
     'tests delete in a few fixed trees; descendants shared by several parents, double deletion '
     'and re-adding are sampled at best',
     [L + 'tree.py', L + 'treenode.py'],
     [('removal', L + 'tree.py MainTree._remove_node')], TREE_STATE,
     ['Tree.del_node', 'has_node, get_parents, get_children', 'node-deleted event'])

prop('C05', 'Relationships requested before both nodes exist appear when they do',
     'A relationship requested while one of its nodes is not yet in the tree (by a new node for '
     'its parent or child, or by a node of the tree for a coming one) is established as soon as '
     'both are there, whatever the order of arrival, and not before. Until then the waiting node '
     'is at the top level; a deleted node drops the relationships waiting for it, a node that '
     'removes an awaited parent or is moved no longer waits for it, and nothing appears that was '
     'not requested.',
     ['inputs', 'histories'],
     'every acyclic set of requested relationships, every order of arrival, every way to request',
     'tests know a few arrival orders of two or three nodes',
     [L + 'tree.py', L + 'treenode.py'],
     [('pending relationships', L + 'tree.py _add_node; ' + L + 'treenode.py add_parent, add_child')],
     TREE_STATE, ['get_parents/get_children after add_node'])

prop('C06', 'A filtered view shows exactly the accepted nodes, each in its place',
     'After every completed request a filtered view shows exactly the nodes of the tree which all '
     'its filters accept; a shown node is below exactly those of its parents which are shown, and '
     'at the top level exactly if it has none (in a flat view: always). This holds for filters on '
     'the data of a node, of its children or descendants and on which parents and children it has, '
     'as long as a node whose data changes is refreshed, whether one node or several change at once.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation, every assignment of data, every kind of filter listed, every edit '
     'or data change and every order in which sets are iterated',
     'the tests contain a few dozen fixed trees and filters; most defects of this layer need a '
     'particular combination of several parents, hidden nodes and edits',
     [L + 'filteredtree.py', L + 'viewtree.py', L + 'tree.py'],
     [('propagation of changes', L + 'filteredtree.py __update_node'),
      ('acceptance', L + 'filteredtree.py __is_displayed; ' + L + 'filters_bank.py Filter')],
     VIEW_STATE, ['is_displayed, get_all_nodes, node_all_children, node_parents'])

prop('C07', 'The events of a view are enough to rebuild it exactly',
     'A listener that only applies the added, deleted and modified events of a filtered view always '
     'has exactly the rows of the view, children in the same order: a row is added once and below an '
     'existing row, deleted once and only after the rows below it, modified only while it exists, and every row of '
     'a refreshed node is announced. A listener that connects later gets the current state by one request.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation, assignment of data, filter, edit, filter change and iteration order of sets',
     'tests compare a few fixed event sequences',
     [L + 'filteredtree.py', L + 'viewtree.py'],
     [('events for whole subtrees', L + 'filteredtree.py send_add_tree, send_remove_tree'),
      ('order of events', L + 'filteredtree.py __update_node, refilter'),
      ('current state', L + 'filteredtree.py get_current_state')], VIEW_STATE,
     ['node-added-inview, node-deleted-inview, node-modified-inview'])

prop('C08', 'Applying and removing filters takes effect completely and at once',
     'After filters are applied, removed, reset or given new parameters, a view shows exactly what '
     'its current filters accept, and the filters it lists are those applied, in order, each once. '
     'Without refresh the shown rows stay until the next refresh, applying a filter twice or '
     'removing one that is not applied changes nothing. The complete view refuses filters and '
     'lists none.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of filter changes (bounded) on every small tree with every assignment of data',
     'tests apply and remove one or two filters on one tree',
     [L + 'filteredtree.py', L + 'viewtree.py', L + 'filters_bank.py'],
     [('filter changes', L + 'filteredtree.py apply_filter, unapply_filter, reset_filters, refilter')],
     VIEW_STATE, ['list_applied_filters', 'contents and events of the view'])

prop('C09', 'All queries of a view describe the same rows',
     'For every view, filtered or complete, the paths of a node are exactly its rows, a path leads '
     'back to its node exactly if it is a row, and next sibling, n-th child, numbers of children '
     '(direct or of all rows below), tests for parents and children, node lists, counts under '
     'further filters and the printed tree all describe those same rows. Asking for a child beyond '
     'the last one is an error, and no query changes anything or goes stale after an edit. Node '
     'objects answer the same questions about their own parents and children, inside a tree or '
     'outside, and lists handed out belong to the caller: changing them changes nothing else.',
     ['inputs', 'histories'],
     'every acyclic relation, every assignment of data, every argument, before and after edits',
     'tests ask single queries on fixed trees',
     [L + 'filteredtree.py', L + 'viewtree.py', L + 'tree.py'],
     [('queries', L + 'filteredtree.py get_paths_for_node, next_node, node_n_children ...; '
       + L + 'tree.py get_paths_for_node, next_node; ' + L + 'viewtree.py')], VIEW_STATE,
     ['the query methods of the views'])

prop('C10', 'A counter is always the number of matching nodes and says when it changes',
     'A node counter always equals the number of nodes in the tree accepted by all its filters on '
     'the data of nodes (one that left the bank accepts none), after every edit, refresh, application '
     'or removal of filters, whenever it was created. Its registered listeners are called exactly when the set of counted nodes '
     'changes, the last call of a request sees the final number, and unregistered ones are not '
     'called.',
     ['inputs', 'histories'],
     'every small tree and assignment of data, every bounded sequence of edits and filter changes',
     'tests count a few fixed nodes with one filter',
     [L + 'viewcount.py', L + '__init__.py'],
     [('counting', L + 'viewcount.py ViewCount.__modify, __add, __delete, __refresh')],
     [('nodes', 'the counted nodes', L + 'viewcount.py')], ['get_n_nodes', 'registered functions'])

prop('C13', 'An action queued for a node runs exactly once, when the node is shown',
     'An action queued in a filtered view for a node runs exactly once with its parameter: from the '
     'main loop if the node is shown already, otherwise when it first becomes shown, and never if '
     'it does not. Several actions for one node all run, in the order they were queued, whatever '
     'they return, and whatever the node is called.',
     ['inputs', 'histories', 'configurations'],
     'every node (existing, hidden, still to come), every moment, every bounded sequence of edits',
     'tests queue single actions for single nodes',
     [L + 'filteredtree.py', L + 'viewtree.py'],
     [('waiting actions', L + 'filteredtree.py set_callback, callback; ' + L + 'viewtree.py queue_action')],
     [('runonce_cllbcks', 'actions waiting by node', L + 'filteredtree.py')], ['calls of the action'])

prop('C14', 'Views and counters are found by name and do not disturb each other',
     'Asking for a view or counter by name always gives the same object for the same name and '
     'different ones for different names; without a name it is always a new one, and "main" is the '
     'complete view. Each view and counter depends only on the tree and its own filters, whatever '
     'other views exist or change their filters, and the complete view always has all nodes.',
     ['inputs', 'histories', 'configurations'],
     'every bounded sequence of requests for names, every pair of the listed filters, every edit',
     'tests use one view at a time, or two on one fixed tree',
     [L + '__init__.py', L + 'viewtree.py', L + 'filteredtree.py'],
     [('registry of views', L + '__init__.py Tree.get_viewtree, get_viewcount, get_main_view')],
     VIEW_STATE, ['identity of views', 'contents of all views'])

prop('C15', 'Listeners get every event once while registered and none afterwards',
     'Each registration of a listener with a view gets its own key among the current ones, is called '
     'exactly once for every event of its kind with that node and path while registered, and never '
     'after being removed by its key; removal of an unknown key or event is harmless and affects no '
     'other listener. Listeners that register or remove others while an event is delivered cause no '
     'error.',
     ['inputs', 'histories'],
     'every bounded sequence of registrations and removals over all kinds of events, then edits',
     'tests register one listener per event and keep it',
     [L + 'viewtree.py', L + 'tree.py'],
     [('registration', L + 'viewtree.py register_cllbck, deregister_cllbck, __emit; '
       + L + 'tree.py register_callback, _callback')],
     [('cllbcks', 'listeners by event and key', L + 'viewtree.py')], ['calls of listeners'])

prop('C16', 'The filter bank keeps each name once and filters work as registered',
     'A filter is added exactly if its name (a leading exclamation mark aside) is new, an existing '
     'one is never replaced, removal reports whether the filter was there, and the list names every '
     'filter once. A filter decides by its own function, which gets the node and, if there are any, '
     'the parameters it was given last (when added or applied), inverted if they ask for negation; a view using a filter '
     'that is gone shows nothing when refreshed.',
     ['inputs', 'histories', 'configurations'],
     'every bounded sequence of additions and removals with every combination of parameters',
     'tests add and remove one filter',
     [L + 'filters_bank.py', L + 'filteredtree.py'],
     [('bank', L + 'filters_bank.py FiltersBank.add_filter, remove_filter, list_filters'),
      ('evaluation', L + 'filters_bank.py Filter.is_displayed')],
     [('custom_filters', 'filters by name', L + 'filters_bank.py')],
     ['add_filter/remove_filter/list_filters', 'contents of views and counters'])

prop('C17', 'Every change is announced to those who see it',
     'The complete view announces each node that arrives once as added (when it is there), each node '
     'that goes once as deleted (when it is gone) and each remaining node whose parents or older '
     'children changed as modified. Refreshing a node announces it once as modified in the complete '
     'view, and in every filtered view once for each of its rows and also for the rows above it, but '
     'for no unrelated row; refreshing everything does so for all nodes.',
     ['inputs', 'histories'],
     'every acyclic relation and assignment of data, every request, every node',
     'tests wait for single events of single nodes',
     [L + 'tree.py', L + 'filteredtree.py', L + 'viewtree.py'],
     [('announcements', L + 'tree.py _callback in _add_node, _remove_node, _new_relationship, '
       '_break_relationship, _modify_node'),
      ('rows', L + 'filteredtree.py __update_node')], VIEW_STATE,
     ['node-added, node-deleted, node-modified', 'node-modified-inview'])

exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) \
    if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None

P.sort(key=lambda p: p['id'])
checks = []
na = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        note = p.pop('_note')
        done = p.pop('_done')
        f.write(json.dumps(p) + '\n')
        if done:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3-vt run.py %s' % p['id'],
                'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
                'technique': 'symbolic execution of the real Python code with z3: inputs, '
                'histories and iteration orders are SMT variables, every feasible path within '
                'the bounds is explored, every assertion is discharged by the solver, '
                'counterexamples are replayed on the real code',
                'level': 'other',
                'level_note': note or 'bounded: holds for all inputs within the bounds listed '
                'per scenario in the evidence file; nothing is claimed beyond them'})
        else:
            na.append({'property': p['id'], 'reason': note})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
               'not_applicable': na,
               'notes': 'See DESIGN.md. Every check loads /repo\'s current sources.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
