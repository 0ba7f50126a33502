# executed by mkprops.py
G = 'liblarch_gtk/'

prop('C11', 'Requests from other threads run once each, in order, on the main loop',
     'Nodes added, deleted or refreshed by other threads while the main loop runs: every such '
     'request is carried out exactly once, on the thread of the main loop and nowhere else, each '
     'thread\'s requests of equal priority in the order it made them, and requests waiting '
     'together by priority. None is lost or left waiting once the main loop is idle, whatever '
     'the interleaving and whether other requests fail (equal refreshes waiting together count '
     'as one), and afterwards tree and views are as if '
     'the requests had been made one after the other.',
     ['schedules', 'inputs', 'histories'],
     'every interleaving with the stated number of preemptions (between lines of the library '
     'and at locks), every choice of nodes and priorities',
     'the thread test runs one lucky schedule; lost wake-ups need a preemption between two '
     'particular lines',
     [L + 'processqueue.py', L + 'tree.py'],
     [('queue with one idle source', L + 'processqueue.py SyncQueue.push, process_queue'),
      ('handing over', L + 'tree.py MainTree._external_request')],
     [('_queue, _vip_queue, _low_queue', 'waiting requests by priority', L + 'processqueue.py'),
      ('_handler', 'idle source of the main loop', L + 'processqueue.py')],
     ['callbacks (thread, order, number)', 'contents of tree and views at rest'])

prop('C12', 'The Gtk model has exactly the rows of the view with current values',
     'A tree model connected to a view at any time (before, between or after edits) has exactly '
     'the rows of the view, in the order of the view or, when sorted, sorted on every level; after '
     'every request each column of each row has the current value of its function for that '
     'node; empty, zero and missing values (None) included. That holds for each of several models connected to '
     'one view, and connecting a model again changes nothing. The function of a known column can '
     'be replaced, in this model alone, an unknown column is refused.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation and assignment of data, every request and choice of nodes, sorted '
     'or not, every moment of connecting',
     'tests do not touch the Gtk model beyond a few rows',
     [G + 'treemodel.py', L + 'viewtree.py', L + 'filteredtree.py'],
     [('rows follow events', G + 'treemodel.py TreeModel.add_task, remove_task, update_task, '
       'reorder_nodes'),
      ('cache of iterators', G + 'treemodel.py TreeModel.my_get_iter')],
     [('cache_paths, cache_position', 'node path -> row', G + 'treemodel.py')],
     ['Gtk.TreeModel.get_iter_first/iter_next/iter_children/get_value'])

prop('C18', 'Dropped rows move exactly the dragged nodes to the place of the drop',
     'Dropping rows onto another row moves exactly the nodes of those rows below that row\'s '
     'node; dropping before or after a row moves them below that row\'s parent or to the top '
     'level, as does dropping beside all rows. A move that would close a cycle is left out '
     'without an error, rows dragged together keep their order, everything else stays, and tree, view and rows agree afterwards. Drops '
     'from registered other places are handed to the function registered for that place with '
     'source and destination, and move nothing; dropping nothing does nothing. The selected nodes are those of the selected '
     'rows.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation, any one or two rows dragged to any row at any position, filtered '
     'views included',
     'there are no tests of the widget',
     [G + '__init__.py'],
     [('drop', G + '__init__.py TreeView.on_drag_data_received'),
      ('drag', G + '__init__.py TreeView.on_drag_data_get'),
      ('selection', G + '__init__.py TreeView.get_selected_nodes')],
     [('dnd_internal_target, dnd_external_targets', 'sources of rows', G + '__init__.py')],
     ['get_parents/get_children', 'rows of the widget', 'calls of the external function'])

prop('C19', 'Columns, sorting and collapsing of the widget follow the nodes',
     'Every described column shows the current value of its function in every row, whatever the '
     'order of columns and whether they share one or name one that comes later. With a sort column set, rows are sorted on '
     'every level by the values of the column it names or by its comparison function in both '
     'orders, after every change too. Collapsing or expanding a node applies to all its rows at '
     'once, or, if it is not shown yet, to all its rows when it gets shown and not before.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation and assignment of data, every request and choice of nodes, both '
     'layouts and orders',
     'there are no tests of the widget',
     [G + '__init__.py', G + 'treemodel.py'],
     [('columns', G + '__init__.py TreeView.set_columns_from_description / __init__'),
      ('sorting', G + '__init__.py TreeView.set_sort_column, _sort_func'),
      ('collapsing', G + '__init__.py collapse_node, expand_node')],
     [('columns', 'name -> position and Gtk column', G + '__init__.py')],
     ['values and order of the rows', 'calls of Gtk collapse_row/expand_row'])

prop('C20', 'Rows are open unless collapsed; opening and closing is announced',
     'A row with children is open from the moment it has them - whether it was there before the '
     'widget, came later, moved or came back through a filter - unless its node, or the node of '
     'a row it is below, was collapsed. A node collapsed by request stays closed in all its rows '
     'through later changes until it is expanded; a node expanded again does not count as '
     'collapsed any more. Rows opened or closed by the user or by request, and rows the widget '
     'opens itself after its construction, are announced by node-expanded and node-collapsed '
     'with the nodes along the row, rows of other nodes are not.',
     ['inputs', 'histories', 'configurations'],
     'every acyclic relation and assignment of data, every node collapsed or expanded and every '
     'row clicked, followed by every request',
     'there are no tests of the widget',
     [G + '__init__.py'],
     [('rows opened', G + '__init__.py TreeView.__init__, on_child_toggled'),
      ('collapsing', G + '__init__.py TreeView.collapse_node, expand_node, '
       '_collapse_node_retry'),
      ('announcing', G + '__init__.py TreeView.__emit')],
     [('collapsed_paths', 'nodes that stay closed', G + '__init__.py')],
     ['Gtk.TreeView.row_expanded', 'signals node-expanded, node-collapsed'])

prop('C21', 'Settings of columns, colours and separators reach what they name',
     'Columns appear in the order described (those without one last, as given), alone or sharing '
     'one, with their title, visibility, resizing and expansion. Showing, hiding, resizing, '
     'choosing as expander, search or sort column reaches the named column and no other. With a '
     'colour function set, every cell of every row has the background its node gets from it, '
     'or none if it gives none, after every change too, and text on dark backgrounds (brightness below one half) is white; '
     'without, nothing is coloured; an unknown column is refused. A row is a separator exactly '
     'if the separator function says so of its node, and none is once the function is taken away.',
     ['inputs', 'histories', 'configurations'],
     'every order and sharing of three columns, every setting of each; every acyclic relation and '
     'assignment of data, every request and choice of nodes',
     'there are no tests of the widget',
     [G + '__init__.py', G + 'treemodel.py'],
     [('columns', G + '__init__.py TreeView.__init__, set_col_visible, set_col_resizable, '
       'set_expander_column, set_main_search_column, set_sort_column'),
      ('colours', G + '__init__.py TreeView.set_bg_color, _celldatafunction, brightness'),
      ('separators', G + '__init__.py TreeView.set_row_separator_func, _separator_func')],
     [('columns', 'name -> position and Gtk column', G + '__init__.py'),
      ('bg_color_column, separator_func', 'settings', G + '__init__.py')],
     ['properties of Gtk columns and cells', 'the row separator function given to Gtk'])
