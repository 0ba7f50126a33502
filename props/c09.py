"""C09: the queries of a view agree with each other and with the tree."""
from harness.core import draw_args
from harness.logic import And, Or, Not, Iff, Count
from harness.views import VWorld, observe_view, paths_of
from harness.world import LARGE7, large, OPS, quiet, assume_forest
from props.c06 import S, T, EDIT, ASSUMPTIONS as A6

ASSUMPTIONS = A6 + [
    'without a parent, the next sibling below any of the shown parents is a '
    'right answer',
]


def raises(f, exc):
    try:
        f()
    except exc:
        return True
    except Exception:
        return False
    return False


def candidates(n):
    """every sequence of nodes that could be a path, plus some that never are"""
    out = [()]
    level = [()]
    for _ in range(n):
        level = [p + (i,) for p in level for i in range(n) if i not in p]
        out += level
    out += [(i, i) for i in range(n)]
    return out


def near(rows, n):
    """the paths of the rows and every sequence one change away from one"""
    out = {()}
    for r in rows:
        out.add(r)
        for k in range(len(r) + 1):
            out.add(r[:k] + r[k + 1:])
            for i in range(n):
                out.add(r[:k] + (i,) + r[k:])
                out.add(r[:k] + (i,) + r[k + 1:])
    return sorted(out)


def below(o, i):
    return sum(1 + below(o, c) for c in o.children[i])


def queries(w, view, o, main, args=()):
    """facts about every query, against the rows `o`"""
    ids = w.ctx.ids
    n = w.n
    idx = w.index
    out = []
    rows = paths_of(o)
    for i in range(n):
        if not o.shown[i]:
            continue
        got = [tuple(map(idx, p)) for p in view.get_paths_for_node(ids[i])]
        out.append(('paths of node %d: one for each of its rows' % i,
                    sorted(got) == sorted(r for r in rows if r[-1] == i)))
        out.append(('node %d has a child' % i, bool(view.node_has_child(ids[i]))
                    == bool(o.children[i])))
        out.append(('node %d has a parent' % i, bool(view.node_has_parent(ids[i]))
                    == bool(o.parents[i])))
        out.append(('node of %d' % i, view.get_node(ids[i]).get_id() == ids[i]))
        for p in o.parents[i]:
            sib = o.children[p]
            k = sib.index(i)
            want = sib[k + 1] if k + 1 < len(sib) else None
            nx = view.next_node(ids[i], ids[p])
            out.append(('next of %d below %d' % (i, p),
                        (None if nx is None else idx(nx)) == want))
        nx = view.next_node(ids[i])
        nx = None if nx is None else idx(nx)
        ok = False
        for sib in ([o.children[p] for p in o.parents[i]] or [o.root]):
            k = sib.index(i)
            ok = ok or nx == (sib[k + 1] if k + 1 < len(sib) else None)
        out.append(('next of %d' % i, ok))
    for i in [None] + list(range(n)):
        if i is None:
            lst, nid, deep = o.root, None, len(rows)
        elif o.shown[i]:
            lst, nid, deep = o.children[i], ids[i], below(o, i)
        else:
            out.append(('no children counted below the hidden node %d' % i,
                        view.node_n_children(ids[i]) == 0 and
                        view.node_n_children(ids[i], recursive=True) == 0))
            continue
        out.append(('number of children of %s' % i,
                    view.node_n_children(nid) == len(lst)))
        out.append(('number of rows below %s' % i,
                    view.node_n_children(nid, recursive=True) == deep))
        for k, c in enumerate(lst):
            out.append(('child %d of %s' % (k, i),
                        idx(view.node_nth_child(nid, k)) == c))
        out.append(('no child %d of %s' % (len(lst), i),
                    raises(lambda: view.node_nth_child(nid, len(lst)), ValueError) and
                    raises(lambda: view.node_nth_child(nid, len(lst) + 1), ValueError)))
    ok = True
    for p in candidates(n) if n < 6 else near(rows, n):
        got = view.get_node_for_path(tuple(ids[i] for i in p))
        want = p[-1] if p in rows else None
        ok = ok and (None if got is None else idx(got)) == want
    out.append(('a path leads to its last node iff it is the path of a row', ok))
    shown = [i for i in range(n) if o.shown[i]]
    out.append(('nodes', sorted(map(idx, view.get_nodes())) == shown))
    out.append(('number of nodes', view.get_n_nodes() == len(shown)))
    text = view.print_tree(True).split('\n')
    names = dict((str.__str__(ids[i]), i) for i in range(n))
    for a in args:
        if getattr(a, 'idx', None) is not None:
            names[str.__str__(a)] = a.idx
    got = [(len(t) - len(t.lstrip(' ')), names[t.strip(' ')]) for t in text
           if t.strip(' ') in names]
    want = []

    def walk(lst, depth):
        for c in lst:
            want.append((depth, c))
            walk(o.children[c], depth + 1)
    walk(o.root, 1)
    out.append(('the printout shows the rows', got == want))
    return out


def counted(w, view, kinds, extras):
    """formulas: what further filters would leave"""
    out = []
    shown, _, _ = w.view_spec(kinds)
    for ex in extras:
        accs = [w.accepted(k) for k in ex]
        asked = list(ex)
        got = [w.index(i) for i in view.get_nodes(withfilters=asked)]
        cnt = view.get_n_nodes(withfilters=asked)
        out.append(('the list of further filters stays', asked == list(ex)))
        out.append(('count with %s' % (ex,), len(got) == len(set(got)) == cnt))
        for i in range(w.n):
            out.append(('%d with %s' % (i, ex), Iff(
                i in got, And(shown[i], *[a[i] for a in accs]))))
    return out


def ask(m, ops, kindsets, extras=(), main=False, forest=False, spare=0,
        first=True):
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        if forest:
            assume_forest(ctx, m)
        w = VWorld(ctx, m + spare)
        w.build(m)
        kinds = () if main else ctx.choice('filters', kindsets)
        if main:
            view = w.tree.get_main_view()
        else:
            # views with filters have a name, as in an application
            view = w.tree.get_viewtree(
                name='shown' if kinds else None, refresh=not kinds)
            for kd in kinds:
                view.apply_filter(w.filter(kd))
        for ex in extras:
            for kd in ex:
                w.filter(kd)

        def check(label):
            with quiet():
                o = observe_view(w, view)
                facts = queries(w, view, o, main, sum(args, []))
            ctx.check_memo(('ask', w.key, kinds, o.sig,
                            tuple(l for l, b in facts if not b)),
                           lambda: facts + w.view_conds(o, kinds, label),
                           lambda: '%s\n%s' % (label, o.sig))
            if extras:
                ctx.check(counted(w, view, kinds, extras), lambda: o.sig)
            if any(len(p) > 1 for p in o.parents):
                ctx.cover('several rows')
        if first:
            check('initially')
        for s in range(k):
            op = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(op, *args[s][:OPS[op]])
            ctx.check([('no error', Or(w.model.undef, Iff(exc is not None, refused)))],
                      lambda: repr(exc))
            check('after ' + op)
            ctx.cover('edited')
    return run


def node_facts(w, node, stranger, name):
    """what one node says about its parents and children"""
    ids = w.ctx.ids
    out = []
    kids = node.get_children()
    folks = node.get_parents()
    out.append(('%s: number of children' % name, node.get_n_children() == len(kids)))
    out.append(('%s: has children' % name, bool(node.has_child()) == bool(kids)))
    out.append(('%s: has parents' % name, bool(node.has_parent()) == bool(folks)))
    for k, c in enumerate(kids):
        out.append(('%s: child %d' % (name, k), node.get_nth_child(k) == c))
    out.append(('%s: no child %d' % (name, len(kids)), raises(
        lambda: node.get_nth_child(len(kids)), ValueError)))
    for x in list(ids) + [stranger]:
        there = any(c == x for c in kids)
        out.append(('%s: child?' % name, bool(node.has_child(x)) == there))
        out.append(('%s: parent?' % name, bool(node.has_parent(x)) ==
                    any(p == x for p in folks)))
        at = node.get_child_index(x)
        out.append(('%s: index' % name, at is not None and kids[at] == x if there
                    else at is None))
    return out


def nodes(m, ops, spare=0):
    """the queries of the nodes themselves, in the tree or taken out of it"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = VWorld(ctx, m + spare)
        w.build(m)
        # outside the tree, waiting for others
        lone = w.L.TreeNode('lone', parent='stranger')
        lone.add_parent('another')
        lone.add_child('third')

        def check(label):
            facts = node_facts(w, lone, 'stranger', 'lone node')
            for i in range(w.n):
                obj = w.objs.get(ctx.ids[i])
                if obj is not None:
                    facts += node_facts(w, obj, 'stranger', 'node %d' % i)
                    at_home = w.tree.has_node(ctx.ids[i])
                    if at_home:
                        facts.append(('node %d knows its tree' % i,
                                      obj.get_tree() is not None))
                        facts.append(('node %d is its own' % i,
                                      w.tree.get_node(ctx.ids[i]) is obj))
            o = w.observe()
            ctx.check(facts, lambda: '%s\n%s\n%s' % (
                label, o.sig, [l for l, b in facts if not b]))
        check('initially')
        for s in range(k):
            op = ctx.choice('op%d' % s, ops[s])
            exc, refused = w.step(op, *args[s][:OPS[op]])
            check('after ' + op)
            ctx.cover('edited')
    return run


def answers(m, ops, main=False):
    """an answer belongs to who asked: later requests do not change it, and
    changing it changes nothing"""
    k = len(ops)

    def run(ctx):
        args = draw_args(ctx, k)
        w = VWorld(ctx, m)
        w.build(m)
        ids = ctx.ids
        w.filter('own')
        w.filter('other')
        if main:
            view = w.tree.get_main_view()
        else:
            view = w.tree.get_viewtree(refresh=False)
            view.apply_filter('own', refresh=False)
            view.apply_filter('other')
        i = 0                       # any node: the relation is arbitrary
        asks = {
            'all': view.get_all_nodes, 'nodes': view.get_nodes,
            'nodes with': lambda: view.get_nodes(withfilters=['own']),
            'top': view.node_all_children,
            'filters': w.tree.list_filters,
        }
        if not main:
            asks['applied'] = view.list_applied_filters
        there = view.is_displayed(ids[i])
        if there:
            asks['below'] = lambda: view.node_all_children(ids[i])
            asks['above'] = lambda: view.node_parents(ids[i])
            asks['paths'] = lambda: view.get_paths_for_node(ids[i])
        node = w.tree.get_node(ids[i])
        asks['children'] = node.get_children
        asks['parents'] = node.get_parents
        what = ctx.choice('what', sorted(asks))
        # changing an answer
        before = [(a, list(asks[a]())) for a in sorted(asks)]
        got = asks[what]()
        kept = list(got)
        for x in [lambda: got.append('rubbish'), lambda: got.reverse(),
                  lambda: got.clear()]:
            try:
                x()
            except AttributeError:
                break                       # tuples cannot be changed anyway
            ctx.check([('changing %s changes nothing' % what, before == [
                (a, list(asks[a]())) for a in sorted(asks)])], lambda: before)
        # later requests
        got = asks[what]()
        seen = []
        it = iter(got)
        for s in range(k):
            for x in it:
                seen.append(x)
                break
            op = ctx.choice('op%d' % s, ops[s])
            if op == 'unapply':
                if not main:
                    view.unapply_filter('other')
            elif op == 'bank':
                w.tree.remove_filter('other')
            else:
                w.step(op, *args[s][:OPS[op]])
            ctx.check([('%s is no longer the same' % what, list(got) == kept)],
                      lambda: (list(got), kept))
        seen += list(it)
        ctx.check([('walking through %s meets every one' % what, seen == kept)])
        ctx.cover(what)
    return run


def first_asked(m, ops):
    """the complete view gives the same answers whatever was asked first, and
    whether that was before or after a change"""
    FILTERS = [(), ('own',), ('own', 'other'), ('leaf', 'own')]

    def run(ctx):
        args = draw_args(ctx, 1)
        w = VWorld(ctx, m + 1)
        view = w.tree.get_main_view()
        for kd in ('own', 'other', 'leaf'):
            w.filter(kd)
        when = ctx.choice('when', ['empty', 'built', 'edited'])

        def question(label):
            what = ctx.choice('what' + label, ['nodes', 'number', 'children', 'below'])
            if what == 'children':
                x = view.node_n_children()
                y = len(view.node_all_children())
                ctx.check([('top level nodes are counted', x == y)], lambda: (x, y))
            elif what == 'below':
                o = observe_view(w, view)
                x = view.node_n_children(None, recursive=True)
                ctx.check([('all rows are counted', x == len(paths_of(o)))],
                          lambda: (x, o.sig))
            else:
                ex = ctx.choice('with' + label, FILTERS)
                accs = [w.accepted(k) for k in ex]
                members = [And(w.model.pres[i], *[a[i] for a in accs])
                           for i in range(w.n)]
                if what == 'number':
                    x = view.get_n_nodes(withfilters=list(ex))
                    ctx.check([('number with %s' % (ex,),
                                Or(w.model.undef, Count(members) == x))], lambda: x)
                else:
                    x = [w.index(i) for i in view.get_nodes(withfilters=list(ex))]
                    ctx.check([('each once', len(set(x)) == len(x))] + [
                        ('%d with %s' % (i, ex), Or(w.model.undef,
                                                    Iff(i in x, members[i])))
                        for i in range(w.n)], lambda: x)
            ctx.cover(what)
        if when == 'empty':
            question('0')
        w.build(m)
        if when == 'built':
            question('0')
        op = ctx.choice('op', ops)
        w.step(op, *args[0][:OPS[op]])
        question('1')
    return run


SOME = ['toggle', 'add_parent', 'move', 'remove_parent', 'delete', 'move_root']
SCENARIOS = [
    S('n3-view', ask(3, [SOME], [('own',), ()]), 3,
      '3 nodes, any acyclic relation, filter on data or none, every query, '
      '1 operation, every query', covers=['several rows', 'edited']),
    S('n4-view', ask(4, [], [('own',), ('own+flat',)]), 4,
      '4 nodes, filter on data, every query'),
    S('n4-main', ask(4, [], [()], main=True), 4,
      '4 nodes, complete view, every query'),
    S('n3-main', ask(3, [SOME], [()], main=True), 3,
      '3 nodes, complete view, every query, 1 operation, every query',
      covers=['several rows', 'edited']),
    S('n3-count', ask(3, [['toggle', 'delete']], [('own',)],
                      extras=[('other',), ('other', 'leaf'), ('own',)]), 3,
      '3 nodes, what further filters would leave, 1 operation'),
    S('n3-count-main', ask(3, [['toggle', 'move']], [()], main=True,
                      extras=[('own',), ('own', 'top')]), 3,
      '3 nodes, what filters would leave of the complete view, 1 operation'),
    S('n2-add', ask(2, [['add_node', 'add_node_parent', 'ctor_child']],
                    [('own',), ()], spare=1), 3,
      '2 nodes, an addition, every query'),
    S('n2-add-main', ask(2, [['add_node', 'add_node_parent', 'ctor_child']],
                    [()], spare=1, main=True), 3,
      '2 nodes, complete view, an addition, every query'),
    S('n5-main', ask(5, [], [()], main=True), 5,
      '5 nodes, complete view, every query'),
    S('n4-main-1', ask(4, [SOME], [()], main=True), 4,
      '4 nodes, complete view, 1 operation, every query'),
    S('n4-view-1', ask(4, [['toggle', 'move', 'delete']], [('own',)],
                       first=False), 4,
      '4 nodes, filter on data, 1 operation, every query'),
    S('n5-forest', ask(5, [['move', 'delete', 'move_root']], [()], forest=True), 5,
      '5 nodes with at most one parent each, no filter, 1 operation, every query'),
    S('large', large(ask(7, [SOME], [('own',), ()], first=False), LARGE7, few=1), 7,
      '7 nodes in one of 6 large shapes, at most 1 node hidden, 1 operation, every query', sym_sets=False),
    S('large-main', large(ask(7, [SOME], [()], main=True, first=False), LARGE7), 7,
      '7 nodes in one of 6 large shapes, complete view, 1 operation, every query', sym_sets=False),
    S('nodes', nodes(3, [SOME + ['add_node_parent', 'readd']], spare=1), 4,
      '3 nodes, any acyclic relation, the queries of the nodes, 1 operation',
      covers=['edited']),
    S('nodes-off', nodes(3, [['no_children', 'no_parents'], ['delete', 'add_parent']]), 3,
      '3 nodes, one without children or parents, 1 operation', covers=['edited']),
    S('answers', answers(3, [['delete', 'move', 'toggle', 'unapply', 'bank']]), 3,
      '3 nodes, any query, its answer is changed, 1 operation', covers=[
          'all', 'nodes', 'nodes with', 'top', 'filters', 'applied', 'below', 'above',
          'paths', 'children', 'parents']),
    S('answers-main', answers(3, [['delete', 'move', 'bank']], main=True), 3,
      '3 nodes, complete view, any query, its answer is changed, 1 operation'),
    S('first', first_asked(2, ['toggle', 'delete', 'move', 'add_node', 'ctor_parent']),
      3, '2 nodes, complete view, two questions before, between and after changes',
      covers=['nodes', 'number', 'children', 'below']),
    S('n5-view', ask(5, [], [()]), 5,
      '5 nodes, no filter, every query', tiers=T),
    S('n4-view-1-more', ask(4, [SOME], [('own',), ('own+flat',), ('leaf',)]), 4,
      '4 nodes, 1 operation, every query', tiers=T),
    S('n3-view-2', ask(3, [SOME, SOME], [('own',), ()]), 3,
      '3 nodes, 2 operations, every query', tiers=T),
    S('n5-main-1', ask(5, [SOME], [()], main=True), 5,
      '5 nodes, complete view, 1 operation, every query', tiers=T),
    S('n5-view-1', ask(5, [['toggle', 'move', 'delete']], [('own',)], forest=True), 5,
      '5 nodes with at most one parent each, filter on data, 1 operation', tiers=T),
]
