"""Stand-in for Gtk/Gdk during symbolic runs (replays use the real ones).

Gtk.TreeStore as documented, and as observed on Gtk 3 (see DESIGN.md):
 * an iterator names a row, not a position; it stays valid as long as the row
   exists; a row is never confused with a later one;
 * remove(iter) makes that iterator object name the next sibling, or nothing;
 * methods return None where there is no row;
 * a sorted store keeps the rows of each level in the order of its sort column.
Widgets keep their model and the listeners; everything else about them does
nothing.
"""
import types


class Obj(object):
    """GObject: signals only"""

    def __init__(self, *a, **k):
        pass

    def _sig(self):
        if '_signals' not in self.__dict__:
            self.__dict__['_signals'] = {}
        return self.__dict__['_signals']

    def connect(self, name, func, *data):
        name = name.replace('_', '-')
        key = self.__dict__.setdefault('_handlers', 0) + 1
        self.__dict__['_handlers'] = key
        self._sig().setdefault(name, []).append((func, data, key))
        return key

    connect_after = connect

    def disconnect(self, key):
        for hs in self._sig().values():
            hs[:] = [h for h in hs if h[2] != key]
    handler_disconnect = disconnect

    def handler_block(self, key):
        self.__dict__.setdefault('_blocked', []).append(key)

    def handler_unblock(self, key):
        self.__dict__['_blocked'].remove(key)

    def emit(self, name, *args):
        for func, data, key in list(self._sig().get(name.replace('_', '-'), ())):
            if key not in self.__dict__.get('_blocked', ()):
                func(self, *(args + data))


class TreeIter(object):
    __slots__ = ('row', 'stamp')

    def __init__(self, row):
        self.row = row
        self.stamp = 1

    def copy(self):
        return TreeIter(self.row)

    def __repr__(self):
        return '<iter %s>' % (self.row.values[:1] if self.row else None)


class Row(object):
    __slots__ = ('parent', 'kids', 'values', 'alive', 'top')

    def __init__(self, parent, values):
        self.parent = parent
        self.top = self if parent is None else parent.top
        self.kids = []
        self.values = values
        self.alive = True


class TreePath(object):
    def __init__(self, spec=()):
        if isinstance(spec, TreePath):
            spec = spec.ix
        elif isinstance(spec, str):
            spec = [int(x) for x in spec.split(':')]
        elif isinstance(spec, int):
            spec = [spec]
        self.ix = tuple(spec)

    @staticmethod
    def new_from_string(s):
        return TreePath(s)

    @staticmethod
    def new_from_indices(ix):
        return TreePath(ix)

    def get_indices(self):
        return list(self.ix)

    def get_depth(self):
        return len(self.ix)

    def to_string(self):
        return ':'.join(str(i) for i in self.ix)
    __str__ = to_string

    def __eq__(self, o):
        return isinstance(o, TreePath) and o.ix == self.ix

    def __hash__(self):
        return hash(self.ix)

    def __iter__(self):
        return iter(self.ix)

    def __len__(self):
        return len(self.ix)

    def __getitem__(self, k):
        return self.ix[k]


    def __lt__(self, o):
        return self.ix < o.ix

    def up(self):
        if not self.ix:
            return False
        self.ix = self.ix[:-1]
        return bool(self.ix)

    def copy(self):
        return TreePath(self)

    def append_index(self, k):
        self.ix += (k,)


class TreeModelRow(object):
    """a row as a sequence of its values"""

    def __init__(self, model, it):
        self.model, self.iter = model, it

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [self.model.get_value(self.iter, c)
                    for c in range(*k.indices(len(self)))]
        if k < 0:
            k += len(self)
        if not 0 <= k < len(self):
            raise IndexError('column index out of range')
        return self.model.get_value(self.iter, k)

    def __setitem__(self, k, value):
        self.model.set_value(self.iter, k, value)

    def __len__(self):
        return self.model.get_n_columns()

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    @property
    def path(self):
        return self.model.get_path(self.iter)

    def _row(self, it):
        return None if it is None else TreeModelRow(self.model, it)
    next = property(lambda self: self._row(self.model.iter_next(self.iter)))
    previous = property(lambda self: self._row(self.model.iter_previous(self.iter)))
    parent = property(lambda self: self._row(self.model.iter_parent(self.iter)))

    def get_next(self):
        return self.next

    def get_previous(self):
        return self.previous

    def get_parent(self):
        return self.parent

    def iterchildren(self):
        return TreeModelRowIter(self.model, self.model.iter_children(self.iter))


class TreeModelRowIter(object):
    def __init__(self, model, it):
        self.model, self.iter = model, it

    def __iter__(self):
        return self

    def __next__(self):
        if self.iter is None:
            raise StopIteration
        row = TreeModelRow(self.model, self.iter)
        self.iter = self.model.iter_next(self.iter)
        return row


ASC, DESC = 0, 1


class TreeStore(Obj):
    def __init__(self, *column_types):
        Obj.__init__(self)
        self._cols = column_types
        self._top = Row(None, ())
        self._sort = None
        self._sort_funcs = {}

    # rows ---------------------------------------------------------------------
    def _row(self, it):
        if it is None:
            return self._top
        if not isinstance(it, TreeIter):
            raise TypeError('argument is not a TreeIter: %r' % (it,))
        row = it.row
        if row is None or not row.alive or row.top is not self._top:
            # Gtk: undefined behaviour, a critical at best
            raise RuntimeError('use of an invalid iterator')
        return row

    def _it(self, row):
        return TreeIter(row) if row is not None and row is not self._top else None

    def get_n_columns(self):
        return len(self._cols)

    # python conveniences of PyGObject
    def __len__(self):
        return len(self._top.kids)

    def __bool__(self):
        return True

    def __iter__(self):
        return TreeModelRowIter(self, self.get_iter_first())

    def _iter_of(self, key):
        if isinstance(key, TreeIter):
            return key
        if isinstance(key, int) and key < 0:
            key += len(self)
        try:
            return self.get_iter(key)
        except ValueError:
            raise IndexError("could not find tree path '%s'" % (key,))

    def __getitem__(self, key):
        return TreeModelRow(self, self._iter_of(key))

    def __setitem__(self, key, row):
        it = self._iter_of(key)
        for c, v in enumerate(row):
            self.set_value(it, c, v)

    def __delitem__(self, key):
        self.remove(self._iter_of(key))

    def get_column_type(self, c):
        return self._cols[c]

    def is_ancestor(self, it, descendant):
        a, r = self._row(it), self._row(descendant).parent
        while r is not None and r is not a:
            r = r.parent
        return r is a

    def iter_depth(self, it):
        return self.get_path(it).get_depth() - 1

    def iter_is_valid(self, it):
        return (it is not None and it.row is not None and it.row.alive
                and it.row.top is self._top)

    def get_iter_first(self):
        return self._it(self._top.kids[0]) if self._top.kids else None

    def iter_children(self, it=None):
        r = self._row(it)
        return self._it(r.kids[0]) if r.kids else None

    def iter_has_child(self, it):
        return bool(self._row(it).kids)

    def iter_n_children(self, it=None):
        return len(self._row(it).kids)

    def iter_nth_child(self, it, n):
        r = self._row(it)
        return self._it(r.kids[n]) if 0 <= n < len(r.kids) else None

    def iter_next(self, it):
        r = self._row(it)
        kids = r.parent.kids
        k = self._pos(r) + 1
        return self._it(kids[k]) if k < len(kids) else None

    def iter_previous(self, it):
        r = self._row(it)
        k = self._pos(r) - 1
        return self._it(r.parent.kids[k]) if k >= 0 else None

    def iter_parent(self, it):
        return self._it(self._row(it).parent)

    @staticmethod
    def _pos(row):
        for k, x in enumerate(row.parent.kids):
            if x is row:
                return k
        raise RuntimeError('broken row')

    def get_value(self, it, col):
        r = self._row(it)
        if r is self._top:
            raise TypeError('no row')
        return r.values[col]

    def get(self, it, *cols):
        return tuple(self.get_value(it, c) for c in cols)

    def _fit(self, col, value):
        t = self._cols[col]
        if value is None:
            return {int: 0, bool: False, float: 0.0}.get(t)
        if t in (str, int, bool, float):
            if t is str and not isinstance(value, str):
                raise TypeError('%r is no %s' % (value, t))
            if t is not str and isinstance(value, str):
                raise TypeError('%r is no %s' % (value, t))
            if t is bool:
                return bool(value)
        return value

    def set_value(self, it, col, value):
        r = self._row(it)
        r.values[col] = self._fit(col, value)
        if self._sort is not None and (col == self._sort[0] or
                                       self._sort[0] in self._sort_funcs):
            self._place(r)
        self.emit('row-changed', self.get_path(it), it)

    def set(self, it, *args):
        if len(args) == 1 and isinstance(args[0], dict):
            for c, v in args[0].items():
                self.set_value(it, c, v)
        elif len(args) == 2 and isinstance(args[0], (list, tuple)):
            for c, v in zip(*args):
                self.set_value(it, c, v)
        else:
            for k in range(0, len(args), 2):
                self.set_value(it, args[k], args[k + 1])

    def insert(self, parent, position, row=None):
        p = self._row(parent)
        values = list(row) if row is not None else [None] * len(self._cols)
        if len(values) != len(self._cols):
            raise ValueError('row sequence has the incorrect number of elements')
        new = Row(p, [self._fit(c, v) for c, v in enumerate(values)])
        if position < 0 or position > len(p.kids):
            position = len(p.kids)
        p.kids.insert(position, new)
        it = TreeIter(new)
        if self._sort is not None:
            self._place(new)
        self.emit('row-inserted', self.get_path(it), it)
        if len(p.kids) == 1 and p is not self._top:
            pit = TreeIter(p)
            self.emit('row-has-child-toggled', self.get_path(pit), pit)
        return it

    def append(self, parent, row=None):
        return self.insert(parent, -1, row)

    def prepend(self, parent, row=None):
        return self.insert(parent, 0, row)

    def insert_with_values(self, parent, position, columns, values):
        full = [None] * len(self._cols)
        for c, v in zip(columns, values):
            full[c] = v
        return self.insert(parent, position, full)

    def insert_before(self, parent, sibling, row=None):
        if sibling is None:
            return self.insert(parent, -1, row)
        r = self._row(sibling)
        return self.insert(self._it(r.parent), self._pos(r), row)

    def insert_after(self, parent, sibling, row=None):
        if sibling is None:
            return self.insert(parent, 0, row)
        r = self._row(sibling)
        return self.insert(self._it(r.parent), self._pos(r) + 1, row)

    def remove(self, it):
        r = self._row(it)
        path = self.get_path(it)
        p = r.parent
        k = self._pos(r)
        del p.kids[k]
        todo = [r]
        while todo:
            x = todo.pop()
            x.alive = False
            todo += x.kids
        self.emit('row-deleted', path)
        if not p.kids and p is not self._top:
            pit = TreeIter(p)
            self.emit('row-has-child-toggled', self.get_path(pit), pit)
        it.row = p.kids[k] if k < len(p.kids) else None
        return it.row is not None

    def clear(self):
        while self._top.kids:
            self.remove(TreeIter(self._top.kids[-1]))

    # paths ---------------------------------------------------------------------
    def get_path(self, it):
        r = self._row(it)
        ix = []
        while r is not self._top:
            ix.append(self._pos(r))
            r = r.parent
        return TreePath(ix[::-1])

    def get_string_from_iter(self, it):
        return self.get_path(it).to_string()

    def get_iter(self, path):
        r = self._top
        for k in TreePath(path).ix:
            if not 0 <= k < len(r.kids):
                raise ValueError("invalid tree path '%s'" % (path,))
            r = r.kids[k]
        if r is self._top:
            raise ValueError('empty path')
        return TreeIter(r)

    get_iter_from_string = get_iter

    def foreach(self, func, *data):
        def walk(row):
            for x in list(row.kids):
                it = TreeIter(x)
                if func(self, self.get_path(it), it, *data) or walk(x):
                    return True
            return False
        walk(self._top)

    # sorting ----------------------------------------------------------------------
    def set_sort_column_id(self, col, order):
        self._sort = (col, order)
        self._sort_all(self._top)

    def get_sort_column_id(self):
        return self._sort if self._sort is not None else (None, None)

    def set_sort_func(self, col, func, *data):
        self._sort_funcs[col] = (func, data)
        if self._sort is not None and self._sort[0] == col:
            self._sort_all(self._top)

    def _less(self, a, b):
        col, order = self._sort
        if order == DESC:
            a, b = b, a
        if col in self._sort_funcs:
            func, data = self._sort_funcs[col]
            return func(self, TreeIter(a), TreeIter(b), *data) < 0
        va, vb = a.values[col], b.values[col]
        if va is None or vb is None:
            return va is None and vb is not None
        return va < vb

    def _sort_all(self, row):
        kids = row.kids
        row.kids = []
        for x in kids:
            row.kids.append(x)
            self._place(x)
            self._sort_all(x)

    def _place(self, r):
        kids = r.parent.kids
        k = self._pos(r)
        del kids[k]
        j = 0
        # stay as far behind as the order allows
        while j < len(kids) and not self._less(r, kids[j]):
            j += 1
        kids.insert(j, r)

    def reorder(self, it, order):
        r = self._row(it)
        r.kids = [r.kids[k] for k in order]


class Anything(Obj):
    """a widget or parameter object: unknown methods do nothing"""

    def __init__(self, *a, **k):
        Obj.__init__(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class RGBA(object):
    def __init__(self, red=0.0, green=0.0, blue=0.0, alpha=1.0):
        self.red, self.green, self.blue, self.alpha = red, green, blue, alpha

    def to_color(self):
        return Color(*(int(x * 65535 + 0.5) for x in (self.red, self.green, self.blue)))

    def parse(self, spec):
        c = color_parse(spec).to_rgba()
        self.red, self.green, self.blue, self.alpha = c.red, c.green, c.blue, 1.0
        return True


class Color(object):
    def __init__(self, red=0, green=0, blue=0):
        self.red, self.green, self.blue = red, green, blue
    red_float = property(lambda self: self.red / 65535.0)
    green_float = property(lambda self: self.green / 65535.0)
    blue_float = property(lambda self: self.blue / 65535.0)

    def to_rgba(self):
        return RGBA(self.red / 65535.0, self.green / 65535.0, self.blue / 65535.0)


def color_parse(spec):
    """#rgb, #rrggbb; like Gdk, digits are repeated to fill 16 bits"""
    h = spec[1:]
    if spec[:1] != '#' or len(h) not in (3, 6):
        raise ValueError('colour %r' % (spec,))
    n = len(h) // 3
    return Color(*(int(h[k * n:k * n + n] * (4 // n), 16) for k in range(3)))


class StyleContext(Anything):
    def get_background_color(self, state):
        return RGBA(1.0, 1.0, 1.0)


class TreeView(Anything):
    def set_search_column(self, number):
        self.__dict__['_search'] = number

    def get_search_column(self):
        return self.__dict__.get('_search', -1)

    def set_expander_column(self, column):
        self.__dict__['_expander'] = column

    def get_expander_column(self):
        return self.__dict__.get('_expander')

    def set_property(self, name, value):
        # the property itself, not a method of a subclass
        getattr(TreeView, 'set_' + name.replace('-', '_'))(self, value)

    def get_property(self, name):
        return getattr(TreeView, 'get_' + name.replace('-', '_'))(self)

    def get_style_context(self):
        return StyleContext()

    def set_model(self, model):
        self.__dict__['_model'] = model
        self.__dict__['_open'] = []
        if model is not None and hasattr(model, 'connect'):
            model.connect('row-has-child-toggled', self._toggled)

    def _toggled(self, model, path, it):
        if not model._row(it).kids:
            self._close(model._row(it))

    def _close(self, row):
        """a row that is closed forgets which rows below it were open"""
        def below(x):
            while x is not None and x is not row:
                x = x.parent
            return x is row
        self.__dict__['_open'] = [x for x in self._open if x.alive and not below(x)]

    def get_model(self):
        return self.__dict__.get('_model')

    def append_column(self, col):
        return self.insert_column(col, -1)

    def insert_column(self, col, position):
        cols = self.__dict__.setdefault('_columns', [])
        col.__dict__['_view'] = self
        cols.insert(len(cols) if position < 0 else position, col)
        return len(cols)

    def get_columns(self):
        return list(self.__dict__.get('_columns', ()))

    def get_n_columns(self):
        return len(TreeView.get_columns(self))

    def get_column(self, k):
        cols = TreeView.get_columns(self)
        return cols[k] if 0 <= k < len(cols) else None

    def get_path_at_pos(self, x, y):
        d = self.get_dest_row_at_pos(x, y)
        return None if d is None else (d[0], None, 0, 0)

    def set_row_separator_func(self, func, *data):
        self.__dict__['_separator'] = (func, data)

    def _row_at(self, path):
        try:
            return self._model.get_iter(path).row
        except ValueError:
            return None

    def _is_open(self, row):
        return any(x is row for x in self._open)

    def row_expanded(self, path):
        row = TreeView._row_at(self, path)
        return row is not None and self._is_open(row)

    def expand_row(self, path, open_all):
        """opens a row, if it has children and is visible itself"""
        row = TreeView._row_at(self, path)
        if row is None or not row.kids:
            return False
        up = row.parent
        while up is not self._model._top:
            if not self._is_open(up):
                return False
            up = up.parent
        done = not self._is_open(row)
        if done:
            self._open.append(row)
            self.emit('row-expanded', TreeIter(row), self._model.get_path(TreeIter(row)))
        if open_all:
            for k in list(row.kids):
                if k.alive:
                    TreeView.expand_row(self, self._model.get_path(TreeIter(k)), True)
        return done

    def collapse_row(self, path):
        row = TreeView._row_at(self, path)
        if row is None or not self._is_open(row):
            return False
        self._close(row)
        self.emit('row-collapsed', TreeIter(row), self._model.get_path(TreeIter(row)))
        return True

    def expand_all(self):
        if self.get_model() is not None:
            for k in list(self._model._top.kids):
                TreeView.expand_row(self, self._model.get_path(TreeIter(k)), True)

    def collapse_all(self):
        if self.get_model() is not None:
            for k in list(self._model._top.kids):
                TreeView.collapse_row(self, self._model.get_path(TreeIter(k)))

    def expand_to_path(self, path):
        ix = TreePath(path).ix
        for k in range(1, len(ix) + 1):
            TreeView.expand_row(self, TreePath(ix[:k]), False)

    def show(self):
        pass


class TreeViewColumn(Anything):
    def __init__(self, title=None, renderer=None, **attributes):
        Anything.__init__(self)
        if title is not None:
            self.set_title(title)
        if renderer is not None:
            self.pack_start(renderer, True)
            self.set_attributes(renderer, **attributes)

    def pack_start(self, renderer, expand=True):
        self.__dict__.setdefault('_cells', []).append(renderer)

    pack_end = pack_start

    def get_cells(self):
        return list(self.__dict__.get('_cells', ()))

    def set_cell_data_func(self, renderer, func, *data):
        renderer.__dict__['_data_func'] = (func, data)

    def add_attribute(self, renderer, attribute, number):
        renderer.__dict__.setdefault('_attrs', {})[attribute] = number

    def set_attributes(self, renderer, **attributes):
        renderer.__dict__['_attrs'] = dict(
            (k.replace('_', '-'), v) for k, v in attributes.items())

    def clear_attributes(self, renderer):
        renderer.__dict__['_attrs'] = {}

    def clear(self):
        self.__dict__['_cells'] = []

    def set_property(self, name, value):
        getattr(self, 'set_' + name.replace('-', '_'))(value)

    def get_property(self, name):
        return getattr(self, 'get_' + name.replace('-', '_'))()

    def set_resizable(self, resizable):
        self.__dict__['_resizable'] = bool(resizable)

    def get_resizable(self):
        return self.__dict__.get('_resizable', False)

    def set_expand(self, expand):
        self.__dict__['_expand'] = bool(expand)

    def get_expand(self):
        return self.__dict__.get('_expand', False)

    def cell_set_cell_data(self, model, it, is_expander, is_expanded):
        for cell in self.get_cells():
            for name, number in cell.__dict__.get('_attrs', {}).items():
                cell.set_property(name, model.get_value(it, number))
            func, data = cell.__dict__.get('_data_func', (None, ()))
            if func is not None:
                func(self, cell, model, it, *(data or (None, )))

    def set_title(self, title):
        self.__dict__['_title'] = title

    def get_title(self):
        return self.__dict__.get('_title', '')

    def set_visible(self, visible):
        self.__dict__['_visible'] = bool(visible)

    def get_visible(self):
        return self.__dict__.get('_visible', True)

    def set_sort_column_id(self, number):
        self.__dict__['_sort_id'] = number

    def get_sort_column_id(self):
        return self.__dict__.get('_sort_id', -1)

    def clicked(self):
        """a click on the header sorts by the column, once more the other way"""
        number = self.get_sort_column_id()
        model = self._view.get_model()
        if number < 0:
            return
        now, order = model.get_sort_column_id()
        order = DESC if now == number and order == ASC else ASC
        model.set_sort_column_id(number, order)

    def get_tree_view(self):
        return self.__dict__.get('_view')


class Props(object):
    def __init__(self, owner):
        self.__dict__['owner'] = owner

    def __getattr__(self, name):
        return self.owner.get_property(name)

    def __setattr__(self, name, value):
        self.owner.set_property(name, value)


class CellRenderer(Anything):
    COLOURS = ('cell-background', 'foreground', 'background')

    def set_property(self, name, value):
        p = self.__dict__.setdefault('_props', {})
        name = name.replace('_', '-')
        if name in self.COLOURS:
            p[name + '-set'] = value is not None
            if value is not None:
                p[name + '-rgba'] = color_parse(value).to_rgba()
        elif name.endswith('-rgba') and name[:-5] in self.COLOURS:
            p[name[:-5] + '-set'] = value is not None
            p[name] = value
        elif name == 'markup':
            p['text'] = p[name] = value
        elif name == 'text' and value is not None:
            p[name] = str(value)
        else:
            p[name] = value

    def get_property(self, name):
        return self.__dict__.get('_props', {}).get(name.replace('_', '-'))

    def set_properties(self, **values):
        for k, v in values.items():
            self.set_property(k, v)

    props = property(lambda self: Props(self))


class CellRendererText(CellRenderer):
    pass


class CellRendererPixbuf(CellRenderer):
    pass


class CellRendererToggle(CellRenderer):
    pass


class _Flags(type):
    """enumerations: every name has some value"""

    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        names = cls.__dict__.get('_names')
        if name not in names:
            names.append(name)
        v = 1 << names.index(name)
        return v


def flags(name):
    return _Flags(name, (), {'_names': []})


class SortType(object):
    ASCENDING = ASC
    DESCENDING = DESC


def modules(GObject):
    GObject.GObject = Obj
    GObject.Object = Obj
    GObject.SignalFlags = flags('SignalFlags')
    GObject.SIGNAL_RUN_FIRST = 1
    GObject.TYPE_NONE = None
    gtk = types.ModuleType('gi.repository.Gtk')
    gdk = types.ModuleType('gi.repository.Gdk')
    for c in (TreeStore, TreeIter, TreePath, TreeView, TreeViewColumn,
              TreeModelRow, TreeModelRowIter, CellRenderer, CellRendererText,
              CellRendererPixbuf, CellRendererToggle, SortType):
        setattr(gtk, c.__name__, c)
    for f in ('TargetFlags', 'TreeViewDropPosition', 'StateFlags', 'SelectionMode'):
        setattr(gtk, f, flags(f))
    gdk.Color, gdk.RGBA, gdk.color_parse = Color, RGBA, color_parse
    for f in ('ModifierType', 'DragAction'):
        setattr(gdk, f, flags(f))
    gtk.__getattr__ = lambda name: _missing(name)
    return {'Gtk': gtk, 'Gdk': gdk}


def _missing(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return Anything if name[:1].isupper() else (lambda *a, **k: None)
