"""The Gtk widget of /repo on the stand-in (symbolic) or the real Gtk (replay).

Input from the screen (drop position, selection) is given by overriding the
methods of Gtk.TreeView the widget asks; collapsed and expanded rows are
recorded where the widget calls Gtk."""
from .views import VWorld


class Selection(object):
    """Gtk.TreeSelection: the selected rows"""

    def __init__(self, model):
        self.model = model
        self.paths = []
        self.mode = None

    def get_selected_rows(self):
        return self.model, list(self.paths)

    def count_selected_rows(self):
        return len(self.paths)

    def set_mode(self, mode):
        self.mode = mode

    def get_mode(self):
        return self.mode


class DragData(object):
    """Gtk.SelectionData"""

    def __init__(self):
        self.data = b''

    def get_target(self):
        return None

    def set(self, target, fmt, data):
        self.data = data

    def get_data(self):
        return self.data


class DragContext(object):
    def __init__(self, source):
        self.source = source


class WWorld(VWorld):
    EXTRA = ('liblarch_gtk',)

    def widget(self, view, description, live=False):
        """live: rows are really opened and closed, not just recorded"""
        mod = self.mods[1]
        w = self
        try:
            mod.Gtk.drag_get_source_widget = lambda context: context.source
        except Exception:
            pass

        class Probe(mod.TreeView):
            drop = None
            sel = None
            calls = None

            def get_dest_row_at_pos(self, x, y):
                return self.drop

            def get_selection(self):
                return self.sel

        class Recorder(Probe):
            def collapse_row(self, path):
                self.note('collapse', path)

            def expand_row(self, path, open_all):
                self.note('expand', path)

            def note(self, what, path):
                if self.calls is not None:
                    self.calls.append((what, w.row_of(self.get_model(), path)))

        tv = (Probe if live else Recorder)(view, description)
        tv.sel = Selection(tv.get_model())
        return tv

    def row_of(self, model, path):
        """nodes along a Gtk path"""
        out = ()
        ix = path.get_indices()
        for k in range(1, len(ix) + 1):
            it = model.get_iter(':'.join(str(i) for i in ix[:k]))
            out += (self.index(model.get_value(it, 0)),)
        return out

    def gtk_paths(self, model):
        """[(nodes along the row, Gtk path)], depth first"""
        out = []

        def walk(it, pre):
            while it is not None:
                p = pre + (self.index(model.get_value(it, 0)),)
                out.append((p, model.get_path(it)))
                if len(p) < 12:
                    walk(model.iter_children(it), p)
                it = model.iter_next(it)
        walk(model.get_iter_first(), ())
        return out
