"""A simulated renderer in place of pyvista.Plotter: it keeps what is shown in each frame or picture and writes
its files through the simulated disk."""
import numpy as np

SHOWN = []  # all plotters of the run, in the order of creation


class Shown:
    """What one dataset shows at one moment."""

    def __init__(self, ds, kw):
        self.points = np.array(ds.points, dtype=float)
        lines = getattr(ds, "lines", None)
        faces = getattr(ds, "faces", None)
        self.lines = split(lines)
        self.faces = split(faces)
        s = kw.get("scalars")
        if isinstance(s, str):
            s = ds[s]
        elif s is None and kw.get("color") is None:
            s = ds.active_scalars
        self.scalars = None if s is None else np.array(s, dtype=float)
        self.kw = {k: v for k, v in kw.items() if isinstance(v, (int, float, str, tuple, list, type(None)))}


def split(a):
    """VTK's [n, i0, .., n, j0, ..] as lists of point numbers."""
    out = []
    a = [] if a is None else [int(x) for x in np.asarray(a).ravel()]
    i = 0
    while i < len(a):
        out.append(a[i + 1:i + 1 + a[i]])
        i += 1 + a[i]
    return out


class Plotter:
    def __init__(self, *args, **kw):
        self.kw = kw
        self.data = []  # [name, dataset, keywords]
        self.frames = []
        self.file = None
        self.path = None
        self.closed = False
        self.rate = None
        SHOWN.append(self)

    # ---- content

    def add_mesh(self, ds, **kw):
        import pyvista as pv

        if not hasattr(ds, "points"):
            ds = pv.PolyData(np.asarray(ds, dtype=float))
        name = kw.get("name")
        if name is not None:
            self.data = [d for d in self.data if d[0] != name]
        self.data.append([name, ds, kw])
        return ds

    add_points = add_lines = add_mesh

    def clear(self, *a, **kw):
        self.data = []

    clear_actors = clear

    def remove_actor(self, actor, *a, **kw):
        self.data = [d for d in self.data if d[1] is not actor and d[0] != actor]

    def shown(self):
        return [Shown(ds, kw) for _, ds, kw in self.data]

    # ---- files

    def begin(self, path, rate):
        if self.file is not None:
            self.file.close()
        self.path, self.rate = str(path), rate
        self.file = open(path, "wb", buffering=0)

    def open_gif(self, filename, loop=0, fps=10, **kw):
        self.begin(filename, fps)

    def open_movie(self, filename, framerate=24, quality=5, **kw):
        self.begin(filename, framerate)

    def write_frame(self):
        if self.closed:
            raise RuntimeError("This plotter has been closed")
        if self.file is None:
            raise RuntimeError("no movie has been opened")
        self.frames.append(self.shown())
        data = b"frame %d\n" % len(self.frames)
        while data:  # a frame that cannot be written is lost
            data = data[self.file.write(data) or 0:]

    def show(self, *a, screenshot=None, **kw):
        self.frames.append(self.shown())
        if screenshot:
            self.path = str(screenshot)
            with open(screenshot, "wb") as f:
                f.write(b"picture\n")
        self.close()

    def screenshot(self, filename=None, **kw):
        self.frames.append(self.shown())
        if filename:
            self.path = str(filename)
            with open(filename, "wb") as f:
                f.write(b"picture\n")

    def close(self, *a, **kw):
        self.closed = True
        if self.file is not None:
            f, self.file = self.file, None
            f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        """Everything else (cameras, axes, lights ...) does not change what is shown."""
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


def install():
    """In place of the real renderer, before the code under test is imported."""
    import pyvista as pv

    pv.Plotter = Plotter
