"""Recording what each frame of an animation shows."""
import matplotlib.animation
import numpy as np


class Recorder(matplotlib.animation.AbstractMovieWriter):
    """A movie writer which keeps the state of the artists in each frame."""

    def __init__(self):
        super().__init__(fps=5)
        self.frames = []

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi)

    def finish(self):
        pass

    def grab_frame(self, **kwargs):
        panels = []
        for ax in self.fig.axes:
            p = {"limits": np.array(ax.get_xlim() + ax.get_ylim())}
            p["lines"] = [np.column_stack([np.atleast_1d(np.asarray(v, dtype=float)) for v in line.get_data()]).copy() for line in ax.lines]
            p["arrows"] = [
                (np.column_stack((c.X, c.Y)).astype(float), np.column_stack((c.U, c.V)).astype(float), np.array(c.get_array()) if c.get_array() is not None else None, c.get_clim())
                for c in ax.collections if hasattr(c, "U")
            ]
            p["points"] = [
                (np.array(c.get_offsets(), dtype=float), np.array(c.get_array()), c.get_clim()) for c in ax.collections if not hasattr(c, "U")
            ]
            p["images"] = [(np.array(i.get_array()), tuple(i.get_extent())) for i in ax.images]
            p["texts"] = [t.get_text() for t in ax.texts]
            panels.append(p)
        self.frames.append(panels)
