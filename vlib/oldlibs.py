"""Lets dedop.ui.inspect and dedop.ui.compare run with the libraries installed here, which are newer than the ones they
were written for: names that have been removed from bokeh and matplotlib since are put back."""
import sys
import types


def install():
    import bokeh
    import bokeh.tile_providers
    for name in ('bokeh.util.platform', 'bokeh.model'):
        try:
            __import__(name)
        except ImportError:
            sys.modules[name] = types.ModuleType(name)
            if name == 'bokeh.util.platform':
                bokeh.util.platform = sys.modules[name]
    if isinstance(getattr(bokeh.tile_providers, 'STAMEN_TERRAIN', ''), str):
        from bokeh.models import WMTSTileSource
        bokeh.tile_providers.STAMEN_TERRAIN = WMTSTileSource(url='')
    import bokeh.io
    bokeh.io.output_notebook = lambda *a, **kw: None
    import netCDF4
    if not hasattr(netCDF4.Dataset, 'adapted'):
        class Dataset(netCDF4.Dataset):
            # variables without missing values are plain arrays
            adapted = True

            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                self.set_always_mask(False)

        netCDF4.Dataset = Dataset
    import matplotlib
    matplotlib.use('Agg')
    matplotlib.rcParams['savefig.dpi'] = 20
    import matplotlib.axes
    import matplotlib.figure
    gca, hist = matplotlib.figure.Figure.gca, matplotlib.axes.Axes.hist
    if getattr(gca, 'adapted', False):
        return

    def new_gca(self, **kw):
        return self.add_subplot(**kw) if kw else gca(self)

    def new_hist(self, *a, **kw):
        if 'normed' in kw:
            kw['density'] = kw.pop('normed')
        return hist(self, *a, **kw)

    new_gca.adapted = True
    matplotlib.figure.Figure.gca = new_gca
    matplotlib.axes.Axes.hist = new_hist
    import matplotlib.pyplot as plt
    plain = plt.hist

    def plt_hist(*a, **kw):
        if 'normed' in kw:
            kw['density'] = kw.pop('normed')
        return plain(*a, **kw)

    plt.hist = plt_hist
    plt.show = lambda *a, **kw: None
