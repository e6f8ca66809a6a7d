"""Stand-in for plotly: keeps what a figure was made from and what was asked of it."""
import json


class Layout(dict):
    """Attributes that are not set are None, as in plotly."""

    def __getattr__(self, name):
        return self.get(name)

    def __getitem__(self, name):
        return self.get(name)

    def __setattr__(self, name, value):
        self[name] = value


class Figure:
    def __init__(self, data=None, layout=None, frames=None, skip_invalid=False, **more):
        if isinstance(data, Figure):
            data = data.d
        self.d = data if isinstance(data, dict) else {"data": list(data or ()), "layout": dict(layout or {})}
        self.style, self.extra = None, None      # asked for after the figure was made
        self.images = []
        self.layout = Layout(self.d.get("layout", {}))

    @property
    def updates(self):
        return [(self.style, self.extra, None)]

    @property
    def data(self):
        return tuple(self.d.get("data", ()))

    def plotly_restyle(self, restyle_data, trace_indexes=None, **more):
        self.style = dict(self.style or {}, **restyle_data)

    def plotly_relayout(self, relayout_data, **more):
        self.extra = dict(self.extra or {}, **relayout_data)
        self.layout.update(relayout_data)

    def plotly_update(self, restyle_data=None, relayout_data=None, trace_indexes=None, **more):
        if restyle_data is not None:
            self.plotly_restyle(restyle_data)
        if relayout_data is not None:
            self.plotly_relayout(relayout_data)

    def update_layout(self, dict1=None, overwrite=False, **more):
        if dict1 is not None or more:
            self.plotly_relayout(dict(dict1 or {}, **more))
        return self

    def update_traces(self, patch=None, selector=None, row=None, col=None, secondary_y=None, overwrite=False, **more):
        if patch is not None or more:
            self.plotly_restyle(dict(patch or {}, **more))
        return self

    def for_each_trace(self, fn, **more):
        for t in self.d.get("data", ()):
            fn(t)
        return self

    def add_trace(self, trace, **more):
        self.d["data"].append(trace)
        return self

    def add_traces(self, data, **more):
        self.d["data"].extend(data)
        return self

    def to_plotly_json(self):
        return json.loads(json.dumps(self.d))

    to_dict = to_plotly_json

    def to_json(self, *args, **more):
        return json.dumps(self.d)

    def show(self, *args, **more):
        pass

    def write_image(self, file, format=None, scale=None, width=None, height=None, *args, **more):
        self.images.append((str(file), 1 if scale is None else scale))
