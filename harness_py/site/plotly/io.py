import json

from .graph_objects import Figure


def from_json(value, output_type="Figure", skip_invalid=False, engine=None):
    return Figure(json.loads(value))


def to_json(fig, *args, **more):
    return fig.to_json()


def write_image(fig, file, format=None, scale=None, *args, **more):
    fig.write_image(file, format, scale)


def show(fig, *args, **more):
    pass
