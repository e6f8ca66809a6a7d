from . import graph_objects, io
