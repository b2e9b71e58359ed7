"""Applies the visualizer's norms: cases as json on stdin, results as json on stdout"""
import json
import sys

import numpy as np

sys.path.insert(0, sys.argv[1])
from visualizing import helpers  # noqa: E402

out = []
for kind, kwargs, values in json.load(sys.stdin):
    try:
        out.append(["ok", np.asarray(getattr(helpers, kind)(**kwargs)(np.array(values))).tolist()])
    except ValueError as e:
        out.append(["refused", str(e)])
json.dump(out, sys.stdout)
