"""Runs the file-to-file tools of the package on symbolic or concrete records.

Symbolic run: reading the input file yields a frame with symbolic columns and
writing the output file hands the frame over.  Replay: real files in a
scratch directory.
"""
import contextlib
import copy
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from symx import explore as X


@contextlib.contextmanager
def _files(frames, sink):
    rc, tc = pd.read_csv, pd.DataFrame.to_csv
    pd.read_csv = lambda path, *a, **k: frames[path].copy()

    def to_csv(self, path=None, *a, **k):
        sink.append((path, self.copy(), k))
    pd.DataFrame.to_csv = to_csv
    try:
        yield
    finally:
        pd.read_csv, pd.DataFrame.to_csv = rc, tc


def run(s, mod, cls, method, params, columns, in_key='agg_stat_input', out_key='agg_stat_output', extra=None, again=None):
    """-> (output frame or Raised); again: a second run with these parameters, onto the same output file"""
    params = copy.deepcopy(params)
    if s.symbolic:
        m = s.module(mod)
        frames = {'/nonexistent/in': s.frame(columns)}
        sink = []
        params[in_key], params[out_key] = '/nonexistent/in', '/nonexistent/out'
        for k, c in (extra or {}).items():
            params[k] = '/nonexistent/' + k
            frames[params[k]] = s.frame(c)

        def go():
            with _files(frames, sink):
                o = getattr(m, cls)(params)
                getattr(o, method)()
                if again is not None:
                    o = getattr(m, cls)(dict(copy.deepcopy(params), **again))
                    getattr(o, method)()
            content = []
            for _, f, k in sink:
                if k.get('mode', 'w') == 'w':
                    content = []
                elif k.get('header', True):
                    content.append(pd.DataFrame([[c for c in f.columns]], columns=f.columns))
                content.append(f)
            return (content[0] if len(content) == 1 else pd.concat(content, ignore_index=True)) if sink else None
        return s.call(go)
    d = tempfile.mkdtemp(prefix='symx')
    try:
        params[in_key], params[out_key] = d + '/in.data', d + '/out.data'
        s.frame(columns).to_csv(params[in_key], sep='\t', na_rep='NA', index=False)
        for k, c in (extra or {}).items():
            params[k] = f'{d}/{k}'
            s.frame(c).to_csv(params[k], sep='\t', na_rep='NA', index=False)
        m = s.module(mod)

        def go():
            o = getattr(m, cls)(params)
            getattr(o, method)()
            if again is not None:
                o = getattr(m, cls)(dict(copy.deepcopy(params), **again))
                getattr(o, method)()
            return pd.read_csv(params[out_key], sep='\t', na_values=['NA'], keep_default_na=False)
        return s.call(go)
    finally:
        shutil.rmtree(d)


def cell(v):
    """Output cell: None for missing."""
    if v is None:
        return None
    if isinstance(v, (float, np.floating)) and v != v:
        return None
    return v


def params(line_type, stats, series, derived=(), indy='fcst_lead', indy_vals=(), fcst='TMP', **kw):
    p = {'line_type': line_type, 'list_stat_1': list(stats), 'list_stat_2': [], 'series_val_1': {k: list(v) for k, v in series.items()},
         'series_val_2': {}, 'derived_series_1': [list(d) for d in derived], 'derived_series_2': [], 'indy_var': indy,
         'indy_vals': list(indy_vals), 'fcst_var_val_1': {fcst: list(stats)}, 'fcst_var_val_2': {}, 'num_iterations': 1, 'num_threads': -1,
         'random_seed': None, 'method': 'perc', 'alpha': 0.05, 'event_equal': 'False', 'fixed_vars_vals_input': {}}
    p.update(kw)
    return p
