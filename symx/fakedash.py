"""Stand-in for dash and dash_cytoscape: records the layout and the callbacks, so the checks can fire them."""
import json as _json
import types

from . import core


class PreventUpdate(Exception):
    pass


class Dependency(object):
    def __init__(self, component_id=None, component_property=None, *a, **k):
        self.id, self.prop = component_id, component_property

    def __str__(self):
        return '%s.%s' % (self.id, self.prop)


class Input(Dependency):
    pass


class State(Dependency):
    pass


class Output(Dependency):
    pass


class Component(object):
    def __init__(self, *a, **k):
        self.args = list(a)
        self.props = dict(k)
        self.__dict__.update({x: y for x, y in k.items() if x not in ('args', 'props')})

    def walk(self):
        yield self
        stack = self.args + list(self.props.values())
        while stack:
            x = stack.pop(0)
            if isinstance(x, Component):
                for y in x.walk():
                    yield y
            elif type(x) in (list, tuple):
                stack = list(x) + stack


class Components(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        t = type(name, (Component,), {})
        setattr(self, name, t)
        return t


def _flat(x, out):
    if isinstance(x, Dependency):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _flat(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _flat(y, out)
    return out


class Context(object):
    triggered = [{'prop_id': '.', 'value': None}]
    inputs = {}
    states = {}

    @property
    def triggered_id(self):
        p = self.triggered[0]['prop_id']
        return p.rsplit('.', 1)[0] or None

    @property
    def triggered_prop_ids(self):
        return {t['prop_id']: t['prop_id'].rsplit('.', 1)[0] for t in self.triggered}


CTX = Context()


class Dash(object):
    def __init__(self, *a, **k):
        self.callbacks = []
        self.layout = None
        self.ran = 0

    def callback(self, *a, **k):
        deps = _flat(list(a) + [v for x, v in k.items() if x in ('output', 'inputs', 'state')], [])
        outs = [str(d) for d in deps if isinstance(d, Output)]
        ins = [str(d) for d in deps if not isinstance(d, Output)]

        def deco(f):
            self.callbacks.append((outs, ins, f))
            return f
        return deco

    def run(self, *a, **k):
        self.ran += 1

    def fire(self, output, trigger, value, **inputs):
        """Call the callback behind `output` as dash would after `trigger` changed to value.  Returns the value for that output."""
        inputs = dict(inputs)
        hit = [x for x in self.callbacks if output in x[0]]
        if len(hit) != 1:
            raise LookupError('no callback for %s' % output)
        outs, ins, f = hit[0]
        vals = {}
        for i in ins:
            vals[i] = inputs.get(i.replace('-', '_').replace('.', '__'))
        if trigger:
            vals[trigger] = value
        CTX.inputs = dict(vals)
        CTX.triggered = [{'prop_id': trigger or '.', 'value': value}]
        r = f(*[vals[i] for i in ins])
        if len(outs) > 1:
            return list(r)[outs.index(output)]
        return r


def _freeze(x):
    if type(x) in (core.SymNum, core.SymStr):
        return str(x) if type(x) is core.SymNum else core.ctx().stoken(x)
    if isinstance(x, dict):
        return {_freeze(k): _freeze(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return [_freeze(v) for v in x]
    return x


def _thaw(x):
    if type(x) is str and '\u27e6' in x:
        y = core.ctx().untoken(x)
        return x if y is None else y
    if isinstance(x, dict):
        return {k: _thaw(v) for k, v in x.items()}
    if type(x) is list:
        return [_thaw(v) for v in x]
    return x


def modules(symbolic):
    """name -> module, for the import hook."""
    dash = types.ModuleType('dash')
    dash.Dash = Dash
    dash.callback_context = dash.ctx = CTX
    dash.Input, dash.Output, dash.State = Input, Output, State
    dash.html, dash.dcc = Components('dash.html'), Components('dash.dcc')
    dash.dependencies = types.ModuleType('dash.dependencies')
    dash.exceptions = types.ModuleType('dash.exceptions')
    dash.dependencies.Input, dash.dependencies.Output, dash.dependencies.State = Input, Output, State
    dash.exceptions.PreventUpdate = PreventUpdate
    dash.no_update = object()
    out = {'dash': dash, 'dash.dependencies': dash.dependencies, 'dash.exceptions': dash.exceptions, 'dash.html': dash.html, 'dash.dcc': dash.dcc,
           'dash_cytoscape': Components('dash_cytoscape'), 'dash_core_components': dash.dcc, 'dash_html_components': dash.html}
    if symbolic:
        j = types.ModuleType('json')
        for k in dir(_json):
            if not k.startswith('__'):
                setattr(j, k, getattr(_json, k))
        j.dumps = lambda x, *a, **k: _json.dumps(_freeze(x), *a, **k)
        j.loads = lambda s, *a, **k: _thaw(_json.loads(s, *a, **k))
        j.real = _json
        out['json'] = j
    return out
