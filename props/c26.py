# -*- coding: utf-8 -*-
"""C26 recognition of versions, and the order of migration."""
import pyopenapi.utils as utils
from sx.capi import case
from .app import App, ROOT
from pyopenapi.migration.versions.v1_2 import objects as v1
from pyopenapi.migration.versions.v2_0 import objects as v2
from pyopenapi.migration.versions.v3_0_0 import objects as v3

ASSUMPTIONS = ['a document declares its version under one key; the declared version is a string or absent',
               'documents that take part in one application are of the same version',
               'asking for a lower version may fail or leave the object as it is']
KEYS = {'1.2': 'swaggerVersion', '2.0': 'swagger', '3.0.0': 'openapi'}
ROOTS = {'1.2': v1.ResourceListing, '2.0': v2.Swagger, '3.0.0': v3.OpenApi}
ALL = ['1.2', '2.0', '3.0.0']
INFO = {'title': 't', 'version': '1'}


def document(version):
    """(documents, document at the root)"""
    if version == '1.2':
        return {'http://h/d/r': {'swaggerVersion': '1.2', 'basePath': 'http://h', 'resourcePath': '/r', 'apis': [
            {'path': '/p', 'operations': [{'method': 'GET', 'nickname': 'n', 'type': 'void', 'parameters': []}]}]}}, \
            {'swaggerVersion': '1.2', 'apis': [{'path': '/r'}]}
    op = {'responses': {'200': {'description': 'd'}}}
    if version == '2.0':
        return {}, {'swagger': '2.0', 'info': INFO, 'paths': {'/p': {'get': op}}}
    return {}, {'openapi': '3.0.0', 'info': INFO, 'paths': {'/p': {'get': op}}}


@case(dict(text=5), [dict(text=6)])
def recognise(S):
    """the declared version decides how a document is loaded"""
    key = S.pick('key', ['swaggerVersion', 'swagger', 'openapi', 'version', 'none'])
    parser = S.pick('parser', [None, v2.Schema, v2.Swagger, v3.Schema, v3.OpenApi])
    spec = S.mkdict([('info', INFO), ('paths', {})])
    declared = None
    if key not in ('none', 'version'):
        declared = S.str('declared', S.B.text, alpha='.0123v')
        # a version under the key of another one is out of scope
        for v in ALL:
            S.assume(key == KEYS[v] or not S.same(declared, v))
    if key != 'none':
        spec[key] = declared if declared is not None else '3.0.0'
    S.check(S.same(utils.get_swagger_version(spec), declared), 'the declared version',
            lambda: '%r' % (utils.get_swagger_version(spec), ))
    version = None
    for v in ALL:
        if declared is not None and declared == v:
            version = v
    if version == '1.2':
        spec['apis'] = []
    app = App({ROOT: spec})
    got = S.trap(lambda: app.load_obj(ROOT, parser=parser))
    if version is not None:
        S.check(got[0] == 'ok', 'documents of a known version are loaded', lambda: '%r' % (got, ))
        S.check(type(got[1]) is ROOTS[version], 'as that version, whatever is asked for', lambda: '%r' % (got, ))
        S.check(app.original_spec_version == version, 'the original version', lambda: app.original_spec_version)
        S.check(got[1].__swagger_version__ == version, 'the version of the object')
        S.check(utils.get_swagger_version(got[1]) == version, 'the version an object declares')
        S.check(app.spec_obj_store.get(ROOT, '#', version) is got[1], 'kept as an object of that version')
        for v in ALL:
            S.check(v == version or app.spec_obj_store.get(ROOT, '#', v) is None, 'and of no other version')
        S.check(app.load_obj(ROOT, parser=parser) is got[1], 'and loaded once')
    elif declared is not None or parser is None:
        S.check(got[0] == 'err', 'unknown versions are rejected', lambda: '%r' % (got, ))
        S.check(app.original_spec_version == '' and app.current_spec_version is None, 'and change nothing')
    else:
        S.check(got[0] == 'ok' and type(got[1]) is parser, 'a part is loaded as what is asked for', lambda: '%r' % (got, ))
        S.check(app.spec_obj_store.get(ROOT, '#', parser.__swagger_version__) is got[1], 'kept as an object of its version')


class Recording(App):
    def __init__(self, *args, **kwargs):
        self.prepared = []
        super(Recording, self).__init__(*args, **kwargs)

    def prepare_obj(self, obj, jref):
        self.prepared.append((obj, jref))
        return obj


def steps(S, app, version, until):
    """what was prepared: once for each version, in order"""
    want = [v for v in ALL if ALL.index(version) <= ALL.index(v) <= ALL.index(until)]
    got = [o.__swagger_version__ for o, _ in app.prepared]
    S.check(got == want, 'each step once, in ascending order', lambda: '%r, expected %r' % (got, want))


@case(dict(text=4), [dict(text=5)])
def migrate(S):
    """steps from the version of an object to the one asked for"""
    version = S.pick('from', ALL)
    docs, root = document(version)
    docs[ROOT] = root
    app = Recording(docs)
    S.check(app.migratable_spec_versions == ALL, 'the versions that can be migrated to',
            lambda: '%r' % (app.migratable_spec_versions, ))
    obj = app.load_obj(ROOT)
    S.check(app.original_spec_version == version and app.current_spec_version is None, 'versions after loading')
    S.check(app.prepared == [], 'loading migrates nothing')
    if S.pick('known', [False, True]):
        target = S.pick('to', ALL)
    else:
        target = S.str('target', S.B.text, alpha='.0123v')
        for v in ALL:
            S.assume(not S.same(target, v))
        S.raises(lambda: app.migrate_obj(obj, ROOT, target), ValueError, 'unknown versions are rejected')
        S.check(app.current_spec_version is None and app.prepared == [], 'and change nothing')
        target = S.pick('then', [None] + ALL)
        if target is None:
            return
    if ALL.index(target) < ALL.index(version):
        got = S.trap(lambda: app.migrate_obj(obj, ROOT, target))
        S.check(got[0] == 'err' or got[1] is obj, 'never migrated to a lower version', lambda: '%r' % (got, ))
        S.check(obj.__swagger_version__ == version and type(obj) is ROOTS[version], 'the object stays what it is')
        S.check(app.current_spec_version is None or app.current_spec_version == version, 'the current version is not lower',
                lambda: app.current_spec_version)
        S.check(app.spec_obj_store.get(ROOT, '#', target) is None, 'nothing is kept under the lower version')
        S.check(app.original_spec_version == version, 'the original version')
        return
    one = app.migrate_obj(obj, ROOT, target)
    S.check(type(one) is ROOTS[target] and one.__swagger_version__ == target, 'an object of that version',
            lambda: '%r' % (one, ))
    S.check(utils.get_swagger_version(one) == target, 'which declares it')
    steps(S, app, version, target)
    S.check(app.original_spec_version == version, 'the original version', lambda: app.original_spec_version)
    S.check(app.current_spec_version == target, 'the current version', lambda: app.current_spec_version)
    S.check(app.spec_obj_store.get(ROOT, '#', version) is obj or target == version, 'the source object is kept')
    S.check(app.spec_obj_store.get(ROOT, '#', target) is one, 'the migrated object is kept')
    S.check(type(obj) is ROOTS[version], 'the source object stays what it is')
    for v in ALL:
        there = app.spec_obj_store.get(ROOT, '#', v)
        inside = ALL.index(version) <= ALL.index(v) <= ALL.index(target)
        S.check(type(there) is ROOTS[v] if inside else there is None, 'an object for every step', lambda: '%s: %r' % (v, there))
    if version != target:
        S.check(app.prepared[-1][0] is one, 'the result is the object of the last step')
    # on from there
    further = S.pick('further', [None] + ALL[ALL.index(target):])
    if further is not None:
        app.prepared[:] = []
        two = app.migrate_obj(one, ROOT, further)
        S.check(type(two) is ROOTS[further], 'an object of the further version', lambda: '%r' % (two, ))
        steps(S, app, target, further)
        S.check(app.original_spec_version == version and app.current_spec_version == further, 'versions after the second migration')


PARTS = {
    'Schema': ({'type': 'string'}, v2.Schema, v3.Schema),
    'Reference to a schema': ({'$ref': '#/x'}, v2.Reference, v3.Reference),
    'Parameter': ({'in': 'query', 'name': 'q', 'type': 'string'}, v2.Parameter, v3.Parameter),
    'body': ({'in': 'body', 'name': 'b', 'schema': {'type': 'string'}}, v2.Parameter, v3.RequestBody),
    'Response': ({'description': 'd'}, v2.Response, v3.Response),
    'PathItem': ({'get': {'responses': {'200': {'description': 'd'}}}}, v2.PathItem, v3.PathItem),
    'Info': (INFO, v2.Info, v3.Info),
    'License': ({'name': 'n'}, v2.License, v3.License),
}
OTHERS = [(v2.Contact, {'name': 'n'}), (v2.Operation, {'responses': {}}), (v2.Tag, {'name': 'n'}),
          (v2.SecurityScheme, {'type': 'basic'}), (v2.Header, {'type': 'string'}), (v2.XMLObject, {'name': 'n'})]


@case(dict(), [])
def parts(S):
    """parts without version are loaded and migrated as what is asked for"""
    kind = S.pick('kind', sorted(PARTS) + ['other'])
    jp = S.pick('at', ['#', '#/part', '#/0/part'])
    if kind == 'other':
        parser, spec = S.pick('parser', OTHERS)
        after = None
    else:
        spec, parser, after = PARTS[kind]
        new = S.pick('new', [False, True])
        if new:
            spec = {'$ref': '#/x'} if kind == 'Reference to a schema' else \
                {'content': {'a/b': {}}} if kind == 'body' else \
                {'in': 'query', 'name': 'q', 'schema': {'type': 'string'}} if kind == 'Parameter' else spec
            parser = after
    doc = {'#': spec, '#/part': {'part': spec, 'x': {'type': 'string'}}, '#/0/part': [{'part': spec}]}[jp]
    if kind == 'Reference to a schema':
        S.assume(jp == '#/part')
    app = Recording({ROOT: doc})
    jref = ROOT + jp if jp != '#' or S.flag('explicit') else ROOT
    obj = S.returns(lambda: app.load_obj(jref, parser=parser), 'the part is loaded')
    S.check(type(obj) is parser, 'as what was asked for')
    version = parser.__swagger_version__
    S.check(app.spec_obj_store.get(ROOT, jp, version) is obj, 'kept under its pointer')
    S.check(app.original_spec_version == '' and app.current_spec_version is None, 'the root is not loaded')
    if kind == 'Reference to a schema':
        return
    target = S.pick('to', ALL)
    got = S.trap(lambda: app.migrate_obj(obj, jref, target))
    if ALL.index(target) < ALL.index(version):
        S.check(got[0] == 'err' or got[1] is obj, 'never migrated to a lower version', lambda: '%r' % (got, ))
    elif target == version:
        S.check(got[0] == 'ok' and got[1] is obj, 'of that version already', lambda: '%r' % (got, ))
    elif after is None:
        S.check(got[0] == 'err' or got[1].__swagger_version__ == target, 'rejected, or of the new version', lambda: '%r' % (got, ))
        return
    else:
        S.check(got[0] == 'ok' and type(got[1]) is after, 'migrated to the same kind of object', lambda: '%r' % (got, ))
        S.check(app.spec_obj_store.get(ROOT, jp, target) is got[1], 'kept under its pointer')
        S.check(app.spec_obj_store.get(ROOT, jp, version) is obj, 'besides the object it was made of')
    if ALL.index(target) >= ALL.index(version):
        steps(S, app, version, target)
        S.check([j for _, j in app.prepared] == [ROOT + jp] * len(app.prepared), 'prepared under its reference',
                lambda: '%r' % ([j for _, j in app.prepared], ))
        S.check(app.original_spec_version == '' and app.current_spec_version is None, 'the versions are those of the root')


MOVED = {'definitions': ('components/schemas', v3.Schema, {'type': 'string'}),
         'parameters': ('components/parameters', v3.Parameter, {'in': 'query', 'name': 'q', 'type': 'string'}),
         'body': ('components/requestBodies', v3.RequestBody, {'in': 'body', 'name': 'b', 'schema': {'type': 'string'}}),
         'responses': ('components/responses', v3.Response, {'description': 'd'}),
         'paths': ('paths', v3.PathItem, {'get': {'responses': {'200': {'description': 'd'}}}})}


@case(dict(name=1), [dict(name=2)])
def moved(S):
    """parts migrated again after their document are kept under the pointer they have in the new version"""
    kind = S.pick('kind', sorted(MOVED))
    name = S.str('name', S.B.name, alpha='a/~')
    S.assume(kind != 'body' or name != '')
    if kind == 'paths':
        name = '/' + name
    to, after, spec = MOVED[kind]
    key = 'parameters' if kind == 'body' else kind
    root = {'swagger': '2.0', 'info': INFO, 'paths': {}}
    if S.flag('beside'):
        for k in MOVED:
            if k not in ('paths', 'body', key):
                root[k] = {'x': MOVED[k][2]}
    root[key] = S.mkdict([(name, spec)])
    token = name.replace('~', '~0').replace('/', '~1')
    jp, want = '#/%s/' % key + token, '#/%s/' % to + token
    app = Recording({ROOT: root})
    obj = app.load_obj(ROOT)
    early = S.flag('early')
    if not early:
        app.migrate_obj(obj, ROOT, '3.0.0')
    part = getattr(obj, key)[name]
    app.prepared[:] = []
    got = app.migrate_obj(part, ROOT + jp, '3.0.0')
    S.check(type(got) is after, 'migrated to the same kind of object', lambda: '%r' % (got, ))
    here = jp if early else want
    S.check(app.spec_obj_store.get(ROOT, here, '3.0.0') is got, 'kept under its new pointer')
    S.check([j for _, j in app.prepared] in ([ROOT + jp, ROOT + here], [ROOT + here]), 'prepared under its reference',
            lambda: '%r' % ([j for _, j in app.prepared], ))


NAMES = ['v2_0', 'v10_0', 'v3_0_0', 'v1_2', 'v3_0_10', 'v3_0_9', 'utils', 'xv2_1', '_v4_0']


class Packages(object):
    def __init__(self, mods):
        self.mods = mods

    def iter_modules(self, path=None, prefix=''):
        return [(None, prefix + n, p) for n, p in self.mods]


@case(dict(modules=3), [dict(modules=4)])
def supported(S):
    """versions found among modules: ascending"""
    n = S.length('n', 0, S.B.modules)
    is_pkg = S.pick('packages', [False, True, None])
    mods = []
    for i in range(n):
        name = S.pick('m%d' % i, [x for x in NAMES if x not in [m for m, _ in mods]])
        mods.append((name, S.pick('p%d' % i, [False, True])))
    want = sorted([tuple(int(x) for x in m[1:].split('_')) for m, p in mods if m.startswith('v') and p == bool(is_pkg)])
    kept = utils.pkgutil
    utils.pkgutil = Packages(mods)
    try:
        got = utils.get_supported_versions('anything') if is_pkg is None else utils.get_supported_versions('anything', is_pkg=is_pkg)
    finally:
        utils.pkgutil = kept
    S.check(got == ['.'.join([str(x) for x in v]) for v in want], 'the versions among the modules, in ascending order',
            lambda: '%r: %r' % (mods, got))
