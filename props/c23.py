# -*- coding: utf-8 -*-
"""C23 integer status codes, as yaml gives them."""
from sx.capi import case
from .app import App, ROOT

ASSUMPTIONS = ['codes are 100, 200, 404, 500, 599 and default, and any other name of at most two characters out of "0", "4", "X", "d"; a code is not given both as an integer and as a string',
               'one or two operations of up to three responses, each with content or a reference, to a shared response, to '
               'another response under a code, or into another document']
OTHER = 'http://h/d/b.json'


def doc(version, paths, shared=None):
    info = {'title': 't', 'version': '1'}
    if version == '2.0':
        return {'swagger': '2.0', 'info': info, 'paths': paths, 'definitions': {'X': {'type': 'string'}},
                'responses': {'R': {'description': 'r'}}}
    return {'openapi': '3.0.0', 'info': info, 'paths': paths,
            'components': {'schemas': {'X': {'type': 'string'}}, 'responses': {'R': {'description': 'r'}}}}


def body(version, ref, text):
    if version == '2.0':
        return {'description': text, 'schema': {'$ref': ref + '#/definitions/X'}}
    return {'description': text, 'content': {'a/b': {'schema': {'$ref': ref + '#/components/schemas/X'}}}}


def shared(version):
    return '#/responses/R' if version == '2.0' else '#/components/responses/R'


def migrate(docs, to):
    app = App(docs, yaml=True)
    return app, app.migrate_obj(app.load_obj(ROOT), ROOT, to)


def strings(S, x):
    if isinstance(x, dict):
        return S.mkdict([(k if isinstance(k, str) else str(k), strings(S, x[k])) for k in x])
    if isinstance(x, list):
        return [strings(S, v) for v in x]
    return x


def media(content):
    return content[list(content.keys())[0]]


def follow(r):
    return target(r) if type(r).__name__ == 'Reference' else r


def target(ref):
    return ref.get_attrs('migration').ref_obj


@case(dict(), [])
def twins(S):
    """integer codes give what their quoted form gives"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    code = S.pick('code', [100, 200, 404, 599])
    text = S.str('text', 1)
    first = S.mkdict([(code, body(version, '', text))])
    more = S.pick('more', ['none', 'default', 'quoted', 'integer', 'both', 'name'])
    if more in ('default', 'both'):
        first['default'] = {'$ref': shared(version)}
    if more in ('quoted', 'both'):
        S.assume(str(code) != '404')
        first['404'] = {'description': 'x'}
    if more in ('integer', 'both'):
        S.assume(code != 500)
        first[500] = S.pick('kind', [{'description': 'y'}, {'$ref': shared(version)}])
    if more == 'name':
        first[S.str('key', 2, alpha='04Xd')] = {'description': 'x'}
    paths = S.mkdict([('/p', S.mkdict([('get', S.mkdict([('operationId', 'a'), ('responses', first)]))]))])
    other = S.pick('other', ['none', 'same item', 'before', 'after']) if more != 'name' else 'none'
    if other != 'none':
        how = S.pick('how', ['content', 'shared', 'code'])
        code2 = S.pick('code2', [200, '200'])
        src = {'content': {'description': 'z'}, 'shared': {'$ref': shared(version)},
               'code': S.mkdict([('$ref', '#/paths/~1p/get/responses/' + str(code))])}[how]
        o = {'operationId': 'b', 'responses': {code2: src}}
        if other == 'same item':
            paths['/p']['put'] = o
        else:
            where = '/q' if other == 'after' else '/a'
            paths = S.mkdict(([('/p', paths['/p']), (where, {'put': o})]) if other == 'after' else
                             [(where, {'put': o}), ('/p', paths['/p'])])
    d = doc(version, paths)
    plain = strings(S, d)
    app, a = migrate({ROOT: d}, to)
    twin, b = migrate({ROOT: plain}, to)
    S.check(S.same(a.dump(), b.dump()), 'the result of the quoted form', lambda: '%r and %r' % (a.dump(), b.dump()))
    got = a.paths['/p'].get.responses
    S.check(len(got) == len(first), 'no response is lost', lambda: '%r of %r' % (list(got.keys()), first))
    for k in first:
        S.check(str(k) in got, 'no response is lost', lambda: '%r of %r' % (list(got.keys()), first))
    S.check(S.same(got[str(code)].description, text), 'the content is kept')
    schema = got[str(code)].schema if to == '2.0' else media(got[str(code)].content).schema
    S.check(S.same(target(schema).type, 'string'), 'references inside are resolved')
    S.check(a.resolve(['paths', '/p', 'get', 'responses', str(code)]) is got[str(code)], 'addressed by its quoted form')
    if other != 'none':
        item = a.paths['/p' if other == 'same item' else where]
        r = item.put.responses['200']
        if how != 'content':
            S.check(S.same(follow(r).description, 'r' if how == 'shared' else text), 'references are resolved')


@case(dict(), [])
def documents(S):
    """references into another document with integer codes"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    code, here = S.pick('code', [100, 200, 404, 599]), S.pick('here', [200, '200'])
    text = S.str('text', 1)
    there = S.mkdict([(code, body(version, S.pick('spelt', ['', 'b.json']), text))])
    if S.flag('more'):
        there['default'] = {'description': 'x'}
    d1 = doc(version, S.mkdict([('/q', S.mkdict([('get', S.mkdict([('responses', there)]))]))]))
    how = S.pick('how', ['response', 'item'])
    if how == 'response':
        d0 = doc(version, {'/p': {'get': {'responses': {here: S.mkdict([
            ('$ref', 'b.json#/paths/~1q/get/responses/' + str(code))])}}}})
    else:
        d0 = doc(version, {'/p': {'$ref': 'b.json#/paths/~1q', 'put': {'responses': {here: {'description': 'y'}}}}})
    app, a = migrate({ROOT: d0, OTHER: d1}, to)
    twin, b = migrate({ROOT: strings(S, d0), OTHER: strings(S, d1)}, to)
    S.check(S.same(a.dump(), b.dump()), 'the result of the quoted form', lambda: '%r and %r' % (a.dump(), b.dump()))
    if how == 'response':
        r = a.paths['/p'].get.responses['200']
        r = follow(r)
    else:
        final = a.paths['/p'].get_attrs('migration').final_obj
        S.check(S.same(list(final.put.responses.keys()), ['200']), 'no response is lost')
        r = final.get.responses[str(code)]
    S.check(S.same(r.description, text), 'the content is kept')


@case(dict(), [])
def elsewhere(S):
    """integer codes in callbacks, shared parts and path items on their own"""
    version, to = S.pick('version', [('2.0', '2.0'), ('2.0', '3.0.0'), ('3.0.0', '3.0.0')])
    code = S.pick('code', [404, 200])
    text = S.str('text', 1)
    responses = S.mkdict([(code, S.mkdict([('description', text)])), ('default', {'$ref': shared(version)})])
    op = S.mkdict([('operationId', 'a'), ('responses', responses)])
    where = S.pick('where', ['callback', 'shared', 'fragment'])
    d = doc(version, {})
    docs = {ROOT: d}
    if where == 'callback':
        S.assume(version == '3.0.0')
        d['paths'] = {'/p': {'post': {'responses': {}, 'callbacks': {'c': S.mkdict([('x', S.mkdict([('put', op)]))])}}}}
    elif where == 'shared':
        d['paths'] = {'/p': {'get': {'responses': {code: {
            '$ref': '#/%s/404' % ('responses' if version == '2.0' else 'components/responses')}}}}}
        (d['responses'] if version == '2.0' else d['components']['responses'])[404] = S.mkdict([('description', text)])
    else:
        d['paths'] = {'/p': {'$ref': 'b.json#/items/1', 'put': {'responses': {}}}}
        docs[OTHER] = S.mkdict([('items', S.mkdict([(1, S.mkdict([('get', S.mkdict([('responses', S.mkdict([
            (code, S.mkdict([('description', text)]))]))]))]))]))])
    app, a = migrate(docs, to)
    twin, b = migrate(dict((k, strings(S, docs[k])) for k in docs), to)
    S.check(S.same(a.dump(), b.dump()), 'the result of the quoted form', lambda: '%r and %r' % (a.dump(), b.dump()))
    p = a.paths['/p']
    if where == 'callback':
        r = p.post.callbacks['c']['x'].put.responses
        S.check(S.same(follow(r['default']).description, 'r'), 'references are resolved')
        r = r[str(code)]
    elif where == 'shared':
        r = p.get.responses[str(code)]
    else:
        r = p.get_attrs('migration').final_obj.get.responses[str(code)]
    S.check(S.same(follow(r).description, text), 'no response is lost')
