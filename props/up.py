# -*- coding: utf-8 -*-
"""What a 2.0 object means in 3.0.0, over plain dictionaries, written from the two specifications (independent of the
converters under test)."""
KEYWORDS = ('type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems '
            'minItems uniqueItems enum multipleOf').split()
SCHEMA = KEYWORDS + 'title maxProperties minProperties description readOnly example'.split()
MOVED = [('#/definitions/', '#/components/schemas/'), ('#/responses/', '#/components/responses/'),
         ('#/parameters/', '#/components/parameters/')]


def ref(r):
    for a, b in MOVED:
        if r[:len(a)] == a:
            return b + r[len(a):]
    return r


def schema(S, s):
    if '$ref' in s:
        return S.mkdict([('$ref', ref(s['$ref']))])
    out = S.mkdict([(k, s[k]) for k in SCHEMA if k in s])
    if 'type' in s and s['type'] == 'file':
        out['type'], out['format'] = 'string', 'binary'
    if 'required' in s and len(s['required']):
        out['required'] = s['required']
    if 'items' in s:
        out['items'] = schema(S, s['items'])
    if 'allOf' in s:
        out['allOf'] = [schema(S, x) for x in s['allOf']]
    if 'properties' in s:
        out['properties'] = S.mkdict([(k, schema(S, s['properties'][k])) for k in s['properties']])
    if 'additionalProperties' in s:
        a = s['additionalProperties']
        if a is False:
            out['additionalProperties'] = False
        elif a is not True:
            out['additionalProperties'] = schema(S, a)
    if 'discriminator' in s and s['discriminator'] != '':
        out['discriminator'] = S.mkdict([('propertyName', s['discriminator'])])
    if 'xml' in s:
        out['xml'] = s['xml']
    if 'externalDocs' in s:
        out['externalDocs'] = s['externalDocs']
    return out


def items(S, s):
    out = S.mkdict([(k, s[k]) for k in KEYWORDS if k in s])
    if 'items' in s:
        out['items'] = items(S, s['items'])
    return out


def typed(S, s):
    """the type keywords of a parameter or header, as a schema"""
    return items(S, s)


# (collection format, location) -> (style, explode); explode None: the default of the style, ie. either is not stated
# or has the value given as third
STYLES = {
    ('csv', 'query'): ('form', False), ('csv', 'path'): ('simple', None), ('csv', 'header'): ('simple', None),
    ('ssv', 'query'): ('spaceDelimited', None), ('pipes', 'query'): ('pipeDelimited', None),
    ('multi', 'query'): ('form', True),
}
