# -*- coding: utf-8 -*-
"""The objects of Swagger 1.2, Swagger 2.0 and OpenAPI 3.0.0, written down from the specifications (independent of the
declarations under test).

kind -> (fields, children, required, aliases, defaults)
children: 'Kind' | ('map', c) | ('list', c) | ('ref', 'Kind') object or reference | ('bool', c) boolean or c | 'str'
"""


class Kind(object):
    def __init__(self, fields='', children=None, required='', alias=None, default=None):
        self.fields = fields.split()
        self.children = children or {}
        self.required = required.split()
        self.alias = alias or {}
        self.default = default or {}


def al(text):
    out = {}
    for pair in text.split():
        a, b = pair.split('=')
        out[a] = b
    return out


def m(c):
    return ('map', c)


def l(c):
    return ('list', c)


def r(k):
    return ('ref', k)


SEC = l(m(l('str')))
BASE = 'type format default maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength maxItems minItems ' \
       'multipleOf enum pattern uniqueItems'
BASE_AL = 'type_=type format_=format exclusive_maximum=exclusiveMaximum exclusive_minimum=exclusiveMinimum ' \
          'max_length=maxLength min_length=minLength max_items=maxItems min_items=minItems multiple_of=multipleOf ' \
          'unique_items=uniqueItems '

V20 = {
    'Reference': Kind('$ref', required='$ref', alias=al('ref=$ref')),
    'XMLObject': Kind('name namespace prefix attribute wrapped'),
    'ExternalDocumentation': Kind('description url'),
    'Tag': Kind('name description', {'externalDocs': 'ExternalDocumentation'}, alias=al('external_docs=externalDocs')),
    'Items': Kind(BASE + ' collectionFormat', {'items': 'Items'}, default={'collectionFormat': 'csv'},
                  alias=al(BASE_AL + 'collection_format=collectionFormat')),
    'Schema': Kind(BASE + ' $ref maxProperties minProperties title description discriminator readOnly example required',
                   {'xml': 'XMLObject', 'externalDocs': 'ExternalDocumentation', 'items': 'Schema', 'allOf': l('Schema'),
                    'properties': m('Schema'), 'additionalProperties': ('bool', 'Schema')},
                   alias=al(BASE_AL + 'ref=$ref max_properties=maxProperties min_properties=minProperties read_only=readOnly '
                            'external_docs=externalDocs all_of=allOf additional_properties=additionalProperties'),
                   default={'required': []}),
    'Contact': Kind('name url email'),
    'License': Kind('name url'),
    'Info': Kind('version title description termsOfService', {'contact': 'Contact', 'license': 'License'},
                 alias=al('terms_of_service=termsOfService')),
    'Parameter': Kind(BASE + ' name in required collectionFormat description allowEmptyValue',
                      {'schema': 'Schema', 'items': 'Items'}, default={'collectionFormat': 'csv'},
                      alias=al(BASE_AL + 'in_=in collection_format=collectionFormat allow_empty_value=allowEmptyValue')),
    'Header': Kind(BASE + ' collectionFormat description', {'items': 'Items'}, default={'collectionFormat': 'csv'},
                   alias=al(BASE_AL + 'collection_format=collectionFormat')),
    'Response': Kind('description examples', {'schema': 'Schema', 'headers': m('Header')}),
    'Operation': Kind('operationId deprecated description summary',
                      {'tags': l('str'), 'consumes': l('str'), 'produces': l('str'), 'schemes': l('str'),
                       'parameters': l(r('Parameter')), 'responses': m(r('Response')), 'security': SEC,
                       'externalDocs': 'ExternalDocumentation'},
                      alias=al('operation_id=operationId external_docs=externalDocs')),
    'PathItem': Kind('$ref', dict([(x, 'Operation') for x in 'get put post delete options head patch'.split()],
                                  parameters=l(r('Parameter'))), alias=al('ref=$ref')),
    'SecurityScheme': Kind('type description name in flow authorizationUrl tokenUrl', {'scopes': m('str')},
                           alias=al('type_=type in_=in')),
    'Swagger': Kind('swagger host basePath',
                    {'info': 'Info', 'schemes': l('str'), 'consumes': l('str'), 'produces': l('str'),
                     'paths': m('PathItem'), 'definitions': m('Schema'), 'parameters': m('Parameter'),
                     'responses': m('Response'), 'securityDefinitions': m('SecurityScheme'), 'security': SEC,
                     'tags': l('Tag'), 'externalDocs': 'ExternalDocumentation'},
                    alias=al('base_path=basePath security_definitions=securityDefinitions external_docs=externalDocs')),
}

DT = 'type $ref format defaultValue enum minimum maximum uniqueItems'
DT_AL = 'type_=type ref=$ref format_=format default_value=defaultValue unique_items=uniqueItems '
V12 = {
    'Items': Kind('$ref type format', alias=al('ref=$ref type_=type format_=format')),
    'Scope': Kind('scope description', required='scope'),
    'LoginEndpoint': Kind('url', required='url'),
    'Implicit': Kind('tokenName', {'loginEndpoint': 'LoginEndpoint'}, required='loginEndpoint',
                     alias=al('token_name=tokenName login_endpoint=loginEndpoint')),
    'TokenRequestEndpoint': Kind('url clientIdName clientSecretName', required='url',
                                 alias=al('client_id_name=clientIdName client_secret_name=clientSecretName')),
    'TokenEndpoint': Kind('url tokenName', required='url', alias=al('token_name=tokenName')),
    'AuthorizationCode': Kind('', {'tokenRequestEndpoint': 'TokenRequestEndpoint', 'tokenEndpoint': 'TokenEndpoint'},
                              alias=al('token_request_endpoint=tokenRequestEndpoint token_endpoint=tokenEndpoint')),
    'GrantTypes': Kind('', {'implicit': 'Implicit', 'authorization_code': 'AuthorizationCode'}),
    'Authorizations': Kind('scope description'),
    'Authorization': Kind('type passAs keyname', {'scopes': l('Scope'), 'grantTypes': 'GrantTypes'},
                          alias=al('type_=type pass_as=passAs grant_types=grantTypes')),
    'ResponseMessage': Kind('code message responseModel', required='code message',
                            alias=al('response_model=responseModel')),
    'Parameter': Kind(DT + ' paramType name description required allowMultiple', {'items': 'Items'},
                      required='paramType name',
                      alias=al(DT_AL + 'param_type=paramType allow_multiple=allowMultiple')),
    'Operation': Kind(DT + ' method summary notes nickname produces consumes deprecated',
                      {'items': 'Items', 'authorizations': m(l('Authorizations')), 'parameters': l('Parameter'),
                       'responseMessages': l('ResponseMessage')}, required='method nickname',
                      alias=al(DT_AL + 'response_messages=responseMessages')),
    'Api': Kind('path description', {'operations': l('Operation')}, required='path'),
    'Property': Kind(DT + ' description', {'items': 'Items'}, alias=al(DT_AL)),
    'Model': Kind('id description required subTypes discriminator', {'properties': m('Property')},
                  required='id properties', alias=al('id_=id sub_types=subTypes')),
    'ApiDeclaration': Kind('swaggerVersion apiVersion basePath resourcePath produces consumes',
                           {'apis': l('Api'), 'models': m('Model'), 'authorizations': m(l('Authorizations'))},
                           required='swaggerVersion basePath apis',
                           alias=al('swagger_version=swaggerVersion api_version=apiVersion base_path=basePath '
                                    'resource_path=resourcePath')),
    'Info': Kind('title description termsOfServiceUrl contact license licenseUrl', required='title description',
                 alias=al('terms_of_service_url=termsOfServiceUrl license_url=licenseUrl')),
    'ResourceInListing': Kind('path description'),
    'ResourceListing': Kind('swaggerVersion apiVersion',
                            {'apis': l('ResourceInListing'), 'info': 'Info', 'authorizations': m('Authorization')},
                            required='swaggerVersion',
                            alias=al('swagger_version=swaggerVersion api_version=apiVersion')),
}

EX = {'examples': m(r('Example')), 'schema': r('Schema'), 'content': m('MediaType')}
V30 = {
    'Reference': Kind('$ref', required='$ref', alias=al('ref=$ref')),
    'Contact': Kind('name url email'),
    'License': Kind('name url', required='name'),
    'Info': Kind('title description termsOfService version', {'contact': 'Contact', 'license': 'License'},
                 required='title version', alias=al('terms_of_service=termsOfService')),
    'ServerVariable': Kind('default description', {'enum': l('str')}, required='default', alias=al('enum_=enum')),
    'Server': Kind('url description', {'variables': m('ServerVariable')}, required='url'),
    'Example': Kind('summary description value externalValue', alias=al('external_value=externalValue')),
    'XML_': Kind('name namespace prefix attribute wrapped'),
    'ExternalDocumentation': Kind('description url', required='url'),
    'Discriminator': Kind('propertyName', {'mapping': m('str')}, required='propertyName',
                          alias=al('property_name=propertyName')),
    'Schema': Kind('title multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern '
                   'maxItems minItems uniqueItems maxProperties minProperties required enum type description format '
                   'default nullable readOnly writeOnly example deprecated',
                   {'discriminator': 'Discriminator', 'xml': 'XML_', 'externalDocs': 'ExternalDocumentation',
                    'allOf': l(r('Schema')), 'oneOf': l(r('Schema')), 'anyOf': l(r('Schema')), 'not': r('Schema'),
                    'items': r('Schema'), 'properties': m(r('Schema')), 'additionalProperties': ('bool', r('Schema'))},
                   alias=al('multiple_of=multipleOf exclusive_maximum=exclusiveMaximum '
                            'exclusive_minimum=exclusiveMinimum max_length=maxLength min_length=minLength '
                            'max_items=maxItems min_items=minItems unique_items=uniqueItems '
                            'max_properties=maxProperties min_properties=minProperties enum_=enum type_=type '
                            'format_=format read_only=readOnly write_only=writeOnly xml_=xml '
                            'external_docs=externalDocs all_of=allOf one_of=oneOf any_of=anyOf not_=not '
                            'additional_properties=additionalProperties')),
    'Parameter': Kind('name in description required deprecated allowEmptyValue style explode allowReserved example',
                      EX, required='name in',
                      alias=al('in_=in allow_empty_value=allowEmptyValue allow_reserved=allowReserved')),
    'Header': Kind('description required deprecated allowEmptyValue style explode allowReserved example', EX,
                   alias=al('allow_empty_value=allowEmptyValue allow_reserved=allowReserved')),
    'Encoding': Kind('contentType style explode allowReserved', {'headers': m(r('Header'))},
                     alias=al('content_type=contentType allow_reserved=allowReserved')),
    'MediaType': Kind('example', {'schema': r('Schema'), 'examples': m(r('Example')), 'encoding': m('Encoding')}),
    'RequestBody': Kind('description required', {'content': m('MediaType')}, required='content'),
    'Link': Kind('operationRef operationId parameters requestBody description', {'server': 'Server'},
                 alias=al('operation_ref=operationRef operation_id=operationId request_body=requestBody')),
    'Response': Kind('description', {'headers': m(r('Header')), 'content': m('MediaType'), 'links': m(r('Link'))},
                     required='description'),
    'OAuthFlow': Kind('authorizationUrl tokenUrl refreshUrl', {'scopes': m('str')}, required='scopes',
                      alias=al('authorization_url=authorizationUrl token_url=tokenUrl refresh_url=refreshUrl')),
    'OAuthFlows': Kind('', dict((x, 'OAuthFlow') for x in
                                ('implicit', 'password', 'clientCredentials', 'authorizationCode')),
                       alias=al('client_credentials=clientCredentials authorization_code=authorizationCode')),
    'SecurityScheme': Kind('type description name in scheme bearerFormat openIdConnectUrl', {'flows': 'OAuthFlows'},
                           required='type', alias=al('type_=type in_=in bearer_format=bearerFormat '
                                                     'openid_connect_url=openIdConnectUrl')),
    'Operation': Kind('summary description operationId deprecated',
                      {'externalDocs': 'ExternalDocumentation', 'tags': l('str'), 'parameters': l(r('Parameter')),
                       'requestBody': r('RequestBody'), 'responses': m(r('Response')), 'security': SEC,
                       'servers': l('Server'), 'callbacks': m(r('Callback'))},
                      alias=al('external_docs=externalDocs operation_id=operationId request_body=requestBody')),
    'PathItem': Kind('$ref summary description',
                     dict([(x, 'Operation') for x in 'get put post delete options head patch trace'.split()],
                          servers=l('Server'), parameters=l(r('Parameter'))), alias=al('ref=$ref')),
    'Components': Kind('', {'schemas': m(r('Schema')), 'responses': m(r('Response')), 'parameters': m(r('Parameter')),
                            'examples': m(r('Example')), 'requestBodies': m(r('RequestBody')),
                            'headers': m(r('Header')), 'securitySchemes': m(r('SecurityScheme')),
                            'links': m(r('Link')), 'callbacks': m(r('Callback'))},
                       alias=al('request_bodies=requestBodies security_schemes=securitySchemes')),
    'Tag': Kind('name description', {'externalDocs': 'ExternalDocumentation'}, required='name',
                alias=al('external_docs=externalDocs')),
    'OpenApi': Kind('openapi', {'info': 'Info', 'servers': l('Server'), 'paths': m('PathItem'),
                                'components': 'Components', 'security': SEC, 'tags': l('Tag'),
                                'externalDocs': 'ExternalDocumentation'}, alias=al('external_docs=externalDocs')),
}
# a callback is a map from runtime expressions to path items
MAPS = {'Callback': m('PathItem')}
