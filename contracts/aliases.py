"""documented snake-case aliases: version -> class -> {alias: keyword}, and defaults of absent keywords"""

ALIASES = {'1.2': {'ApiDeclaration': {'api_version': 'apiVersion',
                            'base_path': 'basePath',
                            'resource_path': 'resourcePath',
                            'swagger_version': 'swaggerVersion'},
         'Authorization': {'grant_types': 'grantTypes', 'pass_as': 'passAs', 'type_': 'type'},
         'AuthorizationCode': {'token_endpoint': 'tokenEndpoint', 'token_request_endpoint': 'tokenRequestEndpoint'},
         'Implicit': {'login_endpoint': 'loginEndpoint', 'token_name': 'tokenName'},
         'Info': {'license_url': 'licenseUrl', 'terms_of_service_url': 'termsOfServiceUrl'},
         'Items': {'format_': 'format', 'ref': '$ref', 'type_': 'type'},
         'Model': {'id_': 'id', 'sub_types': 'subTypes'},
         'Operation': {'default_value': 'defaultValue',
                       'format_': 'format',
                       'ref': '$ref',
                       'response_messages': 'responseMessages',
                       'type_': 'type',
                       'unique_items': 'uniqueItems'},
         'Parameter': {'allow_multiple': 'allowMultiple',
                       'default_value': 'defaultValue',
                       'format_': 'format',
                       'param_type': 'paramType',
                       'ref': '$ref',
                       'type_': 'type',
                       'unique_items': 'uniqueItems'},
         'Property': {'default_value': 'defaultValue',
                      'format_': 'format',
                      'ref': '$ref',
                      'type_': 'type',
                      'unique_items': 'uniqueItems'},
         'ResourceListing': {'api_version': 'apiVersion', 'swagger_version': 'swaggerVersion'},
         'ResponseMessage': {'response_model': 'responseModel'},
         'TokenEndpoint': {'token_name': 'tokenName'},
         'TokenRequestEndpoint': {'client_id_name': 'clientIdName', 'client_secret_name': 'clientSecretName'}},
 '2.0': {'Header': {'collection_format': 'collectionFormat'},
         'Info': {'terms_of_service': 'termsOfService'},
         'Operation': {'external_docs': 'externalDocs', 'operation_id': 'operationId'},
         'Parameter': {'allow_empty_value': 'allowEmptyValue', 'collection_format': 'collectionFormat', 'in_': 'in'},
         'PathItem': {'ref': '$ref'},
         'Reference': {'ref': '$ref'},
         'Schema': {'additional_properties': 'additionalProperties',
                    'all_of': 'allOf',
                    'external_docs': 'externalDocs',
                    'max_properties': 'maxProperties',
                    'min_properties': 'minProperties',
                    'read_only': 'readOnly',
                    'ref': '$ref'},
         'SecurityScheme': {'in_': 'in', 'type_': 'type'},
         'Swagger': {'base_path': 'basePath',
                     'external_docs': 'externalDocs',
                     'security_definitions': 'securityDefinitions'}},
 '3.0.0': {'Components': {'request_bodies': 'requestBodies', 'security_schemes': 'securitySchemes'},
           'Discriminator': {'property_name': 'propertyName'},
           'Encoding': {'allow_reserved': 'allowReserved', 'content_type': 'contentType'},
           'Example': {'external_value': 'externalValue'},
           'Header': {'allow_empty_value': 'allowEmptyValue', 'allow_reserved': 'allowReserved'},
           'Info': {'terms_of_service': 'termsOfService'},
           'Link': {'operation_id': 'operationId', 'operation_ref': 'operationRef', 'request_body': 'requestBody'},
           'OAuthFlow': {'authorization_url': 'authorizationUrl',
                         'refresh_url': 'refreshUrl',
                         'token_url': 'tokenUrl'},
           'OAuthFlows': {'authorization_code': 'authorizationCode', 'client_credentials': 'clientCredentials'},
           'OpenApi': {'external_docs': 'externalDocs'},
           'Operation': {'external_docs': 'externalDocs',
                         'operation_id': 'operationId',
                         'request_body': 'requestBody'},
           'Parameter': {'allow_empty_value': 'allowEmptyValue', 'allow_reserved': 'allowReserved', 'in_': 'in'},
           'PathItem': {'ref': '$ref'},
           'Reference': {'ref': '$ref'},
           'Schema': {'additional_properties': 'additionalProperties',
                      'all_of': 'allOf',
                      'any_of': 'anyOf',
                      'enum_': 'enum',
                      'exclusive_maximum': 'exclusiveMaximum',
                      'exclusive_minimum': 'exclusiveMinimum',
                      'external_docs': 'externalDocs',
                      'format_': 'format',
                      'max_items': 'maxItems',
                      'max_length': 'maxLength',
                      'max_properties': 'maxProperties',
                      'min_items': 'minItems',
                      'min_length': 'minLength',
                      'min_properties': 'minProperties',
                      'multiple_of': 'multipleOf',
                      'not_': 'not',
                      'one_of': 'oneOf',
                      'read_only': 'readOnly',
                      'type_': 'type',
                      'unique_items': 'uniqueItems',
                      'write_only': 'writeOnly',
                      'xml_': 'xml'},
           'SecurityScheme': {'bearer_format': 'bearerFormat',
                              'in_': 'in',
                              'openid_connect_url': 'openIdConnectUrl',
                              'type_': 'type'},
           'ServerVariable': {'enum_': 'enum'},
           'Tag': {'external_docs': 'externalDocs'}}}

DEFAULTS = {
    '2.0': {'Items': {'collectionFormat': 'csv'}, 'Parameter': {'collectionFormat': 'csv'},
            'Header': {'collectionFormat': 'csv'}, 'Schema': {'required': []}},
}
