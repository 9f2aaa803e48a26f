"""Builds checks/templates.json: small real-world encodings used as skeletons in which single parts become symbolic.
Run once (python3-vt tools/templates.py); the output is committed and does not depend on the code under test."""
import json
import os
import sys
from datetime import datetime, timezone

sys.path.insert(0, '/repo')
from asn1crypto import algos, cms, core, crl, csr, keys, ocsp, pem, pkcs12, tsp, x509, util  # noqa

F = '/repo/tests/fixtures/'
out = {}


def add(name, mod, cls, data):
    if data[:1] == b'-':
        data = pem.unarmor(data)[2]
    out[name] = [mod, cls, data.hex()]


def rd(p):
    return open(F + p, 'rb').read()


for n, mod, cls, p in [
    ('cert_dsa_inherit', 'x509', 'Certificate', 'DSAParametersInheritedCACert.crt'),
    ('cert_rfc3739', 'x509', 'Certificate', 'rfc3739.crt'),
    ('cert_ed25519', 'x509', 'Certificate', 'keys/test-ed25519.crt'),
    ('cert_ec', 'x509', 'Certificate', 'keys/test-ec-named-der.crt'),
    ('cert_repeated', 'x509', 'Certificate', 'self-signed-repeated-subject-fields.der'),
    ('cert_san', 'x509', 'Certificate', 'chromium/subjectAltName_sanity_check.pem'),
    ('cert_nc', 'x509', 'Certificate', 'globalsign_example_keys/IssuingCA-der.cer'),
    ('cert_rsapss', 'x509', 'Certificate', 'keys/test-rsapss.crt'),
    ('attr_cert', 'cms', 'AttributeCertificateV2', 'example-attr-cert.der'),
    ('csr', 'csr', 'CertificationRequest', 'test-inter-der.csr'),
    ('ocsp_request', 'ocsp', 'OCSPRequest', 'ocsp_request'),
    ('ocsp_response', 'ocsp', 'OCSPResponse', 'ocsp_response'),
    ('tsp_request', 'tsp', 'TimeStampReq', 'tsp_request'),
    ('tsp_response', 'tsp', 'TimeStampResp', 'tsp_response'),
    ('cms_compressed', 'cms', 'ContentInfo', 'cms-compressed.der'),
    ('cms_digested', 'cms', 'ContentInfo', 'cms-digested.der'),
    ('cms_encrypted', 'cms', 'ContentInfo', 'cms-encrypted.der'),
    ('cms_enveloped', 'cms', 'ContentInfo', 'cms-enveloped.der'),
    ('cms_signed', 'cms', 'ContentInfo', 'cms-signed.der'),
    ('pkcs12', 'pkcs12', 'Pfx', 'test-tripledes.p12'),
    ('ec_private', 'keys', 'ECPrivateKey', 'keys/test-ec-named-der.key'),
    ('ec_private_full', 'keys', 'ECPrivateKey', 'keys/test-ec-der.key'),
    ('pkcs8_ec', 'keys', 'PrivateKeyInfo', 'keys/test-pkcs8-ec-named-der.key'),
    ('pkcs8_ed25519', 'keys', 'PrivateKeyInfo', 'keys/test-ed25519.key'),
    ('pkcs8_dsa', 'keys', 'PrivateKeyInfo', 'keys/test-pkcs8-dsa-der.key'),
    ('spki_rsapss', 'keys', 'PublicKeyInfo', 'keys/test-public-rsapss-der.key'),
    ('spki_ec', 'keys', 'PublicKeyInfo', 'keys/test-public-ec-named-der.key'),
    ('spki_ec_full', 'keys', 'PublicKeyInfo', 'keys/test-public-ec-der.key'),
    ('spki_dsa', 'keys', 'PublicKeyInfo', 'keys/test-public-dsa-der.key'),
    ('rc2', 'algos', 'EncryptionAlgorithm', 'rc2_algo.der'),
    ('rc5', 'algos', 'EncryptionAlgorithm', 'rc5_algo.der'),
    ('scrypt', 'algos', 'KdfAlgorithm', 'scrypt_algo.der'),
]:
    add(n, mod, cls, rd(p))


def small_pub():
    return keys.PublicKeyInfo({'algorithm': {'algorithm': 'rsa', 'parameters': core.Null()},
                               'public_key': {'modulus': 0xC0FFEE11, 'public_exponent': 65537}})


t1 = x509.Time('utc_time', datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc))
t2 = x509.Time('general_time', datetime(2051, 1, 2, 3, 4, 5, tzinfo=timezone.utc))
name = x509.Name.build({'common_name': 'a.example', 'country_name': 'US'})


def gn(n, v):
    return x509.GeneralName(n, v)


exts = [
    {'extn_id': 'basic_constraints', 'critical': True, 'extn_value': {'ca': True, 'path_len_constraint': 3}},
    {'extn_id': 'key_usage', 'critical': True, 'extn_value': {'digital_signature', 'crl_sign'}},
    {'extn_id': 'extended_key_usage', 'extn_value': ['server_auth', 'ocsp_signing']},
    {'extn_id': 'key_identifier', 'extn_value': b'kid1'},
    {'extn_id': 'authority_key_identifier', 'extn_value': {
        'key_identifier': b'kid2', 'authority_cert_issuer': [gn('directory_name', name)], 'authority_cert_serial_number': 5}},
    {'extn_id': 'subject_alt_name', 'extn_value': [
        gn('dns_name', 'a.example'), gn('dns_name', '*.b.example'), gn('ip_address', '10.0.0.1'), gn('ip_address', '2001:db8::1'),
        gn('uniform_resource_identifier', 'http://a.example/x'), gn('rfc822_name', 'joe@a.example'), gn('registered_id', '1.2.3'),
        gn('directory_name', name), gn('other_name', {'type_id': '1.2.3.4', 'value': core.UTF8String('x', explicit=0)})]},
    {'extn_id': 'issuer_alt_name', 'extn_value': [gn('dns_name', 'i.example')]},
    {'extn_id': 'name_constraints', 'extn_value': {
        'permitted_subtrees': [{'base': gn('dns_name', '.example')}],
        'excluded_subtrees': [{'base': gn('ip_address', '10.0.0.0/8')}]}},
    {'extn_id': 'certificate_policies', 'extn_value': [
        {'policy_identifier': '1.2.3.4', 'policy_qualifiers': [
            {'policy_qualifier_id': 'certification_practice_statement', 'qualifier': 'http://cps.example'}]},
        {'policy_identifier': 'any_policy'}]},
    {'extn_id': 'policy_mappings', 'extn_value': [{'issuer_domain_policy': '1.2.3.4', 'subject_domain_policy': '1.2.3.5'}]},
    {'extn_id': 'policy_constraints', 'extn_value': {'require_explicit_policy': 1, 'inhibit_policy_mapping': 0}},
    {'extn_id': 'inhibit_any_policy', 'extn_value': 2},
    {'extn_id': 'crl_distribution_points', 'extn_value': [
        {'distribution_point': x509.DistributionPointName('full_name', [gn('uniform_resource_identifier', 'http://c.example/c')]),
         'reasons': {'key_compromise', 'ca_compromise'}}]},
    {'extn_id': 'freshest_crl', 'extn_value': [
        {'distribution_point': x509.DistributionPointName('full_name', [gn('uniform_resource_identifier', 'http://d.example/d')])}]},
    {'extn_id': 'authority_information_access', 'extn_value': [
        {'access_method': 'ocsp', 'access_location': gn('uniform_resource_identifier', 'http://o.example')},
        {'access_method': 'ca_issuers', 'access_location': gn('uniform_resource_identifier', 'http://i.example')}]},
    {'extn_id': 'subject_information_access', 'extn_value': [
        {'access_method': 'time_stamping', 'access_location': gn('uniform_resource_identifier', 'http://t.example')}]},
    {'extn_id': 'ocsp_no_check', 'extn_value': None},
    {'extn_id': 'tls_feature', 'extn_value': [5]},
    {'extn_id': 'private_key_usage_period', 'extn_value': {'not_before': datetime(2020, 1, 1, tzinfo=timezone.utc)}},
]
cert = x509.Certificate({
    'tbs_certificate': {
        'version': 'v3', 'serial_number': 5, 'signature': {'algorithm': 'sha256_rsa'}, 'issuer': name,
        'validity': {'not_before': t1, 'not_after': t2}, 'subject': name, 'subject_public_key_info': small_pub(),
        'extensions': exts},
    'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature_value': b'sig'})
add('cert_all', 'x509', 'Certificate', cert.dump())

small = x509.Certificate({
    'tbs_certificate': {
        'version': 'v3', 'serial_number': 5, 'signature': {'algorithm': 'sha256_rsa'}, 'issuer': name,
        'validity': {'not_before': t1, 'not_after': t2}, 'subject': name, 'subject_public_key_info': small_pub(),
        'extensions': exts[:2] + [exts[3]]},
    'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature_value': b'sig'})
add('cert_small', 'x509', 'Certificate', small.dump())

c = crl.CertificateList({
    'tbs_cert_list': {
        'version': 'v2', 'signature': {'algorithm': 'sha256_rsa'}, 'issuer': name, 'this_update': t1, 'next_update': t2,
        'revoked_certificates': [
            {'user_certificate': 7, 'revocation_date': t1, 'crl_entry_extensions': [
                {'extn_id': 'crl_reason', 'extn_value': 'key_compromise'},
                {'extn_id': 'invalidity_date', 'extn_value': datetime(2020, 1, 1, tzinfo=timezone.utc)},
                {'extn_id': 'certificate_issuer', 'critical': True, 'extn_value': [gn('directory_name', name)]}]},
            {'user_certificate': 300, 'revocation_date': t1}],
        'crl_extensions': [
            {'extn_id': 'crl_number', 'extn_value': 9},
            {'extn_id': 'authority_key_identifier', 'extn_value': {'key_identifier': b'kid2'}},
            {'extn_id': 'issuing_distribution_point', 'critical': True, 'extn_value': {
                'distribution_point': x509.DistributionPointName('full_name', [gn('uniform_resource_identifier', 'http://c.example/c')]),
                'only_contains_user_certs': True}},
            {'extn_id': 'delta_crl_indicator', 'critical': True, 'extn_value': 8},
            {'extn_id': 'issuer_alt_name', 'extn_value': [gn('dns_name', 'i.example')]},
            {'extn_id': 'freshest_crl', 'extn_value': [
                {'distribution_point': x509.DistributionPointName('full_name', [gn('uniform_resource_identifier', 'http://d.example/d')])}]},
            {'extn_id': 'authority_information_access', 'extn_value': [
                {'access_method': 'ca_issuers', 'access_location': gn('uniform_resource_identifier', 'http://i.example')}]},
        ]},
    'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature': b'sig'})
add('crl', 'crl', 'CertificateList', c.dump())

cid = {'hash_algorithm': {'algorithm': 'sha1'}, 'issuer_name_hash': b'n' * 4, 'issuer_key_hash': b'k' * 4, 'serial_number': 5}
basic = ocsp.BasicOCSPResponse({
    'tbs_response_data': {
        'responder_id': ocsp.ResponderId('by_key', b'key1'), 'produced_at': datetime(2020, 1, 1, tzinfo=timezone.utc),
        'responses': [
            {'cert_id': cid, 'cert_status': ocsp.CertStatus('good', core.Null()), 'this_update': datetime(2020, 1, 1, tzinfo=timezone.utc),
             'next_update': datetime(2021, 1, 1, tzinfo=timezone.utc),
             'single_extensions': [
                 {'extn_id': 'crl_reason', 'extn_value': 'key_compromise'},
                 {'extn_id': 'archive_cutoff', 'extn_value': datetime(2019, 1, 1, tzinfo=timezone.utc)},
                 {'extn_id': 'invalidity_date', 'critical': True, 'extn_value': datetime(2019, 1, 1, tzinfo=timezone.utc)}]},
            {'cert_id': dict(cid, serial_number=6), 'cert_status': ocsp.CertStatus('revoked', {
                'revocation_time': datetime(2020, 1, 1, tzinfo=timezone.utc), 'revocation_reason': 'key_compromise'}),
             'this_update': datetime(2020, 1, 1, tzinfo=timezone.utc)}],
        'response_extensions': [{'extn_id': 'nonce', 'extn_value': b'nonce'},
                                {'extn_id': 'extended_revoke', 'critical': True, 'extn_value': None}]},
    'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature': b'sig', 'certs': [small]})
resp = ocsp.OCSPResponse({'response_status': 'successful', 'response_bytes': {
    'response_type': 'basic_ocsp_response', 'response': basic}})
add('ocsp_small', 'ocsp', 'OCSPResponse', resp.dump())
req = ocsp.OCSPRequest({'tbs_request': {'request_list': [
    {'req_cert': cid, 'single_request_extensions': [{'extn_id': 'service_locator', 'extn_value': {
        'issuer': name, 'locator': [{'access_method': 'ocsp', 'access_location': gn('uniform_resource_identifier', 'http://o.example')}]}}]}],
    'request_extensions': [{'extn_id': 'nonce', 'extn_value': b'nonce'},
                           {'extn_id': 'acceptable_responses', 'extn_value': ['basic_ocsp_response']},
                           {'extn_id': 'preferred_signature_algorithms', 'extn_value': [
                               {'sig_identifier': {'algorithm': 'sha256_rsa'}}]}]}})
add('ocsp_req_small', 'ocsp', 'OCSPRequest', req.dump())

r = csr.CertificationRequest({
    'certification_request_info': {
        'version': 'v1', 'subject': name, 'subject_pk_info': small_pub(),
        'attributes': [{'type': 'challenge_password', 'values': [x509.DirectoryString('printable_string', core.PrintableString('pw'))]},
                       {'type': 'extension_request', 'values': [exts[:2]]}]},
    'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature': b'sig'})
add('csr_small', 'csr', 'CertificationRequest', r.dump())

sd = cms.ContentInfo({'content_type': 'signed_data', 'content': {
    'version': 'v1', 'digest_algorithms': [{'algorithm': 'sha256'}],
    'encap_content_info': {'content_type': 'data', 'content': b'hello'},
    'certificates': [cms.CertificateChoices('certificate', small)],
    'signer_infos': [{
        'version': 'v1', 'sid': cms.SignerIdentifier('issuer_and_serial_number', {'issuer': name, 'serial_number': 5}),
        'digest_algorithm': {'algorithm': 'sha256'}, 'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature': b'sig',
        'signed_attrs': [{'type': 'content_type', 'values': ['data']},
                         {'type': 'message_digest', 'values': [b'dig']},
                         {'type': 'signing_time', 'values': [cms.Time('utc_time', core.UTCTime(datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)))]}]}]}})
add('cms_signed_small', 'cms', 'ContentInfo', sd.dump())
ed = cms.ContentInfo({'content_type': 'enveloped_data', 'content': {
    'version': 'v0', 'recipient_infos': [cms.RecipientInfo('ktri', {
        'version': 'v0', 'rid': cms.RecipientIdentifier('issuer_and_serial_number', {'issuer': name, 'serial_number': 5}),
        'key_encryption_algorithm': {'algorithm': 'rsaes_pkcs1v15'}, 'encrypted_key': b'ek'})],
    'encrypted_content_info': {'content_type': 'data', 'content_encryption_algorithm': {
        'algorithm': 'aes256_cbc', 'parameters': b'\x01' * 16}, 'encrypted_content': b'enc'}}})
add('cms_enveloped_small', 'cms', 'ContentInfo', ed.dump())

ep = keys.EncryptedPrivateKeyInfo({'encryption_algorithm': {'algorithm': 'pbes2', 'parameters': {
    'key_derivation_func': {'algorithm': 'pbkdf2', 'parameters': {
        'salt': algos.Pbkdf2Salt('specified', b'salt'), 'iteration_count': 2048, 'key_length': 24, 'prf': {'algorithm': 'sha1'}}},
    'encryption_scheme': {'algorithm': 'tripledes_3key', 'parameters': b'\x01' * 8}}}, 'encrypted_data': b'ed'})
add('encrypted_key', 'keys', 'EncryptedPrivateKeyInfo', ep.dump())
add('pss', 'algos', 'SignedDigestAlgorithm', algos.SignedDigestAlgorithm({'algorithm': 'rsassa_pss', 'parameters': {
    'hash_algorithm': {'algorithm': 'sha256'}, 'mask_gen_algorithm': {'algorithm': 'mgf1', 'parameters': {'algorithm': 'sha256'}},
    'salt_length': 32}}).dump())
add('oaep', 'algos', 'EncryptionAlgorithm', algos.EncryptionAlgorithm({'algorithm': 'rsaes_oaep', 'parameters': {
    'hash_algorithm': {'algorithm': 'sha256'}, 'mask_gen_algorithm': {'algorithm': 'mgf1', 'parameters': {'algorithm': 'sha256'}}}}).dump())
add('rsa_private', 'keys', 'RSAPrivateKey', keys.RSAPrivateKey({
    'version': 'two-prime', 'modulus': 0xC0FFEE11, 'public_exponent': 65537, 'private_exponent': 5, 'prime1': 3, 'prime2': 5,
    'exponent1': 7, 'exponent2': 9, 'coefficient': 11}).dump())
add('name', 'x509', 'Name', x509.Name.build({'common_name': 'a.example', 'country_name': 'US', 'email_address': 'joe@a.example',
                                              'organization_name': 'Org'}).dump())
add('spki_rsa', 'keys', 'PublicKeyInfo', small_pub().dump())

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k, (m, cl, h) in sorted(out.items()):
    o = getattr(sys.modules['asn1crypto.' + m], cl).load(bytes.fromhex(h))
    o.native
    print(k, m, cl, len(h) // 2)
with open(V + '/checks/templates.json', 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
