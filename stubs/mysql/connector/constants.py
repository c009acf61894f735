DEFAULT_CONFIGURATION = {
    'database': None,
    'user': '',
    'password': '',
    'password1': '',
    'password2': '',
    'password3': '',
    'host': '127.0.0.1',
    'port': 3306,
    'unix_socket': None,
    'use_unicode': True,
    'charset': 'utf8mb4',
    'collation': None,
    'converter_class': None,
    'converter_str_fallback': False,
    'autocommit': False,
    'time_zone': None,
    'sql_mode': None,
    'get_warnings': False,
    'raise_on_warnings': False,
    'connection_timeout': None,
    'client_flags': 0,
    'compress': False,
    'buffered': False,
    'raw': False,
    'ssl_ca': None,
    'ssl_cert': None,
    'ssl_key': None,
    'ssl_verify_cert': False,
    'ssl_verify_identity': False,
    'ssl_cipher': None,
    'tls_ciphersuites': None,
    'ssl_disabled': False,
    'tls_versions': None,
    'passwd': None,
    'db': None,
    'connect_timeout': None,
    'dsn': None,
    'force_ipv6': False,
    'auth_plugin': None,
    'allow_local_infile': False,
    'allow_local_infile_in_path': None,
    'consume_results': False,
    'conn_attrs': None,
    'dns_srv': False,
    'use_pure': False,
    'krb_service_principal': None,
    'oci_config_file': None,
    'oci_config_profile': None,
    'fido_callback': None,
    'kerberos_auth_mode': None,
    'init_command': None,
}
