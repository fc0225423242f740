// generated: names for logging
use crate::p11::*;
pub static CKR_T: &[(CK_ULONG,&str)] = &[
(CKR_OK as CK_ULONG,"CKR_OK"),
(CKR_CANCEL as CK_ULONG,"CKR_CANCEL"),
(CKR_HOST_MEMORY as CK_ULONG,"CKR_HOST_MEMORY"),
(CKR_SLOT_ID_INVALID as CK_ULONG,"CKR_SLOT_ID_INVALID"),
(CKR_GENERAL_ERROR as CK_ULONG,"CKR_GENERAL_ERROR"),
(CKR_FUNCTION_FAILED as CK_ULONG,"CKR_FUNCTION_FAILED"),
(CKR_ARGUMENTS_BAD as CK_ULONG,"CKR_ARGUMENTS_BAD"),
(CKR_NO_EVENT as CK_ULONG,"CKR_NO_EVENT"),
(CKR_NEED_TO_CREATE_THREADS as CK_ULONG,"CKR_NEED_TO_CREATE_THREADS"),
(CKR_CANT_LOCK as CK_ULONG,"CKR_CANT_LOCK"),
(CKR_ATTRIBUTE_READ_ONLY as CK_ULONG,"CKR_ATTRIBUTE_READ_ONLY"),
(CKR_ATTRIBUTE_SENSITIVE as CK_ULONG,"CKR_ATTRIBUTE_SENSITIVE"),
(CKR_ATTRIBUTE_TYPE_INVALID as CK_ULONG,"CKR_ATTRIBUTE_TYPE_INVALID"),
(CKR_ATTRIBUTE_VALUE_INVALID as CK_ULONG,"CKR_ATTRIBUTE_VALUE_INVALID"),
(CKR_ACTION_PROHIBITED as CK_ULONG,"CKR_ACTION_PROHIBITED"),
(CKR_DATA_INVALID as CK_ULONG,"CKR_DATA_INVALID"),
(CKR_DATA_LEN_RANGE as CK_ULONG,"CKR_DATA_LEN_RANGE"),
(CKR_DEVICE_ERROR as CK_ULONG,"CKR_DEVICE_ERROR"),
(CKR_DEVICE_MEMORY as CK_ULONG,"CKR_DEVICE_MEMORY"),
(CKR_DEVICE_REMOVED as CK_ULONG,"CKR_DEVICE_REMOVED"),
(CKR_ENCRYPTED_DATA_INVALID as CK_ULONG,"CKR_ENCRYPTED_DATA_INVALID"),
(CKR_ENCRYPTED_DATA_LEN_RANGE as CK_ULONG,"CKR_ENCRYPTED_DATA_LEN_RANGE"),
(CKR_AEAD_DECRYPT_FAILED as CK_ULONG,"CKR_AEAD_DECRYPT_FAILED"),
(CKR_FUNCTION_CANCELED as CK_ULONG,"CKR_FUNCTION_CANCELED"),
(CKR_FUNCTION_NOT_PARALLEL as CK_ULONG,"CKR_FUNCTION_NOT_PARALLEL"),
(CKR_FUNCTION_NOT_SUPPORTED as CK_ULONG,"CKR_FUNCTION_NOT_SUPPORTED"),
(CKR_KEY_HANDLE_INVALID as CK_ULONG,"CKR_KEY_HANDLE_INVALID"),
(CKR_KEY_SIZE_RANGE as CK_ULONG,"CKR_KEY_SIZE_RANGE"),
(CKR_KEY_TYPE_INCONSISTENT as CK_ULONG,"CKR_KEY_TYPE_INCONSISTENT"),
(CKR_KEY_NOT_NEEDED as CK_ULONG,"CKR_KEY_NOT_NEEDED"),
(CKR_KEY_CHANGED as CK_ULONG,"CKR_KEY_CHANGED"),
(CKR_KEY_NEEDED as CK_ULONG,"CKR_KEY_NEEDED"),
(CKR_KEY_INDIGESTIBLE as CK_ULONG,"CKR_KEY_INDIGESTIBLE"),
(CKR_KEY_FUNCTION_NOT_PERMITTED as CK_ULONG,"CKR_KEY_FUNCTION_NOT_PERMITTED"),
(CKR_KEY_NOT_WRAPPABLE as CK_ULONG,"CKR_KEY_NOT_WRAPPABLE"),
(CKR_KEY_UNEXTRACTABLE as CK_ULONG,"CKR_KEY_UNEXTRACTABLE"),
(CKR_MECHANISM_INVALID as CK_ULONG,"CKR_MECHANISM_INVALID"),
(CKR_MECHANISM_PARAM_INVALID as CK_ULONG,"CKR_MECHANISM_PARAM_INVALID"),
(CKR_OBJECT_HANDLE_INVALID as CK_ULONG,"CKR_OBJECT_HANDLE_INVALID"),
(CKR_OPERATION_ACTIVE as CK_ULONG,"CKR_OPERATION_ACTIVE"),
(CKR_OPERATION_NOT_INITIALIZED as CK_ULONG,"CKR_OPERATION_NOT_INITIALIZED"),
(CKR_PIN_INCORRECT as CK_ULONG,"CKR_PIN_INCORRECT"),
(CKR_PIN_INVALID as CK_ULONG,"CKR_PIN_INVALID"),
(CKR_PIN_LEN_RANGE as CK_ULONG,"CKR_PIN_LEN_RANGE"),
(CKR_PIN_EXPIRED as CK_ULONG,"CKR_PIN_EXPIRED"),
(CKR_PIN_LOCKED as CK_ULONG,"CKR_PIN_LOCKED"),
(CKR_SESSION_CLOSED as CK_ULONG,"CKR_SESSION_CLOSED"),
(CKR_SESSION_COUNT as CK_ULONG,"CKR_SESSION_COUNT"),
(CKR_SESSION_HANDLE_INVALID as CK_ULONG,"CKR_SESSION_HANDLE_INVALID"),
(CKR_SESSION_PARALLEL_NOT_SUPPORTED as CK_ULONG,"CKR_SESSION_PARALLEL_NOT_SUPPORTED"),
(CKR_SESSION_READ_ONLY as CK_ULONG,"CKR_SESSION_READ_ONLY"),
(CKR_SESSION_EXISTS as CK_ULONG,"CKR_SESSION_EXISTS"),
(CKR_SESSION_READ_ONLY_EXISTS as CK_ULONG,"CKR_SESSION_READ_ONLY_EXISTS"),
(CKR_SESSION_READ_WRITE_SO_EXISTS as CK_ULONG,"CKR_SESSION_READ_WRITE_SO_EXISTS"),
(CKR_SIGNATURE_INVALID as CK_ULONG,"CKR_SIGNATURE_INVALID"),
(CKR_SIGNATURE_LEN_RANGE as CK_ULONG,"CKR_SIGNATURE_LEN_RANGE"),
(CKR_TEMPLATE_INCOMPLETE as CK_ULONG,"CKR_TEMPLATE_INCOMPLETE"),
(CKR_TEMPLATE_INCONSISTENT as CK_ULONG,"CKR_TEMPLATE_INCONSISTENT"),
(CKR_TOKEN_NOT_PRESENT as CK_ULONG,"CKR_TOKEN_NOT_PRESENT"),
(CKR_TOKEN_NOT_RECOGNIZED as CK_ULONG,"CKR_TOKEN_NOT_RECOGNIZED"),
(CKR_TOKEN_WRITE_PROTECTED as CK_ULONG,"CKR_TOKEN_WRITE_PROTECTED"),
(CKR_UNWRAPPING_KEY_HANDLE_INVALID as CK_ULONG,"CKR_UNWRAPPING_KEY_HANDLE_INVALID"),
(CKR_UNWRAPPING_KEY_SIZE_RANGE as CK_ULONG,"CKR_UNWRAPPING_KEY_SIZE_RANGE"),
(CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT as CK_ULONG,"CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT"),
(CKR_USER_ALREADY_LOGGED_IN as CK_ULONG,"CKR_USER_ALREADY_LOGGED_IN"),
(CKR_USER_NOT_LOGGED_IN as CK_ULONG,"CKR_USER_NOT_LOGGED_IN"),
(CKR_USER_PIN_NOT_INITIALIZED as CK_ULONG,"CKR_USER_PIN_NOT_INITIALIZED"),
(CKR_USER_TYPE_INVALID as CK_ULONG,"CKR_USER_TYPE_INVALID"),
(CKR_USER_ANOTHER_ALREADY_LOGGED_IN as CK_ULONG,"CKR_USER_ANOTHER_ALREADY_LOGGED_IN"),
(CKR_USER_TOO_MANY_TYPES as CK_ULONG,"CKR_USER_TOO_MANY_TYPES"),
(CKR_WRAPPED_KEY_INVALID as CK_ULONG,"CKR_WRAPPED_KEY_INVALID"),
(CKR_WRAPPED_KEY_LEN_RANGE as CK_ULONG,"CKR_WRAPPED_KEY_LEN_RANGE"),
(CKR_WRAPPING_KEY_HANDLE_INVALID as CK_ULONG,"CKR_WRAPPING_KEY_HANDLE_INVALID"),
(CKR_WRAPPING_KEY_SIZE_RANGE as CK_ULONG,"CKR_WRAPPING_KEY_SIZE_RANGE"),
(CKR_WRAPPING_KEY_TYPE_INCONSISTENT as CK_ULONG,"CKR_WRAPPING_KEY_TYPE_INCONSISTENT"),
(CKR_RANDOM_SEED_NOT_SUPPORTED as CK_ULONG,"CKR_RANDOM_SEED_NOT_SUPPORTED"),
(CKR_RANDOM_NO_RNG as CK_ULONG,"CKR_RANDOM_NO_RNG"),
(CKR_DOMAIN_PARAMS_INVALID as CK_ULONG,"CKR_DOMAIN_PARAMS_INVALID"),
(CKR_CURVE_NOT_SUPPORTED as CK_ULONG,"CKR_CURVE_NOT_SUPPORTED"),
(CKR_BUFFER_TOO_SMALL as CK_ULONG,"CKR_BUFFER_TOO_SMALL"),
(CKR_SAVED_STATE_INVALID as CK_ULONG,"CKR_SAVED_STATE_INVALID"),
(CKR_INFORMATION_SENSITIVE as CK_ULONG,"CKR_INFORMATION_SENSITIVE"),
(CKR_STATE_UNSAVEABLE as CK_ULONG,"CKR_STATE_UNSAVEABLE"),
(CKR_CRYPTOKI_NOT_INITIALIZED as CK_ULONG,"CKR_CRYPTOKI_NOT_INITIALIZED"),
(CKR_CRYPTOKI_ALREADY_INITIALIZED as CK_ULONG,"CKR_CRYPTOKI_ALREADY_INITIALIZED"),
(CKR_MUTEX_BAD as CK_ULONG,"CKR_MUTEX_BAD"),
(CKR_MUTEX_NOT_LOCKED as CK_ULONG,"CKR_MUTEX_NOT_LOCKED"),
(CKR_NEW_PIN_MODE as CK_ULONG,"CKR_NEW_PIN_MODE"),
(CKR_NEXT_OTP as CK_ULONG,"CKR_NEXT_OTP"),
(CKR_EXCEEDED_MAX_ITERATIONS as CK_ULONG,"CKR_EXCEEDED_MAX_ITERATIONS"),
(CKR_FIPS_SELF_TEST_FAILED as CK_ULONG,"CKR_FIPS_SELF_TEST_FAILED"),
(CKR_LIBRARY_LOAD_FAILED as CK_ULONG,"CKR_LIBRARY_LOAD_FAILED"),
(CKR_PIN_TOO_WEAK as CK_ULONG,"CKR_PIN_TOO_WEAK"),
(CKR_PUBLIC_KEY_INVALID as CK_ULONG,"CKR_PUBLIC_KEY_INVALID"),
(CKR_FUNCTION_REJECTED as CK_ULONG,"CKR_FUNCTION_REJECTED"),
(CKR_TOKEN_RESOURCE_EXCEEDED as CK_ULONG,"CKR_TOKEN_RESOURCE_EXCEEDED"),
(CKR_OPERATION_CANCEL_FAILED as CK_ULONG,"CKR_OPERATION_CANCEL_FAILED"),
(CKR_KEY_EXHAUSTED as CK_ULONG,"CKR_KEY_EXHAUSTED"),
(CKR_PENDING as CK_ULONG,"CKR_PENDING"),
(CKR_SESSION_ASYNC_NOT_SUPPORTED as CK_ULONG,"CKR_SESSION_ASYNC_NOT_SUPPORTED"),
(CKR_SEED_RANDOM_REQUIRED as CK_ULONG,"CKR_SEED_RANDOM_REQUIRED"),
(CKR_OPERATION_NOT_VALIDATED as CK_ULONG,"CKR_OPERATION_NOT_VALIDATED"),
(CKR_TOKEN_NOT_INITIALIZED as CK_ULONG,"CKR_TOKEN_NOT_INITIALIZED"),
(CKR_PARAMETER_SET_NOT_SUPPORTED as CK_ULONG,"CKR_PARAMETER_SET_NOT_SUPPORTED"),
(CKR_VENDOR_DEFINED as CK_ULONG,"CKR_VENDOR_DEFINED"),
];
pub static CKM_T: &[(CK_ULONG,&str)] = &[
(CKM_RSA_PKCS_KEY_PAIR_GEN as CK_ULONG,"CKM_RSA_PKCS_KEY_PAIR_GEN"),
(CKM_RSA_PKCS as CK_ULONG,"CKM_RSA_PKCS"),
(CKM_RSA_9796 as CK_ULONG,"CKM_RSA_9796"),
(CKM_RSA_X_509 as CK_ULONG,"CKM_RSA_X_509"),
(CKM_MD2_RSA_PKCS as CK_ULONG,"CKM_MD2_RSA_PKCS"),
(CKM_MD5_RSA_PKCS as CK_ULONG,"CKM_MD5_RSA_PKCS"),
(CKM_SHA1_RSA_PKCS as CK_ULONG,"CKM_SHA1_RSA_PKCS"),
(CKM_RIPEMD128_RSA_PKCS as CK_ULONG,"CKM_RIPEMD128_RSA_PKCS"),
(CKM_RIPEMD160_RSA_PKCS as CK_ULONG,"CKM_RIPEMD160_RSA_PKCS"),
(CKM_RSA_PKCS_OAEP as CK_ULONG,"CKM_RSA_PKCS_OAEP"),
(CKM_RSA_X9_31_KEY_PAIR_GEN as CK_ULONG,"CKM_RSA_X9_31_KEY_PAIR_GEN"),
(CKM_RSA_X9_31 as CK_ULONG,"CKM_RSA_X9_31"),
(CKM_SHA1_RSA_X9_31 as CK_ULONG,"CKM_SHA1_RSA_X9_31"),
(CKM_RSA_PKCS_PSS as CK_ULONG,"CKM_RSA_PKCS_PSS"),
(CKM_SHA1_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA1_RSA_PKCS_PSS"),
(CKM_ML_KEM_KEY_PAIR_GEN as CK_ULONG,"CKM_ML_KEM_KEY_PAIR_GEN"),
(CKM_DSA_KEY_PAIR_GEN as CK_ULONG,"CKM_DSA_KEY_PAIR_GEN"),
(CKM_DSA as CK_ULONG,"CKM_DSA"),
(CKM_DSA_SHA1 as CK_ULONG,"CKM_DSA_SHA1"),
(CKM_DSA_SHA224 as CK_ULONG,"CKM_DSA_SHA224"),
(CKM_DSA_SHA256 as CK_ULONG,"CKM_DSA_SHA256"),
(CKM_DSA_SHA384 as CK_ULONG,"CKM_DSA_SHA384"),
(CKM_DSA_SHA512 as CK_ULONG,"CKM_DSA_SHA512"),
(CKM_ML_KEM as CK_ULONG,"CKM_ML_KEM"),
(CKM_DSA_SHA3_224 as CK_ULONG,"CKM_DSA_SHA3_224"),
(CKM_DSA_SHA3_256 as CK_ULONG,"CKM_DSA_SHA3_256"),
(CKM_DSA_SHA3_384 as CK_ULONG,"CKM_DSA_SHA3_384"),
(CKM_DSA_SHA3_512 as CK_ULONG,"CKM_DSA_SHA3_512"),
(CKM_ML_DSA_KEY_PAIR_GEN as CK_ULONG,"CKM_ML_DSA_KEY_PAIR_GEN"),
(CKM_ML_DSA as CK_ULONG,"CKM_ML_DSA"),
(CKM_HASH_ML_DSA as CK_ULONG,"CKM_HASH_ML_DSA"),
(CKM_DH_PKCS_KEY_PAIR_GEN as CK_ULONG,"CKM_DH_PKCS_KEY_PAIR_GEN"),
(CKM_DH_PKCS_DERIVE as CK_ULONG,"CKM_DH_PKCS_DERIVE"),
(CKM_HASH_ML_DSA_SHA224 as CK_ULONG,"CKM_HASH_ML_DSA_SHA224"),
(CKM_HASH_ML_DSA_SHA256 as CK_ULONG,"CKM_HASH_ML_DSA_SHA256"),
(CKM_HASH_ML_DSA_SHA384 as CK_ULONG,"CKM_HASH_ML_DSA_SHA384"),
(CKM_HASH_ML_DSA_SHA512 as CK_ULONG,"CKM_HASH_ML_DSA_SHA512"),
(CKM_HASH_ML_DSA_SHA3_224 as CK_ULONG,"CKM_HASH_ML_DSA_SHA3_224"),
(CKM_HASH_ML_DSA_SHA3_256 as CK_ULONG,"CKM_HASH_ML_DSA_SHA3_256"),
(CKM_HASH_ML_DSA_SHA3_384 as CK_ULONG,"CKM_HASH_ML_DSA_SHA3_384"),
(CKM_HASH_ML_DSA_SHA3_512 as CK_ULONG,"CKM_HASH_ML_DSA_SHA3_512"),
(CKM_HASH_ML_DSA_SHAKE128 as CK_ULONG,"CKM_HASH_ML_DSA_SHAKE128"),
(CKM_HASH_ML_DSA_SHAKE256 as CK_ULONG,"CKM_HASH_ML_DSA_SHAKE256"),
(CKM_SLH_DSA_KEY_PAIR_GEN as CK_ULONG,"CKM_SLH_DSA_KEY_PAIR_GEN"),
(CKM_SLH_DSA as CK_ULONG,"CKM_SLH_DSA"),
(CKM_X9_42_DH_KEY_PAIR_GEN as CK_ULONG,"CKM_X9_42_DH_KEY_PAIR_GEN"),
(CKM_X9_42_DH_DERIVE as CK_ULONG,"CKM_X9_42_DH_DERIVE"),
(CKM_X9_42_DH_HYBRID_DERIVE as CK_ULONG,"CKM_X9_42_DH_HYBRID_DERIVE"),
(CKM_X9_42_MQV_DERIVE as CK_ULONG,"CKM_X9_42_MQV_DERIVE"),
(CKM_HASH_SLH_DSA as CK_ULONG,"CKM_HASH_SLH_DSA"),
(CKM_HASH_SLH_DSA_SHA224 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA224"),
(CKM_HASH_SLH_DSA_SHA256 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA256"),
(CKM_HASH_SLH_DSA_SHA384 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA384"),
(CKM_HASH_SLH_DSA_SHA512 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA512"),
(CKM_HASH_SLH_DSA_SHA3_224 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA3_224"),
(CKM_HASH_SLH_DSA_SHA3_256 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA3_256"),
(CKM_HASH_SLH_DSA_SHA3_384 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA3_384"),
(CKM_HASH_SLH_DSA_SHA3_512 as CK_ULONG,"CKM_HASH_SLH_DSA_SHA3_512"),
(CKM_HASH_SLH_DSA_SHAKE128 as CK_ULONG,"CKM_HASH_SLH_DSA_SHAKE128"),
(CKM_HASH_SLH_DSA_SHAKE256 as CK_ULONG,"CKM_HASH_SLH_DSA_SHAKE256"),
(CKM_SHA256_RSA_PKCS as CK_ULONG,"CKM_SHA256_RSA_PKCS"),
(CKM_SHA384_RSA_PKCS as CK_ULONG,"CKM_SHA384_RSA_PKCS"),
(CKM_SHA512_RSA_PKCS as CK_ULONG,"CKM_SHA512_RSA_PKCS"),
(CKM_SHA256_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA256_RSA_PKCS_PSS"),
(CKM_SHA384_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA384_RSA_PKCS_PSS"),
(CKM_SHA512_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA512_RSA_PKCS_PSS"),
(CKM_SHA224_RSA_PKCS as CK_ULONG,"CKM_SHA224_RSA_PKCS"),
(CKM_SHA224_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA224_RSA_PKCS_PSS"),
(CKM_SHA512_224 as CK_ULONG,"CKM_SHA512_224"),
(CKM_SHA512_224_HMAC as CK_ULONG,"CKM_SHA512_224_HMAC"),
(CKM_SHA512_224_HMAC_GENERAL as CK_ULONG,"CKM_SHA512_224_HMAC_GENERAL"),
(CKM_SHA512_224_KEY_DERIVATION as CK_ULONG,"CKM_SHA512_224_KEY_DERIVATION"),
(CKM_SHA512_256 as CK_ULONG,"CKM_SHA512_256"),
(CKM_SHA512_256_HMAC as CK_ULONG,"CKM_SHA512_256_HMAC"),
(CKM_SHA512_256_HMAC_GENERAL as CK_ULONG,"CKM_SHA512_256_HMAC_GENERAL"),
(CKM_SHA512_256_KEY_DERIVATION as CK_ULONG,"CKM_SHA512_256_KEY_DERIVATION"),
(CKM_SHA512_T as CK_ULONG,"CKM_SHA512_T"),
(CKM_SHA512_T_HMAC as CK_ULONG,"CKM_SHA512_T_HMAC"),
(CKM_SHA512_T_HMAC_GENERAL as CK_ULONG,"CKM_SHA512_T_HMAC_GENERAL"),
(CKM_SHA512_T_KEY_DERIVATION as CK_ULONG,"CKM_SHA512_T_KEY_DERIVATION"),
(CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE as CK_ULONG,"CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE"),
(CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH as CK_ULONG,"CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH"),
(CKM_SHA3_256_RSA_PKCS as CK_ULONG,"CKM_SHA3_256_RSA_PKCS"),
(CKM_SHA3_384_RSA_PKCS as CK_ULONG,"CKM_SHA3_384_RSA_PKCS"),
(CKM_SHA3_512_RSA_PKCS as CK_ULONG,"CKM_SHA3_512_RSA_PKCS"),
(CKM_SHA3_256_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA3_256_RSA_PKCS_PSS"),
(CKM_SHA3_384_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA3_384_RSA_PKCS_PSS"),
(CKM_SHA3_512_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA3_512_RSA_PKCS_PSS"),
(CKM_SHA3_224_RSA_PKCS as CK_ULONG,"CKM_SHA3_224_RSA_PKCS"),
(CKM_SHA3_224_RSA_PKCS_PSS as CK_ULONG,"CKM_SHA3_224_RSA_PKCS_PSS"),
(CKM_RC2_KEY_GEN as CK_ULONG,"CKM_RC2_KEY_GEN"),
(CKM_RC2_ECB as CK_ULONG,"CKM_RC2_ECB"),
(CKM_RC2_CBC as CK_ULONG,"CKM_RC2_CBC"),
(CKM_RC2_MAC as CK_ULONG,"CKM_RC2_MAC"),
(CKM_RC2_MAC_GENERAL as CK_ULONG,"CKM_RC2_MAC_GENERAL"),
(CKM_RC2_CBC_PAD as CK_ULONG,"CKM_RC2_CBC_PAD"),
(CKM_RC4_KEY_GEN as CK_ULONG,"CKM_RC4_KEY_GEN"),
(CKM_RC4 as CK_ULONG,"CKM_RC4"),
(CKM_DES_KEY_GEN as CK_ULONG,"CKM_DES_KEY_GEN"),
(CKM_DES_ECB as CK_ULONG,"CKM_DES_ECB"),
(CKM_DES_CBC as CK_ULONG,"CKM_DES_CBC"),
(CKM_DES_MAC as CK_ULONG,"CKM_DES_MAC"),
(CKM_DES_MAC_GENERAL as CK_ULONG,"CKM_DES_MAC_GENERAL"),
(CKM_DES_CBC_PAD as CK_ULONG,"CKM_DES_CBC_PAD"),
(CKM_DES2_KEY_GEN as CK_ULONG,"CKM_DES2_KEY_GEN"),
(CKM_DES3_KEY_GEN as CK_ULONG,"CKM_DES3_KEY_GEN"),
(CKM_DES3_ECB as CK_ULONG,"CKM_DES3_ECB"),
(CKM_DES3_CBC as CK_ULONG,"CKM_DES3_CBC"),
(CKM_DES3_MAC as CK_ULONG,"CKM_DES3_MAC"),
(CKM_DES3_MAC_GENERAL as CK_ULONG,"CKM_DES3_MAC_GENERAL"),
(CKM_DES3_CBC_PAD as CK_ULONG,"CKM_DES3_CBC_PAD"),
(CKM_DES3_CMAC_GENERAL as CK_ULONG,"CKM_DES3_CMAC_GENERAL"),
(CKM_DES3_CMAC as CK_ULONG,"CKM_DES3_CMAC"),
(CKM_CDMF_KEY_GEN as CK_ULONG,"CKM_CDMF_KEY_GEN"),
(CKM_CDMF_ECB as CK_ULONG,"CKM_CDMF_ECB"),
(CKM_CDMF_CBC as CK_ULONG,"CKM_CDMF_CBC"),
(CKM_CDMF_MAC as CK_ULONG,"CKM_CDMF_MAC"),
(CKM_CDMF_MAC_GENERAL as CK_ULONG,"CKM_CDMF_MAC_GENERAL"),
(CKM_CDMF_CBC_PAD as CK_ULONG,"CKM_CDMF_CBC_PAD"),
(CKM_DES_OFB64 as CK_ULONG,"CKM_DES_OFB64"),
(CKM_DES_OFB8 as CK_ULONG,"CKM_DES_OFB8"),
(CKM_DES_CFB64 as CK_ULONG,"CKM_DES_CFB64"),
(CKM_DES_CFB8 as CK_ULONG,"CKM_DES_CFB8"),
(CKM_MD2 as CK_ULONG,"CKM_MD2"),
(CKM_MD2_HMAC as CK_ULONG,"CKM_MD2_HMAC"),
(CKM_MD2_HMAC_GENERAL as CK_ULONG,"CKM_MD2_HMAC_GENERAL"),
(CKM_MD5 as CK_ULONG,"CKM_MD5"),
(CKM_MD5_HMAC as CK_ULONG,"CKM_MD5_HMAC"),
(CKM_MD5_HMAC_GENERAL as CK_ULONG,"CKM_MD5_HMAC_GENERAL"),
(CKM_SHA_1 as CK_ULONG,"CKM_SHA_1"),
(CKM_SHA_1_HMAC as CK_ULONG,"CKM_SHA_1_HMAC"),
(CKM_SHA_1_HMAC_GENERAL as CK_ULONG,"CKM_SHA_1_HMAC_GENERAL"),
(CKM_RIPEMD128 as CK_ULONG,"CKM_RIPEMD128"),
(CKM_RIPEMD128_HMAC as CK_ULONG,"CKM_RIPEMD128_HMAC"),
(CKM_RIPEMD128_HMAC_GENERAL as CK_ULONG,"CKM_RIPEMD128_HMAC_GENERAL"),
(CKM_RIPEMD160 as CK_ULONG,"CKM_RIPEMD160"),
(CKM_RIPEMD160_HMAC as CK_ULONG,"CKM_RIPEMD160_HMAC"),
(CKM_RIPEMD160_HMAC_GENERAL as CK_ULONG,"CKM_RIPEMD160_HMAC_GENERAL"),
(CKM_SHA256 as CK_ULONG,"CKM_SHA256"),
(CKM_SHA256_HMAC as CK_ULONG,"CKM_SHA256_HMAC"),
(CKM_SHA256_HMAC_GENERAL as CK_ULONG,"CKM_SHA256_HMAC_GENERAL"),
(CKM_SHA224 as CK_ULONG,"CKM_SHA224"),
(CKM_SHA224_HMAC as CK_ULONG,"CKM_SHA224_HMAC"),
(CKM_SHA224_HMAC_GENERAL as CK_ULONG,"CKM_SHA224_HMAC_GENERAL"),
(CKM_SHA384 as CK_ULONG,"CKM_SHA384"),
(CKM_SHA384_HMAC as CK_ULONG,"CKM_SHA384_HMAC"),
(CKM_SHA384_HMAC_GENERAL as CK_ULONG,"CKM_SHA384_HMAC_GENERAL"),
(CKM_SHA512 as CK_ULONG,"CKM_SHA512"),
(CKM_SHA512_HMAC as CK_ULONG,"CKM_SHA512_HMAC"),
(CKM_SHA512_HMAC_GENERAL as CK_ULONG,"CKM_SHA512_HMAC_GENERAL"),
(CKM_SECURID_KEY_GEN as CK_ULONG,"CKM_SECURID_KEY_GEN"),
(CKM_SECURID as CK_ULONG,"CKM_SECURID"),
(CKM_HOTP_KEY_GEN as CK_ULONG,"CKM_HOTP_KEY_GEN"),
(CKM_HOTP as CK_ULONG,"CKM_HOTP"),
(CKM_ACTI as CK_ULONG,"CKM_ACTI"),
(CKM_ACTI_KEY_GEN as CK_ULONG,"CKM_ACTI_KEY_GEN"),
(CKM_SHA3_256 as CK_ULONG,"CKM_SHA3_256"),
(CKM_SHA3_256_HMAC as CK_ULONG,"CKM_SHA3_256_HMAC"),
(CKM_SHA3_256_HMAC_GENERAL as CK_ULONG,"CKM_SHA3_256_HMAC_GENERAL"),
(CKM_SHA3_256_KEY_GEN as CK_ULONG,"CKM_SHA3_256_KEY_GEN"),
(CKM_SHA3_224 as CK_ULONG,"CKM_SHA3_224"),
(CKM_SHA3_224_HMAC as CK_ULONG,"CKM_SHA3_224_HMAC"),
(CKM_SHA3_224_HMAC_GENERAL as CK_ULONG,"CKM_SHA3_224_HMAC_GENERAL"),
(CKM_SHA3_224_KEY_GEN as CK_ULONG,"CKM_SHA3_224_KEY_GEN"),
(CKM_SHA3_384 as CK_ULONG,"CKM_SHA3_384"),
(CKM_SHA3_384_HMAC as CK_ULONG,"CKM_SHA3_384_HMAC"),
(CKM_SHA3_384_HMAC_GENERAL as CK_ULONG,"CKM_SHA3_384_HMAC_GENERAL"),
(CKM_SHA3_384_KEY_GEN as CK_ULONG,"CKM_SHA3_384_KEY_GEN"),
(CKM_SHA3_512 as CK_ULONG,"CKM_SHA3_512"),
(CKM_SHA3_512_HMAC as CK_ULONG,"CKM_SHA3_512_HMAC"),
(CKM_SHA3_512_HMAC_GENERAL as CK_ULONG,"CKM_SHA3_512_HMAC_GENERAL"),
(CKM_SHA3_512_KEY_GEN as CK_ULONG,"CKM_SHA3_512_KEY_GEN"),
(CKM_CAST_KEY_GEN as CK_ULONG,"CKM_CAST_KEY_GEN"),
(CKM_CAST_ECB as CK_ULONG,"CKM_CAST_ECB"),
(CKM_CAST_CBC as CK_ULONG,"CKM_CAST_CBC"),
(CKM_CAST_MAC as CK_ULONG,"CKM_CAST_MAC"),
(CKM_CAST_MAC_GENERAL as CK_ULONG,"CKM_CAST_MAC_GENERAL"),
(CKM_CAST_CBC_PAD as CK_ULONG,"CKM_CAST_CBC_PAD"),
(CKM_CAST3_KEY_GEN as CK_ULONG,"CKM_CAST3_KEY_GEN"),
(CKM_CAST3_ECB as CK_ULONG,"CKM_CAST3_ECB"),
(CKM_CAST3_CBC as CK_ULONG,"CKM_CAST3_CBC"),
(CKM_CAST3_MAC as CK_ULONG,"CKM_CAST3_MAC"),
(CKM_CAST3_MAC_GENERAL as CK_ULONG,"CKM_CAST3_MAC_GENERAL"),
(CKM_CAST3_CBC_PAD as CK_ULONG,"CKM_CAST3_CBC_PAD"),
(CKM_CAST128_KEY_GEN as CK_ULONG,"CKM_CAST128_KEY_GEN"),
(CKM_CAST128_ECB as CK_ULONG,"CKM_CAST128_ECB"),
(CKM_CAST128_MAC as CK_ULONG,"CKM_CAST128_MAC"),
(CKM_CAST128_CBC as CK_ULONG,"CKM_CAST128_CBC"),
(CKM_CAST128_MAC_GENERAL as CK_ULONG,"CKM_CAST128_MAC_GENERAL"),
(CKM_CAST128_CBC_PAD as CK_ULONG,"CKM_CAST128_CBC_PAD"),
(CKM_RC5_KEY_GEN as CK_ULONG,"CKM_RC5_KEY_GEN"),
(CKM_RC5_ECB as CK_ULONG,"CKM_RC5_ECB"),
(CKM_RC5_CBC as CK_ULONG,"CKM_RC5_CBC"),
(CKM_RC5_MAC as CK_ULONG,"CKM_RC5_MAC"),
(CKM_RC5_MAC_GENERAL as CK_ULONG,"CKM_RC5_MAC_GENERAL"),
(CKM_RC5_CBC_PAD as CK_ULONG,"CKM_RC5_CBC_PAD"),
(CKM_IDEA_KEY_GEN as CK_ULONG,"CKM_IDEA_KEY_GEN"),
(CKM_IDEA_ECB as CK_ULONG,"CKM_IDEA_ECB"),
(CKM_IDEA_CBC as CK_ULONG,"CKM_IDEA_CBC"),
(CKM_IDEA_MAC as CK_ULONG,"CKM_IDEA_MAC"),
(CKM_IDEA_MAC_GENERAL as CK_ULONG,"CKM_IDEA_MAC_GENERAL"),
(CKM_IDEA_CBC_PAD as CK_ULONG,"CKM_IDEA_CBC_PAD"),
(CKM_GENERIC_SECRET_KEY_GEN as CK_ULONG,"CKM_GENERIC_SECRET_KEY_GEN"),
(CKM_CONCATENATE_BASE_AND_KEY as CK_ULONG,"CKM_CONCATENATE_BASE_AND_KEY"),
(CKM_CONCATENATE_BASE_AND_DATA as CK_ULONG,"CKM_CONCATENATE_BASE_AND_DATA"),
(CKM_CONCATENATE_DATA_AND_BASE as CK_ULONG,"CKM_CONCATENATE_DATA_AND_BASE"),
(CKM_XOR_BASE_AND_DATA as CK_ULONG,"CKM_XOR_BASE_AND_DATA"),
(CKM_EXTRACT_KEY_FROM_KEY as CK_ULONG,"CKM_EXTRACT_KEY_FROM_KEY"),
(CKM_SSL3_PRE_MASTER_KEY_GEN as CK_ULONG,"CKM_SSL3_PRE_MASTER_KEY_GEN"),
(CKM_SSL3_MASTER_KEY_DERIVE as CK_ULONG,"CKM_SSL3_MASTER_KEY_DERIVE"),
(CKM_SSL3_KEY_AND_MAC_DERIVE as CK_ULONG,"CKM_SSL3_KEY_AND_MAC_DERIVE"),
(CKM_SSL3_MASTER_KEY_DERIVE_DH as CK_ULONG,"CKM_SSL3_MASTER_KEY_DERIVE_DH"),
(CKM_TLS_PRE_MASTER_KEY_GEN as CK_ULONG,"CKM_TLS_PRE_MASTER_KEY_GEN"),
(CKM_TLS_MASTER_KEY_DERIVE as CK_ULONG,"CKM_TLS_MASTER_KEY_DERIVE"),
(CKM_TLS_KEY_AND_MAC_DERIVE as CK_ULONG,"CKM_TLS_KEY_AND_MAC_DERIVE"),
(CKM_TLS_MASTER_KEY_DERIVE_DH as CK_ULONG,"CKM_TLS_MASTER_KEY_DERIVE_DH"),
(CKM_TLS_PRF as CK_ULONG,"CKM_TLS_PRF"),
(CKM_SSL3_MD5_MAC as CK_ULONG,"CKM_SSL3_MD5_MAC"),
(CKM_SSL3_SHA1_MAC as CK_ULONG,"CKM_SSL3_SHA1_MAC"),
(CKM_MD5_KEY_DERIVATION as CK_ULONG,"CKM_MD5_KEY_DERIVATION"),
(CKM_MD2_KEY_DERIVATION as CK_ULONG,"CKM_MD2_KEY_DERIVATION"),
(CKM_SHA1_KEY_DERIVATION as CK_ULONG,"CKM_SHA1_KEY_DERIVATION"),
(CKM_SHA256_KEY_DERIVATION as CK_ULONG,"CKM_SHA256_KEY_DERIVATION"),
(CKM_SHA384_KEY_DERIVATION as CK_ULONG,"CKM_SHA384_KEY_DERIVATION"),
(CKM_SHA512_KEY_DERIVATION as CK_ULONG,"CKM_SHA512_KEY_DERIVATION"),
(CKM_SHA224_KEY_DERIVATION as CK_ULONG,"CKM_SHA224_KEY_DERIVATION"),
(CKM_SHA3_256_KEY_DERIVATION as CK_ULONG,"CKM_SHA3_256_KEY_DERIVATION"),
(CKM_SHA3_256_KEY_DERIVE as CK_ULONG,"CKM_SHA3_256_KEY_DERIVE"),
(CKM_SHA3_224_KEY_DERIVATION as CK_ULONG,"CKM_SHA3_224_KEY_DERIVATION"),
(CKM_SHA3_224_KEY_DERIVE as CK_ULONG,"CKM_SHA3_224_KEY_DERIVE"),
(CKM_SHA3_384_KEY_DERIVATION as CK_ULONG,"CKM_SHA3_384_KEY_DERIVATION"),
(CKM_SHA3_384_KEY_DERIVE as CK_ULONG,"CKM_SHA3_384_KEY_DERIVE"),
(CKM_SHA3_512_KEY_DERIVATION as CK_ULONG,"CKM_SHA3_512_KEY_DERIVATION"),
(CKM_SHA3_512_KEY_DERIVE as CK_ULONG,"CKM_SHA3_512_KEY_DERIVE"),
(CKM_SHAKE_128_KEY_DERIVATION as CK_ULONG,"CKM_SHAKE_128_KEY_DERIVATION"),
(CKM_SHAKE_128_KEY_DERIVE as CK_ULONG,"CKM_SHAKE_128_KEY_DERIVE"),
(CKM_SHAKE_256_KEY_DERIVATION as CK_ULONG,"CKM_SHAKE_256_KEY_DERIVATION"),
(CKM_SHAKE_256_KEY_DERIVE as CK_ULONG,"CKM_SHAKE_256_KEY_DERIVE"),
(CKM_PBE_MD2_DES_CBC as CK_ULONG,"CKM_PBE_MD2_DES_CBC"),
(CKM_PBE_MD5_DES_CBC as CK_ULONG,"CKM_PBE_MD5_DES_CBC"),
(CKM_PBE_MD5_CAST_CBC as CK_ULONG,"CKM_PBE_MD5_CAST_CBC"),
(CKM_PBE_MD5_CAST3_CBC as CK_ULONG,"CKM_PBE_MD5_CAST3_CBC"),
(CKM_PBE_MD5_CAST128_CBC as CK_ULONG,"CKM_PBE_MD5_CAST128_CBC"),
(CKM_PBE_SHA1_CAST128_CBC as CK_ULONG,"CKM_PBE_SHA1_CAST128_CBC"),
(CKM_PBE_SHA1_RC4_128 as CK_ULONG,"CKM_PBE_SHA1_RC4_128"),
(CKM_PBE_SHA1_RC4_40 as CK_ULONG,"CKM_PBE_SHA1_RC4_40"),
(CKM_PBE_SHA1_DES3_EDE_CBC as CK_ULONG,"CKM_PBE_SHA1_DES3_EDE_CBC"),
(CKM_PBE_SHA1_DES2_EDE_CBC as CK_ULONG,"CKM_PBE_SHA1_DES2_EDE_CBC"),
(CKM_PBE_SHA1_RC2_128_CBC as CK_ULONG,"CKM_PBE_SHA1_RC2_128_CBC"),
(CKM_PBE_SHA1_RC2_40_CBC as CK_ULONG,"CKM_PBE_SHA1_RC2_40_CBC"),
(CKM_PKCS5_PBKD2 as CK_ULONG,"CKM_PKCS5_PBKD2"),
(CKM_PBA_SHA1_WITH_SHA1_HMAC as CK_ULONG,"CKM_PBA_SHA1_WITH_SHA1_HMAC"),
(CKM_WTLS_PRE_MASTER_KEY_GEN as CK_ULONG,"CKM_WTLS_PRE_MASTER_KEY_GEN"),
(CKM_WTLS_MASTER_KEY_DERIVE as CK_ULONG,"CKM_WTLS_MASTER_KEY_DERIVE"),
(CKM_WTLS_MASTER_KEY_DERIVE_DH_ECC as CK_ULONG,"CKM_WTLS_MASTER_KEY_DERIVE_DH_ECC"),
(CKM_WTLS_PRF as CK_ULONG,"CKM_WTLS_PRF"),
(CKM_WTLS_SERVER_KEY_AND_MAC_DERIVE as CK_ULONG,"CKM_WTLS_SERVER_KEY_AND_MAC_DERIVE"),
(CKM_WTLS_CLIENT_KEY_AND_MAC_DERIVE as CK_ULONG,"CKM_WTLS_CLIENT_KEY_AND_MAC_DERIVE"),
(CKM_TLS10_MAC_SERVER as CK_ULONG,"CKM_TLS10_MAC_SERVER"),
(CKM_TLS10_MAC_CLIENT as CK_ULONG,"CKM_TLS10_MAC_CLIENT"),
(CKM_TLS12_MAC as CK_ULONG,"CKM_TLS12_MAC"),
(CKM_TLS12_KDF as CK_ULONG,"CKM_TLS12_KDF"),
(CKM_TLS12_MASTER_KEY_DERIVE as CK_ULONG,"CKM_TLS12_MASTER_KEY_DERIVE"),
(CKM_TLS12_KEY_AND_MAC_DERIVE as CK_ULONG,"CKM_TLS12_KEY_AND_MAC_DERIVE"),
(CKM_TLS12_MASTER_KEY_DERIVE_DH as CK_ULONG,"CKM_TLS12_MASTER_KEY_DERIVE_DH"),
(CKM_TLS12_KEY_SAFE_DERIVE as CK_ULONG,"CKM_TLS12_KEY_SAFE_DERIVE"),
(CKM_TLS_MAC as CK_ULONG,"CKM_TLS_MAC"),
(CKM_TLS_KDF as CK_ULONG,"CKM_TLS_KDF"),
(CKM_KEY_WRAP_LYNKS as CK_ULONG,"CKM_KEY_WRAP_LYNKS"),
(CKM_KEY_WRAP_SET_OAEP as CK_ULONG,"CKM_KEY_WRAP_SET_OAEP"),
(CKM_CMS_SIG as CK_ULONG,"CKM_CMS_SIG"),
(CKM_KIP_DERIVE as CK_ULONG,"CKM_KIP_DERIVE"),
(CKM_KIP_WRAP as CK_ULONG,"CKM_KIP_WRAP"),
(CKM_KIP_MAC as CK_ULONG,"CKM_KIP_MAC"),
(CKM_CAMELLIA_KEY_GEN as CK_ULONG,"CKM_CAMELLIA_KEY_GEN"),
(CKM_CAMELLIA_ECB as CK_ULONG,"CKM_CAMELLIA_ECB"),
(CKM_CAMELLIA_CBC as CK_ULONG,"CKM_CAMELLIA_CBC"),
(CKM_CAMELLIA_MAC as CK_ULONG,"CKM_CAMELLIA_MAC"),
(CKM_CAMELLIA_MAC_GENERAL as CK_ULONG,"CKM_CAMELLIA_MAC_GENERAL"),
(CKM_CAMELLIA_CBC_PAD as CK_ULONG,"CKM_CAMELLIA_CBC_PAD"),
(CKM_CAMELLIA_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_CAMELLIA_ECB_ENCRYPT_DATA"),
(CKM_CAMELLIA_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_CAMELLIA_CBC_ENCRYPT_DATA"),
(CKM_CAMELLIA_CTR as CK_ULONG,"CKM_CAMELLIA_CTR"),
(CKM_ARIA_KEY_GEN as CK_ULONG,"CKM_ARIA_KEY_GEN"),
(CKM_ARIA_ECB as CK_ULONG,"CKM_ARIA_ECB"),
(CKM_ARIA_CBC as CK_ULONG,"CKM_ARIA_CBC"),
(CKM_ARIA_MAC as CK_ULONG,"CKM_ARIA_MAC"),
(CKM_ARIA_MAC_GENERAL as CK_ULONG,"CKM_ARIA_MAC_GENERAL"),
(CKM_ARIA_CBC_PAD as CK_ULONG,"CKM_ARIA_CBC_PAD"),
(CKM_ARIA_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_ARIA_ECB_ENCRYPT_DATA"),
(CKM_ARIA_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_ARIA_CBC_ENCRYPT_DATA"),
(CKM_SEED_KEY_GEN as CK_ULONG,"CKM_SEED_KEY_GEN"),
(CKM_SEED_ECB as CK_ULONG,"CKM_SEED_ECB"),
(CKM_SEED_CBC as CK_ULONG,"CKM_SEED_CBC"),
(CKM_SEED_MAC as CK_ULONG,"CKM_SEED_MAC"),
(CKM_SEED_MAC_GENERAL as CK_ULONG,"CKM_SEED_MAC_GENERAL"),
(CKM_SEED_CBC_PAD as CK_ULONG,"CKM_SEED_CBC_PAD"),
(CKM_SEED_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_SEED_ECB_ENCRYPT_DATA"),
(CKM_SEED_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_SEED_CBC_ENCRYPT_DATA"),
(CKM_SKIPJACK_KEY_GEN as CK_ULONG,"CKM_SKIPJACK_KEY_GEN"),
(CKM_SKIPJACK_ECB64 as CK_ULONG,"CKM_SKIPJACK_ECB64"),
(CKM_SKIPJACK_CBC64 as CK_ULONG,"CKM_SKIPJACK_CBC64"),
(CKM_SKIPJACK_OFB64 as CK_ULONG,"CKM_SKIPJACK_OFB64"),
(CKM_SKIPJACK_CFB64 as CK_ULONG,"CKM_SKIPJACK_CFB64"),
(CKM_SKIPJACK_CFB32 as CK_ULONG,"CKM_SKIPJACK_CFB32"),
(CKM_SKIPJACK_CFB16 as CK_ULONG,"CKM_SKIPJACK_CFB16"),
(CKM_SKIPJACK_CFB8 as CK_ULONG,"CKM_SKIPJACK_CFB8"),
(CKM_SKIPJACK_WRAP as CK_ULONG,"CKM_SKIPJACK_WRAP"),
(CKM_SKIPJACK_PRIVATE_WRAP as CK_ULONG,"CKM_SKIPJACK_PRIVATE_WRAP"),
(CKM_SKIPJACK_RELAYX as CK_ULONG,"CKM_SKIPJACK_RELAYX"),
(CKM_KEA_KEY_PAIR_GEN as CK_ULONG,"CKM_KEA_KEY_PAIR_GEN"),
(CKM_KEA_KEY_DERIVE as CK_ULONG,"CKM_KEA_KEY_DERIVE"),
(CKM_KEA_DERIVE as CK_ULONG,"CKM_KEA_DERIVE"),
(CKM_FORTEZZA_TIMESTAMP as CK_ULONG,"CKM_FORTEZZA_TIMESTAMP"),
(CKM_BATON_KEY_GEN as CK_ULONG,"CKM_BATON_KEY_GEN"),
(CKM_BATON_ECB128 as CK_ULONG,"CKM_BATON_ECB128"),
(CKM_BATON_ECB96 as CK_ULONG,"CKM_BATON_ECB96"),
(CKM_BATON_CBC128 as CK_ULONG,"CKM_BATON_CBC128"),
(CKM_BATON_COUNTER as CK_ULONG,"CKM_BATON_COUNTER"),
(CKM_BATON_SHUFFLE as CK_ULONG,"CKM_BATON_SHUFFLE"),
(CKM_BATON_WRAP as CK_ULONG,"CKM_BATON_WRAP"),
(CKM_EC_KEY_PAIR_GEN as CK_ULONG,"CKM_EC_KEY_PAIR_GEN"),
(CKM_ECDSA as CK_ULONG,"CKM_ECDSA"),
(CKM_ECDSA_SHA1 as CK_ULONG,"CKM_ECDSA_SHA1"),
(CKM_ECDSA_SHA224 as CK_ULONG,"CKM_ECDSA_SHA224"),
(CKM_ECDSA_SHA256 as CK_ULONG,"CKM_ECDSA_SHA256"),
(CKM_ECDSA_SHA384 as CK_ULONG,"CKM_ECDSA_SHA384"),
(CKM_ECDSA_SHA512 as CK_ULONG,"CKM_ECDSA_SHA512"),
(CKM_EC_KEY_PAIR_GEN_W_EXTRA_BITS as CK_ULONG,"CKM_EC_KEY_PAIR_GEN_W_EXTRA_BITS"),
(CKM_ECDH1_DERIVE as CK_ULONG,"CKM_ECDH1_DERIVE"),
(CKM_ECDH1_COFACTOR_DERIVE as CK_ULONG,"CKM_ECDH1_COFACTOR_DERIVE"),
(CKM_ECMQV_DERIVE as CK_ULONG,"CKM_ECMQV_DERIVE"),
(CKM_ECDH_AES_KEY_WRAP as CK_ULONG,"CKM_ECDH_AES_KEY_WRAP"),
(CKM_RSA_AES_KEY_WRAP as CK_ULONG,"CKM_RSA_AES_KEY_WRAP"),
(CKM_JUNIPER_KEY_GEN as CK_ULONG,"CKM_JUNIPER_KEY_GEN"),
(CKM_JUNIPER_ECB128 as CK_ULONG,"CKM_JUNIPER_ECB128"),
(CKM_JUNIPER_CBC128 as CK_ULONG,"CKM_JUNIPER_CBC128"),
(CKM_JUNIPER_COUNTER as CK_ULONG,"CKM_JUNIPER_COUNTER"),
(CKM_JUNIPER_SHUFFLE as CK_ULONG,"CKM_JUNIPER_SHUFFLE"),
(CKM_JUNIPER_WRAP as CK_ULONG,"CKM_JUNIPER_WRAP"),
(CKM_FASTHASH as CK_ULONG,"CKM_FASTHASH"),
(CKM_AES_XTS as CK_ULONG,"CKM_AES_XTS"),
(CKM_AES_XTS_KEY_GEN as CK_ULONG,"CKM_AES_XTS_KEY_GEN"),
(CKM_AES_KEY_GEN as CK_ULONG,"CKM_AES_KEY_GEN"),
(CKM_AES_ECB as CK_ULONG,"CKM_AES_ECB"),
(CKM_AES_CBC as CK_ULONG,"CKM_AES_CBC"),
(CKM_AES_MAC as CK_ULONG,"CKM_AES_MAC"),
(CKM_AES_MAC_GENERAL as CK_ULONG,"CKM_AES_MAC_GENERAL"),
(CKM_AES_CBC_PAD as CK_ULONG,"CKM_AES_CBC_PAD"),
(CKM_AES_CTR as CK_ULONG,"CKM_AES_CTR"),
(CKM_AES_GCM as CK_ULONG,"CKM_AES_GCM"),
(CKM_AES_CCM as CK_ULONG,"CKM_AES_CCM"),
(CKM_AES_CTS as CK_ULONG,"CKM_AES_CTS"),
(CKM_AES_CMAC as CK_ULONG,"CKM_AES_CMAC"),
(CKM_AES_CMAC_GENERAL as CK_ULONG,"CKM_AES_CMAC_GENERAL"),
(CKM_AES_XCBC_MAC as CK_ULONG,"CKM_AES_XCBC_MAC"),
(CKM_AES_XCBC_MAC_96 as CK_ULONG,"CKM_AES_XCBC_MAC_96"),
(CKM_AES_GMAC as CK_ULONG,"CKM_AES_GMAC"),
(CKM_BLOWFISH_KEY_GEN as CK_ULONG,"CKM_BLOWFISH_KEY_GEN"),
(CKM_BLOWFISH_CBC as CK_ULONG,"CKM_BLOWFISH_CBC"),
(CKM_TWOFISH_KEY_GEN as CK_ULONG,"CKM_TWOFISH_KEY_GEN"),
(CKM_TWOFISH_CBC as CK_ULONG,"CKM_TWOFISH_CBC"),
(CKM_BLOWFISH_CBC_PAD as CK_ULONG,"CKM_BLOWFISH_CBC_PAD"),
(CKM_TWOFISH_CBC_PAD as CK_ULONG,"CKM_TWOFISH_CBC_PAD"),
(CKM_DES_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_DES_ECB_ENCRYPT_DATA"),
(CKM_DES_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_DES_CBC_ENCRYPT_DATA"),
(CKM_DES3_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_DES3_ECB_ENCRYPT_DATA"),
(CKM_DES3_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_DES3_CBC_ENCRYPT_DATA"),
(CKM_AES_ECB_ENCRYPT_DATA as CK_ULONG,"CKM_AES_ECB_ENCRYPT_DATA"),
(CKM_AES_CBC_ENCRYPT_DATA as CK_ULONG,"CKM_AES_CBC_ENCRYPT_DATA"),
(CKM_GOSTR3410_KEY_PAIR_GEN as CK_ULONG,"CKM_GOSTR3410_KEY_PAIR_GEN"),
(CKM_GOSTR3410 as CK_ULONG,"CKM_GOSTR3410"),
(CKM_GOSTR3410_WITH_GOSTR3411 as CK_ULONG,"CKM_GOSTR3410_WITH_GOSTR3411"),
(CKM_GOSTR3410_KEY_WRAP as CK_ULONG,"CKM_GOSTR3410_KEY_WRAP"),
(CKM_GOSTR3410_DERIVE as CK_ULONG,"CKM_GOSTR3410_DERIVE"),
(CKM_GOSTR3411 as CK_ULONG,"CKM_GOSTR3411"),
(CKM_GOSTR3411_HMAC as CK_ULONG,"CKM_GOSTR3411_HMAC"),
(CKM_GOST28147_KEY_GEN as CK_ULONG,"CKM_GOST28147_KEY_GEN"),
(CKM_GOST28147_ECB as CK_ULONG,"CKM_GOST28147_ECB"),
(CKM_GOST28147 as CK_ULONG,"CKM_GOST28147"),
(CKM_GOST28147_MAC as CK_ULONG,"CKM_GOST28147_MAC"),
(CKM_GOST28147_KEY_WRAP as CK_ULONG,"CKM_GOST28147_KEY_WRAP"),
(CKM_CHACHA20_KEY_GEN as CK_ULONG,"CKM_CHACHA20_KEY_GEN"),
(CKM_CHACHA20 as CK_ULONG,"CKM_CHACHA20"),
(CKM_POLY1305_KEY_GEN as CK_ULONG,"CKM_POLY1305_KEY_GEN"),
(CKM_POLY1305 as CK_ULONG,"CKM_POLY1305"),
(CKM_DSA_PARAMETER_GEN as CK_ULONG,"CKM_DSA_PARAMETER_GEN"),
(CKM_DH_PKCS_PARAMETER_GEN as CK_ULONG,"CKM_DH_PKCS_PARAMETER_GEN"),
(CKM_X9_42_DH_PARAMETER_GEN as CK_ULONG,"CKM_X9_42_DH_PARAMETER_GEN"),
(CKM_DSA_PROBABILISTIC_PARAMETER_GEN as CK_ULONG,"CKM_DSA_PROBABILISTIC_PARAMETER_GEN"),
(CKM_DSA_SHAWE_TAYLOR_PARAMETER_GEN as CK_ULONG,"CKM_DSA_SHAWE_TAYLOR_PARAMETER_GEN"),
(CKM_DSA_FIPS_G_GEN as CK_ULONG,"CKM_DSA_FIPS_G_GEN"),
(CKM_AES_OFB as CK_ULONG,"CKM_AES_OFB"),
(CKM_AES_CFB64 as CK_ULONG,"CKM_AES_CFB64"),
(CKM_AES_CFB8 as CK_ULONG,"CKM_AES_CFB8"),
(CKM_AES_CFB128 as CK_ULONG,"CKM_AES_CFB128"),
(CKM_AES_CFB1 as CK_ULONG,"CKM_AES_CFB1"),
(CKM_AES_KEY_WRAP as CK_ULONG,"CKM_AES_KEY_WRAP"),
(CKM_AES_KEY_WRAP_PAD as CK_ULONG,"CKM_AES_KEY_WRAP_PAD"),
(CKM_AES_KEY_WRAP_KWP as CK_ULONG,"CKM_AES_KEY_WRAP_KWP"),
(CKM_AES_KEY_WRAP_PKCS7 as CK_ULONG,"CKM_AES_KEY_WRAP_PKCS7"),
(CKM_RSA_PKCS_TPM_1_1 as CK_ULONG,"CKM_RSA_PKCS_TPM_1_1"),
(CKM_RSA_PKCS_OAEP_TPM_1_1 as CK_ULONG,"CKM_RSA_PKCS_OAEP_TPM_1_1"),
(CKM_SHA_1_KEY_GEN as CK_ULONG,"CKM_SHA_1_KEY_GEN"),
(CKM_SHA224_KEY_GEN as CK_ULONG,"CKM_SHA224_KEY_GEN"),
(CKM_SHA256_KEY_GEN as CK_ULONG,"CKM_SHA256_KEY_GEN"),
(CKM_SHA384_KEY_GEN as CK_ULONG,"CKM_SHA384_KEY_GEN"),
(CKM_SHA512_KEY_GEN as CK_ULONG,"CKM_SHA512_KEY_GEN"),
(CKM_SHA512_224_KEY_GEN as CK_ULONG,"CKM_SHA512_224_KEY_GEN"),
(CKM_SHA512_256_KEY_GEN as CK_ULONG,"CKM_SHA512_256_KEY_GEN"),
(CKM_SHA512_T_KEY_GEN as CK_ULONG,"CKM_SHA512_T_KEY_GEN"),
(CKM_NULL as CK_ULONG,"CKM_NULL"),
(CKM_BLAKE2B_160 as CK_ULONG,"CKM_BLAKE2B_160"),
(CKM_BLAKE2B_160_HMAC as CK_ULONG,"CKM_BLAKE2B_160_HMAC"),
(CKM_BLAKE2B_160_HMAC_GENERAL as CK_ULONG,"CKM_BLAKE2B_160_HMAC_GENERAL"),
(CKM_BLAKE2B_160_KEY_DERIVE as CK_ULONG,"CKM_BLAKE2B_160_KEY_DERIVE"),
(CKM_BLAKE2B_160_KEY_GEN as CK_ULONG,"CKM_BLAKE2B_160_KEY_GEN"),
(CKM_BLAKE2B_256 as CK_ULONG,"CKM_BLAKE2B_256"),
(CKM_BLAKE2B_256_HMAC as CK_ULONG,"CKM_BLAKE2B_256_HMAC"),
(CKM_BLAKE2B_256_HMAC_GENERAL as CK_ULONG,"CKM_BLAKE2B_256_HMAC_GENERAL"),
(CKM_BLAKE2B_256_KEY_DERIVE as CK_ULONG,"CKM_BLAKE2B_256_KEY_DERIVE"),
(CKM_BLAKE2B_256_KEY_GEN as CK_ULONG,"CKM_BLAKE2B_256_KEY_GEN"),
(CKM_BLAKE2B_384 as CK_ULONG,"CKM_BLAKE2B_384"),
(CKM_BLAKE2B_384_HMAC as CK_ULONG,"CKM_BLAKE2B_384_HMAC"),
(CKM_BLAKE2B_384_HMAC_GENERAL as CK_ULONG,"CKM_BLAKE2B_384_HMAC_GENERAL"),
(CKM_BLAKE2B_384_KEY_DERIVE as CK_ULONG,"CKM_BLAKE2B_384_KEY_DERIVE"),
(CKM_BLAKE2B_384_KEY_GEN as CK_ULONG,"CKM_BLAKE2B_384_KEY_GEN"),
(CKM_BLAKE2B_512 as CK_ULONG,"CKM_BLAKE2B_512"),
(CKM_BLAKE2B_512_HMAC as CK_ULONG,"CKM_BLAKE2B_512_HMAC"),
(CKM_BLAKE2B_512_HMAC_GENERAL as CK_ULONG,"CKM_BLAKE2B_512_HMAC_GENERAL"),
(CKM_BLAKE2B_512_KEY_DERIVE as CK_ULONG,"CKM_BLAKE2B_512_KEY_DERIVE"),
(CKM_BLAKE2B_512_KEY_GEN as CK_ULONG,"CKM_BLAKE2B_512_KEY_GEN"),
(CKM_SALSA20 as CK_ULONG,"CKM_SALSA20"),
(CKM_CHACHA20_POLY1305 as CK_ULONG,"CKM_CHACHA20_POLY1305"),
(CKM_SALSA20_POLY1305 as CK_ULONG,"CKM_SALSA20_POLY1305"),
(CKM_X3DH_INITIALIZE as CK_ULONG,"CKM_X3DH_INITIALIZE"),
(CKM_X3DH_RESPOND as CK_ULONG,"CKM_X3DH_RESPOND"),
(CKM_X2RATCHET_INITIALIZE as CK_ULONG,"CKM_X2RATCHET_INITIALIZE"),
(CKM_X2RATCHET_RESPOND as CK_ULONG,"CKM_X2RATCHET_RESPOND"),
(CKM_X2RATCHET_ENCRYPT as CK_ULONG,"CKM_X2RATCHET_ENCRYPT"),
(CKM_X2RATCHET_DECRYPT as CK_ULONG,"CKM_X2RATCHET_DECRYPT"),
(CKM_XEDDSA as CK_ULONG,"CKM_XEDDSA"),
(CKM_HKDF_DERIVE as CK_ULONG,"CKM_HKDF_DERIVE"),
(CKM_HKDF_DATA as CK_ULONG,"CKM_HKDF_DATA"),
(CKM_HKDF_KEY_GEN as CK_ULONG,"CKM_HKDF_KEY_GEN"),
(CKM_SALSA20_KEY_GEN as CK_ULONG,"CKM_SALSA20_KEY_GEN"),
(CKM_ECDSA_SHA3_224 as CK_ULONG,"CKM_ECDSA_SHA3_224"),
(CKM_ECDSA_SHA3_256 as CK_ULONG,"CKM_ECDSA_SHA3_256"),
(CKM_ECDSA_SHA3_384 as CK_ULONG,"CKM_ECDSA_SHA3_384"),
(CKM_ECDSA_SHA3_512 as CK_ULONG,"CKM_ECDSA_SHA3_512"),
(CKM_EC_EDWARDS_KEY_PAIR_GEN as CK_ULONG,"CKM_EC_EDWARDS_KEY_PAIR_GEN"),
(CKM_EC_MONTGOMERY_KEY_PAIR_GEN as CK_ULONG,"CKM_EC_MONTGOMERY_KEY_PAIR_GEN"),
(CKM_EDDSA as CK_ULONG,"CKM_EDDSA"),
(CKM_SP800_108_COUNTER_KDF as CK_ULONG,"CKM_SP800_108_COUNTER_KDF"),
(CKM_SP800_108_FEEDBACK_KDF as CK_ULONG,"CKM_SP800_108_FEEDBACK_KDF"),
(CKM_SP800_108_DOUBLE_PIPELINE_KDF as CK_ULONG,"CKM_SP800_108_DOUBLE_PIPELINE_KDF"),
(CKM_IKE2_PRF_PLUS_DERIVE as CK_ULONG,"CKM_IKE2_PRF_PLUS_DERIVE"),
(CKM_IKE_PRF_DERIVE as CK_ULONG,"CKM_IKE_PRF_DERIVE"),
(CKM_IKE1_PRF_DERIVE as CK_ULONG,"CKM_IKE1_PRF_DERIVE"),
(CKM_IKE1_EXTENDED_DERIVE as CK_ULONG,"CKM_IKE1_EXTENDED_DERIVE"),
(CKM_HSS_KEY_PAIR_GEN as CK_ULONG,"CKM_HSS_KEY_PAIR_GEN"),
(CKM_HSS as CK_ULONG,"CKM_HSS"),
(CKM_XMSS_KEY_PAIR_GEN as CK_ULONG,"CKM_XMSS_KEY_PAIR_GEN"),
(CKM_XMSSMT_KEY_PAIR_GEN as CK_ULONG,"CKM_XMSSMT_KEY_PAIR_GEN"),
(CKM_XMSS as CK_ULONG,"CKM_XMSS"),
(CKM_XMSSMT as CK_ULONG,"CKM_XMSSMT"),
(CKM_ECDH_X_AES_KEY_WRAP as CK_ULONG,"CKM_ECDH_X_AES_KEY_WRAP"),
(CKM_ECDH_COF_AES_KEY_WRAP as CK_ULONG,"CKM_ECDH_COF_AES_KEY_WRAP"),
(CKM_PUB_KEY_FROM_PRIV_KEY as CK_ULONG,"CKM_PUB_KEY_FROM_PRIV_KEY"),
(CKM_VENDOR_DEFINED as CK_ULONG,"CKM_VENDOR_DEFINED"),
];
pub static CKA_T: &[(CK_ULONG,&str)] = &[
(CKA_CLASS as CK_ULONG,"CKA_CLASS"),
(CKA_TOKEN as CK_ULONG,"CKA_TOKEN"),
(CKA_PRIVATE as CK_ULONG,"CKA_PRIVATE"),
(CKA_LABEL as CK_ULONG,"CKA_LABEL"),
(CKA_UNIQUE_ID as CK_ULONG,"CKA_UNIQUE_ID"),
(CKA_APPLICATION as CK_ULONG,"CKA_APPLICATION"),
(CKA_VALUE as CK_ULONG,"CKA_VALUE"),
(CKA_OBJECT_ID as CK_ULONG,"CKA_OBJECT_ID"),
(CKA_CERTIFICATE_TYPE as CK_ULONG,"CKA_CERTIFICATE_TYPE"),
(CKA_ISSUER as CK_ULONG,"CKA_ISSUER"),
(CKA_SERIAL_NUMBER as CK_ULONG,"CKA_SERIAL_NUMBER"),
(CKA_AC_ISSUER as CK_ULONG,"CKA_AC_ISSUER"),
(CKA_OWNER as CK_ULONG,"CKA_OWNER"),
(CKA_ATTR_TYPES as CK_ULONG,"CKA_ATTR_TYPES"),
(CKA_TRUSTED as CK_ULONG,"CKA_TRUSTED"),
(CKA_CERTIFICATE_CATEGORY as CK_ULONG,"CKA_CERTIFICATE_CATEGORY"),
(CKA_JAVA_MIDP_SECURITY_DOMAIN as CK_ULONG,"CKA_JAVA_MIDP_SECURITY_DOMAIN"),
(CKA_URL as CK_ULONG,"CKA_URL"),
(CKA_HASH_OF_SUBJECT_PUBLIC_KEY as CK_ULONG,"CKA_HASH_OF_SUBJECT_PUBLIC_KEY"),
(CKA_HASH_OF_ISSUER_PUBLIC_KEY as CK_ULONG,"CKA_HASH_OF_ISSUER_PUBLIC_KEY"),
(CKA_NAME_HASH_ALGORITHM as CK_ULONG,"CKA_NAME_HASH_ALGORITHM"),
(CKA_CHECK_VALUE as CK_ULONG,"CKA_CHECK_VALUE"),
(CKA_KEY_TYPE as CK_ULONG,"CKA_KEY_TYPE"),
(CKA_SUBJECT as CK_ULONG,"CKA_SUBJECT"),
(CKA_ID as CK_ULONG,"CKA_ID"),
(CKA_SENSITIVE as CK_ULONG,"CKA_SENSITIVE"),
(CKA_ENCRYPT as CK_ULONG,"CKA_ENCRYPT"),
(CKA_DECRYPT as CK_ULONG,"CKA_DECRYPT"),
(CKA_WRAP as CK_ULONG,"CKA_WRAP"),
(CKA_UNWRAP as CK_ULONG,"CKA_UNWRAP"),
(CKA_SIGN as CK_ULONG,"CKA_SIGN"),
(CKA_SIGN_RECOVER as CK_ULONG,"CKA_SIGN_RECOVER"),
(CKA_VERIFY as CK_ULONG,"CKA_VERIFY"),
(CKA_VERIFY_RECOVER as CK_ULONG,"CKA_VERIFY_RECOVER"),
(CKA_DERIVE as CK_ULONG,"CKA_DERIVE"),
(CKA_START_DATE as CK_ULONG,"CKA_START_DATE"),
(CKA_END_DATE as CK_ULONG,"CKA_END_DATE"),
(CKA_MODULUS as CK_ULONG,"CKA_MODULUS"),
(CKA_MODULUS_BITS as CK_ULONG,"CKA_MODULUS_BITS"),
(CKA_PUBLIC_EXPONENT as CK_ULONG,"CKA_PUBLIC_EXPONENT"),
(CKA_PRIVATE_EXPONENT as CK_ULONG,"CKA_PRIVATE_EXPONENT"),
(CKA_PRIME_1 as CK_ULONG,"CKA_PRIME_1"),
(CKA_PRIME_2 as CK_ULONG,"CKA_PRIME_2"),
(CKA_EXPONENT_1 as CK_ULONG,"CKA_EXPONENT_1"),
(CKA_EXPONENT_2 as CK_ULONG,"CKA_EXPONENT_2"),
(CKA_COEFFICIENT as CK_ULONG,"CKA_COEFFICIENT"),
(CKA_PUBLIC_KEY_INFO as CK_ULONG,"CKA_PUBLIC_KEY_INFO"),
(CKA_PRIME as CK_ULONG,"CKA_PRIME"),
(CKA_SUBPRIME as CK_ULONG,"CKA_SUBPRIME"),
(CKA_BASE as CK_ULONG,"CKA_BASE"),
(CKA_PRIME_BITS as CK_ULONG,"CKA_PRIME_BITS"),
(CKA_SUBPRIME_BITS as CK_ULONG,"CKA_SUBPRIME_BITS"),
(CKA_SUB_PRIME_BITS as CK_ULONG,"CKA_SUB_PRIME_BITS"),
(CKA_VALUE_BITS as CK_ULONG,"CKA_VALUE_BITS"),
(CKA_VALUE_LEN as CK_ULONG,"CKA_VALUE_LEN"),
(CKA_EXTRACTABLE as CK_ULONG,"CKA_EXTRACTABLE"),
(CKA_LOCAL as CK_ULONG,"CKA_LOCAL"),
(CKA_NEVER_EXTRACTABLE as CK_ULONG,"CKA_NEVER_EXTRACTABLE"),
(CKA_ALWAYS_SENSITIVE as CK_ULONG,"CKA_ALWAYS_SENSITIVE"),
(CKA_KEY_GEN_MECHANISM as CK_ULONG,"CKA_KEY_GEN_MECHANISM"),
(CKA_MODIFIABLE as CK_ULONG,"CKA_MODIFIABLE"),
(CKA_COPYABLE as CK_ULONG,"CKA_COPYABLE"),
(CKA_DESTROYABLE as CK_ULONG,"CKA_DESTROYABLE"),
(CKA_EC_PARAMS as CK_ULONG,"CKA_EC_PARAMS"),
(CKA_EC_POINT as CK_ULONG,"CKA_EC_POINT"),
(CKA_ALWAYS_AUTHENTICATE as CK_ULONG,"CKA_ALWAYS_AUTHENTICATE"),
(CKA_WRAP_WITH_TRUSTED as CK_ULONG,"CKA_WRAP_WITH_TRUSTED"),
(CKA_OTP_FORMAT as CK_ULONG,"CKA_OTP_FORMAT"),
(CKA_OTP_LENGTH as CK_ULONG,"CKA_OTP_LENGTH"),
(CKA_OTP_TIME_INTERVAL as CK_ULONG,"CKA_OTP_TIME_INTERVAL"),
(CKA_OTP_USER_FRIENDLY_MODE as CK_ULONG,"CKA_OTP_USER_FRIENDLY_MODE"),
(CKA_OTP_CHALLENGE_REQUIREMENT as CK_ULONG,"CKA_OTP_CHALLENGE_REQUIREMENT"),
(CKA_OTP_TIME_REQUIREMENT as CK_ULONG,"CKA_OTP_TIME_REQUIREMENT"),
(CKA_OTP_COUNTER_REQUIREMENT as CK_ULONG,"CKA_OTP_COUNTER_REQUIREMENT"),
(CKA_OTP_PIN_REQUIREMENT as CK_ULONG,"CKA_OTP_PIN_REQUIREMENT"),
(CKA_OTP_COUNTER as CK_ULONG,"CKA_OTP_COUNTER"),
(CKA_OTP_TIME as CK_ULONG,"CKA_OTP_TIME"),
(CKA_OTP_USER_IDENTIFIER as CK_ULONG,"CKA_OTP_USER_IDENTIFIER"),
(CKA_OTP_SERVICE_IDENTIFIER as CK_ULONG,"CKA_OTP_SERVICE_IDENTIFIER"),
(CKA_OTP_SERVICE_LOGO as CK_ULONG,"CKA_OTP_SERVICE_LOGO"),
(CKA_OTP_SERVICE_LOGO_TYPE as CK_ULONG,"CKA_OTP_SERVICE_LOGO_TYPE"),
(CKA_GOSTR3410_PARAMS as CK_ULONG,"CKA_GOSTR3410_PARAMS"),
(CKA_GOSTR3411_PARAMS as CK_ULONG,"CKA_GOSTR3411_PARAMS"),
(CKA_GOST28147_PARAMS as CK_ULONG,"CKA_GOST28147_PARAMS"),
(CKA_HW_FEATURE_TYPE as CK_ULONG,"CKA_HW_FEATURE_TYPE"),
(CKA_RESET_ON_INIT as CK_ULONG,"CKA_RESET_ON_INIT"),
(CKA_HAS_RESET as CK_ULONG,"CKA_HAS_RESET"),
(CKA_PIXEL_X as CK_ULONG,"CKA_PIXEL_X"),
(CKA_PIXEL_Y as CK_ULONG,"CKA_PIXEL_Y"),
(CKA_RESOLUTION as CK_ULONG,"CKA_RESOLUTION"),
(CKA_CHAR_ROWS as CK_ULONG,"CKA_CHAR_ROWS"),
(CKA_CHAR_COLUMNS as CK_ULONG,"CKA_CHAR_COLUMNS"),
(CKA_COLOR as CK_ULONG,"CKA_COLOR"),
(CKA_BITS_PER_PIXEL as CK_ULONG,"CKA_BITS_PER_PIXEL"),
(CKA_CHAR_SETS as CK_ULONG,"CKA_CHAR_SETS"),
(CKA_ENCODING_METHODS as CK_ULONG,"CKA_ENCODING_METHODS"),
(CKA_MIME_TYPES as CK_ULONG,"CKA_MIME_TYPES"),
(CKA_MECHANISM_TYPE as CK_ULONG,"CKA_MECHANISM_TYPE"),
(CKA_REQUIRED_CMS_ATTRIBUTES as CK_ULONG,"CKA_REQUIRED_CMS_ATTRIBUTES"),
(CKA_DEFAULT_CMS_ATTRIBUTES as CK_ULONG,"CKA_DEFAULT_CMS_ATTRIBUTES"),
(CKA_SUPPORTED_CMS_ATTRIBUTES as CK_ULONG,"CKA_SUPPORTED_CMS_ATTRIBUTES"),
(CKA_PROFILE_ID as CK_ULONG,"CKA_PROFILE_ID"),
(CKA_X2RATCHET_BAG as CK_ULONG,"CKA_X2RATCHET_BAG"),
(CKA_X2RATCHET_BAGSIZE as CK_ULONG,"CKA_X2RATCHET_BAGSIZE"),
(CKA_X2RATCHET_BOBS1STMSG as CK_ULONG,"CKA_X2RATCHET_BOBS1STMSG"),
(CKA_X2RATCHET_CKR as CK_ULONG,"CKA_X2RATCHET_CKR"),
(CKA_X2RATCHET_CKS as CK_ULONG,"CKA_X2RATCHET_CKS"),
(CKA_X2RATCHET_DHP as CK_ULONG,"CKA_X2RATCHET_DHP"),
(CKA_X2RATCHET_DHR as CK_ULONG,"CKA_X2RATCHET_DHR"),
(CKA_X2RATCHET_DHS as CK_ULONG,"CKA_X2RATCHET_DHS"),
(CKA_X2RATCHET_HKR as CK_ULONG,"CKA_X2RATCHET_HKR"),
(CKA_X2RATCHET_HKS as CK_ULONG,"CKA_X2RATCHET_HKS"),
(CKA_X2RATCHET_ISALICE as CK_ULONG,"CKA_X2RATCHET_ISALICE"),
(CKA_X2RATCHET_NHKR as CK_ULONG,"CKA_X2RATCHET_NHKR"),
(CKA_X2RATCHET_NHKS as CK_ULONG,"CKA_X2RATCHET_NHKS"),
(CKA_X2RATCHET_NR as CK_ULONG,"CKA_X2RATCHET_NR"),
(CKA_X2RATCHET_NS as CK_ULONG,"CKA_X2RATCHET_NS"),
(CKA_X2RATCHET_PNS as CK_ULONG,"CKA_X2RATCHET_PNS"),
(CKA_X2RATCHET_RK as CK_ULONG,"CKA_X2RATCHET_RK"),
(CKA_HSS_LEVELS as CK_ULONG,"CKA_HSS_LEVELS"),
(CKA_HSS_LMS_TYPE as CK_ULONG,"CKA_HSS_LMS_TYPE"),
(CKA_HSS_LMOTS_TYPE as CK_ULONG,"CKA_HSS_LMOTS_TYPE"),
(CKA_HSS_LMS_TYPES as CK_ULONG,"CKA_HSS_LMS_TYPES"),
(CKA_HSS_LMOTS_TYPES as CK_ULONG,"CKA_HSS_LMOTS_TYPES"),
(CKA_HSS_KEYS_REMAINING as CK_ULONG,"CKA_HSS_KEYS_REMAINING"),
(CKA_PARAMETER_SET as CK_ULONG,"CKA_PARAMETER_SET"),
(CKA_OBJECT_VALIDATION_FLAGS as CK_ULONG,"CKA_OBJECT_VALIDATION_FLAGS"),
(CKA_VALIDATION_TYPE as CK_ULONG,"CKA_VALIDATION_TYPE"),
(CKA_VALIDATION_VERSION as CK_ULONG,"CKA_VALIDATION_VERSION"),
(CKA_VALIDATION_LEVEL as CK_ULONG,"CKA_VALIDATION_LEVEL"),
(CKA_VALIDATION_MODULE_ID as CK_ULONG,"CKA_VALIDATION_MODULE_ID"),
(CKA_VALIDATION_FLAG as CK_ULONG,"CKA_VALIDATION_FLAG"),
(CKA_VALIDATION_AUTHORITY_TYPE as CK_ULONG,"CKA_VALIDATION_AUTHORITY_TYPE"),
(CKA_VALIDATION_COUNTRY as CK_ULONG,"CKA_VALIDATION_COUNTRY"),
(CKA_VALIDATION_CERTIFICATE_IDENTIFIER as CK_ULONG,"CKA_VALIDATION_CERTIFICATE_IDENTIFIER"),
(CKA_VALIDATION_CERTIFICATE_URI as CK_ULONG,"CKA_VALIDATION_CERTIFICATE_URI"),
(CKA_VALIDATION_VENDOR_URI as CK_ULONG,"CKA_VALIDATION_VENDOR_URI"),
(CKA_VALIDATION_PROFILE as CK_ULONG,"CKA_VALIDATION_PROFILE"),
(CKA_ENCAPSULATE_TEMPLATE as CK_ULONG,"CKA_ENCAPSULATE_TEMPLATE"),
(CKA_DECAPSULATE_TEMPLATE as CK_ULONG,"CKA_DECAPSULATE_TEMPLATE"),
(CKA_TRUST_SERVER_AUTH as CK_ULONG,"CKA_TRUST_SERVER_AUTH"),
(CKA_TRUST_CLIENT_AUTH as CK_ULONG,"CKA_TRUST_CLIENT_AUTH"),
(CKA_TRUST_CODE_SIGNING as CK_ULONG,"CKA_TRUST_CODE_SIGNING"),
(CKA_TRUST_EMAIL_PROTECTION as CK_ULONG,"CKA_TRUST_EMAIL_PROTECTION"),
(CKA_TRUST_IPSEC_IKE as CK_ULONG,"CKA_TRUST_IPSEC_IKE"),
(CKA_TRUST_TIME_STAMPING as CK_ULONG,"CKA_TRUST_TIME_STAMPING"),
(CKA_TRUST_OCSP_SIGNING as CK_ULONG,"CKA_TRUST_OCSP_SIGNING"),
(CKA_ENCAPSULATE as CK_ULONG,"CKA_ENCAPSULATE"),
(CKA_DECAPSULATE as CK_ULONG,"CKA_DECAPSULATE"),
(CKA_HASH_OF_CERTIFICATE as CK_ULONG,"CKA_HASH_OF_CERTIFICATE"),
(CKA_PUBLIC_CRC64_VALUE as CK_ULONG,"CKA_PUBLIC_CRC64_VALUE"),
(CKA_SEED as CK_ULONG,"CKA_SEED"),
(CKA_VENDOR_DEFINED as CK_ULONG,"CKA_VENDOR_DEFINED"),
(CKA_WRAP_TEMPLATE as CK_ULONG,"CKA_WRAP_TEMPLATE"),
(CKA_UNWRAP_TEMPLATE as CK_ULONG,"CKA_UNWRAP_TEMPLATE"),
(CKA_DERIVE_TEMPLATE as CK_ULONG,"CKA_DERIVE_TEMPLATE"),
(CKA_ALLOWED_MECHANISMS as CK_ULONG,"CKA_ALLOWED_MECHANISMS"),
];

pub static CKO_T: &[(CK_ULONG,&str)] = &[(0,"DATA"),(1,"CERTIFICATE"),(2,"PUBLIC_KEY"),(3,"PRIVATE_KEY"),(4,"SECRET_KEY"),(5,"HW_FEATURE"),(6,"DOMAIN_PARAMETERS"),(7,"MECHANISM"),(8,"OTP_KEY"),(9,"PROFILE"),(0xb,"TRUST"),(0x80000000,"VENDOR"),(0xce534353,"NSS_TRUST"),(u64::MAX as CK_ULONG,"ALL")];
pub static CKK_T: &[(CK_ULONG,&str)] = &[(0,"RSA"),(1,"DSA"),(2,"DH"),(3,"EC"),(4,"X9_42_DH"),(0x10,"GENERIC_SECRET"),(0x13,"DES"),(0x15,"DES3"),(0x1f,"AES"),(0x23,"HOTP"),(0x28,"SHA_1_HMAC"),(0x2b,"SHA256_HMAC"),(0x2c,"SHA384_HMAC"),(0x2d,"SHA512_HMAC"),(0x2e,"SHA224_HMAC"),(0x40,"EC_EDWARDS"),(0x41,"EC_MONTGOMERY"),(0x42,"HKDF"),(0x49,"ML_KEM"),(0x80000000,"VENDOR")];
