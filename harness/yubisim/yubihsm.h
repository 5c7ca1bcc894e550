/* Declarations of the part of Yubico's libyubihsm (the 1.x interface) that
 * /repo/yubihsm uses, written for the stand-in library in yubisim.c. */
#ifndef YUBIHSM_H
#define YUBIHSM_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define YH_CONTEXT_LEN 16
#define YH_HOST_CHAL_LEN 8
#define YH_MAX_ITEMS_COUNT 256
#define YH_MAX_DOMAINS 16
#define YH_CAPABILITIES_LEN 8
#define YH_LOG_DIGEST_SIZE 16
#define YH_OBJ_LABEL_LEN 40
#define YH_ORIGIN_GENERATED 0x01
#define YH_ORIGIN_IMPORTED 0x02
#define YH_ORIGIN_IMPORTED_WRAPPED 0x10

typedef struct yh_connector yh_connector;
typedef struct yh_session yh_session;
typedef struct { uint8_t capabilities[YH_CAPABILITIES_LEN]; } yh_capabilities;

typedef enum {
  YHR_SUCCESS = 0,
  YHR_MEMORY = -1,
  YHR_INIT_ERROR = -2,
  YHR_NET_ERROR = -3,
  YHR_CONNECTOR_NOT_FOUND = -4,
  YHR_INVALID_PARAMS = -5,
  YHR_WRONG_LENGTH = -6,
  YHR_BUFFER_TOO_SMALL = -7,
  YHR_CRYPTOGRAM_MISMATCH = -8,
  YHR_AUTH_SESSION_ERROR = -9,
  YHR_MAC_MISMATCH = -10,
  YHR_DEVICE_OK = -11,
  YHR_DEVICE_INV_COMMAND = -12,
  YHR_DEVICE_INV_DATA = -13,
  YHR_DEVICE_INV_SESSION = -14,
  YHR_DEVICE_AUTH_FAIL = -15,
  YHR_DEVICE_SESSIONS_FULL = -16,
  YHR_DEVICE_SESSION_FAILED = -17,
  YHR_DEVICE_STORAGE_FAILED = -18,
  YHR_DEVICE_WRONG_LENGTH = -19,
  YHR_DEVICE_INV_PERMISSION = -20,
  YHR_DEVICE_LOG_FULL = -21,
  YHR_DEVICE_OBJ_NOT_FOUND = -22,
  YHR_DEVICE_ID_ILLEGAL = -23,
  YHR_DEVICE_INVALID_OTP = -24,
  YHR_DEVICE_DEMO_MODE = -25,
  YHR_DEVICE_CMD_UNEXECUTED = -26,
  YHR_GENERIC_ERROR = -27,
  YHR_DEVICE_OBJECT_EXISTS = -28,
  YHR_CONNECTOR_ERROR = -29,
} yh_rc;

typedef enum {
  YHC_ECHO = 0x01,
  YHC_CREATE_SES = 0x03,
  YHC_AUTH_SES = 0x04,
  YHC_SES_MSG = 0x05,
  YHC_GET_DEVICE_INFO = 0x06,
  YHC_BSL = 0x07,
  YHC_RESET = 0x08,
  YHC_CLOSE_SES = 0x40,
  YHC_STATS = 0x41,
  YHC_PUT_OPAQUE = 0x42,
  YHC_GET_OPAQUE = 0x43,
  YHC_PUT_AUTHKEY = 0x44,
  YHC_PUT_ASYMMETRIC_KEY = 0x45,
  YHC_GEN_ASYMMETRIC_KEY = 0x46,
  YHC_SIGN_DATA_PKCS1 = 0x47,
  YHC_LIST = 0x48,
  YHC_DECRYPT_PKCS1 = 0x49,
  YHC_EXPORT_WRAPPED = 0x4a,
  YHC_IMPORT_WRAPPED = 0x4b,
  YHC_PUT_WRAP_KEY = 0x4c,
  YHC_GET_LOGS = 0x4d,
  YHC_GET_OBJECT_INFO = 0x4e,
  YHC_PUT_OPTION = 0x4f,
  YHC_GET_OPTION = 0x50,
  YHC_GET_PSEUDO_RANDOM = 0x51,
  YHC_PUT_HMAC_KEY = 0x52,
  YHC_HMAC_DATA = 0x53,
  YHC_GET_PUBKEY = 0x54,
  YHC_SIGN_DATA_PSS = 0x55,
  YHC_SIGN_DATA_ECDSA = 0x56,
  YHC_DECRYPT_ECDH = 0x57,
  YHC_DELETE_OBJECT = 0x58,
  YHC_DECRYPT_OAEP = 0x59,
  YHC_GENERATE_HMAC_KEY = 0x5a,
  YHC_GENERATE_WRAP_KEY = 0x5b,
  YHC_VERIFY_HMAC = 0x5c,
  YHC_SSH_CERTIFY = 0x5d,
  YHC_PUT_TEMPLATE = 0x5e,
  YHC_GET_TEMPLATE = 0x5f,
  YHC_OTP_DECRYPT = 0x60,
  YHC_OTP_AEAD_CREATE = 0x61,
  YHC_OTP_AEAD_RANDOM = 0x62,
  YHC_OTP_AEAD_REWRAP = 0x63,
  YHC_ATTEST_ASYMMETRIC = 0x64,
  YHC_PUT_OTP_AEAD_KEY = 0x65,
  YHC_GENERATE_OTP_AEAD_KEY = 0x66,
  YHC_SET_LOG_INDEX = 0x67,
  YHC_WRAP_DATA = 0x68,
  YHC_UNWRAP_DATA = 0x69,
  YHC_SIGN_DATA_EDDSA = 0x6a,
  YHC_BLINK = 0x6b,
  YHC_ERROR = 0x7f,
} yh_cmd;

typedef enum {
  YH_OPAQUE = 0x01,
  YH_AUTHKEY = 0x02,
  YH_ASYMMETRIC = 0x03,
  YH_WRAPKEY = 0x04,
  YH_HMACKEY = 0x05,
  YH_TEMPLATE = 0x06,
  YH_OTP_AEAD_KEY = 0x07,
  YH_PUBLIC = 0x83,
} yh_object_type;

typedef enum {
  YH_ALGO_RSA_PKCS1_SHA1 = 1,
  YH_ALGO_RSA_PKCS1_SHA256 = 2,
  YH_ALGO_RSA_PKCS1_SHA384 = 3,
  YH_ALGO_RSA_PKCS1_SHA512 = 4,
  YH_ALGO_RSA_PSS_SHA1 = 5,
  YH_ALGO_RSA_PSS_SHA256 = 6,
  YH_ALGO_RSA_PSS_SHA384 = 7,
  YH_ALGO_RSA_PSS_SHA512 = 8,
  YH_ALGO_RSA_2048 = 9,
  YH_ALGO_RSA_3072 = 10,
  YH_ALGO_RSA_4096 = 11,
  YH_ALGO_EC_P256 = 12,
  YH_ALGO_EC_P384 = 13,
  YH_ALGO_EC_P521 = 14,
  YH_ALGO_EC_K256 = 15,
  YH_ALGO_EC_BP256 = 16,
  YH_ALGO_EC_BP384 = 17,
  YH_ALGO_EC_BP512 = 18,
  YH_ALGO_HMAC_SHA1 = 19,
  YH_ALGO_HMAC_SHA256 = 20,
  YH_ALGO_HMAC_SHA384 = 21,
  YH_ALGO_HMAC_SHA512 = 22,
  YH_ALGO_EC_ECDSA_SHA1 = 23,
  YH_ALGO_EC_ECDH = 24,
  YH_ALGO_RSA_OAEP_SHA1 = 25,
  YH_ALGO_RSA_OAEP_SHA256 = 26,
  YH_ALGO_RSA_OAEP_SHA384 = 27,
  YH_ALGO_RSA_OAEP_SHA512 = 28,
  YH_ALGO_AES128_CCM_WRAP = 29,
  YH_ALGO_OPAQUE_DATA = 30,
  YH_ALGO_OPAQUE_X509_CERT = 31,
  YH_ALGO_MGF1_SHA1 = 32,
  YH_ALGO_MGF1_SHA256 = 33,
  YH_ALGO_MGF1_SHA384 = 34,
  YH_ALGO_MGF1_SHA512 = 35,
  YH_ALGO_TEMPL_SSH = 36,
  YH_ALGO_YUBICO_OTP_AES128 = 37,
  YH_ALGO_YUBICO_AES_AUTH = 38,
  YH_ALGO_YUBICO_OTP_AES192 = 39,
  YH_ALGO_YUBICO_OTP_AES256 = 40,
  YH_ALGO_AES192_CCM_WRAP = 41,
  YH_ALGO_AES256_CCM_WRAP = 42,
  YH_ALGO_EC_ECDSA_SHA256 = 43,
  YH_ALGO_EC_ECDSA_SHA384 = 44,
  YH_ALGO_EC_ECDSA_SHA512 = 45,
  YH_ALGO_EC_ED25519 = 46,
  YH_ALGO_EC_P224 = 47,
} yh_algorithm;

typedef enum { YH_OPTION_FORCE_AUDIT = 1, YH_OPTION_COMMAND_AUDIT = 3 } yh_option;
typedef enum { YH_CONNECTOR_HTTPS_CA = 1, YH_CONNECTOR_PROXY_SERVER = 2 } yh_connector_option;

#pragma pack(push, 1)
typedef struct {
  uint16_t number;
  uint8_t command;
  uint16_t length;
  uint16_t session_key;
  uint16_t target_key;
  uint16_t second_key;
  uint8_t result;
  uint32_t systick;
  uint8_t digest[YH_LOG_DIGEST_SIZE];
} yh_log_entry;

typedef struct {
  yh_capabilities capabilities;
  uint16_t id;
  uint16_t len;
  uint16_t domains;
  yh_object_type type;
  yh_algorithm algorithm;
  uint8_t sequence;
  uint8_t origin;
  char label[YH_OBJ_LABEL_LEN + 1];
  yh_capabilities delegated_capabilities;
} yh_object_descriptor;
#pragma pack(pop)

static const struct { const char *name; int bit; } yh_capability[] = {
  {"get_opaque", 0},
  {"put_opaque", 1},
  {"put_authkey", 2},
  {"put_asymmetric", 3},
  {"asymmetric_gen", 4},
  {"asymmetric_sign_pkcs", 5},
  {"asymmetric_sign_pss", 6},
  {"asymmetric_sign_ecdsa", 7},
  {"asymmetric_sign_eddsa", 8},
  {"asymmetric_decrypt_pkcs", 9},
  {"asymmetric_decrypt_oaep", 10},
  {"asymmetric_decrypt_ecdh", 11},
  {"export_wrapped", 12},
  {"import_wrapped", 13},
  {"put_wrapkey", 14},
  {"generate_wrapkey", 15},
  {"export_under_wrap", 16},
  {"put_option", 17},
  {"get_option", 18},
  {"get_randomness", 19},
  {"put_hmackey", 20},
  {"hmackey_generate", 21},
  {"hmac_data", 22},
  {"hmac_verify", 23},
  {"audit", 24},
  {"ssh_certify", 25},
  {"get_template", 26},
  {"put_template", 27},
  {"reset", 28},
  {"otp_decrypt", 29},
  {"otp_aead_create", 30},
  {"otp_aead_random", 31},
  {"otp_aead_rewrap_from", 32},
  {"otp_aead_rewrap_to", 33},
  {"attest", 34},
  {"put_otp_aead_key", 35},
  {"generate_otp_aead_key", 36},
  {"wrap_data", 37},
  {"unwrap_data", 38},
  {"delete_opaque", 39},
  {"delete_authkey", 40},
  {"delete_asymmetric", 41},
  {"delete_wrap_key", 42},
  {"delete_hmac_key", 43},
  {"delete_template", 44},
  {"delete_otp_aead_key", 45},
};
static const struct { const char *name; yh_algorithm algorithm; } yh_algorithms[] = {
  {"rsa-pkcs1-sha1", YH_ALGO_RSA_PKCS1_SHA1},
  {"rsa-pkcs1-sha256", YH_ALGO_RSA_PKCS1_SHA256},
  {"rsa-pkcs1-sha384", YH_ALGO_RSA_PKCS1_SHA384},
  {"rsa-pkcs1-sha512", YH_ALGO_RSA_PKCS1_SHA512},
  {"rsa-pss-sha1", YH_ALGO_RSA_PSS_SHA1},
  {"rsa-pss-sha256", YH_ALGO_RSA_PSS_SHA256},
  {"rsa-pss-sha384", YH_ALGO_RSA_PSS_SHA384},
  {"rsa-pss-sha512", YH_ALGO_RSA_PSS_SHA512},
  {"rsa-2048", YH_ALGO_RSA_2048},
  {"rsa-3072", YH_ALGO_RSA_3072},
  {"rsa-4096", YH_ALGO_RSA_4096},
  {"ec-p256", YH_ALGO_EC_P256},
  {"ec-p384", YH_ALGO_EC_P384},
  {"ec-p521", YH_ALGO_EC_P521},
  {"ec-k256", YH_ALGO_EC_K256},
  {"ec-bp256", YH_ALGO_EC_BP256},
  {"ec-bp384", YH_ALGO_EC_BP384},
  {"ec-bp512", YH_ALGO_EC_BP512},
  {"hmac-sha1", YH_ALGO_HMAC_SHA1},
  {"hmac-sha256", YH_ALGO_HMAC_SHA256},
  {"hmac-sha384", YH_ALGO_HMAC_SHA384},
  {"hmac-sha512", YH_ALGO_HMAC_SHA512},
  {"ec-ecdsa-sha1", YH_ALGO_EC_ECDSA_SHA1},
  {"ec-ecdh", YH_ALGO_EC_ECDH},
  {"rsa-oaep-sha1", YH_ALGO_RSA_OAEP_SHA1},
  {"rsa-oaep-sha256", YH_ALGO_RSA_OAEP_SHA256},
  {"rsa-oaep-sha384", YH_ALGO_RSA_OAEP_SHA384},
  {"rsa-oaep-sha512", YH_ALGO_RSA_OAEP_SHA512},
  {"aes128-ccm-wrap", YH_ALGO_AES128_CCM_WRAP},
  {"opaque-data", YH_ALGO_OPAQUE_DATA},
  {"opaque-x509-cert", YH_ALGO_OPAQUE_X509_CERT},
  {"mgf1-sha1", YH_ALGO_MGF1_SHA1},
  {"mgf1-sha256", YH_ALGO_MGF1_SHA256},
  {"mgf1-sha384", YH_ALGO_MGF1_SHA384},
  {"mgf1-sha512", YH_ALGO_MGF1_SHA512},
  {"templ-ssh", YH_ALGO_TEMPL_SSH},
  {"yubico-otp-aes128", YH_ALGO_YUBICO_OTP_AES128},
  {"yubico-aes-auth", YH_ALGO_YUBICO_AES_AUTH},
  {"yubico-otp-aes192", YH_ALGO_YUBICO_OTP_AES192},
  {"yubico-otp-aes256", YH_ALGO_YUBICO_OTP_AES256},
  {"aes192-ccm-wrap", YH_ALGO_AES192_CCM_WRAP},
  {"aes256-ccm-wrap", YH_ALGO_AES256_CCM_WRAP},
  {"ec-ecdsa-sha256", YH_ALGO_EC_ECDSA_SHA256},
  {"ec-ecdsa-sha384", YH_ALGO_EC_ECDSA_SHA384},
  {"ec-ecdsa-sha512", YH_ALGO_EC_ECDSA_SHA512},
  {"ec-ed25519", YH_ALGO_EC_ED25519},
  {"ec-p224", YH_ALGO_EC_P224},
};
static const struct { const char *name; yh_object_type type; } yh_types[] = {
  {"opaque", YH_OPAQUE},
  {"authkey", YH_AUTHKEY},
  {"asymmetric", YH_ASYMMETRIC},
  {"wrapkey", YH_WRAPKEY},
  {"hmackey", YH_HMACKEY},
  {"template", YH_TEMPLATE},
  {"otpaeadkey", YH_OTP_AEAD_KEY},
};
static const struct { const char *name; yh_option option; } yh_options[] = {
  {"force_audit", YH_OPTION_FORCE_AUDIT},
  {"command_audit", YH_OPTION_COMMAND_AUDIT},
};

const char *yh_strerror(yh_rc err);
yh_rc yh_set_verbosity(uint8_t verbosity);
yh_rc yh_get_verbosity(uint8_t *verbosity);
void yh_set_debug_output(FILE *output);
yh_rc yh_init(void);
yh_rc yh_init_connector(const char *url, yh_connector **connector);
yh_rc yh_set_connector_option(yh_connector *connector, yh_connector_option opt, const void *val);
yh_rc yh_connect_best(yh_connector **connectors, size_t n, int *idx);
yh_rc yh_disconnect(yh_connector *connector);
yh_rc yh_send_plain_msg(yh_connector *connector, yh_cmd cmd, const uint8_t *data, size_t data_len,
                        yh_cmd *response_cmd, uint8_t *response, size_t *response_len);
yh_rc yh_create_session_derived(yh_connector *connector, uint16_t auth_keyset_id, const uint8_t *password,
                                size_t password_len, bool recreate_session, uint8_t *context,
                                size_t context_len, yh_session **session);
yh_rc yh_create_session(yh_connector *connector, uint16_t auth_keyset_id, const uint8_t *key_enc,
                        size_t key_enc_len, const uint8_t *key_mac, size_t key_mac_len,
                        bool recreate_session, uint8_t *context, size_t context_len, yh_session **session);
yh_rc yh_destroy_session(yh_session **session);
yh_rc yh_authenticate_session(yh_session *session, uint8_t *context, size_t context_len);
yh_rc yh_util_get_device_info(yh_connector *connector, uint8_t *major, uint8_t *minor, uint8_t *patch,
                              uint32_t *serial, uint8_t *log_total, uint8_t *log_used,
                              yh_algorithm *algorithms, size_t *n_algorithms);
yh_rc yh_util_list_objects(yh_session *session, uint16_t id, yh_object_type type, uint16_t domains,
                           const yh_capabilities *capabilities, yh_algorithm algorithm, const char *label,
                           yh_object_descriptor *objects, size_t *n_objects);
yh_rc yh_util_get_object_info(yh_session *session, uint16_t id, yh_object_type type,
                              yh_object_descriptor *object);
yh_rc yh_util_get_pubkey(yh_session *session, uint16_t id, uint8_t *data, size_t *data_len,
                         yh_algorithm *algorithm);
yh_rc yh_util_sign_ecdsa(yh_session *session, uint16_t key_id, const uint8_t *in, size_t in_len,
                         uint8_t *out, size_t *out_len);
yh_rc yh_util_generate_key_ec(yh_session *session, uint16_t *key_id, const char *label, uint16_t domains,
                              const yh_capabilities *capabilities, yh_algorithm algorithm);
yh_rc yh_capabilities_to_num(const char *capability, yh_capabilities *result);
yh_rc yh_num_to_capabilities(const yh_capabilities *num, const char *result[], size_t *n_result);

#endif
