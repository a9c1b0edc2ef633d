/* Stand-in for the noscrypt library, which this environment does not have: the part of its interface that
 * the code under test uses, implemented (lib/ncshim.c) from NIP-44 and BIP-340 on top of libsecp256k1. */
#ifndef NOSCRYPT_H
#define NOSCRYPT_H
#include <stdint.h>
#include <stddef.h>
#define NC_SEC_KEY_SIZE 0x20
#define NC_PUBKEY_SIZE 0x20
#define NC_SHARED_SEC_SIZE 0x20
#define NC_CONTEXT_ENTROPY_SIZE 0x20
#define NC_CONV_KEY_SIZE 0x20
#define NC_HMAC_KEY_SIZE 0x20
#define NC_ENCRYPTION_MAC_SIZE 0x20
#define NC_SUCCESS 0
#define NC_ENC_VERSION_NIP04 0x00000004u
#define NC_ENC_VERSION_NIP44 0x00000002c
#define NC_ENC_SET_VERSION 0x01u
#define NC_ENC_SET_NIP44_MAC_KEY 0x02u
#define NC_ENC_SET_IV 0x04u
typedef int64_t NCResult;
typedef struct { uint8_t key[NC_SEC_KEY_SIZE]; } NCSecretKey;
typedef struct { uint8_t key[NC_PUBKEY_SIZE]; } NCPublicKey;
typedef struct nc_ctx_struct NCContext;
typedef struct { uint8_t *ivData, *keyData; const uint8_t *inputData; uint8_t *outputData; uint32_t dataSize, version; } NCEncryptionArgs;
typedef struct { const uint8_t *mac32, *nonce32, *payload; uint32_t payloadSize; } NCMacVerifyArgs;
NCContext *NCGetSharedContext(void);
NCResult NCInitContext(NCContext *ctx, const uint8_t entropy[32]);
NCResult NCDestroyContext(NCContext *ctx);
NCResult NCGetPublicKey(const NCContext *ctx, const NCSecretKey *sk, NCPublicKey *pk);
NCResult NCValidateSecretKey(const NCContext *ctx, const NCSecretKey *sk);
NCResult NCSignDigest(const NCContext *ctx, const NCSecretKey *sk, const uint8_t random32[32], const uint8_t digest32[32], uint8_t sig64[64]);
NCResult NCVerifyDigest(const NCContext *ctx, const NCPublicKey *pk, const uint8_t digest32[32], const uint8_t sig64[64]);
NCResult NCGetSharedSecret(const NCContext *ctx, const NCSecretKey *sk, const NCPublicKey *pk, uint8_t out[32]);
uint32_t NCEncryptionGetIvSize(uint32_t version);
NCResult NCEncryptionSetProperty(NCEncryptionArgs *args, uint32_t property, uint32_t value);
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs *args, uint32_t property, uint8_t *value, uint32_t len);
NCResult NCEncryptionSetData(NCEncryptionArgs *args, const uint8_t *input, uint8_t *output, uint32_t size);
NCResult NCEncrypt(const NCContext *ctx, const NCSecretKey *sk, const NCPublicKey *pk, NCEncryptionArgs *args);
NCResult NCDecrypt(const NCContext *ctx, const NCSecretKey *sk, const NCPublicKey *pk, NCEncryptionArgs *args);
NCResult NCComputeMac(const NCContext *ctx, const uint8_t hmacKey[32], const uint8_t *payload, uint32_t size, uint8_t mac[32]);
NCResult NCVerifyMac(const NCContext *ctx, const NCSecretKey *sk, const NCPublicKey *pk, NCMacVerifyArgs *args);
/* not noscrypt's: lets a harness make any call fail */
extern int (*ncshim_fault)(const char *fn);
#endif
