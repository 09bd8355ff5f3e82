// The installed BoringSSL predates EC_group_p256.
#ifndef VERIF_SHIM_EC_KEY_H_
#define VERIF_SHIM_EC_KEY_H_
#include_next <openssl/ec_key.h>
#include <openssl/ec.h>
#include <openssl/nid.h>
inline const EC_GROUP* EC_group_p256() {
  static const EC_GROUP* const g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
  return g;
}
#endif
