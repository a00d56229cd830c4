// Certificates and server contexts for peers that speak TLS over memory buffers.
#pragma once
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <sys/stat.h>
#include <string>
#include "../sim/sim.h"

namespace {
const char * const certNames[] = { "good", "other host", "unknown authority", "expired", "not yet valid" };
SSL_CTX * g_ctx[5];
EVP_PKEY * newKey() { return EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"); }
X509 * newCert(EVP_PKEY * key, const char * cn, X509 * issuer, EVP_PKEY * issuerKey, int64_t from, int64_t to, const char * san) {
  X509 * c = X509_new(); X509_set_version(c, 2); ASN1_INTEGER_set(X509_get_serialNumber(c), 7);
  ASN1_TIME_set(X509_getm_notBefore(c), (time_t) from); ASN1_TIME_set(X509_getm_notAfter(c), (time_t) to);
  X509_NAME * n = X509_get_subject_name(c); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *) cn, -1, -1, 0);
  X509_set_issuer_name(c, issuer ? X509_get_subject_name(issuer) : n); X509_set_pubkey(c, key);
  X509V3_CTX x; X509V3_set_ctx_nodb(&x); X509V3_set_ctx(&x, issuer ? issuer : c, c, nullptr, nullptr, 0);
  auto add = [&] (int nid, const char * v) { X509_EXTENSION * e = X509V3_EXT_conf_nid(nullptr, &x, nid, v); if (!e) sim::invalid("extension %s", v); X509_add_ext(c, e, -1); X509_EXTENSION_free(e); };
  if (!issuer) add(NID_basic_constraints, "critical,CA:TRUE"); else add(NID_subject_alt_name, san);
  if (!X509_sign(c, issuerKey, nullptr)) sim::invalid("cannot sign a certificate");
  return c;
}
// The certificates of the run; valid: a subject alternative name of the server, other: of another one.
void tlsSetup(const std::string & valid, const std::string & other) {
  int64_t now = sim::wall() / 1000000000, year = 365 * 86400;
  EVP_PKEY * caKey = newKey(), * badKey = newKey(), * key = newKey();
  X509 * ca = newCert(caKey, "The Authority", nullptr, caKey, now - year, now + 5 * year, nullptr), * bad = newCert(badKey, "Another Authority", nullptr, badKey, now - year, now + 5 * year, nullptr);
  std::string d = sim::scratch(); mkdir((d + "/none").c_str(), 0777);
  FILE * f = fopen((d + "/ca.pem").c_str(), "w"); if (!f) sim::invalid("ca.pem"); PEM_write_X509(f, ca); fclose(f);
  setenv("SSL_CERT_FILE", (d + "/ca.pem").c_str(), 1); setenv("SSL_CERT_DIR", (d + "/none").c_str(), 1);
  for (int i = 0; i < 5; ++i) {
    std::string name = i == 1 ? other : valid;
    X509 * c = newCert(key, name.substr(name.find(':') + 1).c_str(), i == 2 ? bad : ca, i == 2 ? badKey : caKey, i == 3 ? now - 3 * year : i == 4 ? now + 86400 : now - 86400, i == 3 ? now - 86400 : now + year, name.c_str());
    g_ctx[i] = SSL_CTX_new(TLS_server_method()); SSL_CTX_set_session_cache_mode(g_ctx[i], SSL_SESS_CACHE_OFF);
    if (SSL_CTX_use_certificate(g_ctx[i], c) != 1 || SSL_CTX_use_PrivateKey(g_ctx[i], key) != 1) sim::invalid("certificate");
  }
}
}
