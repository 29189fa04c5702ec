/* fault.hpp - every call of a wrapped library function made while armed is numbered; the chosen one returns its documented failure
 * value without being executed.  The wrappers (-Wl,--wrap) are signature independent trampolines. */
#pragma once
#include <cerrno>
#include <cstdint>
namespace fault {
static volatile int ACTIVE, WANT, POINT, KIND, STICKY, COUNT, FIRED; static const char *LAST; static int NKINDS;
inline void want(int point, int kind, int sticky) { WANT = 1; POINT = point; KIND = kind; STICKY = sticky; COUNT = 0; FIRED = 0; LAST = ""; NKINDS = 0; }
inline void off() { WANT = 0; ACTIVE = 0; }
struct Arm { Arm() { ACTIVE = WANT; } ~Arm() { ACTIVE = 0; } };
struct Pause { int a; Pause() : a(ACTIVE) { ACTIVE = 0; } ~Pause() { ACTIVE = a; } };
} // namespace fault
#define ARM(e) ([&] { fault::Arm arm_; return (e); }())
extern "C" __attribute__((used)) int mc_fault(const char *name, int kinds) { using namespace fault; if (!ACTIVE) return 0; int i = COUNT++; if (i == POINT) NKINDS = kinds; if (POINT < 0 || (STICKY ? i < POINT : i != POINT) || KIND >= kinds) return 0; FIRED++; if (FIRED == 1) LAST = name; errno = ENOMEM; return KIND + 1; }
#define TRAMP(X, N, V1, V2) asm(".text\n.globl __wrap_" #X "\n.type __wrap_" #X ",@function\n__wrap_" #X ":\n push %rdi\n push %rsi\n push %rdx\n push %rcx\n push %r8\n push %r9\n push %rax\n" \
  " lea 9f(%rip),%rdi\n mov $" #N ",%esi\n call mc_fault\n mov %eax,%r11d\n pop %rax\n pop %r9\n pop %r8\n pop %rcx\n pop %rdx\n pop %rsi\n pop %rdi\n test %r11d,%r11d\n jnz 8f\n jmp __real_" #X "@PLT\n" \
  "8: mov $" #V1 ",%rax\n cmp $1,%r11d\n je 7f\n mov $" #V2 ",%rax\n7: ret\n.section .rodata\n9: .asciz \"" #X "\"\n.text\n");
#define F0(X) TRAMP(X, 1, 0, 0)
#define FM(X) TRAMP(X, 1, -1, -1)
#define F2(X) TRAMP(X, 2, 0, -1)
F0(malloc) F0(calloc) F0(realloc) F0(strdup) F0(strndup) F0(fopen) F0(localtime_r) F0(gmtime_r) F0(ini_browse)
F0(ASN1_INTEGER_new) F0(ASN1_TIME_set) F0(BIO_new_ex) F0(BIO_new) F0(BIO_new_mem_buf) F0(BIO_new_file) F0(CMS_get0_signers) F0(CMS_sign) F0(d2i_AutoPrivateKey) F0(d2i_CMS_ContentInfo) F0(d2i_PrivateKey) F0(d2i_X509) F0(d2i_X509_CRL)
F0(EVP_PKEY_CTX_new) F0(EVP_PKEY_CTX_new_id) F0(OPENSSL_sk_new_null) F0(PEM_read_PrivateKey) F0(PEM_read_X509) F0(X509V3_EXT_conf_nid) F0(X509_build_chain) F0(X509_NAME_new) F0(X509_STORE_new) F0(X509_STORE_CTX_new) F0(X509_gmtime_adj) F0(X509_new) F0(X509_dup) F0(X509_get0_pubkey)
F0(ASN1_INTEGER_set_uint64) F0(ASN1_TIME_set_string) F0(ASN1_TIME_normalize) F0(CMS_verify) F0(i2d_CMS_bio) F0(OPENSSL_sk_push) F0(PEM_write_PrivateKey) F0(PEM_write_X509) F0(SMIME_write_CMS) F0(X509_NAME_add_entry_by_txt) F0(X509_STORE_add_cert) F0(X509_STORE_add_crl) F0(X509_STORE_set_flags) F0(X509_add_ext) F0(X509_set1_notAfter) F0(X509_set_issuer_name) F0(X509_set_pubkey) F0(X509_set_serialNumber) F0(X509_set_subject_name) F0(X509_set_version) F0(X509_sign) F2(X509_verify) F2(RAND_bytes)
F2(EVP_PKEY_CTX_set_ec_paramgen_curve_nid) F2(EVP_PKEY_CTX_set_rsa_keygen_bits) F2(EVP_PKEY_keygen) F2(EVP_PKEY_keygen_init) F2(EVP_PKEY_paramgen) F2(EVP_PKEY_paramgen_init) F2(X509_verify_cert)
FM(ASN1_STRING_to_UTF8) FM(i2d_X509) FM(i2d_PrivateKey) FM(i2d_CMS_ContentInfo) F2(BIO_write) FM(X509_NAME_print_ex)
