#ifndef LIB_H
#define LIB_H
#include <dvbcsa/dvbcsa.h>              /* the public header of the tree under test */
typedef struct dvbcsa_bs_batch_s batch_t;
typedef struct {
  void *(*key_alloc)(void);
  void (*key_free)(void *);
  void (*key_set)(const unsigned char *, void *);
  void (*decrypt)(const void *, unsigned char *, unsigned);
  void (*encrypt)(const void *, unsigned char *, unsigned);
  void *(*bs_key_alloc)(void);
  void (*bs_key_free)(void *);
  void (*bs_key_set)(const unsigned char *, void *);
  unsigned (*bs_batch_size)(void);
  void (*bs_decrypt)(const void *, const batch_t *, unsigned);
  void (*bs_encrypt)(const void *, const batch_t *, unsigned);
} api_t;
enum { FL_P, FL_I, FL_T };
typedef struct { const char *name; api_t f[3]; } variant_t;
extern variant_t variants[];
extern int n_variants;
#endif
