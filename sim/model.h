/* Independent reference model of DVB-CSA, written from the published
   description of the cipher (nibble registers, bit permutation key schedule).
   Shares no code with /repo; only the block s-box, which has no closed form,
   is the same table. */
#ifndef MODEL_H
#define MODEL_H
#include <stdint.h>
typedef struct { uint8_t cw[8]; uint8_t kk[57]; } model_key;
void model_set(model_key *k, const uint8_t cw[8]);
void model_encrypt(const model_key *k, uint8_t *data, unsigned len);
void model_decrypt(const model_key *k, uint8_t *data, unsigned len);
int model_selftest(void);
#endif
