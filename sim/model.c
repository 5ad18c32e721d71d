#include <string.h>
#include "model.h"
#include "model_tab.h"

static const uint8_t key_perm[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37,
};

static const uint8_t sbox1[32] = {2,0,1,1,2,3,3,0, 3,2,2,0,1,1,0,3, 0,3,3,0,2,2,1,1, 2,2,0,3,1,1,3,0};
static const uint8_t sbox2[32] = {3,1,0,2,2,3,3,0, 1,3,2,1,0,0,1,2, 3,1,0,3,3,2,0,2, 0,0,1,2,2,1,3,1};
static const uint8_t sbox3[32] = {2,0,1,2,2,3,3,1, 1,1,0,3,3,0,2,0, 1,3,0,1,3,0,2,2, 2,0,1,2,0,3,3,1};
static const uint8_t sbox4[32] = {3,1,2,3,0,2,1,2, 1,2,0,1,3,0,0,3, 1,0,3,1,2,3,0,3, 0,3,2,0,1,2,2,1};
static const uint8_t sbox5[32] = {2,0,0,1,3,2,3,2, 0,1,3,3,1,0,2,1, 2,3,2,0,0,3,1,1, 1,0,3,2,3,1,0,2};
static const uint8_t sbox6[32] = {0,1,2,3,1,2,2,0, 0,1,3,0,2,3,1,3, 2,3,0,2,3,0,1,1, 2,1,1,2,0,3,3,0};
static const uint8_t sbox7[32] = {0,3,2,2,3,0,0,1, 3,0,1,3,1,2,2,1, 1,0,3,3,0,1,1,2, 2,3,1,0,2,3,0,2};

static uint8_t perm8(uint8_t v)
{
  static const uint8_t to[8] = {1, 7, 5, 4, 2, 6, 0, 3};
  uint8_t o = 0;
  int i;
  for (i = 0; i < 8; i++)
    if (v & (1 << i))
      o |= (uint8_t)(1 << to[i]);
  return o;
}
static uint8_t permtab[256];
static int permready;

void model_set(model_key *k, const uint8_t cw[8])
{
  uint8_t kb[8][8];
  int i, j, b;

  if (!permready)
    {
      for (i = 0; i < 256; i++)
        permtab[i] = perm8((uint8_t)i);
      permready = 1;
    }
  memcpy(k->cw, cw, 8);
  memcpy(kb[7], cw, 8);
  for (i = 7; i > 1; i--)
    {
      memset(kb[i - 1], 0, 8);
      for (j = 0; j < 64; j++)
        if ((kb[i][j / 8] >> (7 - j % 8)) & 1)
          {
            b = key_perm[j] - 1;
            kb[i - 1][b / 8] |= (uint8_t)(1 << (7 - b % 8));
          }
    }
  for (i = 0; i < 7; i++)
    for (j = 0; j < 8; j++)
      k->kk[1 + i * 8 + j] = kb[1 + i][j] ^ (uint8_t)i;
}

static void block_dec(const model_key *k, const uint8_t *in, uint8_t *out)
{
  uint8_t R[9], s, p, n8;
  int i;
  memcpy(R + 1, in, 8);
  for (i = 56; i > 0; i--)
    {
      s = block_sbox[k->kk[i] ^ R[7]];
      p = permtab[s];
      n8 = R[7];
      R[7] = R[6] ^ p;
      R[6] = R[5];
      R[5] = R[4] ^ R[8] ^ s;
      R[4] = R[3] ^ R[8] ^ s;
      R[3] = R[2] ^ R[8] ^ s;
      R[2] = R[1];
      R[1] = R[8] ^ s;
      R[8] = n8;
    }
  memcpy(out, R + 1, 8);
}

static void block_enc(const model_key *k, const uint8_t *in, uint8_t *out)
{
  uint8_t R[9], s, p, n1;
  int i;
  memcpy(R + 1, in, 8);
  for (i = 1; i <= 56; i++)
    {
      s = block_sbox[k->kk[i] ^ R[8]];
      p = permtab[s];
      n1 = R[2];
      R[2] = R[3] ^ R[1];
      R[3] = R[4] ^ R[1];
      R[4] = R[5] ^ R[1];
      R[5] = R[6];
      R[6] = R[7] ^ p;
      R[7] = R[8];
      R[8] = R[1] ^ s;
      R[1] = n1;
    }
  memcpy(out, R + 1, 8);
}

typedef struct { int A[11], B[11], X, Y, Z, D, E, F, p, q, r; } stream;

#define BIT(v, n, to) ((((v) >> (n)) & 1) << (to))

static int stream_2bits(stream *s, int init, int ina, int inb)
{
  int *A = s->A, *B = s->B, i;
  int s1, s2, s3, s4, s5, s6, s7, extra, a1, b1, e;

  s1 = sbox1[BIT(A[4],0,4) | BIT(A[1],2,3) | BIT(A[6],1,2) | BIT(A[7],3,1) | BIT(A[9],0,0)];
  s2 = sbox2[BIT(A[2],1,4) | BIT(A[3],2,3) | BIT(A[6],3,2) | BIT(A[7],0,1) | BIT(A[9],1,0)];
  s3 = sbox3[BIT(A[1],3,4) | BIT(A[2],0,3) | BIT(A[5],1,2) | BIT(A[5],3,1) | BIT(A[6],2,0)];
  s4 = sbox4[BIT(A[3],3,4) | BIT(A[1],1,3) | BIT(A[2],3,2) | BIT(A[4],2,1) | BIT(A[8],0,0)];
  s5 = sbox5[BIT(A[5],2,4) | BIT(A[4],3,3) | BIT(A[6],0,2) | BIT(A[8],1,1) | BIT(A[9],2,0)];
  s6 = sbox6[BIT(A[3],1,4) | BIT(A[4],1,3) | BIT(A[5],0,2) | BIT(A[7],2,1) | BIT(A[9],3,0)];
  s7 = sbox7[BIT(A[2],2,4) | BIT(A[3],0,3) | BIT(A[7],1,2) | BIT(A[8],2,1) | BIT(A[8],3,0)];

  extra = (BIT(B[3],0,3) ^ BIT(B[6],1,3) ^ BIT(B[7],2,3) ^ BIT(B[9],3,3))
        | (BIT(B[6],0,2) ^ BIT(B[8],1,2) ^ BIT(B[3],3,2) ^ BIT(B[4],2,2))
        | (BIT(B[5],3,1) ^ BIT(B[8],2,1) ^ BIT(B[4],0,1) ^ BIT(B[5],1,1))
        | (BIT(B[9],2,0) ^ BIT(B[6],3,0) ^ BIT(B[3],1,0) ^ BIT(B[8],0,0));

  a1 = A[10] ^ s->X;
  b1 = B[7] ^ B[10] ^ s->Y;
  if (init)
    {
      a1 ^= s->D ^ ina;
      b1 ^= inb;
    }
  if (s->p)
    b1 = ((b1 << 1) | (b1 >> 3)) & 0xf;

  s->D = s->E ^ s->Z ^ extra;
  e = s->F;
  if (s->q)
    {
      s->F = s->Z + s->E + s->r;
      s->r = (s->F >> 4) & 1;
      s->F &= 0xf;
    }
  else
    s->F = s->E;
  s->E = e;

  for (i = 10; i > 1; i--)
    {
      A[i] = A[i - 1];
      B[i] = B[i - 1];
    }
  A[1] = a1;
  B[1] = b1;

  s->X = BIT(s4,0,3) | BIT(s3,0,2) | BIT(s2,1,1) | BIT(s1,1,0);
  s->Y = BIT(s6,0,3) | BIT(s5,0,2) | BIT(s4,1,1) | BIT(s3,1,0);
  s->Z = BIT(s2,0,3) | BIT(s1,0,2) | BIT(s6,1,1) | BIT(s5,1,0);
  s->p = (s7 >> 1) & 1;
  s->q = s7 & 1;

  i = s->D ^ (s->D >> 1);
  return ((i >> 1) & 2) | (i & 1);
}

static void stream_xor(const model_key *k, const uint8_t iv[8], uint8_t *data, unsigned len)
{
  stream s;
  unsigned i;
  int j;

  memset(&s, 0, sizeof s);
  for (i = 0; i < 4; i++)
    {
      s.A[1 + 2 * i] = k->cw[i] >> 4;
      s.A[2 + 2 * i] = k->cw[i] & 15;
      s.B[1 + 2 * i] = k->cw[4 + i] >> 4;
      s.B[2 + 2 * i] = k->cw[4 + i] & 15;
    }
  for (i = 0; i < 8; i++)
    {
      int in1 = iv[i] >> 4, in2 = iv[i] & 15;
      for (j = 0; j < 4; j++)
        stream_2bits(&s, 1, (j & 1) ? in2 : in1, (j & 1) ? in1 : in2);
    }
  for (i = 0; i < len; i++)
    {
      int op = 0;
      for (j = 0; j < 4; j++)
        op = (op << 2) | stream_2bits(&s, 0, 0, 0);
      data[i] ^= (uint8_t)op;
    }
}

void model_decrypt(const model_key *k, uint8_t *data, unsigned len)
{
  uint8_t out[8];
  unsigned i, j, alen = len & ~7u;

  if (len < 8)
    return;
  stream_xor(k, data, data + 8, len - 8);
  for (i = 0; i < alen; i += 8)
    {
      block_dec(k, data + i, out);
      for (j = 0; j < 8; j++)
        data[i + j] = out[j] ^ (i + 8 < alen ? data[i + 8 + j] : 0);
    }
}

void model_encrypt(const model_key *k, uint8_t *data, unsigned len)
{
  unsigned j, alen = len & ~7u;
  int i;

  if (len < 8)
    return;
  for (i = (int)alen - 8; i >= 0; i -= 8)
    {
      if ((unsigned)i + 8 < alen)
        for (j = 0; j < 8; j++)
          data[i + j] ^= data[i + 8 + j];
      block_enc(k, data + i, data + i);
    }
  stream_xor(k, data, data + 8, len - 8);
}

int model_selftest(void)
{
  int i;
  uint8_t b[184];
  model_key k;
  for (i = 0; i < 2; i++)
    {
      model_set(&k, vectors[i].cw);
      memcpy(b, vectors[i].enc, 184);
      model_decrypt(&k, b, 184);
      if (memcmp(b, vectors[i].dec, 184))
        return 1 + i;
      model_encrypt(&k, b, 184);
      if (memcmp(b, vectors[i].enc, 184))
        return 11 + i;
    }
  return 0;
}
