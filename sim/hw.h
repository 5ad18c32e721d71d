/* given to every library source: instructions that ask the processor for time or chance */
#if defined(__x86_64__)
unsigned long long vp_rdtsc(void);
unsigned long long vp_rdtscp(unsigned *);
int vp_rdrand16(unsigned short *);
int vp_rdrand32(unsigned *);
int vp_rdrand64(unsigned long long *);
#define __builtin_ia32_rdtsc vp_rdtsc
#define __builtin_readcyclecounter vp_rdtsc
#define __builtin_ia32_rdtscp(a) vp_rdtscp(a)
#define __builtin_ia32_rdrand16_step vp_rdrand16
#define __builtin_ia32_rdrand32_step vp_rdrand32
#define __builtin_ia32_rdrand64_step vp_rdrand64
#define __builtin_ia32_rdseed_hi_step vp_rdrand16
#define __builtin_ia32_rdseed_si_step vp_rdrand32
#define __builtin_ia32_rdseed_di_step vp_rdrand64
#endif
