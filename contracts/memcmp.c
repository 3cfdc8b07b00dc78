// Contract of memcmp (its C standard meaning) in place of a loop over its bytes:
// for the sizes of keys, hashes and signatures the comparison is exact and
// straight-line; for any other size the result is
//   0   and then the buffers agree at the arbitrary position VERIF_CMP[2], or
//   !=0 and then they differ at the position recorded in VERIF_CMP[3].
// Positions are offsets into the object that the first argument points into.
typedef unsigned long u64;
typedef unsigned char u8;
extern u64 VERIF_CMP[4];
int nondet_int(void);
u64 nondet_ulong(void);
#define W(k) (*(const u64 *)(p + 8 * k) != *(const u64 *)(q + 8 * k))
int memcmp(const void *a, const void *b, u64 n)
{
  const u8 *p = (const u8 *)a, *q = (const u8 *)b;
  if(n == 0)
    return 0;
  __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp arguments readable");
  if(n == 32)
    return W(0) || W(1) || W(2) || W(3);
  if(n == 64)
    return W(0) || W(1) || W(2) || W(3) || W(4) || W(5) || W(6) || W(7);
  int r = nondet_int();
  if(r == 0)
  {
    u64 o = __CPROVER_POINTER_OFFSET(p);
    if(VERIF_CMP[2] >= o && VERIF_CMP[2] - o < n)
      __CPROVER_assume(p[VERIF_CMP[2] - o] == q[VERIF_CMP[2] - o]);
  }
  else
  {
    u64 d = nondet_ulong();
    __CPROVER_assume(d < n);
    __CPROVER_assume(p[d] != q[d]);
    VERIF_CMP[3] = d + __CPROVER_POINTER_OFFSET(p);
  }
  return r;
}
