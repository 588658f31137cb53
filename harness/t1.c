#include "vp.h"
#include "pbc.h"
#include "pbc_fp.h"
void vp_main(void){
  field_t f; mpz_t p, hi, lo, e;
  mpz_init(p); mpz_init(hi); mpz_init(lo); mpz_init(e);
  mpz_set_str(p, vp_arg(0)==0 ? "59" : "1461501637330902918203684832716283019655932542983", 0);
  int k = vp_arg(1);
  if (k==0) field_init_naive_fp(f,p); 
  if (k==1) field_init_mont_fp(f,p); 
  if (k==2) field_init_fast_fp(f,p); 
  if (k==3) field_init_faster_fp(f,p); 
  element_t a,b,c;
  element_init(a,f); element_init(b,f); element_init(c,f);
  mpz_t x,y,z; mpz_init(x); mpz_init(y); mpz_init(z);
  mpz_sub_ui(hi,p,1);
  mpz_set_ui(lo,vp_arg(2)); vp_sym_z(x,"x",lo,hi);
  vp_sym_z(y,"y",lo,hi);
  element_set_mpz(a,x); element_set_mpz(b,y);
  element_to_mpz(z,a); vp_assert_z(z,x,"set/to");
  element_add(c,a,b); element_to_mpz(z,c);
  mpz_add(e,x,y); mpz_mod(e,e,p); vp_assert_z(z,e,"add");
  element_sub(c,a,b); element_to_mpz(z,c);
  mpz_sub(e,x,y); mpz_mod(e,e,p); vp_assert_z(z,e,"sub");
  element_mul(c,a,b); element_to_mpz(z,c);
  mpz_mul(e,x,y); mpz_mod(e,e,p); vp_assert_z(z,e,"mul");
  element_neg(c,a); element_to_mpz(z,c);
  mpz_neg(e,x); mpz_mod(e,e,p); vp_assert_z(z,e,"neg");
  vp_cover("end");
}
