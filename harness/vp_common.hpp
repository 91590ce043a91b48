// Entry points have the shape  extern "C" void f(const u128 *in, u128 *out)
#ifndef vp_common_hpp
#define vp_common_hpp
#include "thls/tops/fw_uint.hpp"
#include "thls/tops/fp_flopoco.hpp"
typedef unsigned __int128 u128;
#define VP extern "C" void
template<int W> thls::fw_uint<W> IN(const u128 *p){ return thls::fw_uint<W>::from_bits((typename thls::fw_uint<W>::bits_t)*p); }
template<int W> u128 OUT(const thls::fw_uint<W> &x){ return (u128)x.bits; }
template<int E,int F> thls::fp_flopoco<E,F> FP(const u128 *p){ return thls::fp_flopoco<E,F>(IN<E+F+3>(p)); }
template<int E,int F> u128 OUT(const thls::fp_flopoco<E,F> &x){ return (u128)x.bits.bits; }
#endif
