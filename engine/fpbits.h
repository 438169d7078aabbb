#pragma once
static inline double bitsD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static inline u64 dBits(double d){ u64 v; memcpy(&v,&d,8); return v; }
static inline float bitsF(u64 v){ float d; u32 x=v; memcpy(&d,&x,4); return d; }
static inline u64 fBits(float d){ u32 v; memcpy(&v,&d,4); return v; }
