// Independent reference implementations used as oracles. Written from FIPS 180-4, RFC 2104,
// RFC 5869, RFC 8018, RFC 8439 and RFC 4648; shares no code with /repo. The python runner checks
// the reference itself against hashlib / hmac / python integers on every run (see "selftest").
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

namespace ref
{
    using u8 = unsigned char;
    using u32 = uint32_t;
    using u64 = uint64_t;
    using u128 = unsigned __int128;
    using bytes = std::vector<u8>;

    inline u32 ror32(u32 x, int n) { return x >> n | x << (32 - n); }
    inline u32 rol32(u32 x, int n) { return x << n | x >> (32 - n); }
    inline u64 ror64(u64 x, int n) { return x >> n | x << (64 - n); }

    static const u64 K512[80] = {
        0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,
        0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,
        0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,
        0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,
        0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,
        0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,
        0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,
        0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,
        0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,
        0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};

    enum alg { SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256 };
    inline size_t dlen(alg a) { static const size_t t[] = {20,28,32,48,64,28,32}; return t[a]; }
    inline size_t blen(alg a) { return a <= SHA256 ? 64 : 128; }
    inline const char* aname(alg a) { static const char* t[] = {"sha1","sha224","sha256","sha384","sha512","sha512_224","sha512_256"}; return t[a]; }

    inline void comp1(u32* h, const u8* p)
    {
        u32 w[80];
        for (int i = 0; i < 16; i++) w[i] = u32(p[4*i])<<24 | u32(p[4*i+1])<<16 | u32(p[4*i+2])<<8 | p[4*i+3];
        for (int i = 16; i < 80; i++) w[i] = rol32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1);
        u32 a=h[0],b=h[1],c=h[2],d=h[3],e=h[4];
        for (int i = 0; i < 80; i++)
        {
            u32 f,k;
            if (i<20) { f=(b&c)|(~b&d); k=0x5a827999; } else if (i<40) { f=b^c^d; k=0x6ed9eba1; }
            else if (i<60) { f=(b&c)|(b&d)|(c&d); k=0x8f1bbcdc; } else { f=b^c^d; k=0xca62c1d6; }
            u32 t=rol32(a,5)+f+e+k+w[i]; e=d; d=c; c=rol32(b,30); b=a; a=t;
        }
        h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;
    }
    inline void comp256(u32* h, const u8* p)
    {
        u32 w[64];
        for (int i = 0; i < 16; i++) w[i] = u32(p[4*i])<<24 | u32(p[4*i+1])<<16 | u32(p[4*i+2])<<8 | p[4*i+3];
        for (int i = 16; i < 64; i++)
            w[i] = (ror32(w[i-2],17)^ror32(w[i-2],19)^(w[i-2]>>10)) + w[i-7] + (ror32(w[i-15],7)^ror32(w[i-15],18)^(w[i-15]>>3)) + w[i-16];
        u32 s[8]; memcpy(s,h,32);
        for (int i = 0; i < 64; i++)
        {
            u32 t1=s[7]+(ror32(s[4],6)^ror32(s[4],11)^ror32(s[4],25))+((s[4]&s[5])^(~s[4]&s[6]))+u32(K512[i]>>32)+w[i];
            u32 t2=(ror32(s[0],2)^ror32(s[0],13)^ror32(s[0],22))+((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
            s[7]=s[6];s[6]=s[5];s[5]=s[4];s[4]=s[3]+t1;s[3]=s[2];s[2]=s[1];s[1]=s[0];s[0]=t1+t2;
        }
        for (int i = 0; i < 8; i++) h[i]+=s[i];
    }
    inline void comp512(u64* h, const u8* p)
    {
        u64 w[80];
        for (int i = 0; i < 16; i++) { w[i]=0; for (int j = 0; j < 8; j++) w[i]=w[i]<<8|p[8*i+j]; }
        for (int i = 16; i < 80; i++)
            w[i] = (ror64(w[i-2],19)^ror64(w[i-2],61)^(w[i-2]>>6)) + w[i-7] + (ror64(w[i-15],1)^ror64(w[i-15],8)^(w[i-15]>>7)) + w[i-16];
        u64 s[8]; memcpy(s,h,64);
        for (int i = 0; i < 80; i++)
        {
            u64 t1=s[7]+(ror64(s[4],14)^ror64(s[4],18)^ror64(s[4],41))+((s[4]&s[5])^(~s[4]&s[6]))+K512[i]+w[i];
            u64 t2=(ror64(s[0],28)^ror64(s[0],34)^ror64(s[0],39))+((s[0]&s[1])^(s[0]&s[2])^(s[1]&s[2]));
            s[7]=s[6];s[6]=s[5];s[5]=s[4];s[4]=s[3]+t1;s[3]=s[2];s[2]=s[1];s[1]=s[0];s[0]=t1+t2;
        }
        for (int i = 0; i < 8; i++) h[i]+=s[i];
    }

    // A plain whole-message hash over up to three concatenated pieces: no streaming state to get wrong.
    // A piece at VIRT stands for bytes that are counted but not read: whole blocks, at a block border (see d_huge.cpp).
    struct piece { const u8* p; size_t n; };
    inline const u8* const VIRT=reinterpret_cast<const u8*>(~u64(0)-4095);
    inline void hash_pieces(alg a, const piece* ps, int np, u8* out)
    {
        static const u32 i1[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
        static const u32 i224[8]={0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
        static const u32 i256[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
        static const u64 i384[8]={0xcbbb9d5dc1059ed8ull,0x629a292a367cd507ull,0x9159015a3070dd17ull,0x152fecd8f70e5939ull,0x67332667ffc00b31ull,0x8eb44a8768581511ull,0xdb0c2e0d64f98fa7ull,0x47b5481dbefa4fa4ull};
        static const u64 i512[8]={0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
        u32 h32[8]; u64 h64[8]; size_t B = blen(a);
        switch (a)
        {
            case SHA1: memcpy(h32,i1,20); break; case SHA224: memcpy(h32,i224,32); break; case SHA256: memcpy(h32,i256,32); break;
            case SHA384: memcpy(h64,i384,64); break; case SHA512: memcpy(h64,i512,64); break;
            default: break;
        }
        if (a==SHA512_224||a==SHA512_256)
        {   // generated as FIPS 180-4 5.3.6 prescribes, instead of trusting a table
            u64 g[8]; for (int i=0;i<8;i++) g[i]=i512[i]^0xa5a5a5a5a5a5a5a5ull;
            const char* nm = a==SHA512_224?"SHA-512/224":"SHA-512/256"; u8 b[128]{}; memcpy(b,nm,11); b[11]=0x80; b[127]=88;
            comp512(g,b); memcpy(h64,g,64);
        }
        u8 buf[256]; size_t fill=0; u128 total=0;
        auto block=[&](const u8* p){ if (a==SHA1) comp1(h32,p); else if (a<=SHA256) comp256(h32,p); else comp512(h64,p); };
        for (int k=0;k<np;k++)
        {
            const u8* p=ps[k].p; size_t n=ps[k].n; total+=n; if (p==VIRT) continue;
            while (n)
            {
                if (fill==0 && n>=B) { block(p); p+=B; n-=B; continue; }
                size_t c = B-fill<n?B-fill:n; memcpy(buf+fill,p,c); fill+=c; p+=c; n-=c;
                if (fill==B) { block(buf); fill=0; }
            }
        }
        size_t L = B==64?8:16; u128 bits=total*8;
        size_t end = fill+1+L<=B?B:2*B;
        memset(buf+fill,0,end-fill); buf[fill]=0x80;
        for (size_t i=0;i<L;i++) buf[end-1-i]=u8(bits>>(8*i));
        block(buf); if (end>B) block(buf+B);
        u8 o[64];
        if (a<=SHA256) for (int i=0;i<8;i++) for (int j=0;j<4;j++) o[4*i+j]=u8((a==SHA1&&i>4?0:h32[i])>>(24-8*j));
        else for (int i=0;i<8;i++) for (int j=0;j<8;j++) o[8*i+j]=u8(h64[i]>>(56-8*j));
        memcpy(out,o,dlen(a));
    }
    inline bytes hash(alg a, const u8* p, size_t n) { bytes o(dlen(a)); piece x{p,n}; hash_pieces(a,&x,1,o.data()); return o; }

    inline bytes hmac(alg a, const u8* k, size_t kn, const piece* m, int nm)
    {
        size_t B=blen(a); u8 key[128]{}; 
        if (kn>B) { piece x{k,kn}; hash_pieces(a,&x,1,key); } else if (kn) memcpy(key,k,kn);
        u8 ip[128],op[128]; for (size_t i=0;i<B;i++) { ip[i]=key[i]^0x36; op[i]=key[i]^0x5c; }
        piece v[8]; v[0]={ip,B}; for (int i=0;i<nm;i++) v[i+1]=m[i];
        u8 in[64]; hash_pieces(a,v,nm+1,in);
        piece w[2]={{op,B},{in,dlen(a)}}; bytes o(dlen(a)); hash_pieces(a,w,2,o.data()); return o;
    }
    inline bytes hmac(alg a, const u8* k, size_t kn, const u8* m, size_t mn) { piece x{m,mn}; return hmac(a,k,kn,&x,1); }

    inline bytes hkdf(alg a, const u8* ikm, size_t in, const u8* salt, size_t sn, const u8* info, size_t fn, size_t L)
    {
        bytes prk=hmac(a,salt,sn,ikm,in), t, o;
        for (unsigned i=1; o.size()<L; i++)
        {
            u8 c=u8(i); piece m[3]={{t.data(),t.size()},{info,fn},{&c,1}};
            t=hmac(a,prk.data(),prk.size(),m,3); o.insert(o.end(),t.begin(),t.end());
        }
        o.resize(L); return o;
    }
    inline bytes pbkdf2(alg a, const u8* pw, size_t pn, const u8* salt, size_t sn, u32 it, size_t L)
    {
        bytes o;
        for (u32 i=1; o.size()<L; i++)
        {
            u8 c[4]={u8(i>>24),u8(i>>16),u8(i>>8),u8(i)}; piece m[2]={{salt,sn},{c,4}};
            bytes u=hmac(a,pw,pn,m,2), t=u;
            for (u32 j=1;j<it;j++) { u=hmac(a,pw,pn,u.data(),u.size()); for (size_t q=0;q<t.size();q++) t[q]^=u[q]; }
            o.insert(o.end(),t.begin(),t.end());
        }
        o.resize(L); return o;
    }

    inline void chacha_block(const u8* key, u32 ctr, const u8* nonce, u8* out)
    {
        auto ld=[](const u8* p){ return u32(p[0])|u32(p[1])<<8|u32(p[2])<<16|u32(p[3])<<24; };
        u32 s[16]={0x61707865,0x3320646e,0x79622d32,0x6b206574};
        for (int i=0;i<8;i++) s[4+i]=ld(key+4*i);
        s[12]=ctr; for (int i=0;i<3;i++) s[13+i]=ld(nonce+4*i);
        u32 x[16]; memcpy(x,s,64);
        auto q=[&](int a,int b,int c,int d){ x[a]+=x[b];x[d]=rol32(x[d]^x[a],16);x[c]+=x[d];x[b]=rol32(x[b]^x[c],12);x[a]+=x[b];x[d]=rol32(x[d]^x[a],8);x[c]+=x[d];x[b]=rol32(x[b]^x[c],7); };
        for (int i=0;i<10;i++) { q(0,4,8,12);q(1,5,9,13);q(2,6,10,14);q(3,7,11,15);q(0,5,10,15);q(1,6,11,12);q(2,7,8,13);q(3,4,9,14); }
        for (int i=0;i<16;i++) { u32 v=x[i]+s[i]; out[4*i]=u8(v);out[4*i+1]=u8(v>>8);out[4*i+2]=u8(v>>16);out[4*i+3]=u8(v>>24); }
    }
    // Keystream xor; the 32 bit block counter wraps modulo 2^32.
    inline void chacha_xor(const u8* key, u32 ctr, const u8* nonce, const u8* in, size_t n, u8* out)
    {
        u8 b[64];
        for (size_t i=0;i<n;i++) { if (i%64==0) chacha_block(key,u32(ctr+i/64),nonce,b); out[i]=in[i]^b[i%64]; }
    }

    // Poly1305 with 130 bit arithmetic held in three 64 bit words, reduced completely after each block.
    struct poly
    {
        u64 r[2], s[2]; u64 h[3]; u8 buf[16]; size_t fill=0;
        explicit poly(const u8* k)
        {
            auto ld=[](const u8* p){ u64 v=0; for (int i=7;i>=0;i--) v=v<<8|p[i]; return v; };
            r[0]=ld(k)&0x0ffffffc0fffffffull; r[1]=ld(k+8)&0x0ffffffc0ffffffcull; s[0]=ld(k+16); s[1]=ld(k+24); h[0]=h[1]=h[2]=0;
        }
        void block(const u8* p, size_t n)
        {
            u8 b[17]{}; memcpy(b,p,n); b[n]=1;
            u64 m0=0,m1=0; for (int i=7;i>=0;i--) { m0=m0<<8|b[i]; m1=m1<<8|b[8+i]; }
            u128 c=u128(h[0])+m0; h[0]=u64(c); c=u128(h[1])+m1+u64(c>>64); h[1]=u64(c); h[2]+=b[16]+u64(c>>64);
            // schoolbook product of (h0,h1,h2) and (r0,r1) into five words
            u64 t[5]{};
            for (int i=0;i<3;i++)
            {
                u64 carry=0;
                for (int j=0;j<2;j++) { u128 v=u128(h[i])*r[j]+t[i+j]+carry; t[i+j]=u64(v); carry=u64(v>>64); }
                for (int k=i+2;k<5&&carry;k++) { u128 v=u128(t[k])+carry; t[k]=u64(v); carry=u64(v>>64); }
            }
            // reduce mod 2^130-5 : x = lo130 + 5*(x>>130), repeated until below 2^130, then subtract p
            while (t[2]>>2 || t[3] || t[4])
            {
                u64 q[3]={t[2]>>2|t[3]<<62,t[3]>>2|t[4]<<62,t[4]>>2};
                t[2]&=3; t[3]=t[4]=0;
                u64 carry=0;
                for (int i=0;i<3;i++) { u128 v=u128(q[i])*5+t[i]+carry; t[i]=u64(v); carry=u64(v>>64); }
                t[3]=carry;
            }
            h[0]=t[0];h[1]=t[1];h[2]=t[2];
            if (h[2]==3&&h[1]==~0ull&&h[0]>=0xfffffffffffffffbull) { h[0]-=0xfffffffffffffffbull; h[1]=h[2]=0; }
        }
        void update(const u8* p, size_t n) { while (n) { size_t c=16-fill<n?16-fill:n; memcpy(buf+fill,p,c); fill+=c;p+=c;n-=c; if (fill==16) { block(buf,16); fill=0; } } }
        void final(u8* o)
        {
            if (fill) block(buf,fill);
            u128 c=u128(h[0])+s[0]; u64 a=u64(c); u64 b=h[1]+s[1]+u64(c>>64);
            for (int i=0;i<8;i++) { o[i]=u8(a>>(8*i)); o[8+i]=u8(b>>(8*i)); }
        }
    };
    inline bytes poly1305(const u8* k32, const u8* m, size_t n) { poly p(k32); p.update(m,n); bytes o(16); p.final(o.data()); return o; }

    struct sealed { bytes ct, tag; };
    inline bytes aead_tag(const u8* key, const u8* nonce, const u8* aad, size_t an, const u8* ct, size_t n)
    {
        u8 b[64]; chacha_block(key,0,nonce,b); poly p(b); u8 z[16]{};
        p.update(aad,an); p.update(z,(16-an%16)%16); p.update(ct,n); p.update(z,(16-n%16)%16);
        u8 l[16]; for (int i=0;i<8;i++) { l[i]=u8(u64(an)>>(8*i)); l[8+i]=u8(u64(n)>>(8*i)); }
        p.update(l,16); bytes t(16); p.final(t.data()); return t;
    }
    inline sealed aead_seal(const u8* key, const u8* nonce, const u8* aad, size_t an, const u8* pt, size_t n)
    {
        sealed s; s.ct.resize(n); chacha_xor(key,1,nonce,pt,n,s.ct.data()); s.tag=aead_tag(key,nonce,aad,an,s.ct.data(),n); return s;
    }

    inline std::string b16e(const u8* p, size_t n) { static const char* d="0123456789abcdef"; std::string o; for (size_t i=0;i<n;i++) { o+=d[p[i]>>4]; o+=d[p[i]&15]; } return o; }
    inline int b16v(u8 c) { if (c>='0'&&c<='9') return c-'0'; if (c>='a'&&c<='f') return c-'a'+10; if (c>='A'&&c<='F') return c-'A'+10; return -1; }
    // An odd number of digits decodes as if a leading 0 were there.
    inline bool b16d(const u8* p, size_t n, bytes& o)
    {
        o.clear(); size_t i=0;
        if (n&1) { int v=b16v(p[0]); if (v<0) return false; o.push_back(u8(v)); i=1; }
        for (;i<n;i+=2) { int a=b16v(p[i]),b=b16v(p[i+1]); if (a<0||b<0) return false; o.push_back(u8(a<<4|b)); }
        return true;
    }
    static const char* const B64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    inline std::string b64e(const u8* p, size_t n)
    {
        std::string o;
        for (size_t i=0;i<n;i+=3)
        {
            u32 v=u32(p[i])<<16|(i+1<n?u32(p[i+1])<<8:0)|(i+2<n?p[i+2]:0);
            o+=B64[v>>18]; o+=B64[v>>12&63]; o+=i+1<n?B64[v>>6&63]:'='; o+=i+2<n?B64[v&63]:'=';
        }
        return o;
    }
    inline int b64v(u8 c) { if (!c) return -1; const char* q=strchr(B64,c); return q?int(q-B64):-1; }
    // Strict on alphabet, length and padding place. canonical=false when unused bits of the last digit are set.
    inline bool b64d(const u8* p, size_t n, bytes& o, bool& canonical)
    {
        o.clear(); canonical=true; if (n%4) return false;
        for (size_t i=0;i<n;i+=4)
        {
            bool last=i+4==n; int a=b64v(p[i]),b=b64v(p[i+1]),c=b64v(p[i+2]),d=b64v(p[i+3]);
            bool e2=last&&p[i+2]=='='&&p[i+3]=='=', e1=last&&!e2&&p[i+3]=='=';
            if (a<0||b<0) return false;
            if (e2) { o.push_back(u8(a<<2|b>>4)); if (b&15) canonical=false; continue; }
            if (c<0) return false;
            if (e1) { o.push_back(u8(a<<2|b>>4)); o.push_back(u8(b<<4|c>>2)); if (c&3) canonical=false; continue; }
            if (d<0) return false;
            o.push_back(u8(a<<2|b>>4)); o.push_back(u8(b<<4|c>>2)); o.push_back(u8(c<<6|d));
        }
        return true;
    }
}
