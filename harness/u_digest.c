/* driver of digests and ciphers. Scenario "md5|sha1 HEX:C,C,...", "crc HEX", "rc4
KEYHEX HEX:C,C,..." ("rc4i": in place), "crypt KEYHEX HEX" repeated; data is given
in blocks of exactly the size of the part */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "checksum/checksum.h"
#include "crypto/crypto.h"
#include "unit.h"
static void one(const char*a,const unsigned char*d,size_t n,const unsigned char*r,int rn,int same){ ev(); out("{\"o\":\"one\",\"a\":\"%s\",\"d\":",a); outbytes(d,n); out(",\"r\":"); outbytes(r,rn); out(",\"same\":%s}",same?"true":"false"); }
static void run(char**tok,int n){
    for(int i=0;i+1<n;i+=2){
        char*op=tok[i]; unsigned char*key=0; size_t kn=0; unsigned char r[32];
        int rc4=!strncmp(op,"rc4",3),crypt=!strcmp(op,"crypt");
        if(rc4||crypt){ key=unhexs(tok[++i],&kn,1); }
        char*c=strchr(tok[i+1],':'); if(c)*c++=0; size_t z; unsigned char*d=unhexs(tok[i+1],&z,crypt),*b=unhexs(tok[i+1],0,crypt);
        if(!strcmp(op,"crc")){ unsigned long v=crc_32(b,z); r[0]=v>>24;r[1]=v>>16;r[2]=v>>8;r[3]=v; one("crc",d,z,r,v>>31>>1?5:4,!memcmp(d,b,z)); }
        else if(crypt){ char*o; crypt_rc4((char*)b,(char*)key,&o); ev(); out("{\"o\":\"crypt\",\"k\":"); outbytes(key,kn); out(",\"d\":"); outbytes(d,z); out(",\"r\":"); outbytes((unsigned char*)o,z); out(",\"same\":%s}",memcmp(d,b,z)?"false":"true"); FREE(o); }
        else {
            struct md5_context_t m; struct sha1_context_t s; struct rc4_t*k=0; int md=!strcmp(op,"md5");
            if(!rc4){ memset(r,0,32); if(md) md5(b,z,r); else sha1(b,z,r); one(op,d,z,r,md?16:20,!memcmp(d,b,z)); }
            ev(); if(rc4){ create_rc4((char*)key,&k); out("{\"o\":\"key\",\"k\":"); outbytes(key,kn); out("}"); }
            else { if(md) init_md5(&m); else init_sha1(&s); out("{\"o\":\"new\",\"a\":\"%s\"}",op); }
            size_t at=0; while(at<z||(c&&*c)){
                size_t to=z; if(c&&*c){ to=strtoul(c,&c,10); if(*c==',')c++; } if(to>z)to=z; if(to<at)to=at;
                size_t q=to-at; unsigned char*p=malloc(q?q:1),*o=0; memcpy(p,d+at,q);
                if(rc4){ o=op[3]?p:malloc(q?q:1); cipher_rc4(k,(char*)p,q,(char*)o); } else if(md) update_md5(&m,p,q); else update_sha1(&s,p,q);
                ev(); out("{\"o\":\"%s\",\"d\":",rc4?"cipher":"upd"); outbytes(d+at,q); if(rc4){ out(",\"r\":"); outbytes(o,q); } out(",\"same\":%s}",rc4&&op[3]?"true":memcmp(p,d+at,q)?"false":"true");
                if(o&&o!=p) free(o); free(p); at=to; }
            if(rc4) delete_rc4(k); else { memset(r,0,32); if(md) final_md5(&m,r); else final_sha1(&s,r); ev(); out("{\"o\":\"fin\",\"r\":"); outbytes(r,md?16:20); out("}"); }
        }
        free(d); free(b); free(key);
    }
}
