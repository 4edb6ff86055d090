/* driver of the memory pool (compiled in the code's pool configuration) */
#define VIRIATUM_MPOOL
#include "stdafx.h"
#undef VIRIATUM_MPOOL
#define VIRIATUM_MPOOL
#include "memory/memory_pool.h"
#include "memory/memory_pool.c"
#include "unit.h"
struct blk{ unsigned char*p; int id; int live; unsigned tag; };
static struct blk *B; static size_t nB,cB; static size_t sz;
/* block addresses to identifiers, in order of first appearance */
static struct {unsigned char*p;size_t i;} *H; static size_t cH;
static size_t slot(unsigned char*p){ size_t h=((size_t)p*0x9E3779B97F4A7C15ull)>>20; for(h%=cH;H[h].p&&H[h].p!=p;h=(h+1)%cH); return h; }
static void fill(struct blk*b){ for(size_t k=0;k<sz;k++) b->p[k]=(unsigned char)((b->tag>>(8*(k%4)))^k); }
static int same(struct blk*b){ for(size_t k=0;k<sz;k++) if(b->p[k]!=(unsigned char)((b->tag>>(8*(k%4)))^k)) return 0; return 1; }
static int cmpp(const void*a,const void*b){ unsigned char*x=(*(struct blk**)a)->p,*y=(*(struct blk**)b)->p; return x<y?-1:x>y; }
static size_t overlaps(void){ struct blk**L=malloc((nB+1)*sizeof*L); size_t n=0,r=0; for(size_t i=0;i<nB;i++) if(B[i].live) L[n++]=&B[i]; qsort(L,n,sizeof*L,cmpp); for(size_t i=1;i<n;i++) if(L[i-1]->p+sz>L[i]->p) r++; free(L); return r; }
static void run(char**tok,int n){
    struct memory_pool_t pool={NULL,NULL,0,0,0,0}; memset(&pool,0,sizeof pool); unsigned tags=1;
    sz=atoi(tok[0]); nB=0; if(!B){cB=400000;B=malloc(cB*sizeof*B);cH=1<<20;H=malloc(cH*sizeof*H);} memset(H,0,cH*sizeof*H); pool_counter=0;
    for(int i=1;i<n;i++){
        char o[16]; long a=0,b=0,s=1; sscanf(tok[i],"%15[^:]:%ld:%ld:%ld",o,&a,&b,&s); ev(); out("{\"o\":\"%s\",\"r\":[",o);
        if(!strcmp(o,"alloc")){ for(long k=0;k<a;k++){ unsigned char*p=palloc(&pool,sz); size_t h=slot(p); if(!H[h].p){H[h].p=p;H[h].i=nB;B[nB].p=p;B[nB].id=nB+1;B[nB].live=0;nB++;} struct blk*x=&B[H[h].i]; out(k?",%d":"%d",x->id); x->live=1; x->tag=tags++; fill(x);} }
        else { int f=1; for(long k=a;(s>0?k<=b:k>=b)&&k>=1;k+=s) if((size_t)k<=nB&&B[k-1].live){ out(f?"%ld":",%ld",k); f=0; B[k-1].live=0; memset(B[k-1].p,0xdd,sz); pfree(&pool,B[k-1].p); } }
        size_t bad=0; for(size_t k=0;k<nB;k++) if(B[k].live&&!same(&B[k])) bad++;
        out("],\"ov\":%zu,\"bad\":%zu}",overlaps(),bad);
    }
    cleanup_palloc();
}
