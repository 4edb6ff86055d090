/* driver of the streams, bit streams and Huffman coding */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
/* a stream over a block of memory that keeps its contents when closed */
typedef struct { struct stream_t s; unsigned char*b; size_t n,c,p; int w; } vec;
static void v_open(struct stream_t*s){ vec*v=s->lower; v->p=0; }
static void v_close(struct stream_t*s){ }
static size_t v_read(struct stream_t*s,unsigned char*b,size_t n){ vec*v=s->lower; size_t k=v->p<v->n?v->n-v->p:0; if(k>n)k=n; memcpy(b,v->b+v->p,k); v->p+=k; return k; }
static size_t v_write(struct stream_t*s,unsigned char*b,size_t n){ vec*v=s->lower; if(v->p+n>v->c){ v->c=(v->p+n)*2; v->b=realloc(v->b,v->c);} memcpy(v->b+v->p,b,n); v->p+=n; if(v->p>v->n)v->n=v->p; return n; }
static void v_seek(struct stream_t*s,size_t t){ vec*v=s->lower; v->p=t<=v->n?t:v->n; }
static size_t v_size(struct stream_t*s){ return ((vec*)s->lower)->n; }
static size_t v_tell(struct stream_t*s){ return ((vec*)s->lower)->p; }
static vec *v_new(const unsigned char*b,size_t n){ vec*v=calloc(1,sizeof*v); v->c=n+1; v->b=malloc(v->c); if(n)memcpy(v->b,b,n); v->n=n; struct stream_t*s=&v->s; s->lower=v; s->open=v_open; s->close=v_close; s->read=v_read; s->write=v_write; s->flush=v_close; s->seek=v_seek; s->size=v_size; s->tell=v_tell; return v; }
static void v_free(vec*v){ free(v->b); free(v); }
static char *tmpf(int k){ char*f=malloc(600); snprintf(f,600,"%s/s%d.%d",workdir,(int)getpid(),k); return f; }
/* where bits are written to and read from: a block of memory or a file */
typedef struct { int file; char*name; vec*v; struct file_stream_t*w,*r; struct stream_t*ws,*rs; } chan;
static chan c_new(int file,int id,const unsigned char*b,size_t n){ chan c; memset(&c,0,sizeof c); c.file=file;
    if(!file){ c.v=v_new(b,n); c.ws=c.rs=&c.v->s; return c; }
    c.name=tmpf(id); FILE*f=fopen(c.name,"wb"); if(!f)exit(3); if(n)fwrite(b,1,n,f); fclose(f);
    create_file_stream(&c.w,(unsigned char*)c.name,(unsigned char*)"wb"); create_file_stream(&c.r,(unsigned char*)c.name,(unsigned char*)"rb");
    c.ws=get_stream_file_stream(c.w); c.rs=get_stream_file_stream(c.r); return c; }
static unsigned char *c_all(chan*c,size_t*n){ unsigned char*p; if(!c->file){ *n=c->v->n; p=malloc(*n+1); memcpy(p,c->v->b,*n); return p; } FILE*f=fopen(c->name,"rb"); if(!f)exit(3); fseek(f,0,SEEK_END); *n=ftell(f); rewind(f); p=malloc(*n+1); if(*n&&fread(p,1,*n,f)!=*n)exit(3); fclose(f); return p; }
static void c_free(chan*c){ if(!c->file) v_free(c->v); else { delete_file_stream(c->w); delete_file_stream(c->r); unlink(c->name); free(c->name);} }
/* ---- streams: one unit of the specification is U bytes; unit v is the byte
pattern pat(v,k), unit 0 is zeros; anything else is reported as -1 */
static unsigned char pat(int v,size_t k){ return v?(unsigned char)(1+(v*89+k*7+k/256)%255):0; }
static void units(const unsigned char*b,size_t n,size_t U){ out("["); for(size_t i=0;i<n;i+=U){ int v,ok=0; for(v=0;v<4&&!ok;v++){ size_t k=0; if(i+U>n)break; while(k<U&&b[i+k]==pat(v,k))k++; if(k==U){ok=1;break;} } out(i?",%d":"%d",ok?v:-1); } out("]"); }
static void num(const char*k,size_t n,size_t U){ out("\"%s\":",k); if(n%U) out("-1"); else out("%lld",(long long)(n/U)); }
static void do_stream(char**tok,int n){
    int mem=!strcmp(tok[0],"mem"); size_t U=atol(tok[1]); struct memory_stream_t*ms=0; struct file_stream_t*fs=0; struct stream_t*s=0; char*f=tmpf(0); FILE*x=fopen(f,"wb"); if(!x)exit(3); fclose(x);
    if(mem){ create_memory_stream(&ms); s=get_stream_memory_stream(ms); }
    for(int i=2;i<n;i++){ char*a[4]={0}; int na=0; char*save=0; for(char*t=strtok_r(tok[i],":",&save);t&&na<4;t=strtok_r(0,":",&save))a[na++]=t;
        ev(); out("{\"o\":\"%s\"",a[0]);
        if(!strcmp(a[0],"open")){ out(",\"m\":\"%s\"",a[1]); if(!mem){ char*md=!strcmp(a[1],"w+")?"wb+":!strcmp(a[1],"r+")?"rb+":!strcmp(a[1],"w")?"wb":"rb"; if(fs)delete_file_stream(fs); create_file_stream(&fs,(unsigned char*)f,(unsigned char*)md); s=get_stream_file_stream(fs);} s->open(s); }
        else if(!strcmp(a[0],"close")) s->close(s);
        else if(!strcmp(a[0],"read")){ size_t k=atol(a[1])*U; unsigned char*b=malloc(k+1); memset(b,0xee,k+1); size_t r=s->read(s,b,k); out(",\"n\":%s,\"r\":",a[1]); if(r>k) out("[-2]"); else if(b[r]!=0xee) out("[-3]"); else units(b,r,U); free(b); }
        else if(!strcmp(a[0],"write")){ size_t w=strlen(a[1])-1; unsigned char*b=malloc(w*U+(w==0)); for(size_t j=0;j<w*U;j++) b[j]=pat(a[1][1+j/U]-'0',j%U); size_t r=s->write(s,b,w*U); out(",\"w\":["); for(size_t j=0;j<w;j++) out(j?",%c":"%c",a[1][1+j]); out("],"); num("n",r,U); memset(b,0xee,w*U); free(b); }
        else if(!strcmp(a[0],"seek")){ s->seek(s,atol(a[1])*U); out(",\"p\":%s",a[1]); }
        else if(!strcmp(a[0],"flush")) s->flush(s);
        else { out(","); num("n",!strcmp(a[0],"size")?s->size(s):s->tell(s),U); }
        out("}"); }
    if(mem) delete_memory_stream(ms); else if(fs) delete_file_stream(fs);
    unlink(f); free(f);
}
/* ---- bits: w:WIDTH:VALUE (W: through write_word), fill:COUNT:WIDTH:VALUE, then
on close the stored bytes, then r:WIDTH / R:WIDTH, rfill, back:N, rewind */
static void do_bits(char**tok,int n){
    chan c=c_new(!strcmp(tok[1],"f"),0,0,0); struct bit_stream_t*w,*r=0; create_bit_stream(&w,c.ws); open_bit_stream(w); long fk=0; int fw=1,fv=0;
    for(int i=2;i<n;i++){ char*a[5]={0}; int na=0; char*save=0; for(char*t=strtok_r(tok[i],":",&save);t&&na<5;t=strtok_r(0,":",&save))a[na++]=t; int x=na>1?atoi(a[1]):0,y=na>2?atoi(a[2]):0;
        ev();
        if(!strcmp(a[0],"fill")){ fk=x; fw=y; fv=atoi(a[3]); for(long k=0;k<fk;k++) write_word_bit_stream(w,fv,fw); out("{\"o\":\"fill\",\"k\":%ld,\"n\":%d,\"v\":%d}",fk,fw,fv); }
        else if(a[0][0]=='w'){ write_byte_bit_stream(w,y,x); out("{\"o\":\"w\",\"n\":%d,\"v\":%d}",x,y); }
        else if(a[0][0]=='W'){ write_word_bit_stream(w,y,x); out("{\"o\":\"w\",\"n\":%d,\"v\":%d}",x,y); }
        else if(!strcmp(a[0],"stored")){ close_bit_stream(w); delete_bit_stream(w); size_t z; unsigned char*b=c_all(&c,&z); size_t from=(size_t)(fk*fw/8); if(from>z)from=z; out("{\"o\":\"stored\",\"from\":%zu,\"n\":%zu,\"b\":",from,z); outbytes(b+from,z-from); out("}"); free(b); create_bit_stream(&r,c.rs); open_bit_stream(r); }
        else if(!strcmp(a[0],"rfill")){ long bad=0; for(long k=0;k<fk;k++){ unsigned short v=0xffff; read_word_bit_stream(r,&v,fw); bad+=v!=fv; } out("{\"o\":\"rfill\",\"bad\":%ld}",bad); }
        else if(a[0][0]=='R'){ unsigned short v=0xeeee; read_word_bit_stream(r,&v,x); out("{\"o\":\"r\",\"n\":%d,\"v\":%d}",x,v); }
        else if(!strcmp(a[0],"rewind")){ close_bit_stream(r); delete_bit_stream(r); create_bit_stream(&r,c.rs); open_bit_stream(r); out("{\"o\":\"rewind\"}"); }
        else if(a[0][0]=='b'){ seek_bit_stream(r,x); out("{\"o\":\"back\",\"n\":%d}",x); }
        else { unsigned char v=0xee; read_byte_bit_stream(r,&v,x); out("{\"o\":\"r\",\"n\":%d,\"v\":%d}",x,v); }
    }
    if(r){ close_bit_stream(r); delete_bit_stream(r); } c_free(&c);
}
/* ---- Huffman: one text, given in hex or as a recipe "big:sym,count:sym,count.."
whose symbols are interleaved in a fixed pseudo-random order; one that starts with
"=" is coded with the table of the text before it */
static void do_huff(char**tok,int n){
    struct huffman_t*h=0; int file=!strcmp(tok[1],"f"); for(int i=2;i<n;i++){ size_t k=0; unsigned char*p; int again=tok[i][0]=='='; tok[i]+=again; int big=tok[i][0]=='b';
        if(!big) p=unhexs(tok[i],&k,0); else { p=0; char*save=0; size_t cap=0; for(char*t=strtok_r(tok[i]+3,":",&save);t;t=strtok_r(0,":",&save)){ int s; long c; sscanf(t,"%d,%ld",&s,&c); while(k+c>cap){cap=cap*2+65536;p=realloc(p,cap);} memset(p+k,s,c); k+=c; } unsigned long long z=88172645463325252ULL; for(size_t j=k;j>1;j--){ z^=z<<13;z^=z>>7;z^=z<<17; size_t q=z%j; unsigned char t=p[j-1];p[j-1]=p[q];p[q]=t; } }
        chan in=c_new(file,1,p,k),enc=c_new(file,2,0,0),o1=c_new(file,3,0,0),o2=c_new(file&&i%2,4,0,0);
        if(!again){ if(h) delete_huffman(h); create_huffman(&h); generate_table_huffman(h,in.rs); } encode_huffman(h,in.rs,enc.ws);
        decode_tree_huffman(h,enc.rs,o1.ws); if(!again) generate_prefix_huffman(h); decode_huffman(h,enc.rs,o2.ws);
        size_t ne,n1,n2; unsigned char*be=c_all(&enc,&ne),*b1=c_all(&o1,&n1),*b2=c_all(&o2,&n2); size_t cnt[256]={0}; for(size_t j=0;j<k;j++)cnt[p[j]]++;
        ev(); out("{\"o\":\"%s\",\"bits\":%lld,\"codes\":[",big?"huffbig":"huff",(long long)h->bit_count); int f=1,miss=0;
        for(int s=0;s<256;s++){ struct huffman_node_t*nd=h->nodes[s]; if(!nd){ miss+=cnt[s]>0; continue; } out(f?"{\"s\":%d,\"n\":%zu,\"c\":[":",{\"s\":%d,\"n\":%zu,\"c\":[",s,cnt[s]); f=0; for(int b=nd->bit_count-1,g=1;b>=0;b--,g=0) out(g?"%d":",%d",b<16?(nd->code>>b)&1:2); out("]}"); }
        out("]");
        if(big){ long d1=-1,d2=-1; if(n1!=k||memcmp(b1,p,k)){ d1=0; while((size_t)d1<n1&&(size_t)d1<k&&b1[d1]==p[d1])d1++; } if(n2!=k||memcmp(b2,p,k)){ d2=0; while((size_t)d2<n2&&(size_t)d2<k&&b2[d2]==p[d2])d2++; } out(",\"len\":%zu,\"enc\":%zu,\"missing\":%d,\"tree\":%ld,\"table\":%ld}",k,ne,miss,d1,d2); }
        else { out(",\"t\":"); outbytes(p,k); out(",\"enc\":"); outbytes(be,ne); out(",\"tree\":"); outbytes(b1,n1); out(",\"table\":"); outbytes(b2,n2); out("}"); }
        c_free(&in); c_free(&enc); c_free(&o1); c_free(&o2); free(be); free(b1); free(b2); free(p); }
    if(h) delete_huffman(h);
}
static void run(char**tok,int n){ if(!strcmp(tok[0],"bits")) do_bits(tok,n); else if(!strcmp(tok[0],"huff")) do_huff(tok,n); else do_stream(tok,n); }
