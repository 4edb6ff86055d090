/* driver of the parsers and encoders of text: each token is one input */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
#include <sys/stat.h>
static const char *put(const unsigned char*p,size_t n){ static char f[600]; snprintf(f,sizeof f,"%s/t%d",workdir,(int)getpid()); FILE*o=fopen(f,"wb"); if(!o)exit(3); fwrite(p,1,n,o); fclose(o); return f; }
/* ---- INI */
static void do_ini(unsigned char*p,size_t n){
    struct sort_map_t*c=0; int e=IS_ERROR_CODE(process_ini_file((char*)put(p,n),&c));
    out("\"err\":%s,\"r\":[",e?"true":"false"); if(e||!c){ out("]"); return; }
    struct iterator_t*it; struct hash_map_element_t*el; int f=1; create_element_iterator_sort_map(c,&it);
    for(;;){ get_next_iterator(it,(void**)&el); if(!el)break; struct sort_map_t*s; get_value_string_sort_map(c,el->key_string,(void**)&s);
        out(f?"{\"s\":":",{\"s\":"); f=0; outstr((char*)el->key_string); out(",\"kv\":[");
        struct iterator_t*jt; struct hash_map_element_t*kl; int g=1; create_element_iterator_sort_map(s,&jt);
        for(;;){ get_next_iterator(jt,(void**)&kl); if(!kl)break; char*v; get_value_string_sort_map(s,kl->key_string,(void**)&v); out(g?"[":",["); g=0; outstr((char*)kl->key_string); out(","); outstr(v); out("]"); }
        delete_iterator_sort_map(s,jt); out("]}"); }
    delete_iterator_sort_map(c,it); out("]");
}
/* ---- password files */
static void do_pw(unsigned char*p,size_t n){
    struct hash_map_t*m=0; int e=IS_ERROR_CODE(process_passwd_file((char*)put(p,n),&m)); out("\"err\":%s,\"r\":[",e?"true":"false");
    if(!e&&m){ struct iterator_t*it; struct hash_map_element_t*el; int f=1; create_element_iterator_hash_map(m,&it);
        for(;;){ get_next_iterator(it,(void**)&el); if(!el)break; char*v; get_value_string_hash_map(m,el->key_string,(void**)&v); out(f?"[":",["); f=0; outstr((char*)el->key_string); out(","); outstr(v); out("]"); }
        delete_iterator_hash_map(m,it); delete_hash_map(m);} out("]");
}
/* ---- URLs */
static void part(const char*k,struct string_t*s){ out(",\"%s\":",k); if(!s->buffer) out("[-1]"); else outbytes(s->buffer,s->length); }
static void spart(const char*k,const char*s,size_t z){ out(",\"%s\":",k); size_t i; for(i=0;i<z&&s[i];i++); if(i==z) out("[-2]"); else outbytes((const unsigned char*)s,i); }
static void do_url(unsigned char*p,size_t n){
    struct url_t u; memset(&u,0x5a,sizeof u); int e=IS_ERROR_CODE(parse_url((char*)p,n,&u)); out("\"r\":{\"err\":%s",e?"true":"false");
    if(!e){ part("scheme",&u.scheme);part("user",&u.username);part("pass",&u.password);part("host",&u.host);part("ports",&u.port_s);part("path",&u.path);part("query",&u.query);part("frag",&u.fragment); out(",\"port\":%u",u.port); }
    struct url_static_t*s=malloc(sizeof *s); memset(s,0x5a,sizeof *s); e=IS_ERROR_CODE(parse_url_static((char*)p,n,s)); out("},\"s\":{\"err\":%s",e?"true":"false");
    if(!e){ spart("scheme",s->scheme,sizeof s->scheme);spart("user",s->username,sizeof s->username);spart("pass",s->password,sizeof s->password);spart("host",s->host,sizeof s->host);spart("path",s->path,sizeof s->path);spart("query",s->query,sizeof s->query);spart("frag",s->fragment,sizeof s->fragment); out(",\"port\":%u",s->port); }
    out("}"); free(s);
}
/* ---- command lines: the arguments are separated by zero bytes */
static void do_args(unsigned char*p,size_t n){
    char*argv[400]; int argc=1; argv[0]="viriatum"; size_t i=0; while(i<n){ size_t k=i; while(k<n&&p[k])k++; char*a=malloc(k-i+1); memcpy(a,p+i,k-i); a[k-i]=0; argv[argc++]=a; i=k+1; }
    struct hash_map_t*m=0; process_arguments(argc,argv,&m); out("\"r\":["); struct iterator_t*it; struct hash_map_element_t*el; int f=1; create_element_iterator_hash_map(m,&it);
    for(;;){ get_next_iterator(it,(void**)&el); if(!el)break; struct argument_t*a; get_value_string_hash_map(m,el->key_string,(void**)&a);
        out(f?"{\"k\":":",{\"k\":"); f=0; outstr((char*)el->key_string); out(",\"n\":"); outstr(a->key); out(",\"t\":%d,\"v\":",a->type==VALUE_ARGUMENT?1:0); outstr(a->value); out("}"); }
    out("]"); delete_iterator_hash_map(m,it); delete_arguments(m); for(int k=1;k<argc;k++) free(argv[k]);
}
/* ---- percent encoding, Base64 */
static void do_pct(unsigned char*p,size_t n){
    unsigned char*b=0,*d=0; size_t bl=0,dl=0; url_encode(p,n,&b,&bl); out("\"enc\":"); outbytes(b,bl); unsigned char*x=malloc(bl?bl:1); memcpy(x,b,bl); url_decode(x,bl,&d,&dl); out(",\"back\":"); outbytes(d,dl); out(",\"z\":%s",b[bl]==0&&d[dl]==0?"true":"false"); free(x); FREE(b); FREE(d);
    url_decode(p,n,&d,&dl); out(",\"dec\":"); outbytes(d,dl); FREE(d);
}
static void do_b64(unsigned char*p,size_t n){
    unsigned char*b=0,*d=0; size_t bl=0,dl=0; encode_base64(p,n,&b,&bl); out("\"enc\":"); outbytes(b,bl); unsigned char*x=malloc(bl?bl:1); memcpy(x,b,bl);
    int e=IS_ERROR_CODE(decode_base64(x,bl,&d,&dl)); out(",\"back\":"); if(e) out("[-1]"); else { outbytes(d,dl); FREE(d); } free(x); FREE(b);
    e=IS_ERROR_CODE(decode_base64(p,n,&d,&dl)); out(",\"dec\":"); if(e) out("[-1]"); else { outbytes(d,dl); FREE(d); }
}
static void run(char**tok,int n){
    const char*m=tok[0];
    for(int i=1;i<n;i++){ size_t k; unsigned char*p=unhexs(tok[i],&k,0); ev(); out("{\"o\":\"%s\",\"t\":",m); outbytes(p,k); out(",");
        if(!strcmp(m,"ini")) do_ini(p,k); else if(!strcmp(m,"pw")) do_pw(p,k); else if(!strcmp(m,"url")) do_url(p,k); else if(!strcmp(m,"args")) do_args(p,k); else if(!strcmp(m,"pct")) do_pct(p,k); else do_b64(p,k);
        out("}"); free(p); }
    char f[600]; snprintf(f,sizeof f,"%s/t%d",workdir,(int)getpid()); unlink(f);
}
