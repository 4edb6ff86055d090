/* driver of the bencoding. Scenario "dec HEX..." decodes documents; "enc[h] FLAT..."
encodes values given flat (see Bencoding.tla) as hexadecimal text: i, s, l, d, e with
operands: iTEXT; sHEX; l ... e ; d ... e, separated by commas */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
#undef MAP_TYPE
static char *fo; static size_t fn,fc;
static void put(int v){ if(fn+16>fc){ fc=fc*2+4096; fo=realloc(fo,fc);} fn+=sprintf(fo+fn,fn?",%d":"%d",v); }
static void putstr(const unsigned char*p,size_t n){ put(115); put((int)n); for(size_t i=0;i<n;i++) put(p[i]); }
static int cmp(const void*a,const void*b){ return strcmp((char*)(*(struct hash_map_element_t**)a)->key_string,(char*)(*(struct hash_map_element_t**)b)->key_string); }
static void flat(struct type_t*t,int sorted){
    struct iterator_t*it; char b[40];
    if(!t){ put(-1); return; }
    switch(t->type){
    case INTEGER_TYPE: { int n=sprintf(b,"%d",t->value.value_int); put(105); put(n); for(int i=0;i<n;i++) put(b[i]); break; }
    case STRING_TYPE: putstr((unsigned char*)t->value.value_string,t->size); break;
    case LIST_TYPE: { struct type_t*c; put(108); create_iterator_linked_list(t->value.value_list,&it); for(;;){ get_next_iterator(it,(void**)&c); if(!c)break; flat(c,sorted);} delete_iterator_linked_list(t->value.value_list,it); put(101); break; }
    case SORT_MAP_TYPE: case MAP_TYPE: { struct hash_map_element_t*e,**es=0; size_t n=0; put(100); int sm=t->type==SORT_MAP_TYPE; if(sm) create_element_iterator_sort_map(t->value.value_sort_map,&it); else create_element_iterator_hash_map(t->value.value_map,&it);
        for(;;){ get_next_iterator(it,(void**)&e); if(!e)break; es=realloc(es,(n+1)*sizeof*es); es[n++]=e; }
        if(sm) delete_iterator_sort_map(t->value.value_sort_map,it); else delete_iterator_hash_map(t->value.value_map,it);
        if(sorted&&n) qsort(es,n,sizeof*es,cmp);
        for(size_t i=0;i<n;i++){ putstr(es[i]->key_string,strlen((char*)es[i]->key_string)); flat(es[i]->value,sorted); } free(es); put(101); break; }
    default: put(-2); }
}
static void show(const char*k,struct type_t*t,int sorted){ fn=0; if(!fo){fc=4096;fo=malloc(fc);} fo[0]=0; flat(t,sorted); out(",\"%s\":[%s]",k,fo); }
/* values from text */
static char *pp; static int hash;
static struct type_t *value(void){
    struct type_t*t; char c=*pp++; char tx[64]; int n=0;
    if(c=='i'){ while(*pp&&*pp!=',') tx[n++]=*pp++; tx[n]=0; if(*pp)pp++; create_type(&t,INTEGER_TYPE); *t=integer_type((int)atoll(tx)); return t; }
    if(c=='s'){ char*e=strchr(pp,','); size_t z=e?(size_t)(e-pp):strlen(pp); char*h=strndup(pp,z); size_t k; unsigned char*b=unhexs(h,&k,1); char*m=MALLOC(k+1); memcpy(m,b,k+1); free(b); free(h); pp+=z; if(*pp)pp++; create_type(&t,STRING_TYPE); *t=buffer_type(m,k); return t; }
    if(*pp==',')pp++;
    if(c=='l'){ struct linked_list_t*l; create_linked_list(&l); create_type(&t,LIST_TYPE); *t=list_type(l); while(*pp!='e') append_value_linked_list(l,value()); pp++; if(*pp==',')pp++; return t; }
    struct sort_map_t*s=0; struct hash_map_t*h=0; if(hash){ create_hash_map(&h,0); create_type(&t,MAP_TYPE); *t=map_type(h); } else { create_sort_map(&s,0); create_type(&t,SORT_MAP_TYPE); *t=sort_map_type(s); }
    while(*pp!='e'){ struct type_t*k=value(),*v=value(); if(hash) set_value_string_hash_map(h,(unsigned char*)k->value.value_string,v); else set_value_string_sort_map(s,(unsigned char*)k->value.value_string,v); free_type(k); }
    pp++; if(*pp==',')pp++; return t;
}
static void run(char**tok,int n){
    if(!strcmp(tok[0],"dec")) for(int i=1;i<n;i++){ size_t k; unsigned char*p=unhexs(tok[i],&k,0); struct type_t*t=0; int e;
        if(i%2) e=IS_ERROR_CODE(decode_bencoding(p,k,&t));
        else { char f[600]; snprintf(f,sizeof f,"%s/b%d",workdir,(int)getpid()); FILE*o=fopen(f,"wb"); if(!o)exit(3); fwrite(p,1,k,o); fclose(o); e=IS_ERROR_CODE(decode_bencoding_file(f,&t)); unlink(f); }
        ev(); out("{\"o\":\"dec\",\"s\":"); outbytes(p,k); out(",\"err\":%s",e?"true":"false");
        if(!e){ show("v",t,0); unsigned char*b; size_t z; if(t){ encode_bencoding(t,&b,&z); out(",\"re\":"); outbytes(b,z); FREE(b); free_type(t);} else out(",\"re\":[-1]"); }
        out("}"); free(p); }
    else { hash=tok[0][3]=='h'; for(int i=1;i<n;i++){ pp=tok[i]; struct type_t*v=value(),*t=0; unsigned char*b; size_t z; ev(); out("{\"o\":\"enc\",\"hash\":%s",hash?"true":"false"); show("v",v,hash);
        encode_bencoding(v,&b,&z); out(",\"s\":"); outbytes(b,z); unsigned char*c=malloc(z?z:1); memcpy(c,b,z); FREE(b); free_type(v);
        int e=IS_ERROR_CODE(decode_bencoding(c,z,&t)); out(",\"err\":%s",e?"true":"false"); if(e) out(",\"back\":[]"); else { show("back",t,hash); if(t)free_type(t);} out("}"); free(c); } }
}
