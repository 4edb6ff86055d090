/* driver of the templates. Scenario "t": token 1 is the environment as a flat text map
   (d,sNAME,VALUE,...,e; see u_benc.c), each other token a template in hexadecimal */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
#undef MAP_TYPE
static void show(struct type_t*t){
    struct iterator_t*it;
    switch(t->type){
    case INTEGER_TYPE: out("{\"t\":\"i\",\"v\":%d}",t->value.value_int); break;
    case STRING_TYPE: out("{\"t\":\"s\",\"v\":"); outbytes((unsigned char*)t->value.value_string,strlen(t->value.value_string)); out("}"); break;
    case LIST_TYPE: { struct type_t*c; int n=0; out("{\"t\":\"l\",\"v\":["); create_iterator_linked_list(t->value.value_list,&it); for(;;){ get_next_iterator(it,(void**)&c); if(!c)break; if(n++)out(","); show(c);} delete_iterator_linked_list(t->value.value_list,it); out("]}"); break; }
    case MAP_TYPE: { struct hash_map_element_t*e,**es=0; int n=0; create_element_iterator_hash_map(t->value.value_map,&it);
        for(;;){ get_next_iterator(it,(void**)&e); if(!e)break; es=realloc(es,(n+1)*sizeof*es); es[n++]=e; } delete_iterator_hash_map(t->value.value_map,it);
        out("{\"t\":\"d\",\"k\":["); for(int i=0;i<n;i++){ if(i)out(","); outbytes(es[i]->key_string,strlen((char*)es[i]->key_string)); } out("],\"v\":["); for(int i=0;i<n;i++){ if(i)out(","); show(es[i]->value); } out("]}"); free(es); break; }
    default: out("{\"t\":\"x\"}"); }
}
static char *pp;
static struct type_t *value(void){
    struct type_t*t; char c=*pp++; char tx[64]; int n=0;
    if(c=='i'){ while(*pp&&*pp!=',') tx[n++]=*pp++; tx[n]=0; if(*pp)pp++; create_type(&t,INTEGER_TYPE); *t=integer_type((int)atoll(tx)); return t; }
    if(c=='s'){ char*e=strchr(pp,','); size_t z=e?(size_t)(e-pp):strlen(pp); char*h=strndup(pp,z); size_t k; unsigned char*b=unhexs(h,&k,1); char*m=MALLOC(k+1); memcpy(m,b,k+1); free(b); free(h); pp+=z; if(*pp)pp++; create_type(&t,STRING_TYPE); *t=string_type(m); return t; }
    if(*pp==',')pp++;
    if(c=='l'){ struct linked_list_t*l; create_linked_list(&l); create_type(&t,LIST_TYPE); *t=list_type(l); while(*pp!='e') append_value_linked_list(l,value()); pp++; if(*pp==',')pp++; return t; }
    struct hash_map_t*h; create_hash_map(&h,0); create_type(&t,MAP_TYPE); *t=map_type(h);
    while(*pp!='e'){ struct type_t*k=value(),*v=value(); char*ks=strdup(k->value.value_string); set_value_string_hash_map(h,(unsigned char*)ks,v); free(ks); free_type(k); }
    pp++; if(*pp==',')pp++; return t;
}
static void run(char**tok,int n){
    pp=tok[1]; struct type_t*env=value();
    for(int i=2;i<n;i++){ size_t k; unsigned char*p=unhexs(tok[i],&k,0); char f[600]; snprintf(f,sizeof f,"%s/t%d",workdir,(int)getpid()); FILE*o=fopen(f,"wb"); if(!o)exit(3); fwrite(p,1,k,o); fclose(o);
        struct template_handler_t*h; create_template_handler(&h);
        struct iterator_t*it; struct hash_map_element_t*e; create_element_iterator_hash_map(env->value.value_map,&it);
        for(;;){ get_next_iterator(it,(void**)&e); if(!e)break; struct type_t*t=e->value; unsigned char*nm=(unsigned char*)e->key_string;
            if(t->type==INTEGER_TYPE&&i%2) assign_integer_template_handler(h,nm,t->value.value_int); else if(t->type==STRING_TYPE&&i%2) assign_string_template_handler(h,nm,t->value.value_string);
            else if(t->type==LIST_TYPE&&i%2) assign_list_template_handler(h,nm,t->value.value_list); else assign_template_handler(h,nm,t); }
        delete_iterator_hash_map(env->value.value_map,it);
        process_template_handler(h,(unsigned char*)f); unlink(f);
        ev(); out("{\"o\":\"tmpl\",\"doc\":"); outbytes(p,k); out(",\"env\":"); show(env); out(",\"out\":"); outstr((char*)h->string_value); out("}");
        delete_template_handler(h); free(p); }
    free_type(env);
}
