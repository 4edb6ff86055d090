/* driver of the data structures: replays sequences of operations and records
what each public function returned */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
#define OP(name) (!strcmp(o,name))
static size_t num(const char*s){ return strtoull(s,0,10); }
static char *arg(char **p){ char*s=*p; char*e=strchr(s,':'); if(e){*e=0;*p=e+1;} else *p=s+strlen(s); return s; }
static long V(void*p){ return (long)(size_t)p; }
/* ---------- maps: keys are "i<number>" (integer), "s<hex>" (string) or "c<number>.<hex>"
(string with an explicit hash, so that different strings share it) */
struct key{ int kind; size_t n; unsigned char*s; };
static struct key mkkey(char*t){ struct key k={t[0],0,0}; if(t[0]=='i')k.n=num(t+1); else if(t[0]=='s')k.s=unhexs(t+1,0,1); else {k.n=num(t+1); k.s=unhexs(strchr(t,'.')+1,0,1);} return k; }
static void outkey(char kind,size_t n,unsigned char*s){ out("\"%c",kind); if(kind!='s') out("%zu",n); if(kind=='c') out("."); if(kind!='i'){ if(!s) out("?"); else for(;*s;s++) out("%02x",*s);} out("\""); }
static void run_map(char**tok,int n,int sorted){
    struct hash_map_t*h=0; struct sort_map_t*m=0; size_t init=num(tok[0]); char kind='i';
    if(sorted) create_sort_map(&m,init); else create_hash_map(&h,init);
    for(int i=1;i<n;i++){
        char*p=tok[i],*o=arg(&p); ev(); out("{\"o\":\"%s\"",o);
        if(OP("set")||OP("get")){
            char*kt=arg(&p); out(",\"k\":\"%s\"",kt); struct key k=mkkey(kt); kind=k.kind;
            if(OP("set")){ size_t v=num(arg(&p)); out(",\"v\":%zu",v);
                if(k.kind=='s'){ if(sorted) set_value_string_sort_map(m,k.s,(void*)v); else set_value_string_hash_map(h,k.s,(void*)v); }
                else { if(sorted) set_value_sort_map(m,k.n,k.s,(void*)v); else set_value_hash_map(h,k.n,k.s,(void*)v); } }
            else { void*v=(void*)-7;
                if(k.kind=='s'){ if(sorted) get_value_string_sort_map(m,k.s,&v); else get_value_string_hash_map(h,k.s,&v); }
                else { if(sorted) get_value_sort_map(m,k.n,k.s,&v); else get_value_hash_map(h,k.n,k.s,&v); }
                out(",\"r\":%ld",V(v)); }
            free(k.s);
        } else if(OP("iter")||OP("reiter")){
            struct iterator_t*it; if(sorted) create_element_iterator_sort_map(m,&it); else create_element_iterator_hash_map(h,&it);
            struct hash_map_element_t*e; 
            if(OP("reiter")){ /* part of an iteration, then the iterator is reset */ get_next_iterator(it,(void**)&e); get_next_iterator(it,(void**)&e); if(sorted) reset_iterator_sort_map(m,it); else reset_iterator_hash_map(h,it); }
            out(",\"s\":["); for(int f=1;;f=0){ get_next_iterator(it,(void**)&e); if(!e)break; out(f?"[":",["); outkey(kind,e->key,e->key_string); out(",%ld]",V(e->value)); }
            out("]"); if(sorted) delete_iterator_sort_map(m,it); else delete_iterator_hash_map(h,it);
        } else if(OP("keys")){
            struct iterator_t*it; if(sorted) create_iterator_sort_map(m,&it); else create_iterator_hash_map(h,&it); size_t*k;
            out(",\"s\":["); for(int f=1;;f=0){ get_next_iterator(it,(void**)&k); if(!k)break; out(f?"\"%zu\"":",\"%zu\"",*k); }
            out("]"); if(sorted) delete_iterator_sort_map(m,it); else delete_iterator_hash_map(h,it);
        }
        if(sorted) out(",\"n\":%zu,\"ln\":%zu,\"sn\":%zu}",m->hash_map->size,m->key_list->size,m->key_string_list->size); else out(",\"n\":%zu}",h->size);
    }
    if(sorted) delete_sort_map(m); else delete_hash_map(h);
}
/* ---------- linked list of values, and held nodes */
static int cmpmod; /* values compare by their hundreds, so that equal elements are distinguishable */
static int cmpv(void*a,void*b){ long x=V(a)/100,y=V(b)/100; return x<y?-1:x>y; }
static int cmpr(void*a,void*b){ long x=V(a)/100,y=V(b)/100; return x<y?5000:x>y?-70000:0; }
static int cmpi(void*a,void*b){ return (int)(V(a)-V(b)); }
static int cmpz(void*a,void*b){ return 0; }
static comparator cmpof(const char*s){ return s[0]=='r'?cmpr:s[0]=='i'?cmpi:s[0]=='z'?cmpz:cmpv; }
static void dump_list(struct linked_list_t*l){
    out(",\"n\":%zu,\"f\":[",l->size); struct iterator_t*it; create_iterator_linked_list(l,&it); void*v; int f=1; size_t g=0;
    for(struct linked_list_node_t*x=l->first;x&&g<=l->size+2;x=x->next,g++) { out(f?"%ld":",%ld",V(x->value)); f=0; }
    out("],\"b\":["); f=1; g=0; for(struct linked_list_node_t*x=l->last;x&&g<=l->size+2;x=x->previous,g++) { out(f?"%ld":",%ld",V(x->value)); f=0; }
    out("],\"i\":["); f=1; g=0; for(;;){ get_next_iterator(it,&v); if(!v||g++>l->size+2)break; out(f?"%ld":",%ld",V(v)); f=0; } out("]");
    delete_iterator_linked_list(l,it);
}
static void run_list(char**tok,int n){
    struct linked_list_t*l; create_linked_list(&l); struct linked_list_node_t*held=0; int quiet=0;
    for(int i=0;i<n;i++){
        char*p=tok[i],*o=arg(&p); if(OP("quiet")){quiet=1;continue;} if(OP("loud")){quiet=0;continue;}
        ev(); out("{\"o\":\"%s\"",o); void*v=(void*)-7; long a=0,b=0; struct linked_list_node_t*nd=0;
        if(*p&&!OP("sort")){a=num(arg(&p)); out(",\"a\":%ld",a);} if(*p&&!OP("sort")){b=num(arg(&p)); out(",\"b1\":%ld",b);}
        if(OP("app")) append_value_linked_list(l,(void*)a);
        else if(OP("appf")) append_front_value_linked_list(l,(void*)a);
        else if(OP("appi")) append_index_value_linked_list(l,(void*)a,b);
        else if(OP("remv")) remove_value_linked_list(l,(void*)a,1);
        else if(OP("remi")) remove_index_linked_list(l,a,1);
        else if(OP("get")) get_value_linked_list(l,a,&v),out(",\"r\":%ld",V(v));
        else if(OP("pop")) pop_value_linked_list(l,&v,1),out(",\"r\":%ld",V(v));
        else if(OP("popt")) pop_top_value_linked_list(l,&v,1),out(",\"r\":%ld",V(v));
        else if(OP("peek")) peek_value_linked_list(l,&v),out(",\"r\":%ld",V(v));
        else if(OP("peekt")) peek_top_value_linked_list(l,&v),out(",\"r\":%ld",V(v));
        else if(OP("clear")) clear_linked_list(l);
        else if(OP("sort")) { out(",\"c\":\"%c\"",p[0]); sort_linked_list(l,cmpof(p)); }
        else if(OP("seq")) { void**s; to_sequence_linked_list(l,&s); out(",\"r\":["); for(size_t k=0;k<l->size;k++) out(k?",%ld":"%ld",V(s[k])); out("]"); FREE(s); }
        /* nodes: taken out and put back, the way the server moves its connections */
        else if(OP("npop")||OP("npopt")||OP("nrem")) {
            if(OP("npop")) pop_linked_list(l,&nd); else if(OP("npopt")) pop_top_linked_list(l,&nd);
            else { get_linked_list(l,a,&nd); remove_linked_list(l,nd,0); }
            out(",\"r\":%ld",nd?V(nd->value):0); if(nd){ if(held) delete_linked_list_node(held); held=nd; } }
        else if(OP("nget")) { get_linked_list(l,a,&nd); out(",\"r\":%ld",nd?V(nd->value):0); }
        else if(OP("npeek")) { peek_linked_list(l,&nd); out(",\"r\":%ld",nd?V(nd->value):0); }
        else if(OP("npeekt")) { peek_top_linked_list(l,&nd); out(",\"r\":%ld",nd?V(nd->value):0); }
        else if(OP("nput")||OP("nputf")||OP("nputi")) { out(",\"r\":%ld",held?V(held->value):0); if(held){ if(OP("nput")) append_linked_list(l,held); else if(OP("nputf")) append_front_linked_list(l,held); else append_index_linked_list(l,held,a); held=0; } }
        else if(OP("noop")) {}
        else { out(",\"bad\":1"); }
        if(!quiet||i==n-1) dump_list(l); else out(",\"n\":%zu",l->size);
        out("}");
    }
    if(held) delete_linked_list_node(held); delete_linked_list(l);
}
static void run_pq(char**tok,int n){
    struct priority_queue_t*q; create_priority_queue(&q,cmpof(tok[0]));
    for(int i=1;i<n;i++){ char*p=tok[i],*o=arg(&p); ev(); out("{\"o\":\"%s\"",o); void*v=(void*)-7;
        if(OP("push")){ size_t a=num(p); out(",\"v\":%zu",a); push_priority_queue(q,(void*)a); }
        else { pop_priority_queue(q,&v); out(",\"r\":%ld",V(v)); }
        out(",\"n\":%zu}",q->size); }
    delete_priority_queue(q);
}
static void run_sort(char**tok,int n){ /* cmp begin end values... */
    size_t b=num(tok[1]),e=num(tok[2]); int k=n-3; void**s=malloc(k*sizeof*s+(k==0));
    ev(); out("{\"o\":\"sort\",\"c\":\"%c\",\"lo\":%zu,\"hi\":%zu,\"s\":[",tok[0][0],b,e); for(int i=0;i<k;i++){ s[i]=(void*)num(tok[3+i]); out(i?",%ld":"%ld",V(s[i])); }
    sort_quicksort(s,b,e,cmpof(tok[0])); out("],\"r\":["); for(int i=0;i<k;i++) out(i?",%ld":"%ld",V(s[i])); out("]}"); free(s);
}
static void run_alist(char**tok,int n){ /* element size, initial size, ops */
    size_t es=num(tok[0]); struct array_list_t*l; create_array_list(&l,es,num(tok[1])); 
    for(int i=2;i<n;i++){ char*p=tok[i],*o=arg(&p); size_t ix=num(arg(&p)); ev(); out("{\"o\":\"%s\",\"x\":%zu",o,ix);
        if(OP("set")){ size_t k; unsigned char*d=unhexs(p,&k,0); out(",\"v\":\"%s\"",p); set_array_list(l,ix,d); memset(d,0xee,k); free(d); }
        else { unsigned char*d; get_array_list(l,ix,(void**)&d); out(",\"r\":\"x"); for(size_t k=0;k<es;k++) out("%02x",d[k]); out("\""); }
        out("}"); }
    delete_array_list(l);
}
static void run_sbuf(char**tok,int n){ /* string buffer: appends and joins */
    struct string_buffer_t*b; create_string_buffer(&b); unsigned char*keep[4096]; int nk=0; struct string_t st[64]; int ns=0;
    for(int i=0;i<n;i++){ char*p=tok[i],*o=arg(&p); ev(); out("{\"o\":\"%s\"",o);
        if(OP("join")){ unsigned char*r; join_string_buffer(b,&r); out(",\"r\":"); outbytes(r,b->string_length); out(",\"z\":%zu",strlen((char*)r)); FREE(r); }
        else { size_t k,m; unsigned char*d; char*h=arg(&p); 
            int owned=o[0]=='_';
            if(!strcmp(o+owned,"s")){ d=unhexs(h,&k,1); m=k; }          /* terminated string */
            else { d=unhexs(h,&k,0); m=*p?num(p):k; }                     /* explicit length: the first m bytes */
            out(",\"d\":"); outbytes(d,m);
            if(OP("s")) append_string_buffer(b,d); else if(OP("_s")) _append_string_buffer(b,d);
            else if(OP("l")) append_string_l_buffer(b,d,m); else if(OP("_l")) _append_string_l_buffer(b,d,m);
            else { struct string_t*t=&st[ns++%64]; string_populate(t,d,m,0); if(owned) _append_string_t_buffer(b,t); else append_string_t_buffer(b,t); }
            if(!owned) keep[nk++]=d; }
        out(",\"n\":%zu}",b->string_length); }
    delete_string_buffer(b); for(int i=0;i<nk;i++) free(keep[i]);
}
static void run_lbuf(char**tok,int n){ /* linked buffer */
    struct linked_buffer_t*b; create_linked_buffer(&b); unsigned char*keep[4096]; int nk=0;
    for(int i=0;i<n;i++){ char*p=tok[i],*o=arg(&p); ev(); out("{\"o\":\"%s\"",o);
        if(OP("join")){ unsigned char*r; join_linked_buffer(b,&r); out(",\"r\":"); outbytes(r,b->buffer_length); FREE(r); }
        else { size_t k,m; char*h=arg(&p); unsigned char*d=unhexs(h,&k,0); m=*p?num(p):k; out(",\"d\":"); outbytes(d,m);
            if(OP("r")) append_linked_buffer(b,d,m,1); else if(OP("_r")) _append_linked_buffer(b,d,m); else { append_linked_buffer(b,d,m,0); keep[nk++]=d; } }
        out(",\"n\":%zu}",b->buffer_length); }
    delete_linked_buffer(b); for(int i=0;i<nk;i++) free(keep[i]);
}
static void run(char**tok,int n){
    char*m=tok[0]; tok++; n--;
    if(!strcmp(m,"hash")) run_map(tok,n,0); else if(!strcmp(m,"sortmap")) run_map(tok,n,1);
    else if(!strcmp(m,"list")) run_list(tok,n); else if(!strcmp(m,"pq")) run_pq(tok,n);
    else if(!strcmp(m,"sort")) run_sort(tok,n); else if(!strcmp(m,"alist")) run_alist(tok,n);
    else if(!strcmp(m,"sbuf")) run_sbuf(tok,n); else if(!strcmp(m,"lbuf")) run_lbuf(tok,n);
}
