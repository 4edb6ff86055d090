/* USE_SERVER: driver of the request parser. Scenario: streams "xHEX:C,C,..."
each given to a fresh parser in calls that end at the positions C; what a call
leaves is given to the next call at once, as the server does. Bytes not yet
delivered are filled with rubbish. */
#include "stdafx.h"
#include "viriatum.h"
#include "unit.h"
static int cbs; static unsigned char*bd; static size_t bn;
static void flush(void){ if(!bn) return; out(cbs++?",":""); out("{\"k\":\"body\",\"v\":"); outbytes(bd,bn); out("}"); bn=0; }
static void cb(const char*k){ flush(); out("%s{\"k\":\"%s\"",cbs++?",":"",k); }
static ERROR_CODE on_begin(struct http_parser_t*p){ cb("begin"); out("}"); return 0; }
static ERROR_CODE on_url(struct http_parser_t*p,const unsigned char*d,size_t n){ cb("url"); out(",\"m\":%d,\"v\":",p->method); outbytes(d,n); out("}"); return 0; }
static ERROR_CODE on_line(struct http_parser_t*p){ cb("line"); out(",\"maj\":%d,\"min\":%d}",p->http_major,p->http_minor); return 0; }
static ERROR_CODE on_field(struct http_parser_t*p,const unsigned char*d,size_t n){ cb("field"); out(",\"v\":"); outbytes(d,n); out("}"); return 0; }
static ERROR_CODE on_value(struct http_parser_t*p,const unsigned char*d,size_t n){ cb("value"); out(",\"v\":"); outbytes(d,n); out("}"); return 0; }
static ERROR_CODE on_headers(struct http_parser_t*p){ cb("headers"); out(",\"keep\":%s,\"close\":%s,\"chunked\":%s,\"cl\":%d}",p->flags&2?"true":"false",p->flags&4?"true":"false",p->flags&1?"true":"false",p->content_length); return 0; }
static ERROR_CODE on_body(struct http_parser_t*p,const unsigned char*d,size_t n){ memcpy(bd+bn,d,n); bn+=n; return 0; }
static ERROR_CODE on_complete(struct http_parser_t*p){ cb("complete"); out("}"); return 0; }
static void run(char**tok,int n){
    struct http_settings_t*s; create_http_settings(&s);
    s->on_message_begin=on_begin; s->on_url=on_url; s->on_line=on_line; s->on_header_field=on_field; s->on_header_value=on_value; s->on_headers_complete=on_headers; s->on_body=on_body; s->on_message_complete=on_complete;
    for(int i=0;i<n;i++){
        char*c=strchr(tok[i],':'); if(c)*c++=0; size_t z; unsigned char*all=unhexs(tok[i],&z,0),*b=malloc(z?z:1); memset(b,'!',z); bd=malloc(z+1);
        struct http_parser_t*p; create_http_parser(&p,1);
        ev(); out("{\"o\":\"new\"}");
        size_t at=0,have=0; int stop=0;
        while(have<z&&!stop){
            size_t to=z; if(c&&*c){ to=strtoul(c,&c,10); if(*c==',')c++; }
            if(to>z)to=z; memcpy(b+have,all+have,to-have); have=to;
            while(at<have){
                ev(); out("{\"o\":\"call\",\"d\":"); outbytes(b+at,have-at); out(",\"cb\":["); cbs=0; bn=0;
                int r=process_data_http_parser(p,s,b+at,have-at); flush();
                out("],\"ret\":%d}",r);
                if(r<=0){ stop=1; break; }
                at+=r;
            }
        }
        delete_http_parser(p); free(b); free(all); free(bd);
    }
    delete_http_settings(s);
}
