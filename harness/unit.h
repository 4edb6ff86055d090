/* runner shared by the drivers of the common library: reads scenarios (one per
line, blank separated tokens, the first one its id), runs each through run() in
a child process and writes one JSON line per scenario: what the calls returned.
A child that dies is reported with its last scenario and the run continues. */
#define _GNU_SOURCE
#include <sys/prctl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
static char *ob; static size_t on,oc; static int first;
static void out(const char *f,...){va_list a;for(;;){va_start(a,f);int k=vsnprintf(ob+on,oc-on,f,a);va_end(a);if((size_t)k<oc-on){on+=k;return;}oc=oc*2+k;ob=realloc(ob,oc);}}
static void ev(void){ if(!first) out(","); first=0; }
static void outbytes(const unsigned char*p,size_t n){out("[");for(size_t i=0;i<n;i++)out(i?",%d":"%d",p[i]);out("]");}
static void outstr(const char*s){ if(!s) out("[-1]"); else outbytes((const unsigned char*)s,strlen(s)); }
/* hexadecimal token "x61ff" to bytes in a block of exactly its size (so that the
sanitizer sees any access beyond it); nul adds a terminator */
static unsigned char *unhexs(const char*t,size_t*n,int nul){ size_t k=strlen(t)/2; if(t[0]=='x')t++; k=strlen(t)/2; unsigned char*p=malloc(k+nul+(k+nul==0)); for(size_t i=0;i<k;i++){unsigned v;sscanf(t+2*i,"%2x",&v);p[i]=v;} if(nul)p[k]=0; if(n)*n=k; return p; }
static void run(char **tok,int n);
static const char *workdir;
int main(int argc,char**argv){
    prctl(PR_SET_PDEATHSIG,SIGKILL); if(argc<5)return 2;
    int part=atoi(argv[3]),parts=atoi(argv[4]),tmo=argc>5?atoi(argv[5]):20; workdir=argc>6?argv[6]:".";
    FILE*f=fopen(argv[1],"r"); if(!f)return 2; char**L=0;size_t nl=0,cl=0;char*ln=0;size_t lc=0;ssize_t k;size_t c=0;
    while((k=getline(&ln,&lc,f))>0){ if(ln[k-1]=='\n')ln[k-1]=0; if((int)(c++%parts)!=part)continue; if(nl==cl){cl=cl*2+64;L=realloc(L,cl*sizeof*L);} L[nl++]=strdup(ln);} fclose(f);
    int o=open(argv[2],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(o<0)return 2;
    volatile size_t *cur=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *cur=0;
    char en[4096]; snprintf(en,sizeof en,"%s.err",argv[2]);
    struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
    int dn=open("/dev/null",O_RDWR);
    int hangs=0,maxhangs=getenv("VHANGS")?atoi(getenv("VHANGS")):0;
    while(*cur<nl){
        if(maxhangs&&hangs>=maxhangs){ char*id=strdup(L[*cur]),*sp=strchr(id,' '); if(sp)*sp=0; ob=ob?ob:malloc(oc=65536); on=0; out("{\"id\":\"%s\",\"skip\":true}\n",id); if(write(o,ob,on)<0)return 2; free(id); ++*cur; continue; }
        int e=open(en,O_RDWR|O_CREAT|O_TRUNC,0644);
        pid_t p=fork(); if(p<0)return 2;
        if(!p){ prctl(PR_SET_PDEATHSIG,SIGKILL);
            dup2(dn,0);dup2(dn,1);dup2(e,2);
            oc=65536;ob=malloc(oc);
            for(;*cur<nl;++*cur){
                on=0;first=1; char*s=strdup(L[*cur]),*save=0,**tok=malloc((strlen(s)/2+2)*sizeof*tok);int n=0;
                for(char*t=strtok_r(s," ",&save);t;t=strtok_r(0," ",&save))tok[n++]=t; tok[n]=0;
                alarm(tmo);
                out("{\"id\":\"%s\",\"ev\":[",tok[0]); run(tok+1,n-1); out("]}\n");
                alarm(0);
                size_t w=0; while(w<on){ssize_t k=write(o,ob+w,on-w); if(k<0)_exit(3); w+=k;}
                free(tok);free(s);
            }
            _exit(0);
        }
        int st; waitpid(p,&st,0);
        if(WIFEXITED(st)&&WEXITSTATUS(st)==0){close(e);break;}
        if(WIFEXITED(st)&&WEXITSTATUS(st)==3)return 2;
        static char b[3000]; lseek(e,0,SEEK_SET); ssize_t n=read(e,b,sizeof b-1); close(e); if(n<0)n=0;b[n]=0;
        char *m=strstr(b,"ERROR: "); if(!m)m=strstr(b,"Assertion"); if(!m)m=b; char*z=strchr(m,'\n'); if(z)*z=0; for(char*q=m;*q;q++)if(*q=='"'||*q=='\\'||(unsigned char)*q<32||(unsigned char)*q>126)*q='\'';
        if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM) hangs++;
        char *id=strdup(L[*cur]); char*sp=strchr(id,' '); if(sp)*sp=0;
        ob=ob?ob:malloc(oc=65536); on=0; out("{\"id\":\"%s\",\"crash\":\"%s %d: %s\"}\n",id,WIFSIGNALED(st)?(WTERMSIG(st)==SIGALRM?"hang: signal":"signal"):"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st),m);
        if(write(o,ob,on)<0)return 2;
        ++*cur;
    }
    unlink(en);
    return 0;
}
