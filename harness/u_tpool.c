/* USE_RACE driver of the thread pool. Threads run one at a time under a
   scheduler of this file: it decides who goes on at every synchronisation call
   and at every memory access of the code (compiled with -fsanitize=thread, whose
   hooks are implemented here). Scenario: WORKERS SCHEDULE STEP...
   schedule: rSEED:P[:S] preempt with P per mille at each point, wake waiters for
   no reason S per mille; sID,ID,... who goes on at each synchronisation point.
   steps: i:T,T,...  a thread inserting these tasks; +  wait until nothing moves;
   o:T  open the gate of task T. A task Tg waits at its gate, TsU inserts U. */
#include "stdafx.h"
#include "viriatum_commons.h"
#include "unit.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#define MAXT 400
enum { RUN, MUTEX, COND, GATE, QUIET, DONE };
typedef struct { sem_t s; int id,st; void *on; void*(*f)(void*); void*a; } T;
static T ts[MAXT]; static int nt,on_sched; static __thread T *me;
static int workers,inserters; static struct thread_pool_t *pool;
static unsigned long long rng; static int preempt,spur,guided; static int *guide,ng,gi;
static unsigned rnd(void){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return (unsigned)(rng>>16); }
static struct { void *m; T*owner; } ms[64]; static int nm;
static int mx(void*m){ for(int i=0;i<nm;i++) if(ms[i].m==m) return i; ms[nm].m=m; ms[nm].owner=0; return nm++; }
/* gives the turn to another thread; the caller goes on when it gets it back */
static void turn(T*n){ if(n==me) return; sem_post(&n->s); while(sem_wait(&me->s)&&errno==EINTR); }
static T *pick(int sync){
    T *c[MAXT]; int k=0;
    if(spur&&rnd()%1000<(unsigned)spur) for(int i=0;i<nt;i++) if(ts[i].st==COND){ ts[i].st=RUN; break; }
    for(int i=0;i<nt;i++) if(ts[i].st==RUN) c[k++]=&ts[i];
    if(!k){ for(int i=0;i<nt;i++) if(ts[i].st==QUIET){ ts[i].st=RUN; return &ts[i]; } return 0; }
    if(guided){ if(sync) while(gi<ng){ int w=guide[gi++]; for(int i=0;i<k;i++) if(c[i]->id==w) return c[i]; if(me&&me->st==RUN) return me; break; } if(me&&me->st==RUN) return me; return c[0]; }
    return c[rnd()%k];
}
static void point(int sync){ if(!on_sched||!me) return; if(!guided&&rnd()%1000>=(unsigned)preempt) return; if(guided&&!sync) return; turn(pick(sync)); }
static void block(int st,void*o){ me->st=st; me->on=o; T*n=pick(1); if(!n){ /* deadlock of everything, main included */ abort(); } turn(n); }
/* ---- memory accesses ---- */
#define P(n) void __tsan_##n(void*a){ point(0); }
P(read1)P(read2)P(read4)P(read8)P(read16)P(write1)P(write2)P(write4)P(write8)P(write16)
P(unaligned_read2)P(unaligned_read4)P(unaligned_read8)P(unaligned_read16)P(unaligned_write2)P(unaligned_write4)P(unaligned_write8)P(unaligned_write16)
P(read1_pc)P(volatile_read1)P(volatile_read2)P(volatile_read4)P(volatile_read8)P(volatile_write1)P(volatile_write2)P(volatile_write4)P(volatile_write8)
void __tsan_read_range(void*a,long n){ point(0); } void __tsan_write_range(void*a,long n){ point(0); }
void __tsan_func_entry(void*p){} void __tsan_func_exit(void){} void __tsan_init(void){} void __tsan_vptr_update(void**a,void*b){} void __tsan_vptr_read(void**a){}
#define A(b,t) t __tsan_atomic##b##_load(const volatile t*a,int m){ point(1); return *a; } void __tsan_atomic##b##_store(volatile t*a,t v,int m){ point(1); *a=v; } \
 t __tsan_atomic##b##_exchange(volatile t*a,t v,int m){ point(1); t o=*a; *a=v; return o; } t __tsan_atomic##b##_fetch_add(volatile t*a,t v,int m){ point(1); t o=*a; *a=o+v; return o; } \
 t __tsan_atomic##b##_fetch_sub(volatile t*a,t v,int m){ point(1); t o=*a; *a=o-v; return o; } t __tsan_atomic##b##_fetch_or(volatile t*a,t v,int m){ point(1); t o=*a; *a=o|v; return o; } t __tsan_atomic##b##_fetch_and(volatile t*a,t v,int m){ point(1); t o=*a; *a=o&v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t*a,t*e,t v,int m,int f){ point(1); if(*a==*e){*a=v;return 1;} *e=*a; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile t*a,t*e,t v,int m,int f){ return __tsan_atomic##b##_compare_exchange_strong(a,e,v,m,f); } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t*a,t e,t v,int m,int f){ point(1); t o=*a; if(o==e)*a=v; return o; }
A(8,unsigned char)A(16,unsigned short)A(32,unsigned int)A(64,unsigned long)
void __tsan_atomic_thread_fence(int m){ point(1); } void __tsan_atomic_signal_fence(int m){}
/* ---- synchronisation calls ---- */
int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void *tramp(void*p){ me=p; while(sem_wait(&me->s)&&errno==EINTR); void*r=me->f(me->a); me->st=DONE; T*n=pick(1); if(n) sem_post(&n->s); else abort(); return r; }
int __wrap_pthread_create(pthread_t*t,const pthread_attr_t*at,void*(*f)(void*),void*a){
    if(!on_sched) return __real_pthread_create(t,at,f,a);
    if(nt==MAXT) return EAGAIN;
    T*x=&ts[nt]; sem_init(&x->s,0,0); x->f=f; x->a=a; x->st=RUN; x->id=inserters<0?100-inserters--:++workers; nt++;
    pthread_attr_t n; pthread_attr_init(&n); pthread_attr_setstacksize(&n,128*1024); int r=__real_pthread_create(t,&n,tramp,x); if(r) exit(3); point(1); return 0; }
static void mx_lock(void*m){ for(;;){ int i=mx(m); if(!ms[i].owner){ ms[i].owner=me; return; } block(MUTEX,m); } }
static void mx_unlock(void*m){ int i=mx(m); ms[i].owner=0; for(int j=0;j<nt;j++) if(ts[j].st==MUTEX&&ts[j].on==m) ts[j].st=RUN; }
#define REAL(r,n,...) r __real_##n(__VA_ARGS__);
REAL(int,pthread_mutex_lock,pthread_mutex_t*) REAL(int,pthread_mutex_unlock,pthread_mutex_t*) REAL(int,pthread_mutex_trylock,pthread_mutex_t*)
REAL(int,pthread_cond_wait,pthread_cond_t*,pthread_mutex_t*) REAL(int,pthread_cond_signal,pthread_cond_t*) REAL(int,pthread_cond_broadcast,pthread_cond_t*)
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(!on_sched||!me) return __real_pthread_mutex_lock(m); point(1); mx_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ if(!on_sched||!me) return __real_pthread_mutex_trylock(m); point(1); int i=mx(m); if(ms[i].owner) return EBUSY; ms[i].owner=me; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ if(!on_sched||!me) return __real_pthread_mutex_unlock(m); mx_unlock(m); point(1); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!on_sched||!me) return __real_pthread_cond_wait(c,m); mx_unlock(m); block(COND,c); mx_lock(m); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*t){ mx_unlock(m); point(1); mx_lock(m); return ETIMEDOUT; }
static int waiters(void*c,T**w){ int k=0; for(int i=0;i<nt;i++) if(ts[i].st==COND&&ts[i].on==c) w[k++]=&ts[i]; return k; }
int __wrap_pthread_cond_signal(pthread_cond_t*c){ if(!on_sched||!me) return __real_pthread_cond_signal(c); T*w[MAXT]; int k=waiters(c,w); if(k) w[guided?0:rnd()%k]->st=RUN; point(1); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t*c){ if(!on_sched||!me) return __real_pthread_cond_broadcast(c); T*w[MAXT]; int k=waiters(c,w); while(k) w[--k]->st=RUN; point(1); return 0; }
/* ---- tasks ---- */
static int gate[64],spawn[64],opened[64];
static void insert(int t);
static int body(int t){
    ev(); out("{\"o\":\"start\",\"th\":%d,\"t\":%d}",me->id,t); point(1);
    if(gate[t]&&!opened[t]) block(GATE,(void*)(long)t);
    if(spawn[t]) insert(spawn[t]);
    point(1); ev(); out("{\"o\":\"end\",\"th\":%d,\"t\":%d}",me->id,t); return 0; }
#define F(n) static int f##n(void*a){ return body(n); }
F(0)F(1)F(2)F(3)F(4)F(5)F(6)F(7)F(8)F(9)F(10)F(11)F(12)F(13)F(14)F(15)F(16)F(17)F(18)F(19)F(20)F(21)F(22)F(23)F(24)
static int (*fs[])(void*)={f0,f1,f2,f3,f4,f5,f6,f7,f8,f9,f10,f11,f12,f13,f14,f15,f16,f17,f18,f19,f20,f21,f22,f23,f24};
static struct thread_pool_task_t tk[25];
static void insert(int t){
    tk[t].start_function=fs[t]; ev(); out("{\"o\":\"call\",\"th\":%d,\"t\":%d}",me->id,t); point(1);
    insert_task_thread_pool(pool,&tk[t]); point(1); ev(); out("{\"o\":\"ret\",\"th\":%d}",me->id); }
static void *inserter(void*a){ int*l=a; for(;*l;l++){ point(1); insert(*l); } return 0; }
static void go(char**tok,int n){
    char*s=tok[1]; preempt=spur=guided=ng=gi=0; rng=88172645463325252ull;
    if(*s=='r'){ unsigned long long sd=strtoull(s+1,&s,10); rng^=sd*0x9E3779B97F4A7C15ull; if(!rng)rng=1; for(int i=0;i<9;i++)rnd(); preempt=atoi(s+1); s=strchr(s+1,':'); spur=s?atoi(s+1):0; }
    else { guided=1; guide=malloc(sizeof(int)*(strlen(s)+1)); for(s++;*s;){ guide[ng++]=strtol(s,&s,10); if(*s==',')s++; } }
    nt=0; me=&ts[nt++]; me->id=0; me->st=RUN; sem_init(&me->s,0,0); on_sched=1; inserters=0; workers=0; 
    create_thread_pool(&pool,atoi(tok[0]),1,atoi(tok[0])*2); inserters=-1;
    for(int i=2;i<n;i++){
        char*p=tok[i];
        if(*p=='+'){ block(QUIET,0); ev(); out("{\"o\":\"quiet\"}"); }
        else if(*p=='o'){ int t=atoi(p+2); opened[t]=1; for(int j=0;j<nt;j++) if(ts[j].st==GATE&&ts[j].on==(void*)(long)t) ts[j].st=RUN; }
        else { int*l=calloc(strlen(p)+1,sizeof*l),k=0; for(p+=2;*p;){ int t=strtol(p,&p,10); if(*p=='g'){gate[t]=1;p++;} if(*p=='s'){ spawn[t]=strtol(p+1,&p,10);} l[k++]=t; if(*p==',')p++; }
            pthread_t x; __wrap_pthread_create(&x,0,inserter,l); }
    }
    block(QUIET,0); ev(); out("{\"o\":\"quiet\"}"); on_sched=0;
}
static void run(char**tok,int n){
    int p[2]; if(pipe(p)) exit(3); fflush(0); size_t base=on; pid_t c=fork(); if(c<0) exit(3);
    if(!c){ alarm(15); close(p[0]); on=0; go(tok,n); size_t w=0; while(w<on){ ssize_t k=write(p[1],ob+w,on-w); if(k<=0)_exit(3); w+=k; } _exit(0); }
    close(p[1]); char b[4097]; ssize_t k; while((k=read(p[0],b,4096))>0){ b[k]=0; out("%s",b); } close(p[0]);
    int st; waitpid(c,&st,0); if(WIFSIGNALED(st)){ signal(WTERMSIG(st),SIG_DFL); if(WTERMSIG(st)==SIGALRM) raise(SIGALRM); raise(WTERMSIG(st)); } if(WEXITSTATUS(st)) exit(WEXITSTATUS(st));
    (void)base;
}
