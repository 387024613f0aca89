#ifndef VMPI_H
#define VMPI_H
/* Control interface of the instrumented MPI stand-in. */
#include <stddef.h>
#include <stdint.h>
#define VM_MAXNP 80
#define VM_NCOUNT 192

struct vm_mode {
  int sync_pct;      /* % of sends that are synchronous (rendezvous, data copied late) */
  int late_pct;      /* % chance that possible progress is postponed at a non-blocking call */
  int switch_pct;    /* % of MPI calls that are scheduling points */
  int policy;        /* 0 uniform, 1 run-to-block, 2 starve one rank, 3 round robin */
  int victim;
};

/* result of a world, in the parent */
enum { VMR_OK=0, VMR_VIOL, VMR_CRASH, VMR_HANG, VMR_EXIT };
struct vm_result {
  int status;
  int rank;          /* rank that failed */
  int exitcode, sig;
  long case_idx;     /* case being run when it failed, -1 if none */
  char key[160];
  char msg[4096];
  char *out;         /* captured stdout+stderr tail (malloced) */
  char *events;      /* tail of the MPI event log (malloced) */
};

struct vm_stats { /* per rank counters, monotonic */
  uint64_t sends, send_bytes, recvs, colls, waits, dups, frees;
};

/* parent side */
typedef void vm_main_fn(void *arg);
int  vm_run(int np, uint64_t seed, vm_main_fn *fn, void *arg, double hang_s, struct vm_result *res);
void vm_result_free(struct vm_result *res);

/* parent-visible counters (accumulated over worlds) */
extern uint64_t vm_total_steps; extern double vm_maxgap; /* longest time without a sign of progress */
uint64_t vm_last_world_steps(void);
extern const char *vm_count_name[VM_NCOUNT];
extern uint64_t vm_count_total[VM_NCOUNT];
/* signature sink: called in the parent for every signature recorded by rank 0 */
extern void (*vm_sig_sink)(uint64_t sig, uint64_t sched);
extern void (*vm_text_sink)(const char *kind, const char *text);

/* rank side */
int  vm_rank(void); int vm_np(void);
void vm_case_begin(long idx, uint64_t seed, const struct vm_mode *mode); /* collective */
void vm_case_end(void);      /* collective; checks that nothing is left pending */
long vm_case(void);
void vm_barrier(void);       /* harness-internal barrier, not an MPI call */
/* harness-internal allgather (fixed size block per rank) */
void vm_gatherall(const void *mine, size_t n, void *all);
void *vm_share(const void *mine, size_t n, size_t *ns, size_t *total); /* variable size; malloced result */
_Noreturn void vm_violation(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
void vm_count(const char *name, uint64_t n);
void vm_max(const char *name, uint64_t v);
void vm_sig(uint64_t sig);   /* record a distinct-case signature (rank 0 only has effect) */
void vm_text(const char *kind, const char *fmt, ...) __attribute__((format(printf,2,3)));
void vm_beat(void);
const struct vm_stats *vm_stats(void);
int  vm_live_comms(void);    /* live derived communicators on this rank */
int  vm_live_requests(void);
void vm_expect_exit(int on); /* an exit()/abort from now on is what the case wants */
#include <setjmp.h>
extern jmp_buf vm_exit_jmp; extern int vm_exit_armed, vm_exit_status;   /* while armed, exit() jumps */
void vm_done(void);          /* rank finished the world normally */
uint64_t vm_sched_hash(void);

/* heap monitor (allocations made by the library through malloc/realloc/calloc/free) */
struct vm_heap { long blocks; long bytes; uint64_t nalloc; };
void vm_heap_get(struct vm_heap *h);
uint64_t vm_heap_mark(void);                       /* serial of the next allocation */
void vm_heap_sites(uint64_t since, char *out, size_t n); /* describe live blocks born since */
void vm_heap_verify(const char *what);             /* check canaries of all live blocks */
extern int vm_heap_hostile;                        /* fill + always move on realloc */
extern int vm_heap_fail_after;                     /* if >=0: the allocation after that many fails */
#endif
