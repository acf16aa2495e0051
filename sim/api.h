/* What the simulator offers to the rank programs (besides mpi.h). */
#ifndef VERIF_API_H
#define VERIF_API_H
#include <stddef.h>
#include <stdint.h>
#include "scenario.h"
#include "mpi.h"

// what a violation is about; a check counts only the kinds its property owns (fatal ones always)
enum Cat { C_NONE = 0, C_FATAL, C_RESULT, C_INPUT, C_OOB, C_COMM, C_LEFTOVER, C_LEAK, C_ISOLATION, C_PLAN, C_REJECT,
           C_SUBRANK, C_TRACE, C_CAPI, C_NONDET, C_SIZE, C_ALLOC, C_PROGRESS, C_CONTAINER, C_BATCH, C_RECIPE, C_GPU, C_COUNT };

extern "C" {
void sim_violation(int cat, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void sim_lib_enter(int op, const char *what);
void sim_set_op(int op);   // the calling rank enters the code under test
void sim_lib_leave();
int  sim_in_lib();
int  sim_rank();
Scenario const *sim_scenario();
MPI_Comm sim_comm(int comm_index);              // the calling rank's handle or MPI_COMM_NULL
int  sim_comm_rank_of(int comm_index);          // calling rank's rank in that communicator or -1
// guarded buffers: an access outside [p, p+bytes) faults; tail == 1 puts the end, 0 the start against the guard page
void *sim_buf(size_t bytes, size_t align, int tail, int fill);
void  sim_buf_readonly(void *p, int ro);
void  sim_buf_check(void *p, const char *what);
void  sim_buf_free(void *p);
uint64_t sim_rand();                            // data randomness of the calling rank (not schedule randomness)
// oracle
void sim_fill(int op, void *dst);               // this rank's share of the input of an execution (all batches)
void sim_check_input(int op, const void *src);  // it must still be what sim_fill put there
void sim_check_output(int op, const void *src); // this rank's share of the output
void sim_abandon(const char *why);              // this rank stops here: a fault made going on meaningless
void sim_survived();                            // the call went well after all: every check applies again
int  sim_faulted();                             // a failing allocation has been injected on this rank
void sim_arm_alloc(int op);
void sim_checkpoint(int tag);
void sim_probe(int id);
void sim_note(uint64_t v);                      // adds to the event log hash of the calling rank
uint64_t sim_profile();                         // which communication the calling rank has asked for so far, whatever the order
void sim_output_hash(int op, const void *p, size_t bytes);
void sim_set_factor(int op, double full);        // the plan's own full scaling (sine/cosine plans)
void sim_set_box(int plan, int side, int rank, SBox const *b); // boxes the rank programs computed themselves
const char *sim_scratch();                      // directory for trace files
size_t sim_lib_live();                          // bytes allocated by library code on this rank and not released
void sim_stage(int op, int tag, const void *p, size_t bytes); // per-rank facts compared across ranks
}
enum Probe { PR_EMPTY_BOX = 0, PR_NULL_SHAPER0, PR_BATCH, PR_INPLACE, PR_SUBRANKS, PR_ODD_R2C, PR_EFENCE, PR_ALLOC_FAILED, PR_REJECTED,
             PR_INT64, PR_MOVED, PR_REALSIDE, PR_RECIPE, PR_USERMSG, PR_SHORTVEC, PR_TRACEFILE, PR_CAPI_ERR, PR_ALLOC_SURVIVED, PR_PERMUTED_COMM,
             PR_WAITANY_CHOICE, PR_UNEXPECTED, PR_RDV_SEND, PR_EAGER_SEND, PR_COLL_EARLY, PR_COLL_SYNC, PR_CLOCK_JUMP, PR_TRACE_FAULT, PR_MULTI_PLAN,
             PR_A2A, PR_A2AV, PR_P2P, PR_PLINED, PR_ORDER, PR_TWOD, PR_STALL, PR_LARGE_DIM, PR_DEVOP, PR_DEVMPI, PR_COUNT };
extern const char *probe_names[];
// entry points of a rank-program copy
extern "C" { typedef void (*rank_main_t)(int rank); }
#endif
