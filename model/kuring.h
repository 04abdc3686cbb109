// A model of the kernel side of io_uring, eventfd and pipes, behind the real liburing accessors.
#pragma once
#include "ksched.h"
#include <liburing.h>
extern "C" {
// supplied by the harness ------------------------------------------------------
bool kur_ready(const io_uring_sqe* op);     // can this operation complete now?  (weak default: yes)
int kur_result(const io_uring_sqe* op);     // its result, with its effects on memory; called once
void kur_submitted(const io_uring_sqe* op); // the kernel has taken it (weak default: nothing)
// settings and observations ----------------------------------------------------
struct KurCfg { int anyOrder; int maxBatch; int failInit; int failSubmit; int failWait; int lateSubmit; };
extern KurCfg kur;
int kur_inflight();                         // operations the kernel holds, wakeup reads excluded
bool kur_idle();                             // every worker sleeps in the kernel, with nothing to wake it
int kur_rings();                            // rings set up and not torn down
int kur_live_fds();                         // open eventfds, pipes
int kfd_make(int tag); void kfd_assert_closed(); int kfd_tag_of(int fd);
extern int kfd_next_fail;                   // errno to fail the next pipe()/eventfd() with
}
