// Collective operations between forked processes.  Every collective is one rendezvous of all ranks: each
// rank publishes what it calls (operation, count, type, root) and its data; a rank that meets a different
// call, or a rank that has left for good, is a mismatch and is reported (real MPI would hang or corrupt).
#include "mpi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sched.h>
#include <unistd.h>
#include <sys/time.h>

namespace {
const int MAXR = 16;
const long SLOT = 1 << 20;
struct Shared {
    volatile long arrived[MAXR];      // rendezvous number each rank has reached (two per collective)
    volatile int gone[MAXR];
    volatile int failed;
    volatile long calls;
    char message[512];
    int sig[MAXR][4];
    char data[MAXR][SLOT];
};
Shared * g = 0;
int g_rank = 0, g_size = 1, g_order = 0;
long g_round = 0;

void fail(const char * fmt, const char * op, int a, int b, int c)
{
    if (!g->failed) {
        g->failed = 1;
        snprintf(g->message, sizeof(g->message), fmt, op, a, b, c);
    }
    _exit(77);
}

void meet(const char * op)
{
    ++g_round;
    __sync_synchronize();
    g->arrived[g_rank] = g_round;
    for (int r = 0; r < g_size; ++r) {
        long n = 0;
        while (g->arrived[r] < g_round) {
            if (g->failed) _exit(77);
            if (g->gone[r] && g->arrived[r] < g_round)
                fail("%s: rank %d waits for rank %d which has finished (call %d)", op, g_rank, r, (int)g_round);
            if (++n < 50) sched_yield(); else usleep(n < 500 ? 20 : 200);
        }
    }
    __sync_synchronize();
}

size_t width(int t)
{
    switch (t) {
    case MPI_CHAR: return 1;
    case MPI_INT: case MPI_UNSIGNED: return sizeof(int);
    case MPI_FLOAT: return sizeof(float);
    default: return 8;
    }
}

void publish(const char * name, int op, int count, int type, int extra, const void * buf, size_t bytes)
{
    if (bytes > (size_t)SLOT) { fprintf(stderr, "fakempi: message too large\n"); _exit(78); }
    g->sig[g_rank][0] = op; g->sig[g_rank][1] = count; g->sig[g_rank][2] = type; g->sig[g_rank][3] = extra;
    if (buf && bytes) memcpy(g->data[g_rank], buf, bytes);
    meet(name);
    for (int r = 0; r < g_size; ++r)
        for (int k = 0; k < 4; ++k)
            if (g->sig[r][k] != g->sig[g_rank][k])
                fail("%s: different collective calls on rank %d and rank %d (field %d)", name, g_rank, r, k);
    if (g_rank == 0) ++g->calls;
}

template <class T> void reduce(T * out, int count, int op)
{
    for (int i = 0; i < count; ++i) {
        T v = T();
        for (int k = 0; k < g_size; ++k) {
            const int r = (k + g_order) % g_size;       // the order of a reduction is not fixed by MPI
            const T x = reinterpret_cast<T *>(g->data[r])[i];
            if (k == 0) v = x;
            else switch (op) {
                case MPI_SUM: v = v + x; break;
                case MPI_MAX: v = x > v ? x : v; break;
                case MPI_MIN: v = x < v ? x : v; break;
                case MPI_PROD: v = v * x; break;
                case MPI_LOR: v = v || x; break;
                case MPI_LAND: v = v && x; break;
            }
        }
        out[i] = v;
    }
}
}

extern "C" {
__attribute__((visibility("default"))) long fakempi_bytes() { return sizeof(Shared); }
__attribute__((visibility("default"))) void fakempi_setup(void * p, int rank, int size, int order)
{ g = (Shared *)p; g_rank = rank; g_size = size; g_order = order; g_round = 0; }
__attribute__((visibility("default"))) void fakempi_gone() { if (g) { __sync_synchronize(); g->gone[g_rank] = 1; } }
__attribute__((visibility("default"))) const char * fakempi_message(void * p) { return ((Shared *)p)->message; }
__attribute__((visibility("default"))) long fakempi_calls(void * p) { return ((Shared *)p)->calls; }

int MPI_Init(int *, char ***) { return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Comm_rank(MPI_Comm, int * r) { *r = g_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int * s) { *s = g_size; return 0; }
int MPI_Abort(MPI_Comm, int code) { _exit(code); }
double MPI_Wtime(void) { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

int MPI_Barrier(MPI_Comm)
{
    if (g_size == 1 || !g) return 0;
    publish("MPI_Barrier", 1, 0, 0, 0, 0, 0);
    meet("MPI_Barrier");
    return 0;
}

int MPI_Bcast(void * buf, int count, MPI_Datatype t, int root, MPI_Comm)
{
    if (g_size == 1 || !g) return 0;
    const size_t n = width(t) * count;
    publish("MPI_Bcast", 2, count, t, root, buf, n);
    memcpy(buf, g->data[root], n);
    meet("MPI_Bcast");
    return 0;
}

static void doreduce(void * out, int count, int t, int op)
{
    switch (t) {
    case MPI_INT: reduce((int *)out, count, op); break;
    case MPI_UNSIGNED: reduce((unsigned *)out, count, op); break;
    case MPI_DOUBLE: reduce((double *)out, count, op); break;
    case MPI_FLOAT: reduce((float *)out, count, op); break;
    case MPI_CHAR: reduce((char *)out, count, op); break;
    default: reduce((long long *)out, count, op); break;
    }
}

int MPI_Allreduce(const void * s, void * r, int count, MPI_Datatype t, MPI_Op op, MPI_Comm)
{
    if (g_size == 1 || !g) { memmove(r, s, width(t) * count); return 0; }
    publish("MPI_Allreduce", 3, count, t, op, s, width(t) * count);
    doreduce(r, count, t, op);
    meet("MPI_Allreduce");
    return 0;
}

int MPI_Reduce(const void * s, void * r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm)
{
    if (g_size == 1 || !g) { memmove(r, s, width(t) * count); return 0; }
    publish("MPI_Reduce", 4, count, t, op * 100 + root, s, width(t) * count);
    if (g_rank == root) doreduce(r, count, t, op);
    meet("MPI_Reduce");
    return 0;
}

int MPI_Allgather(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, MPI_Comm)
{
    const size_t b = width(t) * n;
    if (g_size == 1 || !g) { memmove(r, s, b); return 0; }
    publish("MPI_Allgather", 5, n, t, 0, s, b);
    for (int k = 0; k < g_size; ++k) memcpy((char *)r + k * b, g->data[k], b);
    meet("MPI_Allgather");
    return 0;
}

int MPI_Allgatherv(const void * s, int n, MPI_Datatype t, void * r, const int * c, const int * d, MPI_Datatype, MPI_Comm)
{
    const size_t w = width(t);
    if (g_size == 1 || !g) { memmove((char *)r + w * d[0], s, w * n); return 0; }
    publish("MPI_Allgatherv", 6, 0, t, 0, s, w * n);
    for (int k = 0; k < g_size; ++k) memcpy((char *)r + w * d[k], g->data[k], w * c[k]);
    meet("MPI_Allgatherv");
    return 0;
}

int MPI_Gather(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, int root, MPI_Comm)
{
    const size_t b = width(t) * n;
    if (g_size == 1 || !g) { memmove(r, s, b); return 0; }
    publish("MPI_Gather", 7, n, t, root, s, b);
    if (g_rank == root) for (int k = 0; k < g_size; ++k) memcpy((char *)r + k * b, g->data[k], b);
    meet("MPI_Gather");
    return 0;
}

int MPI_Scatter(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, int root, MPI_Comm)
{
    const size_t b = width(t) * n;
    if (g_size == 1 || !g) { memmove(r, s, b); return 0; }
    publish("MPI_Scatter", 8, n, t, root, g_rank == root ? s : 0, g_rank == root ? b * g_size : 0);
    memcpy(r, g->data[root] + g_rank * b, b);
    meet("MPI_Scatter");
    return 0;
}

// Wall clocks differ between the ranks.
time_t time(time_t * p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    const time_t t = ts.tv_sec + 1000 * g_rank;
    if (p) *p = t;
    return t;
}
}
